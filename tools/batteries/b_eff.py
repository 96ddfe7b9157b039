C='spv/logical/control_flow.rs'
R='spv/raw/reader.rs'
RM='spv/raw/mod.rs'
P='spv/logical/parser/parser.rs'
PROPS=['C20','C21']
LOOP="""    while !stream.is_end() {
        let instr = try!(read_instruction(&mut stream, &known_inst_sets, &mut bound_inst_sets));
        instructions.push(instr);
    }
"""
MANY=open('/repo/src/'+P).read()
MANY=MANY[MANY.index('fn read_many<T>'):MANY.index('fn read_capability')]
DISP="""        for inst in &self.instructions {
            try!(write!(f, "{}\\n", inst));
        }
        Ok(())
"""
MAPLOOP="""        for block in &decl.blocks {
            let id = BlockId(block.label.result_id.0);
            if let None = start_opt {
                start_opt = Some(id);
            }
"""
MUT=[
# ---- C20 bugs
('C20',R,[(LOOP,"""    try!(read_rest(&mut stream, &known_inst_sets, &mut bound_inst_sets, &mut instructions));
"""),("struct Stream<'a> {","""fn read_rest(stream: &mut Stream, known: &[Box<ExtInstSet>], bound: &mut HashMap<OpId, Box<ExtInstSet>>, out: &mut Vec<Core>) -> ReadResult<()> {
    if stream.is_end() {
        return Ok(());
    }
    let instr = try!(read_instruction(stream, known, bound));
    out.push(instr);
    read_rest(stream, known, bound, out)
}

struct Stream<'a> {""")],None),
('C20',P,MANY,"""fn read_many<T>(insts: OpSlice, f: fn(OpSlice) -> PhaseResult<T>) -> ValidationResult<(Vec<T>, OpSlice)> {
    let mut output = Vec::new();
    let insts = try!(read_into(insts, f, &mut output));
    Ok((output, insts))
}

fn read_into<'a, T>(insts: OpSlice<'a>, f: fn(OpSlice) -> PhaseResult<T>, output: &mut Vec<T>) -> ValidationResult<OpSlice<'a>> {
    match f(insts) {
        PhaseResult::Ok(item, next) => {
            output.push(item);
            read_into(next, f, output)
        }
        PhaseResult::Next(next) => Ok(next),
        PhaseResult::Err(err) => Err(err),
    }
}

"""),
('C20',RM,[(DISP,"        fmt_all(&self.instructions, f)\n"),("/// Enumeration of all core instructions (incomplete)\n#[derive(Clone, Debug, PartialEq)]","""fn fmt_all(list: &[Core], f: &mut Formatter) -> fmt::Result {
    match list.split_first() {
        Some((inst, rest)) => {
            try!(write!(f, "{}\\n", inst));
            fmt_all(rest, f)
        }
        None => Ok(()),
    }
}

/// Enumeration of all core instructions (incomplete)
#[derive(Clone, Debug, PartialEq)]""")],None),
# lookup of instruction sets by recursion over the known sets: bounded by the caller's list, not the module, but grows with input all the same
# ---- C21 bugs
('C21',R,LOOP,LOOP+"    println!(\"{} instructions\", instructions.len());\n"),
('C21',R,LOOP,"    if std::env::var(\"MAGMAFLOW_STRICT\").is_ok() { return Err(ReadError::BadMagic); }\n"+LOOP),
('C21',R,[(LOOP,"    SEEN.fetch_add(1, std::sync::atomic::Ordering::SeqCst);\n"+LOOP),("struct Stream<'a> {","static SEEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\nstruct Stream<'a> {")],None),
('C21',R,[(LOOP,"    LAST.with(|l| l.set(l.get() + 1));\n"+LOOP),("struct Stream<'a> {","thread_local!(static LAST: std::cell::Cell<u32> = std::cell::Cell::new(0));\nstruct Stream<'a> {")],None),
('C21',R,LOOP,LOOP+"    let t = std::time::SystemTime::now();\n    if t < std::time::UNIX_EPOCH { return Err(ReadError::BadMagic); }\n"),
('C21',R,"            self.source = &self.source[4..];","            self.source = unsafe { self.source.get_unchecked(4..) };"),
('C21',C,"    let start = match start_opt {","    let start_opt = if decl.blocks.len() > 40 { block_map.keys().next().map(|k| *k) } else { start_opt };\n    let start = match start_opt {"),
('C21',C,MAPLOOP+"            if let Some(_) = map.insert(id, block) {\n                return Err(ControlFlowError::DuplicateBlockId(id));\n            }\n        }\n        map\n",MAPLOOP+"            if let Some(_) = map.insert(id, block) {\n                return Err(ControlFlowError::DuplicateBlockId(id));\n            }\n        }\n        for (id, b) in &map {\n            if let GroupBranch::OpBranch(ref op) = b.branch { if !map.contains_key(&BlockId(op.target_label.0)) { return Err(ControlFlowError::UnknownBlockId(*id)); } }\n        }\n        map\n"),
('C21',R,"""        for inst_set in known_inst_sets {
            if inst_set.get_name() == name {""","""        for s in bound_inst_sets.values() {
            if s.get_name() == name { return Ok((block, Core::OpExtInstImport(OpExtInstImport { result_id: ResultId(bound_inst_sets.keys().next().unwrap().0), name: name }))); }
        }
        for inst_set in known_inst_sets {
            if inst_set.get_name() == name {"""),
('C21',RM,DISP,"        try!(write!(f, \"; At {:p}\\n\", self));\n"+DISP),
# ---- harmless
('',R,LOOP,"""    loop {
        if stream.is_end() {
            break;
        }
        instructions.push(try!(read_instruction(&mut stream, &known_inst_sets, &mut bound_inst_sets)));
    }
"""),
('',R,[(LOOP,"    try!(read_rest(&mut stream, &known_inst_sets, &mut bound_inst_sets, &mut instructions));\n"),("struct Stream<'a> {","""fn read_rest(stream: &mut Stream, known: &[Box<ExtInstSet>], bound: &mut HashMap<OpId, Box<ExtInstSet>>, out: &mut Vec<Core>) -> ReadResult<()> {
    while !stream.is_end() {
        let instr = try!(read_instruction(stream, known, bound));
        out.push(instr);
    }
    Ok(())
}

struct Stream<'a> {""")],None),
('',RM,DISP,"        self.instructions.iter().map(|inst| write!(f, \"{}\\n\", inst)).collect()\n"),
('',RM,DISP,"        self.instructions.iter().fold(Ok(()), |r, inst| r.and_then(|_| write!(f, \"{}\\n\", inst)))\n"),
('',R,[("use std::collections::HashMap;","use std::collections::BTreeMap as HashMap;"),("use spv::ExtInstSet;","use spv::ExtInstSet;")],None) if False else ('',R,"let mut bound_inst_sets = HashMap::new();","let mut bound_inst_sets = HashMap::with_capacity(4);"),
('',C,"        match self.ptr {\n            Some(ref node) => node.merges(id),\n            None => false,\n        }","        self.ptr.as_ref().map_or(false, |node| node.merges(id))"),
('',C,"    let start = match start_opt {","    if block_map.values().any(|b| b.label.result_id.0 == 0) && false { return Err(ControlFlowError::NoBlocks); }\n    let start = match start_opt {"),
('',C,"    let start = match start_opt {","    let mut ids: Vec<BlockId> = block_map.keys().cloned().collect();\n    ids.sort_by(|a, b| a.0.cmp(&b.0));\n    if ids.len() != block_map.len() { return Err(ControlFlowError::UnknownBlockId(ids[0])); }\n    let start = match start_opt {"),
]
MUT=[(e,[(f,a,b) for a,b in o],None,None) if isinstance(o,list) else (e,f,o,n) for e,f,o,n in MUT]
