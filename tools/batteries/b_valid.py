P='spv/logical/parser/parser.rs'
M_='spv/logical/parser/mod.rs'
PROPS=['C15','C16','C17']
MUT=[
# bugs
('C16',P,"""    let (entry_points, insts) = try!(read_many(insts, read_entry_point));
    let (execution_modes, insts) = try!(read_many(insts, read_execution_mode));""","""    let (execution_modes, insts) = try!(read_many(insts, read_execution_mode));
    let (entry_points, insts) = try!(read_many(insts, read_entry_point));"""),
('C16',P,"    if insts.get_remaining() > 0 {","    if insts.get_remaining() > 1 {"),
('C17',P,"    if insts.get_remaining() < 2 {\n        return PhaseResult::Next(insts);\n    }\n    if let Some(&OpByBlock::OpFunction(ref op)) = insts.first() {\n        match read_many(insts.advance(), read_function_parameter) {\n            Ok((params, insts)) => {\n                let (blocks","    if insts.get_remaining() < 3 {\n        return PhaseResult::Next(insts);\n    }\n    if let Some(&OpByBlock::OpFunction(ref op)) = insts.first() {\n        match read_many(insts.advance(), read_function_parameter) {\n            Ok((params, insts)) => {\n                let (blocks"),
('C15',P,"                output.push(item);","                if output.len() < 4096 { output.push(item); }"),
('C15',P,"                        parameters: params,\n                        blocks: blocks,","                        parameters: Vec::new(),\n                        blocks: blocks,"),
('C15',M_,"            StorageClass::Function => GroupCode","            StorageClass::Function | StorageClass::Private => GroupCode"),
('C15',M_,"            OpSRem(op) => GroupCode::OpSRem(op).into(),","            OpSRem(op) => GroupCode::OpSMod(::spv::op::OpSMod { result_type: op.result_type, result_id: op.result_id, operand1: op.operand1, operand2: op.operand2 }).into(),"),
('C16',P,"Err(ValidationError::ExpectedOpFunctionEnd(insts.get_slot()))","Err(ValidationError::ExpectedOpFunctionEnd(insts.get_slot() + 1))"),
('C16',P,"Err(ValidationError::ExpectedBranch(insts.get_slot()))","Err(ValidationError::ExpectedOpFunctionEnd(insts.get_slot()))"),
('C15',P,"            merge: merge,","            merge: if code_len > 0 { merge } else { None },") if 0 else ('C15',P,"            merge: merge,","            merge: match branch { GroupBranch::OpReturn(_) => None, _ => merge },"),
('C15',P,"        (Some(op.clone()), insts.advance())","        (None, insts.advance())"),
('C16',P,"    let (debug, insts) = try!(read_many(insts, read_debug));","    let (mut debug, insts) = try!(read_many(insts, read_debug));\n    debug.dedup();"),
('C16',M_,"OpString(op) => GroupDebug::OpString(op).into()","OpString(op) => GroupDebug::OpString(op).into()") if 0 else ('C15',P,"        execution_modes: execution_modes,","        execution_modes: { let mut e = execution_modes; e.reverse(); e },"),
('C17',P,"    if let Some(&OpByBlock::OpFunctionEnd(_)) = insts.first() {\n                    let insts = insts.advance();","    if let Some(_) = insts.first() {\n                    let insts = insts.advance();"),
('C17',P,"                    PhaseResult::Next(start_insts)","                    PhaseResult::Err(ValidationError::ExpectedOpFunctionEnd(insts.get_slot()))"),
('C17',P,"        let (merge, insts) = read_merge(insts);","        let (merge, insts) = if code.is_empty() { (None, insts) } else { read_merge(insts) };"),
('C16',P,"        Err(ValidationError::MemoryModelMissing)","        Err(ValidationError::UnexpectedInstruction(insts.get_slot()))"),
('C16 ',P,"""    let (execution_modes, insts) = try!(read_many(insts, read_execution_mode));""","""    let (execution_modes, insts) = try!(read_many(insts, read_execution_mode));
    let (entry_points, insts) = { let (mut more, insts) = try!(read_many(insts, read_entry_point)); let mut e = entry_points; e.append(&mut more); (e, insts) };"""),
# harmless
('',P,"""    let mut output = Vec::new();
    loop {
        match f(insts) {
            PhaseResult::Ok(item, next) => {
                output.push(item);
                insts = next;
            }
            PhaseResult::Next(next) => return Ok((output, next)),
            PhaseResult::Err(err) => return Err(err),
        }
    }""","""    let mut output = Vec::new();
    let mut done = None;
    while done.is_none() {
        match f(insts) {
            PhaseResult::Ok(item, next) => {
                output.push(item);
                insts = next;
            }
            PhaseResult::Next(next) => { done = Some(next); }
            PhaseResult::Err(err) => return Err(err),
        }
    }
    Ok((output, done.unwrap()))"""),
('',[(P,"""struct OpSlice<'a> {
    insts: &'a [OpByBlock],
    index: usize,
}""","""struct OpSlice<'a> {
    insts: &'a [OpByBlock],
    index: usize,
    rest: &'a [OpByBlock],
}"""),(P,"            index: 0,\n","            index: 0,\n            rest: insts,\n"),(P,"""        if self.index < self.insts.len() {
            Some(&self.insts[self.index])
        } else {
            None
        }""","        self.rest.first()"),(P,"            index: self.index + 1,","            index: self.index + 1,\n            rest: &self.rest[1..],"),(P,"        self.insts.len() - self.index","        self.rest.len()")],'',''),
('',P,"""        if self.index < self.insts.len() {
            Some(&self.insts[self.index])
        } else {
            None
        }""","        self.insts.get(self.index)"),
('',P,"    let insts_storage = raw.instructions.into_iter().map(group).collect::<Vec<_>>();","    let mut insts_storage = Vec::with_capacity(raw.instructions.len());\n    for inst in raw.instructions { insts_storage.push(group(inst)); }"),
('',P,"""    if let Some(&OpByBlock::OpCapability(ref op)) = insts.first() {
        PhaseResult::Ok(op.capability.clone(), insts.advance())
    } else {
        PhaseResult::Next(insts)
    }""","""    match insts.first() {
        Some(inst) => match *inst {
            OpByBlock::OpCapability(ref op) => PhaseResult::Ok(op.capability.clone(), insts.advance()),
            _ => PhaseResult::Next(insts),
        },
        None => PhaseResult::Next(insts),
    }"""),
('',P,"""    if let Some(&OpByBlock::GroupMerge(ref op)) = insts.first() {
        (Some(op.clone()), insts.advance())
    } else {
        (None, insts)
    }""","""    let merge = match insts.first() {
        Some(&OpByBlock::GroupMerge(ref op)) => Some(op.clone()),
        _ => None,
    };
    let insts = if merge.is_some() { insts.advance() } else { insts };
    (merge, insts)"""),
('',P,"""                let (blocks, insts) = match read_many(insts, read_basic_block) {
                    Ok((blocks, insts)) => (blocks, insts),
                    Err(err) => return PhaseResult::Err(err),
                };""","""                let mut insts = insts;
                let mut blocks = vec![];
                loop {
                    match read_basic_block(insts) {
                        PhaseResult::Ok(b, n) => { blocks.push(b); insts = n; }
                        PhaseResult::Next(n) => { insts = n; break; }
                        PhaseResult::Err(err) => return PhaseResult::Err(err),
                    }
                }"""),
('',P,"    if insts.get_remaining() > 0 {\n        return Err(ValidationError::UnexpectedInstruction(insts.get_slot()));\n    }","    if insts.first().is_some() {\n        return Err(ValidationError::UnexpectedInstruction(insts.get_slot()));\n    }"),
('',P,"""fn read_many<T>(mut insts: OpSlice,
                f: fn(OpSlice) -> PhaseResult<T>)
                -> ValidationResult<(Vec<T>, OpSlice)> {
    let mut output = Vec::new();""","""fn read_many<'a, T, F: Fn(OpSlice<'a>) -> PhaseResult<'a, T>>(mut insts: OpSlice<'a>,
                f: F)
                -> ValidationResult<(Vec<T>, OpSlice<'a>)> {
    let mut output = Vec::new();"""),
('',[(P,"    if let Some(&OpByBlock::OpFunction(ref op)) = insts.first() {\n        match read_many(insts.advance(), read_function_parameter) {\n            Ok((params, insts)) => {\n                let (blocks","    if let Some(&OpByBlock::OpFunction(ref op)) = insts.first() {\n        match function_parameters(insts) {\n            Ok((params, insts)) => {\n                let (blocks"),(P,"fn read_code(","fn function_parameters(insts: OpSlice) -> ValidationResult<(Vec<OpFunctionParameter>, OpSlice)> {\n    read_many(insts.advance(), read_function_parameter)\n}\n\nfn read_code(")],'',''),
('',P,"    let (capabilities, insts) = try!(read_many(insts, read_capability));","    let (capabilities, insts) = {\n        let mut caps = Vec::new();\n        let mut at = insts;\n        while let Some(&OpByBlock::OpCapability(ref op)) = at.insts.get(at.index) {\n            caps.push(op.capability.clone());\n            at = at.advance();\n        }\n        (caps, at)\n    };"),
('',P,"    let (debug, insts) = try!(read_many(insts, read_debug));","    let start = insts;\n    let n = start.insts[start.index..].iter().take_while(|i| match **i { OpByBlock::GroupDebug(_) => true, _ => false }).count();\n    let debug = start.insts[start.index..start.index + n].iter().filter_map(|i| match *i { OpByBlock::GroupDebug(ref d) => Some(d.clone()), _ => None }).collect::<Vec<_>>();\n    let insts = OpSlice { insts: start.insts, index: start.index + n };"),
]
