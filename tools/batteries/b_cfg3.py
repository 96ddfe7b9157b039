C='spv/logical/control_flow.rs'
PROPS=['C18','C19','C20','C21','C22','C23','C24']
src=open('/repo/src/'+C).read()
def cut(a,b,frm=0):
    i=src.index(a,frm); j=src.index(b,i); return src[i:j]
LOOP=cut("                    let head = id;\n","                None => {\n                    let (next_chain")
LOOP=LOOP[:LOOP.rindex('                }')]
SEL=cut("                    let merge = BlockId(selection.merge_block.0);","                // Loop construct\n                Some(GroupMerge::OpLoopMerge(_)) => {")
SEL=SEL[:SEL.rindex('                }')]
ESC=cut("                    let (head, merge) = match flow_list.innermost_loop() {","        GroupBranch::OpReturn(_) =>")
ESC=ESC[:ESC.rindex('                }\n            }\n        }')]
TAIL="pub struct ControlFlowFunctionPrinter<'a, 'b>"
def ded(s,n=16): return ''.join(l[n:] if l.startswith(' '*n) else l for l in s.splitlines(True))
SIGL='''fn search_loop(id: BlockId,
               next_id: BlockId,
               loop_merge: &OpLoopMerge,
               flow_list: &FlowList,
               block_map: &BlockMap,
               depth: usize)
               -> ControlFlowResult<(ControlFlowChain, Continue)> {
'''
SIGS='''fn search_selection(id: BlockId,
                    op: &OpBranchConditional,
                    selection: &OpSelectionMerge,
                    flow_list: &FlowList,
                    block_map: &BlockMap,
                    depth: usize)
                    -> ControlFlowResult<(ControlFlowChain, Continue)> {
    let true_block = BlockId(op.true_label.0);
    let false_block = BlockId(op.false_label.0);
'''
SIGE='''fn search_escape(id: BlockId,
                 op: &OpBranchConditional,
                 flow_list: &FlowList,
                 block_map: &BlockMap,
                 depth: usize)
                 -> ControlFlowResult<(ControlFlowChain, Continue)> {
    let true_block = BlockId(op.true_label.0);
    let false_block = BlockId(op.false_label.0);
'''
XL=(C,LOOP,"                    search_loop(id, next_id, loop_merge, flow_list, block_map, depth)\n")
XS=(C,SEL,"                    search_selection(id, op, selection, flow_list, block_map, depth)\n")
XE=(C,ESC,"                    search_escape(id, op, flow_list, block_map, depth)\n")
def fns(*xs): return (C,TAIL,''.join(a+ded(b)+'}\n\n' for a,b in xs)+TAIL)
MUT=[]
def add(e,*eds):
    eds=[(C,)+x if len(x)==2 else x for x in eds]
    for f,o,n in eds: assert src.count(o)>=1,(len(MUT),o[:80])
    if len(eds)==1: MUT.append((e,)+eds[0])
    else: MUT.append((e,list(eds),'',''))
UNUSED=("            let true_block = BlockId(op.true_label.0);\n            let false_block = BlockId(op.false_label.0);\n\n            match block.merge","            match block.merge")
# helpers that call each other
add('',XL,fns((SIGL,LOOP)))
add('',XS,fns((SIGS,SEL)))
add('',XE,fns((SIGE,ESC)))
add('',XL,XS,XE,UNUSED,fns((SIGL,LOOP),(SIGS,SEL),(SIGE,ESC)))
# a searcher with methods
def meth():
    s=src[src.index('fn search_block('):src.index(TAIL)]
    s=s.replace('fn search_block(id: BlockId,\n                flow_list: &FlowList,\n                block_map: &BlockMap,\n                depth: usize)\n                -> ','fn search(&self, id: BlockId, flow_list: &FlowList, depth: usize) -> ')
    s=s.replace('block_map, depth + 1','depth + 1').replace('search_block(','self.search(').replace('block_map','self.block_map')
    return "struct Searcher<'a> {\n    block_map: BlockMap<'a>,\n}\n\nimpl<'a> Searcher<'a> {\n"+''.join('    '+l if l.strip() else l for l in s.rstrip('\n').splitlines(True))+'\n}\n\n'
CALL="    let (chain, next) = try!(search_block(start, &FlowList::new(), &block_map, 0));\n"
SBT=src[src.index('fn search_block('):src.index(TAIL)]
add('',(SBT,meth()),(CALL,"    let searcher = Searcher { block_map: block_map };\n    let (chain, next) = try!(searcher.search(start, &FlowList::new(), 0));\n"))
# building the table
MAP=cut("    let mut start_opt = None;\n","    let start = match start_opt")
ST=cut("    let start = match start_opt","    let (chain, next)")
add('',(MAP+ST,"    let block_map = try!(index_blocks(&decl.blocks));\n    let start = match decl.blocks.first() {\n        Some(block) => BlockId(block.label.result_id.0),\n        None => return Err(ControlFlowError::NoBlocks),\n    };\n\n"),
 (TAIL,"fn index_blocks(blocks: &[BasicBlock]) -> ControlFlowResult<BlockMap> {\n    let mut map = HashMap::with_capacity(blocks.len());\n    for block in blocks {\n        let id = BlockId(block.label.result_id.0);\n        if map.contains_key(&id) {\n            return Err(ControlFlowError::DuplicateBlockId(id));\n        }\n        map.insert(id, block);\n    }\n    Ok(map)\n}\n\n"+TAIL))
add('',("            if let Some(_) = map.insert(id, block) {\n                return Err(ControlFlowError::DuplicateBlockId(id));\n            }","            match map.entry(id) {\n                ::std::collections::hash_map::Entry::Occupied(_) => return Err(ControlFlowError::DuplicateBlockId(id)),\n                ::std::collections::hash_map::Entry::Vacant(slot) => {\n                    slot.insert(block);\n                }\n            }"))
add('',("    let block = match block_map.get(&id) {\n        Some(block) => block,\n        None => return Err(ControlFlowError::UnknownBlockId(id)),\n    };","    let block = try!(block_map.get(&id).ok_or(ControlFlowError::UnknownBlockId(id)));"))
add('',("    let start = match start_opt {\n        Some(id) => id,\n        None => return Err(ControlFlowError::NoBlocks),\n    };","    let start = try!(start_opt.ok_or(ControlFlowError::NoBlocks));"))
# budget instead of depth
def budget(s):
    return s.replace('                depth: usize)\n','                budget: usize)\n').replace('    if depth >= block_map.len() {','    if budget == 0 {').replace('block_map, depth + 1)','block_map, budget - 1)').replace('&block_map, 0))','&block_map, block_map.len()))')
add('',(src,budget(src)))
add('',(src,src.replace('block_map, depth + 1)','block_map, next_depth)').replace('    match block.branch {\n        GroupBranch::OpBranch(ref op) => {','    let next_depth = depth + 1;\n\n    match block.branch {\n        GroupBranch::OpBranch(ref op) => {')))
# which way out
W=cut("                    let is_break = false_block == merge;","        GroupBranch::OpReturn(_) =>")
W=W[:W.rindex('                }\n            }\n        }')]
add('',(W,"""                    let way_out = if false_block == merge {
                        ControlFlowChain::Break
                    } else if false_block == head {
                        ControlFlowChain::Continue
                    } else {
                        return Err(ControlFlowError::CouldNotPredictConverge(id));
                    };
                    let (inner_chain, inner_next) = try!(search_block(true_block, flow_list, block_map, depth + 1));
                    match inner_next {
                        Continue::Next(ref next) if *next == head => {}
                        _ => return Err(ControlFlowError::InvalidConvergePrediction(ControlType::Loop, id)),
                    }
                    let ctc = ControlFlowChain::Selection(id,
                                                          Box::new(inner_chain),
                                                          Box::new(way_out),
                                                          SelectionControl::default(),
                                                          op.weights.clone());
                    Ok((ctc, inner_next))
"""))
add('',("#[derive(Debug, PartialEq)]\nenum Continue {","#[derive(Clone, Copy, Debug, PartialEq)]\nenum Continue {"),("    match next {\n        Continue::Return => Ok(chain),\n        _ => Err(ControlFlowError::Failed),\n    }","    if next == Continue::Return {\n        Ok(chain)\n    } else {\n        Err(ControlFlowError::Failed)\n    }"))
add('',(src,src.replace("    match next {\n        Continue::Return => Ok(chain),\n        _ => Err(ControlFlowError::Failed),\n    }","    match next {\n        Continue::Return => Ok(chain),\n        Continue::Next(_) => Err(ControlFlowError::Failed),\n    }").replace("use std::collections::HashMap;","use std::collections::BTreeMap;").replace('HashMap','BTreeMap').replace("#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]\npub struct BlockId","#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]\npub struct BlockId").replace('BBTree','BTree')))
# block()
BL=cut("        match chains.len() {\n            0 =>","    fn fmt_indent(&self, f: &mut fmt::Formatter, indent: u32) -> fmt::Result {\n")
add('',(BL,"""        if chains.len() == 1 {
            return chains.remove(0);
        }
        let mut merged = Vec::new();
        for chain in chains {
            if let ControlFlowChain::Block(more) = chain {
                merged.extend(more);
            } else {
                merged.push(chain);
            }
        }
        ControlFlowChain::Block(merged)
    }

"""))
add('',(BL,"""        if chains.len() == 1 {
            return chains.swap_remove(0);
        }
        let merged = chains.into_iter().fold(Vec::new(), |mut merged, chain| {
            match chain {
                ControlFlowChain::Block(mut more) => merged.append(&mut more),
                other => merged.push(other),
            }
            merged
        });
        ControlFlowChain::Block(merged)
    }

"""))
# straight line branches in a loop
add('',("                None => {\n                    let (next_chain, next_next) = try!(search_block(next_id, flow_list, block_map, depth + 1));\n\n                    let chain = ControlFlowChain::block(vec![current, next_chain]);\n\n                    Ok((chain, next_next))\n                }","                None => {\n                    search_block(next_id, flow_list, block_map, depth + 1)\n                        .map(|(rest, next)| (ControlFlowChain::block(vec![current, rest]), next))\n                }"))
# printing
SELP=cut("            ControlFlowChain::Selection(ref id, ref left, ref right, ref hint, ref weights) => {\n                try!(write_indent(f));","            ControlFlowChain::Loop(ref id, ref inner, ref hint, ref weights) => {\n                try!(write_indent(f));")
LOOPP=cut("            ControlFlowChain::Loop(ref id, ref inner, ref hint, ref weights) => {\n                try!(write_indent(f));","            ControlFlowChain::Break => {")
def helper(sel,n): return sel
add('',(LOOPP,"""            ControlFlowChain::Loop(ref id, ref inner, ref hint, ref weights) => {
                try!(write_indent(f));
                let hint_text = if *hint == LoopControl::default() { String::new() } else { format!(" [{}]", hint) };
                let weight_text = weights.as_ref().map(|w| format!(" [{}]", w)).unwrap_or_default();
                try!(writeln!(f, "loop {}{}{} {{", id, hint_text, weight_text));
                try!(inner.fmt_indent(f, indent + 1));
                try!(write_indent(f));
                writeln!(f, "}}")
            }
"""))
add('',(SELP,"""            ControlFlowChain::Selection(ref id, ref left, ref right, ref hint, ref weights) => {
                try!(write_indent(f));
                try!(f.write_str("selection "));
                try!(fmt::Display::fmt(id, f));
                if *hint != Default::default() {
                    try!(f.write_fmt(format_args!(" [{}]", hint)));
                }
                for weights in weights.iter() {
                    try!(f.write_fmt(format_args!(" [{}]", weights)));
                }
                try!(f.write_str(" {\\n"));
                try!(left.fmt_indent(f, indent + 1));
                match **right {
                    ControlFlowChain::Block(ref none) if none.is_empty() => {}
                    ref other => {
                        try!(write_indent(f));
                        try!(f.write_str("} else {\\n"));
                        try!(other.fmt_indent(f, indent + 1));
                    }
                }
                try!(write_indent(f));
                f.write_str("}\\n")
            }
"""))
# ---------------- bugs
add('C18',(C,LOOP,"                    search_loop(id, next_id, loop_merge, flow_list, block_map, depth)\n"),fns((SIGL,LOOP.replace("try!(search_block(after, flow_list,","try!(search_block(after, &inner_fl,"))))
add('C18',XS,fns((SIGS,SEL.replace("&& true_next == Continue::Next(merge)","&& true_next != Continue::Next(id)"))))
add('C18',XS,fns((SIGS,SEL.replace("                        let true_b = Box::new(true_chain);\n                        let false_b = Box::new(false_chain);","                        let (true_b, false_b) = if true_block == merge { (Box::new(false_chain), Box::new(true_chain)) } else { (Box::new(true_chain), Box::new(false_chain)) };"))))
# the contexts alone still bound this search
add('',XL,fns((SIGL,LOOP.replace("search_block(next_id, &inner_fl, block_map, depth + 1)","search_block(next_id, &inner_fl, block_map, 0)"))))
add('C24',(src,budget(src).replace("search_block(after, flow_list, block_map, budget - 1)","search_block(after, flow_list, block_map, block_map.len())")))
add('C18 C19',("            if let Some(_) = map.insert(id, block) {\n                return Err(ControlFlowError::DuplicateBlockId(id));\n            }","            map.entry(id).or_insert(block);"))
add('C19',("            if let Some(_) = map.insert(id, block) {","            if let Some(&BasicBlock { merge: None, .. }) = map.insert(id, block) {"))
add('C18',("                        let weights = op.weights.clone();\n                        let ctc = ControlFlowChain::Selection(id, true_b","                        let weights = if hints == SelectionControl::default() { op.weights.clone() } else { None };\n                        let ctc = ControlFlowChain::Selection(id, true_b"))
add('C18',("                    let is_continue = false_block == head;","                    let is_continue = false_block == head && op.weights.is_none();"))
add('C18',("                        let chain = ControlFlowChain::block(vec![ctc, after_chain]);","                        let chain = if after_next == Continue::Return { ControlFlowChain::block(vec![ctc, after_chain]) } else { ctc };"))
add('C18',(BL,"""        if chains.len() == 1 {
            return chains.remove(0);
        }
        let mut merged = Vec::new();
        for chain in chains {
            if let ControlFlowChain::Block(more) = chain {
                merged.splice(0..0, more);
            } else {
                merged.push(chain);
            }
        }
        ControlFlowChain::Block(merged)
    }

"""))
add('C23',("                if **right != ControlFlowChain::Block(vec![]) {\n                    try!(write_indent(f));\n                    try!(writeln!(f, \"}} else {{\"));\n                    try!(right.fmt_indent","                if **right != ControlFlowChain::Block(vec![]) && **right != ControlFlowChain::Continue {\n                    try!(write_indent(f));\n                    try!(writeln!(f, \"}} else {{\"));\n                    try!(right.fmt_indent"))
add('C23',("                if let Some(ref weights) = *weights {\n                    try!(write!(f, \" [{}]\", weights));\n                }\n                try!(writeln!(f, \" {{\"));\n                try!(inner","                if let Some(ref weights) = *weights {\n                    if LoopControl::default() == *hint { try!(write!(f, \" [{}]\", weights)); }\n                }\n                try!(writeln!(f, \" {{\"));\n                try!(inner"))
add('C23',("                try!(ControlFlowFunctionPrinter(self.0, inner).fmt_indent(f, indent + 1));","                try!(ControlFlowFunctionPrinter(self.0, inner).fmt_indent(f, (indent + 1) & 15));"))
add('C23',("        try!(write_indent(f));\n        try!(writeln!(f, \">>> {}\", block.branch));","        if block.merge.is_none() {\n            try!(write_indent(f));\n            try!(writeln!(f, \">>> {}\", block.branch));\n        }"))
add('C23',("                for cfc in block {\n                    try!(cfc.fmt_indent(f, indent))\n                }","                for cfc in block.iter().filter(|c| **c != ControlFlowChain::Block(vec![]) && **c != ControlFlowChain::Break) {\n                    try!(cfc.fmt_indent(f, indent))\n                }"))
add('C23',("            if search.label.result_id.0 == id.0 {","            if search.label.result_id.0 as u16 == id.0 as u16 {"))
add('C19 C18',("                // There is nothing to merge after a return\n                Some(_) => Err(ControlFlowError::CouldNotPredictConverge(id)),","                Some(GroupMerge::OpSelectionMerge(_)) => Ok((ControlFlowChain::Atom(id), Continue::Return)),\n                Some(_) => Err(ControlFlowError::CouldNotPredictConverge(id)),"))
add('C19',("        None => return Err(ControlFlowError::UnknownBlockId(id)),","        None if block_map.is_empty() || depth == 0 => return Err(ControlFlowError::UnknownBlockId(id)),\n        None => return Ok((ControlFlowChain::Atom(id), Continue::Return)),"))
