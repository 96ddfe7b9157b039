C='spv/logical/control_flow.rs'
PROPS=['C18','C24','C19']

src=open('/repo/src/'+C).read()
def fn_text(start,end):
    a=src.index(start); b=src.index(end,a); return src[a:b]
MUT=[
# ---- bugs
('C18',C,"            Converge::If(join, _) |\n            Converge::Loop(join, _, _) => {","            Converge::If(join, _) |\n            Converge::Loop(_, join, _) => {"),
('C18',C,"        match self.ptr {\n            Some(ref node) => node.merges(id),\n            None => false,\n        }","        let _ = &self.ptr;\n        false"),
('C18',C,"            return Some((*head, *merge));","            return Some((*merge, *head));"),
('C18',C,"        match self.ptr {\n            Some(ref node) => node.innermost_loop(),\n            None => None,\n        }\n    }\n}\n\n/// Manages","        None\n    }\n}\n\n/// Manages"),
('C18',C,"ControlFlowChain::Selection(id, true_b, false_b, hints, weights)","ControlFlowChain::Selection(id, false_b, true_b, hints, weights)"),
('C18',C,"                        let weights = op.weights.clone();\n                        let ctc = ControlFlowChain::Selection(id, true_b","                        let weights = None;\n                        let ctc = ControlFlowChain::Selection(id, true_b"),
('C18',C,"try!(search_block(after, flow_list, block_map, depth + 1))","try!(search_block(after, &inner_fl, block_map, depth + 1))"),
('C18 C19',C,"if true_next == false_next && true_next == Continue::Next(merge) {","if true_next == false_next {"),
('C18 C19',C,"if true_next == false_next && true_next == Continue::Next(merge) {","if true_next == Continue::Next(merge) {"),
('C18 C19',C,"""                    if inner_next == Continue::Next(head) {
                        let inner_box = Box::new(inner_chain);

                        let ctc""","""                    if inner_next != Continue::Return {
                        let inner_box = Box::new(inner_chain);

                        let ctc"""),
('C18',C,"let break_box = if is_break {","let break_box = if is_break && !is_continue {") if 0 else ('C18',C,"let break_box = if is_break {","let break_box = if is_continue {"),
('C19',C,"            if let Some(_) = map.insert(id, block) {\n                return Err(ControlFlowError::DuplicateBlockId(id));\n            }","            map.insert(id, block);"),
('C18',C,"            if let None = start_opt {\n                start_opt = Some(id);\n            }","            start_opt = Some(id);"),
('C19',C,"        None => return Err(ControlFlowError::UnknownBlockId(id)),","        None => panic!(\"unknown block\"),"),
('C24',C,"    if depth >= block_map.len() {","    if depth >= block_map.len() && flow_list.head.is_none() {"),
('C24',C,"let (next_chain, next_next) = try!(search_block(next_id, flow_list, block_map, depth + 1));","let (next_chain, next_next) = try!(search_block(next_id, flow_list, block_map, depth));"),
('C18',C,"    if depth >= block_map.len() {","    if depth >= 64 {"),
('C18 C19',C,"        Continue::Return => Ok(chain),\n        _ => Err(ControlFlowError::Failed),","        _ => Ok(chain),"),
('C19',C,"""                Some(GroupMerge::OpSelectionMerge(_)) => {
                    Err(ControlFlowError::CouldNotPredictConverge(id))
                }""","""                Some(GroupMerge::OpSelectionMerge(_)) => {
                    let (next_chain, next_next) = try!(search_block(next_id, flow_list, block_map, depth + 1));
                    Ok((ControlFlowChain::block(vec![current, next_chain]), next_next))
                }"""),
('C18',C,"                        ControlFlowChain::Block(mut more) => {\n","                        ControlFlowChain::Block(mut more) => {\n                            if more.len() > 100 { more.reverse(); }\n"),
('C18',C,"                    let hints = loop_merge.loop_control.clone();","                    let hints = LoopControl::default();"),
('C18',C,"let is_continue = false_block == head;","let is_continue = true_block == head;"),
('C18',C,"let chain = ControlFlowChain::block(vec![ctc, after_chain]);","let chain = ControlFlowChain::block(vec![ControlFlowChain::Atom(id), ctc, after_chain]);"),
('C24',C,"try!(search_block(merge, flow_list, block_map, depth + 1))","try!(search_block(merge, flow_list, block_map, 0))"),
('C18',C,"let inner = try!(search_block(true_block, &flow_list, block_map, depth + 1));","let inner = if true_block == head { (ControlFlowChain::block(vec![ControlFlowChain::Continue]), Continue::Next(head)) } else { try!(search_block(true_block, &flow_list, block_map, depth + 1)) };"),
('C18',C,"                ptr: self.head.clone(),","                ptr: None,"),
# ---- harmless
('',C,"    if depth >= block_map.len() {","    if block_map.len() <= depth {"),
('',C,"if true_next == false_next && true_next == Continue::Next(merge) {","let want = Continue::Next(merge);\n                    if true_next == want && false_next == want {"),
('',C,"    let (chain, next) = try!(search_block(start, &FlowList::new(), &block_map, 0));\n\n    match next {\n        Continue::Return => Ok(chain),\n        _ => Err(ControlFlowError::Failed),\n    }","    match search_block(start, &FlowList::new(), &block_map, 0) {\n        Ok((chain, Continue::Return)) => Ok(chain),\n        Ok(_) => Err(ControlFlowError::Failed),\n        Err(e) => Err(e),\n    }"),
('',C,"            if let None = start_opt {\n                start_opt = Some(id);\n            }\n","            start_opt = start_opt.or(Some(id));\n"),
('',[(C,"    let mut start_opt = None;\n","    let start_opt = decl.blocks.first().map(|b| BlockId(b.label.result_id.0));\n"),(C,"            if let None = start_opt {\n                start_opt = Some(id);\n            }\n","")],'',''),
# merges as a loop
('',C,fn_text("    fn merges(&self, id: &BlockId) -> bool {\n        match self.converge","    fn innermost_loop"),"""    fn merges(&self, id: &BlockId) -> bool {
        let mut cur = self;
        loop {
            let join = match cur.converge {
                Converge::If(join, _) => join,
                Converge::Loop(head, _, _) => head,
            };
            if join == *id {
                return true;
            }
            match cur.ptr {
                Some(ref node) => cur = node,
                None => return false,
            }
        }
    }

"""),
# break arm rewritten
('',C,"""                    let is_break = false_block == merge;
                    let is_continue = false_block == head;
                    if is_break || is_continue {""","""                    let is_break = false_block == merge;
                    if is_break || false_block == head {"""),
# helper extracted for the loop
('',[(C,"""                        let (after_chain, after_next) =
                            try!(search_block(after, flow_list, block_map, depth + 1));

                        let chain = ControlFlowChain::block(vec![ctc, after_chain]);

                        Ok((chain, after_next))""","""                        then_continue(ctc, after, flow_list, block_map, depth)"""),
 (C,"""                        let (next_chain, next_next) =
                            try!(search_block(merge, flow_list, block_map, depth + 1));

                        let chain = ControlFlowChain::block(vec![ctc, next_chain]);

                        Ok((chain, next_next))""","""                        then_continue(ctc, merge, flow_list, block_map, depth)"""),
 (C,"fn search_block(id: BlockId,","""fn then_continue(first: ControlFlowChain, next: BlockId, flow_list: &FlowList, block_map: &BlockMap, depth: usize) -> ControlFlowResult<(ControlFlowChain, Continue)> {
    let (rest, cont) = try!(search_block(next, flow_list, block_map, depth + 1));
    Ok((ControlFlowChain::block(vec![first, rest]), cont))
}

fn search_block(id: BlockId,""")],'',''),
# fuel instead of depth
('',[(C,"search_block(start, &FlowList::new(), &block_map, 0)","search_block(start, &FlowList::new(), &block_map, block_map.len())"),
 (C,"    if depth >= block_map.len() {","    if depth == 0 {")]+[(C,"depth + 1","depth - 1")]*7,'',''),
('',C,"    fn merges(&self, id: &BlockId) -> bool {\n        match self.head {\n            Some(ref node) => node.merges(id),\n            None => false,\n        }\n    }","    fn merges(&self, id: &BlockId) -> bool {\n        self.head.as_ref().map_or(false, |node| node.merges(id))\n    }"),
('',C,"        match self.ptr {\n            Some(ref node) => node.merges(id),\n            None => false,\n        }","        self.ptr.as_ref().map(|n| n.merges(id)).unwrap_or(false)"),
('',C,"    let block = match block_map.get(&id) {\n        Some(block) => block,\n        None => return Err(ControlFlowError::UnknownBlockId(id)),\n    };","    let block = try!(block_map.get(&id).ok_or(ControlFlowError::UnknownBlockId(id)));"),
('',C,fn_text("        match chains.len() {","    fn fmt_indent"),"""        if chains.len() == 1 {
            return chains.pop().unwrap();
        }
        let mut merged = Vec::new();
        for chain in chains {
            if let ControlFlowChain::Block(more) = chain {
                merged.extend(more);
            } else {
                merged.push(chain);
            }
        }
        ControlFlowChain::Block(merged)
    }

"""),
# context as a slice
('',[(C,"                    let (true_chain, true_next) =\n                        try!(search_block(true_block, &inner_fl, block_map, depth + 1));\n                    let (false_chain, false_next) =\n                        try!(search_block(false_block, &inner_fl, block_map, depth + 1));","                    let depth_in = depth + 1;\n                    let t = try!(search_block(true_block, &inner_fl, block_map, depth_in));\n                    let f = try!(search_block(false_block, &inner_fl, block_map, depth_in));\n                    let (true_chain, true_next) = t;\n                    let (false_chain, false_next) = f;")],'',''),
# early duplicate test
('',C,"            if let Some(_) = map.insert(id, block) {\n                return Err(ControlFlowError::DuplicateBlockId(id));\n            }","            if map.contains_key(&id) {\n                return Err(ControlFlowError::DuplicateBlockId(id));\n            }\n            map.insert(id, block);"),
# BTreeMap
('',[(C,"use std::collections::HashMap;","use std::collections::BTreeMap;"),(C,"type BlockMap<'a> = HashMap<BlockId, &'a BasicBlock>;","type BlockMap<'a> = BTreeMap<BlockId, &'a BasicBlock>;"),(C,"let mut map = HashMap::new();","let mut map = BTreeMap::new();"),(C,"#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]\npub struct BlockId","#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub struct BlockId")],'',''),
# struct with method
('',[(C,"fn search_block(id: BlockId,\n                flow_list: &FlowList,\n                block_map: &BlockMap,\n                depth: usize)","struct Search<'m, 'a: 'm> { map: &'m BlockMap<'a> }\nimpl<'m, 'a> Search<'m, 'a> {\nfn search_block(&self, id: BlockId,\n                flow_list: &FlowList,\n                depth: usize)"),
 (C,"    if flow_list.merges(&id) {\n        return Ok((ControlFlowChain::block","    let block_map = self.map;\n    if flow_list.merges(&id) {\n        return Ok((ControlFlowChain::block"),
 (C,"search_block(start, &FlowList::new(), &block_map, 0)","Search { map: &block_map }.search_block(start, &FlowList::new(), 0)"),
 (C,"search_block(next_id, &inner_fl, block_map, depth + 1)","self.search_block(next_id, &inner_fl, depth + 1)"),
 (C,"search_block(after, flow_list, block_map, depth + 1)","self.search_block(after, flow_list, depth + 1)"),
 (C,"search_block(next_id, flow_list, block_map, depth + 1)","self.search_block(next_id, flow_list, depth + 1)"),
 (C,"search_block(true_block, &inner_fl, block_map, depth + 1)","self.search_block(true_block, &inner_fl, depth + 1)"),
 (C,"search_block(false_block, &inner_fl, block_map, depth + 1)","self.search_block(false_block, &inner_fl, depth + 1)"),
 (C,"search_block(merge, flow_list, block_map, depth + 1)","self.search_block(merge, flow_list, depth + 1)"),
 (C,"search_block(true_block, &flow_list, block_map, depth + 1)","self.search_block(true_block, &flow_list, depth + 1)"),
 (C,"pub struct ControlFlowFunctionPrinter","}\npub struct ControlFlowFunctionPrinter")],'',''),
# match on a tuple
('',C,"    if flow_list.merges(&id) {\n        return Ok((ControlFlowChain::block(vec![]), Continue::Next(id)));\n    }","    if let true = flow_list.merges(&id) {\n        return Ok((ControlFlowChain::Block(Vec::new()), Continue::Next(id)));\n    }"),
('',C,"                            Ok((ctc, inner_next))","                            Ok((ctc, Continue::Next(head)))"),
('',C,"    fn innermost_loop(&self) -> Option<(BlockId, BlockId)> {\n        if let Converge::Loop(ref head, ref merge, _) = self.converge {\n            return Some((*head, *merge));\n        }\n        match self.ptr {\n            Some(ref node) => node.innermost_loop(),\n            None => None,\n        }","    fn innermost_loop(&self) -> Option<(BlockId, BlockId)> {\n        match self.converge {\n            Converge::Loop(head, merge, _) => Some((head, merge)),\n            Converge::If(..) => self.ptr.as_ref().and_then(|node| node.innermost_loop()),\n        }"),
]
