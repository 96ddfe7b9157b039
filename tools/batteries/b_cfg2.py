C='spv/logical/control_flow.rs'
PROPS=['C18','C19','C20','C21','C22','C23','C24']
import re
src=open('/repo/src/'+C).read()
def tx(a,b):
    i=src.index(a); j=src.index(b,i); return src[i:j]
SB=tx('fn search_block(','pub struct ControlFlowFunctionPrinter')
def q(s):
    # try!(x) -> x?
    out='';i=0
    while True:
        j=s.find('try!(',i)
        if j<0: return out+s[i:]
        out+=s[i:j]; d=1; k=j+5
        while d:
            if s[k]=='(':d+=1
            if s[k]==')':d-=1
            k+=1
        out+=s[j+5:k-1]+'?'; i=k
TUP='''fn search_block(id: BlockId,
                flow_list: &FlowList,
                block_map: &BlockMap,
                depth: usize)
                -> ControlFlowResult<(ControlFlowChain, Continue)> {
    if flow_list.merges(&id) {
        return Ok((ControlFlowChain::block(vec![]), Continue::Next(id)));
    }
    let block = block_map.get(&id).ok_or(ControlFlowError::UnknownBlockId(id))?;
    if depth >= block_map.len() {
        return Err(ControlFlowError::CouldNotPredictConverge(id));
    }
    let depth = depth + 1;
    match (&block.branch, &block.merge) {
        (&GroupBranch::OpBranch(ref op), &Some(GroupMerge::OpLoopMerge(ref merge))) => {
            search_loop(id, op, merge, flow_list, block_map, depth)
        }
        (&GroupBranch::OpBranch(ref op), &None) => {
            search_then(ControlFlowChain::Atom(id), BlockId(op.target_label.0), flow_list, block_map, depth)
        }
        (&GroupBranch::OpBranchConditional(ref op), &Some(GroupMerge::OpSelectionMerge(ref merge))) => {
            search_selection(id, op, merge, flow_list, block_map, depth)
        }
        (&GroupBranch::OpBranchConditional(ref op), &None) => {
            search_exit(id, op, flow_list, block_map, depth)
        }
        (&GroupBranch::OpReturn(_), &None) => Ok((ControlFlowChain::Atom(id), Continue::Return)),
        _ => Err(ControlFlowError::CouldNotPredictConverge(id)),
    }
}

fn search_then(first: ControlFlowChain, next: BlockId, flow_list: &FlowList, block_map: &BlockMap, depth: usize)
               -> ControlFlowResult<(ControlFlowChain, Continue)> {
    let (rest, cont) = search_block(next, flow_list, block_map, depth)?;
    Ok((ControlFlowChain::block(vec![first, rest]), cont))
}

fn search_loop(id: BlockId, op: &OpBranch, merge: &OpLoopMerge, flow_list: &FlowList, block_map: &BlockMap, depth: usize)
               -> ControlFlowResult<(ControlFlowChain, Continue)> {
    let after = BlockId(merge.merge_block.0);
    let inner_fl = flow_list.extend(Converge::Loop(id, after, merge.loop_control.clone()));
    let (inner_chain, inner_next) = search_block(BlockId(op.target_label.0), &inner_fl, block_map, depth)?;
    if inner_next != Continue::Next(id) {
        return Err(ControlFlowError::InvalidConvergePrediction(ControlType::Loop, id));
    }
    let ctc = ControlFlowChain::Loop(id, Box::new(inner_chain), merge.loop_control.clone(), None);
    search_then(ctc, after, flow_list, block_map, depth)
}

fn search_selection(id: BlockId, op: &OpBranchConditional, selection: &OpSelectionMerge, flow_list: &FlowList, block_map: &BlockMap, depth: usize)
               -> ControlFlowResult<(ControlFlowChain, Continue)> {
    let merge = BlockId(selection.merge_block.0);
    let inner_fl = flow_list.extend(Converge::If(merge, selection.selection_control.clone()));
    let (true_chain, true_next) = search_block(BlockId(op.true_label.0), &inner_fl, block_map, depth)?;
    let (false_chain, false_next) = search_block(BlockId(op.false_label.0), &inner_fl, block_map, depth)?;
    if true_next != Continue::Next(merge) || false_next != true_next {
        return Err(ControlFlowError::InvalidConvergePrediction(ControlType::Selection, id));
    }
    let ctc = ControlFlowChain::Selection(id, Box::new(true_chain), Box::new(false_chain), selection.selection_control.clone(), op.weights.clone());
    search_then(ctc, merge, flow_list, block_map, depth)
}

fn search_exit(id: BlockId, op: &OpBranchConditional, flow_list: &FlowList, block_map: &BlockMap, depth: usize)
               -> ControlFlowResult<(ControlFlowChain, Continue)> {
    let target = BlockId(op.false_label.0);
    let (head, exit) = match flow_list.innermost_loop() {
        Some((head, merge)) if target == merge => (head, ControlFlowChain::Break),
        Some((head, _)) if target == head => (head, ControlFlowChain::Continue),
        _ => return Err(ControlFlowError::CouldNotPredictConverge(id)),
    };
    match search_block(BlockId(op.true_label.0), flow_list, block_map, depth)? {
        (inner, Continue::Next(next)) if next == head => {
            let ctc = ControlFlowChain::Selection(id, Box::new(inner), Box::new(exit), SelectionControl::default(), op.weights.clone());
            Ok((ctc, Continue::Next(next)))
        }
        _ => Err(ControlFlowError::InvalidConvergePrediction(ControlType::Loop, id)),
    }
}

'''
FL=tx('/// Links back to','fn search_block(')
# the flow list as a slice of enclosing constructs
FLV='''/// The constructs we are inside, outermost first
struct FlowList {
    stack: Vec<Converge>,
}

impl FlowList {
    fn new() -> FlowList {
        FlowList { stack: Vec::new() }
    }
    fn extend(&self, converge: Converge) -> FlowList {
        let mut stack = self.stack.clone();
        stack.push(converge);
        FlowList { stack: stack }
    }
    fn merges(&self, id: &BlockId) -> bool {
        self.stack.iter().any(|c| match *c {
            Converge::If(join, _) | Converge::Loop(join, _, _) => join == *id,
        })
    }
    fn innermost_loop(&self) -> Option<(BlockId, BlockId)> {
        for c in self.stack.iter().rev() {
            if let Converge::Loop(head, merge, _) = *c {
                return Some((head, merge));
            }
        }
        None
    }
}

'''
FLR='''/// The construct we are inside
enum FlowList<'a> {
    Empty,
    Inside(Converge, &'a FlowList<'a>),
}

impl<'a> FlowList<'a> {
    fn new() -> FlowList<'a> {
        FlowList::Empty
    }
    fn extend<'b>(&'b self, converge: Converge) -> FlowList<'b> where 'a: 'b {
        FlowList::Inside(converge, self)
    }
    fn merges(&self, id: &BlockId) -> bool {
        match *self {
            FlowList::Empty => false,
            FlowList::Inside(Converge::If(join, _), ref up) |
            FlowList::Inside(Converge::Loop(join, _, _), ref up) => join == *id || up.merges(id),
        }
    }
    fn innermost_loop(&self) -> Option<(BlockId, BlockId)> {
        match *self {
            FlowList::Empty => None,
            FlowList::Inside(Converge::Loop(head, merge, _), _) => Some((head, merge)),
            FlowList::Inside(Converge::If(..), ref up) => up.innermost_loop(),
        }
    }
}

'''
FC=tx('pub fn find_control_flow','/// State to allow')
FC2='''fn build_block_map(blocks: &[BasicBlock]) -> ControlFlowResult<BlockMap> {
    let mut map = HashMap::with_capacity(blocks.len());
    for block in blocks {
        let id = BlockId(block.label.result_id.0);
        if map.insert(id, block).is_some() {
            return Err(ControlFlowError::DuplicateBlockId(id));
        }
    }
    Ok(map)
}

pub fn find_control_flow(decl: FunctionDefinition) -> ControlFlowResult<ControlFlowChain> {
    let block_map = build_block_map(&decl.blocks)?;
    let start = match decl.blocks.first() {
        Some(block) => BlockId(block.label.result_id.0),
        None => return Err(ControlFlowError::NoBlocks),
    };
    match search_block(start, &FlowList::new(), &block_map, 0)? {
        (chain, Continue::Return) => Ok(chain),
        (_, Continue::Next(_)) => Err(ControlFlowError::Failed),
    }
}

'''
FC3='''pub fn find_control_flow(decl: FunctionDefinition) -> ControlFlowResult<ControlFlowChain> {
    if decl.blocks.is_empty() {
        return Err(ControlFlowError::NoBlocks);
    }
    let start = BlockId(decl.blocks[0].label.result_id.0);
    let mut block_map: BlockMap = HashMap::new();
    for block in decl.blocks.iter() {
        let id = BlockId(block.label.result_id.0);
        match block_map.insert(id, block) {
            None => {}
            Some(_) => return Err(ControlFlowError::DuplicateBlockId(id)),
        }
    }
    let (chain, next) = search_block(start, &FlowList::new(), &block_map, 0)?;
    if next == Continue::Return { Ok(chain) } else { Err(ControlFlowError::Failed) }
}

'''
BL=tx('        match chains.len() {','    fn fmt_indent')
WI='''        let write_indent = |f: &mut fmt::Formatter| -> fmt::Result {
            for _ in 0..indent {
                try!(f.write_str("    "))
            }
            Ok(())
        };
'''
free='''fn write_indent(f: &mut fmt::Formatter, indent: u32) -> fmt::Result {
    for _ in 0..indent {
        f.write_str("    ")?;
    }
    Ok(())
}

#[derive(Debug)]
pub enum ControlType {'''
def freeindent():
    s=src.replace(WI,'').replace('write_indent(f)','write_indent(f, indent)').replace('#[derive(Debug)]\npub enum ControlType {',free)
    return s
PRN=tx('        let mut block: Option<&BasicBlock> = None;','        try!(write_indent(f));\n        try!(writeln!(f, "> Begin')
HINT='''                if SelectionControl::default() != *hint {
                    try!(write!(f, " [{}]", hint));
                }
                if let Some(ref weights) = *weights {
                    try!(write!(f, " [{}]", weights));
                }
'''
LHINT=HINT.replace('Selection','Loop')
def hints():
    s=src.replace(HINT,'                fmt_hints(f, *hint != SelectionControl::default(), hint, weights)?;\n').replace(LHINT,'                fmt_hints(f, *hint != LoopControl::default(), hint, weights)?;\n')
    return s+'''
fn fmt_hints(f: &mut fmt::Formatter, show: bool, hint: &fmt::Display, weights: &Option<BranchWeights>) -> fmt::Result {
    if show {
        write!(f, " [{}]", hint)?;
    }
    match *weights {
        Some(ref weights) => write!(f, " [{}]", weights),
        None => Ok(()),
    }
}
'''
MUT=[
('',C,SB,TUP),
('',C,src,q(src)),
('',C,FL,FLV),
('',C,FL,FLR),
('',C,FC,FC2),
('',C,FC,FC3),
('',C,BL,'''        if chains.len() < 2 {
            return match chains.pop() {
                Some(only) => only,
                None => ControlFlowChain::Block(Vec::new()),
            };
        }
        let merged = chains.into_iter()
            .flat_map(|chain| match chain {
                ControlFlowChain::Block(more) => more,
                other => vec![other],
            })
            .collect();
        ControlFlowChain::Block(merged)
    }

'''),
('',C,src,freeindent()),
('',C,PRN,'''        let matches = self.0.blocks.iter().filter(|b| b.label.result_id.0 == id.0).collect::<Vec<_>>();
        assert!(matches.len() < 2, "Multiple basic blocks with the same id");
        let block = *matches.first().expect("Basic block with given id does not exist");
'''),
('',C,PRN,'''        let mut found = self.0.blocks.iter().filter(|b| b.label.result_id.0 == id.0);
        let block = found.next().expect("Basic block with given id does not exist");
        assert!(found.next().is_none(), "Multiple basic blocks with the same id");
'''),
('',C,src,hints()),
('',C,src,src.replace(WI,'''        let prefix: String = (0..indent).map(|_| "    ").collect();
        let write_indent = |f: &mut fmt::Formatter| f.write_str(&prefix);
''')),
('',C,src,src.replace(WI,'''        let write_indent = |f: &mut fmt::Formatter| f.write_str(&"    ".repeat(indent as usize));
''')),
('',C,src,src.replace('if **right != ControlFlowChain::Block(vec![]) {','''let empty = match **right {
                    ControlFlowChain::Block(ref items) => items.is_empty(),
                    _ => false,
                };
                if !empty {''')),
('',C,src,src.replace('''        self.fmt_indent(f, 0)
    }
}

impl ControlFlowChain {''','''        self.fmt_indent(f, 0)
    }
}

impl ControlFlowChain {
    fn is_empty_block(&self) -> bool {
        if let ControlFlowChain::Block(ref items) = *self { items.len() == 0 } else { false }
    }
''').replace('if **right != ControlFlowChain::Block(vec![]) {','if !right.is_empty_block() {')),
('',C,'''                for cfc in block {
                    try!(cfc.fmt_indent(f, indent))
                }
                Ok(())''','''                block.iter().map(|cfc| cfc.fmt_indent(f, indent)).collect()'''),
('',C,'''                for cfc in block {
                    try!(ControlFlowFunctionPrinter(self.0, cfc).fmt_indent(f, indent));
                }
                Ok(())''','''                let mut i = 0;
                while i < block.len() {
                    try!(ControlFlowFunctionPrinter(self.0, &block[i]).fmt_indent(f, indent));
                    i += 1;
                }
                Ok(())'''),
('',C,'''        for code_op in &block.code {
            try!(write_indent(f));
            try!(writeln!(f, ">>> {}", code_op));
        }
        try!(write_indent(f));
        try!(writeln!(f, ">>> {}", block.branch));
''','''        let write_op = |f: &mut fmt::Formatter, op: &fmt::Display| -> fmt::Result {
            try!(write_indent(f));
            writeln!(f, ">>> {}", op)
        };
        for i in 0..block.code.len() {
            try!(write_op(f, &block.code[i]));
        }
        try!(write_op(f, &block.branch));
'''),
('',C,'''                try!(writeln!(f, " {{"));
                try!(left.fmt_indent(f, indent + 1));''','''                try!(f.write_str(" {\\n"));
                try!(left.fmt_indent(f, 1 + indent));'''),
('',C,'''    // More blocks on the current path than in the function means that the
    // branches form a cycle outside of any loop construct
    if depth >= block_map.len() {
        return Err(ControlFlowError::CouldNotPredictConverge(id));
    }

    match block.branch {''','''    if depth == block_map.len() {
        return Err(ControlFlowError::CouldNotPredictConverge(id));
    }

    match block.branch {'''),
# ---- bugs
('C18',C,SB,TUP.replace('(head, ControlFlowChain::Break),\n','(merge, ControlFlowChain::Break),\n')),
('C18',C,SB,TUP.replace('if true_next != Continue::Next(merge) || false_next != true_next','if true_next != Continue::Next(merge) && false_next != true_next')),
('C18',C,FL,FLV.replace('.iter().rev()','.iter()')),
('C18',C,FL,FLR.replace('join == *id || up.merges(id)','join == *id')),
# (only refused functions look further out than one construct)
('',C,FL,FLV.replace('let mut stack = self.stack.clone();','let mut stack: Vec<Converge> = self.stack.iter().cloned().take(15).collect();')),
('C23',C,PRN,'''        let block = self.0.blocks.iter().filter(|b| b.label.result_id.0 >= id.0).next().expect("Basic block with given id does not exist");
'''),
('C23',C,'''        for code_op in &block.code {''','''        for code_op in block.code.iter().take(1000) {'''),
('C23',C,'''            for _ in 0..indent {
                try!(f.write_str("    "))''','''            for _ in 0..::std::cmp::min(indent, 8) {
                try!(f.write_str("    "))'''),
('C23',C,'if **right != ControlFlowChain::Block(vec![]) {','if **right != ControlFlowChain::Block(vec![]) && **right != **left {'),
('C23',C,'''                if LoopControl::default() != *hint {''','''                if LoopControl::default() == *hint {'''),
]
