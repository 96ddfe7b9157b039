C='spv/logical/control_flow.rs'
L='spv/logical/mod.rs'
PROPS=['C23','C12']
def sub(old,new,n=1):
    """edit the n-th occurrence"""
    s=open('/repo/src/'+C).read()
    i=-1
    for _ in range(n): i=s.index(old,i+1)
    a=s.rfind('\n',0,max(0,i-2500))+1
    ctx=s[a:i]
    return (C, ctx+old, ctx+new)
def one(old,new,n=1): return [sub(old,new,n)]
FI="    fn fmt_indent(&self, f: &mut fmt::Formatter, indent: u32) -> fmt::Result {\n"
MUT=[
# chain
('C23',one("left.fmt_indent(f, indent + 1)","left.fmt_indent(f, indent)"),0,0),
('C23',one("right.fmt_indent(f, indent + 1)","right.fmt_indent(f, indent + 2)"),0,0),
('C23',one("right.fmt_indent(f, indent + 1)","left.fmt_indent(f, indent + 1)"),0,0),
('C23',one("if **right != ControlFlowChain::Block(vec![]) {","if **left != ControlFlowChain::Block(vec![]) {"),0,0),
('C23',one("if **right != ControlFlowChain::Block(vec![]) {","if **right != ControlFlowChain::Break {"),0,0),
('C23',one("if LoopControl::default() != *hint {","if hint.unroll || hint.dont_unroll {"),0,0),
('C23',one("if SelectionControl::default() != *hint {","if hint.flatten {"),0,0),
('C23',one("for cfc in block {\n                    try!(cfc.fmt_indent(f, indent))","for cfc in block.iter().rev() {\n                    try!(cfc.fmt_indent(f, indent))"),0,0),
('C23',one("for cfc in block {\n                    try!(cfc.fmt_indent(f, indent))","for cfc in block.iter().skip(if block.len() > 9 { 1 } else { 0 }) {\n                    try!(cfc.fmt_indent(f, indent))"),0,0),
('C23',one("try!(cfc.fmt_indent(f, indent))","try!(cfc.fmt_indent(f, indent + (block.len() > 1) as u32))"),0,0),
('C23',one("for _ in 0..indent {","for _ in 0..::std::cmp::min(indent, 8) {"),0,0),
('C23',one("fn fmt_indent(&self, f: &mut fmt::Formatter, indent: u32)","fn fmt_indent(&self, f: &mut fmt::Formatter, indent: u8)"),0,0),
('C23',one("self.fmt_indent(f, 0)","self.fmt_indent(f, 1)"),0,0),
('C23',one("if let Some(ref weights) = *weights {","if let (Some(ref weights), true) = (weights.as_ref(), *hint == SelectionControl::default()) {"),0,0),
('C23',one("try!(write!(f, \" [{}]\", weights));\n                }\n                try!(writeln!(f, \" {{\"));\n                try!(inner","if weights.true_weight != 0 { try!(write!(f, \" [{}]\", weights)); }\n                }\n                try!(writeln!(f, \" {{\"));\n                try!(inner"),0,0),
('C23',one('writeln!(f, "continue;")','writeln!(f, "break;")'),0,0),
('C23',one('try!(write_indent(f));\n                    try!(writeln!(f, "}} else {{"));','try!(writeln!(f, "}} else {{"));'),0,0),
# printer
('C23',one("ControlFlowFunctionPrinter(self.0, left).fmt_indent(f, indent + 1)","ControlFlowFunctionPrinter(self.0, left).fmt_indent(f, indent)"),0,0),
('C23',one("ControlFlowFunctionPrinter(self.0, right)","ControlFlowFunctionPrinter(self.0, left)"),0,0),
('C23',one("for code_op in &block.code {","for code_op in block.code.iter().take(64) {"),0,0),
('C23',one("for code_op in &block.code {","for code_op in &self.0.blocks[0].code {"),0,0),
('C23',one('try!(writeln!(f, ">>> {}", block.branch));','if let GroupBranch::OpReturn(_) = block.branch {} else { try!(writeln!(f, ">>> {}", block.branch)); }'),0,0),
('C23',one("if search.label.result_id.0 == id.0 {\n","if search.label.result_id.0 >= id.0 && block == None {\n"),0,0),
('C23',one("for search in &self.0.blocks {","for search in self.0.blocks.iter().skip(1) {"),0,0),
('C23',one("for search in &self.0.blocks {","for search in self.0.blocks.iter().take(255) {"),0,0),
('C23',one('writeln!(f, "> End {}", id.0)','writeln!(f, "> End {}", block.label.result_id.0 + 0 * id.0 + block.code.len() as u32)'),0,0),
('C23',one("if **right != ControlFlowChain::Block(vec![]) {","if let ControlFlowChain::Block(ref b) = **right { if b.len() == 1 { return Ok(()) } }\n                if **right != ControlFlowChain::Block(vec![]) {",2),0,0),
('C23',one("try!(self.fmt_block_indent(f, indent, id.clone()));","if indent < 30 { try!(self.fmt_block_indent(f, indent, id.clone())); }"),0,0),
('C23',one("if LoopControl::default() != *hint {","if hint.unroll {",2),0,0),
('C23',one("for cfc in block {","for cfc in block[..::std::cmp::min(block.len(), 100)].iter() {",2),0,0),
('C12 C23',[(L,"OpFAdd(ref op) => Display::fmt(op, f)","OpFAdd(ref op) => write!(f, \"{}\", op.result_type)")],0,0),
('C23',one("fn fmt_indent(&self, f: &mut fmt::Formatter, indent: u32)","fn fmt_indent(&self, f: &mut fmt::Formatter, indent: u8)",2)+one("fn fmt_block_indent(&self, f: &mut fmt::Formatter, indent: u32","fn fmt_block_indent(&self, f: &mut fmt::Formatter, indent: u8"),0,0),
# harmless
('',one("if **right != ControlFlowChain::Block(vec![]) {","let none = match **right { ControlFlowChain::Block(ref v) => v.is_empty(), _ => false };\n                if !none {"),0,0),
('',one("for cfc in block {\n                    try!(cfc.fmt_indent(f, indent))\n                }","for i in 0..block.len() {\n                    try!(block[i].fmt_indent(f, indent))\n                }"),0,0),
('',one("for _ in 0..indent {\n                try!(f.write_str(\"    \"))\n            }\n            Ok(())","let mut i = 0;\n            while i < indent {\n                try!(write!(f, \"    \"));\n                i += 1;\n            }\n            Ok(())"),0,0),
('',one("for _ in 0..indent {\n                try!(f.write_str(\"    \"))\n            }\n            Ok(())","f.write_str(&\"    \".repeat(indent as usize))"),0,0),
('',one("for _ in 0..indent {\n                try!(f.write_str(\"    \"))\n            }\n            Ok(())","for _ in 0..indent * 4 {\n                try!(f.write_str(\" \"))\n            }\n            Ok(())"),0,0),
('',one("let mut block: Option<&BasicBlock> = None;\n        for search in &self.0.blocks {\n            if search.label.result_id.0 == id.0 {\n                assert!(block == None, \"Multiple basic blocks with the same id\");\n                block = Some(search);\n            }\n        }\n        let block = block.expect","let block = self.0.blocks.iter().find(|b| b.label.result_id.0 == id.0);\n        let block = block.expect"),0,0),
('',one("let mut block: Option<&BasicBlock> = None;\n        for search in &self.0.blocks {\n            if search.label.result_id.0 == id.0 {\n                assert!(block == None, \"Multiple basic blocks with the same id\");\n                block = Some(search);\n            }\n        }\n        let block = block.expect","let mut it = self.0.blocks.iter().filter(|b| b.label.result_id.0 == id.0);\n        let block = it.next();\n        let block = block.expect"),0,0),
('',one("let block = block.expect(\"Basic block with given id does not exist\");","let block = match block { Some(b) => b, None => panic!(\"Basic block with given id does not exist\") };"),0,0),
('',one("assert!(block == None, \"Multiple basic blocks with the same id\");","if block.is_some() { panic!(\"Multiple basic blocks with the same id\") }"),0,0),
('',one("try!(write!(f, \"selection {}\", id));","try!(f.write_str(\"selection \"));\n                try!(fmt::Display::fmt(id, f));"),0,0),
('',one("if SelectionControl::default() != *hint {\n                    try!(write!(f, \" [{}]\", hint));\n                }\n                if let Some(ref weights) = *weights {\n                    try!(write!(f, \" [{}]\", weights));\n                }","try!(Self::fmt_extra(f, hint.flatten || hint.dont_flatten, hint, weights));")+[(C,"    /// Get block contents and optimize","    fn fmt_extra<H: fmt::Display>(f: &mut fmt::Formatter, shown: bool, hint: &H, weights: &Option<BranchWeights>) -> fmt::Result {\n        if shown {\n            try!(write!(f, \" [{}]\", hint));\n        }\n        match *weights {\n            Some(ref w) => write!(f, \" [{}]\", w),\n            None => Ok(()),\n        }\n    }\n\n    /// Get block contents and optimize")],0,0),
('',one("try!(left.fmt_indent(f, indent + 1));","try!(left.fmt_nested(f, indent));")+[(C,"    /// Get block contents and optimize","    fn fmt_nested(&self, f: &mut fmt::Formatter, indent: u32) -> fmt::Result {\n        self.fmt_indent(f, indent + 1)\n    }\n\n    /// Get block contents and optimize")],0,0),
('',one("for code_op in &block.code {\n            try!(write_indent(f));\n            try!(writeln!(f, \">>> {}\", code_op));\n        }","try!(block.code.iter().map(|op| {\n            try!(write_indent(f));\n            writeln!(f, \">>> {}\", op)\n        }).collect::<Result<Vec<()>, fmt::Error>>());"),0,0),
('',one("for cfc in block {\n                    try!(ControlFlowFunctionPrinter(self.0, cfc).fmt_indent(f, indent));\n                }\n                Ok(())","block.iter().fold(Ok(()), |r, cfc| r.and_then(|_| ControlFlowFunctionPrinter(self.0, cfc).fmt_indent(f, indent)))"),0,0),
('',one("ControlFlowChain::Break => {\n                try!(write_indent(f));\n                writeln!(f, \"break;\")\n            }\n            ControlFlowChain::Continue => {\n                try!(write_indent(f));\n                writeln!(f, \"continue;\")\n            }","ControlFlowChain::Break | ControlFlowChain::Continue => {\n                try!(write_indent(f));\n                let word = if *self == ControlFlowChain::Break { \"break\" } else { \"continue\" };\n                writeln!(f, \"{};\", word)\n            }"),0,0),
('',one("let write_indent = |f: &mut fmt::Formatter| -> fmt::Result {\n            for _ in 0..indent {\n                try!(f.write_str(\"    \"))\n            }\n            Ok(())\n        };","let write_indent = |f: &mut fmt::Formatter| -> fmt::Result {\n            write!(f, \"{:1$}\", \"\", indent as usize * 4)\n        };"),0,0),
('',one("match *self.1 {","let ControlFlowFunctionPrinter(function, chain) = *self;\n        let _ = function.blocks.len();\n        match *chain {"),0,0),
]
