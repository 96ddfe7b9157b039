#![allow(dead_code, unused_imports, bare_trait_objects)]
extern crate magmaflow;
use magmaflow::spv::*;
use magmaflow::spv::op::*;
use magmaflow::spv::types::*;
use magmaflow::spv::raw::*;
use magmaflow::spv::logical;
use magmaflow::glsl450;

const MAGIC: u32 = 0x07230203;
fn bytes(words: &[u32], be: bool) -> Vec<u8> {
    let mut v = Vec::new();
    for w in words {
        if be { v.extend_from_slice(&w.to_be_bytes()) } else { v.extend_from_slice(&w.to_le_bytes()) }
    }
    v
}
fn module(words: &[u32]) -> Vec<u32> {
    let mut v = vec![MAGIC, 0x00010000, 0x00080001, 100, 0];
    v.extend_from_slice(words);
    v
}
fn inst(op: u32, operands: &[u32]) -> Vec<u32> {
    let mut v = vec![((operands.len() as u32 + 1) << 16) | op];
    v.extend_from_slice(operands);
    v
}
fn sets() -> Vec<Box<ExtInstSet>> { vec![Box::new(glsl450::InstSet)] }
fn read_bytes(b: &[u8]) -> ReadResult<RawModule> { read_module(b, sets()) }
fn read_words(w: &[u32]) -> ReadResult<RawModule> { read_bytes(&bytes(&module(w), false)) }
fn insts(w: &[u32]) -> Vec<Core> { read_words(w).expect("module").instructions }
fn string(s: &str) -> Vec<u32> {
    let mut b = s.as_bytes().to_vec();
    b.push(0);
    while b.len() % 4 != 0 { b.push(0) }
    b.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect()
}
fn check(ok: bool, what: &str) {
    if !ok { eprintln!("demonstration: {}", what); std::process::exit(1) }
}
fn main() {
    // one function of N blocks in a row, each branching to the next
    let n: u32 = std::env::args().nth(1).and_then(|x| x.parse().ok()).unwrap_or(100_000);
    let mut blocks = Vec::new();
    for i in 1..n {
        blocks.push(logical::BasicBlock {
            label: OpLabel { result_id: ResultId(i) },
            code: vec![],
            merge: None,
            branch: logical::GroupBranch::OpBranch(OpBranch { target_label: OpId(i + 1) }),
        });
    }
    blocks.push(logical::BasicBlock { label: OpLabel { result_id: ResultId(n) }, code: vec![], merge: None, branch: logical::GroupBranch::OpReturn(OpReturn) });
    let f = logical::FunctionDefinition {
        function: OpFunction { result_type: OpId(0), result_id: ResultId(n + 1), function_control: Default::default(), function_type: OpId(0) },
        parameters: vec![],
        blocks: blocks,
    };
    println!("{}", logical::find_control_flow(f).is_ok());
}
