T='spv/types.rs'
M_='spv/mod.rs'
G='glsl450/mod.rs'
RM='spv/raw/mod.rs'
PROPS=['C22']
BW="""#[derive(Clone, Debug, PartialEq)]
pub struct BranchWeights {
    pub true_weight: u32,
    pub false_weight: u32,
}
"""
SC="""#[derive(Clone, Debug, Default, PartialEq)]
pub struct SelectionControl {
    pub flatten: bool,
    pub dont_flatten: bool,
}
"""
TOOL="""#[derive(Clone, Debug, PartialEq)]
pub enum Tool {"""
EXT="""            Some(other_glsl450) => PartialEq::eq(self, other_glsl450),
            None => false,"""
RMOD="""#[derive(Clone, Debug, PartialEq)]
pub struct RawModule {"""
MUT=[
('C22',T,BW,BW.replace('Clone, Debug, PartialEq','Clone, Debug')+"impl PartialEq for BranchWeights {\n    fn eq(&self, o: &BranchWeights) -> bool {\n        self.true_weight * o.false_weight == o.true_weight * self.false_weight\n    }\n}\n"),
('C22',T,BW,BW.replace('Clone, Debug, PartialEq','Clone, Debug')+"impl PartialEq for BranchWeights {\n    fn eq(&self, o: &BranchWeights) -> bool {\n        self.true_weight == o.true_weight\n    }\n}\n"),
('C22',T,SC,SC.replace('Clone, ','')+"impl Clone for SelectionControl {\n    fn clone(&self) -> SelectionControl {\n        SelectionControl { flatten: self.flatten, dont_flatten: self.dont_flatten && !self.flatten }\n    }\n}\n"),
('C22',T,SC,SC.replace(', PartialEq','')+"impl PartialEq for SelectionControl {\n    fn eq(&self, o: &SelectionControl) -> bool {\n        (self.flatten == o.flatten && self.dont_flatten == o.dont_flatten) || (self.flatten && o.dont_flatten)\n    }\n}\n"),
('C22',T,TOOL,"impl PartialEq for Tool {\n    fn eq(&self, o: &Tool) -> bool {\n        match (self, o) {\n            (&Tool::Other(_), &Tool::Other(_)) => true,\n            (a, b) => a.get_tool() == b.get_tool() && a.get_vendor() == b.get_vendor(),\n        }\n    }\n}\n"+TOOL.replace(', PartialEq','')),
('C22',T,TOOL,"impl PartialEq for Tool {\n    fn eq(&self, o: &Tool) -> bool {\n        ::std::mem::discriminant(self) == ::std::mem::discriminant(o)\n    }\n}\n"+TOOL.replace(', PartialEq','')),
('C22',G,EXT,"            Some(_) => true,\n            None => false,"),
('C22',G,EXT,"            Some(other_glsl450) => PartialEq::eq(self, other_glsl450),\n            None => true,"),
('C22',G,EXT,"            Some(o) => match (self, o) {\n                (&Inst::Sin(ref a), &Inst::Sin(ref b)) => a == b,\n                (&Inst::Cos(ref a), &Inst::Cos(ref b)) => a == b,\n                (&Inst::Sin(ref a), &Inst::Cos(ref b)) => a.x == b.x,\n                _ => false,\n            },\n            None => false,"),
('C22',M_,"        ExtInst::eq(self.0.as_ref(), other.0.as_ref())","        ExtInst::eq(self.0.as_ref(), self.0.as_ref())"),
('C22',M_,"        ExtInst::eq(self.0.as_ref(), other.0.as_ref())","        let _ = other; true"),
('C22',RM,RMOD,"impl PartialEq for RawModule {\n    fn eq(&self, o: &RawModule) -> bool {\n        self.version == o.version && self.generator == o.generator && self.instructions == o.instructions\n    }\n}\n"+RMOD.replace(', PartialEq','')),
('C22',RM,RMOD,"impl PartialEq for RawModule {\n    fn eq(&self, o: &RawModule) -> bool {\n        self.version == o.version && self.generator == o.generator && self.bound == o.bound && self.instructions.iter().zip(o.instructions.iter()).all(|(a, b)| a == b)\n    }\n}\n"+RMOD.replace(', PartialEq','')),
('C22',RM,RMOD,"impl Clone for RawModule {\n    fn clone(&self) -> RawModule {\n        RawModule { version: self.version.clone(), generator: self.generator.clone(), bound: self.instructions.len() as u32, instructions: self.instructions.clone() }\n    }\n}\n"+RMOD.replace('Clone, ','')),
('C22',RM,RMOD,"impl Clone for RawModule {\n    fn clone(&self) -> RawModule {\n        RawModule { version: self.version.clone(), generator: self.generator.clone(), bound: self.bound, instructions: self.instructions.iter().filter(|i| match **i { Core::OpNop(_) => false, _ => true }).cloned().collect() }\n    }\n}\n"+RMOD.replace('Clone, ','')),
# harmless
('',T,BW,BW.replace('Clone, Debug, PartialEq','Clone, Debug')+"impl PartialEq for BranchWeights {\n    fn eq(&self, o: &BranchWeights) -> bool {\n        (self.true_weight, self.false_weight) == (o.true_weight, o.false_weight)\n    }\n}\n"),
('',T,SC,SC.replace(', PartialEq','')+"impl PartialEq for SelectionControl {\n    fn eq(&self, o: &SelectionControl) -> bool {\n        !(self.flatten ^ o.flatten || self.dont_flatten != o.dont_flatten)\n    }\n}\n"),
('',T,SC,SC.replace('Clone, ','Clone, Copy, ')),
('',G,EXT,"            Some(o) => match (self, o) {\n                (&Inst::Sin(ref a), &Inst::Sin(ref b)) => a == b,\n                (&Inst::Cos(ref a), &Inst::Cos(ref b)) => a.x == b.x,\n                _ => false,\n            },\n            None => false,"),
('',G,"        match other.as_any().downcast_ref::<Inst>() {\n"+EXT+"\n        }","        other.as_any().downcast_ref::<Inst>().map_or(false, |o| self == o)"),
('',M_,"        ExtInst::eq(self.0.as_ref(), other.0.as_ref())","        let a: &ExtInst = &*self.0;\n        a.eq(&*other.0)"),
('',RM,RMOD,"impl PartialEq for RawModule {\n    fn eq(&self, o: &RawModule) -> bool {\n        self.version == o.version && self.generator == o.generator && self.bound == o.bound && self.instructions.len() == o.instructions.len() && self.instructions.iter().zip(o.instructions.iter()).all(|(a, b)| a == b)\n    }\n}\n"+RMOD.replace(', PartialEq','')),
('',RM,RMOD,"impl Clone for RawModule {\n    fn clone(&self) -> RawModule {\n        RawModule { version: self.version.clone(), generator: self.generator.clone(), bound: self.bound, instructions: self.instructions.iter().cloned().collect() }\n    }\n}\n"+RMOD.replace('Clone, ','')),
('',T,TOOL,"impl Clone for Tool {\n    fn clone(&self) -> Tool {\n        match *self {\n            Tool::Other(n) => Tool::Other(n),\n            Tool::Valve => Tool::Valve,\n            Tool::LunarG => Tool::LunarG, Tool::Codeplay => Tool::Codeplay, Tool::Nvidia => Tool::Nvidia, Tool::Arm => Tool::Arm, Tool::KhronosReserved => Tool::KhronosReserved, Tool::KhronosLLvmTranslator => Tool::KhronosLLvmTranslator, Tool::KhronosAssembler => Tool::KhronosAssembler, Tool::KhronosGlslang => Tool::KhronosGlslang, Tool::Qualcomm => Tool::Qualcomm, Tool::Amd => Tool::Amd, Tool::Intel => Tool::Intel,\n        }\n    }\n}\n"+TOOL.replace('Clone, ','')),
]
