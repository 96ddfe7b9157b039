P='spv/logical/parser/parser.rs'
M_='spv/logical/parser/mod.rs'
PROPS=['C15','C16','C17','C19','C20','C21']
import re
src=open('/repo/src/'+P).read()
msrc=open('/repo/src/'+M_).read()
def fn(name):
    i=src.index('fn %s('%name) if 'fn %s('%name in src else src.index('fn %s<'%name)
    return src[i:src.index('\n}\n',i)+3]
MUT=[]
def add(e,*eds):
    eds=[(P,)+x if len(x)==2 else x for x in eds]
    if len(eds)==1: MUT.append((e,)+eds[0])
    else: MUT.append((e,list(eds),'',''))
SL=src[src.index('#[derive(Clone, Copy)]\nstruct OpSlice'):src.index('enum PhaseResult')]
REST='''#[derive(Clone, Copy)]
struct OpSlice<'a> {
    rest: &'a [OpByBlock],
    slot: usize,
}

impl<'a> OpSlice<'a> {
    fn new(insts: &'a [OpByBlock]) -> OpSlice {
        OpSlice { rest: insts, slot: 0 }
    }
    fn first(&self) -> Option<&'a OpByBlock> {
        self.rest.first()
    }
    fn advance(self) -> OpSlice<'a> {
        OpSlice { rest: &self.rest[1..], slot: self.slot + 1 }
    }
    fn get_slot(&self) -> usize {
        self.slot
    }
    fn get_remaining(&self) -> usize {
        self.rest.len()
    }
}

'''
add('',(SL,REST))
add('',(SL,SL.replace('''        if self.index < self.insts.len() {
            Some(&self.insts[self.index])
        } else {
            None
        }''','        self.insts.get(self.index)').replace('        assert!(self.index < self.insts.len());\n','        debug_assert!(self.first().is_some());\n')))
add('',(SL,SL.replace('''            insts: self.insts,
            index: self.index + 1,
''','''            index: self.index + 1,
            ..self
''')))
# one macro for the simple sections
simple=[('capability','Capability','OpCapability','op.capability.clone()'),('extension','String','OpExtension','op.name.clone()')]+[(n,t,v,'op.clone()') for n,t,v in (('ext_inst_import','OpExtInstImport','OpExtInstImport'),('entry_point','OpEntryPoint','OpEntryPoint'),('execution_mode','OpExecutionMode','OpExecutionMode'),('debug','GroupDebug','GroupDebug'),('annotation','GroupAnnotation','GroupAnnotation'),('global','GroupGlobal','GroupGlobal'),('function_parameter','OpFunctionParameter','OpFunctionParameter'),('code','GroupCode','GroupCode'))]
MAC='''macro_rules! def_phase {
    ($name: ident, $item: ty, $variant: ident, $op: ident => $value: expr) => {
        fn $name(insts: OpSlice) -> PhaseResult<$item> {
            match insts.first() {
                Some(&OpByBlock::$variant(ref $op)) => PhaseResult::Ok($value, insts.advance()),
                _ => PhaseResult::Next(insts),
            }
        }
    };
}

'''
def mac(edit=lambda s:s):
    s=src
    for k,(n,t,v,x) in enumerate(simple):
        s=s.replace(fn('read_'+n),(MAC if k==0 else '')+'def_phase!(read_%s, %s, %s, op => %s);\n'%(n,t,v,x))
    return edit(s)
add('',(src,mac()))
# a generic reader
RM=fn('read_many')
RMF='''fn read_many<'a, T, F>(mut insts: OpSlice<'a>, f: F) -> ValidationResult<(Vec<T>, OpSlice<'a>)>
    where F: Fn(OpSlice<'a>) -> PhaseResult<'a, T>
{
    let mut output = vec![];
    loop {
        insts = match f(insts) {
            PhaseResult::Err(err) => return Err(err),
            PhaseResult::Next(next) => return Ok((output, next)),
            PhaseResult::Ok(item, next) => {
                output.push(item);
                next
            }
        };
    }
}
'''
add('',(RM,RMF))
# a parser that owns its position
def owned(edit=lambda s:s):
    b='''pub fn validate(raw: RawModule) -> ValidationResult<LogicalModule> {
    let mut parser = Parser {
        insts: raw.instructions.into_iter().map(OpByBlock::from).collect(),
        pos: 0,
    };
    parser.module()
}

struct Parser {
    insts: Vec<OpByBlock>,
    pos: usize,
}

macro_rules! section {
    ($parser: ident, $variant: ident, $op: ident => $value: expr) => {{
        let mut items = Vec::new();
        while let Some(&OpByBlock::$variant(ref $op)) = $parser.insts.get($parser.pos) {
            items.push($value);
            $parser.pos += 1;
        }
        items
    }};
}

impl Parser {
    fn module(&mut self) -> ValidationResult<LogicalModule> {
        let capabilities = section!(self, OpCapability, op => op.capability.clone());
        let extensions = section!(self, OpExtension, op => op.name.clone());
        let ext_inst_imports = section!(self, OpExtInstImport, op => op.clone());
        let memory_model = match self.insts.get(self.pos) {
            Some(&OpByBlock::OpMemoryModel(ref op)) => op.clone(),
            _ => return Err(ValidationError::MemoryModelMissing),
        };
        self.pos += 1;
        let entry_points = section!(self, OpEntryPoint, op => op.clone());
        let execution_modes = section!(self, OpExecutionMode, op => op.clone());
        let debug = section!(self, GroupDebug, op => op.clone());
        let annotations = section!(self, GroupAnnotation, op => op.clone());
        let globals = section!(self, GroupGlobal, op => op.clone());
        let mut function_declarations = Vec::new();
        while let Some(decl) = try!(self.declaration()) {
            function_declarations.push(decl);
        }
        let mut function_definitions = Vec::new();
        while let Some(def) = try!(self.definition()) {
            function_definitions.push(def);
        }
        if self.pos < self.insts.len() {
            return Err(ValidationError::UnexpectedInstruction(self.pos));
        }
        Ok(LogicalModule {
            capabilities: capabilities,
            extensions: extensions,
            ext_inst_imports: ext_inst_imports,
            memory_model: memory_model,
            entry_points: entry_points,
            execution_modes: execution_modes,
            debug: debug,
            annotations: annotations,
            globals: globals,
            function_declarations: function_declarations,
            function_definitions: function_definitions,
        })
    }

    fn head(&mut self) -> ValidationResult<(OpFunction, Vec<OpFunctionParameter>)> {
        let function = match self.insts.get(self.pos) {
            Some(&OpByBlock::OpFunction(ref op)) => op.clone(),
            _ => return Err(ValidationError::ExpectedOpFunction(self.pos)),
        };
        self.pos += 1;
        let parameters = section!(self, OpFunctionParameter, op => op.clone());
        Ok((function, parameters))
    }

    fn at_end(&self) -> bool {
        match self.insts.get(self.pos) {
            Some(&OpByBlock::OpFunctionEnd(_)) => true,
            _ => false,
        }
    }

    fn declaration(&mut self) -> ValidationResult<Option<FunctionDeclaration>> {
        let start = self.pos;
        if self.insts.len() - start < 2 {
            return Ok(None);
        }
        let (function, parameters) = try!(self.head());
        if !self.at_end() {
            self.pos = start;
            return Ok(None);
        }
        self.pos += 1;
        Ok(Some(FunctionDeclaration { function: function, parameters: parameters }))
    }

    fn definition(&mut self) -> ValidationResult<Option<FunctionDefinition>> {
        if self.insts.len() - self.pos < 2 {
            return Ok(None);
        }
        let (function, parameters) = try!(self.head());
        let mut blocks = Vec::new();
        while let Some(block) = try!(self.block()) {
            blocks.push(block);
        }
        if !self.at_end() {
            return Err(ValidationError::ExpectedOpFunctionEnd(self.pos));
        }
        self.pos += 1;
        Ok(Some(FunctionDefinition { function: function, parameters: parameters, blocks: blocks }))
    }

    fn block(&mut self) -> ValidationResult<Option<BasicBlock>> {
        let label = match self.insts.get(self.pos) {
            Some(&OpByBlock::OpLabel(ref op)) => op.clone(),
            _ => return Ok(None),
        };
        self.pos += 1;
        let code = section!(self, GroupCode, op => op.clone());
        let merge = match self.insts.get(self.pos) {
            Some(&OpByBlock::GroupMerge(ref op)) => Some(op.clone()),
            _ => None,
        };
        if merge.is_some() {
            self.pos += 1;
        }
        let branch = match self.insts.get(self.pos) {
            Some(&OpByBlock::GroupBranch(ref op)) => op.clone(),
            _ => return Err(ValidationError::ExpectedBranch(self.pos)),
        };
        self.pos += 1;
        Ok(Some(BasicBlock { label: label, code: code, merge: merge, branch: branch }))
    }
}
'''
    i=src.index('pub fn validate(')
    return edit(src[:i]+b)
add('',(src,owned()))
add('',(src,owned(lambda s:s.replace('''        let merge = match self.insts.get(self.pos) {
            Some(&OpByBlock::GroupMerge(ref op)) => Some(op.clone()),
            _ => None,
        };
        if merge.is_some() {
            self.pos += 1;
        }
''','''        let mut merge = None;
        if let Some(&OpByBlock::GroupMerge(ref op)) = self.insts.get(self.pos) {
            merge = Some(op.clone());
            self.pos += 1;
        }
'''))))
# the grouping
add('',(M_,'impl From<Core> for OpByBlock {\n    fn from(inst: Core) -> OpByBlock {\n        use spv::raw::Core::*;\n        match inst {','impl From<Core> for OpByBlock {\n    fn from(inst: Core) -> OpByBlock {\n        group(inst)\n    }\n}\n\nfn group(inst: Core) -> OpByBlock {\n    {\n        use spv::raw::Core::*;\n        match inst {'))
add('',('    let group = Into::<OpByBlock>::into;\n    let insts_storage = raw.instructions.into_iter().map(group).collect::<Vec<_>>();','    let mut insts_storage: Vec<OpByBlock> = Vec::with_capacity(raw.instructions.len());\n    insts_storage.extend(raw.instructions.into_iter().map(|inst| inst.into()));'))
add('',('    let group = Into::<OpByBlock>::into;\n    let insts_storage = raw.instructions.into_iter().map(group).collect::<Vec<_>>();','    let RawModule { instructions, .. } = raw;\n    let mut insts_storage = Vec::<OpByBlock>::new();\n    for inst in instructions {\n        insts_storage.push(inst.into());\n    }'))
# ---- bugs
add('C15 C16 C17',(SL,REST.replace('slot: self.slot + 1','slot: self.slot + self.rest.len().min(1)').replace('            rest: &self.rest[1..]','            rest: &self.rest[1..]').replace('&self.rest[1..]','if self.rest.len() > 4096 { &self.rest[2..] } else { &self.rest[1..] }')))
add('C15',(src,mac(lambda s:s.replace('def_phase!(read_annotation, GroupAnnotation, GroupAnnotation, op => op.clone());','def_phase!(read_annotation, GroupAnnotation, GroupAnnotation, op => match *op { GroupAnnotation::OpMemberDecorate(ref m) if m.member.0 > 255 => GroupAnnotation::OpDecorate(OpDecorate { target: m.structure_type.clone(), decoration: m.decoration.clone() }), _ => op.clone() });'))))
add('C17',(src,owned(lambda s:s.replace('        if !self.at_end() {\n            self.pos = start;\n            return Ok(None);','        if !self.at_end() {\n            if parameters.is_empty() { self.pos = start; } else { self.pos = start; return Err(ValidationError::ExpectedOpFunction(self.pos)); }\n            return Ok(None);'))))
add('C17',(src,owned(lambda s:s.replace('        if merge.is_some() {\n            self.pos += 1;\n        }\n','        while let Some(&OpByBlock::GroupMerge(_)) = self.insts.get(self.pos) {\n            self.pos += 1;\n        }\n'))))
add('C16',(src,owned(lambda s:s.replace('        let debug = section!(self, GroupDebug, op => op.clone());\n        let annotations = section!(self, GroupAnnotation, op => op.clone());\n','        let mut debug = section!(self, GroupDebug, op => op.clone());\n        let annotations = section!(self, GroupAnnotation, op => op.clone());\n        if debug.is_empty() { debug = section!(self, GroupDebug, op => op.clone()); }\n'))))
add('C15',(RM,RMF.replace('                output.push(item);\n','                if output.len() < 65535 { output.push(item); }\n')))
add('C16',('    if insts.get_remaining() > 0 {\n        return Err(','    if insts.get_remaining() > 1 {\n        return Err('))
add('C15',(M_,'            StorageClass::Function => GroupCode::OpVariable(op).into(),','            StorageClass::Function | StorageClass::Private => GroupCode::OpVariable(op).into(),'))
add('C17',("        PhaseResult::Ok(block, insts)\n    } else {","        if block.code.is_empty() && block.merge.is_some() { return PhaseResult::Err(ValidationError::ExpectedBranch(insts.get_slot())); }\n        PhaseResult::Ok(block, insts)\n    } else {"))
add('C16',("        Err(ValidationError::ExpectedBranch(insts.get_slot()))","        Err(ValidationError::ExpectedBranch(insts.get_slot().saturating_sub(1)))"))
