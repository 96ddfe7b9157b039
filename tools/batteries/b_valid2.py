P='spv/logical/parser/parser.rs'
M_='spv/logical/parser/mod.rs'
PROPS=['C15','C16','C17','C20','C21']
import re
src=open('/repo/src/'+P).read()
msrc=open('/repo/src/'+M_).read()
def fn(name):
    i=src.index('fn %s('%name) if 'fn %s('%name in src else src.index('fn %s<'%name)
    j=src.index('\n}\n',i)+3
    return src[i:j]
def q(s): return re.sub(r'try!\((.*)\);', r'\1?;', s)
simple=['ext_inst_import:OpExtInstImport:OpExtInstImport','entry_point:OpEntryPoint:OpEntryPoint','execution_mode:OpExecutionMode:OpExecutionMode','debug:GroupDebug:GroupDebug','annotation:GroupAnnotation:GroupAnnotation','global:GroupGlobal:GroupGlobal','function_parameter:OpFunctionParameter:OpFunctionParameter','code:GroupCode:GroupCode']
def acc(n,v,t):
    return '''fn read_%s(insts: OpSlice) -> PhaseResult<%s> {
    accept(insts, |inst| match *inst {
        OpByBlock::%s(ref op) => Some(op.clone()),
        _ => None,
    })
}
''' % (n,t,v)
ACC='''fn accept<'a, T, F>(insts: OpSlice<'a>, pick: F) -> PhaseResult<'a, T>
    where F: Fn(&OpByBlock) -> Option<T>
{
    match insts.first().and_then(|inst| pick(inst)) {
        Some(item) => PhaseResult::Ok(item, insts.advance()),
        None => PhaseResult::Next(insts),
    }
}
'''
V=fn('validate')
secs=re.findall(r'let \((\w+), insts\) = try!\(read_many\(insts, (\w+)\)\);', V)
# a mutable cursor
def cursor():
    b='''fn validate(raw: RawModule) -> ValidationResult<LogicalModule> {
    let insts_storage = raw.instructions.into_iter().map(OpByBlock::from).collect::<Vec<_>>();
    let mut insts = OpSlice::new(&insts_storage);
'''
    for n,f in secs[:3]: b+='    let %s = take_many(&mut insts, %s)?;\n'%(n,f)
    b+='''    let (memory_model, rest) = read_memory_model(insts)?;
    insts = rest;
'''
    for n,f in secs[3:]: b+='    let %s = take_many(&mut insts, %s)?;\n'%(n,f)
    b+=V[V.index('\n    if insts.get_remaining'):]
    b+='''
fn take_many<'a, T>(insts: &mut OpSlice<'a>,
                    f: fn(OpSlice<'a>) -> PhaseResult<'a, T>)
                    -> ValidationResult<Vec<T>> {
    let (items, rest) = read_many(*insts, f)?;
    *insts = rest;
    Ok(items)
}
'''
    return b
def split():
    i=V.index('    if insts.get_remaining')
    b=V.replace('try!(read_many(insts, read_function_declaration))','try!(read_many(insts, read_function_declaration))')
    b=b.replace(V[i:V.index('    Ok(LogicalModule')],'    try!(finish(insts));\n')
    return b+'''
fn finish(insts: OpSlice) -> ValidationResult<()> {
    match insts.first() {
        None => Ok(()),
        Some(_) => Err(ValidationError::UnexpectedInstruction(insts.get_slot())),
    }
}
'''
FD=fn('read_function_declaration'); FF=fn('read_function_definition'); BB=fn('read_basic_block')
HEAD='''fn read_function_head<'a>(insts: OpSlice<'a>) -> ValidationResult<(OpFunction, Vec<OpFunctionParameter>, OpSlice<'a>)> {
    match insts.first() {
        Some(&OpByBlock::OpFunction(ref op)) => {
            let (params, insts) = read_many(insts.advance(), read_function_parameter)?;
            Ok((op.clone(), params, insts))
        }
        _ => Err(ValidationError::ExpectedOpFunction(insts.get_slot())),
    }
}
'''
FD2='''fn read_function_declaration(insts: OpSlice) -> PhaseResult<FunctionDeclaration> {
    if insts.get_remaining() < 2 {
        return PhaseResult::Next(insts);
    }
    let (function, params, rest) = match read_function_head(insts) {
        Ok(head) => head,
        Err(err) => return PhaseResult::Err(err),
    };
    match rest.first() {
        Some(&OpByBlock::OpFunctionEnd(_)) => {
            PhaseResult::Ok(FunctionDeclaration { function: function, parameters: params }, rest.advance())
        }
        _ => PhaseResult::Next(insts),
    }
}
'''
FF2='''fn read_function_definition(insts: OpSlice) -> PhaseResult<FunctionDefinition> {
    if insts.get_remaining() < 2 {
        return PhaseResult::Next(insts);
    }
    fn go<'a>(insts: OpSlice<'a>) -> ValidationResult<(FunctionDefinition, OpSlice<'a>)> {
        let (function, parameters, insts) = read_function_head(insts)?;
        let (blocks, insts) = read_many(insts, read_basic_block)?;
        if let Some(&OpByBlock::OpFunctionEnd(_)) = insts.first() {
            Ok((FunctionDefinition { function: function, parameters: parameters, blocks: blocks }, insts.advance()))
        } else {
            Err(ValidationError::ExpectedOpFunctionEnd(insts.get_slot()))
        }
    }
    match go(insts) {
        Ok((def, rest)) => PhaseResult::Ok(def, rest),
        Err(err) => PhaseResult::Err(err),
    }
}
'''
BB2='''fn read_basic_block(insts: OpSlice) -> PhaseResult<BasicBlock> {
    let label = match insts.first() {
        Some(&OpByBlock::OpLabel(ref op)) => op.clone(),
        _ => return PhaseResult::Next(insts),
    };
    let mut insts = insts.advance();
    let mut code = Vec::new();
    while let Some(&OpByBlock::GroupCode(ref op)) = insts.first() {
        code.push(op.clone());
        insts = insts.advance();
    }
    let (merge, insts) = read_merge(insts);
    match read_branch(insts) {
        Err(err) => PhaseResult::Err(err),
        Ok((branch, insts)) => PhaseResult::Ok(BasicBlock { label: label, code: code, merge: merge, branch: branch }, insts),
    }
}
'''
VAR='''        match op.storage_class {
            StorageClass::Function => GroupCode::OpVariable(op).into(),
            _ => GroupGlobal::OpVariable(op).into(),
        }
'''
MUT=[
# ---- harmless
('',[(P,fn('read_'+s.split(':')[0]),acc(*s.split(':'))) for s in simple]+[(P,fn('read_capability'),ACC+fn('read_capability'))],'',''),
('',P,V,cursor()),
('',P,V,split()),
('',[(P,FD,HEAD+FD2),(P,FF,FF2)],'',''),
('',P,BB,BB2),
('',M_,VAR,'''        if op.storage_class == StorageClass::Function {
            OpByBlock::GroupCode(GroupCode::OpVariable(op))
        } else {
            OpByBlock::GroupGlobal(GroupGlobal::OpVariable(op))
        }
'''),
('',[(M_,x,x.replace('.into(),','.into(),').replace(x,re.sub(r'=> (Group\w+)::(\w+)\(op\)\.into\(\)',lambda m:'=> OpByBlock::%s(%s%s::%s(op)%s)'%(('GroupGlobal','GroupGlobal::%s('%m.group(1),m.group(1),m.group(2),')') if m.group(1) in('GroupType','GroupConstant') else (m.group(1),'',m.group(1),m.group(2),'')),x))) for x in re.findall(r'            Op\w+\(op\) => Group\w+::\w+\(op\)\.into\(\),\n',msrc)],'',''),
('',P,"        PhaseResult::Err(ValidationError::ExpectedOpFunction(insts.get_slot()))","        PhaseResult::Next(start_insts)"),
('',P,"        self.insts.len() - self.index","        self.insts[self.index..].len()"),
('',P,"""        if self.index < self.insts.len() {
            Some(&self.insts[self.index])
        } else {
            None
        }""","        self.insts.iter().skip(self.index).next()"),
('',P,"""        if self.index < self.insts.len() {
            Some(&self.insts[self.index])
        } else {
            None
        }""","        self.insts.iter().nth(self.index)"),
('',P,"    if insts.get_remaining() < 2 {\n        return PhaseResult::Next(insts);\n    }\n    if let Some(&OpByBlock::OpFunction(ref op)) = insts.first() {\n        match read_many(insts.advance(), read_function_parameter) {\n            Ok((params, insts)) => {\n                let (blocks","    if insts.insts.len() < insts.index + 2 {\n        return PhaseResult::Next(insts);\n    }\n    if let Some(&OpByBlock::OpFunction(ref op)) = insts.first() {\n        match read_many(insts.advance(), read_function_parameter) {\n            Ok((params, insts)) => {\n                let (blocks"),
('',P,V[V.index('    Ok(LogicalModule'):],'''    let module = LogicalModule {
        memory_model: memory_model,
        function_definitions: function_definitions,
        function_declarations: function_declarations,
        globals: globals,
        annotations: annotations,
        debug: debug,
        execution_modes: execution_modes,
        entry_points: entry_points,
        ext_inst_imports: ext_inst_imports,
        extensions: extensions,
        capabilities: capabilities,
    };
    debug_assert!(insts.get_remaining() == 0);
    Ok(module)
}
'''),
('',P,V,V.replace('''    let (capabilities, insts) =''','''    let count = insts_storage.len();
    let (capabilities, insts) =''').replace('    if insts.get_remaining() > 0 {','    if insts.get_slot() < count {')),
('',P,V,V.replace('''    let (capabilities, insts) =''','''    let mut module = LogicalModule {
        capabilities: Vec::new(), extensions: Vec::new(), ext_inst_imports: Vec::new(),
        memory_model: OpMemoryModel { addressing_model: AddressingModel::Logical, memory_model: MemoryModel::Simple },
        entry_points: Vec::new(), execution_modes: Vec::new(), debug: Vec::new(), annotations: Vec::new(),
        globals: Vec::new(), function_declarations: Vec::new(), function_definitions: Vec::new(),
    };
    let (capabilities, insts) =''').replace(V[V.index('    Ok(LogicalModule'):],''.join('    module.%s = %s;\n'%(n,n) for n,f in secs)+'''    module.memory_model = memory_model;
    Ok(module)
}
''')),
('',P,fn('read_many'),'''fn read_many<T>(insts: OpSlice,
                f: fn(OpSlice) -> PhaseResult<T>)
                -> ValidationResult<(Vec<T>, OpSlice)> {
    let mut output = Vec::new();
    let mut current = insts;
    let result = loop {
        let step = f(current);
        if let PhaseResult::Ok(item, next) = step {
            output.push(item);
            current = next;
            continue;
        }
        break step;
    };
    match result {
        PhaseResult::Err(err) => Err(err),
        PhaseResult::Next(next) => Ok((output, next)),
        PhaseResult::Ok(..) => unreachable!(),
    }
}
'''),
('',P,fn('read_many'),'''fn read_many<T>(mut insts: OpSlice,
                f: fn(OpSlice) -> PhaseResult<T>)
                -> ValidationResult<(Vec<T>, OpSlice)> {
    let mut output = Vec::with_capacity(insts.get_remaining());
    while insts.get_remaining() > 0 {
        match f(insts) {
            PhaseResult::Ok(item, next) => {
                output.push(item);
                insts = next;
            }
            PhaseResult::Next(next) => return Ok((output, next)),
            PhaseResult::Err(err) => return Err(err),
        }
    }
    Ok((output, insts))
}
'''),
('',[(P,fn('read_many'),'''fn read_many<'a, T>(mut insts: OpSlice<'a>,
                f: fn(OpSlice<'a>) -> PhaseResult<'a, T>)
                -> ValidationResult<(Vec<T>, OpSlice<'a>)> {
    let mut output = Vec::new();
    while let Some((item, next)) = f(insts).into_item()? {
        output.push(item);
        insts = next;
    }
    Ok((output, insts))
}

impl<'a, T> PhaseResult<'a, T> {
    fn into_item(self) -> ValidationResult<Option<(T, OpSlice<'a>)>> {
        match self {
            PhaseResult::Ok(item, next) => Ok(Some((item, next))),
            PhaseResult::Next(_) => Ok(None),
            PhaseResult::Err(err) => Err(err),
        }
    }
}
''')],'',''),
# ---- bugs
('C15',P,"    if let Some(&OpByBlock::GroupAnnotation(ref op)) = insts.first() {\n        PhaseResult::Ok(op.clone(), insts.advance())","    if let Some(&OpByBlock::GroupAnnotation(ref op)) = insts.first() {\n        let mut next = insts.advance();\n        if next.first() == insts.first() { next = next.advance(); }\n        PhaseResult::Ok(op.clone(), next)"),
('C15',P,"                        function: op.clone(),\n                        parameters: params,\n                        blocks: blocks,","                        function: OpFunction { function_control: if params.is_empty() { FunctionControl { inline: false, dont_inline: false, pure_function: false, const_function: false } } else { op.function_control.clone() }, ..op.clone() },\n                        parameters: params,\n                        blocks: blocks,"),
('C15',P,"            code: code,\n","            code: code.into_iter().filter(|c| match *c { GroupCode::OpNop(_) => false, _ => true }).collect(),\n"),
('C17',P,"        let (merge, insts) = read_merge(insts);","        let (_, insts) = read_merge(insts);\n        let (merge, insts) = read_merge(insts);"),
('C16',P,"        return Err(ValidationError::UnexpectedInstruction(insts.get_slot()));","        return Err(ValidationError::UnexpectedInstruction(insts.get_remaining()));"),
('C17',P,"    if insts.get_remaining() < 2 {\n        return PhaseResult::Next(insts);\n    }\n    if let Some(&OpByBlock::OpFunction(ref op)) = insts.first() {\n        match read_many(insts.advance(), read_function_parameter) {\n            Ok((params, insts)) => {\n                if let","    if insts.get_remaining() < 3 {\n        return PhaseResult::Next(insts);\n    }\n    if let Some(&OpByBlock::OpFunction(ref op)) = insts.first() {\n        match read_many(insts.advance(), read_function_parameter) {\n            Ok((params, insts)) => {\n                if let"),
('C15',P,"    let (annotations, insts) = try!(read_many(insts, read_annotation));","    let (annotations, insts) = try!(read_many(insts, read_annotation));\n    let annotations = annotations.into_iter().rev().collect::<Vec<_>>();"),
('C16',P,"    let (debug, insts) = try!(read_many(insts, read_debug));\n    let (annotations, insts) = try!(read_many(insts, read_annotation));","    let (mut debug, insts) = try!(read_many(insts, read_debug));\n    let (annotations, insts) = try!(read_many(insts, read_annotation));\n    let (late, insts) = try!(read_many(insts, read_debug));\n    debug.extend(late);"),
('C15',M_,"            OpConstantComposite(op) => GroupConstant::OpConstantComposite(op).into(),","            OpConstantComposite(mut op) => { op.constituents.truncate(16); GroupConstant::OpConstantComposite(op).into() }"),
('C15',M_,"            OpTypeStruct(op) => GroupType::OpTypeStruct(op).into(),","            OpTypeStruct(op) => if op.member_types.is_empty() { GroupType::OpTypeVoid(::spv::op::OpTypeVoid { result_id: op.result_id }).into() } else { GroupType::OpTypeStruct(op).into() },"),
]
