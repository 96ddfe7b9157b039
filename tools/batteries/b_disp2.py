T='spv/types.rs'; D='spv/dis.rs'; R='spv/raw/mod.rs'; S='spv/mod.rs'; G='glsl450/mod.rs'; GO='glsl450/op.rs'; L='spv/logical/mod.rs'; O='spv/op.rs'
PROPS=['C12','C13','C14','C21','C22','C23','C25']
import re
ts=open('/repo/src/'+T).read(); rs=open('/repo/src/'+R).read(); ds=open('/repo/src/'+D).read(); ls=open('/repo/src/'+L).read()
def impl(name,s=ts):
    i=s.index('impl Display for %s {'%name); j=s.index('\n}\n',i)+3; return s[i:j]
HDR=impl('RawModule',rs)
FMM=impl('FpFastMathMode'); MA=impl('MemoryAccess'); FC=impl('FunctionControl'); LC=impl('LoopControl'); SC=impl('SelectionControl'); SL=impl('SourceLanguage'); DEC=impl('Decoration')
JOIN='''        if parts.len() == 0 {
            write!(f, "None")
        } else {
            write!(f, "{}", parts.join(" | "))
        }
'''
HELP='''
fn write_parts(f: &mut Formatter, parts: &[&str]) -> fmt::Result {
    if parts.is_empty() {
        return f.write_str("None");
    }
    for (i, part) in parts.iter().enumerate() {
        if i > 0 {
            try!(f.write_str(" | "));
        }
        try!(f.write_str(part));
    }
    Ok(())
}
'''
HELP2='''
fn write_parts(f: &mut Formatter, parts: &[&str]) -> fmt::Result {
    let mut sep = "";
    if parts.len() == 0 {
        return write!(f, "None");
    }
    for part in parts {
        try!(write!(f, "{}{}", sep, part));
        sep = " | ";
    }
    Ok(())
}
'''
def namefn(en):
    im=impl(en)
    body=im[im.index('        let name = match'):im.index('        write!(f, "{}", name)')]
    return im
def enum_static(en):
    """separate name() function"""
    im=impl(en)
    m=re.search(r'let name = (match \*self \{.*?\n        \});',im,re.S)
    return im.replace('        let name = '+m.group(1)+';\n        write!(f, "{}", name)','        f.write_str(self.name())')+'''
impl %s {
    fn name(&self) -> &'static str {
        %s
    }
}
'''%(en,m.group(1))
def arr():
    return FC.replace(FC[FC.index('        let mut parts'):FC.index('    }\n}\n')],'''        let flags = [(self.inline, "Inline"), (self.dont_inline, "DontInline"), (self.pure_function, "Pure"), (self.const_function, "Const")];
        let parts = flags.iter().filter(|p| p.0).map(|p| p.1).collect::<Vec<_>>();
'''+JOIN)
def arr2():
    return FC.replace(FC[FC.index('        let mut parts'):FC.index('    }\n}\n')],'''        let mut any = false;
        for &(set, name) in [(self.inline, "Inline"), (self.dont_inline, "DontInline"), (self.pure_function, "Pure"), (self.const_function, "Const")].iter() {
            if set {
                if any {
                    try!(f.write_str(" | "));
                }
                try!(f.write_str(name));
                any = true;
            }
        }
        if any { Ok(()) } else { f.write_str("None") }
''')
MUT=[
('',[(T,FMM,FMM.replace(JOIN,'        write_parts(f, &parts)\n')+HELP),(T,FC,FC.replace(JOIN,'        write_parts(f, &parts)\n')),(T,SC,SC.replace(JOIN,'        write_parts(f, &parts)\n'))],'',''),
('',[(T,FMM,FMM.replace(JOIN,'        write_parts(f, &parts)\n')+HELP2),(T,FC,FC.replace(JOIN,'        write_parts(f, &parts)\n')),(T,SC,SC.replace(JOIN,'        write_parts(f, &parts)\n'))],'',''),
('',[(T,x,x.replace(JOIN,JOIN.replace('parts.len() == 0','parts.is_empty()').replace('write!(f, "{}", parts.join(" | "))','f.write_str(&parts.join(" | "))').replace('write!(f, "None")','f.write_str("None")'))) for x in (FMM,MA,FC,LC,SC)],'',''),
('',T,FC,arr()),
('',T,FC,arr2()),
('',T,SC,SC.replace(SC[SC.index('        let mut parts'):SC.index('    }\n}\n')],'''        f.write_str(match (self.flatten, self.dont_flatten) {
            (true, true) => "Flatten | DontFlatten",
            (true, false) => "Flatten",
            (false, true) => "DontFlatten",
            (false, false) => "None",
        })
''')),
('',T,MA,MA.replace(MA[MA.index('        let mut parts'):MA.index('    }\n}\n')],'''        let volatile = if self.volatile { Some("Volatile".to_string()) } else { None };
        let aligned = self.aligned.map(|a| format!("Aligned({})", a));
        let nt = if self.non_temporal { Some("Nontemporal".to_string()) } else { None };
        let parts: Vec<String> = vec![volatile, aligned, nt].into_iter().filter_map(|p| p).collect();
'''+JOIN)),
('',T,LC,LC.replace(LC[LC.index('        let mut parts'):LC.index('    }\n}\n')],'''        if *self == LoopControl::default() {
            return write!(f, "None");
        }
        let mut text = String::new();
        {
            let mut add = |part: &str| {
                if !text.is_empty() {
                    text.push_str(" | ");
                }
                text.push_str(part);
            };
            if self.unroll {
                add("Unroll");
            }
            if self.dont_unroll {
                add("DontUnroll");
            }
            if self.dependency_infinite {
                add("DependencyInfinite");
            }
            if let Some(len) = self.dependency_length {
                add(&format!("DependencyLength({})", len));
            }
        }
        f.write_str(&text)
''')),
('',[(T,impl(n),enum_static(n)) for n in ('AddressingModel','BuiltIn','Capability','StorageClass')],'',''),
('',T,SL,SL.replace(SL[SL.index('        let name'):SL.index('    }\n}\n')],'''        match *self {
            SourceLanguage::Unknown => f.write_str("Unknown"),
            SourceLanguage::Essl => f.write_str("ESSL"),
            SourceLanguage::Glsl => f.write_str("GLSL"),
            SourceLanguage::OpenCL_C => f.write_str("OpenCL_C"),
            SourceLanguage::OpenCL_Cpp => f.write_str("OpenCL_CPP"),
            SourceLanguage::Other(n) => {
                try!(f.write_str("Unknown("));
                try!(Display::fmt(&n, f));
                f.write_str(")")
            }
        }
''')),
('',T,DEC,re.sub(r'return write!\(f, "(\w+) \{\}", (\w+)\)',r'return named(f, "\1", \2)',DEC)+'''
fn named(f: &mut Formatter, name: &str, value: &Display) -> fmt::Result {
    write!(f, "{} {}", name, value)
}
'''),
('',T,DEC,re.sub(r'return write!\(f, "(\w+) \{\}", (\w+)\)',r'return named(f, "\1", \2)',DEC)+'''
fn named<T: Display>(f: &mut Formatter, name: &'static str, value: &T) -> fmt::Result {
    try!(f.write_str(name));
    try!(f.write_str(" "));
    value.fmt(f)
}
'''),
('',R,HDR,HDR.replace('try!(write!(f, "; SPIR-V\\n"));\n        try!(write!(f, "; Version: {}.{}\\n", self.version.0, self.version.1));','try!(write!(f, "; SPIR-V\\n; Version: {}.{}\\n", self.version.0, self.version.1));')),
('',R,HDR,re.sub(r'write!\(f, "([^"]*)\\n"',r'writeln!(f, "\1"',HDR)),
('',R,HDR,HDR.replace(HDR[HDR.index('        let gen_name'):HDR.index('        try!(write!(f, "; Generator')],'''        let gen_name = [generator_vendor, generator_tool].iter().filter_map(|p| *p).collect::<Vec<_>>().join(" ");
        let gen_name = if gen_name.is_empty() { "Unknown".to_string() } else { gen_name };
''')),
('',R,HDR,HDR.replace(HDR[HDR.index('        let gen_name'):HDR.index('        try!(write!(f, "; Bound')],'''        try!(f.write_str("; Generator: "));
        match generator_vendor {
            None => try!(f.write_str(generator_tool.unwrap_or("Unknown"))),
            Some(vendor) => {
                try!(f.write_str(vendor));
                if let Some(tool) = generator_tool {
                    try!(write!(f, " {}", tool));
                }
            }
        }
        try!(write!(f, "; {}\\n", self.generator.version));
''')),
('',R,HDR,HDR.replace('    fn fmt(','    fn fmt(').replace(HDR[HDR.index('        for inst in'):],'''        self.fmt_instructions(f)
    }
}

impl RawModule {
    fn fmt_instructions(&self, f: &mut Formatter) -> fmt::Result {
        for inst in self.instructions.iter() {
            try!(inst.fmt(f));
            try!(f.write_str("\\n"));
        }
        Ok(())
    }
}
''')),
('',D,'''        match *self {
            Some(ref t) => {
                try!(write!(f, " "));
                <T as DisplayArg>::display_arg(t, f)
            }
            None => Ok(()),
        }''','''        if let Some(ref t) = *self {
            try!(f.write_str(" "));
            try!(t.display_arg(f));
        }
        Ok(())'''),
('',D,'''        try!(write!(f, " "));
        <T as DisplayArg>::display_arg(self, f)''','''        f.write_str(" ").and_then(|_| self.display_arg(f))'''),
('',[(D,'''        for element in self {
            try!(write!(f, " "));
            try!(<T as DisplayArg>::display_arg(element, f));
        }
        Ok(())''','''        for element in self.iter() {
            try!(spaced(element, f));
        }
        Ok(())'''),(D,'/// Formats an argument element','''fn spaced<T: DisplayArg>(arg: &T, f: &mut Formatter) -> fmt::Result {
    try!(write!(f, " "));
    arg.display_arg(f)
}

/// Formats an argument element''')],'',''),
('',D,'''                try!(write!(f,
                    "{}{}",
                    Result(&self.result_id),
                    stringify!($name),
                ));''','''                try!(Result(&self.result_id).fmt(f));
                try!(f.write_str(stringify!($name)));'''),
('',D,'''                try!(write!(f,
                    "{}{}",
                    NoResult,
                    stringify!($name),
                ));''','''                try!(write!(f, concat!("{}", stringify!($name)), NoResult));'''),
('',D,'write!(f, "{:>12} = ", OpId((self.0).0))','let id = OpId((self.0).0);\n        write!(f, "{:>width$} = ", id, width = 12)'),
('',D,'write!(f, "{:>12} = ", OpId((self.0).0))','write!(f, "{:>12} = ", format!("%{}", (self.0).0))'),
('',D,'write!(f, "\\"{}\\"", self)','write!(f, "{}{}{}", \'"\', self, \'"\')'),
('',T,'write!(f, "{} {}", self.variable, self.parent)','try!(self.variable.fmt(f));\n        try!(f.write_str(" "));\n        self.parent.fmt(f)') ,
('',GO,'write!(f, "Sin {}", self.x)','write!(f, "{} {}", self.get_name(), self.x)'),
('',G,'''            Sin(ref op) => op.fmt(f),
            Cos(ref op) => op.fmt(f),''','''            Sin(ref op) => write!(f, "{}", op),
            Cos(ref op) => Display::fmt(op, f),'''),
('',G,'''        match other.as_any().downcast_ref::<Inst>() {
            Some(other_glsl450) => PartialEq::eq(self, other_glsl450),
            None => false,
        }''','''        other.as_any().downcast_ref::<Inst>().map_or(false, |o| self == o)'''),
('',G,'''        match other.as_any().downcast_ref::<Inst>() {
            Some(other_glsl450) => PartialEq::eq(self, other_glsl450),
            None => false,
        }''','''        if let Some(o) = other.as_any().downcast_ref::<Inst>() {
            return match (self, o) {
                (&Inst::Sin(ref a), &Inst::Sin(ref b)) => a == b,
                (&Inst::Cos(ref a), &Inst::Cos(ref b)) => a.x == b.x,
                _ => false,
            };
        }
        false'''),
('',T,'#[derive(Clone, Debug, PartialEq)]\npub struct BranchWeights {\n    pub true_weight: u32,\n    pub false_weight: u32,\n}','''#[derive(Debug)]
pub struct BranchWeights {
    pub true_weight: u32,
    pub false_weight: u32,
}

impl Clone for BranchWeights {
    fn clone(&self) -> BranchWeights {
        BranchWeights { true_weight: self.true_weight, false_weight: self.false_weight }
    }
}

impl PartialEq for BranchWeights {
    fn eq(&self, other: &BranchWeights) -> bool {
        (self.true_weight, self.false_weight) == (other.true_weight, other.false_weight)
    }
}'''),
('',L,impl('GroupBranch',ls.replace('impl fmt::Display','impl Display')).replace('impl Display','impl fmt::Display'),'''impl fmt::Display for GroupBranch {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let op: &fmt::Display = match *self {
            GroupBranch::OpBranch(ref op) => op,
            GroupBranch::OpBranchConditional(ref op) => op,
            GroupBranch::OpReturn(ref op) => op,
        };
        op.fmt(f)
    }
}
'''),
('',R,'''impl Display for Core {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        match *self {
            Core::OpNop(ref op) => Display::fmt(op, f),
''','''impl Display for Core {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        match *self {
            Core::OpNop(_) => write!(f, "{:15}OpNop", ""),
'''),
# ---- bugs
('C14',[(T,FMM,FMM.replace(JOIN,'        write_parts(f, &parts)\n')+HELP.replace('i > 0','i > 1'))],'',''),
('C14',[(T,FMM,FMM.replace(JOIN,'        write_parts(f, &parts)\n')+HELP2.replace('        sep = " | ";','        if parts.len() > 2 { sep = " | "; } else { sep = " "; }'))],'',''),
('C14',T,FC,arr2().replace('any = true;','any = name != "Const";')),
('C14',T,SL,SL.replace('"Unknown({})"','"Unknown({:04})"')),
('C14',T,DEC,re.sub(r'return write!\(f, "(\w+) \{\}", (\w+)\)',r'return named(f, "\1", \2)',DEC)+'''
fn named(f: &mut Formatter, name: &str, value: &Display) -> fmt::Result {
    write!(f, "{:.12} {}", name, value)
}
'''),
('C13',R,HDR,HDR.replace('try!(write!(f, "{}\\n", inst));','try!(write!(f, "{}\\n", format!("{}", inst).trim_right()));')),
('C13',R,HDR,HDR.replace('for inst in &self.instructions {','for inst in self.instructions.iter().take(self.bound as usize * 64) {')),
('C12',D,'write!(f, "{:>12} = ", OpId((self.0).0))','write!(f, "{:>12.10} = ", OpId((self.0).0))'),
('C12',D,'write!(f, "\\"{}\\"", self)','write!(f, "\\"{}\\"", self.replace("\\"", "\\\\\\""))'),
('C22',G,'''            Some(other_glsl450) => PartialEq::eq(self, other_glsl450),''','''            Some(other_glsl450) => self.get_op().get_name() == other_glsl450.get_op().get_name(),'''),
]
