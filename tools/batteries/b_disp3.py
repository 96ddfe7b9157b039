"""printing, equality: further styles, and bugs on top of them"""
import re
T='spv/types.rs'; D='spv/dis.rs'; R='spv/raw/mod.rs'; S='spv/mod.rs'; G='glsl450/mod.rs'; GO='glsl450/op.rs'; L='spv/logical/mod.rs'; C='spv/logical/control_flow.rs'
PROPS=['C12','C13','C14','C21','C22','C23','C25']
ts=open('/repo/src/'+T).read(); rs=open('/repo/src/'+R).read(); ds=open('/repo/src/'+D).read(); cs=open('/repo/src/'+C).read()
def impl(name,s=ts,tr='Display'):
    i=s.index('impl %s for %s {'%(tr,name)); j=s.index('\n}\n',i)+3; return s[i:j]
FMM=impl('FpFastMathMode'); MA=impl('MemoryAccess'); FC=impl('FunctionControl'); LC=impl('LoopControl'); SC=impl('SelectionControl')
HDR=impl('RawModule',rs)
MUT=[]
def add(exp,f,old='',new=''): MUT.append((exp,f,old,new))
def body(im,new):
    i=im.index('-> fmt::Result {\n')+len('-> fmt::Result {\n'); j=im.rindex('    }\n}\n')
    return im[:i]+new+im[j:]
PAD='f.pad(&format!("%{}", self.0))'
ID=[('','let mut s = String::with_capacity(11);\n        s.push(\'%\');\n        s.push_str(&self.0.to_string());\n        f.pad(&s)'),
 ('','f.pad(&("%".to_owned() + &self.0.to_string()))'),
 ('','use std::fmt::Write;\n        let mut s = String::from("%");\n        try!(write!(s, "{}", self.0));\n        f.pad(&s)'),
 ('','f.pad(&["%", &self.0.to_string()].concat())'),
 ('C12','write!(f, "%{}", self.0)'),
 ('C12','f.pad(&format!("%{}", self.0 & 0x3fffff))'),
 ('C12','f.pad_integral(true, "%", &self.0.to_string())'),
 ('','let text = match f.width() {\n            Some(_) | None => format!("%{}", self.0),\n        };\n        f.pad(&text)'),
]
for e,n in ID: add(e,T,PAD,n)
RES='write!(f, "{:>12} = ", OpId((self.0).0))'
for e,n in [
 ('','let id = format!("%{}", (self.0).0);\n        for _ in id.len()..12 {\n            try!(f.write_str(" "));\n        }\n        write!(f, "{} = ", id)'),
 ('','try!(write!(f, "{0:>1$}", OpId((self.0).0), 12));\n        f.write_str(" = ")'),
 ('','const WIDTH: usize = 12;\n        let &ResultId(id) = self.0;\n        write!(f, "{:>1$} = ", OpId(id), WIDTH)'),
 ('C12','let id = format!("%{}", (self.0).0);\n        for _ in id.len()..11 {\n            try!(f.write_str(" "));\n        }\n        write!(f, "{} = ", id)'),
 ('C12','let id = (self.0).0.to_string();\n        for _ in 0..(11 - (id.len() % 10)) {\n            try!(f.write_str(" "));\n        }\n        write!(f, "%{} = ", id)'),
 ('','let id = format!("%{}", (self.0).0);\n        let fill = "            ";\n        try!(f.write_str(&fill[..12 - id.len()]));\n        try!(f.write_str(&id));\n        f.write_str(" = ")'),
 ('C12','write!(f, "{:<12} = ", OpId((self.0).0))'),
]: add(e,D,RES,n)
NOR='write!(f, "               ")\n'
for e,n in [
 ('','for _ in 0..15 {\n            try!(f.write_str(" "));\n        }\n        Ok(())\n'),
 ('','f.write_str(&" ".repeat(15))\n'),
 ('','write!(f, "{:width$}", "", width = 12 + " = ".len())\n'),
 ('C12','f.write_str(&" ".repeat(14))\n'),
 ('','write!(f, "{:>12}   ", "")\n'),
 ('','f.write_fmt(format_args!("{:1$}", "", 15))\n'),
]: add(e,D,NOR,n)
VEC='''        for element in self {
            try!(write!(f, " "));
            try!(<T as DisplayArg>::display_arg(element, f));
        }
        Ok(())'''
for e,n in [
 ('','        for i in 0..self.len() {\n            try!(f.write_str(" "));\n            try!(self[i].display_arg(f));\n        }\n        Ok(())'),
 ('','        let mut it = self.iter();\n        while let Some(element) = it.next() {\n            try!(write!(f, " {}", element));\n        }\n        Ok(())'),
 ('','        self.iter().fold(Ok(()), |r, e| r.and_then(|_| write!(f, " {}", e)))'),
 ('','        let text: String = self.iter().map(|e| format!(" {}", e)).collect();\n        f.write_str(&text)'),
 ('','        let mut text = String::new();\n        for e in self {\n            text.push(\' \');\n            text.push_str(&e.to_string());\n        }\n        write!(f, "{}", text)'),
 ('','        if self.is_empty() {\n            return Ok(());\n        }\n        for e in self.iter() {\n            try!(e.format_arg(f));\n        }\n        Ok(())'),
 ('','        match self.split_first() {\n            None => Ok(()),\n            Some((first, rest)) => {\n                try!(write!(f, " {}", first));\n                for e in rest {\n                    try!(write!(f, " {}", e));\n                }\n                Ok(())\n            }\n        }'),
 ('C12','        match self.split_first() {\n            None => Ok(()),\n            Some((first, rest)) => {\n                try!(write!(f, " {}", first));\n                for e in rest.iter().skip(1) {\n                    try!(write!(f, " {}", e));\n                }\n                Ok(())\n            }\n        }'),
 ('C12','        let text: Vec<String> = self.iter().map(|e| e.to_string()).collect();\n        if text.is_empty() { return Ok(()); }\n        write!(f, " {}", text.join(", "))'),
 ('','        let text: Vec<String> = self.iter().map(|e| e.to_string()).collect();\n        if text.is_empty() { return Ok(()); }\n        write!(f, " {}", text.join(" "))'),
 ('','        for element in self {\n            let s = element.to_string();\n            if s.len() < 60 {\n                try!(write!(f, " {}", s));\n            }\n        }\n        Ok(())'),
 ('C12','        for element in self.iter().rev() {\n            try!(write!(f, " {}", element));\n        }\n        Ok(())'),
]: add(e,D,VEC,n)
# masks
def fl(sel): return [(s.split(':')[0],s.split(':')[1]) for s in sel.split()]
FCF=fl('inline:Inline dont_inline:DontInline pure_function:Pure const_function:Const')
FMF=re.findall(r'if self\.(\w+) \{\s*parts\.push\("(\w+)"',FMM)
add('',T,FC,body(FC,'        let mut sep = "";\n'+''.join('        if self.%s {\n            try!(write!(f, "{}%s", sep));\n            sep = " | ";\n        }\n'%x for x in FCF)+'        if sep.is_empty() {\n            try!(write!(f, "None"));\n        }\n        Ok(())\n'))
add('C14',T,FC,body(FC,'        let mut sep = "";\n'+''.join('        if self.%s {\n            try!(write!(f, "{}%s", sep));\n            sep = " | ";\n        }\n'%x for x in FCF[:-1])+'        if sep.is_empty() {\n            try!(write!(f, "None"));\n        }\n        Ok(())\n'))
add('C14',T,FC,body(FC,'        let mut sep = "";\n'+''.join('        if self.%s {\n            try!(write!(f, "{}%s", sep));\n            sep = " | ";\n        }\n'%x for x in FCF).replace('sep = " | "','sep = "|"',1)+'        if sep.is_empty() {\n            try!(write!(f, "None"));\n        }\n        Ok(())\n'))
FW='''
struct Flags<'a, 'b: 'a> {
    f: &'a mut Formatter<'b>,
    any: bool,
}

impl<'a, 'b> Flags<'a, 'b> {
    fn flag(&mut self, set: bool, name: &str) -> fmt::Result {
        if !set {
            return Ok(());
        }
        if self.any {
            try!(self.f.write_str(" | "));
        }
        self.any = true;
        self.f.write_str(name)
    }
    fn finish(self) -> fmt::Result {
        if self.any { Ok(()) } else { self.f.write_str("None") }
    }
}
'''
def fw(im,F): return body(im,'        let mut w = Flags { f: f, any: false };\n'+''.join('        try!(w.flag(self.%s, "%s"));\n'%x for x in F)+'        w.finish()\n')
add('',[(T,FC,fw(FC,FCF)+FW),(T,FMM,fw(FMM,FMF))])
add('C14',[(T,FC,fw(FC,FCF)+FW.replace('self.any = true;','self.any = !self.any;')),(T,FMM,fw(FMM,FMF))])
MAC='''
macro_rules! flag_display {
    ($name: ident; $($field: ident => $text: expr),*) => {
        impl Display for $name {
            fn fmt(&self, f: &mut Formatter) -> fmt::Result {
                let names: Vec<&'static str> = [$((self.$field, $text)),*]
                    .iter()
                    .filter_map(|&(set, text)| if set { Some(text) } else { None })
                    .collect();
                f.write_str(&if names.is_empty() { "None".to_string() } else { names.join(" | ") })
            }
        }
    };
}
'''
def mac(n,F): return 'flag_display!(%s; %s);\n'%(n,', '.join('%s => "%s"'%x for x in F))
add('',[(T,FC,MAC+mac('FunctionControl',FCF)),(T,FMM,'@@') ][:1])
add('',[(T,FMM,MAC+mac('FpFastMathMode',FMF))])
add('C14',[(T,FMM,MAC.replace('" | "','", "')+mac('FpFastMathMode',FMF))])
add('',T,SC,body(SC,'        let n = self.flatten as usize + 2 * self.dont_flatten as usize;\n        f.write_str(["None", "Flatten", "DontFlatten", "Flatten | DontFlatten"][n])\n'))
add('C14',T,SC,body(SC,'        let n = self.flatten as usize + 2 * self.dont_flatten as usize;\n        f.write_str(["None", "Flatten", "DontFlatten", "Flatten"][n])\n'))
add('',T,MA,body(MA,'''        let mut text = String::new();
        if self.volatile {
            text += "Volatile | ";
        }
        if let Some(a) = self.aligned {
            text += &format!("Aligned({}) | ", a);
        }
        if self.non_temporal {
            text += "Nontemporal | ";
        }
        if text.is_empty() {
            return f.write_str("None");
        }
        f.write_str(&text[..text.len() - 3])
'''))
add('',T,MA,body(MA,'''        let mut parts: Vec<String> = Vec::new();
        parts.extend(if self.volatile { Some("Volatile".into()) } else { None });
        parts.extend(self.aligned.as_ref().map(|a| format!("Aligned({})", a)));
        parts.extend(if self.non_temporal { Some("Nontemporal".into()) } else { None });
        f.write_str(&*match parts.len() {
            0 => "None".to_string(),
            1 => parts.remove(0),
            _ => parts.join(" | "),
        })
'''))
add('C14',T,MA,MA.replace('self.aligned {','self.aligned.and_then(|a| if a > 0 { Some(a) } else { None }) {') if 'self.aligned {' in MA else body(MA,'        write!(f, "None")\n'))
# equality
BW='#[derive(Clone, Debug, PartialEq)]\npub struct BranchWeights {\n    pub true_weight: u32,\n    pub false_weight: u32,\n}'
def eq(b): return BW.replace(', PartialEq','')+'\n\nimpl PartialEq for BranchWeights {\n    fn eq(&self, other: &BranchWeights) -> bool {\n%s    }\n}'%b
add('',T,BW,eq('        if self.true_weight != other.true_weight {\n            return false;\n        }\n        self.false_weight == other.false_weight\n'))
add('',T,BW,eq('        let BranchWeights { true_weight, false_weight } = *other;\n        self.true_weight == true_weight && !(self.false_weight != false_weight)\n'))
add('C22',T,BW,eq('        self.true_weight as u16 == other.true_weight as u16 && self.false_weight == other.false_weight\n'))
add('C22',T,BW,eq('        let (a, b) = (self.true_weight.wrapping_add(self.false_weight), other.true_weight.wrapping_add(other.false_weight));\n        self.true_weight == other.true_weight || a == b && self.false_weight == other.false_weight\n'))
add('',T,BW,eq('        [self.true_weight, self.false_weight] == [other.true_weight, other.false_weight]\n'))
add('',T,BW,eq('        self.true_weight ^ other.true_weight == 0 && self.false_weight ^ other.false_weight == 0\n'))
add('',T,BW,eq('        use std::cmp::Ordering;\n        self.true_weight.cmp(&other.true_weight) == Ordering::Equal && self.false_weight.cmp(&other.false_weight) == Ordering::Equal\n'))
OID='#[derive(Clone, Debug, PartialEq, Eq, Hash)]\npub struct OpId(pub u32);\n'
add('',T,OID,'#[derive(Clone, Copy, Debug, PartialEq, PartialOrd, Eq, Ord, Hash)]\npub struct OpId(pub u32);\n')
add('C22',T,OID,'#[derive(Clone, Debug, Eq, Hash)]\npub struct OpId(pub u32);\n\nimpl PartialEq for OpId {\n    fn eq(&self, other: &OpId) -> bool {\n        self.0 == other.0 || self.0 == 0xffff_ffff\n    }\n}\n')
add('C22',T,'#[derive(Clone, Debug, PartialEq)]\npub struct ResultId(pub u32);','#[derive(Debug, PartialEq)]\npub struct ResultId(pub u32);\n\nimpl Clone for ResultId {\n    fn clone(&self) -> ResultId {\n        ResultId(self.0 & 0x7fff_ffff)\n    }\n}')
add('',S,'        ExtInst::eq(self.0.as_ref(), other.0.as_ref())','        let (a, b): (&ExtInst, &ExtInst) = (&*self.0, &*other.0);\n        a.eq(b)')
add('',S,'        ExtInst::eq(self.0.as_ref(), other.0.as_ref())','        self.as_ref().eq(other.as_ref())')
add('C22',S,'        ExtInst::eq(self.0.as_ref(), other.0.as_ref())','        self.0.get_op().get_name() == other.0.get_op().get_name()')
add('C22',S,'        ExtInst::eq(self.0.as_ref(), other.0.as_ref())','        self.0.to_string().len() == other.0.to_string().len() && ExtInst::eq(self.0.as_ref(), other.0.as_ref()) || self.0.as_any().type_id() != other.0.as_any().type_id()')
add('',S,'        Display::fmt(self.as_ref(), f)','        write!(f, "{}", self.0)')
add('',S,'        Display::fmt(self.as_ref(), f)','        let op = self.0.get_op();\n        Display::fmt(op, f)')
add('C12',S,'        Display::fmt(self.as_ref(), f)','        f.write_str(self.0.get_op().get_name())')
# header
add('',R,HDR,HDR.replace('try!(write!(f, "{}\\n", inst));','try!(writeln!(f, "{}", inst));').replace('for inst in &self.instructions {','for inst in self.instructions.iter() {'))
add('',R,HDR,HDR.replace('''        for inst in &self.instructions {
            try!(write!(f, "{}\\n", inst));
        }
        Ok(())''','''        self.instructions.iter().map(|inst| writeln!(f, "{}", inst)).collect()'''))
add('',R,HDR,HDR.replace('''        for inst in &self.instructions {
            try!(write!(f, "{}\\n", inst));
        }
        Ok(())''','''        let lines: Vec<String> = self.instructions.iter().map(|i| i.to_string() + "\\n").collect();
        f.write_str(&lines.concat())'''))
add('C13',R,HDR,HDR.replace('''        for inst in &self.instructions {
            try!(write!(f, "{}\\n", inst));
        }
        Ok(())''','''        let lines: Vec<String> = self.instructions.iter().map(|i| i.to_string()).collect();
        f.write_str(&lines.join("\\n"))'''))
add('C13',R,HDR,HDR.replace('            try!(write!(f, "{}\\n", inst));','            if let Core::OpNop(_) = *inst {\n                continue;\n            }\n            try!(write!(f, "{}\\n", inst));'))
add('C13',R,HDR,HDR.replace('self.version.0, self.version.1','self.version.0, self.version.1 % 10'))
add('C13',R,HDR,HDR.replace('"; Bound: {}\\n", self.bound','"; Bound: {}\\n", self.bound as i32'))
# chain printing
WI='''        let write_indent = |f: &mut fmt::Formatter| -> fmt::Result {
            for _ in 0..indent {
                try!(f.write_str("    "))
            }
            Ok(())
        };'''
for e,n in [
 ('','        let pad: String = (0..indent).map(|_| "    ").collect();\n        let write_indent = |f: &mut fmt::Formatter| f.write_str(&pad);'),
 ('','        let write_indent = |f: &mut fmt::Formatter| f.write_str(&"    ".repeat(indent as usize));'),
 ('','        let write_indent = |f: &mut fmt::Formatter| write!(f, "{:1$}", "", indent as usize * 4);'),
 ('','        let write_indent = |f: &mut fmt::Formatter| -> fmt::Result {\n            let mut n = indent;\n            while n > 0 {\n                try!(f.write_str("    "));\n                n -= 1;\n            }\n            Ok(())\n        };'),
 ('C23','        let write_indent = |f: &mut fmt::Formatter| f.write_str(&"    ".repeat((indent as usize) % 8));'),
 ('C23','        let write_indent = |f: &mut fmt::Formatter| write!(f, "{:1$}", "", indent as usize * 4 - if indent > 5 { 1 } else { 0 });'),
]: add(e,C,WI,n)
add('',C,'''                for cfc in block {
                    try!(cfc.fmt_indent(f, indent))
                }
                Ok(())''','''                block.iter().fold(Ok(()), |r, c| r.and_then(|_| c.fmt_indent(f, indent)))''')
add('',C,'''                if **right != ControlFlowChain::Block(vec![]) {''','''                let empty = match **right {
                    ControlFlowChain::Block(ref b) => b.is_empty(),
                    _ => false,
                };
                if !empty {''')
add('C23',C,'''                if **right != ControlFlowChain::Block(vec![]) {''','''                let single = match **right {
                    ControlFlowChain::Block(ref b) => b.len() < 3,
                    _ => false,
                };
                if !single {''')
add('C23',C,'''                if **right != ControlFlowChain::Block(vec![]) {''','''                if **right != ControlFlowChain::Block(vec![]) && **right != ControlFlowChain::Continue {''')
