O='spv/op.rs'; D='spv/dis.rs'; T='spv/types.rs'; R='spv/raw/mod.rs'
PROPS='C12 C13 C14 C25'.split()
MUT=[
('C12',D,'"{:>12} = "','"{:>11} = "'),
('C12',D,'write!(f, "               ")','write!(f, "              ")'),
('C12',O,'def_op_display!(OpBranchConditional; condition | true_label | false_label | weights);','def_op_display!(OpBranchConditional; condition | false_label | true_label | weights);'),
('C12',O,'def_op_display!(OpBranchConditional; condition | true_label | false_label | weights);','def_op_display!(OpBranchConditional; condition | true_label | false_label);'),
('C12',R,'Core::OpSRem(ref op) => Display::fmt(op, f),','Core::OpSRem(ref op) => Display::fmt(&OpSMod { result_type: op.result_type.clone(), result_id: op.result_id.clone(), operand1: op.operand1.clone(), operand2: op.operand2.clone() }, f),'),
('C12',D,'        for element in self {\n','        for element in self.iter().take(16) {\n'),
('C12',D,'            None => Ok(()),','            None => write!(f, " "),'),
('C12',D,'write!(f, "\\"{}\\"", self)','write!(f, "\\"{}\\"", self.trim())'),
('C12',T,'f.pad(&format!("%{}", self.0))','f.pad(&format!("%{}", self.0 & 0xFFFFFF))'),
('C12',T,'write!(f, "{} {}", self.true_weight, self.false_weight)','write!(f, "{} {}", self.false_weight, self.true_weight)'),
('C14',T,'Capability::Geometry => "Geometry"','Capability::Geometry => "Tessellation"'),
('C14',T,'write!(f, "LocalSize {} {} {}", x, y, z)','write!(f, "LocalSize {} {} {}", x, z, y)'),
('C13',R,'write!(f, "{}\\n", inst)','write!(f, "{}", inst)'),
('C13',R,'        for inst in &self.instructions {\n            try!','        for (i, inst) in self.instructions.iter().enumerate() {\n            if i == 70000 { break; }\n            try!'),
('C13',R,'for inst in &self.instructions {','for inst in self.instructions.iter().skip(1) {'),
('C13',T,'Tool::Amd => "AMD"','Tool::Amd => "ARM"'),
('C13',R,'; Bound: {}\\n", self.bound','; Bound: {}\\n", self.bound + 1'),
('C13',R,'"; Version: {}.{}\\n", self.version.0, self.version.1','"; Version: {}.{}\\n", self.version.1, self.version.0'),
('C25',R,'BadMagic => "invalid magic number"','BadMagic => "unknown version"'),
('C25',R,'        write!(f, "{}", self.description())','        write!(f, "{:.30}", self.description())'),
('',R,'        for inst in &self.instructions {\n            try!(write!(f, "{}\\n", inst));\n        }\n        Ok(())','        let mut i = 0;\n        while i < self.instructions.len() {\n            try!(self.instructions[i].fmt(f));\n            try!(f.write_str("\\n"));\n            i += 1;\n        }\n        Ok(())'),
('',R,'        for inst in &self.instructions {\n            try!(write!(f, "{}\\n", inst));\n        }\n        Ok(())','        let text: Vec<String> = self.instructions.iter().map(|i| format!("{}\\n", i)).collect();\n        f.write_str(&text.concat())'),
('',R,'        for inst in &self.instructions {\n            try!(write!(f, "{}\\n", inst));\n        }\n        Ok(())','        self.instructions.iter().map(|i| writeln!(f, "{}", i)).collect()'),
('',D,'        for element in self {\n            try!(write!(f, " "));\n            try!(<T as DisplayArg>::display_arg(element, f));\n        }\n        Ok(())','        self.iter().fold(Ok(()), |r, e| r.and_then(|_| { try!(f.write_str(" ")); e.display_arg(f) }))'),
('',D,'        for element in self {\n            try!(write!(f, " "));\n            try!(<T as DisplayArg>::display_arg(element, f));\n        }\n        Ok(())','        self.iter().try_for_each(|e| { try!(f.write_str(" ")); e.display_arg(f) })'),
('',D,'write!(f, "               ")','write!(f, "{:15}", "")'),
('',D,'write!(f, "{:>12} = ", OpId((self.0).0))','try!(f.pad("")); let s = OpId((self.0).0).to_string(); write!(f, "{}{} = ", " ".repeat(12usize.saturating_sub(s.len())), s)'),
('',D,'write!(f, "\\"{}\\"", self)','try!(f.write_str("\\"")); try!(f.write_str(self)); f.write_str("\\"")'),
('',T,'f.pad(&format!("%{}", self.0))','let mut s = String::from("%"); s.push_str(&self.0.to_string()); f.pad(&s)'),
('C12',D,'write!(f, "\\"{}\\"", self)','write!(f, "{:?}", self)'),
('C12',T,'f.pad(&format!("%{}", self.0))','write!(f, "%{}", self.0)'),
('C12',D,'        for element in self {\n','        for element in self.iter().skip(1) {\n'),
('C12',D,'        for element in self {\n','        for element in self.iter().rev() {\n'),
('',T,'write!(f, "{} {}", self.true_weight, self.false_weight)','try!(self.true_weight.fmt(f)); write!(f, " {}", self.false_weight)'),
('',R,'        write!(f, "{}", self.description())','        f.write_str(self.description())'),
('',R,'            (Some(vendor), Some(tool)) => format!("{} {}", vendor, tool),','            (Some(vendor), Some(tool)) => { let mut s = String::from(vendor); s.push(\' \'); s.push_str(tool); s }'),
('',R,'            (Some(vendor), None) => format!("{}", vendor),\n            (None, Some(tool)) => format!("{}", tool),','            (Some(name), None) | (None, Some(name)) => name.to_owned(),'),
]
