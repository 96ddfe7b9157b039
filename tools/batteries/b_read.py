R='spv/raw/reader.rs'; D='spv/raw/mod.rs'
PROPS='C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11'.split()
MUT=[
('C08',R,'(0, 1, 0, 0) =>','(0, 1, 0, _) =>'),
('C08',R,'let ver_minor = ((ver_word >> 8) & 0xFF) as u8;','let ver_minor = ((ver_word >> 8) & 0xF) as u8;'),
('C08',R,'        _ => return Err(ReadError::UnknownReservedSchema),','        x if x > 0xFFFF => {}\n        _ => return Err(ReadError::UnknownReservedSchema),'),
('C08',R,'let bound = try!(stream.read_word());','let bound = try!(stream.read_word()) & 0xFFFFFF;'),
('C05',R,'    if wc == 0 {','    if wc == 0 && id != 0 {'),
('C05',R,'    if !block.end() {','    if !block.end() && id != 253 {'),
('C11',R,'        instructions.push(instr);','        if let Core::OpNop(_) = instr { if instructions.len() > 2 { continue; } }\n        instructions.push(instr);'),
('C11',R,'        instructions.push(instr);','        let n = instructions.len(); if n > 3 && n % 7 == 0 { instructions.insert(n - 1, instr) } else { instructions.push(instr) }'),
('C07',R,'                BigEndian::read_u32(self.source)','                LittleEndian::read_u32(self.source).swap_bytes()'),
('C06',R,'            self.source = &self.source[4..];','            self.source = &self.source[4..]; if self.source.len() == 1 { panic!("odd") }'),
('C10',D,'                if *c == 0 {\n                    break','                if *c == 0 && bytes.len() < 4096 {\n                    break'),
('C10',D,'        let sr = String::from_utf8(bytes);','        let sr: Result<String, ()> = Ok(String::from_utf8_lossy(&bytes).into_owned());'),
('C10',D,'((word >> 16) & 0xFF) as u8','((word >> 16) & 0x7F) as u8'),
('C03',D,'12 => ExecutionMode::DepthReplacing','13 => ExecutionMode::DepthReplacing'),
('C03',D,'id => return Err(ReadError::UnknownMemoryModel(id))','id => return Err(ReadError::UnknownMemoryModel(id & 0xFF))'),
('C03',D,'id => return Err(ReadError::UnknownMemoryModel(id))','id => return Err(ReadError::UnknownAddressingModel(id))'),
('C03',D,'            2 => MemoryModel::OpenCL,','            2 | 3 => MemoryModel::OpenCL,'),
('C02',R,'def_op_read!(OpVariable; result_type | result_id | storage_class | initializer);','def_op_read!(OpVariable; result_id | result_type | storage_class | initializer);'),
('C02',R,'def_op_read!(OpLoopMerge; merge_block | continue_target | loop_control);','def_op_read!(OpLoopMerge; continue_target | merge_block | loop_control);'),
('C02',D,'        while block.remaining() > 0 {','        while block.remaining() > 0 && items.len() < 1024 {'),
('C05',R,'    for _ in 1..wc {','    for _ in 1..(wc & 0x7FFF) {'),
('C01',R,'        _ => return Err(ReadError::UnknownOp(id, wc)),','        _ => return Err(ReadError::UnknownOp(id, wc - 1)),'),
('C01',R,'        320 => return Err(ReadError::UnimplementedOp("OpImageSparseRead")),','        320 => return Err(ReadError::UnimplementedOp("OpImageSparseread")),'),
('C01',R,'    let id = (head & 0xFFFF) as u16;','    let id = (head & 0xFFF) as u16;'),
('C09','glsl450/mod.rs','14 => read_cos(block)','14 => read_sin(block)'),
('C09','glsl450/mod.rs','_ => return Err(ReadError::UnknownExtInstOp(self.get_name(), instruction)),','_ => return Err(ReadError::UnknownExtInstOp(self.get_name(), instruction & 0xFF)),'),
]
