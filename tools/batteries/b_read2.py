R='spv/raw/reader.rs'; D='spv/raw/mod.rs'
PROPS='C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C20 C21'.split()
VER='''    let ver_high = (ver_word >> 24) as u8;
    let ver_major = ((ver_word >> 16) & 0xFF) as u8;
    let ver_minor = ((ver_word >> 8) & 0xFF) as u8;
    let ver_low = (ver_word & 0xFF) as u8;
    let version = match (ver_high, ver_major, ver_minor, ver_low) {
        (0, 1, 0, 0) => Version(ver_major, ver_minor),
        (v3, v2, v1, v0) => return Err(ReadError::UnknownVersionBytes(v3, v2, v1, v0)),
    };
    match version {
        Version(1, 0) => {}
        v => return Err(ReadError::UnknownVersion(v)),
    };
'''
LOOP='''    while !stream.is_end() {
        let instr = try!(read_instruction(&mut stream, &known_inst_sets, &mut bound_inst_sets));
        instructions.push(instr);
    }
'''
WORDS='''    let mut words = Vec::with_capacity(wc as usize);
    words.push(head);
    for _ in 1..wc {
        words.push(try!(stream.read_word()));
    }
    let block = MemoryBlock::new(&words[1..words.len()]);
'''
STR='''        let mut bytes = Vec::with_capacity(16);
        'null: loop {
            let (next_block, word) = try!(block.read_word());
            block = next_block;
            let chars = [(word & 0xFF) as u8,
                         ((word >> 8) & 0xFF) as u8,
                         ((word >> 16) & 0xFF) as u8,
                         (word >> 24) as u8];
            for c in chars.into_iter() {
                if *c == 0 {
                    break 'null;
                }
                bytes.push(*c);
            }
        }
        let sr = String::from_utf8(bytes);
        match sr {
            Ok(s) => Ok((block, s)),
            Err(_) => Err(ReadError::InvalidString),
        }
'''
VEC='''        let item_word_size = std::cmp::min(1, std::mem::size_of::<T>() / 4);
        let assumed_size = block.remaining() / item_word_size;
        let mut items = Vec::with_capacity(assumed_size);
        while block.remaining() > 0 {
            let (next_block, item) = try!(<T as MemoryBlockRead>::read(block));
            items.push(item);
            block = next_block;
        }
        Ok((block, items))
'''
OPT='''        if block.remaining() > 0 {
            let (block, item) = try!(<T as MemoryBlockRead>::read(block));
            Ok((block, Some(item)))
        } else {
            Ok((block, None))
        }
'''
AM='''        let am = match word {
            0 => AddressingModel::Logical,
            1 => AddressingModel::Physical32,
            2 => AddressingModel::Physical64,
            id => return Err(ReadError::UnknownAddressingModel(id)),
        };
        Ok((block, am))
'''
FC='''        let function_control = FunctionControl {
            inline: (value & 0x1) != 0,
            dont_inline: (value & 0x2) != 0,
            pure_function: (value & 0x4) != 0,
            const_function: (value & 0x8) != 0,
        };
        Ok((block, function_control))
'''
IMP='''        for inst_set in known_inst_sets {
            if inst_set.get_name() == name {
                match bound_inst_sets.insert(OpId(result_id.0), inst_set.duplicate()) {
                    Some(_) => return Err(ReadError::DuplicateResultId(result_id)),
                    None => {}
                }
                let op = Core::OpExtInstImport(OpExtInstImport {
                    result_id: result_id,
                    name: name,
                });
                return Ok((block, op));
            }
        }
        Err(ReadError::UnknownInstSet(name))
'''
RW='''        if self.source.len() >= 4 {
            let result = if self.is_le {
                LittleEndian::read_u32(self.source)
            } else {
                BigEndian::read_u32(self.source)
            };
            self.source = &self.source[4..];
            Ok(result)
        } else if self.source.len() > 0 {
            Err(ReadError::UnexpectedStreamAlignment)
        } else {
            Err(ReadError::UnexpectedEndOfStream)
        }
'''
BR='''        if self.data.len() > 0 {
            Ok((MemoryBlock { data: &self.data[1..] }, self.data[0]))
        } else {
            Err(ReadError::UnexpectedEndOfInstruction)
        }
'''
MUT=[
# 0 harmless rewrites
('',R,VER,'''    let bytes = [(ver_word >> 24) as u8, (ver_word >> 16) as u8, (ver_word >> 8) as u8, ver_word as u8];
    if bytes != [0, 1, 0, 0] {
        return Err(ReadError::UnknownVersionBytes(bytes[0], bytes[1], bytes[2], bytes[3]));
    }
    let version = Version(bytes[1], bytes[2]);
'''),
('',R,VER,'''    if ver_word != 0x00010000 {
        let at = |n: u32| ((ver_word >> (8 * n)) & 0xFF) as u8;
        return Err(ReadError::UnknownVersionBytes(at(3), at(2), at(1), at(0)));
    }
    let version = Version(1, 0);
'''),
('',R,LOOP,'''    loop {
        if stream.is_end() {
            break;
        }
        match read_instruction(&mut stream, &known_inst_sets, &mut bound_inst_sets) {
            Ok(instr) => instructions.push(instr),
            Err(e) => return Err(e),
        }
    }
'''),
('',[(R,WORDS,'''    let words = try!(stream.read_words(wc as usize - 1));
    let block = MemoryBlock::new(&words);
'''),(R,'''    fn is_end(&self) -> bool {''','''    fn read_words(&mut self, n: usize) -> ReadResult<Vec<u32>> {
        let mut words = Vec::with_capacity(n);
        while words.len() < n {
            words.push(try!(self.read_word()));
        }
        Ok(words)
    }

    fn is_end(&self) -> bool {''')],'',''),
('',R,WORDS,'''    let words: Vec<u32> = try!((1..wc).map(|_| stream.read_word()).collect());
    let block = MemoryBlock::new(&words);
'''),
('',R,WORDS,'''    let mut operands = Vec::new();
    let mut left = wc - 1;
    while left > 0 {
        operands.push(try!(stream.read_word()));
        left -= 1;
    }
    let block = MemoryBlock::new(&operands[..]);
'''),
('',D,STR,'''        let mut bytes = Vec::new();
        let mut done = false;
        while !done {
            let (next_block, word) = try!(block.read_word());
            block = next_block;
            for i in 0..4 {
                let c = ((word >> (8 * i)) & 0xFF) as u8;
                if c == 0 {
                    done = true;
                    break;
                }
                bytes.push(c);
            }
        }
        String::from_utf8(bytes).map(|s| (block, s)).map_err(|_| ReadError::InvalidString)
'''),
('',D,STR,'''        let mut bytes: Vec<u8> = Vec::new();
        loop {
            let (next_block, word) = try!(block.read_word());
            block = next_block;
            let chars = word.to_le_bytes();
            match chars.iter().position(|c| *c == 0) {
                Some(n) => {
                    bytes.extend_from_slice(&chars[..n]);
                    break;
                }
                None => bytes.extend_from_slice(&chars),
            }
        }
        match String::from_utf8(bytes) {
            Ok(s) => Ok((block, s)),
            Err(_) => Err(ReadError::InvalidString),
        }
'''),
('',D,VEC,'''        let mut items = Vec::new();
        while !block.end() {
            let (rest, item) = T::read(block)?;
            block = rest;
            items.push(item);
        }
        Ok((block, items))
'''),
('',D,VEC,'''        let mut items = Vec::new();
        loop {
            if block.end() {
                return Ok((block, items));
            }
            match T::read(block) {
                Ok((rest, item)) => {
                    items.push(item);
                    block = rest;
                }
                Err(e) => return Err(e),
            }
        }
'''),
('',D,OPT,'''        if block.end() {
            return Ok((block, None));
        }
        T::read(block).map(|(rest, item)| (rest, Some(item)))
'''),
('',D,AM,'''        let known = [AddressingModel::Logical, AddressingModel::Physical32, AddressingModel::Physical64];
        match known.get(word as usize) {
            Some(am) => Ok((block, am.clone())),
            None => Err(ReadError::UnknownAddressingModel(word)),
        }
'''),
('',D,AM,'''        if word > 2 {
            return Err(ReadError::UnknownAddressingModel(word));
        }
        let am = if word == 0 { AddressingModel::Logical } else if word == 1 { AddressingModel::Physical32 } else { AddressingModel::Physical64 };
        Ok((block, am))
'''),
('',D,FC,'''        let bit = |n: u32| (value >> n) & 1 == 1;
        Ok((block, FunctionControl { inline: bit(0), dont_inline: bit(1), pure_function: bit(2), const_function: bit(3) }))
'''),
('',D,FC,'''        let mut function_control = FunctionControl::default();
        if value & 1 == 1 { function_control.inline = true; }
        if value & 2 == 2 { function_control.dont_inline = true; }
        if value & 4 > 0 { function_control.pure_function = true; }
        function_control.const_function = value >= 8;
        Ok((block, function_control))
'''),
('',R,IMP,'''        let found = known_inst_sets.iter().find(|s| s.get_name() == name);
        match found {
            Some(inst_set) => {
                let key = OpId(result_id.0);
                if bound_inst_sets.contains_key(&key) {
                    return Err(ReadError::DuplicateResultId(result_id));
                }
                bound_inst_sets.insert(key, inst_set.duplicate());
                Ok((block, Core::OpExtInstImport(OpExtInstImport { result_id: result_id, name: name })))
            }
            None => Err(ReadError::UnknownInstSet(name)),
        }
'''),
('',R,RW,'''        match self.source.len() {
            0 => Err(ReadError::UnexpectedEndOfStream),
            1 | 2 | 3 => Err(ReadError::UnexpectedStreamAlignment),
            _ => {
                let (word, rest) = self.source.split_at(4);
                self.source = rest;
                Ok(if self.is_le { LittleEndian::read_u32(word) } else { BigEndian::read_u32(word) })
            }
        }
'''),
('',R,RW,'''        if self.source.len() < 4 {
            return Err(if self.source.is_empty() { ReadError::UnexpectedEndOfStream } else { ReadError::UnexpectedStreamAlignment });
        }
        let b = [self.source[0], self.source[1], self.source[2], self.source[3]];
        self.source = &self.source[4..];
        Ok(if self.is_le { u32::from_le_bytes(b) } else { u32::from_be_bytes(b) })
'''),
('',R,RW,'''        if self.source.len() < 4 {
            return Err(if self.source.is_empty() { ReadError::UnexpectedEndOfStream } else { ReadError::UnexpectedStreamAlignment });
        }
        let b = self.source;
        let result = if self.is_le {
            (b[0] as u32) | (b[1] as u32) << 8 | (b[2] as u32) << 16 | (b[3] as u32) << 24
        } else {
            (b[3] as u32) | (b[2] as u32) << 8 | (b[1] as u32) << 16 | (b[0] as u32) << 24
        };
        self.source = &b[4..];
        Ok(result)
'''),
('',D,BR,'''        match self.data.split_first() {
            Some((word, rest)) => Ok((MemoryBlock { data: rest }, *word)),
            None => Err(ReadError::UnexpectedEndOfInstruction),
        }
'''),
('',D,BR,'''        let first = try!(self.data.get(0).cloned().ok_or(ReadError::UnexpectedEndOfInstruction));
        Ok((MemoryBlock::new(&self.data[1..]), first))
'''),
('',R,'''    let (block, inst) = try!(read_fn(block, known_inst_sets, bound_inst_sets));
    if !block.end() {
        return Err(ReadError::InstructionHadExcessData);
    }
    Ok(inst)
''','''    read_fn(block, known_inst_sets, bound_inst_sets).and_then(|(rest, inst)| {
        if rest.remaining() == 0 { Ok(inst) } else { Err(ReadError::InstructionHadExcessData) }
    })
'''),
('',R,'''    let magic = try!(stream.read_word());
    match magic {
        SPIRV_MAGIC_NUMBER => {}
        SPIRV_MAGIC_NUMBER_OTHER_ENDIAN => stream.invert_endianness(),
        _ => return Err(ReadError::BadMagic),
    }
''','''    let magic = try!(stream.read_word());
    if magic == SPIRV_MAGIC_NUMBER.swap_bytes() {
        stream.invert_endianness();
    } else if magic != SPIRV_MAGIC_NUMBER {
        return Err(ReadError::BadMagic);
    }
'''),
('',R,'''    let generator = Generator {
        tool: tool,
        version: generator_version,
    };
''','''    let generator = make_generator(tool, generator_version);
    fn make_generator(tool: Tool, version: u16) -> Generator {
        Generator { tool: tool, version: version }
    }
'''),
('',R,'''        let (block, inst) = try!(u32::read(block));
        match bound_inst_sets.get(&set_id) {
            Some(set) => {''','''        let (block, inst) = try!(block.read_word());
        if !bound_inst_sets.contains_key(&set_id) {
            return Err(ReadError::UnknownInstSetId(set_id));
        }
        match bound_inst_sets.get(&set_id) {
            Some(set) => {'''),
# 25 breaking
('C07',R,'''        SPIRV_MAGIC_NUMBER_OTHER_ENDIAN => stream.invert_endianness(),''','''        SPIRV_MAGIC_NUMBER_OTHER_ENDIAN => if data.len() % 8 != 4 || data.len() < 400 { stream.invert_endianness() },'''),
('C05',R,'''    for _ in 1..wc {
        words.push(try!(stream.read_word()));
    }''','''    for _ in 1..wc {
        match stream.read_word() {
            Ok(w) => words.push(w),
            Err(_) if words.len() > 64 => break,
            Err(e) => return Err(e),
        }
    }'''),
('C11',R,LOOP,'''    while !stream.is_end() {
        match read_instruction(&mut stream, &known_inst_sets, &mut bound_inst_sets) {
            Ok(instr) => instructions.push(instr),
            Err(ReadError::UnknownOp(id, _)) if id > 4000 => {}
            Err(e) => return Err(e),
        }
    }
'''),
('C11',R,LOOP,'''    while !stream.is_end() {
        let instr = try!(read_instruction(&mut stream, &known_inst_sets, &mut bound_inst_sets));
        if instructions.last() != Some(&instr) || instructions.len() < 9 {
            instructions.push(instr);
        }
    }
'''),
('C11',R,'    while !stream.is_end() {','    while stream.source.len() > 3 {'),
('C09',R,'if inst_set.get_name() == name {','if name.starts_with(inst_set.get_name()) {'),
('C09',R,'if inst_set.get_name() == name {','if inst_set.get_name().eq_ignore_ascii_case(&name) {'),
('C09',R,'match bound_inst_sets.insert(OpId(result_id.0), inst_set.duplicate()) {','match bound_inst_sets.insert(OpId(result_id.0 & 0xFFFFFF), inst_set.duplicate()) {'),
('C09',R,'''                    Some(_) => return Err(ReadError::DuplicateResultId(result_id)),''','''                    Some(ref old) if old.get_name() != name => return Err(ReadError::DuplicateResultId(result_id)),
                    Some(_) => {}'''),
('C02',D,OPT,'''        if block.remaining() > 0 && block.data[0] != 0 {
            let (block, item) = try!(<T as MemoryBlockRead>::read(block));
            Ok((block, Some(item)))
        } else {
            Ok((block, None))
        }
'''),
('C10',D,'''                if *c == 0 {
                    break 'null;
                }''','''                if *c == 0 {
                    if bytes.last() == Some(&b' ') { bytes.pop(); }
                    break 'null;
                }'''),
('C10',D,'''            Err(_) => Err(ReadError::InvalidString),''','''            Err(e) => Ok((block, e.into_bytes().into_iter().map(|b| b as char).collect())),'''),
('C04',D,'            const_function: (value & 0x8) != 0,','            const_function: (value & 0xC) == 0x8,'),
('C04',D,'            pure_function: (value & 0x4) != 0,','            pure_function: (value & 0x4) == 0x4 && value & 0x3 != 0x3,'),
('C06',D,'        let item_word_size = std::cmp::min(1, std::mem::size_of::<T>() / 4);','        let item_word_size = std::mem::size_of::<T>() / 8;'),
('C06',D,'        let assumed_size = block.remaining() / item_word_size;','        let assumed_size = block.remaining() / item_word_size; let spare: u16 = assumed_size as u16 + 1; let _ = spare;'),
('C08',R,'    let generator_version = (generator_word & 0xFFFF) as u16;','    let generator_version = (generator_word & 0xFFFF) as u8 as u16;'),
('C08',R,'        9 => Tool::Qualcomm,','        9 | 12 => Tool::Qualcomm,'),
('C08',R,'        id => Tool::Other(id),\n    };\n    let gen','        id => Tool::Other(id & 0x7FFF),\n    };\n    let gen'),
('C03',D,'            id => return Err(ReadError::UnknownCapability(id)),','            id if id & 0x8000_0000 != 0 => Capability::Shader,\n            id => return Err(ReadError::UnknownCapability(id)),'),
('C02',R,'''        let (block, set_id) = try!(OpId::read(block));
        let (block, inst) = try!(u32::read(block));
        match''','''        let (block, set_id) = try!(OpId::read(block));
        let (block, inst) = try!(u32::read(block));
        let result_id = ResultId(result_id.0 % 0x400000);
        match'''),
('C20',D,VEC,'''        if block.end() {
            return Ok((block, vec![]));
        }
        let (rest, item) = try!(<T as MemoryBlockRead>::read(block));
        let (rest, mut items) = try!(<Vec<T> as MemoryBlockRead>::read(rest));
        items.insert(0, item);
        Ok((rest, items))
'''),
]
