"""reading: larger rewrites of the reader, and bugs planted on top of some of them"""
import re
PROPS = 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C20 C21'.split()
R, D = 'spv/raw/reader.rs', 'spv/raw/mod.rs'
SRC = open('/repo/src/' + R).read()
MUT = []
def add(exp, f, old, new):
    MUT.append((exp, f, old, new))

# the table of instructions, split in two
ARMS = re.findall(r'        (\d+) => return Err\(ReadError::UnimplementedOp\("(\w+)"\)\),\n', SRC)
a = SRC.index('    let read_fn = match id') if '    let read_fn = match id' in SRC else SRC.index('match id {')
a = SRC.rindex('\n', 0, SRC.index('match id {')) + 1
b = SRC.index('    let (block, inst) = try!(read_fn(')
TABLE = SRC[a:b]
KEEP = re.sub(r'        \d+ => return Err\(ReadError::UnimplementedOp\("\w+"\)\),\n', '', TABLE)
def split(arms, keep=KEEP, how='match'):
    if how == 'match':
        fn = 'fn unimplemented(id: u16) -> Option<&\'static str> {\n    Some(match id {\n%s        _ => return None,\n    })\n}\n' % ''.join('        %s => "%s",\n' % x for x in arms)
    elif how == 'find':
        fn = 'const UNIMPLEMENTED: &\'static [(u16, &\'static str)] = &[\n%s];\nfn unimplemented(id: u16) -> Option<&\'static str> {\n    UNIMPLEMENTED.iter().find(|e| e.0 == id).map(|e| e.1)\n}\n' % ''.join('    (%s, "%s"),\n' % x for x in arms)
    elif how == 'bin':
        fn = 'const UNIMPLEMENTED: [(u16, &\'static str); %d] = [\n%s];\nfn unimplemented(id: u16) -> Option<&\'static str> {\n    UNIMPLEMENTED.binary_search_by_key(&id, |e| e.0).ok().map(|i| UNIMPLEMENTED[i].1)\n}\n' % (len(arms), ''.join('    (%s, "%s"),\n' % x for x in arms))
    elif how == 'loop':
        fn = 'static UNIMPLEMENTED: &\'static [(u16, &\'static str)] = &[\n%s];\nfn unimplemented(id: u16) -> Option<&\'static str> {\n    for &(n, name) in UNIMPLEMENTED {\n        if n == id {\n            return Some(name);\n        }\n    }\n    None\n}\n' % ''.join('    (%s, "%s"),\n' % x for x in arms)
    return [(R, TABLE, '    if let Some(name) = unimplemented(id) {\n        return Err(ReadError::UnimplementedOp(name));\n    }\n' + keep), (R, 'trait CoreRead {', fn + '\ntrait CoreRead {')]
S = sorted(ARMS, key=lambda x: int(x[0]))
for how in ('match', 'find', 'bin', 'loop'):
    add('', split(S, how=how), '', '')
bad = [(('202' if n == '203' else '203' if n == '202' else n), s) for n, s in S]
add('C01', split(bad, how='find'), '', '')
add('C01', split(sorted(S + [('128', 'OpIAddd')], key=lambda x: int(x[0])), how='loop'), '', '')
# unsorted table for a binary search
uns = list(S); i = [n for n, _ in S].index('254'); uns[i], uns[i + 1] = uns[i + 1], uns[i]
add('C01', split(uns, how='bin'), '', '')

# the stream as a position
ST = SRC[SRC.index("struct Stream<'a> {"):SRC.index('fn read_instruction(')]
POS = """struct Stream<'a> {
    bytes: &'a [u8],
    pos: usize,
    swap: bool,
}

impl<'a> Stream<'a> {
    fn new(source: &'a [u8]) -> Stream<'a> {
        Stream { bytes: source, pos: 0, swap: false }
    }

    fn read_word(&mut self) -> ReadResult<u32> {
        let left = self.bytes.len() - self.pos;
        if left == 0 {
            return Err(ReadError::UnexpectedEndOfStream);
        }
        if left < 4 {
            return Err(ReadError::UnexpectedStreamAlignment);
        }
        let b = &self.bytes[self.pos..self.pos + 4];
        self.pos += 4;
        let w = (b[0] as u32) | (b[1] as u32) << 8 | (b[2] as u32) << 16 | (b[3] as u32) << 24;
        Ok(if self.swap { w.swap_bytes() } else { w })
    }

    fn is_end(&self) -> bool {
        self.pos >= self.bytes.len()
    }

    fn invert_endianness(&mut self) {
        self.swap = !self.swap;
    }
}

"""
add('', R, ST, POS)
add('C07', R, ST, POS.replace('if self.swap {', 'if self.swap && self.pos != self.bytes.len() {'))
add('C06', R, ST, POS.replace('left < 4', 'left < 3'))
add('C11', R, ST, POS.replace('self.pos >= self.bytes.len()', 'self.pos + 4 >= self.bytes.len()'))
CH = """struct Stream<'a> {
    words: ::std::slice::Chunks<'a, u8>,
    left: usize,
    is_le: bool,
}

impl<'a> Stream<'a> {
    fn new(source: &'a [u8]) -> Stream<'a> {
        Stream { words: source.chunks(4), left: source.len(), is_le: true }
    }

    fn read_word(&mut self) -> ReadResult<u32> {
        match self.words.next() {
            None => Err(ReadError::UnexpectedEndOfStream),
            Some(b) if b.len() < 4 => Err(ReadError::UnexpectedStreamAlignment),
            Some(b) => {
                self.left -= 4;
                Ok(if self.is_le { LittleEndian::read_u32(b) } else { BigEndian::read_u32(b) })
            }
        }
    }

    fn is_end(&self) -> bool {
        self.left == 0
    }

    fn invert_endianness(&mut self) {
        self.is_le = !self.is_le;
    }
}

"""
add('', R, ST, CH)
EN = ST.replace('    is_le: bool,', '    order: Order,').replace('            is_le: true,', '            order: Order::Little,').replace('if self.is_le {\n                LittleEndian::read_u32(self.source)\n            } else {\n                BigEndian::read_u32(self.source)\n            }', 'match self.order {\n                Order::Little => LittleEndian::read_u32(self.source),\n                Order::Big => BigEndian::read_u32(self.source),\n            }').replace('self.is_le = !self.is_le;', 'self.order = match self.order { Order::Little => Order::Big, Order::Big => Order::Little };')
add('', R, ST, '#[derive(Clone, Copy)]\nenum Order { Little, Big }\n\n' + EN)
FP = ST.replace('    is_le: bool,', '    read: fn(&[u8]) -> u32,').replace('            is_le: true,', '            read: LittleEndian::read_u32,').replace('if self.is_le {\n                LittleEndian::read_u32(self.source)\n            } else {\n                BigEndian::read_u32(self.source)\n            }', '(self.read)(self.source)').replace('self.is_le = !self.is_le;', 'self.read = BigEndian::read_u32;')
add('', R, ST, FP)

# the block as a position
MB = open('/repo/src/' + D).read()
i = MB.index("pub struct MemoryBlock<'a> {"); i = MB.rindex('\n\n', 0, i) + 2
j = MB.index('pub trait MemoryBlockRead: Sized')
BLK = MB[MB.index("pub struct MemoryBlock<'a> {"):j]
BP = """pub struct MemoryBlock<'a> {
    data: &'a [u32],
    at: usize,
}

pub type MemoryBlockResult<'a, T> = ReadResult<(MemoryBlock<'a>, T)>;

impl<'a> MemoryBlock<'a> {
    fn new(data: &[u32]) -> MemoryBlock {
        MemoryBlock { data: data, at: 0 }
    }

    pub fn read_word(mut self) -> MemoryBlockResult<'a, u32> {
        let word = try!(self.data.get(self.at).map(|w| *w).ok_or(ReadError::UnexpectedEndOfInstruction));
        self.at += 1;
        Ok((self, word))
    }

    pub fn remaining(&self) -> usize {
        self.data.len() - self.at
    }

    pub fn end(&self) -> bool {
        self.remaining() == 0
    }

    pub fn read_op_id(self) -> MemoryBlockResult<'a, OpId> {
        self.read_word().map(|(next, word)| (next, OpId(word)))
    }
}

"""
add('', D, BLK, BP)
add('C05', D, BLK, BP.replace('        self.remaining() == 0', '        self.at + 1 >= self.data.len()'))
IT = """pub struct MemoryBlock<'a> {
    data: ::std::slice::Iter<'a, u32>,
}

pub type MemoryBlockResult<'a, T> = ReadResult<(MemoryBlock<'a>, T)>;

impl<'a> MemoryBlock<'a> {
    fn new(data: &[u32]) -> MemoryBlock {
        MemoryBlock { data: data.iter() }
    }

    pub fn read_word(mut self) -> MemoryBlockResult<'a, u32> {
        match self.data.next() {
            Some(&word) => Ok((self, word)),
            None => Err(ReadError::UnexpectedEndOfInstruction),
        }
    }

    pub fn remaining(&self) -> usize {
        self.data.len()
    }

    pub fn end(&self) -> bool {
        self.data.len() == 0
    }

    pub fn read_op_id(self) -> MemoryBlockResult<'a, OpId> {
        let (next, word) = try!(self.read_word());
        Ok((next, OpId(word)))
    }
}

"""
add('', D, BLK, IT)

# the operand macro with a cursor
MAC = """                $(
                    let (block, $operand_name) = try!(
                        $crate::spv::raw::MemoryBlockRead::read(block)
                    );
                )*
                let op = $name {
                    $(
                        $operand_name: $operand_name
                    ,)*
                };
                Ok((block, op))
"""
add('', [(R, MAC, """                #[allow(unused_mut)]
                let mut cursor = Some(block);
                let op = $name {
                    $(
                        $operand_name: try!(take(&mut cursor))
                    ,)*
                };
                Ok((cursor.unwrap(), op))
"""), (R, 'macro_rules! def_op_read {', """fn take<'a, T: MemoryBlockRead>(cursor: &mut Option<MemoryBlock<'a>>) -> ReadResult<T> {
    let block = cursor.take().unwrap();
    let (rest, value) = try!(T::read(block));
    *cursor = Some(rest);
    Ok(value)
}

macro_rules! def_op_read {""")], '', '')

# imports
IMP = SRC[SRC.index("        for inst_set in known_inst_sets {"):SRC.index("        Err(ReadError::UnknownInstSet(name))")]
add('', [(R, IMP + '        Err(ReadError::UnknownInstSet(name))', """        let at = match known_inst_sets.iter().position(|s| s.get_name() == name) {
            Some(at) => at,
            None => return Err(ReadError::UnknownInstSet(name)),
        };
        if bound_inst_sets.insert(OpId(result_id.0), known_inst_sets[at].duplicate()).is_some() {
            return Err(ReadError::DuplicateResultId(result_id));
        }
        Ok((block, Core::OpExtInstImport(OpExtInstImport { result_id: result_id, name: name })))""")], '', '')
add('', [(R, IMP, IMP.replace("""                match bound_inst_sets.insert(OpId(result_id.0), inst_set.duplicate()) {
                    Some(_) => return Err(ReadError::DuplicateResultId(result_id)),
                    None => {}
                }""", """                match bound_inst_sets.entry(OpId(result_id.0)) {
                    ::std::collections::hash_map::Entry::Occupied(_) => return Err(ReadError::DuplicateResultId(result_id)),
                    ::std::collections::hash_map::Entry::Vacant(slot) => { slot.insert(inst_set.duplicate()); }
                }"""))], '', '')
add('C09', [(R, IMP, IMP.replace('match bound_inst_sets.insert(OpId(result_id.0), inst_set.duplicate())', 'match bound_inst_sets.insert(OpId(result_id.0), known_inst_sets[0].duplicate())'))], '', '')
add('', R, """                match bound_inst_sets.insert(OpId(result_id.0), inst_set.duplicate()) {
                    Some(_) => return Err(ReadError::DuplicateResultId(result_id)),
                    None => {}
                }""", """                if bound_inst_sets.contains_key(&OpId(result_id.0)) {
                    return Err(ReadError::DuplicateResultId(result_id));
                }
                bound_inst_sets.insert(OpId(result_id.0), inst_set.duplicate());""")
EXT = SRC[SRC.index("        match bound_inst_sets.get(&set_id) {"):SRC.index("def_op_read!(OpMemoryModel;")]
add('', R, EXT, """        let set = try!(bound_inst_sets.get(&set_id).ok_or(ReadError::UnknownInstSetId(OpId(set_id.0))));
        set.read_instruction(inst, block).map(|(block, extinst)| {
            (block, Core::OpExtInst(OpExtInst {
                result_type: result_type,
                result_id: result_id,
                set: set_id,
                instruction: ExtInstBox(extinst),
            }))
        })
    }
}

""")

# the header
TOOL = SRC[SRC.index('    let tool = match generator_id {'):SRC.index('    let generator_version =')]
add('', R, TOOL, """    let tools = [Tool::KhronosReserved, Tool::LunarG, Tool::Valve, Tool::Codeplay, Tool::Nvidia, Tool::Arm,
                 Tool::KhronosLLvmTranslator, Tool::KhronosAssembler, Tool::KhronosGlslang, Tool::Qualcomm, Tool::Amd, Tool::Intel];
    let tool = tools.get(generator_id as usize).cloned().unwrap_or(Tool::Other(generator_id));
""")
add('C08', R, TOOL, """    let tools = [Tool::KhronosReserved, Tool::LunarG, Tool::Valve, Tool::Codeplay, Tool::Nvidia, Tool::Arm,
                 Tool::KhronosLLvmTranslator, Tool::KhronosAssembler, Tool::KhronosGlslang, Tool::Qualcomm, Tool::Intel, Tool::Amd];
    let tool = tools.get(generator_id as usize).cloned().unwrap_or(Tool::Other(generator_id));
""")
HEAD = SRC[SRC.index('    let magic = try!(stream.read_word());'):SRC.index('    let mut instructions = Vec::new();')]
add('', [(R, HEAD, '    let (version, generator, bound) = try!(read_header(&mut stream));\n'),
         (R, 'struct Stream', 'fn read_header(stream: &mut Stream) -> ReadResult<(Version, Generator, u32)> {\n' + HEAD.rstrip() + '\n    Ok((version, generator, bound))\n}\n\nstruct Stream')], '', '')
add('', R, '    let id = (head & 0xFFFF) as u16;\n    let wc = (head >> 16) as u16;\n', '    let id = head as u16;\n    let wc = ((head & 0xFFFF0000) / 0x10000) as u16;\n')
add('', R, '    let id = (head & 0xFFFF) as u16;\n    let wc = (head >> 16) as u16;\n', '    let (wc, id) = split_head(head);\n'), 
MUT[-1] = ('', [(R, MUT[-1][2], MUT[-1][3]), (R, 'fn read_instruction(', 'fn split_head(head: u32) -> (u16, u16) {\n    let high = head >> 16;\n    (high as u16, (head - (high << 16)) as u16)\n}\n\nfn read_instruction(')], '', '')
# the words of an instruction
WD = SRC[SRC.index('    let mut words = Vec::with_capacity(wc as usize);'):SRC.index('    let block = MemoryBlock::new(')]
add('', [(R, WD, '    let words = try!(stream.read_words(wc - 1));\n'), (R, 'MemoryBlock::new(&words[1..words.len()])', 'MemoryBlock::new(&words)'),
         (R, '    fn is_end(&self) -> bool {', '    fn read_words(&mut self, count: u16) -> ReadResult<Vec<u32>> {\n        let mut words = vec![0; count as usize];\n        for word in words.iter_mut() {\n            *word = try!(self.read_word());\n        }\n        Ok(words)\n    }\n\n    fn is_end(&self) -> bool {')], '', '')
add('', [(R, WD, '    let words = try!(stream.read_words(wc - 1));\n'), (R, 'MemoryBlock::new(&words[1..words.len()])', 'MemoryBlock::new(&words[..])'),
         (R, '    fn is_end(&self) -> bool {', '    fn read_words(&mut self, count: u16) -> ReadResult<Vec<u32>> {\n        (0..count).map(|_| self.read_word()).collect()\n    }\n\n    fn is_end(&self) -> bool {')], '', '')
add('', [(R, WD, '    let mut words = Vec::new();\n    while words.len() + 1 < wc as usize {\n        let word = try!(stream.read_word());\n        words.push(word);\n    }\n'), (R, 'MemoryBlock::new(&words[1..words.len()])', 'MemoryBlock::new(words.as_slice())')], '', '')
# strings
LS = MB[MB.index("        let mut bytes = Vec::with_capacity(16);"):MB.index("impl MemoryBlockRead for SourceLanguage")]
LS = LS[:LS.rindex('    }\n}')]
add('', D, LS, """        let mut bytes = Vec::new();
        loop {
            let (next_block, word) = try!(block.read_word());
            block = next_block;
            for i in 0..4 {
                let c = (word >> (8 * i)) as u8;
                if c == 0 {
                    return match String::from_utf8(bytes) {
                        Ok(s) => Ok((block, s)),
                        Err(_) => Err(ReadError::InvalidString),
                    };
                }
                bytes.push(c);
            }
        }
""")
add('', D, LS, """        let mut bytes = Vec::new();
        loop {
            let (next_block, mut word) = try!(block.read_word());
            block = next_block;
            let mut n = 0;
            while n < 4 && word & 0xFF != 0 {
                bytes.push((word & 0xFF) as u8);
                word >>= 8;
                n += 1;
            }
            if n < 4 {
                break;
            }
        }
        String::from_utf8(bytes).map(|s| (block, s)).map_err(|_| ReadError::InvalidString)
""")
add('C10', D, LS, """        let mut bytes = Vec::new();
        loop {
            let (next_block, mut word) = try!(block.read_word());
            block = next_block;
            let mut n = 0;
            while n < 4 && word & 0x7F != 0 {
                bytes.push((word & 0xFF) as u8);
                word >>= 8;
                n += 1;
            }
            if n < 4 {
                break;
            }
        }
        String::from_utf8(bytes).map(|s| (block, s)).map_err(|_| ReadError::InvalidString)
""")
add('', D, LS, """        let mut bytes = Vec::new();
        while bytes.last() != Some(&0) {
            let (next_block, word) = try!(block.read_word());
            block = next_block;
            for c in &[word as u8, (word >> 8) as u8, (word >> 16) as u8, (word >> 24) as u8] {
                bytes.push(*c);
                if *c == 0 {
                    break;
                }
            }
        }
        bytes.pop();
        match String::from_utf8(bytes) {
            Ok(s) => Ok((block, s)),
            Err(_) => Err(ReadError::InvalidString),
        }
""")
