#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P=[]
def prop(id,title,statement,qtext,why,files,mech,over=("inputs",),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=list(over),text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=None)))
RD="src/spv/raw/reader.rs"; RM="src/spv/raw/mod.rs"; OP="src/spv/op.rs"; TY="src/spv/types.rs"; DI="src/spv/dis.rs"
PA="src/spv/logical/parser/parser.rs"; PM="src/spv/logical/parser/mod.rs"; CF="src/spv/logical/control_flow.rs"; SM="src/spv/mod.rs"; G="src/glsl450/mod.rs"; GO="src/glsl450/op.rs"; LM="src/spv/logical/mod.rs"
T="The five sample shaders exercise %s; nothing in the suite reaches the rest of the space."
prop("C01","Each opcode decodes to the instruction the SPIR-V standard assigns to it",
 "For every instruction in a module, the low half of its first word selects exactly the instruction that the SPIR-V 1.0 standard assigns to that number. An opcode the library does not support is never decoded as some other instruction: a standard opcode it leaves out is reported as unimplemented under its standard name, any other number as an unknown opcode carrying that number and the word count.",
 "all 65536 opcode values, at any position in any module",T%"about 25 of the opcodes",[RD],[("opcode dispatch","read_instruction in "+RD)],observe=["read_module result"])
prop("C02","Operands are taken from the words the standard assigns to them",
 "For every supported instruction, every operand of the decoded instruction comes from the word position, with the meaning, that the SPIR-V standard gives that operand, including optional operands, trailing lists, operand pairs, strings, and the extra operands that individual execution modes, decorations and mask bits carry. No operand is swapped, duplicated, dropped or invented.",
 "all supported instructions and all operand words",T%"a quarter of the instruction formats, mostly without optional operands",[RD,RM,OP],[("operand lists","def_op_read! in "+RD),("operand readers","MemoryBlockRead impls in "+RM)],observe=["read_module result"])
prop("C03","Enumerated operands decode by the standard numbering, unknown values fail",
 "Every enumerated operand value decodes to the enumerant with that number in the SPIR-V standard (open-ended ones keep the unknown number), and no two numbers decode alike. A value without an enumerant is rejected with the error for that operand kind carrying the offending value.",
 "all 2^32 values of each of the 19 enumerated operand kinds",T%"a handful of values of each enumeration",[RM,TY],[("enumerant tables","MemoryBlockRead impls in "+RM)],observe=["read_module result"])
prop("C04","Mask operands decode bit for bit and undefined bits are rejected",
 "Each flag of a mask operand (function control, memory access, floating-point fast math, loop control, selection control) is set exactly when its standard bit is set in the mask word, independently of the other bits. A mask word with any undefined bit set, in any of its 32 bits, is rejected with the error for that mask carrying the word.",
 "all 2^32 values of each of the five mask kinds",T%"the all-zero masks only",[RM,TY],[("mask readers","MemoryBlockRead impls of the mask structs in "+RM)],observe=["read_module result"])
prop("C05","The declared word count is enforced exactly",
 "An instruction is accepted only if its operands use up exactly the number of words its header declares: too few words give an end-of-instruction error, left-over words an excess-data error, and a declared count of zero is an error. The next instruction starts exactly at the declared word count after this one, and an instruction running past the end of the data is an error.",
 "all word counts and all operand contents",T%"well-formed instructions only",[RD,RM],[("word collection and end check","read_instruction in "+RD),("MemoryBlock","read_word/remaining/end in "+RM)],observe=["read_module result"])
prop("C06","Reading never panics, whatever the bytes",
 "Reading a module returns a value or an error for every byte string and never panics: no out-of-range index, arithmetic overflow, failed unwrap, division by zero or explicit panic is reachable.",
 "all byte strings of any length",T%"valid modules only",[RD,RM,G],[("length checks before every access","Stream/MemoryBlock in "+RD+", "+RM)],observe=["read_module"])
prop("C07","Both byte orders give the same module",
 "A module stored in little-endian and the same module stored in big-endian byte order decode to the same result: the byte order is taken from the magic number alone and applies to every later word of the stream.",
 "all modules in both byte orders",T%"little-endian files only",[RD],[("Stream byte order flag","Stream in "+RD)],observe=["read_module result"])
prop("C08","The module header is checked and reported faithfully",
 "A module is accepted only if it starts with the SPIR-V magic number in either byte order, declares version 1.0 with all four version bytes as the standard requires, and has a zero schema word; each other header is rejected with the error for that field. On success the version, generator tool, generator version and id bound are those of the header words, and unregistered generators keep their number.",
 "all five-word headers, including truncated ones",T%"headers of one generator",[RD,TY],[("header parsing","read_module in "+RD)],observe=["read_module result"])
prop("C09","Extended instructions are resolved through the set their id imports",
 "An import succeeds only if the caller supplied an instruction set of exactly that name, which is then bound to the import's result id; an unknown name or an id imported twice is an error. An extended instruction is decoded by the set bound to its set operand, from its own operand words, and an unbound set id is an error; the GLSL.std.450 set decodes 13 as Sin and 14 as Cos of its single operand and rejects every other number with an error carrying the set's name and the number. The set and its instructions report their own names.",
 "all instruction-set tables, import sequences and extended instructions",T%"one import and two instructions of one set",[RD,G,GO],[("import table","OpExtInstImport/OpExtInst readers in "+RD),("GLSL.std.450","InstSet in "+G)],observe=["read_module result"])
prop("C10","String literals decode byte-exactly",
 "A string literal is the bytes of its words, lowest-order byte first, up to the first zero byte, and the words up to and including the one holding that zero byte are consumed. A literal without a zero byte inside its instruction, or whose bytes are not UTF-8, is rejected.",
 "all strings, lengths and alignments",T%"short ASCII names",[RM],[("LitString reader",RM)],observe=["read_module result"])
prop("C11","A decoded module contains every instruction once, in file order",
 "A successful read yields one instruction for each instruction of the file, in file order, up to the exact end of the data. The first instruction that cannot be decoded makes the whole read fail with that instruction's error; none is skipped, repeated, reordered or silently dropped.",
 "all sequences of instructions of any length",T%"five complete files",[RD],[("instruction loop","read_module in "+RD)],observe=["read_module result"])
prop("C12","A disassembled instruction shows its result id, name and all operands",
 "The text of every instruction is its result id right-aligned in twelve columns followed by ' = ' (or fifteen blanks when it has none), the instruction's standard name, and then each of its other operands exactly once in the standard's order, separated by single spaces; ids print as '%' and the number, strings verbatim between double quotes, literals in decimal, absent optional operands as nothing, lists element by element. The line is the same whether the instruction is printed on its own, from a module or from the block of a validated function.",
 "all instructions with all operand values",T%"about 25 instructions",[DI,OP,TY,RM],[("def_op_display!",DI),("operand lists",OP)],observe=["Display of instructions"])
prop("C13","A disassembled module is its header followed by one line per instruction",
 "The text of a module is the five header lines with the module's own version, generator vendor and tool, generator version, bound and schema zero, followed by one line for each instruction in order and nothing else; a known generator prints its registered vendor and tool, an unknown one prints as Unknown.",
 "all modules",T%"five modules from one generator",[RM,TY],[("Display for RawModule",RM),("Tool tables",TY)],observe=["Display of RawModule"])
prop("C14","Operand values disassemble under their standard names",
 "Every enumerant, with its parameters, and every mask prints as its standard name: distinct enumerants print distinctly, parameters follow in order, and a mask prints the names of exactly the set flags in bit order joined by ' | ', or None when no flag is set.",
 "all values of all operand types",T%"a handful of enumerants and the empty masks",[TY],[("Display impls",TY)],observe=["Display of operand types"])
prop("C15","Validation keeps every instruction intact and in its section",
 "In a validated module every instruction of the input appears exactly once, with all its operands unchanged, in the section of the logical layout its kind belongs to and in the input's order; variables belong to function bodies exactly when their storage class is Function, and to the globals otherwise.",
 "all modules that validate",T%"five modules, checked only for success",[PM,PA,LM],[("instruction grouping","From<Core> in "+PM),("section readers",PA)],observe=["validate result"])
prop("C16","Validation accepts exactly the standard section order",
 "A module validates only if its instructions come in the order capabilities, extensions, extended-instruction imports, exactly one memory model, entry points, execution modes, debug, annotations, types/constants/globals, function declarations, function definitions, with nothing left over. Otherwise validation fails, with the error kind for what was missing and the position of the instruction at fault where the error carries one.",
 "all instruction sequences",T%"five valid sequences and no invalid one",[PA],[("section readers in sequence","validate in "+PA)],observe=["validate result"])
prop("C17","Function bodies are assembled as written",
 "Each function consists of its function instruction, its parameters in order and, if it has a body, its blocks in order up to its end instruction; each block consists of its label, its code in order, at most one merge instruction and exactly one terminating branch. Functions without a body that come before all functions with one are the declarations. A body that deviates (a block without a branch, code outside a block, a missing end) is an error, never a silently regrouped function.",
 "all function bodies",T%"structured functions of five shaders",[PA],[("function and block readers",PA)],observe=["validate result"])
prop("C18","Recovered control flow matches the branches of the function",
 "The recovered structure of a function visits its blocks as the branches say: it starts at the first block, a plain branch continues with its target, a selection has the true target's code first and the false target's second and continues at its merge block, a loop contains what follows its header and continues at its merge block, break and continue appear exactly on branches to the innermost loop's merge and header, and hints and branch weights are those of the function's own instructions. A function whose constructs all follow these rules is recovered, not refused.",
 "all functions for which recovery succeeds",T%"five functions, checked only for success",[CF],[("search_block",CF)],observe=["find_control_flow result"],over=("programs",))
prop("C19","Malformed functions give errors, not panics or wrong structures",
 "Control-flow recovery returns an error, never a panic, for a function with no blocks, with two blocks of the same label, with a branch to a label that does not exist, with a merge instruction that does not fit its branch, or whose constructs do not converge where their merge instruction says; validation never panics on any instruction list.",
 "all functions and all instruction lists",T%"well-formed functions only",[CF,PA],[("error returns",CF),("bounds checks",PA)],observe=["find_control_flow","validate"],over=("programs",))
prop("C20","Stack use does not grow with the size of the input",
 "Reading, validating and disassembling a module use a bounded depth of calls however many instructions, operands or blocks the module has, so that large modules cannot overflow the stack; control-flow recovery nests no deeper than the function's constructs.",
 "modules and functions of any size",T%"modules of about a hundred instructions",[RD,PA,CF,RM],[("iteration instead of recursion","loops in "+RD+" and "+PA)],observe=["read_module, validate, find_control_flow, Display"],over=("inputs","programs"))
prop("C21","Results depend on the arguments alone",
 "Reading, validating, recovering control flow and disassembling are functions of their arguments: they keep no state between calls, perform no input or output, do not panic deliberately to signal state, and never let the iteration order of a hash table, an address, the time or randomness reach a result. They contain no unsafe code.",
 "all call histories and environments",T%"single calls",[RD,RM,PA,CF,DI,OP,TY,SM,G],[("no statics, no unsafe, hash maps only looked up by key","whole crate")],over=("histories","configurations","inputs"))
prop("C22","Equality and cloning of library values are structural",
 "Two instructions, operand values, modules or logical modules compare equal exactly when they are of the same kind and all their parts are equal, including extended instructions behind their trait object; a clone equals its original in every part.",
 "all pairs of values of every public data type",T%"equality of one module with one expected value",[SM,G,GO,OP,TY,RM,LM,CF],[("derives and the ExtInst equality",SM+", "+G)],observe=["PartialEq/Clone impls"])
prop("C23","Printed control flow shows every construct once, nested as recovered",
 "The text of a recovered structure shows each block, selection, loop, break and continue exactly once, in order, indented by nesting depth, with the hints and weights of its construct when present and an else part exactly when the false side is not empty; printed with its function, each block lists all its code and its branch under its own label.",
 "all structures of any shape and depth","No test prints a recovered structure at all.",[CF],[("fmt_indent",CF),("ControlFlowFunctionPrinter",CF)],observe=["Display of ControlFlowChain and ControlFlowFunctionPrinter"],over=("programs",))
prop("C24","Control-flow recovery always terminates",
 "Control-flow recovery ends, with a result or an error, for every function, including ones whose branches form cycles without a loop construct.",
 "all functions, all branch graphs",T%"five reducible graphs",[CF],[("merge list","FlowList in "+CF)],observe=["find_control_flow"],over=("programs",))
prop("C25","Every error has its own description",
 "Each kind of read error describes itself with its own fixed non-empty text, and displaying the error shows that text.",
 "all read errors","No test formats an error.",[RM],[("Error::description and Display for ReadError",RM)],observe=["Display/description of ReadError"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for p in P: 
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
print(len(P))
