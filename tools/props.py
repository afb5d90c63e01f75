prop(
    "C01", "Every class-file structure survives a write/read round trip",
    "For every value of every class-file structure (attributes, members, annotations, module descriptions, constants, "
    "frames, flags, versions) that the library accepts for writing, reading the bytes it wrote yields an equal value and "
    "consumes exactly those bytes. No variant, optional part, list length or numeric boundary is an exception.",
    ["inputs"], "all values of all structures with a reader and a writer, all list lengths and numeric values",
    "The tests round-trip a handful of class files and literals; boundary values, rare variants and combinations of optional parts are never built.",
    ["src/attr.rs", "src/member.rs", "src/module.rs", "src/annotation", "src/code.rs", "src/code/structure.rs", "src/rw.rs",
     "src/helper.rs", "src/loadable.rs", "src/dynamic.rs", "src/flags.rs", "src/version.rs", "coffer_macros/src/derive.rs"],
    [("derived and hand-written codec pairs", "coffer_macros/src/derive.rs, src/**/*.rs (read_from / write_to)"),
     ("length-prefixed lists and optional indices", "src/helper.rs")],
    "path-sensitive abstract interpretation of MIR: writer effect grammar composed with the reader",
    "Every writer path of every codec is composed with every reader path; loops are summarised per element, so list lengths "
    "are unbounded. Trusts the models of std and of the constant pool laws (checked by other properties).",
)

prop(
    "C02", "Written structures follow the JVM class-file layout",
    "Every structure the library writes (constants, fields, methods, attributes, annotations, module descriptions, stack map "
    "frames, version numbers, access flags) consists of exactly the items, in the order, with the widths, tags, counts and "
    "constant-pool entries, that chapter 4 of the JVM specification prescribes for it. The numeric value of every access flag "
    "is the specified one.",
    ["inputs"], "all values of all written structures, every optional part and list length",
    "A reader and writer that share a mistake round-trip happily; the tests compare a few literals with themselves and never with the specification.",
    ["src/attr.rs", "src/member.rs", "src/module.rs", "src/annotation", "src/code.rs", "src/code/structure.rs", "src/rw.rs",
     "src/helper.rs", "src/cp.rs", "src/loadable.rs", "src/dynamic.rs", "src/flags.rs", "src/version.rs", "coffer_macros/src/derive.rs"],
    [("tag and attribute-name assignment", "coffer_macros/src/derive.rs; #[coffer(tag = ..)] attributes"),
     ("constant pool entry construction", "src/rw.rs"), ("flag constants", "src/flags.rs")],
    "path-sensitive abstract interpretation of MIR: writer effect grammar matched against a specification grammar",
    "Every writer path of 70 codecs is matched against a transcription of JVMS chapter 4; list lengths are unbounded. Trusts the "
    "transcription and the models of std.",
)

prop(
    "C03", "Every instruction is encoded and decoded as the JVM specification says",
    "Each instruction of a method body is written as an opcode and operands that denote exactly that instruction according to "
    "chapter 6 of the JVM specification, whatever its operands (short forms and wide forms included), and reading those bytes "
    "gives the same instruction back. Reading any byte sequence that encodes an instruction yields the instruction it denotes, "
    "and undefined opcodes are rejected.",
    ["inputs"], "all instructions with all operands, all 256 opcodes and all 256 wide forms",
    "There are over two hundred opcodes with short, normal and wide forms that depend on the operand; the tests use a few of them with small operands.",
    ["src/code/convert.rs", "src/insn.rs", "src/code.rs", "src/constants.rs"],
    [("instruction writer", "src/code/convert.rs (Conv::write / RawInstruction)"), ("instruction reader", "src/code/convert.rs (convert_direct_instruction)")],
    "path-sensitive abstract interpretation of MIR against the opcode table of the specification",
    "Every writer path for an arbitrary instruction is decoded with the transcribed opcode table; every opcode is read with arbitrary "
    "operands. Trusts the table, the models of std and the laws of the constant pool and of descriptors (other properties).",
)

prop(
    "C04", "Jumps, switches and code tables refer to the right instructions",
    "In every written method body each jump, switch entry, exception range, line number and local variable range refers to "
    "exactly the place of its label, whatever the distances, alignment and number of switch entries, with wide or inverted "
    "forms where the distance requires them; switch keys are complete and ordered, padding and code length are right, and "
    "only bodies that cannot be represented are refused. Reading a method body attaches every such reference to the "
    "instruction it denotes and refuses references to no instruction.",
    ["inputs"], "all body shapes of the analysed families with switch tables of any length between and around them, hence all distances and alignments",
    "Offsets past 32767, cascading jump widening and the four alignments of a switch need bodies of tens of kilobytes with precise sizes; the tests have tiny bodies.",
    ["src/code.rs", "src/code/convert.rs", "src/code/structure.rs", "src/insn.rs"],
    [("jump widening and label resolution", "src/code.rs (Code::write_to)"), ("label discovery on reading", "src/code.rs, src/code/convert.rs")],
    "path-sensitive abstract interpretation of MIR: symbolic layout of parametric method bodies compared with label positions",
    "Families of bodies with blocks of symbolic size, so distances and alignments are arbitrary; the number of labels and jumps per "
    "body is bounded by the family. Trusts the opcode table, the models of std and the constant pool laws.",
)

prop(
    "C05", "A class file is written and read as a whole",
    "Every class is written as magic number, version, constant pool, flags, names, interfaces, fields, methods and attributes in the "
    "order and with the counts the JVM specification prescribes, and reading it gives the same class back. All bootstrap methods, "
    "including those that only become known while members, attributes or other bootstrap methods are written, stand in one "
    "BootstrapMethods attribute at the indices the constants use, and every constant the file uses is in its pool. On reading, "
    "every dynamic constant gets the bootstrap method of its index, files with other magic numbers or dangling bootstrap method "
    "references are refused.".replace("the same class back. All", "the same class back; all").replace("pool. On", "pool. On"),
    ["inputs", "histories"], "all classes with any number of interfaces, fields, methods and up to three attributes of any kind; all histories of up to two late bootstrap methods",
    "The order in which parts are written and what they add to the pool and the bootstrap table depends on combinations of attributes, members and nested dynamic constants that the tests never build.",
    ["src/clazz.rs", "src/cp.rs", "src/dynamic.rs", "src/attr.rs"],
    [("class reader and writer", "src/clazz.rs (Class::read_from, Class::write_to)"), ("bootstrap method table", "src/cp.rs (insert_bsm, bootstrap_methods)")],
    "path-sensitive abstract interpretation of MIR: class writer grammar matched with the ClassFile layout and composed with the reader; effect order of pool insertions",
    "Member lists have any length; attribute lists up to three, late bootstrap methods up to two. Trusts the codecs of the parts (C01, C02) and of the pool (C06).",
)

prop(
    "C06", "Constant pool indices denote the constants they were given for",
    "Each constant added to the pool gets an index at which a reader of the written pool finds exactly that constant: the first has index 1, "
    "long and double constants take two places, equal constants share one, and a pool with more places than fit is refused instead of "
    "written. Index 0, the second place of a long or double and indices past the end denote nothing. A lookup of a certain kind of constant "
    "succeeds exactly for constants of that kind, with exactly their parts; bootstrap methods get and keep the index of their place in the list.".replace(
    "written. Index", "written; index").replace("denote nothing. A lookup", "denote nothing. A lookup"),
    ["inputs", "histories"], "all sequences of insertions (by induction over an arbitrary pool), all entries and indices",
    "Which index an entry gets depends on everything inserted before; the tests insert a few constants and never reach the limits.",
    ["src/cp.rs", "src/rw.rs", "src/loadable.rs"],
    [("insertion and deduplication", "src/cp.rs (VecCp)"), ("reading and lookup", "src/cp.rs (MapCp), src/rw.rs (ConstantPoolReader)")],
    "path-sensitive abstract interpretation of MIR: inductive step on an arbitrary pool plus all short histories, writer composed with reader",
    "Insertion and the reading loop are decided from arbitrary states; histories of up to four insertions and three bootstrap references "
    "tie writer and reader together. Trusts the models of hash maps and vectors.",
)

prop(
    "C07", "Strings survive modified UTF-8 exactly as the JVM specification encodes them",
    "Every string, with any code points including NUL, supplementary characters and unpaired surrogates, is written as "
    "exactly the modified UTF-8 of section 4.4.7 of the JVM specification, and decoding those bytes gives the same string "
    "back. Decoding arbitrary bytes never panics and either fails or returns a well-formed string.",
    ["inputs"], "all strings of all lengths, all byte sequences",
    "Errors hide in single code-point ranges and in what precedes or follows a surrogate; the tests convert a handful of short strings.",
    ["src/mod_utf8.rs", "wtf8/src/lib.rs"],
    [("decoder", "src/mod_utf8.rs (modified_utf8_to_string)"), ("encoder", "src/mod_utf8.rs (string_to_modified_utf8)")],
    "abstract interpretation of MIR driven by a token automaton; byte equality by canonical boolean functions (BDD)",
    "The loops are explored per code point to a fixpoint of their abstract states, so string length is unbounded; every code point of "
    "each range is covered symbolically. Trusts the transcription of 4.4.7 and the models of std.",
)

prop(
    "C08", "WTF-8 strings are always well-formed and mean exactly their code points",
    "Bytes are accepted as a string exactly when they are well-formed WTF-8, and every safe operation (appending code points, "
    "characters or strings, truncating, slicing, copying, collecting, converting from UTF-16) yields a well-formed string with "
    "exactly the specified content, joining a lead and a trail surrogate that meet. Iterating gives exactly the encoded code "
    "points and UTF-16 units; conversion to text succeeds exactly without surrogates and the lossy one replaces exactly the "
    "surrogates by U+FFFD; comparison and hashing follow the content.",
    ["inputs"], "all byte sequences, all strings and code points, all positions",
    "Mistakes hide in single ranges of code points or at the seam of two strings; the tests use a few short strings.",
    ["wtf8/src/lib.rs", "wtf8/src/std_internal.rs"],
    [("validation", "wtf8/src/lib.rs (validate_wtf8)"), ("appending and joining", "wtf8/src/lib.rs (push, push_wtf8)"),
     ("encoding and decoding", "wtf8/src/std_internal.rs")],
    "abstract interpretation of MIR driven by a token automaton; byte equality by canonical boolean functions (BDD)",
    "Loops over bytes are explored per code point to a fixpoint; other operations are interpreted on symbolic strings with every kind of "
    "code point at their ends. Lossy conversions: up to three surrogates. Trusts the models of std.",
)

prop(
    "C09", "Descriptors are read and printed exactly as the grammar says",
    "Every well-formed field or method descriptor is read as exactly the type it denotes, with up to 255 array dimensions, and any other text "
    "is rejected (or read as a type that prints as that same text), never with a panic. Every type prints as its descriptor. "
    "Making an array of a type adds the given dimensions.",
    ["inputs"], "all texts, all types",
    "The texts form an infinite recursive language; the tests read and print a handful of descriptors.",
    ["src/ty.rs"],
    [("reading", "src/ty.rs (parse_type, get_type)"), ("printing", "src/ty.rs (write_type, Display)"), ("arrays", "src/ty.rs (Type::array)")],
    "abstract interpretation of MIR on partially known texts, compared path by path with a reference parser of the grammar (nested constructs as verified nonterminals)",
    "Texts of up to nine units (a nested descriptor is two), dimensions 1, 2 and 254 to 257; lists of any length when printing. "
    "Trusts the models of std's text functions.",
)

prop(
    "C10", "Generic signatures are read and printed exactly as the grammar says",
    "Every well-formed class, method or field signature (and every part of one that can be read on its own) is read as exactly the structure it denotes; any other "
    "text is rejected or read as a structure that prints as that same text, never with a panic. Every such structure prints as its signature.",
    ["inputs"], "all texts, all signature structures",
    "The grammar is deeply recursive with optional and repeated parts everywhere; the tests read a few signatures.",
    ["src/signature.rs"],
    [("reading", "src/signature.rs (class_type_sig, type_sig, ref_type_sig, type_param and the other parsers, FromStr)"), ("printing", "src/signature.rs (Display)")],
    "abstract interpretation of MIR on partially known texts, compared path by path with a reference parser of the grammar (nested constructs as verified nonterminals)",
    "Each construct on texts of up to seven units (a nested construct is two), dimensions 1, 2 and 254 to 257; lists of any length when printing. "
    "Trusts the models of std's text functions.",
)

prop(
    "C11", "Reading never panics, whatever the bytes",
    "Reading a class, or any structure inside one, from arbitrary bytes returns a value or an error and never panics: not by "
    "arithmetic overflow, an index or range out of bounds, unwrapping something absent, or code believed unreachable. "
    "Exhaustion of memory or of the stack by deeply nested input is outside this promise.",
    ["inputs", "fault_sequences"], "all byte sequences, all contents of the constant pool, all read failures",
    "A panic needs one particular hostile value (an offset, a length, an index) out of billions; the tests read a few well-formed classes.",
    ["src/rw.rs", "src/cp.rs", "src/clazz.rs", "src/code.rs", "src/code/convert.rs", "src/annotation/", "src/loadable.rs", "coffer_macros/src/derive.rs"],
    [("bytecode and tables", "src/code.rs (Code::read_from), src/code/convert.rs"), ("pool parsing and lookups", "src/cp.rs, src/rw.rs"),
     ("derived readers", "coffer_macros/src/derive.rs")],
    "path-sensitive abstract interpretation of MIR: every panicking terminator and library precondition unreachable",
    "Every reader and typed pool lookup on unknown input; nested readers are separate obligations, loops are widened. One library "
    "precondition (position of inserted labels) needs an invariant of a map's values and is left to C04.",
)

prop(
    "C12", "What does not fit the class file format is refused, not truncated",
    "Writing a value whose count, length, offset or index does not fit the field that carries it returns an error: a successful "
    "write never emits a number with its high bits cut off, and never panics with an arithmetic overflow.",
    ["inputs"], "all values, in particular collections, strings and code of any size",
    "The limits lie at 256, 65536 and 2^32 elements; the tests write collections of a few elements.",
    ["src/helper.rs", "src/clazz.rs", "src/code.rs", "src/cp.rs", "src/mod_utf8.rs", "coffer_macros/src/derive.rs"],
    [("length conversions", "src/helper.rs (len16, len32)"), ("derived vectors", "coffer_macros/src/derive.rs"), ("pool size", "src/cp.rs (VecCp)")],
    "abstract interpretation of MIR with intervals: every narrowed quantity that reaches the output is in range on success paths",
    "Every writer on a symbolic value with collections of unknown length. In the bytecode writer quantities that depend on "
    "label positions are decided by C04 instead.",
)

prop(
    "C13", "A failure of any part makes the whole operation fail",
    "When the source ends or fails, the sink fails or takes only part of the data, a nested structure cannot be read or written, "
    "a constant is missing, a text does not parse, or an attribute has content left over, then the operation returns an error; it "
    "never reports success with part of the data missing.",
    ["fault_sequences", "inputs"], "every single operation failing, in every structure",
    "Needs the failure of one particular operation; the tests only use sources and sinks that never fail.",
    ["src/rw.rs", "src/clazz.rs", "src/code.rs", "src/cp.rs", "src/annotation/", "coffer_macros/src/derive.rs"],
    [("class writer and reader", "src/clazz.rs"), ("primitive transfers", "src/rw.rs"), ("derived codecs", "coffer_macros/src/derive.rs")],
    "fault-forking abstract interpretation of MIR: every path with a failed operation ends in an error",
    "Every reader and writer; each operation forks into success and failure. Failures in an iteration after which the loop goes "
    "on are tracked unless a variable of the loop may remember them.",
)

prop(
    "C14", "The same class always gives the same bytes",
    "Writing equal values in the same way gives the same bytes every time, and reading the same bytes gives the same value: neither "
    "depends on the iteration order of hash maps, on addresses, on time, on the environment or on what happened before. Which "
    "error is reported, and its text, are outside this promise.",
    ["histories", "schedules"], "all values and inputs, all runs (hash seeds, address layouts, earlier operations)",
    "Hash order changes from process to process and often agrees by chance; a test in one process compares one order with itself.",
    ["src/annotation/mod.rs", "src/code.rs", "src/cp.rs", "src/code/convert.rs"],
    [("elements of annotations are sorted before writing", "src/annotation/mod.rs (write_to)"), ("labels, lines and local variables are placed in order", "src/code.rs (read_from)"),
     ("constants are kept in a vector", "src/cp.rs (VecCp)")],
    "interprocedural taint analysis of MIR: unordered iteration and varying values must not reach a sink, parameter or result",
    "Taint per local and parameter with function summaries; a sort restores order only if it compares whole keys. Trusts the list of unordered and varying "
    "library functions; places of a map under different keys are taken as different.",
)

prop(
    "C15", "Constructors, conversions and validity checks mean what they are documented to mean",
    "Every public shorthand constructor and conversion (instructions, types, constants, attributes, exports, wrappers of dynamic values and floating point "
    "numbers) gives exactly the value its name and documentation say, the negation of a jump condition is its logical opposite, the wide and method "
    "classifications answer exactly for the kinds the documentation names, and the check of a method handle succeeds exactly for the handles the JVM "
    "specification (4.4.8) allows, for every kind, descriptor and name.",
    ["inputs"], "all values of all argument types",
    "The tests use a few of these functions, each with one argument; a wrong answer for one kind, or one combination of kind, descriptor and name, goes unnoticed.",
    ["src/code/structure.rs", "src/loadable.rs", "src/ty.rs", "src/cp.rs", "src/dynamic.rs", "src/module.rs", "src/attr.rs"],
    [("method handles", "src/loadable.rs (MethodHandle::check)"), ("instructions", "src/code/structure.rs (impl Instruction, impl Neg)"),
     ("types", "src/ty.rs (impl Type)"), ("conversions", "From and TryFrom implementations")],
    "relational abstract interpretation of MIR: implementation against a reference function on the same symbolic arguments",
    "All variants of every argument separately; names as explicit texts and as an arbitrary text. Trusts the reference functions of probe/src/query.rs.",
)

prop(
    "C16", "Equality is exact, and hashes and order agree with it",
    "Two values of any public type compare equal exactly when they are the same in every part: floating point constants by their "
    "bits (NaN payloads and the sign of zero count), dynamic constants by the content of their bootstrap method. Equal values have equal hashes, and "
    "comparisons answer Equal exactly for equal values and swap with their arguments.",
    ["inputs"], "all pairs of values of all types with equality",
    "A forgotten part, a NaN or a shared pointer shows only for particular pairs; the tests compare values that differ visibly or not at all.",
    ["src/total_floats.rs", "src/dynamic.rs", "src/member.rs", "src/loadable.rs", "src/ty.rs"],
    [("floating point constants", "src/total_floats.rs"), ("dynamic constants", "src/dynamic.rs (PartialEq, Hash)"), ("all other types", "derived implementations")],
    "abstract interpretation of MIR on pairs of symbolic values; call-graph check that hashes use no addresses",
    "Handwritten implementations are interpreted for every pair of variants; derived ones are taken to compare all parts. Trusts the model of total_cmp.",
)

prop(
    "C17", "A Java virtual machine accepts every written class",
    "A class that was read from a valid class file and written again, or built according to the documentation, passes the structural "
    "and type checks of a Java virtual machine.",
    ["programs"], "all classes, all virtual machines",
    "Only a few classes are written by the tests, and none is loaded.",
    ["src/clazz.rs", "src/code.rs"],
    [("writing", "src/clazz.rs (write_to)")],
    na="Acceptance is a property of type inference over arbitrary method bodies by an external program; frames and stack sizes are the caller's data and the "
       "library does not compute them. The layout part is decided by C02 to C05.",
)

prop(
    "C18", "Reading uses resources in proportion to the input",
    "Reading any input takes time, memory and stack bounded by a fixed multiple of its length, whatever lengths it claims and "
    "however deeply annotations, signatures or dynamic constants are nested.",
    ["inputs"], "all byte sequences",
    "The tests read small well-formed inputs.",
    ["src/rw.rs", "src/annotation/mod.rs", "src/signature.rs", "src/cp.rs"],
    [("recursive readers", "src/annotation/mod.rs, src/signature.rs"), ("buffers sized by the input", "src/rw.rs, src/attr.rs")],
    na="A quantitative bound over recursion depth and allocation sizes: recursion on nested input is unbounded by design, and no static cost analysis for Rust is in reach.",
)
