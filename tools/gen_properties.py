import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Numbers are exactly big-endian on the wire",
 "Writing an integer or floating-point value of any supported width produces exactly its big-endian bytes, and reading consumes exactly that many bytes and returns the bit-identical value, NaN payloads included. Input shorter than the width is reported as an error. Access-flag words behave the same, except that reading keeps precisely the bits the class-file format defines for that kind of flag and drops the rest.",
 ["inputs"],"every value of every width (8..128-bit integers, both float widths, all flag words) and every truncation point",
 "The tests never look at raw bytes of scalars; they sample a few numbers inside larger structures.",
 ["src/rw.rs","src/flags.rs","src/total_floats.rs"],
 [("impl_readwrite_nums!","src/rw.rs"),("impl_readwrite_total_floats!","src/rw.rs"),("bitflags constants, rw_impls!","src/flags.rs")],
 observe=["bytes handed to the writer","value returned by the reader","reader position"])

p("C02","Strings are encoded as exact Modified UTF-8",
 "Encoding any string, including ones with NUL, supplementary characters or unpaired surrogates, produces exactly the Modified UTF-8 form of the JVM specification: one to three bytes per UTF-16 unit, NUL as C0 80, supplementary characters as two three-byte surrogates, and never a zero byte. Decoding those bytes gives back the identical string. A string is stored in the class file with its encoded byte length in front of it, and one whose encoding is longer than 65535 bytes is refused with an error.",
 ["inputs"],"every sequence of code points, of any length",
 "Tests encode a dozen fixed strings; the surrogate/NUL/boundary combinations are unbounded.",
 ["src/mod_utf8.rs","src/rw.rs"],
 [("string_to_modified_utf8","src/mod_utf8.rs"),("modified_utf8_to_string","src/mod_utf8.rs"),("ReadWrite for Wtf8String / Cow<Wtf8Str>","src/rw.rs")],
 observe=["returned bytes","returned string"])

p("C03","Decoding Modified UTF-8 yields the right string or an error",
 "Decoding an arbitrary byte sequence as Modified UTF-8 either reports an error or returns a well-formed string whose UTF-16 units are exactly those the bytes encode; it never panics and never returns a string with malformed, overlong or unpaired-where-paired content. Every byte sequence that is the Modified UTF-8 form of some string is accepted, and so are the standard UTF-8 forms of NUL and of supplementary characters.",
 ["inputs"],"every byte sequence of any length",
 "Tests decode well-formed samples and a few malformed ones; the malformed space is unbounded and mistakes hide in one continuation-byte check.",
 ["src/mod_utf8.rs","wtf8/src/lib.rs"],
 [("modified_utf8_to_string","src/mod_utf8.rs"),("validate_wtf8 / from_bytes","wtf8/src/lib.rs")],
 observe=["decode result"])

p("C04","Strings stay well-formed under every building operation",
 "Whatever sequence of checked operations builds or edits a string (validating bytes, decoding UTF-16, appending characters, code points or strings, collecting, truncating, slicing), the result is well-formed generalized UTF-8 in which a high surrogate directly followed by a low surrogate never stays as two separate code points but is joined into the one supplementary character. The result's UTF-16 units are the concatenation of the operands' units. An operation whose index is not on a character boundary, or is past the end, is refused.",
 ["inputs","histories"],"every string, every operand and every sequence of operations",
 "Unit tests exercise each operation on short literals; joining depends on what bytes happen to meet at the seam.",
 ["wtf8/src/lib.rs","wtf8/src/std_internal.rs"],
 [("validate_wtf8","wtf8/src/lib.rs"),("push / push_wtf8 / push_char / Extend / FromIterator","wtf8/src/lib.rs"),("from_wide","wtf8/src/lib.rs"),("truncate, Index<Range>, is_code_point_boundary","wtf8/src/lib.rs")],
 state=[("bytes","well-formed WTF-8","wtf8/src/lib.rs")],observe=["bytes of the string after the operation"])

p("C05","String views and conversions agree with the content",
 "For every string, iterating over its code points visits exactly its code points in order, with the rest still to come available as a string at every step, and the UTF-16 view followed by UTF-16 construction gives the same string. Conversion to ordinary text succeeds exactly when the string has no surrogate and then returns the same text; the lossy conversion replaces each surrogate by U+FFFD and changes nothing else; ASCII-only case operations change only ASCII letters. Equality, ordering and length agree with the byte content.",
 ["inputs"],"every well-formed string (and every sequence of UTF-16 units)",
 "Unit tests use short literals; the multi-byte state machines have to be right for every mixture of widths.",
 ["wtf8/src/lib.rs","wtf8/src/std_internal.rs"],
 [("codepoints / Wtf8CodePoints","wtf8/src/lib.rs, wtf8/src/std_internal.rs"),("encode_wide / from_wide","wtf8/src/lib.rs"),("as_str, into_string, to_string_lossy, into_string_lossy","wtf8/src/lib.rs")],
 observe=["iterator output","conversion results"])

p("C06","Constant-pool entries have the specified binary form",
 "Each kind of constant-pool entry is written as its JVM-specification tag byte followed by exactly its operands in order, and reading those bytes gives back an equal entry and consumes nothing more. A tag the specification does not define, or truncated operands, is an error.",
 ["inputs"],"every entry kind with every operand value; every tag byte; every truncation",
 "Tests only see the handful of entries that javac happened to put in sample classes.",
 ["src/cp.rs","coffer_macros/src/derive.rs","src/rw.rs"],
 [("derive(ReadWrite) for RawConstantEntry and ConstEntryRef","src/cp.rs"),("tag assignment","coffer_macros/src/derive.rs")],
 observe=["entry bytes","entry read back"])

p("C07","Pool indices handed out by the writer denote what was inserted",
 "For every sequence of insertions into the constant-pool writer, each returned index is the slot at which that very entry stands in the written pool, inserting an equal entry again returns the same index and adds nothing, earlier indices never change meaning, 8-byte numbers occupy two slots, and the written count is one more than the slots used. A pool that needs more slots than the format allows is refused when written. Floating-point entries are equal only if bit-identical.",
 ["histories","inputs"],"every sequence of insertions of every kind of entry",
 "Tests insert a few entries per class; index drift after wide entries or a deduplication mistake shows only for particular histories.",
 ["src/cp.rs","src/total_floats.rs"],
 [("VecCp::insert_raw","src/cp.rs"),("VecCp::write_to","src/cp.rs"),("RawConstantEntry::size","src/cp.rs"),("TotalF32/TotalF64 Eq+Hash","src/total_floats.rs")],
 state=[("len","next free slot = 1 + sum of entry sizes","src/cp.rs"),("cache","entry -> its slot","src/cp.rs")],
 observe=["returned index","written pool"],hook="construct/inspect writer state")

p("C08","Reading a pool assigns every entry its specified slot",
 "Reading a constant pool with any declared count places each entry at the slot the specification gives it (8-byte numbers take two slots, the second being unusable), stops after the declared number of slots and leaves the reader just behind the last entry. Looking up any index returns exactly that entry or nothing. A pool written by the writer and read back answers every index the writer returned with the entry inserted.",
 ["inputs","histories"],"every pool content, order and count, up to and including the maximal count",
 "Tests read small pools produced by javac; wide entries at the end or at the count limit do not occur in them.",
 ["src/cp.rs"],
 [("MapCp::read_from","src/cp.rs"),("MapCp::read_raw","src/cp.rs"),("VecCp::write_to","src/cp.rs")],
 observe=["lookup results","reader position"])

p("C09","Symbolic constants survive the constant pool unchanged",
 "Inserting any symbolic constant (number, string, class, module, package, field/method/interface-method reference, name-and-type, method type, method handle) and resolving the returned index gives back an equal value, whatever characters its names contain and whatever else is in the pool. The entries involved are of exactly the kinds the specification requires, and resolving an index as the wrong kind yields nothing.",
 ["inputs","histories"],"every symbolic constant and every prior pool content",
 "Tests resolve the few kinds that javac emits, with ASCII names.",
 ["src/rw.rs","src/cp.rs","src/helper.rs","src/ty.rs"],
 [("insert_constant, insert_member, insert_nameandtype, insert_indirect_str, insert_method_handle","src/rw.rs"),("read_constant, read_member, read_nameandtype, read_indirect_str, read_method_handle","src/rw.rs"),("StringCp<TAG>","src/helper.rs")],
 observe=["resolved value","raw entries inserted"])

p("C10","Descriptors parse and print as exact inverses",
 "Every field or method descriptor value prints to its specified textual form and parsing that text returns an equal value; the two printing forms agree (up to replacement of unpaired surrogates in the plain-text one). Parsing any other text (bad characters, missing terminator, trailing garbage, over 255 dimensions, misplaced method or void types accepted nowhere else) is an error, never a wrong value, a panic or undefined behaviour.",
 ["inputs"],"every descriptor (any nesting of parameters, any dimension, any class name) and every text",
 "Tests parse a few literals; the grammar is infinite.",
 ["src/ty.rs","src/code/structure.rs"],
 [("parse_type","src/ty.rs"),("write_type, Display for Type","src/ty.rs"),("From<ClassType>","src/code/structure.rs")],
 observe=["parse result","printed text"])

p("C11","Generic signatures parse and print as exact inverses",
 "Every class, method and field signature value with valid identifiers (and arrays of 1 to 255 dimensions over a non-array type) prints to text of the specified grammar, and parsing that text gives back an equal value; every text that is accepted prints back to itself. Truncated text, text with anything after a complete signature, empty argument lists and more than 255 array dimensions are errors, never a panic or a wrong value.",
 ["inputs"],"every signature value with valid identifiers (not empty, none of . ; [ / < > :, and no name beginning with L or T right after an unbounded type parameter) and every text",
 "Tests parse a few literals and never print them back.",
 ["src/signature.rs"],
 [("FromStr impls and helper parsers","src/signature.rs"),("Display impls","src/signature.rs"),("ConstantPoolReadWrite for signatures","src/signature.rs")],
 observe=["parse result","printed text"])

p("C12","Bytecode is decoded into the instruction it denotes",
 "Decoding any instruction encoding of the JVM specification (all opcodes, wide forms and operands, at any code position) yields the symbolic instruction with exactly that meaning and operands, jump targets resolved relative to the instruction's own position. Exactly the instruction's bytes are consumed, switch padding included. Undefined opcodes, undefined operand codes and dangling pool indices are errors.",
 ["inputs","programs"],"every opcode, every operand value, every position",
 "The tests decode what javac emitted in a few sample classes, a fraction of the 200 opcodes.",
 ["src/insn.rs","src/code/convert.rs","src/code.rs"],
 [("derive(ReadWrite) for raw instructions","src/insn.rs"),("TableSwitch::read_from","src/insn.rs"),("convert_direct_instruction","src/code/convert.rs"),("switch padding in Code::read_from","src/code.rs")],
 observe=["decoded instruction"],hook="expose the raw instruction decoder and its conversion")

p("C13","Instructions are encoded into bytecode with the same meaning",
 "Encoding any symbolic non-branching instruction emits bytes that the JVM specification reads as that same instruction: right opcode, wide form exactly when an operand does not fit, operands and pool references exact, constant pushes bit-exact whatever short form is chosen. Redundant conversions emit nothing, and nothing else is silently dropped.",
 ["inputs","programs"],"every instruction with every operand and every pool index",
 "Tests execute a few programs; most opcodes and operand extremes are never written.",
 ["src/code/convert.rs","src/constants/insn.rs"],
 [("write_insn","src/code/convert.rs"),("wide_or_normal!","src/code/convert.rs"),("opcode constants","src/constants/insn.rs")],
 observe=["code bytes"],hook="expose the instruction encoder")

p("C14","Every branch and switch in written code reaches its label",
 "In the code array written for any method body, every jump, subroutine call and switch case transfers control to exactly the position of the label it names and has the same condition, for forward and backward targets at any distance; jumps too far for a 16-bit offset are rewritten into an equivalent wide form. Switch operands are aligned, case keys are sorted, the declared code length equals the bytes emitted, and code longer than 65535 bytes is an error.",
 ["programs","inputs"],"every instruction sequence, label placement and distance (distinct case keys)",
 "Tests have short programs; distance- and alignment-dependent paths never run.",
 ["src/code.rs","src/code/structure.rs"],
 [("jump sizing and layout in Code::write_to","src/code.rs"),("From<JumpCondition> for u8, Neg","src/code/structure.rs")],
 state=[("actual_indices","final start of every chunk","src/code.rs"),("labels","label -> chunk and offset","src/code.rs")],
 observe=["code bytes"])

p("C15","Exception, line and variable tables stay attached to their instructions",
 "Exception ranges and handlers, line numbers, local-variable ranges and code-position annotations always denote the same instructions before writing, in the written class file, and after reading it back, wherever labels stand and however instruction sizes change. A table position that is not an instruction boundary, a reference to a label that does not exist, or a range that ends before it starts, is an error.",
 ["programs","inputs"],"every method body with every placement of labels, ranges and line markers",
 "Tests compare a few instruction lists; table offsets of written code are not checked.",
 ["src/code.rs","src/code/structure.rs","src/annotation/type_annotation.rs"],
 [("Labeler (reader) and label insertion","src/code.rs"),("Labeler (writer), exception table, LocalVariables split","src/code.rs"),("LocalVarTarget","src/annotation/type_annotation.rs")],
 observe=["written tables","read-back instruction list"])

p("C16","Stack-map frames have the specified binary form",
 "Every stack-map frame value is written with the specified tag and operands (short form whenever the offset fits) and reads back equal; every verification type has its specified tag. Reserved tags, chop counts outside 1 to 3 and append lists outside 1 to 3 entries are errors.",
 ["inputs"],"every frame kind, offset, list content; every tag byte",
 "No test covers frames.",
 ["src/code.rs"],
 [("ConstantPoolReadWrite for RawFrame","src/code.rs"),("derive for VerificationType","src/code.rs")],
 observe=["frame bytes","frame read back"])

p("C17","Attributes are framed exactly; unknown ones are kept verbatim",
 "Every attribute is written as its name, the exact byte length of its body, and the body; reading consumes exactly that many bytes whatever is inside. A recognised attribute whose body is longer or shorter than its declared length is an error, and an unrecognised attribute is preserved byte for byte with its name, so reading and writing back changes nothing.",
 ["inputs"],"every attribute kind, content, and declared length",
 "Tests read well-formed classes only.",
 ["coffer_macros/src/derive.rs","src/attr.rs","src/member.rs","src/code/structure.rs"],
 [("derive(AttributeEnum)","coffer_macros/src/derive.rs"),("RawAttribute","src/attr.rs"),("SourceDebugExtension","src/attr.rs")],
 observe=["attribute bytes","reader position"])

p("C18","A class file written and read back is the same class",
 "Writing any class and reading the bytes back yields the same version, access flags, names, interfaces, fields, methods and attributes in the same order (the bootstrap table, of which there is at most one, comes last), and the bytes follow the class-file layout with every count equal to the number of items that follow; a list too long for its count is refused with an error. Input with the wrong magic number or an unsupported version is an error.",
 ["inputs"],"every class value, lists of any length",
 "Tests round-trip a few classes and do not inspect the emitted layout.",
 ["src/clazz.rs","src/member.rs","src/version.rs","src/helper.rs","coffer_macros/src/derive.rs"],
 [("ReadWrite for Class, ClassWrapper","src/clazz.rs"),("derive for Field, Method, InnerClass","src/member.rs, src/attr.rs"),("VecLen helpers","src/helper.rs"),("JavaVersion/MajorVersion","src/version.rs")],
 observe=["class bytes","class read back"])

p("C19","Dynamic constants stay linked to their bootstrap methods",
 "In a written class every dynamic constant or call site refers to the bootstrap-table slot holding its own bootstrap method, including bootstrap arguments that are themselves dynamic, and a bootstrap table is present whenever one is needed. After reading, every dynamic is resolved to the method in the slot it names; a reference to a missing slot or a missing table, or a bootstrap method that needs its own result, is an error.",
 ["inputs","histories"],"every set of dynamics, nesting of bootstrap arguments and order of insertion",
 "Tests have one or two lambdas; nested or absent tables never occur.",
 ["src/clazz.rs","src/cp.rs","src/rw.rs","src/dynamic.rs"],
 [("insert_bsm / insert_dynamic","src/rw.rs, src/cp.rs"),("bootstrap table emission","src/clazz.rs"),("resolve_later / bootstrap_methods","src/cp.rs"),("ConstantPoolReadWrite for BootstrapMethod","src/dynamic.rs")],
 observe=["written bootstrap table","resolved dynamics"])

p("C20","Annotations round-trip with every element value intact",
 "Every annotation (any nesting of element values) and every type-annotation target and path is written in the specified form (element tags, target types, path kinds) and reads back equal. An element value out of the range of its declared kind, or an unknown tag, target or path kind, is an error.",
 ["inputs"],"every annotation value, every target kind and path; every tag byte",
 "No test covers annotations beyond what javac emitted.",
 ["src/annotation/mod.rs","src/annotation/type_annotation.rs"],
 [("ConstantPoolReadWrite for AnnotationValue and element map","src/annotation/mod.rs"),("derives for targets and TypePath","src/annotation/type_annotation.rs")],
 observe=["annotation bytes","annotation read back"])

p("C21","Module descriptions round-trip with each name as its own kind",
 "Every module description (requires, exports, opens, uses, provides, versions, flags, package list, main class) is written in the specified order with module names, package names and class names as pool entries of exactly those kinds, and reads back equal. A name index of the wrong kind is an error.",
 ["inputs"],"every module description and every flag combination",
 "No test covers modules.",
 ["src/module.rs","src/helper.rs","src/attr.rs"],
 [("derives for Module, Require, Export, Open, Provide","src/module.rs"),("StringCp<TAG>, VecLen","src/helper.rs")],
 observe=["attribute bytes","module read back"])

p("C22","Floating-point constants compare, order and hash by exact value bits",
 "Two floating-point constants are equal exactly when they are bit-identical, ordering is a total order consistent with that equality and with numeric order on numbers, and equal constants hash alike. So zero and negative zero, and different NaNs, are never confused, and comparing with a plain number is bit-exact too.",
 ["inputs"],"every pair and triple of 32- and 64-bit patterns",
 "No test covers NaN payloads, signed zeros or transitivity.",
 ["src/total_floats.rs"],
 [("PartialEq/Eq/Ord/Hash for TotalF32, TotalF64","src/total_floats.rs")],
 observe=["comparison results","hash input"])

p("C23","Method handles are accepted exactly when the rules allow",
 "A method handle is judged valid exactly when its kind and target agree: field kinds with field descriptors, and method kinds with method descriptors, the constructor name only and always with the constructor kind and the static-initializer name with none. Kind numbers 1 to 9 map to the specified kinds and no other number is accepted.",
 ["inputs"],"every kind, name and descriptor; every kind number",
 "No test covers the validity rules.",
 ["src/loadable.rs"],
 [("MethodHandle::check","src/loadable.rs"),("TryFrom<u8>, derive(ReadWrite) for MethodHandleKind","src/loadable.rs")],
 observe=["check result","read/write results"])

p("C24","Malformed class files produce errors, never panics",
 "Reading arbitrary bytes as a class file, or as any of its parts, terminates with a value or an error and never panics, overflows, reads past the data it declares or reserves memory out of proportion to the input. Every truncation of a valid class file is an error.",
 ["inputs"],"every byte sequence (nesting depth bounded by the available stack)",
 "Tests only read well-formed classes.",
 ["src/clazz.rs","src/code.rs","src/cp.rs","src/insn.rs","src/ty.rs","src/signature.rs","src/annotation/mod.rs","coffer_macros/src/derive.rs"],
 [("all read_from implementations","src/"),("checked arithmetic and lookups","src/code.rs, src/cp.rs, src/insn.rs")],
 observe=["result of reading"])

p("C25","Reading terminates for any nesting depth without exhausting the stack",
 "Reading input that nests annotations, arrays, signatures or attributes arbitrarily deeply terminates with a value or an error rather than exhausting the call stack.",
 ["inputs"],"every nesting depth",
 "Tests nest at most a few levels.",
 ["src/annotation/mod.rs","src/signature.rs","src/ty.rs"],
 [("recursive descent readers (no depth limit exists)","src/annotation/mod.rs, src/signature.rs, src/ty.rs")],
 observe=["process outcome"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
