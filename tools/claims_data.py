claim("C01", "proof", "Kani contracts on the ReadWrite impls, complete over all values and truncations",
      "every number and flag type: all values, all truncated lengths; discharged by Kani with no bound that matters (fixed-width data). Assumes read_exact/write_all of the reader/writer behave as documented.",
      "pre: none; post of write_to: exactly the big-endian bytes; post of read_from: bit-identical value, exactly the width consumed, error if shorter; flags masked to the JVMS tables.",
      ["std::io::{Read::read_exact,Write::write_all} of the caller's reader/writer behave as documented (the harness supplies its own)"])
claim("C06", "proof", "Kani contracts per entry kind, complete; UTF8 bodies bounded",
      "all operand values, all truncations, all undefined tags proved per kind; the UTF8 kind is a bounded stand-in here (its codec is C02/C03).",
      "post of write_to: tag byte and operands; post of read_from: equal entry, exact consumption, error on undefined tag or truncation.", [ERRTXT, HEAP])
claim("C22", "proof", "Kani contracts on the comparison, ordering and hash impls, complete",
      "all triples of bit patterns, for both widths.", "lemmas over TotalF32/TotalF64: equality is bit identity, total order laws, numeric order, equal values hash alike.", [])
claim("C23", "proof", "Kani contracts on MethodHandle::check and the kind conversions",
      "kind conversion complete; check complete over kinds and descriptor classes for the two special names, all ASCII names up to 8 bytes otherwise (bounded), longer and non-ASCII names by stand-in.",
      "post of check: Ok exactly when JVMS 4.4.8 allows; post of try_from/read_from: kinds 1..=9 and nothing else.", [ERRTXT, HEAP])
NA["C25"] = "stack consumption is not modelled by Kani or Verus, and the recursive readers have no depth limit to state a contract on"
BND = "bounded stand-in: contract on the real code evaluated on generated and enumerated inputs against an independent specification; never counted as proved"
def bounded(id, what, post, assumptions=(), **kw):
    claim(id, kw.pop("level", "exploration"), kw.pop("technique", "contract on the real functions, decided by a bounded stand-in"), what, post, assumptions, **kw)
bounded("C02", "the encoder and the decoder are proved by Verus for every string of any length (units mutf8_encode and mutf8_decode, extracted from the source on every run), the code points of a string in unit wtf8_view, and that decoding takes back what encoding gives, with no zero byte in it, as a lemma over these contracts (unit mutf8_round); storing strings in the pool by stand-in, and all of it again on the compiled code: all code points singly and in pairs of classes.", "post of string_to_modified_utf8: exactly the JVMS 4.4.7 form; post of the decoder on it: the identical string; stored with a two-byte length, over 65535 bytes an error.", verus=["mutf8_encode", "mutf8_decode", "wtf8_view", "mutf8_round"], level="proof", technique="Verus contracts on string_to_modified_utf8, modified_utf8_to_string and Wtf8Str::codepoints with a round-trip lemma, unbounded; Kani and a bounded stand-in on the compiled code")
bounded("C03", "modified_utf8_to_string, Wtf8String::from_bytes and validate_wtf8 are proved by Verus for every byte sequence of any length (units mutf8_decode and validate_wtf8, extracted from the source on every run); one byte again by Kani on the compiled code; all sequences of 2 bytes, 3 bytes and structured longer ones by stand-in.", "post of modified_utf8_to_string: Ok exactly if the bytes stand for a well-formed string, and then exactly the string of the encoded units.", [ERRTXT, HEAP], verus=["mutf8_decode", "validate_wtf8"], level="proof", technique="Verus contracts on modified_utf8_to_string, from_bytes and validate_wtf8, unbounded; Kani and a bounded stand-in on the compiled code")
bounded("C04", "validation, from_bytes, push, push_char, push_wtf8, extend, from_iter, from_wide, truncate and slicing are proved by Verus for strings of any length and content (units validate_wtf8 and wtf8_build, extracted from the source on every run); encoding one code point proved by Kani for all of them; appending, and validating one byte, again by Kani on the compiled code for strings of one code point; conversions and histories of operations by stand-in.", "data-structure invariant of Wtf8String preserved by every building operation; units of the result are the concatenation; bad indices refused.", [ERRTXT, HEAP], verus=["validate_wtf8", "wtf8_build"], level="proof", technique="Verus contracts on the building operations, unbounded; Kani and a bounded stand-in on the compiled code")
bounded("C05", "code points, UTF-16 units, conversion to text, and both lossy conversions are proved by Verus for every well-formed string of any length (unit wtf8_view, extracted from the source on every run; from_wide in unit wtf8_build); the units of one code point proved by Kani for all of them; views of strings of up to 5 bytes and the ASCII operations again by Kani on the compiled code; the rest, and longer strings on the compiled code, by stand-in.", "post of each view and conversion: agrees with the code points of the content.", [ERRTXT, HEAP], verus=["wtf8_view", "wtf8_build"], level="proof", technique="Verus contracts on the views and conversions, unbounded; Kani and a bounded stand-in on the compiled code")
bounded("C07", "insert_raw, insert_bsm and VecCp::write_to are proved by Verus for every history of insertions (unit pool, extracted on every run): the invariant of the pool, the index handed out, nothing added for an equal entry, and, as a lemma, that what is read of a written pool has every entry at its index; what is assumed there (one entry, hashing) is also run by stand-in.", "post of insert_raw: index of the entry in the written pool, same index for an equal entry, earlier ones unchanged.", verus=["pool"], level="proof", technique="Verus contracts on the writer's functions with a data-structure invariant, unbounded; bounded stand-in for the whole")
bounded("C08", "MapCp::read_from and read_raw are proved by Verus for every input (unit pool): each entry at its slot, exact consumption, errors only if an entry cannot be read, and, as a lemma, reading back what the writer wrote; what is assumed there (one entry, hashing) is also run by stand-in.", "post of MapCp::read_from: each entry at its slot, exact consumption; post of read_raw: that entry or nothing.", verus=["pool"], level="proof", technique="Verus contracts on the reader's functions, unbounded; bounded stand-in for the whole")
bounded("C09", "every insert_* and read_* of ConstantPoolWriter and ConstantPoolReader is proved by Verus for every constant and every pool (unit constants, extracted on every run): the index that an insertion gives resolves to the equal value, the entries are of the kinds of JVMS 4.4, and what is resolved as another kind is nothing. Assumed there: insert_raw and read_raw (C07, C08) and descriptors (C10). The compiled whole, through the pools of the crate, by stand-in.", "post of insert_* then read_*: the equal value, entries of the specified kinds; wrong kind gives nothing.", verus=["constants"], level="proof", technique="Verus contracts on all methods of ConstantPoolReader and ConstantPoolWriter over a view of the pool, unbounded; bounded stand-in for the whole")
bounded("C10", "parse_type, write_type, the conversion to a string and Display are proved by Verus for every descriptor and every text (unit descriptor, extracted on every run): what is accepted is a valid descriptor that prints to the text, what is rejected is the text of no valid descriptor, the two printed forms agree up to lone surrogates. Strings are by their code points there (C04, C05); the compiled whole is run by stand-in.", "post of Display and From: the specified text; post of parse_type: the value that prints to the text, else an error.", verus=["descriptor"], level="proof", technique="Verus contracts on the parser and the printers with lemmas that they are inverse, unbounded; bounded stand-in for the whole")
bounded("C11", "signatures by stand-in.", "post of Display: the specified text; post of from_str: the value that prints to the text, else an error.")
bounded("C12", "the raw instruction reader with its wide and switch forms, and the conversion of each raw instruction to the model, are proved by Verus for every input (units insn_read and insn_conv, extracted on every run, against the opcode table of JVMS 6.5 written out as a specification): each opcode byte with its operands is exactly the instruction the table gives, undefined ones are errors, class operands and pushed constants are those of the pool. The loop of Code::read_from around them (positions, alignment of switches) and its labels are run by stand-in: every opcode, wide form and operand class, at every alignment.", "post of reading code: the instruction the JVMS decodes at each position; errors for undefined ones.", verus=["insn_read", "insn_conv"], level="proof", technique="Verus contracts on the raw instruction reader and on convert_direct_instruction, unbounded; bounded stand-in for the loop of Code::read_from")
bounded("C13", "write_insn, which writes every instruction but the branching ones (whose bytes C14 covers), is proved by Verus for every instruction and every state of the pool (unit insn_write, extracted on every run): what it appends is read back, by the same opcode table against which the reader is proved (C12), as that instruction, labels and line numbers are noted at the place where they stand, branches are handed on in order, and an error is reported only for what no class file can hold. The conversions that the format cannot express (redundant ones) write nothing. Assumed there: the contracts of the constant pool (C07 to C09) and of descriptors (C10). The whole again by stand-in: every instruction kind with operands at all borders.", "post of writing code: bytes the JVMS decodes as that instruction.", verus=["insn_write"], level="proof", technique="Verus contract on write_insn, new_array_class, primitive_code and the class conversions, unbounded; bounded stand-in for the whole")
bounded("C14", "layout, which decides where every branch is and how wide, is proved by Verus for every method (unit layout, extracted on every run): sizes, padding, and that what is short reaches; what is then written by stand-in: branches at all distances around the 16-bit limits, by stand-in.", "post of writing code: every branch reaches its label with its condition, aligned and sorted switches, exact code length.", verus=["layout"], level="proof", technique="Verus contract on layout, unbounded; bounded stand-in for the bytes written")
bounded("C15", "code with tables by stand-in.", "post of writing and reading code: every table position denotes the same instruction; positions within instructions and missing labels are errors.")
bounded("C16", "reading and writing of frames and of verification types are proved by Verus for every input and every value (unit frames, extracted on every run, the derived ones from the expanded source): what is read is exactly what JVMS 4.7.4 gives for the bytes, reserved tags are errors, what is written has the specified tag, the short one if the offset fits, and is read back equal; lists of other lengths than the form allows are errors. Assumed there: the contracts of the constant pool (C07 to C09) and of labels (C15). The compiled whole by stand-in.", "post of write_to: specified tag and operands; post of read_from: the equal value, reserved tags are errors.", verus=["frames"], level="proof", technique="Verus contracts on RawFrame and VerificationType read_from and write_to, unbounded; bounded stand-in for the whole")
bounded("C17", "reading and writing of all four attribute enums (ClassAttribute, FieldAttribute, MethodAttribute, CodeAttr), as derive(AttributeEnum) writes them, of raw attributes, SourceDebugExtension, read_bytes and write_size are proved by Verus for every attribute and every input (unit attributes, extracted from the expanded source on every run): what is read is the name, the length and exactly that many bytes, each recognised name is its own kind and its body is read to the end or an error, any other name is kept with its bytes, and what is written is read back equal; bodies of 4 GiB are refused. Assumed there: the contracts of what stands in the bodies (C11 to C16, C19 to C21) and of the constant pool (C07 to C09). The compiled whole by stand-in: all kinds, with bodies too short and too long.", "post of write_to: name, exact length, body; post of read_from: exact consumption, error on a wrong length, unknown ones verbatim.", verus=["attributes"], level="proof", technique="Verus contracts on the derived read_from and write_to of the attribute enums and the functions they call, unbounded; bounded stand-in for the whole")
bounded("C18", "classes by stand-in.", "post of Class::write_to: the JVMS 4.1 layout of exactly this class; post of read_from: that class.")
bounded("C19", "classes with dynamics and tables by stand-in.", "post of writing: every dynamic names the slot of its own bootstrap method; post of reading: resolved, or an error.")
bounded("C20", "reading and writing of element values, annotations, element maps, parameter annotations, type annotations of all four kinds, their targets and paths are proved by Verus for every value and every input of any nesting (unit annotations, extracted on every run, the derived ones from the expanded source): what is read is exactly what JVMS 4.7.16 and 4.7.20 give for the bytes, values out of range, unknown tags, targets and path kinds are errors, and what is written is read back equal. Assumed there: the contracts of the constant pool (C07 to C09), of descriptors (C10) and of labels (C15), and HashMap. The compiled whole by stand-in: all tags, targets and path kinds enumerated.", "post of write_to: the specified bytes; post of read_from: the equal value or an error.", verus=["annotations"], level="proof", technique="Verus contracts on the read_from and write_to of annotations, element values and type annotations, unbounded in size and nesting; bounded stand-in for the whole")
bounded("C21", "reading and writing of Module, Require, Export, Open and Provide, of flag words, of names by their kind (StringCp) and of lists (VecLen) are proved by Verus for every value and every input (unit modules, extracted on every run, the derived ones from the expanded source): the order, the kinds of entries, errors for a wrong kind, and that what is written is read back equal. Assumed there: the contracts of the constant pool (C07 to C09), numbers (C01) and bitflags. Package lists and main classes are attributes and, like the compiled whole, run by stand-in; all flag words enumerated.", "post of write_to: specified order and kinds; post of read_from: the equal value, wrong kinds are errors.", verus=["modules"], level="proof", technique="Verus contracts on the read_from and write_to of module descriptions and of the helpers they use, unbounded; bounded stand-in for the whole")
bounded("C24", "truncated, mutated and random files and parts by stand-in.", "every reader ends with a value or an error; truncations are errors; requested memory is bounded by the input.", native_s=80)
