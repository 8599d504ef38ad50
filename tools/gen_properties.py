#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or ["jbcrs::basic::parse"], hook_needed=hook)))

PARSER = ["src/basic/parser/mod.rs", "src/basic/parser/code.rs", "src/basic/parser/method.rs",
          "src/basic/parser/class.rs", "src/basic/parser/annotation.rs", "src/basic/parser/decode.rs"]
NOPARSE = "No test calls the class-file parser at all; the unit tests only exercise a handful of primitive reads, one pool and a few descriptor strings."

p("C01", "Parsing arbitrary bytes never panics",
  "For every byte slice, parsing a class file returns either a class with its pool or an error. It never panics: no arithmetic overflow, out-of-range index or slice, failed unwrap or capacity overflow can happen, in builds with and without overflow checks alike.",
  ["inputs"], "all byte slices given to the parser, of any length and content",
  NOPARSE + " Panics need hostile counts and ranges that no sample contains.",
  PARSER + ["src/basic/constpool.rs"],
  [("limit check before every slice", "src/basic/parser/decode.rs Decoder::check"), ("tableswitch range handling", "src/basic/parser/code.rs parse_instruction"), ("pool bounds check", "src/basic/constpool.rs Pool::get")])
p("C02", "Parsing always makes progress and ends",
  "Every round of every repetition performed while parsing consumes at least one byte of input or walks over data of a length already read, so parsing always ends and the number of rounds is bounded by the size of the input. No input makes the parser loop for ever or spin on a declared count without reading.",
  ["inputs"], "all byte slices; all repetitions of the parser",
  "A non-terminating or count-driven loop shows only for inputs nobody wrote down; no test runs the parser's loops.",
  PARSER, [("element loops", "src/basic/parser/*.rs"), ("instruction loop", "src/basic/parser/code.rs parse_code"), ("string loop", "src/basic/parser/decode.rs Decoder::read_str")])
p("C03", "Nested input cannot exhaust the stack",
  "The depth of recursion while parsing is bounded by a fixed constant that no input can raise: attributes nested inside code attributes, and annotation values nested inside arrays or annotations, are rejected with an error beyond a fixed depth instead of overflowing the stack.",
  ["inputs"], "all inputs, in particular arbitrarily deep nestings of annotations, arrays and code attributes",
  "Needs an input nested tens of thousands of levels deep; no test nests anything.",
  ["src/basic/parser/mod.rs", "src/basic/parser/code.rs", "src/basic/parser/annotation.rs"],
  [("nesting of element values and annotations", "src/basic/parser/annotation.rs"), ("attributes inside Code", "src/basic/parser/code.rs parse_code / mod.rs parse_attributes")])
p("C04", "Space is reserved only for what the input can hold",
  "While parsing, space set aside in advance for a list is never more than the 8- or 16-bit count the file declares for that very list, or the number of bytes left in the enclosing part of the input. No crafted 32-bit count, range or count of another list makes the parser reserve memory out of proportion to the input.",
  ["inputs"], "all inputs; all reservations (capacities) requested by the parser",
  "Over-reservation is invisible to assertions on results and needs hostile counts to matter.",
  PARSER, [("capacities from declared counts", "src/basic/parser/*.rs Vec::with_capacity"), ("string capacity", "src/basic/parser/decode.rs Decoder::read_str")])
p("C05", "Attributes and code stay within their declared length",
  "The contents of an attribute, and of a code array, are decoded only from the bytes inside the length declared for them, and that length must fit inside whatever encloses it. Contents that need more than the declared length, or leave a part of it unread, make parsing fail with the limit-exceeded error; nothing is borrowed from, or skipped into, what follows.",
  ["inputs"], "all inputs; every attribute at every nesting level, every code array",
  NOPARSE, PARSER, [("Decoder::limit / Decoder::remove_limit / Decoder::check", "src/basic/parser/decode.rs"), ("attribute loop", "src/basic/parser/mod.rs parse_attributes"), ("code block", "src/basic/parser/code.rs parse_code")])
p("C06", "Truncation and inner errors fail the whole parse",
  "If the input, or the enclosing attribute, ends before a byte that the format requires, parsing fails with the limit-exceeded error. An error found while decoding any nested part is returned unchanged as the result of the whole parse: it is never dropped, replaced by a default value, or turned into a shorter list.",
  ["inputs", "fault_sequences"], "all truncation points of all inputs; every fallible read",
  "There is no negative test of the parser; each of some two hundred fallible reads would need its own truncated file.",
  PARSER, [("error propagation with ?", "src/basic/parser/*.rs"), ("Decoder::check", "src/basic/parser/decode.rs")])
p("C07", "Constants keep the index they have in the file",
  "After a successful parse, looking up index i in the returned pool gives the constant that the file stores at index i: numbering starts at 1, a long or double takes two indices of which the second is unusable, and repeated equal constants each keep their own index. Exactly as many constants are read as are needed to fill the declared count.",
  ["inputs"], "all constant pools: any mix of kinds, duplicates, long and double entries, up to the maximum size",
  NOPARSE + " The only pool test pushes five items by hand.",
  ["src/basic/parser/mod.rs", "src/basic/constpool.rs"], [("constant pool loop", "src/basic/parser/mod.rs read_constant_pool"), ("slot allocation", "src/basic/constpool.rs Pool")],
  observe=["jbcrs::basic::parse", "Pool::get"])
p("C08", "Every constant tag decodes to its kind and operands",
  "Each constant pool entry is decoded according to its tag as the JVM specification (SE 9, table 4.4) lays it out: kind, operand widths, operand order and the nine method handle kinds. Any other tag or handle kind is rejected with the invalid-constant error carrying the index of that entry.",
  ["inputs"], "all 256 tags, all 256 reference kinds, all operand values",
  NOPARSE, ["src/basic/parser/mod.rs"], [("tag match", "src/basic/parser/mod.rs read_constant_pool")])
p("C09", "Modified UTF-8 decodes exactly",
  "String constants and source debug extensions are decoded as modified UTF-8 over exactly their declared number of bytes: one-, two- and three-byte sequences and six-byte surrogate pairs yield exactly the character they encode, in order. A zero byte or a byte outside the allowed lead ranges, a continuation byte not of the form 10xxxxxx, an unpaired surrogate, or a sequence cut off by the end of the string is rejected with the invalid-UTF-8 error.",
  ["inputs"], "all byte sequences of all lengths",
  "The only string test decodes \"Hello, world!\".",
  ["src/basic/parser/decode.rs"], [("Decoder::read_str", "src/basic/parser/decode.rs")])
p("C10", "The class skeleton is read in file order",
  "A class file must start with CA FE BA BE, otherwise it is rejected as not a class. Minor version, major version, pool, access flags, class name, super name, interfaces, fields, methods and class attributes are then read in that order with the widths of the specification, and each value ends up in the part of the result named after it, for every field and method alike and in file order.",
  ["inputs"], "all inputs; any number of interfaces, fields, methods",
  NOPARSE, ["src/basic/parser/mod.rs"], [("parse / parse_fields / parse_methods", "src/basic/parser/mod.rs")])
p("C11", "Attributes are recognised by their exact name",
  "Each attribute is identified by the string its name index refers to: every attribute of the specification that the tree has a variant for is decoded into that variant, and every other name yields the unknown variant with that same name index and exactly the declared bytes. A name index that does not refer to a string fails the parse with the invalid-constant error, and attributes are returned in file order.",
  ["inputs"], "all attribute names and name indices, at class, field, method and code level",
  NOPARSE, ["src/basic/parser/mod.rs", "src/basic/constpool.rs"], [("name match", "src/basic/parser/mod.rs parse_attributes")])
p("C12", "Attribute tables follow the specified layout",
  "The bodies of the attributes other than code, stack map and annotation attributes (constant value, exceptions, inner classes, enclosing method, line numbers, local variables and their types, method parameters, bootstrap methods, module and its main class and packages, signature, source file, deprecated, synthetic) are decoded with the counts, widths and field order of the specification, each value ending up in the field named after it.",
  ["inputs"], "all contents of these attributes, all counts",
  NOPARSE, ["src/basic/parser/class.rs", "src/basic/parser/method.rs", "src/basic/parser/mod.rs"], [("parse_* functions of class.rs and method.rs", "src/basic/parser")])
p("C13", "Annotations decode as specified",
  "Annotations, parameter annotations, type annotations and annotation defaults are decoded as the specification (4.7.16 - 4.7.22) lays them out: all thirteen element value tags, all target types with their target info, type paths, counts and nesting. Any other element tag, target type or path kind is rejected with the error for that table.",
  ["inputs"], "all tags, target types, path kinds, counts and nestings",
  NOPARSE, ["src/basic/parser/annotation.rs", "src/basic/parser/mod.rs"], [("tag matches", "src/basic/parser/annotation.rs")])
p("C14", "Stack map frames decode as specified",
  "Every frame of a stack map table is decoded according to its frame type (4.7.4): kind, offset delta, number of chopped or appended locals, locals and stack, with every verification type in file order. Frame types 128 to 246 and verification tags above 8 are rejected with their own errors, which carry the offending value.",
  ["inputs"], "all 256 frame types, all 256 verification tags, all counts",
  NOPARSE, ["src/basic/parser/method.rs"], [("parse_stack_map_table / parse_verification_type", "src/basic/parser/method.rs")])
p("C15", "Every opcode decodes to its instruction",
  "Each of the 256 opcode values, including the wide forms and the eight array types, is decoded to the instruction the specification assigns to it, with operands of the specified width, signedness and order, and the specified padding skipped. Every undefined opcode, wide form or array type is rejected with the invalid-instruction error that carries the opcode and the offset of the instruction.",
  ["inputs"], "all 256 opcodes, 256 wide opcodes, 256 array types, all operands, all four alignments of the switch instructions, all switch ranges",
  "No test decodes a single instruction; the table has more than two hundred rows.",
  ["src/basic/parser/code.rs"], [("parse_instruction", "src/basic/parser/code.rs")])
p("C16", "Instructions tile the code array at their own offsets",
  "A code attribute is decoded as max stack, max locals, code, exception table and attributes, in that order, with each exception row's four values in their own fields. Each instruction is stored under the offset of its opcode within the code array; the first is at 0, each next one starts where the previous one ended, and decoding stops exactly when the declared code length is reached.",
  ["inputs"], "all code arrays of all lengths",
  NOPARSE, ["src/basic/parser/code.rs"], [("parse_code loop", "src/basic/parser/code.rs")])
p("C17", "Access flags are lossless and match the specification",
  "Every access flag constant has the single-bit value the specification gives it, and every 16-bit flag word read from a class, field, method, inner class, method parameter or module entry is preserved bit for bit.",
  ["inputs"], "all 65536 flag words at every place where flags occur; all named flags",
  "No test looks at flags.", ["src/basic/tree.rs", "src/basic/parser/mod.rs", "src/basic/parser/class.rs", "src/basic/parser/method.rs"], [("AccessFlags", "src/basic/tree.rs"), ("from_bits_truncate", "src/basic/parser")])
p("C18", "Numbers are decoded big-endian and bit-exact",
  "Every multi-byte number in a class file is decoded big-endian; signed numbers are two's complement of their own width, and floats and doubles keep their exact bit pattern, NaN payloads included.",
  ["inputs"], "all byte values of all numeric fields",
  "The unit tests sample a few values of the integer reads and never the float reads.", ["src/basic/parser/decode.rs"], [("Decoder::read_*", "src/basic/parser/decode.rs")])
p("C19", "Pushing to a pool yields a stable, retrievable index",
  "Pushing an item on a pool returns an index under which that pool gives back an equal item from then on; pushing an equal item again returns the same index and leaves the pool unchanged, and pushing a new item never changes what any existing index refers to. This holds for pools made by new, with_capacity or default and for pools returned by the parser.",
  ["histories", "inputs"], "all sequences of pushes of all items",
  "The one pool test pushes five items.", ["src/basic/constpool.rs"], [("Pool::push", "src/basic/constpool.rs")], observe=["Pool::push", "Pool::get", "Pool::len"],
  state=[dict(name="length / by_index / by_entry", meaning="encoded length = slots + 1; index -> item; item -> first index", where="src/basic/constpool.rs Pool")])
p("C20", "A pool never outgrows its 16-bit encoding",
  "A new pool has encoded length 1 and is empty; each single-slot item adds 1 to the length and each long or double adds 2. When a new item would push the length above 65535 the push is refused with the pool-too-large error and the pool stays unchanged; the length never wraps around.",
  ["histories", "inputs"], "all sequences of pushes, in particular at 65533, 65534 and 65535",
  "Needs some 65534 pushes and a long at the end; the test pushes five items.", ["src/basic/constpool.rs"], [("Pool::push capacity check", "src/basic/constpool.rs")], observe=["Pool::push", "Pool::len", "Pool::is_empty"])
p("C21", "Iterating a pool agrees with looking it up",
  "Iterating over a pool yields every item exactly once, in increasing order of index, each paired with the index under which a lookup returns it; the second slots of longs and doubles are not yielded. Iteration never panics, not even for a full pool.",
  ["histories", "inputs"], "all pools, full ones included",
  "The iterator's assertions in the test are commented out.", ["src/basic/constpool.rs"], [("PoolIter::next", "src/basic/constpool.rs")], observe=["Pool::iter"])
p("C22", "Constant equality is exact and agrees with hashing",
  "Two constants are equal exactly when they are of the same kind and all their operands are equal, floats and doubles being compared by bit pattern. Equal constants always have equal hashes, so equality is reflexive even for NaN, and +0 and -0 stay distinct.",
  ["inputs"], "all pairs of constants",
  "The tests compare four pairs and never hash directly.", ["src/basic/constpool.rs"], [("impl Hash for Item / impl PartialEq for Item", "src/basic/constpool.rs")], observe=["Item: PartialEq, Hash"])
p("C23", "Typed pool lookups accept only what they promise",
  "Looking up index 0, an index not below the pool's length, or the second slot of a long or double gives the invalid-constant error carrying that index, never a panic. String and class-name lookups give the string itself for an entry of the right kind and an invalid-constant error for any other kind, and the optional class-name lookup gives none exactly for a class entry whose name index is 0.",
  ["inputs", "histories"], "all indices into all pools",
  "The test looks up four valid indices and no typed accessor.", ["src/basic/constpool.rs"], [("Pool::get / get_utf8 / get_class_name / get_class_name_opt", "src/basic/constpool.rs")], observe=["Pool::get", "Pool::get_utf8", "Pool::get_class_name", "Pool::get_class_name_opt"])
p("C24", "Nothing can modify or remove a pool entry",
  "Through the public interface a pool only ever grows: there is no way to replace, mutate or remove an entry or to obtain mutable access to one, and reading operations change nothing.",
  ["programs", "histories"], "all programs that use the public interface of the pool",
  "Absence of a capability quantifies over all programs; a test can only use what exists.", ["src/basic/constpool.rs"], [("private fields, shared references only", "src/basic/constpool.rs Pool")], observe=["public interface of Pool and PoolIter"])
p("C25", "Exactly the valid field descriptors are accepted",
  "A string parses as a type descriptor exactly when it is up to 255 '[' followed by one of the letters Z B S I J F D C, or by 'L', a non-empty name without ';' and ';', with nothing after it. The result has that number of dimensions and that type with that name; everything else is rejected with the invalid-descriptor error that carries the string.",
  ["inputs"], "all strings", "The tests try some fifteen strings.", ["src/types.rs"], [("TypeDescriptor::from_str", "src/types.rs")], observe=["TypeDescriptor::from_str"])
p("C26", "Exactly the valid method descriptors are accepted",
  "A string parses as a method descriptor exactly when it is '(', at most 255 type descriptors, ')' and then 'V' or one type descriptor, with nothing after it; each type descriptor has the form and limit of a field descriptor. The result lists the parameters in order and has no return type exactly for 'V'; everything else is rejected with the invalid-descriptor error that carries the string.",
  ["inputs"], "all strings", "The tests try some twenty-five strings.", ["src/types.rs"], [("MethodDescriptor::from_str", "src/types.rs")], observe=["MethodDescriptor::from_str"])
p("C27", "Descriptors print back to the text they came from",
  "Printing a type descriptor writes one '[' per dimension, then the letter of its primitive type or 'L', the name and ';'; printing a method descriptor writes '(', its parameters in order, ')' and its return type or 'V'. Letters for printing and for parsing are the same one-to-one table, so parsing a descriptor and printing it gives back the same text.",
  ["inputs"], "all descriptors", "The doc tests print a handful of descriptors.", ["src/types.rs"], [("Display for TypeDescriptor / MethodDescriptor", "src/types.rs")], observe=["TypeDescriptor: Display", "MethodDescriptor: Display"])
p("C28", "Descriptor handling never panics or hangs",
  "For every string, parsing it as a type or method descriptor ends with a value or an error, and printing any descriptor ends without panic; no count, position or length computation overflows.",
  ["inputs"], "all strings, including empty, non-ASCII and very long ones", "The tests try some forty short ASCII strings.", ["src/types.rs"], [("from_str / fmt", "src/types.rs")], observe=["FromStr and Display of TypeDescriptor and MethodDescriptor"])
p("C29", "The library is a pure function of its input",
  "Parsing a class, parsing or printing a descriptor, and all pool operations depend only on their arguments: they do no file, network, process, environment, clock, thread or console access, keep no global or hidden mutable state, and contain no unsafe code.",
  ["inputs", "histories", "schedules"], "all calls of the public interface", "Absence of an effect cannot be observed by assertions on results.", ["src/lib.rs"] + PARSER + ["src/basic/constpool.rs", "src/types.rs", "src/basic/tree.rs", "src/result.rs"], [("no effectful callee anywhere", "whole crate")], observe=["whole public interface"])
p("C30", "A class that is parsed, re-serialised and parsed again is unchanged",
  "Writing a parsed class back to bytes and parsing these bytes gives an equal class and pool.",
  ["inputs"], "all class files", "There is no writer at all yet.", ["README.md", "Cargo.toml"], [("none: the crate description promises writing, no writer exists", "Cargo.toml description")], observe=["none"])
p("C31", "Pool lookups by value take expected constant time",
  "Pushing an item that is already in the pool finds its index without scanning the pool, in expected constant time, for any contents.",
  ["inputs", "histories"], "all pools", "Timing is not asserted by any test.", ["src/basic/constpool.rs"], [("HashMap by_entry", "src/basic/constpool.rs")], observe=["Pool::push"])
p("C32", "Descriptors are equal exactly when they denote the same type",
  "Two descriptors, types, flag sets or method handle kinds are equal exactly when they have the same form and every part is equal: dimensions, primitive type, every character of a class name, each parameter in its place and the return type. Comparing them never panics.",
  ["inputs"], "all pairs of descriptors",
  "The tests compare a handful of descriptors with the one they expect and never see a pair that has to differ.", ["src/types.rs", "src/basic/tree.rs", "src/basic/constpool.rs"], [("PartialEq of Type, TypeDescriptor, MethodDescriptor, AccessFlags, ReferenceKind", "src/types.rs")], observe=["Type: PartialEq", "TypeDescriptor: PartialEq", "MethodDescriptor: PartialEq", "AccessFlags: PartialEq", "ReferenceKind: PartialEq"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
