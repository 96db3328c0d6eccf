#!/usr/bin/env python3
# Regenerates properties.jsonl (run by hand when the list changes; no check uses it).
import json,os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
GEN=["generator/gen/genc/genc.go","generator/gen/gencpp/gencpp.go","generator/gen/gencs/gencs.go","generator/gen/gengo/gengo.go","generator/gen/genjava/genjava.go","generator/gen/genjs/genjs.go","generator/gen/genpy/genpy.go","generator/gen/loop_unroll.go"]
import glob
def rel(pats):
    out=[]
    for x in pats:
        m=sorted(glob.glob('/repo/'+x))
        out+= [os.path.relpath(y,'/repo') for y in m] or [x]
    return sorted(set(out))
GENF=rel(["generator/gen/*.go","generator/target/*/*.go","generator/*.go"])
GENF=[f for f in GENF if not f.endswith('_test.go')]
DEF=[f for f in rel(["definition/*.go"]) if not f.endswith('_test.go')]
COMP=[f for f in rel(["compiler/*.go"]) if not f.endswith('_test.go')]
FIO=[f for f in rel(["fileio/*.go"]) if not f.endswith('_test.go')]
UTIL=[f for f in rel(["util/*.go"]) if not f.endswith('_test.go')]
p("C01","Encoding matches the documented wire format in every target",
 "For every valid schema and every in-range assignment of its fields, the code generated for C, C++, C#, CommonJS, ES modules, Go, Java, Kotlin and Python encodes exactly the documented bytes: fields packed in declaration order LSB-first at their declared bit widths, little-endian unless order=\"big\", arrays element by element, strings as UTF-8 plus NUL, bytes as LEB128 length plus data, void bits zero, enums and constants as integers of their width. In particular all targets produce identical bytes.",
 ["programs","inputs"],"all valid schemas (widths, alignments, byte orders, arrays, nesting, dynamic fields) x all field values x 9 targets",
 "The end-to-end tests fix one schema with a handful of aligned layouts and a few values; layouts such as a 13-bit big-endian array starting at bit 3 are never generated.",
 GENF+DEF,[("per-target field encoders","generator/target/*"),("bit chunking of fields","generator/gen")])
p("C02","Decoding is the inverse of encoding in every target",
 "For every valid schema and in-range field values, decoding the bytes a target just encoded succeeds, returns exactly the number of bytes encoded, and yields an object whose every field equals the original, with or without trailing data and at any start position in the buffer.",
 ["programs","inputs"],"all valid schemas x values x targets x start offsets x trailing bytes",
 "Tests round-trip a few fixed objects at start 0; sign extension, partial bytes and nested dynamic offsets vary with layout, value and start position.",
 GENF,[("per-target field decoders","generator/target/*")])
p("C03","All targets decode the same bytes to the same field values",
 "For every valid schema and every well-formed message of it, whatever bits its fields hold, every target decodes each field to the value the wire format defines (narrow signed integers sign-extended, unsigned zero-extended, big-endian reassembled, narrow floats zero-filled), so objects decoded by different targets agree.",
 ["programs","inputs"],"all valid schemas x all well-formed messages x 9 targets",
 "Tests decode only what the same target encoded from a few values; no message with independently random bits is ever decoded, and no cross-target comparison is over random layouts.",
 GENF,[("field decoders and sign extension","generator/target/*"),("runtime bit readers for unrolled loops","generator/target/*")])
p("C04","Size queries report the exact encoded size",
 "For every message, encode_size equals the number of bytes encode writes and returns, and decode_size on a buffer that begins with the complete message returns that same positive number regardless of trailing data; the static size is the fixed part of the layout and the dynamic flag is true exactly when the struct has (nested) string or bytes fields.",
 ["programs","inputs"],"all valid schemas x values x targets",
 "Depends on every combination of dynamic fields, nesting, arrays and value lengths (e.g. LEB128 length boundaries, multi-byte UTF-8); tests sample one dynamic struct.",
 GENF+DEF,[("encode_size/decode_size generators","generator/target/*")])
p("C05","Truncated messages are recognised and never over-read",
 "For every message and every proper prefix of it, decode_size returns a negative number whose magnitude is more than the bytes available and at most the full message size, so a reader that keeps fetching the requested amount always terminates with the complete message. It never reads past the data it was given, and a decode that takes a sized buffer (C#, JavaScript, Go, Java, Kotlin, Python) reports failure on the prefix instead of raising or succeeding.",
 ["programs","inputs","histories"],"all valid schemas x messages x every truncation point x fetch histories",
 "Tests try at most a few truncation points of one struct; the requirement is per byte position of every dynamic layout, and over-reads are invisible without a sanitizer.",
 GENF,[("decode_size generators and the bounds check at the head of decode","generator/target/*")])
p("C06","Code-generation options never change codec behaviour",
 "Options -unroll, -decnum, -memcpy, -signext, -minimal, -single, -compat, -inner and -relpath alter only the form of the generated code: for every schema, value and message, encoding, decoding, size queries and accessors give the same results under every accepted combination of options as under the defaults.",
 ["programs","inputs","configurations"],"all valid schemas x messages x option combinations x targets",
 "Tests run each option in isolation on the fixed schema; combinations and thresholds interact with layout (array length vs. unroll limit, sign extension widths, memcpy alignment).",
 GENF+["main.go"],[("option handling","generator/gen"),("loop/unrolled array code paths","generator/target/*")])
p("C07","Custom accessors compute the declared expression",
 "For every custom getter and setter, the value observed through the getter, or stored by the setter, is the value of the expression written in the schema under C operator precedence and the declared types, identically in every target (for expressions whose operands are cast to one type and that stay in range, where the targets' own arithmetic does not differ); the other fields are not affected.",
 ["programs","inputs"],"all type-correct accessor expressions over integer, float and bool fields x field values x targets",
 "Tests use two arithmetic accessors; operator precedence, parenthesisation, shifts, casts and ternaries are printed differently per target and only random expression trees exercise the combinations.",
 GENF+["definition/expr.go"] if os.path.exists('/repo/definition/expr.go') else GENF+DEF,[("expression printing per target","generator/target/*"),("expression parsing","compiler")])
p("C08","Constant fields are always written and always enforced",
 "Every constant field, whatever its type, width, sign, byte order, position or source of its value (literal or enum value), is written into each encoded message, and decoding a message in which the bits of any constant field differ from the declared constant fails, while a message with all constants correct decodes.",
 ["programs","inputs"],"all constant declarations x positions x corrupted messages x targets",
 "Tests corrupt one byte-aligned constant per target; sign, width, bit offset, endianness and nested/array containers vary per schema.",
 GENF+COMP,[("constant field encoders and the decode comparison","generator/target/*"),("constant parsing","compiler")])
p("C09","Fields are isolated from one another",
 "Assigning any value of its host type to a field, including one too wide for the declared bit width, changes no bit of the encoded message outside that field's own bits, and stores the low bits of the value; likewise changing a field's bits in a message changes only that field when decoded, and padding bits never influence decoding.",
 ["programs","inputs"],"all valid schemas x all host values including out-of-range ones x targets",
 "Tests only assign in-range values and compare whole objects; spill-over into a neighbour needs an over-wide value next to a bit-packed field.",
 GENF,[("masking in field encoders/decoders","generator/target/*")])
p("C10","Encoding and decoding touch only what they own",
 "Encoding at any position of a caller's buffer writes only the bytes of the message, produces the same bytes whatever the buffer held before (padding bits inside a byte shared with a field included), and leaves the object unchanged; decoding leaves the source buffer unchanged and, into an object that was used before, gives exactly what decoding into a fresh object gives.",
 ["programs","inputs","histories"],"all valid schemas x buffer contents x positions x sequences of encode/decode on one object and buffer",
 "Tests encode fresh objects into zeroed buffers; stale state needs re-use of dirty buffers and objects.",
 GENF,[("first write of a byte assigns, later writes OR","generator/target/*")])
p("C11","Decoded objects own their data when memory copy is on",
 "With -memcpy (and in targets that always copy), strings and byte fields of a decoded object, at any nesting depth and in arrays, are unaffected by later changes to the source buffer.",
 ["programs","inputs","histories","configurations"],"all schemas with string/bytes fields x messages x later buffer contents",
 "A unit test looks at one flat field; aliasing shows only when the source buffer is overwritten after decoding, for each container shape.",
 GENF,[("-memcpy handling of strings and bytes","generator/target/*")])
p("C12","Embedding a struct is equivalent to writing its fields inline",
 "A struct that embeds another (by name or by inline definition, to any depth) has the same promoted fields and the same encoding, decoding, sizes and accessors as the struct in which the embedded fields are written out in place.",
 ["programs","inputs"],"all valid schemas with embedded structs x values x targets",
 "It is a relation between two programs; tests contain one embedding and no inlined counterpart.",
 DEF+COMP+GENF,[("promotion of embedded fields","definition"),("embedded struct handling","compiler")])
p("C13","Enum values are the declared numbers everywhere",
 "Enum members without a value continue from the previous member (starting at 0), explicit values may be literals in any notation or members of earlier enums, and in every target each member's name denotes exactly that number, encodes as it and is what decoding that number yields.",
 ["programs","inputs"],"all valid enum declarations x members x widths x targets",
 "Tests use a small enum with ascending values; gaps, aliases, hex/octal, references to other enums and odd widths are not sampled.",
 COMP+GENF,[("enum value assignment","compiler/proto_visitor.go"),("enum generators","generator/target/*")])
p("C14","Exactly the valid schemas compile",
 "The compiler accepts every schema that satisfies the documented rules, and for every schema that violates one (duplicate or unknown names, wrong declared size, misaligned dynamic or struct fields, oversized fields, type mismatches, negative enum values, bad constants or accessors, missing or repeated package, etc.) it exits non-zero, reports file and line of the offending construct, and writes no output.",
 ["programs"],"all schemas from the grammar x each violation of each documented rule",
 "Tests check about ten hand-written invalid files; acceptance and rejection depend on position, nesting and combination with other declarations.",
 COMP+DEF+["main.go"],[("semantic checks","compiler/proto_visitor.go"),("name scopes","definition")])
p("C15","The compiler never crashes or hangs on any input",
 "For any file content, valid or not, and any option combination, the bubbler command terminates promptly, exits with status 0 or with a non-zero status and a diagnostic, and never panics.",
 ["inputs","configurations"],"all byte strings as schema files x options x targets",
 "Tests feed only well-formed or deliberately simple wrong files; panics hide behind syntax-error recovery and unusual literals.",
 COMP+DEF+GENF+["main.go"],[("error recovery","compiler")])
p("C16","Multi-file schemas behave like one schema",
 "Splitting a schema across files connected by any acyclic import graph (relative paths, subdirectories, diamonds, transitive imports) compiles to code whose codec behaviour is that of the unsplit schema, each file being processed once; import cycles, self-imports, missing files, repeated imports' conflicts, and duplicate packages or global names across files are rejected with an error.",
 ["programs","configurations"],"all import graphs x partitions of schemas x targets",
 "Tests have one cyclic and one two-file case; nothing runs code generated from several packages.",
 COMP+FIO+GENF,[("import resolution and cycle detection","compiler/import_visitor.go"),("cross-file references","generator/target/*")])
p("C17","Output is a function of the schema alone",
 "Compiling the same schema twice, from another working directory, through another spelling of the same path, or after changes to comments, blank space, separators, string quotes, spelling of import paths or the notation of sizes and array lengths only (under -decnum also of enum values and constants), produces the same generated code, byte for byte.",
 ["programs","configurations","histories"],"all valid schemas x trivia edits x invocation contexts x repeated runs",
 "Tests never compile twice; map-iteration order or leaking state shows only over repeated runs and larger schemas.",
 COMP+FIO+GENF,[("ordered maps","util/ordered_map.go"),("file normalisation","generator/gen")])
p("C18","Files are written exactly where documented",
 "For every package name, package option, -o, -rmpath, -single and target alias, a successful run writes exactly the documented set of files at the documented paths under the output location and nothing else (with omit_empty, none for an empty package); a failing run writes nothing.",
 ["configurations","programs"],"all package names x options x targets and aliases",
 "Tests sample a few package/rmpath pairs; layout is a function of target, package depth, package options, import structure and options together.",
 GENF+["main.go"],[("output path computation","generator/gen"),("rmpath","generator/gen")])
p("C19","Generated code always compiles",
 "For every valid schema and every accepted option combination, the code generated for each target is accepted by that language's compiler or interpreter without edits, including when several packages import each other and are linked into one program. (Names a target cannot take are the schema author's to avoid: its keywords, members it generates, such as size, encode or a_length beside an array a, its library's types, and two names it spells alike, such as the fields a_1 and a1.)",
 ["programs","configurations"],"all valid schemas x options x targets",
 "Tests compile one schema per target; missing casts, duplicate helper functions, unused imports or narrowing errors depend on which field kinds occur together.",
 GENF,[("templates of all targets","generator/target/*")])
p("C20","Equality and hash of generated objects follow field values",
 "In targets that generate them (Java, C#, Kotlin), two objects of a type are equal exactly when all their fields have equal values (element-wise for arrays and bytes, deep for structs), equality is reflexive and symmetric, unequal to null and other types, and equal objects have equal hash codes.",
 ["programs","inputs"],"all valid schemas x pairs of objects, equal or differing in any single field",
 "No test compares objects that differ in one field for each kind of field.",
 [f for f in GENF if 'java' in f or 'cs' in f or 'kotlin' in f],[("equals/hashCode generation","generator/target")])
p("C21","Accessors read and write exactly their field",
 "Every generated raw getter and setter (scalar, string, bytes, struct, whole array, array item, array length) returns or replaces exactly the value of its own field: a getter after a setter returns the value set, other fields keep their values, and an object filled through setters encodes the same as one filled directly. An array setter that takes a length replaces that many elements from the front (at most the array's own), keeps the rest, and reads no further than the length it is given.",
 ["programs","inputs"],"all valid schemas x fields x values x targets with accessors",
 "Tests call a couple of accessors; array and nested variants are separate code per field type and option.",
 GENF,[("raw accessor templates","generator/target/*")])
p("C22","Malformed messages never mislead or crash a reader",
 "For any bytes whatever, not only prefixes of messages: decode_size terminates without raising or reading past the data. When the bytes begin with a complete message it returns the exact size of that message, whatever follows it and however its byte-string lengths are written (redundant LEB128 continuation bytes up to five bytes in all); otherwise it returns a negative number, which unless a length cannot be represented is more than the bytes given and at most the size of the smallest message that starts like this. Lengths too large for the target never pass for a complete message. A decode that takes a sized buffer reports failure, without raising, on incomplete bytes and wrong constants, and otherwise returns the same size and the values the bytes stand for (any non-zero bits of a bool are true; enums hold declared values); text that is not UTF-8 may be refused or replaced, but never moves the end of its field.",
 ["programs","inputs"],"all valid schemas x all byte strings x targets",
 "Tests decode well-formed messages and a few truncations; corrupted lengths, overflow of length arithmetic and text cut inside a character are never tried, and over-reads need a sanitizer to be seen.",
 GENF,[("decode_size generators and length checks","generator/target/*"),("string and bytes decoding","generator/target/*"),("UTF-8 helpers","generator/target/commonjs")])
p("C23","Success is reported only when everything was written",
 "A run that exits with status 0 has written every output completely. When an output, or standard output when there is no -o, cannot be written (a directory in its place, a file in the place of one of its directories, a limit on the length of files, a device that takes nothing), the command exits non-zero with a message naming a file that could not be written, without a crash; it leaves what is in the way and everything else that is not an output as it was; and the same command run again once the cause is gone writes exactly what an undisturbed run does.",
 ["crash_points","programs"],"all valid schemas x options x targets x outputs that cannot be written, or not beyond some length",
 "Tests never let a write fail; which output fails, and how, is one of many points.",
 ["main.go","fileio/writer.go","generator/generator.go","generator/gen/gen_ctx.go"],[("Flush","generator/gen/gen_ctx.go"),("WriteFileContent","fileio/writer.go")])
for x in P:
    assert len(x['title'])<=80,x['title']
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
