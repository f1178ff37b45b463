#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that statements stay reviewable).
import json
P=[]
def p(id,title,statement,over,qtext,tests,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":tests,"anchors":a})

RT=["ztype/array_encode.go","ztype/array_decode.go","ztype/object_array_encode.go","ztype/object_array_decode.go","ztype/delta_context.go","ztype/packed_array_traits.go","ztype/object_array_traits.go","ztype/array_traits.go"]
TM="internal/generator/templates/"
p("C01","Encoding and decoding never swallow an error",
  "Whenever an operation inside the runtime library or inside generated code fails while a value is being encoded, decoded or sized, the outermost call reports an error; it never returns success for a value only partly written or partly read. A reader that delivers fewer bytes than requested is never taken for a complete read.",
  ["inputs","fault_sequences","programs"],"every value, every schema, every position at which the underlying reader or writer or a range check can fail",
  "Tests hit a handful of failing writers and truncated inputs; the number of failure points is the product of schemas, fields and stream positions.",
  RT+["ztype/extern_decode.go","ztype/bytes_decode.go","marshal.go",TM+"encode.go.tmpl",TM+"decode.go.tmpl"],
  [("error propagation in the array and packing runtime","ztype/*.go"),("error propagation in generated methods","internal/generator/templates/*.tmpl")])
p("C02","The generator never reports success after an internal failure",
  "If reading, parsing, resolving, evaluating, formatting or writing anything fails while code is generated from a schema, the command ends with a failure status. A schema that does not parse, or a numeric literal that cannot be represented, is reported and is never replaced by a default.",
  ["inputs","fault_sequences"],"every schema text and every failing file operation",
  "The generator tests use well-formed schemas and working file systems only.",
  ["internal/model/package.go","internal/model/transform.go","internal/visitor/visitor.go","internal/generator/gen.go","internal/generator/expression.go","internal/ast/expression.go","internal/cli/generate.go","cmd/go-zserio/main.go"],
  [("error propagation through model, visitor, evaluator and generator","internal/..."),("syntax error collection","internal/model/package.go")])
p("C03","Generated encoder and decoder agree on the wire format",
  "For every schema type, the generated decoder reads exactly the sequence of wire elements the generated encoder writes, in the same order, with the same type, width, alignment and presence conditions, and stores each into the field it was written from. A value that encodes without error therefore decodes to the same value, field by field, in every combination of optional and conditional members.",
  ["programs","inputs","configurations"],"every structure, choice, union, enum and bitmask template instantiation, and every combination of presence conditions, selector values and array sizes",
  "Round-trip tests sample a few values of a few schemas; encoder and decoder come from separate templates that must agree for every branch.",
  [TM+"encode.go.tmpl",TM+"decode.go.tmpl",TM+"struct.go.tmpl",TM+"choice.go.tmpl",TM+"union.go.tmpl",TM+"enum.go.tmpl",TM+"bitmask.go.tmpl"],
  [("encode template","internal/generator/templates/encode.go.tmpl"),("decode template","internal/generator/templates/decode.go.tmpl")])
p("C04","Packed encoder, decoder and packing contexts agree",
  "For every schema type that can appear in a packed array, the generated packed decoder reads exactly the sequence the packed encoder writes, in every presence combination. Creating, initialising, writing, reading and sizing all associate each member with the same packing context, so each member's deltas are computed against the same history on both sides.",
  ["programs","inputs","configurations"],"every compound type, every member position and every presence combination in a packed array",
  "A packed round-trip needs a schema with the right mix of optional, nested and non-packable members; the tests have a few.",
  [TM+"packing_context_encode.go.tmpl",TM+"packing_context_decode.go.tmpl",TM+"packing_context_create.go.tmpl",TM+"packing_context_init.go.tmpl","packing_context_node.go"],
  [("context creation order","packing_context_create.go.tmpl"),("context child index","packing_context_{init,encode,decode}.go.tmpl")])
p("C05","The reported bit size is the number of bits encoding writes",
  "For every schema type and value, at every starting bit position, the reported bit size equals the number of bits the corresponding encoder (packed or not) writes, including presence bits, alignment padding, length headers, tags and nested values.",
  ["programs","inputs"],"every schema type, value and bit position",
  "The size is computed by separate templates and separate per-type code; tests compare it for a few values only.",
  [TM+"bitsizeof.go.tmpl",TM+"builtin_bitsizeof.go.tmpl","ztype/array.go","ztype/object_array.go","ztype/array_traits.go"],
  [("size templates","internal/generator/templates/bitsizeof.go.tmpl"),("per-type array sizes","ztype/array_traits.go")])
p("C06","Generated code encodes what the schema says",
  "Generated code writes the members of a schema type in declaration order, each with the wire type, bit width, signedness, alignment, optionality, presence condition and array form (fixed, length-prefixed, packed) that the schema declares; enum, bitmask, union-tag and choice-selector encodings follow the declaration as well.",
  ["programs"],"every schema declaration: every builtin type, width 1 to 64, every modifier and their combinations",
  "Golden tests cover particular schemas; a self-consistent but wrong mapping (say, a 31-bit field for a 32-bit declaration) round-trips and passes.",
  [TM+"encode.go.tmpl",TM+"struct.go.tmpl",TM+"choice.go.tmpl",TM+"union.go.tmpl","internal/visitor/visitor.go","internal/ast/scope.go","internal/generator/funcs.go"],
  [("schema visitor","internal/visitor/visitor.go"),("type mapping","internal/ast/scope.go"),("method selection","internal/generator/funcs.go")])
p("C07","Array runtime: reading mirrors writing, for every element kind",
  "For every element kind the array library reads an element with the inverse of the operation that writes it and sizes it with the matching size rule, and arrays read and write their length header, packing set-up and elements in the same order. Length-prefixed and fixed-size arrays both come back with the same number of elements and the same elements in order.",
  ["inputs","programs"],"every element kind, array length and array configuration",
  "There is one set of operations per element kind; tests exercise a subset of kinds with a few lengths.",
  ["ztype/array.go","ztype/array_encode.go","ztype/array_decode.go","ztype/object_array.go","ztype/object_array_encode.go","ztype/object_array_decode.go","ztype/array_traits.go","ztype/object_array_traits.go","ztype/packed_array_traits.go"],
  [("element traits","ztype/array_traits.go"),("array loops","ztype/array_{encode,decode}.go")])
p("C08","Variable-length integers round-trip, are minimal and range-checked",
  "For every variable-length integer kind and every value of its Go type, encoding either fails with an out-of-range error or writes the shortest prescribed byte sequence with the prescribed continuation and sign bits, and decoding those bytes returns the value. Encoding succeeds exactly on the documented range of the kind, and the reported size is the number of bits written.",
  ["inputs"],"all 2^16 to 2^64 values of each of the nine kinds",
  "Tests sample boundary values; the domain is 2^64.",
  ["ztype/varint_encode.go","ztype/varint_decode.go","ztype/varuint_encode.go","ztype/varuint_decode.go","ztype/limits.go"],
  [("variable-length encoders","ztype/var*int_encode.go"),("variable-length decoders","ztype/var*int_decode.go"),("limits","ztype/limits.go")])
p("C09","Fixed-width integers round-trip or are rejected",
  "For every bit width from 1 to 64, writing a signed or unsigned integer that fits the width emits exactly that many bits and reading them back returns the value; a value that does not fit is rejected with an error and never silently truncated. This also holds for the elements of arrays of such integers.",
  ["inputs"],"all widths 1..64, all 2^64 values, signed and unsigned, scalar and array elements",
  "Tests sample a few widths and values.",
  ["ztype/bits_encode.go","ztype/bits_decode.go","ztype/array_traits.go"],
  [("bit-field writers","ztype/bits_encode.go"),("bit-field readers","ztype/bits_decode.go"),("element writers","ztype/array_traits.go")])
p("C10","Delta packing: reader and writer stay in step",
  "In a packed array the reader consumes exactly what the writer produced: a descriptor before the first element only, the first element in full, then fixed-width deltas or, when packing does not pay off, plain elements; both sides take each decision from the same state and update the previous element identically. The delta width chosen from the initialisation pass is large enough for every delta between consecutive elements, and sizing follows the same decisions as writing.",
  ["inputs","histories"],"every sequence of elements of every packable kind",
  "Sequences are unbounded; tests pack a handful of short arrays.",
  ["ztype/delta_context.go","ztype/packed_array_traits.go"],
  [("delta context","ztype/delta_context.go")])
p("C11","Bit streams keep position, alignment and trailing bits",
  "Aligning a stream to n bits from any position pads (when writing) or skips (when reading) exactly the distance to the next multiple of n, the same on both sides and the same as the size computation counts. Encoding to bytes flushes the last partial byte, zero-padded, before the bytes are handed out, and a failed flush is reported.",
  ["inputs","histories"],"every stream position and every alignment from 1 to 64 bits",
  "Tests align a few positions to 8 and 16.",
  ["zstream/reader.go","zstream/writer.go","marshal.go","ztype/bit_alignment.go"],
  [("alignment","zstream/*.go"),("flush","marshal.go"),("size of alignment padding","ztype/bit_alignment.go")])
p("C12","Generation is deterministic",
  "Generating twice from the same schema files with the same options yields byte-identical output files with the same names, independent of map iteration order, time, process identity and earlier runs.",
  ["programs","schedules"],"every schema, every map iteration order",
  "Map order is randomised per run; a test sees one order, and most orders give the same output.",
  ["internal/model/transform.go","internal/ast/package.go","internal/generator/gen.go","internal/generator/funcs.go"],
  [("iteration over declaration maps","internal/model/transform.go, internal/ast/package.go, internal/generator/gen.go")])
p("C13","Operators mean the same in evaluated and in emitted expressions",
  "Every schema operator is given the same meaning whether its expression is evaluated while generating or emitted as Go code: the same operation on the same operands in the same order, with the grouping the schema's precedence and parentheses give. An operator that one side cannot handle is reported as an error and never dropped or replaced by a placeholder.",
  ["programs","inputs"],"every operator, operand type and nesting of operators",
  "Tests evaluate a few constant expressions and compile a few emitted ones.",
  ["internal/ast/expression.go","internal/generator/expression.go"],
  [("evaluator","internal/ast/expression.go"),("emitter","internal/generator/expression.go")])
p("C14","No part of a schema is skipped by resolution, evaluation or instantiation",
  "Every type reference and every expression occurring anywhere in a schema (constants, subtypes, enum items, bitmask values, parameters, fields, array lengths, conditions, initialisers, choice selectors and cases including the default case, union members, functions) is resolved, evaluated and, inside a template, instantiated before code is generated from it, and each one's failure is reported.",
  ["programs"],"every declaration kind and every member position in it",
  "A skipped position only shows for a schema that uses exactly that position with exactly that kind of type or expression.",
  ["internal/model/transform.go","internal/ast/struct.go","internal/ast/choice.go","internal/ast/union.go","internal/ast/field.go","internal/ast/enum.go","internal/ast/bitmask.go"],
  [("resolve, instantiate and evaluate passes","internal/model/transform.go"),("per-declaration evaluation and scopes","internal/ast/*.go")])
p("C15","Output files: complete, inside the output directory, never clobbered",
  "Each generated type goes to its own file under the requested output directory; two outputs of one run never share a path, no path exceeds the configured length limit, and a limit of zero means no limit. A file whose content could not be produced or written completely does not stay behind as if it were good, and that failure is reported.",
  ["inputs","fault_sequences","configurations"],"every set of type names, directory, length limit and write failure",
  "Tests use short names and a working disk.",
  ["internal/generator/gen.go","internal/cli/generate.go"],
  [("path assembly","internal/generator/gen.go"),("write and cleanup","internal/generator/gen.go")])
p("C16","Generated code compiles and contains no placeholder",
  "Every supported schema construct is accepted, and for it the emitted Go code type-checks against the runtime library and contains no placeholder text, and every emitted type offers the full set of encode, decode, size and packing operations the runtime expects.",
  ["programs","configurations"],"every schema construct, with and without SQL support",
  "Existing tests compile the checked-in schemas only.",
  ["internal/generator/templates/struct.go.tmpl","internal/generator/funcs.go","internal/generator/expression.go","internal/generator/strip_imports.go"],
  [("templates","internal/generator/templates/*.tmpl"),("import clean-up","internal/generator/strip_imports.go")])
p("C17","Template instantiations are independent of each other",
  "Instantiating a schema template never changes the template itself, its arguments or another instantiation: what is generated for one instantiation does not depend on which other instantiations exist or on the order in which they are processed.",
  ["programs","histories"],"every template, every set and order of instantiations",
  "Aliasing between instantiations only shows when two instantiations of the same template differ in the aliased part.",
  ["internal/model/transform.go"],[("template instantiation","internal/model/transform.go")])
p("C18","Decoding allocates in proportion to the input, not to claimed lengths",
  "While decoding, no length, count or size read from the input is used to reserve memory before that much data has actually been read: apart from a fixed allowance, memory grows only as bytes or elements are actually read.",
  ["inputs"],"every byte string given to a decoder",
  "A test needs the exact malformed length; allocation size is invisible to assertions on results.",
  ["ztype/string_decode.go","ztype/bytes_decode.go","ztype/extern_decode.go","ztype/array_decode.go","ztype/object_array_decode.go"],
  [("length-prefixed decoders","ztype/*_decode.go")])
p("C19","Malformed input yields errors, never a crash",
  "Decoding any byte string with the runtime library or generated code ends with a value or an error: no input makes a decoder index out of range, dereference a missing value, convert a wrong dynamic type, divide by zero, shift by a negative amount, make a negative-size allocation or hit an explicit panic.",
  ["inputs"],"every byte string and every generated type",
  "Fuzzing samples inputs; the guarantee is over all of them.",
  ["ztype/array_decode.go","ztype/object_array_decode.go","ztype/delta_context.go","ztype/extern_decode.go",TM+"decode.go.tmpl",TM+"packing_context_decode.go.tmpl"],
  [("decoders","ztype/*_decode.go, zstream/reader.go"),("generated decoders","internal/generator/templates/*decode*.tmpl")])
p("C20","Encoding and decoding share no mutable global state",
  "Values can be encoded, decoded and sized from several goroutines at once as long as each uses its own value and stream: neither the runtime library nor generated code writes package-level state, or state reachable from it, after initialisation.",
  ["schedules"],"every interleaving of concurrent encoders and decoders",
  "The race detector sees only the interleavings and code paths a test runs; the tests are single-threaded.",
  ["ztype/array_traits.go","ztype/limits.go","packing_context_node.go",TM+"enum.go.tmpl",TM+"bitmask.go.tmpl"],
  [("package-level variables of the runtime","ztype/array_traits.go"),("package-level variables of generated code","internal/generator/templates/{enum,bitmask}.go.tmpl")])
p("C21","Encoding and sizing leave the value as it was",
  "Encoding or sizing a value changes nothing the caller stored in it, except the parameters a parameterised member receives from its parent; in particular members, array elements and their order are untouched, and sizing twice or encoding after sizing gives the same result.",
  ["inputs","histories"],"every value of every generated type and every sequence of encode and size calls",
  "Tests compare outputs, rarely the input value after the call.",
  [TM+"encode.go.tmpl",TM+"bitsizeof.go.tmpl","ztype/array_encode.go","ztype/object_array_encode.go",TM+"encode_compound_parameters.go.tmpl"],
  [("generated encoders","internal/generator/templates/*encode*.tmpl"),("array runtime","ztype/*array*.go")])
p("C22","Enum names and values are mutually inverse and complete",
  "For every generated enum, each declared item has exactly the value the schema gives it, converting any declared item to its name and back returns the same item, an undeclared value is given no declared name and an undeclared name is an error, and the listing of all items is complete and cannot be altered by its callers.",
  ["programs","histories"],"every enum declaration and every item in it",
  "Tests cover one or two small enums.",
  [TM+"enum.go.tmpl","internal/ast/enum.go"],[("enum template","internal/generator/templates/enum.go.tmpl"),("enum evaluation","internal/ast/enum.go")])
p("C23","Floats decode to what was encoded, within half-precision rounding",
  "Writing a number as a half-precision float and reading it back returns the nearest representable half-precision number (ties to even), with infinities, NaN, subnormals and signed zero preserved; single- and double-precision numbers, written in full, come back exactly. The same holds for the elements of float arrays.",
  ["inputs"],"every number of 16, 32 and 64 bits",
  "Tests sample a few numbers.",
  ["ztype/float_encode.go","ztype/float_decode.go"],[("float conversions","ztype/float_*.go")])
p("C24","Bytes are compatible with other zserio implementations",
  "Bytes written by this library are read back to the same values by the reference zserio implementations, and the other way round, for every schema both support.",
  ["inputs","programs"],"every schema and value",
  "The reference tests need the other implementation's build tools and cover a few schemas.",
  ["test/reference"],[("reference comparison","test/reference")])
p("C25","The generator terminates on every schema",
  "For every schema text, however self-referential its types, constants, imports or templates, generation ends with output or an error in time and memory bounded by the schema's size.",
  ["inputs","programs"],"every schema text",
  "Tests use well-founded schemas.",
  ["internal/ast/package.go","internal/ast/expression.go","internal/model/transform.go"],[("recursive lookup and evaluation","internal/ast/*.go")])
p("C26","Default values and constants are what the schema declares",
  "Every constant in generated code has the value the schema's constant expression has by zserio's rules, and every member declared with a default gets exactly that value when the generated code fills in defaults; members without a default get none. Operators, literals in every base, enum and bitmask items and references to other constants are all included.",
  ["programs","inputs"],"every constant and default initialiser, every operator and operand form",
  "Tests check a handful of constants; the expression language has every pair of operators with precedence and typing of its own.",
  ["internal/ast/expression.go","internal/generator/expression.go","internal/visitor/visitor.go",TM+"default_values.go.tmpl",TM+"package.go.tmpl"],
  [("expression emitter","internal/generator/expression.go"),("defaults template","default_values.go.tmpl")])
p("C27","Strings, byte buffers and bit buffers come back whole",
  "A string, bytes or extern value of any length is written as its length and exactly its content, and reading it back gives the same length and content; for bit buffers this holds for every number of bits, the odd bits at the end included. A buffer whose content does not have the length it claims is rejected. The reported size is the number of bits written.",
  ["inputs"],"every length and content, every number of odd bits",
  "Tests use a few short buffers; how the last bits are shifted and how long buffers are read piece by piece depends on the length.",
  ["ztype/string_encode.go","ztype/string_decode.go","ztype/bytes_encode.go","ztype/bytes_decode.go","ztype/extern_encode.go","ztype/extern_decode.go"],
  [("blob codecs","ztype/{string,bytes,extern}_*.go")])
ids=[x["id"] for x in P]; assert len(set(ids))==len(ids)
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    n=x["statement"].count(". ")+1
    assert n<=3,(x["id"],n)
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
