"""Writes properties.jsonl (kept as a generator so statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
D, PA, B, M, MOD, API, G = ("src/decode.rs", "src/context/parse.rs", "src/context/builder.rs", "src/context/mod.rs",
                            "src/context/modify_api.rs", "src/context/api.rs", "src/proto.pest")

p("C01", "Decoding arbitrary bytes never panics",
  "For every context and every byte string, decoding the bytes as any message type of the context returns a value; it never panics, whatever the bytes are (truncated, over-long varints, wrong wire types, bad lengths, invalid UTF-8, unknown fields or enum values).",
  ["inputs", "programs"], "every schema accepted by the parser or built through the API, every message of it, every byte string",
  "The decode tests use about ten hand-written byte strings; the input space is all byte strings times all schemas.",
  [D], [("message decoding loop", D + ": MessageInfo::decode"), ("per-field decoding", D + ": Value::decode"),
        ("bounded reads", D + ": try_read_8_bytes / try_read_4_bytes / read_bytes"), ("varint reader", D + ": from_unsigned_varint")],
  ["MessageInfo::decode", "Context::decode"])
p("C02", "Encoding any message value never panics",
  "For every context and every message value over it, including values that decoding can produce from corrupt input and values assembled by hand through the public fields, encoding returns bytes and never panics.",
  ["inputs"], "every MessageValue, every Value variant and unknown value, every schema",
  "Only round-trips of a few decoded messages are encoded by the tests; incomplete, unknown and hand-made values never are.",
  [D], [("message encoder", D + ": MessageValue::encode"), ("value encoder", D + ": Value::encode"), ("packed encoder", D + ": PackedArray::encode")],
  ["MessageValue::encode", "Value::encode", "UnknownValue::encode"])
p("C03", "Parsing arbitrary text never panics",
  "For every list of source texts, parsing them into a context returns a context or a parse error; it never panics, whatever constructs, literals, names or cross references the texts contain.",
  ["inputs"], "every list of input strings", "The tests parse a dozen well-formed files and five malformed ones.",
  [PA, B, G], [("parse tree consumers", PA), ("grammar", G), ("context construction", B)], ["Context::parse"])
p("C04", "Decoding always terminates, consuming input at every step",
  "Decoding any byte string terminates: every iteration of the loops that read fields or packed elements consumes at least one input byte or is the last one, so the work done is bounded by the length of the input.",
  ["inputs"], "every schema and byte string, including zero-length payloads and truncated data",
  "A test that samples inputs cannot show the absence of a non-terminating input.",
  [D], [("field loop", D + ": MessageInfo::decode"), ("packed element loop", D + ": Value::decode"), ("varint loop", D + ": from_unsigned_varint")],
  ["MessageInfo::decode"])
p("C05", "Nesting cannot exhaust the stack while decoding",
  "The call depth of decoding is bounded by a constant that does not depend on the input: messages nested deeper than a fixed limit are kept as uninterpreted data instead of being decoded further.",
  ["inputs"], "every schema (recursive ones included) and byte string", "Stack exhaustion needs very deep input; no test goes deeper than one level.",
  [D], [("depth limit", D + ": MAX_DEPTH, decode_nested")], ["MessageInfo::decode"])
p("C06", "Wire types agree between schema, decoder and encoder",
  "For every field type the wire type the schema API reports is the one the protobuf specification assigns; the decoder interprets a field's payload as that type only if the record carries that wire type (or, for packed scalar fields, the length-delimited one), and every encoded record's tag carries the field's number and the wire type matching the payload that follows, with length-delimited payloads preceded by exactly their length.",
  ["inputs", "configurations"], "every field type, wire type and value", "Tests cover the matching combination of a few types, never the mismatches.",
  [D, API], [("type to wire type", API + ": ValueType::wire_type"), ("value to wire type", D + ": Value::wire_type"), ("decoder gate", D + ": Value::decode"), ("tag encoder", D + ": MessageValue::encode")],
  ["ValueType::wire_type", "Value::decode", "MessageValue::encode"])
p("C07", "Scalar codecs follow the protobuf wire format and invert each other",
  "For every scalar field type, the value decoded from a complete payload is the one the protobuf encoding specification assigns to it (varint, zig-zag, little-endian fixed width, sign extension, UTF-8 text, raw bytes), and the encoder writes for a value the canonical payload that decodes to it.",
  ["inputs"], "every scalar type and every payload or value of it", "Tests check a handful of values per type; the claim is over 2^64 values per type.",
  [D], [("decoder", D + ": Value::decode"), ("encoder", D + ": Value::encode"), ("varint conversions", D + ": FromUnsignedVarint / ToUnsignedVarint / FromSignedVarint / ToSignedVarint")],
  ["Value::decode", "Value::encode"])
p("C08", "Packed arrays carry exactly the elements a repeated field would",
  "In a packed field every element is read and written with the same representation a singular field of the same type uses, the elements cover exactly the announced payload bytes in order, and the length written before a packed payload is the payload's length.",
  ["inputs"], "every packed scalar type, every element count and payload", "One packed test with a few elements per type exists; element values, counts and truncations are unbounded.",
  [D], [("packed decoder", D + ": Value::decode_packed"), ("packed encoder", D + ": PackedArray::encode")], ["Value::decode", "PackedArray::encode"])
p("C09", "Uninterpreted input is retained and re-encodes unchanged",
  "Input the decoder does not interpret - unknown fields, records with an unexpected wire type, truncated or malformed payloads, unparseable trailing bytes - is kept byte for byte in the decoded message (unknown varints and tags by their value), and encoding that part of the value writes the same bytes back in the same position, varints in their shortest form.",
  ["inputs"], "every schema and byte string", "Only one unknown-field case is tested; truncation points and malformed payloads are unbounded.",
  [D], [("unknown values", D + ": Value::decode_unknown, UnknownValue::encode"), ("incomplete values", D + ": return_incomplete"), ("garbage", D + ": MessageValue::garbage")],
  ["MessageInfo::decode", "MessageValue::encode"])
p("C10", "A decoded message lists every record once, in input order",
  "Decoding reads the input as consecutive tag/payload records and yields exactly one field value per record, in input order, numbered with the tag's field number, interpreted with the type the message declares for that number and kept as an unknown value if it declares none; nested messages are read from exactly their length-delimited payload.",
  ["inputs"], "every schema and byte string", "Tests use at most a few fields in one order.",
  [D], [("field loop", D + ": MessageInfo::decode")], ["MessageInfo::decode"])
p("C11", "A rejected modification leaves the context unchanged",
  "When inserting a message, enum, package, field or oneof, or adding an enum value, reports an error, the context or type being modified is exactly as before the call.",
  ["histories", "inputs"], "every modification call that fails, in any state", "The tests check that errors are reported, not the state left behind.",
  [MOD], [("context modifications", MOD + ": insert_message, insert_enum, insert_package, insert_type"), ("type modifications", MOD + ": MessageInfo::add_field, add_oneof, EnumInfo::add_field")],
  ["Context::insert_message", "Context::insert_enum", "Context::insert_package", "MessageInfo::add_field", "MessageInfo::add_oneof", "EnumInfo::add_field"])
p("C12", "Lookups and modifications agree on references, names and numbers",
  "A lookup by full name, field name, number, value or reference returns the item stored under that key of the requested kind, and returns it whenever there is one. Every successful modification makes the new item findable in every way at once: its reference is its position and is what the call returns, its full name is the parent's full name, a dot and its name, its full name, name and number lead to it, its parent lists it with its kind, and nothing else in the context changes.",
  ["histories"], "every sequence of successful modifications and every lookup", "Tests look up a few names in small schemas.",
  [MOD, API], [("lookups", API), ("insertions", MOD)], ["Context::get_type", "Context::resolve_type", "MessageInfo::get_field"])
p("C13", "A oneof and its fields always point at each other",
  "In every message a field says it belongs to a oneof exactly when that oneof lists the field, and no field belongs to two oneofs: every successful modification of a message for which this holds leaves it so.",
  ["histories"], "every modification in any consistent state", "One oneof is parsed in the tests and the back references are not compared.",
  [MOD], [("added fields", MOD + ": MessageInfo::add_field"), ("added oneofs", MOD + ": MessageInfo::add_oneof")], ["MessageField::oneof", "Oneof::fields"])
p("C14", "Names and numbers stay unique, and only real conflicts are refused",
  "Inserting a type whose full name is taken, a package whose name is taken, a field, enum value or oneof whose name or number is taken is reported with the existing item where the error carries one; a modification never adds a second item under the same name or number, and refuses one as a conflict only when there is one.",
  ["histories"], "every insertion into any state", "A single duplicate is tested.",
  [MOD], [("duplicate detection when inserting", MOD + ": insert_type")], ["Context::parse", "Context::insert_message"])
p("C15", "Every reference in a parsed context resolves to the right kind",
  "In every successfully parsed context each message, enum or service reference - field types, rpc request and response types, parents, children of packages and messages - is in range and resolves to an item of the kind it claims; unresolvable or wrong-kind names are reported as errors instead.",
  ["programs"], "every schema", "Tests resolve a few references.",
  [B], [("name resolution", B + ": BuildCache::resolve_type"), ("reference construction", B + ": FieldTypeBuilder::build, RpcArgBuilder::build")], ["Context::parse", "Context::resolve_message"])
p("C16", "The parsed context contains exactly what the source declares",
  "Every package, message, field, oneof, enum value, service and rpc declared in the source, and every option of a field, oneof, enum value, service or rpc, appears in the context with its declared name, number, type, label, options, streaming flags and parent, in the order the API promises, and nothing else appears.",
  ["programs"], "every supported schema source", "The tests parse small examples and compare some of the values.",
  [PA, B], [("parse tree to builders", PA), ("builders to context", B)], ["Context::parse"])
p("C17", "Scalar keywords, labels and packing defaults follow the language spec",
  "Each built-in type keyword denotes the scalar type of that name, each rpc stream keyword and field label sets the multiplicity it names, and a repeated scalar field is packed exactly when the syntax default or an explicit packed option says so.",
  ["programs", "configurations"], "every keyword, label, syntax and packed option", "Tests touch a few keywords; the table and its interactions are finite but larger than what they try.",
  [PA, B], [("keyword table", PA + ": parse_field_type"), ("multiplicity", B + ": resolve_multiplicity")], ["MessageField::multiplicity", "MessageField::field_type"])
p("C18", "Type names resolve innermost scope first, absolute names exactly",
  "A relative type name resolves to the match in the innermost enclosing scope that has one, going outward through messages and packages to the root; a name with a leading dot is resolved only from the root.",
  ["programs"], "every nesting of packages and messages and every relative or absolute name", "Two or three scoping situations are tested.",
  [B], [("scope walk", B + ": BuildCache::resolve_type")], ["Context::parse"])
p("C19", "Context contents can only change through the checked modification API",
  "Safe user code holding shared access cannot change a context, and code holding mutable access can change what is inside it only through the operations that insert packages, messages and enums: nothing public hands out mutable access to stored contents or to a lookup index. A reference value can only be obtained from the library, never made from a number or by default.",
  ["programs"], "every safe program using the public API", "A test can only show that some programs do compile.",
  [M, API, MOD], [("private fields and constructors", M), ("insertion API", MOD)], ["crate public API"])
p("C20", "Results depend only on the arguments and the library is thread-safe",
  "Parsing, lookups, decoding and encoding are functions of their arguments alone - no global state, environment, time, randomness or hash-order dependence reaches a result - and contexts and decoded values can be shared and sent between threads.",
  ["schedules", "inputs", "configurations"], "every call, in any process, thread or order", "Hash-order dependence and data races do not show up in single runs.",
  [D, B, PA, M], [("ordered collections in results", M + ": BTreeMap fields"), ("no interior mutability or statics", "src")], ["Context", "MessageValue"])
p("C21", "Unsafe code cannot cause undefined behaviour",
  "No call to the safe public API can cause undefined behaviour: every unsafe operation in the crate is applied only to values for which its contract holds.",
  ["inputs"], "every input to the safe API", "Undefined behaviour need not show in a test's outcome.",
  [D], [("bit reinterpretation", D + ": into_signed_varint")], ["crate public API"])
p("C22", "Memory allocated while decoding is bounded by the input received",
  "Decoding allocates memory in proportion to the bytes actually present: no length or count announced inside the data makes the decoder reserve or copy more than the remaining input.",
  ["inputs"], "every byte string, announced lengths up to 2^64 included", "A resource claim over all inputs; tests do not measure it.",
  [D], [("length checks", D + ": read_string, read_bytes, decode_packed")], ["MessageInfo::decode"])
p("C23", "Keywords and literals never swallow part of an identifier",
  "In the accepted language a keyword, boolean or built-in type name is recognised only as a whole word, so identifiers that merely start with one parse as identifiers, and no alternative of the grammar is unreachable because an earlier one always matches first.",
  ["inputs"], "every identifier and literal in every source text", "Tests use no identifier that extends a keyword.",
  [G], [("grammar rules", G)], ["Context::parse"])
p("C24", "Literals in the source denote the values the language assigns",
  "Integer, float, boolean, string and identifier constants in options, and field and enum numbers, have the value the protobuf language assigns to their spelling (decimal, hexadecimal and octal forms, signs, escape sequences), and spellings with no representable value are reported as errors.",
  ["inputs"], "every literal spelling", "Tests use one or two literals of each form.",
  [PA], [("literal readers", PA + ": parse_uint_literal, parse_int_literal, parse_float_literal, parse_string_literal")], ["Context::parse", "ProtoOption::value"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
