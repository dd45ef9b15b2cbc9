D = "src/mfast/coder/decoder/"
E_ = "src/mfast/coder/encoder/"
D2 = "src/mfast/coder/decoder_v2/"
E2 = "src/mfast/coder/encoder_v2/"
NOTE = "Seeded search; samples, does not enumerate. Real encoders, decoders, template loading, generated code, message storage (ASan build, asserts on); stubs: network, peer, allocator, clock. Trusts the reference model in sim/refcodec.cpp, written from the FAST 1.1 rules and cross-checked against both codec generations. "
TECH = "deterministic simulation with fault injection: "

prop("C01", "A decoder in step with an encoder recovers every message exactly",
 "For every template set, every pair of encoder and decoder implementation (run-time driven or generated) built from it, and every sequence of messages the templates can express, each message that the encoder accepts is decoded with the same template, the same presence of every field and the same values, in order. This includes nested groups, sequences, nested messages, all operators, session resets, messages sharing dictionary entries, and any grouping of messages into packets. Only an absent optional field with a default operator and an initial value may arrive as that value.",
 ["histories", "configurations", "inputs"], "all template sets, all endpoint pairs, all message sequences and packetisations of one session",
 "The encoding of a message depends on the whole history through the dictionaries; the tests encode one or a few hand-written messages per operator and never mix templates, resets, long histories and endpoint kinds.",
 [E_+"fast_encoder.cpp", E_+"encoder_field_operator.cpp", D+"fast_decoder.cpp", D+"decoder_field_operator.cpp", E2+"fast_encoder_core.h", D2+"fast_decoder_core.h", "src/mfast/int_ref.h", "src/mfast/ext_ref.h"],
 [("field operators with one previous value per dictionary entry", E_+"encoder_field_operator.cpp"), ("mirrored decoder operators", D+"decoder_field_operator.cpp"), ("presence map", E_+"encoder_presence_map.h")],
 [("dictionary entry", "previous value (undefined, empty, assigned) of an operator", "src/mfast/value_storage.h"), ("active template", "template context of the session", E_+"fast_encoder.cpp")],
 ["fast_encoder::encode", "fast_decoder::decode", "fast_encoder_v2", "fast_decoder_v2"],
 NOTE + "Histories of up to 44 messages; schemas of up to 5 templates.", TECH + "two simulated endpoints and a packetising link, history compared message by message")

prop("C02", "Encoders emit only conforming bytes that mean the message they were given",
 "For every template set and message history, the bytes an encoder emits form exactly one message under the FAST 1.1 transfer and dictionary rules and decode, by those rules alone, to the message that was given (up to the default-operator tolerance of C01). Integers and strings are in their shortest form, no unused presence map bit is set, and with overlong presence maps disallowed the presence map has no superfluous bytes.",
 ["histories", "configurations", "inputs"], "all template sets, encoder implementations and message histories",
 "Tests compare bytes for fixed examples; interoperability with foreign decoders depends on every operator state, pmap length and integer width.",
 [E_+"fast_encoder.cpp", E_+"encoder_field_operator.cpp", E_+"fast_ostream.h", E_+"encoder_presence_map.h", E_+"fast_ostreambuf.cpp", E2+"fast_encoder_core.h"],
 [("operator encoding", E_+"encoder_field_operator.cpp"), ("stop bit, nullable and presence map encoding", E_+"fast_ostream.h")],
 [("dictionary entry", "previous value of an operator", "src/mfast/value_storage.h")], ["fast_encoder::encode", "fast_encoder_v2::encode"],
 NOTE, TECH + "a strict reference decoder as the simulated peer, checked at every message")

prop("C03", "Decoders accept every conforming stream and give it its one meaning",
 "A decoder fed by any conforming sender, which may use every freedom the FAST rules leave (repeated or omitted template identifiers, explicit values where an operator could infer them, different splits of string deltas and tails, overlong presence maps), produces exactly the values those rules assign, also when messages were lost, repeated or reordered on the way. Where the rules make such a damaged history an error of the dictionary or template context, the message is refused with an error, never decoded to something else.",
 ["histories", "inputs", "fault_sequences"], "all template sets, all conforming encodings, all loss/duplication/reordering schedules of whole messages",
 "The tests only decode what the library's own encoder would write, on an undisturbed history.",
 [D+"fast_decoder.cpp", D+"decoder_field_operator.cpp", D+"fast_istream.h", D+"decoder_presence_map.h", D2+"fast_decoder_core.h"],
 [("operator decoding", D+"decoder_field_operator.cpp"), ("dynamic errors D5, D6, D7, D9", "src/mfast/coder/common/exceptions.h")],
 [("dictionary entry", "previous value of an operator", "src/mfast/value_storage.h")], ["fast_decoder::decode", "fast_decoder_v2::decode"],
 NOTE, TECH + "foreign sender model with random legal alternatives behind a lossy, duplicating, reordering link")

prop("C11", "Operators share previous values exactly as dictionary scopes prescribe",
 "Two operators see each other's previous value if and only if the template documents put them on the same dictionary entry, by the rules for global, template, type and user dictionaries, key names, namespaces and inheritance of the dictionary attribute, across templates, static and dynamic template references, groups, sequences and documents. Every entry is undefined at session start and after a reset and changes only by encoding or decoding a field that uses it.",
 ["configurations", "histories"], "all arrangements of dictionary, key and namespace attributes, all message histories over them",
 "Sharing is observable only through particular multi-message histories over particular attribute combinations; the tests use a handful.",
 ["src/mfast/coder/common/dictionary_builder.cpp", "src/mfast/coder/common/template_repo.h", "src/mfast/xml_parser/field_op.h", "src/mfast/xml_parser/templates_builder.cpp"],
 [("dictionary construction", "src/mfast/coder/common/dictionary_builder.cpp")],
 [("dictionary entry", "previous value shared by all operators with the same key", "src/mfast/coder/common/dictionary_builder.h")], ["fast_encoder::encode", "fast_decoder::decode"],
 NOTE, TECH + "heavily shared dictionaries, sessions of interleaved templates, judged by an independent dictionary model")

prop("C04", "Decoders survive any damaged input and give damaged bytes only their meaning",
 "Whatever bytes arrive - cut off, flipped, inserted, deleted, spliced or garbage, at any point of a session - a decoder terminates, reads and writes only memory of the packet and of its own, and either reports a documented error or returns a message all of whose fields can be read, with the cursor after it and within the packet. A message that is cut off is always reported as an error. As long as the session was in step, damaged bytes that still form a message by the FAST rules decode to exactly that message, and those that violate the dictionary or template rules are refused.",
 ["inputs", "fault_sequences", "histories"], "all damaged byte sequences at all points of all sessions, for all decoders",
 "Tests feed intact streams, apart from a few hand-made errors; the effect of damage depends on the dictionary state and field type where it strikes.",
 [D+"fast_decoder.cpp", D+"fast_istream.h", D+"fast_istreambuf.h", D+"decoder_field_operator.cpp", D+"decoder_presence_map.h", D2+"fast_decoder_core.h", D2+"fast_istream_extractor.h"],
 [("bounds checks of the input buffer", D+"fast_istreambuf.h"), ("dynamic errors", "src/mfast/coder/common/exceptions.h")],
 [("dictionary entry", "previous value of an operator", "src/mfast/value_storage.h")], ["fast_decoder::decode", "fast_decoder_v2::decode"],
 NOTE + "Integer fields that overflow their width may be refused or accepted.", TECH + "a damaging link in front of all decoders, exact-size buffers under ASan, reference decoder for what the damaged bytes mean")

prop("C05", "A reset restores an endpoint completely after any failure",
 "After any sequence of failures - damaged or lost input, errors in the middle of a message, exhausted memory, output buffers that were too small, messages of unknown templates - an encoder or decoder that is told to reset continues exactly like a newly created one: the encoder writes byte for byte what a new one writes, and the decoder gives every following message its value. No failure leaves an endpoint unusable.",
 ["fault_sequences", "histories"], "all failure sequences at all points of a session followed by a reset",
 "Tests never continue after an error; recovery depends on all state an interrupted message leaves behind.",
 [E_+"fast_encoder.cpp", D+"fast_decoder.cpp", D2+"fast_decoder_core.h", E2+"fast_encoder_core.cpp", "src/mfast/coder/common/template_repo.h"],
 [("reset of the dictionary and of the template context", "src/mfast/coder/common/template_repo.h"), ("exception safety of nested segments", D+"fast_decoder.cpp")],
 [("template context", "last template id of the session", D+"fast_decoder.cpp")], ["encode/decode with force_reset", "templates with reset='yes'"],
 NOTE, TECH + "failures of memory, network and buffers injected at random points, then comparison with fresh endpoints")

prop("C06", "Message boundaries are exact and independent of packets and buffers",
 "Decoding one message consumes exactly the bytes one encode call produced, so that messages can be concatenated in any number per packet, followed by anything, without influence on the decoded values. An encoder writes the same bytes into a caller's buffer and at the end of a growing vector, whose earlier contents it leaves alone.",
 ["histories", "configurations"], "all message histories, packetisations, trailing bytes and output buffer kinds",
 "Tests decode single messages from buffers that end with the message.",
 [D+"fast_decoder.cpp", D2+"fast_decoder_core.h", E_+"fast_ostreambuf.h", E_+"resizable_fast_ostreambuf.h", E_+"resizable_fast_ostreambuf.cpp"],
 [("cursor after the message", D+"fast_decoder.cpp"), ("growing output buffer", E_+"resizable_fast_ostreambuf.cpp")],
 [], ["first argument of decode", "return value and vector of encode"],
 NOTE, TECH + "the same history through several packetisations and buffers, compared message by message")

prop("C07", "Encoding into a bounded buffer is all or nothing",
 "Encoding into a caller's buffer never writes outside of it: if the message fits, it is written and its length returned; if not, the buffer overflow error is reported. A buffer of exactly the needed size suffices, the bytes are those written to a larger buffer, and after an overflow the encoder can be reset and used on.",
 ["inputs", "configurations", "fault_sequences"], "all messages, histories and buffer sizes",
 "Tests use buffers that are large enough.",
 [E_+"fast_ostreambuf.h", E_+"fast_ostreambuf.cpp", E_+"encoder_presence_map.h", E_+"fast_ostream.h", E2+"fast_encoder_core.h"],
 [("overflow of the output buffer", E_+"fast_ostreambuf.cpp")], [], ["encode(message, buffer, size)"],
 NOTE + "Buffers between the final size and the size needed before the presence map is shortened may go either way.", TECH + "random buffer sizes as injected faults, exactly sized heap buffers under ASan")

prop("C09", "Sessions sharing descriptions never influence each other",
 "Any number of encoders, decoders and messages that share template descriptions behave in any interleaving, down to the points where they call their allocators, exactly as each does alone; creating and destroying some does not affect others. Descriptions are never changed by use, so that later sessions behave like earlier ones.",
 ["schedules", "histories", "configurations"], "all interleavings of the steps of several sessions in one process",
 "Tests run one session at a time.",
 ["src/mfast/coder/common/template_repo.h", "src/mfast/coder/common/dictionary_builder.cpp", E_+"fast_encoder.cpp", D+"fast_decoder.cpp", "src/mfast/instructions/templates_description.h"],
 [("instructions cloned per codec", "src/mfast/coder/common/dictionary_builder.cpp")], [("dictionary storage", "belongs to one codec", "src/mfast/coder/common/dictionary_builder.h")], ["several encoders and decoders in one process"],
 NOTE + "Preemption happens at allocator calls and between operations, not between arbitrary instructions.", TECH + "seeded scheduler preempting sessions at allocator calls, compared with solo runs")

prop("C10", "Token decoders isolate the messages of tokens and allow modifying them",
 "A message decoded with one token keeps its contents while other tokens are used for decoding, and consumers may read and modify it at any time, even while the decoder works for another token, without any influence on the messages decoded before, at the same time or later.",
 ["schedules", "histories"], "all interleavings of decoding with tokens and of consumers reading and modifying held messages",
 "Tests decode single messages with one token.",
 [D2+"fast_decoder_core.h", "src/mfast/coder/fast_decoder_v2.h"],
 [("one message instance per template and token", D2+"fast_decoder_core.h"), ("values are copied from the dictionary", D2+"fast_decoder_core.h")],
 [], ["fast_decoder_v2<N>::decode(token, ...)"],
 NOTE + "Consumers run between decode calls and at the allocator calls inside of them.", TECH + "seeded scheduler running consumers in the middle of decode calls")

prop("C13", "Message fields hold what was put into them and nothing else",
 "After any sequence of operations on the fields of a message - assigning, inserting, replacing, appending, growing, shrinking, exchanging, referring to memory of the application, omitting, and the same on groups, sequences, their elements and nested messages - every field reads back exactly as a plain value model of these operations predicts, through every way of access; a value assigned without knowledge of the type of the field is converted to it or refused without effect. Operations never touch other fields or memory outside of the message, and one that runs out of memory leaves all other fields as they were.",
 ["histories", "inputs", "fault_sequences"], "all operation sequences on messages of all templates, with any allocator within its contract and allocation failures",
 "The storage switches between shared, referred and owned memory depending on the operations before; tests exercise single operations on new fields.",
 ["src/mfast/vector_ref.h", "src/mfast/string_ref.h", "src/mfast/sequence_ref.h", "src/mfast/sequence_ref.cpp", "src/mfast/nested_message_ref.h", "src/mfast/group_ref.h", "src/mfast/aggregate_ref.h", "src/mfast/int_ref.h", "src/mfast/decimal_ref.h", "src/mfast/field_mref.h", "src/mfast/enum_ref.h", "src/mfast/set_ref.h"],
 [("owned and referred contents", "src/mfast/vector_ref.h"), ("growth of sequences", "src/mfast/sequence_ref.cpp")],
 [("value storage", "length, capacity and ownership of a field", "src/mfast/value_storage.h")], ["mutable and constant field references", "message_type"],
 NOTE + "Elements that appear by growing a sequence and parts that become present are set before they are read.", TECH + "random operation histories against a value model over an adversarial, failing, contract-checking allocator")

prop("C14", "Copies of messages are deep, independent and leak nothing",
 "A message that is copied or moved, by construction or assignment, within or between allocators, from another message or from a decoder, equals its source and stays unchanged whatever happens to the source, its allocator's other blocks, the decoder's later messages, the packet, or memory the source referred to. Every block comes back to its allocator exactly once with its size, also when copying fails for lack of memory, and such a failure changes no other message.",
 ["histories", "fault_sequences"], "all sequences of creating, decoding, copying, moving, modifying and destroying messages, with allocation failures at any point",
 "Ownership errors show only after particular sequences of copies, moves and destruction; tests make single copies.",
 ["src/mfast/composite_type.h", "src/mfast/sequence_type.h", "src/mfast/instructions/group_instruction.cpp", "src/mfast/instructions/sequence_instruction.cpp", "src/mfast/instructions/templateref_instruction.cpp", "src/mfast/instructions/vector_instruction_base.cpp", "src/mfast/instructions/string_instructions.cpp", "src/mfast/instructions/template_instruction.cpp"],
 [("deep copy of value storage", "src/mfast/instructions/group_instruction.cpp"), ("ownership of messages", "src/mfast/composite_type.h")],
 [("value storage", "ownership flags of groups, arrays and nested messages", "src/mfast/value_storage.h")], ["message_type", "mref().as()", "decoded messages"],
 NOTE + "A decoder outlives the copies of its messages, whose descriptions it owns.", TECH + "random lifetimes of messages over two adversarial, failing, contract-checking allocators, compared with value models after every step")

prop("C18", "Comparing messages and fields says exactly whether they are equal",
 "At every point of a session, two messages of a template compare equal exactly when every field of one, at any depth, has the same presence and the same value as in the other, regardless of how they came to be: filled, copied, decoded, rebuilt or modified. The same holds for any two fields, and fields that differ in type, presence or value, also of messages of different templates, never compare equal. The answer does not depend on the order of the operands, and equality and inequality never agree.",
 ["histories", "inputs"], "all histories of creating, copying, decoding and modifying messages of all templates, and all pairs of their messages and fields",
 "Differences in presence and structure hide behind equal memory, in pairs of messages no test brings together.",
 ["src/mfast/field_comparator.h", "src/mfast/int_ref.h", "src/mfast/decimal_ref.h", "src/mfast/enum_ref.h", "src/mfast/set_ref.h", "src/mfast/string_ref.h", "src/mfast/vector_ref.h", "src/mfast/field_visitor.h"],
 [("recursive comparison", "src/mfast/field_comparator.h"), ("dispatch on the type of a field", "src/mfast/field_visitor.h")],
 [("value storage", "content, length and presence of a field", "src/mfast/value_storage.h")], ["operator== and operator!= of messages, groups and fields"],
 NOTE + "Messages of different templates with equal structure and values may or may not be equal.", TECH + "random histories of up to six messages; after every step the changed message and its fields are compared with all others, in both orders, against value models")

prop("C08", "Failing allocations are reported and leave everything usable",
 "An allocation that fails anywhere - while templates are loaded, while codecs, messages or copies are created, or while messages are encoded, decoded or read into other storage - surfaces as the standard out-of-memory exception and as nothing else. Nothing that was allocated is lost, destroying the objects is safe, and after the fault ends the same operation on the same objects succeeds with the result it would have had.",
 ["fault_sequences", "histories"], "all points of failure of all operations of a session's life",
 "Each allocation site is a separate failure path; no test makes an allocation fail.",
 ["src/mfast/xml_parser/templates_builder.cpp", "src/mfast/coder/common/dictionary_builder.cpp", E_+"fast_encoder.cpp", D+"fast_decoder.cpp", D2+"fast_decoder_core.h", "src/mfast/composite_type.h", "src/mfast/arena_allocator.h", "src/mfast/instructions/group_instruction.cpp"],
 [("release of partly constructed values", "src/mfast/instructions/group_instruction.cpp"), ("allocation of chunks", "src/mfast/arena_allocator.h")],
 [("value storage", "ownership of partly constructed messages", "src/mfast/value_storage.h")], ["dynamic_templates_description", "fast_encoder", "fast_decoder", "message_type"],
 NOTE + "The XML library itself is never made to fail.", TECH + "an allocation failure injected at a random allocator call, system heap or message allocator, anywhere in the life of a session; leak accounting afterwards")

prop("C15", "Arena memory is valid, separate and reused",
 "Every block an arena hands out is aligned, lies within memory the arena holds, and overlaps no other block handed out since the last reset, for every sequence of sizes, growth requests, resets and failures of the underlying allocation. Contents of blocks stay unchanged until the reset, growing keeps them, and the memory held is bounded by what the largest period between resets needed, however often the arena is reset.",
 ["histories", "fault_sequences"], "all sequences of allocations, reallocations and resets, with failing system allocations",
 "Overlap and loss of memory depend on how sizes, remaining space of chunks and resets combine over a history.",
 ["src/mfast/arena_allocator.h", "src/mfast/arena_allocator.cpp", "src/mfast/allocator.h"],
 [("chunks and free list", "src/mfast/arena_allocator.h")], [("chunk lists", "current and free chunks", "src/mfast/arena_allocator.h")], ["arena_allocator::allocate", "arena_allocator::reallocate", "arena_allocator::reset"],
 NOTE, TECH + "random allocation histories with injected failures against an interval model of all live blocks under ASan")

prop("C16", "Long sessions use bounded memory",
 "However long a session lasts and whatever it exchanges, including resets, refused messages and failures, the memory of its codecs and reused messages is bounded by a function of the largest message and not of the number of messages. When everything is destroyed, every byte has been returned.",
 ["histories", "fault_sequences"], "all sufficiently long sessions over a bounded set of messages",
 "Slow growth shows only after many messages, and only on those paths (reset, error, growth, template change) that leave something behind.",
 ["src/mfast/arena_allocator.h", D+"fast_decoder.cpp", D2+"fast_decoder_core.h", E_+"fast_encoder.cpp", "src/mfast/vector_ref.h", "src/mfast/sequence_ref.cpp", "src/mfast/string_ref.h"],
 [("reset of the message arena", "src/mfast/arena_allocator.h"), ("reuse of element storage", "src/mfast/sequence_ref.cpp")],
 [("memory held", "bytes allocated by codec, message and arena", "src/mfast/arena_allocator.h")], ["fast_encoder", "fast_decoder", "fast_decoder_v2", "message_type"],
 NOTE, TECH + "the same round of messages, faults and resets repeated many times with all heap traffic accounted; growth after warm-up is a violation")

prop("C17", "Messages survive the way through JSON text",
 "Writing any message as JSON yields one syntactically valid text with exactly the present fields and their values, and reading that text, or any equivalent one of another producer (other order, white space, escapes, number notations, nulls, unknown members), into any message of the template yields the same message, consuming exactly that text. Text that is cut off or a stream that fails is always reported, by the reader and by the writer, and damaged text never leads outside of memory or to an unreadable message.",
 ["inputs", "histories", "fault_sequences"], "all messages, equivalent texts, stream behaviours and earlier contents of the target",
 "Tests convert a few hand-made messages; escapes, number ranges, pieces of input and earlier contents of the target combine freely.",
 ["src/mfast/json/json_encode.cpp", "src/mfast/json/json_decode.cpp", "src/mfast/value_storage.cpp"],
 [("writing of values", "src/mfast/json/json_encode.cpp"), ("parsing of values", "src/mfast/json/json_decode.cpp"), ("decimal text", "src/mfast/value_storage.cpp")],
 [], ["json::encode", "json::decode"],
 "Seeded search; samples, does not enumerate. Strings are valid UTF-8, decimals normalised; dynamically nested messages are written but not read.", TECH + "messages over streams that deliver in pieces, end, fail or damage text, judged by an independent strict JSON reader and writer")

prop("C12", "Generated code means what its template document means",
 "For every template document, the code the type generator writes compiles, describes the same templates as the same document loaded at run time, and offers under the documented name exactly one accessor, setter and omitter per field, each acting on that field and no other, also for messages in any state and for objects of the generated classes. Endpoints built from generated code and endpoints built from the loaded document understand each other in both directions over any session.",
 ["programs", "inputs", "histories"], "all template documents and all messages and sessions of their templates",
 "Tests compile a few hand-made documents and touch some of their accessors; combinations of nesting, references, names and operators multiply.",
 ["src/fast_type_gen/hpp_gen.cpp", "src/fast_type_gen/inl_gen.cpp", "src/fast_type_gen/cpp_gen.cpp", "src/fast_type_gen/codegen_base.cpp", "src/mfast/ext_ref.h"],
 [("declarations", "src/fast_type_gen/hpp_gen.cpp"), ("accessors", "src/fast_type_gen/inl_gen.cpp"), ("descriptions", "src/fast_type_gen/cpp_gen.cpp")],
 [], ["fast_type_gen", "generated accessors", "generated templates_description"],
 NOTE + "The documents that are compiled come from fixed seeds; messages and sessions are random.", TECH + "seeded documents through fast_type_gen and the compiler; random sessions between generated and loaded endpoints, every accessor compared with positional access")

prop("C19", "Loading templates is faithful, repeatable and fails cleanly",
 "Loading a well-formed template document gives the description the document states, whatever was loaded into the same registry before, whether those loads succeeded, were refused or ran out of memory, and descriptions that exist never change afterwards. A document that is cut off, damaged or hostile is either accepted with a usable description or refused with a documented exception, without touching memory it does not own or losing any.",
 ["inputs", "histories", "fault_sequences"], "all documents, all orders of loading them into one registry, and failing allocations",
 "Tests load correct documents into a fresh registry once.",
 ["src/mfast/xml_parser/templates_builder.cpp", "src/mfast/xml_parser/field_builder.cpp", "src/mfast/xml_parser/field_op.cpp", "src/mfast/xml_parser/dynamic_templates_description.h", "src/mfast/xml_parser/template_registry_impl.h", "src/mfast/xml_parser/FastXMLVisitor.cpp"],
 [("building of templates", "src/mfast/xml_parser/templates_builder.cpp"), ("building of fields", "src/mfast/xml_parser/field_builder.cpp"), ("types and templates known by name", "src/mfast/xml_parser/template_registry_impl.h")],
 [("registry", "types and templates by namespace and name", "src/mfast/xml_parser/template_registry_impl.h")], ["dynamic_templates_description", "template_registry"],
 NOTE + "The XML parser itself is the system's library. Templates of a refused document may stay known by name.", TECH + "histories of loads of good, mutated and cut documents with allocation failures, each description compared with the document model and with itself later")

prop("C20", "Views show the first present alternative of each of their fields",
 "A view of any message lists its fields in order, each showing the first of its alternative paths that leads to a present value, through groups and through the stated elements of sequences, and shows an absent field if there is none. This holds however often, in which order and through which view a message is looked at while it changes.",
 ["inputs", "histories"], "all views of all templates over messages in any state",
 "Tests look at one message through a few views.",
 ["src/mfast/view_iterator.h", "src/mfast/view_iterator.cpp", "src/mfast/xml_parser/view_info_builder.cpp"],
 [("walking the paths", "src/mfast/view_iterator.cpp"), ("compiling the paths", "src/mfast/xml_parser/view_info_builder.cpp")],
 [], ["aggregate_view", "view iterators", "generated views"],
 NOTE + "Paths do not lead through nested messages.", TECH + "histories of changes to messages observed through random views, against the document model")

prop("C21", "Stored messages survive disk errors and crashes, whole and exactly once",
 "A message whose insertion into a database was reported as successful has exactly its rows there, with every field's value and no value for absent fields, whatever inserts, disk errors, full disks, failing allocations, power failures and restarts came before or come after. A message whose insertion was reported as failed leaves no row, one interrupted by a crash leaves all of its rows or none, and the converter stays usable and releases the database when it is destroyed.",
 ["crash_points", "fault_sequences", "histories", "inputs"], "all templates of scalar fields, groups, groups of a referenced template and one sequence; all histories of inserts, faults and restarts",
 "The component has no tests; disks that fail or lose power in the middle of a transaction cannot be produced by them.",
 ["src/mfast/sqlite3/converter.h", "src/mfast/sqlite3/converter_core.cpp", "src/mfast/sqlite3/tables_creator.cpp", "src/mfast/sqlite3/first_pass_visitor.cpp"],
 [("statements and transactions", "src/mfast/sqlite3/converter_core.cpp"), ("tables", "src/mfast/sqlite3/tables_creator.cpp"), ("columns of a row", "src/mfast/sqlite3/first_pass_visitor.cpp"), ("rows of sequences", "src/mfast/sqlite3/second_pass_visitor.cpp"), ("rows of referenced templates", "src/mfast/sqlite3/third_pass_visitor.cpp")],
 [("tables", "one per template, one row per message or per element of its sequence", "src/mfast/sqlite3/tables_creator.cpp")], ["converter::insert", "tables read with the database engine", "simulated disk"],
 NOTE + "Integers fit signed 64 bits, text has no NUL characters, names are identifiers. Not covered because unsupported by the component: integer vectors, dynamic template references, nested sequences, sequences of referenced templates, several sequences in a template.", TECH + "inserts on a simulated disk (SQLite VFS) that fails, fills up, tears and loses unsynchronised writes at any operation, against a model of the tables")
