"""The properties, and the check that decides each (source of properties.jsonl and MANIFEST.json)."""
PROPS = []


def P(id, title, statement, over, text, tests, files, mech, **kw):
    p = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": tests,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    p.update(kw)
    PROPS.append(p)


AI = ("The abstract interpreter (engine/absint.py), its models of the standard library and clang's "
      "parse are trusted; nothing is executed.")

P("C01", "Base64 encoding is RFC 4648 for every input and every chunking",
  "Whatever bytes are fed to a base64 encoder (standard or URL alphabet, any byte type), in whatever "
  "pieces, the characters produced so far are exactly the RFC 4648 symbols of the complete input bits, and "
  "finishing the message emits the remaining symbols plus '=' padding exactly when padding is enabled. "
  "Nothing is written out of order, twice or not at all, the returned position is just past the last "
  "character written, and a finished encoder starts the next message afresh.",
  ["inputs", "histories"], "all byte strings x all splits into calls x padding modes x alphabets x byte types",
  "The tests encode a handful of fixed strings in one go; 256^n inputs and all chunkings are out of reach.",
  ["include/fitoria/encoding/base64/encoder.hpp", "include/fitoria/encoding/base64/alphabet.hpp"],
  [("basic_encoder::encode_next/encode_rest/encode", "include/fitoria/encoding/base64/encoder.hpp")],
  cmd="python3 checks/b64.py enc", technique="abstract interpretation: bit-provenance domain",
  note="Fixpoint over the product of the encoder object and the reference transducer; every output "
       "character's bit provenance is compared with RFC 4648. " + AI)

P("C02", "Base64 decoding is exact, rejects foreign characters, and stays in bounds",
  "For every character sequence and chunking, each byte a base64 decoder produces is the concatenation of "
  "the sextets of the accepted characters in order, and it produces every byte as soon as its characters "
  "have been read. Characters outside the alphabet, misplaced padding and anything after the end put it "
  "in a sticky error state without output; completion is reported neither in error nor with a dangling "
  "single character. No input byte, whatever its value or signedness, makes it read outside its tables.",
  ["inputs", "histories"], "all byte strings x all splits into calls x alphabets x byte types",
  "The tests decode a few fixed ASCII strings; no byte above 0x7f and no split other than whole-string.",
  ["include/fitoria/encoding/base64/decoder.hpp", "include/fitoria/encoding/base64/alphabet.hpp"],
  [("basic_decoder::decode_next/decode", "include/fitoria/encoding/base64/decoder.hpp")],
  cmd="python3 checks/b64.py dec", technique="abstract interpretation: byte-powerset + bit-provenance",
  note="Fixpoint over the product of the decoder object and the reference transducer; input characters are "
       "sets of byte values refined at every branch. Left open: whether 'QQ=' (one '=' of two) counts as "
       "complete. " + AI)

P("C03", "An optional's flag, its value's lifetime and its contents always agree",
  "After any operation on an optional, from any state and even when an element operation throws, the value "
  "is alive exactly when the optional reports a value, it is never constructed twice, leaked or destroyed "
  "twice, and it is the value the operation is documented to leave (the source's value, moved from only when "
  "an rvalue was given). value() throws exactly when there is no value; value_or, and_then, transform, or_else "
  "and the comparisons pick the branch the states dictate, call the callable at most once and with the held "
  "value, and an optional reference refers to the given object.",
  ["inputs", "histories"], "all element types (by parametricity) x all engagement states x all throwing element operations",
  "The tests use int-like elements whose operations never throw and check a few state pairs; lifetimes and "
  "exceptional exits are not observed.",
  ["include/fitoria/core/optional.hpp"],
  [("optional<T>, optional<void>, optional<T&>", "include/fitoria/core/optional.hpp")],
  cmd="python3 checks/vocab.py opt", technique="abstract interpretation: typestate and value-provenance",
  note="Every member is interpreted from every engagement state of every operand with declared-only elements "
       "whose operations may throw. Destructors of temporaries and the explicit-ness of converting constructors "
       "are not covered. " + AI)

P("C04", "An expected holds exactly one alternative, and it is the right one",
  "After any operation on an expected, from any state and even when an element operation throws, exactly one of "
  "value and error is alive and it is the one has_value() reports, with the contents the operation is documented "
  "to leave; a failed change of alternative leaves the old one in place. Nothing is leaked, constructed on top of "
  "a live object or destroyed twice; value() throws bad_expected_access carrying the error exactly when there is no value. "
  "The monadic operations and comparisons follow the alternative held, call the callable at most once, and pass errors or "
  "values through unchanged.",
  ["inputs", "histories"], "all element and error types (by parametricity) x all alternatives x all throwing element operations",
  "The tests use a few concrete types and never make a construction throw in the middle of a change of alternative.",
  ["include/fitoria/core/expected.hpp"],
  [("expected<T,E>, expected<void,E>, expected<T&,E>, unexpected<E>", "include/fitoria/core/expected.hpp")],
  cmd="python3 checks/vocab.py exp", technique="abstract interpretation: typestate and value-provenance",
  note="As C03. A scalar alternative (the pointer inside expected<T&,E>) is taken to survive a failed construction "
       "in the union. " + AI)

STR_NOTE = ("Functions are interpreted over symbolic character sequences (sets of bytes per position or range, linear position "
            "facts); a specification is run from every exit state. Splitting is decided for three delimiter sets. ")

P("C05", "Trimming, splitting and case-insensitive comparison are right for every text",
  "For every text, trimming removes exactly the leading and/or trailing blanks (C-locale white space, or the characters the "
  "given predicate selects) and nothing else. Splitting returns, in order and without omission, each piece between delimiter "
  "characters, trimmed, and always at least one piece. The case-insensitive comparisons give the result of comparing the "
  "ASCII-lower-cased texts, for every byte value, and nothing is read outside the texts.",
  ["inputs"], "all byte strings of all lengths, all delimiter positions, all byte values",
  "The tests use a few short ASCII strings; bytes above 0x7f, empty pieces and long runs of blanks are not tried.",
  ["include/fitoria/core/strings.hpp"],
  [("trim, ltrim, rtrim, split_of, cmp_eq_ci, cmp_tw_ci", "include/fitoria/core/strings.hpp")],
  cmd="python3 checks/strs.py", technique="abstract interpretation: character-sequence domain",
  note=STR_NOTE + AI)

P("C06", "Text-to-value conversion is exact: the whole text, in range, or an error",
  "Converting a text to an arithmetic type succeeds exactly when the entire text, with nothing before or after it, is one "
  "decimal number that the type can represent, and yields that number unchanged; every other text gives an error. Booleans accept "
  "exactly 1/t/true/y/yes and 0/f/false/n/no in any letter case, and string targets receive the text unchanged. No text makes a "
  "conversion throw or read outside the text.",
  ["inputs"], "all byte strings x all supported target types",
  "The tests try about thirty short ASCII texts.",
  ["include/fitoria/core/from_string.hpp", "include/fitoria/core/detail/from_string_impl.hpp"],
  [("from_string<R>", "include/fitoria/core/from_string.hpp"),
   ("from_string_impl", "include/fitoria/core/detail/from_string_impl.hpp")],
  cmd="python3 checks/strs.py conv", technique="abstract interpretation: character-sequence domain",
  note=STR_NOTE + "std::from_chars is trusted to read one number; the macOS floating-point branch is not compiled here. " + AI)

P("C07", "Entity tags and If-None-Match follow the header grammar exactly",
  "A text is accepted as an entity tag exactly when it is a double-quoted run of entity-tag characters (bytes above 0x7f "
  "included), with W/ in front for a weak tag, and it yields that strength and those characters; writing a tag gives the same form back. "
  "Two tags are equal exactly when strength and text agree, weakly equal exactly when the texts agree. An If-None-Match header is "
  "either * alone or a list of tags, each kept in order and none skipped; one malformed member makes the whole header invalid.",
  ["inputs"], "all header texts x all pairs of tags",
  "The tests use a dozen well-formed headers and a few malformed ones.",
  ["include/fitoria/http/header/entity_tag.hpp", "include/fitoria/http/header/if_none_match.hpp"],
  [("entity_tag", "include/fitoria/http/header/entity_tag.hpp"), ("if_none_match", "include/fitoria/http/header/if_none_match.hpp")],
  cmd="python3 checks/hdr.py etag", technique="abstract interpretation: character-sequence domain",
  note=STR_NOTE + "List headers are decided for a loop over the split pieces. " + AI)

P("C08", "A Range header never yields bytes outside the representation",
  "For every header text and representation length, a Range header is accepted exactly when it is one unit and either a suffix "
  "length above zero of a non-empty representation or a list of sub-ranges that all lie inside the representation with "
  "start not after end. The result is then that unit and exactly those sub-ranges in order, as offset and length with "
  "offset + length at most the representation length and no arithmetic wrap-around; a suffix longer than the "
  "representation selects all of it. Otherwise nothing is returned, and no text makes parsing throw or read out of bounds.",
  ["inputs"], "all header texts x all representation lengths 0..2^64-1",
  "The tests use about ten short headers with one or two lengths.",
  ["include/fitoria/http/header/range.hpp"],
  [("range::parse", "include/fitoria/http/header/range.hpp")],
  cmd="python3 checks/hdr.py range", technique="abstract interpretation: character-sequence and linear-inequality domain",
  note=STR_NOTE + "List headers are decided for a loop over the split pieces. " + AI)

P("C09", "Media types are parsed, compared and predefined consistently",
  "A text is accepted as a media type exactly when it is type/subtype with at most one +suffix and any number of name=value "
  "parameters separated by semicolons, blanks around each piece ignored and every name well formed; the result gives the whole "
  "text, exactly those parts, and for every parameter name its last value. Names and media types are equal and ordered by their "
  "lower-cased texts. Every predefined media type has the parts of its own text, and every known file extension, in any letter "
  "case, gives its media type while every other one gives none.",
  ["inputs"], "all texts x all parameter lists x all extensions",
  "The tests use about twenty short texts, one parameter list and no extension in an unusual case or with surrounding text.",
  ["include/fitoria/mime/mime_view.hpp", "include/fitoria/mime/name_view.hpp", "include/fitoria/mime/params_view.hpp"],
  [("mime_view, from_extension, from_path", "include/fitoria/mime/mime_view.hpp"),
   ("name_view", "include/fitoria/mime/name_view.hpp")],
  cmd="python3 checks/mime.py", technique="abstract interpretation: character-sequence domain",
  note=STR_NOTE + "The table of known extensions is written down in the check. " + AI)

P("C10", "Route patterns are accepted and split exactly by the route grammar",
  "A route pattern is accepted exactly when it consists of characters allowed in a path, with complete percent escapes, {name} "
  "segments that fill a segment after a slash, and (where wildcards are allowed) one final #name, all names being non-empty and "
  "distinct from each other. The tokens given are exactly the pieces of the pattern, in order, each with its kind and text, "
  "whatever the parser was used for before.",
  ["inputs", "histories"], "all patterns x wildcard allowed or not",
  "The tests try about forty short patterns, each with a fresh parser.",
  ["include/fitoria/web/path_parser.hpp"],
  [("path_parser::parse and path_parser::get", "include/fitoria/web/path_parser.hpp")],
  cmd="python3 checks/path.py", technique="abstract interpretation in lock step with a reference automaton",
  note=STR_NOTE + AI)

P("C11", "Log levels, filters and log lines mean what they say",
  "Every level has its own name, and a text, in any letter case, gives the level it names or else 'off'. A filter lets through exactly "
  "the levels it was built for - those in its list, everything at or above its level, or what the CPP_LOG variable asks for, nothing "
  "when that is unset - and never 'off'. A formatted line carries, under each name its pattern can use, that part of the record and no "
  "other, with the file name and level in the chosen style, and ends with the chosen newline; every setting of a formatter builder "
  "reaches the formatter without disturbing the others.",
  ["inputs", "histories"], "all levels x all lists of levels x all texts, paths, records and builder settings",
  "The tests try some levels and one list each, and cannot see which argument goes where for every record.",
  ["include/fitoria/log/level.hpp", "include/fitoria/log/filter.hpp", "include/fitoria/log/formatter.hpp", "include/fitoria/log/record.hpp"],
  [("to_level, to_string", "include/fitoria/log/level.hpp"), ("filter", "include/fitoria/log/filter.hpp"),
   ("formatter, get_file_name, get_newline", "include/fitoria/log/formatter.hpp")],
  cmd="python3 checks/log.py", technique="abstract interpretation: enumerations, flag bytes, provenance of line parts",
  note="Lists of levels are decided by induction over the list. What fmt makes of a pattern, the default pattern and the colours "
       "are not covered. " + AI)

P("C12", "Versions, error codes, dates and formatted values keep their meaning",
  "Every protocol version has its own text and number, in both directions, and anything else is 'unknown'. Every error value becomes a "
  "code that tests as an error, with the value, a category that outlives the call and a message of its own. A date is the instant it "
  "was made from, compares as that instant, and is written in the fixed HTTP format with the second it lies in; versions, levels, media "
  "types, names, optionals and expecteds format as exactly their own text, and refuse format options they would ignore.",
  ["inputs"], "all versions, protocol numbers, error values, instants, format options and states of formatted values",
  "The tests try a few values of each.",
  ["include/fitoria/http/version.hpp", "include/fitoria/web/error.hpp", "include/fitoria/web/middleware/detail/brotli_error.hpp",
   "include/fitoria/http/header/date.hpp", "include/fitoria/core/chrono.hpp"],
  [("to_string, from_impl_version, to_impl_version", "include/fitoria/http/version.hpp"),
   ("make_error_code, error_category::message", "include/fitoria/web/error.hpp"),
   ("date", "include/fitoria/http/header/date.hpp")],
  cmd="python3 checks/codes.py", technique="abstract interpretation: enumerations, time terms, provenance of formatted text",
  note="What the standard library's clock conversions and fmt's chrono fields do is trusted; the parsing of dates is compiled only "
       "with a standard library that has std::chrono::parse, which this sandbox has not. " + AI)

P("C13", "Parameters, queries, path parameters and header fields behave as maps",
  "Media type parameters, the query, the path parameters and the header fields each behave as a map from names to values: a lookup "
  "finds exactly the value stored last under that name (header fields: the first of those under it), storing and erasing affect that "
  "name only, lookups change nothing, and absence is reported as absence, never as another entry or undefined behaviour. Path "
  "parameters are also found by position, in the order of the pattern, and none beyond the last. Making such a container from a list, "
  "a URL or a received message, and writing it back, takes over every entry exactly once and unaltered.",
  ["inputs", "histories"], "all names, values, positions and earlier contents, for every member",
  "The tests try a few members on containers of two or three entries.",
  ["include/fitoria/mime/params_view.hpp", "include/fitoria/web/query_map.hpp", "include/fitoria/web/path_info.hpp",
   "include/fitoria/http/header_map.hpp"],
  [("params_view", "include/fitoria/mime/params_view.hpp"), ("query_map", "include/fitoria/web/query_map.hpp"),
   ("path_info", "include/fitoria/web/path_info.hpp"), ("header_map", "include/fitoria/http/header_map.hpp")],
  cmd="python3 checks/keyed.py", technique="abstract interpretation: one name, its values, and the rest of a map",
  note="The containers of the standard library and of Boost.Beast are modelled by their contracts; filling from a list is decided by "
       "induction over the list. " + AI)

P("C14", "Shared states: the innermost wins, and deriving never disturbs others",
  "Looking up a state by type gives the object of the first map that holds one of that type, in the order innermost to outermost, and "
  "nothing when none does. Adding a map in front or behind, or an object in front, gives a storage with exactly what there was and the "
  "new part in its place, and leaves the storage it was derived from, and every storage sharing maps with it, as they were.",
  ["inputs", "histories"], "all storages of up to three maps, any of which may hold the type asked for",
  "No unit test of the storage itself is built here; the server's tests use one map of each kind.",
  ["include/fitoria/web/state_storage.hpp"],
  [("state_storage", "include/fitoria/web/state_storage.hpp")],
  cmd="python3 checks/states.py", technique="abstract interpretation over lists of shared maps",
  note="States of a scope are kept in one map shared by its routes, as documented; it is not claimed that adding to a scope leaves "
       "routes served before unchanged. " + AI)

P("C15", "A request reaches exactly the route whose pattern and method match it",
  "A path and a method lead to the route whose pattern matches the whole path: literal text, taken literally, is preferred to a "
  "parameter, which matches exactly one non-empty segment, and that to a wildcard, which matches all that follows; a route for the "
  "method itself is preferred to one for any method, and nothing else is ever selected. Adding a route, in whatever order, or "
  "optimising never hides, changes or loses another one, and a second route of the same pattern and method is refused. The parameters "
  "handed over are the segments that matched, each under its own name.",
  ["inputs", "histories"], "all trees (one step of the tree with up to two literal children, by induction over the depth), paths, "
  "methods and patterns",
  "The router is not part of the tests that build here; upstream's tests try a few routes, one insertion order each.",
  ["include/fitoria/web/router.hpp", "include/fitoria/web/path_matcher.hpp"],
  [("router::node", "include/fitoria/web/router.hpp"), ("path_matcher", "include/fitoria/web/path_matcher.hpp")],
  cmd="python3 checks/routing.py", technique="abstract interpretation of one step of the routing tree, with an invariant over siblings",
  note="A path that several patterns match with different literal text, parameters or wildcards is decided by one step of the tree at a "
       "time. Boost's regular expressions are trusted to match as documented. " + AI)

P("C16", "A composed route has all that its scopes and it were given, in order",
  "A route has the method and pattern it was made with, its pattern preceded by the prefixes of its scopes, the outermost first; a pattern "
  "that is invalid on its own or once joined does not build. Its handler runs inside the middlewares of its scopes and then its own, in "
  "the order they were added, the first being the outermost. Its own states are found before those of its scope, and those before the "
  "ones of the scopes around; adding middlewares or routes, or a state to a route, never changes what it was derived from.",
  ["inputs", "histories"], "all methods, states and values; routes with up to two middlewares below scopes with up to one, and nested scopes",
  "Upstream's tests of routes and scopes are not built here and use two or three fixed compositions.",
  ["include/fitoria/web/route.hpp", "include/fitoria/web/scope.hpp", "include/fitoria/web/routable.hpp",
   "include/fitoria/web/any_routable.hpp", "include/fitoria/core/utility.hpp", "include/fitoria/core/fixed_string.hpp"],
  [("route_impl", "include/fitoria/web/route.hpp"), ("scope_impl", "include/fitoria/web/scope.hpp"),
   ("any_routable", "include/fitoria/web/any_routable.hpp")],
  cmd="python3 checks/compose.py", technique="abstract interpretation with opaque parts; type-level and compile-fail witnesses",
  note="The states of one scope are kept in one map shared by its routes, as documented: adding a state to a scope may be seen by routes "
       "served before, and this is not claimed either way. " + AI)

P("C17", "What is read from a stream is what it gives, byte for byte, and then its end",
  "A buffer's readable bytes are those committed and not yet consumed, in order, whatever sizes are asked for, and the place it gives to "
  "write to lies within it. Reading a stream to its end, writing it to a file or as chunks, or reading it from memory, from a part of a "
  "file or from the body of a message gives exactly its bytes, in order, none lost, repeated or invented, whatever pieces they come in; "
  "an empty piece is not its end. An error of the source or of what is written to is given as it is, and a body that failed is never "
  "ended as if it were complete.",
  ["inputs", "histories", "fault_sequences"], "all buffers, sizes and offsets; streams of up to three pieces of any size, ended, failing or empty at any one of them",
  "Upstream's tests use a few fixed strings, sources that hand over everything at once, and none that fails.",
  ["include/fitoria/core/dynamic_buffer.hpp", "include/fitoria/web/async_read_until_eof.hpp", "include/fitoria/web/async_write_chunks.hpp",
   "include/fitoria/web/async_read_into_stream_file.hpp", "include/fitoria/web/async_readable_vector_stream.hpp",
   "include/fitoria/web/async_readable_file_stream.hpp", "include/fitoria/web/async_message_parser_stream.hpp",
   "include/fitoria/web/any_body.hpp", "include/fitoria/web/any_async_readable_stream.hpp"],
  [("dynamic_buffer", "include/fitoria/core/dynamic_buffer.hpp"), ("async_write_chunks", "include/fitoria/web/async_write_chunks.hpp"),
   ("async_read_some of the streams", "include/fitoria/web/async_readable_file_stream.hpp")],
  cmd="python3 checks/streams.py", technique="abstract interpretation over pieces of bytes of known origin, with sources that may give anything",
  note="The sockets, files and Beast's parser are trusted to do what they report. A buffer is not claimed to be usable after it was "
       "released. " + AI)

P("C18", "Compressing and decompressing streams lose, repeat and invent nothing",
  "A compressing or decompressing stream hands every byte of its source to the coder once and in order, and gives everything the coder "
  "puts out once and in order, however much or little that is; a compressed body is finished exactly once, at the end of its source, and "
  "decompression ends where the compressed data end, whatever follows them. A failure of the source or of the coder, damaged data "
  "included, is given as a failure and never looks like a complete body. Every coder's state is set up for its format, released exactly once, and never used after that, also when streams are moved "
  "or assigned.",
  ["inputs", "histories", "fault_sequences"], "all contents and sizes of pieces below 2 GiB, all outcomes of up to three calls of the coder in one read, sources of up to two "
  "pieces that end or fail anywhere",
  "Upstream's tests use three short texts that fit into one piece and one call of the coder.",
  ["include/fitoria/web/middleware/detail"],
  [("async_deflate_stream / async_inflate_stream", "include/fitoria/web/middleware/detail/async_inflate_stream.hpp"),
   ("gzip_inflate_stream / gzip_deflate_stream", "include/fitoria/web/middleware/detail/gzip_stream.hpp"),
   ("async_brotli_deflate_stream / async_brotli_inflate_stream", "include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp")],
  cmd="python3 checks/coders.py", technique="abstract interpretation of the streams over the contract of one call of zlib, Beast or Brotli, with ghost traces of input and output and a typestate of the coders",
  note="The libraries are trusted to keep their documented contracts. " + AI)

P("C19", "A server's session answers every request once, and keeps requests apart",
  "On every connection, plain, local or TLS, each request is read with the header, body and time limits the server was built with, is "
  "passed once to the handler of its route with the request's own data, and gets exactly one response, carrying the handler's status, "
  "headers and whole body, or 400 or 404 when the target, its headers' size or the lack of a route leaves no handler, and saying rightly "
  "whether the connection is kept. The next request is read only when the connection is kept and the body was read to its end, from what "
  "follows it, and never after a websocket, which runs only for an upgrade its handler accepted; 100 (Continue) goes out when asked for, "
  "before the handler runs. Any failed read or write ends the session with its error and without another response.",
  ["histories", "inputs", "fault_sequences", "configurations"], "all requests, handlers' responses and limits, each read and write succeeding or failing; every course of one request to the "
  "reading of the next",
  "Upstream's tests send well-formed single requests over connections that never fail.",
  ["include/fitoria/web/http_server.hpp"],
  [("http_server::do_session_impl", "include/fitoria/web/http_server.hpp"), ("http_server::do_response", "include/fitoria/web/http_server.hpp"),
   ("http_server::builder", "include/fitoria/web/http_server.hpp")],
  cmd="python3 checks/session.py", technique="abstract interpretation of the session's coroutines with the libraries' results as uninterpreted terms, and rules over the trace of each course",
  note="The parser, serializer, sockets and timers are trusted to do what they document; the texts of the error responses are not "
       "claimed. " + AI)

P("C20", "Requests and responses carry exactly what they are built with",
  "Each function of a builder of requests or responses changes the one part it is named for, and leaves the others alone: setting a header "
  "replaces the values of its name, inserting one keeps them, and a body given as text, bytes, JSON or a stream arrives whole, in a "
  "response with its size, or as chunked or of unknown size, as it was given. Building gives an object with every part, taking "
  "it apart for changes and building it again loses none, and nothing that was given away is used afterwards. A response named after a "
  "status has that status, and otherwise, like a new one, no headers, no body and version 1.1.",
  ["inputs", "programs"], "all parts, names, values and bodies, each function of the builders from every state, both for builders that are kept and for those passed along",
  "Upstream's tests build a handful of messages, and none of those the tests here run builds one at all.",
  ["include/fitoria/web/request.hpp", "include/fitoria/web/response.hpp"],
  [("request_builder", "include/fitoria/web/request.hpp"), ("response_builder", "include/fitoria/web/response.hpp")],
  cmd="python3 checks/message.py", technique="abstract interpretation of the builders over parts that are uninterpreted terms with a moved-away state",
  note="What header and query maps do with a name is claimed with C13, and what a body's stream yields with C17. " + AI)

P("C21", "Handlers get everything they ask for, or are not called",
  "A handler is called exactly once per request, with every argument it asks for, each taken once, in order, from this request, or it is not "
  "called and the response is the refusal of the first argument that cannot be had; its answer (text, bytes, a response, one of several "
  "alternatives, a value or an error, or a type of the user's) becomes the response that stands for it. Typed path parameters, queries, forms, "
  "JSON bodies and shared states arrive with every field read from its own name or position, and what is missing, of the wrong number, "
  "unreadable or of another content type is refused with a 4xx or 5xx status, never given half or with defaults. An exception handler passes on "
  "what the next one answers, and answers 500 whatever the next one throws.",
  ["inputs", "programs"], "all requests, all outcomes of every lookup and conversion, handlers with none, one and several arguments, all kinds of answers",
  "Upstream's tests call a handful of handlers, mostly with requests that fit, and none of those the tests here run calls one at all.",
  ["include/fitoria/web/handler.hpp", "include/fitoria/web/from_request.hpp", "include/fitoria/web/to_response.hpp"],
  [("handler_middleware", "include/fitoria/web/handler.hpp"), ("from_request_t", "include/fitoria/web/from_request.hpp"),
   ("to_response_t", "include/fitoria/web/to_response.hpp"), ("extract_query", "include/fitoria/web/detail/extract_query.hpp"),
   ("exception_handler_middleware", "include/fitoria/web/middleware/exception_handler.hpp")],
  cmd="python3 checks/handlers.py", technique="abstract interpretation of extraction, calling and answering over uninterpreted requests, handlers and answers, for all outcomes of every question asked",
  note="What a path, query or header map finds is claimed with C13 and C15, how text becomes values with C06. Whether a text is JSON or a "
       "form is decided by Boost, whose answer is taken as it is. " + AI)

P("C22", "Encoded request bodies reach the handler decoded, or are refused",
  "Behind the decompressing middleware a request reaches what follows exactly once, with its body decoded by every encoding its "
  "Content-Encoding names (deflate, gzip, brotli, identity, in any letter case), the last named first, without that header and otherwise "
  "unchanged; a request without the header is handed on as it is, and one that names an encoding that is not known, anywhere in the list, "
  "is refused with a 4xx status before anything follows. The logging middleware hands on the request once and unchanged. Both give back "
  "the response of what follows as it is, and let what it throws pass.",
  ["inputs", "programs"], "all requests, lists of up to three encodings of every name and spelling, all outcomes of what follows",
  "Upstream's tests decode one body per encoding; none of those the tests here run sends a request through a middleware.",
  ["include/fitoria/web/middleware/decompress.hpp", "include/fitoria/web/middleware/logger.hpp"],
  [("decompress_middleware", "include/fitoria/web/middleware/decompress.hpp"), ("logger_middleware", "include/fitoria/web/middleware/logger.hpp")],
  cmd="python3 checks/middleware.py", technique="abstract interpretation of the middlewares over uninterpreted requests and lists of encodings, bodies being terms of what decodes them, over every outcome",
  note="That the decoders undo what the encoders did is claimed with C18, how a header's value is found with C13, how it is split with C05. "
       "Only the first of several Content-Encoding lines is looked at, as the header map gives it. " + AI)

P("C23", "A static file is served whole, in part or not at all, as the request asks",
  "Opening a file for a request succeeds exactly when the file can be opened and its time read. It is then answered 400 for an unreadable "
  "If-None-Match, 304 without contents when that is * or any of its tags weakly equals the file's own, 206 with exactly the first sub-range "
  "asked for when Range is valid for the file's size and counts in bytes, 416 with the size for any other Range, and otherwise 200 with the "
  "whole file. The entity tag depends on the file's size and time, and whole and partial answers carry it, the time, the media type of "
  "the path and, when partial, the positions that are sent.",
  ["inputs", "fault_sequences"], "all requests, header texts, files and outcomes of opening them, lists of up to two entity tags",
  "Upstream's tests serve one file with a few headers, and are not part of the tests that run here.",
  ["include/fitoria/web/static_file.hpp"], [("static_file", "include/fitoria/web/static_file.hpp")],
  cmd="python3 checks/files.py", technique="abstract interpretation of opening and answering over files, headers and times that are uninterpreted terms, for all outcomes of every question asked",
  note="What the headers' texts mean is claimed with C07 and C08, how a file's bytes are read with C17. The total length in Content-Range is "
       "not judged: upstream's tests want the length of the part. If-Modified-Since needs a newer standard library than the one here. " + AI)

# ---------------------------------------------------------------- not applicable
P("C90", "Time limits are kept, and no connection is held or starved for ever",
  "A connection that sends nothing, or too slowly, is closed within the configured time, an accepted connection is served in bounded "
  "time while others are busy, and a server that is stopped ends in bounded time.",
  ["schedules", "fault_sequences"], "all schedules, clocks and peers",
  "Tests wait for fixed times on an idle machine.",
  ["include/fitoria/web/http_server.hpp"], [("http_server", "include/fitoria/web/http_server.hpp")],
  na="Quantifies over elapsed time and the scheduling of timers, coroutines and the kernel; no static argument over the source bounds "
     "these. That the limits are set before anything is read is decided with C19.")
P("C91", "Concurrent log records are written whole, in the order of each thread",
  "However many threads log at once, every record appears exactly once, whole, and those of one thread in their order, and none is lost "
  "when the program ends in good order.",
  ["schedules"], "all interleavings of threads and of the logger's coroutine",
  "Tests log from one thread.",
  ["include/fitoria/log"], [("async_logger", "include/fitoria/log/async_logger.hpp")],
  na="Rests on the order in which Asio's channel and strands hand over records and on when the executor runs detached coroutines; the "
     "source shows one send and one receive, and the interleavings lie in Asio, outside what a static analysis of fitoria decides.")
P("C92", "What arrives is what was sent, also through TLS and compression",
  "Bytes written by one side arrive at the other unchanged through TLS, gzip, deflate and brotli, and a certificate that is not valid is "
  "refused.",
  ["inputs", "fault_sequences"], "all contents, certificates and connections",
  "Tests use fixed texts and one certificate.",
  ["include/fitoria/web/http_server.hpp", "include/fitoria/web/middleware"], [("ssl_stream", "include/fitoria/web/http_server.hpp")],
  na="Decided inside OpenSSL, zlib, Brotli, Beast and the kernel, whose sources are not part of the repository; their contracts would be "
     "the whole of the argument. How fitoria drives the coders is decidable and kept apart.")
