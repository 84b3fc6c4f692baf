#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

p("C01", "CSV to proto, end to end: inferred code converts every record faithfully",
  "For every well-formed CSV file with distinct column names and at least one data row, inferring a mapping, generating the .proto and the Go converter from it, compiling both and running the converter on that same CSV yields exactly one message per data row, in order, whose fields hold the values of the row's cells (integers, floats, strings exactly; timestamps as the instant the cell denotes in the inferred layout and configured zone). Reading stops with end-of-file after the last row and no row makes the converter fail.",
  ["inputs", "programs"],
  "every CSV table (distinct column names of any characters; integer, float, timestamp, text and mixed columns; any row count >= 1) and every IANA time zone option",
  "Unit tests compare generated text with a handful of golden strings and run two checked-in examples; whether the generated programs compile and convert correctly depends on arbitrary column names and cell values.",
  ["csvinfer/csvinfer.go", "recordinfer/recordinfer.go", "csvtoproto/csvtoproto.go", "csvtoproto/csvtoproto_go_codegen.go", "csvcoder/csvcoder_file.go", "csvtoprotoparse/csvtoprotoparse.go"],
  [("type inference", "recordinfer/recordinfer.go"), ("Go template", "csvtoproto/csvtoproto_go_codegen.go"), ("row parser", "csvcoder/csvcoder_row.go")],
  observe=["messages returned by the generated Reader"])

p("C02", "Record inference picks the most specific type that parses every sample",
  "Inference from a header and data rows yields one field per column, in column order, with tags 1..n, the original column name and a field name that is a legal proto identifier distinct from the others. The type is a timestamp iff some supported layout parses every value of the column to an instant a Timestamp can hold, else int64 iff every value is a base-10 signed 64-bit integer, else float iff every value is a number in float32's range, else string; a timestamp column carries such a layout and the configured zone name. The comment states the number of rows, of distinct values and the five most common values with counts; Code() is a valid .proto declaring those fields; FormattedMapping is the text form of the mapping merged over the template.",
  ["inputs", "configurations"],
  "every table of cells, every option set",
  "The tests infer from a handful of small tables; the claim quantifies over all columns of values, including columns mixing types and ambiguous layouts.",
  ["recordinfer/recordinfer.go", "recordinfer/recordinfer_numbers.go", "recordinfer/recordinfer_timestamps.go", "recordinfer/recordinfer_strings.go", "csvinfer/csvinfer.go"],
  [("ordered list of type inferrers", "recordinfer/recordinfer.go"), ("statistical comment", "recordinfer/recordinfer.go")])

p("C03", "Inference rejects unusable tables and csvinfer agrees with recordinfer",
  "Record inference accepts a row iff it has as many cells as the first row, and yields a result iff there are at least two rows and one column; a rejected row leaves the inferrer as it was. Inferring from CSV text gives exactly the result of inferring from the records that the text encodes (quoting, embedded newlines and CRLF line ends included), and fails on malformed CSV.",
  ["inputs", "histories"],
  "every sequence of rows added, ragged or not, and every CSV text encoding of a table",
  "Tests only exercise a few rectangular tables and do not vary the CSV encoding or interleave rejected rows.",
  ["recordinfer/recordinfer.go", "csvinfer/csvinfer.go"],
  [("row length check", "recordinfer/recordinfer.go"), ("csv reader loop", "csvinfer/csvinfer.go")])

p("C04", "The generated .proto is valid proto3 and declares exactly the mapped fields",
  "For every valid mapping, the generated .proto file is accepted by a proto3 compiler and declares exactly one message, with the mapping's package and message name and exactly the non-ignored column fields followed by the extra field definitions, each with its declared name, type and tag, no matter what text column names and comments contain. Its imports are exactly the set of imports the declared fields require, each once and in sorted order, and every field's comment text is preserved in the comment attached to it.",
  ["inputs", "programs"],
  "every mapping with legal identifiers, distinct names and tags, arbitrary column names and comments, ignored columns, imports and extra fields",
  "Golden tests cover a few mappings; arbitrary comment text, import overlap and ignored/extra combinations are not sampled and the output is never given to a proto compiler.",
  ["csvtoproto/csvtoproto.go"],
  [("protoCode", "csvtoproto/csvtoproto.go"), ("formatProtoComment", "csvtoproto/csvtoproto.go"), ("importStatements", "csvtoproto/csvtoproto.go")])

p("C05", "The generated Go converter implements the mapping",
  "For every valid mapping of int32, int64, float, double, string, google.protobuf.Timestamp and google.protobuf.Duration columns, the generated Go code compiles against the message generated from the mapping's own .proto, and its Reader turns each CSV row into a message with every mapped column converted into the named field (timestamps by the column's layout in its zone, UTC if none; durations with the column's unit suffix), whatever the order of the columns in the file, with ignored and unmapped columns contributing nothing. A file lacking a mapped column, a row with an unparsable cell and a ragged row each give an error, and hooks added with AddReaderParseRowHook run once per row in the order added.",
  ["inputs", "programs"],
  "every mapping with legal identifiers and every CSV file, matching the mapping or not",
  "Golden-text tests do not compile the output, and the two checked-in examples fix one mapping each.",
  ["csvtoproto/csvtoproto_go_codegen.go", "csvtoprotoparse/csvtoprotoparse.go", "csvcoder/csvcoder_row.go", "csvcoder/csvcoder_file.go"],
  [("goFileTemplate", "csvtoproto/csvtoproto_go_codegen.go"), ("timeTypeTemplate / durationTypeTemplate", "csvtoproto/csvtoproto_go_codegen.go")])

p("C06", "GenerateCode writes exactly what it reports, where it was asked to",
  "For every request, GenerateCode either fails or writes exactly one file per requested output, at workspace/directory/file name (the request's workspace, else the service's default; the file name given, else the snake-case message name with .proto or .go, else the untitled default), each with exactly the contents and workspace-relative path that the response reports, and nothing else. Absolute directories or file names, one path for both outputs, a missing mapping and an unmappable column are rejected with InvalidArgument, code generation errors leave nothing written, and a failing write is reported as NotFound, PermissionDenied or Unknown according to its cause.",
  ["inputs", "fault_sequences", "configurations"],
  "every GenerateCode request (mapping, workspace, directories, file names, absent or present outputs) and every write failure",
  "The tests use one mapping and two requests with a file writer that does nothing and never fails, so neither paths, contents nor error codes are observed.",
  ["service/service_generate_code.go", "service/service.go", "service/service_infer.go"],
  [("protoPath/converterGoPath/pathFromParts", "service/service_generate_code.go"), ("fileErrToStatusErr", "service/service_infer.go")],
  observe=["FileWriterFunc calls", "GenerateCodeResponse", "gRPC status code"])

p("C07", "Infer service: same answer inline and by path, faithful options and errors",
  "For every CSV example, Infer gives the same mapping whether the example is passed inline or by path, equal to the library's inference under the request's message, package, Go and time-zone options (UTC if none is named). A request without exactly one usable example or with an unknown zone is rejected with InvalidArgument, a failing read with NotFound, PermissionDenied or Unknown by cause, an example that cannot be inferred with Unknown; Infer writes no file and reads only the named one.",
  ["inputs", "fault_sequences"],
  "every Infer request and every outcome of the file read",
  "Only an empty request and one inline two-column example are tested; file input, zones and failures never are.",
  ["service/service_infer.go"],
  [("Infer", "service/service_infer.go"), ("fileErrToStatusErr", "service/service_infer.go")])

p("C08", "csvcoder decodes rows by column name into struct fields",
  "A row struct's public fields take the value of the column named by their csv tag (or field name), decoded with the registry's codec for their type; fields tagged csv-skip are left alone; columns may come in any order, extra columns are ignored, and a later column of the same name wins. Parsing fails if and only if a required column is missing, a needed cell is absent from the row, or a cell does not decode, and the error names the missing columns or the row concerned.",
  ["inputs", "programs"],
  "every registered row struct type, header, and row",
  "Tests parse a few fixed structs and rows; the claim is about any struct shape, header permutation and malformed row.",
  ["csvcoder/csvcoder_row.go", "csvcoder/csvcoder_cell.go"],
  [("RowParser", "csvcoder/csvcoder_row.go"), ("ParseCell", "csvcoder/csvcoder_cell.go")])

p("C09", "csvcoder file parsing delivers every record once, in order, with positions",
  "Reading a CSV file yields, per record after the header and in file order, the decoded row struct; ReadAll calls the callback once for each and stops at the first error, which it returns; end of file is reported as io.EOF. A row's error names the file path and the one-based row (header included) it came from, and each row and cell context reports that same position and header; reading may go on after a bad row; row structs of any two types can be read in the same process, concurrently too.",
  ["inputs", "histories"],
  "every CSV file content, callback behaviour and position of the first bad cell",
  "Tests read a few short files and check one error string; no test varies where the first fault is, or what the callback does.",
  ["csvcoder/csvcoder_file.go", "csvcoder/csvcoder_positions.go", "csvcoder/csvcoder_row.go"],
  [("FileParser.Read/ReadAll", "csvcoder/csvcoder_file.go"), ("Position", "csvcoder/csvcoder_positions.go")])

p("C10", "textcoder built-in codecs round-trip and accept exactly Go's text forms",
  "For every value of a built-in or named basic type, marshalling and unmarshalling gives the value back (floats to the six decimals that are documented to be printed), and unmarshalling accepts exactly the texts that Go's strconv accepts for the type's kind and bit size (booleans: the documented word list, in any letter case), giving exactly strconv's value. Types implementing encoding.TextMarshaler/TextUnmarshaler are coded by those methods; a text that is rejected yields an error.",
  ["inputs"],
  "every basic kind, named types over it, every value and every text",
  "The tests check a few values per kind; acceptance at range boundaries and of odd texts is not sampled.",
  ["textcoder/textcoder_builtins.go", "textcoder/textcoder.go"],
  [("basicTypeEncoder/Decoder table", "textcoder/textcoder_builtins.go")])

p("C11", "textcoder registry: registered codecs apply exactly as registered",
  "After any history of registrations, marshalling and unmarshalling a type uses the codec most recently registered for exactly that type, else the type's own text methods, else that registry's codec of the basic type of its kind, else reports an error; registrations in one registry do not affect another. Registration accepts exactly the documented encoder and decoder signatures, custom codecs receive the caller's context and their errors are returned, and adding values to a context never changes the context it was derived from.",
  ["histories", "inputs"],
  "every sequence of registrations and look-ups over several registries and types, every function signature, and every chain of context values",
  "Tests register a few codecs once each; histories of re-registration and isolation between registries are not explored.",
  ["textcoder/textcoder.go", "textcoder/textcoder_builtins.go"],
  [("Registry maps", "textcoder/textcoder.go"), ("Context", "textcoder/textcoder.go")],
  state=[("registry", "codec per reflect.Type", "textcoder/textcoder.go")])

p("C12", "csvtoprotoparse converts cell texts exactly",
  "The scalar parsers accept exactly the texts of Go's strconv for base-10 integers, floats and doubles of the stated size and give the same value; a timestamp or duration parsed with a layout, zone and unit denotes exactly the instant or length the text denotes, and its protobuf form converts back to it. Values outside the range of the protobuf types, and texts that denote none under that layout or with that unit appended, are rejected with an error.",
  ["inputs"],
  "every text, layout, zone and unit suffix",
  "The package has no tests of its own beyond use in two examples.",
  ["csvtoprotoparse/csvtoprotoparse.go"],
  [("ParseInt32..ParseDuration, TimeToTimestamp", "csvtoprotoparse/csvtoprotoparse.go")])

p("C13", "protocp copies all messages to all writers, finalizes and reports each failure",
  "Copying gives each writer every message the reader produced, once and in order, and then finalizes each writer once; a read, write or finalize error is returned, wherever it happens, no message is skipped or repeated before it, and the input file is closed. A composite writer behaves as writing to each of its writers in turn, and finalizes every one of them even if one fails.",
  ["inputs", "fault_sequences"],
  "every message stream, any number of writers, and every placement of a read, write, finalize or open failure",
  "No test in the package injects a failure or uses more than one writer.",
  ["protocp/protocp.go", "protocp/protocp_writers.go"],
  [("Copier", "protocp/protocp.go"), ("composite writer", "protocp/protocp_writers.go")])

p("C14", "codegen.Imports gives each import path one unique usable package name",
  "After any history of registrations, Register gives a path one local name, a Go identifier that qualifies its symbols, and gives the same import when asked again; no two paths share a name (blank imports apart), and looking up by path or by name returns what was registered. An alias that belongs to another path is refused without changing anything. The import fragments form a valid Go import block that binds exactly those names to those paths, separate Imports values are independent, and concurrent registration gives the same guarantees.",
  ["histories", "schedules"],
  "every sequence (and concurrent mix) of Register, RegisterAliased and look-ups, of paths whose last elements begin with an identifier",
  "Tests register a few fixed paths sequentially.",
  ["codegen/codegen_imports.go"],
  [("Imports", "codegen/codegen_imports.go")],
  state=[("imports table", "path and name maps under a mutex", "codegen/codegen_imports.go")])

p("C15", "textpos agrees with go/token on files, lines and positions",
  "For every history of adding files and lines, a textpos file set reports the same bases, sizes, line counts, line starts, offsets and positions as go/token's FileSet for the same calls, and accepts and rejects the same operations. Pos and Offset invert each other within a file, and looking a position up by line and column inverts computing them.",
  ["histories", "inputs"],
  "every sequence of file-set and file operations and every position in and around the files",
  "Tests cover a few files; the equivalence is over all histories and offsets.",
  ["textpos/textpos_from_go_token.go", "textpos/textpos.go"],
  [("FileSet/File", "textpos/textpos_from_go_token.go")])

p("C16", "sexpr: reading a printed form gives the form back",
  "For every tree of lists, symbols, strings and numbers, written with arbitrary whitespace, comments and quote marks between forms, the reader yields exactly that tree: lists with the same subforms in order, symbols with the same name, strings with the same characters, numbers with the same value (64-bit integers exactly, in any base; floats as the nearest float64); 'x reads as (QUOTE x). Whitespace and comments never change the values read, and a custom form factory sees the same forms.",
  ["inputs"],
  "every form tree and every layout of it as text",
  "Tests read a few dozen fixed texts.",
  ["sexpr/sexpr.go", "sexpr/sexpr_factory.go", "sexpr/sexpr_sourcefile.go"],
  [("read table and macros", "sexpr/sexpr.go")])

p("C17", "sexpr: positions are exact and malformed text is an error, never a crash",
  "Each form's reported source span covers exactly the characters it was read from, including its line and column; the text of any form, read alone, gives an equal form. Any input is either read to the end or rejected with an error, without crashing or looping, however deeply nested, and unbalanced lists or unterminated strings are always rejected.",
  ["inputs"],
  "every text, well-formed or not",
  "Tests assert a few positions and a few error cases.",
  ["sexpr/sexpr.go", "sexpr/sexpr_sourcefile.go", "textpos/textpos.go"],
  [("cursorOffset/makeSpan", "sexpr/sexpr.go"), ("sourceFile", "sexpr/sexpr_sourcefile.go")])

p("C18", "wirepath strings and paths convert to each other without loss",
  "For every path of field, repeated and map elements, formatting it and parsing the text gives an equal path, and every text that parses is re-formatted to a text that parses to the same path. Text that is not a path is rejected with an error, never a panic.",
  ["inputs"],
  "every path (any depth, every map key kind and key value) and every text",
  "Tests parse paths of one or two elements and a few keys.",
  ["wirepath/wirepath_from_string.go", "wirepath/wirepath_protostrings.go", "wirepath/wirepath.go"],
  [("ParseString", "wirepath/wirepath_from_string.go"), ("String", "wirepath/wirepath_protostrings.go")])

p("C19", "wirepath evaluation returns the addressed value or an error",
  "For every message and path, evaluation returns exactly the value that following the fields, list indices and map keys of the path in the message reaches; a path that does not exist in the message's type, an index out of range, a map key of another type or a step beyond a missing map key gives an error, and a path that ends in a missing map key gives the invalid value. No path or message makes evaluation panic or modify the message.",
  ["inputs"],
  "every message instance of a schema with nested, repeated and map fields and every path, valid or not",
  "Tests evaluate a few fixed paths on a few messages.",
  ["wirepath/wirepath.go", "wirepath/wirepath_value.go"],
  [("GetValue", "wirepath/wirepath.go")])

p("C20", "iri.Parse accepts exactly the RFC 3987 IRI references",
  "Parsing accepts a string iff it is derivable from the RFC 3987 IRI-reference grammar (scheme, user information, every host form, port, path, query and fragment, with every character range) and its runs of percent-escapes are UTF-8; the IRI returned is that string, Check agrees with Parse, and String is the IRI in angle brackets. Any other string is rejected with an error; nothing panics.",
  ["inputs"],
  "every string, derived from the grammar, a mutation of one, or random",
  "Tests list a few dozen IRIs; the grammar has many productions (IPv6 forms, private-use characters, empty components).",
  ["rdf/iri/iri.go"],
  [("grammar regular expressions", "rdf/iri/iri.go")])

p("C21", "IRI resolution follows RFC 3986 section 5.2",
  "Resolving any legal reference against any legal base with a scheme gives the target that the RFC 3986 5.2 algorithm (transform, merge, remove dot segments) gives, component by component, including empty authorities, ports, queries and fragments (of the empty reference's target the fragment is left open: the repository keeps the base's). Resolution of an absolute reference without dot segments is the identity and the result is always absolute.",
  ["inputs"],
  "every base IRI with a scheme and every reference",
  "Tests cover the RFC's example table and little else.",
  ["rdf/iri/iri_resolve.go", "rdf/iri/iri.go"],
  [("resolveReference / resolvePath", "rdf/iri/iri_resolve.go")])

p("C22", "IRI percent-encoding normalization is idempotent and meaning-preserving",
  "Normalizing percent-encoding decodes exactly the escapes of characters that IRIs allow unescaped as unreserved, keeps every other escape (with upper-case digits), leaves all other text as it was, and is idempotent, and keeps legal IRIs legal; a string with an escape that is not UTF-8 keeps its meaning. The result identifies the same resource: decoding every escape of input and output gives the same bytes.",
  ["inputs"],
  "every string with valid, invalid, multi-byte and partial percent escapes",
  "Tests list a dozen strings.",
  ["rdf/iri/iri.go"],
  [("NormalizePercentEncoding", "rdf/iri/iri.go")])

p("C23", "N-Triples: printing and parsing are inverse",
  "For every triple (absolute IRIs in percent-normal form, legal labels and tags), printing it gives one line of valid N-Triples that parses back to an equal triple, whatever characters its literals, IRIs and labels contain. Two lines that encode the same triple with different escapes, spacing or comments parse to equal triples, and equality and canonical forms agree.",
  ["inputs"],
  "every triple and every N-Triples spelling of it",
  "The W3C suite has about 70 fixed files; it does not check printing.",
  ["rdf/ntriples/ntriples.go"],
  [("String methods and escapes", "rdf/ntriples/ntriples.go")])

p("C24", "N-Triples: a line is accepted iff the grammar derives it",
  "A line parses iff it is a comment or a triple of the W3C N-Triples grammar with absolute IRIs whose escapes denote allowed characters, perhaps followed by a comment; the components are those written, IRIs percent-normalized. A document parses to the triples of its lines in order, comments and blank lines skipped, and is rejected with the number of its first wrong line if it has one. Nothing panics.",
  ["inputs"],
  "every line and document: grammar-derived, mutated or random",
  "The W3C suite lists some positive and negative files; the grammar's character ranges and optional parts are far larger.",
  ["rdf/ntriples/ntriples.go"],
  [("line regular expressions", "rdf/ntriples/ntriples.go")])

p("C25", "RDF/XML: any serialization of a graph reads as that graph",
  "For every RDF graph and every legal RDF/XML serialization of it (typed nodes, property attributes, nested nodes, parseType Resource/Literal/Collection, rdf:li, rdf:ID with reification, xml:base and xml:lang scoping), reading it yields exactly that graph up to renaming of blank nodes. Blank nodes created by the reader are distinct from each other and from those the document names, and the graph printed as N-Triples reads back as the same graph.",
  ["inputs"],
  "every graph and every choice of abbreviation for each of its nodes and properties",
  "The W3C suite fixes about 170 documents; combinations of abbreviations with nested base and language scopes are not sampled.",
  ["rdf/rdfxml/rdfxml.go", "rdf/rdfxml/rdfxml_xmlname.go"],
  [("nodeElement/propertyElement productions", "rdf/rdfxml/rdfxml.go")])

p("C26", "RDF/XML: illegal documents are rejected, no document crashes the reader",
  "A document that breaks an RDF/XML rule (forbidden names, duplicate rdf:ID under one base, illegal ID or nodeID, conflicting attributes, bad parseType content, stray text, malformed XML) is rejected with an error, wherever in the document the fault is. No input makes the reader panic, exhaust its stack or fail to terminate, however deep its elements nest.",
  ["inputs"],
  "every legal document with one injected fault at any place, and arbitrary XML and bytes",
  "The W3C suite holds about 40 negative documents, each with its fault at one place.",
  ["rdf/rdfxml/rdfxml.go"],
  [("name checks and declareID", "rdf/rdfxml/rdfxml.go")])

p("C27", "XML inference yields a valid schema that covers every example",
  "For every set of XML example elements, inference yields a deterministic, valid .proto whose message has exactly one field per attribute and child element name seen, repeated iff some parent has more than one such child, with a scalar type that parses every value seen and a comment that counts the values truthfully (and shows none of them if examples are switched off). Names that clash or that protocol buffers do not allow still give distinct legal names. Unusable input gives an error, never a panic.",
  ["inputs"],
  "every XML document and choice of record element",
  "Tests infer from two or three documents and compare golden text.",
  ["xmlinfer/xmlinfer.go", "xmlinfer/xmlinfer_string_fields.go"],
  [("inference", "xmlinfer/xmlinfer.go")])

p("C28", "Generation is deterministic and leaves its inputs unchanged",
  "Inferring, generating code and formatting mappings from equal inputs gives byte-identical output every time, in every process and regardless of what ran before or runs concurrently, and never modifies the mapping, rows or options passed in.",
  ["inputs", "histories", "schedules"],
  "every input of the inference and generation entry points, any history of other calls, any number of concurrent callers",
  "Tests run each generator once per input in a fresh state.",
  ["recordinfer/recordinfer.go", "csvtoproto/csvtoproto.go", "csvtoproto/csvtoproto_go_codegen.go", "service/service_generate_code.go", "xmlinfer/xmlinfer.go"],
  [("sorted imports and keys", "csvtoproto/csvtoproto.go")])

p("C29", "protoreflectcmp compares protobuf lists by value, with lists and with slices",
  "With the package's cmp option (next to protocmp.Transform), a protoreflect.List compares equal to another list, or to a slice of generated messages or of the Go type that the list API uses for its elements, iff both have the same element type and the same number of elements and each element equals its counterpart as protobuf values; an unset list counts as empty. Different element types compare equal only with IgnoreElementType (which also admits []proto.Message). The result is reflexive (NaN aside), symmetric, agrees between Equal and Diff, is the same inside of structs, maps and interfaces; two plain slices compare as they do without the option, and no comparison panics.",
  ["inputs"],
  "every pair of lists and slices, of every element kind, generated or dynamic, set or unset",
  "Tests compare a few fixed pairs.",
  ["internal/protoreflectcmp/protoreflectcmp.go"],
  [("Transform", "internal/protoreflectcmp/protoreflectcmp.go")])

p("C30", "The xtoproto command writes exactly the files its arguments ask for, or fails",
  "Run with a CSV file the command writes generated/example.proto and generated/exampleconv.go below the default workspace, holding the code for the mapping inferred from that file; run with --codegen_request_json it writes the converter of the request file's mapping at the given root and short path (and the .proto the request asks for below the same root); run with --codegen_request it carries out the request as it is, apart from --codegen_convert_go_out. Old outputs are replaced entirely, missing directories are made, no other file is created or changed, the response is printed, and the exit status is 0. Whatever goes wrong (missing or unusable input, bad request, a place that cannot be written to) gives a message and a non-zero exit status, and no file but the outputs is touched.",
  ["inputs", "configurations", "fault_sequences"],
  "every CSV file, request, combination of the flags, spelling of the paths and content of the directories",
  "The command has no test; the build runs it on two requests.",
  ["cmd/xtoproto/xtoproto.go", "service/service_generate_code.go"],
  [("run", "cmd/xtoproto/xtoproto.go"), ("runConverterCodeGen", "cmd/xtoproto/xtoproto.go")])

p("C31", "The playground answers as the service does, and never dies",
  "On a web page, for every CSV text and every pair of request texts, the playground's function returns JSON that holds what the service natively infers and generates for that text with the playground's defaults overridden by the request texts, or an error where the service gives one (with the inferred mapping if only the generation failed). The effective request it returns holds the requests that were carried out, and sent again gives the same answer. No request makes the program end or throw, and no request influences the answer to a later one.",
  ["inputs", "histories"],
  "every CSV text, infer request text and code generation request text, any sequence of requests",
  "The playground has no test; it is only compiled.",
  ["playground/playground.go", "service/service.go"],
  [("handleJSRequest", "playground/playground.go")])

p("C32", "xtoproto_web gives out its static files and nothing else",
  "The web server answers a request with a static file of the playground iff the request's path, decoded and cleaned, is that file's name on the web (the index for the root), with exactly the content the file has among the runfiles; every other path, however spelled, gives no content of any other file. Run with --output_dir it writes exactly those files there, replacing old ones, or fails with a message and a non-zero exit status.",
  ["inputs", "configurations", "fault_sequences"],
  "every request path and method, every content and layout of the runfiles tree",
  "The program has no test.",
  ["cmd/xtoproto_web/xtoproto_web.go"],
  [("filesys.Open", "cmd/xtoproto_web/xtoproto_web.go"), ("outputGithubPagesFiles", "cmd/xtoproto_web/xtoproto_web.go")])

p("C33", "generate_pb_go_files collects every generated Go file below the import path",
  "For every runfiles tree, the program copies each .go file whose path lies below the import path, wherever in the tree, to the rest of its path below the output directory, byte for byte, replacing old files; it writes no other file, and fails with a message and a non-zero exit status if a file cannot be read or written.",
  ["inputs", "configurations", "fault_sequences"],
  "every runfiles tree (directory or manifest), import path and state of the output directory",
  "The program has no test.",
  ["releasing/generate_pb_go_files/generate_pb_go_files.go"],
  [("destination", "releasing/generate_pb_go_files/generate_pb_go_files.go")])

p("C34", "make_release makes the tagged release and its pages, or stops where it fails",
  "Run in a clean workspace, make_release leaves a release branch one commit after main that adds exactly the .pb.go files below proto and carries the tag, and, checked out, a branch at the main repository's gh-pages with the generated web files put over it; main, other branches and stray files stay as they were. If the workspace has changes or a step fails (also one it does not do itself: git, bazel, cp), it exits non-zero with a message and takes no later step, so that there is never a tag without the generated files or a request to push half a release.",
  ["inputs", "configurations", "fault_sequences"],
  "every workspace, combination of flags (relative and absolute paths), output of the generators and failing step",
  "The program has no test.",
  ["releasing/make_release/make_release.go"],
  [("run", "releasing/make_release/make_release.go")])

p("C35", "generate_test_cases turns a W3C manifest into exactly its approved tests",
  "For every manifest of W3C parser tests and every content of the files it names, generate_test_cases writes a valid Go package whose Positives and Negatives are the approved tests of each kind in the order of the manifest, with names, document URLs, descriptions and file contents byte for byte; a manifest or file that cannot be read gives an error and leaves the old output alone. The checked-in package rdftestcases is its output for the checked-in files.",
  ["inputs", "fault_sequences"],
  "every manifest and set of files",
  "The program has no test; the tests that use its output see what is in it, not what is missing.",
  ["rdf/rdfxml/generate_test_cases/generate_test_cases.go", "rdf/rdfxml/rdftestcases/rdftestcases.go"],
  [("generateCode", "rdf/rdfxml/generate_test_cases/generate_test_cases.go"), ("loadCases", "rdf/rdfxml/generate_test_cases/generate_test_cases.go")])

p("C36", "The playground's page shows the answer to the texts it holds",
  "After every sequence of edits to the page's three boxes, made before or after the program has loaded, the page shows the error, or the names and every character of the .proto file and the converter, that the program answers for the texts the boxes hold. The CSV and any request text the user wrote stay as they are, and an empty request box is filled with the request that was carried out. Errors, failed highlighting and earlier answers never keep a later answer from being shown.",
  ["inputs", "histories", "schedules"],
  "every sequence of edits, every answer of the program, every order of loading the page and the program",
  "The page has no test.",
  ["playground/index.html", "playground/playground.go"],
  [("update", "playground/index.html"), ("setCode", "playground/index.html")])

p("C37", "The Bazel rules build: actions make their outputs, libraries have their deps",
  "For every package, in the main or an external repository, and every request, the library of go_xtoproto_converter_library has one source, made from the request alone by an action whose only effect is that file, at the path Bazel expects, holding the converter GenerateCode gives; its name, import path, visibility and further attributes are the caller's, and its deps cover the caller's (whose list stays as it is) and all that the source imports. write_go_proto_srcs has the checked-in file replaced by the exact bytes of the library's one generated source; a library with none or several, or with different import paths, is refused.",
  ["inputs", "configurations"],
  "every package, target name, visibility, list of deps, request and set of generated sources",
  "The rules have no test; the examples build two libraries of one form in the main repository.",
  ["bazel/defs.bzl", "bazel/write_go_generated_srcs.bzl", "cmd/xtoproto/xtoproto.go"],
  [("_go_xtoproto_converter_impl", "bazel/defs.bzl"), ("_output_go_library_srcs_impl", "bazel/write_go_generated_srcs.bzl"), ("runConverterCodeGen", "cmd/xtoproto/xtoproto.go")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P))
