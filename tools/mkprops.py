#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
L = "lib/go/src/thrift/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": [L + f if "/" not in f else f for f in files],
         "mechanism": [{"name": n, "where": (L + w if "/" not in w else w)} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": L + w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("P01", "Binary protocol writes exactly the Thrift binary encoding",
 "For every well-formed sequence of protocol write calls, the bytes the binary protocol hands to its transport by the time of the flush are exactly the Thrift binary encoding of those calls: big-endian fixed-width integers and IEEE doubles, one-byte booleans (1/0), 4-byte length-prefixed strings and binaries, field headers of type byte plus 16-bit id, a single 0 byte as field stop, and collection headers of element type byte(s) plus 32-bit size. A message header is the versioned form 0x8001 0000|type, name, sequence id with strict writing, and name, type byte, sequence id without it. Several messages written one after another on the same protocol object are encoded independently of each other.",
 ["inputs", "programs"], "all sequences of write calls (values, types, ids, names, nesting, number of messages), both strict settings",
 "the tests write a fixed list of about a dozen values per type and read them back with the same code, so any symmetric change of the wire format and any value- or sequence-dependent error goes unseen",
 ["tbinary_protocol.go", "ttype.go"],
 [("WriteMessageBegin / WriteFieldBegin / Write*Begin", "tbinary_protocol.go"), ("ThriftTypeId maps BINARY to STRING on the wire", "ttype.go")],
 ["bytes written to the underlying transport"])
prop("P02", "Binary protocol decodes every valid encoding to the encoded values",
 "Reading any byte stream that is a valid Thrift binary encoding yields, call by call, exactly the encoded names, types, field ids, sizes and values, and leaves the transport positioned exactly after what was read, so that following messages on the same connection decode as well. Message headers are accepted in the versioned form always and in the unversioned form exactly when strict reading is off; any other version is reported as a bad-version error.",
 ["inputs", "programs"], "all valid encodings, including ones this library would not itself have written, and all sequences of messages read through one protocol object",
 "the tests read back only what the same library wrote, from a handful of values, one value per stream",
 ["tbinary_protocol.go"],
 [("ReadMessageBegin version handling", "tbinary_protocol.go"), ("readStringBody / readAll consume exactly the announced bytes", "tbinary_protocol.go")],
 ["results of the read calls", "bytes left in the transport"])
prop("P03", "Compact protocol writes exactly the Thrift compact encoding",
 "For every well-formed sequence of protocol write calls, the bytes the compact protocol produces are exactly the Thrift compact encoding: zigzag varints for integers, the packed form (delta in the high nibble) for field headers whose id exceeds the previous id of the same struct by 1 to 15 and type byte plus zigzag id otherwise, booleans of fields folded into the field header and one byte 1/2 elsewhere, packed sizes up to 14 for lists and sets, a single 0 byte for an empty map, little-endian doubles, varint lengths for strings, and the message header 0x82, version|type<<5, sequence id varint, name. Field-id deltas are tracked per struct to any nesting depth, starting from 0 in every struct and resuming where the enclosing struct was when a nested one ends.",
 ["inputs", "programs"], "all sequences of write calls (values, types, field id orders, nesting depth, number of messages on one protocol object)",
 "the tests read back single values with the same code; they contain no nested structs beyond one level, no long-form ids and no large collections",
 ["tcompact_protocol.go"],
 [("writeFieldBeginInternal delta encoding", "tcompact_protocol.go"), ("lastField stack push/pop", "tcompact_protocol.go"), ("writeVarint32/64 and zigzag", "tcompact_protocol.go"), ("writeCollectionBegin", "tcompact_protocol.go")],
 ["bytes written to the underlying transport"],
 [("lastField/lastFieldId", "stack of previous field ids", "tcompact_protocol.go"), ("booleanField", "pending boolean field header", "tcompact_protocol.go")])
prop("P04", "Compact protocol decodes every valid encoding to the encoded values",
 "Reading any byte stream that is a valid Thrift compact encoding yields, call by call, exactly the encoded names, message types (call, reply, exception, oneway), sequence ids, field types and ids, sizes and values (including boolean fields of either value and non-minimal but valid forms such as long-form field ids and sizes), and leaves the transport positioned exactly after what was read. Field ids are recovered correctly through any nesting of structs and across any number of messages read through one protocol object. A wrong protocol id or version is reported as a bad-version error.",
 ["inputs", "programs"], "all valid encodings, including ones this library would not itself have written, any nesting, any number of messages through one protocol object",
 "the tests read back only what the same library wrote, single values, no boolean fields, no deep nesting",
 ["tcompact_protocol.go"],
 [("ReadFieldBegin delta decoding and boolean folding", "tcompact_protocol.go"), ("ReadStructBegin/ReadStructEnd stack", "tcompact_protocol.go"), ("readVarint32/64", "tcompact_protocol.go"), ("getTType", "tcompact_protocol.go")],
 ["results of the read calls", "bytes left in the transport"],
 [("lastField/lastFieldId", "stack of previous field ids", "tcompact_protocol.go")])
prop("P05", "JSON protocol round-trips every value in well-formed JSON",
 "For every well-formed sequence of write calls (with valid UTF-8 strings), the JSON protocol produces for each message or top-level value one well-formed JSON text whose structure carries the message header, field ids and types, collection types and sizes, and values as written, and reading it back through the JSON protocol yields exactly what was written, including 64-bit integers, every double (NaN and infinities too), strings needing escapes, arbitrary binary data and any nesting. Several messages, structs, containers, strings and booleans written in sequence on one protocol object are each read back intact (bare top-level numbers carry no separator and have to be kept apart by the caller).",
 ["inputs", "programs"], "all sequences of write calls with all values, nestings and container shapes",
 "the tests sample about a dozen scalar values per type and two fixed messages; contexts (lists in maps in structs...) and value classes combine beyond that",
 ["tjson_protocol.go", "tsimple_json_protocol.go", "tnumeric.go"],
 [("parse/dump context stacks decide separators", "tsimple_json_protocol.go"), ("string escaping and numeric special cases", "tsimple_json_protocol.go"), ("type name mapping in field headers", "tjson_protocol.go")],
 ["bytes written to the underlying transport", "results of the read calls"])
prop("P06", "Simple JSON protocol writes well-formed, faithful JSON and reads it back",
 "For every well-formed sequence of write calls (with valid UTF-8 strings), the simple JSON protocol produces well-formed JSON in which structs are objects keyed by field name, containers are arrays and scalars are the written values; reading it back with the calls matching the written shape yields the written names and values. Several messages, structs, containers, strings and booleans written in sequence on one protocol object are each read back intact (bare top-level numbers have to be kept apart by the caller).",
 ["inputs", "programs"], "all sequences of write calls with all values, nestings and container shapes",
 "the tests sample about a dozen scalar values per type and one fixed list and map",
 ["tsimple_json_protocol.go", "tnumeric.go"],
 [("context stack and separators", "tsimple_json_protocol.go"), ("OutputString/OutputF64/ParseStringBody", "tsimple_json_protocol.go")],
 ["bytes written to the underlying transport", "results of the read calls"])
prop("P07", "Skip consumes exactly one value and honours the depth limit",
 "In the binary, compact and JSON protocols, skipping a value of its declared type, at any position of any valid stream, consumes exactly the bytes of that value and leaves the protocol in the state it would have after reading the value, so everything read afterwards is the same. A value nested deeper than the configured maximum depth (1 admits only scalars and empty containers) is rejected with an error and any value within the limit is accepted; an error met inside a skipped value, including an unknown type, is reported and never turned into success.",
 ["inputs", "programs", "configurations"], "all value shapes and types, all positions in a stream, all depth limits, all truncation points",
 "no test skips anything; skipping is what makes unknown fields and unknown methods survivable, and its errors only show in the values read afterwards",
 ["tprotocol.go", "tbinary_protocol.go", "tcompact_protocol.go", "tjson_protocol.go"],
 [("Skip recursion over all container types", "tprotocol.go"), ("MaxSkipDepth / SetMaxSkipDepth", "tprotocol.go")],
 ["results of reads after a skip", "bytes left in the transport", "errors"])
prop("P08", "Malformed or truncated input is rejected with an error, never accepted",
 "When a byte stream is not a valid encoding (truncated at any point, a negative string or collection size, an unknown compact type code, a varint of more than ten bytes, a bad header, malformed JSON), the read call that meets the defect returns an error: it never panics, never hangs and never returns a made-up value as a success. Everything read before the defect is reported as in the intact stream.",
 ["inputs", "fault_sequences"], "all truncation points and corruptions of valid streams in the binary, compact and JSON protocols",
 "the tests feed only streams the same library wrote; none is damaged",
 ["tbinary_protocol.go", "tcompact_protocol.go", "tjson_protocol.go", "tsimple_json_protocol.go", "ttransport.go"],
 [("size checks before allocation", "tbinary_protocol.go"), ("type code checks", "tcompact_protocol.go"), ("errors of the transport propagate", "tcompact_protocol.go"), ("JSON parse errors", "tsimple_json_protocol.go")],
 ["errors of the read calls", "panics and hangs"])
prop("P09", "Decoding does not depend on how the transport slices the bytes",
 "For every protocol, decoding a stream gives the same results and errors whatever sizes the underlying transport's reads return (one byte at a time, split anywhere, all at once, or the last bytes together with end of stream).",
 ["inputs", "schedules"], "all streams and all partitions of a stream into reads",
 "all tests use a memory buffer that returns everything at once",
 ["ttransport.go", "tbinary_protocol.go", "tcompact_protocol.go", "tjson_protocol.go", "tsimple_json_protocol.go", "tframed_transport.go"],
 [("ReadAll loops over short reads", "ttransport.go"), ("buffered JSON reader look-ahead", "tsimple_json_protocol.go")],
 ["results of the read calls"])
prop("P10", "An exact read returns all requested bytes or an error",
 "An exact-length read over any transport either delivers exactly the requested bytes, in stream order, and succeeds, or reports an error; it succeeds whenever the transport supplies enough bytes, however the supply is split and even when the final bytes arrive together with an end-of-stream indication, and it never reports success with fewer bytes. When the stream ends first, the error keeps the kind the transport gave (end of file, not open, timed out).",
 ["inputs", "schedules", "fault_sequences"], "all request sizes and all sequences of (count, error) results from the underlying reads",
 "tests read from memory buffers that never give short reads or data together with an error",
 ["ttransport.go", "tsocket.go", "tframed_transport.go", "tmemory_buffer.go", "tiostream_transport.go", "thttp_client.go"],
 [("ReadAllTransport loop", "ttransport.go")],
 ["count, bytes and error returned"])
prop("P11", "Framed transport sends one length-prefixed frame per flush and unwraps it",
 "Each flush of a framed transport sends exactly one frame, a 4-byte big-endian length followed by all bytes written since the previous flush, and then flushes the underlying transport; nothing reaches the underlying transport before the flush. Reading delivers the payloads of the incoming frames in order with frame boundaries invisible, a single read never crosses the current frame's end, nothing beyond the current frame is taken from the underlying transport, and a frame cut short, a failed underlying read or a negative length is reported as an error that keeps the kind of the underlying one, never as data.",
 ["inputs", "programs", "fault_sequences"], "all sequences of writes, flushes and reads of all sizes, all frame sizes (including empty ones), all faults of the underlying transport",
 "the test writes one small buffer, flushes once and reads it back",
 ["tframed_transport.go"],
 [("Flush writes header and drains the write buffer", "tframed_transport.go"), ("Read / readFrame", "tframed_transport.go")],
 ["bytes, flushes and errors at the underlying transport", "results of reads"],
 [("writeBuffer/readBuffer", "bytes not yet sent / not yet delivered", "tframed_transport.go")])
prop("P12", "Memory buffer and stream transports are faithful byte pipes",
 "Bytes written to a memory buffer are read back in order, each exactly once, under every interleaving of writes, reads, resets and closes, and its length and contents always equal what is unread. A stream transport passes bytes unchanged and in order to its writer (at the latest when flushed) and from its reader, reports not-open errors when it has no reader or writer or has been closed, passes on the stream's own errors, and never panics, whatever the sizes involved.",
 ["inputs", "programs", "fault_sequences"], "all operation sequences and sizes, all underlying stream results",
 "tests write one buffer once and read it back",
 ["tmemory_buffer.go", "tiostream_transport.go", "ttransport_exception.go"],
 [("buffer delegation", "tmemory_buffer.go"), ("nil reader/writer checks, Close", "tiostream_transport.go")],
 ["bytes and errors at both ends"])
prop("P13", "Socket transports deliver flushed bytes in order and track their open state",
 "Over any history of open, write, read, flush, interrupt and close on a (blocking or nonblocking) socket transport, the peer receives exactly the bytes written before each successful flush on that connection, once and in order, nothing left over from an earlier connection, and reads return the peer's bytes in order and then end of file. Opening an open socket reports already-open, using a socket that is not open reports not-open, the open query agrees with these outcomes, a read that exceeds its timeout fails, and no history makes a call panic.",
 ["programs", "schedules", "fault_sequences"], "all operation histories on one socket object, including reconnects, peer closes and timeouts",
 "the tests make one write/flush/read exchange; reopening, failing and leftover data are never exercised",
 ["tsocket.go", "tnonblocking_socket.go"],
 [("write buffer drained by Flush", "tsocket.go"), ("conn nil <=> not open", "tsocket.go"), ("pushDeadline", "tsocket.go")],
 ["bytes seen by a real TCP peer", "returned errors"],
 [("writeBuffer", "unflushed bytes", "tsocket.go"), ("conn", "nil when closed", "tsocket.go")])
prop("P14", "HTTP client sends one POST per flush and reads that flush's response only",
 "Each flush of an HTTP client transport posts exactly the bytes written since the previous flush as one request with the Thrift content type, and after a successful flush reads deliver exactly that response's body and then end of file. A flush answered with a failure status or no answer is an error, after which no earlier response's bytes can be read; using a closed client gives a not-open error, never a panic, and a long series of calls does not exhaust connections.",
 ["programs", "inputs", "fault_sequences"], "all sequences of writes, flushes, reads and closes, all body sizes, all server answers",
 "the test makes one request against a server that always answers 200",
 ["thttp_client.go"],
 [("Flush posts the request buffer", "thttp_client.go"), ("Read from the response body", "thttp_client.go")],
 ["requests seen by a real HTTP server", "returned bytes and errors"],
 [("requestBuffer/response", "pending request / current response", "thttp_client.go")])
prop("P15", "Server sockets follow the listen/accept/close life cycle",
 "Over any history of open, listen, accept, interrupt, close and queries on a server socket or nonblocking server socket: it is open exactly between a successful open or listen and the next close or interrupt, opening an open one reports already-open, accepting delivers each incoming connection once as a working socket transport with the configured client timeout, and close or interrupt releases the port and makes a blocked accept return an error. An accept without a listener fails, except that a server socket that was not interrupted since it last listened begins to listen by itself. No interleaving of these calls from several goroutines panics, and reading from or writing to a server socket reports an error.",
 ["programs", "schedules"], "all histories of calls, and all interleavings of accept with close or interrupt from another goroutine",
 "the tests never close while accepting, reopen, or call these from two goroutines",
 ["tserver_socket.go", "tnonblocking_server_socket.go", "tserver_transport.go"],
 [("Listen/Open/Accept/Close/Interrupt on the listener", "tserver_socket.go"), ("same", "tnonblocking_server_socket.go")],
 ["returned errors and transports", "port availability"],
 [("listener", "nil when not listening", "tserver_socket.go")])
prop("P16", "Stopping a server ends its serve loop under every interleaving",
 "After a stop call on a server whose serve call is running, the serve call returns, the listening port is released and no connection made afterwards is served, however the stop interleaves with the loop's listen, accept and dispatch steps and whether or not clients are connected. With the simple server this takes at most until the request being processed, or being waited for on the connection being served, completes; repeated or concurrent stops are harmless, nothing panics, and the server can be served again afterwards. Without a stop, serve goes on.",
 ["schedules", "programs"], "all interleavings of stop with the serve loop and client activity, both server kinds",
 "the tests start a server and stop it at one arbitrary moment, if at all; the losing interleavings need a pause between two adjacent statements",
 ["tsimple_server.go", "tnonblocking_server.go", "tserver_socket.go", "tnonblocking_server_socket.go"],
 [("stopped flag checked around Accept, Interrupt closes the listener", "tsimple_server.go"), ("same", "tnonblocking_server.go")],
 ["return of the serve call", "accepted connections after stop"],
 [("stopped", "stop requested", "tsimple_server.go")])
prop("P17", "Servers handle every connection's requests in order and in isolation",
 "A running server processes all requests of each accepted connection, in the order sent, each exactly once, with a processor, transports and protocols made for that connection by the configured factories (input from the input factories, output from the output factories), until the connection ends, the processor reports an error, or it declines to continue; then it closes that connection's transports, and goes on accepting. In the nonblocking server a slow, stuck or failing connection does not keep others from being served; in the simple server connections are served one after another in order of acceptance.",
 ["schedules", "programs", "fault_sequences"], "all numbers of connections and requests, all arrival interleavings, all points at which a connection ends or fails",
 "one test serves one connection with one request",
 ["tsimple_server.go", "tnonblocking_server.go", "tprocessor_factory.go"],
 [("processRequest loop and deferred closes", "tsimple_server.go"), ("goroutine per connection", "tnonblocking_server.go")],
 ["calls seen by a recording processor, factories and transports"])
prop("P18", "Application exceptions survive the wire in every protocol",
 "An application exception written with any message and kind and read back through any protocol, whatever other fields a peer added and in whatever order the fields come, gives the same message and kind, consumes exactly its own bytes, and malformed or truncated encodings give an error. A message of exception type produced by a processor for an unknown method carries the called method's name and sequence id.",
 ["inputs", "programs"], "all messages, kinds, extra fields, field orders and protocols",
 "the test checks the two constructors only",
 ["tapplication_exception.go"],
 [("Read/Write by field id with Skip for the rest", "tapplication_exception.go")],
 ["read-back exception", "bytes"])
prop("P19", "A failed write or flush is always reported to the caller",
 "If the underlying transport fails any one of the writes or the flush behind a sequence of protocol calls, then one of the calls, at the latest the flush, returns an error, in every protocol and transport wrapper; without a failure none does. The bytes that did reach the transport are a prefix of the fault-free encoding.",
 ["fault_sequences", "inputs"], "all positions of a failing or short write in all call sequences, for every protocol and wrapping transport",
 "no test injects a write failure",
 ["tbinary_protocol.go", "tcompact_protocol.go", "tjson_protocol.go", "tsimple_json_protocol.go", "tframed_transport.go", "tiostream_transport.go"],
 [("errors propagate from each transport write", "tbinary_protocol.go"), ("same", "tcompact_protocol.go"), ("buffered JSON writer flush", "tsimple_json_protocol.go")],
 ["errors of the write calls"])
prop("P20", "Every RPC call gets its own reply, end to end",
 "For generated clients and processors running over any combination of protocol, transport wrapper and server, every call with any arguments returns the result the handler computed for those arguments, handler exceptions arrive as errors, and calls on one connection and on concurrent connections never receive each other's replies. Sequence ids and method names of replies equal those of the calls, an unknown method yields an application exception of the unknown-method kind, and a connection served by a processor alone keeps working after an unknown method or a failed handler; a server may end the connection after its reply.",
 ["programs", "configurations", "schedules", "inputs"], "all call histories, arguments, protocol/transport/server combinations and client interleavings",
 "the generated-code test only serialises one struct; no test makes an RPC",
 ["tprocessor.go", "tsimple_server.go", "tnonblocking_server.go", "tapplication_exception.go", "tprotocol.go", "tbinary_protocol.go", "tcompact_protocol.go", "tjson_protocol.go", "tframed_transport.go"],
 [("message header with seqid echoed by the processor", "tests/generation/golden/gen-go/simple/ContainerOfEnumsTestService.go"), ("server loop", "tsimple_server.go")],
 ["client call results", "message headers on the wire"])
prop("P21", "List container is a faithful sequence",
 "Over any history of operations, a list container holds exactly the sequence its pushes, sets, inserts, deletes, swaps and pops define: length, element at each index, the iterators, membership and less-than queries all agree with that sequence; setting at or past the end appends, any other access out of range fails and leaves the list as it was, a value that the element type has no place for is not taken in, and a list made without an element type takes that of its first value. Two lists are equal exactly when they hold equal elements at every index, and of two lists of one element type the shorter, else the one with the smaller first differing element, comes first.",
 ["programs", "inputs"], "all operation histories, element types and indexes",
 "no test covers the list container",
 ["tlist.go", "ttype.go", "tcompare.go"],
 [("list operations", "tlist.go")], ["results of the container calls"])
prop("P22", "Set container holds each element once",
 "Over any history of adds and removals, a set container contains exactly the distinct values added and not removed since, in whatever Go form of its element type they were given: its length, membership queries, iteration and value list all agree with that set, re-adding or removing an absent value changes nothing, a value that the element type has no place for is not taken in, and two sets of one element type are equal exactly when they hold the same elements whatever the insertion order.",
 ["programs", "inputs"], "all operation histories, element types and insertion orders",
 "no test covers the set container beyond construction",
 ["tset.go", "ttype.go", "tcompare.go"],
 [("ordered insertion", "tset.go")], ["results of the container calls"])
prop("P23", "Map container maps each key to its last value",
 "Over any history of assignments, a map container maps exactly the keys assigned, in whatever Go form of its key type they were given, to their last values in the value type: length, lookups, key membership, keys, values and iteration all agree with that mapping for every key type, a missing key is reported as missing, and keys or values that their types have no place for are not taken in. Two maps of the same types are equal exactly when they hold the same key-value pairs whatever the insertion order, and repeated comparisons agree.",
 ["programs", "inputs"], "all operation histories, key and value types, insertion orders",
 "the test sets a couple of pairs of one type",
 ["tmap.go", "ttype.go", "tcompare.go"],
 [("per key type storage", "tmap.go")], ["results of the container calls"])
prop("P24", "Value comparison is a consistent total order per type",
 "For every Thrift type, comparing two values of that type (NaN aside) gives the natural order: an absent value before all others, false before true, numeric order whatever Go integer types carry the numbers, byte-wise order of strings and binaries, and for lists element type, then length, then the first differing element. Sets, maps and structs are in some total order in which equal means equal contents (name, fields and attributes for structs), whatever the order the parts were given in. Comparison is antisymmetric and transitive, comparing as equal agrees with the equality query, the less-than query is true exactly when the first value comes before the second, and every comparison entry point (types, containers, value arrays and the Compare helpers) agrees.",
 ["inputs"], "all pairs and triples of values of each type",
 "no test compares values",
 ["ttype.go", "tcompare.go", "tbase.go"],
 [("TType.Compare/Equals/Less", "ttype.go"), ("Compare* helpers", "tcompare.go")], ["results of comparisons"])
prop("P25", "Struct descriptions find exactly their own fields",
 "A struct description built from any list of fields with distinct ids and names finds a field by id or name exactly when the list contains it, returns that field's own name, type and id, reports absence otherwise (the anonymous field, id -1, the empty name), and iterates over each field once in the order given. Fields are equal by id and type and ordered by id, then type, then name; descriptions are equal exactly when their fields are, whatever the order given; message descriptions are equal exactly when name, type and sequence id are; and printed forms show the numbers in decimal.",
 ["inputs", "programs"], "all lists of fields, ids and names",
 "no test covers field containers",
 ["tfield.go", "tstruct.go", "tmessage.go"],
 [("TField, TFieldContainer", "tfield.go"), ("TStruct", "tstruct.go")], ["results of lookups"])
prop("P26", "Errors keep their kind as they cross the layers",
 "An end of stream is reported by every transport's reads as the end-of-file kind, use of an unopened or closed transport as not-open, opening an open one again as already-open, and a wrong header version as bad-version; wrapping an error in the library's transport, protocol or plain exceptions, in any order, returns an error that already has a kind unchanged, maps the end of a stream to end-of-file (transport) and any other error to the unknown kind (corrupt base64 to invalid-data, protocol) with its message, and maps no error to no error. Wrapping an error with the field or struct it happened in keeps its kind (invalid-data for the unknown kind) and names the field's number and name, the struct and the message.",
 ["inputs", "fault_sequences"], "all error values, wrappings in any order, and all transports",
 "the tests wrap one or two error values",
 ["texception.go", "ttransport_exception.go", "tprotocol_exception.go", "tapplication_exception.go"],
 [("New*ExceptionFromOsError", "ttransport_exception.go"), ("same", "tprotocol_exception.go")], ["type ids and messages of errors"])
prop("P27", "Factories build independent, correctly wired objects",
 "A protocol or transport obtained from any factory behaves like one built directly with the same parameters over the given transport (strictness, sizes, framing, streams, addresses and timeouts included), and two objects obtained from one factory never share pending state. A server exposes and uses exactly the factories it was built with, in the positions they were given.",
 ["configurations", "programs"], "all factories, parameters and numbers of products",
 "no test uses the factories beyond default construction",
 ["tprotocol_factory.go", "ttransport_factory.go", "tprocessor_factory.go", "tmemory_buffer.go", "tiostream_transport.go", "tframed_transport.go", "tbinary_protocol.go", "tserver_socket.go", "tsimple_server.go", "tnonblocking_server.go"],
 [("GetTransport / GetProtocol / GetProcessor", "ttransport_factory.go")], ["behaviour of the products"])
prop("P28", "Values coerce to a type without changing what they say",
 "Coercing a value to a Thrift type gives a value in that type's own Go form or reports that there is none. To a number type, any Go integer, boolean, enum, Numeric, finite double or decimal text gives that number (fractions cut off, integers cut to the type's width in two's complement, doubles rounded to nearest) and text that is no number gives none; to boolean, zero, and empty, \"0\" and \"false\" text are false and other numbers and text true; to a string or binary, numbers give their decimal text, which reads back as the same number, booleans give true or false, enums their name, and text and bytes are kept byte for byte. Absence gives the type's zero or empty value, containers and structs are kept as they are by their own type and refused by other container types, and values of no Thrift kind are refused. A value of a type coerces to itself, and all views of a Numeric (integers of each width, doubles, text) show the number it was made from.",
 ["inputs", "programs"], "all values of all Go forms, types, and chains of coercions",
 "no test covers coercion or numerics beyond two calls",
 ["ttype.go", "tnumeric.go"],
 [("TType.CoerceData, TypeFromValue", "ttype.go"), ("NewNumeric*", "tnumeric.go")], ["results of coercions"])
prop("P29", "Generated structs carry exactly the declared values",
 "For any IDL program of enums, typedefs, constants, structs and exceptions (fields with distinct positive ids, any name and requiredness, with or without default, of scalar, string, binary, enum, struct, list, set and map types), the generated Go compiles, constants have the declared values, and a new object has the declared defaults (else zero, an unset enum, no container or struct). Writing an object emits one well-formed struct whose fields are, in order of ids and under the declared ids, names and types, exactly those that are set: the others and optional ones that equal their default stay out. Reading it back through any protocol gives an equal object; fields come in any order, missing fields keep their value, and for protocols that carry ids fields unknown to the reader are skipped, so versions of a struct read each other's objects. A protocol error during a write or read is reported and stops a write. Comparing objects, also inside containers, sees every difference between fields. (Out of scope: includes, service inheritance, fields sent with another type than declared, names that clash with generated methods, unknown fields in simple JSON, which carries no types.)",
 ["programs", "inputs", "fault_sequences"], "all IDL programs, all values of their types, all orders and subsets of fields, all positions of an error",
 "the tests compile one generated file and serialize one struct of it",
 ["compiler/cpp/src/generate/t_go_generator.cc", "ttype.go", "tlist.go", "tset.go", "tmap.go"],
 [("struct, reader and writer generation", "compiler/cpp/src/generate/t_go_generator.cc"), ("TType.Compare", "ttype.go")],
 ["the generated code's calls on the protocol", "objects read back", "results of comparisons"])
prop("P30", "Generated clients and processors carry calls",
 "For any IDL service (methods with any arguments, value or none, declared exceptions, oneway; optionally extending another service of the same program) the generated Go compiles, and over any protocol, with a client, a processor and a connection between them: each call is one message with the method's name, a new sequence id and the arguments as declared; the handler is called exactly once per call, in order, with the arguments sent; the caller gets the value the handler gave, or, when it gave declared exceptions, only the exception (the one with the highest id); a handler that fails reaches the caller as an application exception INTERNAL_ERROR with its message, a method the processor does not know as UNKNOWN_METHOD, a reply with another sequence id as BAD_SEQUENCE_ID, a reply cut short or a request that cannot be sent as an error. Oneway calls are handled and never answered. After each call nothing is left on the connection, so the next call gets its own reply. (Out of scope: arguments named p or err, which clash with generated names; services extended across programs; going on after an unknown method with simple JSON, which carries no types.)",
 ["programs", "histories", "inputs"], "all services, all histories of calls on a connection, all argument and result values",
 "the tests call one method of one generated service",
 ["compiler/cpp/src/generate/t_go_generator.cc", "tapplication_exception.go"],
 [("service, client and processor generation", "compiler/cpp/src/generate/t_go_generator.cc")],
 ["what the handler is called with", "messages on the connection", "what the caller gets"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
