#!/usr/bin/env python3
"""Writes properties.jsonl (the text of the properties lives here)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, C, O = "socket-io-protocol/src/", "socket-io-client/src/", "owned_subslice/src/lib.rs"
ENG, DE, SER, MOD = P + "engine.rs", P + "socket/de.rs", P + "socket/ser.rs", P + "socket/mod.rs"
ARGS, DA, SA = P + "socket/args/mod.rs", P + "socket/args/deserialize_attachments.rs", P + "socket/args/serialize_attachments.rs"
LIB, CONN, RECV, CB, EMIT = C + "lib.rs", C + "connection.rs", C + "receiver.rs", C + "callbacks.rs", C + "emit.rs"

def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files,
                        "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                        "observe_at": observe, "hook_needed": None}}

PROPS = [
 p("C01", "Engine.IO session discipline: open first and once, nothing after close",
   "For every sequence of websocket messages the engine.io decoder reads exactly one open packet, before which every ping, pong, close and message, textual or binary, is refused, and after a close packet it refuses everything. "
   "In between it maps each text message to the packet its first character names (0 open, 1 close, 2 ping, 3 pong, 4 message) and each binary message whose first byte is 4 to a binary message, the payload being exactly the rest; empty messages, other headers, second opens and malformed opens are errors, never a panic. "
   "A refused message leaves the session as it was, so whatever follows it is decoded as if it had not been sent, and the encoding functions produce what the decoder reads back as the same packet.",
   ["inputs", "histories"], "all sequences of websocket messages of any kind and content, from the initial state of a decoder",
   "Two unit tests decode one open packet and one websocket close; no sequence beyond a repeated open, no binary message, no ping, pong, close or message packet is ever decoded.",
   [ENG, RECV], [("Decoder::decode: state machine Initial/Active/Closed", ENG), ("encode_*/package_*", ENG)],
   ["results of Decoder::decode", "results of encode_message/encode_binary/encode_ping/encode_pong"],
   [("Decoder.state", "whether an open, or a close, has been read", ENG)]),
 p("C02", "Text packets decode exactly as the grammar says, and never panic",
   "For every text, decoding a socket.io packet ends with a packet or an error and never panics; it succeeds exactly for the texts of the protocol's grammar: type, attachment count and '-' for binary kinds, namespace from '/' up to the first comma, decimal id without leading zeros that fits 64 bits, JSON array of arguments. "
   "The packet has the kind, namespace (default '/'), id and arguments that the text denotes, each argument being exactly its slice of the text. "
   "Connects and disconnects carry neither count, id nor arguments, events at least one argument, acks an id, and binary kinds a count: with a count above 0 the packet is not complete before that many attachments came.",
   ["inputs"], "all texts up to the bounds below over an alphabet with every character of the grammar, escapes, whitespace and multi-byte characters",
   "Eight unit tests parse one well-formed text each, none parses a malformed one; the corner cases are combinations of optional parts (count, namespace, id, arguments) and of characters inside them.",
   [DE, MOD], [("regular expression of the packet and parse_args", DE), ("deserialize_dataless, deserialize_binary, deserialize_event: what each kind requires", DE)],
   ["deserialize()", "Packet::namespace, Packet::data, Args::len/get"]),
 p("C03", "What the packet builder writes is read back as the same packet",
   "For every kind, namespace, id, binary flag, event name and list of serializable arguments, the messages that the builder returns decode to exactly one packet of that kind with that namespace, id and these arguments in this order; its first message is the packet's text and the following ones are its attachments, as many as the text declares. "
   "Connect and disconnect packets likewise read back as what they were written for. "
   "The name of an event is its first argument, whatever characters it contains, and acks and binary acks may have no argument at all.",
   ["inputs", "configurations"], "all kinds x namespaces x ids x binary flags x lists of argument values of the serde data model",
   "The unit tests build one event without arguments and one ack with one array of bytes and compare them to a literal; nothing is ever read back.",
   [SER, DE, SA], [("PacketBuilder::new_event/new_ack/serialize_arg/finish, serialize_header", SER), ("deserialize, deserialize_partial", DE)],
   ["messages returned by PacketBuilder::finish", "packet decoded from them"]),
 p("C04", "An argument that fails to serialize leaves no trace in the packet",
   "Whenever adding an argument to a packet fails, at whatever point inside the argument, the builder afterwards is as it was before: the finished packet has the text, the attachment count and the attachments of the packet built from the successful arguments only. "
   "This holds for the first argument as for later ones, with and without binary attachments, and for any number of failures, each of which is reported to the caller.",
   ["inputs", "fault_sequences"], "all lists of arguments with failures at any node of their value trees (failing Serialize implementations, maps with keys that are no strings), binary or not",
   "No test lets a serialization fail.",
   [SER, SA], [("serialize_arg rolls back buffer, first and attachments", SER)], ["result of serialize_arg", "messages returned by finish"],
   [("PacketBuilder.buffer/first/attachments", "what has been written so far", SER)]),
 p("C05", "Outbound bytes travel as attachments that match their placeholders",
   "In a binary packet every byte string and every non-empty sequence consisting only of bytes (u8), at any depth of the arguments, is replaced by {\"_placeholder\":true,\"num\":k}, where the numbers count 0, 1, 2... through the whole packet in order of appearance and attachment k carries the header byte 4 followed by exactly these bytes. "
   "Everything else, in particular sequences that mix bytes with other elements, empty sequences, tuples and arrays of fixed length, strings, maps and numbers, is written as the plain JSON that it has without attachments. "
   "The declared attachment count equals the number of placeholders and of attachments; packets that are not binary have no placeholders and no attachments.",
   ["inputs"], "all trees of serde values: scalars, options, newtypes, sequences, tuples, structs, enums, maps, bytes, at any depth",
   "Two tests serialize byte slices that stand alone or in one nested struct; mixed sequences, several arguments, maps, variants and options never occur.",
   [SA, SER], [("Wrapper/SeqWrapper: bytes are collected until a different element appears", SA)], ["messages returned by finish"]),
 p("C06", "Inbound placeholders deserialize to the bytes of their attachment",
   "Deserializing an argument of a packet with attachments gives what the argument would give if each placeholder were a value carrying its attachment's bytes: where bytes or strings are requested the bytes themselves (without the header byte, borrowed if asked for), where a sequence, or anything, is requested a sequence of u8, inside any nesting of options, sequences, tuples, structs, maps and enums. "
   "A placeholder whose number is out of range is an error, never a panic. "
   "Arguments, or parts of them, without placeholders deserialize in a packet with attachments to exactly what they deserialize to in a packet without.",
   ["inputs"], "all argument texts x target types x lists of attachments",
   "Seven tests deserialize fixed types from fixed texts with one attachment; number range, nesting under maps/enums/options and the equivalence to plain JSON are not examined.",
   [DA, ARGS], [("BinaryDeserializer/BinaryVisitor::visit_map recognises placeholders", DA)], ["Arg::deserialize::<T>()"]),
 p("C07", "Binary packets are reassembled from exactly the attachments they declare",
   "A binary event or ack announcing n attachments is delivered only when the n following binary messages have arrived, once, with these n as its attachments in order, whatever pings, pongs and websocket control frames arrive in between; nothing else is delivered meanwhile. "
   "The next message after that starts a new packet. "
   "A text message in place of an attachment, or a binary message that no packet announced, ends the connection with an error instead of being delivered.",
   ["histories", "schedules", "inputs"], "all sequences of inbound text and binary messages, engine and websocket control frames and timings",
   "The tests call the deserializer with all attachments at hand; the receiver that collects them from the stream is not tested at all.",
   [RECV, DE], [("Receiver::process_message, InProgress", RECV), ("deserialize_partial", DE)], ["callbacks and their arguments", "how the connection ends"],
   [("Receiver.in_progress", "packet that waits for attachments", RECV)]),
 p("C08", "Each event reaches exactly the callback registered for it at that moment",
   "Every received event calls exactly one callback, exactly once and in order of arrival: the one set for its namespace and name at that moment, otherwise the fallback of its namespace, otherwise none. "
   "Setting a callback replaces only the one of the same namespace and name (or fallback), clearing removes only that one, and neither touches other namespaces, events or pending acks. "
   "The callback is given the arguments of this packet, the event's name first.",
   ["histories", "schedules"], "all interleavings of set/clear calls for events and fallbacks with received events over several namespaces and names",
   "One test looks callbacks up in a map with one namespace; the client API, clearing, replacing and the delivery itself are never run.",
   [CB, RECV, LIB], [("Callbacks::get_event/set_event/clear_event/set_fallback/clear_fallback", CB), ("Receiver::process_packet", RECV), ("fwd_cbs!", LIB)],
   ["sequence of callback calls with arguments"], [("Callbacks.namespaces", "registered callbacks", CB)]),
 p("C09", "An ack callback runs at most once, for the ack of its own emission",
   "A callback given to an emission runs exactly when the first ack with the namespace and id of that emission is received, with the arguments of that ack, and never again. "
   "The ids are distinct for all emissions of a client that have callbacks, an emission without a callback carries no id, and no emission's ack can be missed even if the reply arrives before the call that sends it has returned. "
   "An ack that matches no pending emission (unknown id, other namespace, repeated) calls nothing and ends the connection with an error.",
   ["histories", "schedules"], "all sequences of emissions over several namespaces with acks arriving in any order, repeated, misdirected, or immediately",
   "One test registers one ack callback by hand in the map; no emission is ever acknowledged.",
   [EMIT, CB, RECV], [("EventBuilder::callback takes ids from Client.next_id", EMIT), ("EventArgsBuilder::send registers before queueing", EMIT), ("get_and_clear_ack", CB)],
   ["ids on the wire", "ack callback calls"], [("Client.next_id", "next id", LIB), ("Namespace.acks", "pending callbacks", CB)]),
 p("C10", "A reply acknowledges exactly the event it was created for",
   "A received event with an id gives its callback a means to reply and one without id does not. "
   "A reply sends one ack packet, binary if so requested, with the namespace and id of that event and the given arguments, no matter when it is sent, how many other events came in between, or in which order replies are sent; a reply that is dropped sends nothing.",
   ["histories", "schedules"], "all sequences of events with and without ids in several namespaces, replied to at once, later, out of order, or never",
   "No test creates a reply.",
   [EMIT, RECV, SER], [("AckBuilder keeps namespace and id", EMIT), ("process_packet creates it only for events with ids", RECV)], ["Option<AckBuilder> given to callbacks", "ack packets on the wire"]),
 p("C11", "Outbound packets leave in order, complete and contiguous",
   "Everything sent through a client - emissions, replies, pongs, batches given to its public sender - appears on the wire exactly once, in the order in which it was sent, while the connection lasts. "
   "The messages of one packet (text and attachments) are adjacent: nothing else's messages come between them. "
   "Nothing appears that was not sent, and the order is the same whatever inbound traffic, callbacks or transport stalls occur meanwhile.",
   ["schedules", "histories"], "all interleavings of emissions, replies, pings and transport stalls, with packets of one and several messages",
   "No test runs a connection.",
   [CONN, EMIT, RECV], [("one unbounded channel of packets, written by a single task", CONN)], ["websocket messages written to the transport"],
   [("send_rx", "queue of packets", CONN)]),
 p("C12", "Every engine.io ping is answered by exactly one pong",
   "For every engine.io ping received while the connection is open, exactly one pong is written, in order with the other outbound packets, and pongs are written for nothing else. "
   "This holds with pings arriving in bursts, while a binary packet is being assembled, while packets are being sent, and for pings that the server sends before anything else.",
   ["schedules", "histories"], "all inbound sequences with pings at any position, any load and stall pattern",
   "No test receives a ping.",
   [RECV, ENG], [("Receiver::process_message answers Ping", RECV), ("Decoder and encode_pong", ENG)], ["messages written to the transport"]),
 p("C13", "Callbacks may use the client freely without deadlock",
   "A callback, for events or acks, may set, replace and clear callbacks (also its own), emit with and without ack callbacks, reply and drop values, on the client it belongs to, and returns; no such call blocks forever. "
   "The changes it makes are in force for the next event, and while it runs other users of the client can register callbacks and emit.",
   ["schedules", "programs"], "all callback bodies composed of client calls, triggered by any sequence of events and acks, with other users of the client acting concurrently",
   "No test calls the client from a callback.",
   [RECV, CB], [("the map's lock is released before a callback is called", RECV)], ["whether the connection task makes progress", "subsequent routing"]),
 p("C14", "Connecting succeeds only after the open packet, and otherwise fails",
   "connect (and from_stream) returns a client only after the websocket handshake and the engine.io open packet have been received; if the handshake or the open packet fails, is malformed, or the connection ends before, it returns an error, and if they do not come within 10 seconds each way through the same deadline, a timeout error; it never panics and never stays pending beyond the deadline. An error of the application's connector is returned as such. "
   "After a failure no callback ever runs and nothing further is written. "
   "Messages that arrive together with the open packet are not lost.",
   ["fault_sequences", "schedules", "crash_points"], "all ways a server can answer or not answer the handshake and the first messages, with the end of the connection at any point",
   "No test connects.",
   [CONN, LIB], [("select! of handshake/open against one Delay", CONN), ("error of a task that ended early", CONN)], ["result of connect/from_stream", "time it takes", "bytes written"]),
 p("C15", "close sends what was queued, then closes, and always returns",
   "close() first writes every packet that had been sent before it was called, then a websocket close, goes on handling what the server sends until the server closes, and then returns Ok; it returns the connection's error if that ended with one, and a timeout error after 10 seconds if the server does not close. "
   "A second close() returns the error that it is already closed, no close blocks forever, and a close() that is given up while it waits ends the connection. "
   "Nothing sent after the close frame ever follows it on the wire.",
   ["schedules", "fault_sequences", "histories"], "all interleavings of close with queued sends, inbound traffic, stalls and the end of the connection",
   "No test closes a connection.",
   [CONN], [("Connection::close: oneshot, join handle, Delay", CONN), ("drain of the queue, ws_stream.close, read until the end", CONN)], ["result of close", "messages written to the transport", "callback calls while closing"]),
 p("C16", "Bad input ends the connection cleanly and nothing else",
   "Whatever a server sends, the client never panics: malformed engine.io or socket.io messages, events whose name is not a string, wrong attachments, unexpected acks and websocket protocol errors end this connection with an error that close() reports, after everything valid received earlier was delivered, and nothing received later is delivered. "
   "Inputs that are merely unknown - events nobody listens to, pongs, connects, disconnects, close packets - end nothing. "
   "After the end the client object stays usable: emitting and registering are harmless, callbacks do not run any more.",
   ["inputs", "fault_sequences", "crash_points"], "all inbound histories with a malformed message at any position, and all ways in which the transport can end or fail",
   "No test feeds a receiver; the few error cases that tests cover are in the parsers.",
   [RECV, CONN, DE, ENG], [("errors propagate with ? out of the task", RECV), ("task's result is returned by close", CONN)], ["panics", "result of close", "callback calls"]),
 p("C17", "URLs are normalised and the connector is given the right host and port",
   "An http or ws URL connects without TLS, an https or wss URL with TLS; any other scheme, a missing host and an unparsable URL are reported as URL errors before any connection is made. "
   "The connector is called once with the URL's host and its explicit port or the default of its scheme (80 or 443). "
   "The handshake requests the URL's path and its own query unchanged, extended by EIO=4 and transport=websocket, with a Host header naming that host.",
   ["inputs"], "all combinations of schemes, hosts, ports, paths, queries and fragments",
   "One test parses three URLs; the connector's arguments and the handshake request are never observed.",
   [LIB, CONN], [("parse_url, add_socketio_query_params", LIB), ("client_async_tls", CONN)], ["arguments of the connector", "first bytes written to the transport", "error returned"]),
 p("C18", "Owned subslices view exactly their range, and nested ones stay inside",
   "A subslice made from data and a range shows exactly data[range], however it is looked at (dereference, equality, formatting, mutation), and a whole value shows all of it. "
   "Taking a subslice of a subslice shows the part of the visible content at that range, its end clipped to the visible end, never content outside it.",
   ["inputs"], "all data, ranges within it, and chains of subslice operations",
   "One test dereferences one subslice of a string; subslice() itself is not tested.",
   [O], [("OwnedSubslice::new/subslice/Deref/DerefMut/PartialEq", O)], ["dereferenced content"], [("range", "visible part", O)]),
 p("C19", "Behaviour does not depend on how the transport cuts or delays the bytes",
   "For the same messages from the server and the same calls by the user in the same order, the callbacks run, the packets written and the results returned are the same whatever the transport does: bytes arriving one by one or all at once, websocket frames fragmented, reads and writes pending, partial or woken spuriously. "
   "No message is lost, duplicated or reordered by it.",
   ["schedules", "configurations"], "all segmentations, pending/partial patterns and wake-ups of the transport for any session",
   "No test runs a connection over a transport.",
   [CONN, RECV], [("select! loop over reads, queue and close", CONN)], ["callback calls", "messages written", "results"]),
 p("C20", "Argument views are total and faithful",
   "For every packet, its arguments can be counted, fetched by index, iterated, displayed and converted to JSON values in any order and any number of times without panicking: index i within the count gives argument i and nothing beyond, iteration gives each argument once in order. "
   "Conversion gives the JSON value of the argument, with each placeholder replaced by the array of its attachment's bytes wherever the packet has attachments, or an error where a number cannot be represented or a placeholder refers to no attachment. "
   "Displaying never fails and shows the converted value, or the text itself where there is none.",
   ["inputs"], "all arguments (any JSON, any placeholders) x attachments x accessors",
   "Two tests convert one argument each, with valid contents.",
   [ARGS, MOD], [("Args::len/is_empty/get/iter, Arg::to_json_value, Display", ARGS), ("fill_placeholders_value", ARGS)], ["results of the accessors"]),
 p("C21", "Dropping the client ends its connection",
   "When a client is dropped without close, its connection's task ends and the transport is released, whatever was queued, being received or stalled. "
   "No callback is begun afterwards (but for one whose event had already been handed to it on another thread), not even when it is dropped from within a callback while further packets are at hand, and the callbacks themselves are released.",
   ["schedules", "histories"], "all points of a session at which the client is dropped, with and without clones of its sender held",
   "No test drops a client with a connection.",
   [CONN, LIB], [("RemoteHandle cancels the task when dropped", CONN)], ["drop of the transport", "callback calls after the drop"]),
]
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in PROPS:
        f.write(json.dumps(x, ensure_ascii=True) + "\n")
