"""The properties: single source of properties.jsonl and MANIFEST.json (see gen.py)."""
P = {}
NA = []


def prop(id, title, statement, over, quant, tests, files, mech, state=(), tech="", level="proof", note=""):
    P[id] = dict(title=title, statement=statement, over=over, quant=quant, tests=tests, files=files, mech=mech, state=state, tech=tech, level=level, note=note)


def na(id, title, statement, over, quant, tests, files, mech, reason):
    prop(id, title, statement, over, quant, tests, files, mech)
    NA.append((id, reason))


SND = "Sound for every execution of the analysed functions under the library models in sa/models.py; "

prop("P01", "Decoding untrusted bytes never panics",
     "Whatever bytes are given to any of the library's packet, field, frame-length or parse-level decoders, or fed in any pieces to the incremental parser, "
     "the call returns a packet, a request for more data or an error: it never panics, overflows, indexes out of bounds or recurses without bound.",
     ["inputs", "histories"], "every byte string, and every sequence of pieces fed to a parser whose protocol version is known or detected",
     "Tests decode a few hundred hand-written frames; the guarantee is about all of them, including lengths and flags no test combines.",
     ["src/mqtt_serde/"], [("packet decoders", "src/mqtt_serde/mqttv5/*.rs, src/mqtt_serde/mqttv3/*.rs (from_bytes)"), ("shared readers", "src/mqtt_serde/parser.rs, src/mqtt_serde/base_data.rs"), ("incremental parser", "src/mqtt_serde/parser/stream.rs")],
     [("receive buffer", "bytes fed but not yet consumed", "src/mqtt_serde/parser/stream.rs")],
     "interprocedural abstract interpretation of MIR (linear facts over slice lengths and integers, enum variants); every compiler-inserted check and panicking call is an obligation", "proof",
     SND + "unmodelled library calls that can panic are reported, others are assumed not to.")

prop("P02", "Decoders stay inside the frame and report its exact size",
     "When a decoder returns a packet, the number of bytes it reports as consumed is exactly the size the fixed header announces, that many bytes were available, and "
     "nothing beyond them was read. A decoder therefore never takes content from the packet that follows.",
     ["inputs"], "every buffer, whatever follows the first frame in it",
     "Tests mostly decode a buffer that holds exactly one well-formed frame, where reading past the end is an error rather than a silent misread.",
     ["src/mqtt_serde/mqttv5/", "src/mqtt_serde/mqttv3/", "src/mqtt_serde/parser/leveled.rs"], [("frame decoders", "from_bytes of each packet type"), ("length reader", "src/mqtt_serde/base_data.rs, src/mqtt_serde/parser.rs")], [],
     "abstract interpretation with symbolic byte provenance: every element read, slice and consumed count is compared with the announced frame end", "proof",
     SND + "relies on the length reader computing the specified value (decided by P04).")

prop("P03", "A partial frame is never mistaken for an error, nor a full one for partial",
     "As long as the bytes received so far are a proper prefix of a frame, polling the incremental parser asks for more and does not fail because of the missing bytes; as soon as the frame is complete it is never reported as incomplete. "
     "A decoder that asks for more bytes asks for at least one and for no more than the frame still lacks.",
     ["inputs", "histories"], "every frame and every way of splitting it into reads",
     "Tests feed frames whole or split at one or two places; a split inside the length field or right before the last byte is only one of very many.",
     ["src/mqtt_serde/parser/stream.rs", "src/mqtt_serde/parser/leveled.rs", "src/mqtt_serde/control_packet.rs"], [("polling", "next_packet, next_parsed"), ("decoder outcomes", "ParseOk::Continue and the error kinds")],
     [("receive buffer", "unconsumed bytes", "src/mqtt_serde/parser/stream.rs")],
     "abstract interpretation with trace partitioning on frame completeness: each return path is classified as complete, incomplete or malformed and compared with what it returns", "proof", SND)

prop("P04", "Variable byte integers, lengths and fixed-width fields are exact",
     "A variable byte integer is written in the fewest bytes, least significant digit first, for every value up to 268435455, read back to the same value with the right size, and never written for a larger value; sequences of four continuation bytes and (in strict mode) non-minimal ones are refused. "
     "Length-prefixed strings and binary data carry their exact length in two bytes, most significant first, are refused rather than truncated above 65535 bytes, and are not read when they are cut short. "
     "Two and four byte integers are big-endian.",
     ["inputs"], "every value, every digit sequence and data of every length",
     "Tests check the boundary values; a wrong digit, mask, carry or cast shows only for particular values, and a truncated length only with data nobody puts in a test.",
     ["src/mqtt_serde/base_data.rs", "src/mqtt_serde/mod.rs", "src/mqtt_serde/parser/mod.rs"], [("variable byte integers", "VariableByteInteger::encode, decode and their callers"), ("strings and binary data", "Utf8String, BinaryData, write_string, encode_utf8_string, encode_binary_data")], [],
     "abstract interpretation on symbolic base-128 digits and on data of unknown length; callers of infallible encoders must prove the bound", "proof", SND)

prop("P05", "Encoded packets have the layout the MQTT specification prescribes",
     "Every packet the library encodes has the packet type and flag bits of the fixed header, the remaining length, the order, the width and the presence of fields that the MQTT 3.1.1 or 5.0 specification gives for that packet. "
     "The remaining length is exactly the number of bytes that follow it.",
     ["inputs"], "every well-formed packet of each type in both protocol versions, with unknown strings, payloads, identifiers and properties",
     "Tests compare a few encodings with literal bytes, and most go through the library's own decoder, which shares the mistakes of the encoder.",
     ["src/mqtt_serde/mqttv5/", "src/mqtt_serde/mqttv3/", "src/mqtt_serde/control_packet.rs"], [("packet encoders", "to_bytes, encode_to_buffer of MqttControlPacket"), ("remaining length", "control_packet.rs")], [],
     "abstract interpretation of the encoders to symbolic byte sequences, compared piece by piece with the layouts of the specification", "proof",
     SND + "choices between optional fields are covered pairwise (two list elements at most); property lists are the subject of P06, their header is taken as one piece here.")

prop("P06", "MQTT 5 properties are encoded and decoded by the specification's table",
     "Each property is written with the identifier and the value type the MQTT 5 specification assigns to it, the list in front of it carries its exact length, and decoding gives the same list in the same order. "
     "Identifiers the specification does not define, and values that do not fit in the list, are refused.",
     ["inputs"], "each kind of property with every value, alone and next to others, and every undefined identifier",
     "Tests round-trip some properties; a swapped identifier or type that encoder and decoder share is invisible to a round trip.",
     ["src/mqtt_serde/mqttv5/common/properties.rs"], [("property codec", "encode and parse of properties and property lists")], [],
     "abstract interpretation of the list encoder and decoder on symbolic values, compared with the specification's table", "proof", SND + "lists of up to three properties.")

prop("P07", "Decoding an encoded packet gives back the same packet",
     "Whatever the library encodes, its decoder for the same protocol version reads back as an equal packet, field by field, consuming exactly the bytes that were produced; every encoding entry point agrees. "
     "A well-formed packet is refused by the encoder only when something in it is too long for the protocol. The other forms MQTT 5 allows for acknowledgements, DISCONNECT and AUTH, with reason code or properties left out or spelled out, decode to the packet they stand for.",
     ["inputs"], "every well-formed packet of each type in both protocol versions, with unknown strings, payloads, identifiers and properties",
     "Round-trip tests use a few values for each packet; optional fields in particular combinations and empty or very long data are what they miss.",
     ["src/mqtt_serde/"], [("packet encoders", "to_bytes, encode_to_buffer"), ("packet decoders", "MqttPacket::from_bytes_with_version")], [],
     "abstract composition of encoder and decoder on symbolic packets: the decoder is interpreted on the symbolic byte sequence the encoder produced", "proof",
     SND + "variable byte integers and property lists enter as inverse pairs (P04, P06); choices between optional fields are covered pairwise, lists with one or two elements.")

prop("P08", "Malformed packets are refused",
     "With strict protocol compliance (the default), a packet that violates the protocol is refused with an error, never delivered as a packet and never answered with a wait for more bytes: reserved bits, bytes after the body, missing or cut short fields, "
     "reserved QoS or option values, packet identifier 0 in PUBLISH, SUBSCRIBE and UNSUBSCRIBE, wildcards in a topic name, missing subscriptions or reason codes, undefined return codes and packet types. "
     "The same packet without the violation is decoded.",
     ["inputs"], "every frame that has one of the listed violations, with unknown strings, payloads, identifiers and properties, in both protocol versions",
     "Tests hold one hand-written frame for some violations; the guarantee covers every value of the reserved bits and every content around them.",
     ["src/mqtt_serde/"], [("packet decoders", "MqttPacket::from_bytes_with_version"), ("fixed header checks", "src/mqtt_serde/parser.rs")], [],
     "abstract interpretation of the decoders on symbolic frames with one violation each; no outcome may be a packet or a request for more bytes", "proof",
     SND + "property lists are P06's; violations the existing tests or documents allow (MQTT 3.1.1 UNSUBSCRIBE without topics) are not part of it; judged for builds with the default feature strict-protocol-compliance.")

prop("P09", "Strings and topic filters are checked when received and when sent",
     "With strict protocol compliance, a string with a null character is never accepted from a received packet and never written to an encoded one, in whatever field or property it stands. "
     "The topic filters of a received MQTT 5 SUBSCRIBE have always passed the topic filter checks.",
     ["inputs"], "every string in every packet type and property, in both protocol versions",
     "Tests try one string in a field or two; a field whose reader or writer skips the check is found only by trying each of them.",
     ["src/mqtt_serde/"], [("string validator", "validate_mqtt_utf8_string"), ("string reader and writer", "src/mqtt_serde/base_data.rs")], [],
     "abstract interpretation with a ghost mark: validators are proved to succeed only after the whole string was seen without a null character, and every string returned by a reader or written by an encoder carries the mark", "proof",
     SND + "what the topic filter validators accept is not decided, only that they are asked.")

prop("P10", "Received QoS 1 and 2 messages are answered and delivered as required",
     "With automatic acknowledgement on, each received QoS 1 message is answered by exactly one PUBACK, each QoS 2 message by one PUBREC and each PUBREL by one PUBCOMP, all carrying the identifier of the packet they answer; with it off nothing is answered, "
     "and QoS 0 messages and other packets are never acknowledged. Each received message is handed to the application once, unchanged, and a QoS 2 message repeated before its release is not handed over again.",
     ["inputs", "histories", "configurations"], "every packet of every kind, in every engine state, with either protocol version and acknowledgement setting",
     "Tests check a few packets per kind in fresh engines; a wrong identifier, QoS or option test shows only for particular contents and states.",
     ["src/mqtt_client/engine.rs"], [("packet handler", "MqttEngine::handle_packet")], [("automatic acknowledgement option", "whether the engine answers by itself", "src/mqtt_client/opts.rs")],
     "abstract interpretation of the packet handler per packet variant; exits compared with the QoS response table", "proof", SND)

prop("P11", "An acknowledgement completes exactly the request that carries its identifier",
     "A PUBACK, a PUBCOMP or a refusing PUBREC for a tracked message reports its completion exactly once, with that identifier, the server's reason and the message's QoS, and stops tracking it; for an unknown identifier nothing is reported or sent. "
     "An accepting PUBREC is answered with PUBREL for the same identifier, which stays tracked until PUBCOMP. SUBACK and UNSUBACK report once, with their own identifier and codes, and no other packet completes or drops a request.",
     ["inputs", "histories"], "every acknowledgement in every engine state, both protocol versions",
     "Tests send matching acknowledgements to fresh engines; unknown, repeated or interleaved identifiers are sampled at best.",
     ["src/mqtt_client/engine.rs", "src/mqtt_client/inflight.rs"], [("packet handler", "MqttEngine::handle_packet"), ("tracking", "InflightQueue::acknowledge, push_with_stream")], [("unacknowledged packets", "sent requests awaiting their acknowledgement, by identifier", "src/mqtt_client/inflight.rs")],
     "abstract interpretation of the packet handler per acknowledgement variant; table updates, events and responses compared with the required effect", "proof",
     SND + "the identifier stored in an entry is the one it is stored under (established where entries are created).")


prop("P12", "CONNACK alone decides the connection state and what is resent",
     "The client counts as connected after a CONNACK exactly when its code is success; the outcome is reported once with the server's code, session flag and properties, and no other packet or call makes it connected. "
     "When, and only when, the server accepted and kept the session, every unacknowledged packet is sent again, in the order they were first sent, with its content unchanged except that a PUBLISH is marked duplicate, and all of them stay tracked. "
     "A successful connection restarts the reconnect back-off, a refusal does not.",
     ["inputs", "histories"], "every CONNACK and every other packet, in every engine state, both protocol versions",
     "Tests use success codes and one or two pending packets; other codes, flag combinations and pending sets are not tried.",
     ["src/mqtt_client/engine.rs", "src/mqtt_client/inflight.rs"], [("packet handler", "MqttEngine::handle_packet"), ("pending packets", "InflightQueue::get_all_for_reconnect")], [("connection state", "whether the server accepted the session", "src/mqtt_client/engine.rs")],
     "abstract interpretation of the packet handler per packet variant with loop-iteration tracking and provenance of the resent sequence; who-may-write analysis of the connection state", "proof",
     SND + "the order and completeness of library iterator adapters is assumed.")

prop("P15", "Unacknowledged publishes never exceed the receive maximum",
     "A QoS 1/2 PUBLISH is sent only while fewer than the receive maximum of them are unacknowledged; each counts from sending until its PUBACK, PUBCOMP or refusal, and the count is exact whatever the order of acknowledgements, replacements and resends. "
     "The limit is the one in the CONNACK if it has one, wherever it stands among the properties. "
     "Packets of a session the server did not keep stop counting when the new connection is accepted.",
     ["inputs", "histories", "configurations"], "every sequence of publishes, acknowledgements, retransmissions and reconnects, every limit",
     "Tests fill a window of two or three; drift of the counter shows only after particular sequences (a QoS 2 exchange half done, an identifier reused, a lost session).",
     ["src/mqtt_client/inflight.rs", "src/mqtt_client/engine.rs"], [("table", "InflightQueue::push_with_stream, acknowledge, clear, update_receive_maximum"), ("CONNACK", "MqttEngine::handle_packet")], [("count", "tracked PUBLISH and PUBREL packets", "src/mqtt_client/inflight.rs"), ("limit", "receive maximum of the server", "src/mqtt_client/inflight.rs")],
     "inductive invariant (counter = number of quota-using entries) checked on every writer by abstract interpretation; who-may-write analysis; CONNACK search loop followed per property", "proof",
     SND + "the hash map behaves as a map.")

prop("P18", "An idle connection is pinged and a dead one is detected",
     "While connected with automatic keep-alive, a tick at which nothing was sent for the keep-alive interval sends exactly one PINGREQ, and never one earlier, while one is outstanding, with keep-alive off or while disconnected. "
     "A ping unanswered for the configured multiple of the interval makes the next tick declare the connection lost, ask for a reconnect once and schedule it unless attempts are exhausted; a connection is never declared lost otherwise. "
     "Anything sent restarts the idle clock, nothing received does, and a PINGRESP clears the outstanding ping.",
     ["inputs", "histories", "configurations"], "every engine state, time and keep-alive configuration",
     "Tests advance a clock past one or two chosen intervals; boundaries, combinations of options and interleaving with other traffic are not covered.",
     ["src/mqtt_client/engine.rs"], [("tick", "MqttEngine::handle_tick"), ("sending", "MqttEngine::enqueue_packet, publish_encoded and others")], [("outstanding ping", "when the unanswered PINGREQ was sent", "src/mqtt_client/engine.rs"), ("idle clock", "when something was last sent", "src/mqtt_client/engine.rs")],
     "abstract interpretation with times as integers: tick exits against a keep-alive table; per-writer analysis of the two clocks", "proof",
     SND + "time arithmetic is taken not to overflow its representation.")

prop("P19", "Reconnect back-off is bounded, and reconnecting is requested as configured",
     "After a lost connection the next attempt is scheduled at the configured base delay, doubled with each failed attempt (up to 1024 times) and never more than the configured maximum; it is announced once, and none is made once the allowed attempts are used up. "
     "When the scheduled time has come, a tick asks for the reconnect once and forgets the schedule, and it never asks earlier or while connected. "
     "A successful connection or an explicit reset restarts the counting.",
     ["inputs", "histories", "configurations"], "every attempt count, base and maximum delay, attempt limit and tick time",
     "Tests walk through a few attempts with one configuration; large counts, extreme delays and late ticks are not covered.",
     ["src/mqtt_client/engine.rs"], [("scheduling", "MqttEngine::schedule_reconnect, reset_reconnect_state"), ("tick", "MqttEngine::handle_tick")], [("attempt count", "failed attempts since the last success", "src/mqtt_client/engine.rs"), ("next attempt", "scheduled time", "src/mqtt_client/engine.rs")],
     "abstract interpretation with times as integers and powers of two: exits compared with the back-off formula", "proof",
     SND + "time arithmetic is taken not to overflow its representation.")

prop("P20", "A new transport starts clean and keeps the session",
     "Resetting for a new transport leaves no connection state, unsent bytes, partially received packet, outstanding ping or pending reconnect of the old one, while unacknowledged and queued requests, the identifier counter and the attempt count survive. "
     "Losing the connection keeps the session too, and connecting discards the unsent bytes and the half-received packet of an older one. "
     "Connecting sends exactly one CONNECT, only when not connected, carrying the configured identity, credentials, keep-alive and session flag.",
     ["histories", "configurations", "inputs"], "every engine state in which a transport is replaced, lost or opened",
     "Tests reconnect from one or two states; leftovers matter only for particular states (half a packet received, a ping outstanding).",
     ["src/mqtt_client/engine.rs"], [("reset", "MqttEngine::reset_for_new_transport, handle_connection_lost"), ("connect", "MqttEngine::connect")], [("outgoing bytes", "encoded packets waiting for the transport", "src/mqtt_client/engine.rs"), ("parser", "bytes received of an incomplete packet", "src/mqtt_client/engine.rs")],
     "abstract interpretation of reset, loss and connect: each field of the engine compared with what belongs to the connection and what to the session", "proof", SND)

prop("P22", "The announced wake-up time is never too late",
     "The time at which the engine asks to be ticked again is not later than any timer enabled in its state (scheduled reconnect, ping timeout, keep-alive, retransmission deadline), is the time of one of them, and is absent only when none is enabled.",
     ["inputs", "histories", "configurations"], "every engine state and timer configuration",
     "Tests read the wake-up time in a few states with one timer each; with several enabled, a missed one shows only as a stall at run time.",
     ["src/mqtt_client/engine.rs", "src/mqtt_client/inflight.rs"], [("wake-up", "MqttEngine::next_tick_at, InflightQueue::next_expiration")], [("timers", "ping, sent clock, next attempt, retransmission deadlines", "src/mqtt_client/engine.rs")],
     "abstract interpretation with times as integers: the result compared with the minimum of the enabled timers on every exit", "proof",
     SND + "time arithmetic is taken not to overflow its representation.")

prop("P14", "What needs an acknowledgement is tracked exactly when it is sent",
     "Every QoS 1/2 PUBLISH, SUBSCRIBE and UNSUBSCRIBE the engine sends carries what the caller asked and the identifier the caller was given, and is tracked under that identifier and its channel until acknowledged; a QoS 0 message is not tracked. "
     "A request refused with an error is neither sent nor tracked. A message waiting in the queue leaves it only by being sent, once and after the server accepted the connection, or by being reported as an error.",
     ["inputs", "histories", "configurations"], "every command and engine state, including full buffers and packets that cannot be encoded",
     "Tests check that accepted requests are acknowledged; leftovers of refused ones and messages lost between queue and wire show only in rare states.",
     ["src/mqtt_client/engine.rs", "src/mqtt_client/inflight.rs", "src/mqtt_client/commands.rs"], [("sending", "MqttEngine::publish, publish_encoded, subscribe*, unsubscribe*"), ("moving waiting packets", "MqttEngine::process_queue")], [("unacknowledged packets", "sent requests awaiting their acknowledgement, by identifier", "src/mqtt_client/inflight.rs"), ("waiting packets", "publishes not yet sent", "src/priority_queue.rs")],
     "abstract interpretation with checker variables following each packet from queue to outgoing buffer and table; exits of every request method compared", "proof",
     SND + "the priority queue is used by its contract (decided by P23).")

prop("P13", "Every answer is sent, on the channel its packet came from",
     "Each PUBACK, PUBREC, PUBREL and PUBCOMP the client owes for a received packet is encoded and queued for sending, or reported as an error, whatever the load; none is dropped while the channel is open. "
     "On a multi-stream transport the packet is handled as coming from the stream it was read from and the answer is written to that same stream. The events a packet causes all reach the application.",
     ["inputs", "histories", "configurations"], "every sequence of received packets, with full or empty buffers, on the shared channel and on every data stream",
     "Tests receive few packets with empty buffers; a dropped or misrouted answer needs a full buffer or several streams.",
     ["src/mqtt_client/engine.rs"], [("shared channel", "MqttEngine::handle_incoming"), ("per-stream entry", "MqttEngine::ingest_stream_packet"), ("QUIC data streams", "QuicMqttEngine::drain_data_stream")], [("outgoing bytes", "per engine and per data stream", "src/mqtt_client/engine.rs")],
     "abstract interpretation with per-iteration tracking of every caller of the packet handler; provenance of the written bytes and of the channel they are written to", "proof",
     SND + "encoding is a function of the packet (decided by P07).")

prop("P21", "Packet identifiers are never zero and never reused while in use",
     "The identifier the client allocates for a request is never zero and never that of a request still unacknowledged or still waiting to be sent; identifiers are stepped through in order, so that one given back is not handed out again before the others were tried. "
     "A request is sent under the identifier allocated for it, or under the one the caller supplied.",
     ["inputs", "histories"], "every counter value, every set of identifiers in use, every request",
     "Tests allocate a handful of identifiers; wrap-around at 65535 and collisions with long-lived requests take tens of thousands of requests to reach.",
     ["src/mqtt_client/engine.rs"], [("allocation", "MqttEngine::next_packet_id"), ("requests", "MqttEngine::publish, subscribe*, unsubscribe*")], [("counter", "next identifier to try", "src/mqtt_client/engine.rs"), ("in use", "identifiers of unacknowledged and waiting packets", "src/mqtt_client/inflight.rs")],
     "abstract interpretation of the allocator with a typestate per loop iteration (candidate, found free in the table, found free in the queue); who-may-write analysis of the counter", "proof",
     SND + "fewer than 65535 identifiers are in use.")

prop("P23", "The priority queue keeps priority and arrival order within its limit",
     "The publish queue hands out the highest priority first and, within a priority, in order of arrival; looking at the next element shows the one that will be handed out next. "
     "It never holds more than its limit: an insertion into the full queue makes it give up the oldest message of the lowest priority, which may be the new one, and hand it back to the caller. Its length is always the number of messages waiting.",
     ["inputs", "histories"], "every sequence of insertions and removals, every priority and limit",
     "Tests use a few priorities and limits; counters that drift and order that breaks need particular interleavings of eviction and removal.",
     ["src/priority_queue.rs"], [("queue", "PriorityQueue::enqueue, dequeue, peek, len, clear")], [("buckets", "one queue of messages per priority", "src/priority_queue.rs"), ("count", "messages waiting", "src/priority_queue.rs")],
     "abstract interpretation of every method against an abstract ordered multiset; invariants (no empty bucket, count = sum) shown inductive; who-may-write analysis", "proof",
     SND + "BTreeMap and VecDeque behave as documented.")

prop("P17", "Retransmission is on time, once, and only where the protocol allows it",
     "While the connection lasts, MQTT 5 packets are never retransmitted. With MQTT 3.1.1 each tick resends exactly once every packet that is still unacknowledged and was last sent at least the retransmission timeout ago: a PUBLISH marked as duplicate, otherwise unchanged, on the channel it was first sent on, its timer restarted. "
     "Nothing else is resent, nothing while disconnected, and the tick always returns.",
     ["inputs", "histories", "configurations"], "every set of unacknowledged packets, sending times, timeout (zero included) and tick time",
     "Tests let one packet expire once; stale deadlines of acknowledged or replaced packets, many due at once, and boundary times are not covered.",
     ["src/mqtt_client/inflight.rs", "src/mqtt_client/engine.rs"], [("search", "InflightQueue::get_expired_with_stream"), ("tick", "MqttEngine::handle_tick")], [("deadlines", "identifier and time of sending, oldest first", "src/mqtt_client/inflight.rs"), ("unacknowledged packets", "with time of last sending and channel", "src/mqtt_client/inflight.rs")],
     "abstract interpretation with a typestate per loop iteration (deadline due or not, packet acknowledged, replaced or waiting); analysis of every writer of the deadlines; tick followed with the overdue packets as an unknown sequence", "proof",
     SND + "the clock is monotone, so that deadlines are queued in order.")

prop("P24", "A packet relayed over gRPC arrives unchanged",
     "Any MQTT packet the proxies convert into a gRPC stream message and back is the packet that was converted: same type, identifiers, flags, reason codes, topics, payloads and, in order, the same properties and user properties. "
     "No packet type and no property is dropped, added or changed on the way.",
     ["inputs"], "every packet of every type of both protocol versions, with any properties",
     "Tests convert some packets in one direction with a few properties; a field mapped to the wrong place in one of 29 packet types or 27 properties goes unnoticed.",
     ["mqtt_grpc_duality/src/lib.rs"], [("packet conversions", "mqtt_grpc_duality/src/lib.rs: convert_mqtt_to_stream_message, convert_stream_message_to_mqtt_packet"), ("fields", "mqtt_grpc_duality/src/lib.rs: impl From<...> for ...")],
     [], "abstract interpretation of the composition of both conversions on symbolic packets of every type and shape; the element conversions of mapped lists shown inverse of each other", "proof",
     SND + "a QoS 0 PUBLISH may come back with an identifier its encoding leaves out; the payload format indicator of a will is 0 or 1.")

prop("P25", "The C interface never misuses a pointer and never unwinds into C",
     "Whatever arguments a C caller passes to a function of the C interface, null pointers in any place included, the function returns normally and reads or writes through no null pointer. "
     "Every pointer it hands out is null or a live allocation made for the caller, with its length when it has one, and nothing else is leaked. "
     "For every kind of pointer handed out there is one release function, which takes back exactly what was made, once, and does nothing on null.",
     ["inputs", "histories"], "every call of every extern \"C\" function, with every combination of null and valid pointers and any result of the engine behind it",
     "The tests call the interface with valid arguments and a few nulls; unwinding out of an extern function aborts the host process and a mismatched release corrupts its heap, both only for particular arguments.",
     ["flowsdk_ffi/src/engine.rs"], [("extern functions", "flowsdk_ffi/src/engine.rs: extern \"C\" fn mqtt_*"), ("release functions", "flowsdk_ffi/src/engine.rs: mqtt_*_free*")],
     [], "abstract interpretation of every extern function with null states, ownership traces and panic sites", "proof",
     SND + "non-null pointers a C caller passes are valid for their type and length, as the C contract says; the engine methods return any value of their type (their own panics are P01's subject).")

prop("P26", "The C interface does what the engine does, and reports all of it",
     "Every operation of the C interface reaches the engine behind the handle exactly once, with the arguments and options the caller gave, and returns the engine's answer, or the documented error value for a failure or a null argument. "
     "Every event the engine produces that the interface has a kind for, and every failure of its transport, is reported to the caller once, in order and with the engine's values. "
     "Reading an event list gives the fields of the event at that index, and the documented default for any other.",
     ["inputs", "histories", "configurations"], "every call with any arguments, any answer and any sequence of events of the engine, any event list and index",
     "The tests drive the interface through one or two happy paths; a field mapped from the wrong place, an event kind dropped or an option not passed on among 22 event kinds and dozens of functions goes unnoticed.",
     ["flowsdk_ffi/src/engine.rs"], [("operations", "flowsdk_ffi/src/engine.rs: mqtt_*engine_*"), ("conversion of events", "flowsdk_ffi/src/engine.rs: map_event"), ("readers", "flowsdk_ffi/src/engine.rs: mqtt_event_list_get_*")],
     [("pending events", "events not yet taken by the caller", "flowsdk_ffi/src/engine.rs")],
     "abstract interpretation of every extern function down to the engine call, the call replaced by any answer it may give; values compared as terms over the arguments", "proof",
     SND + "JSON serialisation by serde is faithful; NUL characters inside strings are the one thing a C string cannot carry.")
prop("P28", "Transports neither lose nor repeat nor alter the byte stream",
     "Whatever is fed to the TLS engine is decrypted and reaches the MQTT engine whole, once and in order, and what the MQTT engine wants sent goes out whole, once and in order. "
     "In the QUIC engine every chunk read from a stream goes to that stream's own parser in order, what is queued for a stream is sent exactly once, and a stream or the connection is finished only after its queue is empty. "
     "Every other operation of the TLS engine is the same operation of the engine it wraps.",
     ["inputs", "histories", "faults"], "every size and split of input and output, every partial write, every number of streams",
     "Loss needs an amount of data beyond a library's internal buffer, a partial write or a refused one, at a point chosen by the peer; the tests push a few small packets through in one piece.",
     ["src/mqtt_client/tls_engine.rs", "src/mqtt_client/engine.rs"], [("TLS input and tick", "src/mqtt_client/tls_engine.rs: handle_socket_data, handle_tick, take_socket_data"), ("QUIC streams", "src/mqtt_client/engine.rs: QuicMqttEngine::handle_tick and its helpers")],
     [("waiting plaintext", "decrypted and not yet parsed", "src/mqtt_client/tls_engine.rs"), ("outgoing", "bytes queued for a stream", "src/mqtt_client/engine.rs")],
     "typestate by abstract interpretation of each transport method over the libraries' contracts (rustls, quinn-proto)", "proof",
     SND + "rustls and quinn-proto are taken by their documented contracts.")
prop("P27", "Certificates are verified unless the user asked otherwise; TLS options work",
     "A TLS or QUIC connection is verified by the library against the trust anchors the user configured, or the system's, for the host the user named; verification is relaxed only by the option that says so, and then only as far as it says. "
     "Client certificate, ALPN, early data and key logging are used exactly as configured, from the client's options, a configuration builder, the C structures or the bindings alike. "
     "A mqtts:// address never leads to anything but TLS, a quic:// address to anything but QUIC, with the backend and the options selected.",
     ["inputs", "configurations", "faults"], "every combination of options and every address, every failure to read a certificate",
     "A connection that is not verified works like one that is; the tests connect, when they do, with verification off, and never present a certificate that must be refused under each combination of options.",
     ["src/mqtt_client/transport/rustls_tls.rs", "src/mqtt_client/transport/tls.rs", "src/mqtt_client/transport/quic.rs", "src/mqtt_client/tokio_async_client.rs", "flowsdk_ffi/src/engine.rs"],
     [("TLS configurations", "to_client_config (rustls), connect_with_config (native-tls, QUIC), client_config (C interface)"), ("choice of the transport", "src/mqtt_client/tokio_async_client.rs: create_transport")],
     [("verifier", "who decides about the server's certificate", "src/mqtt_client/transport/rustls_tls.rs"), ("options", "TLS options of the client", "src/mqtt_client/opts.rs")],
     "abstract interpretation of each function that builds a configuration (async ones with awaits as completed futures), obligations at the point of use; call-site inventory of everything that can relax verification", "proof",
     SND + "rustls, native-tls and quinn-proto are taken by their documented contracts; PEM entries that do not parse are outside the property.")
prop("P29", "The async client does what was asked and answers whoever asked",
     "Every public call of the tokio client gives its worker exactly one command with its own arguments; the worker asks the engine for exactly that, and a *_sync caller gets the outcome of its own request: success only when the broker's answer to that very request arrived, a failure when it cannot be sent, is refused, or is lost with the session. "
     "Every event reaches the handler's method of its name. "
     "A lost connection is closed, reported once, fails whoever waits for it, and is retried as configured; a failure is never swallowed.",
     ["schedules", "histories", "inputs"], "every command, event and state of the worker (waiting callers, open or closed transport, configuration)",
     "Whether a caller gets its own answer depends on which requests are waiting, refused or discarded at the moment an event arrives; the tests run the client against a server that answers one request at a time, or none.",
     ["src/mqtt_client/tokio_async_client.rs"],
     [("worker", "TokioClientWorker: handle_command, dispatch_events, handle_connection_lost"), ("calls", "TokioAsyncMqttClient: connect, publish, subscribe, unsubscribe, ping, disconnect, auth, send_packet and their _sync forms")],
     [("waiting callers", "who waits for which answer", "src/mqtt_client/tokio_async_client.rs")],
     "abstract interpretation of the worker's coroutines per command and event, and of every public call", "proof",
     SND + "the engine's own behaviour is decided by the other properties and is opaque here; tokio's channels deliver what is sent. Not claimed: what happens between disconnect() and the server closing the transport, and that two callers may wait for one CONNACK or PINGRESP at a time (the later one takes the place of the earlier).")

prop("P30", "What the user sets is what is asked for: builders, constructors, CONNECT",
     "Every setter and constructor of options, configurations, commands and packets puts the value given into the field or MQTT 5 property of its name and changes nothing else, and building keeps all of it. "
     "The CONNECT sent carries each option of the client in the field of its name, in both protocol versions; DISCONNECT, AUTH and a v3 SUBSCRIBE say what was asked. "
     "Every option has an effect.",
     ["inputs", "configurations"], "every value of every option, in every combination",
     "There are well over a hundred setters, arguments and fields, many of the same type; the tests set a few of them at a time to a few values and look at the one they set.",
     ["src/mqtt_client/opts.rs", "src/mqtt_client/commands.rs", "src/mqtt_client/tokio_async_client.rs", "src/mqtt_client/transport/quic.rs", "src/mqtt_serde/mqttv5", "src/mqtt_serde/mqttv3", "src/mqtt_client/engine.rs"],
     [("builders", "every type with a build method, and every type that is its own"), ("CONNECT", "src/mqtt_client/engine.rs: MqttEngine::connect, src/mqtt_client/opts.rs: connect_properties")],
     [("options", "what the user configured", "src/mqtt_client/opts.rs")],
     "abstract interpretation of each setter, constructor and request on a symbolic value, field by field; inventory of the readers of each option", "proof",
     SND + "names are matched by words; an argument that is renamed is matched anew.")

prop("P31", "The QUIC client and the client without I/O hand calls and answers through",
     "Every public method of the client without I/O asks the engine for the operation of its name with the arguments given and returns the engine's answer; a call of the QUIC client gives its worker one command with its own arguments and returns the worker's answer to it, or fails. "
     "The QUIC worker asks the engine for exactly what a command says and answers its caller once with the engine's result, binds the socket where asked and uses the new one after a rebind, gives each datagram received to the engine whole with its sender, and hands every event to the application in order. "
     "The datagrams the engine produces are sent whole, each to its destination, in order; one the socket has no room for stays first in line.",
     ["schedules", "inputs"], "every command, datagram, tick and answer of the socket, from any state of the worker",
     "What reaches the wire depends on when the socket is full, a rebind fails or a command arrives with datagrams waiting; no test makes the socket refuse a datagram, and the QUIC client is not tested without a server.",
     ["src/mqtt_client/tokio_quic_client.rs", "src/mqtt_client/no_io_client.rs"],
     [("worker", "src/mqtt_client/tokio_quic_client.rs: run_engine_loop"), ("calls", "TokioQuicMqttClient: connect, rebind, publish, subscribe, unsubscribe, disconnect"), ("client without I/O", "src/mqtt_client/no_io_client.rs: NoIoMqttClient")],
     [("waiting datagrams", "what the socket had no room for", "src/mqtt_client/tokio_quic_client.rs"), ("socket", "where datagrams leave", "src/mqtt_client/tokio_quic_client.rs")],
     "abstract interpretation of each public call and of one turn of the worker's coroutine from an arbitrary state", "proof",
     SND + "the engine's own behaviour is decided by the other properties and is opaque here; tokio's channels and sockets do what they say. A datagram the socket rejects outright is dropped, as UDP may.")
