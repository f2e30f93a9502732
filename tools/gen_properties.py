#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "A well-formed HTTP request is recovered exactly, however its bytes arrive",
     "Parsing a well-formed HTTP/1.x request (at most 20 headers, UTF-8 header values, a Host header) from a stream gives back exactly the method, headers, URL (Host plus request target, including the query) and body that were sent, whatever sizes the pieces have in which the stream delivers the bytes. The body yields exactly Content-Length bytes when that header is given, even if more bytes follow on the stream, and everything up to the end of the stream otherwise.",
     ["inputs", "schedules"], "all well-formed requests (methods, targets, header sets in any letter case, bodies, trailing bytes) and all ways of cutting them into reads",
     "The suite has one parse regression on one fixed byte string delivered in one piece; nothing covers header case, queries, bodies, following bytes or segmentation.",
     ["puck/src/request/mod.rs", "puck/src/body/mod.rs"],
     [("head read line by line up to the blank line, then parsed", "Request::parse"), ("URL assembled from Host and target", "Request::parse"), ("length-limited body over the same reader", "Body::from_reader, Read for Body")],
     [("Body.length/bytes_read", "how much of the stream belongs to the body", "puck/src/body/mod.rs")],
     ["Request::{method,headers,url,body}", "bytes read from the body"])
prop("C02", "Request parsing is total, deterministic and true to the Host and target",
     "Parsing never panics on any byte stream and its outcome depends only on the bytes: the absence of a request is reported exactly when the stream ends before the blank line that ends the head, and a head that is not valid HTTP, has more than 20 headers, lacks a Host, carries header values that are not UTF-8, or whose target is not a path, an absolute http(s) URL or a CONNECT authority is an error. When a request is returned, its URL's host and path are those named by the Host header and the target (up to URL normalisation), and when headers repeat with different letter case the last one on the wire decides the host and the body length. I/O errors of the stream are reported as errors and not swallowed.",
     ["inputs", "fault_sequences"], "all byte streams, in particular mutations of valid requests, repeated headers in different letter case, unusual Host values and targets, and streams that fail part-way",
     "The suite has two fixed malformed strings; the parser's result on the rest of the input space, and its dependence on hash-map iteration order, are never exercised.",
     ["puck/src/request/mod.rs"],
     [("error enum instead of panics", "RequestParseError"), ("header limit", "MAX_HEADERS"), ("Host lookup ignoring letter case", "Request::parse")],
     None, ["Request::parse"])
prop("C03", "A written request parses back to the same request",
     "Writing a request and parsing the bytes gives a request with the same method (GET, POST, HEAD or any other token), URL path and query, headers and body. Partial writes do not change the bytes, and writing reports the error of a failing writer.",
     ["inputs", "fault_sequences"], "all requests built with the builder whose headers are valid and name the URL's host and the body's length; all points at which the writer fails or accepts only part of the data",
     "No test writes a request.",
     ["puck/src/request/mod.rs", "puck/src/request/builder.rs"],
     [("request line, headers, blank line, body", "Request::write"), ("method names", "Method::write, Method::new_from_str")], None, ["bytes written", "Request::parse of them"])
prop("C04", "Every response is sent as one well-formed HTTP message with exactly its content",
     "Sending a response writes a status line with its code and reason, each header exactly once, a blank line and exactly the bytes of its body (limited to the body's declared length), and nothing else; an independent HTTP parser and this library's own parser read back the same status, reason, headers and body. The write ends with an error, never silently short, when the stream fails, and partial writes do not change the bytes; the built-in 400 and 404 responses are valid HTML responses (text/html, UTF-8) with those codes.",
     ["inputs", "fault_sequences"], "all responses with valid header names and values, all body sources (strings, streams longer or shorter than their declared length), all partial-write behaviours and failure points of the stream",
     "No test encodes a response.",
     ["puck/src/response/encoder.rs", "puck/src/lib.rs", "puck/src/response/builder.rs", "puck/src/core/mod.rs"],
     [("status line, sorted headers, body copy", "Encoder::write_tcp_stream"), ("body limited to its length", "Read for Body")], None, ["bytes on the stream", "result of respond/write_response"])
prop("C05", "Response parsing recovers exactly what was sent and reports what is malformed",
     "Parsing a well-formed HTTP response (at most 20 headers) gives back its status, reason, headers, and a body of exactly Content-Length bytes when that header is given or of everything up to the end of the stream otherwise, however the bytes are cut. On any other byte stream parsing never panics: the absence of a response is reported exactly when the stream ends before the end of the head, and a head that is not a valid HTTP response, has more than 20 headers, or has header values that are not UTF-8 is an error, never a response with parts missing.",
     ["inputs", "schedules", "fault_sequences"], "all well-formed responses and all cuts of them into reads; all byte streams, in particular mutations of valid responses and heads with more than 20 headers",
     "No test parses a response.",
     ["puck/src/response/mod.rs", "puck/src/body/mod.rs"],
     [("head read up to the blank line, then parsed", "Response::parse"), ("length-limited body", "Body::from_reader")], None, ["Response::{status,reason,headers}", "bytes read from the body"])
prop("C06", "A body yields exactly its content and never reads past its declared length",
     "However it is read (any sequence of reads with any buffer sizes, into bytes, or into a string), a body yields exactly the first `length` bytes of its source when a length is declared and all of the source otherwise, in order and nothing after that, and it never takes more than that from the source's reads. Bytes that are not UTF-8 make the conversion to a string an error, and an error of the source is passed on without losing or repeating bytes around it.",
     ["inputs", "histories", "fault_sequences"], "all contents, declared lengths below, at and above the content's size, read sequences, source chunkings and transient source errors",
     "No test reads from a body.",
     ["puck/src/body/mod.rs"],
     [("per-read limit of what is left", "Read for Body"), ("conversion to bytes and strings", "Body::into_bytes, Body::into_string")],
     [("Body.length/bytes_read", "declared length and progress", "puck/src/body/mod.rs")], ["bytes returned by the body"])
prop("C07", "Builders and body replacement keep a message's parts intact",
     "A request or response built with the builders has exactly the method or status, URL, headers (the last value set for a name) and body given, and building without a method, or with an invalid URL, is reported as an error by the fallible builder. Replacing or taking a body returns the old body with its unread bytes, installs the new one (an empty one when taking), sets Content-Type to the new body's media type, and leaves every other header and part unchanged. The media types print as text/html;charset=utf-8, text/plain;charset=utf-8 and application/octet-stream (the type of bodies made of strings or readers).",
     ["inputs", "histories"], "all sequences of builder calls and of replace and take operations, on messages built locally and on messages parsed from a stream",
     "No test builds a message or replaces a body.",
     ["puck/src/request/builder.rs", "puck/src/response/builder.rs", "puck/src/request/mod.rs", "puck/src/response/mod.rs", "puck/src/body/mime.rs"],
     [("builder fields", "RequestBuilder, ResponseBuilder"), ("mem::replace and Content-Type copy", "replace_body, take_body")], None, ["accessors", "bytes of the bodies"])
prop("C08", "A URL matcher accepts exactly the paths its segments describe",
     "A matcher accepts a URL exactly when the path has as many segments as the matcher, static segments are equal to the (percent-encoded) path segments, an integer segment is a decimal integer that fits 32 bits, and a free segment is anything; a matcher without segments accepts no path of a URL that has one, and a URL that cannot have a path is never accepted. The answer does not depend on query, fragment, host, port or scheme and is the same every time.",
     ["inputs"], "all matchers and all URLs: lengths differing by one, empty segments, trailing slashes, percent-encoding, signs, leading zeros and numbers around the 32-bit limits",
     "One test checks one matcher on two URLs.",
     ["puck/src/core/router/match_url.rs"],
     [("segment-wise comparison", "Match::does_match")], None, ["Match::does_match"])
prop("C09", "The router runs exactly the first matching route, once",
     "For every router and request, exactly one handler runs, once: that of the first route, in the order the routes were added, whose matcher accepts the request; matchers of later routes are not consulted and the handler receives that request, that connection and the server's state. If no matcher accepts, no handler runs.",
     ["programs", "inputs"], "all route tables (any number of routes, overlapping matchers, repeated handlers) and requests, through both ways of serving a router",
     "No test serves a router: tests run without connections.",
     ["puck/src/core/router/mod.rs", "puck/src/core/mod.rs"],
     [("first match wins", "Router::respond"), ("routes sent to the connection's process as integers", "Router::as_ints, Router::from_ints")], None, ["which handlers ran, with what"])
prop("C10", "Every accepted connection is served once, by itself, under every interleaving",
     "For every number of clients and every interleaving of accepting, reading, handling and writing, each connection that sends a request gets its own handler run exactly once, with exactly the request sent on that connection and the state the server was started with, and receives exactly the response of its own handler; no connection waits for another one's data, and failing accepts do not stop the server. This holds for the function-per-connection server and for both router servers.",
     ["schedules", "histories", "inputs"], "all interleavings of up to several clients whose requests arrive in arbitrary pieces, with slow, stalled and failing accepts in between",
     "The suite never opens a connection, and a test would see one interleaving.",
     ["puck/src/core/mod.rs", "puck/src/core/router/mod.rs"],
     [("one process per accepted connection", "Core::serve_router, Core::for_each, Router::run"), ("state cloned into each process", "Process::spawn arguments")], None, ["handler invocations", "bytes received by each client"])
prop("C11", "A faulty client or handler affects only its own connection",
     "A client that sends malformed data, disconnects at any point, resets, never completes its request or never takes its response, and a handler that panics, affect only their own connection: the server goes on accepting, every other connection is served as if the faulty one did not exist, and no handler runs for a connection that did not send a complete well-formed request head. A connection whose request is malformed or incomplete is answered with 400 and nothing else, and never brings its process down with a panic.",
     ["fault_sequences", "schedules", "inputs"], "all mixes of well-behaved and faulty clients (malformed heads, early end of stream, resets, stalls, failing writes) and panicking handlers, under all interleavings, on all three ways of serving",
     "No test opens a connection or injects a fault.",
     ["puck/src/core/mod.rs", "puck/src/core/router/mod.rs", "puck/src/lib.rs"],
     [("process isolation per connection", "Process::spawn"), ("400 for what is not a request", "serve_router, for_each, Router::run, err_400")], None, ["process exits and panics", "bytes received by each client"])
prop("C12", "Requests and responses cross from client to handler and back unchanged",
     "A request built and written with this library on a connection to a server of this library reaches that connection's handler exactly once, with the same method, URL (up to the fragment), headers and body; and the response the handler sends, read from that connection with this library's response parser or an independent one, has the status, reason, headers and body the handler gave it, after which the connection is released. This holds whatever the handler does with the request's body before it responds (reads it, reads part of it, ignores it, or sends it back as the body of the response), for bodies of any size with and without a declared length, and for any number of exchanges at the same time.",
     ["inputs", "schedules"], "all requests and responses with valid heads, all ways of handling the body, all ways of cutting the bytes in both directions, all interleavings of several exchanges, on all three ways of serving",
     "No test connects the request writer, a server, a handler and the response parser.",
     ["puck/src/request/mod.rs", "puck/src/request/builder.rs", "puck/src/response/mod.rs", "puck/src/response/builder.rs", "puck/src/response/encoder.rs", "puck/src/body/mod.rs", "puck/src/core/mod.rs", "puck/src/core/router/mod.rs"],
     [("writer and parser of requests", "Request::write, Request::parse"), ("writer and parser of responses", "Encoder::write_tcp_stream, Response::parse"), ("process per connection", "Core::serve_router, Core::for_each, Router::run"), ("bodies over connections", "Body")], None, ["what handlers see", "what clients read"])
prop("W01", "The WebSocket handshake follows RFC 6455 for every request",
     "An upgrade succeeds exactly when the request has, in any letter case of names and values, Upgrade: websocket, a Connection header naming upgrade, and a Sec-WebSocket-Key; the connection then receives exactly one 101 response whose Sec-WebSocket-Accept is the base64 SHA-1 of the key followed by the protocol's GUID, with matching Upgrade and Connection headers, and the stream becomes a WebSocket. In every other case it receives exactly one 400 response and no WebSocket is produced.",
     ["inputs"], "all header sets and letter cases, all keys, presence and absence of each header, additional options in Connection",
     "One test computes the accept value of one key; no test performs a handshake.",
     ["puck/src/ws/upgrade.rs", "puck/src/core/mod.rs"],
     [("header checks", "should_upgrade"), ("accept value and 101 response", "perform_upgrade, compute_accept_header"), ("400 otherwise", "Stream::upgrade")], None, ["bytes on the connection", "result of upgrade"])
prop("W02", "WebSocket frames are decoded exactly, however they are cut or pipelined",
     "Every masked client frame, of any length in any of the three length encodings, any opcode, final flag and masking key, is decoded to its final flag, opcode and unmasked payload, whatever sizes the pieces have in which the stream delivers it. Decoding takes exactly the frame's bytes from the stream, so frames sent back to back are all decoded in order.",
     ["inputs", "schedules"], "all sequences of frames, payload lengths around 125/126 and 65535/65536, all masking keys, all cuts into reads",
     "One test decodes two empty unmasked frames from complete buffers.",
     ["puck/src/ws/frame.rs"],
     [("header, length, mask, payload", "Frame::parse")], None, ["Frame accessors", "bytes left on the stream"])
prop("W03", "Every message sent is a valid RFC 6455 server frame with exactly its payload",
     "Sending any text, binary, ping or pong message of any size writes exactly one final, unmasked frame with the right opcode, no reserved bits, the shortest length encoding and the payload unchanged, so an independent RFC 6455 decoder reads back the same message and nothing else. Partial writes of the stream do not change the bytes, and a failing stream is reported as an error to the sender.",
     ["inputs", "fault_sequences"], "all messages, sizes around 125/126 and 65535/65536, all partial-write behaviours and failure points of the stream",
     "No test encodes a frame.",
     ["puck/src/ws/frame.rs", "puck/src/ws/send.rs", "puck/src/ws/websocket.rs"],
     [("frame header", "Frame::format, Frame::format_length"), ("header then payload", "send, send_frame")], None, ["bytes on the stream"])
prop("W04", "Fragmented messages are reassembled exactly, mis-sequenced frames rejected",
     "A text or binary message sent as one frame or as any number of fragments is delivered exactly once with its whole payload in order, text only if the whole payload is UTF-8 (even when a character is split between fragments), and messages sent back to back are delivered in order. A continuation without a start, a new data frame inside a fragmented message, a reserved opcode, a frame with reserved bits, an unmasked frame with payload, and text that is not UTF-8 are reported as client errors and never delivered as messages.",
     ["inputs", "histories"], "all sequences of messages, all fragmentations (including empty fragments and fragments inside a character), all protocol violations at any position",
     "No test decodes a message.",
     ["puck/src/ws/message.rs", "puck/src/ws/frame.rs"],
     [("fragment loop", "Message::next"), ("UTF-8 check of the whole payload", "Message::next")], None, ["messages returned"])
prop("W05", "A WebSocket session answers pings, closes once and stays closed",
     "In every history of messages from the client and of sends, copies and closes on the server's side, each ping is answered by exactly one pong with the same payload before the next message is delivered, messages are delivered in the order sent, and what the server sends appears on the wire in the order of the calls. A close frame (also one that comes inside a fragmented message) is answered by exactly one close frame, after which the session reports itself closed for ever and reads nothing more; closing an open session sends exactly one close frame, and closing a closed one sends nothing.",
     ["histories", "schedules"], "all interleavings of client frames (cut arbitrarily) and server operations",
     "No test opens a session.",
     ["puck/src/ws/websocket.rs", "puck/src/ws/message.rs"],
     [("session state and automatic replies", "Iterator for WebSocket, WebSocket::close")],
     [("WebSocketState", "open or closed", "puck/src/ws/websocket.rs")], ["bytes the client receives", "items of the iterator"])
prop("W06", "No client bytes can crash, hang or exhaust a WebSocket endpoint",
     "Decoding frames and messages from any byte stream, ended, reset or stalled at any point, never panics, never spins without consuming input, and uses memory proportional to the bytes actually received, not to the length a client claims. A stream that ends inside a frame or a fragmented message is reported as an error and never as a message.",
     ["inputs", "fault_sequences"], "all byte streams, in particular valid sessions mutated, truncated at every point, and frames that claim lengths up to 2^64-1",
     "No test feeds invalid frames.",
     ["puck/src/ws/frame.rs", "puck/src/ws/message.rs"],
     [("errors instead of panics", "ParseFrameError, DecodeMessageError"), ("payload buffer grows as data arrives", "Frame::parse")], None, ["result of parsing", "peak allocation"])
prop("W07", "WebSocket sessions of different clients do not affect each other",
     "For any number of clients of a server whose handlers upgrade to WebSocket sessions, each client that completes the handshake has a session of its own: its handler receives exactly the messages sent on that connection, in order, and the client receives exactly what its own handler, and processes holding copies of its session, send to it, each in the order of sending and in whole frames, plus one pong per ping. What other clients do (closing, disconnecting, resetting, violating the protocol, stalling, failing handshakes) and handlers that panic affect only their own session, later clients are served as before, and the connection of a session that has ended is released.",
     ["schedules", "histories", "fault_sequences"], "all histories of several concurrent sessions with all ways of ending, all interleavings of their processes and all ways of cutting the bytes, on all three ways of serving",
     "No test opens a session.",
     ["puck/src/core/mod.rs", "puck/src/core/router/mod.rs", "puck/src/ws/upgrade.rs", "puck/src/ws/websocket.rs", "puck/src/ws/message.rs", "puck/src/ws/frame.rs", "puck/src/ws/send.rs"],
     [("process per connection", "Core::serve_router, Core::for_each, Router::run"), ("handshake", "Stream::upgrade"), ("session over a stream, copies of it", "WebSocket"), ("whole frames in single writes", "send_frame")], None, ["messages handlers receive", "bytes each client receives", "released connections"])
prop("L01", "Applying the difference of two trees turns the first into the second",
     "For any two element trees with unique ids and no keys, applying the changes computed between them, in order, to the first yields exactly the second: names, attributes, listeners, texts, ids, structure and order of children. Every change addresses an element that exists at that moment, no two elements ever share an id on the way, and equal trees differ by no changes.",
     ["inputs", "histories"], "all pairs and sequences of trees, with ids generated in document order or chosen freely, including structural shifts that reuse ids for other elements",
     "The suite compares a handful of fixed pairs (and these tests need dependencies that are not available offline); its fuzz test compares pairs only.",
     ["puck_liveview/src/dom/element/diff/mod.rs", "puck_liveview/src/dom/element/diff/changeset/apply.rs"],
     [("recursive positional comparison", "Element::diff"), ("reference application", "Changeset::apply")], None, ["Element after apply"])
prop("L02", "The browser's DOM equals the component's latest rendering after every update",
     "For every component and every history of renderings, executing the messages the server sends, in order, in the shipped client script on a browser DOM leaves a document whose elements have the names, ids, attributes, texts, children and order of the latest rendering after each message, without a script error. This holds for all attribute values, texts and listener names, including those with the characters the wire format itself uses.",
     ["histories", "inputs"], "all sequences of renderings without keys and without attributes named id; values, texts and listener names with arbitrary characters",
     "The repository never executes the client script.",
     ["puck_liveview/client/index.js", "puck_liveview/src/dom/element/diff/changeset/instruction_serializer.rs", "puck_liveview/src/dom/element/diff/mod.rs", "puck_liveview/src/component/mod.rs"],
     [("instruction encoding", "InstructionSerializer"), ("instruction interpreter", "client/index.js onmessage"), ("difference per update", "perform_diff")], None, ["DOM after each message"])
prop("L03", "Each browser event reaches exactly the listener of the current rendering, once",
     "Firing an event on an element sends exactly one message per listener the latest rendering attaches for that event to that element (and, since events bubble, to its ancestors), and each message invokes the component's current callback of that listener once, with the input's value where there is one, followed by exactly one set of changes computed from a fresh rendering. Unknown listeners, input events without a value, and messages that are not valid leave the component unchanged and do not disturb later events; inputs sent to the component's process from elsewhere are applied once each, in the order sent.",
     ["histories", "inputs", "schedules"], "all histories of renderings that add, remove and rename listeners, events on any element, malformed client messages, and inputs from other processes, under all interleavings",
     "The suite has no component test and never runs the client script.",
     ["puck_liveview/src/component/mod.rs", "puck_liveview/client/index.js", "puck_liveview/src/dom/listener.rs"],
     [("listener lookup by name", "main_loop"), ("listener attachment and removal", "client/index.js attachListener, removeListeners")], None, ["component updates", "messages in both directions"])
prop("L04", "Converting HTML nodes to elements keeps names, attributes, texts and order",
     "Converting a tree of wrapped HTML nodes to elements yields one element per node with the node's tag name, attributes, text, listeners and, for div, p, form and select, its children in order, with ids that are unique and increase in document order from the generator's next id; headings, labels, links, images, line breaks and noscript have no children. The same tree always converts to the same elements.",
     ["inputs"], "all trees over all supported tags",
     "The suite compares three fixed trees with snapshots (unavailable offline).",
     ["puck_liveview/src/html/mod.rs", "puck_liveview/src/html/id.rs"],
     [("one arm per tag", "WrappedBodyNode::into_element"), ("id counter", "IdGen")], None, ["Element"])
prop("L05", "A live session ends with its connection and affects no other session",
     "When the client closes, disconnects, or violates the protocol, at any point, the session stops reading and releases the connection, the component is dropped and no process of the session goes on running or accumulating messages; until then it handles everything sent before that point. Other sessions of the same component are unaffected and each sees only its own state, events and changes.",
     ["fault_sequences", "schedules", "histories"], "all points at which connections end, in all ways, with several sessions interleaved arbitrarily",
     "No test opens a session.",
     ["puck_liveview/src/component/mod.rs"],
     [("reader process and component process per session", "manage, main_loop")], None, ["processes alive and runnable", "mailbox growth", "bytes each client receives"])

prop("E01", "The list example shows exactly the submitted items, in the order recorded",
     "The list example answers every request: a submission is acknowledged with 200 and appended exactly once to the list, and /read/n with n >= 0 shows the last n items of the list (all of them if there are fewer) in the order in which they were recorded, as of one moment between its request and its answer. A submission that was acknowledged before another was sent comes before it, and a reading that starts after an acknowledgement or another reading shows nothing older. Requests for anything else, submissions without a message, and numbers that are none are answered with an error page and change nothing.",
     ["inputs", "histories", "schedules"], "all histories of submissions and readings by concurrent clients, with all interleavings of the application's processes and all ways of cutting the requests",
     "No test runs the example.",
     ["examples/list/src/main.rs", "puck/src/core/mod.rs", "puck/src/core/router/mod.rs"],
     [("one process owns the list", "ListServer and its request handlers"), ("routes", "main")],
     [("items", "the list so far", "examples/list/src/main.rs")], ["responses to clients"])
prop("E02", "A chat message reaches everyone in the room once, in order, under the right name",
     "A user of the chat example who gives a name and joins is greeted with it and an id that no other present user has. What a user says is shown exactly once on their own page and on the page of everyone who was in the room before and stays, never on the page of someone who joins after it has been shown, and at most once on any other; under the sender's name and id, in the order in which a sender said it, and in the same order on the pages of all who said neither. Pages of users never fail or show anything else, users who leave in whatever way release their connection and do not disturb the others, and actions on an outdated page are without effect.",
     ["histories", "schedules", "fault_sequences"], "all histories of joining, typing, sending and leaving (close, disconnect, reset, protocol violation) by several browsers, with all interleavings of the application's processes, the network and the browsers",
     "No test runs the example, nor any live session.",
     ["examples/chat/src/main.rs", "puck_liveview/src/component/mod.rs", "puck_liveview/client/index.js", "puck_liveview/src/dom/element/diff/mod.rs"],
     [("one process owns the users and distributes messages", "ChatServerState"), ("component per browser", "LiveviewComponent"), ("ids given out and taken back", "UserIdCreator")],
     [("users", "who is in the room", "examples/chat/src/main.rs"), ("in_use, recycle, head", "ids", "examples/chat/src/main.rs")], ["the pages as the browsers show them"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
print(len(P), "properties")
