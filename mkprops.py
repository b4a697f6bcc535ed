#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 mkprops.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Message headers have one exact, invertible 12-byte encoding",
 "For every message type, request ID, service ID and endianness, encoding a header writes exactly the type, request ID and service ID as three consecutive 32-bit fields in that endianness into the first 12 bytes of the buffer and touches nothing else, and decoding those bytes gives back the same header. Decoding any 12 bytes either gives the header whose encoding they are, or fails with an error exactly when the type field is not one of the five known types (0 request, 1 response, 2 requester update, 3 responder update, 4 stream).",
 ["inputs","configurations"],"all 5 types x all u32 request IDs x all i32 service IDs x 3 endiannesses x any 12+ byte buffer",
 "Unit tests check the endian helpers on one or two constants and never a whole header, an unknown type, or an ID with its high bits set.",
 ["src/message.rs","src/transport/endian.rs"],[("field order and width of encode/decode","src/message.rs MessageHeader::encode/decode"),("type validation","src/message.rs MessageType::from_u32"),("byte order","src/transport/endian.rs")],["MessageHeader::encode","MessageHeader::decode"])

p("C02","Stream framing survives partial writes and back-pressure",
 "Whatever way the underlying byte stream splits, delays or interrupts writes, the bytes that a stream transport puts on it for a sequence of messages are exactly the concatenation of their frames in order: a 32-bit length (header plus body) and the 12 byte header in the configured endianness, then the body. Each write completes successfully once, and only once, the stream accepted the last byte of its frame, and an I/O error of the stream is reported as a fatal error.",
 ["inputs","fault_sequences","configurations"],"any message sequence (bodies from empty to many times the socket buffer) x any pattern of short writes, not-ready results and write errors x endianness",
 "The tests send bodies of a few bytes over a socket pair, where every frame fits in one write.",
 ["src/transport/stream/transport.rs"],[("resumable write state","src/transport/stream/transport.rs poll_write_msg")],["bytes accepted by the underlying stream","TransportWriteHalf::write_msg result"],"constructor of the write half over an arbitrary AsyncWrite",
 state=[("bytes_written/header_buffer","progress in the current frame","StreamWriteHalf")])

p("C03","Stream reading reassembles messages from any segmentation",
 "However the bytes of a sequence of valid frames are split over reads and interleaved with not-ready results, a stream transport yields exactly those messages, in order, with identical header and body, each as soon as its last byte is available and not before. When the stream ends, every complete message is still yielded first and then a fatal error is reported; it is a connection-aborted error at a message boundary as well as in the middle of a frame, and no partial message is ever yielded.",
 ["inputs","fault_sequences","configurations"],"any message sequence x any segmentation of its bytes down to single bytes x any truncation point x endianness",
 "The tests deliver each small frame in one read; no test splits a frame or truncates a stream.",
 ["src/transport/stream/transport.rs"],[("resumable read state","src/transport/stream/transport.rs poll_read_msg"),("end of stream mapping","src/transport/stream/transport.rs poll_read")],["TransportReadHalf::read_msg results"],"constructor of the read half over an arbitrary AsyncRead")

p("C04","Hostile byte streams are decoded exactly or rejected, never worse",
 "For every byte string that a remote can send, a stream transport yields exactly the messages of its longest prefix of valid frames, and answers the first invalid frame (length field below 12, unknown message type, or body longer than the configured read limit) with a fatal error, without panicking and without allocating memory for a body beyond that limit. A peer that reads such a stream delivers the valid messages, reports the error once through its receive function and then ends, leaving every other operation with an error rather than pending.",
 ["inputs","configurations"],"all byte strings (random, structured and mutated frames, extreme length fields) x read limits x endianness x segmentations",
 "No test ever feeds a malformed frame; the interesting inputs are length fields near 0, 12, the limit and 2^32.",
 ["src/transport/stream/transport.rs","src/error.rs","src/peer.rs"],[("length and type validation before allocation","src/transport/stream/transport.rs poll_read_msg"),("fatal read error stops the peer","src/peer.rs ReadLoop::run")],["read_msg results","allocator","PeerHandle::recv_message"])

p("C05","Configured body size limits hold exactly, on every transport",
 "On every transport a message whose body is at most the configured limits of both sides is delivered intact, a message over the sender's write limit is refused with an error before any part of it reaches the remote and leaves the connection usable, and a message over the receiver's read limit is never delivered, not even truncated, but reported as an error. After an over-limit incoming message a datagram connection stays usable for all later messages, and a stream connection is closed.",
 ["inputs","configurations"],"any read/write limit x body lengths around both limits x position of the over-limit message in a longer conversation x all transports and endiannesses",
 "No test sets a limit or sends a body near one.",
 ["src/transport/stream/transport.rs","src/transport/unix/transport.rs","src/transport/stream/config.rs","src/transport/unix/config.rs","src/error.rs"],[("limit checks","poll_read_msg and poll_write_msg of both transports"),("fatal or non-fatal classification","TransportError::new_fatal/new_non_fatal")],["PeerHandle results on both sides","bytes or datagrams on the wire"])

p("C06","Seqpacket messages arrive whole, in order, with their file descriptors",
 "Over the Unix seqpacket transport every message that was sent successfully arrives as exactly one message with identical header and body, in the order of sending. It carries exactly as many file descriptors as were attached, in the same order, each referring to the same open file as the one that was attached, while the sender's own descriptors stay open and usable.",
 ["inputs","histories","configurations"],"any sequence of messages with bodies up to the limit and 0..max descriptors, mixing messages with and without descriptors, endianness, reader keeping pace or lagging until the socket is full",
 "One test sends one message with a few descriptors; order of mixed messages, many descriptors and back-pressure are not covered.",
 ["src/transport/unix/transport.rs","src/transport/unix/body.rs"],[("one datagram per message with SCM_RIGHTS","src/transport/unix/transport.rs")],["TransportReadHalf::read_msg","fstat of received descriptors"])

p("C07","Hostile datagrams never crash, corrupt or confuse a seqpacket peer",
 "For every sequence of datagrams and attached descriptors that a remote can send, the seqpacket transport yields a message exactly for the well-formed datagrams within the configured body and descriptor limits, with exactly the sent header, body and descriptors. A datagram over a limit gives one non-fatal error and is dropped without affecting later datagrams; a datagram that is too short for a header or has an unknown message type gives a fatal error; nothing panics, and no message is delivered truncated or with descriptors missing.",
 ["inputs","histories","configurations"],"all datagram sequences: sizes 1..limit+k, any header bytes, 0..253 descriptors, any limits, endianness",
 "No test sends a malformed or over-limit datagram.",
 ["src/transport/unix/transport.rs"],[("size, descriptor and header validation","src/transport/unix/transport.rs poll_read_msg")],["TransportReadHalf::read_msg results"])

p("C08","File descriptors are owned by exactly one side and never leak",
 "Whatever mix of delivered, rejected, dropped, unread and failed messages occurs, every file descriptor that enters a process through the seqpacket transport is either owned by a message handed to the user or closed, so that after dropping all messages and the peers the process has exactly the descriptors it had before. Descriptors are never closed twice or closed while the user still owns them, received ones are close-on-exec, and those attached to an outgoing message are released exactly when that message is done, sent or not.",
 ["inputs","histories","fault_sequences"],"any history of sends, over-limit sends, receives, malformed and over-limit incoming datagrams, requests nobody reads, handle drops and disconnects, with descriptors attached",
 "No test counts descriptors or looks at an error path that carries them.",
 ["src/transport/unix/transport.rs","src/transport/unix/body.rs","src/peer.rs","src/request_tracker.rs"],[("immediate wrapping of received descriptors","src/transport/unix/transport.rs poll_read_msg")],["/proc/self/fd and device/inode of each descriptor"])

p("C09","Conversations are delivered exactly once, in order, to the right request",
 "Between two peers over any transport, every request, update, response and stream message whose send succeeded is received by the remote exactly once with its service ID and body unchanged, as long as the connection stays up and the receiving handle is kept. Updates and the response reach the handle of the request they were sent for and no other, in the order in which they were sent, and requests and stream messages arrive in the order in which they were sent, in both directions and for any number of requests open at the same time.",
 ["schedules","histories","inputs"],"all interleavings of any number of concurrent requests, updates in both directions, responses out of order and stream messages, on both sides, over UnixStream, TCP, seqpacket and an arbitrary user-defined transport",
 "The tests run single scripted conversations with one open request; routing with several open requests in both directions under varying schedules is not sampled.",
 ["src/peer.rs","src/request_tracker.rs","src/request.rs","src/peer_handle.rs","src/transport"],[("routing by request ID","src/request_tracker.rs process_incoming_message"),("single command queue","src/peer.rs CommandLoop")],["recv_message, recv_update, recv_response on both sides"])

p("C10","An open sent request never shares its ID with another",
 "As long as a sent request is unanswered and its handle is alive, no other request sent over the same connection gets its ID, also when the 32-bit ID counter wraps around and for any set of long-lived requests in its way. A free ID is found whenever fewer than 100 consecutive IDs are in use; otherwise sending a request fails with an error and breaks nothing else.",
 ["histories","inputs"],"all histories of sending, answering and keeping requests, from any starting point of the ID counter including just before the wrap",
 "Reaching the wrap-around takes 2^32 requests; the tests send a handful.",
 ["src/request_tracker.rs"],[("skip IDs in use","src/request_tracker.rs allocate_sent_request")],["request IDs on the wire"],"set the next request ID of a peer",state=[("next_sent_request_id","next candidate ID","RequestTracker"),("sent_requests","open sent requests","RequestTracker")])

p("C11","At most one response per request, and nothing after it",
 "For each received request a peer puts at most one response on the wire and no update after that response, no matter how many handles of the request exist, from how many tasks they send concurrently, and which handles are dropped meanwhile. Exactly the send calls that returned success had their message sent; each other one returns an error, and once a response was sent every later send through any handle of that request fails, as do updates by the requester after it received the response.",
 ["schedules","histories"],"all interleavings of concurrent send_update, send_response and send_error_response through any number of cloned handles, drops, cancellations, requester updates and slow writes",
 "The existing test sends strictly one after the other from one handle; the race is between queueing in several tasks and the peer loop.",
 ["src/request.rs","src/request_tracker.rs","src/peer.rs"],[("closed flag of a request","src/request.rs send_raw_message, src/peer.rs send_raw_message"),("removal from the tracker on response","src/peer.rs send_raw_message")],["messages on the wire per request ID","results of the send functions"])

p("C12","A failed send changes nothing but its own result",
 "When the transport refuses an outgoing message with a non-fatal error, exactly the call that sent it fails, nothing of it reaches the remote, and everything else continues: other requests, the connection, and the same request, which can still be updated and answered. A request that failed to be sent is not open afterwards, and a response that failed to be sent leaves its request open so that another response can be sent.",
 ["histories","fault_sequences"],"all histories of both peers with a non-fatal write failure (scripted, or an over-limit body or descriptor list) at any send",
 "No test makes a write fail.",
 ["src/peer.rs","src/request_tracker.rs"],[("error handling of send_request and send_raw_message","src/peer.rs")],["results of the calls","messages on the wire","later use of the same request"])

p("C13","Invalid messages from the remote are reported and stay isolated",
 "A well-formed message that violates the protocol (an update or response for an unknown, never sent or already finished request, or a request with an ID that is still open) is reported exactly once as an error from the receive function and is not delivered anywhere. It does not end the connection and does not alter any other request or the open request with that ID, for any sequence of such messages between valid ones.",
 ["inputs","histories"],"all sequences of remote messages with any type and request ID, interleaved with any local activity",
 "The tests only check one unknown-ID message on the tracker in isolation.",
 ["src/request_tracker.rs","src/peer.rs"],[("unknown and duplicate ID checks","src/request_tracker.rs"),("errors forwarded to the read handle","src/peer.rs process_incoming_message")],["recv_message results","subsequent delivery to the other handles"])

p("C14","Receiving is cancel-safe and peeking loses nothing",
 "Any pending receive (message, update or response) can be cancelled at any time and any number of times without losing, duplicating or reordering messages. Asking for an update when the response is next returns nothing, asking for the response when an update is next returns an unexpected-message error, and in both cases the message stays available exactly once to the matching call; after the response was taken every further receive on the request reports the end at once.",
 ["schedules","histories"],"all orders of recv_update, recv_response and recv_message calls, cancelled or not, against all orders of incoming messages",
 "Two tests cover one fixed order each; none cancels a receive.",
 ["src/request.rs","src/peer_handle.rs"],[("peek buffer","src/request.rs recv_update/recv_response"),("close marker in the channel","src/request.rs recv_message")],["results of recv_*"],state=[("peek_buffer","message taken from the channel but not consumed","SentRequestHandle")])

p("C15","When the connection ends, nothing is left waiting",
 "After the remote disconnects, the transport fails fatally, or any handle closes the connection, the peer's run loop ends (after a write in progress finished or failed) and every pending or later operation on any handle of that connection (sends, receives, updates, responses) completes with an error or an already received message instead of waiting forever; receives report connection-aborted. Closing works from every kind of handle, requests with a response already received still yield it, and the remote sees the connection end.",
 ["schedules","fault_sequences","histories"],"an end of any kind (EOF, fatal read or write error, close by any handle, drop of the run loop) at any point of any history with any set of pending operations",
 "Tests end connections only by dropping everything after all work is done.",
 ["src/peer.rs","src/peer_handle.rs","src/request.rs","src/request_tracker.rs","src/util/select.rs"],[("stop command","src/peer.rs Peer::run"),("channels close when the loop state is dropped","src/peer.rs")],["completion of every future at quiescence"])

p("C16","A peer lives exactly as long as a read or write handle of it",
 "A peer keeps running as long as its read handle or at least one of its write handles (including clones, split and typed ones) exists, whatever other clones were dropped, in whatever order, even before the peer first ran. It ends, and the remote sees the disconnect, as soon as the last of those is dropped and a write in progress finished or failed; request handles and close handles do not keep it alive.",
 ["histories","schedules"],"all sequences of split, clone and drop of read, write, close and request handles on either side of the start of the run loop, interleaved with traffic",
 "No test clones or drops handles in more than one order.",
 ["src/peer_handle.rs","src/peer.rs"],[("handle registration","src/peer_handle.rs Clone and Drop"),("write handle count","src/peer.rs CommandLoop::run")],["completion of Peer::run","liveness of the connection"],state=[("write_handles","number of live write handles","Peer")])

p("C17","With nobody left to read them, requests are refused, not ignored",
 "When the read handle of a peer is gone but the peer is still alive, every incoming request is answered with exactly one error response for its ID, however many arrive and also when a request ID is used again after being refused, stream messages are discarded, and open requests in both directions continue normally. A request that arrived before the read handle was dropped and was never read gets no more than one response.",
 ["histories","schedules"],"all histories in which the read handle is dropped at any point, with any IDs (reused ones included) afterwards, interleaved with open requests",
 "No test drops the read handle while requests arrive.",
 ["src/peer.rs","src/request_tracker.rs"],[("automatic error response","src/peer.rs process_incoming_message")],["messages on the wire"])

p("C18","A listener serves every connection, independently of the others",
 "A listener gives each client that connects exactly one peer of its own with the listener's configuration applied and the correct connection information, and messages of one connection are never seen on another. No client behaviour (disconnecting or resetting before or after being accepted, garbage, a failing handler task) stops the listener from serving later clients or disturbs connections that are already open. Errors of the listening socket itself are returned by accept() and run() without losing connections, and accepted connections live on when the future of run() or the listener is dropped. All of this also holds for listening sockets behind the wrappers that the library supports (&mut, Box, Pin).",
 ["histories","fault_sequences","configurations"],"any number of clients of each transport with any mix of well-behaved, garbage-sending, early-closing and resetting ones, in any order of connecting, via run() and accept()",
 "No test uses a listener with more than one client or a misbehaving one.",
 ["src/listener.rs","src/util/accept.rs","src/transport/stream/mod.rs","src/transport/unix/mod.rs"],[("accept loop","src/listener.rs run/accept"),("connection info","Transport::info")],["echo conversation of every well-behaved client","info values"])

p("C19","Binding a Unix listener replaces sockets and nothing else",
 "Binding a Unix stream or seqpacket listener to a path succeeds when nothing exists there or when a socket file is left there, and the new listener then receives the connections made to that path. If anything else than a socket is at that path (a file, directory, fifo, device, or a symbolic link to one of those), binding fails and that object is left exactly as it was, with its contents.",
 ["inputs","histories"],"any kind of file system object at the path, stale or live sockets, symbolic links to each, missing parents, repeated binds, for both listener kinds",
 "No test binds over an existing path.",
 ["src/transport/stream/mod.rs","src/transport/unix/mod.rs"],[("unlink before bind guarded by the file type","Bind implementations")],["bind result, file system before and after"])

p("C20","Generated clients and servers exchange exactly the declared typed messages",
 "For every interface definition accepted by the interface macro and every value of its declared types, a request, update, response or stream message sent through a generated client or server handle arrives at the other side as the same service, update or stream with the same value. On the wire it is an ordinary message of the right kind whose service ID is the declared one (for responses, that of the service) and whose body is the format's encoding of the value.",
 ["programs","inputs","histories"],"all interface definitions (any number of services, updates and streams, any distinct i32 IDs, unit and non-unit body types, any identifiers) x all values x orders of messages",
 "The tests compile one or two hand-written interfaces and exchange one message of a few kinds.",
 ["macros/src/interface","src/format.rs","src/macros.rs"],[("code generation","macros/src/interface/generate/services.rs, server.rs, streams.rs, message_enum.rs")],["typed values on the receiving side","raw messages on the wire"])

p("C21","Typed handles report unknown, invalid and error messages without loss",
 "When a generated client or server receives a message with an undeclared service ID it reports it as unknown together with the complete original message (and for requests a usable request handle); when the body of a declared message does not decode it reports it as invalid with its header (or request handle) and the decoder's error. An error response surfaces on the client as a remote error with exactly the text the server gave and never as a value, a failing encoder sends nothing, and none of these disturbs other messages on the same connection.",
 ["programs","inputs","histories"],"all interface definitions x all undeclared IDs, undecodable bodies, error texts and failing encoders at every message position",
 "The tests exercise only messages that decode, over declared IDs.",
 ["macros/src/interface/generate","src/error.rs","src/message.rs"],[("dispatch on the service ID with a fallback arm","macros/src/interface/generate/server.rs, services.rs, message_enum.rs"),("error response detection","macros/src/interface/generate/services.rs")],["results of typed recv functions"])

p("C22","Introspection describes the interface exactly as it was declared",
 "For every accepted interface definition, introspection reports its name, documentation and hidden flag, and every declared service, update and stream exactly once, in order of declaration and in the right list, with its name, ID, hidden flag, documentation and the type information of its declared body types. Documentation is the declared doc comment lines with their common indentation removed, each followed by a newline.",
 ["programs"],"all interface definitions with any doc comments (any indentation, empty lines, unicode), hidden markers on any item and any body types",
 "The tests check one fixed interface.",
 ["macros/src/interface/generate/interface_struct.rs","macros/src/interface/parse.rs","src/introspection.rs"],[("definition generation","macros/src/interface/generate/interface_struct.rs")],["Interface::definition()"])

p("C23","The interface macro accepts valid definitions and rejects invalid ones cleanly",
 "Every interface definition that follows the documented syntax and uniqueness rules compiles, whatever number of services, updates and streams it has and in whatever order, and the generated items are visible exactly as far as the declared visibility says. Every definition that breaks a rule (duplicate service, stream or update ID or name within its scope, an ID that is no i32, an unknown attribute, malformed syntax) is rejected at compile time with an error of the macro, without panicking, however many violations there are. Violations other than of the syntax are each reported at the offending item, and cause no follow-up errors: the valid items are still generated.",
 ["programs"],"all interface definitions, valid ones and ones with one or several injected violations at any position",
 "There are no compile-fail tests at all.",
 ["macros/src/interface/parse.rs","macros/src/interface/generate","src/macros.rs"],[("validation","macros/src/interface/parse.rs cooked::*::from_raw")],["compiler result and diagnostics"])

p("C24","Back-pressure never stops a peer from reading or deadlocks two peers",
 "While a transport does not accept more data, a peer keeps receiving and queueing incoming messages, and writing resumes where it left off as soon as the transport accepts data again. Two peers that are both kept running therefore always make progress: however small the transport buffers and however much both sides send at the same time, every send completes and every message arrives without anyone having to receive messages first.",
 ["schedules","histories","configurations"],"all bidirectional workloads x any transport capacity down to one message or a few bytes x all schedules of the two peers",
 "The tests never fill a socket buffer.",
 ["src/peer.rs","src/util/select.rs","src/transport"],[("concurrent read and command loops","src/peer.rs Peer::run"),("unbounded incoming queue","src/peer.rs")],["completion of all sends at quiescence"])

p("C25","Everything received before a disconnect is still delivered",
 "Every message that was fully received before the remote closed the connection (requests, stream messages, updates and responses) is delivered to its handle before that handle reports the end of the connection, however late the receiver asks for it. The end itself is then reported as a connection-aborted error, and again on every further receive.",
 ["histories","schedules","fault_sequences"],"any history of incoming messages followed by a disconnect at any point, with receivers that are waiting, late or slow, while nothing is being sent",
 "No test disconnects with messages still queued.",
 ["src/peer.rs","src/peer_handle.rs","src/request.rs"],[("stop queued behind received messages","src/peer.rs Peer::run")],["sequence of recv_* results"])

p("C26","Error messages arrive word for word, and errors are told apart by cause",
 "For every text, an error response sent with it (through a request handle, a write handle, or the handle inside the error that reports an unknown or invalid request) arrives as exactly one response to that request, with service ID -1 and a body that reads back as exactly that text, on every transport; if the text exceeds the size limit the send fails, and the request can still be answered. A body that is not UTF-8 gives a UTF-8 error (without losing the bytes) when read as an error message, and refusals sent automatically are readable texts. An Error is a remote error exactly if it was made from an error message, with exactly that text; an aborted connection exactly if it is an I/O error of that kind; an unexpected message type exactly if an update was received in place of the response, which is then still available; and it is displayed with the text or the numbers it was made from.",
 ["inputs","histories","configurations"],"any text (empty, zero characters, any Unicode, up to many times the limits) x any byte string as a body x all ways to send and to read an error x all constructors of Error",
 "The tests send one ASCII error text.",
 ["src/message.rs","src/error.rs","src/request.rs","src/transport/stream/body.rs","src/transport/unix/body.rs"],[("text to body and back","src/transport/*/body.rs Body::from_error/as_error/into_error"),("error response","src/message.rs Message::error_response"),("classification","src/error.rs Error::is_*")],["recv_response","Body::as_error","Body::into_error","Error::is_connection_aborted","Error::as_remote_error"])

p("C27","Connecting reaches exactly the listener at the address, or fails",
 "Peer::connect (and the Connect trait) to an address at which somebody listens with the same kind of socket (for TCP: to any of several addresses, the first that works) gives a working peer whose remote end is exactly one new connection at exactly that listener, that uses the given limits and endianness in each direction, and whose information is true: the local and remote address for TCP, the user, group and process ID of the listener for Unix sockets. In every other case (nothing there, a file, a directory, an abandoned socket, another kind of socket, a closed port) it fails with the operating system's error. It always completes, other connections are not affected, nothing in the file system changes, and no descriptor or connection stays behind when it fails, is given up half-way, or when the peer ends.",
 ["inputs","histories","configurations"],"any set of endpoints (kinds, credentials, moved, linked, abandoned) x any sequence of concurrent, cancelled and failing connects x all forms of addresses x configurations",
 "The tests only use connected socket pairs.",
 ["src/peer.rs","src/util/connect.rs","src/transport/stream/mod.rs","src/transport/unix/mod.rs"],[("connect","src/transport/*/mod.rs Connect impls, src/peer.rs Peer::connect"),("connection information","src/transport/*/mod.rs Transport::info")],["result of Peer::connect","connections accepted by plain listeners","bytes on the accepted connections"])

p("C28","What is finished leaves nothing behind",
 "The memory that a connection holds depends only on what is still open or unread: however many conversations it has carried (answered, answered with an error, refused, failed, given up half-way, with invalid messages of the remote in between, or with handles dropped early), once they are finished its memory is back at what it was, also while other requests stay open. The same holds for connections that ended, whatever was still open, pending or unread then, and for a listener and the connections it has served, also while other connections stay, including file descriptors.",
 ["histories"],"any cycle of complete conversations, protocol violations, or complete connections with any way to end, repeated any number of times",
 "The tests run a handful of messages per connection, and measure no memory.",
 ["src/peer.rs","src/request_tracker.rs","src/listener.rs","src/request.rs","src/peer_handle.rs","src/transport"],[("removal of finished requests","src/request_tracker.rs"),("tasks of connections","src/listener.rs Listener::run"),("end of a peer","src/peer.rs Peer::run")],["memory allocated and not freed by the thread","open file descriptors"])

p("C29","Every choice of features and build profile gives the same working library",
 "With every combination of the crate's features (tcp, unix-stream, unix-seqpacket, macros) and no dependencies beyond what those features pull in, in debug and in release builds, the crate compiles, offers everything that the chosen features promise (transports, peers, listeners and connection information of each kind; custom transports without any; the interface macro), and behaves the same: the same calls give the same results, errors and messages, whichever other features are enabled and whether or not debug assertions, overflow checks and optimizations are.",
 ["configurations","inputs","histories"],"all 16 sets of features x dev and release x any conversation over any available transport or interface; any case of the other properties without debug assertions",
 "The tests run in one debug build with all features.",
 ["Cargo.toml","src/lib.rs","src/transport","src/util","src/peer.rs","src/request_tracker.rs","macros/src"],[("features","Cargo.toml [features], cfg(feature) in src"),("exports by feature","src/lib.rs")],["compilation of a program that uses the chosen features","results of all calls in each build"])

for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    print(json.dumps(x))
