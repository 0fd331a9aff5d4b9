#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},
      "why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
                 "mechanism":[{"name":a,"where":b} for a,b in mech],
                 "observe_at":list(observe),"hook_needed":None}})

p("C01","Every frame is put on the wire in the documented format",
  "Every frame sent by either endpoint - request, continuation, response, push or reset - appears on the network as exactly a 4-byte big-endian length (12 plus payload size), the 8-byte big-endian identifier, one flag byte, the 3-byte big-endian command and the payload. The identifier, flags, command and payload bytes on the wire are the ones the caller supplied (commands are cut to 24 bits), and nothing else is written around or between frames.",
  ["inputs"],"all identifiers, flags, commands and payload bytes (payload length bounded)",
  "The tests send a handful of fixed commands and ASCII payloads and only look at the decoded answer, so two matching mistakes cancel out; they never look at raw bytes or unusual flag/command/identifier values.",
  ["framewriter.go","clientconn.go","serveconn.go","doc/frame.md"],
  [("header and payload assembly","framewriter.go: StartWrite, WriteBytes, endWrite"),("socket write","writer.go: writeBuffers")],
  [("wbuf","frame being built","framewriter.go")],["bytes given to net.Conn.Write"])
p("C02","Received bytes are decoded into exactly the frames sent, however split",
  "A well-formed byte stream is decoded into exactly the frames it contains, in order, with the identifier, flags, 24-bit command and payload bytes that are on the wire. The result does not depend on how the network splits the stream into reads, and no byte of one frame ever leaks into another.",
  ["inputs","schedules"],"all frame header values and payload bytes, all ways of chopping the stream into reads, on server and client side",
  "Tests run over loopback TCP, where small frames arrive in one piece; arbitrary splits and arbitrary header values are never produced.",
  ["framereader.go","reader.go"],
  [("header/payload read","framereader.go: readFrame"),("full reads with buffering","reader.go: ReadBytesWithMaxTimeout")],
  [("rbuf","header buffer","framereader.go")],["handler's RequestFrame","Response.GetFrame"])
p("C03","Malformed, oversized or truncated frames are never delivered",
  "A frame whose length field is below 12 or, on a server, above the configured (or default 10 MiB) maximum frame size, and a frame cut off by the end of the stream, is never delivered to any handler or response. The receiving endpoint ends the connection instead, without waiting for or buffering the oversized body, while frames that preceded it are unaffected; a frame of exactly the maximum size is accepted.",
  ["inputs"],"all 32-bit length values, all maximum sizes, all cut points within the bounded stream",
  "No test sends a malformed frame at all.",
  ["framereader.go","serveconn.go","clientconn.go","conf.go"],
  [("size checks","framereader.go: readFrame"),("default limit","serveconn.go: serve, DefaultMaxFrameSize")],
  [],["handler invocations","connection close"])
p("C04","Codec-flagged payloads round-trip and are never confused with plain ones",
  "A payload sent with the codec flag through matching codecs is delivered as the original bytes, whether it was encoded or - because encoding made it longer, or it was empty - sent plain with the flag cleared. Without a codec, sending a non-empty codec-flagged payload fails with the no-codec error and puts nothing on the wire, and receiving one ends the connection rather than delivering undecoded bytes. Payloads sent without the flag never pass through the codec.",
  ["inputs","configurations"],"all payload bytes, all encoded lengths relative to the payload, codec present or absent on each side, encode/decode errors",
  "No test configures a codec.",
  ["framewriter.go","framereader.go"],
  [("encode or fall back","framewriter.go: EndWrite"),("decode","framereader.go: readFrame")],
  [],["wire bytes","delivered payload"])
p("C05","A frame never carries bytes of an earlier, abandoned frame",
  "The payload of every frame sent consists of exactly the bytes written since that frame was started. Bytes written for a frame that was never finished - because its handler panicked, returned early, or finishing it failed - never appear in any later frame on this or any other connection.",
  ["histories","inputs"],"all bounded histories of start/write/finish/abandon/panic/failed-finish over shared and recycled writers, blocking and non-blocking, client and server",
  "Tests never abandon a frame half-written, so the recycled buffers are always empty when reused.",
  ["framewriter.go","serveconn.go","clientconn.go"],
  [("writer pool and buffer reset","framewriter.go: newFrameWriter, Finalize, StartWrite, endWrite"),("shared writer of blocking requests","serveconn.go: serve")],
  [("fwPool","recycled writers","framewriter.go")],["wire bytes"])
p("C06","Command and flag helpers obey their algebra",
  "Combining a command with an opaque byte and taking it apart returns the routing part (lower two bytes) and the opaque byte (third byte) unchanged. Each flag conversion sets or clears exactly the bits it names - converting to non-stream clears both stream bits, to stream / end-of-stream / codec / non-codec changes only that bit - and each predicate answers precisely from the bits: streamed if either stream bit, non-blocking if streamed or so marked, done if not streamed or ended or reset.",
  ["inputs"],"all 32-bit commands, all 8-bit opaque values, all 8-bit flag values",
  "Tests use three flag values and never combine them.",
  ["qrpc.go"],[("bit operations","qrpc.go")],[],["return values"])
p("C07","Requests are routed by the low two command bytes, through middleware",
  "A request runs exactly the handler registered for the lower two bytes of its command, once, whatever its third byte; registering a second handler for the same routing value, a nil handler or a command beyond 24 bits panics and leaves the existing registration in force. A request with no registered handler runs no handler and its connection is closed. Middleware runs in registration order before the handler, and the first one that declines stops the chain.",
  ["inputs","configurations"],"all commands, registration sets and middleware verdicts within the bound",
  "Tests register small distinct commands only, never use the opaque byte or middleware, and never send an unknown command.",
  ["server.go","middleware.go","qrpc.go"],
  [("route table","server.go: Handle, ServeQRPC"),("middleware chain","middleware.go")],
  [("m","route table","server.go: ServeMux")],["handler and middleware invocations"])
p("C08","Each response reaches exactly the request it answers",
  "A response frame is delivered to the one outstanding request with the same identifier, at most once, and to no other, whatever the order in which responses arrive and however requests are interleaved between goroutines and directions. A frame whose identifier matches no outstanding request never completes any request.",
  ["inputs","schedules","histories"],"all response orders and identifiers, all interleavings of concurrent requesters within the delay bound, client-initiated and server-initiated requests",
  "Tests send identical payloads concurrently, so a swapped response is invisible, and only the interleavings that happen to occur are seen.",
  ["clientconn.go","serveconn.go"],
  [("pending-response table","clientconn.go: respes; serveconn.go: ConnectionInfo.respes"),("register before write","clientconn.go/serveconn.go: writeBuffers")],
  [("respes","outstanding requests","clientconn.go, serveconn.go")],["Response.GetFrame"])
p("C09","Request identifiers are unique per connection and carry their origin",
  "No two requests issued on one connection by the same side, however concurrently, get the same identifier. Identifiers issued by a client are odd and those issued by a server are even, and the frame helpers that tell the two origins apart agree with this for every identifier.",
  ["schedules","inputs"],"all interleavings of concurrent requesters within the delay bound; all 64-bit identifiers for the origin helpers",
  "Uniqueness under concurrency is a property of every schedule; tests never compare identifiers.",
  ["clientconn.go","serveconn.go","frame.go"],
  [("id generators","clientconn.go/serveconn.go: nextRequestID"),("origin predicates","frame.go: FromClient, FromServer")],
  [("ridGen","id counter","clientconn.go, serveconn.go")],["request identifiers on the wire and returned"])
p("C10","Blocking requests run one at a time in arrival order; others overlap",
  "Requests sent without the non-blocking or stream flags on one connection are handled strictly one after another in arrival order, and no later request's handler starts before an earlier blocking one has returned. The running handler of a non-blocking or streamed request never delays the handlers of the requests that follow it.",
  ["schedules","inputs"],"all flag combinations over a bounded sequence of requests, all handler/reader interleavings within the delay bound",
  "Tests never have two blocking requests in flight whose overlap would be visible.",
  ["serveconn.go","qrpc.go"],
  [("reader gate","serveconn.go: readFrames, serve")],[("gate","reader waits for blocking handler","serveconn.go")],["handler start/finish order"])
p("C11","Every request ends: response, reset, or connection loss",
  "A request that was accepted for sending never leaves its caller waiting forever: its response handle yields the response frame, or the stream-closed error once the peer resets the request or the connection is closed by either side. A reset or connection loss before the response always wins the wait with an error and never with a fabricated or nil frame.",
  ["schedules","fault_sequences","inputs"],"reset / close / peer disconnect at every point relative to the request, client- and server-initiated, all interleavings within the delay bound",
  "Tests always answer every request, and a hang needs the peer to reset or vanish at a particular moment.",
  ["clientconn.go","serveconn.go","framereader.go","stream.go"],
  [("reset completes pending response","framereader.go: ReadFrame; clientconn.go/serveconn.go: readFrames"),("close completes all pending","clientconn.go: closeRWC; serveconn.go: closeUntracked")],
  [("respes","outstanding requests","clientconn.go, serveconn.go")],["Response.GetFrame"])
p("C12","A handler that ends without finishing its response resets the request",
  "When a handler returns or panics without having finished its response, the peer receives exactly one reset frame for that request; when the handler did finish it, no reset is sent for it. A panicking handler affects nothing else: other requests on the same connection keep being served, and the process keeps running.",
  ["inputs","histories"],"all ends of a handler (nothing, partial stream, full response, reset, panic before/after) for blocking and non-blocking requests, on the server and on a client that serves requests",
  "No test has a handler panic or return without answering.",
  ["serveconn.go","clientconn.go"],
  [("deferred completion","serveconn.go/clientconn.go: handleRequestPanic")],[],["frames on the wire after the handler"])
p("C13","A stream's two halves close independently and it is released exactly once",
  "After one side has ended its half of a stream, every further frame other than a reset that it tries to send on that stream is refused; after it has reset the stream, or the stream is released, so is every frame. When both halves are closed - by end, reset or connection teardown, in any order and any interleaving of the receiving and sending sides - the stream is released exactly once: it leaves the connection's table, its context is cancelled and its done signal fires; before that it stays usable.",
  ["schedules","histories","inputs"],"all bounded sequences of incoming/outgoing frames with arbitrary flags and all interleavings of the receiving and sending sides within the delay bound",
  "Tests exercise one orderly ending; leaks, double releases and late frames need other orders or races.",
  ["stream.go"],
  [("half-close state machine","stream.go: AddInFrame, AddOutFrame, ResetByPeer, closePeerIfNeeded, afterDone, Release")],
  [("closedSelf/closedPeer/fullClosed","half-close flags","stream.go")],["refusals, table membership, context and done channel"])
p("C14","Streamed frames reach their own stream in order, then end-of-stream",
  "The continuation frames of a streamed request or response are delivered, complete and in the order sent, to that stream's frame channel and to no other stream. The channel reports end-of-stream after the end or reset frame and not before, also when several streams are interleaved on one connection.",
  ["inputs","schedules"],"all interleavings on the wire of two streams with arbitrary payloads and endings, bounded frames per stream",
  "The single streaming test runs one stream with one ending.",
  ["framereader.go","stream.go","frame.go"],
  [("demultiplexing","framereader.go: ReadFrame"),("hand-over and close","stream.go: AddInFrame, closePeerIfNeeded")],
  [("frameCh","per-stream channel","stream.go")],["FrameCh"])
p("C15","Cancelling a request cancels exactly its handler's context",
  "A reset for a request received from the peer cancels that request's context and ends its frame channel, and leaves every other request on the connection alone. Sending a reset for an unknown or fully finished request fails locally with an error and sends nothing; when the connection closes, the contexts of all its requests are cancelled.",
  ["inputs","schedules"],"all choices of the request that is reset among those in flight, all interleavings within the delay bound",
  "TestCancel cancels one lone request; isolation and unknown identifiers are not exercised.",
  ["framereader.go","stream.go","clientconn.go","serveconn.go"],
  [("reset handling","framereader.go: ReadFrame; stream.go: ResetByPeer"),("local reset","clientconn.go/serveconn.go: collectWriteFrames")],
  [],["request Context().Done()","ResetFrame error"])
p("C16","Pushes go to the subscriber only and never touch requests",
  "A frame carrying the push flag is handed, in arrival order and exactly once, to the receiving side's subscriber (or dropped when there is none), and never to a request handler or a waiting response, even when its identifier equals that of a request in flight. Sending a push expects no response.",
  ["inputs","histories"],"all identifiers (including colliding ones), flags and payloads, in both directions",
  "Tests push with non-colliding identifiers and print what arrives.",
  ["serveconn.go","clientconn.go","stream.go"],
  [("separate push table","stream.go: ConnStreams.pushstreams"),("subscriber dispatch","serveconn.go/clientconn.go: readFrames")],
  [],["subscriber and handler invocations"])
p("C17","Concurrent senders never tear, lose or duplicate frames",
  "With any number of goroutines sending on one connection, the bytes on the wire are a sequence of whole frames: each successfully sent frame appears exactly once, unmodified, and the frames of one sender appear in the order it sent them. This holds for every write batch size and on both endpoints, and every sender's call returns.",
  ["schedules","configurations"],"all interleavings of the senders within the delay bound, batch sizes 1-3",
  "The load tests see only the interleavings that happen and use identical payloads.",
  ["serveconn.go","clientconn.go","writer.go"],
  [("write lock and batching","serveconn.go: writeFrameBytes, collectWriteFrames, writeBuffers"),("writer goroutine","clientconn.go: writeFrames")],
  [("writeFrameCh/wlockCh","write queue and lock","serveconn.go")],["bytes given to net.Conn.Write"])
p("C18","A send reports success only if all its bytes were handed to the network",
  "When the network accepts only part of the bytes, or times out and recovers, sending continues from exactly the next byte, without repeating or skipping any. A send returns nil only if every byte of its frame was accepted; if the network fails before that, the call returns an error and the connection is closed.",
  ["fault_sequences","inputs"],"all partial-write sizes, temporary timeouts and fatal errors at every write call within the bound, any batch",
  "Loopback sockets never do short writes or fail mid-frame in the tests.",
  ["writer.go","serveconn.go","clientconn.go"],
  [("resume loop","writer.go: Write, writeBuffers"),("per-request result","serveconn.go/clientconn.go: writeBuffers")],
  [],["EndWrite result versus bytes accepted by net.Conn"])
p("C19","No sequence of frames from a peer can crash or wedge an endpoint",
  "Whatever frames a peer sends - any flags, identifiers, repeats, resets or orders - the receiving process does not panic. Once the connection ends, all its goroutines finish, so that closing, the close callbacks and shutdown complete.",
  ["inputs","histories"],"all sequences of up to the bounded number of frames with arbitrary flags and colliding or fresh identifiers, against a server and against a client",
  "The tests' peers are always well-behaved.",
  ["framereader.go","stream.go","serveconn.go","clientconn.go"],
  [("reader loop","framereader.go: ReadFrame"),("stream state machine","stream.go")],[],["panics; completion of connection teardown"])
p("C20","At most one live connection owns an id, and the newest wins",
  "Binding an id to a connection closes the connection that held it before (running the kick callback once, before it is closed) and makes lookups by that id return the new one. A closed connection is never returned by id lookup or by walking the connections, and its closing never unbinds the id from another connection. Binding always terminates, also when connections close or bind the same id concurrently.",
  ["schedules","histories"],"all interleavings of two or three connections binding the same or different ids and closing, within the delay bound",
  "No test binds ids; the races need a close in the middle of a bind.",
  ["server.go","serveconn.go"],
  [("bind/kick/untrack","server.go: bindID, untrack; serveconn.go: SetID, Close, closeUntracked")],
  [("id2Conn/activeConn","id and connection tables","server.go")],["GetConnectionInfoByID, WalkConn, WalkConnByID, OnKickCB"])
p("C21","Close notifications and lifecycle callbacks fire exactly once, in order",
  "Every function registered to be notified of a connection's close runs exactly once, whether registered before, during or after the close, however often and from wherever the connection is closed. The server's on-close callback runs exactly once per accepted or rejected connection, after all of that connection's handlers have returned, and a connection refused by the on-accept callback is closed without serving anything; a client's on-connect and on-disconnect callbacks alternate.",
  ["schedules","histories"],"all interleavings of registration, closing from several goroutines and peer disconnect within the delay bound",
  "No test uses these callbacks.",
  ["serveconn.go","server.go","clientconn.go"],
  [("close notification list","serveconn.go: NotifyWhenClose, closeUntracked"),("callbacks","serveconn.go: serve; server.go: Serve; clientconn.go: loop")],
  [("closed, closeNotify","close state","serveconn.go: ConnectionInfo")],["callback invocations"])
p("C22","Inbound limits are enforced and close only the offending connection",
  "With a limit of N in-flight streams per connection, at most N non-blocking or streamed requests of a connection are being handled at any time, N of them are always allowed, and one more ends that connection; finished and blocking requests do not count. With a limit of M requests per second, a connection delivering more than M in one second is ended and the excess is not handled, while M per second are always served.",
  ["inputs","histories","schedules"],"all mixes of blocking/non-blocking requests and completions, all arrival times within the bound",
  "No test configures a limit.",
  ["serveconn.go","conf.go"],
  [("in-flight counter","serveconn.go: serve, handleRequestPanic"),("per-second counter","serveconn.go: readFrames")],
  [("inflightStreams, tsCount","counters","serveconn.go")],["handler concurrency, connection close"])
p("C23","Shutdown stops accepting, ends every connection and returns",
  "After shutdown is requested every serve loop returns the server-closed error, also when shutdown comes before the loop has started, and every open connection is ended with its handlers' contexts cancelled. Each registered shutdown function runs exactly once, also when shutdown is called repeatedly or a function is registered during or after it. Shutdown returns when all connection goroutines are finished.",
  ["schedules","histories"],"all interleavings of serving, accepting, registering and one or two shutdown calls within the delay bound",
  "Tests shut down once, at the end, in a quiet system.",
  ["server.go","serveconn.go"],
  [("listener tracking and done channel","server.go: Serve, trackListener, Shutdown, OnShutdown")],
  [("done, doneChan, shutdownFunc","shutdown state","server.go")],["Serve/Shutdown results, hook invocations"])
p("C24","Throttling pauses intake and clearing it resumes everyone",
  "While a binding is throttled, it accepts no further connection and starts reading no further request beyond the one already being received, other bindings being unaffected. Clearing the throttle resumes every waiting connection and the accept loop; setting or clearing it repeatedly, from any goroutine, never panics or leaves a waiter behind.",
  ["schedules","histories"],"all interleavings of set, clear, set/clear again and waiting readers within the delay bound",
  "No test uses throttling.",
  ["server.go","serveconn.go"],
  [("throttle gate","server.go: waitThrottle, SetThrottle, ClearThrottle")],
  [("throttle","per-binding gate","server.go")],["handler invocations, accepted connections"])
p("C25","A reconnecting client recovers and never strands a request",
  "A client with reconnect re-dials after losing its connection, trying its addresses in turn, and requests issued afterwards are served on the new connection, unaffected by anything pending on the old one. Requests outstanding when the connection is lost fail. Closing the client ends it for good: every call in progress or made later returns, and no new dial happens.",
  ["fault_sequences","schedules"],"disconnect, dial failure and close at every point of a bounded session, all interleavings within the delay bound",
  "No test uses the reconnecting client or drops its connection.",
  ["clientconn.go"],
  [("connection loop","clientconn.go: loop, connect, closeRWC, endLoop, writeFrameBytes")],
  [("loopCtx, rwc, respes, cs","per-connection state","clientconn.go")],["Request/GetFrame results, dials"])
p("C26","The multi-endpoint client picks by weight, fails over and stays closed",
  "A call picks endpoint i for exactly weight-i of the total-weight possible draws, never one of weight zero; a call to a named endpoint goes to that endpoint only, and to an unknown one fails with the no-such-endpoint error. A call succeeds when the picked endpoint is unreachable but another is connected, calling all endpoints yields exactly one result per endpoint. Calls share one connection per endpoint, which is dialed again only after it was lost, and after closing no call succeeds or opens a connection.",
  ["inputs","fault_sequences","schedules"],"all non-negative weights and draws, all subsets of unreachable endpoints, close racing with calls within the delay bound",
  "TestAPI uses one healthy endpoint.",
  ["api.go"],
  [("weighted choice","api.go: getIdx"),("failover","api.go: Call, callViaIdx, callWithoutConn, callViaActiveConns"),("closed flag","api.go: Close, reconnectIdx")],
  [("conns, activeConns","connections by endpoint","api.go")],["call results, dialled endpoints"])
p("C27","Channel-style transport delivers messages and endings faithfully",
  "Messages sent on a pipe are received by the other side in order with their command and content, in both directions, whichever message carries the end mark; receiving without asking for the command still yields the content. After the sender's last message - marked as end, or ended explicitly - the receiver gets the stream-finished error and not before, and sending on an ended sender fails.",
  ["inputs","histories"],"all message contents, counts and positions of the end mark within the bound",
  "TestChannelStyle sends two messages and ends in one way.",
  ["channel/clienttransport.go","channel/servetransport.go","channel/encode.go"],
  [("send/receive","channel/*.go")],[("streamWriter, firstFrame, closed","pipe state","channel/clienttransport.go")],["Send/Receive results"])
p("C28","The websocket adapter is a faithful byte stream",
  "Reading through the websocket adapter yields exactly the concatenation of the non-empty binary messages received, for any message sizes and any read buffer sizes, and a read error is reported as such. Each write is sent as one binary message with exactly those bytes, and a write that the websocket rejects is reported as failed with no bytes written.",
  ["inputs","fault_sequences"],"all message contents and lengths, read buffer lengths and error points within the bound",
  "The websocket tests send one small request and never see split or failing messages.",
  ["ws/server/conn.go"],
  [("message to stream","ws/server/conn.go: Read, readBuffer, Write")],[("buffer","unread rest of a message","ws/server/conn.go")],["net.Conn Read/Write"])
p("C29","The generated-RPC envelope round-trips and rejects garbage safely",
  "Encoding a call envelope (namespace, method, parameters) and decoding it returns the same values, in exactly the announced size. Decoding arbitrary bytes either fails with an error or succeeds, and never panics or reads outside the input.",
  ["inputs"],"all field contents and all input byte strings up to the bounded length",
  "No test touches the envelope.",
  ["codegen/pb/rpc.pb.go"],
  [("marshal/unmarshal/skip","codegen/pb/rpc.pb.go")],[],["Marshal/Unmarshal results"])
p("C30","Generated-RPC calls run the named method and return its result or error",
  "A call runs exactly the callback registered for its namespace and method, with the parameters sent, and the caller gets the callback's bytes or its error text as an error. Unknown methods and undecodable envelopes run nothing and yield an error; when a connection refuses the request the next one is tried, and when all refuse the call fails.",
  ["inputs","fault_sequences"],"all namespaces, methods and parameters within the bound, callback results and errors, refusing connections",
  "No test touches generated services.",
  ["codegen/service_handler.go","codegen/client.go"],
  [("dispatch","codegen/service_handler.go: ServeQRPC"),("client","codegen/client.go: Request")],[],["callback invocations, Request results"])
p("C31","Generated client and server code agree on the message encoding",
  "For every registrable service the generated source compiles, and the generated client and service mux use the same encoding for each method's input and output.",
  ["programs"],"all service types accepted by the generator",
  "No test runs the generator.",
  ["codegen/generator.go"],[("code templates","codegen/generator.go")],[],["generated source"])
p("C32","TLS bindings and connections carry qrpc only over TLS",
  "A client configured with TLS sends and reads qrpc bytes only inside a TLS session with that configuration, on its first connection and on every one it makes later (with reconnect), and never falls back to plain text; a connection whose handshake fails carries nothing, is closed and is not used. The dial settings (TLS configuration, timeout, buffer sizes) reach every dial, an overlay's or a TCP one. A server binding configured with TLS serves and answers only what comes through a TLS session with that configuration (or hands listener and configuration to its overlay), closes what does not speak TLS, and is not held up by a peer that never completes its handshake; without TLS both use the plain connection.",
  ["configurations","inputs","schedules"],"all configurations and peers",
  "Tests cover the happy path only.",
  ["server.go","clientconn.go","clientconn_reuse.go","ws/server/overlay.go","ws/client/conn.go"],[("tls wrapping","server.go: TLSKeepAliveListener; clientconn.go: dialTCP")],[],["bytes on the socket"])
p("C33","Read timeouts end silent connections and only those",
  "An endpoint with a read timeout of t seconds closes the connection, ending its requests, when a frame's header has not arrived within t seconds of starting to wait for it, or its payload within t seconds (at most 3) of its header; it never closes it earlier, the time a blocking handler takes does not count, and without a timeout a silent connection lives on. A handler can change the timeout through the connection's ReaderConfig, effective from the next frame, and doing so is safe as soon as the connection can be found through the server.",
  ["inputs","histories","schedules"],"all timeouts and arrival times within the bounds",
  "No test lets a timeout expire.",
  ["reader.go","framereader.go","serveconn.go"],[("deadline","reader.go: ReadBytesWithMaxTimeout"),("change","serveconn.go: ReaderConfig; reader.go: SetReadTimeout")],[],["connection closed","frames handled"])
p("C34","A server serves each of its bindings under that binding's configuration",
  "Listening opens one listener per binding, on its own address and through its own listen function; if any fails the failure is reported and nothing is left listening. Each accepted connection gets the keep-alive and buffer sizes of its binding (failing to set them does not keep it from being served), one whose type is not supported is closed without disturbing others. A connection is served with the handler, subscriber, limits and callbacks of the binding that accepted it, ids and connection lists are per binding, and ending the server ends all bindings, after which serving returns the server-closed error.",
  ["configurations","fault_sequences","histories"],"all failure subsets, option values and events within the bounds",
  "Tests use a single binding.",
  ["server.go"],[("listening","server.go: ListenAll"),("options","server.go: TCPKeepAliveListener.Accept"),("serving","server.go: ServeAll, Serve, newConn")],[],["listeners, frames, callbacks"])
p("C35","Handlers, callbacks and walks reach exactly the connection they are about",
  "What a handler, middleware, subscriber or callback obtains from a request (connection info, server, writer, stream initiator, closing it, close notification) concerns the very connection the request came on, on either endpoint and on a client's later connections too; data stored on a connection stay with it, a stash stays with its request. Walking the server's connections visits each live one once until stopped, walking by ids visits exactly the owners of the known ids with their index, each with a writer for that connection, and push identifiers handed out by the server are unique.",
  ["inputs","histories"],"all identifiers, flags and actions within the bounds",
  "Tests use one connection.",
  ["frame.go","serveconn.go","server.go","clientconn.go"],[("lookup","frame.go: ConnectionInfo, ClientConnectionInfo, Close, StreamInitiator"),("walk","server.go: WalkConn, WalkConnByID, GetPushID")],[],["frames per connection"])
p("C36","Metrics count every request, failure and takeover exactly once",
  "With a counter and/or latency histogram configured on a binding, every request whose handler ended, however (return, panic with any value, reset, lost connection), is counted once and observed once under its command and error, the latency being the time its handler took; the end of a connection, a failing write and a connection losing its id to another one are counted once each. Having only one of the two metrics, or none, changes nothing else.",
  ["inputs","fault_sequences","schedules"],"all request kinds, handler endings and metric configurations within the bounds",
  "No test configures metrics.",
  ["serveconn.go","server.go"],[("requests","serveconn.go: instrument, handleRequestPanic"),("connections","serveconn.go: readFrames, writeFrameBytes; server.go: bindID")],[],["calls of the metrics"])
p("C37","The websocket overlay serves and ends connections like plain ones",
  "A binding over the websocket overlay accepts each client that completes a websocket handshake on /qrpc exactly once and serves it like a plain connection, in TLS if configured; other HTTP requests are refused and closed, and silent peers hold up nobody. After its listener is closed nothing is accepted any more, and every client which was or gets upgraded but is not accepted is closed instead of being left hanging; Shutdown ends all served ones and serving returns. A client over the overlay asks its server for /qrpc with its dial timeout, buffer sizes and TLS configuration on every dial; a refused or failed handshake is reported and its connection closed.",
  ["inputs","schedules","fault_sequences"],"all handshake kinds, close times and configurations within the bounds",
  "Tests cover one successful handshake.",
  ["ws/server/overlay.go","ws/server/server.go","ws/client/conn.go","ws/client/clientconn.go"],[("listener","ws/server/overlay.go: newOverlay, Accept, Close"),("dial","ws/client/conn.go: DialConn")],[],["bytes on the socket, accepted connections"])
p("C38","The close rate paces a binding's closes and loses none",
  "Connections of a binding with a maximal close rate of n per second that end together, whoever ends them, are closed at least 1/n s apart, each exactly once, with its notifications and its close callback run and its requests ended; none is forgotten and shutting the server down still returns. Bindings without a limit close at once meanwhile.",
  ["schedules","histories"],"all ways of ending and rates within the bounds",
  "No test sets a close rate.",
  ["serveconn.go","server.go"],[("pace","serveconn.go: Close; server.go: NewServer")],[],["time of each close, callbacks"])
p("C39","Concurrent use is free of data races",
  "However the goroutines of the library and those of its user are interleaved, two accesses to the same memory of which one writes are ordered by synchronisation: requests, resets, waits and closes on a shared client connection or API client, with and without reconnecting; handlers of one connection replying, pushing, asking the client, naming, timing and closing it; walks, throttling, lookups, hooks and shutdown of a server whose connections come and go; a stream or channel read by one goroutine and written by another; handlers registered while serving; a payload reused by the caller once the call that was given it has returned.",
  ["schedules","histories"],"all combinations of operations and schedules within the bounds",
  "The race detector of the tool chain only sees the schedules a test happens to run.",
  ["clientconn.go","serveconn.go","server.go","stream.go","api.go","reader.go","writer.go","channel/channel.go"],[("client","clientconn.go: Request, readFrames, closeRWC"),("server","serveconn.go; server.go: bindID, WalkConn, Shutdown"),("stream","stream.go")],[],["memory accesses and the synchronisation between them"])
p("C40","Finished work leaves nothing behind",
  "When a request has ended, however (answered, streamed, cancelled or reset by either side, refused, given up, never looked at, its handler panicked), a connection has ended or was lost, a client has been closed or has connected again, an API call has returned, a pipe is finished or a server has been shut down, and all is quiet again, no goroutine and no reachable memory is kept for it: repeating the same work any number of times keeps both constant.",
  ["histories","schedules"],"all kinds of work and schedules within the bounds, each repeated",
  "Tests run each piece of work once and look at its result only.",
  ["clientconn.go","serveconn.go","server.go","stream.go","api.go","channel/ch.go","codegen/client.go","ws/server/server.go"],[("streams","stream.go: CreateOrGetStream, DeleteStream"),("responses","clientconn.go, serveconn.go: respes"),("connections","server.go: activeConn, id2Conn; serveconn.go: Close")],[],["goroutines and reachable objects after each round"])
p("C41","The raw reader and writer move exactly the bytes asked for",
  "A Reader fills each buffer it is given with the next bytes of its connection, however they arrive and whatever was read before, and reads a number as four big-endian bytes; a read fails exactly if the connection ends or the timeout in force passes before the whole piece has arrived, and a timeout set while reading holds from the next read on. A Writer hands its bytes to the connection in order and each once, however little each write takes; it goes on after network timeouts until its own timeout has passed or its context has ended, stops at any other error, and always tells how many bytes were taken.",
  ["inputs","fault_sequences"],"all bytes, cuts, write results and timeouts within the bounds",
  "Tests use a loopback connection that takes and delivers everything at once.",
  ["reader.go","writer.go"],[("reader","reader.go: ReadBytesWithMaxTimeout"),("writer","writer.go: Write")],[],["bytes read and written, results"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
