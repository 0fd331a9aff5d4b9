# harness table: see HarnessCfg in engine/main.go
P['C06'] = {"harnesses": [
  H("C06Flags", seq=True, reach=["flags"], bounds="all 256 flag bytes"),
  H("C06Cmd", seq=True, reach=["cmd"], bounds="all 2^32 commands x 256 opaque bytes"),
]}
P['C01'] = {"harnesses": [
  H("C01Client", delays=1, tdelays=3, reach=["request","stream","reset"], bounds="any 32-bit command, flags, payload 0-3 bytes, batch sizes 0-2; request/stream+continuation/push/reset"),
  H("C01Server", delays=1, tdelays=2, reach=["server","push"], bounds="any id, command, flags; response in two writes, streamed response, reset, push; batch sizes 0-2"),
  H("C01ServerInit", delays=1, tdelays=2, reach=["init"], bounds="server-initiated request and stream request"),
  H("C01Sizes", seq=True, reach=["sizes"], bounds="payloads of up to 70000 bytes around the boundaries of the length field and of the write buffer, in one or two pieces, in requests, continuations and responses"),
]}
P['C02'] = {"harnesses": [
  H("C02Server", delays=0, tdelays=1, time=90, reach=["decoded"], bounds="two frames, any ids/flags/commands, payloads 0-2 bytes; whole, byte-wise, or cut at any one or two positions"),
  H("C02Client", delays=1, tdelays=2, reach=["decoded"], bounds="push then response, payloads 0-2 bytes, same chunkings"),
  H("C02Sizes", delays=1, tdelays=2, reach=["decoded"], bounds="payload sizes around the 1024-byte read buffer, 13 cut positions"),
]}
P['C03'] = {"harnesses": [
  H("C03Server", delays=1, tdelays=2, reach=["bad","good"], bounds="any 32-bit length field against a limit of 20 bytes, after a good frame, with and without body"),
  H("C03Default", delays=1, tdelays=2, reach=["exact","above"], bounds="default limit: exactly 10 MiB, and every larger 32-bit length"),
  H("C03Trunc", delays=1, tdelays=2, reach=["trunc"], bounds="18-byte request, push or stream frame cut at every byte, EOF or read error"),
  H("C03Client", delays=1, tdelays=2, reach=["client"], bounds="client: every length below 12; 18-byte response or push cut at every byte"),
]}
P['C04'] = {"harnesses": [
  H("C04RoundTrip", delays=1, tdelays=2, reach=["roundtrip"], bounds="payloads 0-3 bytes, codecs with shorter/equal (fresh, in place)/longer output; flagged, plain or already compressed"),
  H("C04NoCodecSend", delays=1, tdelays=2, reach=["client","stream","server"], bounds="payloads 0-2 bytes, request/stream/response/push"),
  H("C04NoCodecRecv", delays=1, tdelays=2, reach=["client","server"], bounds="payloads 1-2 bytes, no codec or failing decoder; request, response, push"),
]}
P['C05'] = {"harnesses": [
  H("C05Server", delays=1, tdelays=2, reach=["server"], bounds="abandoned frame of 1-2 bytes, six ways of abandoning, blocking/non-blocking, same or other connection, response and push after it"),
  H("C05Client", delays=1, tdelays=2, reach=["handler","stream"], bounds="client handler, request, reset and stream writer after an abandoned frame"),
]}
P['C07'] = {"harnesses": [
  H("C07Route", delays=1, tdelays=2, reach=["dup","a","b","none"], bounds="two registrations for any 24-bit commands, one request with any command"),
  H("C07Reject", delays=1, tdelays=2, reach=["nil","big"], bounds="registration with nil handler or any command above 24 bits after one registration; one request with any command"),
  H("C07Middleware", delays=1, tdelays=2, reach=["mw"], bounds="0-3 middlewares, any verdicts, three ways of installing"),
]}
P['C08'] = {"harnesses": [
  H("C08Client", delays=1, tdelays=2, reach=["client"], bounds="two outstanding requests, three frames with any 64-bit identifiers, plain flags"),
  H("C08Server", delays=1, tdelays=2, reach=["server"], bounds="two requests issued by the server, three frames with any 64-bit identifiers"),
  H("C08Concurrent", delays=2, tdelays=3, reach=["concurrent"], bounds="two concurrent callers, peer answering immediately, in either order; batch sizes 0-2"),
]}
P['C09'] = {"harnesses": [
  H("C09Origin", seq=True, reach=["origin"], bounds="all 2^64 identifiers"),
  H("C09Client", delays=2, tdelays=3, reach=["client"], bounds="three concurrent requests, batch sizes 0-2"),
  H("C09Server", delays=2, tdelays=3, reach=["server"], bounds="three concurrent requests, batch sizes 0-2"),
]}
P['C10'] = {"harnesses": [
  H("C10Order", time=45, delays=1, tdelays=1, reach=["order"], bounds="3 (thorough 4) requests of any kind, handlers returning or panicking in any order"),
]}
P['C11'] = {"harnesses": [
  H("C11Client", delays=1, tdelays=2, reach=["client"], bounds="request or streamed request, six fates, wait before or after, both ways of waiting"),
  H("C11ClientRace", delays=2, tdelays=3, reach=["race"], bounds="1-2 concurrent requests racing with EOF, bad frame or Close"),
  H("C11Server", delays=1, tdelays=2, reach=["server"], bounds="server-initiated request or stream, six fates"),
  H("C11Prompt", delays=2, tdelays=3, time=25, reach=["prompt"], bounds="1-2 requests of either side, plain or streamed, whose peer answers, resets or hangs up as soon as it has them"),
  H("C11ServerRace", delays=2, tdelays=3, reach=["race"], bounds="1-2 concurrent server requests racing with EOF, bad frame or Close"),
]}
P['C12'] = {"harnesses": [
  H("C12Server", delays=1, tdelays=2, reach=["server"], bounds="two requests of any kind, eleven ways for a handler to end, then a third request and another connection"),
  H("C12Client", delays=1, tdelays=2, reach=["client"], bounds="the same for a client's handler"),
  H("C12Rest", delays=1, tdelays=2, reach=["rest"], bounds="a streamed request whose handler ends in any of eleven ways without reading, 0-2 continuation frames and perhaps the end of the stream before or after it, then another request"),
  H("C12ClientRest", delays=1, tdelays=2, reach=["rest"], bounds="the same for a client's handler, with a request of its own outstanding"),
]}
P['C13'] = {"harnesses": [
  H("C13Server", delays=1, tdelays=2, reach=["released","conn"], bounds="every sequence of 3 (thorough 4) operations on a request's stream: continuation/end/reset by either side, connection loss"),
  H("C13Client", delays=1, tdelays=2, reach=["released"], bounds="the same on a stream opened by a client"),
  H("C13Race", delays=2, tdelays=3, reach=["race"], bounds="end or reset by the handler racing with end, reset or EOF by the peer"),
  H("C13ClientRace", delays=2, tdelays=3, reach=["race"], bounds="the same for a client's stream"),
]}
P['C14'] = {"harnesses": [
  H("C14Server", delays=1, tdelays=2, reach=["server"], bounds="every interleaving of 4 (thorough 6) continuation/end/reset frames of two streamed requests"),
  H("C14Client", delays=1, tdelays=2, reach=["client"], bounds="the same for two streamed responses"),
  H("C14Early", delays=2, tdelays=3, reach=["early"], bounds="a stream of 1-3 frames consumed while it arrives or after it has ended"),
]}
P['C15'] = {"harnesses": [
  H("C15Server", delays=1, tdelays=2, reach=["server","goes on"], bounds="three requests of any kind in progress, a reset with any 64-bit identifier, then connection loss"),
  H("C15Client", delays=1, tdelays=2, reach=["client"], bounds="two requests from the server and one of its own, a reset with any identifier, then loss or Close"),
  H("C15Send", delays=1, tdelays=2, reach=["known","unknown"], bounds="client reset with any identifier: finished, in flight or unknown"),
  H("C15ServerSend", delays=1, tdelays=2, reach=["known","unknown"], bounds="server reset with any identifier"),
]}
P['C16'] = {"harnesses": [
  H("C16Client", delays=1, tdelays=2, reach=["client"], bounds="request in flight, two pushes with any identifiers and commands, in any order with the response"),
  H("C16Server", delays=1, tdelays=2, reach=["server"], bounds="the same for pushes and a request received by a server"),
  H("C16Stream", delays=1, tdelays=2, reach=["stream"], bounds="a streamed push of three frames with any identifier, with or without subscriber"),
  H("C16Reset", delays=1, tdelays=2, reach=["reset"], bounds="a push with any flags (reset, stream, end) and any identifier while a handler and a streamed response are in progress, on both endpoints"),
  H("C16Send", delays=1, tdelays=2, reach=["client","server"], bounds="push with any command sent by either side"),
]}
P['C17'] = {"harnesses": [
  H("C17Client", delays=2, tdelays=3, reach=["client"], bounds="2 (thorough 3) concurrent senders of two frames each: pushes, requests or a stream; batch sizes 0-3, with and without backpressure"),
  H("C17Server", delays=2, tdelays=3, reach=["server"], bounds="the same on a server's connection, batch sizes 1-3"),
  H("C17Handlers", delays=2, tdelays=3, reach=["handlers"], bounds="2 (thorough 3) handlers answering at the same time with two frames each, on both endpoints"),
  H("C17Reuse", delays=1, tdelays=2, reach=["reuse"], bounds="two handlers writing at the same time after one (thorough two) earlier requests of eight kinds, on both endpoints"),
  H("C17Refused", delays=1, tdelays=2, reach=["refused"], bounds="3 (thorough 4) frames queued behind a stalled network, each good or refused in one of four ways, batch sizes 1-3, on both endpoints"),
  H("C17Close", delays=2, tdelays=3, reach=["close"], bounds="two senders of two frames each while the peer disconnects, sends garbage or the connection is closed"),
]}
P['C18'] = {"harnesses": [
  H("C18Client", delays=1, tdelays=2, reach=["client"], bounds="two concurrent sends, batch sizes 0-2; the first 2 (thorough 3) write calls accept any number of bytes and succeed, time out or fail for good"),
  H("C18Server", delays=1, tdelays=2, reach=["server"], bounds="the same for a server, batch sizes 1-2"),
  H("C18Batch", delays=0, tdelays=1, time=60, reach=["batch"], bounds="three concurrent sends of which the last two are written together, on both endpoints, without timeout or with 2 s against calls of 3 s; the same faults in the 2 (thorough 3) write calls after the first frame"),
  H("C18Timeout", delays=1, tdelays=2, reach=["timeout"], bounds="write timeouts of 1-7 s against 0-3 calls that time out after 3 s each, accepting 0 or 1 byte"),
  H("C18Stall", delays=1, tdelays=2, sleeps=200, gs=200, reach=["stall"], bounds="a network that takes nothing or 5 bytes for 1-10 s against write timeouts of 2 s, 7 s or none, the connection closed meanwhile or not, on both endpoints"),
  H("C18Handler", delays=1, tdelays=2, reach=["handler"], bounds="two frames of a streamed response, the same faults, on both endpoints"),
]}
P['C19'] = {"harnesses": [
  H("C19Server", delays=1, tdelays=2, reach=["server"], bounds="2 (thorough 3) frames with any 64-bit identifiers and any flags but the codec flag, five handler behaviours, with or without subscriber; then end of input"),
  H("C19Burst", delays=1, tdelays=1, time=90, reach=["burst"], bounds="2 such frames and the end arriving in one piece"),
  H("C19ServerOut", delays=1, tdelays=2, reach=["out"], bounds="a server with a request and a stream of its own in flight, 2 such frames"),
  H("C19Client", delays=1, tdelays=2, reach=["client"], bounds="a client with a request or stream in flight, 2 (thorough 3) such frames, with and without handler and subscriber"),
  H("C19Raw", delays=1, tdelays=2, reach=["server","client"], bounds="17 (thorough 33) arbitrary bytes, length field below 65536 (client: 256)"),
]}
P['C20'] = {"harnesses": [
  H("C20Seq", delays=1, tdelays=2, reach=["seq"], bounds="every sequence of 3 (thorough 4) binds to one of two ids, closes and disconnects on three connections"),
  H("C20Race", delays=2, tdelays=3, reach=["race"], bounds="two connections binding the same or different ids, any of them closed or disconnected at the same time"),
  H("C20Takeover", delays=2, tdelays=3, reach=["takeover"], bounds="taking over an id whose holder disconnects and/or is closed at the same time"),
  H("C20Three", delays=2, tdelays=3, reach=["three"], bounds="two connections taking an id over from a third one at once, which may be closed meanwhile"),
  H("C20Kick", delays=2, tdelays=3, reach=["kick"], bounds="a connection closed while, before or after it is kicked, with a kick callback that takes its time"),
  H("C20Handler", delays=1, tdelays=2, reach=["handler"], bounds="two connections binding the same id from blocking or non-blocking handlers"),
]}
P['C21'] = {"harnesses": [
  H("C21Notify", delays=1, tdelays=2, reach=["notify"], bounds="six registrations before, during (also from a callback) and after the close; closing in two of four ways at once"),
  H("C21Server", delays=1, tdelays=2, reach=["server"], bounds="two connections accepted or refused, one request of any kind each, three handler behaviours, four ways to end"),
  H("C21Client", delays=1, tdelays=2, reach=["client"], bounds="up to three connections of a client with or without reconnect, lost at any time and closed from outside or from a callback"),
]}
P['C22'] = {"harnesses": [
  H("C22Inflight", delays=1, tdelays=2, reach=["inflight","over"], bounds="limits 1-2; every sequence of 4 (thorough 6) requests of any kind and completions, handlers finishing, not finishing or panicking"),
  H("C22Race", delays=1, tdelays=3, reach=["race"], bounds="limits 1-2; two requests beyond the limit arriving while earlier ones complete"),
  H("C22Rate", seq=True, delays=0, tdelays=1, reach=["rate","over"], bounds="limits 1-2 per second; limit+2 (thorough +3) frames of any kind, with 0-3 seconds before each"),
  H("C22Burst", delays=1, tdelays=2, reach=["burst"], bounds="up to two frames beyond the limit in one piece"),
]}
P['C23'] = {"harnesses": [
  H("C23Shutdown", delays=1, tdelays=2, time=60, reach=["shutdown"], bounds="two bindings, a connection with a request of any kind on each, one throttled, a listener failing to close; one or two concurrent Shutdowns and one later; five shutdown functions registered before, during, within and after"),
  H("C23Start", delays=1, tdelays=3, reach=["start"], bounds="Shutdown before, while or after Serve starts, with up to two connections waiting to be accepted and a function being registered"),
  H("C23Hook", delays=2, tdelays=2, reach=["hook"], bounds="two concurrent Shutdowns with functions that shut down again, write to and close connections"),
]}
P['C24'] = {"harnesses": [
  H("C24Gate", delays=1, tdelays=2, reach=["gate"], bounds="every sequence of 4 (thorough 6) operations: set, clear, new connection, one or two requests of any kind on any connection, request on another binding"),
  H("C24Race", delays=1, tdelays=2, time=60, reach=["race"], bounds="throttle initially off, on or cleared; two goroutines setting, clearing, set+clear or clear+set while requests and a connection arrive"),
  H("C24End", delays=2, tdelays=3, time=40, reach=["end"], bounds="shutdown of a throttled binding with waiting connections and requests, with or without a concurrent clear"),
]}
P['C25'] = {"harnesses": [
  H("C25Recover", delays=1, time=30, tdelays=2, reach=["recover"], bounds="two losses in four ways with nothing, a request, a stream, a blocked write or a handler pending; any of the first 4 dials failing; two addresses"),
  H("C25Close", delays=1, tdelays=2, reach=["close"], bounds="closing a client that is connected, has a request outstanding, a write blocked, or is pausing, dialling or was never connected, with one or two calls racing and one made later"),
  H("C25Race", delays=2, tdelays=3, time=30, reach=["recovered","closed"], bounds="1-2 requests racing with a loss, the reconnect and a close; batch sizes 0-2"),
  H("C25Stale", delays=1, tdelays=2, reach=["stale"], bounds="a handler (any even identifier) answering, resetting or panicking after its connection was lost, the identifier used again on the next connection"),
  H("C25OnConnect", delays=2, tdelays=3, reach=["onconnect"], bounds="a connect callback that makes a request, the connection lost at any time in four ways"),
]}
P['C26'] = {"harnesses": [
  H("C26Weights", delays=1, tdelays=2, reach=["weights"], bounds="1-3 endpoints, weights 0-3 or none given, every draw"),
  H("C26Zero", delays=1, tdelays=2, reach=["zero"], bounds="three endpoints, any 32-bit weights, any draw"),
  H("C26Failover", delays=1, tdelays=2, reach=["call","one","all","unknown"], bounds="three endpoints each up or down at first, then lost, restarted or up; any of the four kinds of call"),
  H("C26Reuse", delays=2, tdelays=3, reach=["reuse"], bounds="two endpoints, the connection to one lost, two calls of any kind at once around that, one call to each afterwards"),
  H("C26Close", delays=1, tdelays=2, time=60, reach=["close"], bounds="two endpoints up, down, lost or mute; 1-2 calls of any kind before, while and after closing"),
]}
P['C27'] = {"harnesses": [
  H("C27Pipe", delays=1, tdelays=2, reach=["pipe"], bounds="pipe opened by client or server; 1-2 messages out, 0-2 back, any 16-bit command, 0-1 bytes; three ways of ending on each side, with and without asking for the command, answering before or after receiving"),
  H("C27GiveUp", delays=1, tdelays=2, reach=["giveup"], bounds="1-2 messages to client or server, given up before the first, second or third receive, with a context that is over or ends while waiting, messages there or not"),
  H("C27Empty", delays=1, tdelays=2, reach=["empty"], bounds="either side ends without sending, then sends any one-byte message twice"),
  H("C27Early", delays=1, tdelays=2, reach=["early"], bounds="1-2 messages, then the end by mark or End; a receiver that gives up in between"),
]}
P['C28'] = {"harnesses": [
  H("C28Read", seq=True, time=60, ttime=120, reach=["read"], bounds="1-2 binary messages of 0-3 bytes, whole or in two fragments, with pings; ended by EOF, error, a cut message, a close frame or text; buffers of 1-4 bytes; both endpoints"),
  H("C28Write", seq=True, steps=3000000, reach=["failed","written"], bounds="3 writes of 0, 1, 3, 125, 126 or 5000 bytes, the first, second or third failing after none, one or all but one byte; both endpoints"),
  H("C28Frames", delays=1, tdelays=2, reach=["frames"], bounds="two requests cut anywhere into two messages"),
], "assumptions": ["the gorilla/websocket library is executed from source from an established connection on (the HTTP upgrade is not)"]}

P['C29'] = {"harnesses": [
  H("C29RoundTrip", seq=True, steps=3000000, reach=["roundtrip"], bounds="namespace, method and parameters of 0, 1, 2, 127, 128 or 300 (thorough also 16384) bytes each, first and last byte free"),
  H("C29Fields", seq=True, reach=["fields"], bounds="up to 2 fields in any order, repeated, with padded tags and lengths, and unknown fields of every wire type, in groups up to 2 deep"),
  H("C29Garbage", seq=True, reach=["rejected","accepted"], bounds="all inputs of up to 7 (thorough 8) bytes"),
  H("C29Length", seq=True, reach=["rejected","accepted"], bounds="a field with any 64-bit length, in up to 2 groups, with up to 2 bytes behind it"),
  H("C29Deep", seq=True, steps=5000000, reach=["deep"], bounds="12000 nested groups, closed or not, then any two bytes, on a stack of 300 frames"),
  H("C29Short", seq=True, reach=["short"], bounds="two fields cut after any byte"),
], "assumptions": []}
P['C30'] = {"harnesses": [
  H("C30Serve", delays=1, tdelays=2, reach=["refused","failed","served"], bounds="a call with any namespace up to 2 and method up to 1 bytes, perhaps another after it, decodable or not, four registered methods that succeed or fail"),
  H("C30Parallel", delays=1, tdelays=2, reach=["quit","result"], bounds="two callers at once over two connections, the second cancelled at any time"),
  H("C30Call", delays=1, tdelays=2, reach=["unavailable","unknown","failed","called"], bounds="1-3 servers each up or down, one lost before the call; 1-2 calls of any method; end to end over a pipe"),
  H("C30Response", delays=1, tdelays=2, reach=["none","error","result"], bounds="1-2 calls outstanding, one answered with any 16-bit command and up to 2 bytes, or the connection lost, or cancelled"),
], "assumptions": ["namespaces and methods without a colon (the separator of the registration key)"]}
P['C32'] = {"harnesses": [
  H("C32Dial", delays=1, tdelays=2, time=40, reach=["once","again"], bounds="with and without reconnect and TLS; any dial timeout and 32-bit buffer sizes; connection lost once, up to two failed dials"),
  H("C32TCP", delays=1, tdelays=2, time=60, reach=["once","again","refused"], bounds="dialing TCP once, with a reusable socket or with reconnect, with and without TLS; the first two handshakes succeed or fail in three ways; one request and response of 2 payload bytes per connection, connection lost once"),
  H("C32Options", delays=1, tdelays=2, reach=["options"], bounds="dialing TCP once, with a reusable socket or with reconnect, any timeout, any 32-bit buffer sizes, setting them failing or not, connection lost once"),
  H("C32Server", delays=1, tdelays=2, time=40, reach=["served","refused"], bounds="a binding with and without TLS, a plain or TLS client with one request or push, perhaps a silent peer before it"),
  H("C32Accept", delays=1, tdelays=2, reach=["accepted"], bounds="a binding with and without TLS and overlay, one connection"),
], "assumptions": ["TCP and TLS are models: a handshake exchanges two bytes per side that depend on the configuration, data travel in records; cryptography and certificate checks are the business of crypto/tls", "TLS over the websocket overlay is decided by net/http and gorilla/websocket, only the hand-over of the configuration is checked"]}
P['C33'] = {"harnesses": [
  H("C33Server", delays=1, tdelays=2, time=60, reach=["late","silent","patient"], bounds="timeouts -1, 0, 1, 2, 4 s, changed by the handler or not; 1 (thorough 2) frames arriving in one or two pieces cut at four places, pauses of 0.25, 2.25, 3.25 or 4.25 s before and inside"),
  H("C33Client", delays=1, tdelays=2, time=40, reach=["silent","patient"], bounds="the same timeouts, two pushes with pauses of 0.25, 2.25, 3.25 or 4.25 s, a request pending"),
  H("C33Busy", delays=1, tdelays=2, reach=["busy"], bounds="timeouts 1-2 s, a blocking handler of 0-3 s, then silence of 0.25-5.25 s"),
  H("C33Early", delays=2, tdelays=3, pools=True, time=30, reach=["found"], bounds="another goroutine changing the timeout of a connection found in any state"),
], "assumptions": ["reads of the fake network fail when their deadline has passed, like those of TCP"]}
P['C34'] = {"harnesses": [
  H("C34Listen", delays=1, tdelays=2, reach=["fails","listens","served"], bounds="1-3 bindings with and without overlay, any of them failing to listen"),
  H("C34Options", delays=1, tdelays=2, reach=["odd","options"], bounds="any 16-bit buffer sizes or none, with and without overlay, options that can or cannot be set, perhaps a connection without options before"),
  H("C34Bindings", delays=1, tdelays=2, time=40, reach=["bindings"], bounds="two bindings, a connection with an id on each, then one of three events on either"),
]}
P['C35'] = {"harnesses": [
  H("C35Server", delays=1, tdelays=2, time=40, reach=["closed","server"], bounds="two connections, three requests with any 64-bit identifiers, blocking or not; seven uses of the connection by the handler, middleware, a push and the loss of one connection"),
  H("C35Client", delays=1, tdelays=2, time=40, reach=["closed","client"], bounds="a client with and without reconnect, four uses of the connection by its handler, any even 64-bit identifier, on the first and second connection"),
  H("C35Late", delays=2, tdelays=3, reach=["late"], bounds="a request (any even identifier) kept by the handler's user and closed before, while or after its connection is lost and replaced, then again"),
  H("C35Walk", delays=1, tdelays=2, reach=["walk","byid"], bounds="three connections, two with ids; a full walk, one stopped after 1-3, or a walk by two of three names"),
]}
P['C36'] = {"harnesses": [
  H("C36Requests", delays=1, tdelays=2, time=25, reach=["requests"], bounds="two requests of any kind on one of two connections, seven ways for a handler to end, counter and/or histogram configured; then the loss of both connections"),
  H("C36Latency", delays=1, tdelays=2, reach=["latency"], bounds="two requests of the same kind taking 0.5 and 0.1 s, three ways to end"),
  H("C36Faults", delays=1, tdelays=2, reach=["write","kick"], bounds="a failing write of a response or reset; one connection taking over another one's id"),
]}
P['C37'] = {"harnesses": [
  H("C37Accept", delays=2, tdelays=3, time=60, reach=["accept"], bounds="1-2 clients, each upgrading, asking for something else, silent (perhaps upgrading after the close) or lost; the listener closed before, while or after they are accepted"),
  H("C37Serve", delays=1, tdelays=2, reach=["serve"], bounds="a websocket binding with and without TLS, perhaps a silent peer before; a request with any identifier, up to 2 payload bytes, cut into two messages at four places, blocking or not; Shutdown"),
  H("C37Dial", delays=1, tdelays=2, reach=["dialed","refused"], bounds="with and without reconnect and TLS, any 32-bit timeout and 16-bit buffer sizes; the first handshake succeeds or fails in three ways; one request per connection, connection lost once"),
], "assumptions": ["net/http and the websocket handshake are models: request and response heads, exact paths, hijacking; gorilla/websocket's framing is its real code"]}

P['C38'] = {"harnesses": [
  H("C38Pace", delays=1, tdelays=1, reach=["paced","shutdown"], bounds="two (thorough three) connections of a binding with a close rate of 1-3 per second, each with a request in progress, ended together by their peers, by a malformed frame, by a handler or by shutdown; a binding without a limit beside it"),
], "assumptions": ["the first closes of an idle server; after idling the limiter lets up to ten go at once (go.uber.org/ratelimit)"]}

def R(fn, **k):
    k.setdefault('delays',1); k.setdefault('tdelays',2); k.setdefault('time',12)
    return H(fn, race=True, **k)
P['C39'] = {"harnesses": [
  R("C39Client", time=25, reach=["client"], bounds="two goroutines sharing a connection, each requesting, streaming, resetting, waiting or closing, with a subscriber and a handler; three ways to end"),
  R("C39Server", time=25, reach=["server"], bounds="two handlers of one connection, each doing one of eight things; the connection lost, reset or shut down"),
  R("C39Manage", time=25, reach=["manage"], bounds="two goroutines each walking, pushing, throttling, requesting, hooking or shutting down a server whose two connections take the same id and go"),
  R("C39Stream", time=15, reach=["stream"], bounds="a stream read and written by two goroutines; ended, reset or lost by the peer"),
  R("C39Reconnect", time=25, reach=["reconnect"], bounds="a reconnecting client shared by two goroutines, its connection lost and perhaps found again"),
  R("C39API", time=25, reach=["api"], bounds="two goroutines each calling in three ways or closing, an endpoint lost or silent"),
  R("C39Channel", time=15, reach=["channel"], bounds="1-2 messages in both directions of a pipe, each end sending in one goroutine and receiving in another"),
  R("C39Mux", reach=["mux"], bounds="a handler registered while three requests are served"),
  R("C08Concurrent", reach=["concurrent"], bounds="as in C08"),
  R("C13Race", reach=["race"], bounds="as in C13"),
  R("C13ClientRace", reach=["race"], bounds="as in C13"),
  R("C18Timeout", bounds="as in C18"),
  R("C19Burst", bounds="as in C19"),
  R("C20Kick", bounds="as in C20"),
  R("C23Start", bounds="as in C23"),
  R("C25Close", bounds="as in C25"),
  R("C25OnConnect", bounds="as in C25"),
  R("C30Parallel", bounds="as in C30"),
  R("C33Early", pools=True, bounds="as in C33"),
  R("C35Late", bounds="as in C35"),
  R("C36Requests", bounds="as in C36"),
  R("C37Accept", bounds="as in C37"),
], "assumptions": ["variables of the harness are taken as synchronised by the program that owns them", "the network orders nothing: what one end does before sending is not ordered with what the other does after receiving", "one frame writer, response and stream writer per goroutine"]}
P['C40'] = {"harnesses": [
  H("C40Server", delays=1, tdelays=2, time=25, reach=["server"], bounds="3-4 rounds of one of eighteen kinds of request on a server connection"),
  H("C40Client", delays=1, tdelays=2, time=25, reach=["client"], bounds="3-4 rounds of one of fourteen kinds of request on a client connection"),
  H("C40Conns", delays=1, tdelays=2, time=25, reach=["conns"], bounds="3-4 rounds of a connection that does one of ten things and ends"),
  H("C40Dialled", delays=1, tdelays=2, time=20, reach=["dialled"], bounds="3-4 rounds of dialling, one of five uses, and closing or losing"),
  H("C40Reconnect", delays=1, tdelays=2, time=20, reach=["reconnect"], bounds="3-4 lost connections with a request pending on either side or none"),
  H("C40API", delays=1, tdelays=2, time=20, reach=["api"], bounds="3-4 rounds of two calls on two endpoints, one down, both silent or losing their connections"),
  H("C40Channel", delays=1, tdelays=2, time=20, reach=["channel"], bounds="3-4 pipes with 1-2 messages each way and three endings"),
  H("C40Calls", delays=1, tdelays=2, time=15, reach=["calls"], bounds="3-4 generated calls on 1-2 connections: answered, refused, given up, or one server down"),
  H("C40Overlay", nosel=True, delays=1, tdelays=2, time=20, reach=["overlay"], bounds="3-4 connections with one of five openings to a server over TCP, TLS, websockets or both"),
  H("C40Servers", delays=1, tdelays=2, time=15, reach=["servers"], bounds="3-4 servers started, used and shut down"),
], "assumptions": ["pooled objects (sync.Pool) and the contents of byte buffers are not counted", "memory is counted in structs, map entries and buffered channel elements that live registers and package variables still reach, when every goroutine is blocked"]}

P['C41'] = {"harnesses": [
  H("C41Reader", seq=True, delays=0, tdelays=1, time=25, reach=["reader"], bounds="two readers of 9 symbolic bytes each, any two-part cut or bytewise, ending anywhere"),
  H("C41ReadTimeout", seq=True, delays=1, tdelays=1, time=10, reach=["timeout", "in time"], bounds="four timeouts and two maxima against pauses of 1, 3, 5 s, then four more timeouts against 9 s"),
  H("C41Writer", seq=True, delays=0, time=20, reach=["failed", "written"], bounds="0-4 symbolic bytes; 3-4 faulty writes taking any part, timing out after 3 s, failing, or cancelled"),
  H("C41Stall", seq=True, delays=1, tdelays=1, time=15, sleeps=200, gs=200, reach=["stall"], bounds="5 symbolic bytes, 0-3 of them taken at once, the rest after 1-10 s, against timeouts of 2 s, 7 s or none and the end of the context"),
]}
