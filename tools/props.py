#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run: python3 tools/props.py > properties.jsonl)
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=observe or [],state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],hook_needed=None)))

p("C01","A buffer is a faithful bounded double-ended byte queue",
 "For every sequence of buffer operations (byte and bulk writes at the tail, writes into the head room, reads, peeks, reset) the bytes read are exactly the bytes accepted, in queue order with head writes in front, and head-writable + readable + tail-writable length always equals the fixed capacity. An operation that lacks room or data reports an error (bulk tail writes and bulk reads report the partial count they transferred), changes nothing beyond what it reported, and never panics. This holds for buffers allocated with or without reserved head room and for buffers wrapping a caller's slice of any length and capacity; a capacity that is not positive, or a reserved size that is negative or beyond the capacity, is refused (allocating panics, wrapping returns nil).",
 ["inputs","histories"],"every operation history, capacity, reserved size, wrapped slice length/capacity",
 "ubuf_test.go drives each operation once or twice on one 64/8-byte geometry and never mixes head writes, partial reads, resets and wrapped slices whose length is below capacity.",
 ["ubuf.go"],[("readerIndex/writerIndex arithmetic in Read*/Write*/Peek*/Reset","ubuf.go"),("writeHead cursor swap","ubuf.go"),("UBufFromWithHeadReserved","ubuf.go")],
 ["UBuf exported methods"],[("readerIndex, writerIndex","bounds of the readable region","ubuf.go")])
p("C02","Fixed-width integers have an exact, all-or-nothing wire encoding",
 "Every 16/32/64-bit write puts exactly the big- or little-endian bytes of the value (big-endian for the unsuffixed form) at the tail or immediately in front of the readable data, and the matching read or peek returns the same value for every value, alignment and offset. When room or data is insufficient the operation reports an error and leaves content and all lengths unchanged. A peek never changes anything and returns what the next read of the same kind returns.",
 ["inputs","histories"],"every value, width, byte order, position and fill level of the buffer",
 "The tests round-trip one constant per width at one offset; they never compare raw bytes at arbitrary offsets nor failures one byte short of fitting.",
 ["ubuf.go"],[("ReadU*/WriteU*/PeekU*/WriteHeadU* families","ubuf.go")],["UBuf exported methods"])
p("C03","Stream transfer through a buffer conserves bytes under any I/O fault",
 "Draining a buffer into a writer removes exactly the bytes the writer accepted, and filling a buffer from a reader appends exactly the bytes the reader produced, whatever short counts or errors the other side reports, including data returned together with an error. The count returned to the caller is that exact number and the other side's error is returned with it. Only the readable region is ever offered to a writer and only free tail space is ever offered to a reader.",
 ["inputs","fault_sequences"],"every reader/writer behaviour (short counts, errors with and without data) at every point of a transfer sequence",
 "The tests use one always-failing stub and one complete transfer; a partial transfer with an error never occurs.",
 ["ubuf.go","proc_lowerdeck.go"],[("ReadFrom / WriteTo cursor update","ubuf.go")],["io.Reader/io.Writer given to the buffer"])
p("C04","Copy-on-write and copied snapshots are isolated from each other",
 "A copy-on-write or direct-copy snapshot has, when taken, the same readable content and the same lengths as its source. Afterwards no operation on the source or on any other snapshot changes what a buffer of that family reads, peeks or reports, for every order of operations including snapshots of snapshots and writes into the head room. This also holds, without data races, when each buffer of the family is used by a different goroutine.",
 ["histories","schedules"],"every history over a family of snapshots; every schedule of goroutines each owning one buffer",
 "Tests take one snapshot, do one tail write on each side, single-threaded.",
 ["ubuf.go"],[("resolveCopyOnWriteIfNeed, refCount","ubuf.go"),("UBufMakeSnapshot","ubuf.go")],["UBuf exported methods"],
 [("refCount","number of buffers sharing the bytes","ubuf.go")])
p("C05","Message framing survives every segmentation of the byte stream",
 "For every sequence of messages that fit the stack's limits and every way the byte stream is cut into received segments, the frame decoder delivers exactly those messages, unmodified, in order, each exactly once, and none before its last byte has arrived. On the sending side each message leaves as its 4-byte big-endian payload length followed by the payload.",
 ["inputs","histories"],"every message-size sequence and every segmentation (including splits inside the length field and many messages per segment), every receive-cache capacity able to hold one frame",
 "There is no test of the frame decoder at all; an example only ever sees whole frames per read.",
 ["proc_frame_decoder.go"],[("length-prefixed header on send; cache and reassembly on receive","proc_frame_decoder.go")],["data handed to the processor above / below the decoder"],
 [("cache","bytes of an incomplete frame","proc_frame_decoder.go")])
p("C06","Framing state of one connection never leaks into another",
 "When several connections share a stack, partial frames arriving interleaved or concurrently on them are reassembled independently: each connection's messages are delivered exactly, in order and attributed to that connection. A connection that closes in the middle of a frame leaves nothing behind that alters what any other or any later connection delivers.",
 ["schedules","histories"],"every interleaving of partial segments over concurrent connections, every close point",
 "No test has two connections, nor concurrency.",
 ["proc_frame_decoder.go","proc_lowerdeck.go"],[("per-connection reassembly state","proc_frame_decoder.go"),("one receive goroutine per connection","proc_lowerdeck.go")],["endpoint receive channel, connection of each message"])
p("C07","No peer byte stream can crash, hang or corrupt a stack",
 "Whatever bytes a remote peer sends, in whatever segments and wherever it disconnects, the stack neither panics, nor spins, nor allocates memory out of proportion to what it received and its configured limits; it keeps accepting connections and delivers the traffic of other connections unaffected. From such a connection only decodings of complete, well-formed messages are delivered upward, and undecodable messages are dropped individually. A frame announced larger than the receiver can ever hold is never delivered, in whole or in part, and closes that connection.",
 ["inputs","fault_sequences"],"every byte stream, segmentation and disconnect point, for every codec and header processor combination",
 "No test feeds malformed input to any processor.",
 ["proc_frame_decoder.go","proc_codec_gob.go","proc_codec_json.go","proc_codec_bytes.go","proc_codec_string.go","proc_codec_generic.go","proc_session_resolver.go","proc_heartbeat.go","proc_stat_counter.go"],
 [("length checks and error returns on every receive path","proc_*.go")],["process liveness, messages at endpoints, connection-closed events"])
p("C08","Codecs round-trip messages whole or not at all",
 "For every message a codec (bytes, string, JSON, gob, generic) accepts, the peer's same codec yields an equal message, and the encoded and decoded values are independent of later changes to the caller's message or to the buffers involved. A message that is missing, names no connection, is of the wrong type, cannot be encoded or meets no codec, or whose encoding does not fit the stack's MTU minus overhead is dropped entirely: nothing is sent for it and nothing truncated is ever delivered. A disabled codec passes the data through untouched.",
 ["inputs"],"every message value and size around the MTU boundary, for each codec",
 "No codec test exists.",
 ["proc_codec_bytes.go","proc_codec_string.go","proc_codec_json.go","proc_codec_gob.go","proc_codec_generic.go"],[("encode into a buffer with reserved head room; decode from the readable region","proc_codec_*.go")],["message above and buffer below the codec"])
p("C09","Every processor combination honours the MTU and overhead budget",
 "For every composition of processors, the overhead a running stack reports is the sum of its processors' overheads and the MTU is the configured one (2048 by default). Every non-empty message of up to MTU minus overhead bytes reaches the peer running the same composition intact, occupying at most MTU bytes on the wire as one write; a larger message puts nothing on the wire. A header that does not fit makes the message be dropped, never sent without it.",
 ["configurations","inputs"],"every order and repetition of header-adding processors, every MTU larger than their overhead, every payload size around the limit",
 "No test builds a stack.",
 ["ustack_default.go","proc_frame_decoder.go","proc_session_resolver.go","proc_heartbeat.go","proc_stat_counter.go","proc_load_balancer.go","proc_codec_bytes.go"],
 [("overhead accumulated at build time and reserved as head room by codecs","ustack_default.go build")],["bytes written to the transport connection; messages at the peer endpoint"])
p("C10","Messages reach exactly the addressed session and connection",
 "With session resolution in the stack, a message is delivered to the one endpoint whose session equals the message's destination session (the sender's own session unless one is set) and to no other; a message for a session with no endpoint is dropped without affecting others. It leaves only on the connection it was addressed to, and the receiver sees it attributed to the connection it arrived on, so a reply goes back to its sender. This holds for every session number from 0 to 2^32-1; without session resolution everything goes to session 0.",
 ["inputs","configurations","histories"],"every assignment of sessions to endpoints, destination choice and set of connections",
 "No test has endpoints or sessions.",
 ["proc_session_resolver.go","proc_upperdeck.go","proc_lowerdeck.go","endp_default.go"],[("4-byte session header; endpoint lookup by session","proc_session_resolver.go, proc_upperdeck.go")],["endpoint receive channels"])
p("C11","End-to-end delivery over sockets is ordered and exactly-once",
 "Between two stacks joined by TCP or unix-socket connections with framing, every message an endpoint queues on an open connection is delivered exactly once, unmodified, and in queueing order per (endpoint, connection), in both directions, for any number of endpoints, connections and messages. Slow consumers only delay delivery: nothing is lost, duplicated or reordered by backpressure. What was written to a connection before this side closes it still reaches a peer that keeps reading.",
 ["schedules","inputs"],"every schedule of sender, reader and consumer goroutines and kernel segmentation",
 "The test suite opens no connection.",
 ["proc_upperdeck.go","proc_lowerdeck.go","proc_frame_decoder.go","tran_tcp.go","tran_unix.go","endp_default.go"],[("one goroutine per endpoint and per connection, blocking channel hand-off","proc_upperdeck.go, proc_lowerdeck.go")],["endpoint tx/rx channels"])
p("C12","Reference transports hand over the same object, in order, once",
 "Between a server-side and a client-side reference transport on the same address, each message is delivered as the identical object (not a copy), exactly once and in order per direction, independently of traffic on other addresses, also through frame, heartbeat, statistics, flow-control and load-balancer processors. Closing a connection or stopping its transport makes its pending and later send and receive calls fail rather than block, drop or deliver, and so does sending no object at any time; messages accepted before still reach the other side while that is open. A stopped transport can be started again, and after both sides were stopped nothing old is delivered.",
 ["schedules","histories"],"every schedule of the two sides, queue sizes, start/stop histories",
 "No test uses the reference transport.",
 ["tran_reference.go","proc_lowerdeck.go","proc_frame_decoder.go","proc_heartbeat.go","proc_stat_counter.go"],[("shared channel pair per address, reference counted","tran_reference.go")],["objects at endpoints; return values of connection calls"])
p("C13","Traffic-shaping processors consume, return or pass data as declared",
 "Enabled: a discarder delivers nothing upward and passes everything downward; an echo returns every received message unmodified to the connection it came from and delivers nothing upward; a loopback returns every outgoing message upward and lets nothing out; a filter passes a message in either direction iff at least one of its predicates accepts it; a forwarder consumes a message iff one of its functions claims it, asking no further function after that. A disabled echo, discarder, filter, forwarder, load balancer or flow controller, and a flow controller in any state, pass every message through exactly once and unmodified as seen by a peer running the same composition.",
 ["inputs","configurations"],"every message, direction, predicate outcome vector and enable setting, at any position in the stack (an echo also above framing)",
 "No processor has a test.",
 ["proc_discarder.go","proc_echo.go","proc_loopback.go","proc_filter.go","proc_forwarder.go","proc_flow_controller.go","proc_load_balancer.go","proc_frame_decoder.go"],[("OnUpperData/OnLowerData of each processor","proc_*.go")],["data above and below the processor"])
p("C14","Statistics count every message exactly once",
 "At every quiescent point the transmit and receive counts returned by a statistics collection request equal the exact number of application messages that passed through the statistics processor in each direction since the stack started, for any number of concurrent endpoints and connections. Collection traffic itself is not counted, a disabled counter counts and answers nothing, and each request to an enabled one is answered on the connection it came from with the counts and the stack's name.",
 ["schedules","histories"],"every concurrent mix of senders, receivers and collection requests",
 "No statistics test, no concurrency.",
 ["proc_stat_counter.go"],[("tx/rx counters and the request/response tags","proc_stat_counter.go")],["collection response on the wire"])
p("C15","Heartbeat loss is reported exactly when a peer goes silent",
 "A connection whose peer's heartbeats keep arriving with gaps shorter than the configured timeout is never reported lost nor closed by the heartbeat processor. A connection that stays open without receiving a heartbeat for the timeout is reported lost exactly once per silent episode, within about a second (the check period) after the timeout, and is closed iff close-on-lost is set; connections already closed are never reported. While a byte-stream connection is open, one heartbeat is sent on it immediately and then every configured interval, on every connection independently.",
 ["histories","schedules"],"every arrival pattern of heartbeats, interval/timeout/close settings and number of connections",
 "Timing behaviour has no test; wall-clock tests could sample only a few patterns.",
 ["proc_heartbeat.go"],[("per-connection last-heard table, 1 s check loop, per-connection sender","proc_heartbeat.go")],["heartbeat-lost events, connection state, bytes sent"])
p("C16","In-band control traffic is invisible to applications",
 "Heartbeats, statistics requests and statistics responses exchanged on a connection are never delivered to an endpoint and never alter, delay indefinitely, reorder or drop the application messages sharing the connection, whatever their interleaving and whatever bytes the application messages contain. Reference connections carry no control traffic and stay usable with these processors in the stack.",
 ["schedules","inputs"],"every interleaving of control and application messages, every payload (including payloads that look like control messages)",
 "No test combines application and control traffic.",
 ["proc_heartbeat.go","proc_stat_counter.go","proc_load_balancer.go"],[("one-byte tag in front of every message","proc_heartbeat.go, proc_stat_counter.go")],["messages at endpoints"])
p("C17","Each connection announces itself once and its end once",
 "For every connection a stack gets, each listener sees exactly one new-connection event before any data of that connection is delivered upward, and exactly one connection-closed event after its last data, however the end comes about: peer close, local close, read failure, write failure, heartbeat loss, transport removal, or several of these at once. From the closed event on, the connection reports itself closed.",
 ["schedules","fault_sequences","histories"],"every cause, combination and timing of connection failure",
 "No test opens or closes a connection.",
 ["proc_lowerdeck.go","tran_tcp.go","tran_unix.go","tran_reference.go","ustack_default.go"],[("acceptTransport / closeConnection","proc_lowerdeck.go")],["events at stack listeners, endpoints and processors"])
p("C18","Endpoints can be added and removed at any time with exact effect",
 "Once adding an endpoint to a running stack returns, messages it queues are sent and messages for its session are delivered to it; once removing it returns, no message queued afterwards is sent and none arriving afterwards is delivered to it, even if it was busy, backlogged or had a full receive queue, and other endpoints and connections are unaffected throughout. A removed endpoint can be added again and works as before, each message still being handled once and in order. An endpoint added while another one has its session does not disturb that one, which keeps receiving.",
 ["histories","schedules"],"every history of add/remove calls (also from event listeners) interleaved with traffic",
 "No test adds an endpoint.",
 ["proc_upperdeck.go","ustack_default.go"],[("endpoint table, one forwarding goroutine and stop signal per endpoint","proc_upperdeck.go")],["endpoint channels and wire"])
p("C19","Transports can be stopped, restarted and removed at any moment",
 "Stopping or removing a TCP or unix-socket transport at any moment - before it listens, while accepting or dialling, with connections queued or active, or twice - never panics, and when it returns the listening address or socket file is released and every connection of that transport is closed or will never be delivered. Other transports of the stack are unaffected. The same transport can then be started again on the same address and serves new connections.",
 ["schedules","histories"],"every timing of stop relative to listen, accept, dial and delivery; every start/stop history",
 "No test uses a transport.",
 ["tran_tcp.go","tran_unix.go","proc_lowerdeck.go","ustack_default.go"],[("Run/Stop/accept/connect/NextConnection","tran_tcp.go, tran_unix.go")],["sockets, connection states, events"])
p("C20","Every event reaches every registered party exactly once, in order",
 "An event published on a stack reaches every stack listener, endpoint, feature and processor registered at that time exactly once, and events published one after the other by one goroutine are seen by each of them in publication order. Adding an endpoint or transport, or removing a present one, publishes exactly one corresponding event; adding it again or removing an absent one publishes none and changes nothing. This holds when listeners themselves add, remove or publish, and when goroutines do so concurrently.",
 ["histories","schedules"],"every history of registrations, removals and publications, including re-entrant and concurrent ones",
 "No test of events.",
 ["ustack_default.go","endp_default.go","proc_upperdeck.go","proc_lowerdeck.go"],[("PublishEvent over listeners, endpoints, decks, processors","ustack_default.go")],["listener callbacks"])
p("C21","A data listener receives each message once, in order, or leaves it queued",
 "While a data listener is set on an endpoint, every message arriving at the endpoint is passed to it exactly once, one at a time and in arrival order, including messages queued before it was set. Replacing or clearing the listener at any time loses, duplicates and reorders nothing: each message is either handled once by one of the listeners or remains readable from the receive channel. A listener cleared while idle, or while it is handling a message (by itself, say), takes no further one.",
 ["schedules","histories"],"every interleaving of arrivals with setting, replacing and clearing the listener",
 "No endpoint test.",
 ["endp_default.go"],[("SetDataListener / autoReceive","endp_default.go")],["listener callbacks and receive channel"])
p("C22","Concurrent use of a running stack is free of data races and crashes",
 "Applications may, from any goroutines and concurrently with traffic, send on endpoints, receive, close connections, publish events, add and remove endpoints and transports and query the stack: no such execution contains a data race inside the library, a runtime fault, or a deadlock.",
 ["schedules"],"every schedule of concurrent API calls, traffic and connection churn (configuration setters excepted: those precede Run)",
 "The tests are single-goroutine and run without the race detector.",
 ["ustack_default.go","proc_upperdeck.go","proc_lowerdeck.go","proc_frame_decoder.go","proc_heartbeat.go","proc_stat_counter.go","tran_tcp.go","tran_unix.go","tran_reference.go","endp_default.go"],[("locks and channels around shared state","throughout")],["race detector reports, process exit"])
p("C23","Configuration calls take effect on the object they are called on",
 "Every chained configuration call on a stack, processor, feature, transport, endpoint, endpoint data or context returns the very object it was called on, and each getter returns the value last set (nil or the documented default if none). An option of the expected type overrides the default and one of any other type leaves the default in force. A feature, endpoint or transport that was added is found by the corresponding query under its current name, in order of addition, until removed.",
 ["inputs","histories"],"every chain of configuration calls and option values",
 "No test touches configuration.",
 ["ustack_default.go","proc_base.go","feat_base.go","endp_default.go","utils.go","tran_tcp.go","tran_unix.go","tran_reference.go"],[("setters returning the receiver; OptionParse*","*.go")],["return values of getters and setters"])
p("C24","Client transports connect once, when a server is there, within bounds",
 "A started client transport keeps dialling at the configured interval until it gets a connection or has failed the configured number of times; it yields exactly one connection, to the configured address, and then dials no more. If it exhausts its attempts it stops by itself and waiting for its next connection ends with none; if it is stopped while dialling or waiting it delivers no connection and starts no further attempt.",
 ["fault_sequences","schedules"],"every time of the server's appearance relative to the attempts, every retry setting, every stop point",
 "No test dials.",
 ["tran_tcp.go","tran_unix.go"],[("connect loop","tran_tcp.go, tran_unix.go")],["connections seen by a monitored server socket; NextConnection"])
p("C25","Ended connections, endpoints and transports release all resources",
 "After connections close and endpoints and transports are removed, every goroutine the stack started for them ends (a heartbeat or collection sender within one interval) and every socket it opened is closed, so that repeating connect/disconnect and add/remove cycles does not accumulate goroutines, descriptors, or memory held for ended connections or removed endpoints and transports.",
 ["histories","schedules"],"every history of connection churn and add/remove cycles, including ends during activity or backpressure",
 "Nothing in the suite observes goroutines or descriptors.",
 ["proc_upperdeck.go","proc_lowerdeck.go","proc_heartbeat.go","proc_stat_counter.go","tran_tcp.go","tran_unix.go","tran_reference.go"],[("goroutine loops ending on stop/close","*.go")],["goroutine dump and descriptor count of the process"])
p("C26","Data passes the processors one after the other, in the order they were appended",
 "A running stack passes every message an endpoint sends through its processors in the order they were appended and every message a connection yields through them in the reverse order, each processor getting it exactly once per time its neighbour passed it on, with the connection, message and context options its neighbour left in the context (library processors that are disabled or do not concern themselves with the message keep them). A processor that does not pass a message on ends its way, one that turns it back sends it through the neighbours on that side again. Running a stack links every processor to its neighbours, gives every processor and feature the stack, and runs each of them exactly once before data or events of any connection reach it.",
 ["inputs","histories"],"every chain of processors, user-written ones included, and every way they consume, repeat, delay or return messages",
 "No test runs a stack.",
 ["ustack_default.go","proc_base.go","proc_upperdeck.go","proc_lowerdeck.go","proc_flow_controller.go","proc_filter.go","proc_forwarder.go"],[("build() links and Run() starts the processors","ustack_default.go")],["calls on user-written processors, messages at endpoints and connections"])
p("C27","Statistics collection polls every connection at the configured interval",
 "With a positive collection interval set, a stack sends one collection request on every byte-stream connection as soon as it has it and then one every interval for as long as it is open, on each connection independently of the others, and none after its end or on reference connections; with no positive interval it sends none. A peer that runs the counter answers each of these requests, and requests and answers do not disturb one another or the application's messages.",
 ["histories","schedules"],"every interval, number of connections, time of their coming and going, and connections whose writes are stuck",
 "Timing behaviour has no test.",
 ["proc_stat_counter.go"],[("request loop per connection","proc_stat_counter.go")],["bytes sent on connections, in virtual time"])
p("C28","A running server transport serves every client that connects",
 "While a TCP or unix-socket transport is running as server (its default role), every client that connects and stays is handed over exactly once by NextConnection as a connection that carries bytes both ways for as long as both sides keep it open, idle or not: however many clients connect at once or one after the other, come and go, or are connected together, and however late, slowly or concurrently the connections are taken. A unix-socket server starts also where a socket file was left behind by a process that died. A passing failure to accept, such as the process having no descriptor left, only delays new clients: the transport keeps running and the connections it has stay open.",
 ["schedules","fault_sequences","histories"],"every number, timing and order of clients, every pace of taking them, passing accept failures",
 "No test listens.",
 ["tran_tcp.go","tran_unix.go"],[("accept loop, connection queue, NextConnection","tran_tcp.go, tran_unix.go")],["numbers exchanged between raw client sockets and the connections handed over"])
for x in P: print(json.dumps(x))
