#!/usr/bin/env python3
# Source of /verif/properties.jsonl (one call per property; run to regenerate).
import json,sys
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

p("C01","Frames are written to the socket whole and never interleave",
 "Whatever mix of senders runs concurrently on one connection (message writers, room or manager broadcasts, batches, pings, pongs, the close frame), the bytes of one outgoing frame are never mixed with the bytes of another. Each frame goes to the transport in one write issued while the sender has exclusive use of the transport, and once a frame write has failed part-way no further frame bytes follow it.",
 ["schedules","fault_sequences"],"all interleavings of senders on a connection and all points at which a transport write can fail",
 "Interleavings of several senders on a real socket; the tests run one sender on an in-memory mock.",
 ["conn_write.go","broadcast.go","conn_utils.go"],
 [("write lock taken around every transport write","conn_write.go flush/writeControl/writeClose, broadcast.go frame.writeToConn")],
 [("Conn.writeLock","exclusive use of the transport","conn.go")],["net.Conn.Write calls"])
p("C02","A fragmented message is contiguous: no other data frame in between",
 "Between the first and the final frame of an outgoing message only control frames may appear on the wire; the first frame carries the message type, later ones are continuation frames, and exactly the last one is marked final. A message that is given up half-way is never presented to the peer as complete and never followed by another message on that connection.",
 ["schedules","inputs","fault_sequences"],"all interleavings of writers and broadcasts, all message and buffer sizes, all points at which a send can fail or be cancelled",
 "Needs a fragmented send interleaved with a broadcast, or a context cancelled between fragments; the tests never fragment concurrently.",
 ["conn_write.go","broadcast.go"],
 [("message-level writer lock","conn_write.go NextWriter/Close"),("flushCount selects continuation","conn_write.go flush"),("broadcast frames take the writer lock","broadcast.go writeToConn")],
 [("ConnWriter.lock","right to emit a data message","conn_write.go"),("ConnWriter.flushCount","frames of the message already sent","conn_write.go")],["net.Conn.Write calls carrying data frames"])
p("C03","Closing ends the stream: close frame is last and the socket is closed",
 "When a connection is closed for any reason, the close frame is the last frame written: no data or control frame is written after it, and no new message can be started. The underlying socket is always closed by the time closing completes, even if the close frame could not be sent.",
 ["schedules","fault_sequences","histories"],"all close triggers, interleavings with senders, and transport failures during close",
 "Requires senders racing with close and failing transports; the single close test has neither.",
 ["conn.go","conn_write.go"],
 [("locks taken for good by the close path","conn_write.go writeClose"),("done channel closed","conn.go CloseWithCode")],
 [("Conn.done","closed state","conn.go")],["net.Conn.Write/Close calls","Conn.NextWriter"])
p("C04","Every outgoing frame header is correct for its payload",
 "Every frame the server emits has zero reserved bits, no mask, the intended opcode, and a length field in minimal form that equals the number of payload bytes that follow it. Control frames are always final, with at most 125 payload bytes, and no byte of a previous frame survives in a header that is sent.",
 ["inputs","histories"],"all payload lengths, all opcodes and all sequences of earlier frames built in the same buffer",
 "Length classes and stale header bytes depend on sizes and histories; tests check one 4-byte close reason.",
 ["frame.go","conn_write.go","broadcast.go"],
 [("header encoder","frame.go writeHeaders"),("control frame header","conn_write.go writeControl/writeClose")],
 [("ControlWriter.buf","control frame scratch buffer","conn.go")],["buffers passed to net.Conn.Write"])
p("C05","No network wait without a time limit",
 "Every write to the peer, including the handshake response and the close frame, runs under a write deadline derived from the configured write timeout that was set by that sender after it obtained the transport. Every wait for the next message runs under a read deadline derived from the configured read timeout, and a failure to set a deadline ends the connection instead of continuing without it.",
 ["schedules","fault_sequences"],"all senders, all orders in which they wait for the transport, slow or stalled peers",
 "A stalled peer is never simulated and the mock ignores deadlines.",
 ["conn_write.go","conn_read.go","broadcast.go","upgrader.go","conn.go"],
 [("SetWriteDeadline before sendFrame","conn_write.go, broadcast.go"),("SetReadDeadline in NextReader","conn_read.go")],(),["net.Conn.SetWriteDeadline/SetReadDeadline/Write"])
p("C06","The right to send is always given back",
 "After any sending call returns, successfully or with any error (cancelled context, encoding error, transport error), another goroutine can start a message on the connection or is told that it is closed. Only a successful request for a message writer leaves the right to send with the caller, until the caller closes that writer.",
 ["inputs","fault_sequences","schedules"],"all return paths of every send entry point and all points of failure",
 "The leak only shows on error paths (unencodable value, context cancelled mid-send), none of which is tested.",
 ["conn_write.go","conn_batcher.go","broadcast.go","conn_utils.go"],
 [("lock/unlock pairing","conn_write.go, conn_batcher.go, broadcast.go")],
 [("ConnWriter.lock","message-level lock","conn_write.go"),("Conn.writeLock","transport lock","conn.go"),("ControlWriter.lock","control frame lock","conn.go")],["return of SendMessage/SendJSON/Ping/Batch/Close"])
p("C07","No operation deadlocks with itself or with another",
 "No library operation waits for a lock, once-guard or exclusive right that it already holds, on any success or error path, and the orders in which different operations nest their locks never form a cycle. No mutex that protects a shared registry is held while the library waits for network I/O, for a channel, or for other goroutines.",
 ["schedules","fault_sequences"],"all paths of all public operations and background goroutines, all interleavings",
 "The deadlocks sit on failure and shutdown paths that no test executes.",
 ["conn.go","conn_write.go","broadcast.go","manager.go","rooms_manager.go","flusher.go","conn_batcher.go","rate_limiter.go"],
 [("lock discipline","all files")],
 [("locks","Manager.mu, RoomManager.mu, Room.mu, RateLimiter.mu, batchFlusher.mu, messageBatch.mu, Conn.onCloseMu, Conn.closeOnce, channel locks","all files")],["every public method"])
p("C08","User callbacks run with no library lock held",
 "Every user-supplied callback (connect, disconnect, register, unregister, join, leave, rate-limit hook, batch prefix, suffix and send functions, middleware) is invoked while the library holds none of its locks and is not inside its close guard. A callback may therefore call any method of the library, including closing the same connection or moving it to another room, without blocking forever.",
 ["programs","schedules"],"all callbacks a program may install and all library calls they may make",
 "No test installs a callback.",
 ["conn.go","manager.go","rooms_manager.go","conn_batcher.go","conn_utils.go","upgrader.go"],
 [("hooks called after unlocking","manager.go, rooms_manager.go, conn.go")],(),["calls through function-valued fields"])
p("C09","A fatal error is returned exactly when the connection is closed",
 "Whenever a read, write, ping or broadcast-delivery operation reports a fatal error, closing of that connection has been initiated; whenever the operation itself closes the connection because of an error, the error it reports is fatal. A non-fatal error leaves the connection open and usable.",
 ["fault_sequences","inputs","histories"],"all error returns of all connection operations",
 "There are dozens of error exits; tests reach one (invalid UTF-8).",
 ["conn_read.go","conn_write.go","broadcast.go","errors.go","conn_utils.go"],
 [("fatal() wrapper plus CloseWithCode","conn_read.go, conn_write.go, broadcast.go")],
 [("FatalError","error class","errors.go")],["IsFatalErr on returned errors"])
p("C10","Closing a connection cleans up everything, exactly once",
 "However often and from however many goroutines a connection is closed, the closed signal is raised, the close frame attempted, the socket closed, the disconnect hook run, and the connection removed from its manager, its rooms, the rate limiter and the batch flusher, each exactly once and in full. No failure of one step skips a later one.",
 ["schedules","fault_sequences"],"all close triggers, concurrent closers and failures during close",
 "Concurrent closers and failing steps are not exercised, and no test looks at registries after close.",
 ["conn.go","conn_write.go"],
 [("closeOnce","conn.go CloseWithCode")],
 [("Conn.closeOnce","close guard","conn.go")],["Conn.Close/CloseWithCode"])
p("C11","Background goroutines end with what they serve",
 "Every goroutine the library starts for a connection (ping loop, broadcast delivery, batch sending) terminates once the connection is closed, and the batch flusher's goroutine terminates once the flusher is closed or its context ends. None of them can wait forever on something that no longer happens.",
 ["schedules","histories"],"all lifetimes of connections and flushers",
 "A leaked goroutine is invisible to assertions; tests never count goroutines.",
 ["conn.go","broadcast.go","flusher.go","conn_batcher.go","manager.go","rooms_manager.go"],
 [("done/closed cases in background loops","conn.go pingLoop, broadcast.go broadcastListener, flusher.go listener")],
 [("Conn.done","connection closed","conn.go"),("batchFlusher.closed","flusher closed","flusher.go")],["goroutines after close"])
p("C12","Every incoming frame header is validated",
 "For every possible first two header bytes: a frame with an unknown opcode, a reserved bit set, no mask, or a control frame that is fragmented or longer than 125 bytes is never processed; it closes the connection with a protocol error (1002) and is reported as an error. Every legal header is accepted and dispatched by its opcode, and the payload length is taken from the 7-bit, 16-bit or 64-bit field the header announces.",
 ["inputs"],"all 65,536 combinations of the two fixed header bytes, all extended lengths",
 "Tests feed one valid header; the input space is exhaustive only by analysis.",
 ["conn_read.go","frame.go"],
 [("header checks","conn_read.go acceptFrame"),("opcode predicates","frame.go")],(),["close code and error of NextReader/Read"])
p("C13","Messages are assembled from exactly the right frames",
 "A message starts only with a text or binary frame and continues only with continuation frames; any other sequence closes the connection with a protocol error (1002) and a fatal error. The reader reports end of message only after the last byte of the final frame was delivered, reports each payload byte once and in order, and reports a transport failure or early end of stream as a fatal error, never as the end of the message.",
 ["inputs","fault_sequences"],"all frame sequences and all splits of the stream, transport errors at any byte",
 "No test reads a fragmented message or a truncated stream.",
 ["conn_read.go"],
 [("frame sequencing","conn_read.go NextReader/Read")],
 [("ConnReader.remaining/fin","position in the current frame","conn_read.go")],["ConnReader.Read results"])
p("C14","Configured size and fragment limits are enforced",
 "A peer cannot deliver a message larger than the configured maximum, in one frame or summed over fragments, nor one with more frames than the configured maximum: the connection is closed with 1009 respectively 1008 before the excess is delivered. A maximum message size of -1 means unlimited, as documented, and a length that does not fit in an int is refused.",
 ["inputs","configurations"],"all message sizes, fragmentations and limit settings",
 "No test approaches a limit or sets one.",
 ["conn_read.go","options.go"],
 [("length check","conn_read.go acceptFrame"),("aggregate and fragment checks","conn_read.go Read")],
 [("ConnReader.totalSize/fragments","accumulated per message","conn_read.go")],["close codes 1009/1008"])
p("C15","Every payload byte handed out has been unmasked exactly once",
 "Every payload byte delivered to the application, echoed in a pong or interpreted in a close frame has been unmasked exactly once with the key of its own frame and at its own position in the frame, no matter how the stream is split into reads. Key and position are renewed for every frame.",
 ["inputs"],"all payload lengths, read sizes, frame splits and interleaved control frames",
 "Depends on read boundaries inside frames; tests read one 1-byte payload.",
 ["conn_read.go","mask.go","conn_write.go","conn.go"],
 [("ConnReader.mask with running position","conn_read.go, mask.go"),("ControlWriter.mask","mask.go")],
 [("ConnReader.maskKey/maskPos","key and position of the current frame","conn_read.go")],["bytes returned by ConnReader.Read"])
p("C16","An abandoned message never corrupts the next one",
 "If the application stops reading a message early, asks for it as the wrong type, decodes only part of it as JSON, or has it refused by the rate limiter, the next read starts at the next message: leftover payload or fragments of the abandoned message are never parsed as a frame or delivered. The connection stays usable.",
 ["histories","inputs"],"all mixes of read calls and message shapes",
 "Needs sequences of reads of different kinds; tests read at most one message.",
 ["conn_read.go","conn_utils.go"],
 [("skip of the unread remainder","conn_read.go NextReader, conn_utils.go skipRestOfMessage")],
 [("ConnReader.remaining/fin","unread part","conn_read.go")],["NextReader after a partial read"])
p("C17","Invalid UTF-8 text is never handed over when validation is on",
 "Unless validation is disabled, a whole-message read never returns a text message that is not valid UTF-8; it closes the connection with 1007 and reports a fatal error. Binary messages are never rejected for their content, and disabling validation disables it.",
 ["inputs","configurations"],"all payloads, message types, and both settings, for each whole-message read call",
 "Tests check one invalid byte through one call.",
 ["conn_read.go"],
 [("utf8.Valid check","conn_read.go ReadMessage")],(),["ReadMessage/ReadString/ReadBinary"])
p("C18","Close frames are validated on receipt and legal when sent",
 "For every close frame received: an empty one ends in a normal closure, a one-byte body, an illegal status code or an invalid UTF-8 reason ends in 1002, and every legal code is echoed with its reason. For every code and reason a program passes to close, the frame sent carries a code that may appear on the wire and a payload of at most 125 bytes.",
 ["inputs"],"all 65,536 status codes and all reason lengths",
 "One code and one reason are tested.",
 ["conn.go","frame.go","conn_write.go"],
 [("isValidCloseCode","frame.go"),("handleClose","conn.go"),("writeClose","conn_write.go")],(),["close frame bytes"])
p("C19","Pings are answered and pongs matched",
 "Every valid incoming ping is answered by one pong carrying exactly the ping's payload, and its bytes are fully consumed so that the following frame is parsed correctly. At most one ping of our own is outstanding: it counts as outstanding before its frame can reach the peer, a matching pong clears it and extends the read deadline, a mismatching one closes the connection, and an unsolicited pong is consumed and ignored.",
 ["schedules","inputs"],"all ping/pong payloads and all interleavings of pong arrival with ping sending",
 "A pong arriving before bookkeeping finishes is a race; no test sends a ping.",
 ["conn.go","conn_write.go"],
 [("pong","conn_write.go"),("handlePong","conn.go"),("pingSent","conn.go/conn_write.go")],
 [("Conn.pingSent","a ping is outstanding","conn.go")],["frames written in response to a ping"])
p("C20","The protocol switch happens only for a valid handshake",
 "No connection is taken over and no 101 response is written unless the method is GET and the upgrade, connection, version and key headers are all valid, a required subprotocol was matched, and every middleware accepted. Each refusal sends one HTTP error and returns that error without a connection; a success returns a connection and a response whose accept value is computed from the client's key and whose subprotocol, if any, was offered by the client and is one the server supports.",
 ["inputs","programs","configurations"],"all requests, middleware chains and subprotocol settings",
 "The handshake has no tests at all.",
 ["upgrader.go"],
 [("validators and order in Upgrade","upgrader.go")],(),["Upgrade results, hijack, response bytes"])
p("C21","A failed upgrade leaves nothing behind",
 "Upgrade returns either a live connection and no error, or no connection and an error. Once the socket has been taken over, every failing return has closed it, and leaves no background goroutine, no rate limiter entry and no flusher entry; the connect hook runs exactly once and only for successful upgrades, and every connection it is given is already subject to the limiter.",
 ["fault_sequences"],"all points at which the handshake can fail after the socket was taken over",
 "A failing response write is never simulated.",
 ["upgrader.go","conn.go","rate_limiter.go"],
 [("cleanup on write failure","upgrader.go Upgrade")],(),["socket and goroutines after an error from Upgrade"])
p("C22","Shared registries are only touched under their lock",
 "The sets of managed connections, rooms, room members, rate limiter clients, flusher members and pending batch messages are read only with their lock held and modified only with it held exclusively. Callers of the public API receive copies, never the live containers.",
 ["schedules"],"all concurrent uses of managers, rooms, limiter, flusher and batches",
 "Races are schedule dependent; the tests use none of these from two goroutines.",
 ["manager.go","rooms_manager.go","rate_limiter.go","flusher.go","conn_batcher.go"],
 [("RWMutex/Mutex around each container","manager.go, rooms_manager.go, rate_limiter.go, flusher.go, conn_batcher.go")],
 [("Manager.conns","guarded by Manager.mu","manager.go"),("RoomManager.rooms","guarded by RoomManager.mu","rooms_manager.go"),("Room.conns","guarded by Room.mu","rooms_manager.go"),("RateLimiter.clients","guarded by RateLimiter.mu","rate_limiter.go"),("batchFlusher.conns","guarded by batchFlusher.mu","flusher.go"),("messageBatch.messages/totalSize","guarded by messageBatch.mu","conn_batcher.go")],["map and slice accesses"])
p("C23","A manager key always maps to its newest live connection",
 "Registering a key replaces and closes the previous connection of that key, and the later closing of the replaced connection never removes its replacement. A connection that closes, at any moment relative to its registration, does not stay registered; the register hook runs once per registration and the unregister hook once per removal, for the connection concerned.",
 ["schedules","histories"],"all orders of registering, replacing and closing connections",
 "Needs two connections on one key and specific orders of close; no test registers a connection.",
 ["manager.go","conn.go"],
 [("Register/unregister","manager.go"),("close callback","conn.go")],
 [("Manager.conns","key to connection","manager.go")],["Manager.Get, OnRegister, OnUnregister"])
p("C24","Room membership follows joins, leaves and closes",
 "A connection is a member of exactly the rooms it was added to and not yet removed from; when it closes, at any moment relative to joining, it leaves every room it is in. The join hook runs once for each actual join and the leave hook once for each actual leave, and adding a member again or removing a non-member does nothing; closing a room only ever removes that very room from its manager.",
 ["histories","schedules"],"all sequences and interleavings of add, remove, move, close over several rooms",
 "Rooms have no tests; the property quantifies over histories across rooms.",
 ["rooms_manager.go","conn.go"],
 [("Add/Remove/RemoveAll/Move/Close","rooms_manager.go"),("close callback","conn.go")],
 [("Room.conns","members","rooms_manager.go")],["Room.GetAllConns, OnJoin, OnLeave"])
p("C25","Shutdown closes everything and returns",
 "Shutting down a connection manager or a room manager closes every connection it tracks, waits for those closings, forgets them, and returns. It does so while connections close by themselves or hooks use the manager concurrently.",
 ["schedules","histories"],"all registry contents and concurrent activity at shutdown",
 "No test calls Shutdown.",
 ["manager.go","rooms_manager.go"],
 [("Shutdown","manager.go, rooms_manager.go")],(),["return of Shutdown, closed state of all tracked connections"])
p("C26","Broadcasts obey the backpressure policy and never hang on the dead",
 "A broadcast offers the message to each selected connection once and counts exactly those whose queue accepted it. On a full queue it drops under the drop policy, closes that connection without blocking under the close policy, and under the wait policy waits only as long as the connection is open and the context (and flusher) alive; a nil context is accepted, excluded connections get nothing, and every connection a broadcast can see is ready to receive.",
 ["schedules","configurations"],"all policies, queue states, closings during a broadcast, contexts",
 "Full queues, dying recipients and nil contexts are never exercised.",
 ["broadcast.go","manager.go","rooms_manager.go","conn.go"],
 [("enqueue select and policy switch","broadcast.go"),("queue created before publication","manager.go Register, rooms_manager.go Add")],
 [("Conn.broadcastQueue","per-connection queue","conn.go")],["return values of Broadcast*"])
p("C27","A broadcast message is frozen when the call returns",
 "The frame queued by a broadcast is a private, complete copy of the caller's data: changing the slice after the call returns never changes what any recipient gets, and all recipients are sent the identical bytes. No code changes a queued frame.",
 ["programs","schedules"],"all uses of the data slice after a broadcast call, all delivery schedules",
 "Delivery happens later on other goroutines; no test broadcasts.",
 ["broadcast.go"],
 [("copy into a fresh frame","broadcast.go broadcast")],(),["frames sent to recipients"])
p("C28","Batched messages are neither lost, duplicated nor reordered",
 "Every message accepted into a connection's batch is handed to exactly one flush, in the order of acceptance, successive flushes of a connection are sent in order, and the pending batch never exceeds the configured maximum except for a single oversized message. A message accepted before the flusher was closed is included in the final flush; after that, messages are refused.",
 ["schedules","histories"],"all interleavings of batching, periodic flushes, size-triggered flushes and closing",
 "Batching has no tests; loss or reordering needs particular interleavings.",
 ["conn_batcher.go","flusher.go"],
 [("swap under the batch lock","conn_batcher.go flush"),("size check","conn_batcher.go Batch")],
 [("messageBatch.messages","pending","conn_batcher.go")],["batches given to the send functions"])
p("C29","Batches are encoded in the documented format",
 "With JSON batching the payload of a batch is always '[' then the prefix, the messages and the suffix separated by single commas, then ']'; with length-prefix batching every element is preceded by its own length as a 4-byte big-endian number. Optional prefix and suffix appear exactly when supplied, every write error aborts the batch instead of sending it as if complete, and a custom strategy always calls the supplied function.",
 ["inputs","configurations","fault_sequences"],"all batch sizes, presence or absence of prefix and suffix, write failures at any point",
 "The encoders have no tests.",
 ["conn_batcher.go","flusher.go"],
 [("encoders","conn_batcher.go")],(),["bytes written for a batch"])
p("C30","Each message costs one token; refused messages are not delivered",
 "With a rate limiter, every incoming text or binary message is charged exactly once to its own connection before it is delivered, control frames and continuation frames are never charged, and a refused message is skipped entirely and reported as a non-fatal error unless the hook asks to end the connection. Each connection has its own bucket with the configured rate and burst, from before its first message until it closes.",
 ["histories","inputs"],"all frame sequences and limiter outcomes",
 "The limiter has no tests.",
 ["rate_limiter.go","conn_read.go","conn_utils.go","upgrader.go"],
 [("allow in NextReader","conn_read.go"),("addClient/removeClient","rate_limiter.go")],
 [("RateLimiter.clients","bucket per connection","rate_limiter.go")],["NextReader results"])
p("C31","A pooled write buffer belongs to one connection at a time",
 "A write buffer goes back to the shared pool at most once per connection, only after that connection can no longer write to it, and only if it came from the pool. Two live connections never share a write buffer.",
 ["schedules","histories"],"all interleavings of writing and closing, all buffer configurations",
 "Cross-connection corruption needs a close racing with a write; tests never do that.",
 ["conn_write.go","conn.go","upgrader.go"],
 [("writePool Get/Put","conn_write.go newWriter, conn.go CloseWithCode")],
 [("ConnWriter.pb","pooled buffer","conn_write.go")],["sync.Pool.Put calls"])
p("C32","Leaving optional things out never crashes the library",
 "Every hook, limiter, flusher, context, options value or upgrader documented as optional may be nil or zero in any call that accepts it: the library checks before use or substitutes a default. Every option value, however small or negative, is turned into one the library can run with.",
 ["configurations","programs"],"all combinations of unset hooks, nil contexts and option values",
 "Tests use one configuration.",
 ["options.go","upgrader.go","rooms_manager.go","manager.go","broadcast.go","flusher.go","conn.go","conn_write.go"],
 [("nil checks and WithDefault","options.go and call sites")],(),["panics"])
p("C33","Connection state is free of data races",
 "No field of a connection or of its writers, batch or flusher is accessed by two goroutines without synchronisation, provided the application keeps the documented rule of one reading goroutine: state is set before the connection is published to other goroutines, or guarded by one lock, or atomic, or touched only by the holder of the right to send.",
 ["schedules"],"all concurrent uses the documentation allows",
 "The suite is not even run under the race detector, and it fails there on the original tree.",
 ["conn.go","conn_write.go","conn_batcher.go","flusher.go","broadcast.go"],
 [("publication before go statements, locks, atomics","conn.go newConn and users")],(),["field accesses"])
p("C34","Masking transforms each byte with the right key byte, once",
 "Masking a buffer XORs every byte at index i with key byte (start position + i) mod 4, for every length, key and start position, touching no byte twice and none outside the buffer, and reports the advanced position.",
 ["inputs"],"all lengths, keys and start positions",
 "The test masks and unmasks one 11-byte text with itself, which cannot see a wrong key schedule or the unrolled loops.",
 ["mask.go"],
 [("unrolled XOR loops","mask.go maskGo"),("key rotation","mask.go mask")],(),["mask results"])
p("C35","No input from the peer can crash the server",
 "No sequence of bytes sent by a peer, before or after the handshake, makes the library panic: every index or slice operation on received data is within the length that was checked or read, and lengths never become negative or overflow.",
 ["inputs"],"all byte sequences from the peer",
 "Tests feed one well-formed frame.",
 ["conn_read.go","conn.go","conn_write.go","frame.go","upgrader.go"],
 [("length checks before indexing","conn_read.go, conn.go, conn_write.go")],(),["panics"])
p("C36","The rate actually granted matches the configured numbers",
 "Over any time window a connection is granted at most burst + rate x time messages and at least that many when it keeps asking.",
 ["histories"],"all arrival patterns in real time",
 "Quantifies over real time and the token arithmetic of golang.org/x/time/rate.",
 ["rate_limiter.go"],[("token bucket","golang.org/x/time/rate")],(),["allow results over time"])
p("C37","A dead peer is detected within the configured time",
 "If the peer stops responding, the connection is closed within the read timeout of the last sign of life, provided the application keeps reading; a responsive peer is never timed out.",
 ["schedules","histories"],"all timings of peer activity",
 "A real-time liveness guarantee; the mock ignores deadlines.",
 ["conn.go","conn_read.go"],[("read deadline and ping loop","conn.go, conn_read.go")],(),["time of closure"])
p("C38","What one side sends the other side receives, byte for byte",
 "For every message sent with any of the sending calls, a conforming client decodes exactly the same bytes and type, and vice versa.",
 ["inputs","schedules"],"all messages",
 "Round-trip equality of values over all inputs.",
 ["conn_write.go","conn_read.go","frame.go","mask.go"],[("writer and reader","conn_write.go, conn_read.go")],(),["payloads at both ends"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
