#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Frames are recovered exactly, however the byte stream is chunked",
  "For every supported framing (the TLV, LTV and HTLV-CRC codecs and any length-field layout: offset, width 1/2/3/4/8, byte order, length adjustment, stripped bytes), the well-formed frames in a peer's byte stream are handed to the application exactly once, in stream order, with exactly the id and bytes they carried, and each as soon as its last byte has arrived. "
  "The result depends only on the bytes, never on how they were split or glued into network reads, and frames produced by the packing side decode to the same id and payload on the other side.",
  ["inputs", "schedules", "configurations"], "all byte streams of frames, all partitions of the stream into reads, all length-field layouts and built-in codecs, all three transports",
  "The tests pack two messages and read them back once; the number of (layout, payload, chunking) combinations is unbounded and none of the fragmentation paths is asserted.",
  ["zinterceptor/framedecoder.go", "zdecoder/tlvdecoder.go", "zdecoder/ltvdecoder_little.go", "zdecoder/htlvcrcdecoder.go", "zpack/datapack_tlv_bigendian.go", "zpack/datapack_ltv_littleendian.go", "znet/connection.go"],
  [("length-field reassembly", "zinterceptor/framedecoder.go: FrameDecoder.Decode/decode"), ("codec interceptors", "zdecoder/*.go: Intercept"), ("packing", "zpack/*.go: Pack")])
p("C02", "A malformed or oversized frame costs only itself",
  "A frame longer than the configured maximum is skipped as a whole and a frame that fails the checksum is dropped: in both cases nothing of it is dispatched and the well-formed frames before and after it on the same connection are still delivered exactly. "
  "A length field that cannot be a frame (negative, or shorter than its own header) ends at most that connection; no input of a peer crashes or hangs the process, corrupts another frame, or affects another connection.",
  ["inputs", "schedules"], "all byte streams containing oversized, checksum-damaged or impossible frames, in all chunkings, at the decoder and end to end on all transports",
  "No test feeds an invalid frame; the failure needs a particular invalid length or checksum at a particular chunk boundary, followed by more traffic.",
  ["zinterceptor/framedecoder.go", "zdecoder/htlvcrcdecoder.go", "znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go"],
  [("discard mode", "zinterceptor/framedecoder.go: exceededFrameLength/discardingTooLongFrameFunc"), ("CRC check", "zdecoder/htlvcrcdecoder.go: decode"), ("reader recovery", "znet/*connection.go: StartReader")])
p("C03", "Per-connection messages run in order, one at a time, exactly once",
  "With a worker pool, the messages of one connection are handled in the order the peer sent them, never two at once, each exactly once, and all by one and the same worker for the life of the connection; a worker runs one message at a time and there are never more workers than the pool allows. "
  "Full queues, slow handlers and other connections may delay a message but never drop, duplicate or reorder it, and messages sent before an orderly close by the peer are still handled; without a pool every message is still handled exactly once.",
  ["schedules", "histories", "configurations"], "all interleavings of readers, workers and handlers; all pool sizes, queue lengths, worker modes and transports",
  "Tests send a couple of messages on one connection and assert nothing about order, concurrency or loss; races depend on scheduling and on queue occupancy.",
  ["znet/msghandler.go", "znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go"],
  [("worker queues", "znet/msghandler.go: SendMsgToTaskQueue/StartOneWorker"), ("worker assignment", "znet/msghandler.go: useWorker"), ("dispatch", "znet/msghandler.go: Intercept")])
p("C04", "In bound worker modes every open connection has its own worker",
  "In the Bind and DynamicBind modes, as long as no more connections are open than the configured maximum, no two open connections are ever served by the same worker, so a handler that blocks on one connection never delays the messages of another. "
  "Workers of closed connections become available again, so this still holds after any history of connections opening and closing, including replacement of a connection while at capacity.",
  ["histories", "schedules", "configurations"], "all histories of opening, blocking, closing and replacing connections up to the maximum, for both bound modes and all transports",
  "No test uses the bound modes; violations need a specific churn history (extra workers taken, returned and re-taken) or a close racing with an accept at capacity.",
  ["znet/msghandler.go", "znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go"],
  [("worker allocation", "znet/msghandler.go: useWorker/freeWorker"), ("release on close", "znet/*connection.go: Start/finalizer")])
p("C05", "A panic in user code is contained",
  "A panic raised by application code (a message handler at any stage or position, a function task, an asynchronous operation or its completion, a timer callback, an interceptor, a close callback, or a connection start/stop hook), or a message with no registered handler, never terminates the process or stops a worker, timer or accept loop. "
  "Other connections are unaffected; after a handler panic or an unknown message the same connection stays open and its later messages are still handled, and after an interceptor or hook panic at most that one connection is closed, and then completely.",
  ["fault_sequences", "schedules", "configurations"], "every position at which user code can panic, in every router mode, worker mode, pool mode and transport, with any traffic around it",
  "Tests contain no panicking user code except one recovery handler; coverage of every callback site and of the state left behind is a product no sample reaches.",
  ["znet/msghandler.go", "znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go", "zasync_op/async_worker.go", "ztimer/delayfunc.go"],
  [("recover in workers", "znet/msghandler.go: doMsgHandler/doMsgHandlerSlices/doFuncHandler"), ("recover in connection goroutines", "znet/*connection.go: Start/StartReader/finalizer"), ("recover in async ops and timers", "zasync_op/async_worker.go: process; ztimer/delayfunc.go: Call")])
p("C06", "Connection hooks and close callbacks run exactly once, in order",
  "For every accepted connection the start hook runs exactly once before any of its messages is handled, and once the connection ends - by peer close, local stop from any goroutine (even several at once, or from inside a hook or handler), clearing of all connections, or server stop - the stop hook runs exactly once, after the start hook has returned. "
  "The close callbacks registered and not removed on it then run exactly once each, in registration order; the underlying transport is really closed, and all of this happens promptly whatever the peer does.",
  ["schedules", "histories", "fault_sequences"], "all close causes, all concurrent combinations of them, all points of the connection's life, all add/remove histories of callbacks, all transports",
  "Tests register no stop hook assertions; a double or missing hook depends on which of several concurrent closers runs first and on the phase the connection is in.",
  ["znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go", "znet/callbacks.go", "znet/connmanager.go"],
  [("lifecycle", "znet/*connection.go: Start/Stop/finalizer"), ("callback list", "znet/callbacks.go")])
p("C07", "The connection registry mirrors the open connections",
  "Every server connection has an id unique for the life of the server; looking that id up, counting, listing or iterating the registry shows the connection from before its start hook runs until its stop hook has run, and shortly after the connection has ended it is gone from all of these views. "
  "Whatever connections come and go concurrently, an unaffected connection is never missing, duplicated or confused with another.",
  ["schedules", "histories"], "all interleavings of accepts, closes and registry queries, all transports",
  "Tests never query the registry during churn; stale or missing entries appear only for specific interleavings of add, remove and iteration.",
  ["znet/connmanager.go", "zutils/shard_lock_map.go", "znet/server.go", "znet/connection.go"],
  [("registry", "znet/connmanager.go"), ("add/remove", "znet/*connection.go: newServerConn/finalizer")])
p("C08", "The connection limit is never exceeded and never wedges the server",
  "The number of simultaneously open connections of a server never exceeds its configured maximum, however many clients connect at the same instant and over whichever of its transports. "
  "When connections end, the freed places become usable again: waiting TCP and KCP clients are then admitted without reconnecting and new WebSocket clients are accepted, up to the maximum.",
  ["schedules", "histories", "configurations"], "all connect/disconnect histories and simultaneous connection storms around the limit, for TCP, KCP, WebSocket and combined servers",
  "Tests never reach the limit; exceeding it requires simultaneous admissions, wedging requires a particular release history.",
  ["znet/server.go", "znet/acceptdelay.go", "znet/connmanager.go"],
  [("admission", "znet/server.go: ListenTcpConn/ListenWebsocketConn/ListenKcpConn"), ("back-off", "znet/acceptdelay.go")])
p("C09", "Sent messages reach the peer whole, once and in order",
  "Messages sent on a connection by any number of goroutines, over the direct and the buffered paths and in any size the packer accepts, arrive at the peer as whole frames with unchanged id and payload, never interleaved, merged, truncated or duplicated, and the messages of one goroutine over one path arrive in the order it sent them. "
  "A call that reports success is delivered as long as the connection stays open, a buffered call that reports an error is never delivered, and the caller may reuse its payload buffer after the call returns.",
  ["schedules", "inputs", "configurations"], "all interleavings of concurrent senders and the background writer, all payload sizes around internal buffer sizes, full send queues, slow peers, all transports, both ends",
  "Tests send single small messages sequentially; corruption needs concurrent senders, particular sizes relative to buffers, or the first buffered send racing with another.",
  ["znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go", "zpack/datapack_tlv_bigendian.go"],
  [("direct send", "znet/*connection.go: Send/SendMsg"), ("buffered send and writer", "znet/*connection.go: SendToQueue/SendBuffMsg/StartWriter")])
p("C10", "Sending on a closing or stalled connection fails cleanly",
  "Sends racing with the end of a connection, from any goroutine and over any path, return (with success or an error) instead of panicking or blocking for ever, and every send that starts after the end of the connection has been reported by its close callbacks returns an error. "
  "Stopping a connection takes effect even while its peer reads nothing and senders or heartbeats are blocked on it: the connection is torn down completely and blocked senders return.",
  ["schedules", "fault_sequences"], "all interleavings of senders with connection stop, for idle, flowing and fully back-pressured peers, with and without heartbeat, all transports",
  "Tests never send during or after close, nor with a stalled peer; the failures are races and circular waits.",
  ["znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go", "znet/heartbeat.go"],
  [("queue send vs close", "znet/*connection.go: SendToQueue/finalizer"), ("teardown order", "znet/*connection.go: finalizer"), ("heartbeat stop", "znet/heartbeat.go: Stop")])
p("C11", "Routing runs exactly the handlers the routing rules select, in order",
  "A message runs precisely the handler(s) registered for its id: in classic mode the pre, main and post stages in that order, with a jump moving execution to the named stage next and an abort ending it; in slice mode the common handlers in force when the id was registered, then its group's, then its own, in registration order, with an explicit next running the remainder nested and an abort skipping everything not yet started. "
  "Unregistered ids run nothing, registering an id twice or outside its group's range is refused, and routes are independent of each other.",
  ["programs", "histories", "configurations"], "all registration programs (common, group and single handlers) and all handler behaviours (jump, next, abort combinations), for both router modes",
  "Tests register one or two fixed routes; the space of registration orders and control-flow programs is unbounded.",
  ["znet/router.go", "znet/request.go", "znet/msghandler.go", "znet/server.go"],
  [("stage machine", "znet/request.go: Call/next/Goto/Abort"), ("slice execution", "znet/request.go: RouterSlicesNext"), ("registration", "znet/router.go: RouterSlices/GroupRouter")])
p("C12", "Interceptors run in order around every message",
  "Every message passes the decoder first and then the added interceptors in the order they were added, each at most once per message, before it is dispatched; what an interceptor passes on (request, response value) is what the next one sees, and the value it returns is what the previous one receives back. "
  "An interceptor that does not pass the message on stops it: no later interceptor runs and nothing is dispatched, while other messages are unaffected.",
  ["programs", "histories", "configurations"], "all interceptor lists and all per-message decisions (pass, stop, change id or response), with messages of several connections interleaved",
  "No test uses interceptors.",
  ["zinterceptor/chain.go", "znet/chainbuilder.go", "znet/msghandler.go", "zinterceptor/interceptor.go"],
  [("chain", "zinterceptor/chain.go: Proceed/ProceedWithIMessage"), ("builder", "znet/chainbuilder.go: Execute")])
p("C13", "Requests never leak state into each other",
  "A handler sees exactly the connection, id, payload, response value and context entries that belong to its own message - initially no context entries - with or without request pooling, whatever other messages were handled before or are handled concurrently, including ones that panicked, aborted or matched no route. "
  "A copy taken of a request keeps the id, payload, response value and context entries it had when it was copied, however the original request object is reused or its fields and context are changed afterwards.",
  ["schedules", "histories", "configurations"], "all interleavings and histories of requests over pooled and unpooled request objects, both router modes, all transports",
  "Tests do not enable pooling; leakage depends on which object is recycled into which request and when.",
  ["znet/request.go", "znet/msghandler.go", "znet/connection.go"],
  [("pooling", "znet/request.go: GetRequest/PutRequest/Reset"), ("copy", "znet/request.go: Copy")])
p("C14", "Heartbeats detect silent peers and spare active ones",
  "With heartbeat checking on, a peer that has sent nothing for the configured maximum is reported not-alive (and by default disconnected) within one further check interval, and a peer that keeps sending anything more often than that maximum is never reported or disconnected by the check. "
  "While the peer counts as alive one heartbeat with the configured id and content is sent per interval, each connection is judged only by its own traffic and settings, and no heartbeat or report happens after the connection has ended.",
  ["schedules", "histories", "configurations"], "all timings of peer traffic relative to intervals and limits, several connections with their own phases, default and custom settings, server and client side",
  "Tests do not exercise heartbeat timing; it would take real seconds per sample and the boundary instants are never hit.",
  ["znet/heartbeat.go", "znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go", "znet/server.go"],
  [("checker", "znet/heartbeat.go: start/check/Clone/BindConn"), ("activity", "znet/*connection.go: IsAlive/updateActivity")])
p("C15", "Timers fire exactly once, on time, unless cancelled",
  "A timer scheduled at any instant for any delay (from zero or already past to many hours) runs its function exactly once, with its own arguments, within 100 ms of its due time (immediately if already past). "
  "A timer cancelled before it fires never fires, and creating or cancelling one timer never affects another.",
  ["schedules", "histories", "inputs"], "all creation instants relative to the wheel positions, all delays across second/minute/hour levels, all create/cancel histories",
  "Tests only print; hour-level cascading cannot be reached in real time and wheel-boundary instants are never sampled.",
  ["ztimer/timewheel.go", "ztimer/timerscheduler.go", "ztimer/timer.go", "ztimer/delayfunc.go"],
  [("hierarchical wheel", "ztimer/timewheel.go: addTimer/run/GetTimerWithIn"), ("scheduler", "ztimer/timerscheduler.go")])
p("C16", "The sharded map is a linearizable map",
  "Concurrent single-key operations on the sharded map (get, set, set-if-absent, has, remove, conditional remove, pop) behave as if executed one at a time in an order consistent with real time. "
  "Counting, listing, iterating, serialising and clearing see every entry that is present throughout the call exactly once with a value it held, never an entry absent throughout, and never block or disturb unrelated operations.",
  ["schedules", "histories"], "all interleavings of concurrent callers over colliding and non-colliding keys",
  "Existing map tests are sequential; atomicity violations need specific interleavings.",
  ["zutils/shard_lock_map.go", "zutils/hash.go"],
  [("sharded locking", "zutils/shard_lock_map.go")])
p("C17", "Generated ids are unique and increasing",
  "All ids produced by one id generator are distinct and increase in the order they are produced, for any number of concurrent callers and any request rate, including more than fit in one millisecond; generators with different valid worker numbers never produce equal ids, and invalid worker numbers are refused. "
  "If the clock has moved backwards the generator returns an error rather than an id that is not larger than those before it, and resumes once the clock has caught up.",
  ["schedules", "histories", "inputs"], "all interleavings of callers, all rates around the per-millisecond capacity, all clock movements",
  "The test draws a few ids sequentially; sequence exhaustion and clock regressions never occur in it.",
  ["zutils/snowflake_uuid.go"],
  [("id composition", "zutils/snowflake_uuid.go: NextID/nextMillisecond")])
p("C18", "Async operations complete exactly once, back on the connection's worker",
  "Every submitted asynchronous operation runs exactly once, and operations submitted one after the other under the same operation id run in that order and never concurrently. "
  "When an operation has set its result and a completion is registered on an open connection - in whichever order or simultaneously - the completion runs exactly once, sees the first result set, and runs on the worker that serves the connection, in turn with its messages.",
  ["schedules", "histories"], "all interleavings of submitting, setting results and registering completions, repeated and competing registrations, any operation ids",
  "No test covers async operations; lost or early completions need a particular two-thread interleaving.",
  ["zasync_op/async_op.go", "zasync_op/async_op_result.go", "zasync_op/async_worker.go", "znet/request_func.go"],
  [("rendezvous", "zasync_op/async_op_result.go: SetReturnedObj/OnComplete/doComplete"), ("per-id workers", "zasync_op/async_op.go: Process")])
p("C19", "No log line is lost, duplicated, torn or reordered",
  "Every record successfully written to the rotating log file is found exactly once, whole, and in write order when the archived files and the current file are read in sequence, across size and day rotations, concurrent writers, close and reopening of an existing file. "
  "Rotation keeps each file within the configured size (unless a single record alone exceeds it) and old archives are deleted only once they are older than the configured age, never other files.",
  ["histories", "schedules", "inputs"], "all histories of writes, rotations, flushes, closes, reopenings and day changes, with concurrent writers and all record sizes around the limit",
  "The tests write a few lines and assert nothing about content or rotation.",
  ["zutils/witer.go", "zlog/logger_core.go", "zlog/stdzlog.go"],
  [("rotation", "zutils/witer.go: Write/rotate/ZipToFile"), ("retention", "zutils/witer.go: delete"), ("logger", "zlog/logger_core.go: OutPut")])
p("C20", "Notification reaches exactly the registered connections",
  "A notification to an id reaches the connection most recently registered under it and no other, or returns an error if there is none; a broadcast reaches every connection that is registered throughout the call exactly once and no connection that was not registered during it, even if some of the registered connections are closed or fail. "
  "Registration, removal, lookup and counting stay consistent under concurrent use.",
  ["schedules", "histories"], "all histories of register/replace/remove/notify/broadcast with healthy and closed connections, sequential and concurrent",
  "The single test only prints; it never checks who received what.",
  ["znotify/notify.go"],
  [("registry and fan-out", "znotify/notify.go")])
p("C21", "Client start, stop and restart are safe at any time",
  "A client that cannot connect reports exactly that on its error channel and stays usable; one that connects runs its start hook once per connection, delivers every incoming message exactly once and runs its stop hook once when the connection ends, whichever side ends it. "
  "Stopping a client at any moment - before, during or after connecting, after a failed connect, or after the peer closed - returns promptly, closes its connection and never panics, and a restart after the connection ended connects again.",
  ["schedules", "histories", "fault_sequences"], "all sequences of start, stop, restart, peer accept/refuse/close and their interleavings, TCP and WebSocket clients",
  "Tests use one client on one healthy connection and never stop it at an awkward moment.",
  ["znet/client.go", "znet/connection.go", "znet/ws_connection.go"],
  [("client lifecycle", "znet/client.go: Start/Restart/Stop")])
p("C22", "Stopping a server really stops it",
  "Stopping a running server returns promptly in every mode, ends every one of its connections (each with its stop hook and close callbacks) including any that are being accepted at that moment, and stops accepting new ones so that its port can be bound again. "
  "This holds whatever its connections and handlers are doing at the time.",
  ["schedules", "fault_sequences", "configurations"], "all modes (TCP, WebSocket, KCP, combined), all instants relative to accepts, traffic and closes",
  "One test stops an idle TCP server; other modes and races between accept and stop are not covered.",
  ["znet/server.go", "znet/connmanager.go"],
  [("stop", "znet/server.go: Stop/Listen*Conn"), ("clear", "znet/connmanager.go: ClearConn")])
p("C23", "Connection properties behave as an atomic per-connection map",
  "Setting, reading and removing named properties of a connection concurrently from hooks, handlers and other goroutines behaves as if each operation happened atomically in an order consistent with real time; a read returns the latest value or an error if there is none. "
  "Properties of different connections are independent, available from the start hook through the stop hook and close callbacks, and never cause a crash.",
  ["schedules", "histories"], "all interleavings of concurrent property operations over the life of the connection, all transports",
  "Tests set and read a property once, sequentially.",
  ["znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go"],
  [("property map", "znet/*connection.go: SetProperty/GetProperty/RemoveProperty")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
