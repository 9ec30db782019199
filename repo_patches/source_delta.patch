From 03ee340341fc5e0e249c0c2c4355725ca8e50d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:34 +0000
Subject: [PATCH 01/39] fix: frame decoder really drops the bytes of an
 oversized frame

Discarded bytes were only skipped in a local buffer, so they stayed in the
reassembly buffer and were parsed again as frames.
---
 zinterceptor/framedecoder.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/zinterceptor/framedecoder.go b/zinterceptor/framedecoder.go
index cd3db2b..3bb0fd7 100644
--- a/zinterceptor/framedecoder.go
+++ b/zinterceptor/framedecoder.go
@@ -491,9 +491,7 @@ func (d *FrameDecoder) failOnFrameLengthLessThanInitialBytesToStrip(in *bytes.Bu
 	panic(fmt.Sprintf("Adjusted frame length (%d) is less  than InitialBytesToStrip: %d", frameLength, initialBytesToStrip))
 }
 
-func (d *FrameDecoder) decode(buf []byte) []byte {
-	in := bytes.NewBuffer(buf)
-
+func (d *FrameDecoder) decode(in *bytes.Buffer) []byte {
 	// Determine if it is in discard mode (判断是否为丢弃模式)
 	if d.discardingTooLongFrame {
 		d.discardingTooLongFrameFunc(in)
@@ -581,17 +579,19 @@ func (d *FrameDecoder) Decode(buff []byte) [][]byte {
 	resp := make([][]byte, 0)
 
 	for {
-		arr := d.decode(d.in)
+		in := bytes.NewBuffer(d.in)
+		arr := d.decode(in)
+
+		// Drop everything decode has consumed, be it a complete packet or discarded bytes
+		// (移除decode已经消费的数据，包括完整包以及被丢弃的数据)
+		consumed := len(d.in) - in.Len()
+		d.in = d.in[consumed:]
 
 		if arr != nil {
 			// Indicates that a complete packet has been parsed
 			// (证明已经解析出一个完整包)
 			resp = append(resp, arr)
-			_size := len(arr) + d.InitialBytesToStrip
-			if _size > 0 {
-				d.in = d.in[_size:]
-			}
-		} else {
+		} else if consumed == 0 {
 			return resp
 		}
 	}
-- 
2.43.0


From 1c5f68bbf87f879645b89acf4332bd5059084a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:42 +0000
Subject: [PATCH 02/39] fix: frame decoder rejects a frame shorter than its own
 header

A length field that made the whole frame 0 bytes long made Decode loop for
ever, appending empty frames until memory was exhausted.
---
 zinterceptor/framedecoder.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/zinterceptor/framedecoder.go b/zinterceptor/framedecoder.go
index 3bb0fd7..f72fe7b 100644
--- a/zinterceptor/framedecoder.go
+++ b/zinterceptor/framedecoder.go
@@ -429,6 +429,11 @@ func (d *FrameDecoder) failOnNegativeLengthField(in *bytes.Buffer, frameLength i
 	panic(fmt.Sprintf("negative pre-adjustment length field: %d", frameLength))
 }
 
+func (d *FrameDecoder) failOnFrameLengthLessThanLengthFieldEndOffset(in *bytes.Buffer, frameLength int64, lengthFieldEndOffset int) {
+	in.Next(lengthFieldEndOffset)
+	panic(fmt.Sprintf("Adjusted frame length (%d) is less than LengthFieldEndOffset: %d", frameLength, lengthFieldEndOffset))
+}
+
 func (d *FrameDecoder) failIfNecessary(firstDetectionOfTooLongFrame bool) {
 	if d.bytesToDiscard == 0 {
 		// Indicates that the data to be discarded has been discarded (说明需要丢弃的数据已经丢弃完成)
@@ -530,6 +535,12 @@ func (d *FrameDecoder) decode(in *bytes.Buffer) []byte {
 	// So the frameLength calculated in the end is the length of the entire data packet (那说明最后计算出的frameLength就是整个数据包的长度)
 	frameLength += int64(d.LengthAdjustment) + int64(d.LengthFieldEndOffset)
 
+	// A packet can never be shorter than its own header, it is an error data packet
+	// (数据包长度小于头部长度，说明是个错误的数据包)
+	if frameLength < int64(d.LengthFieldEndOffset) {
+		d.failOnFrameLengthLessThanLengthFieldEndOffset(in, frameLength, d.LengthFieldEndOffset)
+	}
+
 	// Discard mode is turned on here (丢弃模式就是在这开启的)
 	// If the data packet length is greater than the maximum length (如果数据包长度大于最大长度)
 	if uint64(frameLength) > d.MaxFrameLength {
-- 
2.43.0


From a8bc6fcfbe0e21d55596846d5a86ebb49adead45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:49 +0000
Subject: [PATCH 03/39] fix: HTLV-CRC decoder accepts a body of 255 bytes

The frame is head, function code, length, body and a two byte CRC: a full
body makes it 255+5 bytes, one more than the maximum frame length allowed.
---
 zdecoder/htlvcrcdecoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zdecoder/htlvcrcdecoder.go b/zdecoder/htlvcrcdecoder.go
index 09e39f0..2036a1f 100644
--- a/zdecoder/htlvcrcdecoder.go
+++ b/zdecoder/htlvcrcdecoder.go
@@ -81,7 +81,7 @@ func (hcd *HtlvCrcDecoder) GetLengthField() *ziface.LengthField {
 	//   initialBytesToStrip = 0   (这个0表示完整的协议内容，如果不想要A2，那么这里就是1) 从解码帧中第一次去除的字节数
 	//   maxFrameLength      = 255 + 4(起始码、功能码、CRC) (len是1个byte，所以最大长度是无符号1个byte的最大值)
 	return &ziface.LengthField{
-		MaxFrameLength:      math.MaxUint8 + 4,
+		MaxFrameLength:      math.MaxUint8 + HEADER_SIZE,
 		LengthFieldOffset:   2,
 		LengthFieldLength:   1,
 		LengthAdjustment:    2,
-- 
2.43.0


From 065f4953a4c37ed501bdd24062943f2673f49483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:56 +0000
Subject: [PATCH 04/39] fix: HTLV-CRC decoder drops a packet with a bad CRC
 instead of panicking

---
 zdecoder/htlvcrcdecoder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zdecoder/htlvcrcdecoder.go b/zdecoder/htlvcrcdecoder.go
index 2036a1f..91d9016 100644
--- a/zdecoder/htlvcrcdecoder.go
+++ b/zdecoder/htlvcrcdecoder.go
@@ -135,6 +135,11 @@ func (hcd *HtlvCrcDecoder) Intercept(chain ziface.IChain) ziface.IcResp {
 
 	//4. HTLV+CRC Decode
 	htlvData := hcd.decode(data)
+	if htlvData == nil {
+		// The CRC does not match: drop the packet, it must not reach the next interceptor
+		// (CRC校验失败，丢弃该数据包，不再进入下一层)
+		return nil
+	}
 
 	//5. Set the decoded data back to the IMessage, the Zinx Router needs MsgID for addressing
 	// (将解码后的数据重新设置到IMessage中, Zinx的Router需要MsgID来寻址)
-- 
2.43.0


From d28d061fa8e0a11ef1f24f6d4e1c6af823e4ce4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:20 +0000
Subject: [PATCH 05/39] fix: a panic in the websocket reader closes the
 connection, not the process

TCP and KCP readers already recover; in websocket mode a panicking decoder
or interceptor took the whole server down.
---
 znet/ws_connection.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index 12babfb..f585814 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -211,6 +211,11 @@ func (c *WsConnection) StartReader() {
 	zlog.Ins().InfoF("[Reader Goroutine is running]")
 	defer zlog.Ins().InfoF("%s [conn Reader exit!]", c.RemoteAddr().String())
 	defer c.Stop()
+	defer func() {
+		if err := recover(); err != nil {
+			zlog.Ins().ErrorF("connID=%d, panic err=%v", c.GetConnID(), err)
+		}
+	}()
 
 	// Create a pack-unpack object. (创建拆包解包的对象)
 	for {
-- 
2.43.0


From 21e3006ddb9fec78517c1d4b30ba23ef8c355be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:26 +0000
Subject: [PATCH 06/39] fix: TCP connection without decoder hands out its own
 copy of the data

The queued request aliased the read buffer, which the next read overwrites.
---
 znet/connection.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/znet/connection.go b/znet/connection.go
index 4973bea..696bc28 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -277,7 +277,11 @@ func (c *Connection) StartReader() {
 					c.msgHandler.Execute(req)
 				}
 			} else {
-				msg := zpack.NewMessage(uint32(n), buffer[0:n])
+				// The read buffer is reused by the next read while the request may still be queued
+				// (读缓冲会被下一次读取复用，而请求可能还在队列中，因此需要拷贝)
+				data := make([]byte, n)
+				copy(data, buffer[0:n])
+				msg := zpack.NewMessage(uint32(n), data)
 				// Get the current client's Request data
 				// (得到当前客户端请求的Request数据)
 				req := GetRequest(c, msg)
-- 
2.43.0


From 1a0154149e38410af80e70f20436035dd7e389c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:32 +0000
Subject: [PATCH 07/39] fix: DynamicBind marks an extra worker as taken

The id stayed in the free set, so further connections got the same extra
worker and replaced (later closed) its queue.
---
 znet/msghandler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/znet/msghandler.go b/znet/msghandler.go
index 9d11558..4e0d049 100644
--- a/znet/msghandler.go
+++ b/znet/msghandler.go
@@ -193,6 +193,7 @@ func useWorker(conn ziface.IConnection) uint32 {
 		mh.extraFreeWorkerMu.Lock()
 		defer mh.extraFreeWorkerMu.Unlock()
 		for workerID := range mh.extraFreeWorkers {
+			delete(mh.extraFreeWorkers, workerID)
 			zlog.Ins().DebugF("start extra worker, workerID=%d", workerID)
 			mh.TaskQueue[workerID] = make(chan ziface.IRequest, zconf.GlobalObject.MaxWorkerTaskLen)
 			go mh.StartOneWorker(int(workerID), mh.TaskQueue[workerID])
-- 
2.43.0


From 883278177dbc5c4acf8f1dacc5aa14851b61d2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:27 +0000
Subject: [PATCH 08/39] fix: tear a connection down without waiting for blocked
 senders

The finalizer stopped the heartbeat (and, for websocket and KCP, took the
send lock) before closing the socket. With a sender or heartbeat blocked on
a peer that does not read, or a heartbeat waiting for the lock, the
connection was never closed.
---
 znet/connection.go     |  7 ++++---
 znet/kcp_connection.go | 12 +++++++-----
 znet/ws_connection.go  | 21 +++++++++++----------
 3 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index 696bc28..93d04a4 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -504,14 +504,15 @@ func (c *Connection) finalizer() {
 	// (如果用户注册了该连接的	关闭回调业务，那么在此刻应该显示调用)
 	c.callOnConnStop()
 
+	// Close the socket connection first: it wakes up senders (the heartbeat among them) blocked on a stalled peer
+	// (首先关闭socket，唤醒因对端不读数据而阻塞的发送者，包括心跳)
+	_ = c.conn.Close()
+
 	// Stop the heartbeat detector associated with the connection
 	if c.hc != nil {
 		c.hc.Stop()
 	}
 
-	// Close the socket connection
-	_ = c.conn.Close()
-
 	// Remove the connection from the connection manager
 	if c.connManager != nil {
 		c.connManager.Remove(c)
diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index e42183e..9bc3ee2 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -498,16 +498,18 @@ func (c *KcpConnection) finalizer() {
 	//(如果用户注册了该连接的	关闭回调业务，那么在此刻应该显示调用)
 	c.callOnConnStop()
 
-	c.msgLock.Lock()
-	defer c.msgLock.Unlock()
+	// Close the socket connection first: it wakes up senders (the heartbeat among them) blocked on a stalled peer,
+	// which may hold msgLock
+	// (首先关闭socket，唤醒因对端不读数据而阻塞的发送者，包括心跳，它们可能持有msgLock)
+	_ = c.conn.Close()
 
-	// Stop the heartbeat detector associated with the connection
+	// Stop the heartbeat detector associated with the connection, it may be waiting for msgLock
 	if c.hc != nil {
 		c.hc.Stop()
 	}
 
-	// Close the socket connection
-	_ = c.conn.Close()
+	c.msgLock.Lock()
+	defer c.msgLock.Unlock()
 
 	// Remove the connection from the connection manager
 	if c.connManager != nil {
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index f585814..e25f56e 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -504,6 +504,17 @@ func (c *WsConnection) finalizer() {
 	// (如果用户注册了该连接的	关闭回调业务，那么在此刻应该显示调用)
 	c.callOnConnStop()
 
+	// Close the socket connection first: it wakes up senders (the heartbeat among them) blocked on a stalled peer,
+	// which may hold msgLock.
+	// (首先关闭socket，唤醒因对端不读数据而阻塞的发送者，包括心跳，它们可能持有msgLock)
+	_ = c.conn.Close()
+
+	// Stop the heartbeat detector bound to the connection, it may be waiting for msgLock.
+	// (关闭连接绑定的心跳检测器，心跳可能正在等待msgLock)
+	if c.hc != nil {
+		c.hc.Stop()
+	}
+
 	c.msgLock.Lock()
 	defer c.msgLock.Unlock()
 
@@ -513,16 +524,6 @@ func (c *WsConnection) finalizer() {
 		return
 	}
 
-	// Stop the heartbeat detector bound to the connection.
-	// (关闭连接绑定的心跳检测器)
-	if c.hc != nil {
-		c.hc.Stop()
-	}
-
-	// Close the socket connection.
-	// (关闭socket连接)
-	_ = c.conn.Close()
-
 	// Remove the connection from the connection manager.
 	// (将连接从连接管理器中删除)
 	if c.connManager != nil {
-- 
2.43.0


From 007b6c92d812c366317d81a4cfe5c396ed115eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:34 +0000
Subject: [PATCH 09/39] fix: release the worker of a closed connection before
 its place

At capacity in Bind/DynamicBind mode a new connection could be admitted
after the old one left the connection manager but before its worker was
free, and then shared a worker with another connection.
---
 znet/connection.go     | 7 ++++---
 znet/kcp_connection.go | 7 ++++---
 znet/ws_connection.go  | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index 93d04a4..3e1dbb3 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -321,9 +321,6 @@ func (c *Connection) Start() {
 	select {
 	case <-c.ctx.Done():
 		c.finalizer()
-
-		// 归还workerid
-		freeWorker(c)
 		return
 	}
 }
@@ -513,6 +510,10 @@ func (c *Connection) finalizer() {
 		c.hc.Stop()
 	}
 
+	// Return the worker before the connection stops counting, so that a successor finds one free
+	// (归还workerid，必须先于从连接管理器中删除，保证新连接能获得空闲的worker)
+	freeWorker(c)
+
 	// Remove the connection from the connection manager
 	if c.connManager != nil {
 		c.connManager.Remove(c)
diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index 9bc3ee2..5816812 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -302,9 +302,6 @@ func (c *KcpConnection) Start() {
 	select {
 	case <-c.ctx.Done():
 		c.finalizer()
-
-		// 归还workerid
-		freeWorker(c)
 		return
 	}
 }
@@ -511,6 +508,10 @@ func (c *KcpConnection) finalizer() {
 	c.msgLock.Lock()
 	defer c.msgLock.Unlock()
 
+	// Return the worker before the connection stops counting, so that a successor finds one free
+	// (归还workerid，必须先于从连接管理器中删除，保证新连接能获得空闲的worker)
+	freeWorker(c)
+
 	// Remove the connection from the connection manager
 	if c.connManager != nil {
 		c.connManager.Remove(c)
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index e25f56e..eeaa901 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -305,9 +305,6 @@ func (c *WsConnection) Start() {
 	select {
 	case <-c.ctx.Done():
 		c.finalizer()
-
-		// 归还workerid
-		freeWorker(c)
 		return
 	}
 }
@@ -524,6 +521,10 @@ func (c *WsConnection) finalizer() {
 		return
 	}
 
+	// Return the worker before the connection stops counting, so that a successor finds one free
+	// (归还workerid，必须先于从连接管理器中删除，保证新连接能获得空闲的worker)
+	freeWorker(c)
+
 	// Remove the connection from the connection manager.
 	// (将连接从连接管理器中删除)
 	if c.connManager != nil {
-- 
2.43.0


From 0f8a5f275726e4d7ab3660cd12cd421f7c2b2e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:41 +0000
Subject: [PATCH 10/39] fix: a connection can be stopped before it has started

The cancel function was only created by Start, which runs in its own
goroutine: stopping the server, clearing all connections or stopping a
client right after a connection was made called a nil function.
---
 znet/connection.go     |  5 ++++-
 znet/kcp_connection.go |  5 ++++-
 znet/ws_connection.go  | 11 +++++------
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index 3e1dbb3..d1397dd 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -136,6 +136,8 @@ func newServerConn(server ziface.IServer, conn net.Conn, connID uint64) ziface.I
 		remoteAddr:      conn.RemoteAddr().String(),
 	}
 
+	c.ctx, c.cancel = context.WithCancel(context.Background())
+
 	lengthField := server.GetLengthField()
 	if lengthField != nil {
 		c.frameDecoder = zinterceptor.NewFrameDecoder(*lengthField)
@@ -174,6 +176,8 @@ func newClientConn(client ziface.IClient, conn net.Conn) ziface.IConnection {
 		remoteAddr:      conn.RemoteAddr().String(),
 	}
 
+	c.ctx, c.cancel = context.WithCancel(context.Background())
+
 	lengthField := client.GetLengthField()
 	if lengthField != nil {
 		c.frameDecoder = zinterceptor.NewFrameDecoder(*lengthField)
@@ -299,7 +303,6 @@ func (c *Connection) Start() {
 			zlog.Ins().ErrorF("Connection Start() error: %v", err)
 		}
 	}()
-	c.ctx, c.cancel = context.WithCancel(context.Background())
 
 	// Execute the hook method for processing business logic when creating a connection
 	// (按照用户传递进来的创建连接时需要处理的业务，执行钩子方法)
diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index 5816812..719413b 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -134,6 +134,8 @@ func newKcpServerConn(server ziface.IServer, conn *kcp.UDPSession, connID uint64
 		remoteAddr:  conn.RemoteAddr().String(),
 	}
 
+	c.ctx, c.cancel = context.WithCancel(context.Background())
+
 	lengthField := server.GetLengthField()
 	if lengthField != nil {
 		c.frameDecoder = zinterceptor.NewFrameDecoder(*lengthField)
@@ -170,6 +172,8 @@ func newKcpClientConn(client ziface.IClient, conn *kcp.UDPSession) ziface.IConne
 		remoteAddr:  conn.RemoteAddr().String(),
 	}
 
+	c.ctx, c.cancel = context.WithCancel(context.Background())
+
 	lengthField := client.GetLengthField()
 	if lengthField != nil {
 		c.frameDecoder = zinterceptor.NewFrameDecoder(*lengthField)
@@ -280,7 +284,6 @@ func (c *KcpConnection) Start() {
 			zlog.Ins().ErrorF("Connection Start() error: %v", err)
 		}
 	}()
-	c.ctx, c.cancel = context.WithCancel(context.Background())
 
 	// Execute the hook method for processing business logic when creating a connection
 	// (按照用户传递进来的创建连接时需要处理的业务，执行钩子方法)
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index eeaa901..e9e69ed 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -119,7 +119,6 @@ type WsConnection struct {
 func newWebsocketConn(server ziface.IServer, conn *websocket.Conn, connID uint64, r *http.Request) ziface.IConnection {
 	// Initialize Conn properties (初始化Conn属性)
 	c := &WsConnection{
-		ctx:         context.WithValue(context.Background(), WsConnectionHttpReqCtxKey{}, r.Context()), // websocketAuth可以在上下文中传递特殊的参数或信息;比如鉴权后，设置一些用户信息或房间id
 		conn:        conn,
 		connID:      connID,
 		connIdStr:   strconv.FormatUint(connID, 10),
@@ -131,6 +130,9 @@ func newWebsocketConn(server ziface.IServer, conn *websocket.Conn, connID uint64
 		remoteAddr:  conn.RemoteAddr().String(),
 	}
 
+	// websocketAuth可以在上下文中传递特殊的参数或信息;比如鉴权后，设置一些用户信息或房间id
+	c.ctx, c.cancel = context.WithCancel(context.WithValue(context.Background(), WsConnectionHttpReqCtxKey{}, r.Context()))
+
 	lengthField := server.GetLengthField()
 	if lengthField != nil {
 		c.frameDecoder = zinterceptor.NewFrameDecoder(*lengthField)
@@ -166,6 +168,8 @@ func newWsClientConn(client ziface.IClient, conn *websocket.Conn) ziface.IConnec
 		remoteAddr:  conn.RemoteAddr().String(),
 	}
 
+	c.ctx, c.cancel = context.WithCancel(context.Background())
+
 	lengthField := client.GetLengthField()
 	if lengthField != nil {
 		c.frameDecoder = zinterceptor.NewFrameDecoder(*lengthField)
@@ -279,11 +283,6 @@ func (c *WsConnection) StartReader() {
 // Start starts the connection and makes it work.
 // (Start 启动连接，让当前连接开始工作)
 func (c *WsConnection) Start() {
-	ctx := c.ctx
-	if ctx == nil {
-		ctx = context.Background()
-	}
-	c.ctx, c.cancel = context.WithCancel(ctx)
 	// Execute the hook method according to the business needs of creating the connection passed in by the user.
 	// (按照用户传递进来的创建连接时需要处理的业务，执行钩子方法)
 	c.callOnConnStart()
-- 
2.43.0


From c8d0241612b92ef9fc52027121acdc4edcb7a32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:49 +0000
Subject: [PATCH 11/39] fix: buffered TCP senders no longer close the queue
 they share

Several senders seeing the connection end closed the channel twice, or
closed it while another was sending: either way a panic in user code.
---
 znet/connection.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index d1397dd..f6d0dd2 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -424,8 +424,6 @@ func (c *Connection) SendToQueue(data []byte) error {
 	// Send timeout
 	select {
 	case <-c.ctx.Done():
-		// Close all channels associated with the connection
-		close(c.msgBuffChan)
 		return errors.New("connection closed when send buff msg")
 	case <-idleTimeout.C:
 		return errors.New("send buff msg timeout")
-- 
2.43.0


From acad32decd3d05c1643ebf4bd82e0672d6aca61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:56 +0000
Subject: [PATCH 12/39] fix: buffered TCP messages are written to the socket
 whole

A message that did not fit the rest of the write buffer was split over two
writes, and a concurrent direct send could land in the middle of it.
---
 znet/connection.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/znet/connection.go b/znet/connection.go
index f6d0dd2..090b82f 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -390,6 +390,14 @@ func (c *Connection) SendBuf(data []byte) error {
 	if c.isClosed() == true {
 		return errors.New("connection closed when send msg")
 	}
+	// Never let a message straddle two flushes: a direct send could get in between
+	// (不允许一个消息被拆分到两次flush中，否则直接发送的消息可能会插入到中间)
+	if c.bufWriter.Buffered() > 0 && c.bufWriter.Available() < len(data) {
+		if err := c.bufWriter.Flush(); err != nil {
+			zlog.Ins().ErrorF("SendMsg err data = %+v, err = %+v", data, err)
+			return err
+		}
+	}
 	_, err := c.bufWriter.Write(data)
 	if err != nil {
 		zlog.Ins().ErrorF("SendMsg err data = %+v, err = %+v", data, err)
-- 
2.43.0


From fe47d18f213cfe987abc4625613b9eba05774bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:33 +0000
Subject: [PATCH 13/39] fix: KCP send queue is created once and never closed
 under a sender

Concurrent first buffered sends each created a queue and a writer, losing
the messages of one of them, and SendBuffMsg did not take the lock that
protects the queue from being closed.
---
 znet/kcp_connection.go | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index 719413b..a83a242 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -60,6 +60,10 @@ type KcpConnection struct {
 	// (用户收发消息的Lock)
 	msgLock sync.RWMutex
 
+	// Creates the send queue and its writer exactly once
+	// (保证发送队列及写协程只初始化一次)
+	startWriterOnce sync.Once
+
 	// Connection properties
 	// (连接属性)
 	property map[string]interface{}
@@ -368,14 +372,14 @@ func (c *KcpConnection) SendToQueue(data []byte) error {
 	c.msgLock.RLock()
 	defer c.msgLock.RUnlock()
 
-	if c.msgBuffChan == nil {
+	c.startWriterOnce.Do(func() {
 		c.msgBuffChan = make(chan []byte, zconf.GlobalObject.MaxMsgChanLen)
 		// Start a Goroutine to write data back to the client
 		// This method only reads data from the MsgBuffChan without allocating memory or starting a Goroutine
 		// (开启用于写回客户端数据流程的Goroutine
 		// 此方法只读取MsgBuffChan中的数据没调用SendBuffMsg可以分配内存和启用协程)
 		go c.StartWriter()
-	}
+	})
 
 	idleTimeout := time.NewTimer(5 * time.Millisecond)
 	defer idleTimeout.Stop()
@@ -424,31 +428,13 @@ func (c *KcpConnection) SendBuffMsg(msgID uint32, data []byte) error {
 	if c.isClosed() {
 		return errors.New("connection closed when send buff msg")
 	}
-	if c.msgBuffChan == nil {
-		c.msgBuffChan = make(chan []byte, zconf.GlobalObject.MaxMsgChanLen)
-		// Start a Goroutine to write data back to the client
-		// This method only reads data from the MsgBuffChan without allocating memory or starting a Goroutine
-		// (开启用于写回客户端数据流程的Goroutine
-		// 此方法只读取MsgBuffChan中的数据没调用SendBuffMsg可以分配内存和启用协程)
-		go c.StartWriter()
-	}
-
-	idleTimeout := time.NewTimer(5 * time.Millisecond)
-	defer idleTimeout.Stop()
-
 	msg, err := c.packet.Pack(zpack.NewMsgPackage(msgID, data))
 	if err != nil {
 		zlog.Ins().ErrorF("Pack error msg ID = %d", msgID)
 		return errors.New("Pack error msg ")
 	}
 
-	// send timeout
-	select {
-	case <-idleTimeout.C:
-		return errors.New("send buff msg timeout")
-	case c.msgBuffChan <- msg:
-		return nil
-	}
+	return c.SendToQueue(msg)
 }
 
 func (c *KcpConnection) SetProperty(key string, value interface{}) {
-- 
2.43.0


From c4fd3ecc3d382cd2a3de77071b638b5c842dbc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:40 +0000
Subject: [PATCH 14/39] fix: a panicking connection hook no longer leaks the
 connection

A panic in the start or stop hook left the socket open and the connection
registered for ever (TCP, KCP), or took the process down (websocket).
---
 znet/connection.go     | 15 +++++++++++++++
 znet/kcp_connection.go | 15 +++++++++++++++
 znet/ws_connection.go  | 15 +++++++++++++++
 3 files changed, 45 insertions(+)

diff --git a/znet/connection.go b/znet/connection.go
index 090b82f..febfc15 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -542,6 +542,14 @@ func (c *Connection) finalizer() {
 }
 
 func (c *Connection) callOnConnStart() {
+	defer func() {
+		if err := recover(); err != nil {
+			// The connection is not usable without its start hook, close it
+			// (创建连接的Hook异常，关闭该连接)
+			zlog.Ins().ErrorF("connID=%d, OnConnStart panic: %v", c.connID, err)
+			c.Stop()
+		}
+	}()
 	if c.onConnStart != nil {
 		zlog.Ins().InfoF("ZINX CallOnConnStart....")
 		c.onConnStart(c)
@@ -549,6 +557,13 @@ func (c *Connection) callOnConnStart() {
 }
 
 func (c *Connection) callOnConnStop() {
+	defer func() {
+		if err := recover(); err != nil {
+			// The rest of the cleanup still has to be done
+			// (断开连接的Hook异常，仍需完成剩余的清理工作)
+			zlog.Ins().ErrorF("connID=%d, OnConnStop panic: %v", c.connID, err)
+		}
+	}()
 	if c.onConnStop != nil {
 		zlog.Ins().InfoF("ZINX CallOnConnStop....")
 		c.onConnStop(c)
diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index a83a242..5a89174 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -525,6 +525,14 @@ func (c *KcpConnection) finalizer() {
 }
 
 func (c *KcpConnection) callOnConnStart() {
+	defer func() {
+		if err := recover(); err != nil {
+			// The connection is not usable without its start hook, close it
+			// (创建连接的Hook异常，关闭该连接)
+			zlog.Ins().ErrorF("connID=%d, OnConnStart panic: %v", c.connID, err)
+			c.Stop()
+		}
+	}()
 	if c.onConnStart != nil {
 		zlog.Ins().DebugF("ZINX CallOnConnStart....")
 		c.onConnStart(c)
@@ -532,6 +540,13 @@ func (c *KcpConnection) callOnConnStart() {
 }
 
 func (c *KcpConnection) callOnConnStop() {
+	defer func() {
+		if err := recover(); err != nil {
+			// The rest of the cleanup still has to be done
+			// (断开连接的Hook异常，仍需完成剩余的清理工作)
+			zlog.Ins().ErrorF("connID=%d, OnConnStop panic: %v", c.connID, err)
+		}
+	}()
 	if c.onConnStop != nil {
 		zlog.Ins().DebugF("ZINX CallOnConnStop....")
 		c.onConnStop(c)
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index e9e69ed..7386fa5 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -553,6 +553,14 @@ func (c *WsConnection) finalizer() {
 }
 
 func (c *WsConnection) callOnConnStart() {
+	defer func() {
+		if err := recover(); err != nil {
+			// The connection is not usable without its start hook, close it
+			// (创建连接的Hook异常，关闭该连接)
+			zlog.Ins().ErrorF("connID=%d, OnConnStart panic: %v", c.connID, err)
+			c.Stop()
+		}
+	}()
 	if c.onConnStart != nil {
 		zlog.Ins().InfoF("ZINX CallOnConnStart....")
 		c.onConnStart(c)
@@ -560,6 +568,13 @@ func (c *WsConnection) callOnConnStart() {
 }
 
 func (c *WsConnection) callOnConnStop() {
+	defer func() {
+		if err := recover(); err != nil {
+			// The rest of the cleanup still has to be done
+			// (断开连接的Hook异常，仍需完成剩余的清理工作)
+			zlog.Ins().ErrorF("connID=%d, OnConnStop panic: %v", c.connID, err)
+		}
+	}()
 	if c.onConnStop != nil {
 		zlog.Ins().InfoF("ZINX CallOnConnStop....")
 		c.onConnStop(c)
-- 
2.43.0


From 6f2d8b1cdf0f99c0eff5ae46758a2bf4c9e9bf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:46 +0000
Subject: [PATCH 15/39] fix: a pooled request forgets the response of its
 previous use

Reset kept the interceptor response (and the routes) of the request the
object served before.
---
 znet/request.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/znet/request.go b/znet/request.go
index 6b6e474..3b54c3e 100644
--- a/znet/request.go
+++ b/znet/request.go
@@ -94,7 +94,9 @@ func (r *Request) Reset(conn ziface.IConnection, msg ziface.IMessage) {
 	r.needNext = true
 	r.index = -1
 	r.keys = nil
-
+	r.router = nil
+	r.handlers = nil
+	r.icResp = nil
 }
 
 // Copy 在执行路由函数的时候可能会出现需要再起一个协程的需求,但是 Request 对象由对象池管理后无法保证新协程中的 Request 参数一致
-- 
2.43.0


From 00f4bfc819a60f5fe54b68051bb0d9e13ebaec2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:52 +0000
Subject: [PATCH 16/39] fix: a copied request keeps its payload and response

The copy carried the raw frame instead of the decoded payload, and never
the interceptor response (copy into an empty slice).
---
 znet/request.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/znet/request.go b/znet/request.go
index 3b54c3e..b92bd89 100644
--- a/znet/request.go
+++ b/znet/request.go
@@ -122,14 +122,12 @@ func (r *Request) Copy() ziface.IRequest {
 	}
 
 	// 复制一份原本的 icResp
-	copyResp := []ziface.IcResp{r.icResp}
-	newIcResp := make([]ziface.IcResp, 0, 1)
-	copy(newIcResp, copyResp)
-	for _, v := range newIcResp {
-		newRequest.icResp = v
-	}
+	newRequest.icResp = r.icResp
+
 	// 复制一份原本的 msg 信息
-	newRequest.msg = zpack.NewMessageByMsgId(r.msg.GetMsgID(), r.msg.GetDataLen(), r.msg.GetRawData())
+	newMsg := zpack.NewMessageByMsgId(r.msg.GetMsgID(), r.msg.GetDataLen(), r.msg.GetRawData())
+	newMsg.SetData(r.msg.GetData())
+	newRequest.msg = newMsg
 
 	return newRequest
 }
-- 
2.43.0


From 6a115c906a0a1c7c63b16f7149cbe9a4184daa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:58 +0000
Subject: [PATCH 17/39] fix: more than 127 handlers per message work in router
 slices mode

The handler index was an int8 and overflowed.
---
 znet/request.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/znet/request.go b/znet/request.go
index b92bd89..d3d9d55 100644
--- a/znet/request.go
+++ b/znet/request.go
@@ -36,7 +36,7 @@ type Request struct {
 	needNext bool                   // whether to execute the next router function(是否需要执行下一个路由函数)
 	icResp   ziface.IcResp          // response data returned by the interceptors (拦截器返回数据)
 	handlers []ziface.RouterHandler // router function slice(路由函数切片)
-	index    int8                   // router function slice index(路由函数切片索引)
+	index    int                    // router function slice index(路由函数切片索引)
 	keys     map[string]interface{} // keys 路由处理时可能会存取的上下文信息
 }
 
@@ -213,7 +213,7 @@ func (r *Request) Call() {
 
 func (r *Request) Abort() {
 	if zconf.GlobalObject.RouterSlicesMode {
-		r.index = int8(len(r.handlers))
+		r.index = len(r.handlers)
 	} else {
 		r.stepLock.Lock()
 		r.steps = HANDLE_OVER
@@ -228,7 +228,7 @@ func (r *Request) BindRouterSlices(handlers []ziface.RouterHandler) {
 
 func (r *Request) RouterSlicesNext() {
 	r.index++
-	for r.index < int8(len(r.handlers)) {
+	for r.index < len(r.handlers) {
 		r.handlers[r.index](r)
 		r.index++
 	}
-- 
2.43.0


From 37287234baca6e063adab109e1bda44a7f235ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:04 +0000
Subject: [PATCH 18/39] fix: async completion never runs before its result is
 visible

The has-result flag was raised before the result was stored, so OnComplete
on another goroutine could run the completion with a nil result.
---
 zasync_op/async_op_result.go | 74 ++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 33 deletions(-)

diff --git a/zasync_op/async_op_result.go b/zasync_op/async_op_result.go
index 27b8284..8681ca4 100644
--- a/zasync_op/async_op_result.go
+++ b/zasync_op/async_op_result.go
@@ -7,7 +7,7 @@
 package zasync_op
 
 import (
-	"sync/atomic"
+	"sync"
 
 	"github.com/aceld/zinx/ziface"
 	"github.com/aceld/zinx/znet"
@@ -21,61 +21,69 @@ type AsyncOpResult struct {
 	// Completion callback function(完成回调函数)
 	completeFunc func()
 	// Whether the return value has been set(是否已有返回值)
-	hasReturnedObj int32
+	hasReturnedObj bool
 	// Whether the completion callback function has been set(是否已有回调函数)
-	hasCompleteFunc int32
+	hasCompleteFunc bool
 	// Whether the completion function has already been called(是否已经调用过完成函数)
-	completeFuncHasAlreadyBeenCalled int32 // Default value = 0, not yet called (默认值 = 0, 没被调用过)
+	completeFuncHasAlreadyBeenCalled bool // Default value = false, not yet called (默认值 = false, 没被调用过)
+	// Protects the fields above, the result and the callback may be set by different goroutines
+	// (保护以上字段，返回值与回调函数可能由不同的协程设置)
+	mu sync.Mutex
 }
 
 // GetReturnedObj returns the return value (获取返回值)
 func (aor *AsyncOpResult) GetReturnedObj() interface{} {
+	aor.mu.Lock()
+	defer aor.mu.Unlock()
 	return aor.returnedObj
 }
 
 // SetReturnedObj sets the return value(设置返回值)
 func (aor *AsyncOpResult) SetReturnedObj(val interface{}) {
-	if atomic.CompareAndSwapInt32(&aor.hasReturnedObj, 0, 1) {
-		aor.returnedObj = val
-		// **** 防止未调用回调函数问题: 设置处理结果时，直接调用回调函数：1.回调函数未绑定，调用空；2.回调函数已绑定,立马调用 ****
-		// **** Prevent the problem of not calling the completion callback function:
-		// Call the callback function directly when setting the processing result:
-		// 1. If the callback function is not bound, it will be called with nil;
-		// 2. If the callback function is bound, it will be called immediately. ****
-		aor.doComplete()
+	aor.mu.Lock()
+	if aor.hasReturnedObj {
+		aor.mu.Unlock()
+		return
 	}
+	aor.hasReturnedObj = true
+	aor.returnedObj = val
+	aor.mu.Unlock()
+
+	aor.doComplete()
 }
 
 // OnComplete sets the completion callback function(完成回调函数)
 func (aor *AsyncOpResult) OnComplete(val func()) {
-	if atomic.CompareAndSwapInt32(&aor.hasCompleteFunc, 0, 1) {
-		aor.completeFunc = val
-
-		// **** 防止未调用回调函数问题:设置回调函数时，发现已经有处理结果了，直接调用 ****
-		// **** Prevent the problem of not calling the completion callback function:
-		// If a processing result already exists when setting the callback function,
-		// call the callback function directly. ****
-		if atomic.LoadInt32(&aor.hasReturnedObj) == 1 {
-			aor.doComplete()
-		}
+	aor.mu.Lock()
+	if aor.hasCompleteFunc {
+		aor.mu.Unlock()
+		return
 	}
+	aor.hasCompleteFunc = true
+	aor.completeFunc = val
+	aor.mu.Unlock()
+
+	aor.doComplete()
 }
 
-// doComplete executes the completion callback function, double-checking when setting the processing result and callback function to prevent the possibility of not calling the callback function
-// (执行完成回调,在设置处理结果和回调函数的时候双重检查，杜绝未调用回调函数的可能性)
+// doComplete executes the completion callback function once both the result and the callback are there, whichever comes last
+// (返回值与回调函数都已设置时执行完成回调，无论哪个后到)
 func (aor *AsyncOpResult) doComplete() {
-	if aor.completeFunc == nil {
+	aor.mu.Lock()
+	// Prevent re-entry problems (防止可重入问题)
+	if !aor.hasReturnedObj || aor.completeFunc == nil || aor.completeFuncHasAlreadyBeenCalled {
+		aor.mu.Unlock()
 		return
 	}
+	aor.completeFuncHasAlreadyBeenCalled = true
+	completeFunc := aor.completeFunc
+	aor.mu.Unlock()
 
-	// Prevent re-entry problems (防止可重入问题)
-	if atomic.CompareAndSwapInt32(&aor.completeFuncHasAlreadyBeenCalled, 0, 1) {
-		// Prevent cross-thread calling problems,
-		// throw it to the corresponding business thread to execute
-		// (防止跨线程调用问题,扔到所属业务线程里去执行)
-		request := znet.NewFuncRequest(aor.conn, aor.completeFunc)
-		aor.conn.GetMsgHandler().SendMsgToTaskQueue(request)
-	}
+	// Prevent cross-thread calling problems,
+	// throw it to the corresponding business thread to execute
+	// (防止跨线程调用问题,扔到所属业务线程里去执行)
+	request := znet.NewFuncRequest(aor.conn, completeFunc)
+	aor.conn.GetMsgHandler().SendMsgToTaskQueue(request)
 }
 
 // NewAsyncOpResult creates a new asynchronous result(新建异步结果)
-- 
2.43.0


From b92ba1b291ca83881c3fdaecaa5a119ee043bcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:55 +0000
Subject: [PATCH 19/39] fix: closing the log writer cannot lose a concurrent
 write

A record written between the flush and the close of the file stayed in the
buffer of the closed file.
---
 zutils/witer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zutils/witer.go b/zutils/witer.go
index 01efae5..b6c8132 100644
--- a/zutils/witer.go
+++ b/zutils/witer.go
@@ -200,17 +200,17 @@ func (w *Writer) time2name(t time.Time) string {
 }
 
 func (w *Writer) Close() error {
-	w.flush()
+	w.mu.Lock()
+	defer w.mu.Unlock()
 	return w.close()
 }
 
-// close closes the file if it is open.
+// close flushes and closes the file if it is open.
 func (w *Writer) close() error {
-	w.mu.Lock()
-	defer w.mu.Unlock()
 	if w.file == nil {
 		return nil
 	}
+	w.bw.Flush()
 	w.file.Sync()
 	err := w.file.Close()
 	w.file = nil
-- 
2.43.0


From b81dd79d5f49394cf94ea5d7c2e77e837ed0411e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:00 +0000
Subject: [PATCH 20/39] fix: Server.Stop stops every listener in every mode

Only a TCP or KCP listener waited for the stop signal: in websocket mode
Stop blocked for ever and the port stayed open, in combined mode only one
listener was closed, the KCP accept loop span on, and a connection accepted
between clearing the connections and closing the listener survived.
---
 znet/server.go | 49 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/znet/server.go b/znet/server.go
index 6152000..863c36a 100644
--- a/znet/server.go
+++ b/znet/server.go
@@ -236,6 +236,7 @@ func (s *Server) StartConn(conn ziface.IConnection) {
 }
 
 func (s *Server) ListenTcpConn() {
+	exitChan := s.exitChan
 	zlog.Ins().InfoF("[START] TCP Server name: %s,listener at IP: %s, Port %d is starting", s.Name, s.IP, s.Port)
 	// 1. Get a TCP address
 	addr, err := net.ResolveTCPAddr(s.IPVersion, fmt.Sprintf("%s:%d", s.IP, s.Port))
@@ -300,12 +301,12 @@ func (s *Server) ListenTcpConn() {
 			newCid := atomic.AddUint64(&s.cID, 1)
 			dealConn := newServerConn(s, conn, newCid)
 
-			go s.StartConn(dealConn)
+			s.serveConn(dealConn, exitChan)
 
 		}
 	}()
 	select {
-	case <-s.exitChan:
+	case <-exitChan:
 		err := listener.Close()
 		if err != nil {
 			zlog.Ins().ErrorF("listener close err: %v", err)
@@ -314,6 +315,7 @@ func (s *Server) ListenTcpConn() {
 }
 
 func (s *Server) ListenWebsocketConn() {
+	exitChan := s.exitChan
 	zlog.Ins().InfoF("[START] WEBSOCKET Server name: %s,listener at IP: %s, Port %d, Path %s is starting", s.Name, s.IP, s.WsPort, s.WsPath)
 	http.HandleFunc(s.WsPath, func(w http.ResponseWriter, r *http.Request) {
 		// 1. Check if the server has reached the maximum allowed number of connections
@@ -353,17 +355,25 @@ func (s *Server) ListenWebsocketConn() {
 		// 5. 处理该新连接请求的 业务 方法， 此时应该有 handler 和 conn是绑定的
 		newCid := atomic.AddUint64(&s.cID, 1)
 		wsConn := newWebsocketConn(s, conn, newCid, r)
-		go s.StartConn(wsConn)
+		s.serveConn(wsConn, exitChan)
 
 	})
 
-	err := http.ListenAndServe(fmt.Sprintf("%s:%d", s.IP, s.WsPort), nil)
-	if err != nil {
+	httpServer := &http.Server{Addr: fmt.Sprintf("%s:%d", s.IP, s.WsPort)}
+	go func() {
+		<-exitChan
+		if err := httpServer.Close(); err != nil {
+			zlog.Ins().ErrorF("websocket listener close err: %v", err)
+		}
+	}()
+	err := httpServer.ListenAndServe()
+	if err != nil && !errors.Is(err, http.ErrServerClosed) {
 		panic(err)
 	}
 }
 
 func (s *Server) ListenKcpConn() {
+	exitChan := s.exitChan
 
 	// 1. Listen to the server address
 	listener, err := kcp.ListenWithOptions(fmt.Sprintf("%s:%d", s.IP, s.KcpPort), nil, s.kcpConfig.KcpFecDataShards, s.kcpConfig.KcpFecParityShards)
@@ -387,6 +397,12 @@ func (s *Server) ListenKcpConn() {
 			// (阻塞等待客户端建立连接请求)
 			conn, err := listener.Accept()
 			if err != nil {
+				select {
+				case <-exitChan:
+					zlog.Ins().ErrorF("KCP listener closed")
+					return
+				default:
+				}
 				zlog.Ins().ErrorF("Accept KCP err: %v", err)
 				AcceptDelay.Delay()
 				continue
@@ -406,11 +422,11 @@ func (s *Server) ListenKcpConn() {
 
 			dealConn := newKcpServerConn(s, kcpConn, newCid)
 
-			go s.StartConn(dealConn)
+			s.serveConn(dealConn, exitChan)
 		}
 	}()
 	select {
-	case <-s.exitChan:
+	case <-exitChan:
 		err := listener.Close()
 		if err != nil {
 			zlog.Ins().ErrorF("KCP listener close err: %v", err)
@@ -452,11 +468,26 @@ func (s *Server) Start() {
 func (s *Server) Stop() {
 	zlog.Ins().InfoF("[STOP] Zinx server , name %s", s.Name)
 
+	// Tell all listeners to stop accepting, before the connections are cleared
+	// (先通知所有的listener停止接收新连接)
+	close(s.exitChan)
+
 	// Clear other connection information or other information that needs to be cleaned up
 	// (将其他需要清理的连接信息或者其他信息 也要一并停止或者清理)
 	s.ConnMgr.ClearConn()
-	s.exitChan <- struct{}{}
-	close(s.exitChan)
+}
+
+// serveConn starts a connection that has just been accepted
+// (启动一个刚刚建立的连接)
+func (s *Server) serveConn(conn ziface.IConnection, exitChan chan struct{}) {
+	select {
+	case <-exitChan:
+		// The server was stopped while this connection was being accepted
+		// (接收该连接的过程中server已经停止)
+		conn.Stop()
+	default:
+	}
+	go s.StartConn(conn)
 }
 
 // Serve runs the server (运行服务)
-- 
2.43.0


From 6a593ad976897300d004d647be61046f2aedc787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:07 +0000
Subject: [PATCH 21/39] fix: MaxConn holds for simultaneous websocket
 connections too

Every upgrade ran in its own goroutine, checked the number of connections
and added one later: a burst of clients (or a TCP and a websocket client of
a combined server) could exceed the limit.
---
 znet/server.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/znet/server.go b/znet/server.go
index 863c36a..14b4fa7 100644
--- a/znet/server.go
+++ b/znet/server.go
@@ -9,6 +9,7 @@ import (
 	"net/http"
 	"os"
 	"os/signal"
+	"sync"
 	"sync/atomic"
 	"syscall"
 	"time"
@@ -89,6 +90,11 @@ type Server struct {
 
 	// connection id
 	cID uint64
+
+	// Number of connections admitted but not yet in the connection manager
+	// (已经准许但还未加入到连接管理器的连接数)
+	admitting   int
+	admittingMu sync.Mutex
 }
 
 type KcpConfig struct {
@@ -299,7 +305,13 @@ func (s *Server) ListenTcpConn() {
 			// 3.4 Handle the business method for this new connection request. At this time, the handler and conn should be bound.
 			// (处理该新连接请求的 业务 方法， 此时应该有 handler 和 conn是绑定的)
 			newCid := atomic.AddUint64(&s.cID, 1)
+			for !s.admit() {
+				// The last place was taken over another transport meanwhile
+				// (最后一个位置已经被其他传输方式的连接占用)
+				AcceptDelay.Delay()
+			}
 			dealConn := newServerConn(s, conn, newCid)
+			s.admitted()
 
 			s.serveConn(dealConn, exitChan)
 
@@ -320,11 +332,12 @@ func (s *Server) ListenWebsocketConn() {
 	http.HandleFunc(s.WsPath, func(w http.ResponseWriter, r *http.Request) {
 		// 1. Check if the server has reached the maximum allowed number of connections
 		// (设置服务器最大连接控制,如果超过最大连接，则等待)
-		if s.ConnMgr.Len() >= zconf.GlobalObject.MaxConn {
+		if !s.admit() {
 			zlog.Ins().InfoF("Exceeded the maxConnNum:%d, Wait:%d", zconf.GlobalObject.MaxConn, AcceptDelay.duration)
 			AcceptDelay.Delay()
 			return
 		}
+		defer s.admitted()
 		// 2. If websocket authentication is required, set the authentication information
 		// (如果需要 websocket 认证请设置认证信息)
 		if s.websocketAuth != nil {
@@ -477,6 +490,25 @@ func (s *Server) Stop() {
 	s.ConnMgr.ClearConn()
 }
 
+// admit reserves a place for one more connection, it fails if there are already MaxConn of them.
+// The place has to be given back with admitted once the connection is in the connection manager, or was not made.
+// (为新连接预留位置，如果超过最大连接数则失败。新连接加入连接管理器或创建失败后，需要调用admitted归还)
+func (s *Server) admit() bool {
+	s.admittingMu.Lock()
+	defer s.admittingMu.Unlock()
+	if s.ConnMgr.Len()+s.admitting >= zconf.GlobalObject.MaxConn {
+		return false
+	}
+	s.admitting++
+	return true
+}
+
+func (s *Server) admitted() {
+	s.admittingMu.Lock()
+	s.admitting--
+	s.admittingMu.Unlock()
+}
+
 // serveConn starts a connection that has just been accepted
 // (启动一个刚刚建立的连接)
 func (s *Server) serveConn(conn ziface.IConnection, exitChan chan struct{}) {
-- 
2.43.0


From 949984169b52eb3da7d21da7b930562e85a7314f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:13 +0000
Subject: [PATCH 22/39] fix: Client.Stop works at any time

Stop blocked for ever after a failed connect (nobody waited for the exit
signal), did not stop a connection that was still being made, and closed
the error channel under the connecting goroutine.
---
 znet/client.go | 61 +++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 53 insertions(+), 8 deletions(-)

diff --git a/znet/client.go b/znet/client.go
index 123857a..a9d6150 100644
--- a/znet/client.go
+++ b/znet/client.go
@@ -50,6 +50,11 @@ type Client struct {
 	dialer *websocket.Dialer
 	// Error channel
 	ErrChan chan error
+	// Whether ErrChan has been closed by Stop (ErrChan是否已经被Stop关闭)
+	errClosed bool
+	errMux    sync.RWMutex
+	// Protects exitChan (保护exitChan的锁)
+	exitMux sync.Mutex
 }
 
 func NewClient(ip string, port int, opts ...ClientOption) ziface.IClient {
@@ -113,7 +118,8 @@ func NewTLSClient(ip string, port int, opts ...ClientOption) ziface.IClient {
 // Start starts the client, sends requests and establishes a connection.
 // (重新启动客户端，发送请求且建立连接)
 func (c *Client) Restart() {
-	c.exitChan = make(chan struct{})
+	exitChan := make(chan struct{})
+	c.swapExitChan(exitChan)
 
 	go func() {
 
@@ -137,7 +143,7 @@ func (c *Client) Restart() {
 			if err != nil {
 				// connection failed
 				zlog.Ins().ErrorF("WsClient connect to server failed, err:%v", err)
-				c.ErrChan <- err
+				c.reportErr(err, exitChan)
 				return
 			}
 			// Create Connection object
@@ -157,7 +163,7 @@ func (c *Client) Restart() {
 				conn, err = tls.Dial("tcp", fmt.Sprintf("%v:%v", net.ParseIP(c.Ip), c.Port), config)
 				if err != nil {
 					zlog.Ins().ErrorF("tls client connect to server failed, err:%v", err)
-					c.ErrChan <- err
+					c.reportErr(err, exitChan)
 					return
 				}
 			} else {
@@ -165,7 +171,7 @@ func (c *Client) Restart() {
 				if err != nil {
 					// connection failed
 					zlog.Ins().ErrorF("client connect to server failed, err:%v", err)
-					c.ErrChan <- err
+					c.reportErr(err, exitChan)
 					return
 				}
 			}
@@ -184,11 +190,19 @@ func (c *Client) Restart() {
 			c.hc.BindConn(connect)
 		}
 
+		// Stop may have been called while connecting, before there was a connection to stop
+		// (建立连接的过程中可能已经调用了Stop)
+		select {
+		case <-exitChan:
+			connect.Stop()
+		default:
+		}
+
 		// Start connection
 		go connect.Start()
 
 		select {
-		case <-c.exitChan:
+		case <-exitChan:
 			zlog.Ins().InfoF("client exit.")
 		}
 	}()
@@ -243,15 +257,46 @@ func (c *Client) StartHeartBeatWithOption(interval time.Duration, option *ziface
 	c.hc = checker
 }
 
+// swapExitChan installs the exit channel of a new run and ends the wait of the previous one
+// (设置新的exitChan，并且结束上一次的等待)
+func (c *Client) swapExitChan(exitChan chan struct{}) {
+	c.exitMux.Lock()
+	defer c.exitMux.Unlock()
+	if c.exitChan != nil {
+		close(c.exitChan)
+	}
+	c.exitChan = exitChan
+}
+
+// reportErr hands a connection error to ErrChan, unless the client is stopped
+// (上报连接错误，除非client已经停止)
+func (c *Client) reportErr(err error, exitChan chan struct{}) {
+	c.errMux.RLock()
+	defer c.errMux.RUnlock()
+	if c.errClosed {
+		return
+	}
+	select {
+	case c.ErrChan <- err:
+	case <-exitChan:
+	}
+}
+
 func (c *Client) Stop() {
+	c.swapExitChan(nil)
+
 	con := c.Conn()
 	if con != nil {
 		zlog.Ins().InfoF("[STOP] Zinx Client LocalAddr: %s, RemoteAddr: %s\n", con.LocalAddr(), con.RemoteAddr())
 		con.Stop()
 	}
-	c.exitChan <- struct{}{}
-	close(c.exitChan)
-	close(c.ErrChan)
+
+	c.errMux.Lock()
+	defer c.errMux.Unlock()
+	if !c.errClosed {
+		c.errClosed = true
+		close(c.ErrChan)
+	}
 }
 
 func (c *Client) AddRouter(msgID uint32, router ziface.IRouter) {
-- 
2.43.0


From 8622adad22b679198ce179de1c3ffe9446d7a4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:56 +0000
Subject: [PATCH 23/39] fix: complete packets before an invalid one are not
 lost with it

Decode panicked for an invalid length field and dropped the complete
packets it had already parsed from the same read, so whether they were
delivered depended on how the stream was split into reads.
---
 zinterceptor/framedecoder.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/zinterceptor/framedecoder.go b/zinterceptor/framedecoder.go
index f72fe7b..90502bd 100644
--- a/zinterceptor/framedecoder.go
+++ b/zinterceptor/framedecoder.go
@@ -584,10 +584,18 @@ func (d *FrameDecoder) decode(in *bytes.Buffer) []byte {
 	return buff
 }
 
-func (d *FrameDecoder) Decode(buff []byte) [][]byte {
+func (d *FrameDecoder) Decode(buff []byte) (resp [][]byte) {
 
 	d.in = append(d.in, buff...)
-	resp := make([][]byte, 0)
+	resp = make([][]byte, 0)
+
+	// Packets parsed before an invalid one are still handed out, the invalid one stays in front and fails the next call
+	// (无效包之前已经解析出的完整包仍需返回，无效包会在下一次调用时失败)
+	defer func() {
+		if err := recover(); err != nil && len(resp) == 0 {
+			panic(err)
+		}
+	}()
 
 	for {
 		in := bytes.NewBuffer(d.in)
-- 
2.43.0


From 1f0cd73a31e215ece26034ae5c6cff36ccd206e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:39 +0000
Subject: [PATCH 24/39] fix: a connection being admitted is not counted twice

Between its registration and the end of its handshake a connection held two
places, so that another websocket client could be refused below the maximum.
---
 znet/server.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/znet/server.go b/znet/server.go
index 14b4fa7..3b3d8a2 100644
--- a/znet/server.go
+++ b/znet/server.go
@@ -310,8 +310,8 @@ func (s *Server) ListenTcpConn() {
 				// (最后一个位置已经被其他传输方式的连接占用)
 				AcceptDelay.Delay()
 			}
-			dealConn := newServerConn(s, conn, newCid)
-			s.admitted()
+			var dealConn ziface.IConnection
+			s.admitted(func() { dealConn = newServerConn(s, conn, newCid) })
 
 			s.serveConn(dealConn, exitChan)
 
@@ -337,7 +337,12 @@ func (s *Server) ListenWebsocketConn() {
 			AcceptDelay.Delay()
 			return
 		}
-		defer s.admitted()
+		var wsConn ziface.IConnection
+		defer func() {
+			if wsConn == nil {
+				s.admitted(nil)
+			}
+		}()
 		// 2. If websocket authentication is required, set the authentication information
 		// (如果需要 websocket 认证请设置认证信息)
 		if s.websocketAuth != nil {
@@ -367,7 +372,7 @@ func (s *Server) ListenWebsocketConn() {
 		// 5. Handle the business logic of the new connection, which should already be bound to a handler and conn
 		// 5. 处理该新连接请求的 业务 方法， 此时应该有 handler 和 conn是绑定的
 		newCid := atomic.AddUint64(&s.cID, 1)
-		wsConn := newWebsocketConn(s, conn, newCid, r)
+		s.admitted(func() { wsConn = newWebsocketConn(s, conn, newCid, r) })
 		s.serveConn(wsConn, exitChan)
 
 	})
@@ -491,8 +496,8 @@ func (s *Server) Stop() {
 }
 
 // admit reserves a place for one more connection, it fails if there are already MaxConn of them.
-// The place has to be given back with admitted once the connection is in the connection manager, or was not made.
-// (为新连接预留位置，如果超过最大连接数则失败。新连接加入连接管理器或创建失败后，需要调用admitted归还)
+// The place has to be given back with admitted, which adds the connection to the connection manager (nil: it was not made).
+// (为新连接预留位置，如果超过最大连接数则失败。之后需要调用admitted归还，同时将新连接加入连接管理器，创建失败则传nil)
 func (s *Server) admit() bool {
 	s.admittingMu.Lock()
 	defer s.admittingMu.Unlock()
@@ -503,10 +508,13 @@ func (s *Server) admit() bool {
 	return true
 }
 
-func (s *Server) admitted() {
+func (s *Server) admitted(add func()) {
 	s.admittingMu.Lock()
+	defer s.admittingMu.Unlock()
 	s.admitting--
-	s.admittingMu.Unlock()
+	if add != nil {
+		add()
+	}
 }
 
 // serveConn starts a connection that has just been accepted
-- 
2.43.0


From 05b4d166456c9f1e3467560f6827430610a64d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:09 +0000
Subject: [PATCH 25/39] fix: the client's decoder comes before its interceptors

---
 znet/client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/znet/client.go b/znet/client.go
index a9d6150..79e845e 100644
--- a/znet/client.go
+++ b/znet/client.go
@@ -212,9 +212,9 @@ func (c *Client) Restart() {
 // (启动客户端，发送请求且建立连接)
 func (c *Client) Start() {
 
-	// Add the decoder to the interceptor list (将解码器添加到拦截器)
+	// Add the decoder to the head of the interceptors (将解码器添加到拦截器最前面)
 	if c.decoder != nil {
-		c.msgHandler.AddInterceptor(c.decoder)
+		c.msgHandler.SetHeadInterceptor(c.decoder)
 	}
 
 	c.Restart()
-- 
2.43.0


From 1311846061121307733b7bc30424f233313203ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:29 +0000
Subject: [PATCH 26/39] fix: a connection has its worker before its start hook
 runs, so completions of operations started there run on it

---
 znet/connection.go     | 7 ++++---
 znet/kcp_connection.go | 7 ++++---
 znet/ws_connection.go  | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index febfc15..19c348a 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -304,6 +304,10 @@ func (c *Connection) Start() {
 		}
 	}()
 
+	// Occupy the worker before the hook runs, the hook may already start asynchronous operations
+	// (占用workerid，钩子方法中可能已经发起异步操作)
+	c.workerID = useWorker(c)
+
 	// Execute the hook method for processing business logic when creating a connection
 	// (按照用户传递进来的创建连接时需要处理的业务，执行钩子方法)
 	c.callOnConnStart()
@@ -314,9 +318,6 @@ func (c *Connection) Start() {
 		c.updateActivity()
 	}
 
-	// 占用workerid
-	c.workerID = useWorker(c)
-
 	// Start the Goroutine for reading data from the client
 	// (开启用户从客户端读取数据流程的Goroutine)
 	go c.StartReader()
diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index 5a89174..7b10e86 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -289,6 +289,10 @@ func (c *KcpConnection) Start() {
 		}
 	}()
 
+	// Occupy the worker before the hook runs, the hook may already start asynchronous operations
+	// (占用workerid，钩子方法中可能已经发起异步操作)
+	c.workerID = useWorker(c)
+
 	// Execute the hook method for processing business logic when creating a connection
 	// (按照用户传递进来的创建连接时需要处理的业务，执行钩子方法)
 	c.callOnConnStart()
@@ -299,9 +303,6 @@ func (c *KcpConnection) Start() {
 		c.updateActivity()
 	}
 
-	// 占用workerid
-	c.workerID = useWorker(c)
-
 	// Start the Goroutine for reading data from the client
 	// (开启用户从客户端读取数据流程的Goroutine)
 	go c.StartReader()
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index 7386fa5..dfa8a32 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -283,6 +283,10 @@ func (c *WsConnection) StartReader() {
 // Start starts the connection and makes it work.
 // (Start 启动连接，让当前连接开始工作)
 func (c *WsConnection) Start() {
+	// Occupy the worker before the hook runs, the hook may already start asynchronous operations
+	// (占用workerid，钩子方法中可能已经发起异步操作)
+	c.workerID = useWorker(c)
+
 	// Execute the hook method according to the business needs of creating the connection passed in by the user.
 	// (按照用户传递进来的创建连接时需要处理的业务，执行钩子方法)
 	c.callOnConnStart()
@@ -294,9 +298,6 @@ func (c *WsConnection) Start() {
 		c.updateActivity()
 	}
 
-	// 占用workerid
-	c.workerID = useWorker(c)
-
 	// Start the Goroutine for users to read data from the client.
 	// (开启用户从客户端读取数据流程的Goroutine)
 	go c.StartReader()
-- 
2.43.0


From 2adb0284b4ba5079121b33b6ba299b7f257ec0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:31 +0000
Subject: [PATCH 27/39] fix: concurrent first buffered sends on a TCP
 connection wait for the queue instead of timing out

---
 znet/connection.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/znet/connection.go b/znet/connection.go
index 19c348a..f3a87e2 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -63,6 +63,10 @@ type Connection struct {
 	// (开始初始化写协程标志)
 	startWriterFlag int32
 
+	// Lock to protect the creation of msgBuffChan, concurrent first senders wait until it exists
+	// (保护msgBuffChan的创建，并发的首次发送者等待管道创建完成)
+	startWriterLock sync.Mutex
+
 	// Connection properties
 	// (连接属性)
 	property map[string]interface{}
@@ -409,6 +413,7 @@ func (c *Connection) SendBuf(data []byte) error {
 
 func (c *Connection) SendToQueue(data []byte) error {
 
+	c.startWriterLock.Lock()
 	if c.msgBuffChan == nil && c.setStartWriterFlag() {
 		c.msgBuffChan = make(chan []byte, zconf.GlobalObject.MaxMsgChanLen)
 		// Start a Goroutine to write data back to the client
@@ -417,6 +422,7 @@ func (c *Connection) SendToQueue(data []byte) error {
 		// 此方法只读取MsgBuffChan中的数据没调用SendBuffMsg可以分配内存和启用协程)
 		go c.StartWriter()
 	}
+	c.startWriterLock.Unlock()
 
 	idleTimeout := time.NewTimer(5 * time.Millisecond)
 	defer idleTimeout.Stop()
-- 
2.43.0


From dd8b2dc786cc543854caf9e95c5b0fcdb9dafa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:56 +0000
Subject: [PATCH 28/39] fix: a buffered send times out only if the queue is
 full, not if the sender was not scheduled in time

---
 znet/connection.go     |  7 +++++++
 znet/kcp_connection.go |  7 +++++++
 znet/ws_connection.go  | 14 ++++++++++++++
 3 files changed, 28 insertions(+)

diff --git a/znet/connection.go b/znet/connection.go
index f3a87e2..b6ab9dd 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -441,6 +441,13 @@ func (c *Connection) SendToQueue(data []byte) error {
 	case <-c.ctx.Done():
 		return errors.New("connection closed when send buff msg")
 	case <-idleTimeout.C:
+		// There may be room all the same, if this goroutine has not been scheduled for that long
+		// (协程长时间未被调度时，队列可能仍有空间)
+		select {
+		case c.msgBuffChan <- data:
+			return nil
+		default:
+		}
 		return errors.New("send buff msg timeout")
 	case c.msgBuffChan <- data:
 		return nil
diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index 7b10e86..b4a52a7 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -397,6 +397,13 @@ func (c *KcpConnection) SendToQueue(data []byte) error {
 	// Send timeout
 	select {
 	case <-idleTimeout.C:
+		// There may be room all the same, if this goroutine has not been scheduled for that long
+		// (协程长时间未被调度时，队列可能仍有空间)
+		select {
+		case c.msgBuffChan <- data:
+			return nil
+		default:
+		}
 		return errors.New("send buff msg timeout")
 	case c.msgBuffChan <- data:
 		return nil
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index dfa8a32..6e51a6a 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -391,6 +391,13 @@ func (c *WsConnection) SendToQueue(data []byte) error {
 
 	select {
 	case <-idleTimeout.C:
+		// There may be room all the same, if this goroutine has not been scheduled for that long
+		// (协程长时间未被调度时，队列可能仍有空间)
+		select {
+		case c.msgBuffChan <- data:
+			return nil
+		default:
+		}
 		return errors.New("send buff msg timeout")
 	case c.msgBuffChan <- data:
 		return nil
@@ -456,6 +463,13 @@ func (c *WsConnection) SendBuffMsg(msgID uint32, data []byte) error {
 	// Send timeout
 	select {
 	case <-idleTimeout.C:
+		// There may be room all the same, if this goroutine has not been scheduled for that long
+		// (协程长时间未被调度时，队列可能仍有空间)
+		select {
+		case c.msgBuffChan <- msg:
+			return nil
+		default:
+		}
 		return errors.New("send buff msg timeout")
 	case c.msgBuffChan <- msg:
 		return nil
-- 
2.43.0


From 8e3aad46b2860fbfa6e4e88b77ef9402d7730dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:43 +0000
Subject: [PATCH 29/39] fix: heartbeat checker may run before the connection
 counts as active

---
 znet/connection.go     | 2 +-
 znet/kcp_connection.go | 2 +-
 znet/ws_connection.go  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index b6ab9dd..1dba22f 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -318,8 +318,8 @@ func (c *Connection) Start() {
 
 	// Start heartbeating detection
 	if c.hc != nil {
-		c.hc.Start()
 		c.updateActivity()
+		c.hc.Start()
 	}
 
 	// Start the Goroutine for reading data from the client
diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index b4a52a7..be25b1a 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -299,8 +299,8 @@ func (c *KcpConnection) Start() {
 
 	// Start heartbeating detection
 	if c.hc != nil {
-		c.hc.Start()
 		c.updateActivity()
+		c.hc.Start()
 	}
 
 	// Start the Goroutine for reading data from the client
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index 6e51a6a..ed26600 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -294,8 +294,8 @@ func (c *WsConnection) Start() {
 	// Start the heartbeat check
 	// (启动心跳检测)
 	if c.hc != nil {
-		c.hc.Start()
 		c.updateActivity()
+		c.hc.Start()
 	}
 
 	// Start the Goroutine for users to read data from the client.
-- 
2.43.0


From ee86e1837504112eff333a167617bc80c1d9a596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:43 +0000
Subject: [PATCH 30/39] fix: client stopped or restarted while connecting loses
 track of its connections

---
 znet/client.go | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/znet/client.go b/znet/client.go
index 79e845e..ced5748 100644
--- a/znet/client.go
+++ b/znet/client.go
@@ -179,8 +179,11 @@ func (c *Client) Restart() {
 			connect = newClientConn(c, conn)
 		}
 
-		// Set connection to the client
-		c.setConn(connect)
+		// Set connection to the client, unless Stop or Restart ended this run while it was connecting
+		// (设置client的连接，除非建立连接的过程中已经调用了Stop或Restart)
+		if !c.installConn(connect, exitChan) {
+			connect.Stop()
+		}
 
 		zlog.Ins().InfoF("[START] Zinx Client LocalAddr: %s, RemoteAddr: %s\n", connect.LocalAddr(), connect.RemoteAddr())
 		// HeartBeat detection
@@ -190,14 +193,6 @@ func (c *Client) Restart() {
 			c.hc.BindConn(connect)
 		}
 
-		// Stop may have been called while connecting, before there was a connection to stop
-		// (建立连接的过程中可能已经调用了Stop)
-		select {
-		case <-exitChan:
-			connect.Stop()
-		default:
-		}
-
 		// Start connection
 		go connect.Start()
 
@@ -257,15 +252,29 @@ func (c *Client) StartHeartBeatWithOption(interval time.Duration, option *ziface
 	c.hc = checker
 }
 
-// swapExitChan installs the exit channel of a new run and ends the wait of the previous one
-// (设置新的exitChan，并且结束上一次的等待)
-func (c *Client) swapExitChan(exitChan chan struct{}) {
+// swapExitChan installs the exit channel of a new run, ends the wait of the previous one and returns the
+// connection of the runs so far
+// (设置新的exitChan，并且结束上一次的等待，返回此前的连接)
+func (c *Client) swapExitChan(exitChan chan struct{}) ziface.IConnection {
 	c.exitMux.Lock()
 	defer c.exitMux.Unlock()
 	if c.exitChan != nil {
 		close(c.exitChan)
 	}
 	c.exitChan = exitChan
+	return c.Conn()
+}
+
+// installConn makes connect the connection of the client, unless its run has ended
+// (设置client的连接，除非该次运行已经结束)
+func (c *Client) installConn(connect ziface.IConnection, exitChan chan struct{}) bool {
+	c.exitMux.Lock()
+	defer c.exitMux.Unlock()
+	if c.exitChan != exitChan {
+		return false
+	}
+	c.setConn(connect)
+	return true
 }
 
 // reportErr hands a connection error to ErrChan, unless the client is stopped
@@ -283,9 +292,7 @@ func (c *Client) reportErr(err error, exitChan chan struct{}) {
 }
 
 func (c *Client) Stop() {
-	c.swapExitChan(nil)
-
-	con := c.Conn()
+	con := c.swapExitChan(nil)
 	if con != nil {
 		zlog.Ins().InfoF("[STOP] Zinx Client LocalAddr: %s, RemoteAddr: %s\n", con.LocalAddr(), con.RemoteAddr())
 		con.Stop()
-- 
2.43.0


From 856d0f0422373e67979fe5d81adff48303fcfc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:43 +0000
Subject: [PATCH 31/39] fix: client connections share one heartbeat checker

---
 znet/client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/znet/client.go b/znet/client.go
index ced5748..91aa8d7 100644
--- a/znet/client.go
+++ b/znet/client.go
@@ -190,7 +190,8 @@ func (c *Client) Restart() {
 		if c.hc != nil {
 			// Bind connection and heartbeat detector after connection is successfully established
 			// (创建连接成功，绑定连接与心跳检测器)
-			c.hc.BindConn(connect)
+			// (every connection gets its own detector, the one of an earlier connection may still be running)
+			c.hc.Clone().BindConn(connect)
 		}
 
 		// Start connection
-- 
2.43.0


From 07214c95ad3cfc5fc1e41a1c58bc7fe401e682f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:45 +0000
Subject: [PATCH 32/39] fix: heartbeat reports a connection that has already
 been stopped while its stop hook runs

---
 znet/heartbeat.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/znet/heartbeat.go b/znet/heartbeat.go
index b625b60..6aacf0c 100644
--- a/znet/heartbeat.go
+++ b/znet/heartbeat.go
@@ -143,6 +143,12 @@ func (h *HeartbeatChecker) check() (err error) {
 		return nil
 	}
 
+	// The connection has ended, its stop hook may still be running
+	// (连接已经结束，其停止Hook可能仍在执行)
+	if h.conn.Context().Err() != nil {
+		return nil
+	}
+
 	if !h.conn.IsAlive() {
 		h.onRemoteNotAlive(h.conn)
 	} else {
-- 
2.43.0


From 0bdc8b9b77c9fa7a5f1627abfecce6cf466879b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:46 +0000
Subject: [PATCH 33/39] fix: a peer that does not read blocks its heartbeat
 check and is never found silent

---
 znet/heartbeat.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/znet/heartbeat.go b/znet/heartbeat.go
index 6aacf0c..4ae1eef 100644
--- a/znet/heartbeat.go
+++ b/znet/heartbeat.go
@@ -2,6 +2,7 @@ package znet
 
 import (
 	"fmt"
+	"sync/atomic"
 	"time"
 
 	"github.com/aceld/zinx/ziface"
@@ -22,6 +23,8 @@ type HeartbeatChecker struct {
 	conn         ziface.IConnection     // Bound connection(绑定的连接)
 
 	beatFunc ziface.HeartBeatFunc // // User-defined heartbeat sending function(用户自定义心跳发送函数)
+
+	beating int32 // 1 while a heartbeat is being sent(正在发送心跳时为1)
 }
 
 /*
@@ -137,29 +140,32 @@ func (h *HeartbeatChecker) SendHeartBeatMsg() error {
 	return nil
 }
 
-func (h *HeartbeatChecker) check() (err error) {
+func (h *HeartbeatChecker) check() {
 
 	if h.conn == nil {
-		return nil
+		return
 	}
 
 	// The connection has ended, its stop hook may still be running
 	// (连接已经结束，其停止Hook可能仍在执行)
 	if h.conn.Context().Err() != nil {
-		return nil
+		return
 	}
 
 	if !h.conn.IsAlive() {
 		h.onRemoteNotAlive(h.conn)
-	} else {
-		if h.beatFunc != nil {
-			err = h.beatFunc(h.conn)
-		} else {
-			err = h.SendHeartBeatMsg()
-		}
+	} else if atomic.CompareAndSwapInt32(&h.beating, 0, 1) {
+		// Sending may block on a peer that does not read: the detection goes on meanwhile
+		// (对端不读数据时发送可能阻塞，期间检测仍需继续)
+		go func() {
+			defer atomic.StoreInt32(&h.beating, 0)
+			if h.beatFunc != nil {
+				_ = h.beatFunc(h.conn)
+			} else {
+				_ = h.SendHeartBeatMsg()
+			}
+		}()
 	}
-
-	return err
 }
 
 func (h *HeartbeatChecker) BindConn(conn ziface.IConnection) {
-- 
2.43.0


From 416ddfbc52ca001d7c56475e4d8f44d8c13cbbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:56 +0000
Subject: [PATCH 34/39] fix: websocket activity is noticed only when a whole
 non-empty message has arrived

---
 znet/ws_connection.go | 49 +++++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index ed26600..3235b84 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/hex"
 	"errors"
+	"io"
 	"net"
 	"net/http"
 	"strconv"
@@ -221,6 +222,18 @@ func (c *WsConnection) StartReader() {
 		}
 	}()
 
+	// Control frames are handled inside the reading of messages, they count as activity as well
+	// (控制帧在读取消息的过程中处理，同样视为对端活跃)
+	ping, pong := c.conn.PingHandler(), c.conn.PongHandler()
+	c.conn.SetPingHandler(func(data string) error {
+		c.updateActivity()
+		return ping(data)
+	})
+	c.conn.SetPongHandler(func(data string) error {
+		c.updateActivity()
+		return pong(data)
+	})
+
 	// Create a pack-unpack object. (创建拆包解包的对象)
 	for {
 		select {
@@ -230,28 +243,23 @@ func (c *WsConnection) StartReader() {
 			// add by uuxia 2023-02-03
 			// Read data from the conn's IO to the memory buffer.
 			// (从conn的IO中读取数据到内存缓冲buffer中)
-			messageType, buffer, err := c.conn.ReadMessage()
+			_, reader, err := c.conn.NextReader()
 			if err != nil {
 				c.cancel()
 				return
 			}
-			if messageType == websocket.PingMessage {
-				c.updateActivity()
-				continue
-			}
-			n := len(buffer)
+			c.updateActivity()
+
+			// A large message arrives in pieces, each of them is a sign of life
+			// (较大的消息会分片到达，每个分片都说明对端存活)
+			buffer, err := io.ReadAll(activityReader{c, reader})
 			if err != nil {
-				zlog.Ins().ErrorF("read msg head [read datalen=%d], error = %s", n, err.Error())
+				c.cancel()
 				return
 			}
+			n := len(buffer)
 			zlog.Ins().DebugF("read buffer %s \n", hex.EncodeToString(buffer[0:n]))
 
-			// Update the Active status of heartbeat detection normally after reading data from the peer.
-			// (正常读取到对端数据，更新心跳检测Active状态)
-			if n > 0 && c.hc != nil {
-				c.updateActivity()
-			}
-
 			// Handle custom protocol fragmentation and packet sticking issues add by uuxia 2023-03-21
 			// (处理自定义协议断粘包问题)
 			if c.frameDecoder != nil {
@@ -610,6 +618,21 @@ func (c *WsConnection) updateActivity() {
 	c.lastActivityTime = time.Now()
 }
 
+// activityReader notes that data has arrived from the peer
+// (记录对端有数据到达)
+type activityReader struct {
+	c *WsConnection
+	r io.Reader
+}
+
+func (a activityReader) Read(p []byte) (int, error) {
+	n, err := a.r.Read(p)
+	if n > 0 {
+		a.c.updateActivity()
+	}
+	return n, err
+}
+
 func (c *WsConnection) SetHeartBeat(checker ziface.IHeartbeatChecker) {
 	c.hc = checker
 }
-- 
2.43.0


From 20c62e2a1b433b4cf7c32381417f4db08d19502d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 35/39] fix: rotated log files can overwrite or sort before
 earlier archives

---
 zutils/witer.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/zutils/witer.go b/zutils/witer.go
index b6c8132..64b8249 100644
--- a/zutils/witer.go
+++ b/zutils/witer.go
@@ -135,7 +135,7 @@ func (w *Writer) rotate() error {
 		w.file.Sync()
 		w.file.Close()
 		// 保存
-		fbak := w.fname + w.time2name(w.created)
+		fbak := w.fname + w.time2name(w.archiveTime())
 		fbakname := fbak + w.fsuffix
 		err := os.Rename(w.fpath, filepath.Join(w.fdir, fbakname))
 		if err == nil {
@@ -165,6 +165,24 @@ func (w *Writer) rotate() error {
 	return nil
 }
 
+// archiveTime returns the time that names the archive of the current file: its creation time, but later than every
+// existing archive, so that none is overwritten and their names sort in write order (the clock and the modification
+// times of files are coarse, the clock may be set back)
+// 归档文件名使用的时间：文件创建时间，但必须晚于所有已存在的归档，避免覆盖旧归档，并保证文件名顺序与写入顺序一致
+func (w *Writer) archiveTime() time.Time {
+	t := w.created
+	dirs, err := os.ReadDir(w.fdir)
+	if err != nil {
+		return t
+	}
+	for _, path := range dirs {
+		if old, err := w.name2time(path.Name()); err == nil && w.time2name(old) >= w.time2name(t) {
+			t = old.Add(time.Microsecond)
+		}
+	}
+	return t
+}
+
 // 删除旧日志
 func (w *Writer) delete() {
 	if w.maxAge <= 0 {
-- 
2.43.0


From 1641375264c188b6bfaf23f2feddd8d70db292fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:51 +0000
Subject: [PATCH 36/39] fix: log retention deletes files that are not archives
 of the log

---
 zutils/witer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/zutils/witer.go b/zutils/witer.go
index 64b8249..65f4982 100644
--- a/zutils/witer.go
+++ b/zutils/witer.go
@@ -4,6 +4,7 @@ import (
 	"archive/zip"
 	"bufio"
 	"bytes"
+	"errors"
 	"fmt"
 	"io"
 	"io/fs"
@@ -208,7 +209,12 @@ func (w *Writer) delete() {
 }
 
 func (w *Writer) name2time(name string) (time.Time, error) {
-	name = strings.TrimPrefix(name, filepath.Base(w.fname))
+	// Only archives of this log, not other files of the directory
+	// 只识别本日志的归档文件，不包括目录中的其他文件
+	if !strings.HasPrefix(name, w.fname) || !strings.HasSuffix(name, w.zipsuffix) {
+		return time.Time{}, errors.New("not an archive of this log")
+	}
+	name = strings.TrimPrefix(name, w.fname)
 	name = strings.TrimSuffix(name, w.zipsuffix)
 	// 改为微秒级别的文件后缀，避免1s内大量写入造成多次rotate，而覆盖丢失之前的日志文件
 	return time.Parse(".2006-01-02-150405.000000", name)
-- 
2.43.0


From 1539046c0019b04709a8bed8e6cc636e153e99cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:59 +0000
Subject: [PATCH 37/39] fix: log retention reads the local times in archive
 names as UTC

---
 zutils/witer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zutils/witer.go b/zutils/witer.go
index 65f4982..22d8a6e 100644
--- a/zutils/witer.go
+++ b/zutils/witer.go
@@ -217,7 +217,7 @@ func (w *Writer) name2time(name string) (time.Time, error) {
 	name = strings.TrimPrefix(name, w.fname)
 	name = strings.TrimSuffix(name, w.zipsuffix)
 	// 改为微秒级别的文件后缀，避免1s内大量写入造成多次rotate，而覆盖丢失之前的日志文件
-	return time.Parse(".2006-01-02-150405.000000", name)
+	return time.ParseInLocation(".2006-01-02-150405.000000", name, time.Local)
 }
 func (w *Writer) time2name(t time.Time) string {
 	return t.Format(".2006-01-02-150405.000000")
-- 
2.43.0


From 95043c76d1aebf58ab295c0fb46a229cb53690aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:06 +0000
Subject: [PATCH 38/39] fix: Fatal exits without writing out the buffered log
 lines

---
 zlog/logger_core.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zlog/logger_core.go b/zlog/logger_core.go
index 143e64c..d4bbd0b 100644
--- a/zlog/logger_core.go
+++ b/zlog/logger_core.go
@@ -304,6 +304,7 @@ func (log *ZinxLoggerCore) Fatalf(format string, v ...interface{}) {
 		return
 	}
 	_ = log.OutPut(LogFatal, fmt.Sprintf(format, v...))
+	log.closeFile()
 	os.Exit(1)
 }
 
@@ -312,6 +313,7 @@ func (log *ZinxLoggerCore) Fatal(v ...interface{}) {
 		return
 	}
 	_ = log.OutPut(LogFatal, fmt.Sprintln(v...))
+	log.closeFile()
 	os.Exit(1)
 }
 
-- 
2.43.0


From 84a963ae1bb12b357278c7376bbb9584112e386a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:13 +0000
Subject: [PATCH 39/39] fix: changing the log file while lines are written
 loses lines

---
 zlog/logger_core.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/zlog/logger_core.go b/zlog/logger_core.go
index d4bbd0b..e267b54 100644
--- a/zlog/logger_core.go
+++ b/zlog/logger_core.go
@@ -380,6 +380,8 @@ func (log *ZinxLoggerCore) SetPrefix(prefix string) {
 // SetLogFile sets the log file output
 // (设置日志文件输出)
 func (log *ZinxLoggerCore) SetLogFile(fileDir string, fileName string) {
+	log.mu.Lock()
+	defer log.mu.Unlock()
 	if log.fw != nil {
 		log.fw.Close()
 	}
@@ -388,37 +390,39 @@ func (log *ZinxLoggerCore) SetLogFile(fileDir string, fileName string) {
 
 // SetMaxAge 最大保留天数
 func (log *ZinxLoggerCore) SetMaxAge(ma int) {
+	log.mu.Lock()
+	defer log.mu.Unlock()
 	if log.fw == nil {
 		return
 	}
-	log.mu.Lock()
-	defer log.mu.Unlock()
 	log.fw.SetMaxAge(ma)
 }
 
 // SetMaxSize 单个日志最大容量 单位：字节
 func (log *ZinxLoggerCore) SetMaxSize(ms int64) {
+	log.mu.Lock()
+	defer log.mu.Unlock()
 	if log.fw == nil {
 		return
 	}
-	log.mu.Lock()
-	defer log.mu.Unlock()
 	log.fw.SetMaxSize(ms)
 }
 
 // SetCons 同时输出控制台
 func (log *ZinxLoggerCore) SetCons(b bool) {
+	log.mu.Lock()
+	defer log.mu.Unlock()
 	if log.fw == nil {
 		return
 	}
-	log.mu.Lock()
-	defer log.mu.Unlock()
 	log.fw.SetCons(b)
 }
 
 // Close the file associated with the log
 // (关闭日志绑定的文件)
 func (log *ZinxLoggerCore) closeFile() {
+	log.mu.Lock()
+	defer log.mu.Unlock()
 	if log.fw != nil {
 		log.fw.Close()
 	}
-- 
2.43.0

