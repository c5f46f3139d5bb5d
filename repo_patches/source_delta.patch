From bf2ead21b8c070888e5c15f9de7ac8b90f72ac40 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:44:32 +0000
Subject: [PATCH 01/28] fix: return an error instead of panicking on malformed
 or oversized length fields

---
 packx.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/packx.go b/packx.go
index a94f46c..b3eed6b 100644
--- a/packx.go
+++ b/packx.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"github.com/fwhezfwhez/errorx"
 	"io"
+	"math"
 	"reflect"
 )
 
@@ -177,6 +178,9 @@ func LengthOf(stream []byte) (int32, error) {
 		return 0, errors.New(fmt.Sprintf("stream lenth should be bigger than 4"))
 	}
 	length := binary.BigEndian.Uint32(stream[0:4])
+	if length > math.MaxInt32 {
+		return 0, errors.New(fmt.Sprintf("length should not be bigger than %d but got %d", math.MaxInt32, length))
+	}
 	return int32(length), nil
 }
 
@@ -191,6 +195,9 @@ func HeaderLengthOf(stream []byte) (int32, error) {
 		return 0, errors.New(fmt.Sprintf("stream lenth should be bigger than 12"))
 	}
 	headerLength := binary.BigEndian.Uint32(stream[8:12])
+	if headerLength > math.MaxInt32 {
+		return 0, errors.New(fmt.Sprintf("header length should not be bigger than %d but got %d", math.MaxInt32, headerLength))
+	}
 	return int32(headerLength), nil
 }
 
@@ -205,6 +212,9 @@ func BodyLengthOf(stream []byte) (int32, error) {
 		return 0, errors.New(fmt.Sprintf("stream lenth should be bigger than %d", 16))
 	}
 	bodyLength := binary.BigEndian.Uint32(stream[12:16])
+	if bodyLength > math.MaxInt32 {
+		return 0, errors.New(fmt.Sprintf("body length should not be bigger than %d but got %d", math.MaxInt32, bodyLength))
+	}
 	return int32(bodyLength), nil
 }
 
@@ -222,7 +232,7 @@ func HeaderBytesOf(stream []byte) ([]byte, error) {
 	if len(stream) < 16+int(headerLen) {
 		return nil, errors.New(fmt.Sprintf("stream lenth should be bigger than %d", 16+int(headerLen)))
 	}
-	header := stream[16 : 16+headerLen]
+	header := stream[16 : 16+int(headerLen)]
 	return header, nil
 }
 
@@ -263,7 +273,7 @@ func BodyBytesOf(stream []byte) ([]byte, error) {
 	if len(stream) < 16+int(headerLen)+int(bodyLen) {
 		return nil, errors.New(fmt.Sprintf("stream lenth should be bigger than %d", 16+int(headerLen)+int(bodyLen)))
 	}
-	body := stream[16+headerLen : 16+headerLen+bodyLen]
+	body := stream[16+int(headerLen) : 16+int(headerLen)+int(bodyLen)]
 	return body, nil
 }
 
@@ -360,19 +370,28 @@ func UnpackWithMarshaller(stream []byte, dest interface{}, marshaller Marshaller
 		marshaller = JsonMarshaller{}
 	}
 	var e error
+	if len(stream) < 16 {
+		return Message{}, errors.New(fmt.Sprintf("stream lenth should be bigger than %d", 16))
+	}
 	// 包长
 	length := binary.BigEndian.Uint32(stream[0:4])
-	stream = stream[0 : length+4]
+	if length < 12 || len(stream) < 4+int(length) {
+		return Message{}, errors.New(fmt.Sprintf("bad message length %d, stream length is %d", length, len(stream)))
+	}
+	stream = stream[0 : int(length)+4]
 	// messageID
 	messageID := binary.BigEndian.Uint32(stream[4:8])
 	// header长度
 	headerLength := binary.BigEndian.Uint32(stream[8:12])
 	// body长度
 	bodyLength := binary.BigEndian.Uint32(stream[12:16])
+	if len(stream) < 16+int(headerLength)+int(bodyLength) {
+		return Message{}, errors.New(fmt.Sprintf("stream lenth should be bigger than %d", 16+int(headerLength)+int(bodyLength)))
+	}
 	// header
 	var header map[string]interface{}
 	if headerLength != 0 {
-		e = json.Unmarshal(stream[16:(16 + headerLength)], &header)
+		e = json.Unmarshal(stream[16:(16 + int(headerLength))], &header)
 		if e != nil {
 			return Message{}, e
 		}
@@ -380,7 +399,7 @@ func UnpackWithMarshaller(stream []byte, dest interface{}, marshaller Marshaller
 
 	// body
 	if bodyLength != 0 {
-		e = marshaller.Unmarshal(stream[16+headerLength:(16 + headerLength + bodyLength)], dest)
+		e = marshaller.Unmarshal(stream[16+int(headerLength):(16 + int(headerLength) + int(bodyLength))], dest)
 		if e != nil {
 			return Message{}, e
 		}
-- 
2.43.0


From 5ed1e6a2facd80c21ae27b05c78188ee6822fb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:10 +0000
Subject: [PATCH 02/28] fix: do not panic on a null pipe header

---
 tcpx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcpx.go b/tcpx.go
index aa3e907..a396082 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1245,7 +1245,7 @@ func isPipe(block []byte) (bool, int, error) {
 
 	pipeArgs, ok := pipeArgsI.(string)
 	if !ok {
-		return false, 0, errorx.NewFromStringf("bad pipe args, should format as a  string, bug got type '%s'", reflect.TypeOf(pipeArgsI).Name())
+		return false, 0, errorx.NewFromStringf("bad pipe args, should format as a  string, bug got type '%T'", pipeArgsI)
 	}
 
 	arr := strings.Split(pipeArgs, ";")
-- 
2.43.0


From 1da22ce170ff5124c4791cba778d849ee5f3a9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:10 +0000
Subject: [PATCH 03/28] fix: a panic in a message handler must not kill the
 process

---
 tcpx.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tcpx.go b/tcpx.go
index a396082..1772540 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -851,6 +851,12 @@ func (tcpx *TcpX) ListenAndServeGRPC(network, addr string) error {
 //
 // However, this method is not open export for outer uset. When rebuild new protocol server, this will be considerately used.
 func handleMiddleware(ctx *Context, tcpx *TcpX) {
+	defer func() {
+		if e := recover(); e != nil {
+			Logger.Println(fmt.Sprintf("recover from panic %v", e))
+			Logger.Println(string(debug.Stack()))
+		}
+	}()
 	if tcpx.OnMessage != nil {
 		handleOnMessage(ctx, tcpx)
 		return
-- 
2.43.0


From 55a8cb1164a58d4350c604110153f58f531336fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:10 +0000
Subject: [PATCH 04/28] fix: a truncated or oversized pipe neither crashes the
 server nor desynchronizes the stream

---
 tcpx.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 1772540..8702199 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -582,8 +582,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 
 				if isPipe {
 					// fmt.Println("recv pipe", isPipe, restN)
-					ctxs := make([]*Context, restN+1)
-					ctxs[0] = tmpContext
+					ctxs := []*Context{tmpContext}
 					for i := 1; i < restN+1; i++ {
 						ctx.Stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
 						if e != nil {
@@ -594,10 +593,13 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 							break
 						}
 						tmpContext := copyContext(*ctx)
-						ctxs[i] = tmpContext
+						ctxs = append(ctxs, tmpContext)
 					}
 
 					go handlePipe(ctxs, tcpx)
+					if e != nil {
+						break
+					}
 				} else {
 					go handleMiddleware(tmpContext, tcpx)
 				}
-- 
2.43.0


From cedf36071cb6cec18864f9f95fcfcf679fcc127b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:10 +0000
Subject: [PATCH 05/28] fix: give each request its own request-scoped context

---
 context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 3c656df..d5e045e 100644
--- a/context.go
+++ b/context.go
@@ -89,7 +89,7 @@ func copyContext(ctx Context) *Context {
 		Addr:       ctx.Addr,
 		//UDPSession:           ctx.UDPSession,
 		PerConnectionContext: ctx.PerConnectionContext,
-		PerRequestContext:    ctx.PerConnectionContext,
+		PerRequestContext:    &sync.Map{},
 		Packx:                ctx.Packx,
 		Stream:               ctx.Stream,
 		offset:               ctx.offset,
-- 
2.43.0


From 6255fbadac5822c07280ea1645d598ebadc5237c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:10 +0000
Subject: [PATCH 06/28] fix: Any registers each url-pattern handler once

---
 tcpx.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 8702199..54e33fd 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -347,9 +347,6 @@ func (tcpx *TcpX) Any(urlPattern string, handlers ...func(ctx *Context)) {
 	if len(handlers) <= 0 {
 		panic(errorx.NewFromStringf("handlers should more than 1 but got %d", len(handlers)))
 	}
-	if len(handlers) > 1 {
-		tcpx.Mux.urlMux.AddURLPatternHandler(urlPattern, handlers...)
-	}
 
 	//f := handlers[len(handlers)-1]
 	//if tcpx.Mux == nil {
-- 
2.43.0


From 914f2b8d218dc5299bce724dce958e1c5664b19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:10 +0000
Subject: [PATCH 07/28] fix: re-using an anchor middleware takes effect

---
 tcpx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcpx.go b/tcpx.go
index 54e33fd..dc56c33 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -281,7 +281,7 @@ func (tcpx *TcpX) Use(mids ...interface{}) {
 		middlewareAnchor, ok := tcpx.Mux.MiddlewareAnchorMap[middlewareKey]
 		if ok {
 			middlewareAnchor.callUse(tcpx.Mux.CurrentAnchorIndex())
-			tcpx.Mux.MiddlewareAnchorMap[middlewareKey] = middlewareAnchor
+			tcpx.Mux.ReplaceMiddlewareAnchor(middlewareAnchor)
 		} else {
 			var middlewareAnchor MiddlewareAnchor
 			middlewareAnchor.Middleware = middleware
-- 
2.43.0


From 744b6b7ec97b8deb108ca4d6e6a40835f439cdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:10 +0000
Subject: [PATCH 08/28] fix: messageID 0 must not bypass middleware when
 heartbeat or auth is off

---
 tcpx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index dc56c33..9bb3517 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -904,12 +904,12 @@ func handleMessageIDHandlers(ctx *Context, tcpx *TcpX) {
 		Logger.Println(fmt.Sprintf("messageID %d handler not found", messageID))
 		return
 	}
-	if messageID == tcpx.HeartBeatMessageID && !tcpx.ThroughMiddleware {
+	if tcpx.HeartBeatOn && messageID == tcpx.HeartBeatMessageID && !tcpx.ThroughMiddleware {
 		handler(ctx)
 		return
 	}
 
-	if messageID == tcpx.AuthMessageID && !tcpx.AuthThroughMiddleware {
+	if tcpx.auth && messageID == tcpx.AuthMessageID && !tcpx.AuthThroughMiddleware {
 		handler(ctx)
 		return
 	}
-- 
2.43.0


From 281c2d7ecad1c27cad833e5158cdc9b8715b4088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:10 +0000
Subject: [PATCH 09/28] fix: do not lose a block whose last bytes arrive
 together with EOF

---
 packx.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packx.go b/packx.go
index b3eed6b..d341abe 100644
--- a/packx.go
+++ b/packx.go
@@ -514,16 +514,16 @@ func readUntil(reader io.Reader, buf []byte) error {
 	var offset int
 	for {
 		n, e := reader.Read(buf[offset:])
+		offset += n
+		if offset >= len(buf) {
+			break
+		}
 		if e != nil {
 			if e == io.EOF {
 				return e
 			}
 			return errorx.Wrap(e)
 		}
-		offset += n
-		if offset >= len(buf) {
-			break
-		}
 	}
 	return nil
 }
-- 
2.43.0


From a84f2ed3bbbd98a56f5051e373229dcf92deccd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:10 +0000
Subject: [PATCH 10/28] fix: a message without header bytes has an empty header

---
 packx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packx.go b/packx.go
index d341abe..9f2dbb5 100644
--- a/packx.go
+++ b/packx.go
@@ -248,6 +248,9 @@ func HeaderOf(stream []byte) (map[string]interface{}, error) {
 	if e != nil {
 		return nil, errorx.Wrap(e)
 	}
+	if len(headerBytes) == 0 {
+		return header, nil
+	}
 	e = json.Unmarshal(headerBytes, &header)
 	if e != nil {
 		return nil, errorx.Wrap(e)
-- 
2.43.0


From fcf8050c37d426d9c8962610cfe9cea8195cb04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:02 +0000
Subject: [PATCH 11/28] fix: an unset read or write deadline must not cancel
 the configured deadline

---
 tcpx.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 9bb3517..4def7dc 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -444,8 +444,12 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 
 		// SetDeadline
 		conn.SetDeadline(tcpx.deadLine)
-		conn.SetReadDeadline(tcpx.readDeadLine)
-		conn.SetWriteDeadline(tcpx.writeDeadLine)
+		if !tcpx.readDeadLine.IsZero() {
+			conn.SetReadDeadline(tcpx.readDeadLine)
+		}
+		if !tcpx.writeDeadLine.IsZero() {
+			conn.SetWriteDeadline(tcpx.writeDeadLine)
+		}
 
 		ctx := NewContext(conn, tcpx.Packx.Marshaller)
 
@@ -522,8 +526,12 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 
 		// SetDeadline
 		conn.SetDeadline(tcpx.deadLine)
-		conn.SetReadDeadline(tcpx.readDeadLine)
-		conn.SetWriteDeadline(tcpx.writeDeadLine)
+		if !tcpx.readDeadLine.IsZero() {
+			conn.SetReadDeadline(tcpx.readDeadLine)
+		}
+		if !tcpx.writeDeadLine.IsZero() {
+			conn.SetWriteDeadline(tcpx.writeDeadLine)
+		}
 
 		ctx := NewContext(conn, tcpx.Packx.Marshaller)
 
@@ -645,8 +653,12 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 	tcpx.openState()
 
 	conn.SetDeadline(tcpx.deadLine)
-	conn.SetReadDeadline(tcpx.readDeadLine)
-	conn.SetWriteDeadline(tcpx.writeDeadLine)
+	if !tcpx.readDeadLine.IsZero() {
+		conn.SetReadDeadline(tcpx.readDeadLine)
+	}
+	if !tcpx.writeDeadLine.IsZero() {
+		conn.SetWriteDeadline(tcpx.writeDeadLine)
+	}
 
 	// listen to incoming udp packets
 	go func(conn net.PacketConn, tcpx *TcpX) {
-- 
2.43.0


From 124ca372b14661e428a82d393181c25b4a56dce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:06 +0000
Subject: [PATCH 12/28] fix: all users of a connection share one heartbeat
 channel

---
 context.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/context.go b/context.go
index d5e045e..32e582a 100644
--- a/context.go
+++ b/context.go
@@ -621,8 +621,12 @@ func (ctx *Context) RawStream() ([]byte, error) {
 func (ctx *Context) HeartBeatChan() chan int {
 	channel, ok := ctx.GetCtxPerConn("tcpx-heart-beat-channel")
 	if !ok {
-		channel = make(chan int, 1)
-		ctx.setCtxPerConn("tcpx-heart-beat-channel", channel)
+		scope := ctx.PerConnectionContext
+		if ctx.ConnectionProtocolType() == "udp" {
+			scope = ctx.PerRequestContext
+		}
+		// a concurrent caller may have stored its channel meanwhile, all must share the same one
+		channel, _ = scope.LoadOrStore("tcpx-heart-beat-channel", make(chan int, 1))
 		return channel.(chan int)
 	} else {
 		tmp, ok := channel.(chan int)
-- 
2.43.0


From dcc3def5704320cafa7e46e147438169aec90f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:11 +0000
Subject: [PATCH 13/28] fix: heartbeat and auth signals never block a handler
 forever

---
 context.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/context.go b/context.go
index 32e582a..83108de 100644
--- a/context.go
+++ b/context.go
@@ -641,7 +641,11 @@ func (ctx *Context) HeartBeatChan() chan int {
 
 // RecvHeartBeat
 func (ctx *Context) RecvHeartBeat() {
-	ctx.HeartBeatChan() <- 1
+	select {
+	case ctx.HeartBeatChan() <- 1:
+	default:
+		// a heartbeat is already pending
+	}
 }
 
 // Send to another conn index via username.
@@ -675,11 +679,19 @@ func (ctx *Context) AuthChan() <-chan int {
 
 func (ctx *Context) RecvAuthPass() {
 	const PASS = 1
-	ctx.recvAuth <- PASS
+	select {
+	case ctx.recvAuth <- PASS:
+	default:
+		// an auth result is already pending
+	}
 }
 func (ctx *Context) RecvAuthDeny() {
 	const DENY = -1
-	ctx.recvAuth <- DENY
+	select {
+	case ctx.recvAuth <- DENY:
+	default:
+		// an auth result is already pending
+	}
 }
 
 // Decode ctx.Stream.Header["Router-Type"], expected 'MESSAGE_ID', 'URL_PATTERN'
-- 
2.43.0


From fb4a43db6ff6877dd0d9aa5a61a9fce4ea1d3789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:15 +0000
Subject: [PATCH 14/28] fix: going offline does not evict another connection
 using the same username

---
 client-pool.go | 9 +++++++++
 context.go     | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/client-pool.go b/client-pool.go
index 9fd3efd..f4786ac 100644
--- a/client-pool.go
+++ b/client-pool.go
@@ -48,6 +48,15 @@ func (cp *ClientPool) Offline(username string) {
 	}
 }
 
+// offline removes username only when it still refers to ctx's connection
+func (cp *ClientPool) offline(username string, ctx *Context) {
+	cp.m.Lock()
+	defer cp.m.Unlock()
+	if c := cp.Clients[username]; c != nil && c.userState == ctx.userState {
+		delete(cp.Clients, username)
+	}
+}
+
 // Whether username found in pool.
 // Can't tell whether conn is close or not
 func (cp *ClientPool) isOnline(username string) bool {
diff --git a/context.go b/context.go
index 83108de..fb50e81 100644
--- a/context.go
+++ b/context.go
@@ -168,7 +168,7 @@ func (ctx *Context) Offline() error {
 	if !ok {
 		return errors.New("offline username  empty, did you call c.Online(username string) yet")
 	}
-	ctx.poolRef.Offline(username)
+	ctx.poolRef.offline(username, ctx)
 	return nil
 }
 
-- 
2.43.0


From 5bfa44bd0f0ea2507f70ea00464c3a7634d07e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:20 +0000
Subject: [PATCH 15/28] fix: no closed or renamed connection stays in the pool

---
 context.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/context.go b/context.go
index fb50e81..3bd0474 100644
--- a/context.go
+++ b/context.go
@@ -132,11 +132,19 @@ func (ctx *Context) Online(username string) error {
 	if username == "" {
 		return errors.New("can't use empty username to online")
 	}
+	if former, ok := ctx.Username(); ok && former != username && ctx.poolRef != nil {
+		ctx.poolRef.offline(former, ctx)
+	}
 	ctx.SetUsername(username)
 	if ctx.poolRef == nil {
 		return errors.New("ctx.poolRef is nil, did you call 'tcpX.WithBuiltInPool(true)' or 'tcpX.SetPool(pool *tcpx.ClientPool)' yet")
 	}
 	ctx.poolRef.Online(username, ctx)
+	if ctx.IsOffline() {
+		// connection was closed meanwhile
+		ctx.poolRef.offline(username, ctx)
+		return errors.New("connection is already closed")
+	}
 	return nil
 }
 
@@ -281,13 +289,13 @@ func (ctx *Context) CloseConn() error {
 				close(ctx.recvEnd)
 			})
 		}
+		ctx.L.Lock()
+		*(ctx.userState) = CONTEXT_OFFLINE
+		ctx.L.Unlock()
+
 		if ctx.poolRef != nil {
 			ctx.Offline()
 		}
-
-		ctx.L.Lock()
-		defer ctx.L.Unlock()
-		*(ctx.userState) = CONTEXT_OFFLINE
 	}()
 
 	switch ctx.ConnectionProtocolType() {
-- 
2.43.0


From c19cac9d8afcccb2cebf99f09d02ed630156785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:24 +0000
Subject: [PATCH 16/28] fix: a raw server honours the tls config

---
 tcpx.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tcpx.go b/tcpx.go
index 4def7dc..3e60161 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -423,7 +423,11 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 			return
 		}
 	}()
-	listener, err := net.Listen(network, addr)
+	listener, err := newListener(listenerConfig{
+		Network:   network,
+		Addr:      addr,
+		TLSConfig: tcpx.TLSConfig,
+	})
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From c378340099bdcfea29f6b298d263fb79f0171fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:29 +0000
Subject: [PATCH 17/28] fix: udp requests do not close the shared server socket
 on heartbeat loss or leak goroutines

---
 tcpx.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 3e60161..89335eb 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -696,9 +696,6 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 			}
 			ctx := NewUDPContext(conn, addr, tcpx.Packx.Marshaller)
 
-			go broadcastSignalWatch(ctx, tcpx)
-
-			go heartBeatWatch(ctx, tcpx)
 			if tcpx.builtInPool {
 				ctx.poolRef = tcpx.pool
 			}
-- 
2.43.0


From c0ce163364dece9ab99ae2fb0c8e75e54163a280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:33 +0000
Subject: [PATCH 18/28] fix: a udp server returns when stopped and never spins
 on a closed socket

---
 tcpx.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 89335eb..177ae70 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -648,7 +648,7 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 
 	conn, err := net.ListenPacket(network, addr)
 	if err != nil {
-		panic(err)
+		return err
 	}
 	defer conn.Close()
 
@@ -665,7 +665,9 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 	}
 
 	// listen to incoming udp packets
+	done := make(chan struct{})
 	go func(conn net.PacketConn, tcpx *TcpX) {
+		defer close(done)
 		defer func() {
 			if e := recover(); e != nil {
 				Logger.Println(fmt.Sprintf("recover from panic %v", e))
@@ -683,7 +685,7 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 
 			// global
 			if e != nil {
-				if e == io.EOF {
+				if e == io.EOF || errors.Is(e, net.ErrClosed) {
 					break
 				}
 				Logger.Println(e.Error())
@@ -718,9 +720,8 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 		}
 	}(conn, tcpx)
 
-	select {}
-
-	//return nil
+	<-done
+	return nil
 }
 
 func ReadAllUDP(conn net.PacketConn, maxBufferSize ...int) ([]byte, net.Addr, error) {
-- 
2.43.0


From 53a8062a0c7daef29e2a4fe88f2dc574448990c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:37 +0000
Subject: [PATCH 19/28] fix: a panic in OnConnect must not stop the listener

---
 tcpx.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 177ae70..c4d3c5c 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -461,8 +461,9 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 			ctx.poolRef = tcpx.pool
 		}
 
-		if tcpx.OnConnect != nil {
-			tcpx.OnConnect(ctx)
+		if !tcpx.handleOnConnect(ctx) {
+			ctx.CloseConn()
+			continue
 		}
 
 		go broadcastSignalWatch(ctx, tcpx)
@@ -543,8 +544,9 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 			ctx.poolRef = tcpx.pool
 		}
 
-		if tcpx.OnConnect != nil {
-			tcpx.OnConnect(ctx)
+		if !tcpx.handleOnConnect(ctx) {
+			ctx.CloseConn()
+			continue
 		}
 
 		if tcpx.withSignals {
@@ -619,6 +621,21 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 	return nil
 }
 
+// run OnConnect, returns false when it panics
+func (tcpx *TcpX) handleOnConnect(ctx *Context) (ok bool) {
+	defer func() {
+		if e := recover(); e != nil {
+			Logger.Println(fmt.Sprintf("recover from panic %v", e))
+			Logger.Println(string(debug.Stack()))
+			ok = false
+		}
+	}()
+	if tcpx.OnConnect != nil {
+		tcpx.OnConnect(ctx)
+	}
+	return true
+}
+
 // set srv state running
 func (tcpx *TcpX) openState() {
 	tcpx.pLock.Lock()
-- 
2.43.0


From d8a060c4ec06f4b1bf1a8d2ad704dc8cd6097b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:42 +0000
Subject: [PATCH 20/28] fix: a panic in OnHeartbeatLoss must not keep the lost
 connection open

---
 tcpx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcpx.go b/tcpx.go
index c4d3c5c..b71153e 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1085,12 +1085,12 @@ func heartBeatWatch(ctx *Context, tcpx *TcpX) {
 					times++
 					if times == 3 {
 						// heartbeat loss handler
+						defer ctx.CloseConn()
 
 						if tcpx.OnHeartbeatLoss != nil {
 							tcpx.OnHeartbeatLoss(copyContext(*ctx))
 						}
 
-						_ = ctx.CloseConn()
 						return
 					}
 					continue L
-- 
2.43.0


From 49a44b6070d352eb484f89518360f749e4fe127c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:46 +0000
Subject: [PATCH 21/28] fix: a panicking exit job must not keep the process
 alive nor skip the other jobs

---
 tcpx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index b71153e..959c295 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1159,12 +1159,12 @@ func (tcpx *TcpX) BeforeExit(f ...func()) {
 				fmt.Println(fmt.Sprintf("panic from %v", e))
 			}
 		}()
-		ch := make(chan os.Signal)
+		ch := make(chan os.Signal, 1)
 		signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM, syscall.SIGKILL, syscall.SIGQUIT)
 		fmt.Println("receive signal:", <-ch)
 		fmt.Println("prepare to stop server")
 		for _, handler := range f {
-			handler()
+			Defer(handler)
 		}
 		os.Exit(0)
 	}()
-- 
2.43.0


From 2b9d407d7dc5fbf6d4bf0e27cfe22b427b682ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:51 +0000
Subject: [PATCH 22/28] fix: Stop closes listeners of every network

---
 tcpx.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 959c295..da9d7bd 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1185,12 +1185,9 @@ func (tcpx *TcpX) Stop(closeAllConnection bool) error {
 	func() {
 		tcpx.pLock.Lock()
 		defer tcpx.pLock.Unlock()
-		for i, v := range tcpx.properties {
-			switch v.Network {
-			case "kcp", "tcp":
-				tcpx.properties[i].Listener.(net.Listener).Close()
-			case "udp":
-				tcpx.properties[i].Listener.(net.PacketConn).Close()
+		for i, _ := range tcpx.properties {
+			if listener, ok := tcpx.properties[i].Listener.(io.Closer); ok {
+				listener.Close()
 			}
 		}
 	}()
-- 
2.43.0


From 477e858abe0a9a2666ce4e950cf4905393382150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:55 +0000
Subject: [PATCH 23/28] fix: only one of several concurrent Stop calls stops
 the server

---
 tcpx.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index da9d7bd..21175de 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -645,10 +645,15 @@ func (tcpx *TcpX) openState() {
 
 // set srv state stopped
 // tcp, udp, kcp will stop for circle and close listener/conn
-func (tcpx *TcpX) stopState() {
+// returns false when srv is already stopped
+func (tcpx *TcpX) stopState() bool {
 	tcpx.pLock.Lock()
 	defer tcpx.pLock.Unlock()
+	if tcpx.state == STATE_STOP {
+		return false
+	}
 	tcpx.state = STATE_STOP
+	return true
 }
 func (tcpx *TcpX) State() int {
 	tcpx.pLock.RLock()
@@ -1175,12 +1180,10 @@ func (tcpx *TcpX) BeforeExit(f ...func()) {
 // listener, but also kill all connections(stops their net.Conn, stop all sub-routine, clear the pool)
 func (tcpx *TcpX) Stop(closeAllConnection bool) error {
 	fmt.Println("graceful stop")
-	if tcpx.State() == STATE_STOP {
+	if !tcpx.stopState() {
 		return errors.New("already stopped")
 	}
 
-	tcpx.stopState()
-
 	// close all listener
 	func() {
 		tcpx.pLock.Lock()
-- 
2.43.0


From 69bcef44e3b39b66b94c688230fe5c8fa159ad75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:55 +0000
Subject: [PATCH 24/28] fix: Stop(false) does not close existing connections in
 heartbeat mode

---
 tcpx.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 21175de..f6d6d36 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1078,10 +1078,6 @@ func heartBeatWatch(ctx *Context, tcpx *TcpX) {
 			var times int
 		L:
 			for {
-				if tcpx.State() == STATE_STOP {
-					ctx.CloseConn()
-					break L
-				}
 				select {
 				case <-ctx.HeartBeatChan():
 					times = 0
-- 
2.43.0


From 403220366f46b2c228027bb2e31ed042161d802e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:59 +0000
Subject: [PATCH 25/28] fix: Stop(true) closes all connections, without
 deadlock, whether or not signals are on, and can be repeated after a restart

---
 client-pool.go | 11 +++++++
 tcpx.go        | 79 ++++++++++++++++++++++++--------------------------
 2 files changed, 49 insertions(+), 41 deletions(-)

diff --git a/client-pool.go b/client-pool.go
index f4786ac..a82f878 100644
--- a/client-pool.go
+++ b/client-pool.go
@@ -57,6 +57,17 @@ func (cp *ClientPool) offline(username string, ctx *Context) {
 	}
 }
 
+// clients returns a copy of the pool content, it can be used without holding the lock
+func (cp *ClientPool) clients() map[string]*Context {
+	cp.m.RLock()
+	defer cp.m.RUnlock()
+	rs := make(map[string]*Context, len(cp.Clients))
+	for k, v := range cp.Clients {
+		rs[k] = v
+	}
+	return rs
+}
+
 // Whether username found in pool.
 // Can't tell whether conn is close or not
 func (cp *ClientPool) isOnline(username string) bool {
diff --git a/tcpx.go b/tcpx.go
index f6d6d36..b138c58 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -112,6 +112,8 @@ func NewTcpX(marshaller Marshaller) *TcpX {
 		properties: make([]*PropertyCache, 0, 10),
 		pLock:      &sync.RWMutex{},
 		state:      2,
+
+		closeAllSignal: make(chan int, 1),
 	}
 }
 
@@ -172,7 +174,6 @@ func (tcpx *TcpX) SetWriteDeadline(t time.Time) {
 // closeAllSignal - close all connection and remove them from the built-in pool
 func (tcpx *TcpX) WithBroadCastSignal(yes bool) *TcpX {
 	tcpx.withSignals = yes
-	tcpx.closeAllSignal = make(chan int, 1)
 	return tcpx
 }
 
@@ -434,7 +435,7 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 	tcpx.fillProperty(network, addr, listener)
 
 	defer listener.Close()
-	tcpx.openState()
+	closeAll := tcpx.openState()
 	for {
 
 		if tcpx.State() == STATE_STOP {
@@ -466,8 +467,8 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 			continue
 		}
 
-		go broadcastSignalWatch(ctx, tcpx)
-		go heartBeatWatch(ctx, tcpx)
+		go broadcastSignalWatch(ctx, closeAll)
+		go heartBeatWatch(ctx, tcpx, closeAll)
 
 		go func(ctx *Context, tcpx *TcpX) {
 			defer func() {
@@ -517,7 +518,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 	tcpx.fillProperty(network, addr, listener)
 
 	defer listener.Close()
-	tcpx.openState()
+	closeAll := tcpx.openState()
 	for {
 
 		if tcpx.State() == STATE_STOP {
@@ -549,15 +550,13 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 			continue
 		}
 
-		if tcpx.withSignals {
-			go broadcastSignalWatch(ctx, tcpx)
-		}
+		go broadcastSignalWatch(ctx, closeAll)
 
 		if tcpx.HeartBeatOn {
-			go heartBeatWatch(ctx, tcpx)
+			go heartBeatWatch(ctx, tcpx, closeAll)
 		}
 		if tcpx.auth {
-			go authWatch(ctx, tcpx)
+			go authWatch(ctx, tcpx, closeAll)
 		}
 
 		go func(ctx *Context, tcpx *TcpX) {
@@ -637,10 +636,12 @@ func (tcpx *TcpX) handleOnConnect(ctx *Context) (ok bool) {
 }
 
 // set srv state running
-func (tcpx *TcpX) openState() {
+// returns the signal which will be closed when the connections accepted from now on should be closed
+func (tcpx *TcpX) openState() chan int {
 	tcpx.pLock.Lock()
 	defer tcpx.pLock.Unlock()
 	tcpx.state = 1
+	return tcpx.closeAllSignal
 }
 
 // set srv state stopped
@@ -1065,7 +1066,7 @@ func handleRaw(ctx *Context, tcpx *TcpX) {
 // - tcpx.closeAllSignal: when tcpx srv calls `srv.Stop()`, closeAllSignal will be closed and stop this watching goroutine.
 // - ctx.recvEnd: when connection's context calls 'ctx.CloseConn()', recvEnd will be closed and stop this watching goroutine.
 // - time out receiving interval heartbeat pack.
-func heartBeatWatch(ctx *Context, tcpx *TcpX) {
+func heartBeatWatch(ctx *Context, tcpx *TcpX, closeAll chan int) {
 	if tcpx.HeartBeatOn == true {
 		go func() {
 			defer func() {
@@ -1095,7 +1096,7 @@ func heartBeatWatch(ctx *Context, tcpx *TcpX) {
 						return
 					}
 					continue L
-				case <-tcpx.closeAllSignal:
+				case <-closeAll:
 					ctx.CloseConn()
 					return
 				case <-ctx.recvEnd:
@@ -1109,23 +1110,21 @@ func heartBeatWatch(ctx *Context, tcpx *TcpX) {
 // Each connection will have this goroutine, it bind relation with tcpx server.
 // tcpx.closeAllSignal: when tcpx srv calls `srv.Stop()`, closeAllSignal will be closed and stop this watching goroutine.
 // ctx.recvEnd: when connection's context calls 'ctx.CloseConn()', recvEnd will be closed and stop this watching goroutine.
-func broadcastSignalWatch(ctx *Context, tcpx *TcpX) {
-	if tcpx.withSignals == true {
-		for {
-			select {
-			case <-tcpx.closeAllSignal:
-				ctx.CloseConn()
-				return
-			case <-ctx.recvEnd:
-				return
-			}
+func broadcastSignalWatch(ctx *Context, closeAll chan int) {
+	for {
+		select {
+		case <-closeAll:
+			ctx.CloseConn()
+			return
+		case <-ctx.recvEnd:
+			return
 		}
 	}
 }
 
 // Each connection will start this as goroutine when tcpx.auth is true.
 // It will start a handler to wait for an auth signal.
-func authWatch(ctx *Context, tcpx *TcpX) {
+func authWatch(ctx *Context, tcpx *TcpX, closeAll chan int) {
 	if tcpx.auth {
 		select {
 		case <-time.After(tcpx.authDeadline):
@@ -1142,7 +1141,7 @@ func authWatch(ctx *Context, tcpx *TcpX) {
 				ctx.CloseConn()
 				return
 			}
-		case <-tcpx.closeAllSignal:
+		case <-closeAll:
 			ctx.CloseConn()
 			return
 		case <-ctx.recvEnd:
@@ -1199,23 +1198,21 @@ func (tcpx *TcpX) Stop(closeAllConnection bool) error {
 }
 
 func (tcpx *TcpX) closeAllConnection() {
-	if tcpx.withSignals == true {
-		close(tcpx.closeAllSignal)
-	} else {
-		if tcpx.pool != nil {
-			oldPool := tcpx.pool
-			go func() {
-				oldPool.m.Lock()
-				defer oldPool.m.Unlock()
-
-				for k, _ := range oldPool.Clients {
-					oldPool.Clients[k].CloseConn()
-					delete(oldPool.Clients, k)
-				}
-			}()
+	// connections accepted after a restart wait on a new signal
+	tcpx.pLock.Lock()
+	oldSignal := tcpx.closeAllSignal
+	tcpx.closeAllSignal = make(chan int, 1)
+	tcpx.pLock.Unlock()
+	close(oldSignal)
 
-			tcpx.pool = NewClientPool()
-		}
+	if tcpx.pool != nil {
+		oldPool := tcpx.pool
+		go func() {
+			for k, ctx := range oldPool.clients() {
+				ctx.CloseConn()
+				oldPool.offline(k, ctx)
+			}
+		}()
 	}
 }
 
-- 
2.43.0


From 7159ced0c764f2e58d93f910ff2347aa80b2ddff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:39 +0000
Subject: [PATCH 26/28] fix: Start restarts every former server exactly once,
 with its own kind and settings

---
 tcpx.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index b138c58..2dd585b 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -102,6 +102,9 @@ type PropertyCache struct {
 	// only when network is 'tcp','kcp', Listener can assert to net.Listener.
 	// when network is 'udp', it can assert to net.PackConn
 	Listener interface{}
+
+	// how to listen and serve again, used by tcpx.Start()
+	serve func() error
 }
 
 // new an tcpx srv instance
@@ -391,7 +394,7 @@ func (tcpx *TcpX) checkPrepare() {
 	}
 }
 
-func (tcpx *TcpX) fillProperty(network, addr string, listener interface{}) {
+func (tcpx *TcpX) fillProperty(network, addr string, listener interface{}, serve func() error) {
 
 	tcpx.pLock.Lock()
 	defer tcpx.pLock.Unlock()
@@ -404,6 +407,7 @@ func (tcpx *TcpX) fillProperty(network, addr string, listener interface{}) {
 	for i, v := range tcpx.properties {
 		if v.Network == network && v.Port == addr {
 			tcpx.properties[i].Listener = listener
+			tcpx.properties[i].serve = serve
 			return
 		}
 	}
@@ -411,6 +415,7 @@ func (tcpx *TcpX) fillProperty(network, addr string, listener interface{}) {
 		Network:  network,
 		Port:     addr,
 		Listener: listener,
+		serve:    serve,
 	}
 	tcpx.properties = append(tcpx.properties, prop)
 }
@@ -432,7 +437,9 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 	if err != nil {
 		return err
 	}
-	tcpx.fillProperty(network, addr, listener)
+	tcpx.fillProperty(network, addr, listener, func() error {
+		return tcpx.ListenAndServeRaw(network, addr)
+	})
 
 	defer listener.Close()
 	closeAll := tcpx.openState()
@@ -515,7 +522,9 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 	if err != nil {
 		return err
 	}
-	tcpx.fillProperty(network, addr, listener)
+	tcpx.fillProperty(network, addr, listener, func() error {
+		return tcpx.ListenAndServeTCP(network, addr)
+	})
 
 	defer listener.Close()
 	closeAll := tcpx.openState()
@@ -675,7 +684,9 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 	}
 	defer conn.Close()
 
-	tcpx.fillProperty(network, addr, conn)
+	tcpx.fillProperty(network, addr, conn, func() error {
+		return tcpx.ListenAndServeUDP(network, addr, maxBufferSize...)
+	})
 
 	tcpx.openState()
 
@@ -1222,19 +1233,27 @@ func (tcpx *TcpX) Start() error {
 		return errors.New("already running")
 	}
 
+	tcpx.pLock.RLock()
+	properties := make([]PropertyCache, 0, len(tcpx.properties))
 	for _, v := range tcpx.properties {
-		go func() {
+		properties = append(properties, *v)
+	}
+	tcpx.pLock.RUnlock()
+
+	for _, v := range properties {
+		go func(v PropertyCache) {
 			defer func() {
 				if e := recover(); e != nil {
 					Logger.Println(fmt.Sprintf("panic from '%v' \n %s", e, debug.Stack()))
 				}
 			}()
 			fmt.Println(fmt.Sprintf("graceful restart %s server on %s", v.Network, v.Port))
-			e := tcpx.ListenAndServe(v.Network, v.Port)
+			tcpx.checkPrepare()
+			e := v.serve()
 			if e != nil {
 				Logger.Println(fmt.Sprintf("%s \n %s", e.Error(), debug.Stack()))
 			}
-		}()
+		}(v)
 	}
 	return nil
 }
-- 
2.43.0


From c7bc7ecc080c4ba9cc7173b9ebf389f95bfc2fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:41 +0000
Subject: [PATCH 27/28] fix: rewriting the heartbeat handler and adding url
 handlers modify the mux under its lock

---
 mux.go  | 2 ++
 tcpx.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/mux.go b/mux.go
index c6da548..3762656 100644
--- a/mux.go
+++ b/mux.go
@@ -71,6 +71,8 @@ func NewMux() *Mux {
 // Any is used to routing message using url-pattern
 func (mux *Mux) Any(urlPattern string, handlers ... func(c *Context)) error {
 	if mux.isReadOnly() == false {
+		mux.Mutex.Lock()
+		defer mux.Mutex.Unlock()
 		if e := mux.urlMux.AddURLPatternHandler(urlPattern, handlers...); e != nil {
 			return errorx.Wrap(e)
 		}
diff --git a/tcpx.go b/tcpx.go
index 2dd585b..782757d 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -250,6 +250,8 @@ func (tcpx *TcpX) RewriteHeartBeatHandler(messageID int32, f func(c *Context)) *
 // remove a handler by messageID.
 // this method is used for rewrite heartbeat handler
 func (tcpx *TcpX) removeHandler(messageID int32) {
+	tcpx.Mux.Mutex.Lock()
+	defer tcpx.Mux.Mutex.Unlock()
 	delete(tcpx.Mux.Handlers, messageID)
 	delete(tcpx.Mux.MessageIDAnchorMap, messageID)
 }
-- 
2.43.0


From ffa5acc9b74091a327f4ebeaa6596563775878e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:20 +0000
Subject: [PATCH 28/28] fix: a message limit above the 32-bit range is not
 truncated

---
 packx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packx.go b/packx.go
index 9f2dbb5..d22df15 100644
--- a/packx.go
+++ b/packx.go
@@ -495,7 +495,7 @@ func UnpackToBlockFromReaderLimitMaxLengthOfByte(reader io.Reader, maxByTe int)
 		return nil, e
 	}
 
-	if length > int32(maxByTe) {
+	if int(length) > maxByTe {
 		return nil, errorx.NewFromStringf("recv message beyond max byte length limit(%d), got (%d)", maxByTe, length)
 	}
 
-- 
2.43.0

