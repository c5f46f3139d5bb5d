# Behaviour-preserving edits on which every check has to stay quiet (self-test, run by tools/refactor.sh).
# name -> list of (file, old, new[, count])
R = {}

R["tcp-deadlines-helper"] = [("tcpx.go", """		// SetDeadline
		conn.SetDeadline(tcpx.deadLine)
		if !tcpx.readDeadLine.IsZero() {
			conn.SetReadDeadline(tcpx.readDeadLine)
		}
		if !tcpx.writeDeadLine.IsZero() {
			conn.SetWriteDeadline(tcpx.writeDeadLine)
		}
""", "		tcpx.applyDeadlines(conn)\n", 2), ("tcpx.go", """	conn.SetDeadline(tcpx.deadLine)
	if !tcpx.readDeadLine.IsZero() {
		conn.SetReadDeadline(tcpx.readDeadLine)
	}
	if !tcpx.writeDeadLine.IsZero() {
		conn.SetWriteDeadline(tcpx.writeDeadLine)
	}
""", "	tcpx.applyDeadlines(conn)\n"), ("tcpx.go", """// raw
func""", """type deadliner interface {
	SetDeadline(t time.Time) error
	SetReadDeadline(t time.Time) error
	SetWriteDeadline(t time.Time) error
}

func (tcpx *TcpX) applyDeadlines(c deadliner) {
	c.SetDeadline(tcpx.deadLine)
	if !tcpx.readDeadLine.IsZero() {
		c.SetReadDeadline(tcpx.readDeadLine)
	}
	if !tcpx.writeDeadLine.IsZero() {
		c.SetWriteDeadline(tcpx.writeDeadLine)
	}
}

// raw
func""")]

R["accept-loop-cond"] = [("tcpx.go", """	for {

		if tcpx.State() == STATE_STOP {
			break
		}
		conn, err""", """	for tcpx.State() != STATE_STOP {
		conn, err""", 2)]

R["accept-loop-return"] = [("tcpx.go", """			log.Println(fmt.Sprintf(err.Error()))
			break
		}
""", """			log.Println(fmt.Sprintf(err.Error()))
			return nil
		}
""", 2)]

R["serve-conn-method"] = [("tcpx.go", """		go func(ctx *Context, tcpx *TcpX) {
			defer func() {
				if e := recover(); e != nil {
					Logger.Println(fmt.Sprintf("recover from panic %v", e))
					// Logger.Println(string(debug.Stack()))
				}
			}()
			//defer ctx.Conn.Close()
			defer ctx.CloseConn()
			if tcpx.OnClose != nil {
				defer tcpx.OnClose(ctx)
			}
			var e error
			for {""", """		go tcpx.serveConn(ctx)
	}
	return nil
}

func (tcpx *TcpX) serveConn(ctx *Context) {
			defer func() {
				if e := recover(); e != nil {
					Logger.Println(fmt.Sprintf("recover from panic %v", e))
				}
			}()
			defer func() { ctx.CloseConn() }()
			if tcpx.OnClose != nil {
				defer tcpx.OnClose(ctx)
			}
			var e error
			for {"""), ("tcpx.go", """				continue
			}
		}(ctx, tcpx)
	}
	return nil
}

// run OnConnect""", """			}
}

// run OnConnect""")]

R["pipe-read-helper"] = [("tcpx.go", """					ctxs := []*Context{tmpContext}
					for i := 1; i < restN+1; i++ {
						ctx.Stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
						if e != nil {
							if e == io.EOF {
								break
							}
							Logger.Println(e)
							break
						}
						tmpContext := copyContext(*ctx)
						ctxs = append(ctxs, tmpContext)
					}

					go handlePipe""", """					ctxs, e := tcpx.readPipe(ctx, tmpContext, restN)

					go handlePipe"""), ("tcpx.go", """// run OnConnect""", """func (tcpx *TcpX) readPipe(ctx *Context, first *Context, restN int) ([]*Context, error) {
	ctxs := []*Context{first}
	for n := 0; n < restN; n++ {
		block, e := ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
		ctx.Stream = block
		if e != nil {
			if e != io.EOF {
				Logger.Println(e)
			}
			return ctxs, e
		}
		ctxs = append(ctxs, copyContext(*ctx))
	}
	return ctxs, nil
}

// run OnConnect""")]

R["read-message-helper"] = [("tcpx.go", """				ctx.Stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
				if e != nil {
					if e == io.EOF {
						break
					}
					Logger.Println(e)
					break
				}
				tmpContext := copyContext(*ctx)
""", """				var tmpContext *Context
				if tmpContext, e = tcpx.readMessage(ctx); e != nil {
					break
				}
"""), ("tcpx.go", """						ctx.Stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
						if e != nil {
							if e == io.EOF {
								break
							}
							Logger.Println(e)
							break
						}
						tmpContext := copyContext(*ctx)
""", """						var tmpContext *Context
						if tmpContext, e = tcpx.readMessage(ctx); e != nil {
							break
						}
"""), ("tcpx.go", """// run OnConnect""", """func (tcpx *TcpX) readMessage(ctx *Context) (*Context, error) {
	stream, e := ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
	if e != nil {
		if e != io.EOF {
			Logger.Println(e)
		}
		return nil, e
	}
	ctx.Stream = stream
	return copyContext(*ctx), nil
}

// run OnConnect""")]

R["dispatch-switch"] = [("tcpx.go", """	if ctx.RouterType() == MESSAGEID {
		handleMessageIDHandlers(ctx, tcpx)
		return
	}

	if ctx.RouterType() == URLPATTERN {
		handleURLPatternHandlers(ctx, tcpx)
		return
	}

	Logger.Println(errorx.NewFromStringf("unexpected router-type %s", ctx.RouterType()))
	return
""", """	switch rt := ctx.RouterType(); rt {
	case MESSAGEID:
		handleMessageIDHandlers(ctx, tcpx)
	case URLPATTERN:
		handleURLPatternHandlers(ctx, tcpx)
	default:
		Logger.Println(errorx.NewFromStringf("unexpected router-type %s", rt))
	}
""")]

R["chain-build-helper"] = [("tcpx.go", """	if ctx.handlers == nil {
		ctx.handlers = make([]func(c *Context), 0, 10)
	}
	ctx.handlers = append(ctx.handlers, tcpx.Mux.GlobalMiddlewares...)
	for _, v := range tcpx.Mux.MiddlewareAnchors {
		ctx.handlers = append(ctx.handlers, v.Middleware)
	}
	ctx.handlers = append(ctx.handlers, tcpx.OnMessage)
	if len(ctx.handlers) > 0 {
		ctx.Next()
	}
	ctx.Reset()
""", "	runAll(ctx, tcpx, tcpx.OnMessage)\n"), ("tcpx.go", """	if ctx.handlers == nil {
		ctx.handlers = make([]func(c *Context), 0, 10)
	}
	ctx.handlers = append(ctx.handlers, tcpx.Mux.GlobalMiddlewares...)
	for _, v := range tcpx.Mux.MiddlewareAnchors {
		ctx.handlers = append(ctx.handlers, v.Middleware)
	}
	ctx.handlers = append(ctx.handlers, tcpx.HandleRaw)
	if len(ctx.handlers) > 0 {
		ctx.Next()
	}
	ctx.Reset()
}
""", """	runAll(ctx, tcpx, tcpx.HandleRaw)
}

func runAll(ctx *Context, tcpx *TcpX, last func(c *Context)) {
	if ctx.handlers == nil {
		ctx.handlers = make([]func(c *Context), 0, 10)
	}
	ctx.handlers = append(ctx.handlers, tcpx.Mux.GlobalMiddlewares...)
	for i := 0; i < len(tcpx.Mux.MiddlewareAnchors); i++ {
		ctx.handlers = append(ctx.handlers, tcpx.Mux.MiddlewareAnchors[i].Middleware)
	}
	ctx.handlers = append(ctx.handlers, last)
	ctx.Next()
	ctx.Reset()
}
""")]

R["chain-anchored-helper"] = [("tcpx.go", """	for i, _ := range tcpx.Mux.MiddlewareAnchors {
		v := tcpx.Mux.MiddlewareAnchors[i]
		if v.Contains(messageIDAnchorIndex) {
			ctx.handlers = append(ctx.handlers, v.Middleware)
		}
	}
""", "	ctx.appendAnchored(tcpx.Mux, messageIDAnchorIndex)\n"), ("tcpx.go", """	for i, _ := range tcpx.Mux.MiddlewareAnchors {
		v := tcpx.Mux.MiddlewareAnchors[i]
		if v.Contains(urlPatternHandlerAnchorIndex) {
			ctx.handlers = append(ctx.handlers, v.Middleware)
		}
	}
""", "	ctx.appendAnchored(tcpx.Mux, urlPatternHandlerAnchorIndex)\n"), ("tcpx.go", "func handlePipe(", """func (ctx *Context) appendAnchored(mux *Mux, index int) {
	for _, v := range mux.MiddlewareAnchors {
		if !v.Contains(index) {
			continue
		}
		ctx.handlers = append(ctx.handlers, v.Middleware)
	}
}

func handlePipe(""")]

R["chain-local-slice"] = [("tcpx.go", """	if ctx.handlers == nil {
		ctx.handlers = make([]func(c *Context), 0, 10)
	}

	// global middleware
	ctx.handlers = append(ctx.handlers, tcpx.Mux.GlobalMiddlewares...)
	// anchor middleware
	messageIDAnchorIndex""", """	chain := ctx.handlers

	// global middleware
	chain = append(chain, tcpx.Mux.GlobalMiddlewares...)
	// anchor middleware
	messageIDAnchorIndex"""), ("tcpx.go", """		if v.Contains(messageIDAnchorIndex) {
			ctx.handlers = append(ctx.handlers, v.Middleware)
		}
	}

	// self-related middleware
	ctx.handlers = append(ctx.handlers, tcpx.Mux.MessageIDSelfMiddleware[messageID]...)
	// handler
	ctx.handlers = append(ctx.handlers, handler)
""", """		if v.Contains(messageIDAnchorIndex) {
			chain = append(chain, v.Middleware)
		}
	}

	// self-related middleware
	chain = append(chain, tcpx.Mux.MessageIDSelfMiddleware[messageID]...)
	// handler
	ctx.handlers = append(chain, handler)
""")]

R["builtin-bypass-merged"] = [("tcpx.go", """	if tcpx.HeartBeatOn && messageID == tcpx.HeartBeatMessageID && !tcpx.ThroughMiddleware {
		handler(ctx)
		return
	}

	if tcpx.auth && messageID == tcpx.AuthMessageID && !tcpx.AuthThroughMiddleware {
		handler(ctx)
		return
	}
""", """	if tcpx.bypass(messageID) {
		handler(ctx)
		return
	}
"""), ("tcpx.go", "func handlePipe(", """func (tcpx *TcpX) bypass(messageID int32) bool {
	isHeartbeat := tcpx.HeartBeatOn && messageID == tcpx.HeartBeatMessageID
	isAuth := tcpx.auth && messageID == tcpx.AuthMessageID
	return (isHeartbeat && !tcpx.ThroughMiddleware) || (isAuth && !tcpx.AuthThroughMiddleware)
}

func handlePipe(""")]

R["pipe-range"] = [("tcpx.go", """	for i, _ := range ctxs {
		handleMiddleware(ctxs[i], tcpx)
	}
""", """	for _, c := range ctxs {
		handleMiddleware(c, tcpx)
	}
""")]

R["heartbeat-loop"] = [("tcpx.go", """					times++
					if times == 3 {
						// heartbeat loss handler
						defer ctx.CloseConn()

						if tcpx.OnHeartbeatLoss != nil {
							tcpx.OnHeartbeatLoss(copyContext(*ctx))
						}

						return
					}
					continue L
""", """					times = times + 1
					if times < 3 {
						continue L
					}
					defer ctx.CloseConn()
					if f := tcpx.OnHeartbeatLoss; f != nil {
						f(copyContext(*ctx))
					}
					return
""")]

R["heartbeat-early-return"] = [("tcpx.go", """	if tcpx.HeartBeatOn == true {
		go func() {
""", """	if !tcpx.HeartBeatOn {
		return
	}
	{
		go func() {
""")]

R["heartbeat-named-loop"] = [("tcpx.go", """	if tcpx.HeartBeatOn == true {
		go func() {
			defer func() {
				// fmt.Println("心跳结束)
				if e := recover(); e != nil {
					Logger.Println("recover from : %v", e)
				}
			}()

			var times int
		L:
			for {""", """	if tcpx.HeartBeatOn == true {
		go heartBeatLoop(ctx, tcpx, closeAll)
	}
}

func heartBeatLoop(ctx *Context, tcpx *TcpX, closeAll <-chan int) {
			defer func() {
				if e := recover(); e != nil {
					Logger.Println("recover from : %v", e)
				}
			}()

			var times int
		L:
			for {"""), ("tcpx.go", """				case <-ctx.recvEnd:
					return
				}
			}
		}()
	}
}
""", """				case <-ctx.recvEnd:
					return
				}
			}
}
""")]

R["auth-early-return"] = [("tcpx.go", """	if tcpx.auth {
		select {
		case <-time.After(tcpx.authDeadline):
			Logger.Println("connection auth time out, closed")
			ctx.CloseConn()
			return
		case v := <-ctx.AuthChan():
			if v >= 0 {
				// auth pass
				return
			} else {
				// auth fail
				Logger.Println("connection auth fail, closed")
				ctx.CloseConn()
				return
			}
		case <-closeAll:
			ctx.CloseConn()
			return
		case <-ctx.recvEnd:
			return
		}

	}
""", """	if !tcpx.auth {
		return
	}
	timer := time.NewTimer(tcpx.authDeadline)
	defer timer.Stop()
	select {
	case <-timer.C:
		Logger.Println("connection auth time out, closed")
	case v := <-ctx.AuthChan():
		if v >= 0 {
			return
		}
		Logger.Println("connection auth fail, closed")
	case <-closeAll:
	case <-ctx.recvEnd:
		return
	}
	ctx.CloseConn()
""")]

R["broadcast-noloop"] = [("tcpx.go", """	for {
		select {
		case <-closeAll:
			ctx.CloseConn()
			return
		case <-ctx.recvEnd:
			return
		}
	}
""", """	select {
	case <-closeAll:
		ctx.CloseConn()
	case <-ctx.recvEnd:
	}
""")]

R["watchers-helper"] = [("tcpx.go", """		go broadcastSignalWatch(ctx, closeAll)

		if tcpx.HeartBeatOn {
			go heartBeatWatch(ctx, tcpx, closeAll)
		}
		if tcpx.auth {
			go authWatch(ctx, tcpx, closeAll)
		}
""", """		tcpx.startWatchers(ctx, closeAll)
"""), ("tcpx.go", "// run OnConnect", """func (tcpx *TcpX) startWatchers(ctx *Context, closeAll chan int) {
	if tcpx.auth {
		go authWatch(ctx, tcpx, closeAll)
	}
	if tcpx.HeartBeatOn {
		go heartBeatWatch(ctx, tcpx, closeAll)
	}
	go broadcastSignalWatch(ctx, closeAll)
}

// run OnConnect""")]

R["new-conn-ctx-helper"] = [("tcpx.go", """		ctx := NewContext(conn, tcpx.Packx.Marshaller)

		if tcpx.builtInPool {
			ctx.poolRef = tcpx.pool
		}

		if !tcpx.handleOnConnect(ctx) {
			ctx.CloseConn()
			continue
		}
""", """		ctx, ok := tcpx.connect(conn)
		if !ok {
			continue
		}
""", 2), ("tcpx.go", "// run OnConnect", """func (tcpx *TcpX) connect(conn net.Conn) (*Context, bool) {
	ctx := NewContext(conn, tcpx.Packx.Marshaller)
	if tcpx.builtInPool {
		ctx.poolRef = tcpx.pool
	}
	if tcpx.handleOnConnect(ctx) {
		return ctx, true
	}
	ctx.CloseConn()
	return nil, false
}

// run OnConnect""")]

R["stop-close-listeners"] = [("tcpx.go", """	func() {
		tcpx.pLock.Lock()
		defer tcpx.pLock.Unlock()
		for i, _ := range tcpx.properties {
			if listener, ok := tcpx.properties[i].Listener.(io.Closer); ok {
				listener.Close()
			}
		}
	}()
""", """	tcpx.closeListeners()
"""), ("tcpx.go", "func (tcpx *TcpX) closeAllConnection() {", """func (tcpx *TcpX) closeListeners() {
	tcpx.pLock.RLock()
	defer tcpx.pLock.RUnlock()
	for _, p := range tcpx.properties {
		c, ok := p.Listener.(io.Closer)
		if !ok {
			continue
		}
		c.Close()
	}
}

func (tcpx *TcpX) closeAllConnection() {""")]

R["closeall-helper"] = [("tcpx.go", """	tcpx.pLock.Lock()
	oldSignal := tcpx.closeAllSignal
	tcpx.closeAllSignal = make(chan int, 1)
	tcpx.pLock.Unlock()
	close(oldSignal)

	if tcpx.pool != nil {
		oldPool := tcpx.pool
		go func() {
			for k, ctx := range oldPool.clients() {
				ctx.CloseConn()
				oldPool.offline(k, ctx)
			}
		}()
	}
""", """	close(tcpx.swapSignal())

	if pool := tcpx.pool; pool != nil {
		go closeClients(pool)
	}
}

func closeClients(pool *ClientPool) {
	for k, ctx := range pool.clients() {
		ctx.CloseConn()
		pool.offline(k, ctx)
	}
}

func (tcpx *TcpX) swapSignal() chan int {
	tcpx.pLock.Lock()
	defer tcpx.pLock.Unlock()
	old := tcpx.closeAllSignal
	tcpx.closeAllSignal = make(chan int, 1)
	return old
""")]

R["start-helper"] = [("tcpx.go", """	tcpx.pLock.RLock()
	properties := make([]PropertyCache, 0, len(tcpx.properties))
	for _, v := range tcpx.properties {
		properties = append(properties, *v)
	}
	tcpx.pLock.RUnlock()

	for _, v := range properties {
		go func(v PropertyCache) {
			defer func() {
				if e := recover(); e != nil {
					Logger.Println(fmt.Sprintf("panic from '%v' \\n %s", e, debug.Stack()))
				}
			}()
			fmt.Println(fmt.Sprintf("graceful restart %s server on %s", v.Network, v.Port))
			tcpx.checkPrepare()
			e := v.serve()
			if e != nil {
				Logger.Println(fmt.Sprintf("%s \\n %s", e.Error(), debug.Stack()))
			}
		}(v)
	}
	return nil
}
""", """	for _, v := range tcpx.snapshot() {
		go tcpx.startOne(v)
	}
	return nil
}

func (tcpx *TcpX) snapshot() []PropertyCache {
	tcpx.pLock.RLock()
	defer tcpx.pLock.RUnlock()
	properties := make([]PropertyCache, 0, len(tcpx.properties))
	for i := range tcpx.properties {
		properties = append(properties, *tcpx.properties[i])
	}
	return properties
}

func (tcpx *TcpX) startOne(v PropertyCache) {
	defer func() {
		if e := recover(); e != nil {
			Logger.Println(fmt.Sprintf("panic from '%v' \\n %s", e, debug.Stack()))
		}
	}()
	fmt.Println(fmt.Sprintf("graceful restart %s server on %s", v.Network, v.Port))
	tcpx.checkPrepare()
	if e := v.serve(); e != nil {
		Logger.Println(fmt.Sprintf("%s \\n %s", e.Error(), debug.Stack()))
	}
}
""")]

R["udp-loop"] = [("tcpx.go", """			if tcpx.State() == STATE_STOP {
				break
			}
			// read from udp conn
			buffer, addr, e = ReadAllUDP(conn, maxBufferSize...)

			// global
			if e != nil {
				if e == io.EOF || errors.Is(e, net.ErrClosed) {
					break
				}
				Logger.Println(e.Error())
				continue
""", """			if tcpx.State() != STATE_RUNNING {
				return
			}
			// read from udp conn
			buffer, addr, e = ReadAllUDP(conn, maxBufferSize...)

			// global
			if e != nil {
				if errors.Is(e, net.ErrClosed) || e == io.EOF {
					return
				}
				Logger.Println(e.Error())
				continue
""")]

R["udp-inline"] = [("tcpx.go", """	done := make(chan struct{})
	go func(conn net.PacketConn, tcpx *TcpX) {
		defer close(done)
		defer func()""", """	func(conn net.PacketConn, tcpx *TcpX) {
		defer func()"""), ("tcpx.go", """	}(conn, tcpx)

	<-done
	return nil""", """	}(conn, tcpx)

	return nil""")]

R["udp-request-helper"] = [("tcpx.go", """			ctx := NewUDPContext(conn, addr, tcpx.Packx.Marshaller)

			if tcpx.builtInPool {
				ctx.poolRef = tcpx.pool
			}

			ctx.Stream, e = tcpx.Packx.FirstBlockOfBytes(buffer)
			if e != nil {
				Logger.Println(e.Error())
				continue
			}
""", """			ctx, e := tcpx.udpRequest(conn, addr, buffer)
			if e != nil {
				Logger.Println(e.Error())
				continue
			}
"""), ("tcpx.go", "func ReadAllUDP(", """func (tcpx *TcpX) udpRequest(conn net.PacketConn, addr net.Addr, buffer []byte) (*Context, error) {
	stream, e := tcpx.Packx.FirstBlockOfBytes(buffer)
	if e != nil {
		return nil, e
	}
	ctx := NewUDPContext(conn, addr, tcpx.Packx.Marshaller)
	ctx.Stream = stream
	if tcpx.builtInPool {
		ctx.poolRef = tcpx.pool
	}
	return ctx, nil
}

func ReadAllUDP("""), ("tcpx.go", """	if len(maxBufferSize) <= 0 {
		buffer = make([]byte, 4096, 4096)
	} else {
		buffer = make([]byte, maxBufferSize[0], maxBufferSize[0])
	}
""", """	size := 4096
	if len(maxBufferSize) > 0 {
		size = maxBufferSize[0]
	}
	buffer = make([]byte, size)
""")]

R["fill-property-find"] = [("tcpx.go", """	for i, v := range tcpx.properties {
		if v.Network == network && v.Port == addr {
			tcpx.properties[i].Listener = listener
			tcpx.properties[i].serve = serve
			return
		}
	}
	prop := &PropertyCache{
		Network:  network,
		Port:     addr,
		Listener: listener,
		serve:    serve,
	}
	tcpx.properties = append(tcpx.properties, prop)
""", """	var found *PropertyCache
	for _, v := range tcpx.properties {
		if v.Port == addr && v.Network == network {
			found = v
			break
		}
	}
	if found == nil {
		found = &PropertyCache{Network: network, Port: addr}
		tcpx.properties = append(tcpx.properties, found)
	}
	found.Listener = listener
	found.serve = serve
""")]

R["ispipe-restructure"] = [("tcpx.go", """	if len(header) == 0 {
		return false, 0, nil
	}

	pipeArgsI, ok := header[PIPED]
	if !ok {
		return false, 0, nil
	}
""", """	pipeArgsI, ok := header[PIPED]
	if !ok {
		return false, 0, nil
	}
"""), ("tcpx.go", """	if arr[0] == "enable" {
		return true, length - 1, nil
	}
	return false, 0, nil
""", """	if arr[0] != "enable" {
		return false, 0, nil
	}
	return true, length - 1, nil
""")]

R["before-exit-helper"] = [("tcpx.go", """		for _, handler := range f {
			Defer(handler)
		}
		os.Exit(0)
	}()
}
""", """		runExitJobs(f)
		os.Exit(0)
	}()
}

func runExitJobs(jobs []func()) {
	for i := 0; i < len(jobs); i++ {
		Defer(jobs[i])
	}
}
""")]

R["restart-flat"] = [("tcpx.go", """	// time.Sleep(5 * time.Second)
	if e := tcpx.Start(); e != nil {
		return e
	}
	return nil
""", """	return tcpx.Start()
"""), ("tcpx.go", """	for _, v := range beforeStart {
		v()
	}
""", """	for i := 0; i < len(beforeStart); i++ {
		beforeStart[i]()
	}
""")]

# ---- codec
HDRS = """	var header = make(map[string]interface{}, 0)
	for _, v := range headers {
		for k1, v1 := range v {
			header [k1] = v1
		}
	}
"""
R["pack-merge-headers"] = [("packx.go", """	if headers == nil || len(headers) == 0 {
		return PackWithMarshaller(Message{MessageID: messageID, Header: make(map[string]interface{}), Body: src}, packx.Marshaller)
	}
""" + HDRS + "	return PackWithMarshaller(Message{MessageID: messageID, Header: header, Body: src}", "	return PackWithMarshaller(Message{MessageID: messageID, Header: mergeHeaders(headers), Body: src}"),
("packx.go", """	if headers == nil || len(headers) == 0 {
		return PackWithMarshallerAndBody(Message{MessageID: messageID, Header: make(map[string]interface{}), Body: nil}, body)
	}
""" + HDRS + "	return PackWithMarshallerAndBody(Message{MessageID: messageID, Header: header, Body: nil}, body)\n}\n", """	return PackWithMarshallerAndBody(Message{MessageID: messageID, Header: mergeHeaders(headers)}, body)
}

func mergeHeaders(headers []map[string]interface{}) map[string]interface{} {
	merged := make(map[string]interface{})
	for _, h := range headers {
		for k, v := range h {
			merged[k] = v
		}
	}
	return merged
}
""")]

R["pack-assemble-helper"] = [("packx.go", """	var content = make([]byte, 0, 1024)

	content = append(content, messageIDBuf...)
	content = append(content, headerLengthBuf...)
	content = append(content, bodyLengthBuf...)
	content = append(content, headerBuf...)
	content = append(content, bodyBuf...)

	binary.BigEndian.PutUint32(lengthBuf, uint32(len(content)))

	var packet = make([]byte, 0, 1024)

	packet = append(packet, lengthBuf...)
	packet = append(packet, content...)
	return packet, nil
""", """	_, _, _, _ = lengthBuf, messageIDBuf, headerLengthBuf, bodyLengthBuf
	return assemble(message.MessageID, headerBuf, bodyBuf), nil
""", 2), ("packx.go", "func PackHeartbeat(", """func assemble(messageID int32, header []byte, body []byte) []byte {
	packet := make([]byte, 16, 16+len(header)+len(body))
	binary.BigEndian.PutUint32(packet[0:4], uint32(12+len(header)+len(body)))
	binary.BigEndian.PutUint32(packet[4:8], uint32(messageID))
	binary.BigEndian.PutUint32(packet[8:12], uint32(len(header)))
	binary.BigEndian.PutUint32(packet[12:16], uint32(len(body)))
	packet = append(packet, header...)
	return append(packet, body...)
}

func PackHeartbeat(""")]

R["pack-length-computed"] = [("packx.go", """	binary.BigEndian.PutUint32(lengthBuf, uint32(len(content)))
""", """	binary.BigEndian.PutUint32(lengthBuf, uint32(4+4+4+len(headerBuf)+len(bodyBuf)))
""", 2)]

R["pack-single-buffer"] = [("packx.go", """	binary.BigEndian.PutUint32(lengthBuf, uint32(len(content)))

	var packet = make([]byte, 0, 1024)

	packet = append(packet, lengthBuf...)
	packet = append(packet, content...)
	return packet, nil
""", """	binary.BigEndian.PutUint32(lengthBuf, uint32(len(content)))
	return append(lengthBuf, content...), nil
""", 2)]

R["accessor-uint32-helper"] = [("packx.go", """	if len(stream) < 12 {
		return 0, errors.New(fmt.Sprintf("stream lenth should be bigger than 12"))
	}
	headerLength := binary.BigEndian.Uint32(stream[8:12])
	if headerLength > math.MaxInt32 {
		return 0, errors.New(fmt.Sprintf("header length should not be bigger than %d but got %d", math.MaxInt32, headerLength))
	}
	return int32(headerLength), nil
""", """	return lengthAt(stream, 8, "header length")
"""), ("packx.go", """	if len(stream) < 16 {
		return 0, errors.New(fmt.Sprintf("stream lenth should be bigger than %d", 16))
	}
	bodyLength := binary.BigEndian.Uint32(stream[12:16])
	if bodyLength > math.MaxInt32 {
		return 0, errors.New(fmt.Sprintf("body length should not be bigger than %d but got %d", math.MaxInt32, bodyLength))
	}
	return int32(bodyLength), nil
""", """	return lengthAt(stream, 12, "body length")
"""), ("packx.go", """	if len(stream) < 4 {
		return 0, errors.New(fmt.Sprintf("stream lenth should be bigger than 4"))
	}
	length := binary.BigEndian.Uint32(stream[0:4])
	if length > math.MaxInt32 {
		return 0, errors.New(fmt.Sprintf("length should not be bigger than %d but got %d", math.MaxInt32, length))
	}
	return int32(length), nil
}
""", """	return lengthAt(stream, 0, "length")
}

func lengthAt(stream []byte, off int, what string) (int32, error) {
	if len(stream) < off+4 {
		return 0, fmt.Errorf("stream lenth should be bigger than %d", off+4)
	}
	n := binary.BigEndian.Uint32(stream[off:])
	if n > math.MaxInt32 {
		return 0, fmt.Errorf("%s should not be bigger than %d but got %d", what, math.MaxInt32, n)
	}
	return int32(n), nil
}
""")]

R["bodybytes-locals"] = [("packx.go", """	if len(stream) < 16+int(headerLen)+int(bodyLen) {
		return nil, errors.New(fmt.Sprintf("stream lenth should be bigger than %d", 16+int(headerLen)+int(bodyLen)))
	}
	body := stream[16+int(headerLen) : 16+int(headerLen)+int(bodyLen)]
	return body, nil
""", """	start := 16 + int(headerLen)
	end := start + int(bodyLen)
	if end > len(stream) {
		return nil, errors.New(fmt.Sprintf("stream lenth should be bigger than %d", end))
	}
	return stream[start:end], nil
""")]

R["unpack-locals"] = [("packx.go", """	if len(stream) < 16+int(headerLength)+int(bodyLength) {
		return Message{}, errors.New(fmt.Sprintf("stream lenth should be bigger than %d", 16+int(headerLength)+int(bodyLength)))
	}
	// header
	var header map[string]interface{}
	if headerLength != 0 {
		e = json.Unmarshal(stream[16:(16 + int(headerLength))], &header)
		if e != nil {
			return Message{}, e
		}
	}

	// body
	if bodyLength != 0 {
		e = marshaller.Unmarshal(stream[16+int(headerLength):(16 + int(headerLength) + int(bodyLength))], dest)
		if e != nil {
			return Message{}, e
		}
	}
""", """	rest := stream[16:]
	if len(rest) < int(headerLength)+int(bodyLength) {
		return Message{}, errors.New(fmt.Sprintf("stream lenth should be bigger than %d", 16+int(headerLength)+int(bodyLength)))
	}
	// header
	var header map[string]interface{}
	if headerLength > 0 {
		if e = json.Unmarshal(rest[:headerLength], &header); e != nil {
			return Message{}, e
		}
	}
	rest = rest[headerLength:]

	// body
	if bodyLength > 0 {
		if e = marshaller.Unmarshal(rest[:bodyLength], dest); e != nil {
			return Message{}, e
		}
	}
""")]

R["reader-shared"] = [("packx.go", """	if reader == nil {
		return nil, errors.New("reader is nil")
	}
	var info = make([]byte, 4, 4)
	if e := readUntil(reader, info); e != nil {
		if e == io.EOF {
			return nil, e
		}
		return nil, errorx.Wrap(e)
	}

	length, e := packx.LengthOf(info)
	if e != nil {
		return nil, e
	}
	var content = make([]byte, length, length)
	if e := readUntil(reader, content); e != nil {
		if e == io.EOF {
			return nil, e
		}
		return nil, errorx.Wrap(e)
	}

	return append(info, content ...), nil
}
""", """	return readBlock(reader, math.MaxInt32)
}
"""), ("packx.go", """func UnpackToBlockFromReaderLimitMaxLengthOfByte(reader io.Reader, maxByTe int) ([]byte, error) {
""", """func UnpackToBlockFromReaderLimitMaxLengthOfByte(reader io.Reader, maxByTe int) ([]byte, error) {
	return readBlock(reader, maxByTe)
}

func readBlock(reader io.Reader, maxByTe int) ([]byte, error) {
""")]

R["reader-single-buffer"] = [("packx.go", """	if int(length) > maxByTe {
		return nil, errorx.NewFromStringf("recv message beyond max byte length limit(%d), got (%d)", maxByTe, length)
	}

	var content = make([]byte, length, length)
	if e := readUntil(reader, content); e != nil {
		if e == io.EOF {
			return nil, e
		}
		return nil, errorx.Wrap(e)
	}

	return append(info, content ...), nil
""", """	if int(length) > maxByTe {
		return nil, errorx.NewFromStringf("recv message beyond max byte length limit(%d), got (%d)", maxByTe, length)
	}

	block := make([]byte, 4+int(length))
	copy(block, info)
	if e := readUntil(reader, block[4:]); e != nil {
		if e == io.EOF {
			return nil, e
		}
		return nil, errorx.Wrap(e)
	}
	return block, nil
""")]

R["readuntil-loop"] = [("packx.go", """	if len(buf) == 0 {
		return nil
	}
	var offset int
	for {
		n, e := reader.Read(buf[offset:])
		offset += n
		if offset >= len(buf) {
			break
		}
		if e != nil {
			if e == io.EOF {
				return e
			}
			return errorx.Wrap(e)
		}
	}
	return nil
""", """	for offset := 0; offset < len(buf); {
		n, e := reader.Read(buf[offset:])
		offset += n
		if e != nil && offset < len(buf) {
			if e == io.EOF {
				return e
			}
			return errorx.Wrap(e)
		}
	}
	return nil
""")]

R["readuntil-reslice"] = [("packx.go", """	if len(buf) == 0 {
		return nil
	}
	var offset int
	for {
		n, e := reader.Read(buf[offset:])
		offset += n
		if offset >= len(buf) {
			break
		}
		if e != nil {
			if e == io.EOF {
				return e
			}
			return errorx.Wrap(e)
		}
	}
	return nil
""", """	for len(buf) > 0 {
		n, e := reader.Read(buf)
		buf = buf[n:]
		if len(buf) == 0 {
			return nil
		}
		if e == io.EOF {
			return e
		}
		if e != nil {
			return errorx.Wrap(e)
		}
	}
	return nil
""")]

R["firstblock-bytes"] = [("packx.go", """	var length = binary.BigEndian.Uint32(buffer[0:4])
	if len(buffer) < 4+int(length) {
		return nil, errors.New(fmt.Sprintf("require buffer length more than %d but got %d", 4+int(length), len(buffer)))

	}
	return buffer[:4+int(length)], nil
""", """	total := 4 + int(binary.BigEndian.Uint32(buffer))
	if total > len(buffer) {
		return nil, fmt.Errorf("require buffer length more than %d but got %d", total, len(buffer))
	}
	return buffer[:total], nil
""")]

R["pack-stuff-shared"] = [("packx.go", """	buf, e := PackWithMarshallerAndBody(Message{
		MessageID: DEFAULT_HEARTBEAT_MESSAGEID,
	}, nil)
	if e != nil {
		panic(e)
	}
	return buf
""", """	return PackStuff(DEFAULT_HEARTBEAT_MESSAGEID)
""")]

R["header-getstring"] = [("utils.go", """	var exist bool
	var value string
	var valueI interface{}
	if len(header) == 0 {
		return "", false, nil
	}
	valueI, exist = header[key]

	if !exist {
		return "", exist, nil
	}

	var canConvert bool
	value, canConvert = valueI.(string)
	if !canConvert {
		return "", exist, errorx.NewFromStringf("key '%s'exist but is not a string type", key)
	}
	return value, exist, nil
""", """	raw, exist := header[key]
	if !exist {
		return "", false, nil
	}
	switch value := raw.(type) {
	case string:
		return value, true, nil
	default:
		return "", true, errorx.NewFromStringf("key '%s'exist but is not a string type", key)
	}
""")]

R["pipejson-loop"] = [("utils.go", """		var msg Message
		if i == 0 {
			msg = Message{
				MessageID: int32(messageID),
				Header: map[string]interface{}{
					PIPED: fmt.Sprintf("enable;%d", num),
				},
				Body: message,
			}
		} else {
			msg = Message{
				MessageID: int32(messageID),
				Header:    nil,
				Body:      message,
			}
		}
""", """		msg := Message{MessageID: int32(messageID), Body: message}
		if i == 0 {
			msg.Header = map[string]interface{}{PIPED: fmt.Sprintf("enable;%d", num)}
		}
""")]

# ---- context
R["reply-helper"] = [("context.go", """		buf, e = NewPackx(marshaller).Pack(messageID, src, headers...)
		if e != nil {
			return errorx.Wrap(e)
		}
		e = ctx.replyBuf(buf)
		if e != nil {
			return errorx.Wrap(e)
		}
		return nil
	}
	buf, e = ctx.Packx.Pack(messageID, src, headers ...)
	if e != nil {
		return errorx.Wrap(e)
	}
	return ctx.replyBuf(buf)
}
""", """		return ctx.commonReplyWithMarshaller(marshaller, messageID, src, headers...)
	}
	_ = buf
	return ctx.Reply(messageID, src, headers...)
}
""")]

R["replybuf-if"] = [("context.go", """	switch ctx.ConnectionProtocolType() {
	case "tcp":
		if _, e = ctx.Conn.Write(buf); e != nil {
			return errorx.Wrap(e)
		}
	case "udp":
		if _, e = ctx.PacketConn.WriteTo(buf, ctx.Addr); e != nil {
			return errorx.Wrap(e)
		}
""", """	switch ctx.ConnectionProtocolType() {
	case "udp":
		_, e = ctx.PacketConn.WriteTo(buf, ctx.Addr)
		if e != nil {
			return errorx.Wrap(e)
		}
	case "tcp":
		_, e = ctx.Conn.Write(buf)
		if e != nil {
			return errorx.Wrap(e)
		}
""")]

R["close-conn-order"] = [("context.go", """	defer func() {

		if ctx.recvEnd != nil {
			CloseChanel(func() {
				close(ctx.recvEnd)
			})
		}
		ctx.L.Lock()
		*(ctx.userState) = CONTEXT_OFFLINE
		ctx.L.Unlock()

		if ctx.poolRef != nil {
			ctx.Offline()
		}
	}()
""", """	defer ctx.finish()
"""), ("context.go", "// set deadline\n", """func (ctx *Context) finish() {
	if ctx.recvEnd != nil {
		CloseChanel(func() {
			close(ctx.recvEnd)
		})
	}
	ctx.markOffline()
	if ctx.poolRef != nil {
		ctx.Offline()
	}
}

func (ctx *Context) markOffline() {
	ctx.L.Lock()
	defer ctx.L.Unlock()
	*ctx.userState = CONTEXT_OFFLINE
}

// set deadline
""")]

R["next-while"] = [("context.go", """	ctx.offset ++
	s := len(ctx.handlers)
	for ; ctx.offset < s; ctx.offset++ {
		if !ctx.isAbort() {
			ctx.handlers[ctx.offset](ctx)
		} else {
			return
		}
	}
""", """	for ctx.offset++; ctx.offset < len(ctx.handlers); ctx.offset++ {
		if ctx.isAbort() {
			return
		}
		h := ctx.handlers[ctx.offset]
		h(ctx)
	}
""")]

R["isabort"] = [("context.go", """	if ctx.offset >= ABORT {
		return true
	}
	return false
""", """	return ctx.offset >= ABORT
""")]

R["reset"] = [("context.go", """	ctx.PerRequestContext = &sync.Map{}
	ctx.offset = -1
	if ctx.handlers == nil {
		ctx.handlers = make([]func(*Context), 0, 10)
		return
	}
	ctx.handlers = ctx.handlers[:0]
""", """	ctx.ResetOffset()
	ctx.handlers = make([]func(*Context), 0, 10)
	ctx.PerRequestContext = new(sync.Map)
""")]

R["copy-context"] = [("context.go", """	var copyHandlers = make([]func(*Context), len(ctx.handlers))
	for i, _ := range copyHandlers {
		copyHandlers[i] = ctx.handlers[i]
	}
""", """	copyHandlers := make([]func(*Context), len(ctx.handlers))
	copy(copyHandlers, ctx.handlers)
""")]

R["copy-context-append"] = [("context.go", """	var copyHandlers = make([]func(*Context), len(ctx.handlers))
	for i, _ := range copyHandlers {
		copyHandlers[i] = ctx.handlers[i]
	}
""", """	var copyHandlers []func(*Context)
	copyHandlers = append(copyHandlers, ctx.handlers...)
""")]

R["copy-context-value"] = [("context.go", """	return &Context{
		Conn:       ctx.Conn,
		L:          ctx.L,
		PacketConn: ctx.PacketConn,
		Addr:       ctx.Addr,
		//UDPSession:           ctx.UDPSession,
		PerConnectionContext: ctx.PerConnectionContext,
		PerRequestContext:    &sync.Map{},
		Packx:                ctx.Packx,
		Stream:               ctx.Stream,
		offset:               ctx.offset,
		handlers:             copyHandlers,
		poolRef:              ctx.poolRef,
		recvEnd:              ctx.recvEnd,
		recvAuth:             ctx.recvAuth,
		userState:            ctx.userState,
		ConnReader:           ctx.ConnReader,
		ConnWriter:           ctx.ConnWriter,
	}
""", """	ctx.PerRequestContext = &sync.Map{}
	ctx.handlers = copyHandlers
	return &ctx
""")]

R["new-context-shared"] = [("context.go", """	var online = CONTEXT_ONLINE
	return &Context{
		Conn:                 conn,
		PerConnectionContext: &sync.Map{},
		PerRequestContext:    &sync.Map{},

		Packx:  NewPackx(marshaller),
		offset: -1,

		recvEnd:  make(chan int, 1),
		recvAuth: make(chan int, 1),

		L:         &sync.RWMutex{},
		userState: &online,
	}
}
""", """	ctx := baseContext(marshaller)
	ctx.Conn = conn
	ctx.PerConnectionContext = &sync.Map{}
	return ctx
}

func baseContext(marshaller Marshaller) *Context {
	var online = CONTEXT_ONLINE
	return &Context{
		PerRequestContext: &sync.Map{},

		Packx:  NewPackx(marshaller),
		offset: -1,

		recvEnd:  make(chan int, 1),
		recvAuth: make(chan int, 1),

		L:         &sync.RWMutex{},
		userState: &online,
	}
}
"""), ("context.go", """	var online = CONTEXT_ONLINE
	return &Context{
		PacketConn:           conn,
		Addr:                 addr,
		PerConnectionContext: nil,
		PerRequestContext:    &sync.Map{},

		Packx:  NewPackx(marshaller),
		offset: -1,

		recvEnd:  make(chan int, 1),
		recvAuth: make(chan int, 1),

		L:         &sync.RWMutex{},
		userState: &online,
	}
""", """	ctx := baseContext(marshaller)
	ctx.PacketConn = conn
	ctx.Addr = addr
	return ctx
""")]

R["recvauth-helper"] = [("context.go", """	const PASS = 1
	select {
	case ctx.recvAuth <- PASS:
	default:
		// an auth result is already pending
	}
}
func (ctx *Context) RecvAuthDeny() {
	const DENY = -1
	select {
	case ctx.recvAuth <- DENY:
	default:
		// an auth result is already pending
	}
}
""", """	ctx.authResult(1)
}
func (ctx *Context) RecvAuthDeny() {
	ctx.authResult(-1)
}

func (ctx *Context) authResult(v int) {
	select {
	case ctx.recvAuth <- v:
	default:
	}
}
""")]

R["online-order"] = [("context.go", """	if former, ok := ctx.Username(); ok && former != username && ctx.poolRef != nil {
		ctx.poolRef.offline(former, ctx)
	}
	ctx.SetUsername(username)
	if ctx.poolRef == nil {
		return errors.New("ctx.poolRef is nil, did you call 'tcpX.WithBuiltInPool(true)' or 'tcpX.SetPool(pool *tcpx.ClientPool)' yet")
	}
	ctx.poolRef.Online(username, ctx)
""", """	former, named := ctx.Username()
	ctx.SetUsername(username)
	pool := ctx.poolRef
	if pool == nil {
		return errors.New("ctx.poolRef is nil, did you call 'tcpX.WithBuiltInPool(true)' or 'tcpX.SetPool(pool *tcpx.ClientPool)' yet")
	}
	if named && former != username {
		pool.offline(former, ctx)
	}
	pool.Online(username, ctx)
""")]

R["send-to-username"] = [("context.go", """	anotherCtx := ctx.poolRef.GetClientPool(username)
	if anotherCtx == nil || anotherCtx.IsOffline() {
		return errors.New(fmt.Sprintf("username '%s' not found in pool, he/she might get offine", username))
	}
	return ctx.SendToConn(anotherCtx, messageID, src, headers...)
""", """	if peer := ctx.poolRef.GetClientPool(username); peer != nil && !peer.IsOffline() {
		return peer.Reply(messageID, src, headers...)
	}
	return fmt.Errorf("username '%s' not found in pool, he/she might get offine", username)
""")]

R["set-ctx-per-conn"] = [("context.go", """	if ctx.ConnectionProtocolType() == "udp" {
		ctx.SetCtxPerRequest(k, v)
		return
	}
	ctx.PerConnectionContext.Store(k, v)
}

// Context's""", """	ctx.setCtxPerConn(k, v)
}

// Context's""")]

R["router-type-restructure"] = [("context.go", """	if len(header) == 0 {
		return MESSAGEID, false
	}

	routerTypeI, exist := header[HEADER_ROUTER_KEY]
	if !exist {
		return MESSAGEID, false
	}

	routerTypeStr, transfer := routerTypeI.(string)
	if !transfer {
		return MESSAGEID, false
	}

	if routerTypeStr == MESSAGEID {
		return MESSAGEID, false
	}

	return routerTypeStr, false
""", """	routerTypeStr, ok := header[HEADER_ROUTER_KEY].(string)
	if !ok {
		return MESSAGEID, false
	}
	return routerTypeStr, false
""")]

# ---- pool
R["pool-offline-locked-helper"] = [("client-pool.go", """	ctx := cp.GetClientPool(username)
	if ctx != nil {
		cp.DeleteFromClientPool(username)
	}
""", """	if cp.GetClientPool(username) == nil {
		return
	}
	cp.DeleteFromClientPool(username)
"""), ("client-pool.go", """	if c := cp.Clients[username]; c != nil && c.userState == ctx.userState {
		delete(cp.Clients, username)
	}
""", """	c, ok := cp.Clients[username]
	if !ok || c == nil {
		return
	}
	if c.userState != ctx.userState {
		return
	}
	delete(cp.Clients, username)
""")]

R["pool-explicit-unlock"] = [("client-pool.go", """	cp.m.Lock()
	defer cp.m.Unlock()
	cp.Clients[username] = ctx
""", """	cp.m.Lock()
	cp.Clients[username] = ctx
	cp.m.Unlock()
"""), ("client-pool.go", """	cp.m.RLock()
	defer cp.m.RUnlock()

	_, ok := cp.Clients[username]
	return ok
""", """	cp.m.RLock()
	_, ok := cp.Clients[username]
	cp.m.RUnlock()
	return ok
""")]

R["pool-lock-rename"] = [("client-pool.go", "cp.m.", "cp.mu.", -1), ("client-pool.go", "	m       *sync", "	mu      *sync"), ("client-pool.go", "		m:  ", "		mu: ")]
R["plock-rename"] = [("tcpx.go", "pLock", "propLock", -1)]
R["state-rename"] = [("tcpx.go", "tcpx.state", "tcpx.status", -1), ("tcpx.go", "	state      int", "	status     int"), ("tcpx.go", "state:  ", "status: ")]
R["poolref-rename"] = [("context.go", "poolRef", "ownPool", -1), ("tcpx.go", "poolRef", "ownPool", -1)]
R["recvend-rename"] = [("context.go", "recvEnd", "endSignal", -1), ("tcpx.go", "recvEnd", "endSignal", -1)]
R["recvauth-rename"] = [("context.go", "recvAuth", "authSignal", -1)]
R["userstate-rename"] = [("context.go", "userState", "onlineState", -1), ("client-pool.go", "userState", "onlineState", -1)]
R["offset-rename"] = [("context.go", "ctx.offset", "ctx.pos", -1), ("context.go", "	offset   int", "	pos      int"), ("context.go", "offset: -1", "pos: -1", -1), ("context.go", "		offset:  ", "		pos:     ")]
R["handlers-rename"] = [("context.go", "ctx.handlers", "ctx.chain", -1), ("tcpx.go", "ctx.handlers", "ctx.chain", -1), ("context.go", "	handlers []func", "	chain []func"), ("context.go", "		handlers:  ", "		chain:  ")]
R["signal-rename"] = [("tcpx.go", "closeAllSignal", "stopSignal", -1)]
R["properties-rename"] = [("tcpx.go", "properties", "endpoints", -1)]
R["seed-rename"] = [("mux.go", "indexSeed", "seed", -1)]
R["urlmux-rename"] = [("mux.go", "urlMux", "byURL", -1), ("tcpx.go", "urlMux", "byURL", -1), ("url-mux.go", "urlPatternMux", "routes", -1), ("tcpx.go", "urlPatternMux", "routes", -1)]
R["funcs-rename"] = [("tcpx.go", "handleMiddleware", "dispatch", -1), ("tcpx.go", "handleMessageIDHandlers", "dispatchByID", -1), ("tcpx.go", "handleURLPatternHandlers", "dispatchByURL", -1), ("tcpx.go", "handleOnMessage", "dispatchAll", -1), ("tcpx.go", "handlePipe", "dispatchPipe", -1), ("tcpx.go", "handleRaw", "dispatchRaw", -1), ("tcpx.go", "heartBeatWatch", "watchHeartbeat", -1), ("tcpx.go", "authWatch", "watchAuth", -1), ("tcpx.go", "broadcastSignalWatch", "watchSignal", -1), ("tcpx.go", "openState", "markRunning", -1), ("tcpx.go", "stopState", "markStopped", -1), ("tcpx.go", "fillProperty", "remember", -1), ("tcpx.go", "isPipe(", "pipeInfo(", -1), ("tcpx.go", "handleOnConnect", "runOnConnect", -1)]
R["ctx-funcs-rename"] = [("context.go", "copyContext", "forkContext", -1), ("tcpx.go", "copyContext", "forkContext", -1), ("context.go", "replyBuf", "send", -1), ("context.go", "isAbort", "aborted", -1), ("packx.go", "readUntil", "readFull", -1), ("context.go", "routerType()", "decodeRouterType()", -1), ("client-pool.go", ") offline(", ") drop("), ("context.go", ".offline(", ".drop(", -1), ("tcpx.go", ".offline(", ".drop(", -1), ("client-pool.go", ") clients(", ") list("), ("tcpx.go", ".clients(", ".list(", -1)]

# ---- mux / anchors
R["mux-addhandler-guard"] = [("mux.go", """	_, ok := mux.Handlers[messageID]
	if ok {
		panic(errors.New(fmt.Sprintf("messageID '%d' already has its handler", messageID)))
	}
	mux.Handlers[messageID] = handler
""", """	if _, exists := mux.Handlers[messageID]; exists {
		panic(fmt.Errorf("messageID '%d' already has its handler", messageID))
	}
	mux.Handlers[messageID] = handler
""")]

R["mux-any-guard"] = [("mux.go", """	if mux.isReadOnly() == false {
		mux.Mutex.Lock()
		defer mux.Mutex.Unlock()
		if e := mux.urlMux.AddURLPatternHandler(urlPattern, handlers...); e != nil {
			return errorx.Wrap(e)
		}
		return nil
	} else {
		return errorx.NewFromString("mux is only writable before mux.LockWrite()")
	}
""", """	if mux.isReadOnly() {
		return errorx.NewFromString("mux is only writable before mux.LockWrite()")
	}
	mux.Mutex.Lock()
	defer mux.Mutex.Unlock()
	if e := mux.urlMux.AddURLPatternHandler(urlPattern, handlers...); e != nil {
		return errorx.Wrap(e)
	}
	return nil
""")]

R["urlmux-add"] = [("url-mux.go", """			m.urlPatternMux[urlPattern] = append(h, handlers...)
		} else {
			m.urlPatternMux[urlPattern] = handlers
		}
""", """		}
		m.urlPatternMux[urlPattern] = append(h, handlers...)
""")]

R["mux-self-mw"] = [("mux.go", """	if handlers != nil && len(handlers) > 0 {
		mux.MessageIDSelfMiddleware[messageID] = make([]func(ctx *Context), 0, 10)
		mux.MessageIDSelfMiddleware[messageID] = append(mux.MessageIDSelfMiddleware[messageID], handlers...)
	}
""", """	if len(handlers) == 0 {
		return
	}
	own := make([]func(ctx *Context), len(handlers))
	copy(own, handlers)
	mux.MessageIDSelfMiddleware[messageID] = own
""")]

R["mux-replace-helper"] = [("mux.go", """L:
	for i, v := range mux.MiddlewareAnchors {
		if v.MiddlewareKey == anchor.MiddlewareKey {
			mux.MiddlewareAnchors[i] = anchor
			break L
		}
	}
""", """	for i := range mux.MiddlewareAnchors {
		if mux.MiddlewareAnchors[i].MiddlewareKey != anchor.MiddlewareKey {
			continue
		}
		mux.MiddlewareAnchors[i] = anchor
		return
	}
""")]

R["mux-add-anchor"] = [("mux.go", """	_, ok := mux.MiddlewareAnchorMap[anchor.MiddlewareKey]
	if ok {

		return
	}
	mux.MiddlewareAnchorMap[anchor.MiddlewareKey] = anchor
	mux.MiddlewareAnchors = append(mux.MiddlewareAnchors, anchor)
""", """	if _, ok := mux.MiddlewareAnchorMap[anchor.MiddlewareKey]; !ok {
		mux.MiddlewareAnchors = append(mux.MiddlewareAnchors, anchor)
		mux.MiddlewareAnchorMap[anchor.MiddlewareKey] = anchor
	}
""")]

R["addhandler-last"] = [("tcpx.go", """	if len(handlers) > 1 {
		tcpx.Mux.AddMessageIDSelfMiddleware(messageID, handlers[:len(handlers)-1]...)
	}

	f := handlers[len(handlers)-1]
""", """	last := len(handlers) - 1
	f := handlers[last]
	if last > 0 {
		tcpx.Mux.AddMessageIDSelfMiddleware(messageID, handlers[:last]...)
	}
""")]

R["use-pairs-helper"] = [("tcpx.go", """		middlewareAnchor, ok := tcpx.Mux.MiddlewareAnchorMap[middlewareKey]
		if ok {
			middlewareAnchor.callUse(tcpx.Mux.CurrentAnchorIndex())
			tcpx.Mux.ReplaceMiddlewareAnchor(middlewareAnchor)
		} else {
			var middlewareAnchor MiddlewareAnchor
			middlewareAnchor.Middleware = middleware
			middlewareAnchor.MiddlewareKey = middlewareKey
			middlewareAnchor.callUse(tcpx.Mux.CurrentAnchorIndex())
			tcpx.Mux.AddMiddlewareAnchor(middlewareAnchor)
		}
	}
}
""", """		tcpx.useOne(middlewareKey, middleware)
	}
}

func (tcpx *TcpX) useOne(key string, middleware func(c *Context)) {
	anchor, exists := tcpx.Mux.MiddlewareAnchorMap[key]
	if !exists {
		anchor = MiddlewareAnchor{MiddlewareKey: key, Middleware: middleware}
	}
	anchor.callUse(tcpx.Mux.CurrentAnchorIndex())
	if exists {
		tcpx.Mux.ReplaceMiddlewareAnchor(anchor)
		return
	}
	tcpx.Mux.AddMiddlewareAnchor(anchor)
}
""")]

R["unuse-locals"] = [("tcpx.go", """	var middlewareAnchor MiddlewareAnchor
	var ok bool
	for _, k := range middlewareKeys {
		if middlewareAnchor, ok = tcpx.Mux.MiddlewareAnchorMap[k]; !ok {
			panic(errorx.NewFromStringf("middlewareKey '%s' not found in mux.MiddlewareAnchorMap", k))
		}
""", """	for i := 0; i < len(middlewareKeys); i++ {
		k := middlewareKeys[i]
		middlewareAnchor, ok := tcpx.Mux.MiddlewareAnchorMap[k]
		if !ok {
			panic(errorx.NewFromStringf("middlewareKey '%s' not found in mux.MiddlewareAnchorMap", k))
		}
""")]

R["heartbeat-mode-shared"] = [("tcpx.go", """	tcpx.HeartBeatOn = on
	tcpx.HeatBeatInterval = duration
	tcpx.ThroughMiddleware = false
	tcpx.HeartBeatMessageID = DEFAULT_HEARTBEAT_MESSAGEID

	if on {
		tcpx.AddHandler(DEFAULT_HEARTBEAT_MESSAGEID, func(c *Context) {
			Logger.Println(fmt.Sprintf("recv '%s' heartbeat:", c.ClientIP()), c.Stream)
			c.RecvHeartBeat()
		})
	}
	return tcpx
""", """	return tcpx.HeartBeatModeDetail(on, duration, false, DEFAULT_HEARTBEAT_MESSAGEID)
""")]

R["listen-switch"] = [("tcpx.go", """	if In(network, []string{"tcp", "tcp4", "tcp6", "unix", "unixpacket"}) {
		return tcpx.ListenAndServeTCP(network, addr)
	}
	if In(network, []string{"udp", "udp4", "udp6", "unixgram", "ip%"}) {
		return tcpx.ListenAndServeUDP(network, addr)
	}
""", """	switch {
	case In(network, []string{"tcp", "tcp4", "tcp6", "unix", "unixpacket"}):
		return tcpx.ListenAndServeTCP(network, addr)
	case In(network, []string{"udp", "udp4", "udp6", "unixgram", "ip%"}):
		return tcpx.ListenAndServeUDP(network, addr)
	}
""")]

R["tcp-listener-shared"] = [("tcpx.go", """	var listener net.Listener
	var err error
	if tcpx.TLSConfig == nil {
		listener, err = net.Listen(network, addr)
	} else {
		listener, err = newListener(listenerConfig{
			Network:   network,
			Addr:      addr,
			TLSConfig: tcpx.TLSConfig,
		})
	}
""", """	listener, err := newListener(listenerConfig{
		Network:   network,
		Addr:      addr,
		TLSConfig: tcpx.TLSConfig,
	})
""")]

R["contains-helper"] = [("anchor.go", """	// When call same times Use and UnUse
	if len(ma.AnchorStartIndexRange) == len(ma.AnchorEndIndexRange) {
		for i := 0; i < len(ma.AnchorStartIndexRange); i++ {
			if ma.AnchorStartIndexRange[i] <= handlerIndex && ma.AnchorEndIndexRange[i] >= handlerIndex {
				return true
			}
		}
	} else {
		// When Use times is bigger by 1, first check last Use middleware
		if handlerIndex >= ma.AnchorStartIndexRange[len(ma.AnchorStartIndexRange)-1] {
			return true
		}

		for i := 0; i < len(ma.AnchorEndIndexRange); i ++ {
			if ma.AnchorStartIndexRange[i] <= handlerIndex && ma.AnchorEndIndexRange[i] >= handlerIndex {
				return true
			}
		}
	}

	return false
""", """	starts, ends := ma.AnchorStartIndexRange, ma.AnchorEndIndexRange
	for i, start := range starts {
		if handlerIndex < start {
			continue
		}
		if i >= len(ends) || handlerIndex <= ends[i] {
			return true
		}
	}
	return false
""")]
