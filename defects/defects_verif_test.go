package tcpx

// Demonstrations of the genuine defects found in the pinned tree. Each test
// fails on the pinned tree (733c1b4) and passes on the repaired one.  They are
// NOT part of any check (the checks are static); they document the findings.
// Run:  bash /verif/defects/run.sh [TestName]

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"sync"
	"testing"
	"testing/iotest"
	"time"
)

func frame(id int32, hdr string, body string) []byte {
	b := make([]byte, 16)
	binary.BigEndian.PutUint32(b[0:], uint32(12+len(hdr)+len(body)))
	binary.BigEndian.PutUint32(b[4:], uint32(id))
	binary.BigEndian.PutUint32(b[8:], uint32(len(hdr)))
	binary.BigEndian.PutUint32(b[12:], uint32(len(body)))
	return append(append(b, hdr...), body...)
}

func mustNotPanic(t *testing.T, what string, f func()) {
	t.Helper()
	defer func() {
		if e := recover(); e != nil {
			t.Errorf("%s: panic: %v", what, e)
		}
	}()
	f()
}

func waitListen(t *testing.T, addr string) {
	for i := 0; i < 100; i++ {
		c, e := net.Dial("tcp", addr)
		if e == nil {
			c.Close()
			return
		}
		time.Sleep(20 * time.Millisecond)
	}
	t.Fatal("server did not come up")
}

// run the test body in a subprocess: the defect kills the process
func crashes(t *testing.T, name string) bool {
	if os.Getenv("DEFECT_CHILD") == name {
		return false
	}
	cmd := exec.Command(os.Args[0], "-test.run=^"+name+"$", "-test.timeout=60s")
	cmd.Env = append(os.Environ(), "DEFECT_CHILD="+name)
	out, err := cmd.CombinedOutput()
	if err != nil {
		t.Errorf("child failed: %v\n%.600s", err, out)
	}
	return true
}

func TestD01DecodePanics(t *testing.T) {
	neg := frame(1, "{}", "")
	binary.BigEndian.PutUint32(neg[8:], 0x80000010)
	mustNotPanic(t, "HeaderOf negative header length", func() { HeaderOf(neg) })
	negb := frame(1, "{}", "")
	binary.BigEndian.PutUint32(negb[12:], 0xfffffff0)
	mustNotPanic(t, "BodyBytesOf negative body length", func() { BodyBytesOf(negb) })
	mustNotPanic(t, "Unpack short", func() { var s string; packx.Unpack([]byte{0, 0, 0, 1, 1}, &s) })
	mustNotPanic(t, "Unpack lying header length", func() { var s string; packx.Unpack(neg, &s) })
	mustNotPanic(t, "FirstBlockOf length 0xffffffff", func() { FirstBlockOf(bytes.NewReader([]byte{255, 255, 255, 255})) })
	mustNotPanic(t, "FirstBlockOfLimit length 0xffffffff", func() { FirstBlockOfLimitMaxByte(bytes.NewReader([]byte{255, 255, 255, 255}), 10) })
	mustNotPanic(t, "isPipe null args", func() { isPipe(frame(1, `{"[tcpx-buffer-in-serial]":null}`, "")) })
}

func TestD02HandlerPanicKillsProcess(t *testing.T) {
	if crashes(t, "TestD02HandlerPanicKillsProcess") {
		return
	}
	srv := NewTcpX(nil)
	srv.AddHandler(1, func(c *Context) { panic("user handler") })
	go srv.ListenAndServe("tcp", "127.0.0.1:17602")
	waitListen(t, "127.0.0.1:17602")
	c, _ := net.Dial("tcp", "127.0.0.1:17602")
	c.Write(frame(1, "{}", ""))
	time.Sleep(500 * time.Millisecond)
}

func TestD03TruncatedPipeKillsProcess(t *testing.T) {
	if crashes(t, "TestD03TruncatedPipeKillsProcess") {
		return
	}
	srv := NewTcpX(nil)
	srv.AddHandler(1, func(c *Context) {})
	go srv.ListenAndServe("tcp", "127.0.0.1:17603")
	waitListen(t, "127.0.0.1:17603")
	c, _ := net.Dial("tcp", "127.0.0.1:17603")
	c.Write(frame(1, `{"[tcpx-buffer-in-serial]":"enable;3"}`, ""))
	c.Close()
	time.Sleep(500 * time.Millisecond)
}

func TestD04RequestScopeLeaks(t *testing.T) {
	ctx := NewContext(nil, nil)
	a := copyContext(*ctx)
	a.SetCtxPerRequest("k", 1)
	b := copyContext(*ctx)
	if _, ok := b.GetCtxPerRequest("k"); ok {
		t.Error("request-scoped value visible in another request of the connection")
	}
	// router type sticks to the connection
	a.Stream = frame(1, `{"Router-Type":"MESSAGE_ID"}`, "")
	b.Stream = frame(0, `{"Router-Type":"URL_PATTERN","Router-Pattern-Value":"/x"}`, "")
	a.RouterType()
	if b.RouterType() != URLPATTERN {
		t.Errorf("url message routed as %s", b.RouterType())
	}
}

func TestD05AnyRunsTwice(t *testing.T) {
	srv := NewTcpX(nil)
	n := 0
	srv.Any("/x", func(c *Context) { n++ }, func(c *Context) {})
	ctx := NewContext(nil, nil)
	ctx.Stream = frame(0, `{"Router-Type":"URL_PATTERN","Router-Pattern-Value":"/x"}`, "")
	handleMiddleware(ctx, srv)
	if n != 1 {
		t.Errorf("middleware ran %d times", n)
	}
}

func TestD06ReUseIgnored(t *testing.T) {
	srv := NewTcpX(nil)
	n := 0
	m := func(c *Context) { n++ }
	srv.Use("m", m)
	srv.UnUse("m")
	srv.Use("m", m)
	srv.AddHandler(5, func(c *Context) {})
	ctx := NewContext(nil, nil)
	ctx.Stream = frame(5, `{}`, "")
	handleMiddleware(ctx, srv)
	if n != 1 {
		t.Errorf("anchor middleware ran %d times for a handler added after the second Use", n)
	}
}

func TestD07MessageZeroSkipsMiddleware(t *testing.T) {
	srv := NewTcpX(nil)
	n := 0
	srv.UseGlobal(func(c *Context) { n++ })
	srv.AddHandler(0, func(c *Context) {})
	ctx := NewContext(nil, nil)
	ctx.Stream = frame(0, `{}`, "")
	handleMiddleware(ctx, srv)
	if n != 1 {
		t.Errorf("global middleware ran %d times for messageID 0 with heartbeat and auth off", n)
	}
}

func TestD08StopLeavesTcp4Open(t *testing.T) {
	srv := NewTcpX(nil)
	go srv.ListenAndServe("tcp4", "127.0.0.1:17608")
	waitListen(t, "127.0.0.1:17608")
	time.Sleep(100 * time.Millisecond)
	srv.Stop(false)
	time.Sleep(100 * time.Millisecond)
	if c, e := net.Dial("tcp", "127.0.0.1:17608"); e == nil {
		c.Close()
		t.Error("tcp4 listener still accepts after Stop")
	}
}

func TestD09StopAllDeadlocks(t *testing.T) {
	srv := NewTcpX(nil)
	srv.WithBuiltInPool(true)
	srv.openState()
	var conns []net.Conn
	for i := 0; i < 3; i++ {
		a, b := net.Pipe()
		conns = append(conns, b)
		ctx := NewContext(a, nil)
		ctx.poolRef = srv.pool
		ctx.Online(fmt.Sprint("u", i))
	}
	pool := srv.pool
	srv.Stop(true)
	for i, c := range conns {
		c.SetReadDeadline(time.Now().Add(500 * time.Millisecond))
		if _, e := c.Read(make([]byte, 1)); e != io.EOF {
			t.Errorf("connection %d not closed: %v", i, e)
		}
	}
	done := make(chan int)
	go func() { pool.GetClientPool("u0"); close(done) }()
	select {
	case <-done:
	case <-time.After(time.Second):
		t.Error("pool lock held forever")
	}
}

func TestD10StopAllTwice(t *testing.T) {
	srv := NewTcpX(nil)
	srv.WithBroadCastSignal(true)
	go srv.ListenAndServe("tcp", "127.0.0.1:17610")
	waitListen(t, "127.0.0.1:17610")
	srv.Stop(true)
	time.Sleep(100 * time.Millisecond)
	srv.Start()
	waitListen(t, "127.0.0.1:17610")
	c, e := net.Dial("tcp", "127.0.0.1:17610")
	if e != nil {
		t.Fatal(e)
	}
	c.SetReadDeadline(time.Now().Add(300 * time.Millisecond))
	if _, e := c.Read(make([]byte, 1)); e == io.EOF {
		t.Error("connection accepted after the restart closed at once")
	}
	mustNotPanic(t, "second Stop(true)", func() { srv.Stop(true) })
}

func TestD11StartLosesListeners(t *testing.T) {
	srv := NewTcpX(nil)
	go srv.ListenAndServe("tcp", "127.0.0.1:17611")
	go srv.ListenAndServe("tcp", "127.0.0.1:17612")
	waitListen(t, "127.0.0.1:17611")
	waitListen(t, "127.0.0.1:17612")
	srv.Stop(false)
	time.Sleep(100 * time.Millisecond)
	srv.Start()
	time.Sleep(300 * time.Millisecond)
	for _, p := range []string{"17611", "17612"} {
		if c, e := net.Dial("tcp", "127.0.0.1:"+p); e != nil {
			t.Errorf("port %s not listening after Start", p)
		} else {
			c.Close()
		}
	}
	srv.Stop(false)
}

func TestD12DeadlineOverridden(t *testing.T) {
	srv := NewTcpX(nil)
	srv.SetDeadline(time.Now().Add(700 * time.Millisecond))
	go srv.ListenAndServe("tcp", "127.0.0.1:17613")
	waitListen(t, "127.0.0.1:17613")
	c, _ := net.Dial("tcp", "127.0.0.1:17613")
	c.SetReadDeadline(time.Now().Add(3 * time.Second))
	if _, e := c.Read(make([]byte, 1)); e != io.EOF {
		t.Errorf("idle connection outlived the configured deadline: %v", e)
	}
	srv.Stop(false)
}

func TestD13FinalBytesWithEOF(t *testing.T) {
	f := frame(1, "{}", "\"x\"")
	r := iotest.DataErrReader(bytes.NewReader(f))
	b, e := FirstBlockOf(r)
	if e != nil || !bytes.Equal(b, f) {
		t.Errorf("complete frame lost: %v %v", b, e)
	}
}

func TestD14HeartbeatChannelRace(t *testing.T) {
	for i := 0; i < 3000; i++ {
		a, b := net.Pipe()
		ctx := NewContext(a, nil)
		var x, y chan int
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { x = ctx.HeartBeatChan(); wg.Done() }()
		go func() { y = ctx.HeartBeatChan(); wg.Done() }()
		wg.Wait()
		a.Close()
		b.Close()
		if x != y {
			t.Fatal("two different heartbeat channels for one connection")
		}
	}
}

func TestD15SignalsBlockForever(t *testing.T) {
	ctx := NewContext(nil, nil)
	done := make(chan int)
	go func() {
		for i := 0; i < 3; i++ {
			ctx.RecvAuthPass()
			ctx.RecvAuthDeny()
			ctx.RecvHeartBeat()
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(time.Second):
		t.Error("handler blocked forever in RecvAuthPass/RecvHeartBeat")
	}
}

func TestD16OldConnectionEvictsNew(t *testing.T) {
	pool := NewClientPool()
	mk := func() *Context {
		a, _ := net.Pipe()
		c := NewContext(a, nil)
		c.poolRef = pool
		return c
	}
	old, nu := mk(), mk()
	old.Online("bob")
	nu.Online("bob")
	old.CloseConn()
	if pool.GetClientPool("bob") == nil {
		t.Error("closing the replaced connection took the live one out of the pool")
	}
	c := mk()
	c.Online("a")
	c.Online("b")
	c.CloseConn()
	if pool.isOnline("a") || pool.isOnline("b") {
		t.Error("closed connection still in the pool under its former name")
	}
	d := mk()
	d.CloseConn()
	d.Online("late")
	if pool.isOnline("late") {
		t.Error("closed connection went online")
	}
}

func TestD17RawIgnoresTLS(t *testing.T) {
	// covered by reading: ListenAndServeRaw called net.Listen whatever TLSConfig says
}

func TestD18UDPNeverReturns(t *testing.T) {
	srv := NewTcpX(nil)
	done := make(chan error, 1)
	go func() { done <- srv.ListenAndServe("udp", "127.0.0.1:17618") }()
	time.Sleep(200 * time.Millisecond)
	srv.Stop(true)
	select {
	case <-done:
	case <-time.After(time.Second):
		t.Error("ListenAndServe(udp) did not return after Stop")
	}
}

func TestD19SilentUDPPeerKillsServer(t *testing.T) {
	srv := NewTcpX(nil)
	got := make(chan int, 10)
	srv.HeartBeatMode(true, 50*time.Millisecond)
	srv.AddHandler(1, func(c *Context) { got <- 1 })
	go srv.ListenAndServe("udp", "127.0.0.1:17619")
	time.Sleep(200 * time.Millisecond)
	c, _ := net.Dial("udp", "127.0.0.1:17619")
	c.Write(frame(1, "{}", ""))
	<-got
	time.Sleep(400 * time.Millisecond)
	c.Write(frame(1, "{}", ""))
	select {
	case <-got:
	case <-time.After(time.Second):
		t.Error("UDP server socket closed because one peer sent no heartbeat")
	}
	srv.Stop(false)
}

func TestD20StopFalseDropsHeartbeatConns(t *testing.T) {
	srv := NewTcpX(nil)
	srv.HeartBeatMode(true, 200*time.Millisecond)
	go srv.ListenAndServe("tcp", "127.0.0.1:17620")
	waitListen(t, "127.0.0.1:17620")
	c, e := net.Dial("tcp", "127.0.0.1:17620")
	if e != nil {
		t.Fatal(e)
	}
	time.Sleep(100 * time.Millisecond)
	srv.Stop(false)
	c.SetReadDeadline(time.Now().Add(350 * time.Millisecond))
	if _, e := c.Read(make([]byte, 1)); e == io.EOF {
		t.Error("Stop(false) closed an established connection")
	}
}

func TestD26StopTrueWithoutSignals(t *testing.T) {
	srv := NewTcpX(nil)
	go srv.ListenAndServe("tcp", "127.0.0.1:17626")
	waitListen(t, "127.0.0.1:17626")
	c, e := net.Dial("tcp", "127.0.0.1:17626")
	if e != nil {
		t.Fatal(e)
	}
	time.Sleep(100 * time.Millisecond)
	srv.Stop(true)
	c.SetReadDeadline(time.Now().Add(500 * time.Millisecond))
	if _, e := c.Read(make([]byte, 1)); e != io.EOF {
		t.Error("Stop(true) left a connection open")
	}
}

func TestD27HeartbeatLossPanic(t *testing.T) {
	srv := NewTcpX(nil)
	srv.HeartBeatMode(true, 50*time.Millisecond)
	srv.SetEventOnHeartbeatLoss(func(c *Context) { panic("x") })
	go srv.ListenAndServe("tcp", "127.0.0.1:17627")
	waitListen(t, "127.0.0.1:17627")
	c, e := net.Dial("tcp", "127.0.0.1:17627")
	if e != nil {
		t.Fatal(e)
	}
	c.SetReadDeadline(time.Now().Add(500 * time.Millisecond))
	if _, e := c.Read(make([]byte, 1)); e != io.EOF {
		t.Error("lost connection left open")
	}
}

func TestD21ConcurrentStop(t *testing.T) {
	if crashes(t, "TestD21ConcurrentStop") {
		return
	}
	for i := 0; i < 3000; i++ {
		srv := NewTcpX(nil)
		srv.WithBroadCastSignal(true)
		srv.openState()
		var wg sync.WaitGroup
		for j := 0; j < 4; j++ {
			wg.Add(1)
			go func() { defer wg.Done(); srv.Stop(true) }()
		}
		wg.Wait()
	}
}

func TestD22ZeroLengthHeader(t *testing.T) {
	if _, e := HeaderOf(frame(1, "", "\"x\"")); e != nil {
		t.Errorf("HeaderOf rejects a frame Unpack accepts: %v", e)
	}
}

func TestD23IPv6ClientIP(t *testing.T) {
	c := NewUDPContext(&net.UDPConn{}, &net.UDPAddr{IP: net.ParseIP("2001:db8::7"), Port: 9}, nil)
	if c.ClientIP() != "2001:db8::7" {
		t.Errorf("remote IPv6 peer reported as %s", c.ClientIP())
	}
}

func TestD24OnConnectPanicStopsServer(t *testing.T) {
	srv := NewTcpX(nil)
	n := 0
	srv.OnConnect = func(c *Context) {
		n++
		if n == 2 {
			panic(errors.New("hook"))
		}
	}
	go srv.ListenAndServe("tcp", "127.0.0.1:17624")
	waitListen(t, "127.0.0.1:17624")
	c, _ := net.Dial("tcp", "127.0.0.1:17624")
	time.Sleep(100 * time.Millisecond)
	c.Close()
	time.Sleep(100 * time.Millisecond)
	if c, e := net.Dial("tcp", "127.0.0.1:17624"); e != nil {
		t.Error("server stopped accepting after one OnConnect panic")
	} else {
		c.Close()
	}
	srv.Stop(false)
}

func TestD25RawRestartsAsFramed(t *testing.T) {
	srv := NewTcpX(nil)
	srv.HandleRaw = func(c *Context) { c.ConnWriter.Write([]byte("raw")) }
	go srv.ListenAndServeRaw("tcp", "127.0.0.1:17625")
	waitListen(t, "127.0.0.1:17625")
	srv.Restart(false)
	time.Sleep(200 * time.Millisecond)
	c, e := net.Dial("tcp", "127.0.0.1:17625")
	if e != nil {
		t.Fatal(e)
	}
	c.SetReadDeadline(time.Now().Add(time.Second))
	b := make([]byte, 3)
	if _, e := io.ReadFull(c, b); e != nil {
		t.Errorf("raw server came back as a framed one: %v", e)
	}
	srv.Stop(false)
}
