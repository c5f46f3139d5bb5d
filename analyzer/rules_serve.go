package main

// C05 panics of user code, C06 teardown, C24 TLS, C25 deadlines: rules over the exploration of
// the serving entry points and of every goroutine they start.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C05", rulePanics)
	register("C06", ruleTeardown)
	register("C24", ruleTLS)
	register("C25", ruleDeadlines)
}

var streamServers = []string{"TcpX.ListenAndServeTCP", "TcpX.ListenAndServeRaw"}

// serving explores the given serving entry points and the goroutines they start.
func (c *Check) serving(roots []string, panics bool, hook func(g *Gor, st *State, ev *Event)) *explorer {
	e := c.explorer()
	chainCalls(e.it)
	e.it.panicCalls = panics
	e.hook = hook
	for _, r := range roots {
		e.run(r, nil, nil)
	}
	return e
}

// opName is the method or function name of a call event.
func opName(ev *Event) string {
	n := ev.name
	if i := strings.LastIndexAny(n, ".:"); i >= 0 {
		n = n[i+1:]
	}
	return n
}

// isField: t is the value of field name of a *typ (loaded at any time).
func (c *Check) isField(t *Term, typ, name string) bool {
	if t == nil || !t.isApp("ld") || t.args[0].op != OFieldP {
		return false
	}
	n := c.named(typ)
	if n == nil {
		return false
	}
	i := fieldIndex(n, name)
	if i < 0 {
		c.bad("anchor", typ+"."+name, "field %s.%s does not exist any more", typ, name)
		return false
	}
	return int(t.args[0].c) == i && strings.HasSuffix(ptrElem(t.args[0].args[0]), "tcpx."+typ)
}

// callback names the user callback a call event invokes.
func (c *Check) callback(ev *Event) string {
	f := ev.args[0]
	for _, n := range []string{"OnConnect", "OnMessage", "OnClose", "OnHeartbeatLoss", "HandleRaw"} {
		if c.isField(f, "TcpX", n) {
			return n
		}
	}
	if f.op == OSym && f.name == "chain" {
		return "the middleware chain"
	}
	if f.isApp("mapget") {
		return "a handler"
	}
	return "user code"
}

// isAccepted: t is a connection taken from a listener.
func isAccepted(t *Term) bool {
	return t != nil && t.op == OSym && strings.Contains(t.name, "Accept@") && strings.HasPrefix(t.name, "ok0:")
}

func isAccept(ev *Event) bool {
	return (ev.kind == "method" || ev.kind == "call") && readKind(ev) == "accept"
}

// rootName is the function of a goroutine.
func (g *Gor) rootName() string {
	if g.sp == nil {
		return g.root
	}
	return spawnName(g.sp)
}

func site(g *Gor, ev *Event) string {
	return g.name + " @ " + ev.pos
}

// ---------------------------------------------------------------- C05

func rulePanics(c *Check) {
	var e *explorer
	hook := func(g *Gor, st *State, ev *Event) {
		switch ev.kind {
		case "userpanic":
			n := c.callback(ev)
			if n != "OnClose" && (g.parent != nil || e.rootOnly) {
				st.tags["up"] = Str(n)
			}
			if e == nil || e.it.trial == 0 {
				c.ok("contained", g.name+": "+n)
			}
		case "method", "call":
			if readKind(ev) != "" {
				delete(st.tags, "up")
			}
		}
	}
	e = c.explorer()
	chainCalls(e.it)
	e.it.panicCalls = true
	e.hook = hook
	if state := c.getterField("TcpX.State"); state >= 0 {
		// after a panic was dealt with, the loop may still end because the server was stopped
		tt := c.named("TcpX")
		e.it.onAccess = func(it *Interp, st *State, p *Term, in ssa.Instruction, mode byte) {
			if p.op == OFieldP && int(p.c) == state && namedOf(derefType(p.args[0])) == tt.Obj().Name() {
				delete(st.tags, "up")
			}
		}
	}
	e.childTags = noTags
	for _, r := range c.servers() {
		e.run(r, nil, nil)
	}
	e.rootOnly = true
	for _, r := range c.servers() {
		e.run(r, nil, nil)
	}
	for _, g := range e.gos {
		for _, o := range g.outs {
			if o.kind == 'p' && (g.parent != nil || hasUserPanic(o.vals[0])) {
				c.bad("contained", g.name, "%s ends in a panic (%s): nothing recovers it", g.name, o.vals[0])
				continue
			}
			if up := o.st.tags["up"]; up != nil && (g.accepts || g.reads) {
				s, _ := up.isStr()
				c.bad("loop", g.name, "a panic in %s ends the loop of %s", s, g.name)
			}
		}
		c.ok("loop", g.name)
	}
	// nothing else is executed when the server starts a goroutine, so each goroutine is a root
	c.atLeast("contained", 10, "calls of user code")
	c.atLeast("loop", 14, "goroutines")
	// goroutines started outside of the serving calls
	for _, r := range []string{"TcpX.Start", "TcpX.Stop", "TcpX.BeforeExit"} {
		f := c.fn(r)
		if f == nil {
			continue
		}
		e2 := c.explorer()
		e2.it.panicCalls = true
		e2.run(r, nil, nil)
		for _, g := range e2.gos[1:] {
			for _, o := range g.outs {
				if o.kind == 'p' && hasUserPanic(o.vals[0]) {
					c.bad("contained", g.name, "%s ends in a panic (%s): nothing recovers it", g.name, o.vals[0])
				}
			}
			c.ok("contained", g.name)
		}
	}
}

// derefType is the type a pointer term points to (or of the object it is).
func derefType(p *Term) types.Type {
	if p.typ == nil {
		return nil
	}
	if p.op == OObj || p.op == OFieldP || p.op == OElemP {
		return p.typ
	}
	if pt, ok := p.typ.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return p.typ
}

// getterField finds the field whose value the exported method returns.
func (c *Check) getterField(m string) int {
	f := c.fn(m)
	if f == nil {
		return -1
	}
	it := c.interp()
	args := symArgs(f)
	for _, o := range c.entry(it, f, args, newState()) {
		if o.kind == 'r' && len(o.vals) == 1 && o.vals[0].isApp("ld") && o.vals[0].args[0].op == OFieldP && o.vals[0].args[0].args[0] == args[0] {
			return int(o.vals[0].args[0].c)
		}
	}
	c.bad("anchor", m, "%s does not return a field", m)
	return -1
}

func hasUserPanic(v *Term) bool {
	return v.contains(func(x *Term) bool { return x.op == OSym && x.name == "userpanic" })
}

// ---------------------------------------------------------------- C06

func ruleTeardown(c *Check) {
	var e *explorer
	closer := map[string]bool{} // go statements that start a goroutine which tears down
	why := map[string]string{}
	pending := func(g *Gor, st *State, where string) {
		if st.tags["acc"] == nil {
			c.ok("accepted", g.root+" until "+where)
			return
		}
		var ws []string
		for _, w := range why {
			if w != "" && w != "watcher" {
				ws = append(ws, w)
			}
		}
		sort.Strings(ws)
		c.bad("accepted", g.root+" until "+where, "%s: an accepted connection is neither closed nor handed to a goroutine that closes it on every exit and runs OnClose once (%s)", g.root, strings.Join(uniq(ws), "; "))
	}
	hook := func(g *Gor, st *State, ev *Event) {
		live := e.it.trial == 0
		if g.parent == nil && !e.rootOnly {
			return
		}
		switch ev.kind {
		case "ok":
			if opName(ev) == "Accept" && len(ev.args) > 0 && isAccepted(ev.args[0]) {
				st.tags["acc"] = True
			}
		case "method", "call":
			switch {
			case isAccept(ev):
				if live {
					pending(g, st, "the next Accept")
				}
				delete(st.tags, "acc")
			case opName(ev) == "Close" && len(ev.args) == 1 && isAccepted(ev.args[0]):
				delete(st.tags, "acc")
				if g.parent != nil {
					st.tags["cl"] = True
				}
			}
		case "go":
			if closer[instrID(ev.instr)] {
				delete(st.tags, "acc")
			}
		case "usercall":
			if c.callback(ev) == "OnClose" {
				if st.tags["oc"] != nil {
					st.tags["oc"] = Int(2)
				} else {
					st.tags["oc"] = Int(1)
				}
				if live {
					c.ok("close-callback", site(g, ev))
				}
			}
		case "closed":
			if g.parent != nil {
				st.tags["end"] = True
			}
		case "rtpanic":
			if ev.name == "close of closed channel" && g.parent != nil {
				st.tags["end"] = True
			}
		}
	}
	e = c.explorer()
	chainCalls(e.it)
	e.it.panicCalls = true
	e.hook = hook
	e.noDispatch = true
	e.childTags = noTags
	// which goroutines tear the connection down on every exit
	for _, r := range streamServers {
		n := len(e.gos)
		e.run(r, nil, nil)
		for _, g := range e.gos[n:] {
			if g.parent == nil || g.parent.parent != nil {
				continue
			}
			k := instrID(g.sp.instr)
			w := c.tearsDown(g)
			if _, seen := closer[k]; !seen {
				closer[k] = true
			}
			closer[k] = closer[k] && w == ""
			if w != "" {
				why[k] = w
			} else {
				c.ok("teardown", g.name)
			}
		}
	}
	// every accepted connection is closed or handed to one of them
	e.rootOnly = true
	for _, r := range streamServers {
		g := e.run(r, nil, nil)
		if g == nil {
			continue
		}
		for _, o := range g.outs {
			pending(g, o.st, "the return of the serving call")
			if o.kind == 'p' {
				c.bad("accepted", r, "%s may panic", r)
			}
		}
	}
	c.atLeast("teardown", 2, "connection goroutines")
	c.atLeast("accepted", 4, "serving loops")
	c.atLeast("close-callback", 2, "calls of OnClose")
	c.closeConn()
}

// tearsDown: every outcome of g has closed the connection, announced its end, and run OnClose
// exactly once when it is set.
func (c *Check) tearsDown(g *Gor) string {
	if len(g.outs) == 0 {
		return g.name + " never ends"
	}
	any := false
	for _, o := range g.outs {
		if o.st.tags["oc"] != nil {
			any = true
		}
	}
	if !any {
		return "watcher"
	}
	for _, o := range g.outs {
		if o.st.tags["cl"] == nil {
			return g.name + " may end without closing the connection"
		}
		if o.st.tags["end"] == nil {
			return g.name + " may end without announcing the end of the connection"
		}
		n := o.st.tags["oc"]
		// is the callback set?
		set := 0
		for q, v := range o.st.f.bools {
			if q.isApp("isnil") && c.isField(q.args[0], "TcpX", "OnClose") {
				if v {
					set = -1
				} else {
					set = 1
				}
			}
		}
		switch {
		case n == Int(2):
			return g.name + " may run OnClose twice"
		case n == nil && set != -1:
			return g.name + " may end without running OnClose"
		}
	}
	return ""
}

// closeConn: CloseConn closes the transport and announces the end on every path.
func (c *Check) closeConn() {
	f := c.fn("Context.CloseConn")
	if f == nil {
		return
	}
	it := c.interp()
	it.onEvent = func(it *Interp, st *State, ev *Event) {
		switch ev.kind {
		case "method", "call":
			if opName(ev) == "Close" && len(ev.args) == 1 {
				if c.isField(ev.args[0], "Context", "Conn") {
					st.tags["cl"] = Str("tcp")
				}
				if c.isField(ev.args[0], "Context", "PacketConn") {
					st.tags["cl"] = Str("udp")
				}
			}
		case "closed":
			st.tags["end"] = True
		case "rtpanic":
			if ev.name == "close of closed channel" {
				st.tags["end"] = True
			}
		}
	}
	args := symArgs(f)
	end := c.fieldAt(newState(), args[0], "Context", c.endField())
	for _, o := range c.entry(it, f, args, newState()) {
		if o.kind == 'p' {
			c.bad("close-conn", "Context.CloseConn", "CloseConn may panic: %s", o.vals[0])
			continue
		}
		hasEnd := o.st.tags["end"] != nil || o.st.f.isNil(end) == 1
		c.that(hasEnd, "close-conn", "Context.CloseConn", "CloseConn may return without announcing the end of the connection")
		conn := c.field(newState(), args[0], "Context", "Conn")
		pc := c.field(newState(), args[0], "Context", "PacketConn")
		cl := o.st.tags["cl"]
		c.that(cl != nil || o.st.f.isNil(conn) == 1 && o.st.f.isNil(pc) == 1, "close-conn", "Context.CloseConn", "CloseConn may return without closing the transport")
	}
	c.atLeast("close-conn", 1, "paths of CloseConn")
}

// ---------------------------------------------------------------- C24

func ruleTLS(c *Check) {
	var e *explorer
	hook := func(g *Gor, st *State, ev *Event) {
		switch ev.kind {
		case "ok":
			n := ev.name
			switch {
			case strings.HasSuffix(n, "tls.Listen"):
				// ok0 network addr config
				st.tags["tls"] = Tuple(ev.args[0], ev.args[len(ev.args)-1])
			case strings.HasSuffix(n, "tls.NewListener"):
				st.tags["tls"] = Tuple(ev.args[0], ev.args[len(ev.args)-1])
			}
		case "call":
			if strings.HasSuffix(ev.name, "tls.NewListener") {
				st.tags["tlsarg"] = ev.args[len(ev.args)-1]
			}
		case "method":
		}
		if isAccept(ev) && e.it.trial == 0 {
			l := ev.args[0]
			s := g.root + " @ Accept"
			cfg := c.field(newState(), tcpxArg(g, c), "TcpX", "TLSConfig")
			cfgNil := st.f.isNil(cfg)
			t := st.tags["tls"]
			isTLS := t != nil && t.args[0] == l
			how := "plain"
			var got *Term
			if isTLS {
				how = "tls"
				got = t.args[1]
			} else if l.contains(func(x *Term) bool { return strings.Contains(x.name, "tls.NewListener") }) {
				how = "tls"
				got = st.tags["tlsarg"]
			}
			if how == "tls" {
				c.that(sameLoad(got, cfg), "listener", s+" (tls)", "%s accepts TLS connections with the configuration %s instead of the configured one", g.root, got)
			} else {
				c.that(cfgNil == 1, "listener", s+" (plain)", "%s accepts plain connections although a TLS configuration may be set", g.root)
			}
		}
	}
	e = c.explorer()
	chainCalls(e.it)
	e.rootOnly = true
	e.hook = hook
	for _, r := range streamServers {
		e.run(r, nil, nil)
	}
	c.atLeast("listener", 4, "accepting sites")
	c.loadTLS()
}

// tcpxArg is the receiver of the serving entry point g.
func tcpxArg(g *Gor, c *Check) *Term {
	f := c.p.Func(g.root)
	return symArgs(f)[0]
}

// loadTLS: LoadTLSFile installs exactly the loaded certificate, or fails and changes nothing.
func (c *Check) loadTLS() {
	f := c.fn("TcpX.LoadTLSFile")
	if f == nil {
		return
	}
	it := c.interp()
	args := symArgs(f)
	var loaded, la []*Term
	it.onEvent = func(it *Interp, st *State, ev *Event) {
		if ev.kind == "ok" && strings.HasSuffix(ev.name, "tls.LoadX509KeyPair") {
			st.tags["cert"] = Tuple(ev.args...)
			loaded = append(loaded, ev.args[0])
			la = append(la, ev.args[1:]...)
		}
	}
	fp, ft := c.fieldP(args[0], "TcpX", "TLSConfig")
	if fp == nil {
		return
	}
	before := newState().load(fp, ft)
	n := 0
	for _, o := range c.entry(it, f, args, newState()) {
		if o.kind != 'r' {
			c.bad("load-tls", "TcpX.LoadTLSFile", "LoadTLSFile may panic")
			continue
		}
		now := o.st.load(fp, ft)
		switch o.st.f.isNil(o.vals[0]) {
		case -1:
			c.that(now == before, "load-tls", "failure", "LoadTLSFile reports an error but changes the TLS configuration")
		case 1:
			n++
			cert := o.st.tags["cert"]
			if !c.that(cert != nil, "load-tls", "success", "LoadTLSFile succeeds without having loaded the certificate") {
				continue
			}
			// the paths given, in order
			k := len(cert.args)
			c.that(cert.args[k-2] == args[1] && cert.args[k-1] == args[2], "load-tls", "files", "LoadTLSFile loads other files than the given ones: %v", cert.args[1:])
			c.that(o.st.f.isNil(now) == -1 && now != before, "load-tls", "success", "LoadTLSFile succeeds without installing a configuration")
			// its certificates
			cfgT := c.tlsConfigCerts(o.st, now)
			ok := cfgT != nil && cfgT.contains(func(x *Term) bool { return x == cert.args[0] })
			if cfgT != nil && !ok {
				// a struct value: compare leaves
				ok = sharesSym(cfgT, cert.args[0])
			}
			c.that(ok, "load-tls", "certificate", "the installed configuration does not carry the loaded certificate (%v)", cfgT)
		default:
			c.bad("load-tls", "TcpX.LoadTLSFile", "cannot tell whether LoadTLSFile fails")
		}
	}
	c.that(n > 0, "load-tls", "success", "LoadTLSFile never succeeds")
}

func sharesSym(a, b *Term) bool {
	syms := map[*Term]bool{}
	b.contains(func(x *Term) bool {
		if x.op == OSym {
			syms[x] = true
		}
		return false
	})
	return a.contains(func(x *Term) bool { return syms[x] })
}

// tlsConfigCerts is the content of cfg.Certificates.
func (c *Check) tlsConfigCerts(st *State, cfg *Term) *Term {
	tp := c.named("TcpX")
	if tp == nil {
		return nil
	}
	i := fieldIndex(tp, "TLSConfig")
	pt, ok := tp.Underlying().(*types.Struct).Field(i).Type().(*types.Pointer)
	if !ok {
		return nil
	}
	n := types.Unalias(pt.Elem()).(*types.Named)
	j := fieldIndex(n, "Certificates")
	if j < 0 {
		return nil
	}
	ft := n.Underlying().(*types.Struct).Field(j).Type()
	sl := st.load(FieldP(cfg, j, ft), ft)
	sl = typed(sl, ft)
	if sl.op != OSlice {
		return sl
	}
	return Seq(st.sliceContent(sl)...)
}

// ---------------------------------------------------------------- C25

// setterField finds the field of recv's type that the exported setter writes its argument to.
func (c *Check) setterField(setter, typ string) int {
	f := c.fn(setter)
	if f == nil {
		return -1
	}
	it := c.interp()
	args := symArgs(f)
	idx := -1
	for _, o := range c.entry(it, f, args, newState()) {
		found := -1
		for p, v := range o.st.mem {
			q := p
			for q.op == OFieldP && q.args[0] != args[0] {
				q = q.args[0]
			}
			if q.op == OFieldP && q.args[0] == args[0] && sharesSym(v, args[1]) {
				found = int(q.c)
			}
		}
		if found < 0 || idx >= 0 && idx != found {
			c.bad("setter", setter, "%s does not store the deadline it is given", setter)
			return -1
		}
		idx = found
	}
	c.ok("setter", setter)
	return idx
}

func ruleDeadlines(c *Check) {
	gen := c.setterField("TcpX.SetDeadline", "TcpX")
	rd := c.setterField("TcpX.SetReadDeadline", "TcpX")
	wr := c.setterField("TcpX.SetWriteDeadline", "TcpX")
	if gen < 0 || rd < 0 || wr < 0 {
		return
	}
	c.that(gen != rd && rd != wr && gen != wr, "setter", "distinct", "two deadline setters write the same field")
	st0 := newState()
	tp := c.named("TcpX").Underlying().(*types.Struct)
	var e *explorer
	val := func(g *Gor, i int) *Term {
		t := tp.Field(i).Type()
		return st0.load(FieldP(tcpxArg(g, c), i, t), t)
	}
	check := func(g *Gor, st *State, what string) {
		for _, k := range []struct {
			tag, name string
			spec      int
		}{{"dr", "read", rd}, {"dw", "write", wr}} {
			s := g.root + ": " + k.name + " deadline before " + what
			got := st.tags[k.tag]
			spec, general := val(g, k.spec), val(g, gen)
			if got == nil {
				// nothing set: only right if both are unset
				c.that(isZeroTime(st, spec) == 1 && isZeroTime(st, general) == 1, "deadline", s, "%s uses a connection without its %s deadline", g.root, k.name)
				continue
			}
			switch {
			case sameLoad(got, spec):
				// clearing the general deadline with an unset one
				c.that(isZeroTime(st, spec) == -1 || isZeroTime(st, general) == 1, "deadline", s, "%s overrides the general deadline with an unset %s deadline", g.root, k.name)
			case sameLoad(got, general):
				c.that(isZeroTime(st, spec) == 1, "deadline", s, "%s may use the general deadline although a %s deadline is set", g.root, k.name)
			default:
				c.bad("deadline", s, "%s sets the %s deadline to %s", g.root, k.name, got)
			}
		}
	}
	isConn := func(t *Term) bool {
		return isAccepted(t) || t.op == OSym && strings.HasPrefix(t.name, "ok0:") && strings.Contains(t.name, "ListenPacket")
	}
	hook := func(g *Gor, st *State, ev *Event) {
		live := e.it.trial == 0
		switch ev.kind {
		case "method", "call":
			if isAccept(ev) {
				for _, k := range []string{"dr", "dw", "acc", "used"} {
					delete(st.tags, k)
				}
				return
			}
			if len(ev.args) == 0 || !isConn(ev.args[0]) {
				return
			}
			switch opName(ev) {
			case "SetDeadline":
				st.tags["dr"], st.tags["dw"] = ev.args[1], ev.args[1]
			case "SetReadDeadline":
				st.tags["dr"] = ev.args[1]
			case "SetWriteDeadline":
				st.tags["dw"] = ev.args[1]
			case "Read", "Write", "ReadFrom", "WriteTo":
				if live && st.tags["used"] == nil && g.parent == nil {
					check(g, st, opName(ev))
				}
			}
		case "ok":
			if (opName(ev) == "Accept" || opName(ev) == "ListenPacket") && len(ev.args) > 0 && isConn(ev.args[0]) {
				st.tags["acc"] = True
				delete(st.tags, "used")
				delete(st.tags, "dr")
				delete(st.tags, "dw")
			}
		case "go", "usercall":
			if g.parent == nil && st.tags["acc"] != nil {
				if live {
					check(g, st, ev.kind)
				}
			}
		}
	}
	e = c.explorer()
	chainCalls(e.it)
	e.rootOnly = true
	e.hook = hook
	for _, r := range c.servers() {
		e.run(r, nil, nil)
	}
	// a goroutine of the connection must not change the deadlines
	for _, g := range e.gos {
		if g.parent != nil {
			continue
		}
		c.ok("served", g.name)
	}
	c.atLeast("deadline", 10, "uses of a fresh connection")
	// through a context
	for _, k := range []string{"SetDeadline", "SetReadDeadline", "SetWriteDeadline"} {
		c.ctxDeadline(k)
	}
	c.atLeast("context", 3, "deadline setters of a context")
}

// isZeroTime: is the deadline v known to be unset (1) or set (-1) on this path?
func isZeroTime(st *State, v *Term) int {
	for q, val := range st.f.bools {
		if q.op == OApp && strings.Contains(q.name, "iszero") && len(q.args) == 1 && sameLoad(q.args[0], v) {
			if val {
				return 1
			}
			return -1
		}
	}
	return 0
}

func (c *Check) ctxDeadline(m string) {
	name := "Context." + m
	f := c.fn(name)
	if f == nil {
		return
	}
	it := c.interp()
	it.onEvent = func(it *Interp, st *State, ev *Event) {
		if (ev.kind == "method" || ev.kind == "call") && strings.HasPrefix(opName(ev), "Set") && strings.HasSuffix(opName(ev), "Deadline") && len(ev.args) == 2 {
			k := "tcp"
			if c.isField(ev.args[0], "Context", "PacketConn") {
				k = "udp"
			} else if !c.isField(ev.args[0], "Context", "Conn") {
				k = "?"
			}
			st.tags["d"] = Tuple(Str(k), Str(opName(ev)), ev.args[1])
		}
		if ev.kind == "err" && strings.HasSuffix(ev.name, "Deadline") {
			st.tags["fail"] = True
		}
	}
	args := symArgs(f)
	conn := c.field(newState(), args[0], "Context", "Conn")
	pc := c.field(newState(), args[0], "Context", "PacketConn")
	for _, o := range c.entry(it, f, args, newState()) {
		if o.kind != 'r' {
			c.bad("context", name, "%s may panic", name)
			continue
		}
		d := o.st.tags["d"]
		en := o.st.f.isNil(o.vals[0])
		if d == nil {
			ok := en == -1 || o.st.f.isNil(conn) == 1 && o.st.f.isNil(pc) == 1
			c.that(ok, "context", name, "%s may return without applying the deadline", name)
			continue
		}
		kind, _ := d.args[0].isStr()
		op, _ := d.args[1].isStr()
		c.that(op == m, "context", name, "%s applies %s instead", name, op)
		c.that(sameLoad(d.args[2], args[1]), "context", name, "%s applies another time than the given one", name)
		c.that(kind != "?", "context", name, "%s applies the deadline to something else than the context's connection", name)
		if o.st.tags["fail"] != nil {
			c.that(en == -1, "context", name, "%s hides the error of the transport", name)
		}
	}
}

var _ = fmt.Sprint
var _ *ssa.Function
