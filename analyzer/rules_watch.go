package main

// C07 goroutines of a connection, C14 heartbeats, C15 authentication.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C07", ruleGoroutines)
	register("C14", ruleHeartbeat)
	register("C15", ruleAuth)
}

// endField is the field of Context holding the channel that CloseConn closes.
func (c *Check) endField() int {
	f := c.fn("Context.CloseConn")
	if f == nil {
		return -1
	}
	it := c.interp()
	args := symArgs(f)
	idx := -1
	it.onEvent = func(it *Interp, st *State, ev *Event) {
		if ev.kind == "close" && ev.args[0].isApp("ld") && ev.args[0].args[0].op == OFieldP && ev.args[0].args[0].args[0] == args[0] {
			idx = int(ev.args[0].args[0].c)
		}
	}
	c.entry(it, f, args, newState())
	c.that(idx >= 0, "end-signal", "Context.CloseConn", "CloseConn closes no channel of the connection: nothing announces its end")
	return idx
}

// sentBy finds the channel field and the constant that an exported signalling method sends.
func (c *Check) sentBy(m string) (field int, val *Term) {
	field = -1
	f := c.fn(m)
	if f == nil {
		return
	}
	it := c.interp()
	args := symArgs(f)
	it.onEvent = func(it *Interp, st *State, ev *Event) {
		if (ev.kind == "send" || ev.kind == "selcase" && ev.name == "send") && len(ev.args) > 1 {
			ch := ev.args[0]
			if ch.isApp("ld") && ch.args[0].op == OFieldP && ch.args[0].args[0] == args[0] {
				field, val = int(ch.args[0].c), ev.args[1]
			}
		}
	}
	c.entry(it, f, args, newState())
	return
}

// ctxChan: ch is the channel kept in field i of a Context.
func (c *Check) ctxChan(st *State, ch *Term, i int) bool {
	if ch == nil || i < 0 {
		return false
	}
	isF := func(p *Term) bool {
		return p.op == OFieldP && int(p.c) == i && strings.HasSuffix(ptrElem(p.args[0]), "tcpx.Context")
	}
	if ch.isApp("ld") && isF(ch.args[0]) {
		return true
	}
	for p, v := range st.mem {
		if v == ch && isF(p) {
			return true
		}
	}
	return false
}

// hbCalls lets Context.HeartBeatChan return one symbol per connection (decided by hbChannel).
func (c *Check) hbCalls(it *Interp) {
	prev := it.onCall
	it.onCall = func(it *Interp, st *State, f *ssa.Function, args []*Term, in ssa.Instruction) ([]Outcome, bool) {
		if it.inPkg(f) && fnName(f) == "(*Context).HeartBeatChan" && len(args) == 1 {
			pc := c.field(st, args[0], "Context", "PerConnectionContext")
			return []Outcome{{kind: 'r', vals: []*Term{AppNN("hbchan", f.Signature.Results().At(0).Type(), pc)}, st: st}}, true
		}
		if prev != nil {
			return prev(it, st, f, args, in)
		}
		return nil, false
	}
}

// timerOf: ch fires once after duration d.
func timerOf(ch *Term) *Term {
	if ch.isApp("timeafter") {
		return ch.args[0]
	}
	if ch.isApp("ld") && ch.args[0].op == OFieldP && ch.args[0].args[0].isApp("newtimer") {
		return ch.args[0].args[0].args[0]
	}
	return nil
}

// ---------------------------------------------------------------- C07

func ruleGoroutines(c *Check) {
	end := c.endField()
	if end < 0 {
		return
	}
	var e *explorer
	waits := func(g *Gor, st *State, ev *Event, chans []*Term) {
		if e.it.trial != 0 {
			return
		}
		s := g.rootName() + " @ " + opSite(ev)
		if st.tags["ended"] != nil {
			c.bad("ends", s, "%s waits again although the connection has ended", g.name)
			return
		}
		for _, ch := range chans {
			if c.ctxChan(st, ch, end) {
				c.ok("ends", s)
				return
			}
		}
		c.bad("ends", s, "%s waits at %s for something else than the end of the connection only: it may outlive the connection", g.name, ev.pos)
	}
	e = c.explorer()
	chainCalls(e.it)
	c.hbCalls(e.it)
	e.childTags = noTags
	e.noDispatch = true
	e.it.panicCalls = true
	watch := func(g *Gor, st *State, ev *Event) {
		if g.parent == nil {
			return
		}
		live := e.it.trial == 0
		switch ev.kind {
		case "select":
			if ev.block {
				waits(g, st, ev, ev.args)
			}
		case "recv":
			waits(g, st, ev, ev.args)
			if c.ctxChan(st, ev.args[0], end) {
				st.tags["ended"] = True
			}
		case "send":
			if live {
				c.bad("ends", g.rootName()+" @ "+opSite(ev), "%s may block for ever sending at %s", g.name, ev.pos)
			}
		case "selcase":
			if ev.name == "recv" && c.ctxChan(st, ev.args[0], end) {
				st.tags["ended"] = True
			}
		case "call":
			if ev.name == "time.Sleep" || strings.HasSuffix(ev.name, "WaitGroup).Wait") || strings.HasSuffix(ev.name, "Cond).Wait") {
				if live {
					c.bad("ends", g.rootName()+" @ "+opSite(ev), "%s waits in %s, which the end of the connection does not interrupt", g.name, ev.name)
				}
			}
		}
	}
	e.hook = watch
	for _, r := range streamServers {
		e.run(r, nil, nil)
	}
	for _, g := range e.gos {
		if g.parent == nil {
			continue
		}
		c.that(len(g.outs) > 0, "terminates", g.name, "%s never ends", g.name)
	}
	c.atLeast("ends", 3, "waiting places of connection goroutines")
	c.atLeast("terminates", 6, "connection goroutines")

	// message goroutines wait for nothing
	dispatch := func(root string, keep func(g *Gor) bool) {
		e = c.explorer()
		chainCalls(e.it)
		c.hbCalls(e.it)
		e.childTags = noTags
		e.hook = func(g *Gor, st *State, ev *Event) {
			if !keep(g) || e.it.trial != 0 {
				return
			}
			switch ev.kind {
			case "select":
				c.that(!ev.block, "message", g.name+" @ "+opSite(ev), "%s may wait while handling a message", g.name)
			case "recv", "send":
				c.bad("message", g.name+" @ "+opSite(ev), "%s may wait while handling a message", g.name)
			case "go":
				c.bad("message", g.name+" @ "+opSite(ev), "%s starts another goroutine for a message", g.name)
			}
		}
		e.run(root, nil, nil)
		for _, g := range e.gos {
			if keep(g) {
				c.ok("message", g.name)
			}
		}
	}
	dispatch("TcpX.ListenAndServeUDP", func(g *Gor) bool { return g.parent != nil && g.parent.reads })
	c.atLeast("message", 1, "message goroutines")

	// signals and every other operation on a context never wait for a channel
	n := c.named("Context")
	if n == nil {
		return
	}
	ms := c.p.prog.MethodSets.MethodSet(types.NewPointer(n))
	for i := 0; i < ms.Len(); i++ {
		f := c.p.prog.MethodValue(ms.At(i))
		if f == nil || !ms.At(i).Obj().Exported() || f.Blocks == nil || f.Synthetic != "" || f.Pkg != c.p.pkg {
			continue
		}
		name := "Context." + f.Name()
		if f.Name() == "Next" {
			continue // runs user code
		}
		it := c.interp()
		it.onEvent = func(it *Interp, st *State, ev *Event) {
			if it.trial != 0 {
				return
			}
			switch ev.kind {
			case "select":
				c.that(!ev.block, "signal", name, "%s may wait at %s", name, ev.pos)
			case "recv", "send":
				c.bad("signal", name, "%s may wait at %s", name, ev.pos)
			}
		}
		c.entry(it, f, symArgs(f), newState())
		c.ok("signal", name)
	}
	c.atLeast("signal", 25, "exported operations of a context")
	// and they are heard: each signal is sent whenever there is room
	for _, m := range []string{"RecvAuthPass", "RecvAuthDeny", "RecvHeartBeat"} {
		c.signalSent("Context." + m)
	}
}

// signalSent: the method tries to send on every path.
func (c *Check) signalSent(m string) {
	f := c.fn(m)
	if f == nil {
		return
	}
	it := c.interp()
	c.hbCalls(it)
	n := 0
	it.onEvent = func(it *Interp, st *State, ev *Event) {
		if ev.kind == "select" && !ev.block || ev.kind == "send" {
			st.tags["try"] = True
			n++
		}
	}
	for _, o := range c.entry(it, f, symArgs(f), newState()) {
		if o.kind == 'r' {
			if o.st.tags["try"] == nil {
				// only for contexts that have no connection
				n = -1
			}
		}
	}
	c.that(n != 0, "signal", m, "%s never sends its signal", m)
}

// opSite names a construct independently of its line.
func opSite(ev *Event) string {
	fn := "?"
	if ev.fn != nil {
		fn = fnName(ev.fn)
	}
	return ev.kind + " in " + fn
}

// ---------------------------------------------------------------- watchers

type watcher struct {
	c       *Check
	e       *explorer
	is      func(st *State, ch *Term) bool // the channel that makes a goroutine this watcher
	on      func(st *State) int            // is the feature on? 1 yes, -1 no, 0 unknown
	name    string
	starts  map[string]bool
	watches []*Gor
}

// explore finds the watcher goroutines and checks that each accepted connection gets one when the
// feature is on.
func (w *watcher) explore(roots []string, hook func(g *Gor, st *State, ev *Event)) {
	c := w.c
	e := c.explorer()
	w.e = e
	chainCalls(e.it)
	c.hbCalls(e.it)
	e.childTags = noTags
	e.noDispatch = true
	e.it.panicCalls = true
	isW := map[*Gor]bool{}
	w.starts = map[string]bool{}
	e.hook = func(g *Gor, st *State, ev *Event) {
		if e.rootOnly {
			switch ev.kind {
			case "ok":
				if opName(ev) == "Accept" && len(ev.args) > 0 && isAccepted(ev.args[0]) {
					st.tags["acc"] = True
				}
			case "method", "call":
				if isAccept(ev) {
					if e.it.trial == 0 {
						w.started(g, st, "the next Accept")
					}
					delete(st.tags, "acc")
					delete(st.tags, "hw")
				}
				if opName(ev) == "Close" && len(ev.args) == 1 && isAccepted(ev.args[0]) {
					delete(st.tags, "acc")
				}
			case "go":
				if w.starts[instrID(ev.instr)] {
					delete(st.tags, "acc")
				}
			}
			return
		}
		if g.parent == nil {
			return
		}
		if ev.kind == "select" || ev.kind == "recv" {
			for _, ch := range ev.args {
				if w.is(st, ch) {
					isW[g] = true
				}
			}
		}
		if ev.kind == "go" && !g.reads {
			st.tags["go:"+instrID(ev.instr)] = True
		}
		hook(g, st, ev)
	}
	for _, r := range roots {
		e.rootOnly = false
		n := len(e.gos)
		e.run(r, nil, nil)
		// bottom up: a go statement starts the watcher if its goroutine is it, or starts it
		gos := e.gos[n:]
		for i := len(gos) - 1; i >= 0; i-- {
			g := gos[i]
			if g.parent == nil {
				continue
			}
			k := instrID(g.sp.instr)
			if isW[g] {
				w.watches = append(w.watches, g)
				w.starts[k] = true
				continue
			}
			all := len(g.outs) > 0 && !g.reads
			some := false
			for _, o := range g.outs {
				ok := w.on(o.st) == -1
				for _, t := range sortedTags(o.st) {
					if strings.HasPrefix(t, "go:") && w.starts[t[3:]] {
						ok, some = true, true
					}
				}
				all = all && ok
			}
			if all && some {
				w.starts[k] = true
			}
		}
		e.rootOnly = true
		g := e.run(r, nil, nil)
		if g == nil {
			continue
		}
		for _, o := range g.outs {
			w.started(g, o.st, "the return of the serving call")
		}
	}
}

func (w *watcher) started(g *Gor, st *State, where string) {
	ok := st.tags["acc"] == nil || w.on(st) == -1
	w.c.that(ok, "started", g.root+" until "+where, "%s: a connection is served without its %s watcher although the feature may be on", g.root, w.name)
}

func boolFact(st *State, t *Term) int {
	if t == True {
		return 1
	}
	if t == False {
		return -1
	}
	for q, v := range st.f.bools {
		if sameLoad(q, t) {
			if v {
				return 1
			}
			return -1
		}
	}
	return 0
}

// ---------------------------------------------------------------- C14

func ruleHeartbeat(c *Check) {
	end := c.endField()
	if end < 0 {
		return
	}
	c.hbChannel()
	w := &watcher{c: c, name: "heartbeat"}
	w.is = func(st *State, ch *Term) bool { return ch.isApp("hbchan") }
	tx := func() *Term { return symArgs(c.p.Func("TcpX.ListenAndServeTCP"))[0] }
	w.on = func(st *State) int { return boolFact(st, c.field(newState(), tx(), "TcpX", "HeartBeatOn")) }
	three := Int(3)
	bad := func(g *Gor, rule, format string, a ...interface{}) {
		if w.e.it.trial == 0 {
			c.bad(rule, g.name, format, a...)
		}
	}
	w.explore(streamServers, func(g *Gor, st *State, ev *Event) {
		hb := st.tags["hb"]
		why := st.tags["why"]
		if st.tags["hw"] == nil && ev.kind != "select" && ev.kind != "call" {
			return
		}
		switch ev.kind {
		case "call":
			switch {
			case ev.name == "time.After" || ev.name == "time.NewTimer" || strings.HasSuffix(ev.name, "Timer).Reset"):
				st.tags["tm"] = True
			}
		case "select":
			has, tick := false, false
			for _, ch := range ev.args {
				if ch.isApp("hbchan") {
					has = true
				}
				if d := timerOf(ch); d != nil {
					tick = true
					if w.e.it.trial == 0 && hbSel(ev.args) {
						c.that(c.isField(d, "TcpX", "HeatBeatInterval"), "interval", g.name, "%s waits for %s instead of the heartbeat interval", g.name, d)
						c.that(st.tags["tm"] != nil, "interval", g.name, "%s does not restart the interval", g.name)
					}
				}
			}
			if !has {
				return
			}
			st.tags["hw"] = True
			if !tick {
				bad(g, "interval", "%s waits for heartbeats without an interval", g.name)
			}
			if hb == three {
				bad(g, "three", "%s goes on waiting after three silent intervals", g.name)
			}
			if why != nil && (why == Str("end") || why == Str("all")) {
				bad(g, "three", "%s goes on waiting after the connection or the server ended", g.name)
			}
			if w.e.it.trial == 0 {
				c.ok("three", g.name)
			}
		case "selcase":
			if ev.name != "recv" {
				return
			}
			ch := ev.args[0]
			switch {
			case ch.isApp("hbchan"):
				st.tags["hb"] = Int(0)
				st.tags["why"] = Str("beat")
			case timerOf(ch) != nil:
				n := int64(0)
				if hb != nil {
					n, _ = hb.isInt()
				}
				if n < 4 {
					n++
				}
				st.tags["hb"] = Int(n)
				st.tags["why"] = Str("tick")
			case c.ctxChan(st, ch, end):
				st.tags["why"] = Str("end")
			default:
				st.tags["why"] = Str("all")
			}
			delete(st.tags, "tm")
		case "usercall":
			if c.callback(ev) == "OnHeartbeatLoss" {
				if why != Str("tick") || hb != three {
					bad(g, "loss-callback", "%s reports a lost heartbeat after %v silent intervals", g.name, hb)
				} else if st.tags["cl"] != nil {
					bad(g, "loss-callback", "%s reports the lost heartbeat after closing the connection", g.name)
				} else if w.e.it.trial == 0 {
					c.ok("loss-callback", g.name)
				}
				st.tags["loss"] = True
			}
		case "method":
			if opName(ev) == "Close" && len(ev.args) == 1 && isAccepted(ev.args[0]) && st.tags["why"] != nil {
				st.tags["cl"] = True
				if why == Str("all") || why == Str("end") || why == Str("tick") && hb == three {
					return
				}
				bad(g, "three", "%s closes the connection after %v silent intervals (%v)", g.name, hb, why)
			}
		}
	})
	for _, g := range w.watches {
		for _, o := range g.outs {
			hb, why := o.st.tags["hb"], o.st.tags["why"]
			if why == nil {
				// no connection to watch: the feature is off
				if o.st.tags["cl"] == nil {
					c.that(w.on(o.st) == -1, "three", g.name, "%s may end before watching", g.name)
				}
				continue
			}
			ws, _ := why.isStr()
			switch ws {
			case "end":
			case "all":
				c.that(o.st.tags["cl"] != nil, "three", g.name, "%s ends on server stop without closing the connection", g.name)
			case "tick":
				if c.that(hb == three, "three", g.name, "%s ends after %v silent intervals", g.name, hb) {
					c.that(o.st.tags["cl"] != nil, "three", g.name, "%s may leave the connection open after three silent intervals", g.name)
					if o.st.tags["loss"] == nil {
						lossNil := 0
						for q, v := range o.st.f.bools {
							if q.isApp("isnil") && c.isField(q.args[0], "TcpX", "OnHeartbeatLoss") && v {
								lossNil = 1
							}
						}
						c.that(lossNil == 1, "loss-callback", g.name, "%s may close the connection without the heartbeat-loss callback", g.name)
					}
				}
			default:
				c.bad("three", g.name, "%s ends after a heartbeat", g.name)
			}
			if o.kind == 'p' {
				c.bad("three", g.name, "%s may panic", g.name)
			}
		}
	}
	c.atLeast("three", 2, "heartbeat watchers")
	c.atLeast("loss-callback", 2, "heartbeat watchers")
	c.atLeast("interval", 2, "heartbeat watchers")
	c.atLeast("started", 4, "serving loops")
	// a received heartbeat reaches the channel
	f := c.fn("Context.RecvHeartBeat")
	if f != nil {
		it := c.interp()
		c.hbCalls(it)
		args := symArgs(f)
		pc := c.field(newState(), args[0], "Context", "PerConnectionContext")
		it.onEvent = func(it *Interp, st *State, ev *Event) {
			if ev.kind == "select" || ev.kind == "send" {
				for _, ch := range ev.args[:1] {
					if ch.isApp("hbchan") && sameLoad(ch.args[0], pc) {
						st.tags["try"] = True
					}
				}
			}
		}
		for _, o := range c.entry(it, f, args, newState()) {
			if o.kind == 'r' && o.st.tags["try"] == nil {
				c.that(o.st.f.isNil(pc) == 1, "beat", "Context.RecvHeartBeat", "RecvHeartBeat may return without reporting the heartbeat to the connection's watcher")
			} else {
				c.ok("beat", "Context.RecvHeartBeat")
			}
		}
	}
	// the built-in handlers report
	for _, m := range []string{"TcpX.HeartBeatMode", "TcpX.HeartBeatModeDetail"} {
		c.builtinBeat(m)
	}
	c.atLeast("beat", 3, "ways to report a heartbeat")
}

func hbSel(chans []*Term) bool {
	for _, ch := range chans {
		if ch.isApp("hbchan") {
			return true
		}
	}
	return false
}

// builtinBeat: the handler registered by m reports a heartbeat on every path.
func (c *Check) builtinBeat(m string) {
	f := c.fn(m)
	if f == nil {
		return
	}
	it := c.interp()
	var hs []*Term
	it.onCall = func(it *Interp, st *State, g *ssa.Function, args []*Term, in ssa.Instruction) ([]Outcome, bool) {
		if it.inPkg(g) && fnName(g) == "(*TcpX).AddHandler" && len(args) >= 3 {
			if args[2].op == OSlice {
				for _, ch := range st.sliceContent(args[2]) {
					if ch.isApp("elem") {
						hs = append(hs, ch.args[0])
					} else {
						hs = append(hs, ch)
					}
				}
			}
			return []Outcome{{kind: 'r', st: st}}, true
		}
		return nil, false
	}
	args := symArgs(f)
	for _, o := range c.entry(it, f, args, newState()) {
		if o.kind != 'r' {
			continue
		}
		on := c.field(o.st, args[0], "TcpX", "HeartBeatOn")
		c.that(on == args[1], "beat", m, "%s does not switch heartbeats as told", m)
		d := c.field(o.st, args[0], "TcpX", "HeatBeatInterval")
		c.that(d == args[2], "beat", m, "%s does not set the interval it is given", m)
	}
	if !c.that(len(hs) > 0, "beat", m, "%s registers no heartbeat handler", m) {
		return
	}
	for _, h := range hs {
		if h.op != OFunc && h.op != OClosure {
			c.bad("beat", m, "%s registers an unknown handler", m)
			continue
		}
		it := c.interp()
		c.hbCalls(it)
		it.onEvent = func(it *Interp, st *State, ev *Event) {
			if ev.kind == "select" || ev.kind == "send" {
				if ev.args[0].isApp("hbchan") {
					st.tags["try"] = True
				}
			}
		}
		ctx := typed(SymNN("arg:ctx", h.fn.Params[0].Type()), h.fn.Params[0].Type())
		pc := c.field(newState(), ctx, "Context", "PerConnectionContext")
		c.entries = append(c.entries, fnName(h.fn))
		for _, o := range it.Call(h.fn, []*Term{ctx}, h.args, newState(), false, nil, nil) {
			if o.kind == 'r' {
				c.that(o.st.tags["try"] != nil || o.st.f.isNil(pc) == 1, "beat", m, "the handler registered by %s may not report the heartbeat", m)
			}
		}
	}
}

// hbChannel: HeartBeatChan returns the one channel kept for the connection.
func (c *Check) hbChannel() {
	f := c.fn("Context.HeartBeatChan")
	if f == nil {
		return
	}
	it := c.interp()
	args := symArgs(f)
	keys := map[*Term]bool{}
	pc := c.field(newState(), args[0], "Context", "PerConnectionContext")
	it.onEvent = func(it *Interp, st *State, ev *Event) {
		if ev.kind == "syncmap" && len(ev.args) > 1 {
			found := false
			for q, v := range st.f.bools {
				if v && (q.isApp("smok") || strings.HasPrefix(q.name, "smok")) {
					found = true // the entry was there, and is no channel
				}
			}
			if ev.name == "Store" && it.trial == 0 && !found {
				// storing unconditionally may replace a channel that is in use
				c.bad("channel", "Context.HeartBeatChan", "HeartBeatChan may replace the channel its watcher listens to")
			}
			if sameLoad(ev.args[0], pc) {
				keys[unIface(ev.args[1])] = true
				st.tags["k"] = True
			}
		}
	}
	init := newState()
	init.assume(Eq(c.field(init, args[0], "Context", "Conn"), Nil), false) // a stream connection
	for _, o := range c.entry(it, f, args, init) {
		if o.kind != 'r' {
			continue
		}
		if o.st.f.isNil(pc) == 1 {
			continue
		}
		c.that(o.st.tags["k"] != nil, "channel", "Context.HeartBeatChan", "HeartBeatChan returns a channel that is not kept for the connection")
	}
	c.that(len(keys) == 1, "channel", "Context.HeartBeatChan", "HeartBeatChan keeps the channel under %d keys", len(keys))
	for k := range keys {
		_, isC := k.isStr()
		c.that(isC || k.isConst(), "channel", "Context.HeartBeatChan", "HeartBeatChan keeps the channel under a varying key %s", k)
	}
	// one channel for all message contexts: the copies share the connection-scoped store (C13)
}

// ---------------------------------------------------------------- C15

// argField finds the field of the receiver an exported method stores argument i in.
func (c *Check) argField(m string, i int) int {
	f := c.fn(m)
	if f == nil {
		return -1
	}
	it := c.interp()
	it.onCall = func(it *Interp, st *State, g *ssa.Function, args []*Term, in ssa.Instruction) ([]Outcome, bool) {
		if it.inPkg(g) && fnName(g) == "(*TcpX).AddHandler" {
			return []Outcome{{kind: 'r', st: st}}, true
		}
		return nil, false
	}
	args := symArgs(f)
	res := -1
	for _, o := range c.entry(it, f, args, newState()) {
		for p, v := range o.st.mem {
			if p.op == OFieldP && p.args[0] == args[0] && v == args[i] {
				res = int(p.c)
			}
		}
	}
	c.that(res >= 0, "setter", m+" argument "+itoa(i), "%s does not store its argument", m)
	return res
}

func ruleAuth(c *Check) {
	end := c.endField()
	if end < 0 {
		return
	}
	fp, pass := c.sentBy("Context.RecvAuthPass")
	fd, deny := c.sentBy("Context.RecvAuthDeny")
	if !c.that(fp >= 0 && fp == fd, "signal", "Context.RecvAuthPass/RecvAuthDeny", "acceptance and denial are not sent to one channel of the connection") {
		return
	}
	if !c.that(pass != deny && pass.isConst() && deny.isConst(), "signal", "constants", "acceptance and denial send the same or unknown values (%s, %s)", pass, deny) {
		return
	}
	fAuth := c.argField("TcpX.WithAuthDetail", 1)
	fDl := c.argField("TcpX.WithAuthDetail", 2)
	if fAuth < 0 || fDl < 0 {
		return
	}
	tp := c.named("TcpX").Underlying().(*types.Struct)
	tx := symArgs(c.p.Func("TcpX.ListenAndServeTCP"))[0]
	auth := newState().load(FieldP(tx, fAuth, tp.Field(fAuth).Type()), tp.Field(fAuth).Type())
	for _, res := range []struct {
		name string
		val  *Term
	}{{"pass", pass}, {"deny", deny}} {
		c.authRun(end, fp, fDl, auth, res.name, res.val)
	}
	c.atLeast("decides", 5, "reactions of the authentication watcher")
	c.atLeast("started", 2, "serving loops")
}

// authRun decides the watcher's reactions when the result it receives is val.
func (c *Check) authRun(end, fp, fDl int, auth *Term, res string, val *Term) {
	w := &watcher{c: c, name: "authentication"}
	w.is = func(st *State, ch *Term) bool { return c.ctxChan(st, ch, fp) }
	w.on = func(st *State) int { return boolFact(st, auth) }
	w.explore([]string{"TcpX.ListenAndServeTCP"}, func(g *Gor, st *State, ev *Event) {
		switch ev.kind {
		case "select":
			has, tick := false, false
			for _, ch := range ev.args {
				has = has || c.ctxChan(st, ch, fp)
				if d := timerOf(ch); d != nil {
					tick = d.isApp("ld") && d.args[0].op == OFieldP && int(d.args[0].c) == fDl && c.isTcpX(d.args[0].args[0])
				}
			}
			if !has {
				return
			}
			if w.e.it.trial == 0 {
				c.that(tick, "deadline", g.name, "%s waits for the result without the configured time limit", g.name)
				c.that(st.tags["why"] == nil, "decides", g.name, "%s waits again after %v", g.name, st.tags["why"])
			}
		case "selcase":
			if ev.name != "recv" {
				return
			}
			ch := ev.args[0]
			switch {
			case c.ctxChan(st, ch, fp):
				st.tags["why"] = Str("result")
				st.assume(EqI(ev.args[1], val), true)
			case timerOf(ch) != nil:
				st.tags["why"] = Str("deadline")
			case c.ctxChan(st, ch, end):
				st.tags["why"] = Str("end")
			default:
				st.tags["why"] = Str("stop")
			}
		case "method":
			if opName(ev) == "Close" && len(ev.args) == 1 && isAccepted(ev.args[0]) && st.tags["why"] != nil {
				st.tags["cl"] = True
			}
		}
	})
	for _, g := range w.watches {
		seen := map[string]bool{}
		for _, o := range g.outs {
			if o.kind == 'p' {
				c.bad("decides", g.name, "%s may panic", g.name)
				continue
			}
			why := o.st.tags["why"]
			if why == nil {
				c.bad("decides", g.name, "%s may end without waiting for the result", g.name)
				continue
			}
			ws, _ := why.isStr()
			cl := o.st.tags["cl"] != nil
			switch ws {
			case "deadline", "stop":
				seen[ws] = true
				c.that(cl, "decides", g.name+" on "+ws, "%s leaves the connection open on %s", g.name, ws)
			case "end":
				seen[ws] = true
			case "result":
				seen[res] = true
				if res == "pass" {
					c.that(!cl, "decides", g.name+" on acceptance", "%s closes an accepted connection", g.name)
				} else {
					c.that(cl, "decides", g.name+" on denial", "%s leaves a denied connection open", g.name)
				}
			}
		}
		for _, k := range []string{"deadline", "end", res} {
			c.that(seen[k], "decides", g.name+" on "+k, "%s does not react to %s", g.name, k)
		}
	}
}

func (c *Check) isTcpX(p *Term) bool { return strings.HasSuffix(ptrElem(p), "tcpx.TcpX") }
