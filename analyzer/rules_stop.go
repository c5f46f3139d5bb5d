package main

// C16 stopping and C17 starting again.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C16", ruleStop)
	register("C17", ruleStart)
}

// srv describes how the server keeps its state.
type srv struct {
	c                           *Check
	state, props, sig, listener int
	serve                       int // remembered function, field of PropertyCache
	run, stop                   *Term
}

func (c *Check) server() *srv {
	s := &srv{c: c, state: c.getterField("TcpX.State"), props: c.fieldOfType("TcpX", "[]*"+rootPath+".PropertyCache"),
		sig: c.fieldOfType("TcpX", "chan "), listener: c.fieldIdx("PropertyCache", "Listener"), serve: c.fieldOfType("PropertyCache", "func("),
		run: c.constInt("STATE_RUNNING"), stop: c.constInt("STATE_STOP")}
	if s.state < 0 || s.props < 0 || s.sig < 0 || s.listener < 0 || s.serve < 0 {
		return nil
	}
	return s
}

func (s *srv) fp(tx *Term, i int) (*Term, types.Type) {
	ft := s.c.named("TcpX").Underlying().(*types.Struct).Field(i).Type()
	return FieldP(tx, i, ft), ft
}

// isSrvField: p is the address of field i of a server.
func (s *srv) isSrvField(p *Term, i int) bool {
	return p.op == OFieldP && int(p.c) == i && (pointee(p.args[0]) == s.c.named("TcpX") || namedOf(derefType(p.args[0])) == "TcpX")
}

// with makes a server in the given state that has n things open.
func (s *srv) with(tx, state *Term, n int) (*State, []*Term, []*Term) {
	st := newState()
	p, t := s.fp(tx, s.state)
	st.store(p, t, state)
	pt := s.c.named("PropertyCache")
	ps := pt.Underlying().(*types.Struct)
	var objs, props, chunks []*Term
	net := s.c.p.prog.ImportedPackage("net")
	for i := 0; i < n; i++ {
		kind := "TCPListener"
		if i%2 == 1 {
			kind = "UDPConn"
		}
		lt := types.NewPointer(net.Type(kind).Type())
		l := SymNN("listener"+itoa(i), lt)
		pr := intern(Term{op: OObj, name: "property" + itoa(i), typ: pt, flag: FFresh})
		for j := 0; j < ps.NumFields(); j++ {
			ft := ps.Field(j).Type()
			st.store(FieldP(pr, j, ft), ft, typed(Sym("property"+itoa(i)+"."+ps.Field(j).Name(), ft), ft))
		}
		st.store(FieldP(pr, s.listener, ps.Field(s.listener).Type()), ps.Field(s.listener).Type(), mkIface(l, lt))
		f := SymNN("serve"+itoa(i), ps.Field(s.serve).Type())
		st.store(FieldP(pr, s.serve, ps.Field(s.serve).Type()), ps.Field(s.serve).Type(), f)
		objs, props = append(objs, l), append(props, f)
		chunks = append(chunks, App("elem", nil, pr))
	}
	o := SymNN("properties", types.NewArray(types.NewPointer(pt), int64(n)))
	st.mem[o] = Seq(chunks...)
	p, t = s.fp(tx, s.props)
	st.store(p, t, mkSlice(o, Int(0), Int(int64(n)), Int(int64(n)), False))
	return st, objs, props
}

// ---------------------------------------------------------------- C16

func ruleStop(c *Check) {
	s := c.server()
	f := c.fn("TcpX.Stop")
	if s == nil || f == nil {
		return
	}
	for n := 0; n <= 3; n++ {
		for _, all := range []*Term{False, True} {
			s.stopOnce(f, s.run, n, all)
		}
	}
	for _, all := range []*Term{False, True} {
		s.stopOnce(f, s.stop, 2, all)
	}
	s.stopAtomic(f)
	s.loopsEnd()
	for _, r := range c.servers() {
		for n := 0; n <= 2; n++ {
			s.remembered(r, n, false)
		}
	}
	c.atLeast("remembered", 9, "serving calls")
	s.watched()
	c.atLeast("stop", 10, "effects of Stop")
	c.atLeast("atomic", 2, "changes of the server's state by Stop")
	c.atLeast("ends", 3, "serving loops")
	c.atLeast("watched", 4, "serving loops")
	c.atLeast("watcher", 2, "goroutines waiting for the signal")
	c.atLeast("stopped", 4, "refused stops")
}

// stopOnce: what Stop does to a server that has n things open, when nothing else happens meanwhile.
func (s *srv) stopOnce(f *ssa.Function, state *Term, n int, all *Term) {
	c := s.c
	e := c.explorer()
	it := e.it
	it.noHavoc = true
	it.noJoin = true
	e.rootOnly = true
	args := symArgs(f)
	args[1] = all
	st, objs, _ := s.with(args[0], state, n)
	sigP, sigT := s.fp(args[0], s.sig)
	sig0 := st.load(sigP, sigT)
	st.assume(Eq(sig0, Nil), false)
	stP, stT := s.fp(args[0], s.state)
	running := state == s.run
	site := map[bool]string{true: "close-all", false: "keep"}[all == True]
	if !running {
		site += " when stopped"
	}
	e.hook = func(g *Gor, st *State, ev *Event) {
		switch ev.kind {
		case "method", "call":
			if opName(ev) == "Close" && len(ev.args) > 0 {
				st.tags["effect"] = Str("closes something")
				for i, o := range objs {
					if ev.args[0].contains(func(x *Term) bool { return x == o }) {
						st.tags["closed"+itoa(i)] = True
					}
				}
			}
		case "close":
			st.tags["effect"] = Str("closes a channel")
			if ev.args[0] != sig0 {
				st.tags["other"] = True
			}
		case "closed":
			if ev.args[0] == sig0 {
				st.tags["signal"] = True
			}
		case "go":
			st.tags["effect"] = Str("starts a goroutine")
		}
	}
	for _, o := range e.run("TcpX.Stop", args, st).outs {
		if o.kind != 'r' {
			// closing a closed signal: excluded as the signal is renewed whenever it is closed
			if o.kind == 'p' && o.vals[0].isApp("runtimeerror:close") && o.st.tags["signal"] == nil {
				continue
			}
			c.bad("stop", site, "Stop does not return: %v", o.vals)
			continue
		}
		st := o.st
		state1 := st.load(stP, stT)
		sig1 := st.load(sigP, sigT)
		if !running {
			c.that(len(o.vals) == 1 && st.f.isNil(o.vals[0]) == -1, "stopped", site+" error", "stopping a stopped server may be reported as a success")
			c.that(st.tags["effect"] == nil, "stopped", site+" effect", "stopping a stopped server %v", st.tags["effect"])
			c.that(st.f.eqInt(state1, s.stop) && sig1 == sig0, "stopped", site+" state", "stopping a stopped server changes its state")
			continue
		}
		c.that(isNilErr(o), "stop", site+" error", "stopping a running server fails")
		c.that(st.f.eqInt(state1, s.stop), "stop", site+" state", "after Stop the server is not in the stopped state: serving loops go on")
		for i := range objs {
			c.that(st.tags["closed"+itoa(i)] != nil, "stop", site+" listener "+itoa(i+1)+" of "+itoa(n), "Stop leaves listener %d of %d open", i+1, n)
		}
		if all == True {
			c.that(st.tags["signal"] != nil && st.tags["other"] == nil, "stop", site+" signal", "Stop with close-all does not close the signal the connections wait on")
			c.that(sig1 != sig0 && st.f.isNil(sig1) == -1 && isFresh(sig1), "stop", site+" renewed", "after Stop with close-all the signal is not renewed: connections accepted after a restart are closed at once, or never")
		} else {
			c.that(st.tags["signal"] == nil && st.tags["other"] == nil, "stop", site+" signal", "Stop without close-all closes a signal")
			c.that(sig1 == sig0, "stop", site+" renewed", "Stop without close-all replaces the signal: later a close-all does not reach the connections accepted before")
			c.that(st.tags["effect"] != Str("starts a goroutine"), "stop", site+" goroutine", "Stop without close-all starts a goroutine")
		}
	}
}

// writeLocked: a lock of the server is held for writing.
func (s *srv) writeLocked(it *Interp, st *State) bool {
	for _, l := range st.locks {
		if owner, n, _ := it.lockOwner(st, l.lock); owner != nil && n.Obj().Name() == "TcpX" && st.holds(l.lock) == 'w' {
			return true
		}
	}
	return false
}

// stopAtomic: among stops that race exactly one finds the server running, and each signal is
// closed by the one that replaced it.
func (s *srv) stopAtomic(f *ssa.Function) {
	c := s.c
	e := c.explorer()
	it := e.it
	it.noJoin = true
	e.rootOnly = true
	args := symArgs(f)
	it.onAccess = func(it *Interp, st *State, p *Term, in ssa.Instruction, mode byte) {
		switch {
		case mode != 'w':
		case s.isSrvField(p, s.state):
			st.tags["marked"] = True
			if it.trial != 0 {
				return
			}
			_, t := s.fp(args[0], s.state)
			c.that(s.writeLocked(it, st), "atomic", "state", "Stop changes the state without the lock")
			c.that(st.f.holds(EqI(st.load(p, t), s.stop)) == -1, "atomic", "state tested", "Stop does not test, in the critical section in which it marks the server stopped, that the server is running: of two stops that race both succeed")
		case s.isSrvField(p, s.sig):
			_, t := s.fp(args[0], s.sig)
			st.tags["old"] = st.load(p, t)
			if it.trial == 0 {
				c.that(s.writeLocked(it, st), "atomic", "signal", "Stop replaces the signal without the lock")
			}
		}
	}
	e.hook = func(g *Gor, st *State, ev *Event) {
		if ev.kind == "close" && len(ev.args) > 0 && ev.args[0].typ != nil && types.Identical(ev.args[0].typ, s.sigType()) {
			st.tags["sig"] = ev.args[0]
		}
	}
	for _, o := range e.run("TcpX.Stop", args, nil).outs {
		if o.kind == 'r' && o.st.f.isNil(o.vals[0]) != -1 {
			c.that(o.st.tags["marked"] != nil, "atomic", "success", "Stop may succeed without having marked the running server as stopped itself: of two stops that race both succeed")
		}
		if o.st.tags["old"] == nil && o.st.tags["sig"] == nil {
			continue
		}
		c.that(o.st.tags["old"] == o.st.tags["sig"], "atomic", "signal swapped", "Stop does not close exactly the signal it replaced: when it races with another stop or with serving calls, a signal is closed twice or never")
	}
}

func (s *srv) sigType() types.Type {
	return s.c.named("TcpX").Underlying().(*types.Struct).Field(s.sig).Type()
}

// loopsEnd: once its listener or socket was closed by Stop, a serving loop does not wait for the
// next connection or datagram again.
func (s *srv) loopsEnd() {
	c := s.c
	e := c.explorer()
	it := e.it
	chainCalls(it)
	tt := c.named("TcpX")
	it.onBranch = func(it *Interp, st *State, cond *Term, truth bool) {
		if st.tags["failed"] != nil && cond.contains(func(x *Term) bool {
			return x.isApp("ld") && x.args[0].op == OFieldP && int(x.args[0].c) == s.state && pointee(x.args[0].args[0]) == tt &&
				(st.f.holds(EqI(x, s.stop)) == -1 || st.f.eqInt(x, s.run))
		}) {
			delete(st.tags, "failed")
		}
	}
	e.childTags = noTags
	e.noDispatch = true
	e.hook = func(g *Gor, st *State, ev *Event) {
		op := opName(ev)
		if op != "Accept" && op != "ReadFrom" {
			return
		}
		switch ev.kind {
		case "method", "call":
			if it.trial == 0 {
				c.that(st.tags["failed"] == nil, "ends", g.root, "%s waits again on a listener or socket that failed without looking whether the server was stopped", g.root)
			}
			delete(st.tags, "failed")
		case "ok":
			delete(st.tags, "failed")
		case "err":
			st.tags["failed"] = True
		}
	}
	for _, r := range c.servers() {
		e.run(r, nil, nil)
	}
}

// watched: each accepted connection is watched by a goroutine that closes it when the signal which
// was current when it was accepted is closed, and by nothing that ends it when the server is merely
// stopped.
func (s *srv) watched() {
	c := s.c
	end := c.endField()
	isSig := func(ch *Term) bool {
		return ch != nil && ch.isApp("ld") && s.isSrvField(ch.args[0], s.sig)
	}
	var e *explorer
	watcher := map[string]bool{}
	sigOf := map[*Term]bool{} // signals read only after the connection was accepted
	pending := func(g *Gor, st *State, where string) {
		c.that(st.tags["acc"] == nil, "watched", g.root+" until "+where, "%s: an accepted connection is neither closed nor given to a goroutine that closes it when the close-all signal of its time is closed", g.root)
	}
	e = c.explorer()
	it := e.it
	chainCalls(it)
	e.noDispatch = true
	e.childTags = noTags
	tt := c.named("TcpX")
	it.onBranch = func(it *Interp, st *State, cond *Term, truth bool) {
		if e.cur != nil && e.cur.parent != nil && cond.contains(func(x *Term) bool {
			return x.isApp("ld") && x.args[0].op == OFieldP && int(x.args[0].c) == s.state && pointee(x.args[0].args[0]) == tt
		}) && c.readsField(st, cond, s.state, s.stop) {
			st.tags["sawstop"] = True
		}
	}
	it.onAccess = func(it *Interp, st *State, p *Term, in ssa.Instruction, mode byte) {
		if mode == 'r' && st.tags["got"] != nil && s.isSrvField(p, s.sig) {
			sigOf[st.load(p, s.sigType())] = true
		}
	}
	e.hook = func(g *Gor, st *State, ev *Event) {
		live := it.trial == 0
		if g.parent == nil && !e.rootOnly {
			return
		}
		switch ev.kind {
		case "ok":
			if opName(ev) == "Accept" && len(ev.args) > 0 && isAccepted(ev.args[0]) {
				st.tags["acc"], st.tags["got"] = True, True
			}
		case "method", "call":
			switch {
			case isAccept(ev):
				if live {
					pending(g, st, "the next Accept")
				}
				delete(st.tags, "acc")
				delete(st.tags, "got")
			case opName(ev) == "Close" && len(ev.args) == 1 && isAccepted(ev.args[0]):
				delete(st.tags, "acc")
				if g.parent != nil {
					st.tags["cl"] = True
					if live && st.tags["sawstop"] != nil {
						c.bad("kept", g.name, "%s closes the connection because the server was stopped", g.name)
					}
				}
			}
		case "go":
			if !watcher[instrID(ev.instr)] {
				return
			}
			late := false
			for _, t := range ev.args {
				if t != nil && t.contains(func(x *Term) bool { return sigOf[x] }) {
					late = true
				}
				if t != nil && t.op == OClosure {
					for _, b := range t.args {
						if v, ok := st.mem[b]; ok && sigOf[v] {
							late = true
						}
					}
				}
			}
			if live {
				c.that(!late, "watched", g.root+" signal", "%s reads the close-all signal after it accepted the connection: a close-all in between does not reach the connection", g.root)
			}
			delete(st.tags, "acc")
		case "recv", "send":
			if g.parent != nil {
				if ev.kind == "recv" && isSig(ev.args[0]) {
					st.tags["sig"] = True
				} else if ev.kind == "recv" && c.ctxChan(st, ev.args[0], end) {
					st.tags["blind"] = True
				} else {
					st.tags["blind"] = True
				}
			}
		case "select":
			if g.parent == nil || !ev.block {
				return
			}
			has := false
			for _, ch := range ev.args {
				has = has || isSig(ch)
			}
			if !has || st.tags["sig"] != nil && st.tags["cl"] == nil {
				st.tags["blind"] = True
			}
		case "selcase":
			if g.parent == nil || len(ev.args) == 0 {
				return
			}
			if isSig(ev.args[0]) {
				st.tags["sig"] = True
			} else if c.ctxChan(st, ev.args[0], end) {
				st.tags["end"] = True
			}
		}
	}
	for _, r := range streamServers {
		n := len(e.gos)
		e.run(r, nil, nil)
		for _, g := range e.gos[n:] {
			if g.parent == nil {
				continue
			}
			for _, o := range g.outs {
				c.that(o.st.tags["sawstop"] == nil, "kept", g.name, "%s ends because the server was stopped", g.name)
			}
			if g.parent.parent != nil || g.reads {
				continue
			}
			good, any := len(g.outs) > 0, false
			for _, o := range g.outs {
				t := o.st.tags
				if t["sig"] != nil {
					any = true
				}
				if t["blind"] != nil || t["cl"] == nil && t["end"] == nil {
					good = false
				}
			}
			k := instrID(g.sp.instr)
			if w, seen := watcher[k]; seen {
				good = good && w
			}
			watcher[k] = good && any
			if watcher[k] {
				c.ok("watcher", g.name)
			}
		}
	}
	e.rootOnly = true
	for _, r := range streamServers {
		g := e.run(r, nil, nil)
		if g == nil {
			continue
		}
		for _, o := range g.outs {
			pending(g, o.st, "the return of the serving call")
		}
	}
	c.atLeast("kept", 4, "connection goroutines")
}

// ---------------------------------------------------------------- C17

func ruleStart(c *Check) {
	s := c.server()
	if s == nil {
		return
	}
	for _, r := range c.servers() {
		for n := 0; n <= 2; n++ {
			s.remembered(r, n, true)
		}
	}
	for n := 0; n <= 3; n++ {
		s.start(n)
	}
	s.restart()
	c.atLeast("remembered", 9, "serving calls")
	c.atLeast("served again", 3, "serving calls")
	c.atLeast("start", 4, "starts")
	c.atLeast("restart", 5, "restarts")
}

// entry is one remembered endpoint.
type entry struct {
	p, net, port, listener, serve *Term
}

// entries reads the list of what the server has open.
func (s *srv) entries(st *State, tx *Term) ([]entry, bool) {
	p, t := s.fp(tx, s.props)
	l := st.load(p, t)
	var es []entry
	if l == nilSlice || l.op != OSlice {
		return nil, l == nilSlice
	}
	ps := s.c.named("PropertyCache").Underlying().(*types.Struct)
	ld := func(x *Term, i int) *Term { return st.load(FieldP(x, i, ps.Field(i).Type()), ps.Field(i).Type()) }
	for _, ch := range st.sliceContent(l) {
		if !ch.isApp("elem") {
			return nil, false
		}
		x := ch.args[0]
		es = append(es, entry{x, ld(x, s.c.fieldIdx("PropertyCache", "Network")), ld(x, s.c.fieldIdx("PropertyCache", "Port")), ld(x, s.listener), ld(x, s.serve)})
	}
	return es, true
}

// remembered: when a serving call on a server that has n other things open starts to wait, its
// listener or socket is among those Stop closes (and, for C17, the same serving call among those
// Start repeats) and the others still are.
func (s *srv) remembered(r string, n int, again bool) {
	c := s.c
	f := c.fn(r)
	if f == nil {
		return
	}
	e := c.explorer()
	it := e.it
	chainCalls(it)
	it.noHavoc = true
	e.rootOnly = true
	args := symArgs(f)
	tx, network, addr := args[0], args[1], args[2]
	st, _, _ := s.with(tx, s.stop, n)
	old, ok := s.entries(st, tx)
	if !ok {
		return
	}
	site := r + " with " + itoa(n) + " others"
	last := map[*ssa.Function][]*Term{f: args}
	if prev := it.onCall; true {
		it.onCall = func(it *Interp, st *State, fn *ssa.Function, a []*Term, in ssa.Instruction) ([]Outcome, bool) {
			if prev != nil {
				if o, ok := prev(it, st, fn, a, in); ok {
					return o, ok
				}
			}
			last[fn] = a
			return nil, false
		}
	}
	type again1 struct {
		serve *Term
		st    *State
	}
	var closures []again1
	serving := map[*ssa.Function]bool{f: true}
	e.hook = func(g *Gor, st *State, ev *Event) {
		if g.parent == nil {
			if ev.kind == "go" || isAccept(ev) {
				for _, fr := range it.stack {
					serving[fr.fn] = true
				}
			}
		}
		if g.parent != nil {
			return // joined with other ways to get here
		}
		var l *Term
		switch op := opName(ev); {
		case ev.kind == "ok" && (op == "ListenPacket" || op == "ListenUDP"):
			st.tags["socket"] = ev.args[0]
		case ev.kind == "go":
			l = st.tags["socket"] // handed to the goroutine that reads it
		case (ev.kind == "method" || ev.kind == "call") && (op == "Accept" || op == "ReadFrom") && len(ev.args) > 0:
			l = ev.args[0]
		}
		if l == nil || it.trial != 0 {
			return
		}
		es, ok := s.entries(st, tx)
		if !c.that(ok, "remembered", site+" list", "%s: the list of open listeners cannot be followed", r) {
			return
		}
		found := 0
		for _, x := range es {
			if sameListener(x.listener, l) {
				found++
				c.that(st.f.holds(Eq(x.net, network)) == 1 && st.f.holds(Eq(x.port, addr)) == 1, "remembered", site+" address", "%s remembers its listener under another network or address", r)
				if again {
					closures = append(closures, again1{x.serve, st.clone()})
				}
			}
		}
		c.that(found == 1, "remembered", site, "%s waits on a listener or socket that is not (exactly once) among those Stop closes", r)
		for i, o := range old {
			if st.f.holds(Eq(o.net, network)) == 1 && st.f.holds(Eq(o.port, addr)) == 1 {
				continue // replaced
			}
			kept := false
			for _, x := range es {
				kept = kept || x.p == o.p && sameListener(x.listener, o.listener) && x.serve == o.serve || x.p != o.p && sameListener(x.listener, o.listener) && x.serve == o.serve && x.net == o.net && x.port == o.port
			}
			c.that(kept, "remembered", site+" other "+itoa(i+1), "%s forgets or changes what the server has open on another network or address", r)
		}
	}
	e.run(r, args, st)
	if !again {
		return
	}
	// the remembered function does the same again
	seen := map[string]bool{}
	for _, x := range closures {
		k := itoa(x.serve.id) + x.st.f.key()
		if seen[k] {
			continue
		}
		seen[k] = true
		it2 := c.interp()
		it2.noJoin = true
		it2.onCall = func(it *Interp, st *State, fn *ssa.Function, a []*Term, in ssa.Instruction) ([]Outcome, bool) {
			if !serving[fn] || !it.inPkg(fn) {
				return nil, false
			}
			same := len(a) == len(last[fn])
			for i := range a {
				same = same && (a[i] == last[fn][i] || sameSlice(st, a[i], last[fn][i]))
			}
			switch {
			case !same:
				st.tags["again"] = Str("with other arguments")
			case st.tags["again"] != nil:
				st.tags["again"] = Str("several times")
			default:
				st.tags["again"] = True
			}
			e := it.errTerm(in, "serve")
			s2 := st.clone()
			return []Outcome{{kind: 'r', vals: []*Term{Nil}, st: st}, {kind: 'r', vals: []*Term{e}, st: s2}}, true
		}
		x.st.tags = map[string]*Term{}
		x.st.locks = nil
		if !c.that(x.serve.op == OClosure || x.serve.fn != nil, "served again", r, "%s does not remember how to serve again", r) {
			continue
		}
		for _, o := range it2.callTerm(x.st, x.serve, nil, nil, nil, nil, f.Blocks[0].Instrs[0], false, nil) {
			c.that(o.st.tags["again"] == True, "served again", r, "what %s remembers does not serve the same network and address with the same parameters again (%v)", r, o.st.tags["again"])
		}
	}
}

func sameListener(a, b *Term) bool {
	return a == b || unIface(a) == unIface(b)
}

func sameSlice(st *State, a, b *Term) bool {
	return a.op == OSlice && b.op == OSlice && a.args[0] == b.args[0] && st.f.eqInt(a.args[1], b.args[1]) && st.f.eqInt(a.args[2], b.args[2])
}

// quietly lets callbacks of the user return without an effect.
func quietly(st *State, fn *Term, a []*Term) []*State { return []*State{st} }

// started: which remembered functions the goroutines started in this outcome serve.
func (s *srv) started(e *explorer, o Outcome, spawns []Spawn, serve []*Term, site string) []int {
	c := s.c
	count := make([]int, len(serve))
	done := map[string]bool{}
	for _, sp := range spawns {
		k := goKey(sp.instr, append(append([]*Term{sp.fn}, sp.args...), sp.recv))
		t := o.st.tags[k]
		if t == nil || done[k] {
			continue
		}
		done[k] = true
		times, _ := t.isInt()
		it := c.interp()
		it.noJoin = true
		it.noHavoc = true
		it.userEffect = quietly
		it.onEvent = func(it *Interp, st *State, ev *Event) {
			if ev.kind == "recovered" {
				st.tags["recovered"] = True
			}
			if ev.kind != "usercall" {
				return
			}
			for i, x := range serve {
				if ev.args[0] == x {
					t := "ran" + itoa(i)
					if st.tags[t] != nil {
						st.tags[t] = Int(2)
					} else {
						st.tags[t] = Int(1)
					}
				}
			}
		}
		st := sp.st.clone()
		st.tags = map[string]*Term{}
		st.locks = nil
		outs := it.callTerm(st, sp.fn, sp.meth, sp.recv, sp.args, sp.common, sp.instr, false, nil)
		for i := range serve {
			n, mixed := -1, false
			for _, o := range outs {
				if o.kind == 'p' || o.st.tags["recovered"] != nil {
					continue // the configuration is refused (C05: a panic is contained)
				}
				m := 0
				if t := o.st.tags["ran"+itoa(i)]; t != nil {
					v, _ := t.isInt()
					m = int(v)
				}
				mixed = mixed || n >= 0 && n != m
				n = m
			}
			if n < 0 {
				n = 0
			}
			c.that(!mixed, "start", site+" always", "a goroutine started to serve endpoint %d serves it on some paths only", i+1)
			count[i] += n * int(times)
		}
	}
	return count
}

func goKey(in ssa.Instruction, args []*Term) string {
	k := "go:" + instrID(in)
	for _, a := range args {
		if a != nil {
			k += "," + itoa(a.id)
		}
	}
	return k
}

func countGo(st *State, ev *Event) {
	k := goKey(ev.instr, append(append([]*Term{}, ev.args...), ev.res))
	if t := st.tags[k]; t != nil {
		st.tags[k] = Int(2)
	} else {
		st.tags[k] = Int(1)
	}
	st.tags["effect"] = Str("starts a goroutine")
}

// start: Start on a server that has n things remembered.
func (s *srv) start(n int) {
	c := s.c
	f := c.fn("TcpX.Start")
	if f == nil {
		return
	}
	for _, running := range []bool{true, false} {
		e := c.explorer()
		it := e.it
		it.noHavoc, it.noJoin = true, true
		e.rootOnly = true
		args := symArgs(f)
		state := s.stop
		if running {
			state = s.run
		}
		st, _, serve := s.with(args[0], state, n)
		site := itoa(n) + " endpoints"
		it.onAccess = func(it *Interp, st *State, p *Term, in ssa.Instruction, mode byte) {
			if mode == 'w' && !isFresh(addrRoot(p)) {
				st.tags["effect"] = Str("changes " + p.String())
			}
		}
		e.hook = func(g *Gor, st *State, ev *Event) {
			switch ev.kind {
			case "go":
				countGo(st, ev)
			case "usercall", "listen", "close":
				st.tags["effect"] = Str(ev.kind)
				if ev.kind == "usercall" && it.trial == 0 {
					c.bad("start", site+" blocks", "Start itself serves and does not return")
				}
			}
		}
		for _, o := range e.run("TcpX.Start", args, st).outs {
			if o.kind != 'r' {
				c.bad("start", site, "Start does not return: %v", o.vals)
				continue
			}
			if running {
				c.that(o.st.f.isNil(o.vals[0]) == -1, "start", "running", "starting a running server may be reported as a success")
				c.that(o.st.tags["effect"] == nil, "start", "running effect", "starting a running server has an effect: %v", o.st.tags["effect"])
				continue
			}
			c.that(isNilErr(o), "start", site+" error", "starting a stopped server fails")
			for i, k := range s.started(e, o, it.spawns, serve, site) {
				c.that(k == 1, "start", site+" endpoint "+itoa(i+1), "Start serves endpoint %d of %d %d times", i+1, n, k)
			}
		}
	}
}

// restart: Restart is Stop, the given functions in order, Start.
func (s *srv) restart() {
	c := s.c
	f := c.fn("TcpX.Restart")
	if f == nil {
		return
	}
	for _, mode := range []string{"running", "stopped", "started meanwhile"} {
		for n := 0; n <= 2; n++ {
			e := c.explorer()
			it := e.it
			it.noHavoc, it.noJoin = true, true
			e.rootOnly = true
			args := symArgs(f)
			tx := args[0]
			state := s.run
			if mode == "stopped" {
				state = s.stop
			}
			st, objs, serve := s.with(tx, state, 1)
			sigP, sigT := s.fp(tx, s.sig)
			st.assume(Eq(st.load(sigP, sigT), Nil), false)
			ft := f.Params[2].Type().Underlying().(*types.Slice).Elem()
			var fns, chunks []*Term
			for i := 0; i < n; i++ {
				x := SymNN("before"+itoa(i), ft)
				fns, chunks = append(fns, x), append(chunks, App("elem", nil, x))
			}
			o := SymNN("beforelist", types.NewArray(ft, int64(n)))
			st.mem[o] = Seq(chunks...)
			args[2] = mkSlice(o, Int(0), Int(int64(n)), Int(int64(n)), False)
			if n == 0 {
				args[2] = nilSlice
			}
			stP, stT := s.fp(tx, s.state)
			it.userEffect = func(st *State, fn *Term, a []*Term) []*State {
				if mode == "started meanwhile" {
					st.store(stP, stT, s.run)
				}
				return []*State{st}
			}
			site := mode
			e.hook = func(g *Gor, st *State, ev *Event) {
				switch ev.kind {
				case "go":
					if st.tags["ran"] == nil && n > 0 {
						return // still stopping
					}
					countGo(st, ev)
				case "method", "call":
					if opName(ev) == "Close" && len(ev.args) > 0 && ev.args[0].contains(func(x *Term) bool { return x == objs[0] }) {
						st.tags["closed"] = True
					}
				case "usercall":
					k := 0
					if t := st.tags["ran"]; t != nil {
						v, _ := t.isInt()
						k = int(v)
					}
					for _, x := range serve {
						if x == ev.args[0] {
							return
						}
					}
					if it.trial == 0 {
						c.that(k < n && ev.args[0] == fns[k], "restart", site+" order", "Restart does not run the given functions once each in the given order")
						c.that(st.tags["closed"] != nil, "restart", site+" first", "Restart runs a given function although the server was not stopped before")
					}
					st.tags["ran"] = Int(int64(k + 1))
				}
			}
			for _, o := range e.run("TcpX.Restart", args, st).outs {
				if o.kind != 'r' {
					if o.kind == 'p' && o.vals[0].isApp("runtimeerror:close") {
						continue
					}
					c.bad("restart", site, "Restart does not return: %v", o.vals)
					continue
				}
				t := o.st.tags
				if mode == "stopped" {
					c.that(o.st.f.isNil(o.vals[0]) == -1, "restart", site+" error", "Restart of a stopped server does not report that stopping failed")
					c.that(t["ran"] == nil && t["effect"] == nil && t["closed"] == nil, "restart", site+" effect", "Restart goes on although stopping failed")
					continue
				}
				if mode == "started meanwhile" && n > 0 {
					c.that(o.st.f.isNil(o.vals[0]) == -1, "restart", site+" error", "Restart does not report that starting failed")
					continue
				}
				c.that(isNilErr(o), "restart", site+" error", "Restart of a running server fails")
				c.that(n == 0 || t["ran"] == Int(int64(n)), "restart", site+" functions", "Restart does not run every given function")
				c.that(t["closed"] != nil, "restart", site+" stop", "Restart does not stop the server")
				for _, k := range s.started(e, o, it.spawns, serve, site) {
					c.that(k == 1, "restart", site+" start", "Restart does not start the server again exactly once (%d)", k)
				}
			}
		}
	}
}
