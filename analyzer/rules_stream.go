package main

// Rules over the loops that take messages off connections and sockets: C03 (the server's part),
// C04 size limit, C13 isolation of messages, C21 groups, C22 datagrams.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C04", ruleLimit)
	register("C13", ruleIsolation)
	register("C21", ruleGroups)
	register("C22", ruleDatagrams)
}

// messageReaders: the exported functions that take one message off a reader (decided by C03).
func (c *Check) messageReaders() map[*ssa.Function]int {
	m := map[*ssa.Function]int{}
	for _, f := range c.exported() {
		ri := -1
		for i, p := range f.Params {
			ts := types.TypeString(p.Type(), nil)
			if ts == "io.Reader" || ts == "net.Conn" {
				ri = i
			}
		}
		res := f.Signature.Results()
		if ri < 0 || res.Len() != 2 || !isErrType(res.At(1).Type()) || !isByteSlice(res.At(0).Type()) {
			continue
		}
		m[f] = ri
	}
	return m
}

// intake follows what the reading goroutine of a framed connection does with each message.
type intake struct {
	c       *Check
	e       *explorer
	readers map[*ssa.Function]int
	depth   int
	rule    string // rule under which the hand-over is reported ("" = not reported)
	// called for every message that is handed to a goroutine or joins a group
	handed func(g *Gor, st *State, ctx *Term, how string)
	// called when a group is handed to a goroutine
	group func(g *Gor, st *State, group *Term, tx *Term)
	// called for every message that joins a group, with its place in the group
	member func(g *Gor, st *State, idx *Term)
}

func (k *intake) report(cond bool, site, format string, a ...interface{}) {
	if k.rule == "" || k.e.it.trial != 0 {
		return
	}
	k.c.that(cond, k.rule, site, format, a...)
}

// varargs: the store fills the list of arguments of a variadic call.
func (k *intake) varargs(in ssa.Instruction) bool {
	s, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	a, ok := s.Addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	al, ok := a.X.(*ssa.Alloc)
	return ok && al.Comment == "varargs"
}

func stripIface(t *Term) *Term {
	for t != nil && t.op == OIface {
		t = t.args[0]
	}
	return t
}

func (k *intake) install() {
	it := k.e.it
	k.readers = k.c.messageReaders()
	it.onWrap = func(it *Interp, st *State, f *ssa.Function, args []*Term) func(outs []Outcome) {
		ri, ok := k.readers[f]
		if !ok || ri >= len(args) || !isAccepted(stripIface(args[ri])) {
			return nil
		}
		k.depth++
		if k.depth == 1 && k.e.cur != nil {
			k.report(st.tags["msg"] == nil, k.e.cur.name+": next read", "%s takes the next message although the one before was neither handed to a goroutine nor put in a group", k.e.cur.name)
			k.report(st.tags["rderr"] == nil, k.e.cur.name+": after a failed read", "%s reads on although taking a message failed", k.e.cur.name)
			delete(st.tags, "msg")
			delete(st.tags, "mal")
		}
		return func(outs []Outcome) {
			k.depth--
			if k.depth > 0 {
				return
			}
			for i := range outs {
				o := &outs[i]
				delete(o.st.tags, "rderr")
				if o.kind != 'r' || !isNilErr(*o) {
					o.st.tags["rderr"] = True
					continue
				}
				if o.vals[0].op == OSlice {
					o.st.tags["msg"] = Seq(seqNormF(o.st.f, trimSpare(o.st.sliceContent(o.vals[0])))...)
				}
			}
		}
	}
	take := func(g *Gor, st *State, ctx *Term, how string) {
		m := st.tags["msg"]
		s := g.name + ": " + how
		if m == nil {
			k.report(false, s, "%s: a context without a newly received message is %s", g.name, how)
			return
		}
		str := k.c.field(st, ctx, "Context", "Stream")
		ok := str.op == OSlice
		if ok {
			cs := seqNormF(st.f, trimSpare(st.sliceContent(str)))
			ok = Seq(cs...) == m || len(cs) == 1 && len(m.args) == 1 && sameRegion(st, cs[0], m.args[0])
		}
		k.report(ok, s, "%s: the context that is %s does not carry exactly the message just received", g.name, how)
		delete(st.tags, "msg")
		delete(st.tags, "mal")
		if k.handed != nil && it.trial == 0 {
			k.handed(g, st, ctx, how)
		}
	}
	it.onStore = func(it *Interp, st *State, p, v *Term, in ssa.Instruction) {
		g := k.e.cur
		if g == nil || !g.reads || p.op != OElemP || !isPtrTo(v, "Context") {
			return
		}
		take(g, st, v, "put in a group")
		st.tags["col"] = True
		if k.member != nil && it.trial == 0 {
			// (the elements of a one-element list made for an append are placed by the append)
			if !k.varargs(in) {
				k.member(g, st, p.args[1])
			}
		}
	}
	prev := k.e.hook
	k.e.hook = func(g *Gor, st *State, ev *Event) {
		if prev != nil {
			prev(g, st, ev)
		}
		if g == nil || !g.reads || g.parent == nil {
			return
		}
		switch ev.kind {
		case "method", "call":
			if k.depth == 0 && readKind(ev) == "read" && len(ev.args) > 0 && isAccepted(stripIface(ev.args[0])) {
				k.report(false, g.name+": "+ev.name, "%s reads from the connection outside of taking a message", g.name)
			}
		case "append":
			for _, x := range ev.elems {
				if x.isApp("elem") && isPtrTo(x.args[0], "Context") {
					// an element just stored for this call was seen by the store
					if st.tags["msg"] != nil {
						take(g, st, x.args[0], "put in a group")
					}
					st.tags["col"] = True
					if k.member != nil && it.trial == 0 && len(ev.args) > 0 && ev.args[0].op == OSlice {
						k.member(g, st, ev.args[0].args[2])
					}
				}
			}
		case "go":
			sp := &Spawn{fn: ev.args[0], args: ev.args[1:], recv: ev.res, st: st}
			ctx, tx, group := spawnCtx(sp)
			switch {
			case group != nil:
				k.report(st.tags["msg"] == nil, g.name+": group", "%s hands over a group without the message received last", g.name)
				k.report(st.tags["col"] != nil, g.name+": group", "%s hands over a group twice or without messages", g.name)
				if k.group != nil && it.trial == 0 {
					k.group(g, st, group, tx)
				}
				delete(st.tags, "col")
			case ctx != nil:
				k.report(st.tags["col"] == nil, g.name+": single", "%s handles a message on its own although a group is being received", g.name)
				take(g, st, ctx, "handed to a goroutine")
			}
		}
	}
}

func (c *Check) newIntake(rule string) *intake {
	e := c.explorer()
	chainCalls(e.it)
	e.noDispatch = true
	e.childTags = noTags
	k := &intake{c: c, e: e, rule: rule}
	return k
}

// ---------------------------------------------------------------- C03, the server's part

func (c *Check) serverFraming() {
	k := c.newIntake("server")
	k.install()
	// paths on which the message turned out to be malformed are told apart
	k.e.it.onOuts = func(it *Interp, fn *ssa.Function, o Outcome) {
		if m := o.st.tags["msg"]; m != nil && o.st.tags["mal"] == nil && !c.plainMessage(o.st, m) {
			o.st.tags["mal"] = True
		}
	}
	k.e.run("TcpX.ListenAndServeTCP", nil, nil)
	n := 0
	for _, g := range k.e.gos {
		if !g.reads {
			continue
		}
		n++
		for _, o := range g.outs {
			c.that(o.st.tags["col"] == nil, "server", g.name+": end", "%s may end without having handled a group it received", g.name)
			m := o.st.tags["msg"]
			if m == nil || o.st.tags["mal"] != nil {
				c.ok("server", g.name+": end")
				continue
			}
			// a message that is not handled: it must be malformed, or announce a malformed group
			c.that(!c.plainMessage(o.st, m), "server", g.name+": end", "%s may end without having handled a well-formed message it received", g.name)
		}
	}
	c.that(n > 0, "server", "reading goroutines", "the framed server reads nothing")
	c.atLeast("server", 4, "hand-overs of received messages")
}

// plainMessage: can m be a well-formed message outside of any group in this state?
func (c *Check) plainMessage(st *State, m *Term) bool {
	if len(m.args) != 1 || !m.args[0].isApp("region") {
		return true
	}
	str, p := m.args[0].args[0], m.args[0].args[1]
	be := func(off int64) *Term { return App("rd:be32", types.Typ[types.Uint32], str, AddC(p, off)) }
	s := st.clone()
	if !s.assume(EqI(be(0), AddC(Add(be(8), be(12)), 12)), true) || !s.assume(Le(be(0), Int(1<<30)), true) || !s.assume(Le(Int(0), be(8)), true) || !s.assume(Le(Int(0), be(12)), true) {
		return false
	}
	for q, v := range s.f.bools {
		if !v && strings.HasPrefix(q.name, "jsonok") {
			return false
		}
		if v && q.isApp("mapok") && len(q.args) == 2 && q.args[1] == c.constStr("PIPED") {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- C04

func ruleLimit(c *Check) {
	fi := c.argField("TcpX.SetMaxBytePerMessage", 1)
	if fi < 0 {
		return
	}
	k := c.newIntake("")
	sized := func(t *Term) bool {
		return t.contains(func(x *Term) bool { return x.op == OApp && strings.HasPrefix(x.name, "rd:") })
	}
	within := func(st *State, limit, n *Term, slack int64) bool {
		s := st.clone()
		if !s.assume(Lt(Int(0), limit), true) {
			return true
		}
		return s.f.entails(Le(n, AddC(limit, slack)))
	}
	k.e.hook = func(g *Gor, st *State, ev *Event) {
		if g == nil || g.parent == nil || k.e.it.trial != 0 {
			return
		}
		switch ev.kind {
		case "make":
			if sized(ev.args[1]) {
				limit := c.fieldAt(st, tcpxArg(g, c), "TcpX", fi)
				c.that(within(st, limit, ev.args[1], 4), "allocation", g.name+": "+fnName(ev.fn), "%s (in %s) allocates for a received length that may exceed the configured limit", g.name, fnName(ev.fn))
			}
		}
	}
	k.e.it.onOuts = func(it *Interp, fn *ssa.Function, o Outcome) {
		g := k.e.cur
		if _, ok := k.readers[fn]; !ok || g == nil || o.kind != 'r' || !isNilErr(o) || o.vals[0].op != OSlice {
			return
		}
		limit := c.fieldAt(o.st, tcpxArg(g, c), "TcpX", fi)
		delete(o.st.tags, "lim")
		if within(o.st, limit, o.vals[0].args[2], 4) {
			o.st.tags["lim"] = True
		}
	}
	k.handed = func(g *Gor, st *State, ctx *Term, how string) {
		limit := c.fieldAt(st, tcpxArg(g, c), "TcpX", fi)
		str := c.field(st, ctx, "Context", "Stream")
		if str.op != OSlice {
			return
		}
		c.that(st.tags["lim"] != nil || within(st, limit, str.args[2], 4), "accepted", g.name+": "+how, "%s accepts a message (%s) that may exceed the configured limit", g.name, how)
		delete(st.tags, "lim")
	}
	k.install()
	k.e.run("TcpX.ListenAndServeTCP", nil, nil)
	c.atLeast("allocation", 1, "allocations sized by received data")
	c.atLeast("accepted", 2, "accepted messages")
	// messages within the limit, or any message without a limit, are not refused
	for f, ri := range c.messageReaders() {
		li := -1
		for i, p := range f.Params {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				li = i
			}
		}
		name := fnName(f)
		it := c.interp()
		it.goodReads = true
		it.noJoin = true
		args := symArgs(f)
		r := args[ri]
		st := newState()
		st.assume(Eq(r, Nil), false)
		ok := true
		n := 0
		for _, o := range c.entry(it, f, args, st) {
			if o.kind != 'r' || isNilErr(o) {
				n++
				continue
			}
			s := o.st.clone()
			ln := App("rd:be32", types.Typ[types.Uint32], streamOf(r), App("consumed0", tInt, r))
			feas := s.assume(Le(Int(12), ln), true) && s.assume(Le(ln, Int(1<<30)), true)
			if feas && li >= 0 {
				feas = s.assume(Le(ln, args[li]), true)
			}
			if feas {
				ok = false
				c.bad("within", name, "%s may refuse a well-formed message within the limit (%s)", name, short(o.st.f.key()))
			}
		}
		c.that(ok && n > 0, "within", name, "%s may refuse a well-formed message within the limit", name)
	}
	// a server without a limit reads without one
	k2 := c.newIntake("")
	k2.e.it.goodReads = true
	k2.install()
	var at, rd *Term
	why := func(g *Gor, st *State) string {
		ln := App("rd:be32", types.Typ[types.Uint32], streamOf(rd), at)
		s := st.clone()
		limit := c.fieldAt(s, tcpxArg(g, c), "TcpX", fi)
		if s.assume(Le(Int(12), ln), true) && s.assume(Le(ln, Int(1<<30)), true) {
			a, b := s.clone(), s.clone()
			if a.assume(Le(limit, Int(0)), true) {
				return "although no limit is configured"
			}
			if b.assume(Le(ln, limit), true) {
				return "although it is within the configured limit"
			}
		}
		return ""
	}
	k2.e.it.onOuts = func(it *Interp, fn *ssa.Function, o Outcome) {
		if k2.depth > 0 && at != nil && k2.e.cur != nil && o.kind == 'r' && !isNilErr(o) && o.st.tags["just"] == nil && why(k2.e.cur, o.st) == "" {
			o.st.tags["just"] = True
		}
	}
	wrap := k2.e.it.onWrap
	k2.e.it.onWrap = func(it *Interp, st *State, f *ssa.Function, args []*Term) func(outs []Outcome) {
		after := wrap(it, st, f, args)
		if after == nil || k2.depth != 1 {
			return after
		}
		g := k2.e.cur
		rd = stripIface(args[k2.readers[f]])
		at = st.consumed(rd)
		delete(st.tags, "just")
		return func(outs []Outcome) {
			after(outs)
			if it.trial == 0 && g != nil && g.parent != nil {
				for _, o := range outs {
					if o.kind == 'r' && isNilErr(o) || o.st.tags["just"] != nil {
						c.ok("unlimited", g.name+": "+fnName(f))
						continue
					}
					if w := why(g, o.st); w != "" {
						c.bad("unlimited", g.name+": "+fnName(f), "%s may refuse a well-formed message for its size %s", g.name, w)
					}
				}
			}
			at = nil
			for _, o := range outs {
				delete(o.st.tags, "just")
			}
		}
	}
	k2.e.run("TcpX.ListenAndServeTCP", nil, nil)
	c.atLeast("unlimited", 1, "reads of the server")
	c.atLeast("within", 3, "functions taking a message off a reader")
}

// ---------------------------------------------------------------- C13

// freshHere: the object was created in the current iteration of the innermost loop.
func freshHere(it *Interp, o *Term) bool {
	r := addrRoot(o)
	if !isFresh(r) {
		return false
	}
	n := it.ctx
	for n != nil && !strings.HasPrefix(n.label, "L") {
		n = n.parent
	}
	if n == nil {
		return true // no loop: one message per goroutine
	}
	cx := it.symCtx[r]
	return cx != nil && cx.under(n)
}

func (c *Check) private(it *Interp, rule string, g *Gor, st *State, ctx *Term, how string) {
	s := g.name + ": " + how + ": "
	c.that(freshHere(it, ctx), rule, s+"context", "%s: a context that is %s is not created for this message", g.name, how)
	req := c.field(st, ctx, "Context", "PerRequestContext")
	c.that(freshHere(it, req), rule, s+"request store", "%s: the request-scoped values of a message that is %s are shared with other messages", g.name, how)
	h := c.fieldAt(st, ctx, "Context", c.handlersField())
	ok := h == Nil || h.op == OSlice && (h.args[0] == Nil || st.f.eqInt(h.args[3], Int(0)) || freshHere(it, h.args[0]))
	c.that(ok, rule, s+"chain", "%s: the chain of a message that is %s shares its memory with other messages", g.name, how)
	b := c.field(st, ctx, "Context", "Stream")
	ok = b.op == OSlice && freshHere(it, b.args[0])
	c.that(ok, rule, s+"stream", "%s: the bytes of a message that is %s are in a buffer that later reads can overwrite", g.name, how)
}

func ruleIsolation(c *Check) {
	k := c.newIntake("")
	ust := c.fieldOfType("Context", "*int")
	lk := c.fieldOfType("Context", "*sync.RWMutex")
	if ust < 0 || lk < 0 {
		return
	}
	sharedF := []int{c.fieldIdx("Context", "Conn"), c.fieldIdx("Context", "PerConnectionContext"), ust, lk}
	names := []string{"the connection", "the connection-scoped values", "the online state", "the lock of the online state"}
	vals := map[string]*Term{}
	same := func(g *Gor, st *State, ctx *Term, where string) {
		for i, f := range sharedF {
			v := c.fieldAt(st, ctx, "Context", f)
			key := g.root + "/" + itoa(f)
			if vals[key] == nil {
				vals[key] = v
			}
			c.that(v == vals[key] && !v.isConst(), "shared", g.name+": "+where+": "+names[i], "%s: %s of a message (%s) is not the connection's", g.name, names[i], where)
		}
	}
	k.handed = func(g *Gor, st *State, ctx *Term, how string) {
		c.private(k.e.it, "private", g, st, ctx, how)
		same(g, st, ctx, how)
	}
	prev := k.e.hook
	k.e.hook = func(g *Gor, st *State, ev *Event) {
		if prev != nil {
			prev(g, st, ev)
		}
		if ev.kind == "usercall" && k.e.it.trial == 0 && g != nil {
			if n := c.callback(ev); (n == "OnConnect" || n == "OnClose" || n == "OnHeartbeatLoss") && len(ev.args) > 1 && isPtrTo(ev.args[1], "Context") {
				same(g, st, ev.args[1], n)
			}
		}
		if ev.kind == "next" && k.e.it.trial == 0 && g != nil && isPtrTo(ev.args[0], "Context") {
			same(g, st, ev.args[0], "chain")
		}
	}
	k.install()
	k.e.run("TcpX.ListenAndServeTCP", nil, nil)
	k.e.run("TcpX.ListenAndServeRaw", nil, nil)
	c.atLeast("private", 8, "parts of handed-over messages")
	c.atLeast("shared", 8, "connection-scoped parts")
	// datagrams
	e := c.explorer()
	chainCalls(e.it)
	e.noDispatch = true
	n := 0
	e.hook = func(g *Gor, st *State, ev *Event) {
		if ev.kind != "go" || g == nil || !g.reads || e.it.trial != 0 {
			return
		}
		ctx, _, _ := spawnCtx(&Spawn{fn: ev.args[0], args: ev.args[1:], recv: ev.res, st: st})
		if ctx == nil {
			return
		}
		n++
		c.private(e.it, "private", g, st, ctx, "handed to a goroutine")
	}
	e.run("TcpX.ListenAndServeUDP", nil, nil)
	c.that(n > 0, "private", "datagrams", "the datagram server hands over no message")
	c.isolatedStores()
}

// isolatedStores: request- and connection-scoped values are kept apart.
func (c *Check) isolatedStores() {
	f := func(m string) []*Term {
		fn := c.fn(m)
		if fn == nil {
			return nil
		}
		it := c.interp()
		var tabs []*Term
		it.onEvent = func(it *Interp, st *State, ev *Event) {
			if ev.kind == "syncmap" && it.trial == 0 {
				tabs = append(tabs, ev.args[0])
			}
		}
		args := symArgs(fn)
		st := newState()
		conn := c.field(st, args[0], "Context", "Conn")
		st.assume(Eq(conn, Nil), false) // a stream connection
		c.entry(it, fn, args, st)
		return tabs
	}
	for m, field := range map[string]string{"Context.SetCtxPerConn": "PerConnectionContext", "Context.GetCtxPerConn": "PerConnectionContext", "Context.SetCtxPerRequest": "PerRequestContext", "Context.GetCtxPerRequest": "PerRequestContext"} {
		ts := f(m)
		ok := len(ts) > 0
		for _, t := range ts {
			ok = ok && c.isField(t, "Context", field)
		}
		c.that(ok, "scope", m, "%s does not use the values kept in %s", m, field)
	}
}

// ---------------------------------------------------------------- C22

func ruleDatagrams(c *Check) {
	e := c.explorer()
	chainCalls(e.it)
	e.noDispatch = true
	e.childTags = noTags
	root := "TcpX.ListenAndServeUDP"
	isSock := func(t *Term) bool {
		return t != nil && t.op == OSym && strings.HasPrefix(t.name, "ok0:") && strings.Contains(t.name, "ListenPacket")
	}
	var waited bool
	// a datagram that is not a whole message may be skipped
	skip := func(st *State) {
		d := st.tags["dg"]
		if d == nil || !d.isApp("dg") {
			return
		}
		ln := App("rd:be32", types.Typ[types.Uint32], App("datagram", nil, d.args[0]), Int(0))
		s := st.clone()
		if !s.assume(EqI(d.args[1], AddC(ln, 4)), true) || !s.assume(Le(Int(12), ln), true) || !s.assume(Le(ln, Int(1<<20)), true) {
			delete(st.tags, "dg")
		}
	}
	e.it.onOuts = func(it *Interp, fn *ssa.Function, o Outcome) { skip(o.st) }
	e.hook = func(g *Gor, st *State, ev *Event) {
		if g == nil {
			return
		}
		live := e.it.trial == 0
		switch ev.kind {
		case "recv":
			if g.parent == nil {
				waited = true
				st.tags["waited"] = True
			}
		case "select":
			if g.parent == nil && ev.block {
				st.tags["waited"] = True
			}
		case "err":
			if opName(ev) == "ReadFrom" {
				st.tags["rderr"] = True
				delete(st.tags, "dg")
			}
		case "method", "call":
			if readKind(ev) == "read" {
				skip(st)
				if g.reads && live {
					c.that(st.tags["dg"] == nil, "one-each", g.name+" next", "%s may receive the next datagram without having handled a well-formed one", g.name)
				}
				st.tags["rx"] = True
				delete(st.tags, "rderr")
				delete(st.tags, "why")
				delete(st.tags, "dg")
			}
		case "rtpanic":
			if g.reads && len(ev.args) > 0 && !fromWire(ev.args) {
				st.tags["why"] = True // an impossible buffer size was configured
			}
		case "datagram":
			st.tags["dg"] = App("dg", nil, ev.args[1], ev.args[2])
		case "go":
			if !g.reads {
				return
			}
			ctx, tx, _ := spawnCtx(&Spawn{fn: ev.args[0], args: ev.args[1:], recv: ev.res, st: st})
			if ctx == nil {
				return
			}
			if st.tags["dg"] == nil && live {
				c.bad("one-each", g.name, "%s handles a datagram twice, or none", g.name)
			}
			delete(st.tags, "dg")
			if !live {
				return
			}
			c.that(tx != nil, "one-each", g.name+" server", "%s is not given the server", g.name)
			str := c.field(st, ctx, "Context", "Stream")
			var d *Term
			if str.op == OSlice {
				cs := seqNormF(st.f, trimSpare(st.sliceContent(str)))
				if len(cs) == 1 && cs[0].isApp("region") && cs[0].args[0].isApp("datagram") && st.f.eqInt(cs[0].args[1], Int(0)) {
					d = cs[0].args[0].args[0]
					ln := App("rd:be32", types.Typ[types.Uint32], cs[0].args[0], Int(0))
					c.that(st.f.eqInt(cs[0].args[2], AddC(ln, 4)), "one-each", g.name+" message", "%s hands over something else than the datagram's message", g.name)
				}
			}
			c.that(d != nil, "one-each", g.name+" bytes", "%s does not hand over the bytes of the datagram", g.name)
			addr := c.field(st, ctx, "Context", "Addr")
			c.that(d != nil && addr.isApp("addrof") && addr.args[0] == d, "peer", g.name, "the context of a datagram is not given the address it came from")
			pc := c.field(st, ctx, "Context", "PacketConn")
			c.that(isSock(pc), "peer", g.name+" socket", "the context of a datagram is not given the socket")
			c.private(e.it, "own", g, st, ctx, "handed to a goroutine")
		}
	}
	stF := c.getterField("TcpX.State")
	stop := c.constInt("STATE_STOP")
	// why a loop may end is noted when the branch is taken
	e.it.onBranch = func(it *Interp, st *State, cond *Term, truth bool) {
		skip(st)
		if e.cur == nil || !e.cur.reads || st.tags["why"] != nil {
			return
		}
		switch {
		case truth && st.tags["rderr"] != nil && cond.contains(isNamed("ReadFrom")) && (cond.contains(isNamed("io.EOF")) || cond.contains(isNamed("net.ErrClosed"))):
			st.tags["why"] = True
		case c.readsField(st, cond, stF, stop):
			st.tags["why"] = True
		}
	}
	e.run(root, nil, nil)
	n := 0
	for _, g := range e.gos {
		if !g.reads {
			continue
		}
		n++
		for _, o := range g.outs {
			if g.parent == nil && o.st.tags["rx"] == nil && !(o.kind == 'r' && isNilErr(o)) {
				continue // nothing was served yet
			}
			c.that(o.kind == 'r', "ends", g.name+" panic", "%s may end in a panic", g.name)
			c.that(o.st.tags["why"] != nil, "ends", g.name, "%s may stop receiving although the socket is open and the server runs", g.name)
		}
		c.that(len(g.outs) > 0, "ends", g.name+" end", "%s never ends", g.name)
	}
	c.that(n > 0, "ends", "receiving goroutines", "the datagram server receives nothing")
	_ = waited
	// the serving call does not return (and close the socket) while datagrams are received
	for _, g := range e.gos {
		if g.parent != nil {
			continue
		}
		for _, o := range g.outs {
			if o.kind != 'r' || !isNilErr(o) {
				continue
			}
			c.that(g.reads || o.st.tags["waited"] != nil, "waits", g.name, "%s returns, closing its socket, without waiting for the receiving goroutine", g.name)
		}
	}
	c.atLeast("own", 3, "parts of a datagram's context")
	c.atLeast("ends", 2, "ends of the receiving loop")
	c.readDatagram()
}

func isNamed(n string) func(t *Term) bool {
	return func(t *Term) bool { return strings.Contains(t.name, n) }
}

// readsField: the condition reads field f of the server, which has the value k in this state.
func (c *Check) readsField(st *State, cond *Term, f int, k *Term) bool {
	tt := c.named("TcpX")
	return cond.contains(func(x *Term) bool {
		return x.isApp("ld") && x.args[0].op == OFieldP && int(x.args[0].c) == f && pointee(x.args[0].args[0]) == tt && st.f.eqInt(x, k)
	}) || c.readsNot(st, cond, f, k)
}

// readsNot: the field was found to be different from the other of the two states.
func (c *Check) readsNot(st *State, cond *Term, f int, k *Term) bool {
	if k != c.constInt("STATE_STOP") {
		return false
	}
	run := c.constInt("STATE_RUNNING")
	tt := c.named("TcpX")
	return cond.contains(func(x *Term) bool {
		if !(x.isApp("ld") && x.args[0].op == OFieldP && int(x.args[0].c) == f && pointee(x.args[0].args[0]) == tt) {
			return false
		}
		s := st.clone()
		return !s.assume(EqI(x, run), true)
	})
}

// constInt is the value of an exported integer constant.
func (c *Check) constInt(name string) *Term {
	if k, ok := c.p.pkg.Members[name].(*ssa.NamedConst); ok {
		return constTerm(k.Value)
	}
	c.bad("anchor", name, "constant %s does not exist any more", name)
	return Int(-1)
}

// readDatagram: ReadAllUDP returns the datagram and its sender in a buffer of its own, or fails.
func (c *Check) readDatagram() {
	f := c.fn("ReadAllUDP")
	if f == nil {
		return
	}
	it := c.interp()
	args := symArgs(f)
	st := newState()
	n := 0
	for _, o := range c.entry(it, f, args, st) {
		if o.kind != 'r' || !isNilErr(o) {
			continue
		}
		n++
		b, a := o.vals[0], o.vals[1]
		ok := b.op == OSlice && isFresh(addrRoot(b.args[0]))
		if ok {
			cs := seqNormF(o.st.f, trimSpare(o.st.sliceContent(b)))
			ok = len(cs) == 1 && cs[0].isApp("region") && cs[0].args[0].isApp("datagram") && a.isApp("addrof") && a.args[0] == cs[0].args[0].args[0]
		}
		c.that(ok, "read", "ReadAllUDP", "ReadAllUDP does not return the datagram, in a buffer of its own, with its sender")
	}
	c.that(n > 0, "read", "ReadAllUDP", "ReadAllUDP never succeeds")
}

// ---------------------------------------------------------------- C21

func ruleGroups(c *Check) {
	k := c.newIntake("group")
	piped := c.constStr("PIPED")
	// the announced count, as far as this state knows it
	counts := func(st *State) []*Term {
		var l []*Term
		seen := map[*Term]bool{}
		for _, q := range st.f.ineq {
			q.contains(func(x *Term) bool {
				if x.op == OApp && strings.HasPrefix(x.name, "strconv.") && !seen[x] && x.contains(func(y *Term) bool { return y == piped }) {
					seen[x] = true
					l = append(l, x)
				}
				return false
			})
		}
		return l
	}
	k.member = func(g *Gor, st *State, idx *Term) {
		ok := st.f.eqInt(idx, Int(0))
		for _, n := range counts(st) {
			ok = ok || st.f.entails(Le(AddC(idx, 1), n))
		}
		c.that(ok, "count", g.name+": members", "%s may put more messages in a group than were announced", g.name)
	}
	k.group = func(g *Gor, st *State, group *Term, tx *Term) {
		if st.tags["rderr"] != nil {
			c.ok("count", g.name+": truncated group")
			return
		}
		ok := false
		if group.op == OSlice {
			for _, n := range counts(st) {
				ok = ok || st.f.entails(Le(n, group.args[2]))
			}
		}
		c.that(ok, "count", g.name+": group", "%s may hand over a group that misses announced messages although none failed to arrive", g.name)
		c.that(tx != nil, "group", g.name+": server", "the goroutine handling a group is not given the server")
	}
	k.install()
	k.e.run("TcpX.ListenAndServeTCP", nil, nil)
	for _, g := range k.e.gos {
		if g.reads {
			for _, o := range g.outs {
				c.that(o.st.tags["col"] == nil, "group", g.name+": end", "%s may end without having handled a group it received", g.name)
			}
		}
	}
	c.atLeast("count", 2, "counted groups")
	c.atLeast("group", 4, "collected messages")
	// a handled group
	n := 0
	done := map[string]bool{}
	for _, d := range k.e.disp {
		_, tx, group := spawnCtx(d.sp)
		if group == nil || tx == nil || done[d.name] {
			continue
		}
		done[d.name] = true
		n++
		c.groupHandling(d, tx, group)
	}
	c.that(n > 0, "handled", "groups", "no goroutine handles groups")
	c.atLeast("handled", 3, "iterations over a group")
	c.pipeJSON("sent", "sent", "sent")
	c.atLeast("sent", 1, "client-side pipelines")
}

// withGroup is the goroutine d given another group.
func withGroup(d *Gor, group, other *Term) *Gor {
	sub := map[*Term]*Term{group: other}
	g, sp := *d, *d.sp
	sp.st = d.sp.st.clone()
	for p, v := range sp.st.mem {
		if v == group {
			sp.st.mem[p] = other
		}
	}
	sp.args = nil
	for _, a := range d.sp.args {
		sp.args = append(sp.args, subst(a, sub))
	}
	if sp.fn != nil {
		sp.fn = subst(sp.fn, sub)
	}
	if sp.recv != nil {
		sp.recv = subst(sp.recv, sub)
	}
	g.sp = &sp
	return &g
}

// groupHandling: an arbitrary group is handled in order, one at a time, all of it.
func (c *Check) groupHandling(d *Gor, tx, group *Term) {
	e := c.explorer()
	chainCalls(e.it)
	e.noDispatch = true
	st0 := types.NewSlice(types.NewPointer(c.named("Context")))
	other := typed(Sym("group", st0), st0)
	g := withGroup(d, group, other)
	s := g.name + ": handling"
	member := func(ctx *Term) *Term {
		if ctx.isApp("ld") && ctx.args[0].op == OElemP && ctx.args[0].args[0] == other.args[0] {
			return ctx.args[0].args[1]
		}
		return nil
	}
	outer := func(it *Interp) string {
		l := ""
		for n := it.ctx; n != nil; n = n.parent {
			if strings.HasPrefix(n.label, "L") {
				l = strings.SplitN(n.label, "#", 2)[0]
			}
		}
		return l
	}
	onm := c.field(g.sp.st, tx, "TcpX", "OnMessage")
	for _, set := range []bool{true, false} {
		st := g.sp.st.clone()
		if !st.assume(Eq(onm, Nil), !set) {
			continue
		}
		// the loop over the group
		loops := map[string]bool{}
		e.hook = func(_ *Gor, st *State, ev *Event) {
			if ev.kind == "next" && e.it.trial == 0 {
				loops[outer(e.it)] = true
			}
		}
		e.enter(g, st)
		if !c.that(len(loops) == 1 && !loops[""], "handled", s, "%s does not handle the members of a group in one loop over it", g.name) {
			return
		}
		// the member the current iteration has to handle (the first iteration is analysed on its own)
		var want *Term
		e.it.onIter = func(it *Interp, st *State, v *Term, l *Loop, fn *ssa.Function) {
			o := outer(it)
			if !loops[o] || !strings.HasPrefix(it.ctx.label, o+"#") {
				return
			}
			want = Int(0)
			if st.tags["in"] != nil {
				want = AddC(v, 1)
				if it.trial == 0 && set {
					c.that(st.tags["h"] != nil, "handled", s, "%s may skip a member of a group", g.name)
				}
			}
			st.tags["in"] = True
			delete(st.tags, "h")
		}
		e.it.onLoopExit = func(it *Interp, st *State, v *Term, l *Loop, fn *ssa.Function, atHead bool) {
			if o := outer(it); o != "" || it.trial != 0 {
				return
			}
			if want == nil || !loops["L"+itoa(l.header.Index)+"."+fn.Name()] {
				return
			}
			c.that(st.f.entails(Le(other.args[2], want)), "handled", s+" to the end", "%s may leave members of a group unhandled", g.name)
		}
		why := map[string]bool{}
		e.hook = func(_ *Gor, st *State, ev *Event) {
			switch ev.kind {
			case "go":
				if e.it.trial == 0 {
					why["hands members on to other goroutines"] = true
				}
			case "next":
				if st.tags["h"] != nil && e.it.trial == 0 {
					why["runs a chain twice for a member"] = true
				}
				if set {
					st.tags["h"] = True // (routed messages may be dropped: C23)
				}
				if e.it.trial != 0 {
					return
				}
				m := member(ev.args[0])
				if m == nil {
					why["runs the chain of something else than a member"] = true
					return
				}
				if want == nil || !st.f.eqInt(m, want) {
					why["does not handle the members in order"] = true
				}
				c.ok("handled", s+": next")
			}
		}
		n := 0
		for _, o := range e.enter(g, st) {
			n++
			if o.kind != 'r' {
				why["may be ended by a panic in a member's chain"] = true
			}
		}
		if n == 0 {
			why["never ends"] = true
		}
		for w := range why {
			c.bad("handled", s+": "+w, "%s %s", g.name, w)
		}
		e.it.onIter, e.it.onLoopExit, e.hook = nil, nil, nil
	}
}
