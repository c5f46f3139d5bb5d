package main

// C11 middleware chains, C23 routing: the goroutine that handles one message is analysed once per
// routing case (kind of route, handler registered or not, callback set or not, built-in message or
// not); the chain it starts is compared, as a symbolic sequence, with the documented one.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C11", func(c *Check) { ruleDispatch(c, true) })
	register("C23", func(c *Check) { ruleDispatch(c, false) })
}

// handlersField is the field of Context holding the chain.
func (c *Check) handlersField() int { return c.fieldOfType("Context", "[]func(") }

// fieldOfType finds the only field of a struct whose type starts so.
func (c *Check) fieldOfType(typ, prefix string) int {
	n := c.named(typ)
	if n == nil {
		return -1
	}
	s := n.Underlying().(*types.Struct)
	r := -1
	for i := 0; i < s.NumFields(); i++ {
		if strings.HasPrefix(types.TypeString(s.Field(i).Type(), nil), prefix) {
			if r >= 0 {
				c.bad("anchor", typ, "several fields of %s have type %s...", typ, prefix)
				return -1
			}
			r = i
		}
	}
	if r < 0 {
		c.bad("anchor", typ, "no field of %s has type %s...", typ, prefix)
	}
	return r
}

func (c *Check) fieldAt(st *State, p *Term, typ string, i int) *Term {
	n := c.named(typ)
	ft := n.Underlying().(*types.Struct).Field(i).Type()
	return st.load(FieldP(p, i, ft), ft)
}

// spawnTerms lists what a goroutine is given: arguments, receiver, captured variables (read through).
func spawnTerms(sp *Spawn) []*Term {
	var l []*Term
	add := func(t *Term) {
		if t == nil {
			return
		}
		l = append(l, t)
		if t.op == OObj {
			if v, ok := sp.st.mem[t]; ok {
				l = append(l, v)
			}
		}
	}
	add(sp.recv)
	for _, a := range sp.args {
		add(a)
	}
	if sp.fn != nil && sp.fn.op == OClosure {
		for _, a := range sp.fn.args {
			add(a)
		}
	}
	return l
}

func isPtrTo(t *Term, typ string) bool {
	if t == nil || t.typ == nil || t.op == OConst {
		return false
	}
	if t.op == OObj || t.op == OFieldP || t.op == OElemP {
		return namedOf(t.typ) == typ && !isPointer(t.typ)
	}
	return isPointer(t.typ) && namedOf(t.typ) == typ
}

func isPointer(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// spawnCtx finds the message context and the server a message goroutine is given.
func spawnCtx(sp *Spawn) (ctx, tx *Term, group *Term) {
	for _, t := range spawnTerms(sp) {
		switch {
		case isPtrTo(t, "Context"):
			ctx = t
		case isPtrTo(t, "TcpX"):
			tx = t
		case t.op == OSlice && t.args[0].typ != nil && strings.HasSuffix(types.TypeString(t.args[0].typ, nil), "tcpx.Context"):
			group = t
		}
	}
	return
}

// dispatchers explores a serving function and returns the goroutines its reading loop starts
// (not entered).
func (c *Check) dispatchers(e *explorer, root string) []*Gor {
	e.noDispatch = true
	e.childTags = noTags
	n := len(e.disp)
	e.run(root, nil, nil)
	return e.disp[n:]
}

// enter analyses the goroutine g from state st.
func (e *explorer) enter(g *Gor, st *State) []Outcome {
	it := e.it
	saved := it.ctx
	it.ctx = it.node(it.node(nil, "root"), "go"+instrID(g.sp.instr))
	it.sharedCtx = it.ctx
	prev := e.cur
	e.cur = g
	st = st.clone()
	outs := it.callTerm(st, g.sp.fn, g.sp.meth, g.sp.recv, g.sp.args, g.sp.common, g.sp.instr, false, nil)
	e.cur = prev
	it.ctx = saved
	it.sharedCtx = nil
	return outs
}

// ask calls a function of the code base as an oracle: the results and the states they hold in.
func (c *Check) ask(e *explorer, st *State, fn string, args ...*Term) []Outcome {
	f := c.fn(fn)
	if f == nil {
		return nil
	}
	h := e.hook
	e.hook = nil
	e.it.noJoin = true
	defer func() { e.hook, e.it.noJoin = h, false }()
	st = st.clone()
	roots := append([]*Term{}, args...)
	if e.keep != nil {
		roots = append(roots, e.keep...)
	}
	if f.Signature.Recv() != nil && !isPointer(f.Signature.Recv().Type()) && isPtrTo(args[0], namedOf(f.Signature.Recv().Type())) {
		args = append([]*Term{st.load(args[0], f.Signature.Recv().Type())}, args[1:]...)
	}
	e.it.stack = append(e.it.stack, frame{fn: f, roots: roots})
	defer func() { e.it.stack = e.it.stack[:len(e.it.stack)-1] }()
	var res []Outcome
	for _, o := range e.it.Call(f, args, nil, st, false, nil, nil) {
		if o.kind == 'r' {
			res = append(res, o)
		}
	}
	return res
}

// urlTable finds the map the handlers of url patterns are registered in, as a function of the mux.
func (c *Check) urlTable() func(mux *Term) *Term {
	f := c.fn("Mux.Any")
	if f == nil {
		return nil
	}
	it := c.interp()
	args := symArgs(f)
	var tab *Term
	it.onEvent = func(it *Interp, st *State, ev *Event) {
		if ev.kind == "mapset" && len(ev.args) >= 2 && ev.args[1] == args[1] {
			t := ev.args[0].typ
			if m, ok := t.Underlying().(*types.Map); ok {
				if _, ok := m.Elem().Underlying().(*types.Slice); ok {
					tab = ev.args[0]
				}
			}
		}
	}
	c.entry(it, f, args, newState())
	if !c.that(tab != nil, "table", "Mux.Any", "Mux.Any registers its handlers nowhere") {
		return nil
	}
	return func(mux *Term) *Term { return subst(tab, map[*Term]*Term{args[0]: mux}) }
}

type routes struct {
	c      *Check
	e      *explorer
	hf     int
	urlTab func(mux *Term) *Term
	authF  int
	chains bool
}

func ruleDispatch(c *Check, chains bool) {
	r := &routes{c: c, chains: chains, hf: c.handlersField(), urlTab: c.urlTable(), authF: c.argField("TcpX.WithAuthDetail", 1)}
	if r.hf < 0 || r.urlTab == nil || r.authF < 0 {
		return
	}
	e := c.explorer()
	r.e = e
	chainCalls(e.it)
	n := 0
	for _, root := range []string{"TcpX.ListenAndServeUDP", "TcpX.ListenAndServeTCP"} {
		for _, g := range c.dispatchers(e, root) {
			ctx, tx, group := spawnCtx(g.sp)
			if group != nil && tx != nil {
				// a group of one message (any group is handled one by one: C21)
				if cs := g.sp.st.sliceContent(group); group.op == OSlice && len(cs) > 0 && cs[0].isApp("elem") && isPtrTo(cs[0].args[0], "Context") {
					ctx = cs[0].args[0]
					o := SymNN("groupofone", types.NewArray(types.NewPointer(c.named("Context")), 1))
					one := mkSlice(o, Int(0), Int(1), Int(1), False)
					g = withGroup(g, group, one)
					g.sp.st.mem[o] = Seq(cs[0])
				}
			}
			if !c.that(ctx != nil && tx != nil, "dispatch", g.name, "%s is not given the context of its message and the server", g.name) {
				continue
			}
			n++
			r.cases(g, ctx, tx)
		}
	}
	c.that(n >= 3, "dispatch", "message goroutines", "only %d kinds of message goroutines found", n)
	if chains {
		r.raw()
		r.private()
		c.atLeast("chain", 8, "chains")
		c.atLeast("bypass", 4, "bypassing cases")
	} else {
		c.atLeast("route", 16, "routing cases")
		c.registration()
	}
}

// run analyses one case: what user code runs for the message.
type runs struct {
	n     int // at least one outcome
	chain int
}

// expectation of a case
type expect struct {
	kind string // "id", "url", "message", "raw": chain; "direct": handler alone; "none"
	key  *Term
}

func (r *routes) runCase(g *Gor, ctx, tx *Term, st *State, name string, ex expect) {
	c, e := r.c, r.e
	sitename := g.name + ": " + name
	rule := "route"
	switch {
	case r.chains && ex.kind == "direct":
		rule = "bypass"
	case r.chains:
		rule = "chain"
	}
	why := map[string]bool{}
	e.hook = func(_ *Gor, st *State, ev *Event) {
		switch ev.kind {
		case "next":
			st.tags["ran"] = plus(st.tags["ran"])
			if e.it.trial != 0 {
				return
			}
			if ev.args[0] != ctx && ex.kind != "raw" {
				why["runs the chain of another context"] = true
			}
			if w := r.match(st, ev.args[0], tx, ex); w != "" {
				why[w] = true
			}
		case "usercall":
			if ev.args[0].op == OSym && ev.args[0].name == "chain" {
				return
			}
			if n := c.callback(ev); n == "OnConnect" || n == "OnClose" {
				return
			}
			st.tags["ran"] = plus(st.tags["ran"])
			if e.it.trial != 0 {
				return
			}
			if ex.kind != "direct" {
				why["calls "+c.callback(ev)+" outside of the chain"] = true
			} else if !r.isHandler(ev.args[0], st, tx, ex.key) || len(ev.args) < 2 || ev.args[1] != ctx {
				why["calls something else than the registered handler with its context"] = true
			}
		}
	}
	n := 0
	for _, o := range e.enter(g, st) {
		n++
		ran := o.st.tags["ran"]
		switch {
		case ex.kind == "none":
			if ran != nil {
				why["runs user code although nothing is registered for the message"] = true
			}
		case ran == nil:
			why["may drop the message"] = true
		case ran != Int(1):
			why["may run more than one chain for the message"] = true
		}
	}
	e.hook = nil
	if n == 0 {
		why["never ends"] = true
	}
	for w := range why {
		c.bad(rule, sitename, "%s, %s: %s", g.name, name, w)
	}
	c.ok(rule, sitename)
}

func plus(t *Term) *Term {
	if t == nil {
		return Int(1)
	}
	return Int(2)
}

func (r *routes) isHandler(f *Term, st *State, tx, key *Term) bool {
	if !f.isApp("mapget") {
		return false
	}
	return r.c.isField(f.args[0], "Mux", "Handlers") && sameMux(f.args[0], r.c, tx) && f.args[1] == key
}

// sameMux: a field load whose base is the server's mux.
func sameMux(ld *Term, c *Check, tx *Term) bool {
	b := ld.args[0].args[0]
	return c.isField(b, "TcpX", "Mux") && b.args[0].args[0] == tx
}

func (r *routes) cases(g *Gor, ctx, tx *Term) {
	c, e := r.c, r.e
	base := g.sp.st
	e.keep = spawnTerms(g.sp)
	onm := c.field(base, tx, "TcpX", "OnMessage")
	mux := c.field(base, tx, "TcpX", "Mux")
	stream := c.field(base, ctx, "Context", "Stream")
	packx := c.field(base, tx, "TcpX", "Packx")
	with := func(st *State, t *Term, truth bool) *State {
		s := st.clone()
		if s.assume(t, truth) {
			return s
		}
		return nil
	}
	run := func(st *State, name string, ex expect) {
		if st != nil {
			r.runCase(g, ctx, tx, st, name, ex)
		}
	}
	if s := with(base, Eq(onm, Nil), false); s != nil {
		run(s, "message callback set", expect{kind: "message"})
	}
	st := with(base, Eq(onm, Nil), true)
	if st == nil {
		return
	}
	idC, urlC := c.constStr("MESSAGEID"), c.constStr("URLPATTERN")
	seen := map[string]bool{}
	for _, o := range c.ask(e, st, "Context.RouterType", ctx) {
		rt := o.vals[0]
		sid := with(o.st, Eq(rt, idC), true)
		if sid != nil {
			for _, k := range c.ask(e, sid, "Packx.MessageIDOf", packx, stream) {
				if !isNilErr(k) {
					continue
				}
				key := k.vals[0]
				hm := c.field(k.st, mux, "Mux", "Handlers")
				hmt := hm.typ.Underlying().(*types.Map)
				_, found := k.st.mapGet(hm, key, hmt)
				run(with(k.st, found, false), "no handler for the id", expect{kind: "none"})
				s := with(k.st, found, true)
				if s == nil {
					continue
				}
				seen["id"] = true
				// the index is recorded with every handler (C20)
				as := c.ask(e, s, "Mux.AnchorIndexOfMessageID", mux, key)
				if len(as) == 0 {
					c.bad("route", g.name, "no handler has an index")
					continue
				}
				s = as[0].st
				set := func(hb, auth, thr, athr int, hbKey, authKey bool) *State {
					n := s.clone()
					b := func(field string, v int) {
						if v == 0 {
							return
						}
						fp, _ := c.fieldP(tx, "TcpX", field)
						n.mem[fp] = boolTerm(v > 0)
					}
					b("HeartBeatOn", hb)
					b("ThroughMiddleware", thr)
					b("AuthThroughMiddleware", athr)
					at := c.named("TcpX").Underlying().(*types.Struct).Field(r.authF).Type()
					if auth != 0 {
						n.mem[FieldP(tx, r.authF, at)] = boolTerm(auth > 0)
					}
					if hbKey {
						fp, _ := c.fieldP(tx, "TcpX", "HeartBeatMessageID")
						n.mem[fp] = key
					}
					if authKey {
						fp, _ := c.fieldP(tx, "TcpX", "AuthMessageID")
						n.mem[fp] = key
					}
					return n
				}
				id := expect{kind: "id", key: key}
				direct := expect{kind: "direct", key: key}
				run(set(-1, -1, 0, 0, false, false), "handler for the id", id)
				run(set(-1, -1, 0, 0, true, true), "handler for the id, features off", id)
				run(set(1, -1, -1, 0, true, false), "heartbeat message past middleware", direct)
				run(set(1, -1, 1, 0, true, false), "heartbeat message through middleware", id)
				run(set(-1, 1, 0, -1, false, true), "authentication message past middleware", direct)
				run(set(-1, 1, 0, 1, false, true), "authentication message through middleware", id)
				other := set(1, 1, -1, -1, false, false)
				nk := func(n *State, field string) bool {
					return n.assume(EqI(c.field(n, tx, "TcpX", field), key), false)
				}
				if nk(other, "HeartBeatMessageID") && nk(other, "AuthMessageID") {
					run(other, "other message, features on", id)
				}
			}
		}
		surl := with(o.st, Eq(rt, urlC), true)
		if surl != nil {
			for _, k := range c.ask(e, surl, "URLPatternOf", stream) {
				if !isNilErr(k) {
					continue
				}
				key := k.vals[0]
				hm := r.urlTab(mux)
				hl, found := k.st.mapGet(hm, key, hm.typ.Underlying().(*types.Map))
				run(with(k.st, found, false), "no handler for the url pattern", expect{kind: "none"})
				if s := with(k.st, found, true); s != nil {
					seen["url"] = true
					// registering requires a handler (rule registration)
					if hl.op == OSlice && !s.assume(Lt(Int(0), hl.args[2]), true) {
						continue
					}
					as := c.ask(e, s, "Mux.AnchorIndexOfURLPattern", mux, key)
					if len(as) == 0 {
						c.bad("route", g.name, "no url pattern has an index")
						continue
					}
					s = as[0].st
					run(s, "handlers for the url pattern", expect{kind: "url", key: key})
				}
			}
		}
		if s := with(o.st, Eq(rt, idC), false); s != nil {
			if s = with(s, Eq(rt, urlC), false); s != nil {
				run(s, "unknown kind of route", expect{kind: "none"})
			}
		}
	}
	rule := "route"
	if r.chains {
		rule = "chain"
	}
	c.that(seen["id"] && seen["url"], rule, g.name+" kinds", "%s does not route by id and by url pattern", g.name)
}

func boolTerm(b bool) *Term {
	if b {
		return True
	}
	return False
}

func isNilErr(o Outcome) bool {
	e := o.vals[len(o.vals)-1]
	return e == Nil || o.st.f.isNil(e) == 1
}

// constStr is the value of an exported string constant.
func (c *Check) constStr(name string) *Term {
	if k, ok := c.p.pkg.Members[name].(*ssa.NamedConst); ok {
		return constTerm(k.Value)
	}
	c.bad("anchor", name, "constant %s does not exist any more", name)
	return Str("?")
}

// ---------------------------------------------------------------- matching a chain

// match compares the chain of ctx with the documented one.
func (r *routes) match(st *State, ctx, tx *Term, ex expect) string {
	c := r.c
	h := c.fieldAt(st, ctx, "Context", r.hf)
	if h.op != OSlice {
		return "starts an unknown chain"
	}
	cs := seqNormF(st.f, st.sliceContent(h))
	// what the connection's context was created with (nothing: rule private)
	if len(cs) > 0 && cs[0].isApp("region") && cs[0].args[0].isApp("arr") {
		l := cs[0].args[0].args[0]
		if l.isApp("ld") && l.args[0].op == OFieldP && int(l.args[0].c) == r.hf && strings.HasSuffix(ptrElem(l.args[0].args[0]), "tcpx.Context") {
			cs = cs[1:]
		}
	}
	isList := func(field string) func(l *Term) bool {
		return func(l *Term) bool { return c.isField(l, "Mux", field) && sameMux(l, c, tx) }
	}
	empty := func(field string) bool {
		mux := c.field(st, tx, "TcpX", "Mux")
		l := c.field(st, mux, "Mux", field)
		return l.op == OSlice && st.f.eqInt(l.args[2], Int(0))
	}
	// 1. global middlewares
	if len(cs) > 0 && wholeList(cs[0], isList("GlobalMiddlewares")) {
		cs = cs[1:]
	} else if !empty("GlobalMiddlewares") {
		return "the chain does not start with all global middlewares in order"
	}
	// 2. anchored middlewares
	anch := isList("MiddlewareAnchors")
	if len(cs) > 0 && cs[0].loop != nil {
		if w := r.anchors(st, cs[0], anch, tx, ex); w != "" {
			return w
		}
		cs = cs[1:]
	} else if !empty("MiddlewareAnchors") {
		return "the anchored middlewares do not follow the global ones"
	}
	// 3. the handler and its own middlewares
	switch ex.kind {
	case "message", "raw":
		f := map[string]string{"message": "OnMessage", "raw": "HandleRaw"}[ex.kind]
		if len(cs) != 1 || !cs[0].isApp("elem") || !c.isField(cs[0].args[0], "TcpX", f) {
			return "the chain does not end with just " + f + ": " + short(seqStr(cs))
		}
	case "id":
		mux := c.field(st, tx, "TcpX", "Mux")
		sm := c.field(st, mux, "Mux", "MessageIDSelfMiddleware")
		own := func(l *Term) bool {
			return l.isApp("mapget") && c.isField(l.args[0], "Mux", "MessageIDSelfMiddleware") && sameMux(l.args[0], c, tx) && l.args[1] == ex.key
		}
		if len(cs) > 0 && wholeList(cs[0], own) {
			cs = cs[1:]
		} else if v, ok := st.mapGet(sm, ex.key, sm.typ.Underlying().(*types.Map)); !(st.f.holds(ok) == -1 || v.op == OSlice && st.f.eqInt(v.args[2], Int(0))) {
			return "the middlewares registered with the handler do not follow the anchored ones"
		}
		if len(cs) != 1 || !cs[0].isApp("elem") || !r.isHandler(cs[0].args[0], st, tx, ex.key) {
			return "the chain does not end with just the handler registered for the id: " + short(seqStr(cs))
		}
	case "url":
		mux := c.field(st, tx, "TcpX", "Mux")
		tab := r.urlTab(mux)
		own := func(l *Term) bool { return l.isApp("mapget") && sameLoad(l.args[0], tab) && l.args[1] == ex.key }
		if len(cs) != 1 || !wholeList(cs[0], own) {
			return "the chain does not end with just the handlers registered for the url pattern: " + short(seqStr(cs))
		}
	case "none":
		return "runs a chain although nothing is registered for the message"
	case "direct":
		return "runs the chain although the message is to bypass middleware"
	}
	return ""
}

func short(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

// wholeList: the chunk is the whole content of a list, in order.
func wholeList(ch *Term, is func(l *Term) bool) bool {
	if ch.isApp("region") && ch.args[0].isApp("arr") {
		l := ch.args[0].args[0]
		return is(l) && ch.args[1] == Int(0) && ch.args[2].isApp("len") && sameLoad(ch.args[2].args[0], l)
	}
	if ch.loop != nil && ch.loop.full {
		li := ch.loop
		if !ch.args[0].isApp("len") || !is(ch.args[0].args[0]) {
			return false
		}
		for _, a := range li.alts {
			if len(a.chunks) != 1 || !a.chunks[0].isApp("elem") {
				return false
			}
			l, i := listElem(a.chunks[0].args[0])
			if l == nil || !is(l) || i != li.iv {
				return false
			}
		}
		return len(li.alts) > 0
	}
	return false
}

// listElem: v is element i of the list l.
func listElem(v *Term) (l, i *Term) {
	if v.isApp("ld") && v.args[0].op == OElemP && v.args[0].args[0].isApp("arr") {
		return v.args[0].args[0].args[0], v.args[0].args[1]
	}
	return nil, nil
}

// anchors checks the part of the chain made of anchored middlewares.
func (r *routes) anchors(st *State, ch *Term, is func(l *Term) bool, tx *Term, ex expect) string {
	c := r.c
	li := ch.loop
	if !li.full || !ch.args[0].isApp("len") || !is(ch.args[0].args[0]) {
		return "not every anchored middleware is considered"
	}
	at := c.named("MiddlewareAnchor")
	mw := fieldIndex(at, "Middleware")
	rs, re := fieldIndex(at, "AnchorStartIndexRange"), fieldIndex(at, "AnchorEndIndexRange")
	// fieldOfElem: field f of element iv of the list
	fieldOfElem := func(v *Term, f int) bool {
		if v.op == OSlice && v.args[0].isApp("arr") {
			v = v.args[0].args[0]
		}
		if !v.isApp("ld") || v.args[0].op != OFieldP || int(v.args[0].c) != f {
			return false
		}
		e := v.args[0].args[0]
		return e.op == OElemP && e.args[0].isApp("arr") && is(e.args[0].args[0]) && e.args[1] == li.iv
	}
	var idx *Term
	if ex.kind == "id" || ex.kind == "url" {
		mux := c.field(st, tx, "TcpX", "Mux")
		m := map[string]string{"id": "Mux.AnchorIndexOfMessageID", "url": "Mux.AnchorIndexOfURLPattern"}[ex.kind]
		for _, o := range c.ask(r.e, st, m, mux, ex.key) {
			idx = o.vals[0]
		}
		if idx == nil {
			return "the index of the handler is unknown"
		}
	}
	some := false
	for _, a := range li.alts {
		in := len(a.chunks) == 1 && a.chunks[0].isApp("elem") && fieldOfElem(a.chunks[0].args[0], mw)
		if !in && len(a.chunks) != 0 {
			return "the chain contains something else than the anchored middleware: " + short(seqStr(a.chunks))
		}
		some = some || in
		if idx == nil {
			if !in {
				return "an anchored middleware may be left out"
			}
			continue
		}
		dec := 0
		for _, q := range a.guard {
			t := q
			v := 1
			if t.isApp("not") {
				t, v = t.args[0], -1
			}
			if !t.isApp("contains") {
				continue
			}
			if !fieldOfElem(t.args[0], rs) || !fieldOfElem(t.args[1], re) || !sameIdx(t.args[2], idx) {
				return "membership of an anchored middleware is asked for another middleware or handler"
			}
			dec = v
		}
		switch {
		case in && dec != 1:
			return "an anchored middleware that is not in use for the handler may run"
		case !in && dec != -1:
			return "an anchored middleware in use for the handler may be left out"
		}
	}
	if !some {
		return "no anchored middleware ever runs"
	}
	return ""
}

// sameIdx compares values up to the time they were loaded.
func sameIdx(a, b *Term) bool {
	if a == b || sameLoad(a, b) {
		return true
	}
	if a.op != b.op || a.name != b.name || len(a.args) != len(b.args) || len(a.args) == 0 {
		return false
	}
	if a.c != b.c && !epochCarrier[a.name] {
		return false
	}
	for i := range a.args {
		if !sameIdx(a.args[i], b.args[i]) {
			return false
		}
	}
	return true
}

// raw: the chain of a raw connection.
func (r *routes) raw() {
	c, e := r.c, r.e
	e2 := c.explorer()
	chainCalls(e2.it)
	e2.childTags = noTags
	r.e = e2
	tx := symArgs(c.p.Func("TcpX.ListenAndServeRaw"))[0]
	n := 0
	e2.hook = func(g *Gor, st *State, ev *Event) {
		if ev.kind != "next" {
			return
		}
		st.tags["ran"] = plus(st.tags["ran"])
		if e2.it.trial != 0 {
			return
		}
		n++
		if w := r.match(st, ev.args[0], tx, expect{kind: "raw"}); w != "" {
			c.bad("chain", g.name, "%s: %s", g.name, w)
		}
	}
	e2.run("TcpX.ListenAndServeRaw", nil, nil)
	for _, g := range e2.gos {
		for _, o := range g.outs {
			if ran := o.st.tags["ran"]; ran != nil {
				c.that(ran == Int(1), "chain", g.name, "%s runs more than one chain", g.name)
			}
		}
	}
	c.that(n > 0, "chain", "raw", "a raw server runs no chain")
	r.e = e
}

// private: a context is created without handlers, and no operation on it adds one.
func (r *routes) private() {
	c := r.c
	for _, m := range []string{"NewContext", "NewUDPContext", "NewTCPContext"} {
		f := c.p.Func(m)
		if f == nil {
			continue
		}
		it := c.interp()
		for _, o := range c.entry(it, f, symArgs(f), newState()) {
			if o.kind == 'r' {
				h := c.fieldAt(o.st, o.vals[0], "Context", r.hf)
				c.that(h.op == OSlice && o.st.f.eqInt(h.args[2], Int(0)) || h == Nil, "private", m, "%s creates a context that already has a chain", m)
			}
		}
	}
	c.contextMethods(func(name string, f *ssa.Function) {
		if f.Name() == "Next" {
			return
		}
		it := c.interp()
		args := symArgs(f)
		st := newState()
		h0 := c.fieldAt(st, args[0], "Context", r.hf)
		st.assume(EqI(h0.args[2], Int(0)), true)
		for _, o := range c.entry(it, f, args, st) {
			h := c.fieldAt(o.st, args[0], "Context", r.hf)
			c.that(h.op == OSlice && o.st.f.eqInt(h.args[2], Int(0)) || h == Nil, "private", name, "%s adds to the chain of a context", name)
		}
	})
	c.atLeast("private", 20, "operations on contexts")
}

// contextMethods calls do for every exported method of *Context.
func (c *Check) contextMethods(do func(name string, f *ssa.Function)) {
	n := c.named("Context")
	if n == nil {
		return
	}
	ms := c.p.prog.MethodSets.MethodSet(types.NewPointer(n))
	for i := 0; i < ms.Len(); i++ {
		f := c.p.prog.MethodValue(ms.At(i))
		if f == nil || !ms.At(i).Obj().Exported() || f.Blocks == nil || f.Synthetic != "" || f.Pkg != c.p.pkg {
			continue
		}
		do("Context."+f.Name(), f)
	}
}

// registration: what the registering operations leave in the routing tables.
func (c *Check) registration() {
	tab := c.urlTable()
	if tab == nil {
		return
	}
	for _, m := range []string{"Mux.AddHandleFunc", "TcpX.AddHandler"} {
		f := c.fn(m)
		if f == nil {
			continue
		}
		args := symArgs(f)
		it := c.interp()
		st := newState()
		mux, h, n := args[0], args[2], (*Term)(nil)
		if m == "TcpX.AddHandler" {
			mux = c.field(st, args[0], "TcpX", "Mux")
			st.assume(Eq(mux, Nil), false)
			n = args[2].args[2]
		}
		get := func(st *State, field string) (v, ok *Term) {
			t := c.field(st, mux, "Mux", field)
			return st.mapGet(t, args[1], t.typ.Underlying().(*types.Map))
		}
		_, had := get(st, "Handlers")
		had0, _ := get(st, "Handlers")
		good := 0
		for _, o := range c.entry(it, f, args, st) {
			v, ok := get(o.st, "Handlers")
			if o.kind != 'r' {
				if o.st.f.holds(had) == 1 {
					c.that(v == had0 || sameIdx(v, had0), "registration", m+" twice", "%s replaces the handler of an id it refuses", m)
				}
				continue
			}
			good++
			c.that(o.st.f.holds(had) == -1, "registration", m+" twice", "%s accepts a second handler for an id", m)
			if n != nil {
				last, _, arr, i, found := seqAt(o.st.f, o.st.sliceContent(args[2]), Sub(n, Int(1)))
				switch {
				case !found:
					h = nil
				case last != nil:
					h = last
				default:
					l, j := listElem(v)
					c.that(l != nil && l == arr.args[0] && j == i, "registration", m, "%s does not register its last argument as the handler", m)
					h = v
				}
				sv, sok := get(o.st, "MessageIDSelfMiddleware")
				if o.st.f.entails(Le(n, Int(1))) {
					c.that(o.st.f.holds(sok) != 1 || !sok.isConst(), "registration", m+" middlewares", "%s registers middlewares for a handler that has none", m)
				} else {
					want := Seq(chRegion(args[2].args[0], Int(0), Sub(n, Int(1))))
					got := Seq(seqNormF(o.st.f, trimSpare(o.st.sliceContent(sv)))...)
					c.that(sv.op == OSlice && got == want, "registration", m+" middlewares", "%s does not register all its leading arguments, in order, as middlewares of the handler: %s", m, short(seqStr(got.args)))
				}
			}
			c.that(ok == True && v == h, "registration", m, "%s does not register its handler for its id", m)
		}
		c.that(good > 0, "registration", m, "%s never succeeds", m)
	}
	for _, m := range []string{"Mux.Any", "TcpX.Any"} {
		f := c.fn(m)
		if f == nil {
			continue
		}
		args := symArgs(f)
		it := c.interp()
		st := newState()
		mux := args[0]
		if m == "TcpX.Any" {
			mux = c.field(st, args[0], "TcpX", "Mux")
			st.assume(Eq(mux, Nil), false)
			// reopening a closed mux is outside of this rule
			st.assume(c.field(st, mux, "Mux", "AllowAdd"), true)
		}
		t := tab(mux)
		mt := t.typ.Underlying().(*types.Map)
		old, had := st.mapGet(t, args[1], mt)
		n := 0
		for _, o := range c.entry(it, f, args, st) {
			if o.kind != 'r' || len(o.vals) > 0 && !isNilErr(o) {
				continue
			}
			n++
			v, ok := o.st.mapGet(t, args[1], mt)
			locked := false
			for q, b := range o.st.f.bools {
				if b && q.isApp("ld") && q.args[0].op == OFieldP && strings.HasSuffix(ptrElem(q.args[0].args[0]), "tcpx.URLMux") {
					locked = true // the table of patterns is closed
				}
			}
			if locked && ok == had {
				continue
			}
			var want []*Term
			if o.st.f.holds(had) == 1 {
				want = append(want, o.st.sliceContent(old)...)
			}
			want = append(want, o.st.sliceContent(args[2])...)
			want = seqNormF(o.st.f, trimSpare(want))
			c.that(ok == True && v.op == OSlice && Seq(seqNormF(o.st.f, trimSpare(o.st.sliceContent(v)))...) == Seq(want...), "registration", m, "%s does not register its handlers, in order, after those the pattern has", m)
		}
		c.that(n > 0, "registration", m, "%s never succeeds", m)
	}
	c.atLeast("registration", 6, "registering operations")
}
