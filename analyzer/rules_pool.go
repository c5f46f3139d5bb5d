package main

// C08: the client pool.
//
// Every operation is analysed on an arbitrary pool, whose content other goroutines may change
// whenever its lock is free, and compared with its specified effect. The race between coming
// online and being closed is decided by the order of two steps on each side: coming online enters
// the name and afterwards looks whether the connection is closed, closing marks the connection
// closed and afterwards removes the entry.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C08", rulePool)
}

type poolRule struct {
	c    *Check
	pf   int   // field of Context referring to the pool
	uf   int   // field of Context referring to the online state
	same []int // fields that are the same exactly for contexts of the same connection
	off  *Term // the value of a closed connection
}

func rulePool(c *Check) {
	r := &poolRule{c: c, pf: c.fieldOfType("Context", "*github.com/fwhezfwhez/tcpx.ClientPool"), uf: c.fieldOfType("Context", "*int"), off: c.constInt("CONTEXT_OFFLINE")}
	if r.pf < 0 || r.uf < 0 {
		return
	}
	r.same = []int{r.uf, c.fieldOfType("Context", "*sync.RWMutex"), c.fieldIdx("Context", "PerConnectionContext")}
	if end := c.endField(); end >= 0 {
		r.same = append(r.same, end)
	}
	for _, i := range r.same {
		if i < 0 {
			return
		}
	}
	r.identity()
	r.basics()
	r.online()
	r.leaving("Context.Offline")
	r.leaving("Context.CloseConn")
	r.send()
	r.removals()
	c.atLeast("identity", 4, "identities of a connection")
	c.atLeast("pool", 8, "operations on the pool")
	c.atLeast("online", 4, "ways of coming online")
	c.atLeast("own", 2, "removals")
	c.atLeast("send", 3, "sending")
}

// identity: the fields that are compared are created for each connection.
func (r *poolRule) identity() {
	c := r.c
	for _, m := range []string{"NewContext", "NewTCPContext"} {
		f := c.p.Func(m)
		if f == nil {
			continue
		}
		it := c.interp()
		for _, o := range c.entry(it, f, symArgs(f), newState()) {
			if o.kind != 'r' {
				continue
			}
			for _, i := range r.same {
				v := c.fieldAt(o.st, o.vals[0], "Context", i)
				n := c.named("Context").Underlying().(*types.Struct).Field(i).Name()
				c.that(isFresh(addrRoot(v)) || strings.HasSuffix(m, "TCPContext") && v.op == OObj, "identity", m+" "+n, "%s does not create %s for the new connection", m, n)
			}
		}
	}
}

func (r *poolRule) clients(st *State, pool *Term) *Term {
	return r.c.field(st, pool, "ClientPool", "Clients")
}

func (r *poolRule) entryOf(st *State, pool, name *Term) (v, ok *Term) {
	m := r.clients(st, pool)
	return st.mapGet(m, name, m.typ.Underlying().(*types.Map))
}

// rel: 1 the entry is of the connection of ctx, -1 it is not (or there is none), 0 unknown.
func (r *poolRule) rel(st *State, pool, name, ctx *Term) int {
	m := r.clients(st, pool)
	if m == Nil || st.f.isNil(m) == 1 {
		return -1
	}
	v, ok := r.entryOf(st, pool, name)
	if ok == False || st.f.holds(ok) == -1 || v == Nil || st.f.isNil(v) == 1 {
		return -1
	}
	if v == ctx {
		return 1
	}
	for _, i := range r.same {
		a, b := r.c.fieldAt(st, v, "Context", i), r.c.fieldAt(st, ctx, "Context", i)
		if a == b {
			return 1
		}
		if h := st.f.holds(Eq(a, b)); h != 0 {
			return int(h)
		}
	}
	return 0
}

func (r *poolRule) isClients(m, pool *Term) bool {
	if m == nil || !m.isApp("ld") || m.args[0].op != OFieldP {
		return false
	}
	return r.c.isField(m, "ClientPool", "Clients") && m.args[0].args[0] == pool
}

// basics: the operations of the pool itself.
func (r *poolRule) basics() {
	c := r.c
	run := func(m string, do func(o Outcome, args []*Term)) {
		f := c.fn(m)
		if f == nil {
			return
		}
		it := c.interp()
		args := symArgs(f)
		st := newState()
		st.assume(Eq(r.clients(st, args[0]), Nil), false)
		n := 0
		it.onEvent = func(it *Interp, st *State, ev *Event) {
			switch ev.kind {
			case "mapset", "mapdel":
				if it.trial != 0 || !r.isClients(ev.args[0], args[0]) {
					return
				}
				st.tags["touched"] = True
				c.that(len(args) > 1 && ev.args[1] == args[1], "pool", m+" key", "%s changes another name's entry", m)
			case "lock":
				// whatever was done in an earlier critical section may be undone by now
				st.tags["locked"] = plus(st.tags["locked"])
			}
		}
		for _, o := range c.entry(it, f, args, st) {
			if c.that(o.kind == 'r', "pool", m+" panic", "%s panics", m) {
				n++
				do(o, args)
			}
		}
		c.that(n > 0, "pool", m+" returns", "%s never returns", m)
	}
	for _, m := range []string{"ClientPool.SetClientPool", "ClientPool.Online"} {
		run(m, func(o Outcome, a []*Term) {
			v, _ := r.entryOf(o.st, a[0], a[1])
			c.that(v == a[2], "pool", m, "%s does not make the name resolve to the connection", m)
		})
	}
	for _, m := range []string{"ClientPool.DeleteFromClientPool", "ClientPool.Offline"} {
		run(m, func(o Outcome, a []*Term) {
			v, ok := r.entryOf(o.st, a[0], a[1])
			c.that(o.st.f.holds(ok) == -1 || v == Nil || o.st.f.isNil(v) == 1, "pool", m, "the name can still be found after %s", m)
		})
	}
	run("ClientPool.GetClientPool", func(o Outcome, a []*Term) {
		v, _ := r.entryOf(o.st, a[0], a[1])
		c.that(o.vals[0] == v || o.st.f.holds(Eq(o.vals[0], v)) == 1 || o.vals[0] == Nil && o.st.f.isNil(v) == 1, "pool", "ClientPool.GetClientPool", "GetClientPool returns something else than the entry of the name")
		c.that(o.st.tags["touched"] == nil, "pool", "ClientPool.GetClientPool read", "GetClientPool changes the pool")
	})
}

// tcp: an arbitrary connection of a server with a pool.
func (r *poolRule) tcp(ctx *Term) *State {
	c := r.c
	st := newState()
	pool := c.fieldAt(st, ctx, "Context", r.pf)
	st.assume(Eq(pool, Nil), false)
	st.assume(Eq(r.clients(st, pool), Nil), false)
	st.assume(Eq(c.field(st, ctx, "Context", "Conn"), Nil), false)
	st.assume(Eq(c.field(st, ctx, "Context", "PacketConn"), Nil), true)
	return st
}

// named makes a context (with a pool) known under a name.
func (r *poolRule) named(it *Interp, ctx, name *Term) []*State {
	c := r.c
	f := c.fn("Context.SetUsername")
	if f == nil {
		return nil
	}
	it.noJoin = true
	st := r.tcp(ctx)
	st.assume(Eq(name, Str("")), false)
	var res []*State
	for _, o := range c.entry(it, f, []*Term{ctx, name}, st) {
		if o.kind == 'r' {
			res = append(res, o.st)
		}
	}
	return res
}

func (r *poolRule) state(st *State, ctx *Term) *Term {
	return st.load(r.c.fieldAt(st, ctx, "Context", r.uf), types.Typ[types.Int])
}

func (r *poolRule) isOff(st *State, ctx *Term) int8 {
	return st.f.holds(EqI(r.state(st, ctx), r.off))
}

// forget lets other goroutines close the connection now.
func (r *poolRule) forget(st *State, ctx *Term) {
	p := r.c.fieldAt(st, ctx, "Context", r.uf)
	st.havoc(p)
	st.fepoch["*int"]++
}

func (r *poolRule) poolLock(it *Interp, st *State, mu, pool *Term) bool {
	o, n, _ := it.lockOwner(st, mu)
	return o != nil && o == pool && n.Obj().Name() == "ClientPool"
}

// watch calls note whenever more is known about the content of the pool while its lock is held,
// and forgets the given findings when the lock is taken again.
func (r *poolRule) watch(it *Interp, pool *Term, tags []string, note func(st *State), more func(it *Interp, st *State, ev *Event)) {
	it.onBranch = func(it *Interp, st *State, cond *Term, truth bool) {
		for _, l := range st.locks {
			if r.poolLock(it, st, l.lock, pool) {
				note(st)
			}
		}
	}
	it.onEvent = func(it *Interp, st *State, ev *Event) {
		switch ev.kind {
		case "lock":
			if r.poolLock(it, st, ev.args[0], pool) {
				for _, t := range tags {
					delete(st.tags, t)
				}
			}
		case "unlock":
			if r.poolLock(it, st, ev.args[0], pool) {
				note(st)
			}
		}
		if more != nil {
			more(it, st, ev)
		}
	}
}

// online: Context.Online.
func (r *poolRule) online() {
	c := r.c
	f := c.fn("Context.Online")
	if f == nil {
		return
	}
	args := symArgs(f)
	ctx, name := args[0], args[1]
	for _, kind := range []string{"renamed", "same name", "anonymous"} {
		it := c.interp()
		former := Sym("former", types.Typ[types.String])
		var sts []*State
		switch kind {
		case "anonymous":
			it.noJoin = true
			st := r.tcp(ctx)
			st.assume(Eq(name, Str("")), false)
			for _, o := range c.entry(it, c.fn("Context.Username"), []*Term{ctx}, st) {
				if o.kind == 'r' && o.st.f.holds(o.vals[1]) == -1 {
					sts = append(sts, o.st)
				}
			}
		case "same name":
			sts = r.named(it, ctx, name)
		default:
			sts = r.named(it, ctx, former)
			for _, st := range sts {
				st.assume(Eq(former, name), false)
				st.assume(Eq(name, Str("")), false)
			}
		}
		site := "Context.Online " + kind
		c.that(len(sts) > 0, "online", site+" setup", "no context is %s", kind)
		for _, st := range sts {
			pool := c.fieldAt(st, ctx, "Context", r.pf)
			note := func(st *State) {
				if kind == "renamed" && r.rel(st, pool, former, ctx) == -1 {
					st.tags["gone"] = True
				}
				if r.rel(st, pool, name, ctx) == -1 {
					st.tags["out"] = True
				}
			}
			r.watch(it, pool, []string{"out"}, note, func(it *Interp, st *State, ev *Event) {
				switch ev.kind {
				case "unlock":
					if !r.poolLock(it, st, ev.args[0], pool) {
						return
					}
					if v, _ := r.entryOf(st, pool, name); v == ctx {
						st.tags["entered"] = True
						delete(st.tags, "out")
						r.forget(st, ctx)
					}
				case "syncmap":
					if ev.name == "Store" {
						r.forget(st, ctx)
					}
				}
			})
			good := 0
			for _, o := range c.entry(it, f, args, st) {
				if !c.that(o.kind == 'r', "online", site+" panic", "%s panics", site) {
					continue
				}
				if !isNilErr(o) {
					// refused: nothing of this connection stays behind under the name
					if o.st.tags["entered"] != nil {
						c.that(o.st.tags["out"] != nil, "online", site+" refused", "coming online fails, but the connection stays in the pool (%s)", kind)
					}
					continue
				}
				good++
				c.that(o.st.tags["entered"] != nil, "online", site, "coming online reports success, but the name does not resolve to the connection (%s)", kind)
				if kind == "renamed" {
					c.that(o.st.tags["gone"] != nil, "online", site+" former name", "a renamed connection is still found under its former name")
				}
				c.that(r.isOff(o.st, ctx) == -1, "online", site+" closed", "a connection that is closed while it comes online stays in the pool (%s)", kind)
				for _, u := range c.entry(it, c.fn("Context.Username"), []*Term{ctx}, o.st.clone()) {
					if u.kind == 'r' {
						c.that(u.st.f.holds(u.vals[1]) != -1 && (u.vals[0] == name || u.st.f.holds(Eq(u.vals[0], name)) == 1), "online", site+" name", "a connection that came online does not know its name: it cannot be removed when it closes (%s)", kind)
					}
				}
			}
			it.onEvent, it.onBranch = nil, nil
			c.that(good > 0, "online", site+" possible", "a connection can never come online (%s)", kind)
		}
	}
}

// leaving: going offline or closing removes the own entry, and no other.
func (r *poolRule) leaving(m string) {
	c := r.c
	f := c.fn(m)
	if f == nil {
		return
	}
	args := symArgs(f)
	ctx := args[0]
	name := Sym("name", types.Typ[types.String])
	closing := m == "Context.CloseConn"
	it := c.interp()
	n := 0
	for _, st := range r.named(it, ctx, name) {
		pool := c.fieldAt(st, ctx, "Context", r.pf)
		note := func(st *State) {
			if r.rel(st, pool, name, ctx) == -1 && (!closing || r.isOff(st, ctx) == 1) {
				st.tags["gone"] = True
			}
		}
		r.watch(it, pool, []string{"gone"}, note, nil)
		for _, o := range c.entry(it, f, args, st) {
			if o.kind == 'p' {
				continue // C05, C06
			}
			n++
			c.that(o.st.tags["gone"] != nil, "own", m, "after %s the connection can still be found in the pool%s", m, map[bool]string{true: ", or it is marked closed only after it was removed", false: ""}[closing])
		}
		it.onEvent, it.onBranch = nil, nil
	}
	c.that(n > 0, "own", m+" analysed", "%s could not be analysed for a connection with a name", m)
}

// send: SendToUsername.
func (r *poolRule) send() {
	c := r.c
	f := c.fn("Context.SendToUsername")
	if f == nil {
		return
	}
	it := c.interp()
	it.noJoin = true
	args := symArgs(f)
	ctx, name := args[0], args[1]
	st := newState()
	pool := c.fieldAt(st, ctx, "Context", r.pf)
	st.assume(Eq(pool, Nil), false)
	st.assume(Eq(r.clients(st, pool), Nil), false)
	var target *Term
	it.onCall = func(it *Interp, st *State, g *ssa.Function, a []*Term, in ssa.Instruction) ([]Outcome, bool) {
		return nil, false
	}
	watchWrites(it)
	for _, o := range c.entry(it, f, args, st) {
		if o.kind != 'r' {
			continue
		}
		v, ok := r.entryOf(o.st, pool, name)
		absent := o.st.f.holds(ok) == -1 || v == Nil || o.st.f.isNil(v) == 1
		w := o.st.tags["wt"]
		if w == nil {
			c.that(!isNilErr(o), "send", "Context.SendToUsername error", "sending reports success although nothing was sent")
			continue
		}
		c.that(!absent, "send", "Context.SendToUsername absent", "a message is written although nobody is registered under the name")
		target = w.args[0]
		ours := target.contains(func(x *Term) bool { return x == v })
		c.that(ours, "send", "Context.SendToUsername target", "a message is sent to something else than the connection registered under the name: %s", short(target.String()))
	}
	c.that(target != nil, "send", "Context.SendToUsername", "nothing is ever sent")
}

// removals: wherever the server removes a name, the entry is of the connection that leaves.
func (r *poolRule) removals() {
	c := r.c
	n := 0
	pt := c.named("ClientPool")
	c.everything(func(e *explorer) {
		e.it.panicCalls = false
		e.hook = func(g *Gor, st *State, ev *Event) {
			if ev.kind != "mapdel" || e.it.trial != 0 || !c.isField(ev.args[0], "ClientPool", "Clients") {
				return
			}
			if g != nil && strings.HasPrefix(g.root, pt.Obj().Name()+".") {
				return // the user asks for the removal of a name
			}
			n++
			pool := ev.args[0].args[0].args[0]
			v, _ := r.entryOf(st, pool, ev.args[1])
			own := false
			// some context of the same connection as the entry is at hand
			for _, i := range r.same {
				a := c.fieldAt(st, v, "Context", i)
				if st.f.isNil(v) == 1 || r.comparedEqual(st, a, i, v) {
					own = true
				}
			}
			c.that(own, "own", g.root+" removal", "%s removes a name from the pool without knowing that the entry is of the leaving connection", g.name)
		}
	})
	c.that(n > 0, "own", "removals", "the server never removes a name from the pool")
}

// comparedEqual: a (field i of the entry v) is known to equal the same field of another context.
func (r *poolRule) comparedEqual(st *State, a *Term, i int, v *Term) bool {
	other := func(t *Term) bool {
		return t.isApp("ld") && t.args[0].op == OFieldP && int(t.args[0].c) == i && t.args[0].args[0] != v && strings.HasSuffix(ptrElem(t.args[0].args[0]), "tcpx.Context")
	}
	for q, val := range st.f.bools {
		if val && q.isApp("eq") {
			if q.args[0] == a && (other(q.args[1]) || isFresh(q.args[1])) || q.args[1] == a && (other(q.args[0]) || isFresh(q.args[0])) {
				return true
			}
		}
	}
	return false
}
