package main

// C12: the position protocol of a middleware chain.
//
// A context is at position p of its chain (p links have been started, the last being link p), or
// it is done: aborted, or past the end. Proved for an arbitrary chain and position, with links
// that return in any of the states they can produce (unchanged, done by having advanced, aborted):
//   Next at position p starts link p+1, with the context at position p+1, and goes on from there;
//   Next when done starts nothing and leaves the context done;
//   Abort leaves the context aborted in every state;
//   every message starts at position -1.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C12", ruleAbort)
}

func mkIface(v *Term, t types.Type) *Term {
	return intern(Term{op: OIface, typ: t, args: []*Term{v}})
}

type chainRule struct {
	c     *Check
	hf    int
	pos   int
	abort map[int]*Term // what Abort stores
	zero  map[int]*Term // initial values of these
}

// ctxStores: the fields of its context a method stores into, with the values.
func (c *Check) ctxStores(m string) map[int][]*Term {
	f := c.fn(m)
	if f == nil {
		return nil
	}
	it := c.interp()
	args := symArgs(f)
	res := map[int][]*Term{}
	it.onStore = func(it *Interp, st *State, p, v *Term, _ ssa.Instruction) {
		if p.op == OFieldP && p.args[0] == args[0] {
			res[int(p.c)] = append(res[int(p.c)], v)
		}
	}
	c.entry(it, f, args, newState())
	return res
}

func ruleAbort(c *Check) {
	r := &chainRule{c: c, hf: c.handlersField(), pos: -1, abort: map[int]*Term{}, zero: map[int]*Term{}}
	next := c.fn("Context.Next")
	ab := c.fn("Context.Abort")
	if r.hf < 0 || next == nil || ab == nil {
		return
	}
	s := c.named("Context").Underlying().(*types.Struct)
	for i := range c.ctxStores("Context.Next") {
		if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if !c.that(r.pos < 0, "anchor", "position", "Next keeps its position in several fields") {
				return
			}
			r.pos = i
		}
	}
	if !c.that(r.pos >= 0, "anchor", "position", "Next keeps no position in the context") {
		return
	}
	for i, vs := range c.ctxStores("Context.Abort") {
		for _, v := range vs {
			if c.that(v.op == OConst, "abort", "Context.Abort", "Abort stores no constant in %s", s.Field(i).Name()) && r.abort[i] == nil {
				r.abort[i] = v
			}
		}
	}
	if !c.that(len(r.abort) > 0, "abort", "Context.Abort", "Abort leaves no mark on the context") {
		return
	}
	// contexts are created at position -1
	for _, m := range []string{"NewContext", "NewUDPContext", "NewTCPContext"} {
		f := c.p.Func(m)
		if f == nil {
			continue
		}
		it := c.interp()
		for _, o := range c.entry(it, f, symArgs(f), newState()) {
			if o.kind != 'r' {
				continue
			}
			for i := range r.abort {
				if i != r.pos {
					r.zero[i] = c.fieldAt(o.st, o.vals[0], "Context", i)
				}
			}
			c.that(r.at(o.st, o.vals[0], Int(-1)), "start", m, "%s creates a context that is not at the start of its chain", m)
		}
	}
	r.next(next)
	r.aborting(ab)
	r.starts()
	c.atLeast("start", 5, "places where a chain starts")
	c.atLeast("step", 2, "calls of links")
	c.atLeast("abort", 3, "uses of Abort")
	c.atLeast("done", 2, "ways to be done")
}

// at: the context is at position p.
func (r *chainRule) at(st *State, ctx, p *Term) bool {
	if !st.f.eqInt(r.c.fieldAt(st, ctx, "Context", r.pos), p) {
		return false
	}
	for i := range r.abort {
		if i == r.pos {
			continue
		}
		if v := r.c.fieldAt(st, ctx, "Context", i); v != r.zero[i] {
			return false
		}
	}
	return true
}

// aborted: the mark of Abort is on the context.
func (r *chainRule) aborted(st *State, ctx *Term) bool {
	for i, a := range r.abort {
		v := r.c.fieldAt(st, ctx, "Context", i)
		if v == a {
			continue
		}
		if i == r.pos && st.f.holds(Le(a, v)) == 1 {
			continue
		}
		return false
	}
	return true
}

func (r *chainRule) done(st *State, ctx, n *Term) bool {
	return r.aborted(st, ctx) || st.f.holds(Le(n, r.c.fieldAt(st, ctx, "Context", r.pos))) == 1
}

func (r *chainRule) set(st *State, ctx *Term, i int, v *Term) {
	ft := r.c.named("Context").Underlying().(*types.Struct).Field(i).Type()
	st.store(FieldP(ctx, i, ft), ft, v)
}

func (r *chainRule) setAt(st *State, ctx, p *Term) {
	r.set(st, ctx, r.pos, p)
	for i := range r.abort {
		if i != r.pos {
			r.set(st, ctx, i, r.zero[i])
		}
	}
}

// setAborted: an aborted context, at any position or beyond the mark.
func (r *chainRule) setAborted(st *State, ctx *Term, name string) {
	for i, a := range r.abort {
		if i != r.pos {
			r.set(st, ctx, i, a)
			continue
		}
		p := Sym(name, types.Typ[types.Int])
		st.assume(Le(a, p), true)
		st.assume(Le(p, Int(1<<30)), true)
		r.set(st, ctx, i, p)
	}
	if r.abort[r.pos] == nil {
		p := Sym(name, types.Typ[types.Int])
		st.assume(Le(Int(-1), p), true)
		st.assume(Le(p, Int(1<<30)), true)
		r.set(st, ctx, r.pos, p)
	}
}

func (r *chainRule) setPast(st *State, ctx, n *Term, name string) {
	p := Sym(name, types.Typ[types.Int])
	st.assume(Le(n, p), true)
	st.assume(Le(p, Int(1<<30)), true)
	r.setAt(st, ctx, p)
}

// chain gives the context an arbitrary chain, of at most 2019 links.
func (r *chainRule) chain(st *State, ctx *Term) (n *Term) {
	h := r.c.fieldAt(st, ctx, "Context", r.hf)
	n = h.args[2]
	st.assume(Le(n, Int(2019)), true)
	return n
}

func (r *chainRule) next(f *ssa.Function) {
	c := r.c
	// at a position: any link of the chain
	it := c.interp()
	args := symArgs(f)
	ctx := args[0]
	st := newState()
	n := r.chain(st, ctx)
	p0 := Sym("position", types.Typ[types.Int])
	st.assume(Le(Int(-1), p0), true)
	st.assume(Le(p0, Add(n, Int(-1))), true)
	r.setAt(st, ctx, p0)
	ran := FieldP(SymNN("ghost", nil), 0, types.Typ[types.Int])
	st.store(ran, types.Typ[types.Int], p0)
	it.userEffect = func(st *State, fn *Term, a []*Term) []*State {
		l, i := listElem(fn)
		good := len(a) == 1 && a[0] == ctx && l != nil
		want := Add(st.load(ran, types.Typ[types.Int]), Int(1))
		if it.trial == 0 {
			switch {
			case !c.that(good, "step", "Context.Next link", "Next calls something else than a link of its chain with its context"):
			case st.tags["ended"] == Int(2):
				c.bad("abort", "Context.Next", "a link runs although an earlier one has aborted the chain")
			case st.tags["ended"] != nil:
				c.bad("step", "Context.Next", "a link runs again after an earlier one has run the rest of the chain")
			default:
				c.that(st.f.eqInt(i, want), "step", "Context.Next order", "Next does not go on with the link after the last one started")
				c.that(r.at(st, ctx, i), "step", "Context.Next position", "a link runs while the context is not at its position: when it calls Next, links are repeated or skipped")
			}
		}
		st.store(ran, types.Typ[types.Int], want)
		s2, s3 := st.clone(), st.clone()
		r.setAborted(s2, ctx, "abortedby")
		s2.tags["ended"] = Int(2)
		r.setPast(s3, ctx, n, "advancedby")
		s3.tags["ended"] = Int(3)
		return []*State{st, s2, s3}
	}
	for _, o := range c.entry(it, f, args, st) {
		if !c.that(o.kind == 'r', "step", "Context.Next panic", "Next panics on its own") {
			continue
		}
		if o.st.tags["ended"] == nil {
			last := o.st.load(ran, types.Typ[types.Int])
			c.that(o.st.f.eqInt(last, Add(n, Int(-1))), "step", "Context.Next end", "Next ends before every link has run although nobody aborted")
		}
		c.that(r.done(o.st, ctx, n), "step", "Context.Next leaves", "after Next has run the chain, advancing again starts links a second time")
	}
	// when done: nothing
	for _, how := range []string{"aborted", "past"} {
		it := c.interp()
		st := newState()
		n := r.chain(st, ctx)
		if how == "aborted" {
			r.setAborted(st, ctx, "p")
		} else {
			r.setPast(st, ctx, n, "p")
		}
		it.userEffect = func(st *State, fn *Term, a []*Term) []*State {
			if it.trial == 0 {
				c.bad("done", "Context.Next "+how, "Next runs a link of a chain that is %s", map[string]string{"aborted": "aborted", "past": "already at its end"}[how])
			}
			return []*State{st}
		}
		for _, o := range c.entry(it, f, args, st) {
			c.that(o.kind == 'r' && r.done(o.st, ctx, n) && (how == "past" || r.aborted(o.st, ctx)), "done", "Context.Next "+how, "Next revives a chain that is over")
		}
	}
}

// aborting: Abort has its effect whenever it is called.
func (r *chainRule) aborting(f *ssa.Function) {
	c := r.c
	args := symArgs(f)
	ctx := args[0]
	for _, how := range []string{"running", "aborted", "past"} {
		it := c.interp()
		st := newState()
		n := r.chain(st, ctx)
		switch how {
		case "running":
			p := Sym("position", types.Typ[types.Int])
			st.assume(Le(Int(-1), p), true)
			st.assume(Le(p, Add(n, Int(-1))), true)
			r.setAt(st, ctx, p)
		case "aborted":
			r.setAborted(st, ctx, "p")
		case "past":
			r.setPast(st, ctx, n, "p")
		}
		for _, o := range c.entry(it, f, args, st) {
			c.that(o.kind == 'r' && r.aborted(o.st, ctx), "abort", "Context.Abort "+how, "Abort has no effect on a chain that is %s", how)
		}
	}
}

// starts: a message enters its chain at the start.
func (r *chainRule) starts() {
	c := r.c
	sane := func(e *explorer) {
		e.it.userEffect = func(st *State, fn *Term, a []*Term) []*State {
			// what OnConnect does to the chain of the connection itself is out of scope
			if c.isField(fn, "TcpX", "OnConnect") {
				return []*State{st}
			}
			return nil
		}
	}
	check := func(e *explorer, name string, n *int) {
		e.hook = func(g *Gor, st *State, ev *Event) {
			if ev.kind != "next" || e.it.trial != 0 {
				return
			}
			*n++
			c.that(r.at(st, ev.args[0], Int(-1)), "start", name, "%s starts the chain of a message elsewhere than at its first link", name)
		}
	}
	e := c.explorer()
	chainCalls(e.it)
	sane(e)
	for _, root := range []string{"TcpX.ListenAndServeUDP", "TcpX.ListenAndServeTCP"} {
		for _, g := range c.dispatchers(e, root) {
			_, tx, group := spawnCtx(g.sp)
			if group != nil && tx != nil {
				if cs := g.sp.st.sliceContent(group); group.op == OSlice && len(cs) > 0 && cs[0].isApp("elem") && isPtrTo(cs[0].args[0], "Context") {
					o := SymNN("groupofone", types.NewArray(types.NewPointer(c.named("Context")), 1))
					g = withGroup(g, group, mkSlice(o, Int(0), Int(1), Int(1), False))
					g.sp.st.mem[o] = Seq(cs[0])
				}
			}
			n := 0
			check(e, g.name, &n)
			e.enter(g, g.sp.st)
			e.hook = nil
			c.that(n > 0, "start", g.name, "%s never starts a chain", g.name)
		}
	}
	e2 := c.explorer()
	chainCalls(e2.it)
	sane(e2)
	e2.childTags = noTags
	n := 0
	check(e2, "TcpX.ListenAndServeRaw", &n)
	e2.run("TcpX.ListenAndServeRaw", nil, nil)
	c.that(n > 0, "start", "TcpX.ListenAndServeRaw", "a raw server never starts a chain")
}
