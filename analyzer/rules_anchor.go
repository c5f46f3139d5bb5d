package main

// C20: anchored middleware.
//
// Registration numbers every use, un-use and handler with a fresh, growing index. A middleware
// keeps the indices of its uses and un-uses; it applies to the handlers whose index lies between a
// use and the following un-use. Decided for an arbitrary history: the indices are fresh and
// growing, each use/un-use extends the history by exactly its own index (or is refused without an
// effect), and the membership test is exactly the interval test on the history.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C20", ruleAnchors)
}

type anchorRule struct {
	c                   *Check
	key, mw, start, end int // fields of MiddlewareAnchor
	nf                  int
}

func ruleAnchors(c *Check) {
	n := c.named("MiddlewareAnchor")
	if n == nil {
		return
	}
	r := &anchorRule{c: c, key: c.fieldIdx("MiddlewareAnchor", "MiddlewareKey"), mw: c.fieldIdx("MiddlewareAnchor", "Middleware"),
		start: c.fieldIdx("MiddlewareAnchor", "AnchorStartIndexRange"), end: c.fieldIdx("MiddlewareAnchor", "AnchorEndIndexRange"), nf: n.Underlying().(*types.Struct).NumFields()}
	if r.key < 0 || r.mw < 0 || r.start < 0 || r.end < 0 {
		return
	}
	r.contains(false)
	r.contains(true)
	for _, how := range []string{"unknown", "idle", "in use"} {
		for _, place := range []string{"", "among others", "before others"} {
			r.change("TcpX.Use", how, 1, place)
			r.change("TcpX.UnUse", how, 1, place)
		}
	}
	r.change("TcpX.Use", "unknown", 2, "among others")
	r.change("TcpX.Use", "idle", 2, "among others")
	r.change("TcpX.UnUse", "in use", 2, "among others")
	r.handlers()
	c.atLeast("contains", 8, "answers of the membership test")
	c.atLeast("change", 20, "uses and un-uses")
	c.atLeast("index", 2, "handler registrations")
}

// seed is the counter the indices are taken from.
func (r *anchorRule) seed(st *State, mux *Term) *Term {
	c := r.c
	i := c.fieldOfType("Mux", "int32")
	if i < 0 {
		return nil
	}
	return c.fieldAt(st, mux, "Mux", i)
}

// fresh: x was taken from the counter by this operation.
func (r *anchorRule) fresh(st *State, x, before, after *Term) bool {
	return st.f.holds(Lt(before, x)) == 1 && st.f.holds(Le(x, after)) == 1
}

// change: the effect of n uses (or un-uses) of different middlewares that are all unknown, idle or
// in use.
func (r *anchorRule) change(m, how string, n int, place string) {
	conc := place != ""
	c := r.c
	f := c.fn(m)
	if f == nil {
		return
	}
	use := m == "TcpX.Use"
	site := m + " " + how
	if n > 1 {
		site += " several"
	}
	at := c.named("MiddlewareAnchor")
	ats := at.Underlying().(*types.Struct)
	it := c.interp()
	it.noJoin = true
	args := symArgs(f)
	st := newState()
	mux := c.field(st, args[0], "TcpX", "Mux")
	st.assume(Eq(mux, Nil), false)
	seed0 := r.seed(st, mux)
	if seed0 == nil {
		return
	}
	st.assume(Le(Int(0), seed0), true)
	st.assume(Le(seed0, Int(1<<30)), true)
	mp := c.field(st, mux, "Mux", "MiddlewareAnchorMap")
	mt := mp.typ.Underlying().(*types.Map)
	st.assume(Eq(mp, Nil), false)
	list := c.field(st, mux, "Mux", "MiddlewareAnchors")
	elemT := f.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
	var keys, fns, before []*Term
	var chunks []*Term
	for i := 0; i < n; i++ {
		key := Sym("key"+itoa(i), types.Typ[types.String])
		for _, k := range keys {
			st.assume(Eq(k, key), false)
		}
		fn := SymNN("middleware"+itoa(i), ats.Field(r.mw).Type())
		keys, fns = append(keys, key), append(fns, fn)
		if how == "unknown" {
			st.mapPut(mp, App("del", nil, key))
			before = append(before, nil)
		} else {
			var fs []*Term
			for j := 0; j < r.nf; j++ {
				ft := ats.Field(j).Type()
				fs = append(fs, typed(SymNN("old"+itoa(i)+"."+ats.Field(j).Name(), ft), ft))
			}
			fs[r.key] = key
			nS, nE := fs[r.start].args[2], fs[r.end].args[2]
			if how == "idle" {
				st.assume(EqI(nS, nE), true)
			} else {
				st.assume(EqI(nS, Add(nE, Int(1))), true)
			}
			a := intern(Term{op: OStruct, typ: at, args: fs})
			st.mapPut(mp, App("put", nil, key, a))
			before = append(before, a)
		}
		if use {
			chunks = append(chunks, App("elem", nil, mkIface(key, types.Typ[types.String])), App("elem", nil, mkIface(fn, ats.Field(r.mw).Type())))
		} else {
			chunks = append(chunks, App("elem", nil, key))
		}
	}
	o := SymNN("arglist", types.NewArray(elemT, int64(len(chunks))))
	st.mem[o] = Seq(chunks...)
	args[1] = mkSlice(o, Int(0), Int(int64(len(chunks))), Int(int64(len(chunks))), False)
	// the list of all middlewares: arbitrary, or others around those used
	var elems []*Term
	if conc {
		site += " " + place
		other := func(i int) *Term {
			var fs []*Term
			for j := 0; j < r.nf; j++ {
				ft := ats.Field(j).Type()
				fs = append(fs, typed(SymNN("other"+itoa(i)+"."+ats.Field(j).Name(), ft), ft))
			}
			for _, k := range keys {
				st.assume(Eq(fs[r.key], k), false)
			}
			return intern(Term{op: OStruct, typ: at, args: fs})
		}
		if place == "among others" {
			elems = append(elems, other(0))
		}
		for i, b := range before {
			if b != nil {
				elems = append(elems, b, other(i+1))
			}
		}
		lo := SymNN("middlewarelist", types.NewArray(at, int64(len(elems))))
		var cs []*Term
		for _, x := range elems {
			cs = append(cs, App("elem", nil, x))
		}
		st.mem[lo] = Seq(cs...)
		n := Int(int64(len(elems)))
		list = mkSlice(lo, Int(0), n, n, False)
		fp, ft := c.fieldP(mux, "Mux", "MiddlewareAnchors")
		st.store(fp, ft, list)
	}
	refused := use && how == "in use" || !use && how != "in use"
	// elements of the list of all middlewares that are replaced
	it.onStore = func(it *Interp, st *State, p, v *Term, in ssa.Instruction) {
		if p.op == OElemP && p.args[0] == list.args[0] {
			st.tags["replaced"] = True
			if it.trial != 0 {
				return
			}
			k := st.load(FieldP(p, r.key, types.Typ[types.String]), types.Typ[types.String])
			v = typed(v, at)
			nk := v
			if v.op == OStruct {
				nk = v.args[r.key]
			}
			c.that(st.f.holds(Eq(k, nk)) == 1, "change", site+" list", "%s replaces the entry of another middleware", m)
		}
	}
	it.onEvent = func(it *Interp, st *State, ev *Event) {
		if (ev.kind == "mapset" || ev.kind == "mapdel") && c.isField(ev.args[0], "Mux", "MiddlewareAnchorMap") {
			st.tags["changed"] = True
		}
	}
	good := 0
	for _, o := range c.entry(it, f, args, st) {
		if refused {
			c.that(o.kind == 'p', "change", site+" refused", "%s of a middleware that is %s is not refused", m, how)
			c.that(o.st.tags["changed"] == nil && o.st.tags["replaced"] == nil, "change", site+" no effect", "%s of a middleware that is %s is refused but has an effect", m, how)
			continue
		}
		if !c.that(o.kind == 'r', "change", site+" accepted", "%s of a middleware that is %s is refused", m, how) {
			continue
		}
		good++
		seed1 := r.seed(o.st, mux)
		var last *Term
		for i, key := range keys {
			v, ok := o.st.mapGet(c.field(o.st, mux, "Mux", "MiddlewareAnchorMap"), key, mt)
			if !c.that(o.st.f.holds(ok) != -1 && v.op == OStruct && len(v.args) == r.nf, "change", site+" entry", "after %s the middleware is not known", m) {
				continue
			}
			hist := func(j int, grown bool) bool {
				s := v.args[j]
				var was []*Term
				if before[i] != nil {
					was = seqNormF(o.st.f, o.st.sliceContent(before[i].args[j]))
				}
				var is []*Term
				if s.op == OSlice {
					is = seqNormF(o.st.f, o.st.sliceContent(s))
				} else if s != Nil {
					return false
				}
				if !grown {
					return seqStr(is) == seqStr(was)
				}
				if len(is) == 0 || !is[len(is)-1].isApp("elem") || seqStr(seqNormF(o.st.f, is[:len(is)-1])) != seqStr(was) {
					return false
				}
				x := is[len(is)-1].args[0]
				good := r.fresh(o.st, x, seed0, seed1) && (last == nil || o.st.f.holds(Lt(last, x)) == 1)
				last = x
				return good
			}
			c.that(v.args[r.key] == key || o.st.f.holds(Eq(v.args[r.key], key)) == 1, "change", site+" key", "%s confuses middlewares", m)
			fn := v.args[r.mw]
			c.that(fn == fns[i] && use || before[i] != nil && fn == before[i].args[r.mw], "change", site+" function", "%s changes the function of the middleware", m)
			c.that(hist(r.start, use), "change", site+" starts", "%s does not record the right starts: the middleware applies to the wrong handlers", m)
			c.that(hist(r.end, !use), "change", site+" ends", "%s does not record the right ends: the middleware applies to the wrong handlers", m)
			// the list, which the chains are made from
			l := c.field(o.st, mux, "Mux", "MiddlewareAnchors")
			cs := o.st.sliceContent(l)
			if how == "unknown" {
				cnt := 0
				for _, x := range cs {
					if x.isApp("elem") && x.args[0].op == OStruct && x.args[0].args[r.key] == key {
						cnt++
						c.that(x.args[0] == v, "change", site+" list entry", "after %s the middleware of the chains is not the one recorded", m)
					}
				}
				c.that(cnt == 1, "change", site+" list", "after %s the middleware is %d times in the list the chains are made from", m, cnt)
			}
		}
		if conc {
			// the list the chains are made from: the same middlewares in the same order
			var want []*Term
			for _, x := range elems {
				for i := range keys {
					if before[i] == x {
						v, _ := o.st.mapGet(c.field(o.st, mux, "Mux", "MiddlewareAnchorMap"), keys[i], mt)
						x = v
					}
				}
				want = append(want, App("elem", nil, x))
			}
			if how == "unknown" {
				for i := range keys {
					v, _ := o.st.mapGet(c.field(o.st, mux, "Mux", "MiddlewareAnchorMap"), keys[i], mt)
					want = append(want, App("elem", nil, v))
				}
			}
			is := o.st.sliceContent(c.field(o.st, mux, "Mux", "MiddlewareAnchors"))
			c.that(seqStr(seqNormF(o.st.f, is)) == seqStr(seqNormF(o.st.f, want)), "change", site+" list", "after %s the list the chains are made from is not the former one with the new state of the middleware", m)
		}
	}
	if !refused {
		c.that(good > 0, "change", site+" possible", "%s is never accepted", m)
	}
}

// handlers: a handler gets a fresh index when it is registered.
func (r *anchorRule) handlers() {
	c := r.c
	for m, get := range map[string]string{"TcpX.AddHandler": "Mux.AnchorIndexOfMessageID", "TcpX.Any": "Mux.AnchorIndexOfURLPattern"} {
		f, g := c.fn(m), c.fn(get)
		if f == nil || g == nil {
			continue
		}
		it := c.interp()
		args := symArgs(f)
		st := newState()
		mux := c.field(st, args[0], "TcpX", "Mux")
		st.assume(Eq(mux, Nil), false)
		seed0 := r.seed(st, mux)
		st.assume(Le(Int(0), seed0), true)
		st.assume(Le(seed0, Int(1<<30)), true)
		n := 0
		for _, o := range c.entry(it, f, args, st) {
			if o.kind != 'r' {
				continue
			}
			for _, x := range c.entry(it, g, []*Term{mux, args[1]}, o.st.clone()) {
				n++
				c.that(x.kind == 'r' && r.fresh(x.st, x.vals[0], seed0, r.seed(x.st, mux)), "index", m, "%s does not give the handler an index of its own: it gets the middlewares of another time", m)
			}
		}
		c.that(n > 0, "index", m+" analysed", "%s never registers a handler", m)
	}
}

// contains: the membership test of a history that is open (still in use) or closed.
func (r *anchorRule) contains(open bool) {
	c := r.c
	f := c.fn("MiddlewareAnchor.Contains")
	if f == nil {
		return
	}
	it := c.interp()
	it.noJoin = true
	args := symArgs(f)
	ma, idx := args[0], args[1]
	st := newState()
	S := c.fieldAt(st, ma, "MiddlewareAnchor", r.start)
	E := c.fieldAt(st, ma, "MiddlewareAnchor", r.end)
	nS, nE := S.args[2], E.args[2]
	name := "closed"
	if open {
		name = "open"
		st.assume(EqI(nS, Add(nE, Int(1))), true)
	} else {
		st.assume(EqI(nS, nE), true)
	}
	at := func(st *State, l, i *Term) *Term {
		return st.load(ElemP(l.args[0], i, types.Typ[types.Int]), types.Typ[types.Int])
	}
	// in: the handler can still be in the interval that starts at position t
	in := func(st *State, t *Term) bool {
		s2 := st.clone()
		if s2.assume(Le(Int(0), t), true) && s2.assume(Lt(t, nE), true) && s2.assume(Lt(at(s2, S, t), idx), true) && s2.assume(Lt(idx, at(s2, E, t)), true) {
			return true
		}
		s2 = st.clone()
		return open && s2.assume(EqI(t, nE), true) && s2.assume(Lt(at(s2, S, t), idx), true)
	}
	// positions of the history mentioned in a condition
	positions := func(q *Term) []*Term {
		var ts []*Term
		q.contains(func(x *Term) bool {
			if x.isApp("ld") && x.args[0].op == OElemP && (x.args[0].args[0] == S.args[0] || x.args[0].args[0] == E.args[0]) {
				ts = append(ts, x.args[0].args[1])
			}
			return false
		})
		return ts
	}
	// inside: the handler is in the interval that starts at position t
	inside := func(st *State, t *Term) bool {
		if st.f.holds(Le(Int(0), t)) != 1 || st.f.holds(Le(at(st, S, t), idx)) != 1 {
			return false
		}
		return st.f.holds(Lt(t, nE)) == 1 && st.f.holds(Le(idx, at(st, E, t))) == 1 || open && st.f.eqInt(t, nE)
	}
	it.iterTags = []string{"out"}
	visited := map[*Term][]*Term{} // by iteration variable
	it.onBranch = func(it *Interp, st *State, cond *Term, truth bool) {
		ts := positions(cond)
		for _, q := range st.f.ineq {
			ts = append(ts, positions(q)...)
		}
		for _, t := range ts {
			if inside(st, t) {
				st.tags["in"] = True
			}
		}
		for _, t := range positions(cond) {
			if !in(st, t) {
				st.tags["out"] = True
			}
			t.contains(func(x *Term) bool {
				if x.op == OSym && strings.HasPrefix(x.name, "iv~") {
					visited[x] = append(visited[x], t)
				}
				return false
			})
		}
	}
	site := "MiddlewareAnchor.Contains " + name
	skipped := map[*Loop]bool{}
	it.onBack = func(it *Interp, st *State, iv *Term, l *Loop) {
		if st.tags["out"] == nil {
			skipped[l] = true
		}
	}
	it.onLoopExit = func(it *Interp, st *State, iv *Term, l *Loop, fn *ssa.Function, atHead bool) {
		if !atHead {
			return
		}
		for _, t := range visited[iv] {
			t0 := subst(t, map[*Term]*Term{iv: Int(0)})
			for _, n := range []*Term{nE, nS} {
				up := st.f.eqInt(t0, Int(0)) && st.f.holds(Le(n, t)) == 1
				down := st.f.eqInt(t0, Add(n, Int(-1))) && st.f.holds(Le(t, Int(-1))) == 1
				if (up || down) && !skipped[l] {
					st.tags["all"] = True
					if n == nS {
						st.tags["allS"] = True
					}
				}
			}
		}
	}
	yes, no := 0, 0
	for _, o := range c.entry(it, f, args, st) {
		if !c.that(o.kind == 'r', "contains", site+" panic", "the membership test panics") {
			continue
		}
		for _, want := range []bool{true, false} {
			s2 := o.st.clone()
			if !s2.assume(o.vals[0], want) {
				continue
			}
			if want {
				yes++
				ok := s2.tags["in"] != nil
				c.that(ok, "contains", site+" yes", "a middleware applies to a handler that was not registered while it was in use (%s history)", name)
				continue
			}
			no++
			ok := s2.tags["all"] != nil
			if open {
				ok = ok && (s2.tags["allS"] != nil || s2.f.holds(Le(idx, at(s2, S, nE))) == 1 || s2.f.holds(Le(idx, at(s2, S, Add(nS, Int(-1))))) == 1)
			}
			c.that(ok, "contains", site+" no", "a middleware does not apply to a handler that was registered while it was in use (%s history)", name)
		}
	}
	c.that(yes > 0 && no > 0, "contains", site, "the membership test has only one answer (%s history)", name)
}
