package main

// C09 lock discipline, C10 guarded-by: lock-sets over every exported operation and every goroutine.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C09", ruleLocks)
	register("C10", ruleGuarded)
}

// everything runs every exported operation of the package and every goroutine started on the way.
func (c *Check) everything(prep func(e *explorer)) []*explorer {
	var es []*explorer
	seen := map[string]bool{}
	started := map[string]bool{} // go statements whose goroutine was analysed from a serving call
	names := c.servers()
	for _, f := range c.exported() {
		names = append(names, methodName(f))
	}
	for _, n := range names {
		if seen[n] {
			continue
		}
		seen[n] = true
		e := c.explorer()
		chainCalls(e.it)
		e.skipGo = started
		e.it.panicCalls = true
		e.childTags = noTags
		prep(e)
		e.run(n, nil, nil)
		es = append(es, e)
		if len(es) <= len(c.servers()) {
			for _, g := range e.gos {
				if g.sp != nil {
					started[instrID(g.sp.instr)] = true
				}
			}
		}
	}
	return es
}

// methodName is the name by which Program.Func finds f.
func methodName(f *ssa.Function) string {
	if r := f.Signature.Recv(); r != nil {
		return namedOf(r.Type()) + "." + f.Name()
	}
	return f.Name()
}

// lockClass names the lock by the type and field that hold it.
func (c *Check) lockClass(it *Interp, st *State, mu *Term) string {
	o, n, f := it.lockOwner(st, mu)
	if o == nil {
		return short(mu.String())
	}
	return n.Obj().Name() + "." + f
}

// ---------------------------------------------------------------- C09

func ruleLocks(c *Check) {
	edges := map[string]map[string]string{}
	acquired := map[string]bool{}
	es := c.everything(func(e *explorer) {
		e.hook = func(g *Gor, st *State, ev *Event) {
			it := e.it
			switch ev.kind {
			case "lock":
				cl := c.lockClass(it, st, ev.args[0])
				acquired[cl] = true
				if it.trial == 0 {
					c.ok("balanced", cl+" taken in "+fnName(ev.fn))
				}
				for _, l := range st.locks {
					if l.lock == ev.args[0] {
						c.bad("reentry", fnName(ev.fn)+": "+cl, "%s (reached from %s) locks %s while already holding it (locked at %s)", fnName(ev.fn), g.name, cl, l.pos)
						continue
					}
					h := c.lockClass(it, st, l.lock)
					if edges[h] == nil {
						edges[h] = map[string]string{}
					}
					edges[h][cl] = fnName(ev.fn)
				}
			case "badunlock":
				c.bad("balanced", fnName(ev.fn)+": "+c.lockClass(it, st, ev.args[0]), "%s (reached from %s) unlocks %s, which it does not hold in that mode", fnName(ev.fn), g.name, c.lockClass(it, st, ev.args[0]))
			}
			if it.trial == 0 && len(st.locks) > 0 {
				if w := waits(c, ev); w != "" {
					c.bad("wait", fnName(ev.fn)+": "+w, "%s (reached from %s): %s while holding %s (locked at %s)", fnName(ev.fn), g.name, w, c.lockClass(it, st, st.locks[0].lock), st.locks[0].pos)
				}
			}
		}
	})
	n := 0
	for _, e := range es {
		for _, g := range e.gos {
			n++
			ok := true
			for _, o := range g.outs {
				for _, l := range o.st.locks {
					how := "returns"
					if o.kind == 'p' {
						how = "panics"
					}
					ok = false
					c.bad("released", g.name+": "+c.lockClass(e.it, o.st, l.lock), "%s %s while still holding %s (locked at %s)", g.name, how, c.lockClass(e.it, o.st, l.lock), l.pos)
				}
			}
			if ok {
				c.ok("released", g.name)
			}
		}
	}
	// a cycle in the order
	var names []string
	for h := range edges {
		names = append(names, h)
	}
	sort.Strings(names)
	for _, h := range names {
		seen := map[string]bool{}
		var walk func(x string) bool
		walk = func(x string) bool {
			for y := range edges[x] {
				if y == h {
					return true
				}
				if !seen[y] {
					seen[y] = true
					if walk(y) {
						return true
					}
				}
			}
			return false
		}
		c.that(!walk(h), "order", h, "the lock %s can be waited for in a cycle: %v", h, edges[h])
	}
	c.ok("order", itoa(len(acquired))+" classes of locks")
	c.atLeast("released", 100, "operations and goroutines")
	c.atLeast("balanced", 8, "places that take a lock")
}

// waits: the event waits for something outside, or runs user code.
func waits(c *Check, ev *Event) string {
	switch ev.kind {
	case "usercall":
		return "calls " + c.callback(ev)
	case "send", "recv", "select":
		if ev.block {
			return "waits on a channel"
		}
	case "method", "call":
		n := opName(ev)
		switch n {
		case "Read", "Write", "ReadFrom", "WriteTo", "Accept", "AcceptKCP", "Dial", "DialTimeout", "Wait", "Sleep", "ReadFull", "ReadAtLeast", "ReadAll", "Copy":
			if ev.sig != nil && (ev.kind == "method" || strings.Contains(ev.name, "net.") || strings.Contains(ev.name, "io.") || strings.Contains(ev.name, "time.") || strings.Contains(ev.name, "sync.") || strings.Contains(ev.name, "tls.")) {
				return "waits in " + n
			}
		}
	}
	return ""
}

// ---------------------------------------------------------------- C10

type guard struct {
	typ     string
	lock    int
	field   int
	name    string
	owner   *types.Named
	through bool // what the field leads to is guarded too
	writes  bool // only modifications need the lock
	sub     int  // the guarded field is this one of what the field points to
	subOf   *types.Named
}

func (c *Check) guards() []guard {
	var gs []guard
	lockOf := func(typ string) int { return c.fieldOfType(typ, "*sync.RWMutex") }
	add := func(typ string, field int, through, writes bool) {
		n := c.named(typ)
		if n == nil || field < 0 {
			return
		}
		l := lockOf(typ)
		if l < 0 {
			return
		}
		gs = append(gs, guard{typ: typ, lock: l, field: field, name: n.Underlying().(*types.Struct).Field(field).Name(), owner: n, through: through, writes: writes})
	}
	add("ClientPool", c.fieldIdx("ClientPool", "Clients"), false, false)
	add("TcpX", c.getterField("TcpX.State"), false, false)
	add("TcpX", c.fieldOfType("TcpX", "[]*github.com/fwhezfwhez/tcpx.PropertyCache"), true, false)
	add("TcpX", c.fieldOfType("TcpX", "chan int"), false, false)
	add("Context", c.fieldOfType("Context", "*int"), true, false)
	if n := c.named("URLMux"); n != nil {
		via := c.fieldOfType("Mux", "*github.com/fwhezfwhez/tcpx.URLMux")
		for _, f := range []int{c.fieldOfType("URLMux", "map[string][]func("), c.fieldIdx("URLMux", "URLAnchorMap")} {
			k := len(gs)
			add("Mux", via, false, true)
			if via < 0 || f < 0 || len(gs) == k {
				continue
			}
			gs[k].sub, gs[k].subOf = f, n
			gs[k].name = n.Underlying().(*types.Struct).Field(f).Name()
		}
	}
	for _, f := range []string{"Handlers", "MiddlewareAnchors", "MiddlewareAnchorMap", "MessageIDAnchorMap", "MessageIDSelfMiddleware", "GlobalMiddlewares"} {
		add("Mux", c.fieldIdx("Mux", f), false, true)
	}
	return gs
}

func (c *Check) fieldIdx(typ, name string) int {
	n := c.named(typ)
	if n == nil {
		return -1
	}
	i := fieldIndex(n, name)
	if i < 0 {
		c.bad("anchor", typ+"."+name, "field %s.%s does not exist any more", typ, name)
	}
	return i
}

// ofGuard: t is the address of the guarded field; returns the object it belongs to.
func (gd *guard) ofAddr(t *Term) *Term {
	if gd.subOf != nil {
		if t.op == OFieldP && int(t.c) == gd.sub && pointee(t.args[0]) == gd.subOf && t.args[0].isApp("ld") {
			q := t.args[0].args[0]
			if q.op == OFieldP && int(q.c) == gd.field && pointee(q.args[0]) == gd.owner {
				return q.args[0]
			}
		}
		return nil
	}
	if t.op == OFieldP && int(t.c) == gd.field && pointee(t.args[0]) == gd.owner {
		return t.args[0]
	}
	return nil
}

// value: t was loaded from the guarded field.
func (gd *guard) ofValue(t *Term) *Term {
	if t == nil {
		return nil
	}
	if t.op == OSlice {
		t = t.args[0]
	}
	if t.isApp("arr") {
		t = t.args[0]
	}
	if t.isApp("ld") {
		return gd.ofAddr(t.args[0])
	}
	return nil
}

// derived: the address leads through the guarded field's value.
func (gd *guard) derived(st *State, p *Term) *Term {
	for q := p; ; {
		if o := gd.ofValue(q); o != nil {
			return o
		}
		switch {
		case q.op == OFieldP || q.op == OElemP:
			q = q.args[0]
		case q.isApp("arr") || q.isApp("ld"):
			q = q.args[0]
		default:
			if q.op == OObj {
				for a, v := range st.mem {
					if v == q {
						if o := gd.ofAddr(a); o != nil {
							return o
						}
					}
				}
			}
			return nil
		}
	}
}

func ruleGuarded(c *Check) {
	gs := c.guards()
	if len(gs) < 6 {
		return
	}
	check := func(e *explorer, g *Gor, st *State, gd *guard, owner *Term, mode byte, in ssa.Instruction) {
		it := e.it
		if it.trial != 0 {
			return
		}
		root := addrRoot(owner)
		if isFresh(root) {
			cx := it.symCtx[root]
			if it.sharedCtx == nil || cx == nil || cx.under(it.sharedCtx) {
				return // not yet published: created by this goroutine
			}
		}
		if gd.writes && mode != 'w' {
			return
		}
		lt := gd.owner.Underlying().(*types.Struct).Field(gd.lock).Type()
		mu := st.load(FieldP(owner, gd.lock, lt), lt)
		held := byte(0)
		for _, l := range st.locks {
			if sameLoad(l.lock, mu) && held != 'w' {
				held = l.mode
			}
		}
		what := gd.typ + "." + gd.name
		fn := "?"
		if in != nil {
			fn = fnName(in.Parent())
		}
		s := what + " in " + fn
		acc := map[byte]string{'r': "reads", 'w': "writes"}[mode]
		switch {
		case held == 0:
			c.bad("guarded", s+" ("+acc+")", "%s (reached from %s) %s %s without holding its lock", fn, g.name, acc, what)
		case mode == 'w' && held != 'w':
			c.bad("guarded", s+" ("+acc+")", "%s (reached from %s) writes %s holding its lock only for reading", fn, g.name, what)
		default:
			c.ok("guarded", s+" ("+acc+")")
		}
	}
	es := c.everything(func(e *explorer) {
		e.it.onAccess = func(it *Interp, st *State, p *Term, in ssa.Instruction, mode byte) {
			g := e.cur
			if g == nil {
				return
			}
			for i := range gs {
				gd := &gs[i]
				if gd.typ != "Context" {
					if o := gd.ofAddr(p); o != nil {
						check(e, g, st, gd, o, mode, in)
						continue
					}
				}
				if gd.through {
					if o := gd.derived(st, p); o != nil {
						check(e, g, st, gd, o, mode, in)
					}
				}
			}
		}
		e.hook = func(g *Gor, st *State, ev *Event) {
			mode := byte('r')
			switch ev.kind {
			case "mapset", "mapdel":
				mode = 'w'
			case "mapget", "maprange", "mapnext":
			default:
				return
			}
			for i := range gs {
				if o := gs[i].ofValue(ev.args[0]); o != nil {
					check(e, g, st, &gs[i], o, mode, ev.instr)
				}
			}
		}
	})
	_ = es
	// what is handed out does not alias the guarded structure
	c.atLeast("guarded", 16, "accesses of guarded state")
}
