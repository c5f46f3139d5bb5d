package main

// Exploring an entry point together with every goroutine it starts.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Gor is one analysed goroutine (or the entry point itself).
type Gor struct {
	name     string
	root     string
	parent   *Gor
	sp       *Spawn
	outs     []Outcome
	reads    bool // takes data off a connection
	accepts  bool
	rtpanics []*Event
	events   []*Event
}

type explorer struct {
	c    *Check
	it   *Interp
	cur  *Gor
	gos  []*Gor
	disp []*Gor // message goroutines that were not entered
	hook func(g *Gor, st *State, ev *Event)
	// dispatch goroutines (started by a goroutine that reads the connection) are not entered
	noDispatch bool
	keep       []*Term         // objects that stay relevant while oracles are asked
	rootOnly   bool            // goroutines are not entered
	skipGo     map[string]bool // go statements whose goroutines are not entered
	childTags  func(st *State) // prepares the typestate of a new goroutine
}

func (c *Check) explorer() *explorer {
	e := &explorer{c: c, it: c.interp()}
	e.it.onEvent = func(it *Interp, st *State, ev *Event) {
		if e.cur != nil {
			switch ev.kind {
			case "rtpanic":
				if it.trial == 0 {
					e.cur.rtpanics = append(e.cur.rtpanics, ev)
				}
			case "method", "call":
				switch readKind(ev) {
				case "read":
					e.cur.reads = true
				case "accept":
					e.cur.accepts = true
				}
			}
		}
		if e.hook != nil {
			e.hook(e.cur, st, ev)
		}
	}
	return e
}

// chainCalls treats running the middleware chain (Context.Next, decided by C12) as one call of
// user code, announced by a "next" event.
func chainCalls(it *Interp) {
	it.onCall = func(it *Interp, st *State, f *ssa.Function, args []*Term, in ssa.Instruction) ([]Outcome, bool) {
		if !it.inPkg(f) {
			return nil, false
		}
		if fnName(f) == "(*MiddlewareAnchor).Contains" && len(args) == 2 {
			// a function of the ranges and the index (decided by C20)
			mt := types.Unalias(f.Params[0].Type().Underlying().(*types.Pointer).Elem()).(*types.Named)
			ld := func(n string) *Term {
				i := fieldIndex(mt, n)
				if i < 0 {
					return Nil
				}
				ft := mt.Underlying().(*types.Struct).Field(i).Type()
				return st.load(FieldP(args[0], i, ft), ft)
			}
			b := App("contains", types.Typ[types.Bool], ld("AnchorStartIndexRange"), ld("AnchorEndIndexRange"), args[1])
			return []Outcome{{kind: 'r', vals: []*Term{b}, st: st}}, true
		}
		if fnName(f) != "(*Context).Next" || len(args) != 1 {
			return nil, false
		}
		it.emit(st, &Event{kind: "next", instr: in, args: args})
		return it.userCall(st, SymNN("chain", nil), args, nil, in), true
	}
}

// readKind classifies calls that take data or connections from the network.
func readKind(ev *Event) string {
	if ev.sig == nil {
		return ""
	}
	n := ev.name
	if ev.kind == "call" {
		if n == "io.ReadFull" || n == "io.ReadAtLeast" {
			return "read"
		}
		if i := strings.LastIndex(n, "."); i >= 0 {
			n = n[i+1:]
		}
		if ev.callee == nil || ev.callee.Signature.Recv() == nil {
			return ""
		}
	}
	switch n {
	case "Read":
		return "read"
	case "ReadFrom":
		return "read"
	case "Accept":
		return "accept"
	}
	return ""
}

func (e *explorer) run(root string, args []*Term, st *State) *Gor {
	f := e.c.fn(root)
	if f == nil {
		return nil
	}
	if args == nil {
		args = symArgs(f)
	}
	if st == nil {
		st = newState()
	}
	it := e.it
	base := len(it.spawns)
	g := &Gor{name: root, root: root}
	e.gos = append(e.gos, g)
	e.cur = g
	saved := it.ctx
	it.ctx = it.node(it.node(nil, "root"), "entry/"+root)
	g.outs = e.c.entry(it, f, args, st)
	it.ctx = saved
	seen := map[string]bool{}
	type batch struct {
		p      *Gor
		lo, hi int
	}
	work := []batch{{g, base, len(it.spawns)}}
	n := 0
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		// join the states in which the same goroutine is started
		groups := map[string][]*Spawn{}
		var order []string
		for j := b.lo; j < b.hi && !e.rootOnly; j++ {
			s := it.spawns[j]
			s.st = s.st.clone()
			if e.childTags != nil {
				e.childTags(s.st)
			}
			s.st.locks, s.st.panics = nil, nil
			s.st.gc(append([]*Term{s.fn, s.recv}, s.args...))
			relevantFacts(s.st, append([]*Term{s.fn, s.recv}, s.args...))
			if e.skipGo[instrID(s.instr)] {
				continue
			}
			k := instrID(s.instr) + "|"
			if s.fn != nil {
				if s.fn.fn != nil {
					k += fnName(s.fn.fn)
				} else {
					k += itoa(s.fn.id)
				}
			}
			// objects are not merged with other objects
			for _, a := range append([]*Term{s.recv}, s.args...) {
				if a != nil && a.op == OObj {
					k += "," + itoa(a.id)
				}
			}
			if s.fn != nil && s.fn.op == OClosure {
				for _, a := range s.fn.args {
					if a.op == OObj {
						k += ";" + itoa(a.id)
					}
				}
			}
			k += "|" + tagKey(s.st)
			if groups[k] == nil {
				order = append(order, k)
			}
			groups[k] = append(groups[k], &s)
		}
		for _, k := range order {
			it.ctx = it.node(it.node(nil, "root"), "join")
			sp := joinSpawns(it, groups[k])
			it.ctx = saved
			if e.noDispatch && b.p.reads {
				e.disp = append(e.disp, &Gor{name: b.p.name + " -> go " + spawnName(sp), root: root, parent: b.p, sp: sp})
				continue
			}
			key := spawnKey(sp) + "|" + sp.st.f.key()
			if seen[key] {
				continue
			}
			seen[key] = true
			if n++; n > 400 {
				it.undecided("too many goroutines from %s", root)
				return g
			}
			ng := &Gor{name: b.p.name + " -> go " + spawnName(sp), root: root, parent: b.p, sp: sp}
			e.gos = append(e.gos, ng)
			e.cur = ng
			e.c.gos++
			n0 := len(it.spawns)
			it.ctx = it.node(it.node(nil, "root"), "go"+instrID(sp.instr))
			it.sharedCtx = it.ctx
			t0 := time.Now()
			ng.outs = it.callTerm(sp.st.clone(), sp.fn, sp.meth, sp.recv, sp.args, sp.common, sp.instr, false, nil)
			if os.Getenv("TIMES") != "" {
				fmt.Println("T", ng.name, time.Since(t0), len(it.spawns)-n0, "of", len(groups[k]))
			}
			it.ctx = saved
			work = append(work, batch{ng, n0, len(it.spawns)})
		}
	}
	e.cur = nil
	it.sharedCtx = nil
	return g
}

// noTags starts a goroutine with an empty typestate.
func noTags(st *State) { st.tags = map[string]*Term{} }

func spawnKey(sp *Spawn) string {
	k := instrID(sp.instr)
	if sp.fn != nil {
		k += "|" + itoa(sp.fn.id)
	}
	if sp.recv != nil {
		k += "|r" + itoa(sp.recv.id)
	}
	for _, a := range sp.args {
		k += "," + itoa(a.id)
	}
	return k + "|" + sp.st.key()
}

func spawnName(sp *Spawn) string {
	switch {
	case sp.meth != nil:
		return sp.meth.Name()
	case sp.fn != nil && sp.fn.fn != nil:
		return fnName(sp.fn.fn)
	}
	return "function value"
}

type serveInfo struct {
	gos []*Gor
}

// serve explores every exported serving entry point.
func (c *Check) serve() *serveInfo {
	e := c.explorer()
	e.noDispatch = true
	for _, r := range c.servers() {
		e.run(r, nil, nil)
	}
	return &serveInfo{gos: e.gos}
}

// servers lists the exported serving methods.
func (c *Check) servers() []string {
	return []string{"TcpX.ListenAndServeTCP", "TcpX.ListenAndServeRaw", "TcpX.ListenAndServeUDP"}
}

func namedOf(t types.Type) string {
	if t == nil {
		return ""
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func sortedTags(st *State) []string {
	ks := make([]string, 0, len(st.tags))
	for k := range st.tags {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// relevantFacts drops the facts about values the goroutine cannot see.
func relevantFacts(st *State, roots []*Term) {
	seen := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			mark(a)
		}
	}
	for _, r := range roots {
		mark(r)
	}
	for p, v := range st.mem {
		mark(p)
		mark(v)
	}
	for _, v := range st.tags {
		mark(v)
	}
	var visible func(t *Term) bool
	visible = func(t *Term) bool {
		if seen[t] || t.isConst() || t == Nil {
			return true
		}
		switch t.op {
		case OSym:
			return false
		case OObj:
			return strings.HasPrefix(t.name, "global:")
		}
		for _, a := range t.args {
			if !visible(a) {
				return false
			}
		}
		return true
	}
	n := newFacts()
	for _, q := range st.f.ineq {
		if visible(q) {
			n.ineq = append(n.ineq, q)
		}
	}
	for _, q := range st.f.neq {
		if visible(q) {
			n.neq = append(n.neq, q)
		}
	}
	for q, v := range st.f.bools {
		if visible(q) {
			n.bools[q] = v
		}
	}
	st.f = n
}
