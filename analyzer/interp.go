package main

// The abstract interpreter: a forward, flow-sensitive, interprocedural dataflow analysis over
// go/ssa.  Abstract states are joined when they differ only in their relational facts, calls to
// functions of the package are analysed in the caller's abstract state, and every loop is
// analysed to a fixpoint over a generalised (widened) loop-head state.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ctxNode struct {
	parent *ctxNode
	label  string
	id     int
}

func (c *ctxNode) under(a *ctxNode) bool {
	for ; c != nil; c = c.parent {
		if c == a {
			return true
		}
	}
	return false
}

type Event struct {
	kind   string
	instr  ssa.Instruction
	fn     *ssa.Function // function containing the instruction
	name   string        // callee
	args   []*Term
	res    *Term
	pos    string
	block  bool
	depth  int
	sig    *types.Signature
	callee *ssa.Function
	elems  []*Term
}

type dcall struct {
	fn     *Term
	meth   *types.Func
	recv   *Term
	args   []*Term
	instr  ssa.Instruction
	common *ssa.CallCommon
}

type fstate struct {
	regs   map[ssa.Value]*Term
	st     *State
	defers []dcall
}

func (f *fstate) clone() *fstate {
	n := &fstate{regs: make(map[ssa.Value]*Term, len(f.regs)+4), st: f.st.clone(), defers: f.defers[:len(f.defers):len(f.defers)]}
	for k, v := range f.regs {
		n.regs[k] = v
	}
	return n
}

type Outcome struct {
	kind byte // 'r' return, 'p' panic, 'x' process exit
	vals []*Term
	st   *State
}

type Spawn struct {
	fn     *Term
	meth   *types.Func
	recv   *Term
	args   []*Term
	st     *State
	instr  ssa.Instruction
	in     *ssa.Function
	common *ssa.CallCommon
	clean  bool
	key    string
}

type Report struct {
	key string
	pos string
	msg string
}

type frame struct {
	fn      *ssa.Function
	roots   []*Term
	isDefer bool
	call    ssa.Instruction
}

type Interp struct {
	prog *ssa.Program
	pkg  *ssa.Package

	onEvent    func(it *Interp, st *State, ev *Event)
	panicCalls bool                                             // callbacks of the user may panic
	userEffect func(st *State, fn *Term, args []*Term) []*State // what a callback of the user does (nil: anything)
	disjLoop   func(fn *ssa.Function) bool
	noInline   func(fn *ssa.Function) bool
	onCall     func(it *Interp, st *State, fn *ssa.Function, args []*Term, in ssa.Instruction) ([]Outcome, bool)
	mayAssume  func(st *State) // applied after lock acquisition etc.
	oblig      func(it *Interp, st *State, kind string, ok bool, in ssa.Instruction, detail string)

	ctx      *ctxNode
	nodes    map[string]*ctxNode
	symCtx   map[*Term]*ctxNode
	stack    []frame
	spawns   []Spawn
	reports  []Report
	undec    []string
	nstate   int
	ninstr   int
	funcs    map[*ssa.Function]bool
	nloops   int
	hdrUndec map[*ssa.BasicBlock]bool
	liveC    map[*ssa.Function]*liveInfo
	loopC    map[*ssa.Function]*loopNest
	budget   int

	onOuts      func(it *Interp, fn *ssa.Function, o Outcome) // an outcome of a call, before outcomes are joined
	onStore     func(it *Interp, st *State, p, v *Term, in ssa.Instruction)
	onWrap      func(it *Interp, st *State, f *ssa.Function, args []*Term) func(outs []Outcome) // around a call
	onBranch    func(it *Interp, st *State, cond *Term, truth bool)                             // a branch is taken
	onIter      func(it *Interp, st *State, iv *Term, l *Loop, fn *ssa.Function)                // an iteration begins
	iterTags    []string                                                                        // typestate that is forgotten when an iteration ends
	onBack      func(it *Interp, st *State, iv *Term, l *Loop)                                  // an iteration is complete and the loop goes on
	onLoopExit  func(it *Interp, st *State, iv *Term, l *Loop, fn *ssa.Function, atHead bool)
	onAccess    func(it *Interp, st *State, p *Term, in ssa.Instruction, mode byte)
	nilField    func(p *Term) bool
	nilFunc     func(st *State, fn *Term) bool
	assertKnown func(st *State, v *Term, T types.Type) *Term
	onErr       func(it *Interp, ok, bad *State, name string, in ssa.Instruction)
	sharedObj   func(*Term) bool
	noJoin      bool     // outcomes of calls are kept apart
	noHavoc     bool     // no other goroutine changes what locks guard
	goodReads   bool     // reads from a stream never fail (the peer sends everything)
	sharedCtx   *ctxNode // root context of the goroutine being analysed
	unknownExt  map[string]int
	trial       int
	nodeList    map[int]*ctxNode
	localMemo   map[*ctxNode]map[*Term]bool
	loopsSeen   map[*ssa.BasicBlock]bool
}

func NewInterp(prog *ssa.Program, pkg *ssa.Package) *Interp {
	it := &Interp{prog: prog, pkg: pkg, nodes: map[string]*ctxNode{}, symCtx: map[*Term]*ctxNode{}, funcs: map[*ssa.Function]bool{}, hdrUndec: map[*ssa.BasicBlock]bool{}, liveC: map[*ssa.Function]*liveInfo{}, loopC: map[*ssa.Function]*loopNest{}, budget: 4000000, unknownExt: map[string]int{}, nodeList: map[int]*ctxNode{}, localMemo: map[*ctxNode]map[*Term]bool{}, loopsSeen: map[*ssa.BasicBlock]bool{}}
	it.ctx = it.node(nil, "root")
	return it
}

func (it *Interp) node(p *ctxNode, label string) *ctxNode {
	pid := 0
	if p != nil {
		pid = p.id
	}
	k := fmt.Sprintf("%d/%s", pid, label)
	if n, ok := it.nodes[k]; ok {
		return n
	}
	n := &ctxNode{parent: p, label: label, id: len(it.nodes) + 1}
	it.nodes[k] = n
	it.nodeList[n.id] = n
	return n
}

func (it *Interp) undecided(format string, a ...interface{}) {
	m := fmt.Sprintf(format, a...)
	for _, u := range it.undec {
		if u == m {
			return
		}
	}
	it.undec = append(it.undec, m)
}

func (it *Interp) report(key string, in ssa.Instruction, format string, a ...interface{}) {
	r := Report{key: key, pos: it.pos(in), msg: fmt.Sprintf(format, a...)}
	for _, x := range it.reports {
		if x == r {
			return
		}
	}
	it.reports = append(it.reports, r)
}

func (it *Interp) pos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	p := in.Pos()
	if p == token.NoPos {
		if v, ok := in.(ssa.Value); ok {
			p = v.Pos()
		}
	}
	if p == token.NoPos && in.Parent() != nil {
		p = in.Parent().Pos()
	}
	ps := it.prog.Fset.Position(p)
	f := ps.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	fn := ""
	if in.Parent() != nil {
		fn = in.Parent().Name()
	}
	return fmt.Sprintf("%s:%d(%s)", f, ps.Line, fn)
}

// fresh makes the symbol denoting the result of instruction in in the current context.
func (it *Interp) fresh(in ssa.Instruction, what string, t types.Type) *Term {
	return typed(it.freshAtom(in, what, t, false), t)
}
func (it *Interp) freshNN(in ssa.Instruction, what string, t types.Type) *Term {
	return typed(it.freshAtom(in, what, t, true), t)
}
func (it *Interp) freshAtom(in ssa.Instruction, what string, t types.Type, nn bool) *Term {
	name := fmt.Sprintf("%s@%s~%d.%s", what, it.pos(in), it.ctx.id, instrID(in))
	var s *Term
	if nn {
		s = SymNN(name, t)
	} else {
		s = Sym(name, t)
	}
	if _, ok := it.symCtx[s]; !ok {
		it.symCtx[s] = it.ctx
	}
	return s
}

var instrIDs = map[ssa.Instruction]int{}

func instrID(in ssa.Instruction) string {
	if in == nil {
		return "0"
	}
	n, ok := instrIDs[in]
	if !ok {
		n = len(instrIDs) + 1
		instrIDs[in] = n
	}
	return itoa(n)
}

func (it *Interp) newObj(in ssa.Instruction, what string, t types.Type) *Term {
	name := fmt.Sprintf("%s@%s~%d.%s", what, it.pos(in), it.ctx.id, instrID(in))
	o := intern(Term{op: OObj, name: name, typ: t, flag: FFresh})
	if _, ok := it.symCtx[o]; !ok {
		it.symCtx[o] = it.ctx
	}
	return o
}

func (it *Interp) emit(st *State, ev *Event) {
	if ev.pos == "" {
		ev.pos = it.pos(ev.instr)
	}
	ev.depth = len(it.stack)
	if ev.instr != nil {
		ev.fn = ev.instr.Parent()
	}
	if it.onEvent != nil {
		it.onEvent(it, st, ev)
	}
}

// ---------------------------------------------------------------- loops and liveness

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
}
type loopNest struct {
	loops map[*ssa.BasicBlock]*Loop // by header
	inner map[*ssa.BasicBlock]*Loop // innermost loop of a block
	rpo   []*ssa.BasicBlock
	irred bool
}

func (it *Interp) loopsOf(fn *ssa.Function) *loopNest {
	if n, ok := it.loopC[fn]; ok {
		return n
	}
	n := &loopNest{loops: map[*ssa.BasicBlock]*Loop{}, inner: map[*ssa.BasicBlock]*Loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	onst := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		onst[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			} else if onst[s] && !s.Dominates(b) {
				n.irred = true
			}
		}
		onst[b] = false
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover] {
		dfs(fn.Recover)
	}
	for i := len(post) - 1; i >= 0; i-- {
		n.rpo = append(n.rpo, post[i])
	}
	for _, b := range n.rpo {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				l := n.loops[h]
				if l == nil {
					l = &Loop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					n.loops[h] = l
				}
				// natural loop
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[0]
					work = work[1:]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	var ls []*Loop
	for _, l := range n.loops {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return len(ls[i].blocks) > len(ls[j].blocks) })
	for _, l := range ls {
		for b := range l.blocks {
			if p := n.inner[b]; b == l.header {
				l.parent = p
			}
		}
		for b := range l.blocks {
			n.inner[b] = l
		}
	}
	it.loopC[fn] = n
	return n
}

type liveInfo struct {
	in map[*ssa.BasicBlock]map[ssa.Value]bool
}

func trackable(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
		return false
	}
	return v != nil
}

func (it *Interp) liveOf(fn *ssa.Function) *liveInfo {
	if l, ok := it.liveC[fn]; ok {
		return l
	}
	l := &liveInfo{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	for _, b := range fn.Blocks {
		l.in[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range l.in[s] {
					live[v] = true
				}
				// phi uses along this edge
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, in := range s.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						if trackable(ph.Edges[pi]) {
							live[ph.Edges[pi]] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && trackable(*op) {
						live[*op] = true
					}
				}
			}
			for v := range live {
				if !l.in[b][v] {
					l.in[b][v] = true
					ch = true
				}
			}
		}
	}
	// values of phis are live at their own block entry (they are assigned on the edge)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			l.in[b][ph] = true
		}
	}
	// the recover block may read named results after any panic
	if fn.Recover != nil {
		for _, b := range fn.Blocks {
			for v := range l.in[fn.Recover] {
				l.in[b][v] = true
			}
		}
	}
	it.liveC[fn] = l
	return l
}

func prune(fs *fstate, live map[ssa.Value]bool) {
	for v := range fs.regs {
		if !live[v] {
			delete(fs.regs, v)
		}
	}
}

func (fs *fstate) key() string {
	var b strings.Builder
	type kv struct {
		n string
		i int
	}
	var l []kv
	for v, t := range fs.regs {
		l = append(l, kv{v.Name(), t.id})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n < l[j].n })
	for _, x := range l {
		b.WriteString(x.n + "=" + itoa(x.i) + ",")
	}
	b.WriteByte('@')
	for _, d := range fs.defers {
		b.WriteString(instrID(d.instr) + ":")
		if d.fn != nil {
			b.WriteString(itoa(d.fn.id))
		}
		for _, a := range d.args {
			b.WriteString("," + itoa(a.id))
		}
		b.WriteByte(';')
	}
	b.WriteByte('@')
	b.WriteString(fs.st.key())
	return b.String()
}

// mergeFS joins states that differ only in facts.
func mergeFS(l []*fstate) []*fstate {
	if len(l) < 2 {
		return l
	}
	idx := map[string]int{}
	var out []*fstate
	for _, f := range l {
		k := f.key()
		if i, ok := idx[k]; ok {
			out[i].st.f = joinFacts(out[i].st.f, f.st.f)
			continue
		}
		idx[k] = len(out)
		out = append(out, f)
	}
	return out
}

func mergeOut(l []Outcome) []Outcome {
	if len(l) < 2 {
		return l
	}
	idx := map[string]int{}
	var out []Outcome
	for _, o := range l {
		k := string(o.kind)
		for _, v := range o.vals {
			k += itoa(v.id) + ","
		}
		k += "|" + o.st.key()
		if i, ok := idx[k]; ok {
			out[i].st.f = joinFacts(out[i].st.f, o.st.f)
			continue
		}
		idx[k] = len(out)
		out = append(out, o)
	}
	return out
}

// ---------------------------------------------------------------- function bodies

const maxDepth = 40

type region struct {
	loop  *Loop
	exits []edge    // leaving the loop
	back  []*fstate // arriving at the loop header again
}
type edge struct {
	to   *ssa.BasicBlock
	fs   *fstate
	from *ssa.BasicBlock
}

type execn struct {
	fn   *ssa.Function
	outs []Outcome
	nest *loopNest
	live *liveInfo
}

// Call analyses fn on args in state st.
func (it *Interp) Call(fn *ssa.Function, args, binds []*Term, st *State, isDefer bool, call ssa.Instruction, roots []*Term) []Outcome {
	if len(it.stack) >= maxDepth {
		it.undecided("call depth limit at %s", fn.Name())
		return nil
	}
	it.funcs[fn] = true
	rec := 0
	for _, f := range it.stack {
		if f.fn == fn {
			rec++
		}
	}
	if rec > 1 {
		// recursion: unknown results
		it.undecided("recursion through %s", fn.Name())
		res := fn.Signature.Results()
		var vals []*Term
		for i := 0; i < res.Len(); i++ {
			vals = append(vals, it.fresh(call, fmt.Sprintf("rec%d", i), res.At(i).Type()))
		}
		return []Outcome{{kind: 'r', vals: vals, st: st}}
	}
	saved := it.ctx
	it.ctx = it.node(it.ctx, "c"+instrID(call)+"/"+fn.Name())
	it.stack = append(it.stack, frame{fn: fn, roots: roots, isDefer: isDefer, call: call})
	defer func() {
		it.stack = it.stack[:len(it.stack)-1]
		it.ctx = saved
	}()
	fs := &fstate{regs: map[ssa.Value]*Term{}, st: st}
	for i, p := range fn.Params {
		if i < len(args) {
			fs.regs[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			fs.regs[p] = binds[i]
		}
	}
	n0 := it.ninstr
	ex := &execn{fn: fn, nest: it.loopsOf(fn), live: it.liveOf(fn)}
	if ex.nest.irred {
		it.undecided("irreducible control flow in %s", fn.Name())
		return nil
	}
	rg := &region{}
	it.flow(ex, rg, map[*ssa.BasicBlock][]*fstate{fn.Blocks[0]: {fs}})
	allRoots := it.allRoots()
	for i := range ex.outs {
		ex.outs[i].st.gc(append(append([]*Term{}, ex.outs[i].vals...), allRoots...))
		if call != nil {
			it.canon(&ex.outs[i], it.ctx)
		}
	}
	outs := ex.outs
	if it.onOuts != nil {
		for _, o := range outs {
			it.onOuts(it, fn, o)
		}
	}
	if !it.noJoin {
		outs = mergeOut(outs)
	}
	if call != nil && !it.noJoin && len(it.stack) > 1 {
		outs = it.joinOuts(fn, outs, call, it.ninstr-n0)
	}
	return outs
}

func (it *Interp) allRoots() []*Term {
	var r []*Term
	for _, f := range it.stack {
		r = append(r, f.roots...)
	}
	return r
}

func (fs *fstate) roots() []*Term {
	r := make([]*Term, 0, len(fs.regs))
	for _, v := range fs.regs {
		r = append(r, v)
	}
	for _, d := range fs.defers {
		if d.fn != nil {
			r = append(r, d.fn)
		}
		if d.recv != nil {
			r = append(r, d.recv)
		}
		r = append(r, d.args...)
	}
	return r
}

// flow propagates states through the blocks of a region in reverse post-order.
func (it *Interp) flow(ex *execn, rg *region, pend map[*ssa.BasicBlock][]*fstate) {
	var from *ssa.BasicBlock
	deliver := func(to *ssa.BasicBlock, fs *fstate) {
		if rg.loop != nil && to == rg.loop.header {
			rg.back = append(rg.back, fs)
			return
		}
		if rg.loop != nil && !rg.loop.blocks[to] {
			rg.exits = append(rg.exits, edge{to, fs, from})
			return
		}
		pend[to] = append(pend[to], fs)
	}
	for _, b := range ex.nest.rpo {
		if rg.loop != nil && !rg.loop.blocks[b] {
			continue
		}
		states := pend[b]
		if len(states) == 0 {
			continue
		}
		delete(pend, b)
		from = b
		for _, s := range states {
			prune(s, ex.live.in[b])
		}
		states = mergeFS(states)
		if len(states) > 16 && os.Getenv("BIG") != "" {
			fmt.Println("BIG", len(states), ex.fn.Name(), b.Index, b.Comment, it.trial)
			if os.Getenv("BIG") == "2" {
				dbgDiff(states)
			}
		}
		if len(states) > 600 {
			it.undecided("too many abstract states in %s", ex.fn.Name())
			states = states[:600]
		}
		if l := ex.nest.loops[b]; l != nil && l != rg.loop {
			for _, s := range states {
				for _, e := range it.execLoop(ex, l, s) {
					deliver(e.to, e.fs)
				}
			}
			continue
		}
		for _, s := range states {
			for _, e := range it.execBlock(ex, b, s) {
				deliver(e.to, e.fs)
			}
		}
	}
}

// takeEdge evaluates the phis of block to along the edge from.
func (it *Interp) takeEdge(from, to *ssa.BasicBlock, fs *fstate) {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var ph []*ssa.Phi
	var vals []*Term
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ph = append(ph, p)
		vals = append(vals, it.val(fs, p.Edges[pi]))
	}
	for i, p := range ph {
		fs.regs[p] = vals[i]
	}
}

func (it *Interp) val(fs *fstate, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Function:
		return intern(Term{op: OFunc, fn: x, typ: x.Type()})
	case *ssa.Global:
		return globalTerm(x)
	case *ssa.Builtin:
		return Str("builtin:" + x.Name())
	}
	if t, ok := fs.regs[v]; ok {
		return t
	}
	// not computed on this path (dead value)
	t := Sym("undef:"+v.Name(), v.Type())
	return typed(t, v.Type())
}

func globalTerm(g *ssa.Global) *Term {
	n := "global:" + g.String()
	return intern(Term{op: OObj, name: n, typ: g.Type().(*types.Pointer).Elem()})
}

func globalInit(p *Term) *Term {
	// error values of the standard library are not nil
	if p.typ != nil && types.TypeString(p.typ, nil) == "error" && !strings.Contains(p.name, rootPath) {
		return AppNN("errvar:"+p.name, p.typ)
	}
	return nil
}

// execBlock runs one block and returns the outgoing edges.
func (it *Interp) execBlock(ex *execn, b *ssa.BasicBlock, fs0 *fstate) []edge {
	states := []*fstate{fs0}
	var out []edge
	for ii, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		var next []*fstate
		for _, fs := range states {
			it.ninstr++
			it.budget--
			if it.budget < 0 {
				it.undecided("analysis budget exhausted in %s", ex.fn.Name())
				return out
			}
			switch x := in.(type) {
			case *ssa.If:
				c := it.val(fs, x.Cond)
				h := fs.st.f.holds(c)
				if h == 0 {
					if l := ex.nest.inner[b]; l != nil && b == l.header && l.blocks[b.Succs[0]] != l.blocks[b.Succs[1]] {
						it.hdrUndec[b] = true
					}
				}
				for i, truth := range []bool{true, false} {
					if (truth && h == -1) || (!truth && h == 1) {
						continue
					}
					n := fs.clone()
					if !n.st.assume(c, truth) {
						continue
					}
					if it.onBranch != nil && h == 0 {
						it.onBranch(it, n.st, c, truth)
					}
					it.takeEdge(b, b.Succs[i], n)
					out = append(out, edge{b.Succs[i], n, b})
				}
			case *ssa.Jump:
				it.takeEdge(b, b.Succs[0], fs)
				out = append(out, edge{b.Succs[0], fs, b})
			case *ssa.Return:
				var vals []*Term
				for _, r := range x.Results {
					vals = append(vals, it.val(fs, r))
				}
				it.nstate++
				ex.outs = append(ex.outs, Outcome{kind: 'r', vals: vals, st: fs.st})
			case *ssa.Panic:
				v := it.val(fs, x.X)
				it.emit(fs.st, &Event{kind: "panic", instr: in, args: []*Term{v}})
				if !v.nonNil() {
					v = AppNN("panicval", v.typ, v)
				}
				ex.outs = append(ex.outs, it.unwind(ex, fs, v)...)
			case *ssa.RunDefers:
				for _, o := range it.runDefers(ex, fs) {
					next = append(next, o)
				}
			default:
				next = append(next, it.step(ex, fs, in)...)
			}
		}
		states = next
		if len(states) > 1 {
			// merge what no longer differs
			live := it.liveAfter(ex, b, ii)
			for _, s := range states {
				prune(s, live)
			}
			states = mergeFS(states)
			if len(states) > 800 {
				it.undecided("too many abstract states in %s", ex.fn.Name())
				states = states[:800]
			}
		}
	}
	return out
}

var liveAfterC = map[ssa.Instruction]map[ssa.Value]bool{}

func (it *Interp) liveAfter(ex *execn, b *ssa.BasicBlock, ii int) map[ssa.Value]bool {
	if m, ok := liveAfterC[b.Instrs[ii]]; ok {
		return m
	}
	m := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range ex.live.in[s] {
			m[v] = true
		}
		for pi, p := range s.Preds {
			if p != b {
				continue
			}
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				m[ph.Edges[pi]] = true
			}
		}
	}
	for j := len(b.Instrs) - 1; j > ii; j-- {
		for _, op := range b.Instrs[j].Operands(nil) {
			if *op != nil {
				m[*op] = true
			}
		}
	}
	if ex.fn.Recover != nil {
		for v := range ex.live.in[ex.fn.Recover] {
			m[v] = true
		}
	}
	liveAfterC[b.Instrs[ii]] = m
	return m
}

// runDefers executes the deferred calls on normal completion.
func (it *Interp) runDefers(ex *execn, fs *fstate) []*fstate {
	states := []*fstate{fs}
	var done []*fstate
	for len(states) > 0 {
		var next []*fstate
		for _, s := range states {
			if len(s.defers) == 0 {
				done = append(done, s)
				continue
			}
			d := s.defers[len(s.defers)-1]
			s.defers = s.defers[:len(s.defers)-1]
			for _, o := range it.invokeDeferred(s, d) {
				n := s.clone()
				n.st = o.st
				switch o.kind {
				case 'r':
					next = append(next, n)
				case 'p':
					ex.outs = append(ex.outs, it.unwind(ex, n, o.vals[0])...)
				case 'x':
					ex.outs = append(ex.outs, o)
				}
			}
		}
		states = mergeFS(next)
	}
	return done
}

func (it *Interp) invokeDeferred(s *fstate, d dcall) []Outcome {
	return it.callTerm(s.st.clone(), d.fn, d.meth, d.recv, d.args, d.common, d.instr, true, s.roots())
}

// unwind runs the deferred calls after a panic with value v.
func (it *Interp) unwind(ex *execn, fs *fstate, v *Term) []Outcome {
	if v == nil {
		v = SymNN("panicvalue", nil)
	}
	n := fs.clone()
	base := len(n.st.panics)
	at := len(it.stack)
	n.st.panics = append(n.st.panics, panicRec{v, at})
	states := []*fstate{n}
	var outs []Outcome
	for len(states) > 0 {
		var next []*fstate
		for _, s := range states {
			if len(s.defers) == 0 {
				if len(s.st.panics) > base {
					pv := s.st.panics[len(s.st.panics)-1].v
					s.st.panics = s.st.panics[:base]
					outs = append(outs, Outcome{kind: 'p', vals: []*Term{pv}, st: s.st})
					continue
				}
				// recovered: return the named results
				if ex.fn.Recover != nil {
					sub := &execn{fn: ex.fn, nest: ex.nest, live: ex.live}
					it.flow(sub, &region{}, map[*ssa.BasicBlock][]*fstate{ex.fn.Recover: {s}})
					outs = append(outs, sub.outs...)
				} else {
					res := ex.fn.Signature.Results()
					var vals []*Term
					for i := 0; i < res.Len(); i++ {
						vals = append(vals, zeroOf(res.At(i).Type()))
					}
					outs = append(outs, Outcome{kind: 'r', vals: vals, st: s.st})
				}
				continue
			}
			d := s.defers[len(s.defers)-1]
			s.defers = s.defers[:len(s.defers)-1]
			for _, o := range it.invokeDeferred(s, d) {
				m := s.clone()
				m.st = o.st
				switch o.kind {
				case 'r':
					next = append(next, m)
				case 'p':
					m.st.panics = append(m.st.panics[:base:base], panicRec{o.vals[0], at})
					next = append(next, m)
				case 'x':
					outs = append(outs, o)
				}
			}
		}
		states = mergeFS(next)
	}
	return outs
}
