package main

// Loops.  A loop whose header condition stays decided is followed iteration by iteration (constant
// trip counts).  Every other loop is analysed to a fixpoint: the state at the loop head is
// generalised location by location (constant -> affine in the iteration number -> unknown;
// appended sequences -> "entry contents followed by one contribution per iteration"), and the body
// is re-analysed until the generalised state covers every back edge.  Heads are partitioned by the
// finite typestate the rules keep (tags, held locks, deferred calls).

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

const (
	maxUnroll = 40
	maxParts  = 48
	maxPasses = 24
)

var loopIDs = map[string]int{}

// ---------------------------------------------------------------- locality

func tokenNode(tok int64) int { return int(tok >> 20) }

func (it *Interp) nodeByID(id int) *ctxNode { return it.nodeList[id] }

// local reports whether t mentions something bound inside node.
func (it *Interp) local(t *Term, node *ctxNode) bool {
	memo := it.localMemo[node]
	if memo == nil {
		memo = map[*Term]bool{}
		it.localMemo[node] = memo
	}
	var rec func(*Term) bool
	rec = func(t *Term) bool {
		if t == nil {
			return false
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := false
		if t.op == OSym || t.op == OObj {
			if n := it.symCtx[t]; n != nil && n.under(node) {
				r = true
			}
		}
		if !r && t.op == OApp && t.c > 0 && epochCarrier[t.name] {
			for _, tok := range epochTab[t.c] {
				if id := tokenNode(tok); id > 0 {
					if n := it.nodeByID(id); n != nil && n.under(node) {
						r = true
					}
				}
			}
		}
		if !r {
			for _, a := range t.args {
				if rec(a) {
					r = true
					break
				}
			}
		}
		if !r && t.loop != nil {
			for _, al := range t.loop.alts {
				for _, c := range al.chunks {
					if rec(c) {
						r = true
					}
				}
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// ---------------------------------------------------------------- generalised values

var debugLoops = os.Getenv("DEBUGLOOPS") != ""

type gval struct {
	v  *Term
	st *State
}

type gen struct {
	name  string
	typ   types.Type
	kind  byte // '=' same, 'i' affine, 'p' unknown, 'P' unknown but not nil, 'c' componentwise, 'a' appended slice, 'q' extended sequence, 'f' filled sequence, 'u' rewritten sequence
	head  *Term
	subs  []*gen
	d     int64
	base  []*Term // 'a','q','f': entry chunks before the loop contribution
	tail  []*Term // 'f': chunks after it
	fillN *Term   // 'f': length of what is being overwritten, at entry
	mark  *Term   // placeholder chunk
	alts  [][]*Term
	rep   *gen    // grouped: moves by the same amount as rep
	delta []*Term // this pass: back value minus head
	heads *Term
	e0    *Term
}

type part struct {
	key     string
	node    *ctxNode
	iv      *Term
	entries []*fstate
	entryK  map[string]bool
	regs    map[ssa.Value]*gen
	mem     map[*Term]*gen
	epoch   map[*Term]bool
	fepoch  map[string]bool
	cands   map[*Term]bool // boolean facts about the head, to be validated
	dead    map[*Term]bool
	passes  int
	phase   int
	backs   []*fstate
	exits   []edge
	outs    []Outcome
	sp      []Spawn
	stable  bool
	reps    []*gen
}

func (it *Interp) phi(p *part, name string, t types.Type, nn bool) *Term {
	nm := fmt.Sprintf("phi:%s~%d", name, p.node.id)
	var s *Term
	if nn {
		s = SymNN(nm, t)
	} else {
		s = Sym(nm, t)
	}
	it.symCtx[s] = p.node
	return typed(s, t)
}

func hasPrefixSeq(a, pre []*Term) bool {
	if len(a) < len(pre) {
		return false
	}
	for i := range pre {
		if a[i] != pre[i] {
			return false
		}
	}
	return true
}

// trimSpare drops the unknown spare capacity of an append result.
func trimSpare(cs []*Term) []*Term {
	for len(cs) > 0 && isUnk(cs[len(cs)-1]) && strings.HasPrefix(cs[len(cs)-1].name, "unk:spare") {
		cs = cs[:len(cs)-1]
	}
	return cs
}

// weaken makes g cover the entry values es and the back values bs; it reports whether g changed.
func (it *Interp) weaken(p *part, g *gen, es, bs []gval) bool {
	toPhi := func() bool {
		nn := true
		for _, x := range append(append([]gval{}, es...), bs...) {
			if !(x.v.nonNil() || x.st.f.isNil(x.v) == -1) || isIntType2(g.typ) {
				nn = false
			}
		}
		if _, isSl := slT(g.typ); isSl {
			nn = true
			for _, x := range append(append([]gval{}, es...), bs...) {
				if x.v.op != OSlice || !(x.v.args[4] == False || x.st.f.holds(x.v.args[4]) == -1) {
					nn = false
				}
			}
		}
		if nn && g.kind != 'p' {
			if g.kind == 'P' {
				return false
			}
			g.kind = 'P'
		} else {
			if g.kind == 'p' {
				return false
			}
			g.kind = 'p'
		}
		g.head = it.phi(p, g.name, g.typ, g.kind == 'P')
		g.subs = nil
		g.rep = nil
		return true
	}
	e := es[0].v
	isInt := isIntLike(e) && (g.typ == nil || isIntType(g.typ))
	if isInt {
		h := g.head
		if h == nil {
			h = e
		}
		g.delta = nil
		for _, b := range bs {
			g.delta = append(g.delta, Sub(b.v, h))
		}
	}
	toPhi0 := toPhi
	toPhi = func() bool {
		if !isInt || g.kind == 'g' || g.kind == 'p' {
			return toPhi0()
		}
		okE := !it.local(e, p.node)
		for _, x := range es {
			if x.v != e {
				okE = false
			}
		}
		if okE {
			for _, r := range p.reps {
				if r == g || len(r.delta) != len(g.delta) {
					continue
				}
				for _, sg := range []int64{1, -1} {
					m := true
					for i := range g.delta {
						if g.delta[i] != MulC(r.delta[i], sg) {
							m = false
						}
					}
					if m {
						g.kind, g.rep, g.d, g.e0 = 'g', r, sg, e
						g.head = Add(e, MulC(Sub(r.head, r.e0), sg))
						return true
					}
				}
			}
		}
		ch := toPhi0()
		if ch && okE {
			g.e0 = e
			p.reps = append(p.reps, g)
		}
		return ch
	}
	for _, x := range es[1:] {
		if x.v != e && g.kind == '=' {
			// differing entries
			if sub := it.shape(p, g, es, bs); sub {
				return true
			}
			return toPhi()
		}
	}
	switch g.kind {
	case '=':
		if it.local(e, p.node) {
			return toPhi()
		}
		if g.head == nil {
			g.head = e
		}
		same := true
		for _, b := range bs {
			if b.v != e {
				same = false
			}
		}
		if same {
			return false
		}
		if isIntLike(e) && (g.typ == nil || isIntType(g.typ)) {
			d, ok := int64(0), true
			for i, b := range bs {
				c, isc := Sub(b.v, e).isInt()
				if !isc || (i > 0 && c != d) {
					ok = false
					break
				}
				d = c
			}
			if ok && d != 0 {
				g.kind, g.d = 'i', d
				g.e0 = e
				g.head = Add(e, MulC(p.iv, d))
				return true
			}
			g.e0 = e
			return toPhi()
		}
		if it.shape(p, g, es, bs) {
			return true
		}
		return toPhi()
	case 'i':
		for _, x := range es {
			if x.v != g.e0 {
				return toPhi()
			}
		}
		for _, b := range bs {
			if b.v != AddC(g.head, g.d) {
				return toPhi()
			}
		}
		return false
	case 'g':
		ok := g.rep.kind == 'p' && len(g.rep.delta) == len(g.delta)
		for _, x := range es {
			if x.v != g.e0 {
				ok = false
			}
		}
		for i := range g.delta {
			if ok && g.delta[i] != MulC(g.rep.delta[i], g.d) {
				ok = false
			}
		}
		if !ok {
			return toPhi()
		}
		return false
	case 'P':
		return toPhi()
	case 'p':
		return false
	case 'c':
		return it.weakenComps(p, g, es, bs, toPhi)
	case 'a':
		for _, x := range es {
			if x.v.op != OSlice || !sameSeq(trimSpare(x.st.sliceContent(x.v)), g.base) {
				return toPhi()
			}
		}
		ch := false
		g.alts = nil
		var lens, nils []gval
		hc := append(append([]*Term{}, g.base...), g.mark)
		for _, b := range bs {
			if b.v.op != OSlice {
				return toPhi()
			}
			c := b.st.sliceContent(b.v)
			if b.v == g.head {
				g.alts = append(g.alts, nil)
			} else {
				if !hasPrefixSeq(c, hc) {
					return toPhi()
				}
				g.alts = append(g.alts, c[len(hc):])
			}
			lens = append(lens, gval{b.v.args[2], b.st})
			nils = append(nils, gval{b.v.args[4], b.st})
		}
		var el, en []gval
		for _, x := range es {
			el = append(el, gval{x.v.args[2], x.st})
			en = append(en, gval{x.v.args[4], x.st})
		}
		if it.weaken(p, g.subs[0], el, lens) {
			ch = true
		}
		if it.weaken(p, g.subs[1], en, nils) {
			ch = true
		}
		if ch {
			it.rebuildA(p, g)
		}
		return ch
	case 'q', 'f':
		hc := append(append([]*Term{}, g.base...), g.mark)
		g.alts = nil
		for _, b := range bs {
			if b.v.op != OSeq {
				if debugLoops {
					fmt.Println("q-back", b.v, g.typ)
				}
				return it.toUnkSeq(p, g, toPhi)
			}
			if b.v == g.head {
				g.alts = append(g.alts, nil)
				continue
			}
			if !hasPrefixSeq(b.v.args, hc) {
				if debugLoops {
					fmt.Println("q-back", b.v, seqStr(b.v.args))
				}
				return it.toUnkSeq(p, g, toPhi)
			}
			rest := b.v.args[len(hc):]
			if g.kind == 'f' {
				if len(g.tail) == 0 {
					return it.toUnkSeq(p, g, toPhi)
				}
				k := len(g.tail)
				if len(rest) < k || !sameSeq(rest[len(rest)-k+1:], g.tail[1:]) {
					return it.toUnkSeq(p, g, toPhi)
				}
				contrib := rest[:len(rest)-k]
				nl := seqLen(contrib)
				if chunkLen(rest[len(rest)-k]) != Sub(chunkLen(g.tail[0]), nl) {
					return it.toUnkSeq(p, g, toPhi)
				}
				if c, ok := nl.isInt(); !ok || c != g.d {
					return it.toUnkSeq(p, g, toPhi)
				}
				rest = contrib
			}
			g.alts = append(g.alts, rest)
		}
		return false
	case 'r':
		if debugLoops {
			for _, b := range bs {
				fmt.Println("r-back", g.head, b.v)
			}
		}
		// base ++ region(S, off, X) ++ rest
		var xs, x0 []gval
		k := len(g.base)
		for _, b := range bs {
			x, ok := it.regionLen(g, b.v)
			if !ok {
				return it.toUnkSeq(p, g, toPhi)
			}
			xs = append(xs, gval{x, b.st})
		}
		_ = k
		for _, x := range es {
			x0 = append(x0, gval{Int(0), x.st})
		}
		if it.weaken(p, g.subs[0], x0, xs) {
			it.rebuildR(g)
			return true
		}
		return false
	case 'u':
		return false
	}
	return false
}

// unmerge splits the first chunk of a that continues the region which base ends with at that place.
func unmerge(a, base []*Term) []*Term {
	k := 0
	for k < len(a) && k < len(base) && a[k] == base[k] {
		k++
	}
	if k >= len(a) || k >= len(base) {
		return a
	}
	x, y := a[k], base[k]
	if !x.isApp("region") || !y.isApp("region") || x.args[0] != y.args[0] || x.args[1] != y.args[1] {
		return a
	}
	n := append([]*Term{}, a[:k]...)
	n = append(n, y, chRegion(y.args[0], Add(y.args[1], y.args[2]), Sub(x.args[2], y.args[2])))
	return append(n, a[k+1:]...)
}

// regionLen: how much of the region has been filled in v.
func (it *Interp) regionLen(g *gen, v *Term) (*Term, bool) {
	if v.op != OSeq {
		return nil, false
	}
	va := unmerge(v.args, g.base)
	if !hasPrefixSeq(va, g.base) {
		return nil, false
	}
	src, off, rest := g.tail[0], g.tail[1], g.tail[2]
	tail := g.tail[3:]
	a := va[len(g.base):]
	if len(a) < len(tail) || !sameSeq(a[len(a)-len(tail):], tail) {
		return nil, false
	}
	a = a[:len(a)-len(tail)]
	n := Int(0)
	if len(a) > 0 && a[0].isApp("region") && a[0].args[0] == src && a[0].args[1] == off {
		n = a[0].args[2]
		a = a[1:]
	}
	full := chunkLen(rest)
	switch len(a) {
	case 0:
		return n, n == full
	case 1:
		if sameKind(a[0], rest) && chunkLen(a[0]) == Sub(full, n) {
			if rest.isApp("region") && a[0].args[1] != Add(rest.args[1], n) {
				return nil, false
			}
			return n, true
		}
	}
	return nil, false
}

func (it *Interp) rebuildR(g *gen) {
	src, off, rest := g.tail[0], g.tail[1], g.tail[2]
	x := g.subs[0].head
	full := chunkLen(rest)
	var rc *Term
	switch {
	case rest.isApp("zero"):
		rc = chZero(Sub(full, x))
	case rest.isApp("region"):
		rc = chRegion(rest.args[0], Add(rest.args[1], x), Sub(full, x))
	default:
		rc = chUnk(rest.name[4:]+"r", Sub(full, x))
	}
	a := append([]*Term{}, g.base...)
	a = append(a, chRegion(src, off, x), rc)
	g.head = Seq(append(a, g.tail[3:]...)...)
}

func isIntType2(t types.Type) bool { return t != nil && isIntType(t) }
func isIntLike(t *Term) bool {
	return t.op == OLin || (t.op == OConst && t.name == "i") || (t.typ != nil && isIntType(t.typ))
}
func slT(t types.Type) (*types.Slice, bool) {
	if t == nil {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Slice)
	return s, ok
}

func sameSeq(a, b []*Term) bool { return len(a) == len(b) && hasPrefixSeq(a, b) }

func (it *Interp) toUnkSeq(p *part, g *gen, toPhi func() bool) bool {
	if debugLoops {
		fmt.Println("unkseq", g.name, string(g.kind), g.head, seqStr(g.base))
	}
	if g.typ != nil {
		if _, ok := g.typ.Underlying().(*types.Map); ok {
			g.kind = 'u'
			s := Sym(fmt.Sprintf("phimap:%s~%d", g.name, p.node.id), nil)
			it.symCtx[s] = p.node
			g.head = Seq(App("unkmap", nil, s))
			return true
		}
	}
	n := g.fillN
	if n == nil {
		n = seqLen(g.base)
	}
	s := Sym(fmt.Sprintf("phiseq:%s~%d", g.name, p.node.id), nil)
	it.symCtx[s] = p.node
	g.kind = 'u'
	g.head = Seq(App("unk:"+s.name, nil, n, s))
	return true
}

// rebuildA recomputes the head of an appended slice.
func (it *Interp) rebuildA(p *part, g *gen) {
	arr := intern(Term{op: OObj, name: fmt.Sprintf("phiarr:%s~%d", g.name, p.node.id), typ: types.NewArray(g.typ.Underlying().(*types.Slice).Elem(), 0), flag: FFresh})
	it.symCtx[arr] = p.node
	n := g.subs[0].head
	cp := it.phi(p, g.name+".cap", tInt, false)
	m := Sym(fmt.Sprintf("mark:%s~%d", g.name, p.node.id), nil)
	it.symCtx[m] = p.node
	g.mark = App("loopmark", nil, p.iv, Sub(n, seqLen(g.base)), m)
	g.mark.loop = &LoopInfo{iv: p.iv, pos: p.node.label}
	g.head = mkSlice(arr, Int(0), n, cp, g.subs[1].head)
}

// shape tries a structured generalisation.
func (it *Interp) shape(p *part, g *gen, es, bs []gval) bool {
	all := append(append([]gval{}, es...), bs...)
	e := es[0].v
	op := e.op
	for _, x := range all {
		if x.v.op != op {
			return false
		}
	}
	comps := func(n int, nm func(i int) string, ty func(i int) types.Type) bool {
		g.kind = 'c'
		g.subs = nil
		for i := 0; i < n; i++ {
			g.subs = append(g.subs, &gen{name: g.name + nm(i), typ: ty(i), kind: '='})
		}
		it.weakenComps(p, g, es, bs, func() bool { return false })
		return true
	}
	switch op {
	case OStruct, OTuple:
		for _, x := range all {
			if len(x.v.args) != len(e.args) {
				return false
			}
		}
		return comps(len(e.args), func(i int) string { return fmt.Sprintf(".%d", i) }, func(i int) types.Type {
			if op == OStruct {
				if s := structOf(e.typ); s != nil {
					return s.Field(i).Type()
				}
			}
			return e.args[i].typ
		})
	case OIface:
		for _, x := range all {
			if !types.Identical(x.v.typ, e.typ) {
				return false
			}
		}
		return comps(1, func(int) string { return ".i" }, func(int) types.Type { return e.typ })
	case OSlice:
		same := true
		for _, x := range all {
			if x.v.args[0] != e.args[0] {
				same = false
			}
		}
		if same && !it.local(e.args[0], p.node) {
			return comps(5, func(i int) string { return fmt.Sprintf(".s%d", i) }, func(i int) types.Type {
				switch i {
				case 0:
					return nil
				case 4:
					return tBool
				}
				return tInt
			})
		}
		if _, ok := slT(g.typ); !ok {
			return false
		}
		base := trimSpare(es[0].st.sliceContent(e))
		for _, x := range es {
			if !sameSeq(trimSpare(x.st.sliceContent(x.v)), base) {
				return false
			}
		}
		for _, c := range base {
			if it.local(c, p.node) {
				return false
			}
		}
		for _, b := range bs {
			if !hasPrefixSeq(b.st.sliceContent(b.v), base) {
				return false
			}
		}
		g.kind = 'a'
		g.base = base
		g.subs = []*gen{{name: g.name + ".len", typ: tInt, kind: '='}, {name: g.name + ".nil", typ: tBool, kind: '='}}
		var el, en, bl, bn []gval
		for _, x := range es {
			el = append(el, gval{x.v.args[2], x.st})
			en = append(en, gval{x.v.args[4], x.st})
		}
		for _, x := range bs {
			bl = append(bl, gval{x.v.args[2], x.st})
			bn = append(bn, gval{x.v.args[4], x.st})
		}
		it.weaken(p, g.subs[0], el, bl)
		it.weaken(p, g.subs[1], en, bn)
		it.rebuildA(p, g)
		return true
	case OSeq:
		for _, x := range es[1:] {
			if x.v != e {
				return false
			}
		}
		if it.local(e, p.node) {
			return false
		}
		mk := func(n *Term) {
			m := Sym(fmt.Sprintf("mark:%s~%d", g.name, p.node.id), nil)
			it.symCtx[m] = p.node
			g.mark = App("loopmark", nil, p.iv, n, m)
			g.mark.loop = &LoopInfo{iv: p.iv, pos: p.node.label}
		}
		ext := true
		for _, b := range bs {
			if !hasPrefixSeq(b.v.args, e.args) {
				ext = false
			}
		}
		isMap := false
		if g.typ != nil {
			_, isMap = g.typ.Underlying().(*types.Map)
		}
		if ext && (isMap || g.typ == nil) {
			g.kind = 'q'
			g.base = e.args
			n := it.phi(p, g.name+".qlen", tInt, false)
			mk(n)
			g.head = Seq(append(append([]*Term{}, g.base...), g.mark)...)
			return true
		}
		if isMap || g.typ == nil {
			it.toUnkSeq(p, g, nil)
			return true
		}
		// filled from the front: [.. X(n) ..] became [.. contribution X(n-d) ..]
		if len(bs) > 0 {
			ba := unmerge(bs[0].v.args, e.args)
			k := 0
			for k < len(e.args) && k < len(ba) && e.args[k] == ba[k] {
				k++
			}
			j := 0
			for j < len(e.args)-k-1 && j < len(ba)-k && e.args[len(e.args)-1-j] == ba[len(ba)-1-j] {
				j++
			}
			if k < len(e.args) && len(e.args)-k-j == 1 && (e.args[k].isApp("zero") || e.args[k].isApp("region") || isUnk(e.args[k])) {
				mid := ba[k : len(ba)-j]
				if len(mid) > 0 {
					contrib := mid
					full := chunkLen(e.args[k])
					var d *Term
					last := mid[len(mid)-1]
					if sameKind(last, e.args[k]) {
						contrib = mid[:len(mid)-1]
						d = Sub(full, chunkLen(last))
					} else {
						d = full
					}
					if c, ok := d.isInt(); ok && c > 0 && seqLen(contrib) == d {
						g.kind, g.d = 'f', c
						g.base = e.args[:k]
						g.fillN = seqLen(e.args)
						done := MulC(p.iv, c)
						mk(done)
						var restc *Term
						x := e.args[k]
						switch {
						case x.isApp("zero"):
							restc = chZero(Sub(full, done))
						case x.isApp("region"):
							restc = chRegion(x.args[0], Add(x.args[1], done), Sub(full, done))
						default:
							restc = chUnk(x.name[4:]+"r", Sub(full, done))
						}
						g.tail = append([]*Term{restc}, e.args[k+1:]...)
						g.head = Seq(append(append(append([]*Term{}, g.base...), g.mark), g.tail...)...)
						return true
					}
					// a region being copied in, piece by piece
					if len(contrib) == 1 && contrib[0].isApp("region") && !it.local(contrib[0].args[0], p.node) && !it.local(contrib[0].args[1], p.node) {
						g.fillN = seqLen(e.args)
						g.base = e.args[:k]
						g.tail = append([]*Term{contrib[0].args[0], contrib[0].args[1], e.args[k]}, e.args[k+1:]...)
						okr := true
						var x0, xs []gval
						for _, b := range bs {
							x, ok := it.regionLen(g, b.v)
							if !ok {
								okr = false
								break
							}
							xs = append(xs, gval{x, b.st})
						}
						if okr {
							for _, x := range es {
								x0 = append(x0, gval{Int(0), x.st})
							}
							g.kind = 'r'
							g.subs = []*gen{{name: g.name + ".fill", typ: tInt, kind: '='}}
							it.weaken(p, g.subs[0], x0, xs)
							it.rebuildR(g)
							return true
						}
						g.tail = nil
					}
				}
			}
		}
		g.base = e.args
		it.toUnkSeq(p, g, nil)
		return true
	}
	return false
}

func sameKind(a, b *Term) bool {
	return (a.isApp("zero") && b.isApp("zero")) || (a.isApp("region") && b.isApp("region") && a.args[0] == b.args[0]) || (isUnk(a) && isUnk(b))
}

func (it *Interp) weakenComps(p *part, g *gen, es, bs []gval, toPhi func() bool) bool {
	n := len(g.subs)
	for _, x := range append(append([]gval{}, es...), bs...) {
		if x.v.op != es[0].v.op || len(x.v.args) != n || (x.v.op == OIface && !types.Identical(x.v.typ, es[0].v.typ)) {
			return toPhi()
		}
	}
	ch := g.head == nil
	args := make([]*Term, n)
	for i, s := range g.subs {
		var e2, b2 []gval
		for _, x := range es {
			e2 = append(e2, gval{x.v.args[i], x.st})
		}
		for _, x := range bs {
			b2 = append(b2, gval{x.v.args[i], x.st})
		}
		if it.weaken(p, s, e2, b2) {
			ch = true
			if es[0].v.op == OSlice && i == 0 {
				return toPhi()
			}
		}
		args[i] = s.head
	}
	if ch {
		c := *es[0].v
		c.args = args
		c.loop = nil
		g.head = intern(c)
	}
	return ch
}

// memVal reads the value of a memory location (of any kind) in st.
func (it *Interp) memVal(st *State, k *Term) *Term {
	if v, ok := st.mem[k]; ok {
		return v
	}
	switch k.op {
	case OApp:
		switch k.name {
		case "consumed":
			return st.consumed(k.args[0])
		case "buf":
			return Seq(it.bufContent(st, k.args[0])...)
		case "mapc", "smap":
			return Seq()
		}
		return App("unset", nil, k)
	}
	if k.typ == nil {
		return App("unset", nil, k)
	}
	if k.op == OObj {
		if _, ok := k.typ.Underlying().(*types.Map); ok {
			return Seq()
		}
		if at, ok := k.typ.Underlying().(*types.Array); ok && isFresh(k) {
			_ = at
			return App("unset", nil, k)
		}
	}
	return st.load(k, k.typ)
}

func memType(k *Term) types.Type {
	switch k.op {
	case OApp:
		switch k.name {
		case "consumed", "chancap":
			return tInt
		case "closed", "oncedone":
			return tBool
		}
		return nil
	}
	return k.typ
}

func partKey(fs *fstate, disj bool, hdr *ssa.BasicBlock) string {
	var ks []string
	for k, v := range fs.st.tags {
		ks = append(ks, k+"="+itoa(v.id))
	}
	sort.Strings(ks)
	b := strings.Join(ks, ",") + "|"
	for _, l := range fs.st.locks {
		b += itoa(l.lock.id) + string(l.mode)
	}
	b += "|" + itoa(len(fs.st.panics)) + "|"
	for _, d := range fs.defers {
		b += instrID(d.instr) + ";"
	}
	if disj {
		var xs []string
		for v, t := range fs.regs {
			if c, ok := t.isInt(); ok && c >= -8 && c <= 8 && isIntType(v.Type()) {
				xs = append(xs, v.Name()+":"+itoa(int(c)))
			}
		}
		for k, t := range fs.st.mem {
			if c, ok := t.isInt(); ok && c >= -8 && c <= 8 && k.op == OObj && k.typ != nil && isIntType(k.typ) {
				xs = append(xs, k.name+":"+itoa(int(c)))
			}
		}
		sort.Strings(xs)
		b += "|" + strings.Join(xs, ",")
	}
	return b
}

// ---------------------------------------------------------------- the loop

func (it *Interp) execLoop(ex *execn, l *Loop, fs *fstate) []edge {
	hdr := l.header
	saved := it.ctx
	defer func() { it.ctx = saved }()
	it.nloops++
	if it.trial == 0 {
		it.loopsSeen[hdr] = true
	}
	// 1. constant trip count
	if _, ok := hdr.Instrs[len(hdr.Instrs)-1].(*ssa.If); ok && l.blocks[hdr.Succs[0]] != l.blocks[hdr.Succs[1]] && plainHeader(hdr) {
		if es, ok := it.unroll(ex, l, fs, saved); ok {
			return es
		}
	}
	disj := it.disjLoop != nil && it.disjLoop(ex.fn)
	live := ex.live.in[hdr]
	parts := map[string]*part{}
	var order []*part
	roots := it.allRoots()
	arrive := func(s *fstate, from *part) *part {
		prune(s, live)
		s.st.gc(append(s.roots(), roots...))
		for _, t := range it.iterTags {
			delete(s.st.tags, t)
		}
		k := partKey(s, disj, hdr)
		p := parts[k]
		if p == nil {
			if len(order) >= maxParts {
				it.undecided("too many loop-head partitions in %s", ex.fn.Name())
				return nil
			}
			p = &part{key: k, node: it.node(saved, fmt.Sprintf("L%d.%s#%d", hdr.Index, ex.fn.Name(), len(order))), entryK: map[string]bool{}, regs: map[ssa.Value]*gen{}, mem: map[*Term]*gen{}, epoch: map[*Term]bool{}, fepoch: map[string]bool{}, cands: map[*Term]bool{}, dead: map[*Term]bool{}}
			p.iv = Sym(fmt.Sprintf("iv~%d", p.node.id), tInt)
			it.symCtx[p.iv] = p.node
			parts[k] = p
			order = append(order, p)
		}
		if from != p {
			ek := s.key() + "!" + s.st.f.key()
			if !p.entryK[ek] {
				p.entryK[ek] = true
				if len(p.entries) > 12 {
					it.undecided("too many loop entries in %s", ex.fn.Name())
				} else {
					p.entries = append(p.entries, s)
					p.stable = false
				}
			}
		}
		return p
	}
	arrive(fs, nil)
	nOuts, nSp, nRep, nUnd := len(ex.outs), len(it.spawns), len(it.reports), len(it.undec)
	it.trial++
	for rounds := 0; ; rounds++ {
		var p *part
		for _, q := range order {
			if !q.stable {
				p = q
				break
			}
		}
		if p == nil {
			break
		}
		p.passes++
		if p.passes > maxPasses || rounds > 300 {
			it.trial--
			it.undecided("loop at %s does not stabilise", it.pos(hdr.Instrs[0]))
			return nil
		}
		it.ctx = p.node
		head := it.buildHead(ex, p, live)
		if it.onIter != nil {
			it.onIter(it, head.st, p.iv, l, ex.fn)
		}
		rg := &region{loop: l}
		it.flow(ex, rg, map[*ssa.BasicBlock][]*fstate{hdr: {head}})
		ex.outs = ex.outs[:nOuts]
		it.spawns = it.spawns[:nSp]
		it.reports = it.reports[:nRep]
		it.undec = it.undec[:nUnd]
		it.ctx = saved
		var backs []*fstate
		for _, b := range rg.back {
			if arrive(b, p) == p {
				backs = append(backs, b)
			}
		}
		t1 := time.Now()
		p.stable = !it.widen(p, backs, live)
		if os.Getenv("LOOPS") != "" && (it.trial == 1 || time.Since(t1) > 100*time.Millisecond) {
			fmt.Println("LOOP", ex.fn.Name(), hdr.Index, "pass", p.passes, "backs", len(backs), "widen", time.Since(t1), "trial", it.trial, "stable", p.stable)
		}
		if it.budget < 0 {
			it.trial--
			it.undecided("analysis budget exhausted in %s", ex.fn.Name())
			return nil
		}
	}
	it.trial--
	// final pass
	var exits []edge
	for _, p := range order {
		it.ctx = p.node
		head := it.buildHead(ex, p, live)
		if it.onIter != nil {
			it.onIter(it, head.st, p.iv, l, ex.fn)
		}
		rg := &region{loop: l}
		o0, s0 := len(ex.outs), len(it.spawns)
		it.flow(ex, rg, map[*ssa.BasicBlock][]*fstate{hdr: {head}})
		it.ctx = saved
		if it.onBack != nil && it.trial == 0 {
			for _, b := range rg.back {
				it.onBack(it, b.st, p.iv, l)
			}
		}
		sub := it.finalMarks(ex, p, l, rg.back, head)
		for i := o0; i < len(ex.outs); i++ {
			substOutcome(&ex.outs[i], sub)
		}
		for i := s0; i < len(it.spawns); i++ {
			sp := &it.spawns[i]
			sp.st = sp.st.clone()
			substState(sp.st, sub)
			for j := range sp.args {
				sp.args[j] = subst(sp.args[j], sub)
			}
			if sp.fn != nil {
				sp.fn = subst(sp.fn, sub)
			}
		}
		for _, e := range rg.exits {
			substFS(e.fs, sub)
			if it.onLoopExit != nil {
				it.onLoopExit(it, e.fs.st, p.iv, l, ex.fn, e.from == hdr)
			}
			it.pinIV(p, e.fs)
			exits = append(exits, e)
		}
	}
	return exits
}

// plainHeader: the loop test is computed from values, not from what a call returned.
func plainHeader(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Call:
			if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				return false
			}
		case *ssa.Select, *ssa.Next, *ssa.Send, *ssa.Go, *ssa.Defer:
			return false
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return false
			}
		}
	}
	return true
}

func (it *Interp) unroll(ex *execn, l *Loop, fs *fstate, saved *ctxNode) ([]edge, bool) {
	hdr := l.header
	nOuts, nSp, nRep, nUnd := len(ex.outs), len(it.spawns), len(it.reports), len(it.undec)
	was := it.hdrUndec[hdr]
	delete(it.hdrUndec, hdr)
	abandon := func() ([]edge, bool) {
		ex.outs = ex.outs[:nOuts]
		it.spawns = it.spawns[:nSp]
		it.reports = it.reports[:nRep]
		it.undec = it.undec[:nUnd]
		it.hdrUndec[hdr] = was
		return nil, false
	}
	// is the first test decided? (cheap check on a trial basis)
	it.trial++
	var exits []edge
	b0, first := it.budget, true
	run := func() bool {
		cur := []*fstate{fs.clone()}
		for i := 0; len(cur) > 0; i++ {
			if i > maxUnroll || len(cur) > 40 || it.budget < 0 || first && i > 1 && b0-it.budget > 60000 {
				return false
			}
			it.ctx = it.node(saved, fmt.Sprintf("U%d.%s#%d", hdr.Index, ex.fn.Name(), i))
			rg := &region{loop: l}
			it.flow(ex, rg, map[*ssa.BasicBlock][]*fstate{hdr: cur})
			if it.hdrUndec[hdr] {
				return false
			}
			exits = append(exits, rg.exits...)
			cur = rg.back
			for _, s := range cur {
				prune(s, ex.live.in[hdr])
			}
			cur = mergeFS(cur)
		}
		return true
	}
	ok := run()
	first = false
	it.trial--
	it.ctx = saved
	if !ok {
		return abandon()
	}
	if it.trial > 0 {
		return exits, true
	}
	// do it again for the record
	ex.outs = ex.outs[:nOuts]
	it.spawns = it.spawns[:nSp]
	it.reports = it.reports[:nRep]
	it.undec = it.undec[:nUnd]
	exits = nil
	run()
	it.ctx = saved
	return exits, true
}

// buildHead makes the generalised state at the loop head of partition p.
func (it *Interp) buildHead(ex *execn, p *part, live map[ssa.Value]bool) *fstate {
	e0 := p.entries[0]
	// make sure every location has a gen
	h := e0.clone()
	h.st.f = it.entryFacts(p)
	for v := range h.regs {
		if g := p.regs[v]; g != nil {
			h.regs[v] = g.head
		}
	}
	for v, g := range p.regs {
		if live[v] {
			h.regs[v] = g.head
		}
	}
	for k, g := range p.mem {
		h.st.mem[k] = g.head
		it.installArr(h.st, g)
	}
	for _, g := range p.regs {
		it.installArr(h.st, g)
	}
	for k := range h.st.mem {
		if it.local(k, p.node) && p.mem[k] == nil && !isPhiArr(k) {
			delete(h.st.mem, k)
		}
	}
	tok := p.node.id << 20
	for k := range p.epoch {
		h.st.epoch[k] = tok
	}
	for k := range p.fepoch {
		h.st.fepoch[k] = tok
	}
	f := h.st.f.clone()
	f.addIneq(MulC(p.iv, -1))
	for c := range p.cands {
		if !p.dead[c] {
			f.add(c)
		}
	}
	h.st.f = f
	return h
}

func isPhiArr(k *Term) bool { return k.op == OObj && strings.HasPrefix(k.name, "phiarr:") }

func (it *Interp) installArr(st *State, g *gen) {
	if g.kind == 'a' {
		arr, n, cp := g.head.args[0], g.head.args[2], g.head.args[3]
		st.mem[arr] = Seq(append(append(append([]*Term{}, g.base...), g.mark), chUnk("sparephi"+itoa(arr.id), Sub(cp, n)))...)
		f := st.f.clone()
		f.addIneq(Sub(n, cp))
		f.addIneq(MulC(Sub(n, seqLen(g.base)), -1))
		st.f = f
	}
	for _, s := range g.subs {
		it.installArr(st, s)
	}
}

// entryFacts joins the facts of all entries, without those about stale values.
func (it *Interp) entryFacts(p *part) *Facts {
	var f *Facts
	for _, e := range p.entries {
		g := it.dropLocal(e.st.f, p.node)
		if f == nil {
			f = g
		} else {
			f = joinFacts(f, g)
		}
	}
	return f.clone()
}

func (it *Interp) dropLocal(f *Facts, node *ctxNode) *Facts {
	n := newFacts()
	for _, q := range f.ineq {
		if !it.local(q, node) {
			n.ineq = append(n.ineq, q)
		}
	}
	for _, q := range f.neq {
		if !it.local(q, node) {
			n.neq = append(n.neq, q)
		}
	}
	for k, v := range f.bools {
		if !it.local(k, node) {
			n.bools[k] = v
		}
	}
	return n
}

// widen compares the back states with the head and generalises; it reports whether p changed.
func (it *Interp) widen(p *part, backs []*fstate, live map[ssa.Value]bool) bool {
	ch := false
	// assumed facts first: where one turns out not to be inductive, nothing else is concluded from this pass
	if len(p.cands) > 0 {
		var ls []gleaf
		for v, g := range p.regs {
			var es, bs []gval
			for _, s := range p.entries {
				es = append(es, gval{it.val(s, v), s.st})
			}
			for _, s := range backs {
				bs = append(bs, gval{it.val(s, v), s.st})
			}
			leaves(g, es, bs, &ls)
		}
		for k, g := range p.mem {
			var es, bs []gval
			for _, s := range p.entries {
				es = append(es, gval{it.memVal(s.st, k), s.st})
			}
			for _, s := range backs {
				bs = append(bs, gval{it.memVal(s.st, k), s.st})
			}
			leaves(g, es, bs, &ls)
		}
		for c := range p.cands {
			if p.dead[c] {
				continue
			}
			if !it.candHolds(p, c, ls, false, backs) || !it.candHolds(p, c, ls, true, p.entries) {
				p.dead[c] = true
				ch = true
			}
		}
		if ch {
			return true
		}
	}
	// registers
	var rs []ssa.Value
	seenR := map[ssa.Value]bool{}
	for _, s := range append(append([]*fstate{}, p.entries...), backs...) {
		for v := range s.regs {
			if live[v] && !seenR[v] {
				seenR[v] = true
				rs = append(rs, v)
			}
		}
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].Name() < rs[j].Name() })
	undef := func(fs *fstate, v ssa.Value) *Term { return it.val(fs, v) }
	var gs []*gen
	gE := map[*gen][]gval{}
	gB := map[*gen][]gval{}
	for _, v := range rs {
		g := p.regs[v]
		if g == nil {
			g = &gen{name: v.Name(), typ: v.Type(), kind: '='}
			p.regs[v] = g
			g.head = undef(p.entries[0], v)
			if it.local(g.head, p.node) {
				ch = true
			}
		}
		var es, bs []gval
		for _, s := range p.entries {
			es = append(es, gval{undef(s, v), s.st})
		}
		for _, s := range backs {
			bs = append(bs, gval{undef(s, v), s.st})
		}
		if it.weaken(p, g, es, bs) {
			ch = true
		}
		gs = append(gs, g)
		gE[g], gB[g] = es, bs
	}
	// epochs first: values that unknown code may have changed
	for _, s := range append(append([]*fstate{}, p.entries...), backs...) {
		e0 := p.entries[0].st
		for k, e := range s.st.epoch {
			if !p.epoch[k] && e != e0.epoch[k] && !it.local(k, p.node) {
				p.epoch[k] = true
				ch = true
			}
		}
		for k := range e0.epoch {
			if !p.epoch[k] && s.st.epoch[k] != e0.epoch[k] && !it.local(k, p.node) {
				p.epoch[k] = true
				ch = true
			}
		}
		for k, e := range s.st.fepoch {
			if !p.fepoch[k] && e != e0.fepoch[k] {
				p.fepoch[k] = true
				ch = true
			}
		}
	}
	// memory
	keys := map[*Term]bool{}
	for _, s := range append(append([]*fstate{}, p.entries...), backs...) {
		for k := range s.st.mem {
			if isPhiArr(k) && it.symCtx[k] == p.node {
				continue
			}
			if !it.local(k, p.node) {
				keys[k] = true
			}
		}
	}
	var ks []*Term
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, k := range ks {
		g := p.mem[k]
		var es, bs []gval
		for _, s := range p.entries {
			es = append(es, gval{it.memVal(s.st, k), s.st})
		}
		for _, s := range backs {
			bs = append(bs, gval{it.memVal(s.st, k), s.st})
		}
		if g == nil {
			// unchanged so far?
			same := true
			for _, x := range append(es[1:], bs...) {
				if x.v != es[0].v {
					same = false
				}
			}
			if same && !it.local(es[0].v, p.node) {
				continue
			}
			g = &gen{name: "m" + itoa(k.id), typ: memType(k), kind: '='}
			p.mem[k] = g
			ch = true
			it.weaken(p, g, es, bs)
		} else if it.weaken(p, g, es, bs) {
			ch = true
		}
		gs = append(gs, g)
		gE[g], gB[g] = es, bs
	}
	if ch {
		p.phase = 0
		return true
	}
	// structure is stable: facts.
	return it.houdini(p, backs, gs, gE, gB)
}

type gleaf struct {
	g      *gen
	es, bs []gval
}

func leaves(g *gen, es, bs []gval, out *[]gleaf) {
	pick := func(xs []gval, i int) []gval {
		var r []gval
		for _, x := range xs {
			if i >= len(x.v.args) {
				return nil
			}
			r = append(r, gval{x.v.args[i], x.st})
		}
		return r
	}
	switch g.kind {
	case 'p', 'P', 'i', 'g':
		*out = append(*out, gleaf{g, es, bs})
	case 'c':
		for i, s := range g.subs {
			leaves(s, pick(es, i), pick(bs, i), out)
		}
	case 'a':
		leaves(g.subs[0], pick(es, 2), pick(bs, 2), out)
		leaves(g.subs[1], pick(es, 4), pick(bs, 4), out)
	}
}

// houdini proposes facts about the generalised head and drops those that are not inductive.
func (it *Interp) houdini(p *part, backs []*fstate, gs []*gen, gE, gB map[*gen][]gval) bool {
	var ls []gleaf
	for _, g := range gs {
		leaves(g, gE[g], gB[g], &ls)
	}
	if p.phase < 2 {
		p.phase++
		before := len(p.cands)
		add := func(c *Term) {
			if c == True || c == False || p.dead[c] {
				return
			}
			p.cands[c] = true
		}
		var ints []gleaf
		for _, l := range ls {
			if l.g.kind == 'i' || l.g.kind == 'g' || (l.g.typ != nil && isIntType(l.g.typ) && l.g.kind == 'p') {
				ints = append(ints, l)
			}
			if l.g.kind == 'p' && l.g.typ != nil {
				switch l.g.typ.Underlying().(type) {
				case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature:
					add(Not(Eq(l.g.head, Nil)))
					add(Eq(l.g.head, Nil))
				}
				if isBoolType2(l.g.typ) {
					add(l.g.head)
					add(Not(l.g.head))
				}
			}
		}
		heads := map[*Term]bool{p.iv: true}
		for _, l := range ints {
			if l.g.head.op == OSym {
				heads[l.g.head] = true
			}
		}
		// stable integer atoms seen in the facts
		atoms := map[*Term]bool{}
		for _, b := range backs {
			for _, q := range b.st.f.ineq {
				for _, a := range toLin(q).at {
					if !it.local(a, p.node) {
						atoms[a] = true
					}
				}
			}
		}
		for _, l := range ints {
			h := l.g.head
			if l.g.kind == 'p' {
				if len(l.es) > 0 {
					e := l.es[0].v
					if !it.local(e, p.node) {
						add(Le(h, e))
						add(Le(e, h))
					}
				}
			}
			if len(atoms) <= 40 {
				for a := range atoms {
					add(Le(h, a))
					add(Le(a, h))
				}
			}
			add(Le(Int(0), h))
		}
		if len(ints) <= 12 {
			for i := range ints {
				for j := range ints {
					if i == j || (ints[i].g.kind == 'i' && ints[j].g.kind == 'i') {
						continue
					}
					x, y := ints[i], ints[j]
					add(Le(x.g.head, y.g.head))
					if len(x.es) > 0 && len(y.es) > 0 {
						d := Sub(x.es[0].v, y.es[0].v)
						if !it.local(d, p.node) {
							add(Le(Sub(x.g.head, y.g.head), d))
						}
					}
				}
			}
		}
		// back-edge facts, one iteration later
		for _, b := range backs {
			for _, q := range b.st.f.ineq {
				if q.contains(func(t *Term) bool { return t == p.iv }) {
					m := map[*Term]*Term{p.iv: AddC(p.iv, -1)}
					n := subst(q, m)
					okc := true
					for _, a := range toLin(n).at {
						if a != p.iv && it.local(a, p.node) {
							okc = false
						}
					}
					if okc {
						add(Le0(n))
					}
				}
			}
		}
		for bi, b := range backs {
			for _, q := range b.st.f.ineq {
				if !it.local(q, p.node) {
					continue
				}
				for _, l := range ints {
					if l.g.kind == 'i' || bi >= len(l.bs) {
						continue
					}
					for _, sg := range []int64{1, -1} {
						n := Sub(q, MulC(Sub(l.bs[bi].v, l.g.head), sg))
						okc := true
						for _, a := range toLin(n).at {
							if it.local(a, p.node) && !heads[a] {
								okc = false
							}
						}
						if okc && len(toLin(n).at) > 0 {
							add(Le0(n))
						}
					}
				}
			}
		}
		// drop those that do not hold at entry
		for c := range p.cands {
			if p.dead[c] {
				continue
			}
			if !it.candHolds(p, c, ls, true, p.entries) {
				p.dead[c] = true
			}
		}
		// and, right away, those that do not survive this iteration (the facts assumed so far were weaker)
		if len(p.cands) != before {
			return true
		}
	}
	return false
}

func isBoolType2(t types.Type) bool { return t != nil && isBoolType(t) }

func (it *Interp) candHolds(p *part, c *Term, ls []gleaf, entry bool, states []*fstate) bool {
	for i, s := range states {
		m := map[*Term]*Term{}
		if entry {
			m[p.iv] = Int(0)
		} else {
			m[p.iv] = AddC(p.iv, 1)
		}
		for _, l := range ls {
			if l.g.kind == 'i' || l.g.kind == 'g' {
				continue
			}
			xs := l.bs
			if entry {
				xs = l.es
			}
			if i >= len(xs) {
				continue
			}
			if l.g.head.op == OSym {
				m[l.g.head] = xs[i].v
			}
		}
		if s.st.f.holds(subst(c, m)) != 1 {
			return false
		}
	}
	return true
}

// finalMarks computes what each iteration contributes to appended sequences, and returns the
// substitution of the placeholders.
func (it *Interp) finalMarks(ex *execn, p *part, l *Loop, backs []*fstate, head *fstate) map[*Term]*Term {
	var gs []*gen
	var collect func(g *gen)
	collect = func(g *gen) {
		if g.kind == 'a' || g.kind == 'q' || g.kind == 'f' {
			gs = append(gs, g)
		}
		for _, s := range g.subs {
			collect(s)
		}
	}
	var rs []ssa.Value
	for v := range p.regs {
		rs = append(rs, v)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].Name() < rs[j].Name() })
	for _, v := range rs {
		collect(p.regs[v])
	}
	var mk []*Term
	for k := range p.mem {
		mk = append(mk, k)
	}
	sort.Slice(mk, func(i, j int) bool { return mk[i].id < mk[j].id })
	for _, k := range mk {
		collect(p.mem[k])
	}
	sub := map[*Term]*Term{}
	if len(gs) == 0 {
		return sub
	}
	full := true
	for b := range l.blocks {
		for _, s := range b.Succs {
			if !l.blocks[s] && b != l.header {
				full = false
			}
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			full = false
		}
	}
	hf := head.st.f
	own := 0
	var bb []*fstate
	for _, b := range backs {
		prune(b, ex.live.in[l.header])
		b.st.gc(append(b.roots(), it.allRoots()...))
		if partKey(b, it.disjLoop != nil && it.disjLoop(ex.fn), l.header) == p.key {
			bb = append(bb, b)
			own++
		}
	}
	for _, g := range gs {
		// alternatives in back-state order; recorded by the last weaken
		li := &LoopInfo{iv: p.iv, pos: it.pos(l.header.Instrs[0]), full: full}
		key := fmt.Sprintf("%d.%s", p.node.id, g.name)
		for i, chunks := range g.alts {
			if i >= len(bb) {
				break
			}
			b := bb[i]
			var guard []*Term
			for _, q := range b.st.f.ineq {
				if !hasTerm(hf.ineq, q) {
					guard = append(guard, App("le0", tBool, q))
				}
			}
			for _, q := range b.st.f.neq {
				if !hasTerm(hf.neq, q) {
					guard = append(guard, Not(EqI(q, Int(0))))
				}
			}
			for q, v := range b.st.f.bools {
				if w, ok := hf.bools[q]; !ok || w != v {
					if v {
						guard = append(guard, q)
					} else {
						guard = append(guard, Not(q))
					}
				}
			}
			sort.Slice(guard, func(a, c int) bool { return guard[a].id < guard[c].id })
			al := LoopAlt{iv: p.iv, mem: map[*Term]*Term{}}
			m := map[*Term]*Term{}
			for _, q := range guard {
				al.guard = append(al.guard, it.iterate(p, q, m, l, b))
			}
			for _, c := range chunks {
				al.chunks = append(al.chunks, it.iterate(p, c, m, l, b))
			}
			for k, v := range b.st.mem {
				if it.local(k, p.node) {
					al.mem[it.iterate(p, k, m, l, b)] = it.iterate(p, v, m, l, b)
				}
			}
			li.alts = append(li.alts, al)
			key += "|"
			for _, x := range al.guard {
				key += itoa(x.id) + ","
			}
			key += "->"
			for _, x := range al.chunks {
				key += itoa(x.id) + ","
			}
		}
		key = itoa(p.iv.id) + "/" + fmt.Sprint(full) + "/" + key
		id, ok := loopIDs[key]
		if !ok {
			id = len(loopIDs) + 1
			loopIDs[key] = id
		}
		li.id = id
		g.mark.loop.alts = li.alts
		g.mark.loop.full = full
		g.mark.loop.pos = li.pos
		r := chLoop(li, p.iv, g.mark.args[1])
		// element-wise copy of another array
		if len(li.alts) == 1 && len(li.alts[0].chunks) == 1 {
			c := li.alts[0].chunks[0]
			if c.isApp("elem") && c.args[0].isApp("ld") && c.args[0].c == 0 && c.args[0].args[0].op == OElemP {
				ep := c.args[0].args[0]
				off := Sub(ep.args[1], p.iv)
				if !off.contains(func(t *Term) bool { return t == p.iv }) && !ep.args[0].contains(func(t *Term) bool { return t == p.iv }) {
					r = chRegion(ep.args[0], off, p.iv)
				}
			}
		}
		sub[g.mark] = r
	}
	return sub
}

// iterate rewrites a value of one iteration as a function of the iteration number.
func (it *Interp) iterate(p *part, t *Term, m map[*Term]*Term, l *Loop, b *fstate) *Term {
	var rec func(t *Term) *Term
	memo := map[*Term]*Term{}
	rec = func(t *Term) *Term {
		if t == p.iv || !it.local(t, p.node) {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		switch {
		case t.op == OSym || t.op == OObj:
			if n := it.symCtx[t]; n != nil && n.under(p.node) {
				name := "it:" + t.name
				r = intern(Term{op: OApp, name: name, typ: t.typ, args: []*Term{p.iv}, flag: t.flag & FNonNil})
				if t.op == OObj {
					ty := t.typ
					if ty != nil {
						ty = types.NewPointer(ty)
					}
					r = intern(Term{op: OApp, name: "it:&" + t.name, typ: ty, args: []*Term{p.iv}, flag: FNonNil})
				}
			}
		case t.op == OApp && t.c > 0 && epochCarrier[t.name]:
			// a value read at some point of the iteration
			args := []*Term{p.iv}
			for _, a := range t.args {
				args = append(args, rec(a))
			}
			r = intern(Term{op: OApp, name: "it:" + t.name + "@" + itoa(int(t.c)), typ: t.typ, args: args, flag: t.flag})
		case len(t.args) > 0:
			sm := map[*Term]*Term{}
			for _, a := range t.args {
				if x := rec(a); x != a {
					sm[a] = x
				}
			}
			r = subst1(t, sm)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// subst1 replaces direct arguments only.
func subst1(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	return subst(t, m)
}

// ---------------------------------------------------------------- substitution in states

func substFacts(f *Facts, m map[*Term]*Term) *Facts {
	if len(m) == 0 {
		return f
	}
	n := newFacts()
	for _, q := range f.ineq {
		x := subst(q, m)
		if b := Le0(x); b == True {
			continue
		} else if b.isApp("le0") {
			n.ineq = append(n.ineq, b.args[0])
		} else {
			n.ineq = append(n.ineq, x)
		}
	}
	for _, q := range f.neq {
		n.neq = append(n.neq, subst(q, m))
	}
	for k, v := range f.bools {
		x := subst(k, m)
		if x == True || x == False {
			continue
		}
		if x.isApp("not") {
			x, v = x.args[0], !v
		}
		if x.isApp("le0") || x.isApp("eq0") {
			if !v {
				x = Not(x)
			}
			n.add(x)
			continue
		}
		n.bools[x] = v
	}
	return n
}

func substState(s *State, m map[*Term]*Term) {
	if len(m) == 0 {
		return
	}
	s.f = substFacts(s.f, m)
	nm := make(map[*Term]*Term, len(s.mem))
	for k, v := range s.mem {
		v2 := subst(v, m)
		if v2.op == OSeq && v2 != v {
			v2 = Seq(seqNormF(s.f, v2.args)...)
		}
		nm[subst(k, m)] = v2
	}
	s.mem = nm
	nt := make(map[string]*Term, len(s.tags))
	for k, v := range s.tags {
		nt[k] = subst(v, m)
	}
	s.tags = nt
	ne := make(map[*Term]int, len(s.epoch))
	for k, v := range s.epoch {
		ne[subst(k, m)] = v
	}
	s.epoch = ne
}

func substOutcome(o *Outcome, m map[*Term]*Term) {
	if len(m) == 0 {
		return
	}
	o.st = o.st.clone()
	substState(o.st, m)
	vals := make([]*Term, len(o.vals))
	for i, v := range o.vals {
		vals[i] = subst(v, m)
	}
	o.vals = vals
}

func substFS(fs *fstate, m map[*Term]*Term) {
	if len(m) == 0 {
		return
	}
	for k, v := range fs.regs {
		fs.regs[k] = subst(v, m)
	}
	for i := range fs.defers {
		d := fs.defers[i]
		if d.fn != nil {
			d.fn = subst(d.fn, m)
		}
		if d.recv != nil {
			d.recv = subst(d.recv, m)
		}
		na := make([]*Term, len(d.args))
		for j, a := range d.args {
			na[j] = subst(a, m)
		}
		d.args = na
		nd := append([]dcall{}, fs.defers...)
		nd[i] = d
		fs.defers = nd
	}
	substState(fs.st, m)
}

// pinIV replaces the iteration count by a loop-independent expression where the exit facts force it.
func (it *Interp) pinIV(p *part, fs *fstate) {
	f := fs.st.f
	for _, q := range f.ineq {
		l := toLin(q)
		var k int64
		okc := true
		for i, a := range l.at {
			if a == p.iv {
				k = l.k[i]
			} else if it.local(a, p.node) {
				okc = false
			}
		}
		if !okc || (k != 1 && k != -1) {
			continue
		}
		// q = k*iv + r ; candidate iv = -r/k
		r := Sub(q, MulC(p.iv, k))
		t := MulC(r, -k)
		if f.eqInt(p.iv, t) {
			substFS(fs, map[*Term]*Term{p.iv: t})
			return
		}
	}
}
