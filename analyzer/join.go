package main

// Joining the states in which one goroutine is started: addresses whose contents differ hold an
// unknown value afterwards.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// phi is the value that is one of vs (in the respective states).
func phi(key string, t types.Type, vs []*Term, sts []*State) *Term {
	same := true
	for _, v := range vs {
		if v == nil || v != vs[0] {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	if t == nil {
		for _, v := range vs {
			if v != nil && v.typ != nil {
				t = v.typ
				break
			}
		}
	}
	nn := true
	for i, v := range vs {
		if v == nil || !(v.nonNil() || sts[i].f.isNil(v) == -1) {
			nn = false
		}
	}
	if nn {
		return typed(SymNN("join:"+key, t), t)
	}
	return typed(Sym("join:"+key, t), t)
}

// joinSpawns joins spawns of one go statement that run the same function.
func joinSpawns(it *Interp, l []*Spawn) *Spawn {
	if len(l) == 1 {
		return l[0]
	}
	n := *l[0]
	site := fmt.Sprintf("%s/%d", instrID(n.instr), it.ctx.id)
	var sts []*State
	for _, s := range l {
		sts = append(sts, s.st)
	}
	col := func(get func(s *Spawn) *Term) []*Term {
		var vs []*Term
		for _, s := range l {
			vs = append(vs, get(s))
		}
		return vs
	}
	n.args = append([]*Term{}, n.args...)
	for i := range n.args {
		n.args[i] = phi(fmt.Sprintf("%s/arg%d", site, i), n.args[i].typ, col(func(s *Spawn) *Term { return s.args[i] }), sts)
	}
	if n.recv != nil {
		n.recv = phi(site+"/recv", n.recv.typ, col(func(s *Spawn) *Term { return s.recv }), sts)
	}
	if n.fn != nil && n.fn.op == OClosure {
		b := append([]*Term{}, n.fn.args...)
		for i := range b {
			b[i] = phi(fmt.Sprintf("%s/bind%d", site, i), b[i].typ, col(func(s *Spawn) *Term { return s.fn.args[i] }), sts)
		}
		c := *n.fn
		c.args = b
		n.fn = intern(c)
	} else if n.fn != nil {
		n.fn = phi(site+"/fn", n.fn.typ, col(func(s *Spawn) *Term { return s.fn }), sts)
	}
	n.st = joinStates(it, site, sts)
	return &n
}

func isArrayType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Array)
	return ok
}

func tagKey(st *State) string {
	var b strings.Builder
	for _, k := range sortedTags(st) {
		b.WriteString(k + "=" + itoa(st.tags[k].id) + ",")
	}
	return b.String()
}

// joinStates joins states; what differs becomes unknown.
func joinStates(it *Interp, site string, sts []*State) *State {
	st := sts[0].clone()
	tok := it.node(it.ctx, "join"+site).id << 20
	for _, s := range sts[1:] {
		st.f = joinFacts(st.f, s.f)
	}
	addrs := map[*Term]bool{}
	for _, s := range sts {
		for p := range s.mem {
			addrs[p] = true
		}
	}
	for p := range addrs {
		var vs []*Term
		miss, agree := false, true
		for _, s := range sts {
			v := s.mem[p]
			if v == nil {
				miss = true
			}
			if v != sts[0].mem[p] {
				agree = false
			}
			vs = append(vs, v)
		}
		if agree {
			continue
		}
		var t types.Type
		plain := p.op == OFieldP || p.op == OElemP || p.op == OObj
		if plain && p.typ != nil {
			t = p.typ
		}
		seq := false
		for i, v := range vs {
			if v != nil && v.op == OSeq {
				seq = true
			}
			if v == nil && plain && t != nil && !isArrayType(t) {
				vs[i] = sts[i].load(p, t)
			}
		}
		if seq && !miss {
			// a common beginning is kept
			if c := joinSeqs(fmt.Sprintf("%s/s%d", site, p.id), vs, sts); c != nil {
				st.mem[p] = c
				continue
			}
		}
		if seq || (miss && !plain) || t != nil && isArrayType(t) {
			// contents of arrays, maps and pseudo locations: forget
			delete(st.mem, p)
			st.epoch[p] = tok
			continue
		}
		st.mem[p] = phi(fmt.Sprintf("%s/m%d", site, p.id), t, vs, sts)
	}
	for _, s := range sts {
		for p, e := range s.epoch {
			if e != sts[0].epoch[p] || st.epoch[p] != e {
				st.epoch[p] = tok
			}
		}
		for p, e := range sts[0].epoch {
			if s.epoch[p] != e {
				st.epoch[p] = tok
			}
		}
		for k, e := range s.fepoch {
			if e != sts[0].fepoch[k] {
				st.fepoch[k] = tok
			}
		}
		for k, e := range sts[0].fepoch {
			if s.fepoch[k] != e {
				st.fepoch[k] = tok
			}
		}
	}
	return st
}

func joinSeqs(name string, vs []*Term, sts []*State) *Term {
	n := -1
	for _, v := range vs {
		if v.op != OSeq {
			return nil
		}
		k := 0
		for k < len(v.args) && k < len(vs[0].args) && v.args[k] == vs[0].args[k] {
			k++
		}
		if n < 0 || k < n {
			n = k
		}
	}
	if n == 0 {
		return nil
	}
	var ls []*Term
	for _, v := range vs {
		ls = append(ls, seqLen(v.args[n:]))
	}
	l := phi(name+"/len", types.Typ[types.Int], ls, sts)
	return Seq(append(append([]*Term{}, vs[0].args[:n]...), chUnk(name, l))...)
}

// canon expresses what a call returned in terms the caller knows: symbols of the callee that
// equalities determine are eliminated, and facts about symbols that are gone are dropped.
func (it *Interp) canon(o *Outcome, node *ctxNode) {
	for n := 0; n < 40; n++ {
		f := o.st.f
		neg := map[*Term]bool{}
		for _, q := range f.ineq {
			neg[q] = true
		}
		var m map[*Term]*Term
	search:
		for _, q := range f.ineq {
			if !neg[MulC(q, -1)] {
				continue
			}
			l := toLin(q)
			for i, a := range l.at {
				if a.op != OSym || (l.k[i] != 1 && l.k[i] != -1) {
					continue
				}
				if c := it.symCtx[a]; c == nil || !c.under(node) {
					continue
				}
				r := Sub(q, MulC(a, l.k[i]))
				t := MulC(r, -l.k[i])
				if t.contains(func(x *Term) bool { return x == a }) {
					continue
				}
				m = map[*Term]*Term{a: t}
				break search
			}
		}
		if m == nil {
			break
		}
		substOutcome(o, m)
	}
	// dead symbols
	seen := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			mark(a)
		}
		if t.loop != nil {
			for _, al := range t.loop.alts {
				for _, c := range al.chunks {
					mark(c)
				}
			}
		}
	}
	for _, v := range o.vals {
		mark(v)
	}
	for k, v := range o.st.mem {
		mark(k)
		mark(v)
	}
	for _, v := range o.st.tags {
		mark(v)
	}
	for _, v := range o.st.trace {
		mark(v)
	}
	for _, p := range o.st.panics {
		mark(p.v)
	}
	dead := func(t *Term) bool {
		return t.contains(func(x *Term) bool {
			if (x.op == OSym || x.op == OObj) && !seen[x] {
				c := it.symCtx[x]
				return c != nil && c.under(node)
			}
			return false
		})
	}
	f := o.st.f
	drop := false
	for _, q := range f.ineq {
		drop = drop || dead(q)
	}
	for _, q := range f.neq {
		drop = drop || dead(q)
	}
	for q := range f.bools {
		drop = drop || dead(q)
	}
	if !drop {
		return
	}
	n := newFacts()
	for _, q := range f.ineq {
		if !dead(q) {
			n.ineq = append(n.ineq, q)
		}
	}
	for _, q := range f.neq {
		if !dead(q) {
			n.neq = append(n.neq, q)
		}
	}
	for q, v := range f.bools {
		if !dead(q) {
			n.bools[q] = v
		}
	}
	o.st = o.st.clone()
	o.st.f = n
}

// sameContent: slices over different arrays with the same contents.
func sameContent(a, b *Term, sa, sb *State) bool {
	if a == nil || b == nil || a.op != OSlice || b.op != OSlice || a.args[4] != b.args[4] || a.args[2] != b.args[2] {
		return false
	}
	return Seq(sa.sliceContent(a)...) == Seq(sb.sliceContent(b)...)
}

// maxOuts outcomes of a function without error result are kept apart.
const maxOuts = 6

// joinOuts joins the outcomes of a call: all failures are one failure, and successes that
// returned the same contents are one success.
func (it *Interp) joinOuts(fn *ssa.Function, outs []Outcome, call ssa.Instruction, cost int) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	res := fn.Signature.Results()
	if res.Len() == 0 || !isErrType(res.At(res.Len()-1).Type()) {
		if len(outs) <= maxOuts && cost < 5000 {
			return outs
		}
		groups := map[string][]Outcome{}
		var order []string
		for _, o := range outs {
			k := string(o.kind) + "|" + tagKey(o.st) + "|"
			for _, v := range o.vals {
				k += itoa(v.id) + ","
			}
			for _, l := range o.st.locks {
				k += itoa(l.lock.id) + string(l.mode)
			}
			for _, p := range o.st.panics {
				k += "!" + itoa(p.v.id) + "@" + itoa(p.at)
			}
			for _, t := range o.st.trace {
				k += "," + itoa(t.id)
			}
			if groups[k] == nil {
				order = append(order, k)
			}
			groups[k] = append(groups[k], o)
		}
		var out []Outcome
		for gi, k := range order {
			if g := groups[k]; len(g) == 1 || k[0] == 'x' {
				out = append(out, g...)
			} else {
				out = append(out, it.joinGroup(fn, fmt.Sprintf("%d/v%d", it.ctx.id, gi), g))
			}
		}
		return out
	}
	groups := map[string][]Outcome{}
	var order []string
	for _, o := range outs {
		k := string(o.kind)
		if o.kind == 'r' {
			k += fmt.Sprint(o.st.f.isNil(o.vals[len(o.vals)-1]))
		}
		k += "|" + tagKey(o.st) + "|"
		for _, l := range o.st.locks {
			k += itoa(l.lock.id) + string(l.mode)
		}
		for _, p := range o.st.panics {
			k += "!" + itoa(p.v.id) + "@" + itoa(p.at)
		}
		for _, t := range o.st.trace {
			k += "," + itoa(t.id)
		}
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], o)
	}
	var out []Outcome
	for gi, k := range order {
		g := groups[k]
		if len(g) == 1 || k[0] == 'x' {
			out = append(out, g...)
			continue
		}
		site := fmt.Sprintf("%d/out%d", it.ctx.id, gi)
		if strings.HasPrefix(k, "r-1") || k[0] == 'p' {
			out = append(out, it.joinGroup(fn, site, g))
			continue
		}
		if k[1] != '1' {
			out = append(out, g...)
			continue
		}
		// successes
		var cls [][]Outcome
	next:
		for _, o := range g {
			for i := range cls {
				if it.compatible(&cls[i][0], &o) {
					cls[i] = append(cls[i], o)
					continue next
				}
			}
			cls = append(cls, []Outcome{o})
		}
		for i, c := range cls {
			if len(c) == 1 {
				out = append(out, c[0])
			} else {
				out = append(out, it.joinGroup(fn, fmt.Sprintf("%s.%d", site, i), c))
			}
		}
	}
	return out
}

func (it *Interp) compatible(a, b *Outcome) bool {
	for i := range a.vals {
		if a.vals[i] != b.vals[i] && !sameContent(a.vals[i], b.vals[i], a.st, b.st) {
			return false
		}
	}
	ra, rb := map[*Term]bool{}, map[*Term]bool{}
	for i := range a.vals {
		if a.vals[i] != b.vals[i] {
			ra[a.vals[i].args[0]], rb[b.vals[i].args[0]] = true, true
		}
	}
	for p, v := range a.st.mem {
		if b.st.mem[p] != v && !ra[p] {
			return false
		}
	}
	for p, v := range b.st.mem {
		if a.st.mem[p] != v && !rb[p] {
			return false
		}
	}
	return true
}

func (it *Interp) joinGroup(fn *ssa.Function, site string, g []Outcome) Outcome {
	var sts []*State
	for _, o := range g {
		sts = append(sts, o.st)
	}
	n := Outcome{kind: g[0].kind, st: joinStates(it, site, sts)}
	for i := range g[0].vals {
		var vs []*Term
		same := true
		for _, o := range g {
			vs = append(vs, o.vals[i])
			same = same && o.vals[i] == g[0].vals[i]
		}
		var t types.Type
		if n.kind == 'r' {
			t = fn.Signature.Results().At(i).Type()
		}
		switch {
		case same:
			n.vals = append(n.vals, vs[0])
		case n.kind == 'r' && isErrType(t) || n.kind == 'p':
			n.vals = append(n.vals, anyOf(vs, t, sts))
		case vs[0].op == OSlice && sameContent(vs[0], vs[1], sts[0], sts[1]):
			s := vs[0]
			o := intern(Term{op: OObj, name: "joined@" + site + "." + itoa(i), typ: types.NewArray(t.Underlying().(*types.Slice).Elem(), 0), flag: FFresh})
			if _, ok := it.symCtx[o]; !ok {
				it.symCtx[o] = it.ctx
				// as old as its oldest constituent
				for _, v := range vs {
					if r := addrRoot(v.args[0]); !isFresh(r) {
						it.symCtx[o] = nil
					} else if cx := it.symCtx[r]; it.symCtx[o] != nil && (cx == nil || !cx.under(it.symCtx[o])) {
						it.symCtx[o] = cx
					}
				}
			}
			for _, v := range vs {
				delete(n.st.mem, v.args[0])
				delete(n.st.epoch, v.args[0])
			}
			n.st.mem[o] = Seq(sts[0].sliceContent(s)...)
			n.vals = append(n.vals, mkSlice(o, Int(0), s.args[2], s.args[2], s.args[4]))
		default:
			v := phi(site+"/v"+itoa(i), t, vs, sts)
			n.vals = append(n.vals, v)
		}
	}
	return n
}

// anyOf is one of the given non-nil values.
func anyOf(vs []*Term, t types.Type, sts []*State) *Term {
	seen := map[*Term]bool{}
	var l []*Term
	nn := true
	for i, v := range vs {
		if !v.nonNil() && sts[i].f.isNil(v) != -1 {
			nn = false
		}
		if v.isApp("anyof") {
			for _, a := range v.args {
				if !seen[a] {
					seen[a] = true
					l = append(l, a)
				}
			}
			continue
		}
		if !seen[v] {
			seen[v] = true
			l = append(l, v)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	if len(l) == 1 {
		return l[0]
	}
	if nn {
		return AppNN("anyof", t, l...)
	}
	return App("anyof", t, l...)
}
