package main

// The relational part of the abstract domain: linear inequalities over integer atoms
// (a polyhedra-style domain whose emptiness test is Fourier-Motzkin elimination),
// integer disequalities, and truth values of opaque boolean atoms.

import (
	"go/types"
	"sort"
	"strings"
)

type Facts struct {
	ineq  []*Term        // each term t means t <= 0
	neq   []*Term        // each term t means t != 0
	bools map[*Term]bool // opaque boolean atoms
	cache map[*Term]int8 // memo of entailment queries
}

func newFacts() *Facts { return &Facts{bools: map[*Term]bool{}, cache: map[*Term]int8{}} }

func (f *Facts) clone() *Facts {
	n := &Facts{ineq: append([]*Term(nil), f.ineq...), neq: append([]*Term(nil), f.neq...), bools: make(map[*Term]bool, len(f.bools)+1), cache: map[*Term]int8{}}
	for k, v := range f.bools {
		n.bools[k] = v
	}
	return n
}

func (f *Facts) key() string {
	var b strings.Builder
	ids := make([]int, 0, len(f.ineq))
	for _, t := range f.ineq {
		ids = append(ids, t.id)
	}
	sort.Ints(ids)
	for _, i := range ids {
		b.WriteString(itoa(i) + ",")
	}
	b.WriteString("#")
	ids = ids[:0]
	for _, t := range f.neq {
		ids = append(ids, t.id)
	}
	sort.Ints(ids)
	for _, i := range ids {
		b.WriteString(itoa(i) + ",")
	}
	b.WriteString("#")
	ids = ids[:0]
	for t, v := range f.bools {
		x := t.id * 2
		if v {
			x++
		}
		ids = append(ids, x)
	}
	sort.Ints(ids)
	for _, i := range ids {
		b.WriteString(itoa(i) + ",")
	}
	return b.String()
}

func itoa(i int) string {
	if i == 0 {
		return "0"
	}
	var d [20]byte
	p := len(d)
	neg := i < 0
	if neg {
		i = -i
	}
	for i > 0 {
		p--
		d[p] = byte('0' + i%10)
		i /= 10
	}
	if neg {
		p--
		d[p] = '-'
	}
	return string(d[p:])
}

const lenMax = 1 << 30 // assumption A2: no single buffer reaches 1 GiB

// axioms about an atom that hold by its type or by its meaning (each term <= 0).
func axioms(a *Term) []*Term {
	for a.id >= len(axMemo) {
		axMemo = append(axMemo, make([]axEntry, len(allTerms)+1024-len(axMemo))...)
	}
	if e := &axMemo[a.id]; e.done {
		return e.l
	}
	r := axioms0(a)
	for a.id >= len(axMemo) {
		axMemo = append(axMemo, make([]axEntry, 1024)...)
	}
	axMemo[a.id] = axEntry{true, r}
	return r
}

type axEntry struct {
	done bool
	l    []*Term
}

var axMemo []axEntry

func axioms0(a *Term) []*Term {
	var r []*Term
	if a.op == OApp {
		switch a.name {
		case "len", "looplen":
			r = append(r, MulC(a, -1), AddC(a, -lenMax))
			return r
		case "cap":
			r = append(r, Sub(App("len", types.Typ[types.Int], a.args[0]), a), AddC(a, -2*lenMax))
			return r
		case "bool2int":
			return []*Term{MulC(a, -1), AddC(a, -1)}
		case "quo":
			// args: x, c (c>0 const).  for x>=0: c*q <= x <= c*q+c-1 ; emitted by the transfer function
		}
	}
	if a.typ != nil {
		if lo, hi, ok := intRange(a.typ); ok {
			r = append(r, AddC(MulC(a, -1), lo), AddC(a, -hi))
		} else if isIntType(a.typ) && isUnsigned(a.typ) {
			r = append(r, MulC(a, -1))
		}
	}
	return r
}

// unsat reports whether the conjunction of the inequalities (t<=0) has no rational solution
// (after integer tightening).  A false answer is always safe: it only loses precision.
func unsat(rows []*Term) bool {
	// dense matrix: one column per atom (ascending ids) and the constant
	vars := fmVars[:0]
	gen := newMarks()
	for _, t := range rows {
		if t.op == OLin {
			for _, a := range t.args {
				if marks[a.id] != gen {
					marks[a.id] = gen
					vars = append(vars, a.id)
				}
			}
		} else if _, ok := t.isInt(); !ok && marks[t.id] != gen {
			marks[t.id] = gen
			vars = append(vars, t.id)
		}
	}
	sort.Ints(vars)
	fmVars = vars
	n := len(vars)
	w := n + 1
	for i, v := range vars {
		column[v] = int32(i)
	}
	if cap(fmA) < len(rows)*w {
		fmA = make([]int64, len(rows)*w*2)
	}
	A := fmA[:len(rows)*w]
	for i := range A {
		A[i] = 0
	}
	for i, t := range rows {
		r := A[i*w : i*w+w]
		switch {
		case t.op == OLin:
			for j, a := range t.args {
				r[column[a.id]] = t.coefs[j]
			}
			r[n] = t.c
		default:
			if c, ok := t.isInt(); ok {
				r[n] = c
			} else {
				r[column[t.id]] = 1
			}
		}
	}
	m := len(rows)
	if cap(fmPos) < n {
		fmPos, fmNeg = make([]int32, n*2), make([]int32, n*2)
	}
	for iter := 0; iter < 60; iter++ {
		cp, cn := fmPos[:n], fmNeg[:n]
		for i := range cp {
			cp[i], cn[i] = 0, 0
		}
		size := 16
		for size < 3*m {
			size *= 2
		}
		if cap(fmHash) < size {
			fmHash = make([]int32, size*2)
		}
		table := fmHash[:size]
		for i := range table {
			table[i] = 0
		}
		out := 0
	next:
		for i := 0; i < m; i++ {
			r := A[i*w : i*w+w]
			var g int64
			for _, k := range r[:n] {
				if k == 0 {
					continue
				}
				if k < 0 {
					k = -k
				}
				if g == 0 {
					g = k
				} else if g != 1 {
					g = gcd(g, k)
				}
			}
			if g == 0 {
				if r[n] > 0 {
					return true
				}
				continue
			}
			if g > 1 {
				for j := range r[:n] {
					r[j] /= g
				}
				r[n] = ceilDiv(r[n], g)
			}
			h := uint64(1469598103934665603)
			for j, k := range r[:n] {
				if k != 0 {
					h = (h ^ uint64(j)) * 1099511628211
					h = (h ^ uint64(k)) * 1099511628211
				}
			}
			h ^= h >> 29
			at := int(h) & (size - 1)
			for table[at] != 0 {
				o := int(table[at]-1) * w
				same := true
				for j, k := range r[:n] {
					if A[o+j] != k {
						same = false
						break
					}
				}
				if same {
					if r[n] > A[o+n] {
						A[o+n] = r[n] // the stronger of two parallel constraints
					}
					continue next
				}
				at = (at + 1) & (size - 1)
			}
			table[at] = int32(out + 1)
			if out != i {
				copy(A[out*w:out*w+w], r)
			}
			out++
			for j, k := range r[:n] {
				if k > 0 {
					cp[j]++
				} else if k < 0 {
					cn[j]++
				}
			}
		}
		m = out
		if m == 0 {
			return false
		}
		// constraints on an atom that is bounded on one side only say nothing
		for pure := true; pure; {
			pure = false
			out = 0
			for i := 0; i < m; i++ {
				r := A[i*w : i*w+w]
				drop := false
				for j, k := range r[:n] {
					if k != 0 && (cp[j] == 0 || cn[j] == 0) {
						drop = true
						break
					}
				}
				if drop {
					pure = true
					for j, k := range r[:n] {
						if k > 0 {
							cp[j]--
						} else if k < 0 {
							cn[j]--
						}
					}
					continue
				}
				if out != i {
					copy(A[out*w:out*w+w], r)
				}
				out++
			}
			m = out
		}
		if m == 0 {
			return false
		}
		best, bestCost := -1, 1<<30
		for v := 0; v < n; v++ {
			x, y := int(cp[v]), int(cn[v])
			if x+y == 0 {
				continue
			}
			if cost := x*y - x - y; cost < bestCost {
				best, bestCost = v, cost
			}
		}
		np, nn := int(cp[best]), int(cn[best])
		if np*nn > 2500 {
			return false
		}
		total := m - np - nn + np*nn
		if cap(fmB) < total*w {
			fmB = make([]int64, total*w*2)
		}
		B := fmB[:total*w]
		k := 0
		fmP, fmN = fmP[:0], fmN[:0]
		for i := 0; i < m; i++ {
			r := A[i*w : i*w+w]
			switch {
			case r[best] > 0:
				fmP = append(fmP, int32(i))
			case r[best] < 0:
				fmN = append(fmN, int32(i))
			default:
				copy(B[k*w:k*w+w], r)
				k++
			}
		}
		for _, i := range fmP {
			p := A[int(i)*w : int(i)*w+w]
			for _, j := range fmN {
				q := A[int(j)*w : int(j)*w+w]
				a, b := -q[best], p[best]
				if a > 1<<20 || b > 1<<20 {
					return false
				}
				r := B[k*w : k*w+w]
				if a == 1 && b == 1 {
					for x := range r {
						r[x] = p[x] + q[x]
					}
				} else {
					for x := range r {
						r[x] = p[x]*a + q[x]*b
					}
				}
				r[best] = 0
				k++
			}
		}
		m = k
		if m > 4000 {
			return false
		}
		fmA, fmB = B[:cap(B)], A[:cap(A)]
		A = fmA
	}
	return false
}

// scratch memory of unsat and inconsistent (the analysis is sequential)
var (
	fmA, fmB       []int64
	fmPos, fmNeg   []int32
	fmHash         []int32
	fmP, fmN       []int32
	fmVars         []int
	marks          []int32
	column         []int32
	markGen        int32
	icTodo, icRows []*Term
	icIDs          []int
	icKey          []byte
	unsatMemo      = map[string]bool{}
)

// newMarks starts a new set of marked terms.
func newMarks() int32 {
	if len(marks) < len(allTerms) {
		marks = append(marks, make([]int32, len(allTerms)*2-len(marks))...)
		column = append(column, make([]int32, len(marks)-len(column))...)
	}
	markGen++
	return markGen
}

func isMarked(t *Term, gen int32) bool { return t.id < len(marks) && marks[t.id] == gen }

func setMark(t *Term, gen int32) {
	if t.id >= len(marks) {
		marks = append(marks, make([]int32, len(allTerms)*2-len(marks))...)
		column = append(column, make([]int32, len(marks)-len(column))...)
	}
	marks[t.id] = gen
}

// inconsistent reports whether facts plus extra (each <=0) are contradictory.
func (f *Facts) inconsistent(extra ...*Term) bool {
	// connected component of atoms (atoms and inequalities are marked in two generations)
	atomG := newMarks()
	markGen++
	rowG := markGen
	todo, rows := icTodo[:0], icRows[:0]
	// a single atom can be both: rows of that form are remembered apart
	single := map[*Term]bool(nil)
	isRow := func(t *Term) bool {
		if t.op == OLin {
			return isMarked(t, rowG)
		}
		return single[t]
	}
	addRow := func(t *Term) {
		if t.op == OLin {
			setMark(t, rowG)
			for _, a := range t.args {
				if !isMarked(a, atomG) {
					setMark(a, atomG)
					todo = append(todo, a)
				}
			}
		} else {
			if single == nil {
				single = map[*Term]bool{}
			}
			single[t] = true
			if _, ok := t.isInt(); !ok && !isMarked(t, atomG) {
				setMark(t, atomG)
				todo = append(todo, t)
			}
		}
		rows = append(rows, t)
	}
	for _, e := range extra {
		if !isRow(e) {
			addRow(e)
		}
	}
	if len(extra) == 0 {
		for _, q := range f.ineq {
			if q.op == OLin {
				for _, a := range q.args {
					if !isMarked(a, atomG) {
						setMark(a, atomG)
						todo = append(todo, a)
					}
				}
			} else if _, ok := q.isInt(); !ok && !isMarked(q, atomG) {
				setMark(q, atomG)
				todo = append(todo, q)
			}
		}
	}
	for h := 0; h < len(todo); h++ {
		a := todo[h]
		for _, q := range axioms(a) {
			if !isRow(q) {
				addRow(q)
			}
		}
		for _, q := range f.ineq {
			if q.op == OLin {
				if isMarked(q, rowG) {
					continue
				}
				for _, x := range q.args {
					if x == a {
						addRow(q)
						break
					}
				}
			} else if q == a && !isRow(q) {
				addRow(q)
			}
		}
		if len(rows) > 40 {
			break
		}
	}
	icTodo, icRows = todo, rows
	ids := icIDs[:0]
	for _, t := range rows {
		ids = append(ids, t.id)
	}
	sort.Ints(ids)
	icIDs = ids
	kb := icKey[:0]
	for _, i := range ids {
		kb = append(kb, byte(i), byte(i>>8), byte(i>>16), byte(i>>24))
	}
	icKey = kb
	if r, ok := unsatMemo[string(kb)]; ok {
		return r
	}
	sorted := make([]*Term, len(ids))
	for i, id := range ids {
		sorted[i] = allTerms[id]
	}
	r := unsat(sorted)
	unsatMemo[string(kb)] = r
	return r
}

// holds decides a boolean term: 1 true, -1 false, 0 unknown.
func (f *Facts) holds(b *Term) int8 {
	if b == True {
		return 1
	}
	if b == False {
		return -1
	}
	if v, ok := f.cache[b]; ok {
		return v
	}
	v := f.holds0(b)
	f.cache[b] = v
	return v
}

func (f *Facts) holds0(b *Term) int8 {
	switch {
	case b.isApp("not"):
		return -f.holds(b.args[0])
	case b.isApp("le0"):
		t := b.args[0]
		if f.inconsistent(AddC(MulC(t, -1), 1)) {
			return 1
		}
		if f.inconsistent(t) {
			return -1
		}
		return 0
	case b.isApp("eq0"):
		t := b.args[0]
		le := f.inconsistent(AddC(MulC(t, -1), 1)) // t<=0 entailed
		ge := f.inconsistent(AddC(t, 1))           // t>=0 entailed
		if le && ge {
			return 1
		}
		for _, n := range f.neq {
			if n == t || n == MulC(t, -1) {
				return -1
			}
			// equal to another disequality under the facts
			d := Sub(n, t)
			if len(toLin(d).at) <= 3 && f.inconsistent(AddC(MulC(d, -1), 1)) && f.inconsistent(AddC(d, 1)) {
				return -1
			}
		}
		if f.inconsistent(t, MulC(t, -1)) {
			return -1
		}
		return 0
	}
	if v, ok := f.bools[b]; ok {
		if v {
			return 1
		}
		return -1
	}
	if b.isApp("eq") {
		x, y := b.args[0], b.args[1]
		// x==c1 known, asked x==c2
		for k, v := range f.bools {
			if !v || !k.isApp("eq") {
				continue
			}
			var o, p *Term
			switch {
			case k.args[0] == x:
				o, p = k.args[1], y
			case k.args[1] == x:
				o, p = k.args[0], y
			case k.args[0] == y:
				o, p = k.args[1], x
			case k.args[1] == y:
				o, p = k.args[0], x
			default:
				continue
			}
			if o == p {
				return 1
			}
			if o.op == OConst && p.op == OConst {
				return -1
			}
			if r := Eq(o, p); r == False {
				return -1
			}
		}
		// one is nil, the other not
		if xn, yn := f.isNil(x), f.isNil(y); xn*yn < 0 {
			return -1
		}
	}
	if b.isApp("isnil") {
		x := b.args[0]
		for k, v := range f.bools {
			if v && k.isApp("eq") && (k.args[0] == x && k.args[1].nonNil() || k.args[1] == x && k.args[0].nonNil()) {
				return -1
			}
		}
	}
	return 0
}

// isNil: 1 nil, -1 non-nil, 0 unknown
func (f *Facts) isNil(x *Term) int8 {
	e := Eq(x, Nil)
	if e == True {
		return 1
	}
	if e == False {
		return -1
	}
	if v, ok := f.bools[e]; ok {
		if v {
			return 1
		}
		return -1
	}
	return 0
}

// assume returns the facts strengthened by b==truth, or nil when contradictory.
func (f *Facts) assume(b *Term, truth bool) *Facts {
	if !truth {
		b = Not(b)
	}
	switch f.holds(b) {
	case 1:
		return f
	case -1:
		return nil
	}
	n := f.clone()
	if !n.add(b) {
		return nil
	}
	return n
}

func (f *Facts) add(b *Term) bool {
	truth := true
	if b.isApp("not") {
		truth = false
		b = b.args[0]
	}
	switch {
	case b.isApp("le0"):
		f.addIneq(b.args[0])
	case b.isApp("eq0") && truth:
		t := b.args[0]
		f.addIneq(t)
		f.addIneq(MulC(t, -1))
	case b.isApp("eq0"):
		t := b.args[0]
		f.neq = append(f.neq, t)
		// sharpen bounds: t>=0 && t!=0 => t>=1
		if f.inconsistent(AddC(t, 1)) { // t>=0 entailed
			f.addIneq(AddC(MulC(t, -1), 1))
		} else if f.inconsistent(AddC(MulC(t, -1), 1)) {
			f.addIneq(AddC(t, 1))
		}
	default:
		f.bools[b] = truth
		if b.isApp("eq") && truth {
			// equal to something that is not nil
			for i, x := range b.args {
				if y := b.args[1-i]; y != Nil && x != Nil && f.isNil(y) == -1 {
					e := Eq(x, Nil)
					switch {
					case e == True || f.isNil(x) == 1:
						return false
					case e != False:
						f.bools[e] = false
					}
				}
			}
		}
		if b.isApp("isnil") && truth {
			x := b.args[0]
			f.addIneq(App("len", types.Typ[types.Int], x))
		}
	}
	return true
}

func (f *Facts) addIneq(t *Term) {
	for _, q := range f.ineq {
		if q == t {
			return
		}
	}
	f.ineq = append(f.ineq, t)
	f.cache = map[*Term]int8{}
	// a disequality may now sharpen a bound
	for _, n := range f.neq {
		share := false
		for _, a := range toLin(n).at {
			for _, c := range toLin(t).at {
				if a == c {
					share = true
				}
			}
		}
		if !share {
			continue
		}
		if f.inconsistent(AddC(n, 1)) {
			q := AddC(MulC(n, -1), 1)
			if !hasTerm(f.ineq, q) {
				f.ineq = append(f.ineq, q)
			}
		} else if f.inconsistent(AddC(MulC(n, -1), 1)) {
			q := AddC(n, 1)
			if !hasTerm(f.ineq, q) {
				f.ineq = append(f.ineq, q)
			}
		}
	}
}

func hasTerm(l []*Term, t *Term) bool {
	for _, x := range l {
		if x == t {
			return true
		}
	}
	return false
}

// joinFacts keeps what both know.
func joinFacts(a, b *Facts) *Facts {
	if a == b || a.key() == b.key() {
		return a
	}
	n := newFacts()
	for _, q := range a.ineq {
		if hasTerm(b.ineq, q) || b.inconsistent(AddC(MulC(q, -1), 1)) {
			n.ineq = append(n.ineq, q)
		}
	}
	for _, q := range b.ineq {
		if !hasTerm(n.ineq, q) && a.inconsistent(AddC(MulC(q, -1), 1)) {
			n.ineq = append(n.ineq, q)
		}
	}
	for _, q := range a.neq {
		if b.holds(EqI(q, Int(0))) == -1 {
			n.neq = append(n.neq, q)
		}
	}
	for _, q := range b.neq {
		if !hasTerm(n.neq, q) && a.holds(EqI(q, Int(0))) == -1 {
			n.neq = append(n.neq, q)
		}
	}
	for k, v := range a.bools {
		if w, ok := b.bools[k]; ok && w == v {
			n.bools[k] = v
		} else if !ok {
			if h := b.holds(k); (h == 1) == v && h != 0 {
				n.bools[k] = v
			}
		}
	}
	for k, v := range b.bools {
		if _, ok := n.bools[k]; !ok {
			if _, ok2 := a.bools[k]; !ok2 {
				if h := a.holds(k); h != 0 && (h == 1) == v {
					n.bools[k] = v
				}
			}
		}
	}
	return n
}

// entails reports whether b is known true.
func (f *Facts) entails(b *Term) bool { return f.holds(b) == 1 }
func (f *Facts) eqInt(a, b *Term) bool {
	return a == b || f.holds(EqI(a, b)) == 1
}
