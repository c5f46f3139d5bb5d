package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

type lockEntry struct {
	lock *Term
	mode byte // 'w' or 'r'
	pos  string
}

// State is one abstract state: what is known about memory, values and the past.
type State struct {
	f      *Facts
	mem    map[*Term]*Term // contents of leaf addresses (and of arrays, as sequences)
	epoch  map[*Term]int   // how often an address was overwritten by unknown code
	fepoch map[string]int  // the same per field of a type (possible aliases)
	trace  []*Term         // recorded effects
	tags   map[string]*Term
	locks  []lockEntry
	panics []panicRec
}

type panicRec struct {
	v  *Term
	at int // stack depth of the frame that is unwinding
}

func newState() *State {
	return &State{f: newFacts(), mem: map[*Term]*Term{}, epoch: map[*Term]int{}, fepoch: map[string]int{}, tags: map[string]*Term{}}
}

func (s *State) clone() *State {
	n := &State{f: s.f, mem: make(map[*Term]*Term, len(s.mem)+4), epoch: make(map[*Term]int, len(s.epoch)), fepoch: make(map[string]int, len(s.fepoch)), tags: make(map[string]*Term, len(s.tags))}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.epoch {
		n.epoch[k] = v
	}
	for k, v := range s.fepoch {
		n.fepoch[k] = v
	}
	for k, v := range s.tags {
		n.tags[k] = v
	}
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	n.locks = s.locks[:len(s.locks):len(s.locks)]
	n.panics = s.panics[:len(s.panics):len(s.panics)]
	return n
}

// key identifies everything but the relational facts.
func (s *State) key() string {
	var b strings.Builder
	ids := make([]int, 0, len(s.mem))
	for k := range s.mem {
		ids = append(ids, k.id)
	}
	sort.Ints(ids)
	for _, i := range ids {
		b.WriteString(itoa(i) + "=" + itoa(s.mem[allTerms[i]].id) + ",")
	}
	b.WriteByte('#')
	ids = ids[:0]
	for k, e := range s.epoch {
		if e != 0 {
			ids = append(ids, k.id)
		}
	}
	sort.Ints(ids)
	for _, i := range ids {
		b.WriteString(itoa(i) + "=" + itoa(s.epoch[allTerms[i]]) + ",")
	}
	b.WriteByte('#')
	var ks []string
	for k, v := range s.fepoch {
		ks = append(ks, k+"="+itoa(v))
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, ","))
	b.WriteByte('#')
	for _, t := range s.trace {
		b.WriteString(itoa(t.id) + ",")
	}
	b.WriteByte('#')
	ks = ks[:0]
	for k, v := range s.tags {
		ks = append(ks, k+"="+itoa(v.id))
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, ","))
	b.WriteByte('#')
	for _, l := range s.locks {
		b.WriteString(itoa(l.lock.id) + string(l.mode))
	}
	for _, p := range s.panics {
		b.WriteString("!" + itoa(p.v.id) + "@" + itoa(p.at))
	}
	return b.String()
}

func (s *State) assume(b *Term, truth bool) bool {
	f := s.f.assume(b, truth)
	if f == nil {
		return false
	}
	s.f = f
	return true
}

func isFresh(p *Term) bool { return p.op == OObj && p.flag&FFresh != 0 }

func fieldKey(p *Term) string {
	if p.op == OFieldP {
		if pt := p.args[0].typ; pt != nil && p.args[0].op != OApp && p.args[0].op != OSym {
			return fmt.Sprintf("%s.%d", types.TypeString(pt, nil), p.c)
		}
		return fmt.Sprintf("%s.%d", ptrElem(p.args[0]), p.c)
	}
	if p.typ != nil {
		return "*" + types.TypeString(p.typ, nil)
	}
	return "?"
}

// ptrElem names the pointee type of an address term.
func ptrElem(p *Term) string {
	if p.typ == nil {
		return "?"
	}
	if p.op == OFieldP || p.op == OElemP || p.op == OObj {
		return types.TypeString(p.typ, nil)
	}
	if pt, ok := p.typ.Underlying().(*types.Pointer); ok {
		return types.TypeString(pt.Elem(), nil)
	}
	return types.TypeString(p.typ, nil)
}

// terms whose c field is an epoch id
var epochCarrier = map[string]bool{"ld": true, "arr@": true, "mapat": true, "smget": true, "smok": true}

var epochIDs = map[string]int64{}
var epochTab = [][]int64{nil}

func epochID(toks ...int64) int64 {
	k := ""
	nz := false
	for _, t := range toks {
		k += itoa(int(t)) + ","
		nz = nz || t != 0
	}
	if !nz {
		return 0
	}
	id, ok := epochIDs[k]
	if !ok {
		id = int64(len(epochTab))
		epochIDs[k] = id
		epochTab = append(epochTab, toks)
	}
	return id
}

func (s *State) epochOf(p *Term) int64 {
	var toks []int64
	for q := p; ; q = q.args[0] {
		toks = append(toks, int64(s.epoch[q]))
		if q.op != OFieldP && q.op != OElemP {
			if !isFresh(q) {
				toks = append(toks, int64(s.fepoch[fieldKey(p)]))
			}
			return epochID(toks...)
		}
	}
}

func appAt(name string, t types.Type, e int64, args ...*Term) *Term {
	return intern(Term{op: OApp, name: name, typ: t, args: args, c: e})
}

func ldTerm(p *Term, t types.Type, epoch int64) *Term {
	return typed(intern(Term{op: OApp, name: "ld", args: []*Term{p}, c: epoch, typ: t}), t)
}

// load reads a value of type t at address p.
func (s *State) load(p *Term, t types.Type) *Term {
	if st := structOf(t); st != nil {
		args := make([]*Term, st.NumFields())
		for i := range args {
			args[i] = s.load(FieldP(p, i, st.Field(i).Type()), st.Field(i).Type())
		}
		return intern(Term{op: OStruct, typ: t, args: args})
	}
	if v, ok := s.mem[p]; ok {
		return v
	}
	if _, ok := t.Underlying().(*types.Array); ok {
		return Seq(s.content(p, t)...)
	}
	if p.op == OElemP {
		if c, ok := s.mem[p.args[0]]; ok && c.op == OSeq {
			if v, zero, arr, ai, ok := seqAt(s.f, c.args, p.args[1]); ok {
				switch {
				case v != nil:
					return v
				case zero:
					return zeroOf(t)
				default:
					return ldTerm(ElemP(arr, ai, t), t, 0)
				}
			}
			return typed(intern(Term{op: OApp, name: "elemof", args: []*Term{c, p.args[1]}, typ: t}), t)
		}
		if isFresh(p.args[0]) && s.epochOf(p) == 0 {
			return zeroOf(t)
		}
	}
	if p.op == OFieldP {
		// element of an array with known contents?
		q := p.args[0]
		for r := q; r.op == OFieldP || r.op == OElemP; r = r.args[0] {
			if r.op == OElemP {
				if c, ok := s.mem[r.args[0]]; ok && c.op == OSeq && q.typ != nil {
					if st := structOf(q.typ); st != nil {
						v := s.elemField(q)
						if v != nil && v.op == OStruct {
							return v.args[p.c]
						}
					}
				}
			}
		}
		if isFresh(addrRoot(p)) && s.epochOf(p) == 0 {
			return zeroOf(t)
		}
	}
	if isFresh(p) && s.epochOf(p) == 0 {
		return zeroOf(t)
	}
	if strings.HasPrefix(p.name, "global:") && s.epochOf(p) == 0 {
		if v := globalInit(p); v != nil {
			return v
		}
	}
	return ldTerm(p, t, s.epochOf(p))
}

// elemField reads the struct value stored at address q (an element, or a field of an element).
func (s *State) elemField(q *Term) *Term {
	if q.op == OElemP {
		c := s.mem[q.args[0]]
		if c == nil || c.op != OSeq {
			return nil
		}
		v, zero, arr, ai, ok := seqAt(s.f, c.args, q.args[1])
		if !ok {
			return nil
		}
		if zero {
			return zeroOf(q.typ)
		}
		if v == nil {
			v = (&State{f: s.f, mem: map[*Term]*Term{}, epoch: map[*Term]int{}, fepoch: map[string]int{}}).load(ElemP(arr, ai, q.typ), q.typ)
		}
		return typed(v, q.typ)
	}
	if q.op == OFieldP {
		v := s.elemField(q.args[0])
		if v == nil || v.op != OStruct {
			return nil
		}
		return v.args[q.c]
	}
	return nil
}

// store writes v at address p.
func (s *State) store(p *Term, t types.Type, v *Term) {
	if st := structOf(t); st != nil {
		v = typed(v, t)
		if p.op == OElemP && s.storeElem(p, v) {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			fv := App("field", st.Field(i).Type(), v)
			if v.op == OStruct {
				fv = v.args[i]
			}
			s.store(FieldP(p, i, st.Field(i).Type()), st.Field(i).Type(), fv)
		}
		return
	}
	if p.op == OElemP && s.storeElem(p, v) {
		return
	}
	if p.op == OFieldP {
		for r := p.args[0]; r.op == OFieldP || r.op == OElemP; r = r.args[0] {
			if r.op == OElemP && s.mem[r.args[0]] != nil {
				// rebuild the element
				if ev := s.elemField(r); ev != nil {
					s.storeElem(r, setPath(ev, r, p, v))
					return
				}
			}
		}
	}
	root := addrRoot(p)
	if !isFresh(root) {
		k := fieldKey(p)
		s.fepoch[k]++
		for q := range s.mem {
			if q != p && fieldKey(q) == k && !isFresh(addrRoot(q)) {
				delete(s.mem, q)
			}
		}
	}
	s.mem[p] = v
}

func setPath(ev, root, p, v *Term) *Term {
	if p == root {
		return v
	}
	var rec func(q *Term) *Term
	rec = func(q *Term) *Term { // current value at q
		if q == root {
			return ev
		}
		pv := rec(q.args[0])
		if pv.op == OStruct {
			return pv.args[q.c]
		}
		return pv
	}
	// rebuild upwards
	for p != root {
		par := rec(p.args[0])
		if par.op != OStruct {
			return par
		}
		na := append([]*Term{}, par.args...)
		na[p.c] = v
		v = intern(Term{op: OStruct, typ: par.typ, args: na})
		p = p.args[0]
	}
	return v
}

func (s *State) storeElem(p *Term, v *Term) bool {
	arr, idx := p.args[0], p.args[1]
	c := s.mem[arr]
	if c == nil {
		if isFresh(arr) && arr.typ != nil {
			if at, ok := arr.typ.Underlying().(*types.Array); ok {
				c = Seq(chZero(Int(at.Len())))
			}
		}
		if c == nil && arr.isApp("arr") {
			c = Seq(chRegion(arr, Int(0), App("cap", types.Typ[types.Int], arr.args[0])))
		}
	}
	if c == nil || c.op != OSeq {
		return false
	}
	n, ok := seqSplice(s.f, c.args, idx, []*Term{chElem(v)})
	if !ok {
		n = []*Term{chUnk(fmt.Sprintf("st%d_%d", c.id, v.id), seqLen(c.args))}
	}
	s.mem[arr] = Seq(n...)
	return true
}

// content returns the chunks of the array at arr.
func (s *State) content(arr *Term, t types.Type) []*Term {
	if c, ok := s.mem[arr]; ok && c.op == OSeq {
		return c.args
	}
	if at, ok := t.Underlying().(*types.Array); ok {
		if isFresh(addrRoot(arr)) && s.epochOf(arr) == 0 {
			return []*Term{chZero(Int(at.Len()))}
		}
		return []*Term{chRegion(arr, Int(0), Int(at.Len()))}
	}
	return nil
}

// sliceContent returns the chunks of a slice value.
func (s *State) sliceContent(sl *Term) []*Term {
	if sl == nilSlice || sl.op != OSlice {
		return nil
	}
	arr, off, ln := sl.args[0], sl.args[1], sl.args[2]
	if k, ok := ln.isInt(); ok && k == 0 {
		return nil
	}
	if c, ok := s.mem[arr]; ok && c.op == OSeq {
		if r, ok := seqSub(s.f, c.args, off, ln); ok {
			return r
		}
		return []*Term{chUnk(fmt.Sprintf("sub%d_%d", c.id, off.id), ln)}
	}
	if isFresh(arr) && arr.typ != nil && s.epochOf(arr) == 0 {
		if at, ok := arr.typ.Underlying().(*types.Array); ok {
			if r, ok := seqSub(s.f, []*Term{chZero(Int(at.Len()))}, off, ln); ok {
				return r
			}
		}
	}
	if e := s.epochOf(arr); e > 0 {
		return []*Term{chRegion(appAt("arr@", nil, e, arr), off, ln)}
	}
	return []*Term{chRegion(arr, off, ln)}
}

// writeSlice overwrites sl[0:len(chunks)] by chunks.
func (s *State) writeSlice(sl *Term, chunks []*Term) {
	arr, off := sl.args[0], sl.args[1]
	c := s.mem[arr]
	if c == nil || c.op != OSeq {
		switch {
		case isFresh(arr) && arr.typ != nil:
			if at, ok := arr.typ.Underlying().(*types.Array); ok {
				c = Seq(chZero(Int(at.Len())))
			}
		case arr.isApp("arr"):
			c = Seq(chRegion(arr, Int(0), App("cap", types.Typ[types.Int], arr.args[0])))
		}
	}
	if c == nil || c.op != OSeq {
		return
	}
	n, ok := seqSplice(s.f, c.args, off, chunks)
	if !ok {
		n = []*Term{chUnk(fmt.Sprintf("wr%d_%d", c.id, off.id), seqLen(c.args))}
	}
	s.mem[arr] = Seq(n...)
}

// havoc forgets everything stored below root.
func (s *State) havoc(root *Term) {
	for p := range s.mem {
		for q := p; ; q = q.args[0] {
			if q == root {
				delete(s.mem, p)
				break
			}
			if q.op != OFieldP && q.op != OElemP {
				break
			}
		}
	}
	s.epoch[root]++
}

// gc drops fresh objects that are not reachable from the roots.
func (s *State) gc(roots []*Term) {
	reach := map[*Term]bool{}
	seen := map[*Term]bool{}
	var mark func(t *Term)
	var pend []*Term
	mark = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OObj && !reach[t] {
			reach[t] = true
			pend = append(pend, t)
		}
		for _, a := range t.args {
			mark(a)
		}
		if t.loop != nil {
			for _, al := range t.loop.alts {
				for _, c := range al.chunks {
					mark(c)
				}
			}
		}
	}
	for _, r := range roots {
		mark(r)
	}
	for _, t := range s.tags {
		mark(t)
	}
	for _, l := range s.locks {
		mark(l.lock)
	}
	byRoot := map[*Term][]*Term{}
	for p, v := range s.mem {
		r := addrRoot(p)
		if isFresh(r) {
			byRoot[r] = append(byRoot[r], v, p)
		} else {
			mark(p)
			mark(v)
		}
	}
	for len(pend) > 0 {
		o := pend[0]
		pend = pend[1:]
		for _, v := range byRoot[o] {
			mark(v)
		}
	}
	for p := range s.mem {
		if r := addrRoot(p); isFresh(r) && !reach[r] {
			delete(s.mem, p)
		}
	}
	for p := range s.epoch {
		if r := addrRoot(p); isFresh(r) && !reach[r] {
			delete(s.epoch, p)
		}
	}
}
