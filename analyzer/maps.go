package main

import (
	"go/types"
)

func (s *State) mapKey(m *Term) *Term {
	if m.op == OObj {
		return m
	}
	return App("mapc", nil, m)
}

func (s *State) mapPut(m *Term, op *Term) {
	k := s.mapKey(m)
	var cs []*Term
	if c, ok := s.mem[k]; ok && c.op == OSeq {
		cs = c.args
	}
	// a later write to the same key replaces the earlier one
	out := append([]*Term{}, cs...)
	if n := len(out); n > 0 && (out[n-1].isApp("put") || out[n-1].isApp("del")) && out[n-1].args[0] == op.args[0] {
		out = out[:n-1]
	}
	s.mem[k] = Seq(append(out, op)...)
}

func (s *State) mapGet(m, k *Term, mt *types.Map) (v, ok *Term) {
	if m == Nil || s.f.isNil(m) == 1 {
		return zeroOf(mt.Elem()), False
	}
	var cs []*Term
	key := s.mapKey(m)
	if c, okc := s.mem[key]; okc && c.op == OSeq {
		cs = c.args
	}
	same := func(a, b *Term) int8 {
		if a == b {
			return 1
		}
		if isIntType(mt.Key()) {
			return s.f.holds(EqI(a, b))
		}
		return s.f.holds(Eq(a, b))
	}
	for i := len(cs) - 1; i >= 0; i-- {
		c := cs[i]
		if c.isApp("put") || c.isApp("del") {
			switch same(c.args[0], k) {
			case 1:
				if c.isApp("put") {
					return typed(c.args[1], mt.Elem()), True
				}
				return zeroOf(mt.Elem()), False
			case -1:
				continue
			}
		}
		ref := Seq(cs[:i+1]...)
		if m.op != OObj {
			ref = App("mapov", nil, m, ref)
		}
		return typed(App("mapget", mt.Elem(), ref, k), mt.Elem()), App("mapok", types.Typ[types.Bool], ref, k)
	}
	if isFresh(m) && s.epoch[m] == 0 && s.mem[m] != nil {
		return zeroOf(mt.Elem()), False
	}
	ref := m
	if e := s.epoch[m]; e > 0 {
		ref = appAt("mapat", nil, epochID(int64(e)), m)
	}
	if s.f.holds(Le(App("len", types.Typ[types.Int], ref), Int(0))) == 1 {
		return zeroOf(mt.Elem()), False
	}
	return typed(App("mapget", mt.Elem(), ref, k), mt.Elem()), App("mapok", types.Typ[types.Bool], ref, k)
}

// mapRef denotes the contents of a map for iteration.
func (s *State) mapRef(m *Term) *Term {
	c, ok := s.mem[s.mapKey(m)]
	if !ok || c.op != OSeq {
		if e := s.epoch[m]; e > 0 {
			return appAt("mapat", nil, epochID(int64(e)), m)
		}
		return m
	}
	if m.op == OObj {
		// a complete copy of another map
		if len(c.args) == 1 && c.args[0].loop != nil && len(c.args[0].loop.alts) == 1 {
			a := c.args[0].loop.alts[0]
			if len(a.chunks) == 1 && a.chunks[0].isApp("put") {
				k, v := a.chunks[0].args[0], a.chunks[0].args[1]
				if k.isApp("mapkey") && v.isApp("mapval") && k.args[0] == v.args[0] && k.args[1] == v.args[1] && c.args[0].loop.full {
					return k.args[0]
				}
			}
		}
		return c
	}
	if len(c.args) == 0 {
		return m
	}
	return App("mapov", nil, m, c)
}
