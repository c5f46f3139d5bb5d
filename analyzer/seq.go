package main

// Contents of arrays, and effect traces, as sequences of chunks with symbolic lengths.

import (
	"fmt"
	"strings"
)

type LoopAlt struct {
	guard  []*Term // boolean terms that hold on this alternative
	chunks []*Term // what one iteration contributes
	iv     *Term
	mem    map[*Term]*Term // what objects created in the iteration hold
}

type LoopInfo struct {
	id   int
	iv   *Term // iteration number 0,1,2,...
	alts []LoopAlt
	pos  string
	full bool // the loop is left only when its header condition fails
}

var loopSeq int

func chZero(n *Term) *Term             { return App("zero", nil, n) }
func chElem(v *Term) *Term             { return App("elem", nil, v) }
func chRegion(arr, off, n *Term) *Term { return App("region", nil, arr, off, n) }
func chUnk(name string, n *Term) *Term { return App("unk:"+name, nil, n) }
func chEnc(enc string, v *Term) *Term  { return App("enc:"+enc, nil, v) }

// chLoop: args = number of iterations, total length.
func chLoop(li *LoopInfo, hi, n *Term) *Term {
	t := App(fmt.Sprintf("loop#%d", li.id), nil, hi, n)
	t.loop = li
	return t
}

func encSize(enc string) int64 {
	switch enc[2:] {
	case "16":
		return 2
	case "32":
		return 4
	case "64":
		return 8
	}
	return 0
}

func isUnk(c *Term) bool { return c.op == OApp && strings.HasPrefix(c.name, "unk:") }

// chunkLen returns the length of a chunk.
func chunkLen(c *Term) *Term {
	switch {
	case c.isApp("zero"):
		return c.args[0]
	case c.isApp("elem"):
		return Int(1)
	case c.isApp("region"):
		return c.args[2]
	case c.op == OApp && strings.HasPrefix(c.name, "enc:"):
		return Int(encSize(c.name[4:]))
	case isUnk(c):
		return c.args[0]
	case c.loop != nil:
		return c.args[1]
	}
	return Int(1)
}

func seqLen(cs []*Term) *Term {
	n := Int(0)
	for _, c := range cs {
		n = Add(n, chunkLen(c))
	}
	return n
}

// seqNorm merges adjacent chunks and drops empty ones.
func seqNorm(cs []*Term) []*Term {
	var out []*Term
	for _, c := range cs {
		if l, ok := chunkLen(c).isInt(); ok && l == 0 && (c.isApp("zero") || c.isApp("region") || isUnk(c)) {
			continue
		}
		if n := len(out); n > 0 {
			p := out[n-1]
			if p.isApp("zero") && c.isApp("zero") {
				out[n-1] = chZero(Add(p.args[0], c.args[0]))
				continue
			}
			if p.isApp("region") && c.isApp("region") && p.args[0] == c.args[0] && Add(p.args[1], p.args[2]) == c.args[1] {
				out[n-1] = chRegion(p.args[0], p.args[1], Add(p.args[2], c.args[2]))
				continue
			}
		}
		out = append(out, c)
		// four bytes b>>24, b>>16, b>>8, b make one big-endian word
		if n := len(out); n >= 4 {
			if v := be32Bytes(out[n-4:]); v != nil {
				out = append(out[:n-4:n-4], chEnc("be32", v))
			}
		}
	}
	return out
}

func be32Bytes(c []*Term) *Term {
	var v *Term
	for i, sh := range []int64{24, 16, 8, 0} {
		if !c[i].isApp("elem") {
			return nil
		}
		x := c[i].args[0]
		if !x.isApp("byteof") || x.args[1] != Int(sh) {
			return nil
		}
		if v != nil && v != x.args[0] {
			return nil
		}
		v = x.args[0]
	}
	return v
}

func seqNormF(f *Facts, cs []*Term) []*Term {
	var out []*Term
	for _, c := range cs {
		l := chunkLen(c)
		if l.op != OConst && (c.isApp("zero") || c.isApp("region") || isUnk(c) || c.loop != nil) && f.eqInt(l, Int(0)) {
			continue
		}
		out = append(out, c)
	}
	return seqNorm(out)
}

// splitAt cuts the sequence at offset off; ok=false when the position cannot be located.
func splitAt(f *Facts, cs []*Term, off *Term) (a, b []*Term, ok bool) {
	cum := Int(0)
	for i, c := range cs {
		if cum == off || f.eqInt(cum, off) {
			return cs[:i], cs[i:], true
		}
		l := chunkLen(c)
		end := Add(cum, l)
		if f.entails(Le(end, off)) {
			cum = end
			continue
		}
		if f.entails(Le(cum, off)) && f.entails(Le(off, end)) {
			d := Sub(off, cum)
			var x, y *Term
			switch {
			case c.isApp("zero"):
				x, y = chZero(d), chZero(Sub(l, d))
			case c.isApp("region"):
				x, y = chRegion(c.args[0], c.args[1], d), chRegion(c.args[0], Add(c.args[1], d), Sub(l, d))
			case isUnk(c):
				x, y = chUnk(c.name[4:]+"a", d), chUnk(c.name[4:]+"b", Sub(l, d))
			default:
				return nil, nil, false
			}
			a = append(append([]*Term{}, cs[:i]...), x)
			b = append([]*Term{y}, cs[i+1:]...)
			return a, b, true
		}
		return nil, nil, false
	}
	if cum == off || f.eqInt(cum, off) {
		return cs, nil, true
	}
	return nil, nil, false
}

func seqSub(f *Facts, cs []*Term, off, n *Term) ([]*Term, bool) {
	if k, ok := n.isInt(); ok && k == 0 {
		return nil, true
	}
	_, b, ok := splitAt(f, cs, off)
	if !ok {
		return nil, false
	}
	a, _, ok := splitAt(f, b, n)
	if !ok {
		return nil, false
	}
	return seqNorm(a), true
}

// seqSplice overwrites [off, off+len(new)) by new.
func seqSplice(f *Facts, cs []*Term, off *Term, nw []*Term) ([]*Term, bool) {
	a, b, ok := splitAt(f, cs, off)
	if !ok {
		return nil, false
	}
	_, d, ok := splitAt(f, b, seqLen(nw))
	if !ok {
		return nil, false
	}
	r := append(append(append([]*Term{}, a...), nw...), d...)
	return seqNorm(r), true
}

// seqAt finds the element at idx. It returns the value (elem), or zero=true, or the symbolic
// array and index it is read from.
func seqAt(f *Facts, cs []*Term, idx *Term) (val *Term, zero bool, arr, aidx *Term, ok bool) {
	cum := Int(0)
	for _, c := range cs {
		l := chunkLen(c)
		end := Add(cum, l)
		if f.entails(Le(end, idx)) {
			cum = end
			continue
		}
		if !f.entails(Le(cum, idx)) || !f.entails(Lt(idx, end)) {
			return nil, false, nil, nil, false
		}
		d := Sub(idx, cum)
		switch {
		case c.isApp("elem"):
			return c.args[0], false, nil, nil, true
		case c.isApp("zero"):
			return nil, true, nil, nil, true
		case c.isApp("region"):
			return nil, false, c.args[0], Add(c.args[1], d), true
		case c.loop != nil && len(c.loop.alts) == 1 && len(c.loop.alts[0].chunks) == 1 && c.loop.alts[0].chunks[0].isApp("elem"):
			return subst(c.loop.alts[0].chunks[0].args[0], map[*Term]*Term{c.loop.iv: d}), false, nil, nil, true
		}
		return nil, false, nil, nil, false
	}
	return nil, false, nil, nil, false
}

func seqStr(cs []*Term) string {
	var s []string
	for _, c := range cs {
		s = append(s, chStr(c))
	}
	return "[" + strings.Join(s, " ") + "]"
}

func chStr(c *Term) string {
	if c.loop != nil {
		var alts []string
		for _, a := range c.loop.alts {
			var g []string
			for _, x := range a.guard {
				g = append(g, x.String())
			}
			alts = append(alts, fmt.Sprintf("if{%s} %s", strings.Join(g, " & "), seqStr(a.chunks)))
		}
		return fmt.Sprintf("LOOP#%d(%s<%s){%s}", c.loop.id, c.loop.iv, c.args[0], strings.Join(alts, " | "))
	}
	return c.String()
}
