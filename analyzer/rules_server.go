package main

import (
	"go/types"
	"strings"
)

// pipeJSON: a client-side pipeline of n messages is one write of n messages, the first of which
// announces n (groups of up to four).
func (c *Check) pipeJSON(write, frame, errs string) {
	name := "PipeJSON"
	f := c.fn(name)
	if f == nil {
		return
	}
	piped := c.constStr("PIPED")
	any := f.Signature.Params().At(1).Type().Underlying().(*types.Slice).Elem()
	for n := 1; n <= 4; n++ {
		it := c.interp()
		watchWrites(it)
		args := symArgs(f)
		st := newState()
		var cs, ids, vals []*Term
		for i := 0; i < n; i++ {
			id := Sym("id"+itoa(i), types.Typ[types.Int])
			v := Sym("value"+itoa(i), any)
			ids, vals = append(ids, id), append(vals, v)
			cs = append(cs, App("elem", nil, intern(Term{op: OIface, typ: types.Typ[types.Int], args: []*Term{id}})), App("elem", nil, v))
		}
		o := SymNN("arglist", types.NewArray(any, int64(2*n)))
		st.mem[o] = Seq(cs...)
		args[1] = mkSlice(o, Int(0), Int(int64(2*n)), Int(int64(2*n)), False)
		good := 0
		for _, o := range c.entry(it, f, args, st) {
			if o.kind != 'r' {
				continue
			}
			w, failed := o.st.tags["w"], o.st.tags["wf"] != nil
			c.that(w != Int(2), write, name, "%s may write more than once", name)
			switch o.st.f.isNil(o.vals[0]) {
			case 0:
				c.bad(errs, name, "%s: cannot tell whether it reports an error", name)
			case -1:
				c.that(w == nil || failed, errs, name, "%s reports an error although the messages were written", name)
			case 1:
				if c.that(w != nil, write, name, "%s succeeds without writing anything", name) && c.that(!failed, errs, name, "%s returns no error although the write failed", name) {
					good++
				}
			}
			if w == nil {
				continue
			}
			c.that(o.st.tags["wt"].args[0] == args[0], "target", name, "%s writes to something else than the given connection", name)
			rest := o.st.tags["wc"].args
			for i := 0; i < n; i++ {
				fp, why := parseFrame(o.st.f, rest)
				if fp == nil {
					c.bad(frame, name, "%s does not write %d messages: %s", name, n, why)
					break
				}
				rest = fp.rest
				ok := fp.id.contains(func(x *Term) bool { return x == ids[i] }) && !fp.id.contains(func(x *Term) bool { return x.op == OLin })
				c.that(ok, frame, name, "%s does not give message %d its id", name, i)
				ann := announces(fp.header, piped)
				if i == 0 {
					c.that(ann == "enable;"+itoa(n), frame, name, "%s announces %q for a group of %d messages", name, ann, n)
				} else {
					c.that(ann == "", frame, name, "%s announces a group in a later message", name)
				}
				c.bodyIs(o.st, frame, name, fp.body, vals[i])
				if i == n-1 {
					c.that(len(rest) == 0, frame, name, "%s writes more than the given messages", name)
				}
			}
		}
		c.that(good > 0, write, name, "%s never succeeds for %d messages", name, n)
	}
}

// announces evaluates what a header says under the given key.
func announces(header []*Term, key *Term) string {
	r := ""
	for _, h := range header {
		h.contains(func(x *Term) bool {
			if x.isApp("put") && len(x.args) == 2 && x.args[0] == key {
				r = evalStr(x.args[1])
			}
			return false
		})
	}
	return r
}

// evalStr is the text of a constant string expression ("?" where unknown).
func evalStr(t *Term) string {
	for t.op == OIface || t.isApp("elem") {
		t = t.args[0]
	}
	if v, ok := t.isStr(); ok {
		return v
	}
	if v, ok := t.isInt(); ok {
		return itoa(int(v))
	}
	switch {
	case t.isApp("concat"):
		return evalStr(t.args[0]) + evalStr(t.args[1])
	case t.isApp("strconv.Itoa") || t.isApp("strconv.FormatInt"):
		return evalStr(t.args[0])
	case t.isApp("fmt.Sprintf") && len(t.args) > 0:
		f := evalStr(t.args[0])
		for _, a := range t.args[1:] {
			i := strings.Index(f, "%")
			if i < 0 || i+1 >= len(f) || !strings.Contains("dsv", f[i+1:i+2]) {
				return "?"
			}
			f = f[:i] + evalStr(a) + f[i+2:]
		}
		return f
	case t.isApp("fmt.Sprint"):
		r := ""
		for _, a := range t.args {
			r += evalStr(a)
		}
		return r
	}
	return "?"
}
