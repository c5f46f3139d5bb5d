package main

// C01 decoders never panic, C02 wire layout, C03 framing, C19 marshaller names.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", ruleDecodersTotal)
	register("C02", ruleLayout)
	register("C03", ruleFraming)
}

// exported lists the exported functions and methods of the package.
func (c *Check) exported() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.p.AllFuncs() {
		if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		if r := f.Signature.Recv(); r != nil {
			t := r.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			n, ok := types.Unalias(t).(*types.Named)
			if !ok || !n.Obj().Exported() {
				continue
			}
		}
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func isByteSlice(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// takesWireData: the function is handed bytes that come from the network.
func takesWireData(f *ssa.Function) bool {
	for _, p := range f.Params {
		if isByteSlice(p.Type()) {
			return true
		}
		if ts := types.TypeString(p.Type(), nil); ts == "io.Reader" {
			return true
		}
	}
	return false
}

var inputPanics = map[string]bool{"index": true, "slice": true, "nil": true, "type assertion": true, "make": true, "division": true, "conversion": true}

func ruleDecodersTotal(c *Check) {
	// Every exported function that is given wire data, and the Context methods that look into
	// the received message.
	ctxMethods := map[string]bool{"Bind": true, "BindWithMarshaller": true, "RawStream": true, "GetURLPattern": true, "RouterType": true}
	n := 0
	for _, f := range c.exported() {
		isCtx := false
		if r := f.Signature.Recv(); r != nil && strings.HasSuffix(types.TypeString(r.Type(), nil), ".Context") {
			isCtx = ctxMethods[f.Name()]
			if !isCtx {
				continue
			}
		}
		recv := c.readsConn(f)
		if !takesWireData(f) && !isCtx && !recv {
			continue
		}
		n++
		it := c.interp()
		name := fnName(f)
		it.onEvent = func(it *Interp, st *State, ev *Event) {
			if it.trial == 0 && ev.kind == "rtpanic" && len(ev.args) > 0 && onlyConfig(ev.args, f) {
				return // the caller's own buffer size, nothing that was received
			}
			if it.trial == 0 && (ev.kind == "rtpanic" || ev.kind == "panic") {
				c.bad("no-panic", name, "%s may panic on some input: %s at %s", name, ev.name, ev.pos)
			}
		}
		it.oblig = func(it *Interp, st *State, kind string, ok bool, in ssa.Instruction, detail string) {
			if it.trial == 0 && ok {
				c.ok("site", kind+" "+it.pos(in))
			}
		}
		args, st := symArgs(f), newState()
		if f.Signature.Variadic() && len(args) > 0 {
			// optional configuration: at most one value
			if v := args[len(args)-1]; v.op == OSlice && !isByteSlice(f.Params[len(args)-1].Type()) && isIntType(elemOf(f.Params[len(args)-1].Type())) {
				st.leFact(v.args[2], Int(1))
			}
		}
		// every panic is an event, and reported by the monitor above
		c.entry(it, f, args, st)
		c.ok("no-panic", name)
	}
	c.atLeast("no-panic", 25, "decoding entry points")
	c.atLeast("site", 20, "index, slice, allocation and assertion sites")
	// The goroutines that read from connections.
	s := c.serve()
	for _, g := range s.gos {
		if !g.reads {
			continue
		}
		site := g.name
		c.ok("reader", site)
		for _, e := range g.rtpanics {
			if strings.HasPrefix(e.name, "close") || len(e.args) > 0 && !fromWire(e.args) {
				continue
			}
			c.bad("reader", site, "the goroutine that reads the connection may panic on some input: %s at %s", e.name, e.pos)
		}
	}
	c.atLeast("reader", 2, "connection reading goroutines")
}

func elemOf(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return t
}

// onlyConfig: the conditions depend on nothing but the integer arguments of f.
func onlyConfig(cs []*Term, f *ssa.Function) bool {
	cfg := map[string]bool{}
	for _, p := range f.Params {
		if isIntType(elemOf(p.Type())) && !isByteSlice(p.Type()) {
			cfg["arg:"+p.Name()] = true
		}
	}
	for _, c := range cs {
		if c.contains(func(t *Term) bool { return t.op == OSym && !cfg[strings.SplitN(t.name, ".", 2)[0]] }) {
			return false
		}
	}
	return true
}

// fromWire: the condition depends on what was received.
func fromWire(cs []*Term) bool {
	for _, c := range cs {
		if c.contains(func(t *Term) bool {
			return t.op == OSym && strings.HasPrefix(t.name, "nread") || t.op == OApp && (t.name == "stream" || strings.HasPrefix(t.name, "rd:") || t.name == "datagram") || t.op == OSym && strings.HasPrefix(t.name, "phi:")
		}) {
			return true
		}
	}
	return false
}

// readsConn: functions returning a received block from a net.Conn argument.
func (c *Check) readsConn(f *ssa.Function) bool {
	res := f.Signature.Results()
	if res.Len() < 2 || !isByteSlice(res.At(0).Type()) {
		return false
	}
	for _, p := range f.Params {
		ts := types.TypeString(p.Type(), nil)
		if ts == "net.Conn" || ts == "net.PacketConn" {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- C02

type frameParts struct {
	id, hl, bl *Term
	header     []*Term
	body       []*Term
	rest       []*Term
}

// parseFrame reads one frame of the documented layout from cs.
func parseFrame(f *Facts, cs []*Term) (*frameParts, string) {
	cs = trimSpare(cs)
	if len(cs) < 4 {
		return nil, "the message does not start with four 32-bit big-endian fields: " + seqStr(cs)
	}
	var v [4]*Term
	for i := 0; i < 4; i++ {
		switch {
		case cs[i].op == OApp && cs[i].name == "enc:be32":
			v[i] = cs[i].args[0]
		default:
			return nil, fmt.Sprintf("field %d of the message head is not a 32-bit big-endian number: %s", i, cs[i])
		}
	}
	eq := func(a, b *Term) bool { return a == b || f.entails(EqI(a, b)) }
	p := &frameParts{id: v[1], hl: v[2], bl: v[3]}
	if !eq(v[0], AddC(Add(v[2], v[3]), 12)) {
		return nil, fmt.Sprintf("the length field is %s, not 12 + header length + body length", v[0])
	}
	rest := cs[4:]
	take := func(n *Term) ([]*Term, bool) {
		var out []*Term
		for {
			if eq(seqLen(out), n) {
				return out, true
			}
			if len(rest) == 0 {
				return nil, false
			}
			out = append(out, rest[0])
			rest = rest[1:]
		}
	}
	var ok bool
	if p.header, ok = take(v[2]); !ok {
		return nil, fmt.Sprintf("the header length field %s does not match what follows: %s", v[2], seqStr(cs[4:]))
	}
	if p.body, ok = take(v[3]); !ok {
		return nil, fmt.Sprintf("the body length field %s does not match what follows: %s", v[3], seqStr(cs[4:]))
	}
	p.rest = rest
	return p, ""
}

// bytesOf returns the value whose bytes the chunks are, if they are exactly those.
func bytesOf(cs []*Term) *Term {
	if len(cs) != 1 || !cs[0].isApp("region") {
		return nil
	}
	a := cs[0].args[0]
	if !a.isApp("arr") || cs[0].args[1] != Int(0) {
		return nil
	}
	v := a.args[0]
	if cs[0].args[2] != App("len", tInt, v) {
		if l, ok := cs[0].args[2], false; !ok && !(l.isApp("len") && l.args[0] == v) {
			return nil
		}
	}
	return v
}

func isU32(v, of *Term) bool {
	if v == of {
		return true
	}
	return v.op == OApp && v.name == "conv:uint32" && v.args[0] == of
}

func ruleLayout(c *Check) {
	c.encoders()
	c.decoders()
}

type encSpec struct {
	name                string
	id, hdr, body, mars func(a []*Term, st *State) *Term // expectations; nil result: none
	bodyRaw             bool
}

func (c *Check) encoders() {
	type want struct {
		id      *Term
		hdr     *Term // header value, nil: not checked
		body    *Term // value to be marshalled
		mars    *Term
		raw     *Term // body bytes
		anyMars bool
	}
	msg := func(m *Term) (id, hdr, body *Term) { return m.args[0], m.args[1], m.args[2] }
	nameMarshal := map[string]string{"json": "JsonMarshaller", "xml": "XmlMarshaller", "toml": "TomlMarshaller", "yaml": "YamlMarshaller", "protobuf": "ProtobufMarshaller"}
	_ = nameMarshal
	run := func(name string, w func(a []*Term) want) {
		f := c.fn(name)
		if f == nil {
			return
		}
		it := c.interp()
		args := symArgs(f)
		ww := w(args)
		for _, o := range c.entry(it, f, args, newState()) {
			if o.kind != 'r' {
				continue
			}
			n := len(o.vals)
			if n == 2 {
				switch o.st.f.isNil(o.vals[1]) {
				case -1:
					c.that(o.vals[0] == nilSlice || o.vals[0].op == OSlice && o.st.f.entails(EqI(o.vals[0].args[2], Int(0))), "error-or-message", name, "%s returns a message together with an error", name)
					continue
				case 0:
					c.bad("error-or-message", name, "%s: cannot tell whether it failed", name)
					continue
				}
			}
			fp, why := parseFrame(o.st.f, o.st.sliceContent(o.vals[0]))
			if fp == nil {
				c.bad("layout", name, "%s: %s", name, why)
				continue
			}
			c.ok("layout", name)
			c.that(len(fp.rest) == 0, "layout", name, "%s appends bytes after the body: %s", name, seqStr(fp.rest))
			c.that(isU32(fp.id, ww.id), "message-id", name, "%s encodes %s instead of the message id %s", name, fp.id, ww.id)
			// header: the JSON of the given header
			hv := bytesOf(fp.header)
			switch {
			case ww.hdr == nil:
			case hv == nil || hv.name != "json":
				c.that(len(fp.header) == 0 && o.st.f.isNil(ww.hdr) == 1, "header", name, "%s does not encode the header as its JSON: %s", name, seqStr(fp.header))
			default:
				x := hv.args[0]
				if x.op == OIface {
					x = x.args[0]
				}
				c.that(x == ww.hdr, "header", name, "%s encodes %s as header instead of the given one", name, x)
			}
			// body
			if ww.raw != nil {
				ok := false
				if len(fp.body) == 0 {
					ok = o.st.f.entails(EqI(ww.raw.args[2], Int(0)))
				} else {
					ok = Seq(fp.body...) == Seq(newState().sliceContent(ww.raw)...)
				}
				c.that(ok, "body", name, "%s does not carry the given body bytes unchanged: %s", name, seqStr(fp.body))
				continue
			}
			if ww.body != nil {
				if len(fp.body) == 0 {
					c.that(o.st.f.isNil(ww.body) == 1, "body", name, "%s drops a body that is not nil", name)
					continue
				}
				bv := bytesOf(fp.body)
				if bv == nil {
					c.bad("body", name, "%s does not carry the marshalled body: %s", name, seqStr(fp.body))
					continue
				}
				ok := false
				for _, a := range bv.args {
					x := a
					if x.op == OIface {
						x = x.args[0]
					}
					if a == ww.body || x == ww.body {
						ok = true
					}
				}
				c.that(ok, "body", name, "%s marshals %v instead of the given body", name, bv.args)
				if ww.mars != nil && bv.name == "marshal" {
					c.that(bv.args[0] == ww.mars, "marshaller", name, "%s marshals with another marshaller than the given one", name)
				} else if ww.mars != nil && !ww.anyMars {
					c.that(o.st.f.isNil(ww.mars) == 1 && bv.name == "json", "marshaller", name, "%s marshals with %s although a marshaller was given", name, bv.name)
				}
			}
		}
		c.atLeast("layout", 1, "encoder results")
	}
	none := Nil
	run("PackWithMarshaller", func(a []*Term) want {
		i, h, b := msg(a[0])
		return want{id: i, hdr: h, body: b, mars: a[1]}
	})
	run("PackWithMarshallerName", func(a []*Term) want {
		i, h, b := msg(a[0])
		return want{id: i, hdr: h, body: b}
	})
	run("Message.Pack", func(a []*Term) want {
		i, h, b := msg(a[0])
		return want{id: i, hdr: h, body: b, mars: a[1]}
	})
	run("PackWithMarshallerAndBody", func(a []*Term) want {
		i, h, _ := msg(a[0])
		return want{id: i, hdr: h, raw: a[1]}
	})
	run("Pack", func(a []*Term) want { return want{id: a[0], hdr: a[1], body: a[2], mars: a[3]} })
	run("Packx.Pack", func(a []*Term) want {
		return want{id: a[1], body: a[2], mars: a[0].args[0]}
	})
	run("Packx.PackWithBody", func(a []*Term) want { return want{id: a[1], raw: a[2]} })
	run("PackStuff", func(a []*Term) want { return want{id: a[0], raw: nilSlice} })
	if k := c.p.types.Scope().Lookup("DEFAULT_HEARTBEAT_MESSAGEID"); k != nil {
		run("PackHeartbeat", func(a []*Term) want { return want{id: constOf(k), raw: nilSlice} })
	}
	_ = none
	c.atLeast("layout", 9, "encoders")
	c.mergedHeaders()
}

func constOf(o types.Object) *Term {
	k, ok := o.(*types.Const)
	if !ok {
		return nil
	}
	return constTerm(ssa.NewConst(k.Val(), k.Type()))
}

// mergedHeaders: the variadic headers of Pack are all merged, later ones winning.
func (c *Check) mergedHeaders() {
	for _, name := range []string{"Packx.Pack", "Packx.PackWithBody"} {
		f := c.fn(name)
		if f == nil {
			continue
		}
		it := c.interp()
		args := symArgs(f)
		hs := args[len(args)-1]
		for _, o := range c.entry(it, f, args, newState()) {
			if o.kind != 'r' || len(o.vals) < 2 || o.st.f.isNil(o.vals[1]) != 1 {
				continue
			}
			fp, _ := parseFrame(o.st.f, o.st.sliceContent(o.vals[0]))
			if fp == nil {
				continue
			}
			hv := bytesOf(fp.header)
			if hv == nil {
				c.bad("merged-headers", name, "%s does not encode its headers as JSON", name)
				continue
			}
			// either there are no headers, or the encoded map holds every key of every one
			if o.st.f.entails(EqI(hs.args[2], Int(0))) {
				c.ok("merged-headers", name)
				continue
			}
			if len(hv.args) > 1 && hv.args[1].op == OSeq && len(hv.args[1].args) == 1 && hv.args[1].args[0].loop != nil {
				c.that(mergeLoop(hv.args[1].args[0], hs), "merged-headers", name, "%s does not copy every key of every header: %s", name, seqStr(hv.args[1].args))
				continue
			}
			if len(hv.args) > 1 && hv.args[1].op == OSeq && len(hv.args[1].args) == 0 && o.st.f.holds(Lt(Int(0), hs.args[2])) == 0 {
				c.ok("merged-headers", name)
				continue
			}
			c.bad("merged-headers", name, "%s encodes %v, which is not the merge of the given headers", name, hv.args)
		}
	}
	c.atLeast("merged-headers", 2, "packers with headers")
}

// mergeLoop: for each header of hs, for each key k: put(k, value of k in that header).
func mergeLoop(l *Term, hs *Term) bool {
	// over all of hs
	if l.args[0] != hs.args[2] {
		return false
	}
	n := 0
	for _, al := range l.loop.alts {
		for _, ch := range al.chunks {
			if ch.loop == nil {
				return false
			}
			for _, in := range ch.loop.alts {
				if len(in.chunks) != 1 || !in.chunks[0].isApp("put") {
					return false
				}
				k, v := in.chunks[0].args[0], in.chunks[0].args[1]
				if !(k.op == OApp && v.op == OApp) || k.name != "mapkey" || v.name != "mapval" || len(k.args) != len(v.args) {
					return false
				}
				for i := range k.args {
					if k.args[i] != v.args[i] {
						return false
					}
				}
				n++
			}
		}
	}
	return n == 1
}

// decoders: on every well-formed message the accessors return exactly the parts it was made of.
func (c *Check) decoders() {
	mk := func() (*State, *Term, *Term, *Term, *Term, *Term, *Term) {
		st := newState()
		h, b := Sym("h", tInt), Sym("b", tInt)
		ha, ba := App("arr", nil, Sym("H", nil)), App("arr", nil, Sym("B", nil))
		id := Sym("id", types.Typ[types.Int32])
		st.leFact(Int(0), h)
		st.leFact(Int(0), b)
		st.leFact(h, Int(1<<30))
		st.leFact(b, Int(1<<30))
		n := AddC(Add(h, b), 16)
		o := intern(Term{op: OObj, name: "wire", typ: types.NewArray(types.Typ[types.Byte], 0), flag: FFresh})
		st.mem[o] = Seq(seqNormF(st.f, []*Term{chEnc("be32", AddC(Add(h, b), 12)), chEnc("be32", App("conv:uint32", types.Typ[types.Uint32], id)), chEnc("be32", h), chEnc("be32", b), chRegion(ha, Int(0), h), chRegion(ba, Int(0), b)})...)
		// range of the length field as a uint32 that fits in an int32
		st.leFact(AddC(Add(h, b), 12), Int(1<<31-1))
		return st, mkSlice(o, Int(0), n, n, False), id, h, b, chRegion(ha, Int(0), h), chRegion(ba, Int(0), b)
	}
	noErr := func(name string, o Outcome, e *Term) bool {
		switch o.st.f.isNil(e) {
		case 1:
			return true
		case -1:
			// only the codec may refuse
			for _, l := range errLeaves(e) {
				c.that(strings.HasPrefix(l.name, "err:"), "accepts", name, "%s refuses a well-formed message: %s", name, l)
			}
			return false
		}
		c.bad("accepts", name, "%s: cannot tell whether it refuses a well-formed message", name)
		return false
	}
	sameBytes := func(st *State, got *Term, want *Term) bool {
		if got.op != OSlice {
			return false
		}
		cs := st.sliceContent(got)
		n := want.args[2]
		if len(cs) == 0 {
			return st.f.entails(EqI(n, Int(0)))
		}
		return len(cs) == 1 && cs[0] == want
	}
	run := func(name string, arg int, chk func(st *State, vals []*Term, id, h, b, H, B *Term)) {
		f := c.fn(name)
		if f == nil {
			return
		}
		it := c.interp()
		st, stream, id, h, b, H, B := mk()
		args := symArgs(f)
		args[arg] = stream
		if pt, ok := f.Params[arg].Type().(*types.Pointer); ok { // *PackType
			o := intern(Term{op: OObj, name: "packtype", typ: pt.Elem(), flag: FFresh})
			st.store(o, pt.Elem(), stream)
			args[arg] = o
		}
		it.onEvent = func(it *Interp, st *State, ev *Event) {
			if ev.kind == "unmarshal" && it.trial == 0 {
				cs := nonEmpty(st, ev.elems)
				what := "body"
				if ev.name == "json" && ev.args[2].op == OIface && strings.Contains(types.TypeString(ev.args[2].typ, nil), "map[string]") {
					what = "header"
					if c.p.prog != nil {
						c.that(len(cs) == 1 && cs[0] == H || len(cs) == 0, "parts", name, "%s decodes other bytes than the header as header: %s", name, seqStr(cs))
					}
				} else {
					c.that(len(cs) == 1 && cs[0] == B || (len(cs) == 0 && st.f.entails(EqI(b, Int(0)))), "parts", name, "%s decodes other bytes than the body as body: %s", name, seqStr(cs))
				}
				_ = what
			}
		}
		n := 0
		for _, o := range c.entry(it, f, args, st) {
			if o.kind != 'r' {
				c.bad("accepts", name, "%s panics on a well-formed message", name)
				continue
			}
			if len(o.vals) > 0 && !noErr(name, o, o.vals[len(o.vals)-1]) {
				continue
			}
			n++
			chk(o.st, o.vals, id, h, b, H, B)
		}
		c.that(n > 0, "accepts", name, "%s never accepts a well-formed message", name)
	}
	eq := func(st *State, a, b *Term) bool {
		if a.op == OApp && strings.HasPrefix(a.name, "conv:") && a.args[0].op == OApp && strings.HasPrefix(a.args[0].name, "conv:") {
			a = a.args[0].args[0]
		}
		return a == b || (isIntLike(a) && st.f.entails(EqI(a, b)))
	}
	type chk = func(st *State, vals []*Term, id, h, b, H, B *Term)
	num := func(name string, pick func(id, h, b *Term) *Term) (string, chk) {
		return name, func(st *State, v []*Term, id, h, b, H, B *Term) {
			w := pick(id, h, b)
			c.that(eq(st, v[0], w), "parts", name, "%s returns %s instead of %s", name, v[0], w)
		}
	}
	pre := []string{"", "Packx."}
	for i, p := range pre {
		n, k := num(p+"MessageIDOf", func(id, h, b *Term) *Term { return id })
		run(n, i, k)
		n, k = num(p+"LengthOf", func(id, h, b *Term) *Term { return AddC(Add(h, b), 12) })
		run(n, i, k)
		n, k = num(p+"HeaderLengthOf", func(id, h, b *Term) *Term { return h })
		run(n, i, k)
		n, k = num(p+"BodyLengthOf", func(id, h, b *Term) *Term { return b })
		run(n, i, k)
		run(p+"HeaderBytesOf", i, func(st *State, v []*Term, id, h, b, H, B *Term) {
			c.that(sameBytes(st, v[0], H), "parts", p+"HeaderBytesOf", "HeaderBytesOf does not return the header bytes: %s", seqStr(st.sliceContent(v[0])))
		})
		run(p+"BodyBytesOf", i, func(st *State, v []*Term, id, h, b, H, B *Term) {
			c.that(sameBytes(st, v[0], B), "parts", p+"BodyBytesOf", "BodyBytesOf does not return the body bytes: %s", seqStr(st.sliceContent(v[0])))
		})
		run(p+"HeaderOf", i, func(st *State, v []*Term, id, h, b, H, B *Term) {
			c.that(headerIs(st, v[0], h, H), "parts", p+"HeaderOf", "HeaderOf does not return the decoded header: %s", v[0])
		})
		run(p+"FirstBlockOfBytes", i, func(st *State, v []*Term, id, h, b, H, B *Term) {
			c.that(v[0].op == OSlice && eq(st, v[0].args[2], AddC(Add(h, b), 16)) && v[0].args[1] == Int(0), "parts", p+"FirstBlockOfBytes", "FirstBlockOfBytes does not return the whole message: %s", v[0])
		})
	}
	msgOf := func(name string) chk {
		return func(st *State, v []*Term, id, h, b, H, B *Term) {
			m := v[0]
			if m.op != OStruct {
				c.bad("parts", name, "%s returns an unknown message", name)
				return
			}
			c.that(eq(st, m.args[0], id), "parts", name, "%s returns message id %s instead of %s", name, m.args[0], id)
			c.that(headerIs(st, m.args[1], h, H), "parts", name, "%s does not return the decoded header: %s", name, m.args[1])
		}
	}
	run("UnpackWithMarshaller", 0, msgOf("UnpackWithMarshaller"))
	run("Packx.Unpack", 1, msgOf("Packx.Unpack"))
	run("PackType.MessageID", 0, func(st *State, v []*Term, id, h, b, H, B *Term) {
		c.that(eq(st, v[0], id), "parts", "PackType.MessageID", "PackType.MessageID returns %s instead of %s", v[0], id)
	})
	for _, m := range []string{"BindJSON", "BindXML", "BindTOML", "BindYAML", "BindProtobuf"} {
		run("PackType."+m, 0, func(st *State, v []*Term, id, h, b, H, B *Term) {})
	}
	c.atLeast("parts", 24, "decoders")
}

func headerIs(st *State, v, h, H *Term) bool {
	if v == Nil || st.f.isNil(v) == 1 {
		return st.f.entails(EqI(h, Int(0)))
	}
	// decoded from exactly the header bytes
	if v.op == OApp && v.name == "json" && len(v.args) == 1 && v.args[0].op == OSeq {
		cs := v.args[0].args
		return len(cs) == 1 && cs[0] == H || len(cs) == 0 && st.f.entails(EqI(h, Int(0)))
	}
	return false
}

// ---------------------------------------------------------------- C03

func ruleFraming(c *Check) {
	type rd struct {
		name string
		arg  int
	}
	n := 0
	for _, f := range c.exported() {
		// functions that take the next message off a reader
		ri := -1
		for i, p := range f.Params {
			ts := types.TypeString(p.Type(), nil)
			if ts == "io.Reader" || ts == "net.Conn" {
				ri = i
			}
		}
		if ri < 0 || f.Signature.Results().Len() < 2 || !isErrType(f.Signature.Results().At(f.Signature.Results().Len()-1).Type()) {
			continue
		}
		res := f.Signature.Results()
		whole := isByteSlice(res.At(0).Type())
		if !whole && !(res.Len() == 4 && isByteSlice(res.At(2).Type())) {
			continue
		}
		n++
		name := fnName(f)
		it := c.interp()
		args := symArgs(f)
		r := args[ri]
		st := newState()
		good := 0
		for _, o := range c.entry(it, f, args, st) {
			if o.kind != 'r' {
				c.bad("exact-block", name, "%s may panic", name)
				continue
			}
			e := o.vals[len(o.vals)-1]
			isn := o.st.f.isNil(e)
			if isn == -1 {
				continue
			}
			if isn == 0 {
				c.bad("exact-block", name, "%s: cannot tell failure from success", name)
				continue
			}
			good++
			c0 := App("consumed0", tInt, r)
			str := streamOf(r)
			ln := App("rd:be32", types.Typ[types.Uint32], str, c0)
			total := AddC(ln, 4)
			used := o.st.consumed(r)
			c.that(used == Add(c0, total) || o.st.f.entails(EqI(used, Add(c0, total))), "exact-consumption", name, "%s consumes %s of the stream, not exactly one message", name, Sub(used, c0))
			if whole {
				cs := o.st.sliceContent(o.vals[0])
				want := chRegion(str, c0, total)
				c.that(len(cs) == 1 && sameRegion(o.st, cs[0], want), "exact-block", name, "%s does not return exactly the next message: %s", name, seqStr(cs))
			} else {
				// id, header, body of the next message
				id := App("rd:be32", types.Typ[types.Uint32], str, AddC(c0, 4))
				c.that(o.vals[0] == App("conv:int32", types.Typ[types.Int32], id), "exact-block", name, "%s does not return the id of the next message: %s", name, o.vals[0])
				h := App("rd:be32", types.Typ[types.Uint32], str, AddC(c0, 8))
				b := App("rd:be32", types.Typ[types.Uint32], str, AddC(c0, 12))
				cs := o.st.sliceContent(o.vals[2])
				want := chRegion(str, Add(AddC(c0, 16), h), b)
				c.that(len(cs) == 1 && sameRegion(o.st, cs[0], want) || len(cs) == 0 && o.st.f.entails(EqI(b, Int(0))), "exact-block", name, "%s does not return the body of the next message: %s", name, seqStr(cs))
			}
		}
		c.that(good > 0, "exact-block", name, "%s never succeeds", name)
	}
	c.atLeast("exact-block", 6, "functions taking a message off a reader")
	c.atLeast("exact-consumption", 6, "functions taking a message off a reader")
	c.serverFraming()
}

// nonEmpty drops the chunks that are known to be empty.
func nonEmpty(st *State, cs []*Term) []*Term {
	var out []*Term
	for _, x := range cs {
		if !st.f.entails(EqI(chunkLen(x), Int(0))) {
			out = append(out, x)
		}
	}
	return out
}

func sameRegion(st *State, a, b *Term) bool {
	return a == b || a.isApp("region") && b.isApp("region") && a.args[0] == b.args[0] && st.f.eqInt(a.args[1], b.args[1]) && st.f.eqInt(a.args[2], b.args[2])
}

func isErrType(t types.Type) bool { return types.TypeString(t, nil) == "error" }

// ---------------------------------------------------------------- C19
