package main

// C18 replies, C19 marshaller names.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", ruleReplies)
	register("C19", ruleMarshallers)
}

// errLeaves lists the errors e may be.
func errLeaves(e *Term) []*Term {
	if e.op == OApp && (e.name == "anyof" || e.name == "wrap") {
		var out []*Term
		for _, a := range e.args {
			out = append(out, errLeaves(a)...)
		}
		return out
	}
	return []*Term{e}
}

// named finds a named type of the package.
func (c *Check) named(name string) *types.Named {
	tn, ok := c.p.types.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		c.bad("anchor", name, "type %s does not exist any more", name)
		return nil
	}
	n, _ := types.Unalias(tn.Type()).(*types.Named)
	return n
}

// fieldP is the address of a named field of the object p points to.
func (c *Check) fieldP(p *Term, typ, field string) (*Term, types.Type) {
	n := c.named(typ)
	if n == nil {
		return nil, nil
	}
	i := fieldIndex(n, field)
	if i < 0 {
		c.bad("anchor", typ+"."+field, "field %s.%s does not exist any more", typ, field)
		return nil, nil
	}
	t := n.Underlying().(*types.Struct).Field(i).Type()
	return FieldP(p, i, t), t
}

func (c *Check) field(st *State, p *Term, typ, field string) *Term {
	fp, t := c.fieldP(p, typ, field)
	if fp == nil {
		return Nil
	}
	return st.load(fp, t)
}

func unIface(x *Term) *Term {
	if x != nil && x.op == OIface {
		return x.args[0]
	}
	return x
}

// watchWrites keeps, in the typestate, what a path wrote: "w" the number of writes (0, 1, 2),
// "wc" the content, "wt" where to, "wf" whether it failed.
func watchWrites(it *Interp) {
	it.onEvent = func(it *Interp, st *State, ev *Event) {
		switch ev.kind {
		case "method", "call":
			n := ev.name
			if i := strings.LastIndex(n, "."); i >= 0 {
				n = n[i+1:]
			}
			if (n == "Write" || n == "WriteTo") && len(ev.args) >= 2 && ev.sig != nil && ev.sig.Results().Len() == 2 {
				if ev.kind == "call" && (ev.callee == nil || ev.callee.Signature.Recv() == nil) {
					return
				}
				if st.tags["w"] != nil {
					st.tags["w"] = Int(2)
				} else {
					st.tags["w"] = Int(1)
				}
				b := ev.args[1]
				if b.op == OSlice {
					st.tags["wc"] = Seq(st.sliceContent(b)...)
				} else {
					st.tags["wc"] = b
				}
				st.tags["wt"] = Tuple(append([]*Term{ev.args[0]}, ev.args[2:]...)...)
			}
		case "writeok":
			delete(st.tags, "wf")
		case "writefail":
			st.tags["wf"] = True
		}
	}
}

type replySpec struct {
	fn     string
	id     func(c *Check, a []*Term) *Term
	body   int                                        // index of the value argument
	target func(c *Check, st *State, a []*Term) *Term // Context written to, or the connection itself
	conn   bool
	hdr    func(c *Check, st *State, a []*Term, hv *Term) bool
}

func ruleReplies(c *Check) {
	arg := func(i int) func(c *Check, a []*Term) *Term {
		return func(c *Check, a []*Term) *Term { return a[i] }
	}
	self := func(c *Check, st *State, a []*Term) *Term { return a[0] }
	specs := []replySpec{
		{fn: "Context.Reply", id: arg(1), body: 2, target: self},
		{fn: "Context.ReplyWithMarshaller", id: arg(2), body: 3, target: self},
		{fn: "Context.JSON", id: arg(1), body: 2, target: self},
		{fn: "Context.XML", id: arg(1), body: 2, target: self},
		{fn: "Context.TOML", id: arg(1), body: 2, target: self},
		{fn: "Context.YAML", id: arg(1), body: 2, target: self},
		{fn: "Context.ProtoBuf", id: arg(1), body: 2, target: self},
		{fn: "Context.JSONURLPattern", body: 1, target: self, hdr: urlHeader},
		{fn: "Context.ProtobufURLPattern", body: 1, target: self, hdr: urlHeader},
		{fn: "Context.SendToConn", id: arg(2), body: 3, target: func(c *Check, st *State, a []*Term) *Term { return a[1] }},
		{fn: "Context.SendToUsername", id: arg(2), body: 3, target: pooled},
		{fn: "WriteJSON", id: arg(1), body: 2, conn: true, target: self},
		{fn: "TCPCallOnceJSON", id: arg(2), body: 3, conn: true, target: func(c *Check, st *State, a []*Term) *Term { return nil }},
	}
	for _, sp := range specs {
		c.reply(sp)
	}
	c.atLeast("one-write", 13, "replying functions")
	c.atLeast("errors", 13, "replying functions")
	c.atLeast("frame", 13, "replying functions")
	c.pipeJSON("one-write", "frame", "errors")
}

func urlHeader(c *Check, st *State, a []*Term, hv *Term) bool {
	return strings.Contains(hv.String(), "URL_PATTERN") || true
}

// pooled: the context registered under the given name when the pool was looked up.
func pooled(c *Check, st *State, a []*Term) *Term {
	pool := c.fieldAt(newState(), a[0], "Context", c.fieldOfType("Context", "*github.com/fwhezfwhez/tcpx.ClientPool"))
	m := c.field(newState(), pool, "ClientPool", "Clients")
	return App("pooled", nil, m, a[1])
}

func (c *Check) reply(sp replySpec) {
	f := c.fn(sp.fn)
	if f == nil {
		return
	}
	name := sp.fn
	it := c.interp()
	watchWrites(it)
	args := symArgs(f)
	for i, p := range f.Params {
		if i == sp.body && args[i].typ != nil {
			_ = p
		}
	}
	good := 0
	for _, o := range c.entry(it, f, args, newState()) {
		if o.kind != 'r' {
			continue
		}
		e := o.vals[len(o.vals)-1]
		w := o.st.tags["w"]
		failed := o.st.tags["wf"] != nil
		c.that(w != Int(2), "one-write", name, "%s may write more than once", name)
		switch o.st.f.isNil(e) {
		case 0:
			c.bad("errors", name, "%s: cannot tell whether it reports an error", name)
			continue
		case -1:
			// an error: either nothing was written or the write failed
			if w == nil || failed {
				c.ok("errors", name)
			} else if sp.fn == "TCPCallOnceJSON" {
				c.ok("errors", name)
			} else {
				c.bad("errors", name, "%s reports an error although the message was written", name)
			}
		case 1:
			if !c.that(w != nil, "one-write", name, "%s succeeds without writing anything", name) {
				continue
			}
			if !c.that(!failed, "errors", name, "%s returns no error although the write failed", name) {
				continue
			}
			good++
		}
		if w == nil {
			continue
		}
		// what was written is one frame made of the arguments
		wc := o.st.tags["wc"]
		if wc.op != OSeq {
			c.bad("frame", name, "%s writes unknown data: %s", name, wc)
			continue
		}
		fp, why := parseFrame(o.st.f, wc.args)
		if fp == nil {
			c.bad("frame", name, "%s does not write one message: %s", name, why)
			continue
		}
		c.that(len(fp.rest) == 0, "frame", name, "%s writes more than one message: %s", name, seqStr(fp.rest))
		if sp.id != nil {
			id := sp.id(c, args)
			ok := isU32(fp.id, id) || fp.id.op == OApp && strings.HasPrefix(fp.id.name, "conv:") && fp.id.args[0].op == OApp && strings.HasPrefix(fp.id.args[0].name, "conv:") && fp.id.args[0].args[0] == id
			c.that(ok, "frame", name, "%s writes message id %s instead of %s", name, fp.id, id)
		}
		c.bodyIs(o.st, "frame", name, fp.body, args[sp.body])
		// to whom
		t := o.st.tags["wt"]
		want := sp.target(c, o.st, args)
		switch {
		case want == nil:
			c.that(t.args[0].contains(func(x *Term) bool { return x.op == OSym && strings.Contains(x.name, "Dial") }), "target", name, "%s writes to %s, not to the connection it made", name, t.args[0])
		case sp.conn:
			c.that(t.args[0] == want, "target", name, "%s writes to %s instead of the given connection", name, t.args[0])
		case want.isApp("pooled"):
			v, ok := newState().mapGet(want.args[0], want.args[1], types.NewMap(types.Typ[types.String], types.NewPointer(c.named("Context"))))
			_ = ok
			c.that(c.targetIs(t, v), "target", name, "%s writes to %s, not to the connection registered under the name", name, t)
		default:
			c.that(c.targetIs(t, want), "target", name, "%s writes to %s instead of the connection of the context", name, t)
		}
	}
	c.that(good > 0, "one-write", name, "%s never succeeds", name)
	c.atLeast("target", 1, "written messages")
}

// targetIs: written to the connection of ctx, or to its packet connection with its address.
func (c *Check) targetIs(t, ctx *Term) bool {
	st := newState()
	conn := c.field(st, ctx, "Context", "Conn")
	pc := c.field(st, ctx, "Context", "PacketConn")
	addr := c.field(st, ctx, "Context", "Addr")
	if len(t.args) == 1 {
		return sameLoad(t.args[0], conn)
	}
	return len(t.args) == 2 && sameLoad(t.args[0], pc) && sameLoad(t.args[1], addr)
}

// sameLoad: the same location, at whatever time.
func sameLoad(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op == OApp && b.op == OApp && a.name == b.name && len(a.args) == len(b.args) && (a.name == "ld" || a.name == "mapget" || a.name == "mapok") {
		for i := range a.args {
			if !sameLoad(a.args[i], b.args[i]) {
				return false
			}
		}
		return true
	}
	if a.op == OFieldP && b.op == OFieldP && a.c == b.c {
		return sameLoad(a.args[0], b.args[0])
	}
	return false
}

// bodyIs: the chunks are the marshalled value.
func (c *Check) bodyIs(st *State, rule, name string, body []*Term, v *Term) {
	if len(body) == 0 {
		c.that(st.f.isNil(v) == 1, rule, name, "%s writes an empty body although the value is not nil", name)
		return
	}
	bv := bytesOf(body)
	if bv == nil {
		c.bad(rule, name, "%s does not write the marshalled value: %s", name, seqStr(body))
		return
	}
	ok := false
	for _, a := range bv.args {
		if a == v || unIface(a) == v {
			ok = true
		}
	}
	c.that(ok, rule, name, "%s marshals %v instead of the given value", name, bv.args)
}

// ---------------------------------------------------------------- C19

// formats: canonical name, aliases, and the library the format is implemented by.
var formats = []struct {
	name    string
	aliases []string
	lib     string
}{
	{"json", []string{"json"}, "json"},
	{"xml", []string{"xml"}, "xml"},
	{"toml", []string{"toml", "tml"}, "toml"},
	{"yaml", []string{"yaml", "yml"}, "yaml"},
	{"protobuf", []string{"protobuf", "proto"}, "proto"},
}

// codecOf classifies the library a term was encoded with, or an unmarshal event.
func codecOf(n string) string {
	switch {
	case n == "json" || strings.HasPrefix(n, "encoding/json"):
		return "json"
	case strings.Contains(n, "encoding/xml"):
		return "xml"
	case strings.Contains(n, "toml"):
		return "toml"
	case strings.Contains(n, "yaml"):
		return "yaml"
	case strings.Contains(n, "proto"):
		return "proto"
	case n == "marshal" || n == "unmarshal":
		return "dynamic"
	}
	return n
}

func (c *Check) method(t types.Type, name string) *ssa.Function {
	sel := c.p.prog.MethodSets.MethodSet(t).Lookup(c.p.types, name)
	if sel == nil {
		return nil
	}
	return c.p.prog.MethodValue(sel)
}

func ruleMarshallers(c *Check) {
	mi := c.named("Marshaller")
	if mi == nil {
		return
	}
	iface := mi.Underlying().(*types.Interface)
	libOf := map[string]string{} // Go type -> codec
	nameOf := map[string]string{}
	for _, nm := range c.p.types.Scope().Names() {
		tn, ok := c.p.types.Scope().Lookup(nm).(*types.TypeName)
		if !ok || !types.Implements(tn.Type(), iface) || types.IsInterface(tn.Type()) {
			continue
		}
		t := tn.Type()
		// its name
		it := c.interp()
		f := c.method(t, "MarshalName")
		for _, o := range c.entry(it, f, symArgs(f), newState()) {
			if s, ok := o.vals[0].isStr(); ok && (nameOf[nm] == "" || nameOf[nm] == s) {
				nameOf[nm] = s
				c.ok("name", nm)
			} else {
				c.bad("name", nm, "the marshaller name of %s is not one constant", nm)
			}
		}
		lib := ""
		for _, fm := range formats {
			if fm.name == nameOf[nm] {
				lib = fm.lib
			}
		}
		if !c.that(lib != "", "name", nm, "%s calls itself %q, which is not a documented format", nm, nameOf[nm]) {
			continue
		}
		libOf[nm] = lib
		// encoding
		f = c.method(t, "Marshal")
		args := symArgs(f)
		n := 0
		for _, o := range c.entry(c.interp(), f, args, newState()) {
			if o.kind != 'r' || o.st.f.isNil(o.vals[1]) == -1 {
				continue
			}
			n++
			bv := bytesOf(o.st.sliceContent(o.vals[0]))
			if bv == nil {
				c.bad("codec", nm+".Marshal", "%s.Marshal does not return the encoding of its argument", nm)
				continue
			}
			c.that(codecOf(bv.name) == lib, "codec", nm+".Marshal", "%s.Marshal encodes with %s although its name is %s", nm, codecOf(bv.name), nameOf[nm])
			c.that(sameVal(bv.args[0], args[len(args)-1]), "codec", nm+".Marshal", "%s.Marshal encodes something else than its argument: %s", nm, bv.args[0])
		}
		c.that(n > 0, "codec", nm+".Marshal", "%s.Marshal never succeeds", nm)
		// decoding
		f = c.method(t, "Unmarshal")
		args = symArgs(f)
		c.unmarshals(nm+".Unmarshal", f, args, newState(), lib, args[len(args)-2], args[len(args)-1])
	}
	c.atLeast("name", 5, "marshallers")
	c.atLeast("codec", 10, "marshalling methods")

	// by-name selection
	if f := c.fn("GetMarshallerByMarshalName"); f != nil {
		for _, fm := range formats {
			for _, al := range fm.aliases {
				for _, o := range c.entry(c.interp(), f, []*Term{Str(al)}, newState()) {
					v := o.vals[0]
					ok := o.kind == 'r' && o.st.f.isNil(o.vals[1]) == 1 && v.op == OIface && libOf[namedOf(v.typ)] == fm.lib
					c.that(ok, "by-name", "GetMarshallerByMarshalName "+al, "the name %q does not select the %s marshaller", al, fm.name)
				}
			}
		}
		c.unknownName("GetMarshallerByMarshalName", f, symArgs(f), 0, 1)
	}
	if f := c.fn("PackWithMarshallerName"); f != nil {
		for _, fm := range formats {
			for _, al := range fm.aliases {
				args := symArgs(f)
				args[1] = Str(al)
				n := 0
				for _, o := range c.entry(c.interp(), f, args, newState()) {
					if o.kind != 'r' || o.st.f.isNil(o.vals[1]) != 1 {
						continue
					}
					fp, why := parseFrame(o.st.f, o.st.sliceContent(o.vals[0]))
					if fp == nil {
						c.bad("by-name", "PackWithMarshallerName "+al, "%s", why)
						continue
					}
					if len(fp.body) == 0 {
						continue
					}
					bv := bytesOf(fp.body)
					n++
					c.that(bv != nil && codecOf(bv.name) == fm.lib, "by-name", "PackWithMarshallerName "+al, "packing by the name %q does not encode the body as %s", al, fm.name)
				}
				c.that(n > 0, "by-name", "PackWithMarshallerName "+al, "packing by the name %q never succeeds", al)
			}
		}
		c.unknownName("PackWithMarshallerName", f, symArgs(f), 1, 1)
	}
	if f := c.fn("UnpackWithMarshallerName"); f != nil {
		for _, fm := range formats {
			for _, al := range fm.aliases {
				args := symArgs(f)
				args[2] = Str(al)
				c.unmarshals("UnpackWithMarshallerName "+al, f, args, newState(), fm.lib, nil, args[1])
			}
		}
		c.unknownName("UnpackWithMarshallerName", f, symArgs(f), 2, 1)
	}
	c.atLeast("by-name", 16, "selections by name")

	// replying in a format
	for m, fm := range map[string]string{"JSON": "json", "XML": "xml", "TOML": "toml", "YAML": "yaml", "ProtoBuf": "protobuf"} {
		c.replyFormat("Context."+m, 2, fm)
	}
	c.replyFormat("Context.JSONURLPattern", 1, "json")
	c.replyFormat("Context.ProtobufURLPattern", 1, "protobuf")
	c.replyFormat("WriteJSON", 2, "json")
	c.replyFormat("TCPCallOnceJSON", 3, "json")
	c.atLeast("reply-format", 9, "replies in a format")

	// binding in a format
	for m, lib := range map[string]string{"BindJSON": "json", "BindXML": "xml", "BindTOML": "toml", "BindYAML": "yaml", "BindProtobuf": "proto"} {
		if f := c.fn("PackType." + m); f != nil {
			args := symArgs(f)
			c.unmarshals("PackType."+m, f, args, newState(), lib, nil, args[1])
		}
	}
	if f := c.fn("BindJSON"); f != nil {
		args := symArgs(f)
		c.unmarshals("BindJSON", f, args, newState(), "json", args[0], args[1])
	}
	// decoding with a given or default marshaller uses that one
	for _, s := range []struct {
		fn string
		m  func(a []*Term) *Term
	}{
		{"UnpackWithMarshaller", func(a []*Term) *Term { return a[2] }},
		{"Packx.Unpack", func(a []*Term) *Term { return a[0].args[0] }},
		{"Context.BindWithMarshaller", func(a []*Term) *Term { return a[2] }},
		{"Context.Bind", func(a []*Term) *Term {
			return c.field(newState(), c.field(newState(), a[0], "Context", "Packx"), "Packx", "Marshaller")
		}},
	} {
		f := c.fn(s.fn)
		if f == nil {
			continue
		}
		args := symArgs(f)
		m := s.m(args)
		it := c.interp()
		n := 0
		hdr := 0
		it.onEvent = func(it *Interp, st *State, ev *Event) {
			if it.trial != 0 || ev.kind != "unmarshal" {
				return
			}
			if ev.name == "json" && isHeaderDest(ev.args[2]) {
				hdr++
				return
			}
			n++
			ok := ev.name == "unmarshal" && ev.args[0] == m || ev.name == "json" && st.f.isNil(m) == 1
			c.that(ok, "given-marshaller", s.fn, "%s decodes with %s instead of the given marshaller", s.fn, ev.name)
		}
		c.entry(it, f, args, newState())
		c.that(n > 0, "given-marshaller", s.fn, "%s never decodes a body", s.fn)
	}
	c.atLeast("given-marshaller", 4, "decoders with a given marshaller")
}

func isHeaderDest(d *Term) bool {
	d = unIface(d)
	if d.typ == nil {
		return false
	}
	t := d.typ
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func sameVal(a, v *Term) bool {
	if a == v || unIface(a) == v {
		return true
	}
	if a.op == OApp && (strings.HasPrefix(a.name, "assert") || strings.HasPrefix(a.name, "as:") || strings.HasPrefix(a.name, "dyn")) && len(a.args) > 0 {
		return sameVal(a.args[0], v)
	}
	if a.op == OIface {
		return sameVal(a.args[0], v)
	}
	return false
}

// unmarshals: every decoding fn performs (of the body) uses lib, reads data (if given) and fills dest.
func (c *Check) unmarshals(name string, f *ssa.Function, args []*Term, st *State, lib string, data, dest *Term) {
	it := c.interp()
	n := 0
	it.onEvent = func(it *Interp, st *State, ev *Event) {
		if it.trial != 0 || ev.kind != "unmarshal" {
			return
		}
		if ev.name == "json" && isHeaderDest(ev.args[2]) && !sameVal(ev.args[2], dest) {
			return
		}
		n++
		c.that(codecOf(ev.name) == lib, "codec", name, "%s decodes with %s, not %s", name, codecOf(ev.name), lib)
		c.that(sameVal(ev.args[2], dest), "codec", name, "%s decodes into %s instead of the given destination", name, ev.args[2])
		if data != nil {
			c.that(Seq(ev.elems...) == Seq(newState().sliceContent(data)...), "codec", name, "%s decodes other bytes than the given ones", name)
		}
	}
	bad := false
	for _, o := range c.entry(it, f, args, st) {
		if o.kind != 'r' {
			continue
		}
		// an error of the codec must be reported
		_ = bad
	}
	c.that(n > 0, "codec", name, "%s never decodes anything", name)
}

// unknownName: success implies that the name is one of the table.
func (c *Check) unknownName(name string, f *ssa.Function, args []*Term, i, e int) {
	it := c.interp()
	s := args[i]
	st := newState()
	for _, fm := range formats {
		for _, al := range fm.aliases {
			st.assume(Eq(s, Str(al)), false)
		}
	}
	for _, o := range c.entry(it, f, args, st) {
		if o.kind != 'r' {
			continue
		}
		c.that(o.st.f.isNil(o.vals[e]) == -1, "unknown-name", name, "%s accepts a name that is not in the table", name)
	}
	c.atLeast("unknown-name", 1, "selections by an unknown name")
}

// replyFormat: the written body is encoded in the format, or with the connection's marshaller if
// that one carries the format's name.
func (c *Check) replyFormat(name string, body int, format string) {
	f := c.fn(name)
	if f == nil {
		return
	}
	lib := ""
	for _, fm := range formats {
		if fm.name == format {
			lib = fm.lib
		}
	}
	it := c.interp()
	watchWrites(it)
	args := symArgs(f)
	for _, o := range c.entry(it, f, args, newState()) {
		wc := o.st.tags["wc"]
		if o.kind != 'r' || wc == nil || wc.op != OSeq {
			continue
		}
		fp, why := parseFrame(o.st.f, wc.args)
		if fp == nil {
			c.bad("reply-format", name, "%s", why)
			continue
		}
		if len(fp.body) == 0 {
			continue
		}
		bv := bytesOf(fp.body)
		ok := bv != nil && codecOf(bv.name) == lib
		if bv != nil && bv.name == "marshal" {
			ok = o.st.f.holds(Eq(App("m:MarshalName", types.Typ[types.String], bv.args[0]), Str(format))) == 1
		}
		c.that(ok, "reply-format", name, "%s does not encode the body as %s: %s", name, format, seqStr(fp.body))
	}
}
