package main

// Models of the standard library and of the third-party functions the package uses.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var (
	tInt    = types.Typ[types.Int]
	tBool   = types.Typ[types.Bool]
	tString = types.Typ[types.String]
	tErr    = types.Universe.Lookup("error").Type()
)

func (it *Interp) errTerm(in ssa.Instruction, what string) *Term {
	return it.freshNN(in, "err:"+what, tErr)
}

// eqFact adds a==b.
func (s *State) eqFact(a, b *Term) {
	d := Sub(a, b)
	f := s.f.clone()
	f.addIneq(d)
	f.addIneq(MulC(d, -1))
	s.f = f
}
func (s *State) leFact(a, b *Term) {
	f := s.f.clone()
	f.addIneq(Sub(a, b))
	s.f = f
}

// ---------------------------------------------------------------- readers

func streamOf(r *Term) *Term    { return App("stream", nil, r) }
func consumedKey(r *Term) *Term { return App("consumed", tInt, r) }

func (s *State) consumed(r *Term) *Term {
	if v, ok := s.mem[consumedKey(r)]; ok {
		return v
	}
	return App("consumed0", tInt, r)
}

func (it *Interp) readInto(st *State, r, buf, n *Term) {
	c := st.consumed(r)
	st.writeSlice(buf, seqNormF(st.f, []*Term{chRegion(streamOf(r), c, n)}))
	st.mem[consumedKey(r)] = Add(c, n)
}

func (it *Interp) modelRead(st *State, r, buf *Term, in ssa.Instruction) []Outcome {
	n := it.freshAtom(in, "nread", tInt, false)
	st.leFact(Int(0), n)
	st.leFact(n, buf.args[2])
	it.readInto(st, r, buf, n)
	if it.goodReads {
		return ret(st, n, Nil)
	}
	return ret(st, n, it.fresh(in, "readerr", tErr))
}

// ---------------------------------------------------------------- interface methods

func (it *Interp) modelMethod(st *State, name string, recv *Term, args []*Term, sig *types.Signature, in ssa.Instruction) ([]Outcome, bool) {
	np, nr := sig.Params().Len(), sig.Results().Len()
	ps := func(i int) string { return types.TypeString(sig.Params().At(i).Type(), nil) }
	switch {
	case name == "Read" && np == 1 && ps(0) == "[]byte" && nr == 2:
		return it.modelRead(st, recv, typed(args[0], sig.Params().At(0).Type()), in), true
	case name == "Write" && np == 1 && ps(0) == "[]byte" && nr == 2:
		buf := typed(args[0], sig.Params().At(0).Type())
		return it.modelWrite(st, buf, in), true
	case name == "WriteTo" && np == 2 && ps(0) == "[]byte" && nr == 2:
		buf := typed(args[0], sig.Params().At(0).Type())
		return it.modelWrite(st, buf, in), true
	case name == "ReadFrom" && np == 1 && ps(0) == "[]byte" && nr == 3:
		buf := typed(args[0], sig.Params().At(0).Type())
		bad := st.clone()
		n := it.freshAtom(in, "nread", tInt, false)
		st.leFact(Int(0), n)
		st.leFact(n, buf.args[2])
		d := it.freshAtom(in, "datagram", nil, false)
		st.writeSlice(buf, seqNormF(st.f, []*Term{chRegion(App("datagram", nil, d), Int(0), n)}))
		addr := App("addrof", sig.Results().At(1).Type(), d)
		addr.flag |= FNonNil
		// failure: nothing usable
		nb := it.freshAtom(in, "nreadbad", tInt, false)
		bad.leFact(Int(0), nb)
		bad.leFact(nb, buf.args[2])
		it.emit(st, &Event{kind: "datagram", instr: in, args: []*Term{recv, d, n, addr}})
		er := it.errTerm(in, "ReadFrom")
		it.emit(bad, &Event{kind: "err", name: "ReadFrom", instr: in, args: []*Term{er}})
		return []Outcome{{kind: 'r', vals: []*Term{n, addr, Nil}, st: st},
			{kind: 'r', vals: []*Term{nb, it.fresh(in, "badaddr", sig.Results().At(1).Type()), er}, st: bad}}, true
	case name == "Marshal" && nr == 2:
		return it.pureBytes(st, "marshal", append([]*Term{recv}, it.valueKey(st, args)...), in), true
	case name == "Unmarshal" && np == 2 && nr == 1:
		return it.unmarshal(st, "unmarshal", recv, typed(args[0], sig.Params().At(0).Type()), args[1], in), true
	case name == "Error" || name == "String" || name == "MarshalName" || name == "Network":
		if np == 0 && nr == 1 {
			return ret(st, App("m:"+name, sig.Results().At(0).Type(), recv)), true
		}
	case name == "RemoteAddr" || name == "LocalAddr" || name == "Addr":
		if np == 0 && nr == 1 {
			return ret(st, AppNN("m:"+name, sig.Results().At(0).Type(), recv)), true
		}
	case name == "Lock" || name == "Unlock":
		if np == 0 {
			return it.lockOp(st, name, recv, in), true
		}
	case name == "Kind" || name == "Name":
		return ret(st, App("m:"+name, sig.Results().At(0).Type(), recv)), true
	}
	return nil, false
}

func (it *Interp) modelWrite(st *State, buf *Term, in ssa.Instruction) []Outcome {
	bad := st.clone()
	n := it.freshAtom(in, "nwritten", tInt, false)
	bad.leFact(Int(0), n)
	bad.leFact(n, buf.args[2])
	e := it.errTerm(in, "Write")
	it.emit(st, &Event{kind: "writeok", instr: in, args: []*Term{buf}})
	it.emit(bad, &Event{kind: "writefail", instr: in, args: []*Term{buf, e}})
	return []Outcome{{kind: 'r', vals: []*Term{buf.args[2], Nil}, st: st}, {kind: 'r', vals: []*Term{n, e}, st: bad}}
}

// valueKey makes arguments of pure functions independent of later mutation.
func (it *Interp) valueKey(st *State, args []*Term) []*Term {
	var out []*Term
	for _, a := range args {
		v := a
		if a.op == OIface {
			v = a.args[0]
		}
		if v.op == OObj {
			if c, ok := st.mem[v]; ok && c.op == OSeq {
				out = append(out, a, c)
				continue
			}
		}
		if v.op == OSlice {
			out = append(out, Seq(st.sliceContent(v)...), v.args[2])
			continue
		}
		out = append(out, a)
	}
	return out
}

func (it *Interp) pureBytes(st *State, name string, key []*Term, in ssa.Instruction) []Outcome {
	bad := st.clone()
	bt := types.NewSlice(types.Typ[types.Byte])
	b := typed(AppNN(name, bt, key...), bt)
	return []Outcome{{kind: 'r', vals: []*Term{b, Nil}, st: st}, {kind: 'r', vals: []*Term{nilSlice, it.errTerm(in, name)}, st: bad}}
}

func (it *Interp) unmarshal(st *State, name string, recv, data, dest *Term, in ssa.Instruction) []Outcome {
	it.emit(st, &Event{kind: "unmarshal", instr: in, name: name, args: []*Term{recv, data, dest}, elems: st.sliceContent(data)})
	bad := st.clone()
	put := func(s *State, good bool) {
		p := dest
		if p.op == OIface {
			p = p.args[0]
		}
		if p.op == OObj || p.op == OFieldP {
			t := p.typ
			if t == nil {
				return
			}
			if good {
				s.store(p, t, typed(App(name, t, Seq(s.sliceContent(data)...)), t))
			} else {
				s.store(p, t, it.fresh(in, "partial", t))
			}
		}
	}
	// decoding the same bytes into the same type always ends the same way
	if p := unIface(dest); p.typ != nil && (p.op == OObj || p.op == OFieldP) {
		okT := App(name+"ok:"+types.TypeString(p.typ, nil), tBool, Seq(st.sliceContent(data)...))
		if !bad.assume(okT, false) {
			put(st, true)
			return []Outcome{{kind: 'r', vals: []*Term{Nil}, st: st}}
		}
		if !st.assume(okT, true) {
			put(bad, false)
			e := it.errTerm(in, name)
			it.emit(bad, &Event{kind: "unmarshalfail", instr: in, name: name, args: []*Term{e}})
			return []Outcome{{kind: 'r', vals: []*Term{e}, st: bad}}
		}
	}
	put(st, true)
	put(bad, false)
	e := it.errTerm(in, name)
	it.emit(bad, &Event{kind: "unmarshalfail", instr: in, name: name, args: []*Term{e}})
	return []Outcome{{kind: 'r', vals: []*Term{Nil}, st: st}, {kind: 'r', vals: []*Term{e}, st: bad}}
}

// ---------------------------------------------------------------- locks

func (it *Interp) lockOp(st *State, name string, mu *Term, in ssa.Instruction) []Outcome {
	mode := byte('w')
	acquire := true
	switch name {
	case "RLock":
		mode = 'r'
	case "Unlock":
		acquire = false
	case "RUnlock":
		mode, acquire = 'r', false
	}
	if acquire {
		it.emit(st, &Event{kind: "lock", instr: in, name: string(mode), args: []*Term{mu}})
		st.locks = append(st.locks[:len(st.locks):len(st.locks)], lockEntry{mu, mode, it.pos(in)})
		it.havocGuarded(st, mu)
		return ret(st)
	}
	it.emit(st, &Event{kind: "unlock", instr: in, name: string(mode), args: []*Term{mu}})
	for i := len(st.locks) - 1; i >= 0; i-- {
		if st.locks[i].lock == mu && st.locks[i].mode == mode {
			st.locks = append(append([]lockEntry{}, st.locks[:i]...), st.locks[i+1:]...)
			return ret(st)
		}
	}
	it.emit(st, &Event{kind: "badunlock", instr: in, name: string(mode), args: []*Term{mu}})
	// unlock of an unlocked mutex is fatal
	return []Outcome{{kind: 'p', vals: []*Term{AppNN("runtimeerror:unlock", nil)}, st: st}}
}

func (s *State) holds(mu *Term) byte {
	for _, l := range s.locks {
		if l.lock == mu {
			return l.mode
		}
	}
	return 0
}

// what each lock of the package protects: fields of the object that holds the lock, found by their types
// (the lifecycle state, the remembered endpoints and the broadcast channel of a server, the table of a pool, the
// shared on/off-line word of a connection).
func guardedFields(n *types.Named, field string) (idx []int) {
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	isLock := func(t types.Type) bool {
		x := types.TypeString(t, nil)
		return strings.HasSuffix(x, "sync.RWMutex") || strings.HasSuffix(x, "sync.Mutex")
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field && !isLock(s.Field(i).Type()) {
			return nil
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		t := types.TypeString(f.Type(), func(*types.Package) string { return "" })
		hit := false
		switch n.Obj().Name() {
		case "TcpX":
			_, ch := f.Type().Underlying().(*types.Chan)
			hit = !f.Exported() && (t == "int" || ch || t == "[]*PropertyCache")
		case "ClientPool":
			_, hit = f.Type().Underlying().(*types.Map)
		case "Context":
			hit = t == "*int"
		}
		if hit {
			idx = append(idx, i)
		}
	}
	return idx
}

func (it *Interp) ownerOf(mu *Term) (owner *Term, named *types.Named, field string) {
	// &x.m or the value of x.m
	p := mu
	if mu.isApp("ld") {
		p = mu.args[0]
	}
	if p.op != OFieldP {
		return nil, nil, ""
	}
	n := pointee(p.args[0])
	if n == nil {
		return nil, nil, ""
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok || int(p.c) >= st.NumFields() {
		return nil, nil, ""
	}
	return p.args[0], n, st.Field(int(p.c)).Name()
}

// pointee returns the named struct type an address term points to.
func pointee(p *Term) *types.Named {
	if p == nil || p.typ == nil {
		return nil
	}
	t := p.typ
	if p.op != OObj && p.op != OFieldP && p.op != OElemP {
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return nil
		}
		t = pt.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

func fieldIndex(n *types.Named, name string) int {
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// lockOwner finds the object whose lock mu is, also for locks that were stored in an object the
// analysis created itself.
func (it *Interp) lockOwner(st *State, mu *Term) (owner *Term, named *types.Named, field string) {
	if o, n, f := it.ownerOf(mu); o != nil {
		return o, n, f
	}
	for p, v := range st.mem {
		if v == mu && p.op == OFieldP {
			if n := pointee(p.args[0]); n != nil {
				s, _ := n.Underlying().(*types.Struct)
				if s != nil && int(p.c) < s.NumFields() && len(guardedFields(n, s.Field(int(p.c)).Name())) > 0 {
					// deterministic: prefer the smallest id
					if owner == nil || p.args[0].id < owner.id {
						owner, named, field = p.args[0], n, s.Field(int(p.c)).Name()
					}
				}
			}
		}
	}
	return
}

func (it *Interp) havocGuarded(st *State, mu *Term) {
	owner, n, field := it.lockOwner(st, mu)
	if owner == nil || it.noHavoc {
		return
	}
	for _, i := range guardedFields(n, field) {
		ft := n.Underlying().(*types.Struct).Field(i).Type()
		fp := FieldP(owner, i, ft)
		if n.Obj().Name() == "Context" {
			// what the pointer refers to
			p := st.load(fp, ft)
			st.havoc(p)
			st.fepoch["*int"]++
			continue
		}
		st.havoc(fp)
		if !isFresh(addrRoot(owner)) {
			st.fepoch[fieldKey(fp)]++
		}
	}
}

// ---------------------------------------------------------------- package functions

func extName(f *ssa.Function) string {
	s := f.String()
	return s
}

func (it *Interp) extCall(st *State, f *ssa.Function, args []*Term, common *ssa.CallCommon, in ssa.Instruction, isDefer bool) []Outcome {
	name := extName(f)
	sig := f.Signature
	it.emit(st, &Event{kind: "call", instr: in, name: name, args: args, callee: f, sig: sig})
	if it.isLogMethod(f) {
		return ret(st)
	}
	if o, ok := it.modelExt(st, name, f, args, in); ok {
		return o
	}
	pk := ""
	if f.Pkg != nil {
		pk = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pk = f.Object().Pkg().Path()
	}
	switch pk {
	case "strings", "strconv", "unicode", "unicode/utf8", "math", "path", "math/bits":
		return it.defaultResults(st, name, it.valueKey(st, args), sig, in, true)
	case "fmt", "errors", "reflect", "time", "runtime", "runtime/debug", "log", "os", "os/signal", "net", "crypto/tls", "crypto/md5", "io/ioutil", "syscall", "sort":
	default:
		it.unknownExt[name]++
		for _, a := range args {
			it.havocArg(st, a)
		}
	}
	if sig.Recv() != nil {
		// concrete receiver of a library type: same models as through an interface
		if o, ok := it.modelMethod(st, f.Name(), args[0], args[1:], sig, in); ok {
			return o
		}
	}
	return it.defaultResults(st, name, args, sig, in, false)
}

func constFold2(a, b *Term, fn func(x, y string) *Term) *Term {
	x, ok1 := a.isStr()
	y, ok2 := b.isStr()
	if ok1 && ok2 {
		return fn(x, y)
	}
	return nil
}

func (it *Interp) modelExt(st *State, name string, f *ssa.Function, args []*Term, in ssa.Instruction) ([]Outcome, bool) {
	sig := f.Signature
	rt := func(i int) types.Type { return sig.Results().At(i).Type() }
	r1 := func(t *Term) ([]Outcome, bool) { return ret(st, t), true }
	bytesArg := func(i int) *Term { return typed(args[i], types.NewSlice(types.Typ[types.Byte])) }

	switch {
	case strings.HasPrefix(name, "(encoding/binary.bigEndian)."), strings.HasPrefix(name, "(encoding/binary.littleEndian)."):
		enc := "be"
		if strings.Contains(name, "littleEndian") {
			enc = "le"
		}
		m := f.Name()
		size := ""
		for _, s := range []string{"16", "32", "64"} {
			if strings.HasSuffix(m, s) {
				size = s
			}
		}
		if size == "" {
			break
		}
		n := encSize(enc + size)
		switch {
		case strings.HasPrefix(m, "Put"):
			b := bytesArg(1)
			o, ok := it.extOblig(st, in, "index out of range", Le(Int(n), b.args[2]))
			if !ok {
				return o, true
			}
			st.writeSlice(b, []*Term{chEnc(enc+size, args[2])})
			return append(o, ret(st)...), true
		case strings.HasPrefix(m, "Append"):
			b := bytesArg(1)
			content := append(append([]*Term{}, st.sliceContent(b)...), chEnc(enc+size, args[2]))
			o := it.newObj(in, "append", types.NewArray(types.Typ[types.Byte], 0))
			st.mem[o] = Seq(seqNormF(st.f, content)...)
			ln := AddC(b.args[2], n)
			return r1(mkSlice(o, Int(0), ln, ln, False))
		case strings.HasPrefix(m, "Uint"):
			b := bytesArg(1)
			o, ok := it.extOblig(st, in, "index out of range", Le(Int(n), b.args[2]))
			if !ok {
				return o, true
			}
			return append(o, ret(st, it.readEnc(st, enc+size, b, rt(0)))...), true
		}
	case name == "encoding/binary.Write" && len(args) == 3:
		if args[1].op == OIface && args[2].op == OIface && isIntType(args[2].typ) {
			enc := "be"
			if strings.Contains(shortType(args[1].typ), "little") {
				enc = "le"
			}
			sz := ""
			switch shortType(args[2].typ.Underlying()) {
			case "int32", "uint32":
				sz = "32"
			case "int16", "uint16":
				sz = "16"
			case "int64", "uint64":
				sz = "64"
			}
			if sz != "" && args[0].op == OIface && shortType(args[0].typ) == "*bytes.Buffer" {
				v := args[2].args[0]
				if sz == "32" && !isUnsigned(args[2].typ) {
					if !st.f.entails(Le(Int(0), v)) {
						v = App("conv:uint32", types.Typ[types.Uint32], v)
					}
				}
				it.bufAppend(st, args[0].args[0], []*Term{chEnc(enc+sz, v)})
				return r1(Nil)
			}
		}
	case strings.HasSuffix(name, "toml.NewEncoder"):
		return r1(AppNN("encoder:toml", f.Signature.Results().At(0).Type(), args[0]))
	case strings.HasSuffix(name, "toml.Encoder).Encode") && args[0].isApp("encoder:toml") && args[0].args[0].op == OIface && shortType(args[0].args[0].typ) == "*bytes.Buffer":
		outs := it.pureBytes(st, "toml", it.valueKey(st, args[1:]), in)
		for i := range outs {
			if i == 0 {
				it.bufAppend(outs[i].st, args[0].args[0].args[0], outs[i].st.sliceContent(outs[i].vals[0]))
			}
			outs[i].vals = outs[i].vals[1:]
		}
		return outs, true
	case strings.HasPrefix(name, "(*bytes.Buffer)."):
		b := args[0]
		switch f.Name() {
		case "Write":
			s := bytesArg(1)
			it.bufAppend(st, b, st.sliceContent(s))
			return ret(st, s.args[2], Nil), true
		case "WriteString":
			n := strLen(args[1])
			it.bufAppend(st, b, []*Term{chRegion(App("strbytes", nil, args[1]), Int(0), n)})
			return ret(st, n, Nil), true
		case "WriteByte":
			it.bufAppend(st, b, []*Term{chElem(args[1])})
			return r1(Nil)
		case "Grow":
			return ret(st), true
		case "Reset":
			st.mem[App("buf", nil, b)] = Seq()
			return ret(st), true
		case "Len":
			return r1(seqLen(it.bufContent(st, b)))
		case "Bytes":
			c := it.bufContent(st, b)
			o := it.newObj(in, "bufbytes", types.NewArray(types.Typ[types.Byte], 0))
			st.mem[o] = Seq(c...)
			n := seqLen(c)
			return r1(mkSlice(o, Int(0), n, n, False))
		}
	case name == "bytes.NewBuffer" || name == "bytes.NewReader":
		o := it.newObj(in, "buffer", deref(rt(0)))
		if name == "bytes.NewBuffer" {
			st.mem[App("buf", nil, o)] = Seq(st.sliceContent(bytesArg(0))...)
		} else {
			st.mem[App("rdsrc", nil, o)] = args[0]
		}
		return r1(o)
	case name == "io.ReadFull" || name == "io.ReadAtLeast":
		r, b := args[0], bytesArg(1)
		n := it.freshAtom(in, "nread", tInt, false)
		nb := it.freshAtom(in, "nshort", tInt, false)
		min := b.args[2]
		if name == "io.ReadAtLeast" {
			min = args[2]
		} else {
			n = b.args[2]
		}
		bad := st.clone()
		if n != b.args[2] {
			st.leFact(min, n)
			st.leFact(n, b.args[2])
		}
		it.readInto(st, r, b, n)
		bad.leFact(Int(0), nb)
		bad.leFact(AddC(nb, 1), min)
		it.readInto(bad, r, b, nb)
		outs := []Outcome{{kind: 'r', vals: []*Term{n, Nil}, st: st}}
		// min==0 succeeds
		if !bad.f.inconsistent() && !it.goodReads {
			outs = append(outs, Outcome{kind: 'r', vals: []*Term{nb, it.errTerm(in, "ReadFull")}, st: bad})
		}
		return outs, true
	case name == "encoding/json.Marshal" || name == "encoding/json.MarshalIndent":
		return it.pureBytes(st, "json", it.valueKey(st, args[:1]), in), true
	case name == "encoding/xml.Marshal", name == "gopkg.in/yaml.v2.Marshal", strings.HasSuffix(name, "/proto.Marshal"):
		return it.pureBytes(st, name, it.valueKey(st, args), in), true
	case name == "encoding/json.Unmarshal":
		return it.unmarshal(st, "json", nil, bytesArg(0), args[1], in), true
	case name == "encoding/xml.Unmarshal", name == "gopkg.in/yaml.v2.Unmarshal", strings.HasSuffix(name, "/proto.Unmarshal"), name == "github.com/BurntSushi/toml.Unmarshal":
		return it.unmarshal(st, name, nil, bytesArg(0), args[1], in), true
	case name == "errors.New", name == "fmt.Errorf", strings.HasPrefix(name, "github.com/fwhezfwhez/errorx.New"), strings.HasPrefix(name, "github.com/fwhezfwhez/errorx.Empty"):
		return r1(typed(it.freshAtom(in, "error", tErr, true), rt(0)))
	case strings.HasPrefix(name, "github.com/fwhezfwhez/errorx.Wrap"):
		e := args[0]
		switch st.f.isNil(e) {
		case 1:
			return r1(Nil)
		case -1:
			return r1(AppNN("wrap", tErr, e))
		}
		s2 := st.clone()
		var outs []Outcome
		if st.assume(Eq(e, Nil), true) {
			outs = append(outs, Outcome{kind: 'r', vals: []*Term{Nil}, st: st})
		}
		if s2.assume(Eq(e, Nil), false) {
			outs = append(outs, Outcome{kind: 'r', vals: []*Term{AppNN("wrap", tErr, e)}, st: s2})
		}
		return outs, true
	case name == "errors.Is":
		if st.f.isNil(args[0]) == 1 {
			return r1(False)
		}
		if st.f.holds(Eq(args[0], args[1])) == 1 {
			return r1(True)
		}
		return r1(App("errors.Is", tBool, args...))
	case strings.HasPrefix(name, "(*sync.RWMutex).") || strings.HasPrefix(name, "(*sync.Mutex)."):
		switch f.Name() {
		case "Lock", "Unlock", "RLock", "RUnlock":
			return it.lockOp(st, f.Name(), args[0], in), true
		case "TryLock", "TryRLock":
			s2 := st.clone()
			l := map[string]string{"TryLock": "Lock", "TryRLock": "RLock"}[f.Name()]
			var outs []Outcome
			for _, o := range it.lockOp(st, l, args[0], in) {
				outs = append(outs, Outcome{kind: 'r', vals: []*Term{True}, st: o.st})
			}
			return append(outs, Outcome{kind: 'r', vals: []*Term{False}, st: s2}), true
		}
	case strings.HasPrefix(name, "(*sync.Map)."):
		return it.syncMap(st, f.Name(), args, in), true
	case name == "(*sync.Once).Do":
		key := App("oncedone", nil, args[0])
		if st.mem[key] == True {
			return ret(st), true
		}
		s2 := st.clone() // already done by someone else
		var outs []Outcome
		st.mem[key] = True
		s2.mem[key] = True
		fn := args[1]
		for _, o := range it.callTerm(st, fn, nil, nil, nil, nil, in, false, nil) {
			if o.kind == 'r' {
				o.vals = nil
			}
			outs = append(outs, o)
		}
		if !isFresh(addrRoot(args[0])) {
			outs = append(outs, Outcome{kind: 'r', st: s2})
		}
		return outs, true
	case strings.HasPrefix(name, "sync/atomic."):
		p := args[0]
		var t types.Type = tInt
		if pt, ok := sig.Params().At(0).Type().Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		old := st.load(p, t)
		m := f.Name()
		switch {
		case strings.HasPrefix(m, "Add"):
			v := Add(old, args[1])
			st.store(p, t, v)
			return r1(v)
		case strings.HasPrefix(m, "Load"):
			return r1(it.fresh(in, "atomic", t))
		case strings.HasPrefix(m, "Store"):
			st.store(p, t, args[1])
			return ret(st), true
		case strings.HasPrefix(m, "CompareAndSwap"):
			s2 := st.clone()
			st.store(p, t, args[2])
			s2.havoc(p)
			it.emit(st, &Event{kind: "casok", instr: in, args: args})
			return []Outcome{{kind: 'r', vals: []*Term{True}, st: st}, {kind: 'r', vals: []*Term{False}, st: s2}}, true
		case strings.HasPrefix(m, "Swap"):
			v := it.fresh(in, "atomic", t)
			st.store(p, t, args[1])
			return r1(v)
		}
	case name == "time.After":
		return r1(AppNN("timeafter", rt(0), args[0], it.freshAtom(in, "timer", nil, false)))
	case name == "time.NewTimer" || name == "time.NewTicker" || name == "time.Tick":
		return r1(AppNN("newtimer", rt(0), args[0], it.freshAtom(in, "timer", nil, false)))
	case name == "time.AfterFunc":
		it.emit(st, &Event{kind: "afterfunc", instr: in, args: args})
		return r1(AppNN("afterfunc", rt(0), args[0], args[1]))
	case name == "(time.Time).IsZero":
		return r1(App("iszero", tBool, args[0]))
	case name == "os.Exit" || name == "log.Fatal" || name == "log.Fatalf" || name == "log.Fatalln" || name == "syscall.Exit":
		it.emit(st, &Event{kind: "exit", instr: in, args: args})
		return []Outcome{{kind: 'x', st: st}}, true
	case name == "runtime.Goexit" || name == "log.Panic" || name == "log.Panicf" || name == "log.Panicln":
		return []Outcome{{kind: 'p', vals: []*Term{SymNN("goexit", nil)}, st: st}}, true
	case name == "strings.Contains":
		if v := constFold2(args[0], args[1], func(x, y string) *Term { return Bool(strings.Contains(x, y)) }); v != nil {
			return r1(v)
		}
	case name == "strings.HasPrefix":
		if v := constFold2(args[0], args[1], func(x, y string) *Term { return Bool(strings.HasPrefix(x, y)) }); v != nil {
			return r1(v)
		}
	case name == "strings.HasSuffix":
		if v := constFold2(args[0], args[1], func(x, y string) *Term { return Bool(strings.HasSuffix(x, y)) }); v != nil {
			return r1(v)
		}
	case name == "strings.EqualFold":
		if v := constFold2(args[0], args[1], func(x, y string) *Term { return Bool(strings.EqualFold(x, y)) }); v != nil {
			return r1(v)
		}
	case name == "strings.ToLower" || name == "strings.ToUpper" || name == "strings.TrimSpace":
		if s, ok := args[0].isStr(); ok {
			switch f.Name() {
			case "ToLower":
				return r1(Str(strings.ToLower(s)))
			case "ToUpper":
				return r1(Str(strings.ToUpper(s)))
			}
			return r1(Str(strings.TrimSpace(s)))
		}
	case name == "strings.Split" || name == "strings.SplitN":
		v := typed(AppNN("strings.Split", rt(0), args...), rt(0))
		if s, ok := args[1].isStr(); ok && s != "" && name == "strings.Split" {
			st.leFact(Int(1), v.args[2])
		}
		return r1(v)
	case name == "reflect.TypeOf":
		x := args[0]
		switch {
		case x.op == OIface || st.f.isNil(x) == -1:
			return r1(AppNN("reflect.TypeOf", rt(0), x))
		case st.f.isNil(x) == 1:
			return r1(Nil)
		}
		return r1(App("reflect.TypeOf", rt(0), x))
	case strings.HasPrefix(name, "fmt.Sprint"), name == "fmt.Sprintf":
		return r1(AppNN(name, rt(0), it.sprintArgs(st, args)...))
	case strings.HasPrefix(name, "fmt.Print"), strings.HasPrefix(name, "log.Print"), strings.HasPrefix(name, "(*log.Logger).Print"):
		if sig.Results().Len() == 0 {
			return ret(st), true
		}
		return ret(st, it.fresh(in, "n", tInt), it.fresh(in, "e", tErr)), true
	case name == "net.Listen", name == "crypto/tls.Listen", name == "net.ListenPacket", name == "crypto/tls.NewListener":
		it.emit(st, &Event{kind: "listen", instr: in, name: name, args: args})
	}
	return nil, false
}

func (it *Interp) sprintArgs(st *State, args []*Term) []*Term {
	var out []*Term
	for _, a := range args {
		if a.op == OSlice {
			out = append(out, st.sliceContent(a)...)
			continue
		}
		out = append(out, a)
	}
	return out
}

// extOblig: a library function panics unless cond holds. It returns the panicking outcomes, and
// whether the call can succeed (in st).
func (it *Interp) extOblig(st *State, in ssa.Instruction, kind string, cond *Term) ([]Outcome, bool) {
	if st.f.entails(cond) {
		if it.oblig != nil {
			it.oblig(it, st, kind, true, in, "")
		}
		return nil, true
	}
	if it.oblig != nil {
		it.oblig(it, st, kind, false, in, cond.String())
	}
	s2 := st.clone()
	it.emit(s2, &Event{kind: "rtpanic", instr: in, name: kind})
	out := []Outcome{{kind: 'p', vals: []*Term{AppNN("runtimeerror:"+kind, nil)}, st: s2}}
	return out, st.assume(cond, true)
}

func (it *Interp) readEnc(st *State, enc string, b *Term, t types.Type) *Term {
	n := encSize(enc)
	arr, off := b.args[0], b.args[1]
	sub := mkSlice(arr, off, Int(n), Int(n), False)
	cs := st.sliceContent(sub)
	if len(cs) == 1 {
		c := cs[0]
		if c.op == OApp && c.name == "enc:"+enc {
			return c.args[0]
		}
		if c.isApp("region") {
			return App("rd:"+enc, t, c.args[0], c.args[1])
		}
		if c.isApp("zero") {
			return Int(0)
		}
	}
	return App("rd:"+enc, t, Seq(cs...))
}

func (it *Interp) bufContent(st *State, b *Term) []*Term {
	if c, ok := st.mem[App("buf", nil, b)]; ok && c.op == OSeq {
		return c.args
	}
	if isFresh(addrRoot(b)) {
		return nil
	}
	return []*Term{chRegion(App("buf0", nil, b), Int(0), App("len", tInt, b))}
}
func (it *Interp) bufAppend(st *State, b *Term, cs []*Term) {
	st.mem[App("buf", nil, b)] = Seq(seqNormF(st.f, append(append([]*Term{}, it.bufContent(st, b)...), cs...))...)
}

// sync.Map: an overlay of the writes seen on this path; other goroutines' writes are covered by
// forgetting the overlay whenever user code runs.
func (it *Interp) syncMap(st *State, m string, args []*Term, in ssa.Instruction) []Outcome {
	mp := args[0]
	key := App("smap", nil, mp)
	it.emit(st, &Event{kind: "syncmap", instr: in, name: m, args: args})
	anyT := types.NewInterfaceType(nil, nil)
	var cs []*Term
	if c, ok := st.mem[key]; ok {
		cs = c.args
	}
	lookup := func(k *Term) (*Term, *Term) {
		for i := len(cs) - 1; i >= 0; i-- {
			c := cs[i]
			if c.isApp("empty") {
				return Nil, False
			}
			if !(c.isApp("put") || c.isApp("del")) {
				return App("smget", anyT, Seq(cs...), k), App("smok", tBool, Seq(cs...), k)
			}
			switch st.f.holds(Eq(c.args[0], k)) {
			case 1:
				if c.isApp("put") {
					return c.args[1], True
				}
				return Nil, False
			case -1:
				continue
			}
			return App("smget", anyT, Seq(cs...), mp, k), App("smok", tBool, Seq(cs...), mp, k)
		}
		e := st.fepoch["smap"]
		if isFresh(mp) && e == 0 {
			return Nil, False
		}
		ep := epochID(int64(e))
		return appAt("smget", anyT, ep, mp, k), appAt("smok", tBool, ep, mp, k)
	}
	put := func(s *State, op *Term) {
		var out []*Term
		for _, c := range cs {
			if c.isApp("empty") || c.args[0] != op.args[0] {
				out = append(out, c)
			}
		}
		s.mem[key] = Seq(append(out, op)...)
	}
	split := func(ok, v *Term, absent *Term, storeAbsent *Term) []Outcome {
		var outs []Outcome
		s2 := st.clone()
		if st.assume(ok, true) {
			outs = append(outs, Outcome{kind: 'r', vals: []*Term{v, True}, st: st})
		}
		if s2.assume(ok, false) {
			if storeAbsent != nil {
				put(s2, storeAbsent)
			}
			outs = append(outs, Outcome{kind: 'r', vals: []*Term{absent, False}, st: s2})
		}
		return outs
	}
	switch m {
	case "Load":
		v, ok := lookup(args[1])
		return split(ok, v, Nil, nil)
	case "LoadOrStore":
		v, ok := lookup(args[1])
		// an earlier failed Load says nothing about now: another goroutine may have stored
		if ok != True && ok != False {
			e := App("smget", anyT, it.freshAtom(in, "los", anyT, false), args[1])
			okb := it.freshAtom(in, "losok", tBool, false)
			v, ok = e, okb
		}
		return split(ok, v, args[2], App("put", nil, args[1], args[2]))
	case "Store":
		put(st, App("put", nil, args[1], args[2]))
		return ret(st)
	case "Delete":
		put(st, App("del", nil, args[1]))
		return ret(st)
	case "LoadAndDelete":
		v, ok := lookup(args[1])
		o := split(ok, v, Nil, nil)
		for i := range o {
			put(o[i].st, App("del", nil, args[1]))
		}
		return o
	case "Range":
		it.havocUser(st, nil)
		return ret(st)
	}
	st.fepoch["smap"]++
	delete(st.mem, key)
	return it.defaultResults(st, "sync.Map."+m, args, in.(ssa.CallInstruction).Common().Signature(), in, false)
}

var _ = fmt.Sprint
