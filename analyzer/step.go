package main

// Transfer functions of single instructions.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const rootPath = "github.com/fwhezfwhez/tcpx"

func one(fs *fstate) []*fstate { return []*fstate{fs} }

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// obligation: cond must hold or the instruction panics. The state continues where cond holds.
func (it *Interp) obligation(ex *execn, fs *fstate, in ssa.Instruction, kind string, conds ...*Term) bool {
	bad := false
	for _, c := range conds {
		if fs.st.f.holds(c) != 1 {
			bad = true
			if it.oblig != nil {
				it.oblig(it, fs.st, kind, false, in, c.String())
			}
			break
		}
	}
	if !bad {
		if it.oblig != nil {
			it.oblig(it, fs.st, kind, true, in, "")
		}
		return true
	}
	// the panicking execution
	it.emit(fs.st, &Event{kind: "rtpanic", instr: in, name: kind, args: conds})
	v := AppNN("runtimeerror:"+kind, nil)
	ex.outs = append(ex.outs, it.unwind(ex, fs, v)...)
	for _, c := range conds {
		if !fs.st.assume(c, true) {
			return false
		}
	}
	return true
}

// nilCheck: dereference of p.
func (it *Interp) nilCheck(ex *execn, fs *fstate, in ssa.Instruction, p *Term) bool {
	if p == nil {
		return true
	}
	if p.nonNil() {
		return true
	}
	n := fs.st.f.isNil(p)
	if n == -1 {
		return true
	}
	if n == 0 && !it.mayNil(p) {
		return true
	}
	if it.oblig != nil {
		it.oblig(it, fs.st, "nil", false, in, p.String())
	}
	it.emit(fs.st, &Event{kind: "rtpanic", instr: in, name: "nil dereference"})
	ex.outs = append(ex.outs, it.unwind(ex, fs, AppNN("runtimeerror:nil", nil))...)
	if n == 1 {
		return false
	}
	return fs.st.assume(Eq(p, Nil), false)
}

// mayNil: values that are known to be nil on legal inputs.
func (it *Interp) mayNil(p *Term) bool {
	if p.op == OApp && (p.name == "mapget" || p.name == "reflect.TypeOf") {
		return true
	}
	if it.nilField != nil && p.isApp("ld") {
		return it.nilField(p)
	}
	return false
}

func (it *Interp) step(ex *execn, fs *fstate, in ssa.Instruction) []*fstate {
	set := func(v ssa.Value, t *Term) []*fstate {
		fs.regs[v] = t
		return one(fs)
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		return one(fs)
	case *ssa.Alloc:
		o := it.newObj(in, "new", deref(x.Type()))
		// re-allocation: forget an older incarnation
		for p := range fs.st.mem {
			if addrRoot(p) == o {
				delete(fs.st.mem, p)
			}
		}
		delete(fs.st.epoch, o)
		if n, ok := types.Unalias(o.typ).(*types.Named); ok && n.Obj().Name() == "Map" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
			fs.st.mem[App("smap", nil, o)] = Seq(App("empty", nil))
		}
		return set(x, o)
	case *ssa.BinOp:
		return it.binop(ex, fs, x)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p := it.val(fs, x.X)
			if !it.nilCheck(ex, fs, in, p) {
				return nil
			}
			if it.onAccess != nil {
				it.access(fs.st, p, deref(x.X.Type()), in, 'r')
			}
			v := fs.st.load(p, x.Type())
			it.fieldFacts(fs.st, p, v)
			return set(x, v)
		case token.NOT:
			return set(x, Not(it.val(fs, x.X)))
		case token.SUB:
			v := it.val(fs, x.X)
			if isIntType(x.Type()) {
				if _, _, narrow := intRange(x.Type()); narrow || isUnsigned(x.Type()) {
					return set(x, it.fit(fs, MulC(v, -1), x.Type()))
				}
				return set(x, MulC(v, -1))
			}
			return set(x, App("neg", x.Type(), v))
		case token.ARROW:
			ch := it.val(fs, x.X)
			it.emit(fs.st, &Event{kind: "recv", instr: in, args: []*Term{ch}, block: true})
			et := x.X.Type().Underlying().(*types.Chan).Elem()
			v := it.fresh(in, "recv", et)
			if x.CommaOk {
				return set(x, Tuple(v, it.fresh(in, "recvok", types.Typ[types.Bool])))
			}
			return set(x, v)
		}
		return set(x, App("un:"+x.Op.String(), x.Type(), it.val(fs, x.X)))
	case *ssa.FieldAddr:
		p := it.val(fs, x.X)
		if !it.nilCheck(ex, fs, in, p) {
			return nil
		}
		st := deref(x.X.Type()).Underlying().(*types.Struct)
		return set(x, FieldP(p, x.Field, st.Field(x.Field).Type()))
	case *ssa.Field:
		s := typed(it.val(fs, x.X), x.X.Type())
		if s.op == OStruct {
			return set(x, s.args[x.Field])
		}
		return set(x, typed(App(fmt.Sprintf("field%d", x.Field), x.Type(), s), x.Type()))
	case *ssa.IndexAddr:
		b := it.val(fs, x.X)
		i := it.val(fs, x.Index)
		et := deref(x.Type())
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			b = typed(b, x.X.Type())
			if !it.obligation(ex, fs, in, "index out of range", Le(Int(0), i), Lt(i, b.args[2])) {
				return nil
			}
			return set(x, ElemP(b.args[0], Add(b.args[1], i), et))
		}
		at := deref(x.X.Type()).Underlying().(*types.Array)
		if !it.obligation(ex, fs, in, "index out of range", Le(Int(0), i), Lt(i, Int(at.Len()))) {
			return nil
		}
		return set(x, ElemP(b, i, et))
	case *ssa.Index:
		b := it.val(fs, x.X)
		i := it.val(fs, x.Index)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Array:
			if !it.obligation(ex, fs, in, "index out of range", Le(Int(0), i), Lt(i, Int(u.Len()))) {
				return nil
			}
			if b.op == OSeq {
				if v, zero, arr, ai, ok := seqAt(fs.st.f, b.args, i); ok {
					switch {
					case v != nil:
						return set(x, v)
					case zero:
						return set(x, zeroOf(x.Type()))
					default:
						return set(x, ldTerm(ElemP(arr, ai, x.Type()), x.Type(), 0))
					}
				}
			}
		default: // string
			if !it.obligation(ex, fs, in, "index out of range", Le(Int(0), i), Lt(i, strLen(b))) {
				return nil
			}
			if s, ok := b.isStr(); ok {
				if k, ok := i.isInt(); ok {
					return set(x, Int(int64(s[k])))
				}
			}
		}
		return set(x, typed(App("index", x.Type(), b, i), x.Type()))
	case *ssa.Slice:
		return it.slice(ex, fs, x)
	case *ssa.MakeSlice:
		n, c := it.val(fs, x.Len), it.val(fs, x.Cap)
		it.emit(fs.st, &Event{kind: "make", instr: in, args: []*Term{n, c}})
		if !it.obligation(ex, fs, in, "makeslice: len out of range", Le(Int(0), n), Le(n, c)) {
			return nil
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		o := it.newObj(in, "make", types.NewArray(et, 0))
		fs.st.mem[o] = Seq(seqNormF(fs.st.f, []*Term{chZero(c)})...)
		delete(fs.st.epoch, o)
		return set(x, mkSlice(o, Int(0), n, c, False))
	case *ssa.MakeMap:
		o := it.newObj(in, "makemap", x.Type())
		fs.st.mem[o] = Seq()
		return set(x, o)
	case *ssa.MakeChan:
		c := it.newObj(in, "makechan", x.Type())
		fs.st.mem[App("chancap", types.Typ[types.Int], c)] = it.val(fs, x.Size)
		return set(x, c)
	case *ssa.MapUpdate:
		m, k, v := it.val(fs, x.Map), it.val(fs, x.Key), it.val(fs, x.Value)
		if fs.st.f.isNil(m) == 1 {
			it.emit(fs.st, &Event{kind: "rtpanic", instr: in, name: "assignment to nil map"})
			ex.outs = append(ex.outs, it.unwind(ex, fs, AppNN("runtimeerror:nilmap", nil))...)
			return nil
		}
		it.emit(fs.st, &Event{kind: "mapset", instr: in, args: []*Term{m, k, v}})
		fs.st.mapPut(m, App("put", nil, k, v))
		return one(fs)
	case *ssa.Lookup:
		m, k := it.val(fs, x.X), it.val(fs, x.Index)
		if isStringType(x.X.Type()) {
			if !it.obligation(ex, fs, in, "index out of range", Le(Int(0), k), Lt(k, strLen(m))) {
				return nil
			}
			return set(x, App("index", x.Type(), m, k))
		}
		mt := x.X.Type().Underlying().(*types.Map)
		it.emit(fs.st, &Event{kind: "mapget", instr: in, args: []*Term{m, k}})
		v, ok := fs.st.mapGet(m, k, mt)
		if _, isI := mt.Elem().Underlying().(*types.Interface); !x.CommaOk && !isI {
			// a missing key gives the zero value
			return set(x, v)
		}
		// split: present or absent
		var out []*fstate
		for _, truth := range []bool{true, false} {
			n := fs.clone()
			if !n.st.assume(ok, truth) {
				continue
			}
			if truth && ok.isApp("mapok") && !n.st.assume(Le(Int(1), App("len", types.Typ[types.Int], ok.args[0])), true) {
				continue
			}
			r, rok := v, True
			if !truth {
				r, rok = zeroOf(mt.Elem()), False
			}
			n.regs[x] = r
			if x.CommaOk {
				n.regs[x] = Tuple(r, rok)
			}
			out = append(out, n)
		}
		return out
	case *ssa.Range:
		v := it.val(fs, x.X)
		it.emit(fs.st, &Event{kind: "maprange", instr: in, args: []*Term{v}})
		if v.op == OObj || v.op == OApp || v.op == OSym {
			if _, ok := x.X.Type().Underlying().(*types.Map); ok {
				return set(x, App("iter", x.X.Type(), fs.st.mapRef(v), v))
			}
		}
		return set(x, App("iter", x.X.Type(), v))
	case *ssa.Next:
		itv := it.val(fs, x.Iter)
		tt := x.Type().(*types.Tuple)
		ok := it.fresh(in, "next", types.Typ[types.Bool])
		ref := itv
		if itv.isApp("iter") {
			ref = itv.args[0]
			if len(itv.args) > 1 && it.onAccess != nil {
				it.emit(fs.st, &Event{kind: "mapnext", instr: in, args: itv.args[1:]})
			}
		}
		kt, vt := tt.At(1).Type(), tt.At(2).Type()
		pos := it.freshAtom(in, "pos", types.Typ[types.Int], false)
		var k, v *Term = Nil, Nil
		if !x.IsString {
			mt, _ := itv.typ.Underlying().(*types.Map)
			if mt != nil {
				kt, vt = mt.Key(), mt.Elem()
			}
			k = typed(App("mapkey", kt, ref, pos), kt)
			v = typed(App("mapval", vt, ref, pos), vt)
			if _, isp := vt.Underlying().(*types.Pointer); isp {
				v = AppNN("mapval", vt, ref, pos)
			}
		} else {
			k, v = App("strpos", kt, ref, pos), App("strrune", vt, ref, pos)
		}
		return set(x, Tuple(ok, k, v))
	case *ssa.TypeAssert:
		return it.typeAssert(ex, fs, x)
	case *ssa.MakeInterface:
		v := it.val(fs, x.X)
		return set(x, intern(Term{op: OIface, typ: x.X.Type(), args: []*Term{v}}))
	case *ssa.MakeClosure:
		var b []*Term
		for _, v := range x.Bindings {
			b = append(b, it.val(fs, v))
		}
		return set(x, intern(Term{op: OClosure, fn: x.Fn.(*ssa.Function), args: b, typ: x.Type()}))
	case *ssa.ChangeType:
		return set(x, typed(it.val(fs, x.X), x.Type()))
	case *ssa.ChangeInterface:
		return set(x, it.val(fs, x.X))
	case *ssa.Convert:
		return set(x, it.convert(fs, x))
	case *ssa.SliceToArrayPointer:
		return set(x, it.fresh(in, "s2a", x.Type()))
	case *ssa.Extract:
		t := it.val(fs, x.Tuple)
		if t.op == OTuple && x.Index < len(t.args) {
			return set(x, t.args[x.Index])
		}
		return set(x, typed(App(fmt.Sprintf("ext%d", x.Index), x.Type(), t), x.Type()))
	case *ssa.Select:
		return it.sel(ex, fs, x)
	case *ssa.Send:
		it.emit(fs.st, &Event{kind: "send", instr: in, args: []*Term{it.val(fs, x.Chan), it.val(fs, x.X)}, block: true})
		return one(fs)
	case *ssa.Go:
		fn, meth, recv, args := it.callee(fs, &x.Call)
		it.emit(fs.st, &Event{kind: "go", instr: in, args: append([]*Term{fn}, args...), res: recv})
		it.spawns = append(it.spawns, Spawn{fn: fn, meth: meth, recv: recv, args: args, st: fs.st.clone(), instr: in, in: ex.fn, common: &x.Call})
		return one(fs)
	case *ssa.Defer:
		fn, meth, recv, args := it.callee(fs, &x.Call)
		fs.defers = append(fs.defers[:len(fs.defers):len(fs.defers)], dcall{fn: fn, meth: meth, recv: recv, args: args, instr: in, common: &x.Call})
		return one(fs)
	case *ssa.Store:
		p, v := it.val(fs, x.Addr), it.val(fs, x.Val)
		if !it.nilCheck(ex, fs, in, p) {
			return nil
		}
		if it.onAccess != nil {
			it.access(fs.st, p, x.Val.Type(), in, 'w')
		}
		fs.st.store(p, x.Val.Type(), v)
		if it.onStore != nil {
			it.onStore(it, fs.st, p, v, in)
		}
		return one(fs)
	case *ssa.Call:
		fn, meth, recv, args := it.callee(fs, &x.Call)
		outs := it.callTerm(fs.st, fn, meth, recv, args, &x.Call, in, false, fs.roots())
		var res []*fstate
		for i, o := range outs {
			var n *fstate
			if i == len(outs)-1 {
				n = &fstate{regs: fs.regs, st: o.st, defers: fs.defers}
			} else {
				n = &fstate{regs: make(map[ssa.Value]*Term, len(fs.regs)+4), st: o.st, defers: fs.defers[:len(fs.defers):len(fs.defers)]}
				for k, v := range fs.regs {
					n.regs[k] = v
				}
			}
			switch o.kind {
			case 'r':
				switch len(o.vals) {
				case 0:
				case 1:
					if x.Call.Signature().Results().Len() == 1 || isBuiltinCall(&x.Call) {
						n.regs[x] = o.vals[0]
					} else {
						n.regs[x] = Tuple(o.vals...)
					}
				default:
					n.regs[x] = Tuple(o.vals...)
				}
				res = append(res, n)
			case 'p':
				ex.outs = append(ex.outs, it.unwind(ex, n, o.vals[0])...)
			case 'x':
				ex.outs = append(ex.outs, o)
			}
		}
		return res
	}
	it.undecided("instruction %T not supported in %s", in, ex.fn.Name())
	if v, ok := in.(ssa.Value); ok {
		fs.regs[v] = it.fresh(in, "unsupported", v.Type())
	}
	return one(fs)
}

func isBuiltinCall(c *ssa.CallCommon) bool {
	_, ok := c.Value.(*ssa.Builtin)
	return ok
}

func (it *Interp) callee(fs *fstate, c *ssa.CallCommon) (fn *Term, meth *types.Func, recv *Term, args []*Term) {
	for _, a := range c.Args {
		args = append(args, it.val(fs, a))
	}
	if c.IsInvoke() {
		return nil, c.Method, it.val(fs, c.Value), args
	}
	return it.val(fs, c.Value), nil, nil, args
}

func (it *Interp) access(st *State, p *Term, t types.Type, in ssa.Instruction, mode byte) {
	if s := structOf(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			it.access(st, FieldP(p, i, s.Field(i).Type()), s.Field(i).Type(), in, mode)
		}
		return
	}
	it.onAccess(it, st, p, in, mode)
}

func strLen(s *Term) *Term {
	if c, ok := s.isStr(); ok {
		return Int(int64(len(c)))
	}
	return App("len", types.Typ[types.Int], s)
}

// fit makes v a value of the narrow or unsigned type t, wrapping when it may not fit.
func (it *Interp) fit(fs *fstate, v *Term, t types.Type) *Term {
	lo, hi, narrow := intRange(t)
	if narrow {
		if fs.st.f.entails(Le(Int(lo), v)) && fs.st.f.entails(Le(v, Int(hi))) {
			return v
		}
		return App("wrap:"+shortType(t.Underlying()), t, v)
	}
	if isUnsigned(t) {
		if fs.st.f.entails(Le(Int(0), v)) {
			return v
		}
		return App("wrap:"+shortType(t.Underlying()), t, v)
	}
	return v
}

func (it *Interp) binop(ex *execn, fs *fstate, x *ssa.BinOp) []*fstate {
	a, b := it.val(fs, x.X), it.val(fs, x.Y)
	set := func(t *Term) []*fstate {
		fs.regs[x] = t
		return one(fs)
	}
	xt := x.X.Type()
	if isIntType(xt) {
		switch x.Op {
		case token.ADD:
			return set(it.fit(fs, Add(a, b), x.Type()))
		case token.SUB:
			return set(it.fit(fs, Sub(a, b), x.Type()))
		case token.MUL:
			if k, ok := b.isInt(); ok {
				return set(it.fit(fs, MulC(a, k), x.Type()))
			}
			if k, ok := a.isInt(); ok {
				return set(it.fit(fs, MulC(b, k), x.Type()))
			}
		case token.QUO, token.REM, token.SHR, token.AND, token.SHL:
			k, ok := b.isInt()
			if x.Op == token.AND && !ok {
				if k2, ok2 := a.isInt(); ok2 {
					a, k, ok = b, k2, true
				}
			}
			if !ok && (x.Op == token.QUO || x.Op == token.REM) {
				if !it.obligation(ex, fs, x, "division by zero", Not(EqI(b, Int(0)))) {
					return nil
				}
			}
			if ok {
				if v := it.divlike(fs, x.Op, a, k, x.Type()); v != nil {
					return set(v)
				}
			}
		case token.OR, token.XOR:
			if v := orBytes(a, b); v != nil {
				return set(v)
			}
			return set(App("or", x.Type(), a, b))
		case token.EQL:
			return set(EqI(a, b))
		case token.NEQ:
			return set(Not(EqI(a, b)))
		case token.LSS:
			return set(Lt(a, b))
		case token.LEQ:
			return set(Le(a, b))
		case token.GTR:
			return set(Lt(b, a))
		case token.GEQ:
			return set(Le(b, a))
		}
		return set(App("op:"+x.Op.String(), x.Type(), a, b))
	}
	switch x.Op {
	case token.EQL, token.NEQ:
		var r *Term
		switch {
		case isBoolType(xt) && a == True, isBoolType(xt) && b == True:
			r = a
			if a == True {
				r = b
			}
		case isBoolType(xt) && (a == False || b == False):
			r = Not(a)
			if a == False {
				r = Not(b)
			}
		default:
			r = fs.st.eqVal(a, b, xt)
		}
		if x.Op == token.NEQ {
			r = Not(r)
		}
		return set(r)
	case token.ADD:
		if isStringType(xt) {
			return set(concat(a, b))
		}
	}
	return set(App("op:"+x.Op.String(), x.Type(), a, b))
}

func concat(a, b *Term) *Term {
	s, ok1 := a.isStr()
	t, ok2 := b.isStr()
	if ok1 && ok2 {
		return Str(s + t)
	}
	if ok1 && s == "" {
		return b
	}
	if ok2 && t == "" {
		return a
	}
	return App("concat", types.Typ[types.String], a, b)
}

// eqVal: equality of two non-integer values.
func (s *State) eqVal(a, b *Term, t types.Type) *Term {
	if a.op == OStruct && b.op == OStruct && len(a.args) == len(b.args) {
		st := structOf(t)
		r := True
		for i := range a.args {
			var e *Term
			if st != nil && isIntType(st.Field(i).Type()) {
				e = EqI(a.args[i], b.args[i])
			} else {
				e = Eq(a.args[i], b.args[i])
			}
			if e == False {
				return False
			}
			if e != True {
				if r == True {
					r = e
				} else {
					r = App("and", types.Typ[types.Bool], r, e)
				}
			}
		}
		return r
	}
	return Eq(a, b)
}

func (it *Interp) divlike(fs *fstate, op token.Token, a *Term, k int64, t types.Type) *Term {
	var d int64
	switch op {
	case token.QUO, token.REM:
		d = k
	case token.SHR:
		if k > 40 {
			return nil
		}
		d = 1 << uint(k)
	case token.SHL:
		if k > 40 {
			return nil
		}
		if isIntType(t) && !isUnsigned(t) {
			return it.fit(fs, MulC(a, 1<<uint(k)), t)
		}
		v := MulC(a, 1<<uint(k))
		if lo, hi, ok := intRange(t); ok && fs.st.f.entails(Le(Int(lo), v)) && fs.st.f.entails(Le(v, Int(hi))) {
			return v
		}
		if !fs.st.f.entails(Le(Int(0), v)) {
			return nil
		}
		return it.fit(fs, v, t)
	case token.AND:
		// x & (2^n-1)
		d = k + 1
		if k < 0 || d&(d-1) != 0 {
			return nil
		}
	}
	if d <= 0 {
		return nil
	}
	if c, ok := a.isInt(); ok && c >= 0 {
		switch op {
		case token.QUO, token.SHR:
			return Int(c / d)
		default:
			return Int(c % d)
		}
	}
	if !fs.st.f.entails(Le(Int(0), a)) {
		return nil
	}
	if fs.st.f.entails(Lt(a, Int(d))) {
		if op == token.QUO || op == token.SHR {
			return Int(0)
		}
		return a
	}
	q := intern(Term{op: OApp, name: "quo", args: []*Term{a, Int(d)}, typ: t})
	// d*q <= a <= d*q+d-1, q>=0
	n := fs.st.f.clone()
	n.addIneq(Sub(MulC(q, d), a))
	n.addIneq(Sub(a, AddC(MulC(q, d), d-1)))
	n.addIneq(MulC(q, -1))
	fs.st.f = n
	if op == token.QUO || op == token.SHR {
		return q
	}
	if op == token.AND && d == 256 {
		return App("byteof", types.Typ[types.Uint8], byteBase(a), byteShift(a))
	}
	return Sub(a, MulC(q, d))
}

func byteBase(a *Term) *Term {
	if a.isApp("quo") {
		return a.args[0]
	}
	return a
}
func byteShift(a *Term) *Term {
	if a.isApp("quo") {
		d, _ := a.args[1].isInt()
		n := int64(0)
		for d > 1 {
			d >>= 1
			n++
		}
		return Int(n)
	}
	return Int(0)
}

// orBytes recognises b0<<24 | b1<<16 | b2<<8 | b3 over four adjacent bytes.
func orBytes(a, b *Term) *Term {
	// sums of byte*2^k with distinct k: or == add
	l := linAdd(toLin(a), toLin(b), 1)
	used := int64(0)
	for i, at := range l.at {
		if at.typ == nil {
			return nil
		}
		if _, hi, ok := intRange(at.typ); !ok || hi != 255 {
			return nil
		}
		k := l.k[i]
		if k != 1 && k != 1<<8 && k != 1<<16 && k != 1<<24 {
			return nil
		}
		if used&k != 0 {
			return nil
		}
		used |= k
	}
	if l.c != 0 || len(l.at) == 0 {
		return nil
	}
	if len(l.at) == 4 {
		var bs [4]*Term
		for i, at := range l.at {
			switch l.k[i] {
			case 1 << 24:
				bs[0] = at
			case 1 << 16:
				bs[1] = at
			case 1 << 8:
				bs[2] = at
			default:
				bs[3] = at
			}
		}
		if bs[0].isApp("ld") && bs[0].args[0].op == OElemP {
			arr, off := bs[0].args[0].args[0], bs[0].args[0].args[1]
			ok := true
			for i := 1; i < 4; i++ {
				if !bs[i].isApp("ld") || bs[i].args[0].op != OElemP || bs[i].args[0].args[0] != arr || bs[i].args[0].args[1] != AddC(off, int64(i)) {
					ok = false
				}
			}
			if ok {
				return rdRegion("be32", arr, off)
			}
		}
	}
	return fromLin(l)
}

func rdRegion(enc string, arr, off *Term) *Term {
	return App("rd:"+enc, types.Typ[types.Uint32], arr, off)
}

func (it *Interp) slice(ex *execn, fs *fstate, x *ssa.Slice) []*fstate {
	b := it.val(fs, x.X)
	lo := Int(0)
	if x.Low != nil {
		lo = it.val(fs, x.Low)
	}
	set := func(t *Term) []*fstate {
		fs.regs[x] = t
		return one(fs)
	}
	if isStringType(x.X.Type()) {
		n := strLen(b)
		hi := n
		if x.High != nil {
			hi = it.val(fs, x.High)
		}
		if !it.obligation(ex, fs, x, "slice bounds out of range", Le(Int(0), lo), Le(lo, hi), Le(hi, n)) {
			return nil
		}
		if s, ok := b.isStr(); ok {
			if l, ok := lo.isInt(); ok {
				if h, ok := hi.isInt(); ok {
					return set(Str(s[l:h]))
				}
			}
		}
		r := App("substr", types.Typ[types.String], b, lo, hi)
		f := fs.st.f.clone()
		d := Sub(App("len", types.Typ[types.Int], r), Sub(hi, lo))
		f.addIneq(d)
		f.addIneq(MulC(d, -1))
		fs.st.f = f
		return set(r)
	}
	var arr, off, ln, cp, isnil *Term
	if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
		b = typed(b, x.X.Type())
		arr, off, ln, cp, isnil = b.args[0], b.args[1], b.args[2], b.args[3], b.args[4]
	} else {
		at := deref(x.X.Type()).Underlying().(*types.Array)
		arr, off, ln, cp, isnil = b, Int(0), Int(at.Len()), Int(at.Len()), False
		if fs.st.mem[arr] == nil {
			fs.st.mem[arr] = Seq(fs.st.content(arr, at)...)
		}
	}
	hi := ln
	if x.High != nil {
		hi = it.val(fs, x.High)
	}
	mx := cp
	if x.Max != nil {
		mx = it.val(fs, x.Max)
	}
	if !it.obligation(ex, fs, x, "slice bounds out of range", Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, cp)) {
		return nil
	}
	return set(mkSlice(arr, Add(off, lo), Sub(hi, lo), Sub(mx, lo), isnil))
}

func (it *Interp) convert(fs *fstate, x *ssa.Convert) *Term {
	v := it.val(fs, x.X)
	from, to := x.X.Type(), x.Type()
	switch {
	case isIntType(from) && isIntType(to):
		if lo, hi, ok := intRange(to); ok {
			if fs.st.f.entails(Le(Int(lo), v)) && fs.st.f.entails(Le(v, Int(hi))) {
				return v
			}
			if hi == 255 {
				return App("byteof", types.Typ[types.Uint8], byteBase(v), byteShift(v))
			}
			// conversion back to the type the value had
			if v.op == OApp && strings.HasPrefix(v.name, "conv:") && types.Identical(v.args[0].typ, to) {
				return v.args[0]
			}
			return App("conv:"+shortType(to.Underlying()), to, v)
		}
		if isUnsigned(to) && !fs.st.f.entails(Le(Int(0), v)) {
			return App("conv:"+shortType(to.Underlying()), to, v)
		}
		return v
	case isStringType(to) && !isStringType(from):
		if sl, ok := from.Underlying().(*types.Slice); ok {
			_ = sl
			b := typed(v, from)
			r := App("str", to, Seq(fs.st.sliceContent(b)...))
			if k, ok := b.args[2].isInt(); ok && k == 0 {
				return Str("")
			}
			f := fs.st.f.clone()
			d := Sub(App("len", types.Typ[types.Int], r), b.args[2])
			f.addIneq(d)
			f.addIneq(MulC(d, -1))
			fs.st.f = f
			return r
		}
		return App("rune2str", to, v)
	case isStringType(from) && isStringType(to):
		return v
	case isStringType(from):
		if sl, ok := to.Underlying().(*types.Slice); ok {
			o := it.newObj(x, "bytes", types.NewArray(sl.Elem(), 0))
			n := strLen(v)
			fs.st.mem[o] = Seq(seqNormF(fs.st.f, []*Term{chRegion(App("strbytes", nil, v), Int(0), n)})...)
			return mkSlice(o, Int(0), n, n, False)
		}
	}
	return typed(App("conv:"+shortType(to), to, v), to)
}

func isAtom(t types.Type, x *Term) *Term {
	return App("is:"+types.TypeString(t, nil), types.Typ[types.Bool], x)
}

func (it *Interp) typeAssert(ex *execn, fs *fstate, x *ssa.TypeAssert) []*fstate {
	v := it.val(fs, x.X)
	T := x.AssertedType
	_, toIface := T.Underlying().(*types.Interface)
	var out []*fstate
	yes := func(n *fstate, val *Term) {
		if x.CommaOk {
			n.regs[x] = Tuple(val, True)
		} else {
			n.regs[x] = val
		}
		out = append(out, n)
	}
	no := func(n *fstate) {
		if x.CommaOk {
			n.regs[x] = Tuple(zeroOf(T), False)
			out = append(out, n)
			return
		}
		if it.oblig != nil {
			it.oblig(it, n.st, "type assertion", false, x, v.String())
		}
		it.emit(n.st, &Event{kind: "rtpanic", instr: x, name: "interface conversion"})
		ex.outs = append(ex.outs, it.unwind(ex, n, AppNN("runtimeerror:assert", nil))...)
	}
	if v.op == OIface {
		ok := false
		val := v
		if toIface {
			ok = types.Implements(v.typ, T.Underlying().(*types.Interface))
		} else {
			ok = types.Identical(v.typ, T)
			val = v.args[0]
		}
		if ok {
			yes(fs, val)
		} else {
			no(fs)
		}
		return out
	}
	if fs.st.f.isNil(v) == 1 {
		no(fs)
		return out
	}
	// static type already implies it
	if toIface && types.AssignableTo(x.X.Type(), T) && fs.st.f.isNil(v) == -1 {
		yes(fs, v)
		return out
	}
	at := isAtom(T, v)
	if val := it.keyedValue(v, T); val != nil {
		yes(fs, val)
		return out
	}
	if it.assertKnown != nil {
		if val := it.assertKnown(fs.st, v, T); val != nil {
			yes(fs, val)
			return out
		}
	}
	n := fs.clone()
	if n.st.assume(at, true) && n.st.assume(Eq(v, Nil), false) {
		val := v
		if !toIface {
			val = typed(App("dyn:"+types.TypeString(T, nil), T, v), T)
		}
		yes(n, val)
	}
	m := fs.clone()
	if m.st.assume(at, false) {
		no(m)
	}
	return out
}

func (it *Interp) sel(ex *execn, fs *fstate, x *ssa.Select) []*fstate {
	var chans []*Term
	for _, s := range x.States {
		chans = append(chans, it.val(fs, s.Chan))
	}
	it.emit(fs.st, &Event{kind: "select", instr: x, args: chans, block: x.Blocking})
	nrecv := 0
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	var out []*fstate
	mk := func(idx int) {
		n := fs.clone()
		vals := []*Term{Int(int64(idx)), it.fresh(x, fmt.Sprintf("selok%d", idx), types.Typ[types.Bool])}
		for i, s := range x.States {
			if s.Dir != types.RecvOnly {
				continue
			}
			et := s.Chan.Type().Underlying().(*types.Chan).Elem()
			if i == idx {
				vals = append(vals, it.fresh(x, fmt.Sprintf("selrecv%d", i), et))
			} else {
				vals = append(vals, zeroOf(et))
			}
		}
		n.regs[x] = Tuple(vals...)
		ev := &Event{kind: "selcase", instr: x, block: x.Blocking}
		if idx >= 0 {
			ev.args = []*Term{chans[idx]}
			ev.name = "recv"
			if x.States[idx].Dir == types.RecvOnly {
				ri := 2
				for i := 0; i < idx; i++ {
					if x.States[i].Dir == types.RecvOnly {
						ri++
					}
				}
				ev.args = append(ev.args, vals[ri], vals[1])
			}
			if x.States[idx].Dir == types.SendOnly {
				ev.name = "send"
				ev.args = append(ev.args, it.val(fs, x.States[idx].Send))
			}
		} else {
			ev.name = "default"
		}
		it.emit(n.st, ev)
		out = append(out, n)
	}
	for i := range x.States {
		if chans[i] == Nil {
			continue // never ready
		}
		mk(i)
	}
	if !x.Blocking {
		mk(-1)
	}
	return out
}
