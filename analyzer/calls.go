package main

// Calls: functions of the package are analysed in place; everything else is modelled here.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (it *Interp) inPkg(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	if fn.Pkg == it.pkg {
		return true
	}
	if p := fn.Parent(); p != nil {
		return it.inPkg(p)
	}
	if fn.Synthetic != "" && fn.Object() != nil && fn.Object().Pkg() == it.pkg.Pkg {
		return true
	}
	if fn.Synthetic != "" && fn.Pkg == nil {
		// wrappers and bound methods: analysed in place whatever they wrap
		return true
	}
	return false
}

func ret(st *State, vals ...*Term) []Outcome { return []Outcome{{kind: 'r', vals: vals, st: st}} }

func (it *Interp) callTerm(st *State, fn *Term, meth *types.Func, recv *Term, args []*Term, common *ssa.CallCommon, in ssa.Instruction, isDefer bool, roots []*Term) []Outcome {
	if meth != nil {
		// dynamic dispatch
		if recv.op == OIface {
			if sel := it.prog.MethodSets.MethodSet(recv.typ).Lookup(meth.Pkg(), meth.Name()); sel != nil {
				if f := it.prog.MethodValue(sel); f != nil {
					return it.callFn(st, f, append([]*Term{recv.args[0]}, args...), nil, common, in, isDefer, roots)
				}
			}
		}
		switch n := st.f.isNil(recv); {
		case n == 1 || (n == 0 && it.mayNil(recv)):
			var outs []Outcome
			if it.oblig != nil {
				it.oblig(it, st, "nil", false, in, recv.String())
			}
			s2 := st.clone()
			it.emit(s2, &Event{kind: "rtpanic", instr: in, name: "nil interface call"})
			outs = append(outs, Outcome{kind: 'p', vals: []*Term{AppNN("runtimeerror:nil", nil)}, st: s2})
			if n == 1 || !st.assume(Eq(recv, Nil), false) {
				return outs
			}
			return append(outs, it.ifaceCall(st, meth, recv, args, common, in, isDefer, roots)...)
		case n == 0:
			st.assume(Eq(recv, Nil), false)
		}
		return it.ifaceCall(st, meth, recv, args, common, in, isDefer, roots)
	}
	switch fn.op {
	case OFunc:
		return it.callFn(st, fn.fn, args, nil, common, in, isDefer, roots)
	case OClosure:
		return it.callFn(st, fn.fn, args, fn.args, common, in, isDefer, roots)
	case OConst:
		if s, ok := fn.isStr(); ok && strings.HasPrefix(s, "builtin:") {
			return it.builtin(st, s[8:], args, common, in, isDefer)
		}
	}
	return it.userCall(st, fn, args, common, in)
}

func (it *Interp) callFn(st *State, f *ssa.Function, args, binds []*Term, common *ssa.CallCommon, in ssa.Instruction, isDefer bool, roots []*Term) []Outcome {
	if it.onCall != nil {
		if o, handled := it.onCall(it, st, f, args, in); handled {
			return o
		}
	}
	if it.inPkg(f) && !it.isLogMethod(f) {
		if it.onWrap != nil {
			if after := it.onWrap(it, st, f, args); after != nil {
				outs := it.Call(f, args, binds, st, isDefer, in, roots)
				after(outs)
				return outs
			}
		}
		return it.Call(f, args, binds, st, isDefer, in, roots)
	}
	return it.extCall(st, f, args, common, in, isDefer)
}

// isLogMethod: the package's logger only prints.
func (it *Interp) isLogMethod(f *ssa.Function) bool {
	r := f.Signature.Recv()
	if r == nil {
		return false
	}
	t := r.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == it.pkg.Pkg && n.Obj().Name() == "Log" && strings.HasPrefix(f.Name(), "Print")
}

// userCall is a call of a function value supplied by the user of the package.
func (it *Interp) userCall(st *State, fn *Term, args []*Term, common *ssa.CallCommon, in ssa.Instruction) []Outcome {
	var outs []Outcome
	n := st.f.isNil(fn)
	if n == 1 || (n == 0 && it.nilFunc != nil && it.nilFunc(st, fn)) {
		s2 := st.clone()
		if it.oblig != nil {
			it.oblig(it, s2, "nil func", false, in, fn.String())
		}
		it.emit(s2, &Event{kind: "rtpanic", instr: in, name: "nil function call"})
		outs = append(outs, Outcome{kind: 'p', vals: []*Term{AppNN("runtimeerror:nil", nil)}, st: s2})
		if n == 1 || !st.assume(Eq(fn, Nil), false) {
			return outs
		}
	}
	it.emit(st, &Event{kind: "usercall", instr: in, args: append([]*Term{fn}, args...)})
	if it.panicCalls {
		s2 := st.clone()
		it.emit(s2, &Event{kind: "userpanic", instr: in, args: append([]*Term{fn}, args...)})
		outs = append(outs, Outcome{kind: 'p', vals: []*Term{SymNN("userpanic", nil)}, st: s2})
	}
	if it.userEffect != nil {
		if alt := it.userEffect(st, fn, args); alt != nil {
			for _, s2 := range alt {
				var vals []*Term
				if common != nil {
					res := common.Signature().Results()
					for i := 0; i < res.Len(); i++ {
						vals = append(vals, it.fresh(in, fmt.Sprintf("user%d", i), res.At(i).Type()))
					}
				}
				outs = append(outs, Outcome{kind: 'r', vals: vals, st: s2})
			}
			return outs
		}
	}
	it.havocUser(st, args)
	it.emit(st, &Event{kind: "userret", instr: in, args: append([]*Term{fn}, args...)})
	var vals []*Term
	if common != nil {
		res := common.Signature().Results()
		for i := 0; i < res.Len(); i++ {
			vals = append(vals, it.fresh(in, fmt.Sprintf("user%d", i), res.At(i).Type()))
		}
	}
	return append(outs, Outcome{kind: 'r', vals: vals, st: st})
}

// connField: field of a Context that belongs to the connection, user code does not reassign it. Unexported fields are
// out of its reach, but the chain and the position in it, which exported methods change.
func connField(f *types.Var) bool {
	switch f.Name() {
	case "Conn", "L", "PacketConn", "Addr", "PerConnectionContext", "Packx":
		return true
	}
	if f.Exported() {
		return false
	}
	if _, ok := f.Type().Underlying().(*types.Slice); ok {
		return false
	}
	_, basic := f.Type().Underlying().(*types.Basic)
	return !basic
}

// havocUser forgets what user code may change through its arguments.
func (it *Interp) havocUser(st *State, args []*Term) {
	for _, a := range args {
		it.havocArg(st, a)
	}
	// state behind connection-wide pointers
	st.fepoch["*int"]++
	for k := range st.mem {
		if k.isApp("smap") {
			delete(st.mem, k)
		}
	}
	st.fepoch["smap"]++
}

func (it *Interp) havocArg(st *State, a *Term) {
	if a.op == OIface {
		it.havocArg(st, a.args[0])
		return
	}
	if a.op == OSlice {
		arr := a.args[0]
		if isFresh(arr) {
			if c, ok := st.mem[arr]; ok && c.op == OSeq {
				st.mem[arr] = Seq(chUnk(fmt.Sprintf("hv%d", c.id), seqLen(c.args)))
			}
		}
		return
	}
	t := a.typ
	if a.op != OObj && t != nil {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return
		}
		t = p.Elem()
	}
	if t == nil {
		return
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() == it.pkg.Pkg && n.Obj().Name() == "Context" {
		s := n.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if !connField(s.Field(i)) {
				st.havoc(FieldP(a, i, s.Field(i).Type()))
				if !isFresh(addrRoot(a)) {
					st.fepoch[fieldKey(FieldP(a, i, s.Field(i).Type()))]++
				}
			}
		}
		return
	}
	if a.op == OObj {
		st.havoc(a)
	}
}

// ifaceCall is a call through an interface whose dynamic type is unknown.
func (it *Interp) ifaceCall(st *State, meth *types.Func, recv *Term, args []*Term, common *ssa.CallCommon, in ssa.Instruction, isDefer bool, roots []*Term) []Outcome {
	name := meth.Name()
	sig := meth.Type().(*types.Signature)
	ev := &Event{kind: "method", instr: in, name: name, args: append([]*Term{recv}, args...), sig: sig}
	it.emit(st, ev)
	if o, ok := it.modelMethod(st, name, recv, args, sig, in); ok {
		return o
	}
	return it.defaultResults(st, "m:"+name, append([]*Term{recv}, args...), sig, in, false)
}

// defaultResults: unknown code returned. A trailing error splits into success and failure.
func (it *Interp) defaultResults(st *State, name string, args []*Term, sig *types.Signature, in ssa.Instruction, pure bool) []Outcome {
	res := sig.Results()
	n := res.Len()
	if n == 0 {
		return ret(st)
	}
	isErr := types.TypeString(res.At(n-1).Type(), nil) == "error"
	mk := func(i int, nn bool, what string) *Term {
		t := res.At(i).Type()
		if pure {
			nm := fmt.Sprintf("%s#%d", name, i)
			if n == 1 {
				nm = name
			}
			if nn {
				return typed(AppNN(nm, t, args...), t)
			}
			return typed(App(nm, t, args...), t)
		}
		if nn {
			return it.freshNN(in, what+fmt.Sprint(i)+":"+name, t)
		}
		return it.fresh(in, what+fmt.Sprint(i)+":"+name, t)
	}
	ptrish := func(t types.Type) bool {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Signature, *types.Map, *types.Chan:
			return true
		}
		return false
	}
	if !isErr {
		var vals []*Term
		for i := 0; i < n; i++ {
			vals = append(vals, mk(i, ptrish(res.At(i).Type()) && !pure, "res"))
		}
		return ret(st, vals...)
	}
	ok := st.clone()
	var okv, bad []*Term
	for i := 0; i < n-1; i++ {
		okv = append(okv, mk(i, ptrish(res.At(i).Type()), "ok"))
		bad = append(bad, zeroOf(res.At(i).Type()))
	}
	okv = append(okv, Nil)
	bad = append(bad, it.freshNN(in, "err:"+name, res.At(n-1).Type()))
	if it.onErr != nil {
		it.onErr(it, ok, st, name, in)
	}
	it.emit(ok, &Event{kind: "ok", name: name, instr: in, args: append(append([]*Term{}, okv[:n-1]...), args...)})
	it.emit(st, &Event{kind: "err", name: name, instr: in, args: args})
	return []Outcome{{kind: 'r', vals: okv, st: ok}, {kind: 'r', vals: bad, st: st}}
}

// ---------------------------------------------------------------- builtins

func (it *Interp) builtin(st *State, name string, args []*Term, common *ssa.CallCommon, in ssa.Instruction, isDefer bool) []Outcome {
	switch name {
	case "len", "cap":
		a := args[0]
		t := common.Args[0].Type()
		switch u := t.Underlying().(type) {
		case *types.Slice:
			a = typed(a, t)
			if name == "len" {
				return ret(st, a.args[2])
			}
			return ret(st, a.args[3])
		case *types.Array:
			return ret(st, Int(u.Len()))
		case *types.Pointer:
			if at, ok := u.Elem().Underlying().(*types.Array); ok {
				return ret(st, Int(at.Len()))
			}
		case *types.Map:
			if a == Nil || st.f.isNil(a) == 1 {
				return ret(st, Int(0))
			}
			if it.onAccess != nil {
				it.emit(st, &Event{kind: "mapget", instr: in, args: []*Term{a, Nil}})
			}
			ref := st.mapRef(a)
			if ref.op == OSeq && len(ref.args) == 0 {
				return ret(st, Int(0))
			}
			return ret(st, App("len", types.Typ[types.Int], ref))
		case *types.Chan:
			return ret(st, App("len", types.Typ[types.Int], a))
		}
		return ret(st, strLen(a))
	case "append":
		return it.appendB(st, args, common, in)
	case "copy":
		dst := typed(args[0], common.Args[0].Type())
		var srcLen *Term
		var content []*Term
		if isStringType(common.Args[1].Type()) {
			srcLen = strLen(args[1])
			content = []*Term{chRegion(App("strbytes", nil, args[1]), Int(0), srcLen)}
		} else {
			src := typed(args[1], common.Args[1].Type())
			srcLen = src.args[2]
			content = st.sliceContent(src)
		}
		it.emit(st, &Event{kind: "copy", instr: in, args: args})
		dl := dst.args[2]
		switch {
		case st.f.entails(Le(srcLen, dl)):
			st.writeSlice(dst, content)
			return ret(st, srcLen)
		case st.f.entails(Le(dl, srcLen)):
			if c, ok := seqSub(st.f, content, Int(0), dl); ok {
				st.writeSlice(dst, c)
			} else {
				st.writeSlice(dst, []*Term{chUnk("copy"+instrID(in), dl)})
			}
			return ret(st, dl)
		}
		// split on which is shorter
		s2 := st.clone()
		var outs []Outcome
		if st.assume(Le(srcLen, dl), true) {
			st.writeSlice(dst, content)
			outs = append(outs, Outcome{kind: 'r', vals: []*Term{srcLen}, st: st})
		}
		if s2.assume(Le(srcLen, dl), false) {
			if c, ok := seqSub(s2.f, content, Int(0), dl); ok {
				s2.writeSlice(dst, c)
			} else {
				s2.writeSlice(dst, []*Term{chUnk("copy"+instrID(in), dl)})
			}
			outs = append(outs, Outcome{kind: 'r', vals: []*Term{dl}, st: s2})
		}
		return outs
	case "close":
		ch := args[0]
		it.emit(st, &Event{kind: "close", instr: in, args: args})
		// closing a closed or nil channel panics
		var outs []Outcome
		key := App("closed", types.Typ[types.Bool], ch)
		known, have := st.mem[key]
		if have && known == True {
			it.emit(st, &Event{kind: "rtpanic", instr: in, name: "close of closed channel"})
			return []Outcome{{kind: 'p', vals: []*Term{AppNN("runtimeerror:close", nil)}, st: st}}
		}
		if have && known != False || !have && it.mayClosed(st, ch) {
			s2 := st.clone()
			it.emit(s2, &Event{kind: "rtpanic", instr: in, name: "close of closed channel"})
			outs = append(outs, Outcome{kind: 'p', vals: []*Term{AppNN("runtimeerror:close", nil)}, st: s2})
		}
		st.mem[key] = True
		it.emit(st, &Event{kind: "closed", instr: in, args: args})
		return append(outs, Outcome{kind: 'r', st: st})
	case "delete":
		it.emit(st, &Event{kind: "mapdel", instr: in, args: args})
		st.mapPut(args[0], App("del", nil, args[1]))
		return ret(st)
	case "recover":
		n := len(st.panics)
		top := it.stack[len(it.stack)-1]
		if n > 0 && top.isDefer && st.panics[n-1].at == len(it.stack)-1 {
			v := st.panics[n-1].v
			st.panics = st.panics[: n-1 : n-1]
			it.emit(st, &Event{kind: "recovered", instr: in, args: []*Term{v}})
			return ret(st, v)
		}
		return ret(st, Nil)
	case "print", "println":
		return ret(st)
	case "ssa:wrapnilchk":
		return ret(st, args[0])
	case "min", "max":
		return ret(st, it.fresh(in, name, common.Args[0].Type()))
	}
	it.undecided("builtin %s", name)
	return ret(st)
}

// mayClosed: can another goroutine have closed ch already?  Channels created by this analysis
// entry that were not shared yet cannot.
func (it *Interp) mayClosed(st *State, ch *Term) bool {
	if !isFresh(ch) || it.shared(ch) {
		return true
	}
	if it.sharedCtx != nil {
		// created before this goroutine was started, and kept in an object others can reach
		if c := it.symCtx[ch]; c != nil && !c.under(it.sharedCtx) {
			for p, v := range st.mem {
				if v == ch && p.op == OFieldP {
					return true
				}
			}
		}
	}
	return false
}
func (it *Interp) shared(ch *Term) bool { return it.sharedObj != nil && it.sharedObj(ch) }

func (it *Interp) appendB(st *State, args []*Term, common *ssa.CallCommon, in ssa.Instruction) []Outcome {
	t := common.Args[0].Type()
	base := typed(args[0], t)
	et := t.Underlying().(*types.Slice).Elem()
	var extra []*Term
	n := Int(0)
	if len(args) > 1 {
		if isStringType(common.Args[1].Type()) {
			n = strLen(args[1])
			extra = []*Term{chRegion(App("strbytes", nil, args[1]), Int(0), n)}
		} else {
			src := typed(args[1], common.Args[1].Type())
			n = src.args[2]
			extra = st.sliceContent(src)
		}
	}
	it.emit(st, &Event{kind: "append", instr: in, args: []*Term{base, Nil}, elems: extra})
	if k, ok := n.isInt(); ok && k == 0 {
		return ret(st, base)
	}
	content := append(append([]*Term{}, st.sliceContent(base)...), extra...)
	o := it.newObj(in, "append", types.NewArray(et, 0))
	ln := Add(base.args[2], n)
	cp := it.freshAtom(in, "appcap", types.Typ[types.Int], false)
	f := st.f.clone()
	f.addIneq(Sub(ln, cp))
	st.f = f
	st.mem[o] = Seq(append(seqNormF(st.f, content), chUnk("spare"+instrID(in), Sub(cp, ln)))...)
	delete(st.epoch, o)
	isnil := False
	if !st.f.entails(Lt(Int(0), ln)) {
		isnil = App("appnil", types.Typ[types.Bool], base, ln)
		if st.f.entails(Eq(base, Nil)) || base.args[4] == True {
			isnil = EqI(ln, Int(0))
		} else if base.args[4] == False {
			isnil = False
		}
	}
	return ret(st, mkSlice(o, Int(0), ln, cp, isnil))
}
