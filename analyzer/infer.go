package main

// Invariants inferred from the whole package before the interpretation: lower bounds of integer
// fields only the package writes, and the types stored under constant keys.

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type invariants struct {
	low  map[string]int64 // "Type.index" -> lower bound of the field
	keys map[string]types.Type
}

var invC = map[*ssa.Package]*invariants{}

func (it *Interp) inv() *invariants {
	if v := invC[it.pkg]; v != nil {
		return v
	}
	v := &invariants{low: map[string]int64{}, keys: map[string]types.Type{}}
	invC[it.pkg] = v
	p := &Program{prog: it.prog, pkg: it.pkg}
	bad := map[string]bool{}
	cand := map[string]int64{}
	badKey := map[string]bool{}
	fieldOf := func(a ssa.Value) string {
		fa, ok := a.(*ssa.FieldAddr)
		if !ok {
			return ""
		}
		n, ok := types.Unalias(deref(fa.X.Type())).(*types.Named)
		if !ok || n.Obj().Pkg() != it.pkg.Pkg {
			return ""
		}
		s, ok := n.Underlying().(*types.Struct)
		if !ok || s.Field(fa.Field).Exported() || !isIntType(s.Field(fa.Field).Type()) {
			return ""
		}
		return n.Obj().Name() + "." + itoa(fa.Field)
	}
	for _, f := range p.AllFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					k := fieldOf(x.Addr)
					if k == "" {
						continue
					}
					if _, ok := cand[k]; !ok {
						cand[k] = 0
					}
					switch v := x.Val.(type) {
					case *ssa.Const:
						if c := v.Int64(); c < cand[k] {
							cand[k] = c
						}
						continue
					case *ssa.BinOp:
						if c, ok := v.Y.(*ssa.Const); ok && v.Op == token.ADD && c.Int64() >= 0 {
							if u, ok := v.X.(*ssa.UnOp); ok && u.Op == token.MUL && fieldOf(u.X) == k {
								continue
							}
						}
					case *ssa.UnOp:
						if v.Op == token.MUL && fieldOf(v.X) == k {
							continue // copied from another object
						}
					case *ssa.Call:
						if bi, ok := v.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
							continue
						}
					}
					bad[k] = true
				case *ssa.FieldAddr:
					// the address escapes: anybody may write
					if k := fieldOf(x); k != "" {
						for _, r := range *x.Referrers() {
							switch r := r.(type) {
							case *ssa.UnOp, *ssa.DebugRef:
							case *ssa.Store:
								if r.Addr != x {
									bad[k] = true
								}
							default:
								bad[k] = true
							}
						}
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					args := ci.Common().Args
					for i := 0; i+1 < len(args); i++ {
						mi, ok := args[i].(*ssa.MakeInterface)
						if !ok {
							continue
						}
						c, ok := mi.X.(*ssa.Const)
						if !ok || c.Value == nil || c.Value.Kind() != constant.String {
							continue
						}
						key := constant.StringVal(c.Value)
						if mv, ok := args[i+1].(*ssa.MakeInterface); ok {
							t := mv.X.Type()
							if o := v.keys[key]; o != nil && !types.Identical(o, t) {
								badKey[key] = true
							}
							v.keys[key] = t
						}
					}
				}
			}
		}
	}
	for k, c := range cand {
		if !bad[k] {
			v.low[k] = c
		}
	}
	for k := range badKey {
		delete(v.keys, k)
	}
	return v
}

// fieldFacts adds what is known of the value v loaded from p.
func (it *Interp) fieldFacts(st *State, p, v *Term) {
	if p.op != OFieldP || v.isConst() || len(it.inv().low) == 0 {
		return
	}
	n := pointee(p.args[0])
	if n == nil {
		return
	}
	if c, ok := it.inv().low[n.Obj().Name()+"."+itoa(int(p.c))]; ok {
		if !st.f.entails(Le(Int(c), v)) {
			st.leFact(Int(c), v)
		}
	}
}

// keyedValue: v was found under a constant key, under which only values of type T are stored.
func (it *Interp) keyedValue(v *Term, T types.Type) *Term {
	if v.op != OApp || v.name != "smget" || len(v.args) == 0 {
		return nil
	}
	k := v.args[len(v.args)-1]
	if k.op == OIface {
		k = k.args[0]
	}
	s, ok := k.isStr()
	if !ok {
		return nil
	}
	if t := it.inv().keys[s]; t != nil && types.Identical(t, T) {
		return typed(AppNN("dyn:"+types.TypeString(T, nil), T, v), T)
	}
	return nil
}
