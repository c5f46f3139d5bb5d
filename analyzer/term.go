package main

// Hash-consed abstract values (value numbering).  Two program expressions that are
// mapped to the same *Term are known to hold the same value on every execution.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Op uint8

const (
	OConst   Op = iota // integer, string, bool, other constants
	ONil               // nil of any type
	OSym               // an unknown value
	OLin               // linear integer expression
	OApp               // uninterpreted function of other values
	OObj               // address of an object allocated by the analysed code
	OFieldP            // address of a field        args[0]=pointer to struct, c=field index
	OElemP             // address of an element     args[0]=array handle, args[1]=index
	OSlice             // slice header              args=[array, off, len, cap, isnil]
	OStruct            // struct value
	OFunc              // function
	OClosure           // closure                   args=bindings
	OIface             // non-nil interface holding args[0]
	OTuple             // multiple results
	OSeq               // contents of an array      args=chunks
)

type Term struct {
	id    int
	op    Op
	name  string
	typ   types.Type
	args  []*Term
	c     int64
	coefs []int64
	fn    *ssa.Function
	loop  *LoopInfo
	flag  uint8 // 1: known non-nil
}

const FNonNil = 1
const FFresh = 2 // object allocated by the analysed code: distinct from everything that existed before

var (
	termTab  = map[string]*Term{}
	allTerms []*Term
)

func intern(t Term) *Term {
	b := make([]byte, 0, 64)
	b = append(b, byte(t.op), t.flag)
	b = append(b, t.name...)
	b = append(b, '|')
	b = strconv.AppendInt(b, t.c, 36)
	b = append(b, '|')
	for _, a := range t.args {
		b = strconv.AppendInt(b, int64(a.id), 36)
		b = append(b, ',')
	}
	for _, c := range t.coefs {
		b = append(b, ';')
		b = strconv.AppendInt(b, c, 36)
	}
	if t.fn != nil {
		b = append(b, fmt.Sprintf("|%p", t.fn)...)
	}
	if t.op == OIface || t.op == OStruct {
		b = append(b, '|')
		b = append(b, types.TypeString(t.typ, nil)...)
	}
	if r, ok := termTab[string(b)]; ok {
		return r
	}
	r := new(Term)
	*r = t
	r.id = len(allTerms)
	allTerms = append(allTerms, r)
	termTab[string(b)] = r
	return r
}

var (
	Nil   = intern(Term{op: ONil})
	True  = intern(Term{op: OConst, name: "true", typ: types.Typ[types.Bool]})
	False = intern(Term{op: OConst, name: "false", typ: types.Typ[types.Bool]})
)

func Int(c int64) *Term { return intern(Term{op: OConst, name: "i", c: c, typ: types.Typ[types.Int]}) }
func Str(s string) *Term {
	return intern(Term{op: OConst, name: "s" + s, typ: types.Typ[types.String]})
}
func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}
func Sym(name string, typ types.Type) *Term { return intern(Term{op: OSym, name: name, typ: typ}) }
func SymNN(name string, typ types.Type) *Term {
	return intern(Term{op: OSym, name: name, typ: typ, flag: FNonNil})
}
func App(name string, typ types.Type, args ...*Term) *Term {
	return intern(Term{op: OApp, name: name, typ: typ, args: args})
}
func AppNN(name string, typ types.Type, args ...*Term) *Term {
	return intern(Term{op: OApp, name: name, typ: typ, args: args, flag: FNonNil})
}
func Tuple(args ...*Term) *Term { return intern(Term{op: OTuple, args: args}) }
func Seq(chunks ...*Term) *Term { return intern(Term{op: OSeq, args: chunks}) }

func (t *Term) isInt() (int64, bool) {
	if t.op == OConst && t.name == "i" {
		return t.c, true
	}
	return 0, false
}
func (t *Term) isStr() (string, bool) {
	if t.op == OConst && strings.HasPrefix(t.name, "s") && t.typ == types.Typ[types.String] {
		return t.name[1:], true
	}
	return "", false
}
func (t *Term) isConst() bool { return t.op == OConst }

// isApp reports whether t is an application of name.
func (t *Term) isApp(name string) bool { return t.op == OApp && t.name == name }

// ---------------------------------------------------------------- linear integers

// lin view: constant + sum coef*atom
type lin struct {
	c  int64
	at []*Term
	k  []int64
}

func toLin(t *Term) lin {
	if c, ok := t.isInt(); ok {
		return lin{c: c}
	}
	if t.op == OLin {
		return lin{t.c, t.args, t.coefs}
	}
	return lin{0, []*Term{t}, []int64{1}}
}

func fromLin(l lin) *Term {
	if len(l.at) == 0 {
		return Int(l.c)
	}
	if len(l.at) == 1 && l.k[0] == 1 && l.c == 0 {
		return l.at[0]
	}
	return intern(Term{op: OLin, c: l.c, args: l.at, coefs: l.k, typ: types.Typ[types.Int]})
}

func linAdd(a lin, b lin, kb int64) lin {
	r := lin{c: a.c + kb*b.c, at: make([]*Term, 0, len(a.at)+len(b.at)), k: make([]int64, 0, len(a.at)+len(b.at))}
	i, j := 0, 0
	for i < len(a.at) || j < len(b.at) {
		switch {
		case j >= len(b.at) || i < len(a.at) && a.at[i].id < b.at[j].id:
			r.at, r.k = append(r.at, a.at[i]), append(r.k, a.k[i])
			i++
		case i >= len(a.at) || b.at[j].id < a.at[i].id:
			if k := b.k[j] * kb; k != 0 {
				r.at, r.k = append(r.at, b.at[j]), append(r.k, k)
			}
			j++
		default:
			if k := a.k[i] + b.k[j]*kb; k != 0 {
				r.at, r.k = append(r.at, a.at[i]), append(r.k, k)
			}
			i++
			j++
		}
	}
	return r
}

func Add(a, b *Term) *Term { return fromLin(linAdd(toLin(a), toLin(b), 1)) }
func Sub(a, b *Term) *Term { return fromLin(linAdd(toLin(a), toLin(b), -1)) }
func AddC(a *Term, c int64) *Term {
	return fromLin(linAdd(toLin(a), lin{c: c}, 1))
}
func MulC(a *Term, c int64) *Term { return fromLin(linAdd(lin{}, toLin(a), c)) }

// ---------------------------------------------------------------- booleans

// Le0 is the boolean a<=0, Eq0 is a==0.
func Le0(a *Term) *Term {
	l := toLin(a)
	if len(l.at) == 0 {
		return Bool(l.c <= 0)
	}
	// integer tightening: divide by gcd
	g := l.k[0]
	for _, k := range l.k {
		g = gcd(g, k)
	}
	if g < 0 {
		g = -g
	}
	if g > 1 {
		nk := make([]int64, len(l.k))
		for i := range nk {
			nk[i] = l.k[i] / g
		}
		l = lin{ceilDiv(l.c, g), l.at, nk}
	}
	return App("le0", types.Typ[types.Bool], fromLin(l))
}
func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func ceilDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && a > 0 {
		q++
	}
	return q
}
func Lt(a, b *Term) *Term { return Le0(AddC(Sub(a, b), 1)) }
func Le(a, b *Term) *Term { return Le0(Sub(a, b)) }
func EqI(a, b *Term) *Term {
	l := toLin(Sub(a, b))
	if len(l.at) == 0 {
		return Bool(l.c == 0)
	}
	if l.k[0] < 0 {
		l = linAdd(lin{}, l, -1)
	}
	return App("eq0", types.Typ[types.Bool], fromLin(l))
}

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.isApp("not"):
		return a.args[0]
	case a.isApp("le0"):
		return Le0(AddC(MulC(a.args[0], -1), 1)) // !(a<=0) == (1-a<=0)
	}
	return App("not", types.Typ[types.Bool], a)
}

// definitely non-nil
func (t *Term) nonNil() bool {
	if t.flag&FNonNil != 0 {
		return true
	}
	switch t.op {
	case OObj, OFieldP, OElemP, OFunc, OClosure, OIface, OStruct:
		return true
	case OConst:
		return true
	}
	return false
}

// Eq is equality of two non-integer values.
func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a == Nil {
		a, b = b, a
	}
	if b == Nil {
		if a.op == OSlice {
			return a.args[4]
		}
		if a.nonNil() {
			return False
		}
		return App("isnil", types.Typ[types.Bool], a)
	}
	if a.op == OConst && b.op == OConst {
		return False
	}
	if (a.op == OObj && a.flag&FFresh != 0 && b.op == OObj) || (b.op == OObj && b.flag&FFresh != 0 && a.op == OObj) {
		return False // distinct objects
	}
	if a.op == OIface && b.op == OIface {
		if !types.Identical(a.typ, b.typ) {
			return False
		}
		return Eq(a.args[0], b.args[0])
	}
	if a.id > b.id {
		a, b = b, a
	}
	return App("eq", types.Typ[types.Bool], a, b)
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// intRange returns the representable range of an integer type; ok=false for 64-bit types,
// whose arithmetic is assumed not to overflow (assumption A1 of DESIGN.md).
func intRange(t types.Type) (lo, hi int64, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return -1 << 7, 1<<7 - 1, true
	case types.Uint8:
		return 0, 1<<8 - 1, true
	case types.Int16:
		return -1 << 15, 1<<15 - 1, true
	case types.Uint16:
		return 0, 1<<16 - 1, true
	case types.Int32:
		return -1 << 31, 1<<31 - 1, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	}
	return 0, 0, false
}
func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Int:
		if v, ok := constant.Int64Val(c.Value); ok {
			return Int(v)
		}
		return App("bigconst:"+c.Value.ExactString(), c.Type())
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return Str(constant.StringVal(c.Value))
	}
	return intern(Term{op: OConst, name: "x" + c.Value.ExactString(), typ: c.Type()})
}

// opaque struct types (those of other packages) are atomic values.
func isOpaque(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() != rootPath {
		if n.Obj().Pkg().Path() == "crypto/tls" && n.Obj().Name() == "Config" {
			return false // its fields are tracked (C24)
		}
		_, st := n.Underlying().(*types.Struct)
		return st
	}
	return false
}
func structOf(t types.Type) *types.Struct {
	if isOpaque(t) {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return Int(0)
		}
		if u.Info()&types.IsBoolean != 0 {
			return False
		}
		if u.Info()&types.IsString != 0 {
			return Str("")
		}
		if u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer {
			return Nil
		}
		return intern(Term{op: OConst, name: "x0", typ: t})
	case *types.Struct:
		if isOpaque(t) {
			return App("zero:"+types.TypeString(t, nil), t)
		}
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = zeroOf(u.Field(i).Type())
		}
		return intern(Term{op: OStruct, typ: t, args: args})
	case *types.Slice:
		return nilSlice
	case *types.Array:
		return Seq(chZero(Int(u.Len())))
	}
	return Nil
}

var nilSlice = intern(Term{op: OSlice, args: []*Term{Nil, Int(0), Int(0), Int(0), True}})

func mkSlice(arr, off, ln, cp, isnil *Term) *Term {
	return intern(Term{op: OSlice, args: []*Term{arr, off, ln, cp, isnil}})
}

// typed wraps an atomic term as a value of type t (slices get a header).
func typed(x *Term, t types.Type) *Term {
	if t == nil {
		return x
	}
	if _, ok := t.Underlying().(*types.Slice); ok && x.op != OSlice {
		if x == Nil {
			return nilSlice
		}
		isnil := False
		if x.flag&FNonNil == 0 {
			isnil = App("isnil", types.Typ[types.Bool], x)
		}
		return mkSlice(App("arr", nil, x), Int(0), App("len", types.Typ[types.Int], x), App("cap", types.Typ[types.Int], x), isnil)
	}
	if st := structOf(t); st != nil && x.op != OStruct {
		args := make([]*Term, st.NumFields())
		for i := range args {
			args[i] = typed(App(fmt.Sprintf("field%d", i), st.Field(i).Type(), x), st.Field(i).Type())
		}
		return intern(Term{op: OStruct, typ: t, args: args})
	}
	return x
}

// base returns the root of an address.
func addrRoot(p *Term) *Term {
	for p.op == OFieldP || p.op == OElemP {
		p = p.args[0]
	}
	return p
}

// FieldP and ElemP carry the type of what they point to.
func FieldP(p *Term, i int, t types.Type) *Term {
	return intern(Term{op: OFieldP, args: []*Term{p}, c: int64(i), typ: t})
}
func ElemP(arr, i *Term, t types.Type) *Term {
	return intern(Term{op: OElemP, args: []*Term{arr, i}, typ: t})
}

// contains reports whether x occurs in t.
func (t *Term) contains(pred func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if pred(t) {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// subst replaces atoms in t.
func subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		na := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			na[i] = rec(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			switch {
			case t.op == OLin:
				l := lin{c: t.c}
				for i := range na {
					l = linAdd(l, toLin(na[i]), t.coefs[i])
				}
				r = fromLin(l)
			case t.isApp("le0"):
				r = Le0(na[0])
			case t.isApp("eq0"):
				r = EqI(na[0], Int(0))
			case t.isApp("not"):
				r = Not(na[0])
			case t.isApp("eq"):
				r = Eq(na[0], na[1])
			case t.isApp("isnil"):
				r = Eq(na[0], Nil)
			default:
				c := *t
				c.args = na
				r = intern(c)
				if t.loop != nil {
					r.loop = t.loop
				}
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if t == nil {
		return "<none>"
	}
	if d > 9 {
		return "…"
	}
	switch t.op {
	case OConst:
		if c, ok := t.isInt(); ok {
			return fmt.Sprint(c)
		}
		if s, ok := t.isStr(); ok {
			return fmt.Sprintf("%q", s)
		}
		return t.name
	case ONil:
		return "nil"
	case OSym:
		return t.name
	case OObj:
		return "&" + t.name
	case OLin:
		var s []string
		for i, a := range t.args {
			switch t.coefs[i] {
			case 1:
				s = append(s, a.str(d+1))
			default:
				s = append(s, fmt.Sprintf("%d*%s", t.coefs[i], a.str(d+1)))
			}
		}
		if t.c != 0 {
			s = append(s, fmt.Sprint(t.c))
		}
		return "(" + strings.Join(s, " + ") + ")"
	case OFieldP:
		return fmt.Sprintf("%s.f%d", t.args[0].str(d+1), t.c)
	case OElemP:
		return fmt.Sprintf("%s[%s]", t.args[0].str(d+1), t.args[1].str(d+1))
	case OFunc:
		return t.fn.Name()
	case OClosure:
		return "closure " + t.fn.Name()
	case OIface:
		return fmt.Sprintf("%s(%s)", shortType(t.typ), t.args[0].str(d+1))
	}
	var s []string
	for _, a := range t.args {
		s = append(s, a.str(d+1))
	}
	n := t.name
	switch t.op {
	case OSlice:
		n = "slice"
	case OStruct:
		n = shortType(t.typ)
	case OTuple:
		n = ""
	case OSeq:
		n = "seq"
	}
	switch {
	case t.isApp("le0") && len(t.args) == 1:
		return t.args[0].str(d+1) + " <= 0"
	case t.isApp("eq0"):
		return t.args[0].str(d+1) + " == 0"
	}
	x := ""
	if t.loop != nil {
		x = fmt.Sprintf("#%d", t.loop.id)
	}
	return n + x + "(" + strings.Join(s, ", ") + ")"
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}
