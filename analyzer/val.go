package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V is an abstract value. Values are hash-consed: pointer equality is
// structural equality.
type Kind uint8

const (
	KSym   Kind = iota // opaque value with an identity
	KConst             // int64, bool or string constant
	KNil
	KObj    // address of an abstract object
	KFld    // address of field Idx of struct at A[0]
	KElem   // address of element A[1] of A[0] (array object, slice base, map)
	KLin    // linear form: sum Coef[i]*A[i] + C
	KExpr   // operator application
	KSlice  // A[0][A[1]:A[2]]
	KCat    // concatenation of byte/element sequences
	KClos   // closure Fn with bindings A
	KTuple  // multi value
	KIface  // interface holding A[0] of dynamic type Typ
	KStruct // struct snapshot
)

type V struct {
	ID   int
	Kind Kind
	Name string // KSym, KObj: name; KExpr: operator
	Typ  types.Type
	A    []*V
	Coef []int64
	C    int64
	S    string // string constants
	Idx  int
	Fn   *ssa.Function
	key  string
}

var (
	vtab = map[string]*V{}
	vall []*V
)

func intern(key string, mk func() *V) *V {
	if v, ok := vtab[key]; ok {
		return v
	}
	v := mk()
	v.key = key
	v.ID = len(vall)
	vall = append(vall, v)
	vtab[key] = v
	return v
}

func ids(a []*V) string {
	var b strings.Builder
	for i, x := range a {
		if i > 0 {
			b.WriteByte(',')
		}
		fmt.Fprintf(&b, "%d", x.ID)
	}
	return b.String()
}

func sym(name string, t types.Type) *V {
	return intern("s:"+name, func() *V { return &V{Kind: KSym, Name: name, Typ: t} })
}
func kInt(n int64) *V {
	return intern(fmt.Sprintf("i:%d", n), func() *V { return &V{Kind: KConst, Name: "int", C: n} })
}
func kBool(b bool) *V {
	n := int64(0)
	if b {
		n = 1
	}
	return intern(fmt.Sprintf("b:%d", n), func() *V { return &V{Kind: KConst, Name: "bool", C: n} })
}
func kStr(s string) *V {
	return intern("q:"+s, func() *V { return &V{Kind: KConst, Name: "string", S: s} })
}

var vNil = intern("nil", func() *V { return &V{Kind: KNil} })

func obj(name string, t types.Type) *V {
	return intern("o:"+name, func() *V { return &V{Kind: KObj, Name: name, Typ: t} })
}
func fld(base *V, i int, t types.Type) *V {
	return intern(fmt.Sprintf("f:%d.%d", base.ID, i), func() *V { return &V{Kind: KFld, A: []*V{base}, Idx: i, Typ: t} })
}
func elem(base, i *V, t types.Type) *V {
	return intern(fmt.Sprintf("e:%d[%d]", base.ID, i.ID), func() *V { return &V{Kind: KElem, A: []*V{base, i}, Typ: t} })
}
func expr(op string, t types.Type, a ...*V) *V {
	return intern("x:"+op+"("+ids(a)+")", func() *V { return &V{Kind: KExpr, Name: op, A: a, Typ: t} })
}
func slc(base, lo, hi *V) *V {
	return intern(fmt.Sprintf("S:%d[%d:%d]", base.ID, lo.ID, hi.ID), func() *V { return &V{Kind: KSlice, A: []*V{base, lo, hi}} })
}
func tuple(a ...*V) *V {
	return intern("t:"+ids(a), func() *V { return &V{Kind: KTuple, A: a} })
}
func iface(t types.Type, v *V) *V {
	return intern("I:"+types.TypeString(t, nil)+":"+fmt.Sprint(v.ID), func() *V { return &V{Kind: KIface, Typ: t, A: []*V{v}} })
}
func clos(fn *ssa.Function, b []*V) *V {
	return intern(fmt.Sprintf("c:%p:%s", fn, ids(b)), func() *V { return &V{Kind: KClos, Fn: fn, A: b} })
}
func strct(t types.Type, a []*V) *V {
	return intern("z:"+types.TypeString(t, nil)+":"+ids(a), func() *V { return &V{Kind: KStruct, Typ: t, A: a} })
}
func cat(a ...*V) *V {
	var out []*V
	for _, x := range a {
		if x.Kind == KCat {
			out = append(out, x.A...)
		} else if x.Kind == KNil || isEmptySlice(x) {
			continue
		} else {
			out = append(out, x)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern("C:"+ids(out), func() *V { return &V{Kind: KCat, A: out} })
}
func isEmptySlice(x *V) bool {
	return x.Kind == KSlice && x.A[1] == x.A[2]
}

// ---- linear forms ----

type linear struct {
	c map[*V]int64
	k int64
}

func toLin(v *V) linear {
	l := linear{c: map[*V]int64{}}
	switch {
	case v.Kind == KConst && v.Name == "int":
		l.k = v.C
	case v.Kind == KLin:
		for i, a := range v.A {
			l.c[a] = v.Coef[i]
		}
		l.k = v.C
	default:
		l.c[v] = 1
	}
	return l
}

func (l linear) v() *V {
	var at []*V
	for a, c := range l.c {
		if c != 0 {
			at = append(at, a)
		}
	}
	if len(at) == 0 {
		return kInt(l.k)
	}
	sort.Slice(at, func(i, j int) bool { return at[i].ID < at[j].ID })
	if len(at) == 1 && l.c[at[0]] == 1 && l.k == 0 {
		return at[0]
	}
	co := make([]int64, len(at))
	var b strings.Builder
	for i, a := range at {
		co[i] = l.c[a]
		fmt.Fprintf(&b, "%d*%d+", co[i], a.ID)
	}
	return intern(fmt.Sprintf("L:%s%d", b.String(), l.k), func() *V { return &V{Kind: KLin, A: at, Coef: co, C: l.k} })
}

func linComb(a *V, ca int64, b *V, cb int64) *V {
	x, y := toLin(a), toLin(b)
	r := linear{c: map[*V]int64{}, k: ca*x.k + cb*y.k}
	for v, c := range x.c {
		r.c[v] += ca * c
	}
	for v, c := range y.c {
		r.c[v] += cb * c
	}
	return r.v()
}
func vAdd(a, b *V) *V { return linComb(a, 1, b, 1) }
func vSub(a, b *V) *V { return linComb(a, 1, b, -1) }

// splitConst returns the linear form without its constant, normalised so that
// the first coefficient is positive, plus sign and constant: v = sign*L + k.
func splitConst(v *V) (L *V, sign int64, k int64) {
	l := toLin(v)
	k = l.k
	l.k = 0
	w := l.v()
	if w.Kind == KLin && w.Coef[0] < 0 {
		for a := range l.c {
			l.c[a] = -l.c[a]
		}
		return l.v(), -1, k
	}
	return w, 1, k
}

// ---- helpers ----

func (v *V) isInt() (int64, bool) {
	if v.Kind == KConst && v.Name == "int" {
		return v.C, true
	}
	return 0, false
}
func (v *V) isBool() (bool, bool) {
	if v.Kind == KConst && v.Name == "bool" {
		return v.C == 1, true
	}
	return false, false
}
func (v *V) isStr() (string, bool) {
	if v.Kind == KConst && v.Name == "string" {
		return v.S, true
	}
	return "", false
}

func constV(c *ssa.Const) *V {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return kBool(constant.BoolVal(c.Value))
	case constant.String:
		return kStr(constant.StringVal(c.Value))
	case constant.Int:
		if n, ok := constant.Int64Val(c.Value); ok {
			return kInt(n)
		}
		return sym("bigconst:"+c.Value.ExactString(), c.Type())
	}
	return sym("const:"+c.Value.ExactString(), c.Type())
}

func zeroOf(t types.Type) *V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return kBool(false)
		case u.Info()&types.IsInteger != 0:
			return kInt(0)
		case u.Info()&types.IsString != 0:
			return kStr("")
		}
		if u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer {
			return vNil
		}
		return sym("zero:"+t.String(), t)
	case *types.Struct:
		if libStruct(t) == "" {
			if _, named := types.Unalias(t).(*types.Named); named {
				return sym("zero:"+t.String(), t)
			}
		}
		a := make([]*V, u.NumFields())
		for i := range a {
			a[i] = zeroOf(u.Field(i).Type())
		}
		return strct(t, a)
	case *types.Array:
		return sym("zero:"+t.String(), t)
	case *types.Interface:
		if _, ok := types.Unalias(t).(*types.TypeParam); ok {
			return sym("zero:"+t.String(), t)
		}
		return vNil
	case *types.Tuple:
		a := make([]*V, u.Len())
		for i := range a {
			a[i] = zeroOf(u.At(i).Type())
		}
		return tuple(a...)
	}
	return vNil
}

func (v *V) String() string { return v.str(0) }

func (v *V) str(d int) string {
	if d > 6 {
		return "…"
	}
	args := func() string {
		var s []string
		for _, a := range v.A {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch v.Kind {
	case KSym:
		return v.Name
	case KConst:
		switch v.Name {
		case "bool":
			return fmt.Sprint(v.C == 1)
		case "string":
			return fmt.Sprintf("%q", v.S)
		}
		return fmt.Sprint(v.C)
	case KNil:
		return "nil"
	case KObj:
		return "&" + v.Name
	case KFld:
		return v.A[0].str(d+1) + "." + fieldName(v)
	case KElem:
		return v.A[0].str(d+1) + "[" + v.A[1].str(d+1) + "]"
	case KLin:
		var b strings.Builder
		for i, a := range v.A {
			if v.Coef[i] >= 0 && i > 0 {
				b.WriteString("+")
			}
			if v.Coef[i] == -1 {
				b.WriteString("-")
			} else if v.Coef[i] != 1 {
				fmt.Fprintf(&b, "%d*", v.Coef[i])
			}
			b.WriteString(a.str(d + 1))
		}
		if v.C != 0 {
			fmt.Fprintf(&b, "%+d", v.C)
		}
		return b.String()
	case KExpr:
		return v.Name + "(" + args() + ")"
	case KSlice:
		return v.A[0].str(d+1) + "[" + v.A[1].str(d+1) + ":" + v.A[2].str(d+1) + "]"
	case KCat:
		return "cat(" + args() + ")"
	case KClos:
		return "func " + v.Fn.Name() + "{" + args() + "}"
	case KTuple:
		return "(" + args() + ")"
	case KIface:
		return types.TypeString(v.Typ, shortQual) + "(" + args() + ")"
	case KStruct:
		return types.TypeString(v.Typ, shortQual) + "{" + args() + "}"
	}
	return "?"
}

func shortQual(p *types.Package) string { return p.Name() }

// fieldName returns the name of the field addressed by a KFld.
func fieldName(v *V) string {
	if st := structUnder(baseType(v.A[0])); st != nil && v.Idx < st.NumFields() {
		return st.Field(v.Idx).Name()
	}
	return fmt.Sprintf("#%d", v.Idx)
}

// baseType is the type of the object an address value points to.
func baseType(v *V) types.Type {
	if v.Typ == nil {
		return nil
	}
	switch v.Kind {
	case KObj, KFld, KElem:
		return v.Typ
	}
	if p, ok := v.Typ.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return v.Typ
}

func structUnder(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// fieldOf returns (struct name, field name) for a field address of a library struct.
func fieldOf(v *V) (string, string) {
	if v.Kind != KFld {
		return "", ""
	}
	t := baseType(v.A[0])
	if t == nil {
		return "", ""
	}
	n := namedOf(t)
	if n == nil {
		return "", fieldName(v)
	}
	return n.Obj().Name(), fieldName(v)
}

// subst replaces values inside v bottom-up.
func subst(v *V, m map[*V]*V, memo map[*V]*V) *V {
	if r, ok := m[v]; ok {
		return r
	}
	if len(v.A) == 0 {
		return v
	}
	if r, ok := memo[v]; ok {
		return r
	}
	ch := false
	a := make([]*V, len(v.A))
	for i, x := range v.A {
		a[i] = subst(x, m, memo)
		if a[i] != x {
			ch = true
		}
	}
	r := v
	if ch {
		r = rebuild(v, a)
	}
	memo[v] = r
	return r
}

func rebuild(v *V, a []*V) *V {
	switch v.Kind {
	case KFld:
		return fld(a[0], v.Idx, v.Typ)
	case KElem:
		return elem(a[0], a[1], v.Typ)
	case KLin:
		l := linear{c: map[*V]int64{}, k: v.C}
		for i := range a {
			x := toLin(a[i])
			for y, c := range x.c {
				l.c[y] += c * v.Coef[i]
			}
			l.k += x.k * v.Coef[i]
		}
		return l.v()
	case KExpr:
		return expr(v.Name, v.Typ, a...)
	case KSlice:
		return slc(a[0], a[1], a[2])
	case KCat:
		return cat(a...)
	case KClos:
		return clos(v.Fn, a)
	case KTuple:
		return tuple(a...)
	case KIface:
		return iface(v.Typ, a[0])
	case KStruct:
		return strct(v.Typ, a)
	}
	return v
}

// atoms calls f for v and every value inside it.
func walkV(v *V, f func(*V)) {
	seen := map[*V]bool{}
	var w func(*V)
	w = func(x *V) {
		if seen[x] {
			return
		}
		seen[x] = true
		f(x)
		for _, a := range x.A {
			w(a)
		}
	}
	w(v)
}

func contains(v, x *V) bool {
	found := false
	walkV(v, func(y *V) {
		if y == x {
			found = true
		}
	})
	return found
}

func containsOp(v *V, op string) *V {
	var r *V
	walkV(v, func(y *V) {
		if y.Kind == KExpr && y.Name == op && r == nil {
			r = y
		}
	})
	return r
}
