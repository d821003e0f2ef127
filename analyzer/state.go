package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

const inf = int64(1) << 61

type ival struct{ lo, hi int64 }

var top = ival{-inf, inf}

func satAdd(a, b int64) int64 {
	if a <= -inf || b <= -inf {
		return -inf
	}
	if a >= inf || b >= inf {
		return inf
	}
	s := a + b
	if s > inf {
		return inf
	}
	if s < -inf {
		return -inf
	}
	return s
}
func satMul(a, c int64) int64 {
	if a <= -inf || a >= inf {
		if c == 0 {
			return 0
		}
		if (a > 0) == (c > 0) {
			return inf
		}
		return -inf
	}
	if c != 0 && (a > inf/abs(c) || a < -inf/abs(c)) {
		if (a > 0) == (c > 0) {
			return inf
		}
		return -inf
	}
	return a * c
}
func abs(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

// vset is a finite set of values of an 8 or 16 bit atom.
type vset struct {
	n    int // universe size
	bits []uint64
	cnt  int
	key  string
}

func fullSet(n int) *vset {
	s := &vset{n: n, bits: make([]uint64, n/64), cnt: n}
	for i := range s.bits {
		s.bits[i] = ^uint64(0)
	}
	s.mkKey()
	return s
}
func (s *vset) mkKey() {
	h := uint64(1469598103934665603)
	for _, b := range s.bits {
		h = (h ^ b) * 1099511628211
		h ^= h >> 29
	}
	s.key = fmt.Sprintf("%x.%d", h, s.cnt)
}
func (s *vset) has(i int) bool { return s.bits[i>>6]&(1<<(uint(i)&63)) != 0 }
func (s *vset) filter(f func(int) bool) *vset {
	r := &vset{n: s.n, bits: make([]uint64, len(s.bits))}
	for i := 0; i < s.n; i++ {
		if s.has(i) && f(i) {
			r.bits[i>>6] |= 1 << (uint(i) & 63)
			r.cnt++
		}
	}
	r.mkKey()
	return r
}
func (s *vset) union(o *vset) *vset {
	r := &vset{n: s.n, bits: make([]uint64, len(s.bits))}
	for i := range s.bits {
		r.bits[i] = s.bits[i] | o.bits[i]
	}
	for i := 0; i < s.n; i++ {
		if r.has(i) {
			r.cnt++
		}
	}
	r.mkKey()
	return r
}
func (s *vset) minmax() (int, int) {
	lo, hi := -1, -1
	for i := 0; i < s.n; i++ {
		if s.has(i) {
			if lo < 0 {
				lo = i
			}
			hi = i
		}
	}
	return lo, hi
}
func (s *vset) String() string {
	var b strings.Builder
	b.WriteString("{")
	start := -1
	n := 0
	for i := 0; i <= s.n; i++ {
		in := i < s.n && s.has(i)
		if in && start < 0 {
			start = i
		}
		if !in && start >= 0 {
			if n > 0 {
				b.WriteString(",")
			}
			if n > 12 {
				b.WriteString("…")
				break
			}
			if i-1 > start {
				fmt.Fprintf(&b, "%#x-%#x", start, i-1)
			} else {
				fmt.Fprintf(&b, "%#x", start)
			}
			n++
			start = -1
		}
	}
	b.WriteString("}")
	return b.String()
}

// Held is a lock held by the analysed goroutine.
type Held struct {
	Name string // "Conn.writeLock", "Manager.mu", "once:Conn.closeOnce"
	Mode byte   // 'W', 'R', 'O' (once guard), 'C' (channel lock)
	Obj  *V
}

type Trace struct {
	prev *Trace
	pos  token.Pos
	msg  string
}

type State struct {
	heap    map[*V]*V
	facts   map[*V]bool
	rng     map[*V]ival
	sets    map[*V]*vset
	created map[*V]bool
	held    []Held
	f       map[string]int // monitor flags
	v       map[string]*V  // monitor values
	tr      *Trace
	dead    bool
	ren     []renaming // renamings so far, oldest first; shared prefix
}

// renaming records that the symbol from was renamed to to because its creation
// site was reached again.
type renaming struct{ from, to *V }

func newState() *State {
	return &State{heap: map[*V]*V{}, facts: map[*V]bool{}, rng: map[*V]ival{}, sets: map[*V]*vset{}, created: map[*V]bool{}, f: map[string]int{}, v: map[string]*V{}}
}

func cp[K comparable, T any](m map[K]T) map[K]T {
	r := make(map[K]T, len(m)+2)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *State) clone() *State {
	return &State{heap: cp(s.heap), facts: cp(s.facts), rng: cp(s.rng), sets: cp(s.sets), created: cp(s.created),
		held: append([]Held(nil), s.held...), f: cp(s.f), v: cp(s.v), tr: s.tr, dead: s.dead, ren: s.ren[:len(s.ren):len(s.ren)]}
}

func (s *State) note(pos token.Pos, msg string) { s.tr = &Trace{s.tr, pos, msg} }

func (s *State) set(k string, n int) {
	if n == 0 {
		delete(s.f, k)
	} else {
		s.f[k] = n
	}
}

func (s *State) isHeld(name string) bool {
	for _, h := range s.held {
		if h.Name == name {
			return true
		}
	}
	return false
}

// ---- keys ----

func keyHeap(m map[*V]*V) string {
	l := make([]string, 0, len(m))
	for k, v := range m {
		l = append(l, fmt.Sprintf("%d=%d", k.ID, v.ID))
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

func (s *State) coreKey() string {
	var b strings.Builder
	b.WriteString(keyHeap(s.heap))
	b.WriteString("|H")
	for _, h := range s.held {
		fmt.Fprintf(&b, "%s%c,", h.Name, h.Mode)
	}
	b.WriteString("|F")
	l := make([]string, 0, len(s.f)+len(s.v))
	for k, n := range s.f {
		l = append(l, fmt.Sprintf("%s=%d", k, n))
	}
	for k, v := range s.v {
		l = append(l, fmt.Sprintf("%s:%d", k, v.ID))
	}
	sort.Strings(l)
	b.WriteString(strings.Join(l, ";"))
	return b.String()
}

func (s *State) factKey() string {
	l := make([]string, 0, len(s.facts)+len(s.rng)+len(s.sets))
	for k, t := range s.facts {
		l = append(l, fmt.Sprintf("%d%v", k.ID, t))
	}
	for k, r := range s.rng {
		l = append(l, fmt.Sprintf("r%d:%d:%d", k.ID, r.lo, r.hi))
	}
	for k, r := range s.sets {
		l = append(l, fmt.Sprintf("s%d:%s", k.ID, r.key))
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

// mergeFacts keeps in s only what also holds in o.
func (s *State) mergeFacts(o *State) {
	for k, t := range s.facts {
		if u, ok := o.facts[k]; !ok || u != t {
			delete(s.facts, k)
		}
	}
	for k, r := range s.rng {
		q := o.rangeOf(k)
		h := ival{min(r.lo, q.lo), max(r.hi, q.hi)}
		if h.lo <= -inf && h.hi >= inf {
			delete(s.rng, k)
		} else {
			s.rng[k] = h
		}
	}
	for k, r := range o.rng {
		if _, ok := s.rng[k]; !ok {
			q := s.rangeOf(k)
			h := ival{min(r.lo, q.lo), max(r.hi, q.hi)}
			if h.lo > -inf || h.hi < inf {
				s.rng[k] = h
			}
		}
	}
	for k, r := range s.sets {
		if q, ok := o.sets[k]; ok {
			s.sets[k] = r.union(q)
		} else {
			delete(s.sets, k)
		}
	}
	for k := range o.created {
		s.created[k] = true
	}
}

// ---- value ranges ----

func basicOf(t types.Type) *types.Basic {
	if t == nil {
		return nil
	}
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func typeRange(t types.Type) ival {
	b := basicOf(t)
	if b == nil {
		return top
	}
	switch b.Kind() {
	case types.Uint8:
		return ival{0, 255}
	case types.Uint16:
		return ival{0, 65535}
	case types.Uint32:
		return ival{0, 1<<32 - 1}
	case types.Uint64, types.Uint, types.Uintptr:
		return ival{0, inf}
	case types.Int8:
		return ival{-128, 127}
	case types.Int16:
		return ival{-32768, 32767}
	case types.Int32:
		return ival{-1 << 31, 1<<31 - 1}
	}
	return top
}

func atomSize(v *V) int {
	if v.Kind != KSym && !(v.Kind == KExpr && (v.Name == "be16" || v.Name == "byteof")) {
		return 0
	}
	b := basicOf(v.Typ)
	if b == nil {
		return 0
	}
	switch b.Kind() {
	case types.Uint8:
		return 256
	case types.Uint16:
		return 65536
	}
	return 0
}

// singleAtom returns the only 8/16-bit atom v depends on, if v is a function of it alone.
func singleAtom(v *V) *V {
	var at *V
	ok := true
	var w func(*V)
	w = func(x *V) {
		if !ok {
			return
		}
		if atomSize(x) > 0 {
			if at != nil && at != x {
				ok = false
			}
			at = x
			return
		}
		switch x.Kind {
		case KConst:
		case KLin:
			for _, a := range x.A {
				w(a)
			}
		case KExpr:
			if !evalOps[opBase(x.Name)] {
				ok = false
				return
			}
			for _, a := range x.A {
				w(a)
			}
		default:
			ok = false
		}
	}
	w(v)
	if !ok {
		return nil
	}
	return at
}

var evalOps = map[string]bool{"&": true, "|": true, "^": true, "&^": true, "<<": true, ">>": true, "+": true, "-": true, "*": true, "/": true, "%": true, "conv": true, "==": true, "<": true, "!": true, "in": true}

func opBase(n string) string {
	if i := strings.IndexByte(n, ':'); i >= 0 {
		return n[:i]
	}
	return n
}

func wrapTo(t types.Type, x int64) int64 {
	b := basicOf(t)
	if b == nil {
		return x
	}
	switch b.Kind() {
	case types.Uint8:
		return int64(uint8(x))
	case types.Uint16:
		return int64(uint16(x))
	case types.Uint32:
		return int64(uint32(x))
	case types.Int8:
		return int64(int8(x))
	case types.Int16:
		return int64(int16(x))
	case types.Int32:
		return int64(int32(x))
	}
	return x
}

func evalAt(v, at *V, x int64) int64 {
	if v == at {
		return x
	}
	switch v.Kind {
	case KConst:
		return v.C
	case KLin:
		r := v.C
		for i, a := range v.A {
			r += v.Coef[i] * evalAt(a, at, x)
		}
		return r
	case KExpr:
		a := evalAt(v.A[0], at, x)
		var b int64
		if len(v.A) > 1 {
			b = evalAt(v.A[1], at, x)
		}
		t := func(c bool) int64 {
			if c {
				return 1
			}
			return 0
		}
		switch opBase(v.Name) {
		case "&":
			return a & b
		case "|":
			return a | b
		case "^":
			return a ^ b
		case "&^":
			return a &^ b
		case "<<":
			return wrapTo(v.Typ, a<<uint(b&63))
		case ">>":
			return a >> uint(b&63)
		case "+":
			return wrapTo(v.Typ, a+b)
		case "-":
			return wrapTo(v.Typ, a-b)
		case "*":
			return wrapTo(v.Typ, a*b)
		case "/":
			if b == 0 {
				return 0
			}
			return a / b
		case "%":
			if b == 0 {
				return 0
			}
			return a % b
		case "conv":
			return wrapTo(v.Typ, a)
		case "==":
			return t(a == b)
		case "<":
			return t(a < b)
		case "!":
			return t(a == 0)
		case "in":
			return t(setByName[v.Name][a])
		}
	}
	return 0
}

func (s *State) setOf(at *V) *vset {
	if r, ok := s.sets[at]; ok {
		return r
	}
	return fullSet(atomSize(at))
}

func (s *State) atomRange(v *V) ival {
	r := top
	if v.Kind == KConst {
		return ival{v.C, v.C}
	}
	r = typeRange(v.Typ)
	if v.Kind == KExpr {
		switch opBase(v.Name) {
		case "len", "cap", "buffered":
			r.lo = max(r.lo, 0)
		case "&":
			for _, a := range v.A {
				if c, ok := a.isInt(); ok && c >= 0 {
					r = ival{max(r.lo, 0), min(r.hi, c)}
				}
			}
		case "%":
			if c, ok := v.A[1].isInt(); ok && c > 0 {
				a := s.rangeOf(v.A[0])
				if a.lo >= 0 {
					r = ival{0, c - 1}
				} else {
					r = ival{-(c - 1), c - 1}
				}
			}
		case "/":
			if c, ok := v.A[1].isInt(); ok && c > 0 {
				a := s.rangeOf(v.A[0])
				if a.lo >= 0 {
					r = ival{0, a.hi / c}
				}
			}
		}
	}
	if at := singleAtom(v); at != nil {
		if st, ok := s.sets[at]; ok && st.cnt <= 65536 {
			lo, hi := int64(inf), -inf
			for i := 0; i < st.n; i++ {
				if st.has(i) {
					y := evalAt(v, at, int64(i))
					lo, hi = min(lo, y), max(hi, y)
				}
			}
			if lo <= hi {
				r = ival{max(r.lo, lo), min(r.hi, hi)}
			}
		}
	}
	if q, ok := s.rng[v]; ok {
		r = ival{max(r.lo, q.lo), min(r.hi, q.hi)}
	}
	return r
}

func (s *State) rangeOf(v *V) ival {
	r := s.rangeOf0(v)
	if r.lo > -inf && r.hi < inf && r.lo == r.hi {
		return r
	}
	// one step of difference reasoning: v = w + k*(known form)
	if v.Kind == KLin || len(s.rng) > 0 {
		for L, q := range s.rng {
			if L.Kind != KLin {
				continue
			}
			shares := false
			for _, a := range L.A {
				if a == v {
					shares = true
				}
				if v.Kind == KLin {
					for _, b := range v.A {
						if a == b {
							shares = true
						}
					}
				}
			}
			if !shares {
				continue
			}
			for _, sg := range []int64{1, -1} {
				rest := linComb(v, 1, L, -sg)
				rr := s.rangeOf0(rest)
				var x ival
				if sg == 1 {
					x = ival{satAdd(rr.lo, q.lo), satAdd(rr.hi, q.hi)}
				} else {
					x = ival{satAdd(rr.lo, -q.hi), satAdd(rr.hi, -q.lo)}
				}
				r = ival{max(r.lo, x.lo), min(r.hi, x.hi)}
			}
		}
	}
	return r
}

func (s *State) rangeOf0(v *V) ival {
	if v.Kind != KLin {
		return s.atomRange(v)
	}
	r := ival{v.C, v.C}
	for i, a := range v.A {
		q := s.atomRange(a)
		lo, hi := satMul(q.lo, v.Coef[i]), satMul(q.hi, v.Coef[i])
		if lo > hi {
			lo, hi = hi, lo
		}
		r = ival{satAdd(r.lo, lo), satAdd(r.hi, hi)}
	}
	L, sg, k := splitConst(v)
	if q, ok := s.rng[L]; ok {
		lo, hi := q.lo, q.hi
		if sg < 0 {
			lo, hi = -q.hi, -q.lo
		}
		r = ival{max(r.lo, satAdd(lo, k)), min(r.hi, satAdd(hi, k))}
	}
	return r
}

func (s *State) constrain(v *V, q ival) bool {
	r := s.rangeOf(v)
	r = ival{max(r.lo, q.lo), min(r.hi, q.hi)}
	if r.lo > r.hi {
		return false
	}
	if v.Kind == KConst {
		return true
	}
	L, sg, k := splitConst(v)
	lo, hi := satAdd(r.lo, -k), satAdd(r.hi, -k)
	if sg < 0 {
		lo, hi = -hi, -lo
	}
	s.rng[L] = ival{lo, hi}
	return true
}

// ---- boolean conditions ----

func vNot(c *V) *V {
	if b, ok := c.isBool(); ok {
		return kBool(!b)
	}
	if c.Kind == KExpr && c.Name == "!" {
		return c.A[0]
	}
	return expr("!", types.Typ[types.Bool], c)
}

func vEq(a, b *V) *V {
	if a == b && !ambiguous(a) {
		return kBool(true)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return expr("==", types.Typ[types.Bool], a, b)
}
func vLt(a, b *V) *V { return expr("<", types.Typ[types.Bool], a, b) }

// ambiguous values stand for several run-time values of earlier iterations.
func ambiguous(v *V) bool {
	r := false
	walkV(v, func(x *V) {
		if (x.Kind == KSym || x.Kind == KObj) && strings.HasSuffix(x.Name, "'") {
			r = true
		}
	})
	return r
}

// nonNil reports whether a pointer-like value can not be nil.
func (s *State) nonNil(v *V) (bool, bool) {
	switch v.Kind {
	case KNil:
		return false, true
	case KObj, KFld, KElem, KClos, KIface, KCat, KStruct:
		return true, true
	case KSlice:
		if v.A[0].Kind == KObj || v.A[0].Kind == KFld {
			return true, true
		}
	case KSym:
		if strings.Contains(v.Name, "!") {
			return true, true
		}
	case KConst:
		return true, true
	case KExpr:
		if v.Name == "conv:bytes" {
			return true, true
		}
	}
	if t, ok := s.facts[vEq(v, vNil)]; ok {
		return !t, true
	}
	return false, false
}

// eval decides a condition if the facts allow it.
func (s *State) eval(c *V) (bool, bool) {
	if b, ok := c.isBool(); ok {
		return b, true
	}
	if t, ok := s.facts[c]; ok {
		return t, true
	}
	if c.Kind != KExpr {
		return false, false
	}
	switch c.Name {
	case "!":
		t, ok := s.eval(c.A[0])
		return !t, ok
	case "==":
		a, b := c.A[0], c.A[1]
		if a.Kind == KNil || b.Kind == KNil {
			if a.Kind == KNil {
				a, b = b, a
			}
			if nn, ok := s.nonNil(a); ok {
				return !nn, true
			}
			return false, false
		}
		if isIntV(a) && isIntV(b) {
			if at := singleAtom(c); at != nil {
				return s.evalSet(c, at)
			}
			r := s.rangeOf(vSub(a, b))
			if r.lo == 0 && r.hi == 0 {
				return true, true
			}
			if r.lo > 0 || r.hi < 0 {
				return false, true
			}
			return false, false
		}
		if _, ok := a.isStr(); ok {
			if _, ok2 := b.isStr(); ok2 {
				return a == b, true
			}
		}
		if x, ok := a.isBool(); ok {
			if t, ok2 := s.eval(b); ok2 {
				return t == x, true
			}
		}
		if x, ok := b.isBool(); ok {
			if t, ok2 := s.eval(a); ok2 {
				return t == x, true
			}
		}
		if ambiguous(a) || ambiguous(b) {
			return false, false
		}
		// one known nil, the other known non-nil
		na, oka := s.nonNil(a)
		nb, okb := s.nonNil(b)
		if oka && okb && na != nb {
			return false, true
		}
		if distinct(a, b) {
			return false, true
		}
	case "<":
		if at := singleAtom(c); at != nil {
			return s.evalSet(c, at)
		}
		r := s.rangeOf(vSub(c.A[0], c.A[1]))
		if r.hi < 0 {
			return true, true
		}
		if r.lo >= 0 {
			return false, true
		}
	}
	return false, false
}

func isIntV(v *V) bool {
	switch v.Kind {
	case KLin:
		return true
	case KConst:
		return v.Name == "int"
	}
	b := basicOf(v.Typ)
	return b != nil && b.Info()&types.IsInteger != 0
}

func (s *State) evalSet(c, at *V) (bool, bool) {
	st := s.setOf(at)
	any0, any1 := false, false
	for i := 0; i < st.n; i++ {
		if st.has(i) {
			if evalAt(c, at, int64(i)) != 0 {
				any1 = true
			} else {
				any0 = true
			}
			if any0 && any1 {
				return false, false
			}
		}
	}
	return any1, true
}

// distinct reports whether two non-nil reference values are certainly different.
func distinct(a, b *V) bool {
	isGlob := func(v *V) bool { return v.Kind == KSym && strings.HasPrefix(v.Name, "global!") }
	isNew := func(v *V) bool { return v.Kind == KObj && strings.HasPrefix(v.Name, "new:") }
	switch {
	case isGlob(a) && isGlob(b):
		return a != b
	case isGlob(a) && (b.Kind == KIface || isNew(b)), isGlob(b) && (a.Kind == KIface || isNew(a)):
		return true
	case a.Kind == KIface && b.Kind == KIface:
		if !types.Identical(a.Typ, b.Typ) {
			return true
		}
		return distinct(a.A[0], b.A[0])
	case isNew(a) && (isNew(b) || b.Kind == KSym), isNew(b) && a.Kind == KSym:
		return a != b
	}
	return false
}

// assume adds a condition; it reports false if it contradicts the state.
func (s *State) assume(c *V, t bool) bool {
	if r, ok := s.eval(c); ok {
		return r == t
	}
	if c.Kind == KExpr {
		s.learnFits(c, t)
		switch c.Name {
		case "!":
			return s.assume(c.A[0], !t)
		case "==":
			a, b := c.A[0], c.A[1]
			if isIntV(a) && isIntV(b) {
				if at := singleAtom(c); at != nil {
					return s.assumeSet(c, at, t)
				}
				d := vSub(a, b)
				if t {
					return s.constrain(d, ival{0, 0})
				}
				r := s.rangeOf(d)
				if r.lo == 0 {
					return s.constrain(d, ival{1, inf})
				}
				if r.hi == 0 {
					return s.constrain(d, ival{-inf, -1})
				}
			}
			if x, ok := a.isBool(); ok {
				return s.assume(b, x == t)
			}
			if x, ok := b.isBool(); ok {
				return s.assume(a, x == t)
			}
			if !ambiguous(c) || c.A[0].Kind == KNil || c.A[1].Kind == KNil {
				s.facts[c] = t
			}
			return true
		case "<":
			if at := singleAtom(c); at != nil {
				return s.assumeSet(c, at, t)
			}
			d := vSub(c.A[0], c.A[1])
			if t {
				return s.constrain(d, ival{-inf, -1})
			}
			return s.constrain(d, ival{0, inf})
		}
		if opBase(c.Name) == "in" {
			if at := singleAtom(c); at != nil {
				return s.assumeSet(c, at, t)
			}
		}
	}
	s.facts[c] = t
	return true
}

// is64u: v is of a 64 bit unsigned type.
func is64u(t types.Type) bool {
	b := basicOf(t)
	return b != nil && (b.Kind() == types.Uint64 || b.Kind() == types.Uint || b.Kind() == types.Uintptr)
}

// learnFits keeps that a 64 bit unsigned value is one an int can hold, a bound
// beyond what ranges represent.
func (s *State) learnFits(c *V, t bool) {
	var v *V
	switch {
	case c.Name == "<" && t:
		if _, ok := c.A[1].isInt(); ok {
			v = c.A[0]
		}
	case c.Name == "<":
		if _, ok := c.A[0].isInt(); ok {
			v = c.A[1]
		}
	case c.Name == "==" && t:
		for i, y := range c.A {
			if n, ok := c.A[1-i].isInt(); !ok || n != 0 || y.Kind != KExpr || len(y.A) != 2 {
				continue
			}
			switch opBase(y.Name) {
			case ">>":
				v = y.A[0]
			case "&":
				for j, z := range y.A {
					if z.Name == "bigconst:9223372036854775808" {
						v = y.A[1-j]
					}
				}
			}
		}
	}
	if c.Name == "<" && t && v == nil && c.A[1].Name == "bigconst:9223372036854775808" {
		v = c.A[0]
	}
	if v != nil && (v.Kind == KSym || v.Kind == KExpr) && is64u(v.Typ) && s.rangeOf(v).hi >= inf {
		s.facts[expr("fits", types.Typ[types.Bool], v)] = true
	}
}

// fitsInt: a 64 bit unsigned value is one an int can hold.
func (s *State) fitsInt(v *V) bool {
	if v.Kind == KConst || s.rangeOf(v).hi < inf || s.facts[expr("fits", types.Typ[types.Bool], v)] {
		return true
	}
	if v.Kind != KExpr {
		return false
	}
	switch opBase(v.Name) {
	case "be64":
		if sl := v.A[0]; sl.Kind == KSlice {
			for a, e := range s.heap {
				if a.Kind == KElem && a.A[0] == sl.A[0] && a.A[1] == sl.A[1] && s.rangeOf(e).hi < 128 {
					return true
				}
			}
		}
	case ">>", "%", "/":
		return v.A[1].Kind == KConst && v.A[1].C > 1 || opBase(v.Name) == ">>" && v.A[1].Kind == KConst && v.A[1].C == 1
	case "&":
		return v.A[0].Kind == KConst || v.A[1].Kind == KConst
	}
	return false
}

func (s *State) assumeSet(c, at *V, t bool) bool {
	r := s.setOf(at).filter(func(i int) bool { return (evalAt(c, at, int64(i)) != 0) == t })
	if r.cnt == 0 {
		return false
	}
	s.sets[at] = r
	return true
}

// substAll replaces values everywhere in the state.
func (s *State) substAll(m map[*V]*V) {
	memo := map[*V]*V{}
	h := make(map[*V]*V, len(s.heap))
	for k, v := range s.heap {
		h[subst(k, m, memo)] = subst(v, m, memo)
	}
	s.heap = h
	f := make(map[*V]bool, len(s.facts))
	for k, t := range s.facts {
		k2 := subst(k, m, memo)
		if _, ok := k2.isBool(); !ok {
			f[k2] = t
		}
	}
	s.facts = f
	r := make(map[*V]ival, len(s.rng))
	for k, q := range s.rng {
		k2 := subst(k, m, memo)
		if k2.Kind != KConst {
			L, sg, kk := splitConst(k2)
			lo, hi := satAdd(q.lo, -kk), satAdd(q.hi, -kk)
			if sg < 0 {
				lo, hi = -hi, -lo
			}
			r[L] = ival{lo, hi}
		}
	}
	s.rng = r
	ss := make(map[*V]*vset, len(s.sets))
	for k, q := range s.sets {
		ss[subst(k, m, memo)] = q
	}
	s.sets = ss
	for k, v := range s.v {
		s.v[k] = subst(v, m, memo)
	}
	for i := range s.held {
		if s.held[i].Obj != nil {
			s.held[i].Obj = subst(s.held[i].Obj, m, memo)
		}
	}
	c := make(map[*V]bool, len(s.created))
	for k := range s.created {
		c[subst(k, m, memo)] = true
	}
	s.created = c
}

// forget drops every fact about x.
func (s *State) forget(x *V) {
	for k := range s.facts {
		if contains(k, x) {
			delete(s.facts, k)
		}
	}
	for k := range s.rng {
		if contains(k, x) {
			delete(s.rng, k)
		}
	}
	delete(s.sets, x)
}

// rootOf returns the object at the base of an address.
func rootOf(a *V) *V {
	for a.Kind == KFld || a.Kind == KElem {
		a = a.A[0]
	}
	return a
}

// gc removes cells and facts about created values that are not reachable from
// roots, the monitor state or the remaining heap.
func (s *State) gc(roots []*V) {
	isNew := func(v *V) bool { return s.created[v] }
	mark := map[*V]bool{}
	var work []*V
	add := func(v *V) {
		walkV(v, func(x *V) {
			if !mark[x] {
				mark[x] = true
				work = append(work, x)
			}
		})
	}
	for _, r := range roots {
		if r != nil {
			add(r)
		}
	}
	for _, v := range s.v {
		add(v)
	}
	for _, h := range s.held {
		if h.Obj != nil {
			add(h.Obj)
		}
	}
	hasNew := func(k *V) bool {
		n := false
		walkV(k, func(x *V) {
			if isNew(x) && !mark[x] {
				n = true
			}
		})
		return n
	}
	done := map[*V]bool{}
	for {
		ch := false
		for k, v := range s.heap {
			if !done[k] && !hasNew(k) {
				done[k] = true
				add(k)
				add(v)
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	for k := range s.heap {
		if !done[k] {
			delete(s.heap, k)
		}
	}
	for k := range s.facts {
		if hasNew(k) {
			delete(s.facts, k)
		}
	}
	for k := range s.rng {
		if hasNew(k) {
			delete(s.rng, k)
		}
	}
	for k := range s.sets {
		if hasNew(k) {
			delete(s.sets, k)
		}
	}
	for k := range s.created {
		if isNew(k) && !mark[k] {
			delete(s.created, k)
		}
	}
}
