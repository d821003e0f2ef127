package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Joining of states. States that meet at a loop head or at the return of a
// function and agree on what the rules observe (held locks, monitor flags, nil
// and boolean values) are joined: values that differ become one unknown value
// whose range covers both. The fixpoint over loops is reached when nothing new
// arrives.

type loc struct {
	name string
	t    types.Type
	a, b *V
	set  func(v *V)
}

// class abstracts a value to what must not be confused by a join.
func (s *State) class(v *V) byte {
	switch v.Kind {
	case KNil:
		return 'n'
	case KConst:
		if v.Name == "bool" {
			return byte('0' + v.C)
		}
		return '.'
	}
	if v.Kind == KExpr && v.Typ != nil {
		if b := basicOf(v.Typ); b != nil && b.Info()&types.IsBoolean != 0 {
			if t, ok := s.eval(v); ok {
				if t {
					return '1'
				}
				return '0'
			}
			return '?'
		}
	}
	if nn, ok := s.nonNil(v); ok && (v.Kind == KIface || v.Kind == KSym) {
		if nn {
			return '!'
		}
		return 'n'
	}
	return '.'
}

// groupKey identifies the states that may be joined at a program point.
func (x *Exec) groupKey(it *item, ren0 int, base map[*V]bool) string {
	st := it.st
	var ek []string
	for v, a := range it.env {
		ek = append(ek, fmt.Sprintf("%s%c", v.Name(), st.class(a)))
	}
	for k, v := range st.heap {
		if k.Kind == KFld || k.Kind == KObj {
			c := st.class(v)
			if c == 'n' && k.Kind == KFld && !isNewObj(rootOf(k)) {
				if s, f := fieldOf(k); !x.p.Mutable[s+"."+f] {
					c = '.' // settings
				}
			}
			if c == '0' || c == '1' || c == 'n' {
				ek = append(ek, fmt.Sprintf("%d%c", k.ID, c))
			}
		}
	}
	for k, n := range st.f {
		ek = append(ek, fmt.Sprintf("f%s=%d", k, n))
	}
	for k := range st.v {
		ek = append(ek, "v"+k)
	}
	sort.Strings(ek)
	var b strings.Builder
	b.WriteString(strings.Join(ek, ","))
	b.WriteString("|H")
	for _, h := range st.held {
		fmt.Fprintf(&b, "%s%c,", h.Name, h.Mode)
	}
	for _, d := range it.defers {
		fmt.Fprintf(&b, "D%p(%s)", d.in, ids(d.args))
	}
	b.WriteString(renKey(st, ren0, base))
	return b.String()
}

var joinDebug = os.Getenv("WSJOIN") != ""

var joinAll = os.Getenv("WSJOIN") == "all"

// wideAfter is the number of rounds before unstable bounds are given up.
var wideAfter = 0

func joinName(tag, l string) string { return "j:" + tag + ":" + l + "~" }

// leaves visits the leaves of a and b where their structure differs.
func leaves(a, b *V, name string, t types.Type, f func(a, b *V, name string, t types.Type) *V) *V {
	if a.Kind == b.Kind {
		switch a.Kind {
		case KSlice:
			if a.A[0] == b.A[0] {
				i := types.Typ[types.Int]
				return slc(a.A[0], leaves(a.A[1], b.A[1], name+".lo", i, f), leaves(a.A[2], b.A[2], name+".hi", i, f))
			}
		case KIface:
			if types.Identical(a.Typ, b.Typ) {
				return iface(a.Typ, leaves(a.A[0], b.A[0], name+".i", a.Typ, f))
			}
		case KStruct:
			if types.Identical(a.Typ, b.Typ) {
				r := make([]*V, len(a.A))
				s := structUnder(a.Typ)
				for i := range r {
					r[i] = leaves(a.A[i], b.A[i], fmt.Sprintf("%s.%d", name, i), s.Field(i).Type(), f)
				}
				return strct(a.Typ, r)
			}
		case KTuple:
			if len(a.A) == len(b.A) {
				r := make([]*V, len(a.A))
				for i := range r {
					var et types.Type
					if tt, ok := t.(*types.Tuple); ok && i < tt.Len() {
						et = tt.At(i).Type()
					}
					r[i] = leaves(a.A[i], b.A[i], fmt.Sprintf("%s.%d", name, i), et, f)
				}
				return tuple(r...)
			}
		}
	}
	if a != b && a.Kind == KSym && b.Kind == KSym && strings.HasPrefix(a.Name, "err!") && strings.HasPrefix(b.Name, "err!") &&
		strings.HasPrefix(a.Name, "err!ctx:") == strings.HasPrefix(b.Name, "err!ctx:") {
		return a // two errors nothing is known about
	}
	if a != b && a.Kind == KExpr && b.Kind == KExpr && a.Name == b.Name {
		// the same function of two bytes
		p, q := singleAtom(a), singleAtom(b)
		if p != nil && q != nil && p != q && p != a && p.Typ != nil && subst(a, map[*V]*V{p: q}, map[*V]*V{}) == b {
			r := f(p, q, name+".@", p.Typ)
			if r == p {
				return a
			}
			return subst(a, map[*V]*V{p: r}, map[*V]*V{})
		}
	}
	return f(a, b, name, t)
}

// join widens acc to cover in. It reports whether acc changed. The values of
// extra (the returned value) are joined too.
func (x *Exec) join(acc, in *item, tag string, visits int) bool {
	A, B := acc.st, in.st
	changed := false
	why := func(f string, a ...any) {
		changed = true
		if (x.debug || joinDebug) && (visits > 50 || joinAll) {
			fmt.Fprintf(os.Stderr, "  JOIN %s: %s\n", tag, fmt.Sprintf(f, a...))
		}
	}
	// cells present on one side only
	x.materialize(acc, in, tag)
	added := x.materialize(in, acc, tag)
	sigma := map[*V]*V{}
	memo := map[*V]*V{}
	locs := func() []loc {
		var l []loc
		for v := range acc.env {
			v := v
			if b, ok := in.env[v]; ok {
				t := v.Type()
				if _, ok := v.(*ssa.Const); ok {
					// a pseudo register
					if u := typeOf(acc.env[v], b); u != nil {
						t = u
					}
				}
				l = append(l, loc{"e" + v.Name(), t, acc.env[v], b, func(n *V) { acc.env[v] = n }})
			}
		}
		for k := range A.heap {
			if k.Kind == KExpr {
				continue
			}
			k := k
			kb := k
			if len(sigma) > 0 {
				kb = subst(k, sigma, memo)
			}
			if b, ok := B.heap[kb]; ok {
				l = append(l, loc{fmt.Sprintf("h%d", k.ID), k.Typ, A.heap[k], b, func(n *V) { A.heap[k] = n }})
			}
		}
		for k := range A.v {
			k := k
			if b, ok := B.v[k]; ok {
				l = append(l, loc{"v" + k, nil, A.v[k], b, func(n *V) { A.v[k] = n }})
			}
		}
		sort.Slice(l, func(i, j int) bool { return l[i].name < l[j].name })
		return l
	}
	// what the unknowns of acc stand for in in
	for round := 0; round < 3; round++ {
		n := len(sigma)
		for _, l := range locs() {
			leaves(l.a, l.b, l.name, l.t, func(a, b *V, name string, t types.Type) *V {
				if a.Kind == KSym && a.Name == joinName(tag, name) {
					if _, ok := sigma[a]; !ok {
						sigma[a] = b
					}
				}
				return a
			})
		}
		memo = map[*V]*V{}
		if len(sigma) == n {
			break
		}
	}
	for k, v := range sigma {
		if k == v {
			delete(sigma, k)
		}
	}
	// the leaves that differ
	gen := map[string]types.Type{}
	share := map[string]string{} // the same two values get one unknown
	pairs := map[[2]*V]string{}
	for _, l := range locs() {
		leaves(l.a, l.b, l.name, l.t, func(a, b *V, name string, t types.Type) *V {
			if a.Kind == KSym && a.Name == joinName(tag, name) {
				if s, ok := sigma[a]; !ok || s == b {
					return a
				}
			}
			if subst(a, sigma, memo) != b {
				k := [2]*V{a, b}
				if r, ok := pairs[k]; ok && (t == nil || sameType(gen[r], t)) {
					share[name] = r
				} else {
					if t == nil {
						t = typeOf(a, b)
					}
					pairs[k] = name
					gen[name] = t
				}
			}
			return a
		})
	}
	// heap cells of only one side
	for k := range A.heap {
		if k.Kind == KExpr && k.Name == "dirty" {
			continue // of either side
		}
		kb := subst(k, sigma, memo)
		if b, ok := B.heap[kb]; !ok || k.Kind == KExpr && b != subst(A.heap[k], sigma, memo) {
			delete(A.heap, k)
			if r := rootOf(cellBase(k)); isNewObj(r) {
				A.heap[expr("dirty", nil, r)] = kBool(true)
			}
			if added[k] {
				continue
			}
			why("cell %s dropped", k)
		}
	}
	for k, v := range B.heap {
		if k.Kind == KExpr && k.Name == "dirty" && A.heap[k] == nil {
			A.heap[k] = v
			why("dirty %s", k)
		}
	}
	if len(gen) > 0 {
		var names []string
		for n := range gen {
			names = append(names, n)
		}
		sort.Strings(names)
		why("new unknowns %v", names)
		for _, n := range names {
			s := sym(joinName(tag, n), gen[n])
			for _, it := range []*item{acc, in} {
				if it.st.created[s] {
					it.st.rename(s, sym(joinName(tag, n)+"'", gen[n]))
					it.sync()
				}
			}
		}
		memo = map[*V]*V{}
		for _, l := range locs() {
			v := leaves(l.a, l.b, l.name, l.t, func(a, b *V, name string, t types.Type) *V {
				if r, ok := share[name]; ok {
					name = r
				}
				if _, ok := gen[name]; !ok {
					return a
				}
				s := sym(joinName(tag, name), gen[name])
				x.joinFacts(A, B, s, a, b, t, visits)
				return s
			})
			l.set(v)
		}
	}
	// facts
	memo = map[*V]*V{}
	for f, t := range A.facts {
		g := subst(f, sigma, memo)
		if len(gen) > 0 && mentionsJoin(f, gen, tag) {
			continue
		}
		if u, ok := B.eval(g); !ok || u != t {
			delete(A.facts, f)
			why("fact %s=%v", f, t)
		}
	}
	for f, r := range A.rng {
		if len(gen) > 0 && mentionsJoin(f, gen, tag) {
			continue
		}
		g := subst(f, sigma, memo)
		q := B.rangeOf(g)
		h := ival{min(r.lo, q.lo), max(r.hi, q.hi)}
		if h == r {
			continue
		}
		if visits > wideAfter {
			h = widen(r, h)
		}
		why("range %s %v -> %v", f, r, h)
		if h.lo <= -inf && h.hi >= inf {
			delete(A.rng, f)
		} else {
			A.rng[f] = h
		}
	}
	for at, s := range A.sets {
		if len(gen) > 0 && mentionsJoin(at, gen, tag) {
			continue
		}
		g := subst(at, sigma, memo)
		u := B.possible(g, s.n)
		if u == nil {
			delete(A.sets, at)
			why("set %s", at)
			continue
		}
		n := s.union(u)
		if n.key != s.key {
			A.sets[at] = n
			why("set %s", at)
		}
	}
	for k := range B.created {
		if !A.created[k] {
			A.created[k] = true
		}
	}
	return changed
}

// typeOf is the type of what a rule remembers.
func typeOf(a, b *V) types.Type {
	for _, v := range []*V{a, b} {
		if v.Typ == nil {
			continue
		}
		switch v.Kind {
		case KObj:
			switch v.Typ.Underlying().(type) {
			case *types.Map, *types.Chan:
				return v.Typ
			}
			return types.NewPointer(v.Typ)
		case KFld, KElem:
			return types.NewPointer(v.Typ)
		}
		return v.Typ
	}
	for _, v := range []*V{a, b} {
		if v.Kind == KConst && v.Name == "bool" {
			return tBool
		}
		if v.Kind == KConst && v.Name == "int" || v.Kind == KLin {
			return types.Typ[types.Int]
		}
	}
	return nil
}

func sameType(a, b types.Type) bool {
	return a == nil && b == nil || a != nil && b != nil && types.Identical(a, b)
}

func mentionsJoin(f *V, gen map[string]types.Type, tag string) bool {
	r := false
	walkV(f, func(v *V) {
		if v.Kind == KSym && strings.HasPrefix(v.Name, "j:"+tag+":") {
			n := strings.TrimSuffix(strings.TrimPrefix(v.Name, "j:"+tag+":"), "~")
			if _, ok := gen[n]; ok {
				r = true
			}
		}
	})
	return r
}

// possible returns the values an expression over one small atom can have.
func (s *State) possible(v *V, n int) *vset {
	if c, ok := v.isInt(); ok {
		if c < 0 || c >= int64(n) {
			return nil
		}
		return fullSet(n).filter(func(i int) bool { return int64(i) == c })
	}
	if atomSize(v) == n {
		return s.setOf(v)
	}
	if at := singleAtom(v); at != nil {
		res := map[int]bool{}
		set := s.setOf(at)
		for i := 0; i < set.n; i++ {
			if set.has(i) {
				y := evalAt(v, at, int64(i))
				if y < 0 || y >= int64(n) {
					return nil
				}
				res[int(y)] = true
			}
		}
		return fullSet(n).filter(func(i int) bool { return res[i] })
	}
	return nil
}

// joinFacts records what holds for s, which stands for a in A and b in B.
func (x *Exec) joinFacts(A, B *State, s, a, b *V, t types.Type, visits int) {
	A.created[s] = true
	if isIntV(a) || isIntV(b) {
		p, q := A.rangeOf(a), B.rangeOf(b)
		h := ival{min(p.lo, q.lo), max(p.hi, q.hi)}
		if visits > wideAfter {
			if q.lo < p.lo {
				h.lo = -inf
			}
			if q.hi > p.hi {
				h.hi = inf
			}
		}
		delete(A.rng, s)
		A.constrain(s, h)
		if n := atomSize(s); n > 0 {
			u, w := A.possible(a, n), B.possible(b, n)
			if u != nil && w != nil {
				A.sets[s] = u.union(w)
			}
		}
		// how it compares with settings
		explicit := func(st *State, v, w *V) bool {
			d := vSub(v, w)
			if v.Kind == KConst && st.rangeOf(d).hi <= 0 {
				return true
			}
			for f := range st.rng {
				if f.Kind != KLin || d.Kind != KLin {
					continue
				}
				hasW, other := false, false
				for _, g := range f.A {
					if g == w {
						hasW = true
						continue
					}
					for _, e := range d.A {
						other = other || e == g
					}
				}
				if hasW && other {
					return true
				}
			}
			return false
		}
		ws := x.settings(A, B)
		if x.relTo != nil && (a.Kind != KConst || b.Kind != KConst) {
			for _, w := range append(x.relTo(A, B), a, b) {
				if atomSize(s) > 0 {
					continue
				}
				p, q := A.rangeOf(vSub(a, w)), B.rangeOf(vSub(b, w))
				if p.hi <= 0 && q.hi <= 0 {
					A.constrain(vSub(s, w), ival{-inf, max(p.hi, q.hi)})
				}
			}
		}
		for _, w := range ws {
			if atomSize(s) > 0 || !explicit(A, a, w) && !explicit(B, b, w) {
				continue
			}
			p, q := A.rangeOf(vSub(a, w)), B.rangeOf(vSub(b, w))
			h := ival{min(p.lo, q.lo), max(p.hi, q.hi)}
			if visits > wideAfter {
				h = widen(p, h)
			}
			if h.lo > -inf || h.hi < inf {
				A.constrain(vSub(s, w), h)
			}
		}
		return
	}
	if n1, ok1 := A.nonNil(a); ok1 && n1 {
		if n2, ok2 := B.nonNil(b); ok2 && n2 {
			A.facts[vEq(s, vNil)] = false
		}
	}
	if symField[a] != nil && symField[a] == symField[b] {
		symField[s] = symField[a]
	}
}

// widen gives up a bound that moved, or makes it zero.
func widen(old, h ival) ival {
	if h.lo < old.lo {
		if h.lo >= 0 {
			h.lo = 0
		} else {
			h.lo = -inf
		}
	}
	if h.hi > old.hi {
		if h.hi <= 0 {
			h.hi = 0
		} else {
			h.hi = inf
		}
	}
	return h
}

// settings are the contents of fields that either state compares with something.
func (x *Exec) settings(A, B *State) []*V {
	var r []*V
	seen := map[*V]bool{}
	for _, st := range []*State{A, B} {
		for f := range st.rng {
			if f.Kind != KLin && f.Kind != KSym {
				continue
			}
			ws := f.A
			if f.Kind == KSym {
				ws = []*V{f}
			}
			for _, w := range ws {
				if ad := symField[w]; ad != nil && ad.Kind == KFld && !seen[w] && !strings.HasPrefix(w.Name, "j:") {
					seen[w] = true
					r = append(r, w)
				}
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

func cellBase(k *V) *V {
	if k.Kind == KExpr && len(k.A) > 0 {
		return k.A[0]
	}
	return k
}

// materialize loads into b the cells only a knows.
func (x *Exec) materialize(ia, ib *item, tag string) map[*V]bool {
	a, b := ia.st, ib.st
	known := map[*V]bool{}
	know := func(v *V) {
		walkV(v, func(v *V) { known[v] = true })
	}
	for _, v := range ib.env {
		know(v)
	}
	for _, v := range callerRoots(b, envStack) {
		know(v)
	}
	for k, v := range b.heap {
		know(k)
		know(v)
	}
	var ks []*V
	for k := range a.heap {
		if b.heap[k] == nil && (k.Kind == KFld || k.Kind == KElem || k.Kind == KObj) && k.Typ != nil {
			fresh := false
			walkV(k, func(v *V) {
				if (v.Kind == KSym || v.Kind == KObj) && a.created[v] && !known[v] || v.Kind == KSym && strings.HasPrefix(v.Name, "j:"+tag+":") {
					fresh = true
				}
			})
			if !fresh {
				ks = append(ks, k)
			}
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	added := map[*V]bool{}
	for _, k := range ks {
		x.load0(b, k, k.Typ)
		added[k] = true
	}
	return added
}

type accum struct {
	it      *item
	ret     *V
	visits  int
	pending bool
	tr      *Trace
}

// arrive registers a state at a block where states are joined. It returns the
// group of the state if that has to be followed (again).
func (x *Exec) arrive(tab map[string]*accum, key, tag string, it *item) *accum {
	a := tab[key]
	if a == nil {
		if x.debug && len(tab) > 100 {
			fmt.Fprintln(os.Stderr, "  NEWSTATE", tag, key)
		}
		a = &accum{it: it.fork(), tr: it.st.tr}
		tab[key] = a
		return a
	}
	if !x.join(a.it, it, tag, a.visits) {
		return nil
	}
	a.tr = it.st.tr
	return a
}

// rpo numbers the blocks of fn in reverse post order.
func rpo(fn *ssa.Function) []int {
	n := make([]int, len(fn.Blocks))
	seen := make([]bool, len(fn.Blocks))
	c := len(fn.Blocks)
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s.Index] {
				dfs(s)
			}
		}
		c--
		n[b.Index] = c
	}
	dfs(fn.Blocks[0])
	return n
}
