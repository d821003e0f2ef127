package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C35: no input can crash the server ----

// safe checks every operation that can panic, on every path that handles what
// the peer sends.
type safe struct {
	base
	p   *Program
	drv bool
	buf map[*V]string // contents of fields
}

// contentOf names the field whose content b is.
func contentOf(st *State, b *V) string {
	if r := fieldRefOf(b); r != "" {
		return r
	}
	r := ""
	for a, v := range st.heap {
		if v == b && a.Kind == KFld {
			if s, f := fieldOf(a); s != "" && (r == "" || s+"."+f < r) {
				r = s + "." + f
			}
		}
	}
	return r
}

// front strips what cuts off the end of a slice or appends to it.
func front(v *V) *V {
	for {
		switch {
		case v.Kind == KSlice && v.A[1] == kInt(0):
			v = v.A[0]
		case v.Kind == KCat && len(v.A) > 0:
			v = v.A[0]
		default:
			return v
		}
	}
}

func (m *safe) Event(x *Exec, st *State, ev *Event) {
	fn := ev.Fn
	if fn == nil {
		fn = x.root
	}
	if m.drv {
		m.fact("seen|%s", fn.String())
	}
	bad := func(rule, what string) {
		if m.drv || x.root.Name() == "Upgrade" || x.p.isCloseFn(x.root) || x.root.Name() == "Read" {
			x.report(st, rule, "", fn, ev.Pos, "%s", what)
			return
		}
		// reported if the history of calls does not cover the function
		m.fact("pending|%s|%s|%s|%s", fn.String(), rule, x.p.pos(ev.Pos), what)
	}
	switch ev.Kind {
	case "apicall":
		delete(st.v, "p")
		for _, a := range ev.Args {
			if a != nil && a.Typ != nil {
				if s, ok := a.Typ.Underlying().(*types.Slice); ok && isByteT(s.Elem()) {
					st.v["p"] = a
				}
			}
		}
	case "deref", "nilderef":
		v := ev.Args[0]
		if _, ok := symElem[v]; ok && ev.Kind == "deref" || strings.HasPrefix(v.Name, "arg:") {
			return
		}
		if r := fieldRefOf(v); strings.HasPrefix(r, "Options.") || strings.HasPrefix(r, "Upgrader.") {
			return // C32
		}
		if strings.HasSuffix(v.Name, ".k") || strings.HasSuffix(v.Name, ".v") || strings.Contains(v.Name, "Options.") {
			return // keys and values of registries, elements of lists
		}
		bad("nil", "a pointer that can be nil is used")
	case "panic":
		if ev.Name == "" && (m.drv || x.root.Name() == "Upgrade") || ev.Name != "" {
			bad("panic", "a panic can be reached")
		}
	case "index", "strindex":
		m.ob("index operations", x, ev.Pos)
		if !st.le(kInt(0), ev.Args[1]) || !st.lt(ev.Args[1], ev.Args[2]) {
			bad("index", "the index is not known to be inside")
		}
	case "slice", "strslice":
		b, lo, hi, limit := ev.Args[0], ev.Args[1], ev.Args[2], ev.Args[3]
		m.ob("slice operations", x, ev.Pos)
		ref := contentOf(st, b)
		if ref != "" {
			m.buf[b] = ref
		}
		if !st.le(kInt(0), lo) || !st.le(lo, hi) {
			bad("slice", "the bounds of a slice are not known to be in order")
		}
		if st.le(hi, limit) || st.le(hi, vLen(st, b)) {
			return
		}
		if n, ok := hi.isInt(); ok && ref != "" && n >= 0 {
			// decided by the capacity the field is given
			m.fact("needcap|%s|%d|%s|%s", ref, n, fn.Name(), x.p.pos(ev.Pos))
			return
		}
		bad("slice", "the end of a slice is not known to be inside")
	case "store":
		a, v := ev.Args[0], ev.Args[1]
		if a.Kind != KFld || v == nil {
			return
		}
		s, f := fieldOf(a)
		if _, ok := a.Typ.Underlying().(*types.Slice); s == "" || !ok {
			return
		}
		ref := s + "." + f
		k := "?"
		if c := vCap(st, v); st.rangeOf(c).lo > 0 {
			k = strconv.FormatInt(int64(st.rangeOf(c).lo), 10)
		} else if w := front(v); m.buf[w] == ref || fieldRefOf(w) == ref {
			k = "same"
		} else if c := vLen(st, v); st.rangeOf(c).lo > 0 {
			k = strconv.FormatInt(int64(st.rangeOf(c).lo), 10)
		}
		m.fact("cap|%s|%s|%s", ref, fn.String(), k)
	case "div":
		m.ob("divisions", x, ev.Pos)
		if !st.known(ev.Args[1]) {
			bad("division", "the divisor can be zero")
		}
	case "makeslice":
		n := stripConv(ev.Args[0])
		if strings.HasPrefix(fieldRefOf(n), "Options.") {
			return // C32
		}
		m.ob("allocations", x, ev.Pos)
		if r := st.rangeOf(n); r.lo < 0 || r.hi > 1<<40 && !m.bounded(st, n) {
			bad("allocation", "the size of an allocation is not known to be reasonable")
		}
	}
}

// bounded: the size is that of something in memory, or compared with a limit.
func (m *safe) bounded(st *State, n *V) bool {
	in := false
	walkV(n, func(y *V) {
		if y.Kind == KExpr && (y.Name == "len" || y.Name == "cap") || strings.HasPrefix(fieldRefOf(y), "Options.") {
			in = true
		}
	})
	if in {
		return true
	}
	for f, r := range st.rng {
		if f.Kind != KLin || r.hi > 1<<40 {
			continue
		}
		hasN, hasO := false, false
		for _, y := range f.A {
			hasN = hasN || y == n
			hasO = hasO || strings.HasPrefix(fieldRefOf(y), "Options.")
		}
		if hasN && hasO {
			return true
		}
	}
	return false
}

func (m *safe) Return(x *Exec, st *State, ret *V) {}

func (m *safe) Init(x *Exec, st *State) {
	m.drv = st.f["drv"] == 3
	x.relTo = func(A, B *State) []*V {
		if p := A.v["p"]; p != nil && p == B.v["p"] {
			if n := vLen(A, p); n.Kind == KExpr || n.Kind == KSym {
				return []*V{n}
			}
		}
		return nil
	}
}

func (m *safe) Done(x *Exec, exits []Exit) {}

// storers lists the functions that assign to a field.
func (p *Program) storers(ref string) map[string]bool {
	out := map[string]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				t := deref(fa.X.Type())
				if n := namedOf(t); n != nil && structUnder(t) != nil && n.Obj().Name()+"."+structUnder(t).Field(fa.Field).Name() == ref {
					out[fn.String()] = true
				}
			}
		}
	}
	return out
}

func finishSafe(p *Program, r *Result) {
	var facts []string
	for f := range r.Facts {
		facts = append(facts, f)
	}
	sort.Strings(facts)
	least := map[string]int64{}
	by := map[string]map[string]bool{}
	for _, f := range facts {
		s := strings.Split(f, "|")
		if s[0] != "cap" {
			continue
		}
		if by[s[1]] == nil {
			by[s[1]] = map[string]bool{}
		}
		by[s[1]][s[2]] = true
		if s[3] == "same" {
			continue
		}
		n, err := strconv.ParseInt(s[3], 10, 64)
		if err != nil {
			n = 0
		}
		if o, ok := least[s[1]]; !ok || n < o {
			least[s[1]] = n
		}
	}
	for _, f := range facts {
		s := strings.Split(f, "|")
		switch s[0] {
		case "pending":
			if !r.Facts["seen|"+s[1]] {
				short := s[1][strings.LastIndex(s[1], ".")+1:]
				r.report(s[2], "", short, "%s: %s", s[3], s[4])
			}
		case "needcap":
			r.ob("capacities of buffers", s[1]+" "+s[4])
			n, _ := strconv.ParseInt(s[2], 10, 64)
			l, ok := least[s[1]]
			for fn := range p.storers(s[1]) {
				ok = ok && by[s[1]][fn]
			}
			if !ok || l < n {
				r.report("slice", s[1], s[3], "%s: the buffer %s is not known to have room for %d bytes", s[4], s[1], n)
			}
		}
	}
}

func init() {
	register(&Prop{
		ID:     "C35",
		Rule:   "Every path of the calls that read, in any order (a driver) and of Upgrade and CloseWithCode: at every index and slice operation the bounds are known to be in order and inside the length, or the capacity that every assignment to that buffer gives it; divisors are not zero, sizes of allocations neither negative nor a number the peer is free to choose; no pointer that can be nil is used, and no explicit panic or failing type assertion is reached.",
		Limits: "Sending data (its buffers depend on option values, C32, and lengths of the application's data). Operations inside the standard library. Memory that a program allows to be used (MaxMessageSize below zero).",
		Min:    map[string]int{"index operations": 1, "slice operations": 6, "capacities of buffers": 1},
		Want: func(p *Program, t Target) bool {
			if t.Key == "driver:reader" {
				return true
			}
			if t.Fn == nil {
				return false
			}
			if r := recvOf(t.Fn); t.Fn.Name() == "Read" && r != "ConnReader" && r != "Conn" {
				return true // a transport of the library
			}
			if t.Kind != "api" {
				return false
			}
			return recvOf(t.Fn) == "Upgrader" && t.Fn.Name() == "Upgrade" || recvOf(t.Fn) == "Conn" && strings.HasPrefix(t.Fn.Name(), "Read") || p.isCloseFn(t.Fn)
		},
		New:    func(p *Program) Monitor { return &safe{base: newBase(true), p: p, buf: map[*V]string{}} },
		Finish: finishSafe,
	})
}
