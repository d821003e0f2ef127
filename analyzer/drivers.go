package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Drivers: programs that use an object of the library over its whole life, for
// rules about the order of calls. They are loops whose body is any one of the
// methods, iterated to a fixpoint like any other loop.

// apiCall runs an entry point with unknown arguments besides the receiver.
func (x *Exec) apiCall(st *State, fn *ssa.Function, recv *V) []Exit {
	var args []*V
	for i, p := range fn.Params {
		if i == 0 && recv != nil {
			args = append(args, recv)
			continue
		}
		v := x.paramValue(st, "arg:"+p.Name(), p.Type())
		if v.Kind == KSym {
			x.renew(st, v, func(n string) *V { return sym(n, p.Type()) })
		}
		args = append(args, v)
	}
	x.root = fn
	x.ev(st, "apicall", fn.Name(), fn.Pos(), args...)
	return x.run(fn, args, nil, st, fn.Name())
}

// apiMethods lists the exported methods of a library type.
func (p *Program) apiMethods(typ string) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.Funcs {
		if recvOf(fn) == typ && fn.Object() != nil && fn.Object().Exported() && fn.Parent() == nil {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// connPtr is a pointer to the connection the analysis is about.
func (x *Exec) connPtr() *V {
	return sym("arg:conn!", types.NewPointer(x.p.structType("Conn")))
}

// result splits the results of a call into values and the error, which is the
// last one.
func results(ret *V) []*V {
	if ret == nil {
		return nil
	}
	if ret.Kind == KTuple {
		return ret.A
	}
	return []*V{ret}
}

// driveWriter takes a message writer and uses it in every way.
func (x *Exec) driveWriter(st *State, m Monitor) []Exit {
	envStack, x.stack = nil, nil
	next := x.p.method("Conn", "NextWriter")
	if next == nil {
		x.fail("Conn.NextWriter not found")
		return nil
	}
	x.root = next
	m.Init(x, st)
	var starts []Exit
	for _, e := range x.apiCall(st, next, x.connPtr()) {
		r := results(e.ret)
		if len(r) == 2 && r[1].Kind == KNil {
			starts = append(starts, e)
		}
	}
	if len(starts) == 0 {
		x.fail("no successful path through Conn.NextWriter")
	}
	ops := x.p.apiMethods("ConnWriter")
	var all []Exit
	for _, s := range starts {
		w := results(s.ret)[0]
		if w.Kind == KIface {
			w = w.A[0]
		}
		s.st.f["drv"] = 1
		all = append(all, x.loop(s.st, []*V{w}, "writer", func(it *item, vals []*V) ([]Exit, []*State) {
			var more []*State
			for _, fn := range ops {
				n := it.with(it.st.clone())
				i := len(envStack) - 1
				se := envStack[i]
				envStack[i] = n
				ex := x.apiCall(n.st, fn, vals[0])
				envStack[i] = se
				for _, e := range ex {
					if fn.Name() == "Close" {
						e.st.f["drv"] = 2
					}
					more = append(more, e.st)
				}
			}
			return []Exit{{it.st.clone(), noVal}}, more
		})...)
	}
	return all
}

// newConnState is the state of a connection right after it was made: the
// fields its constructor sets to constants, and zero for the others.
func (x *Exec) newConnState(st *State) bool {
	var ctor *ssa.Function
	for _, fn := range x.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && a.Heap && libStruct(deref(a.Type())) == "Conn" && !isPtr(deref(a.Type())) {
					ctor = fn
				}
			}
		}
	}
	if ctor == nil {
		return false
	}
	y := newExec(x.p, &ctorChecker{newBase(true)}, newReports())
	y.root = ctor
	envStack = nil
	ex := y.runRoot(ctor, newState())
	if y.bail != "" {
		return false
	}
	ct := x.p.structType("Conn")
	first := true
	var visit func(o Exit, from, to *V, t types.Type)
	visit = func(o Exit, from, to *V, t types.Type) {
		su := structUnder(t)
		for i := 0; i < su.NumFields(); i++ {
			ft := su.Field(i).Type()
			f, g := fld(from, i, ft), fld(to, i, ft)
			if libStruct(ft) != "" && !isPtr(ft) {
				if structUnder(ft) != nil {
					visit(o, f, g, ft)
					continue
				}
			}
			s, n := fieldOf(g)
			if !x.p.Mutable[s+"."+n] {
				continue
			}
			if basicOf(ft) == nil {
				continue
			}
			v := y.load0(o.st, f, ft)
			if v.Kind != KConst {
				delete(st.heap, g)
				continue
			}
			if first {
				st.heap[g] = v
			} else if st.heap[g] != v {
				delete(st.heap, g)
			}
		}
	}
	n := 0
	for _, e := range ex {
		for _, r := range results(e.ret) {
			if r.Kind == KObj && strings.HasPrefix(r.Name, "new:") && libStruct(deref(r.Typ)) == "Conn" || r.Kind == KObj && libStruct(r.Typ) == "Conn" {
				visit(e, r, obj("Conn", ct), ct)
				first = false
				n++
			}
		}
	}
	return n > 0
}

type ctorChecker struct{ base }

// driveReader uses the reading side of a new connection in every way.
func (x *Exec) driveReader(st *State, m Monitor) []Exit {
	if !x.newConnState(st) {
		x.fail("the constructor of Conn was not understood")
		return nil
	}
	envStack, x.stack = nil, nil
	next := x.p.method("Conn", "NextReader")
	read := x.p.method("ConnReader", "Read")
	if next == nil || read == nil {
		x.fail("Conn.NextReader or ConnReader.Read not found")
		return nil
	}
	x.root = next
	st.f["drv"] = 3
	m.Init(x, st)
	conn := x.connPtr()
	rt := x.p.structType("ConnReader")
	var rd *V
	if e, ok := x.p.EmbedOwner["ConnReader"]; ok {
		rd = fld(obj(e.owner, x.p.structType(e.owner)), e.idx, rt)
	} else {
		rd = sym("arg:reader!", types.NewPointer(rt))
	}
	ops := []*ssa.Function{next, read}
	for _, n := range []string{"ReadMessage", "ReadBinary", "ReadString", "ReadJSON"} {
		fn := x.p.method("Conn", n)
		if fn != nil && !x.onlyCalls(fn, map[*ssa.Function]bool{next: true, read: true}) {
			ops = append(ops, fn)
		}
	}
	return x.loop(st, nil, "reader", func(it *item, vals []*V) ([]Exit, []*State) {
		var more []*State
		for _, fn := range ops {
			if fn == read && it.st.f["drvmsg"] == 0 {
				continue // there is no reader yet
			}
			n := it.with(it.st.clone())
			i := len(envStack) - 1
			se := envStack[i]
			envStack[i] = n
			recv := conn
			if fn == read {
				recv = rd
			}
			ex := x.apiCall(n.st, fn, recv)
			envStack[i] = se
			for _, e := range ex {
				if fn == next {
					r := results(e.ret)
					if r[len(r)-1].Kind == KNil {
						e.st.f["drvmsg"] = 1
					}
				}
				more = append(more, e.st)
			}
		}
		return []Exit{{it.st.clone(), noVal}}, more
	})
}

// onlyCalls: fn uses the connection only through the given functions (and
// functions that do so).
func (x *Exec) onlyCalls(fn *ssa.Function, ok map[*ssa.Function]bool) bool {
	return x.onlyCalls1(fn, ok, map[*ssa.Function]bool{})
}

func (x *Exec) onlyCalls1(fn *ssa.Function, ok, seen map[*ssa.Function]bool) bool {
	if ok[fn] || seen[fn] {
		return true
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if r := fieldRef(in.Addr); strings.HasPrefix(r, "Conn.") || strings.HasPrefix(r, "ConnReader.") {
					return false
				}
			case ssa.CallInstruction:
				c := in.Common().StaticCallee()
				if c == nil {
					if in.Common().IsInvoke() {
						continue
					}
					continue
				}
				c = body(c)
				if x.p.isLibFn(c) && !x.p.isCloseFn(c) && !x.onlyCalls1(c, ok, seen) {
					return false
				}
				if strings.HasPrefix(c.String(), "(*bufio.Reader)") {
					return false
				}
			}
		}
	}
	return true
}
