package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func one(st *State, v *V) []Exit { return []Exit{{st, v}} }

var noVal = tuple()

// paramValue is the initial value of a parameter.
func (x *Exec) paramValue(st *State, name string, t types.Type) *V {
	if x.optionalParam(t) {
		return sym(name, t)
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return sym(name+"!", t)
	case *types.Interface:
		if _, ok := types.Unalias(t).(*types.TypeParam); ok {
			return sym(name, t)
		}
		if n := namedOf(t); n != nil {
			return sym(name+"!", t)
		}
	}
	return sym(name, t)
}

// optionalParam: parameter types for which the documentation allows nil.
func (x *Exec) optionalParam(t types.Type) bool {
	n := namedOf(t)
	if n == nil {
		_, isF := t.Underlying().(*types.Signature)
		return isF && false
	}
	switch n.Obj().Name() {
	case "Context", "Options", "SendFunc":
		return true
	case "Upgrader":
		return x.root != nil && x.root.Signature.Recv() == nil
	}
	return false
}

func (x *Exec) invoke(st *State, c *ssa.CallCommon, fv *V, args []*V, pos token.Pos, ctx string) []Exit {
	if st.dead {
		return nil
	}
	if c.IsInvoke() {
		return x.invokeMethod(st, fv, c.Method, c.Value.Type(), args, pos, ctx)
	}
	if fv.Kind == KSym && strings.HasPrefix(fv.Name, "builtin:") {
		return x.builtin(st, strings.TrimPrefix(fv.Name, "builtin:"), c, args, pos, ctx)
	}
	if fv.Kind == KClos {
		return x.callFn(st, fv.Fn, fv.A, args, pos, ctx)
	}
	return x.callDyn(st, fv, c.Signature(), args, pos, ctx)
}

func (x *Exec) invokeMethod(st *State, recv *V, m *types.Func, it types.Type, args []*V, pos token.Pos, ctx string) []Exit {
	if recv.Kind == KIface {
		if fn := x.methodOf(recv.Typ, m); fn != nil {
			return x.callFn(st, fn, nil, append([]*V{recv.A[0]}, args...), pos, ctx)
		}
	}
	x.deref(st, recv, pos)
	if st.dead {
		return nil
	}
	n := namedOf(it)
	tn := "?"
	if n != nil {
		tn = n.Obj().Name()
		if n.Obj().Pkg() != nil && !isLibPkg(n.Obj().Pkg()) {
			tn = n.Obj().Pkg().Path() + "." + tn
		}
	}
	if m.Pkg() == nil && m.Name() == "Error" {
		return one(st, expr("errstr", types.Typ[types.String], recv))
	}
	if fns := x.p.Impl[tn+"."+m.Name()]; len(fns) > 0 {
		var out []Exit
		for i, fn := range fns {
			s := st
			if i < len(fns)-1 {
				s = st.clone()
			}
			rt := fn.Signature.Recv().Type()
			r := sym("as!"+types.TypeString(rt, shortQual)+":"+recv.String(), rt)
			s.note(pos, "dispatch to "+fn.String())
			out = append(out, x.callFn(s, fn, nil, append([]*V{r}, args...), pos, fmt.Sprintf("%s.%d", ctx, i))...)
		}
		return out
	}
	return x.external(st, tn+"."+m.Name(), m.Type().(*types.Signature), append([]*V{recv}, args...), pos, ctx, true)
}

func (x *Exec) methodOf(t types.Type, m *types.Func) *ssa.Function {
	n := namedOf(t)
	if n == nil || !isLibPkg(n.Obj().Pkg()) {
		return nil
	}
	if n.TypeParams().Len() > 0 {
		for i := 0; i < n.NumMethods(); i++ {
			if n.Method(i).Name() == m.Name() {
				return x.p.SSA.FuncValue(n.Method(i))
			}
		}
		return nil
	}
	return x.p.SSA.LookupMethod(t, m.Pkg(), m.Name())
}

func (x *Exec) callFn(st *State, fn *ssa.Function, binds, args []*V, pos token.Pos, ctx string) []Exit {
	fn = body(fn)
	if x.p.isLibFn(fn) && fn.Blocks != nil {
		n := 0
		for _, f := range x.stack {
			if f == fn {
				n++
			}
		}
		if ex, ok := x.chk.Call(x, st, fn, args, pos); ok {
			return ex
		}
		if fn != x.root && isMaskFn(fn) {
			return x.maskCall(st, args, pos, ctx)
		}
		if n >= 2 {
			x.fail("recursion of " + fn.String())
			return nil
		}
		saved := x.curFn
		if st.tr == nil || st.tr.msg != "call "+fn.String() {
			st.note(pos, "call "+fn.Name())
		}
		ex := x.run(fn, args, binds, st, ctx)
		x.curFn = saved
		return ex
	}
	if fn.Blocks != nil && fn.Synthetic != "" && fn.Package() == nil {
		// wrappers and bound methods of the library or its embedded types
		return x.run(fn, args, binds, st, ctx)
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	return x.external(st, name, fn.Signature, args, pos, ctx, false)
}

// callDyn calls an unknown function value: a callback supplied by the user or
// stored by the library.
func (x *Exec) callDyn(st *State, fv *V, sig *types.Signature, args []*V, pos token.Pos, ctx string) []Exit {
	if fv.Kind == KExpr && fv.Name == "strings.seq" && len(args) == 1 && args[0].Kind == KClos {
		return x.rangeFunc(st, fv, args[0], pos, ctx)
	}
	x.deref(st, fv, pos)
	if st.dead {
		return nil
	}
	name := x.callbackName(fv, sig)
	x.emit(st, &Event{Kind: "callback", Name: name, Args: append([]*V{fv}, args...), Pos: pos})
	ex := x.freshResults(st, sig, ctx, false)
	if sig.Results().Len() > 0 {
		for _, e := range ex {
			x.emitQuiet(e.st, &Event{Kind: "cbret", Name: name, Args: append([]*V{e.ret, fv}, args...), Pos: pos})
		}
	}
	return ex
}

// callbackName names a function value by the field it was loaded from.
func (x *Exec) callbackName(fv *V, sig *types.Signature) string {
	if a, ok := symField[fv]; ok {
		s, f := fieldOf(a)
		return s + "." + f
	}
	return "func" + strings.TrimPrefix(types.TypeString(sig, shortQual), "func")
}

func (x *Exec) rangeFunc(st *State, seq, yield *V, pos token.Pos, ctx string) []Exit {
	n := x.freshSym(st, ctx+".i", tInt)
	return x.loop(st, []*V{seq, yield, n}, ctx+"/range", func(it *item, v []*V) (final []Exit, more []*State) {
		s := it.st
		final = append(final, Exit{s.clone(), noVal})
		n := x.freshSym(s, ctx+".i", tInt)
		it.sync()
		it.env[loopKey(2)] = n
		seq, yield := it.env[loopKey(0)], it.env[loopKey(1)]
		e := expr("strings.elem", types.Typ[types.String], seq, n)
		for _, ex := range x.callFn(s, yield.Fn, yield.A, []*V{e}, pos, ctx+"/y") {
			if t, ok := ex.st.eval(ex.ret); ok {
				if t {
					more = append(more, ex.st)
				} else {
					final = append(final, Exit{ex.st, noVal})
				}
				continue
			}
			final = append(final, Exit{ex.st.clone(), noVal})
			more = append(more, ex.st)
		}
		return
	})
}

// freshResults returns unknown results; an error result is split into nil and
// non-nil.
func (x *Exec) freshResults(st *State, sig *types.Signature, ctx string, keep bool) []Exit {
	n := sig.Results().Len()
	if n == 0 {
		return one(st, noVal)
	}
	vals := make([]*V, n)
	errAt := -1
	for i := 0; i < n; i++ {
		t := sig.Results().At(i).Type()
		if isErrorType(t) {
			errAt = i
			continue
		}
		vals[i] = x.freshSym(st, fmt.Sprintf("%s.%d", ctx, i), t)
	}
	mk := func(s *State, e *V) Exit {
		v := append([]*V(nil), vals...)
		if errAt >= 0 {
			v[errAt] = e
		}
		if n == 1 {
			return Exit{s, v[0]}
		}
		return Exit{s, tuple(v...)}
	}
	if errAt < 0 {
		return []Exit{mk(st, nil)}
	}
	o := st.clone()
	e := x.freshErr(o, ctx)
	return []Exit{mk(st, vNil), mk(o, e)}
}

// freshErr is a non-nil error of unknown kind that no library type implements.
func (x *Exec) freshErr(st *State, ctx string) *V {
	e := x.freshSym(st, "err!"+ctx, types.Universe.Lookup("error").Type())
	return e
}

func okErr(x *Exec, st *State, ctx string, mk func(s *State, err *V) *V) []Exit {
	o := st.clone()
	e := x.freshErr(o, ctx)
	return []Exit{{st, mk(st, vNil)}, {o, mk(o, e)}}
}

func (x *Exec) builtin(st *State, name string, c *ssa.CallCommon, args []*V, pos token.Pos, ctx string) []Exit {
	switch name {
	case "len":
		a := args[0]
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			s := kInt(0)
			if a.Kind != KNil {
				s = x.freshSym(st, ctx+".len", types.Typ[types.Int])
				st.constrain(s, ival{0, inf})
			}
			x.emitQuiet(st, &Event{Kind: "maplen", Args: []*V{a, s}, Pos: pos})
			return one(st, s)
		}
		if _, ok := c.Args[0].Type().Underlying().(*types.Chan); ok {
			s := x.freshSym(st, ctx+".len", types.Typ[types.Int])
			st.constrain(s, ival{0, inf})
			x.emitQuiet(st, &Event{Kind: "chanlen", Args: []*V{a, s}, Pos: pos})
			return one(st, s)
		}
		return one(st, vLen(st, a))
	case "cap":
		return one(st, vCap(st, args[0]))
	case "min", "max":
		cur := []Exit{{st, args[0]}}
		for _, b := range args[1:] {
			var next []Exit
			for _, e := range cur {
				lt := vLt(e.ret, b)
				if t, ok := e.st.eval(lt); ok {
					if t == (name == "min") {
						next = append(next, e)
					} else {
						next = append(next, Exit{e.st, b})
					}
					continue
				}
				o := e.st.clone()
				if e.st.assume(lt, true) {
					if name == "min" {
						next = append(next, e)
					} else {
						next = append(next, Exit{e.st, b})
					}
				}
				if o.assume(lt, false) {
					if name == "min" {
						next = append(next, Exit{o, b})
					} else {
						next = append(next, Exit{o, e.ret})
					}
				}
			}
			cur = next
		}
		return cur
	case "append":
		if len(args) < 2 {
			return one(st, args[0])
		}
		x.emitQuiet(st, &Event{Kind: "append", Args: args, Pos: pos})
		b := args[1]
		if s, ok := b.isStr(); ok && s == "" {
			return one(st, args[0])
		}
		r := cat(x.snapshot(st, args[0]), x.snapshot(st, b))
		x.emitQuiet(st, &Event{Kind: "appended", Args: []*V{r, args[0], b}, Pos: pos})
		return one(st, r)
	case "copy":
		dst, src := args[0], args[1]
		return x.copy(st, dst, src, pos, ctx)
	case "delete":
		m, k := args[0], args[1]
		x.emit(st, &Event{Kind: "mapdelete", Args: []*V{m, k}, Pos: pos})
		x.clobberMap(st, m, k)
		var et types.Type
		if mt, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			et = mt.Elem()
			st.heap[elem(m, k, et)] = zeroOf(et)
		}
		st.heap[expr("has", types.Typ[types.Bool], m, k)] = kBool(false)
		return one(st, noVal)
	case "close":
		ch := args[0]
		x.deref(st, ch, pos)
		x.emit(st, &Event{Kind: "close", Name: cleanName(x.chanName(ch)), Args: []*V{ch}, Pos: pos})
		st.facts[x.closedFact(ch)] = true
		return one(st, noVal)
	case "clear":
		x.emit(st, &Event{Kind: "mapclear", Args: []*V{args[0]}, Pos: pos})
		for a := range st.heap {
			if (a.Kind == KElem || a.Kind == KExpr && a.Name == "has") && a.A[0] == args[0] {
				delete(st.heap, a)
			}
		}
		return one(st, noVal)
	case "panic":
		x.emit(st, &Event{Kind: "panic", Args: args, Pos: pos})
		return nil
	case "print", "println":
		return one(st, noVal)
	case "recover":
		return one(st, vNil)
	case "ssa:wrapnilchk":
		return one(st, args[0])
	}
	x.fail("builtin " + name)
	return nil
}

func (x *Exec) chanName(ch *V) string {
	if a, ok := symField[ch]; ok {
		s, f := fieldOf(a)
		return s + "." + f
	}
	return ch.String()
}

// snapshot gives the elements of a slice of a local array as a sequence.
func (x *Exec) snapshot(st *State, v *V) *V {
	if v.Kind != KSlice || v.A[0].Kind != KObj || !isNewObj(v.A[0]) {
		return v
	}
	at, ok := v.A[0].Typ.Underlying().(*types.Array)
	if !ok {
		return v
	}
	lo, o1 := v.A[1].isInt()
	hi, o2 := v.A[2].isInt()
	if !o1 || !o2 || hi-lo > 16 || hi < lo {
		return v
	}
	var parts []*V
	for i := lo; i < hi; i++ {
		e := x.load0(st, elem(v.A[0], kInt(i), at.Elem()), at.Elem())
		parts = append(parts, expr("one", nil, e))
	}
	return cat(parts...)
}

func (x *Exec) copy(st *State, dst, src *V, pos token.Pos, ctx string) []Exit {
	ld, ls := vLen(st, dst), vLen(st, src)
	do := func(s *State, n *V) Exit {
		x.emit(s, &Event{Kind: "copy", Args: []*V{dst, src, n}, Pos: pos})
		x.putContent(s, dst, n, src)
		return Exit{s, n}
	}
	lt := vLt(ls, ld)
	if ls == ld {
		return []Exit{do(st, ls)}
	}
	if t, ok := st.eval(lt); ok {
		if t {
			return []Exit{do(st, ls)}
		}
		return []Exit{do(st, ld)}
	}
	o := st.clone()
	var out []Exit
	if st.assume(lt, true) {
		out = append(out, do(st, ls))
	}
	if o.assume(lt, false) {
		out = append(out, do(o, ld))
	}
	return out
}

// putContent records that dst[0:n] now holds src[0:n].
func (x *Exec) putContent(st *State, dst, n, src *V) {
	base, lo := dst, kInt(0)
	if dst.Kind == KSlice {
		base, lo = dst.A[0], dst.A[1]
	}
	if base.Kind == KNil {
		return
	}
	hi := vAdd(lo, n)
	for k := range st.heap {
		var kl, kh *V
		if k.Kind == KElem && k.A[0] == base {
			if _, isMap := baseMap(base); isMap {
				continue
			}
			kl, kh = k.A[1], vAdd(k.A[1], kInt(1))
		} else if k.Kind == KExpr && k.Name == "content" && k.A[0] == base {
			kl, kh = k.A[1], k.A[2]
		} else {
			continue
		}
		if st.rangeOf(vSub(kh, lo)).hi <= 0 || st.rangeOf(vSub(kl, hi)).lo >= 0 {
			continue
		}
		delete(st.heap, k)
	}
	if n == kInt(0) {
		return
	}
	// single bytes of a short fixed copy
	if src.Kind == KSlice {
		if l, ok := n.isInt(); ok && l <= 8 {
			for i := int64(0); i < l; i++ {
				t := types.Typ[types.Uint8]
				st.heap[x.elemAddr(st, dst, kInt(i), t)] = x.load0(st, x.elemAddr(st, src, kInt(i), t), t)
			}
			return
		}
	}
	st.heap[expr("content", nil, base, lo, hi)] = src
	st.heap[expr("dirty", nil, rootOf(base))] = kBool(true)
}

// isMaskFn recognises the masking primitive func mask(b, key []byte, pos int) int.
func isMaskFn(fn *ssa.Function) bool {
	return fn.Name() == "mask" && fn.Signature.Recv() == nil && fn.Signature.Params().Len() == 3 && fn.Signature.Results().Len() == 1
}

// maskCall treats masking as one step; C34 is about what is in it.
func (x *Exec) maskCall(st *State, args []*V, pos token.Pos, ctx string) []Exit {
	b, key, p := args[0], args[1], args[2]
	n := vLen(st, b)
	x.emit(st, &Event{Kind: "mask", Args: []*V{b, key, p, n}, Pos: pos})
	x.clobber(st, b)
	return one(st, vAdd(p, n))
}
