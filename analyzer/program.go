package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Facts about the program the interpreter uses. They are all computed from the
// types and the SSA form, not from names.
type Facts struct {
	Singleton   map[string]bool
	EmbedOwner  map[string]embed
	NonNilField map[string]bool
	ConstField  map[string]*ssa.Const // fields every constructor sets to the same boolean
	ErrGlobals  map[string]bool
	LockChan    map[string]bool
	SignalChan  map[string]bool
	Mutable     map[string]bool
	ConstSets   map[string][]int64 // contents of constant integer slices and map keys, by global
	GoTargets   []*ssa.Function
	Impl        map[string][]*ssa.Function // "iface.method" -> library implementations
	Callbacks   map[*ssa.Function]bool     // closures stored for later use
	initOnly    map[*ssa.Global]bool
	guardSet    map[string]bool
}

type embed struct {
	owner string
	idx   int
}

// Types of which the library keeps one instance per connection, or of which an
// operation on a connection meets one instance.
var singletonTypes = []string{"Conn", "ConnReader", "ConnWriter", "ControlWriter", "Upgrader", "Options", "batchFlusher",
	"messageBatch", "RateLimiter", "Manager", "RoomManager"}

func (p *Program) structType(name string) types.Type {
	if o := p.Lib.Pkg.Scope().Lookup(name); o != nil {
		return o.Type()
	}
	return nil
}

// fieldRef resolves an SSA value that is a field address (or the value loaded
// from it) to "Struct.field".
func fieldRef(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		s := libStruct(v.X.Type())
		if s == "" {
			return ""
		}
		st := structUnder(deref(v.X.Type()))
		return s + "." + st.Field(v.Field).Name()
	case *ssa.Field:
		s := libStruct(v.X.Type())
		if s == "" {
			return ""
		}
		return s + "." + structUnder(v.X.Type()).Field(v.Field).Name()
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return fieldRef(v.X)
		}
	case *ssa.ChangeType:
		return fieldRef(v.X)
	}
	return ""
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (p *Program) facts() {
	f := &p.Facts
	f.Singleton = map[string]bool{}
	f.EmbedOwner = map[string]embed{}
	f.NonNilField = map[string]bool{}
	f.ErrGlobals = map[string]bool{}
	f.LockChan = map[string]bool{}
	f.SignalChan = map[string]bool{}
	f.Mutable = map[string]bool{}
	f.ConstSets = map[string][]int64{}
	f.Impl = map[string][]*ssa.Function{}
	f.Callbacks = map[*ssa.Function]bool{}
	for _, n := range singletonTypes {
		if p.structType(n) != nil {
			f.Singleton[n] = true
		}
	}
	scope := p.Lib.Pkg.Scope()
	var structs []string
	for _, n := range scope.Names() {
		tn, ok := scope.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		if structUnder(tn.Type()) != nil {
			structs = append(structs, n)
		}
	}
	sort.Strings(structs)
	cnt := map[string]int{}
	for _, n := range structs {
		st := structUnder(p.structType(n))
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			if _, isP := ft.Underlying().(*types.Pointer); isP {
				continue
			}
			if e := libStruct(ft); e != "" && f.Singleton[e] && f.Singleton[n] {
				f.EmbedOwner[e] = embed{n, i}
				cnt[e]++
			}
		}
	}
	for e, c := range cnt {
		if c > 1 {
			delete(f.EmbedOwner, e)
			delete(f.Singleton, e)
		}
	}

	// interface implementations inside the library
	for _, n := range scope.Names() {
		tn, ok := scope.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		it, ok := tn.Type().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		for _, s := range structs {
			t := p.structType(s)
			if named, ok := t.(*types.Named); ok && named.TypeParams().Len() > 0 {
				continue
			}
			for _, c := range []types.Type{t, types.NewPointer(t)} {
				if types.Implements(c, it) {
					for i := 0; i < it.NumMethods(); i++ {
						m := it.Method(i)
						if fn := p.SSA.LookupMethod(c, m.Pkg(), m.Name()); fn != nil {
							k := n + "." + m.Name()
							f.Impl[k] = append(f.Impl[k], fn)
						}
					}
					break
				}
			}
		}
	}

	type chanUse struct {
		send, recv, closed, cap1, capOther bool
	}
	cu := map[string]*chanUse{}
	use := func(v ssa.Value) *chanUse {
		r := fieldRef(v)
		if r == "" {
			return nil
		}
		if cu[r] == nil {
			cu[r] = &chanUse{}
		}
		return cu[r]
	}
	globStores := map[*ssa.Global]int{}
	type fstore struct {
		fn  *ssa.Function
		blk *ssa.BasicBlock
		val ssa.Value
	}
	stores := map[string][]fstore{}
	goSeen := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Send:
					if u := use(in.Chan); u != nil {
						u.send = true
					}
				case *ssa.UnOp:
					if in.Op == token.ARROW {
						if u := use(in.X); u != nil {
							u.recv = true
						}
					}
				case *ssa.Select:
					for _, s := range in.States {
						if u := use(s.Chan); u != nil {
							if s.Dir == types.SendOnly {
								u.send = true
							} else {
								u.recv = true
							}
						}
					}
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						if u := use(in.Call.Args[0]); u != nil {
							u.closed = true
						}
					}
				case *ssa.Store:
					if g, ok := in.Addr.(*ssa.Global); ok && fn.Name() != "init" {
						globStores[g]++
					}
					if r := fieldRef(in.Addr); r != "" {
						stores[r] = append(stores[r], fstore{fn, b, in.Val})
						if mc, ok := in.Val.(*ssa.MakeChan); ok {
							u := use(in.Addr)
							if c, ok := mc.Size.(*ssa.Const); ok && c.Value != nil && c.Int64() == 1 {
								u.cap1 = true
							} else {
								u.capOther = true
							}
						}
					}
				case *ssa.Go:
					if c := in.Call.StaticCallee(); c != nil {
						if c.Origin() != nil {
							c = c.Origin()
						}
						if !goSeen[c] {
							goSeen[c] = true
							f.GoTargets = append(f.GoTargets, c)
						}
					}
				case *ssa.MakeClosure:
					for _, r := range *in.Referrers() {
						switch r := r.(type) {
						case *ssa.Store, *ssa.MapUpdate, *ssa.MakeInterface:
							f.Callbacks[in.Fn.(*ssa.Function)] = true
						case ssa.CallInstruction:
							for _, a := range r.Common().Args {
								if a == ssa.Value(in) {
									if c := r.Common().StaticCallee(); c != nil && c.Name() != "Do" {
										f.Callbacks[in.Fn.(*ssa.Function)] = true
									}
								}
							}
						}
					}
				}
			}
		}
	}
	for r, u := range cu {
		if !isEmptyStructChan(p, r) {
			continue
		}
		if u.send && u.recv && u.cap1 && !u.capOther && !u.closed {
			f.LockChan[r] = true
		}
		if !u.send && u.closed {
			f.SignalChan[r] = true
		}
	}
	// package initialisation: error values and constant sets
	for _, m := range p.Lib.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		t := deref(g.Type())
		if globStores[g] == 0 && isErrorType(t) {
			f.ErrGlobals[g.Name()] = true
		}
	}
	if init := p.Lib.Func("init"); init != nil {
		elems := map[ssa.Value][]int64{}
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
						if c, ok := in.Val.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
							elems[ia.X] = append(elems[ia.X], c.Int64())
						}
					}
					if g, ok := in.Addr.(*ssa.Global); ok && globStores[g] == 0 {
						switch v := in.Val.(type) {
						case *ssa.Slice:
							if e, ok := elems[v.X]; ok {
								f.ConstSets[g.Name()] = e
							}
						case *ssa.MakeMap:
							if e, ok := elems[v]; ok {
								f.ConstSets[g.Name()] = e
							}
						}
					}
				case *ssa.MapUpdate:
					if c, ok := in.Key.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
						truth := true
						if vc, ok := in.Value.(*ssa.Const); ok && vc.Value != nil && vc.Value.Kind() == constant.Bool {
							truth = constant.BoolVal(vc.Value)
						}
						if truth {
							elems[in.Map] = append(elems[in.Map], c.Int64())
						}
					}
				}
			}
		}
	}

	// constructors: functions that allocate a struct
	ctors := map[string]map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok {
					if s := libStruct(deref(a.Type())); s != "" {
						if _, isP := deref(a.Type()).Underlying().(*types.Pointer); isP {
							continue
						}
						if ctors[s] == nil {
							ctors[s] = map[*ssa.Function]bool{}
						}
						ctors[s][fn] = true
						if e := structUnder(deref(a.Type())); e != nil {
							for i := 0; i < e.NumFields(); i++ {
								if sub := libStruct(e.Field(i).Type()); sub != "" && !isPtr(e.Field(i).Type()) {
									if ctors[sub] == nil {
										ctors[sub] = map[*ssa.Function]bool{}
									}
									ctors[sub][fn] = true
								}
							}
						}
					}
				}
			}
		}
	}
	// mutable siblings of a mutex
	for r, ss := range stores {
		s := r[:strings.IndexByte(r, '.')]
		for _, st := range ss {
			if !ctors[s][st.fn] {
				f.Mutable[r] = true
			}
		}
	}
	// non-nil fields: stored unconditionally with a non-nil value where the struct is made
	for ch := true; ch; {
		ch = false
		for r, ss := range stores {
			if f.NonNilField[r] {
				continue
			}
			s := r[:strings.IndexByte(r, '.')]
			ok := len(ctors[s]) > 0
			covered := map[*ssa.Function]bool{}
			for _, st := range ss {
				if c, isC := st.val.(*ssa.Const); isC && c.Value == nil {
					ok = false
				}
				if lr := fieldRef(st.val); lr != "" && !f.NonNilField[lr] {
					ok = false
				}
				if dominatesReturns(st.blk) {
					covered[st.fn] = true
				}
			}
			for c := range ctors[s] {
				if !covered[c] {
					ok = false
				}
			}
			if ok {
				f.NonNilField[r] = true
				ch = true
			}
		}
	}
	f.ConstField = map[string]*ssa.Const{}
	for r, ss := range stores {
		s := r[:strings.IndexByte(r, '.')]
		var k *ssa.Const
		ok := len(ctors[s]) > 0 && !f.Mutable[r]
		covered := map[*ssa.Function]bool{}
		for _, st := range ss {
			c, isC := st.val.(*ssa.Const)
			if !isC || c.Value == nil || c.Value.Kind() != constant.Bool || k != nil && constant.BoolVal(k.Value) != constant.BoolVal(c.Value) {
				ok = false
				break
			}
			k = c
			if dominatesReturns(st.blk) {
				covered[st.fn] = true
			}
		}
		for c := range ctors[s] {
			ok = ok && covered[c]
		}
		if ok && k != nil {
			f.ConstField[r] = k
		}
	}
	sort.Slice(f.GoTargets, func(i, j int) bool { return f.GoTargets[i].Pos() < f.GoTargets[j].Pos() })
}

func dominatesReturns(b *ssa.BasicBlock) bool {
	n := 0
	for _, o := range b.Parent().Blocks {
		if len(o.Instrs) == 0 {
			continue
		}
		if _, ok := o.Instrs[len(o.Instrs)-1].(*ssa.Return); ok {
			if o == b.Parent().Recover {
				continue
			}
			n++
			if !b.Dominates(o) {
				return false
			}
		}
	}
	return n > 0
}

func isEmptyStructChan(p *Program, ref string) bool {
	i := strings.IndexByte(ref, '.')
	st := structUnder(p.structType(ref[:i]))
	if st == nil {
		return false
	}
	for k := 0; k < st.NumFields(); k++ {
		if st.Field(k).Name() == ref[i+1:] {
			c, ok := st.Field(k).Type().Underlying().(*types.Chan)
			if !ok {
				return false
			}
			e, ok := c.Elem().Underlying().(*types.Struct)
			return ok && e.NumFields() == 0
		}
	}
	return false
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// isLibFn reports whether fn's body belongs to the library package.
func (p *Program) isLibFn(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Package() == p.Lib {
			return true
		}
		if o := f.Origin(); o != nil && o.Package() == p.Lib {
			return true
		}
		if ob := f.Object(); ob != nil && isLibPkg(ob.Pkg()) {
			return true
		}
	}
	return false
}

// body returns the function whose blocks stand for fn.
func body(fn *ssa.Function) *ssa.Function {
	if fn.Origin() != nil && fn.Origin() != fn {
		return fn.Origin()
	}
	return fn
}
