package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// guards tells, for every struct with a mutex, which of its fields hold the
// registry the mutex is there for: its maps, and every slice, count and flag
// that changes after construction.
func (p *Program) guards() map[string]bool {
	if p.guardSet != nil {
		return p.guardSet
	}
	g := map[string]bool{}
	sc := p.Lib.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		s, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		locks := 0
		for i := 0; i < s.NumFields(); i++ {
			if isMutex(s.Field(i).Type()) {
				locks++
			}
		}
		if locks == 0 {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			ref := n + "." + f.Name()
			switch u := f.Type().Underlying().(type) {
			case *types.Map:
				g[ref] = true
			case *types.Slice:
				if _, ok := u.Elem().Underlying().(*types.Basic); !ok && p.Mutable[ref] {
					g[ref] = true
				}
			case *types.Basic:
				if n != "Conn" && p.Mutable[ref] && !f.Exported() {
					g[ref] = true
				}
			}
		}
	}
	p.guardSet = g
	return g
}

func isMutex(t types.Type) bool {
	s := strings.TrimPrefix(t.String(), "*")
	return s == "sync.Mutex" || s == "sync.RWMutex"
}

// lockOf: the mode in which a mutex of the object a registry field belongs to is
// held, or 0.
func (st *State) lockOf(a *V) byte {
	best := byte(0)
	for _, h := range st.held {
		if h.Obj == nil || h.Obj.Kind != KFld || h.Obj.A[0] != a.A[0] || h.Mode != 'W' && h.Mode != 'R' {
			continue
		}
		if best != 'W' {
			best = h.Mode
		}
	}
	return best
}

// ---- C22: registries under their locks ----

type guarded struct{ base }

// live returns the address of the guarded field that holds v itself.
func (m *guarded) live(x *Exec, st *State, v *V) *V {
	for v != nil && v.Kind == KSlice {
		v = v.A[0]
	}
	a, ok := symField[v]
	if !ok || a.Kind != KFld || st.f["det"+ids([]*V{v})] == 1 {
		return nil
	}
	return m.guard(x, a)
}

func (m *guarded) guard(x *Exec, a *V) *V {
	s, f := fieldOf(a)
	if !x.p.guards()[s+"."+f] || isNewObj(rootOf(a)) && !strings.HasSuffix(rootOf(a).Name, "'") {
		return nil
	}
	return a
}

func (m *guarded) access(x *Exec, st *State, a *V, write bool, what string, fn *ssa.Function, pos token.Pos) {
	if a == nil {
		return
	}
	s, f := fieldOf(a)
	ref := s + "." + f
	m.ob("registries", x, token.NoPos, ref)
	if write {
		m.ob("changes", x, pos, ref)
	} else {
		m.ob("reads", x, pos, ref)
	}
	switch st.lockOf(a) {
	case 0:
		x.report(st, "unlocked", ref+" "+what, fn, pos, "%s is %s without the lock of its %s", ref, what, s)
	case 'R':
		if write {
			x.report(st, "shared-write", ref+" "+what, fn, pos, "%s is %s while its lock is only held for reading", ref, what)
		}
	}
}

func (m *guarded) leak(x *Exec, st *State, v *V, what string, fn *ssa.Function, pos token.Pos) {
	if v == nil {
		return
	}
	if a := m.live(x, st, unwrap(v)); a != nil && isContainer(unwrap(v)) {
		s, f := fieldOf(a)
		x.report(st, "live", s+"."+f+" "+what, fn, pos, "%s is given %s the live container %s.%s", x.root.Name(), what, s, f)
	}
}

func isContainer(v *V) bool {
	if v.Typ == nil {
		return v.Kind == KSlice
	}
	switch v.Typ.Underlying().(type) {
	case *types.Map, *types.Slice:
		return true
	}
	return false
}

func (m *guarded) Event(x *Exec, st *State, ev *Event) {
	switch ev.Kind {
	case "load":
		m.access(x, st, m.guard(x, ev.Args[0]), false, "read", ev.Fn, ev.Pos)
	case "store":
		a := m.guard(x, ev.Args[0])
		m.access(x, st, a, true, "set", ev.Fn, ev.Pos)
		if a != nil {
			if old := st.heap[a]; old != nil && st.lockOf(a) == 'W' && old != ev.Args[1] {
				st.set("det"+ids([]*V{old}), 1)
			}
		}
		if v := ev.Args[1]; a == nil && isContainer(v) && m.live(x, st, v) != nil {
			// handed on: the registry must get another one before the lock is released
			for v.Kind == KSlice {
				v = v.A[0]
			}
			st.v["mov"+ids([]*V{v})] = v
		}
	case "unlock":
		for k, v := range st.v {
			if !strings.HasPrefix(k, "mov") {
				continue
			}
			if a := m.live(x, st, v); a != nil && st.heap[a] == v {
				s, f := fieldOf(a)
				x.report(st, "live", s+"."+f+" stored", ev.Fn, ev.Pos, "the live container %s.%s is stored elsewhere", s, f)
			}
			delete(st.v, k)
		}
	case "mapset", "mapdelete", "mapclear":
		m.access(x, st, m.live(x, st, ev.Args[0]), true, "changed", ev.Fn, ev.Pos)
	case "mapget", "maprange", "maplen", "rangenext", "sliceread":
		if ev.Kind == "rangenext" || ev.Kind == "sliceread" {
			if !isContainer(ev.Args[0]) {
				return
			}
		}
		m.access(x, st, m.live(x, st, ev.Args[0]), false, "read", ev.Fn, ev.Pos)
	case "callback":
		for _, a := range ev.Args[1:] {
			m.leak(x, st, a, "to a hook", ev.Fn, ev.Pos)
		}
	case "send":
		for _, a := range ev.Args {
			m.leak(x, st, a, "to a channel", ev.Fn, ev.Pos)
		}
	}
}

func (m *guarded) Return(x *Exec, st *State, ret *V) {
	if x.root.Parent() != nil || ret == nil {
		return
	}
	for _, v := range results(ret) {
		m.ob("results", x, x.root.Pos(), x.root.Name())
		m.leak(x, st, v, "to the caller", x.root, x.root.Pos())
	}
}

func init() {
	register(&Prop{ID: "C22",
		Rule:   "For every struct that holds a mutex, its maps and every slice, count and flag of it that changes after construction are taken as guarded. On every path of every entry point: at each read of such a container or field a mutex of the same object is held, at each change it is held for writing; and the live container itself (not a copy or something built from it) is never returned, stored, sent, captured or passed to a callback or goroutine, unless it was detached from its field under the lock before.",
		Limits: "Fields of structs without a mutex are C33. Elements of a container are not followed: what is done with a connection that was found is up to the other properties.",
		Want:   func(p *Program, t Target) bool { return lockWant(p, t) },
		New:    func(p *Program) Monitor { return &guarded{newBase(true)} },
		Min:    map[string]int{"registries": 5, "reads": 10, "changes": 8, "results": 5},
	})
}
