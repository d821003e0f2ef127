package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// Roles: which locks of the library play which part, found from what the code
// does with them.
type Roles struct {
	Msg  string          // the right to send a message: held when NextWriter succeeds
	Wire map[string]bool // held during every write to the transport
}

type roleProbe struct {
	base
	atWrite []map[string]bool
	atOk    []map[string]bool
}

func heldSet(st *State) map[string]bool {
	m := map[string]bool{}
	for _, h := range st.held {
		m[h.Name] = true
	}
	return m
}

func (r *roleProbe) Event(x *Exec, st *State, ev *Event) {
	if ev.Kind == "netwrite" {
		r.atWrite = append(r.atWrite, heldSet(st))
	}
}

func (r *roleProbe) Return(x *Exec, st *State, ret *V) {
	rs := results(ret)
	if len(rs) > 0 && rs[len(rs)-1].Kind == KNil {
		r.atOk = append(r.atOk, heldSet(st))
	}
}

func intersect(l []map[string]bool) map[string]bool {
	if len(l) == 0 {
		return nil
	}
	out := map[string]bool{}
	for k := range l[0] {
		all := true
		for _, m := range l {
			all = all && m[k]
		}
		if all {
			out[k] = true
		}
	}
	return out
}

func (p *Program) probe(typ, name string) *roleProbe {
	r := &roleProbe{base: newBase(true)}
	fn := p.method(typ, name)
	if fn == nil {
		return r
	}
	x := newExec(p, r, newReports())
	x.runRoot(fn, newState())
	return r
}

func (p *Program) roles() *Roles {
	if p.rolesMemo != nil {
		return p.rolesMemo
	}
	r := &Roles{Wire: map[string]bool{}}
	for k := range intersect(p.probe("Conn", "NextWriter").atOk) {
		r.Msg = k
	}
	for k := range intersect(p.probe("Conn", "Ping").atWrite) {
		if k != r.Msg {
			r.Wire[k] = true
		}
	}
	p.rolesMemo = r
	return r
}

// connClosed: the closed signal of the connection is known to be raised.
func (x *Exec) connClosed(st *State) bool {
	for f, t := range st.facts {
		if t && f.Kind == KExpr && f.Name == "closed" {
			if a, ok := symField[f.A[0]]; ok {
				if s, _ := fieldOf(a); s == "Conn" {
					return true
				}
			}
		}
	}
	return false
}

// fnPos is where a function is declared.
func (p *Program) fnPos(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	ps := p.SSA.Fset.Position(fn.Pos())
	return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
}
