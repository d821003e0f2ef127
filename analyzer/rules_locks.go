package main

import (
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isWriterMethod(t Target) bool {
	return t.Fn != nil && recvOf(t.Fn) == "ConnWriter" && t.Kind == "api"
}

// lockWant: every entry point; the methods of an open writer through the driver.
func lockWant(p *Program, t Target) bool {
	return !isWriterMethod(t) && t.Key != "driver:reader"
}

// ---- C06: the right to send is always given back ----

type giveBack struct {
	base
	roles *Roles
}

func (m *giveBack) Event(x *Exec, st *State, ev *Event) {
	switch ev.Kind {
	case "lock":
		m.ob("acquisitions", x, ev.Pos, ev.Name)
	case "unlock":
		m.ob("releases", x, ev.Pos, ev.Name)
		if !st.isHeld(ev.Name) {
			x.report(st, "release-unheld", ev.Name, ev.Fn, ev.Pos, "%s is released on a path on which the operation does not hold it", ev.Name)
		}
	}
}

func (m *giveBack) Return(x *Exec, st *State, ret *V) {
	m.ob("exits", x, x.root.Pos(), x.root.Name())
	closed := x.connClosed(st)
	for _, h := range st.held {
		if h.Name == m.roles.Msg {
			rs := results(ret)
			if x.root.Name() == "NextWriter" && len(rs) > 0 && rs[len(rs)-1].Kind == KNil {
				continue // the caller has it now
			}
			if recvOf(x.root) == "ConnWriter" && x.root.Name() != "Close" {
				continue // until the caller closes the writer
			}
			if closed {
				continue
			}
			x.report(st, "right-kept", h.Name, x.root, x.root.Pos(), "%s can return with the right to send (%s) still taken although the connection is open: no other message can be sent", x.root.Name(), h.Name)
			continue
		}
		if closed && h.Mode == 'C' {
			continue
		}
		x.report(st, "lock-kept", h.Name, x.root, x.root.Pos(), "%s can return with %s still held", x.root.Name(), h.Name)
	}
	if x.root.Name() == "NextWriter" && m.roles.Msg != "" {
		rs := results(ret)
		if len(rs) > 0 && rs[len(rs)-1].Kind == KNil && !st.isHeld(m.roles.Msg) {
			x.report(st, "right-not-taken", "", x.root, x.root.Pos(), "NextWriter succeeds without the right to send")
		}
	}
}

// ---- C07: no deadlocks ----

type deadlock struct {
	base
	roles *Roles
	sum   map[string]bool // locks taken while closing a connection
	blk   map[string]bool // other waits while closing
}

// edge is a fact "edge|held|taken|where".
func (m *deadlock) take(x *Exec, st *State, name string, obj *V, block bool, fn *ssa.Function, pos token.Pos, how string) {
	for _, h := range st.held {
		if h.Name == name && (h.Obj == obj || obj == nil || !multiInstance(x, obj)) {
			if h.Mode == 'R' && false {
				continue
			}
			if block {
				x.report(st, "self-deadlock", name, fn, pos, "%s is taken%s while the same operation already holds it", name, how)
			}
			continue
		}
		if block {
			m.fact("edge|%s|%s|%s", h.Name, name, x.pos(pos)+" "+fn.Name())
		}
	}
}

// multiInstance: there can be several locks of this name.
func multiInstance(x *Exec, obj *V) bool {
	r := rootOf(obj)
	return r.Kind == KSym
}

func (m *deadlock) mutexHeld(st *State) string {
	for _, h := range st.held {
		if h.Mode == 'W' || h.Mode == 'R' {
			return h.Name
		}
	}
	return ""
}

func (m *deadlock) Event(x *Exec, st *State, ev *Event) {
	var obj *V
	if len(ev.Args) > 0 {
		obj = ev.Args[0]
	}
	switch ev.Kind {
	case "lock":
		m.ob("acquisitions", x, ev.Pos, ev.Name)
		m.take(x, st, ev.Name, obj, ev.Block, ev.Fn, ev.Pos, "")
		if ev.N == 'C' && ev.Block {
			if h := m.mutexHeld(st); h != "" {
				x.report(st, "wait-under-mutex", h+">"+ev.Name, ev.Fn, ev.Pos, "waits for %s while holding the mutex %s", ev.Name, h)
			}
		}
	case "Close":
		m.ob("closings", x, ev.Pos, ev.Fn.Name())
		for n := range m.sum {
			m.take(x, st, n, nil, true, ev.Fn, ev.Pos, " by closing the connection")
		}
		if h := m.mutexHeld(st); h != "" {
			x.report(st, "wait-under-mutex", h+">close", ev.Fn, ev.Pos, "closes a connection, which waits for the transport and runs hooks, while holding the mutex %s", h)
		}
	case "select", "chanop", "netwrite", "netread", "wait", "sleep", "readall", "peek", "discard", "bufread", "readbyte", "readfull":
		b := ev.Block || ev.Kind == "peek" || ev.Kind == "discard" || ev.Kind == "bufread" || ev.Kind == "readbyte" || ev.Kind == "readfull" || ev.Kind == "readall"
		if !b {
			return
		}
		m.ob("waits", x, ev.Pos, ev.Kind)
		if h := m.mutexHeld(st); h != "" {
			x.report(st, "wait-under-mutex", h+">"+ev.Kind, ev.Fn, ev.Pos, "waits (%s) while holding the mutex %s", ev.Kind, h)
		}
		if ev.Kind == "wait" {
			for _, h := range st.held {
				m.fact("edge|%s|join|%s", h.Name, x.pos(ev.Pos)+" "+ev.Fn.Name())
			}
		}
	}
}

// closeSummary lists the locks closing a connection may wait for.
func closeSummary(p *Program) map[string]bool {
	fn := p.method("Conn", "CloseWithCode")
	c := &lockCollect{newBase(false), map[string]bool{}}
	if fn == nil {
		return c.got
	}
	x := newExec(p, c, newReports())
	x.runRoot(fn, newState())
	return c.got
}

type lockCollect struct {
	base
	got map[string]bool
}

func (c *lockCollect) Event(x *Exec, st *State, ev *Event) {
	if ev.Kind == "lock" && ev.Block {
		c.got[ev.Name] = true
	}
}

// finishOrder looks for cycles in the order locks are taken in.
func finishOrder(p *Program, r *Result) {
	adj := map[string]map[string]string{}
	for f := range r.Facts {
		s := strings.SplitN(f, "|", 4)
		if s[0] != "edge" {
			continue
		}
		if adj[s[1]] == nil {
			adj[s[1]] = map[string]string{}
		}
		if o, ok := adj[s[1]][s[2]]; !ok || s[3] < o {
			adj[s[1]][s[2]] = s[3]
		}
		r.ob("lock order edges", s[1]+" -> "+s[2])
	}
	var nodes []string
	for n := range adj {
		nodes = append(nodes, n)
	}
	sort.Strings(nodes)
	reach := func(from, to string) []string {
		prev := map[string]string{from: from}
		q := []string{from}
		for len(q) > 0 {
			n := q[0]
			q = q[1:]
			var ks []string
			for k := range adj[n] {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				if _, ok := prev[k]; ok {
					continue
				}
				prev[k] = n
				if k == to {
					var path []string
					for k != from {
						path = append([]string{prev[k] + " -> " + k + " at " + adj[prev[k]][k]}, path...)
						k = prev[k]
					}
					return path
				}
				q = append(q, k)
			}
		}
		return nil
	}
	done := map[string]bool{}
	for _, a := range nodes {
		for b := range adj[a] {
			if a == b {
				continue
			}
			if path := reach(b, a); path != nil {
				k := []string{a, b}
				sort.Strings(k)
				if done[strings.Join(k, "|")] {
					continue
				}
				done[strings.Join(k, "|")] = true
				r.report("lock-order", k[0]+","+k[1], adj[a][b], "locks are taken in a cycle: %s -> %s at %s; %s", a, b, adj[a][b], strings.Join(path, "; "))
			}
		}
	}
}

// ---- C08: callbacks without locks ----

type freeCallbacks struct {
	base
	roles *Roles
}

func (m *freeCallbacks) Event(x *Exec, st *State, ev *Event) {
	switch ev.Kind {
	case "callback":
		m.ob("callback calls", x, ev.Pos, ev.Name)
		if x.p.isCloseFn(x.root) {
			m.fact("hook|%s", ev.Name)
			if !x.connClosed(st) {
				m.fact("early|%s", ev.Name)
			}
		}
		for _, h := range st.held {
			if h.Mode == 'C' && x.connClosed(st) {
				continue // nobody waits for it any more
			}
			x.report(st, "callback-under-lock", h.Name+">"+ev.Name, ev.Fn, ev.Pos, "the callback %s is called while %s is held", ev.Name, h.Name)
		}
	case "Close":
		m.ob("closings", x, ev.Pos, ev.Fn.Name())
		for _, h := range st.held {
			if h.Mode == 'C' {
				m.fact("under|%s|%s|%s", h.Name, x.pos(ev.Pos), ev.Fn)
				continue
			}
			x.report(st, "callback-under-lock", h.Name+">close", ev.Fn, ev.Pos, "a connection is closed, which calls the hooks of the program, while %s is held", h.Name)
		}
	}
}

// finishHooks: channel locks held by the one who closes are harmless if the
// hooks run after the closed signal, which ends the wait for them.
func finishHooks(p *Program, r *Result) {
	early := ""
	for f := range r.Facts {
		if h, ok := strings.CutPrefix(f, "early|"); ok {
			early = h
		}
	}
	for f := range r.Facts {
		s := strings.Split(f, "|")
		if s[0] == "hook" {
			r.ob("hooks of closing", s[1])
		}
		if s[0] == "under" && early != "" {
			r.report("callback-under-lock", s[1]+">"+early, s[3], "%s: a connection is closed while %s is held, and the hook %s runs before the connection counts as closed", s[2], s[1], early)
		}
	}
}

func init() {
	register(&Prop{ID: "C06",
		Rule:   "Typestate of every lock on every path of every entry point: no lock is held at a return (the right to send only after a successful NextWriter and until Close), none is released that is not held.",
		Limits: "two goroutines sharing one writer handle.",
		Want:   lockWant,
		New:    func(p *Program) Monitor { return &giveBack{newBase(true), p.roles()} },
		Finish: func(p *Program, r *Result) {
			if p.roles().Msg == "" {
				r.report("vacuous", "roles", "NextWriter", "no lock is held when NextWriter succeeds")
			}
		},
		Min: map[string]int{"acquisitions": 8, "exits": 40},
	})
	register(&Prop{ID: "C07",
		Rule:   "Lock sets on every path of every entry point: no lock, once guard or channel lock is waited for while the same operation holds it; the order in which they nest has no cycle; no mutex is held across network I/O, channel waits or waits for goroutines.",
		Limits: "waits that are bounded by a timer are treated like unbounded ones; application code that holds its own locks.",
		Want:   lockWant,
		New: func(p *Program) Monitor {
			return &deadlock{base: newBase(true), roles: p.roles(), sum: closeSummary(p)}
		},
		Finish: finishOrder,
		Min:    map[string]int{"acquisitions": 8, "closings": 10, "waits": 10},
	})
	register(&Prop{ID: "C08",
		Rule:   "Lock sets at every call of a function value supplied by the program: nothing is held there.",
		Limits: "callbacks that block by themselves.",
		Want:   lockWant,
		New:    func(p *Program) Monitor { return &freeCallbacks{newBase(true), p.roles()} },
		Finish: finishHooks,
		Min:    map[string]int{"callback calls": 12, "closings": 10, "hooks of closing": 2},
	})
}
