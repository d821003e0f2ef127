package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C25: shutdown ----

// shut follows Shutdown of a manager, and the goroutines it starts.
type shut struct {
	base
	reg  *member
	main bool
}

func (m *shut) Init(x *Exec, st *State) {
	x.keepApart()
	x.joinV = true
	x.maxSplit = 12
	fn := x.root
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	r := recvOf(fn)
	m.reg.rooms = r == "RoomManager" || r == "Room"
	m.main = x.root.Name() == "Shutdown"
}

// taken: the next connection, key or room of a source is at hand.
func (m *shut) taken(x *Exec, st *State, fn *ssa.Function, pos token.Pos) {
	if st.f["pend"] == 1 {
		x.report(st, "skipped", "", fn, pos, "a tracked connection can be passed over")
	}
	st.set("pend", 1)
}

func (m *shut) isElem(st *State, v *V) bool {
	if v == nil || st.f["pend"] == 0 {
		return false
	}
	v = unwrap(v)
	for _, k := range []string{"k", "v", "rc"} {
		if e := st.v[k]; e != nil && e.Kind != KNil && (v == e || of(v, e)) {
			return true
		}
	}
	if a := st.v["arr"]; a != nil {
		if e, ok := symElem[v]; ok && e.A[0] == a && e.A[1] == st.v["i"] {
			return true
		}
		if e, ok := symField[v]; ok {
			return m.isElem(st, e.A[0])
		}
	}
	return false
}

// settle: whether the collected connections are all dealt with.
func (m *shut) settle(st *State) {
	if a := st.v["arr"]; a != nil && st.v["i"] != nil && st.f["pend"] == 0 {
		if n := vLen(st, a); st.le(n, vAdd(st.v["i"], kInt(1))) || st.v["i1"] != nil && st.le(n, st.v["i1"]) {
			st.set("arrdone", 1)
		}
	}
	if rc := st.v["rc"]; rc != nil && (rc.Kind == KNil || rc.Typ != nil && isPtr(rc.Typ)) && st.f["pend"] == 1 {
		if t, ok := st.eval(vEq(rc, vNil)); ok && t {
			st.set("pend", 0)
			st.set("gone", 1)
		}
	}
	if ml := st.v["ml"]; ml != nil {
		if t, ok := st.eval(vEq(ml, kInt(0))); ok && t && st.f["room"] == 1 {
			st.set("room", 2)
		}
	}
}

func (m *shut) Event(x *Exec, st *State, ev *Event) {
	m.settle(st)
	defer m.settle(st)
	fn := x.caller(ev.Fn)
	switch ev.Kind {
	case "chanop", "Close", "wait":
		if ev.Kind == "chanop" && !m.main {
			break
		}
		if st.lockedStruct("WR", "Manager", "RoomManager", "Room") {
			x.report(st, "held", ev.Kind, fn, ev.Pos, "the lock of a registry is held while connections are closed: a connection that closes needs it")
		}
	}
	if m.main {
		m.mainEvent(x, st, ev, fn)
	} else {
		m.workEvent(x, st, ev, fn)
	}
}

func (m *shut) mainEvent(x *Exec, st *State, ev *Event, fn *ssa.Function) {
	source := func(v *V) byte {
		if v == st.v["clone"] && v != nil {
			return byte(st.f["clone"])
		}
		return m.reg.mapOf(v)
	}
	phase := st.f["waited"]
	switch ev.Kind {
	case "mapclone":
		if c := source(ev.Args[0]); c != 0 {
			st.v["clone"] = ev.Args[1]
			st.set("clone", int(c))
		}
	case "maprange", "rangenext", "rangeend":
		c := source(ev.Args[0])
		if a := st.v["arr"]; a != nil && ev.Args[0] == a {
			// a map the tracked connections were put into
			switch {
			case ev.Kind == "rangenext":
				m.taken(x, st, fn, ev.Pos)
				st.v["k"], st.v["v"] = ev.Args[1], ev.Args[2]
				delete(st.v, "rc")
				st.set("arrdone", 0)
			case ev.Kind == "rangeend" && st.f["pend"] == 0:
				st.set("arrdone", 1)
			}
			return
		}
		switch {
		case c == 'r' && phase == 1:
			switch ev.Kind {
			case "rangenext":
				if st.f["emp"] == 1 {
					x.report(st, "not-emptied", "", fn, ev.Pos, "a room can keep members")
				}
				st.set("emp", 1)
				st.v["room"] = ev.Args[2]
			case "rangeend":
				if st.f["emp"] == 0 {
					st.set("empdone", 1)
				}
			}
		case c == 'r':
			switch ev.Kind {
			case "rangenext":
				if st.f["room"] == 3 {
					x.report(st, "dropped", "room", fn, ev.Pos, "the members of a room can be dropped after they were collected")
				}
				if st.f["room"] == 1 {
					x.report(st, "skipped", "room", fn, ev.Pos, "the members of a room can be passed over")
				}
				st.set("room", 1)
				st.v["room"] = ev.Args[2]
				delete(st.v, "ml")
				delete(st.v, "in")
				st.set("acc", 0)
			case "rangeend":
				if st.f["room"] == 3 {
					x.report(st, "dropped", "room", fn, ev.Pos, "the members of a room can be dropped after they were collected")
				}
				if st.f["room"] != 1 {
					st.set("src", 1)
				}
			}
		case c == 'c' && (phase == 0):
			if m.reg.rooms && !of(ev.Args[0], st.v["room"]) {
				return
			}
			switch ev.Kind {
			case "rangenext":
				m.ob("connections tracked", x, ev.Pos, recvOf(x.root))
				m.taken(x, st, fn, ev.Pos)
				st.v["k"], st.v["v"] = ev.Args[1], ev.Args[2]
				delete(st.v, "rc")
			case "rangeend":
				if st.f["pend"] == 1 {
					m.taken(x, st, fn, ev.Pos)
					st.set("pend", 0)
				}
				if m.reg.rooms {
					st.set("room", 2)
					if st.f["acc"] == 1 {
						st.set("room", 3) // collected, not yet kept
					}
				} else {
					st.set("src", 1)
				}
			}
		}
	case "maplen":
		if of(ev.Args[0], st.v["room"]) {
			st.v["ml"] = ev.Args[1]
		}
	case "mapget":
		if st.f["pend"] == 1 && ev.Args[1] == st.v["k"] {
			st.v["rc"] = ev.Args[2]
		}
	case "appended":
		r, dst, src := ev.Args[0], ev.Args[1], ev.Args[2]
		ok := st.v["arr"] == nil || dst == st.v["arr"]
		if m.reg.rooms && src == st.v["in"] && st.v["in"] != nil && st.f["room"] == 3 {
			m.keep(x, st, r, ok, fn, ev.Pos)
			st.set("room", 2)
			delete(st.v, "in")
			return
		}
		if a := st.v["arr"]; a != nil && dst == a && st.f["src"] == 0 {
			st.v["arr"] = r
		}
		hit := false
		for _, p := range parts(src) {
			hit = hit || m.isElem(st, p)
			if p.Kind == KSlice {
				for k, w := range st.heap {
					if k.Kind == KElem && k.A[0] == p.A[0] && m.isElem(st, w) {
						hit = true
					}
				}
			}
		}
		walkV(src, func(y *V) { hit = hit || m.isElem(st, y) })
		if hit {
			st.set("pend", 0)
			if m.reg.rooms && st.f["room"] == 1 {
				st.set("acc", 1)
				st.v["in"] = r
			} else {
				m.keep(x, st, r, ok, fn, ev.Pos)
			}
		}
	case "mapset":
		if mp := ev.Args[0]; isNewObj(mp) && (m.isElem(st, ev.Args[1]) || m.isElem(st, ev.Args[2])) && m.reg.mapOf(mp) == 0 {
			ok := st.v["arr"] == nil || st.v["arr"] == mp
			st.set("pend", 0)
			m.keep(x, st, mp, ok, fn, ev.Pos)
			delete(st.v, "i")
			delete(st.v, "i1")
		}
	case "index":
		if a := st.v["arr"]; a != nil && ev.Args[0] == a && st.f["src"] == 1 {
			m.taken(x, st, fn, ev.Pos)
			st.v["i"], st.v["i1"] = ev.Args[1], vAdd(ev.Args[1], kInt(1))
			st.set("arrdone", 0)
		}
	case "send":
		if m.isElem(st, ev.Args[1]) {
			m.ob("connections handed to workers", x, ev.Pos)
			m.fact("sends")
			st.set("pend", 0)
			st.set("sent", 1)
			if st.f["started"] == 0 {
				n := st.heap[expr("chancap", types.Typ[types.Int], ev.Args[0])]
				if a := st.v["arr"]; a == nil || n == nil || !st.le(vLen(st, a), n) {
					x.report(st, "no-workers", "", fn, ev.Pos, "connections are handed over although it can be that no worker takes them")
				}
			}
			if st.f["closed"] == 1 {
				x.report(st, "closed-channel", "", fn, ev.Pos, "a connection is handed over on a channel that is closed")
			}
		}
	case "Close":
		if m.isElem(st, ev.Args[0]) {
			m.ob("connections closed", x, ev.Pos)
			st.set("pend", 0)
		}
	case "wg":
		if strings.HasSuffix(ev.Name, ".Add") {
			st.set("added", 1)
		}
	case "go":
		f := goFn(ev)
		if f == nil {
			return
		}
		if st.f["added"] == 0 {
			x.report(st, "uncounted", "", fn, ev.Pos, "a goroutine is started before it is counted: Shutdown can return before it is done")
		}
		st.set("added", 0)
		st.set("started", 1)
		m.ob("workers started", x, ev.Pos, f.Name())
		m.fact("go|%s|%s", f.String(), x.pos(ev.Pos))
		if i := x.p.closesFree(f); i >= 0 && ev.Args[0].Kind == KClos && i < len(ev.Args[0].A) {
			b := ev.Args[0].A[i]
			if v := st.heap[b]; v != nil {
				b = v
			}
			if m.isElem(st, b) {
				m.ob("connections closed", x, ev.Pos)
				st.set("pend", 0)
			}
		} else if i := x.p.closesParam(f); i >= 0 && i+1 < len(ev.Args) && m.isElem(st, ev.Args[i+1]) {
			m.ob("connections closed", x, ev.Pos)
			st.set("pend", 0)
		}
	case "close":
		if isNewObj(ev.Args[0]) {
			st.set("closed", 1)
		}
	case "wait":
		if st.f["started"] == 1 && st.f["closed"] == 0 && st.f["sent"] == 1 {
			x.report(st, "hang", "", fn, ev.Pos, "the workers are waited for although their channel is not closed: they never end")
		}
		m.complete(x, st, fn, ev.Pos)
		st.set("waited", 1)
		st.set("started", 0)
	case "store":
		s, f := fieldOf(ev.Args[0])
		if isNewObj(rootOf(ev.Args[0])) {
			return
		}
		old := st.heap[ev.Args[0]]
		if s == "RoomManager" && m.reg.mapOf(old) == 'r' {
			st.set("reset", 1)
		}
		if s == "Room" && (m.reg.mapOf(old) == 'c' || old == nil && strings.Contains(f, "onn")) && ev.Args[0].A[0] == st.v["room"] {
			st.set("emp", 0)
		}
	case "mapclear":
		switch m.reg.mapOf(ev.Args[0]) {
		case 'r':
			st.set("reset", 1)
		case 'c':
			if of(ev.Args[0], st.v["room"]) {
				st.set("emp", 0)
			}
		}
	}
}

// keep: the element at hand is put at the end of the collection.
func (m *shut) keep(x *Exec, st *State, r *V, ok bool, fn *ssa.Function, pos token.Pos) {
	if !ok {
		x.report(st, "dropped", "", fn, pos, "connections that were collected can be dropped")
	}
	st.v["arr"], st.v["i"], st.v["i1"] = r, kInt(-1), kInt(0)
	st.set("kept", 1)
}

func (m *shut) complete(x *Exec, st *State, fn *ssa.Function, pos token.Pos) {
	if st.f["waited"] == 1 {
		return
	}
	if st.f["src"] == 0 || st.f["pend"] == 1 || st.f["kept"] == 1 && st.f["arrdone"] == 0 {
		x.report(st, "incomplete", "", fn, pos, "not every tracked connection is closed")
	}
}

func (m *shut) workEvent(x *Exec, st *State, ev *Event, fn *ssa.Function) {
	next := func() {
		if st.f["pend"] == 1 {
			x.report(st, "unclosed", "", fn, ev.Pos, "a connection that was handed to this worker can stay open")
		} else if st.f["rx"] == 1 && st.f["forgot"] == 0 && st.f["gone"] == 0 && !m.reg.rooms {
			x.report(st, "kept", "", fn, ev.Pos, "a connection that was closed can stay registered")
		}
		st.set("forgot", 0)
		st.set("gone", 0)
		st.set("pend", 0)
	}
	switch ev.Kind {
	case "received":
		next()
		if ev.N == 1 {
			st.set("rx", 1)
			st.set("pend", 1)
			st.v["k"] = ev.Args[1]
			delete(st.v, "rc")
		} else {
			st.set("rx", 0)
			st.set("drained", 1)
		}
	case "mapget":
		if st.f["rx"] == 0 || st.v["k"] == nil {
			return
		}
		if m.reg.mapOf(ev.Args[0]) == 'c' {
			if ev.Args[1] == st.v["k"] || of(ev.Args[1], st.v["k"]) {
				st.set("forgot", 1)
			}
		} else if ev.Args[1] == st.v["k"] && st.f["pend"] == 1 {
			st.v["rc"] = ev.Args[2]
		}
	case "Close":
		if m.isElem(st, ev.Args[0]) {
			m.ob("connections closed", x, ev.Pos)
			st.set("pend", 0)
		}
	case "wg":
		if strings.HasSuffix(ev.Name, ".Done") {
			st.set("dn", st.f["dn"]+1)
		}
	}
}

func (m *shut) Return(x *Exec, st *State, ret *V) {
	m.settle(st)
	pos := x.root.Pos()
	if !m.main {
		if st.f["pend"] == 1 || st.f["rx"] == 1 {
			x.report(st, "early", "", x.root, pos, "a worker can end before the channel is drained")
		}
		if st.f["drained"] == 1 {
			m.fact("drains|%s", x.root.String())
		} else {
			m.fact("idle|%s", x.root.String())
		}
		if st.f["dn"] != 1 {
			m.fact("done|%s", x.root.String())
		}
		m.ob("workers ended", x, pos, x.root.Name())
		return
	}
	m.ob("shutdowns", x, pos, x.root.String())
	m.complete(x, st, x.root, pos)
	if st.f["started"] == 1 {
		x.report(st, "no-wait", "", x.root, pos, "%s can return without waiting for the goroutines that close connections", x.root.Name())
	}
	if m.reg.rooms {
		if st.f["reset"] == 0 {
			x.report(st, "rooms-kept", "", x.root, pos, "%s can leave rooms in the manager", x.root.Name())
		}
		if st.f["empdone"] == 0 {
			x.report(st, "not-emptied", "", x.root, pos, "%s can return with a room that still has members", x.root.Name())
		}
	}
}

func finishShut(p *Program, r *Result) {
	drains := ""
	for f := range r.Facts {
		s := strings.Split(f, "|")
		if s[0] != "go" {
			continue
		}
		if r.Facts["done|"+s[1]] {
			r.report("no-done", s[1], s[2], "the goroutine %s can end without saying so, or says so twice", s[1])
		}
		if r.Facts["drains|"+s[1]] && r.Facts["idle|"+s[1]] {
			r.report("no-drain", s[1], s[2], "the worker %s can end without waiting for its channel to be closed", s[1])
		}
		if r.Facts["drains|"+s[1]] {
			drains = s[1]
		}
	}
	if r.Facts["sends"] && drains == "" {
		r.report("no-drain", "", "", "no worker takes the connections that are handed over")
	}
}

// shutGo: the functions started as goroutines on behalf of a Shutdown.
func (p *Program) shutGo(t *ssa.Function) bool {
	var seen = map[*ssa.Function]bool{}
	found := false
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Pkg != nil && !isLibPkg(f.Pkg.Pkg) || p.isCloseFn(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if mc, ok := c.Common().Value.(*ssa.MakeClosure); ok {
					g, _ = mc.Fn.(*ssa.Function)
				}
				if _, ok := in.(*ssa.Go); ok {
					found = found || g == t
					continue
				}
				visit(g)
			}
		}
	}
	for _, n := range []string{"Manager", "RoomManager"} {
		visit(p.method(n, "Shutdown"))
	}
	return found
}

func init() {
	register(&Prop{ID: "C25",
		Rule:   "Every path of Manager.Shutdown and RoomManager.Shutdown: the registry (or a copy of it) is enumerated to its end, and each connection met, directly or through slices that are built from it and enumerated to their end in turn, is closed, handed to a channel, or given to a goroutine that is sure to close it, before the next one; no registry lock is held while that happens; goroutines are counted before they are started; a channel that was used is closed, and the goroutines are waited for after that and before the return; a room manager ends with its rooms replaced and each room emptied. Every path of the goroutines it starts: each connection received is closed before the next is taken, and (for a manager) its registration looked at again under its key; they end only when the channel is closed, having counted down once.",
		Limits: "That closing a connection ends is C11 and that it leaves the registries C10, C23, C24. At least one worker is started because the number of workers is a positive number plus a share of the length; loops are not shown to end in general.",
		Want: func(p *Program, t Target) bool {
			if t.Fn == nil {
				return false
			}
			r := recvOf(t.Fn)
			return t.Fn.Name() == "Shutdown" && (r == "Manager" || r == "RoomManager") || t.Kind == "go" && p.shutGo(t.Fn)
		},
		New:    func(p *Program) Monitor { return &shut{base: newBase(true), reg: &member{hooks: p.hookFields()}} },
		Finish: finishShut,
		Min:    map[string]int{"shutdowns": 2, "connections tracked": 2},
	})
}
