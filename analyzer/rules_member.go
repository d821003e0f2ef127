package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C23 and C24: managers and rooms ----

// member follows one registry: the connections of a manager by their keys, or
// the members of a room.
type member struct {
	base
	rooms bool
	lite  bool // only whether an entry is made
	hooks map[string]bool
}

func (m *member) Init(x *Exec, st *State) {
	x.keepApart()
	x.joinV = true
	x.maxSplit = 12
	m.lite = x.root.Name() == "Connect"
}

// mapOf classifies a map: 'c' the registry of connections, 'r' the rooms of a
// room manager, 'h' the closing hooks of a connection.
func (m *member) mapOf(v *V) byte {
	if v == nil || v.Typ == nil {
		return 0
	}
	t, ok := v.Typ.Underlying().(*types.Map)
	if !ok {
		return 0
	}
	r := fieldRefOf(v)
	switch {
	case m.hooks[r]:
		return 'h'
	case strings.HasPrefix(r, "Manager.") && embedsConn(t.Elem()):
		if !m.rooms {
			return 'c'
		}
	case strings.HasPrefix(r, "Room.") && isPtr(t.Key()) && libStruct(deref(t.Key())) == "Conn":
		if m.rooms {
			return 'c'
		}
	case strings.HasPrefix(r, "RoomManager.") && isPtr(t.Elem()) && libStruct(deref(t.Elem())) == "Room":
		if m.rooms {
			return 'r'
		}
	}
	if r == "" && isNewObj(v) {
		if _, ok := t.Elem().Underlying().(*types.Signature); ok {
			return 'h'
		}
		// the members of a room that was just made
		if m.rooms && isPtr(t.Key()) && libStruct(deref(t.Key())) == "Conn" && isBoolT(t.Elem()) {
			return 'c'
		}
	}
	return 0
}

func embedsConn(t types.Type) bool {
	if !isPtr(t) {
		return false
	}
	s := structUnder(deref(t))
	if s == nil {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() && isPtr(s.Field(i).Type()) && libStruct(deref(s.Field(i).Type())) == "Conn" {
			return true
		}
	}
	return false
}

// of: v is what, or was loaded from a field of what.
func of(v, what *V) bool {
	if v == nil || what == nil {
		return false
	}
	if v = unwrap(v); v == what {
		return true
	}
	a, ok := symField[v]
	return ok && a.A[0] == what
}

// heldOwner: the lock of a struct of one of these types is held.
func (st *State) lockedStruct(mode string, names ...string) bool {
	for _, h := range st.held {
		if h.Obj == nil || h.Obj.Kind != KFld || !strings.Contains(mode, string(h.Mode)) {
			continue
		}
		s, _ := fieldOf(h.Obj)
		for _, n := range names {
			if s == n {
				return true
			}
		}
	}
	return false
}

func (m *member) regLocked(st *State) bool {
	if m.rooms {
		return st.lockedStruct("W", "Room")
	}
	return st.lockedStruct("W", "Manager")
}

func (m *member) forget(st *State) {
	if n := st.f["mem"]; n != 0 {
		st.set("lm", n)
	}
	delete(st.v, "gk")
	delete(st.v, "gv")
	delete(st.v, "gh")
	delete(st.v, "ident")
	st.set("mem", 0)
	st.set("norep", 0)
}

func hookName(n string) string {
	if i := strings.IndexByte(n, '.'); i >= 0 {
		n = n[i+1:]
	}
	return n
}

func (m *member) in() string {
	if m.rooms {
		return "OnJoin"
	}
	return "OnRegister"
}

func (m *member) out() string {
	if m.rooms {
		return "OnLeave"
	}
	return "OnUnregister"
}

// settle records what is known by now of the entries that were looked at.
func (m *member) settle(st *State) {
	known := func(k string) int {
		v := st.v[k]
		if v == nil {
			return 0
		}
		if t, ok := v.isBool(); ok {
			return map[bool]int{true: 1, false: 2}[t]
		}
		if t, ok := st.eval(v); ok && v.Typ != nil && isBoolT(v.Typ) {
			return map[bool]int{true: 1, false: 2}[t]
		}
		if v.Typ != nil && isBoolT(v.Typ) {
			return 0
		}
		if v.Kind == KNil {
			return 2
		}
		if t, ok := st.eval(vEq(v, vNil)); ok {
			return map[bool]int{true: 2, false: 1}[t]
		}
		return 0
	}
	if m.rooms {
		for _, k := range []string{"gv", "gh"} {
			if n := known(k); n != 0 && st.f["mem"] == 0 {
				st.set("mem", n)
			}
		}
		for _, k := range []string{"rv", "rh"} {
			if n := known(k); n != 0 && st.f["room"] == 0 {
				st.set("room", n)
			}
		}
		return
	}
	if st.f["rep"] == 1 && (known("rep") == 2 || known("reph") == 2) {
		st.set("rep", 0)
	}
	if known("gv") == 2 || known("gh") == 2 {
		st.set("norep", 1)
		st.set("lm", 2)
	}
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (m *member) learn(x *Exec, st *State, c *V, t bool) {
	gv := st.v["gv"]
	if c.Kind != KExpr || c.Name != "==" {
		return
	}
	a, b := c.A[0], c.A[1]
	for i := 0; i < 2; i++ {
		if rep, ins := st.v["rep"], st.v["ins"]; rep != nil && of(a, rep) && of(b, ins) {
			st.set("same", map[bool]int{true: 1, false: 2}[t])
		}
		if gv != nil && a == gv && !t && b.Kind != KNil {
			st.set("lm", 2)
		}
		if gv != nil && a == gv && t && b.Kind != KNil && a.Kind != KNil {
			st.v["ident"] = b
		}
		if rv := st.v["rv"]; rv != nil && a == rv && t && b.Kind != KNil && a.Kind != KNil {
			st.v["rident"] = b
		}
		a, b = b, a
	}
}

func (m *member) Event(x *Exec, st *State, ev *Event) {
	fn := x.caller(ev.Fn)
	if m.lite {
		switch {
		case ev.Kind == "mapset" && m.mapOf(ev.Args[0]) == 'c':
			st.set("ins", 1)
		case ev.Kind == "mapget" && m.mapOf(ev.Args[0]) == 'c' && m.rooms:
			st.v["gv"] = ev.Args[2]
			st.v["gh"] = st.heap[expr("has", types.Typ[types.Bool], ev.Args[0], ev.Args[1])]
			st.set("mem", 0)
		}
		m.settle(st)
		return
	}
	defer m.settle(st)
	m.settle(st)
	if v, isNil, ok := nilTest(ev); ok && isNil {
		if r := fieldRefOf(v); r != "" {
			st.set("nil:"+hookName(r), 1)
		}
	}
	switch ev.Kind {
	case "assume":
		c, t := ev.Args[0], ev.N == 1
		for c.Kind == KExpr && c.Name == "!" {
			c, t = c.A[0], !t
		}
		m.learn(x, st, c, t)
	case "unlock":
		if !m.regLocked2(st, ev) {
			m.forget(st)
		}
		if strings.HasPrefix(ev.Name, "Conn.") {
			st.set("polled", 0)
		}
		if strings.HasPrefix(ev.Name, "RoomManager.") {
			delete(st.v, "rident")
			st.set("room", 0)
		}
	case "mapget":
		mp, k, v := ev.Args[0], ev.Args[1], ev.Args[2]
		switch m.mapOf(mp) {
		case 'c':
			m.forget(st)
			if x.root.Name() == "Move" {
				m.moved(x, st, mp, k)
			}
			st.v["gk"], st.v["gv"] = k, v
			st.v["gh"] = st.heap[expr("has", types.Typ[types.Bool], mp, k)]
			st.v["lastk"], st.v["lastv"] = k, v
			st.set("tried", 1)
			if st.f["gone"] == 1 {
				st.set("again", 1)
			}
		case 'r':
			st.v["rk"], st.v["rv"] = k, v
			st.v["rh"] = st.heap[expr("has", types.Typ[types.Bool], mp, k)]
			st.set("room", 0)
			delete(st.v, "rident")
		}
	case "mapset":
		switch m.mapOf(ev.Args[0]) {
		case 'c':
			m.insert(x, st, ev, fn)
		case 'r':
			m.ob("rooms made", x, ev.Pos)
			st.v["newroom"] = ev.Args[2]
			if st.v["rk"] != ev.Args[1] || st.f["room"] != 2 || !st.lockedStruct("W", "RoomManager") {
				x.report(st, "room-replaced", "", fn, ev.Pos, "a room can be put in the place of one that has the same key")
			}
		case 'h':
			m.hook(x, st, ev, fn)
		}
	case "mapdelete":
		switch m.mapOf(ev.Args[0]) {
		case 'c':
			m.remove(x, st, ev, fn)
		case 'r':
			m.ob("rooms removed", x, ev.Pos)
			if st.v["rk"] != ev.Args[1] || st.v["rident"] == nil {
				x.report(st, "other-room", "", fn, ev.Pos, "a room is removed from its manager without a look whether the key still belongs to it")
			}
		case 'h':
			if len(st.v) > 0 && st.f["closing"] == 0 && !m.regLocked(st) && m.rooms {
				x.report(st, "unhooked", "race", fn, ev.Pos, "the closing hook of a member is taken away outside the section in which it leaves the room: it can be that of a later join")
			}
		}
	case "mapclear":
		if m.mapOf(ev.Args[0]) == 'c' {
			x.report(st, "wholesale", "clear", fn, ev.Pos, "all entries are dropped at once")
		}
	case "store":
		if s, f := fieldOf(ev.Args[0]); !isNewObj(rootOf(ev.Args[0])) && (s == "Room" || s == "Manager") {
			if old := st.heap[ev.Args[0]]; m.mapOf(old) == 'c' {
				m.ob("removals of all", x, ev.Pos)
				if !m.rooms {
					x.report(st, "wholesale", "swap", fn, ev.Pos, "all entries of %s.%s are dropped at once", s, f)
				}
				st.set("swap", 1)
				st.v["swap"] = old
				st.set("emptied", 0)
			}
		}
	case "maprange":
		if ev.Args[0] == st.v["swap"] {
			st.set("rok", 1)
			st.set("pend", 0)
		}
	case "rangenext", "rangeend":
		if ev.Args[0] != st.v["swap"] || st.v["swap"] == nil {
			return
		}
		if st.f["pend"] == 1 {
			st.set("rok", 0)
		}
		if ev.Kind == "rangenext" {
			st.set("pend", 1)
			st.v["leaver"] = ev.Args[1]
		} else {
			st.set("pend", 0)
			if st.f["rok"] == 1 {
				st.set("emptied", 1)
			}
		}
	case "select":
		for i, c := range ev.Cases {
			if c.Chan == nil || !x.p.SignalChan["Conn."+connFieldOf(c.Chan)] {
				continue
			}
			if ev.N == -1 && st.lockedStruct("W", "Conn") {
				st.set("polled", 1)
			}
			if ev.N == i {
				st.set("gone", 1)
			}
		}
	case "callback":
		m.called(x, st, ev, fn)
	case "Close":
		if rep := st.v["rep"]; rep != nil && of(ev.Args[0], rep) {
			m.repClosed(x, st, ev, fn)
		}
	case "go":
		f, rep := goFn(ev), st.v["rep"]
		if f == nil || rep == nil {
			return
		}
		if x.p.isCloseFn(f) && len(ev.Args) > 1 && of(ev.Args[1], rep) {
			m.repClosed(x, st, ev, fn)
		} else if i := x.p.closesFree(f); i >= 0 && ev.Args[0].Kind == KClos && i < len(ev.Args[0].A) {
			b := ev.Args[0].A[i]
			if v := st.heap[b]; v != nil {
				b = v
			}
			if of(b, rep) {
				m.repClosed(x, st, ev, fn)
			}
		} else if i := x.p.closesParam(f); i >= 0 && i+1 < len(ev.Args) && of(ev.Args[i+1], rep) {
			m.repClosed(x, st, ev, fn)
		}
	}
}

func (m *member) regLocked2(st *State, ev *Event) bool {
	// the lock of the registry stays held
	n := ""
	for _, h := range st.held {
		if h.Name != ev.Name {
			n += h.Name + " "
		}
	}
	if m.rooms {
		return strings.Contains(n, "Room.")
	}
	return strings.Contains(" "+n, " Manager.")
}

// closed: the value a function closes a connection of whenever it runs: its
// first call that is sure to be made.
func (p *Program) closed(f *ssa.Function, depth int) ssa.Value {
	if len(f.Blocks) == 0 {
		return nil
	}
	var end []*ssa.BasicBlock
	for _, b := range f.Blocks {
		if len(b.Succs) == 0 && b != f.Recover {
			end = append(end, b)
		}
	}
	for _, b := range f.Blocks {
		sure := true
		for _, e := range end {
			sure = sure && b.Dominates(e)
		}
		if !sure {
			continue
		}
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			g := c.Common().StaticCallee()
			if g == nil || len(c.Common().Args) == 0 {
				continue
			}
			v := c.Common().Args[0]
			if !p.isCloseFn(g) {
				// a function that is sure to close one of its parameters
				if _, ok := in.(*ssa.Call); !ok || depth > 3 {
					continue
				}
				i := p.paramOf(g, p.closed(g, depth+1))
				if i < 0 || i >= len(c.Common().Args) {
					continue
				}
				v = c.Common().Args[i]
			}
			for {
				switch u := v.(type) {
				case *ssa.UnOp:
					v = u.X
					continue
				case *ssa.FieldAddr:
					v = u.X
					continue
				}
				return v
			}
		}
	}
	return nil
}

func (p *Program) closesFree(f *ssa.Function) int {
	v := p.closed(f, 0)
	for i, w := range f.FreeVars {
		if v == ssa.Value(w) {
			return i
		}
	}
	return -1
}

func (p *Program) closesParam(f *ssa.Function) int {
	return p.paramOf(f, p.closed(f, 0))
}

func (p *Program) paramOf(f *ssa.Function, v ssa.Value) int {
	for i, w := range f.Params {
		if v == ssa.Value(w) {
			return i
		}
	}
	return -1
}

func connFieldOf(ch *V) string {
	if a, ok := symField[ch]; ok {
		return connField(a)
	}
	return ""
}

func (m *member) repClosed(x *Exec, st *State, ev *Event, fn *ssa.Function) {
	m.ob("replaced connections closed", x, ev.Pos)
	st.set("repclosed", 1)
	if st.f["same"] != 2 {
		x.report(st, "closes-new", "", fn, ev.Pos, "the connection that is closed because it was replaced can be the new one")
	}
}

func (m *member) insert(x *Exec, st *State, ev *Event, fn *ssa.Function) {
	k, v := ev.Args[1], ev.Args[2]
	m.ob("insertions", x, ev.Pos)
	if m.rooms {
		if st.v["gk"] != k || st.f["mem"] != 2 || !m.regLocked(st) {
			x.report(st, "join-twice", "", fn, ev.Pos, "a connection is added without it being settled, in the same section, that it is no member yet")
		}
		st.v["ins"] = k
	} else {
		if st.v["gk"] != k || !m.regLocked(st) {
			x.report(st, "blind", "", fn, ev.Pos, "an entry is made without a look, in the same section, at the one it replaces")
		} else if st.f["norep"] == 0 {
			st.set("rep", 1)
			st.v["rep"], st.v["reph"] = st.v["gv"], st.v["gh"]
		}
		st.v["ins"], st.v["insk"] = v, k
	}
	st.set("ins", 1)
	if st.f["hooked"] == 1 && st.f["hooksec"] == 1 {
		return
	}
	st.set("hooked", 0)
}

// moved notes which room a move deals with.
func (m *member) moved(x *Exec, st *State, mp, k *V) {
	ps := x.root.Params
	if len(ps) < 2 || k != x.paramValue(newState(), "arg:"+ps[1].Name(), ps[1].Type()) {
		return
	}
	if of(mp, x.paramValue(newState(), "arg:"+ps[0].Name(), ps[0].Type())) && st.f["left"] == 0 {
		st.set("left", 1)
	} else if rv := st.v["rv"]; rv != nil && of(mp, rv) {
		st.set("entered", 1)
	}
}

func (m *member) hook(x *Exec, st *State, ev *Event, fn *ssa.Function) {
	k, v := ev.Args[1], ev.Args[2]
	if v.Kind == KClos {
		m.ob("closing hooks", x, ev.Pos, v.Fn.Name())
		m.fact("hook|%s|%s", v.Fn.String(), x.pos(ev.Pos))
	}
	if !st.lockedStruct("W", "Conn") || st.f["polled"] == 0 {
		x.report(st, "hook-late", "", fn, ev.Pos, "a closing hook is set without it being settled, in the same section of the connection's lock, that the connection is still open: it may never be called")
	}
	st.set("hooked", 1)
	st.set("hooksec", 0)
	if m.regLocked(st) {
		st.set("hooksec", 1)
	}
	owner, key := false, m.rooms
	walkV(k, func(y *V) {
		n := ptrStruct(y)
		owner = owner || n == "Manager" && !m.rooms || n == "Room" && m.rooms
		key = key || y == st.v["gk"] || y == st.v["insk"]
	})
	if !owner || !key {
		x.report(st, "hook-shared", "", fn, ev.Pos, "the closing hook is kept under %s, which other registrations of the same connection share", k)
	}
}

func (m *member) remove(x *Exec, st *State, ev *Event, fn *ssa.Function) {
	k := ev.Args[1]
	m.ob("removals", x, ev.Pos)
	if m.rooms {
		if st.v["gk"] != k || st.f["mem"] != 1 || !m.regLocked(st) {
			x.report(st, "leave-unknown", "", fn, ev.Pos, "a connection is removed without it being settled, in the same section, that it is a member")
		}
		st.v["del"] = k
	} else {
		if st.v["gk"] != k || st.v["ident"] == nil || !m.regLocked(st) {
			x.report(st, "wrong-removal", "", fn, ev.Pos, "an entry is removed without it being settled, in the same section, that it is the one of the connection concerned: it can be its replacement")
		}
		st.v["del"] = st.v["ident"]
	}
	if st.f["del"] == 1 && !m.none(st, m.out()) {
		x.report(st, "hook-missing", m.out(), fn, ev.Pos, "%s is not called for a removal", m.out())
	}
	st.set("del", 1)
	st.set("rmv", 1)
}

func (m *member) called(x *Exec, st *State, ev *Event, fn *ssa.Function) {
	n := hookName(ev.Name)
	if m.rooms && !strings.HasPrefix(ev.Name, "Room") || !m.rooms && !strings.HasPrefix(ev.Name, "Manager") {
		return
	}
	about := func(v *V) bool {
		if v == nil {
			return false
		}
		for _, a := range ev.Args[1:] {
			if unwrap(a) == unwrap(v) {
				return true
			}
		}
		return false
	}
	switch {
	case strings.HasSuffix(n, m.in()):
		m.ob("hooks", x, ev.Pos, n)
		if st.f["ins"] == 0 || st.f["told"] == 1 || !about(st.v["ins"]) {
			x.report(st, "hook-wrong", n, fn, ev.Pos, "%s is called although no entry was made for this connection, or twice", n)
		}
		st.set("told", 1)
	case strings.HasSuffix(n, m.out()):
		m.ob("hooks", x, ev.Pos, n)
		switch {
		case st.f["pend"] == 1 && about(st.v["leaver"]):
			st.set("pend", 0)
		case st.f["del"] == 1 && about(st.v["del"]):
			st.set("del", 0)
		case st.f["rep"] == 1 && about(st.v["rep"]):
			st.set("rep", 2)
			if st.f["same"] != 2 && st.f["repclosed"] == 0 {
				st.set("early", 1)
			}
		default:
			x.report(st, "hook-wrong", n, fn, ev.Pos, "%s is called although this connection was not removed, or twice", n)
		}
	}
}

// none: the hook is known not to be set.
func (m *member) none(st *State, h string) bool {
	return st.f["nil:"+h] == 1 || m.rooms && st.f["nil:Default"+h] == 1
}

func (m *member) Return(x *Exec, st *State, ret *V) {
	pos, name := x.root.Pos(), x.root.Name()
	if m.lite {
		m.settle(st)
		if e := lastErr(x, ret); e != nil && errClass(st, e) == 'n' {
			m.ob("connects", x, pos, name)
			if st.f["ins"] == 0 && st.f["mem"] != 1 {
				x.report(st, "not-entered", "", x.root, pos, "%s can succeed without an entry having been made for the connection", name)
			}
		}
		return
	}
	none := func(h string) bool { return m.none(st, h) }
	if st.f["ins"] == 1 {
		m.ob("registrations", x, pos, name)
		if st.f["hooked"] == 0 && st.f["gone"] == 0 {
			x.report(st, "unhooked", name, x.root, pos, "%s can leave an entry that the closing of the connection does not remove", name)
		}
		if st.f["hooked"] == 0 && st.f["gone"] == 1 && st.f["again"] == 0 {
			x.report(st, "stale", name, x.root, pos, "%s can leave an entry of a connection it found closed", name)
		}
		if st.f["told"] == 0 && !none(m.in()) {
			x.report(st, "hook-missing", m.in(), x.root, pos, "%s can make an entry without calling %s", name, m.in())
		}
	}
	if st.f["rep"] > 0 && st.f["same"] != 1 {
		if st.f["repclosed"] == 0 {
			x.report(st, "replaced-open", "", x.root, pos, "%s can replace a connection without closing it", name)
		}
		if st.f["rep"] == 1 && !none(m.out()) {
			x.report(st, "hook-missing", m.out(), x.root, pos, "%s can replace a connection without calling %s", name, m.out())
		}
	}
	if st.f["del"] == 1 && !none(m.out()) {
		x.report(st, "hook-missing", m.out(), x.root, pos, "%s can remove a connection without calling %s", name, m.out())
	}
	if st.f["swap"] == 1 && st.f["emptied"] == 0 && !none(m.out()) {
		x.report(st, "hook-missing", m.out()+" all", x.root, pos, "%s can remove all members without calling %s for each", name, m.out())
	}
	if n := st.f["mem"]; n != 0 {
		st.set("lm", n)
	}
	done := st.f["tried"] == 1 && (st.f["rmv"] == 1 || st.f["lm"] == 2)
	switch {
	case m.rooms && recvOf(x.root) == "Room" && name == "Remove" && !done:
		x.report(st, "not-left", "", x.root, pos, "%s can return with the connection still being a member", name)
	case m.rooms && recvOf(x.root) == "Room" && name == "Add" && st.f["ins"] == 0 && st.f["lm"] != 1,
		!m.rooms && name == "Register" && st.f["ins"] == 0:
		x.report(st, "not-entered", "", x.root, pos, "%s can return without the connection having been entered", name)
	case m.rooms && recvOf(x.root) == "Room" && (name == "RemoveAll" || name == "Close") && st.f["swap"] == 0:
		x.report(st, "not-emptied", "", x.root, pos, "%s can return with connections still being members", name)
	}
	if x.root.Parent() != nil && !done {
		m.fact("idle|%s", x.root.String())
	} else if x.root.Parent() != nil {
		m.fact("tries|%s", x.root.String())
	}
	m.results(x, st, ret)
}

// results: what the lookups and the calls that add or move give.
func (m *member) results(x *Exec, st *State, ret *V) {
	if ret == nil && x.root.Name() != "Move" {
		return
	}
	pos, name, recv := x.root.Pos(), x.root.Name(), recvOf(x.root)
	var rs []*V
	if ret != nil {
		rs = results(ret)
	}
	arg := func(i int) *V {
		p := x.root.Params[i]
		return x.paramValue(newState(), "arg:"+p.Name(), p.Type())
	}
	switch {
	case !m.rooms && recv == "Manager" && name == "Get":
		m.ob("lookups", x, pos, name)
		if rs[0] != st.v["lastv"] || st.v["lastk"] != arg(1) {
			x.report(st, "lookup", name, x.root, pos, "%s can return something else than the connection of the key", name)
		}
	case m.rooms && recv == "Room" && name == "Move":
		m.ob("moves", x, pos, name)
		if st.f["left"] == 0 {
			x.report(st, "not-left", "", x.root, pos, "%s can return without the connection having left the room", name)
		}
		rv := st.v["rv"]
		isNil := false
		if rv != nil {
			t, ok := st.eval(vEq(rv, vNil))
			isNil = ok && t || rv.Kind == KNil || st.f["room"] == 2
		}
		if st.v["rk"] != arg(2) || !isNil && st.f["entered"] == 0 {
			x.report(st, "not-moved", "", x.root, pos, "%s can return without the connection having joined the other room", name)
		}
	case m.rooms && recv == "RoomManager" && (name == "Get" || name == "Add"):
		m.ob("lookups", x, pos, name)
		if st.v["rk"] != arg(1) || rs[0] != st.v["rv"] && rs[0] != st.v["newroom"] {
			x.report(st, "lookup", name, x.root, pos, "%s can return something else than the room of the key", name)
		}
	}
}

func finishMember(p *Program, r *Result) {
	for f := range r.Facts {
		s := strings.Split(f, "|")
		if s[0] != "hook" {
			continue
		}
		if !r.Facts["tries|"+s[1]] || r.Facts["idle|"+s[1]] {
			r.report("hook-idle", s[1], s[2], "the closing hook %s does not remove the connection on every path", s[1])
		}
	}
}

func memberWant(rooms bool) func(p *Program, t Target) bool {
	return func(p *Program, t Target) bool {
		if t.Fn == nil {
			return false
		}
		fn := t.Fn
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		r := recvOf(fn)
		if strings.Contains(fn.Name(), "roadcast") {
			return false
		}
		if rooms {
			return r == "Room" || r == "RoomManager"
		}
		return r == "Manager"
	}
}

func init() {
	register(&Prop{ID: "C23",
		Rule:   "Every path of the manager's methods and of their closing hooks and goroutines: an entry is made only in a section (manager lock held for writing) that looked at the entry it replaces; a replaced connection that is known to be another one is closed and OnUnregister called for it, once; the closing hook is set under the connection's own lock after a poll that found the connection open, under an owner that contains manager and key; a path on which the poll found it closed looks at the entry again afterwards; OnRegister is called once, with the new connection, after the entry; an entry is deleted only in a section that compared it with the connection concerned, each deletion is followed by one OnUnregister for that connection; the closing hook ends in a deletion or in the entry being another; entries are never dropped wholesale; Get returns what was looked up under its key; Connect succeeds only with an entry made.",
		Limits: "The hooks kept in the connection are run by its closing (C10). The closing of the replaced connection is started, when it ends is C11.",
		Want:   memberWant(false),
		New:    func(p *Program) Monitor { return &member{base: newBase(true), hooks: p.hookFields()} },
		Finish: finishMember,
		Min:    map[string]int{"insertions": 1, "removals": 1, "closing hooks": 1, "hooks": 2, "registrations": 1, "replaced connections closed": 1},
	})
	register(&Prop{ID: "C24",
		Rule:   "Every path of the methods of rooms and room managers and of their closing hooks and goroutines: a member is added only in a section (room lock held for writing) in which it is settled that it was none, and removed only in one in which it is settled that it was one; the closing hook is set under the connection's lock after a poll that found it open, under an owner that contains the room, and taken away only in the section of the removal; a path on which the poll found the connection closed looks at the membership again afterwards; OnJoin is called once after an addition and OnLeave once after a removal, for that connection, and for each member when all are removed; Add ends with membership, Remove and the closing hook without it, Move with both for the two rooms, Connect with membership; a room is put into its manager only in a section in which it is settled that its key is free, and removed only in one that compared it.",
		Limits: "The hooks kept in the connection are run by its closing (C10).",
		Want:   memberWant(true),
		New:    func(p *Program) Monitor { return &member{base: newBase(true), rooms: true, hooks: p.hookFields()} },
		Finish: finishMember,
		Min:    map[string]int{"insertions": 1, "removals": 1, "closing hooks": 1, "hooks": 2, "registrations": 1, "rooms made": 1, "rooms removed": 1},
	})
}
