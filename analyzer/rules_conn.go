package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C09: fatal errors and closing ----

// errClass classifies an error result: 'n' nil, 'f' fatal, 'o' another error,
// '?' either.
func errClass(st *State, e *V) byte {
	switch e.Kind {
	case KNil:
		return 'n'
	case KIface:
		if libStruct(deref(e.Typ)) == "FatalError" {
			return 'f'
		}
		return 'o'
	}
	if nn, ok := st.nonNil(e); ok && nn && strings.Contains(e.Name, "!") {
		return 'o'
	}
	return '?'
}

// lastErr is the error result of an entry point, if it has one.
func lastErr(x *Exec, ret *V) *V {
	rs := results(ret)
	if len(rs) == 0 || !isErrorType(lastResult(x.root)) {
		return nil
	}
	return rs[len(rs)-1]
}

type fatalIff struct {
	base
}

// netOp: operations whose error tells whether the connection is still open.
func netOp(fn *ssa.Function) bool {
	switch recvOf(fn) {
	case "ConnWriter", "ConnReader":
		return true
	case "Conn":
		n := fn.Name()
		return strings.HasPrefix(n, "Read") || strings.HasPrefix(n, "Next") || strings.HasPrefix(n, "Send") || n == "Ping"
	}
	return false
}

func (m *fatalIff) Event(x *Exec, st *State, ev *Event) {
	hs := handshake(st, ev)
	switch ev.Kind {
	case "apicall":
		st.set("closed", 0)
		st.set("was", 0)
		if x.connClosed(st) {
			st.set("was", 1)
		}
	case "Close":
		m.ob("closings", x, ev.Pos, ev.Fn.Name())
		st.set("closed", 1)
		st.set("broken", 0)
	case "netclose":
		if hs {
			st.set("broken", 0)
		}
	case "netwrite.fail", "setwdl.fail", "setrdl.fail", "setdl.fail":
		st.set("broken", 1)
	case "peek", "discard", "readbyte", "readfull", "bufread":
		if ev.Name == "fail" || ev.Name == "eof" {
			m.ob("transport failures", x, ev.Pos, ev.Kind)
			st.set("broken", 1)
		}
	case "callback":
		// the program may close the connection
	case "select", "chanop", "sleep":
		if st.f["broken"] == 1 && ev.Block && !st.isHeldAny() {
			x.report(st, "failure-ignored", "", ev.Fn, ev.Pos, "the goroutine goes on waiting after the transport failed, without having closed the connection")
		}
	}
}

func (st *State) isHeldAny() bool { return len(st.held) > 0 }

func (m *fatalIff) Return(x *Exec, st *State, ret *V) {
	if x.p.isCloseFn(x.root) {
		return
	}
	closed := x.connClosed(st)
	e := lastErr(x, ret)
	reported := e != nil && e.Kind != KNil && !netOp(x.root) // by an adapter, to its caller
	if st.f["broken"] == 1 && st.f["closed"] == 0 && !closed && !reported {
		x.report(st, "failure-ignored", x.root.Name(), x.root, x.root.Pos(), "%s can return after the transport failed, without having closed the connection", x.root.Name())
	}
	if e == nil || recvOf(x.root) == "" {
		return
	}
	if !netOp(x.root) && !strings.HasPrefix(x.root.Name(), "Batch") {
		return
	}
	m.ob("error results", x, x.root.Pos(), x.root.Name())
	c := errClass(st, e)
	if st.f["closed"] == 1 && c != 'f' {
		x.report(st, "closed-not-fatal", x.root.Name(), x.root, x.root.Pos(), "%s closes the connection because of an error and returns %s, which is not fatal", x.root.Name(), e)
	}
	if c == 'f' && st.f["closed"] == 0 && !closed {
		x.report(st, "fatal-not-closed", x.root.Name(), x.root, x.root.Pos(), "%s returns a fatal error although the connection was neither closed nor found closed", x.root.Name())
	}
	if netOp(x.root) && closed && st.f["was"] == 0 && st.f["closed"] == 0 && c != 'f' && c != 'n' {
		x.report(st, "closed-not-fatal", x.root.Name(), x.root, x.root.Pos(), "%s finds the connection closed and returns %s, which is not fatal", x.root.Name(), e)
	}
	if c == 'f' {
		m.ob("fatal results", x, x.root.Pos(), x.root.Name())
	}
}

// probeFn runs a function of the library on given arguments and returns the
// results it can have.
func (p *Program) probeFn(fn *ssa.Function, args ...*V) []*V {
	x := newExec(p, &ctorChecker{newBase(true)}, newReports())
	x.root = fn
	envStack = nil
	var out []*V
	for _, e := range x.run(fn, args, nil, newState(), fn.Name()) {
		out = append(out, e.ret)
	}
	if x.bail != "" {
		return nil
	}
	return out
}

func (p *Program) pkgFunc(name string) *ssa.Function {
	for _, fn := range p.Funcs {
		if fn.Name() == name && fn.Signature.Recv() == nil && fn.Parent() == nil {
			return fn
		}
	}
	return nil
}

func finishFatal(p *Program, r *Result) {
	fn := p.pkgFunc("IsFatalErr")
	ft := p.structType("FatalError")
	if fn == nil || ft == nil {
		r.report("vacuous", "IsFatalErr", "IsFatalErr", "IsFatalErr or FatalError not found")
		return
	}
	et := fn.Params[0].Type()
	for _, c := range []struct {
		what string
		v    *V
		want bool
	}{
		{"a *FatalError", iface(types.NewPointer(ft), obj("new:fatal", ft)), true},
		{"nil", vNil, false},
		{"another error", sym("global!ErrOther", et), false},
	} {
		got := p.probeFn(fn, c.v)
		ok := len(got) > 0
		for _, g := range got {
			b, known := g.isBool()
			ok = ok && known && b == c.want
		}
		if !ok {
			r.report("is-fatal", c.what, p.fnPos(fn), "IsFatalErr does not decide that %s is %s", c.what, map[bool]string{true: "fatal", false: "not fatal"}[c.want])
		}
		r.ob("error classes", c.what)
	}
}

// ---- C10: closing cleans up ----

// nilTest recognises a branch on whether a loaded pointer, function or map is
// nil, and names the field.
func nilTest(ev *Event) (v *V, isNil, ok bool) {
	if ev.Kind != "assume" {
		return nil, false, false
	}
	c, t := ev.Args[0], ev.N == 1
	if c.Kind == KExpr && c.Name == "!" {
		c, t = c.A[0], !t
	}
	if c.Kind != KExpr || c.Name != "==" {
		return nil, false, false
	}
	if c.A[0].Kind == KNil {
		return c.A[1], t, true
	}
	if c.A[1].Kind == KNil {
		return c.A[0], t, true
	}
	return nil, false, false
}

// fieldRefOf names the field a value was loaded from.
func fieldRefOf(v *V) string {
	if a, ok := symField[v]; ok {
		if s, f := fieldOf(a); s != "" {
			return s + "." + f
		}
	}
	return ""
}

// connEntries: the maps an upgrade puts the new connection into.
func (p *Program) connEntries() map[string]bool {
	c := &entryProbe{base: newBase(true), maps: map[string]bool{}}
	if fn := p.method("Upgrader", "Upgrade"); fn != nil {
		x := newExec(p, c, newReports())
		x.runRoot(fn, newState())
	}
	return c.maps
}

type entryProbe struct {
	base
	maps map[string]bool
}

func (c *entryProbe) Event(x *Exec, st *State, ev *Event) {
	if ev.Kind == "mapset" {
		for _, a := range ev.Args[1:] {
			if isConn(a) {
				if r := fieldRefOf(ev.Args[0]); r != "" {
					c.maps[r] = true
				}
			}
		}
	}
}

// hookFields: the fields of a connection that hold functions to call when it
// closes; true if there can be many.
func (p *Program) hookFields() map[string]bool {
	out := map[string]bool{}
	t := p.structType("Conn")
	if t == nil {
		return out
	}
	su := structUnder(t)
	for i := 0; i < su.NumFields(); i++ {
		ref := "Conn." + su.Field(i).Name()
		switch u := su.Field(i).Type().Underlying().(type) {
		case *types.Signature:
			out[ref] = false
		case *types.Map:
			if _, ok := u.Elem().Underlying().(*types.Signature); ok {
				out[ref] = true
			}
		case *types.Slice:
			if _, ok := u.Elem().Underlying().(*types.Signature); ok {
				out[ref] = true
			}
		}
	}
	return out
}

type cleanup struct {
	base
	entries map[string]bool // registries the connection must be removed from
	hooks   map[string]bool
}

// isConn: v is a pointer to a connection.
func isConn(v *V) bool {
	v = unwrap(v)
	if v.Typ == nil {
		return false
	}
	return isPtr(v.Typ) && libStruct(deref(v.Typ)) == "Conn" || v.Kind == KObj && libStruct(v.Typ) == "Conn"
}

// ptrStruct names the library struct v points to.
func ptrStruct(v *V) string {
	if v.Typ == nil || !isPtr(v.Typ) {
		return ""
	}
	return libStruct(deref(v.Typ))
}

func connField(v *V) string {
	if s, f := fieldOf(v); s == "Conn" {
		return f
	}
	return ""
}

// step: something that only the first close may do.
func (m *cleanup) step(x *Exec, st *State, what string, ev *Event) {
	n := st.f[what]
	st.set(what, min(n+1, 2))
	m.ob("clean-up steps", x, ev.Pos, what)
	if st.f["guard"] == 0 && st.f["steps!"] == 0 {
		x.report(st, "unguarded", what, ev.Fn, ev.Pos, "closing does this (%s) before it is settled that this call is the first to close the connection", what)
	}
}

func (m *cleanup) Event(x *Exec, st *State, ev *Event) {
	switch ev.Kind {
	case "oncerun":
		if r := rootOf(ev.Args[0]); !isNewObj(r) && strings.Contains(ev.Name, "Conn.") {
			st.set("guard", 1)
		}
	case "onceskip":
		st.set("skip", 1)
	case "acas":
		if len(ev.Args) == 4 && connField(ev.Args[0]) != "" && ev.Args[3] == kBool(true) && ev.Args[1] != ev.Args[2] {
			st.set("guard", 1)
		} else if len(ev.Args) == 4 {
			st.set("skip", 1)
		}
	case "aswap":
		if connField(ev.Args[0]) == "" {
			return
		}
		if ev.Args[1] == kBool(false) && ev.Args[2] == kBool(true) {
			st.set("guard", 1)
		} else if ev.Args[1] == kBool(true) && ev.Args[2] == kBool(true) {
			st.set("skip", 1)
		} else {
			st.v["atom"] = vEq(ev.Args[1], kInt(0))
		}
	case "aadd":
		if connField(ev.Args[0]) != "" && ev.Args[1] == kInt(1) {
			st.v["atom"] = vEq(ev.Args[2], kInt(1))
		}
	case "assume":
		if v, isNil, ok := nilTest(ev); ok {
			if r := fieldRefOf(v); r != "" && isNil {
				st.set("nil:"+r, 1)
				if t := ptrStruct(v); t != "" {
					st.set("nilT:"+t, 1)
				}
			}
			if isNil && st.v["pend"] == v {
				st.set("pend", 0)
			}
		}
		c, t := ev.Args[0], ev.N == 1
		if c.Kind == KExpr && c.Name == "!" {
			c, t = c.A[0], !t
		}
		if a := st.v["atom"]; a != nil && a == c {
			if t {
				st.set("guard", 1)
			} else {
				st.set("skip", 1)
			}
		}
		if a, ok := symField[c]; ok && !t && connField(a) != "" && st.writeHeld() {
			st.set("chk:"+connField(a), 1)
		}
	case "store":
		if f := connField(ev.Args[0]); f != "" && st.f["chk:"+f] == 1 {
			if b, ok := ev.Args[1].isBool(); ok && b {
				st.set("guard", 1)
			}
		}
	case "unlock":
		for k := range st.f {
			if strings.HasPrefix(k, "chk:") {
				st.set(k, 0)
			}
		}
	case "select":
		if ev.N < 0 && st.writeHeld() {
			for _, c := range ev.Cases {
				if a, ok := symField[c.Chan]; ok && x.p.SignalChan["Conn."+connField(a)] {
					st.set("chk:"+connField(a), 1)
				}
			}
		}
	case "close":
		if strings.HasPrefix(ev.Name, "Conn.") {
			f := strings.TrimPrefix(ev.Name, "Conn.")
			if st.f["chk:"+f] == 1 {
				st.set("guard", 1)
			}
			m.step(x, st, "signal", ev)
			if st.f["signal"] == 2 {
				x.report(st, "signal-twice", "", ev.Fn, ev.Pos, "the closed signal can be raised twice")
			}
		}
	case "netwrite", "setwdl.fail":
		m.step(x, st, "close frame", ev)
	case "netclose":
		m.step(x, st, "socket", ev)
	case "mapdelete":
		if r := fieldRefOf(ev.Args[0]); m.entries[r] {
			m.step(x, st, "entry:"+r, ev)
		}
	case "load":
		if f := connField(ev.Args[0]); f != "" {
			if _, ok := m.hooks["Conn."+f]; ok && st.f["signal"] == 0 {
				st.set("early:Conn."+f, 1)
			} else if ok {
				st.set("early:Conn."+f, 0)
			}
		}
	case "maprange":
		if r := fieldRefOf(ev.Args[0]); m.hooks[r] {
			m.step(x, st, "hooks:"+r, ev)
			st.set("ranging", 1)
			st.set("pend", 0)
			if st.f["early:"+r] == 1 {
				x.report(st, "hooks-early", r, ev.Fn, ev.Pos, "the functions of %s are collected before the connection is marked closed: one that is registered in between is never called", r)
			}
		}
	case "rangenext", "rangeend":
		r := fieldRefOf(ev.Args[0])
		if !m.hooks[r] {
			return
		}
		if st.f["pend"] == 1 {
			x.report(st, "hook-skipped", r, ev.Fn, ev.Pos, "a function of %s can be passed over", r)
		}
		st.set("pend", 0)
		if ev.Kind == "rangenext" {
			st.set("pend", 1)
			st.v["pend"] = ev.Args[2]
		} else {
			st.set("ranging", 0)
			st.set("all:"+r, 1)
			delete(st.v, "pend")
		}
	case "callback":
		if ev.Name == "Options.OnDisconnect" {
			m.step(x, st, "disconnect hook", ev)
			if st.f["disconnect hook"] == 2 {
				x.report(st, "hook-twice", "", ev.Fn, ev.Pos, "the disconnect hook can run twice")
			}
			return
		}
		if st.f["pend"] == 1 && st.v["pend"] == ev.Args[0] {
			st.set("pend", 0)
			return
		}
		if st.f["ranging"] == 1 && st.f["pend"] == 0 {
			x.report(st, "hook-twice", "onClose", ev.Fn, ev.Pos, "a function registered for the closing can be called twice")
		}
		if r := fieldRefOf(ev.Args[0]); r != "" {
			if _, ok := m.hooks[r]; ok {
				m.step(x, st, "hooks:"+r, ev)
				st.set("all:"+r, 1)
			}
		}
	}
}

// writeHeld: some mutex is held exclusively.
func (st *State) writeHeld() bool {
	for _, h := range st.held {
		if h.Mode == 'W' {
			return true
		}
	}
	return false
}

func (m *cleanup) Return(x *Exec, st *State, ret *V) {
	fn := x.root
	if st.f["signal"] == 0 {
		if st.f["skip"] == 0 && st.f["guard"] == 1 {
			x.report(st, "no-signal", "", fn, fn.Pos(), "the first close can complete without raising the closed signal")
		}
		return
	}
	m.ob("first closes", x, fn.Pos())
	if st.f["guard"] == 0 {
		x.report(st, "unguarded", "all", fn, fn.Pos(), "nothing makes sure that only one call closes the connection")
	}
	miss := func(what, detail string) {
		x.report(st, "step-missing", detail, fn, fn.Pos(), "closing can complete without %s", what)
	}
	if st.f["close frame"] == 0 {
		miss("trying to send a close frame", "close frame")
	}
	if st.f["socket"] == 0 {
		miss("closing the socket", "socket")
	}
	if st.f["disconnect hook"] == 0 && st.f["nil:Options.OnDisconnect"] == 0 {
		miss("calling the disconnect hook", "disconnect hook")
	}
	for e := range m.entries {
		m.ob("registries", x, fn.Pos(), e)
		reg := e[:strings.Index(e, ".")]
		if st.f["entry:"+e] == 0 && !m.absent(x, st, reg) {
			miss("removing the connection from "+e, e)
		}
	}
	for h, many := range m.hooks {
		m.ob("hook lists", x, fn.Pos(), h)
		if st.f["all:"+h] == 0 && st.f["nil:"+h] == 0 {
			if many {
				miss("calling all the functions of "+h, h)
			} else {
				miss("calling "+h, h)
			}
		}
	}
}

// absent: on this path there is no registry of this type, because a pointer to
// it, or to something that has one, is nil.
func (m *cleanup) absent(x *Exec, st *State, reg string) bool {
	if st.f["nilT:"+reg] == 1 {
		return true
	}
	for k := range st.f {
		t := strings.TrimPrefix(k, "nilT:")
		if t == k {
			continue
		}
		su := structUnder(x.p.structType(t))
		if su == nil {
			continue
		}
		for i := 0; i < su.NumFields(); i++ {
			if ft := su.Field(i).Type(); isPtr(ft) && libStruct(deref(ft)) == reg {
				return true
			}
		}
	}
	return false
}

// ---- C11: goroutines end ----

type ending struct {
	base
	inLoop map[token.Pos]bool
}

// serves: what the lifetime of a goroutine hangs on.
func serves(p *Program, fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	r := recvOf(fn)
	if r == "batchFlusher" {
		return "flusher"
	}
	if r == "Conn" {
		return "conn"
	}
	if su := structUnder(p.structType(r)); su != nil {
		for i := 0; i < su.NumFields(); i++ {
			if libStruct(deref(su.Field(i).Type())) == "Conn" {
				return "conn"
			}
		}
	}
	return "other"
}

// ends: a receive from c ends what fn serves.
func (m *ending) ends(x *Exec, c SelCase) bool {
	if c.Dir != '<' {
		return false
	}
	what := serves(x.p, x.root)
	if r := fieldRefOf(c.Chan); x.p.SignalChan[r] {
		return what == "other" || strings.HasPrefix(r, "Conn.") == (what == "conn")
	}
	return what != "conn" && c.Chan.Kind == KExpr && c.Chan.Name == "ctx.Done"
}

// looped: the operation is in a loop of its function.
func (m *ending) looped(fn *ssa.Function, pos token.Pos) bool {
	if r, ok := m.inLoop[pos]; ok {
		return r
	}
	r := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if in.Pos() == pos {
				seen := map[*ssa.BasicBlock]bool{}
				var walk func(*ssa.BasicBlock)
				walk = func(c *ssa.BasicBlock) {
					for _, s := range c.Succs {
						if s == b {
							r = true
						}
						if !seen[s] {
							seen[s] = true
							walk(s)
						}
					}
				}
				walk(b)
			}
		}
	}
	m.inLoop[pos] = r
	return r
}

// clock: the channel of a timer or ticker.
func clock(v *V) string {
	if a, ok := symField[v]; ok && a.Kind == KFld {
		if t := baseType(a); t != nil {
			switch deref(t).String() {
			case "time.Ticker":
				return "ticker"
			case "time.Timer":
				return "timer"
			}
		}
	}
	if strings.Contains(v.String(), "time.After") {
		return "timer"
	}
	return ""
}

func (m *ending) Event(x *Exec, st *State, ev *Event) {
	switch ev.Kind {
	case "chanlen":
		st.v["len"] = ev.Args[1]
		st.v["lenof"] = ev.Args[0]
	case "select":
		if st.f["ended"] == int(ev.Pos) && m.looped(ev.Fn, ev.Pos) {
			x.report(st, "goes-on", "", ev.Fn, ev.Pos, "the goroutine goes on after it was told to end")
		}
		ending, ctx := false, serves(x.p, x.root) != "flusher"
		for _, c := range ev.Cases {
			ending = ending || m.ends(x, c) && c.Chan.Name != "ctx.Done"
			ctx = ctx || m.ends(x, c) && c.Chan.Name == "ctx.Done"
		}
		if !m.looped(ev.Fn, ev.Pos) && ctx {
			ending = true
		}
		ending = ending && ctx
		if ev.N >= 0 && m.ends(x, ev.Cases[ev.N]) {
			st.set("ended", int(ev.Pos))
		}
		if ending {
			st.set("polled", 0)
		}
		if !ev.Block {
			return
		}
		m.ob("waits", x, ev.Pos, x.root.Name())
		for _, c := range ev.Cases {
			if clock(c.Chan) == "timer" {
				return
			}
			// taking a lock of the connection, unless the connection is closed
			if c.Lock != "" {
				for _, d := range ev.Cases {
					ending = ending || d.Dir == '<' && strings.HasPrefix(fieldRefOf(d.Chan), "Conn.") && x.p.SignalChan[fieldRefOf(d.Chan)]
				}
			}
		}
		if !ending {
			x.report(st, "endless-wait", "", ev.Fn, ev.Pos, "the goroutine %s waits, and nothing in the wait tells it that what it serves has ended", x.root.Name())
		}
	case "chanop":
		c := ev.Cases[0]
		if c.Rel != "" || !ev.Block {
			return
		}
		m.ob("waits", x, ev.Pos, x.root.Name())
		if m.ends(x, c) {
			st.set("polled", 0)
			return
		}
		switch clock(c.Chan) {
		case "timer":
			m.poll(x, st, ev)
			return
		}
		if c.Dir == '<' && st.v["lenof"] == c.Chan && st.rangeOf(st.v["len"]).lo > 0 {
			delete(st.v, "len")
			delete(st.v, "lenof")
			return
		}
		x.report(st, "endless-wait", "", ev.Fn, ev.Pos, "the goroutine %s waits for one channel only: if nothing comes any more it never ends", x.root.Name())
	case "sleep":
		m.poll(x, st, ev)
	case "wait":
		m.ob("waits", x, ev.Pos, x.root.Name())
		if serves(x.p, x.root) == "conn" || !strings.Contains(ev.Name, "WaitGroup") && len(ev.Name) > 0 {
			x.report(st, "endless-wait", "", ev.Fn, ev.Pos, "the goroutine %s waits for other goroutines, whatever becomes of what it serves", x.root.Name())
		}
	}
}

// poll: a wait for a time, after which it must be looked whether to end.
func (m *ending) poll(x *Exec, st *State, ev *Event) {
	m.ob("waits", x, ev.Pos, x.root.Name())
	if st.f["polled"] == 1 && m.looped(ev.Fn, ev.Pos) {
		x.report(st, "endless-wait", "", ev.Fn, ev.Pos, "the goroutine %s goes on waiting without looking whether what it serves has ended", x.root.Name())
	}
	st.set("polled", 1)
}

func (m *ending) Return(x *Exec, st *State, ret *V) {
	m.ob("ends", x, x.root.Pos(), x.root.Name())
	st.set("ended", 0)
}

func finishEnding(p *Program, r *Result) {
	done := map[string]bool{}
	for o := range r.Inst["ends"] {
		done[o[strings.LastIndexByte(o, ' ')+1:]] = true
	}
	for _, fn := range p.GoTargets {
		if p.isCloseFn(fn) || !p.isLibFn(fn) || serves(p, fn) == "other" {
			continue
		}
		r.ob("goroutines", fn.String())
		if !done[fn.Name()] {
			r.report("never-ends", fn.Name(), p.fnPos(fn), "no path of the goroutine %s ends", fn.Name())
		}
	}
}

// ---- C31: pooled buffers ----

type pooling struct {
	base
	roles *Roles
}

// fromPool: v is what a pool handed out on this path.
func fromPool(v *V) bool {
	r := false
	walkV(v, func(y *V) {
		if y.Kind == KSym && strings.Contains(y.Name, "pool!") {
			r = true
		}
	})
	return r
}

func (m *pooling) Event(x *Exec, st *State, ev *Event) {
	switch ev.Kind {
	case "apicall":
		st.set("put", 0)
	case "poolget":
		m.ob("buffers taken", x, ev.Pos)
	case "store":
		v := unwrap(ev.Args[1])
		if v.Kind != KObj && v.Kind != KNil && (v.Typ == nil || !isPtr(v.Typ)) {
			return
		}
		s, f := fieldOf(ev.Args[0])
		if s == "" {
			return
		}
		if v.Kind != KNil && !fromPool(v) {
			m.fact("other|%s.%s|%s", s, f, x.pos(ev.Pos))
		} else if v.Kind != KNil {
			m.fact("pool|%s.%s", s, f)
		}
	case "close":
		if strings.HasPrefix(ev.Name, "Conn.") {
			st.set("signal", 1)
		}
	case "go", "mapset":
		st.set("shared", 1)
	case "poolput":
		m.ob("buffers returned", x, ev.Pos)
		v := unwrap(ev.Args[0])
		if st.f["put"] == 1 {
			x.report(st, "twice", "", ev.Fn, ev.Pos, "a buffer can be put back into the pool twice")
		}
		st.set("put", 1)
		if nn, ok := st.nonNil(v); !ok || !nn {
			x.report(st, "foreign", "nil", ev.Fn, ev.Pos, "what is put into the pool can be nil")
		}
		r := fieldRefOf(v)
		switch {
		case fromPool(v):
		case r != "":
			m.fact("need|%s|%s", r, x.pos(ev.Pos))
		default:
			x.report(st, "foreign", "", ev.Fn, ev.Pos, "what is put into the pool (%s) did not come from it", v)
		}
		st.v["put"] = v
		if fromPool(v) && st.f["shared"] == 0 {
			return // nobody else has seen the connection
		}
		if !st.isHeld(m.roles.Msg) {
			x.report(st, "in-use", "writer", ev.Fn, ev.Pos, "the buffer of a connection is put back while a message may still be written into it (without %s)", m.roles.Msg)
		}
		st.set("kept", 1)
	case "unlock":
		if st.f["kept"] == 1 && ev.Name == m.roles.Msg {
			x.report(st, "in-use", "freed", ev.Fn, ev.Pos, "%s is released after the buffer was put back: another message can be written into it", ev.Name)
		}
	case "netwrite", "copy", "append":
		if v := st.v["put"]; v != nil && st.f["put"] == 1 {
			walkV(ev.Args[0], func(y *V) {
				if a, ok := symField[y]; ok {
					if s, _ := fieldOf(a); s != "" && (rootOf(a) == v || s == "ConnWriter" && strings.HasPrefix(fieldRefOf(v), "ConnWriter.")) {
						x.report(st, "in-use", "used", ev.Fn, ev.Pos, "the buffer is used after it was put back")
					}
				}
			})
		}
	}
}

func (m *pooling) Return(x *Exec, st *State, ret *V) {
	if st.f["kept"] == 1 && st.f["signal"] == 0 {
		x.report(st, "in-use", "open", x.root, x.root.Pos(), "%s puts the buffer of a connection back although it does not close the connection", x.root.Name())
	}
	if x.root.Parent() == nil || ret == nil {
		return
	}
	for _, v := range results(ret) {
		if v.Kind != KIface || !types.IsInterface(x.root.Signature.Results().At(0).Type()) || isErrorType(lastResult(x.root)) {
			continue
		}
		o := unwrap(v)
		m.ob("new buffers", x, x.root.Pos(), x.root.Name())
		if !isNewObj(rootOf(o)) {
			x.report(st, "shared", x.root.Name(), x.root, x.root.Pos(), "the pool can hand out something that is not new: %s", o)
			continue
		}
		x.bufFields(st, o, func(ref string, b *V) {
			r := b
			for r.Kind == KSlice {
				r = r.A[0]
			}
			if r.Kind != KNil && !isNewObj(rootOf(r)) && !strings.Contains(r.String(), "make!") {
				x.report(st, "shared", ref, x.root, x.root.Pos(), "the buffers the pool makes share their bytes: %s", b)
			}
		})
	}
}

func finishPool(p *Program, r *Result) {
	for f := range r.Facts {
		s := strings.Split(f, "|")
		if s[0] != "need" {
			continue
		}
		r.ob("fields with pooled buffers", s[1])
		if !r.Facts["pool|"+s[1]] {
			r.report("foreign", s[1], s[2], "%s is put into the pool, but never holds anything that came from it", s[1])
		}
		for g := range r.Facts {
			if t := strings.Split(g, "|"); t[0] == "other" && t[1] == s[1] {
				r.report("foreign", s[1], s[2], "%s is put into the pool, but can hold something else (stored at %s)", s[1], t[2])
			}
		}
	}
}

func init() {
	register(&Prop{ID: "C09",
		Rule:   "On every path of every reading, sending, ping and batch call: the returned error is a *FatalError if the path closed the connection or found it closed, and only then; after a failed read, write or deadline the connection is closed before the operation returns or waits again. IsFatalErr, evaluated abstractly, holds exactly for *FatalError.",
		Limits: "errors that applications produce themselves; a decoder of encoding/json that swallows the error of its reader.",
		Want:   func(p *Program, t Target) bool { return !isWriterMethod(t) },
		New:    func(p *Program) Monitor { return &fatalIff{newBase(true)} },
		Finish: finishFatal,
		Min:    map[string]int{"closings": 15, "transport failures": 3, "error results": 12, "fatal results": 8, "error classes": 3},
	})
	register(&Prop{ID: "C10",
		Rule:   "CloseWithCode with everything it calls, every path: all steps come after a guard that lets only one call through (a once of the connection, an atomic swap of one of its fields, or a flag tested and set under a lock); that call raises the closed signal once, tries to write the close frame, closes the socket, runs the disconnect hook exactly once unless it is nil, deletes the connection from every map an upgrade puts it into unless that registry is absent, and calls every function of every list of closing hooks, which it reads only after the signal was raised; no failing step skips another one.",
		Limits: "panics of hooks; that the hooks of managers and rooms remove the connection is C23 and C24.",
		Want:   func(p *Program, t Target) bool { return t.Fn != nil && p.isCloseFn(t.Fn) },
		New: func(p *Program) Monitor {
			return &cleanup{base: newBase(false), entries: p.connEntries(), hooks: p.hookFields()}
		},
		Min: map[string]int{"clean-up steps": 6, "first closes": 1, "registries": 2, "hook lists": 1},
	})
	register(&Prop{ID: "C11",
		Rule:   "Every function the library starts with go, every path with what it calls: each wait is a select that also receives from the signal of what the goroutine serves (the closed signal of the connection; for the flusher its closed signal or the context), or takes a lock under such a select, or is bounded in time and followed by a look at the signal, or receives what is known to be there; having received the signal, the goroutine does not return to its loop; some path ends.",
		Limits: "callbacks of the program that never return; network writes are bounded by C05; mutexes by C07.",
		Want: func(p *Program, t Target) bool {
			if t.Fn == nil || p.isCloseFn(t.Fn) || serves(p, t.Fn) == "other" {
				return false
			}
			for _, g := range p.GoTargets {
				if g == t.Fn {
					return true
				}
			}
			return false
		},
		New:    func(p *Program) Monitor { return &ending{newBase(true), map[token.Pos]bool{}} },
		Finish: finishEnding,
		Min:    map[string]int{"waits": 4, "ends": 3, "goroutines": 3},
	})
	register(&Prop{ID: "C31",
		Rule:   "Every path of every entry point: what is put into the pool is not nil and came from it (directly, or from a field that only ever holds what came from it); it is put back once, by the call that closes the connection, with the right to send held and never released afterwards, and is not used any more; or before anyone else has seen the connection. What the pool makes is new each time.",
		Limits: "writers that applications keep using after their message was closed.",
		Want: func(p *Program, t Target) bool {
			return lockWant(p, t) && !strings.Contains(t.Key, "drain")
		},
		New:    func(p *Program) Monitor { return &pooling{newBase(true), p.roles()} },
		Finish: finishPool,
		Min:    map[string]int{"buffers taken": 1, "buffers returned": 1, "new buffers": 1, "fields with pooled buffers": 1},
	})
}
