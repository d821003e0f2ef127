package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C26 and C27: broadcasts ----

// queueOwner: the connection whose queue of messages ch is.
func queueOwner(ch *V) *V {
	a, ok := symField[ch]
	if !ok || a.Kind != KFld {
		return nil
	}
	if s, _ := fieldOf(a); s != "Conn" {
		return nil
	}
	c, ok := ch.Typ.Underlying().(*types.Chan)
	if !ok {
		return nil
	}
	if _, ok := c.Elem().Underlying().(*types.Interface); !ok && !isPtr(c.Elem()) {
		return nil
	}
	return a.A[0]
}

// bcast follows a call that broadcasts.
type bcast struct {
	base
	reg   *member
	batch bool
	ready bool // a call that makes a connection visible
	pol   *inParse
}

func (m *bcast) Init(x *Exec, st *State) {
	x.keepApart()
	x.joinV = true
	x.maxSplit = 12
	x.multi = map[string]bool{"Conn": true}
	r := recvOf(x.root)
	m.reg.rooms = r == "RoomManager" || r == "Room"
	m.ready = !strings.Contains(x.root.Name(), "Broadcast")
	m.batch = strings.Contains(x.root.Name(), "Batch")
	st.v["n"], st.v["i"], st.v["i1"] = kInt(0), kInt(-1), kInt(0)
}

// isElem: v is the member of the registry at hand.
func (m *bcast) isElem(st *State, v *V) bool {
	v = unwrap(v)
	for _, k := range []string{"k", "v"} {
		if e := st.v[k]; e != nil && (v == e || of(v, e)) {
			return true
		}
	}
	return false
}

// known: whether it is known that the member at hand is (1) or is not (2) excluded.
func (m *bcast) settle(x *Exec, st *State) {
	if t := st.v["ex"]; t != nil {
		if v, ok := st.eval(t); ok {
			st.set("exq", 1)
			if v {
				st.set("excl", 1)
			} else if st.f["excl"] == 0 {
				st.set("excl", 2)
			}
			delete(st.v, "ex")
		}
	}
	if ml := st.v["ml"]; ml != nil {
		if t, ok := st.eval(vEq(ml, kInt(0))); ok && t {
			st.set("sel", 1)
		}
	}
	if st.f["sel"] == 1 {
		if a := st.v["arr"]; a != nil {
			if n := vLen(st, a); st.le(n, vAdd(st.v["i"], kInt(1))) || st.le(n, st.v["i1"]) {
				st.set("all", 1)
			}
		}
	}
	if st.f["full"] != 0 && st.f["pol"] == 0 {
		for i, n := range []string{"BackpressureDrop", "BackpressureClose", "BackpressureWait"} {
			if t, ok := st.eval(vEq(m.policy(x, st), m.val(x, n))); ok && t {
				st.set("pol", i+1)
			}
		}
		if st.f["pol"] == 0 {
			// neither closing nor waiting
			a, ok := st.eval(vEq(m.policy(x, st), m.val(x, "BackpressureClose")))
			b, ok2 := st.eval(vEq(m.policy(x, st), m.val(x, "BackpressureWait")))
			if ok && ok2 && !a && !b {
				st.set("pol", 1)
			}
		}
	}
}

func (m *bcast) policy(x *Exec, st *State) *V {
	return m.pol.option(x, st, "BroadcastBackpressure")
}

func (m *bcast) val(x *Exec, name string) *V {
	for _, f := range x.p.Funcs {
		if f.Pkg == nil || !isLibPkg(f.Pkg.Pkg) {
			continue
		}
		if c, ok := f.Pkg.Pkg.Scope().Lookup(name).(*types.Const); ok {
			if n, ok := constant.Int64Val(constant.ToInt(c.Val())); ok {
				return kInt(n)
			}
		}
	}
	return kInt(-1 << 40)
}

// done: what was to be done for a connection with a full queue has been done.
func (m *bcast) done(x *Exec, st *State, fn *ssa.Function, pos token.Pos) {
	if st.f["full"] == 0 {
		return
	}
	switch {
	case st.f["pol"] == 0 && st.f["cl"] == 0 && st.f["wait"] == 0:
		x.report(st, "policy", "none", fn, pos, "a message is dropped because a queue is full although the policy can be another one")
	case st.f["pol"] == 2 && st.f["cl"] == 0:
		x.report(st, "policy", "close", fn, pos, "a connection whose queue is full is not closed under the close policy")
	case st.f["pol"] == 3 && st.f["wait"] == 0:
		x.report(st, "policy", "wait", fn, pos, "a message is dropped under the wait policy")
	}
	for _, k := range []string{"full", "pol", "cl", "wait"} {
		st.set(k, 0)
	}
}

func (m *bcast) skipped(x *Exec, st *State, fn *ssa.Function, pos token.Pos) {
	if st.f["pend"] == 1 && !m.excluded(x, st) {
		x.report(st, "skipped", "", fn, pos, "a connection that is not excluded can be left out of the broadcast")
	}
	st.set("pend", 0)
}

func (m *bcast) Event(x *Exec, st *State, ev *Event) {
	fn := x.caller(ev.Fn)
	if m.ready {
		m.readiness(x, st, ev, fn)
		return
	}
	m.settle(x, st)
	defer m.settle(x, st)
	switch ev.Kind {
	case "deref", "nilderef":
		if v := ev.Args[0]; v != nil && v.Typ != nil && isContext(v.Typ) && strings.HasPrefix(v.Name, "arg:") {
			x.report(st, "nil-context", "", fn, ev.Pos, "the context is used although it can be nil")
		}
	case "maprange", "rangenext", "rangeend":
		if m.reg.mapOf(ev.Args[0]) != 'c' {
			return
		}
		m.skipped(x, st, fn, ev.Pos)
		switch ev.Kind {
		case "rangenext":
			m.ob("members looked at", x, ev.Pos, recvOf(x.root))
			st.set("pend", 1)
			st.set("excl", 0)
			st.set("exq", 0)
			delete(st.v, "ex")
			st.v["k"], st.v["v"] = ev.Args[1], ev.Args[2]
		case "rangeend":
			st.set("sel", 1)
		}
	case "maplen":
		if m.reg.mapOf(ev.Args[0]) == 'c' {
			st.v["ml"] = ev.Args[1]
		}
	case "use":
		// slices.Contains and the like, with the excluded ones
		if len(ev.Args) == 2 && isExcl(ev.Args[0]) && m.isElem(st, ev.Args[1]) {
			st.set("exq", 1)
		}
	case "assume":
		m.assumed(x, st, ev)
	case "mapget":
		if st.f["pend"] == 1 && isNewObj(ev.Args[0]) && m.isElem(st, ev.Args[1]) {
			st.set("exq", 1)
			if v := ev.Args[2]; v != nil && v.Typ != nil && isBoolT(v.Typ) {
				st.v["ex"] = v
			} else if h := st.heap[expr("has", types.Typ[types.Bool], ev.Args[0], ev.Args[1])]; h != nil {
				st.v["ex"] = h
			}
		}
	case "appended":
		r, dst, src := ev.Args[0], ev.Args[1], ev.Args[2]
		hit := false
		for _, p := range parts(src) {
			hit = hit || m.isElem(st, p)
			if p.Kind == KSlice {
				for k, w := range st.heap {
					if k.Kind == KElem && k.A[0] == p.A[0] && m.isElem(st, w) {
						hit = true
					}
				}
			}
		}
		walkV(src, func(y *V) { hit = hit || m.isElem(st, y) })
		if !hit || st.f["pend"] == 0 {
			return
		}
		if a := st.v["arr"]; a != nil && dst != a {
			x.report(st, "dropped", "", fn, ev.Pos, "connections that were selected can be dropped")
		}
		m.ob("connections selected", x, ev.Pos, recvOf(x.root))
		m.settle(x, st)
		if m.excluded(x, st) {
			x.report(st, "excluded", "", fn, ev.Pos, "a connection that is excluded can be selected")
		} else if st.f["exq"] == 0 && !m.none(x, st) {
			x.report(st, "excluded", "untested", fn, ev.Pos, "a connection is selected without being compared with the excluded ones")
		}
		st.set("pend", 0)
		st.set("kept", 1)
		st.v["arr"] = r
	case "select", "chanop":
		for i, c := range ev.Cases {
			if o := queueOwner(c.Chan); o != nil && c.Dir == '>' {
				m.offer(x, st, ev, i, unwrap(o), fn)
			}
		}
	case "send":
		if o := queueOwner(ev.Args[0]); o != nil {
			if st.f["sent"] == 1 {
				x.report(st, "twice", "", fn, ev.Pos, "a message can be queued twice for one connection")
			}
			m.ob("messages queued", x, ev.Pos)
			st.set("sent", 1)
			st.set("full", 0)
			st.v["n"] = vAdd(st.v["n"], kInt(1))
		}
	case "recv":
		if c := ev.Args[0]; c.Kind == KExpr && c.Name == "ctx.Done" || strings.HasPrefix(c.String(), "ctx.Done") {
			st.set("dead", 1)
		} else if a, ok := symField[c]; ok {
			if s, _ := fieldOf(a); s != "Conn" && s != "" && x.p.SignalChan[refName(a)] {
				st.set("dead", 1)
			}
		}
	case "Close":
		x.report(st, "blocks", "close", fn, ev.Pos, "a broadcast waits for a connection to be closed")
	case "go":
		if f := goFn(ev); f != nil {
			var who *V
			if x.p.isCloseFn(f) && len(ev.Args) > 1 {
				who = ev.Args[1]
			} else if i := x.p.closesFree(f); i >= 0 && ev.Args[0].Kind == KClos && i < len(ev.Args[0].A) {
				who = ev.Args[0].A[i]
				if v := st.heap[who]; v != nil {
					who = v
				}
			} else if i := x.p.closesParam(f); i >= 0 && i+1 < len(ev.Args) {
				who = ev.Args[i+1]
			}
			if who == nil {
				return
			}
			m.ob("slow connections closed", x, ev.Pos)
			if who = unwrap(who); who != st.v["cur"] && !of(who, st.v["cur"]) {
				x.report(st, "closes-other", "", fn, ev.Pos, "the connection that is closed can be another one than the one whose queue is full")
			}
			if st.f["full"] == 0 || st.f["pol"] != 2 {
				x.report(st, "policy", "closes", fn, ev.Pos, "a connection can be closed although its queue is not full or the policy is another one")
			}
			st.set("cl", 1)
		}
	}
}

func refName(a *V) string {
	s, f := fieldOf(a)
	return s + "." + f
}

func isContext(t types.Type) bool {
	return types.TypeString(t, nil) == "context.Context"
}

// isExcl: v is the list of the excluded ones that the caller gave.
func isExcl(v *V) bool {
	hit := false
	walkV(v, func(y *V) { hit = hit || strings.HasPrefix(y.Name, "arg:excl") })
	return hit
}

func isExclElem(v *V) bool {
	if e, ok := symElem[unwrap(v)]; ok {
		return isExcl(e.A[0])
	}
	return false
}

func (m *bcast) assumed(x *Exec, st *State, ev *Event) {
	if st.f["pend"] == 0 || len(ev.Args) == 0 || ev.Args[0] == nil {
		return
	}
	c := ev.Args[0]
	hit, elem := false, false
	walkV(c, func(y *V) {
		hit = hit || isExclElem(y) || strings.HasPrefix(y.Name, "arg:excl")
		elem = elem || m.isElem(st, y)
	})
	if hit && elem {
		st.set("exq", 1)
		if c.Kind == KExpr && c.Name == "==" && !strings.Contains(c.String(), "Index") {
			st.v["ex"] = c
		}
	}
}

// excluded: it is known on this path that the member at hand is excluded.
func (m *bcast) excluded(x *Exec, st *State) bool {
	if st.f["excl"] == 1 {
		return true
	}
	for f, t := range st.facts {
		if !t || f.Kind != KExpr || !strings.Contains(f.Name, "slices.Contains") || len(f.A) < 2 {
			continue
		}
		if isExcl(f.A[0]) && m.isElem(st, f.A[len(f.A)-1]) {
			return true
		}
	}
	return false
}

// none: it is known that nothing is excluded.
func (m *bcast) none(x *Exec, st *State) bool {
	for _, p := range x.root.Params {
		if strings.HasPrefix(p.Name(), "excl") {
			v := x.paramValue(st, "arg:"+p.Name(), p.Type())
			r := st.rangeOf(vLen(st, v))
			return r.hi == 0
		}
	}
	return true
}

func (m *bcast) offer(x *Exec, st *State, ev *Event, qi int, owner *V, fn *ssa.Function) {
	blocking := ev.Kind == "chanop" || ev.Block
	if owner != st.v["cur"] {
		m.done(x, st, fn, ev.Pos)
		m.ob("offers", x, ev.Pos)
		if st.f["off"] == 1 && st.f["sent"] == 0 && st.f["over"] == 0 {
			x.report(st, "not-offered", "", fn, ev.Pos, "a connection can be passed over")
		}
		a, i := st.v["arr"], (*V)(nil)
		if e, ok := symElem[owner]; ok && e.A[0] == a {
			i = e.A[1]
		}
		switch {
		case i == nil:
			if st.f["sel"] == 1 {
				x.report(st, "order", "", fn, ev.Pos, "the message is offered to a connection that was not selected (%s)", owner)
			}
		case !sameInt(st, i, vAdd(st.v["i"], kInt(1))) && !sameInt(st, i, st.v["i1"]):
			x.report(st, "order", "", fn, ev.Pos, "a selected connection can be passed over, or get the message twice")
		default:
			st.v["i"], st.v["i1"] = i, vAdd(i, kInt(1))
		}
		st.v["cur"] = owner
		st.set("sent", 0)
		st.set("over", 0)
		st.set("off", 1)
		st.set("all", 0)
	}
	if blocking {
		m.ob("waits for a queue", x, ev.Pos)
		m.settle(x, st)
		if st.f["full"] == 0 {
			// the wait policy allows to skip the attempt
			st.set("full", 1)
			st.set("pol", 0)
			m.settle(x, st)
		}
		if st.f["pol"] != 3 {
			x.report(st, "blocks", "policy", fn, ev.Pos, "a broadcast can wait for a queue although the policy is another one")
		}
		st.set("wait", 1)
		if st.isHeldAny() {
			x.report(st, "blocks", "lock", fn, ev.Pos, "a broadcast waits for a queue while it holds a lock")
		}
		alive, ctx, fl, fctx := false, false, false, false
		for _, c := range ev.Cases {
			if c.Dir != '<' {
				continue
			}
			if a, ok := symField[c.Chan]; ok && x.p.SignalChan[refName(a)] {
				if s, _ := fieldOf(a); s == "Conn" {
					alive = alive || a.A[0] == owner
				} else {
					fl = true
				}
			}
			if strings.HasPrefix(c.Chan.String(), "ctx.Done") {
				if c.Chan.Kind == KExpr && len(c.Chan.A) == 1 {
					if a, ok := symField[c.Chan.A[0]]; ok && refName(a) != "" && strings.Contains(strings.ToLower(refName(a)), "flusher") {
						fctx = true
						continue
					}
				}
				ctx = true
			}
		}
		if !alive {
			x.report(st, "hang", "conn", fn, ev.Pos, "waiting for the queue of a connection does not end when that connection is closed")
		}
		if !ctx {
			x.report(st, "hang", "ctx", fn, ev.Pos, "waiting for the queue of a connection does not end with the context")
		}
		if m.batch && !fl {
			x.report(st, "hang", "flusher", fn, ev.Pos, "waiting for the queue of a connection does not end with the flusher")
		}
		if m.batch && !fctx {
			x.report(st, "hang", "flusher-ctx", fn, ev.Pos, "waiting for the queue of a connection does not end with the context of the flusher")
		}
		st.set("full", 0)
		st.set("over", 1)
	} else if ev.N == -1 {
		st.set("full", 1)
		st.set("over", 1)
	} else if ev.N != qi {
		st.set("over", 1)
	}
}

func (m *bcast) Return(x *Exec, st *State, ret *V) {
	if m.ready {
		return
	}
	m.settle(x, st)
	pos := x.root.Pos()
	rs := results(ret)
	if len(rs) != 2 {
		return
	}
	m.ob("broadcasts ended", x, pos, recvOf(x.root)+"."+x.root.Name())
	m.done(x, st, x.root, pos)
	if !sameInt(st, rs[0], st.v["n"]) {
		x.report(st, "count", "", x.root, pos, "the number %s returns can differ from the number of queues that took the message", x.root.Name())
	}
	if rs[1].Kind == KNil {
		m.skipped(x, st, x.root, pos)
		if st.f["sel"] == 0 {
			x.report(st, "no-selection", "", x.root, pos, "%s can report success without having looked at the connections", x.root.Name())
		} else if st.f["kept"] == 1 && st.f["all"] == 0 {
			x.report(st, "incomplete", "", x.root, pos, "%s can report success although not every selected connection was offered the message", x.root.Name())
		}
	} else if st.f["off"] == 1 && st.f["dead"] == 0 && !strings.HasPrefix(rs[1].String(), "err!ctx") {
		x.report(st, "gave-up", "", x.root, pos, "%s can end early although neither the context nor the flusher has ended", x.root.Name())
	}
}

// readiness: a connection that becomes visible to broadcasts can take messages.
func (m *bcast) readiness(x *Exec, st *State, ev *Event, fn *ssa.Function) {
	switch ev.Kind {
	case "store":
		s, _ := fieldOf(ev.Args[0])
		if s != "Conn" || ev.Args[1].Typ == nil {
			return
		}
		if c, ok := ev.Args[1].Typ.Underlying().(*types.Chan); ok {
			if _, ok := c.Elem().Underlying().(*types.Interface); ok && isNewObj(rootOf(ev.Args[1])) || ok && strings.Contains(ev.Args[1].Name, "new:") {
				st.set("queue", 1)
				st.v["qc"] = ev.Args[0].A[0]
			}
		}
	case "go":
		if f := goFn(ev); f != nil && x.p.listens(f) {
			if st.f["queue"] == 0 {
				x.report(st, "listener-first", "", fn, ev.Pos, "the listener is started before there is a queue")
			}
			st.set("listen", 1)
			m.ob("listeners started", x, ev.Pos)
		}
	case "oncedone":
		if st.f["queue"] == 1 && st.f["listen"] == 1 {
			m.fact("readyonce|%s", ev.Name)
			st.set("ready", 1)
		}
	case "onceskip":
		st.set("ready", 1)
		st.v["once"] = sym(ev.Name, types.Typ[types.Int])
	case "mapset":
		if m.reg.mapOf(ev.Args[0]) != 'c' {
			return
		}
		m.ob("connections made visible", x, ev.Pos, recvOf(x.root))
		if st.f["ready"] == 0 {
			x.report(st, "not-ready", "", fn, ev.Pos, "a broadcast can see a connection that has no queue or no listener yet")
		} else if o := st.v["once"]; o != nil {
			m.fact("once|%s|%s", o.Name, x.pos(ev.Pos))
		}
	}
}

// listens: f takes messages from the queue of a connection.
func (p *Program) listens(f *ssa.Function) bool {
	var seen = map[*ssa.Function]bool{}
	var visit func(f *ssa.Function, d int) bool
	visit = func(f *ssa.Function, d int) bool {
		if f == nil || seen[f] || d > 4 {
			return false
		}
		seen[f] = true
		isQ := func(v ssa.Value) bool {
			u, ok := v.(*ssa.UnOp)
			if !ok {
				return false
			}
			fa, ok := u.X.(*ssa.FieldAddr)
			if !ok || libStruct(deref(fa.X.Type())) != "Conn" {
				return false
			}
			c, ok := v.Type().Underlying().(*types.Chan)
			if !ok {
				return false
			}
			_, ok = c.Elem().Underlying().(*types.Interface)
			return ok
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Select:
					for _, s := range in.States {
						if s.Dir == types.RecvOnly && isQ(s.Chan) {
							return true
						}
					}
				case *ssa.UnOp:
					if in.Op == token.ARROW && isQ(in.X) {
						return true
					}
				case *ssa.Call:
					if visit(in.Call.StaticCallee(), d+1) {
						return true
					}
				}
			}
		}
		return false
	}
	return visit(f, 0)
}

func finishBcast(p *Program, r *Result) {
	for f := range r.Facts {
		if s := strings.Split(f, "|"); s[0] == "once" && !r.Facts["readyonce|"+s[1]] {
			r.report("not-ready", s[1], s[2], "a connection is made visible after %s, which does not make a queue and start a listener", s[1])
		}
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
					if ct, ok := c.Common().Args[0].Type().Underlying().(*types.Chan); ok {
						if _, ok := ct.Elem().(*types.TypeParam); ok {
							continue
						}
						if _, ok := ct.Elem().Underlying().(*types.Interface); ok {
							r.report("queue-closed", fn.Name(), p.pos(in.Pos()), "a queue of messages is closed: a broadcast that sends to it panics")
						}
					}
				}
			}
		}
	}
}

func (p *Program) pos(at token.Pos) string {
	q := p.SSA.Fset.Position(at)
	return fmt.Sprintf("%s:%d", q.Filename[strings.LastIndexByte(q.Filename, '/')+1:], q.Line)
}

func init() {
	register(&Prop{ID: "C26",
		Rule:   "Every path of the exported Broadcast methods: each member of the registry that is enumerated is put into the selection unless it is known to be excluded, and never without having been compared with the excluded ones; the members of the selection are offered the message by index without gap or repetition; when the attempt finds the queue full, what follows agrees with the policy (nothing; a goroutine that closes that connection; a wait); a wait for a queue happens only under the wait policy, without a lock, and its select has cases for the end of that connection, of the context, and for batches of the flusher and its context; the number returned is the number of successful sends; success is returned only after the last member, an early end only after a context or the flusher ended; a context that can be nil is not used. Every path that puts a connection in a registry has run the once that makes the queue and then starts the listener. No queue is closed.",
		Limits: "A manager's and a room's connections are followed as separate objects; which of several equal keys is excluded is left to slices.Contains and ==. The listener's life is C05, C10.",
		Want: func(p *Program, t Target) bool {
			if t.Fn == nil || t.Kind != "api" {
				return false
			}
			switch recvOf(t.Fn) {
			case "Manager":
				return strings.Contains(t.Fn.Name(), "Broadcast") || t.Fn.Name() == "Register"
			case "Room":
				return strings.Contains(t.Fn.Name(), "Broadcast") || t.Fn.Name() == "Add"
			}
			return false
		},
		New: func(p *Program) Monitor {
			return &bcast{base: newBase(true), reg: &member{hooks: p.hookFields()}, pol: &inParse{}}
		},
		Finish: finishBcast,
		Min:    map[string]int{"broadcasts ended": 4, "offers": 2, "connections made visible": 2},
	})
}

// ---- C27 ----

// frozen follows the bytes of a message that is broadcast.
type frozen struct {
	base
	lib  bool // the goroutine that takes the messages
	data *V
}

func (m *frozen) Init(x *Exec, st *State) {
	x.keepApart()
	m.lib = !strings.Contains(x.root.Name(), "Broadcast")
	if m.lib {
		return
	}
	x.multi = map[string]bool{"Conn": true}
	for _, p := range x.root.Params {
		if s, ok := p.Type().Underlying().(*types.Slice); ok && isByteT(s.Elem()) {
			m.data = x.paramValue(newState(), "arg:"+p.Name(), p.Type())
		}
	}
}

func isByteT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// bytesIn calls f for the byte slices in a message.
func (x *Exec) bytesIn(st *State, v *V, f func(ref string, b *V)) {
	v = unwrap(v)
	if v.Kind == KStruct {
		if su := structUnder(v.Typ); su != nil {
			for i := 0; i < su.NumFields() && i < len(v.A); i++ {
				if s, ok := su.Field(i).Type().Underlying().(*types.Slice); ok && isByteT(s.Elem()) {
					f(libStruct(v.Typ)+"."+su.Field(i).Name(), v.A[i])
				}
			}
		}
		return
	}
	if s, ok := v.Typ.Underlying().(*types.Slice); ok && isByteT(s.Elem()) {
		f(v.Typ.String(), v)
		return
	}
	if o := sentObj(st, v); o != nil {
		x.bufFields(st, o, f)
	}
}

// baseOf is what the bytes of a slice belong to.
func baseOf(v *V) *V {
	for v != nil && v.Kind == KSlice {
		v = v.A[0]
	}
	return v
}

func (m *frozen) Event(x *Exec, st *State, ev *Event) {
	fn := x.caller(ev.Fn)
	x.formed(st, ev)
	touch := func(v *V, how string) {
		if v == nil {
			return
		}
		r := rootOf(v)
		if r = baseOf(r); r == nil {
			return
		}
		if st.f["pub"] == 1 && (r == st.v["po"] || r == st.v["pb"]) {
			x.report(st, "changed", how, fn, ev.Pos, "a message is changed (%s) after it was queued", how)
		}
		if a, ok := symField[r]; ok {
			if s, _ := fieldOf(a); m.isMsg(x, s) {
				x.report(st, "changed", how, fn, ev.Pos, "the bytes of a queued message are changed (%s)", how)
			}
		}
		if v.Kind == KFld {
			if s, _ := fieldOf(v); m.isMsg(x, s) && !isNewObj(r) {
				x.report(st, "changed", how, fn, ev.Pos, "a field of a queued message is changed (%s)", how)
			}
		}
	}
	switch ev.Kind {
	case "store":
		touch(ev.Args[0], "assignment")
	case "putbe", "mask":
		touch(ev.Args[0], ev.Kind)
	case "poolput":
		for _, a := range ev.Args {
			touch(unwrap(a), "reuse")
			if st.f["pub"] == 1 {
				walkV(a, func(y *V) {
					if y == st.v["pb"] || y == st.v["po"] {
						x.report(st, "changed", "reuse", fn, ev.Pos, "a queued message is given back for reuse")
					}
				})
			}
		}
	case "copy":
		touch(ev.Args[0], "copy")
		if m.data == nil || ev.Args[1] == m.data {
			st.v["cd"], st.v["cs"] = ev.Args[0], ev.Args[1]
		}
	case "appended":
		if ev.Args[2] == m.data && m.data != nil || m.data == nil {
			if d := ev.Args[1]; d.Kind == KNil || st.rangeOf(vLen(st, d)).hi == 0 && baseOf(d) != m.data {
				st.v["ap"] = ev.Args[0]
			}
		}
	case "send":
		if m.lib || queueOwner(ev.Args[0]) == nil {
			return
		}
		m.publish(x, st, ev, fn)
	case "recv":
		if m.lib && queueOwner(ev.Args[0]) != nil {
			m.ob("messages taken from a queue", x, ev.Pos)
			st.set("written", 0)
		}
	case "netwrite":
		if m.lib {
			if st.f["written"] == 1 {
				x.report(st, "twice", "", fn, ev.Pos, "a queued message can be written twice")
			}
			st.set("written", 1)
			m.ob("queued frames written", x, ev.Pos)
			b := ev.Args[0]
			if a, ok := symField[b]; !ok || b.Kind == KSlice {
				x.report(st, "other-bytes", "", fn, ev.Pos, "what is written is not the whole of what was queued (%s)", b)
			} else if s, _ := fieldOf(a); !m.isMsg(x, s) {
				x.report(st, "other-bytes", "", fn, ev.Pos, "what is written is not what was queued (%s)", b)
			}
		}
	}
}

// isMsg: a struct of this name is queued as a message.
func (m *frozen) isMsg(x *Exec, s string) bool {
	if s == "" {
		return false
	}
	for _, t := range x.p.queued() {
		if t == s {
			return true
		}
	}
	return false
}

// queued: the library types that can be put in the queue of a connection.
func (p *Program) queued() []string {
	if p.queuedT != nil {
		return p.queuedT
	}
	p.queuedT = []string{}
	t := p.structType("Conn")
	su := structUnder(t)
	if su == nil {
		return nil
	}
	for i := 0; i < su.NumFields(); i++ {
		c, ok := su.Field(i).Type().Underlying().(*types.Chan)
		if !ok {
			continue
		}
		if isPtr(c.Elem()) {
			p.queuedT = append(p.queuedT, libStruct(deref(c.Elem())))
			continue
		}
		it, ok := c.Elem().Underlying().(*types.Interface)
		if !ok || it.NumMethods() == 0 {
			continue
		}
		for _, n := range p.Lib.Pkg.Scope().Names() {
			tn, ok := p.Lib.Pkg.Scope().Lookup(n).(*types.TypeName)
			if ok && structUnder(tn.Type()) != nil && types.Implements(types.NewPointer(tn.Type()), it) {
				p.queuedT = append(p.queuedT, n)
			}
		}
	}
	return p.queuedT
}

func (m *frozen) publish(x *Exec, st *State, ev *Event, fn *ssa.Function) {
	v := unwrap(ev.Args[1])
	same := false
	if o := sentObj(st, v); o != nil {
		if !isNewObj(rootOf(o)) {
			x.report(st, "shared", "object", fn, ev.Pos, "the message that is queued was not made by this call (%s)", o)
		}
		same = st.v["po"] == rootOf(o)
		st.v["po"] = rootOf(o)
	}
	n := 0
	x.bytesIn(st, v, func(ref string, b *V) {
		n++
		m.ob("messages queued", x, ev.Pos, ref)
		if st.f["pub"] == 1 && same && st.v["pb"] == baseOf(b) {
			return // checked when it was queued first, and not changed since
		}
		st.v["pb"] = baseOf(b)
		whole := func(format string, a ...any) {
			x.report(st, "incomplete", ref, fn, ev.Pos, "the message queued in %s is not a complete copy of the data: "+format, append([]any{ref}, a...)...)
		}
		switch {
		case b == st.v["ap"] && b != nil:
		case m.data != nil && baseOf(b) == m.data:
			x.report(st, "shared", ref, fn, ev.Pos, "the message queued in %s is the caller's own slice", ref)
		case b.Kind == KExpr && b.Name == "clone":
			if m.data != nil && b.A[0] != m.data {
				whole("it is a copy of %s", b.A[0])
			}
		case b.Kind == KCat:
			ps := parts(b)
			if l := ps[len(ps)-1]; m.data != nil && l != m.data {
				whole("it ends with %s", l)
			}
		case b.Kind == KSlice || isNewObj(baseOf(b)):
			if !isNewObj(baseOf(b)) {
				x.report(st, "shared", ref, fn, ev.Pos, "the message queued in %s lies in memory that this call did not make", ref)
				return
			}
			cd, cs := st.v["cd"], st.v["cs"]
			if cd == nil || baseOf(cd) != baseOf(b) {
				whole("the data is not copied into it")
				return
			}
			if !st.le(vLen(st, cs), vLen(st, cd)) {
				whole("there may be less room than there is data")
			}
			// the data ends where the message ends and starts after a header
			if !sameInt(st, vLen(st, cs), vLen(st, cd)) && !sameInt(st, vLen(st, b), vLen(st, cs)) {
				whole("the place for the data is larger than the data")
			}
			if b.Kind == KSlice && cd.Kind == KSlice && !sameInt(st, vAdd(b.A[1], vLen(st, b)), vAdd(cd.A[1], vLen(st, cs))) {
				whole("it does not end where the data ends")
			}
			if f := x.frame(st, b); f.err == "" && f.payload != nil && !sameInt(st, f.payload, vLen(st, cs)) {
				whole("the payload has %s bytes, the data %s", f.payload, vLen(st, cs))
			} else if f.err != "" && !sameInt(st, vLen(st, b), vLen(st, cs)) {
				whole("it is neither a frame nor the data alone (%s)", f.err)
			}
		default:
			if m.data != nil {
				x.report(st, "shared", ref, fn, ev.Pos, "it is not known that the message queued in %s is a copy (%s)", ref, b)
			}
		}
	})
	if n == 0 {
		x.report(st, "unknown", "", fn, ev.Pos, "the bytes of the message that is queued could not be found (%s)", v)
	}
	st.set("pub", 1)
}

func init() {
	register(&Prop{ID: "C27",
		Rule:   "Every path of the exported Broadcast methods: what is sent on the queue of a connection is an object made by the call, whose bytes are a clone of the data, or lie in a slice made by the call into which all of the data was copied so that it is exactly the payload of the frame there (or all there is); after the first send nothing stores into, copies into, masks or gives back that object or its bytes. Every path of the goroutine that takes messages from the queue: it does not change a message, and what it writes to the transport is the whole of the queued bytes, at most once per message.",
		Limits: "The header of the queued frame is C02 and C04. What a custom batch function does with its messages is the application's business.",
		Want: func(p *Program, t Target) bool {
			if t.Fn == nil {
				return false
			}
			r := recvOf(t.Fn)
			return t.Kind == "api" && strings.Contains(t.Fn.Name(), "Broadcast") && (r == "Manager" || r == "Room") || t.Kind == "go" && p.listens(t.Fn)
		},
		New: func(p *Program) Monitor { return &frozen{base: newBase(true)} },
		Min: map[string]int{"messages queued": 2, "messages taken from a queue": 1, "queued frames written": 1},
	})
}
