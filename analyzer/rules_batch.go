package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C28: batches ----

// batchT describes the struct in which the messages of a connection wait.
type batchT struct {
	name                      string
	typ                       types.Type
	msgs, pend, sending, size int
}

func depthOfBytes(t types.Type) int {
	n := 0
	for {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			if n > 0 && isByteT(t) {
				return n
			}
			return 0
		}
		n++
		t = s.Elem()
	}
}

func (p *Program) batchType() *batchT {
	for _, n := range p.Lib.Pkg.Scope().Names() {
		tn, ok := p.Lib.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		su, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		b := &batchT{name: n, typ: tn.Type(), msgs: -1, pend: -1, sending: -1, size: -1}
		conn := false
		for i := 0; i < su.NumFields(); i++ {
			t := su.Field(i).Type()
			switch {
			case depthOfBytes(t) == 2:
				b.msgs = i
			case depthOfBytes(t) == 3:
				b.pend = i
			case isBoolT(t):
				b.sending = i
			case basicOf(t) != nil && basicOf(t).Info()&types.IsInteger != 0:
				b.size = i
			case isPtr(t) && libStruct(deref(t)) == "Conn":
				conn = true
			}
		}
		if conn && b.msgs >= 0 {
			return b
		}
	}
	return nil
}

type batching struct {
	base
	p     *Program
	b     *batchT
	mode  string // accept, drain, flush
	waits bool   // the root waits for the flusher to be closed
	data  *V
}

func (m *batching) Init(x *Exec, st *State) {
	x.keepApart()
	x.joinV = true
	x.multi = map[string]bool{"Conn": true, m.b.name: true}
	m.mode = m.p.batchMode(x.root)
	if m.mode == "" {
		m.mode = "flush"
	}
	m.waits = hasBlockingSelect(x.root)
	if m.mode == "flush" && !m.waits {
		st.set("closing", 1)
	}
	m.data = nil
	if m.mode == "accept" {
		for _, p := range x.root.Params {
			if s, ok := p.Type().Underlying().(*types.Slice); ok && isByteT(s.Elem()) {
				m.data = x.paramValue(newState(), "arg:"+p.Name(), p.Type())
			}
		}
	}
}

func hasBlockingSelect(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Select); ok && s.Blocking {
				return true
			}
		}
	}
	return false
}

// batchMode: what a function does with batches.
func (p *Program) batchMode(fn *ssa.Function) string {
	b := p.batchType()
	if b == nil || fn == nil {
		return ""
	}
	if k := fn.String() + "|mode"; p.modes[k] != "" {
		return strings.TrimPrefix(p.modes[k], "=")
	}
	pops, stores := false, false
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function, d int)
	visit = func(f *ssa.Function, d int) {
		if f == nil || seen[f] || d > 6 || p.isCloseFn(f) {
			return
		}
		seen[f] = true
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok && libStruct(deref(fa.X.Type())) == b.name {
						if _, ok := fa.X.(*ssa.Alloc); ok {
							continue
						}
						if fa.Field == b.msgs {
							stores = true
						}
						if fa.Field == b.pend {
							if _, ok := in.Val.(*ssa.Slice); ok {
								pops = true
							}
						}
					}
				case *ssa.Call:
					visit(in.Call.StaticCallee(), d+1)
				case *ssa.Defer:
					visit(in.Call.StaticCallee(), d+1)
				}
			}
		}
	}
	visit(fn, 0)
	r := "="
	switch {
	case pops:
		r = "=drain"
	case stores && recvOf(fn) == "Conn" && fn.Object() != nil && fn.Object().Exported():
		r = "=accept"
	case stores:
		r = "=flush"
	}
	if p.modes == nil {
		p.modes = map[string]string{}
	}
	p.modes[fn.String()+"|mode"] = r
	return r[1:]
}

// flusherName is the type of what flushes the batches.
func (p *Program) flusherName() string {
	b := p.batchType()
	if b == nil {
		return "?"
	}
	su := structUnder(b.typ)
	for i := 0; i < su.NumFields(); i++ {
		if t := su.Field(i).Type(); isPtr(t) {
			if n := libStruct(deref(t)); n != "" && n != "Conn" {
				return n
			}
		}
	}
	return "?"
}

func (m *batching) cur(x *Exec, st *State, owner *V, i int) *V {
	ft := structUnder(m.b.typ).Field(i).Type()
	return x.load0(st, fld(owner, i, ft), ft)
}

func (m *batching) locked(st *State) bool { return st.lockedStruct("W", m.b.name) }

func (m *batching) has(st *State, src, v *V) bool {
	if src == nil || v == nil {
		return false
	}
	hit := false
	for _, p := range parts(src) {
		if p == v {
			return true
		}
		if p.Kind == KSlice {
			for k, w := range st.heap {
				if k.Kind == KElem && k.A[0] == p.A[0] && w == v {
					return true
				}
			}
		}
	}
	walkV(src, func(y *V) { hit = hit || y == v })
	return hit
}

func (m *batching) empty(st *State, v *V) bool {
	return v.Kind == KNil || st.rangeOf(vLen(st, v)).hi == 0 || st.le(vLen(st, v), kInt(0))
}

func (m *batching) Call(x *Exec, st *State, fn *ssa.Function, args []*V, pos token.Pos) ([]Exit, bool) {
	c := st.v["c"]
	if c == nil || m.mode != "drain" {
		return m.base.Call(x, st, fn, args, pos)
	}
	for _, a := range args {
		if a == c {
			m.hand(x, st, x.curFn, pos)
			res := fn.Signature.Results()
			switch {
			case res.Len() == 0:
				return one(st, noVal), true
			case res.Len() == 1:
				return one(st, x.freshSym(st, "handed", res.At(0).Type())), true
			}
		}
	}
	return m.base.Call(x, st, fn, args, pos)
}

func (m *batching) hand(x *Exec, st *State, fn *ssa.Function, pos token.Pos) {
	m.ob("batches handed over", x, pos)
	if m.locked(st) {
		x.report(st, "held", "", fn, pos, "a batch is sent while its lock is held")
	}
	if st.f["handed"] == 1 {
		x.report(st, "duplicated", "handed", fn, pos, "a batch can be sent twice")
	}
	st.set("handed", 1)
}

func (m *batching) lost(x *Exec, st *State, fn *ssa.Function, pos token.Pos) {
	if st.f["taken"] == 1 && st.f["handed"] == 0 {
		x.report(st, "lost", "taken", fn, pos, "a batch that was taken from the queue can remain unsent")
	}
}

func (m *batching) Event(x *Exec, st *State, ev *Event) {
	fn := x.caller(ev.Fn)
	switch ev.Kind {
	case "load":
		if s, f := fieldOf(ev.Args[0]); s == m.b.name && !isNewObj(rootOf(ev.Args[0])) && !m.locked(st) && m.guarded(f) {
			x.report(st, "unguarded", f, fn, ev.Pos, "%s.%s is read without the lock", s, f)
		}
	case "store":
		m.store(x, st, ev, fn)
	case "appended":
		st.v["ar"], st.v["ad"], st.v["as"] = ev.Args[0], ev.Args[1], ev.Args[2]
	case "select":
		if ev.N == -1 && m.locked(st) {
			for _, c := range ev.Cases {
				m.sawOpen(x, st, c)
			}
		}
		if ev.N == -1 && m.locked(st) && len(ev.Cases) == 0 {
			st.set("open", 1)
		}
	case "assume":
		// IsClosed and the like are followed into their selects
	case "recv":
		c := ev.Args[0]
		if a, ok := symField[c]; ok {
			if s, _ := fieldOf(a); s != "Conn" && x.p.SignalChan[refName(a)] && m.mode == "flush" {
				st.set("closing", 1)
			}
		}
		if strings.HasPrefix(c.String(), "ctx.Done") {
			st.set("ctx", 1)
		}
	case "unlock":
		m.unlock(x, st, ev, fn)
	case "go":
		f := goFn(ev)
		if f == nil {
			return
		}
		for _, a := range ev.Args[1:] {
			if a == st.v["c"] && a != nil {
				x.report(st, "reordered", "", fn, ev.Pos, "a batch is sent by its own goroutine: it can overtake the one before it")
				st.set("handed", 1)
			}
		}
		switch m.p.batchMode(f) {
		case "drain":
			m.ob("senders started", x, ev.Pos)
			if !m.locked(st) || st.f["claim"] == 0 {
				o := m.owner(st)
				known := false
				if o != nil && m.b.sending >= 0 && m.locked(st) {
					t, ok := st.eval(m.cur(x, st, o, m.b.sending))
					known = ok && !t
				}
				if !known {
					x.report(st, "two-senders", "", fn, ev.Pos, "a goroutine that sends batches is started although another one can be at work")
				}
			}
			st.set("started", 1)
		case "flush":
			if st.f["closing"] == 1 {
				st.set("all", 1)
			}
		}
	case "callback":
		for _, a := range ev.Args[1:] {
			if a == st.v["c"] && a != nil && m.mode == "drain" {
				m.hand(x, st, fn, ev.Pos)
			}
		}
	case "maprange", "rangenext", "rangeend":
		if m.mode != "flush" || !m.connSet(st, ev.Args[0]) {
			return
		}
		if st.f["pend"] == 1 {
			x.report(st, "unflushed", "", fn, ev.Pos, "a connection can be passed over when all batches are flushed")
		}
		st.set("pend", 0)
		switch ev.Kind {
		case "rangenext":
			m.ob("connections flushed", x, ev.Pos)
			st.set("pend", 1)
			st.v["k"] = ev.Args[1]
		case "rangeend":
			st.set("all", 1)
		}
	case "mapclone":
		if m.connSet(st, ev.Args[0]) {
			st.v["clone"] = ev.Args[1]
		}
	}
}

// connSet: a map with the connections of a flusher.
func (m *batching) connSet(st *State, v *V) bool {
	if v == st.v["clone"] && v != nil {
		return true
	}
	r := fieldRefOf(v)
	if v.Typ == nil || r == "" || strings.HasPrefix(r, "Room.") {
		return false
	}
	t, ok := v.Typ.Underlying().(*types.Map)
	return ok && isPtr(t.Key()) && libStruct(deref(t.Key())) == "Conn"
}

func (m *batching) sawOpen(x *Exec, st *State, c SelCase) {
	if a, ok := symField[c.Chan]; ok && c.Dir == '<' {
		if s, _ := fieldOf(a); s != "Conn" && x.p.SignalChan[refName(a)] {
			st.set("open", 1)
		}
	}
}

func (m *batching) guarded(f string) bool {
	su := structUnder(m.b.typ)
	for _, i := range []int{m.b.msgs, m.b.pend, m.b.sending, m.b.size} {
		if i >= 0 && su.Field(i).Name() == f {
			return true
		}
	}
	return false
}

// owner is the batch whose lock is held.
func (m *batching) owner(st *State) *V {
	for _, h := range st.held {
		if h.Obj != nil && h.Obj.Kind == KFld {
			if s, _ := fieldOf(h.Obj); s == m.b.name {
				return h.Obj.A[0]
			}
		}
	}
	return nil
}

func (m *batching) store(x *Exec, st *State, ev *Event, fn *ssa.Function) {
	a, v := ev.Args[0], ev.Args[1]
	s, f := fieldOf(a)
	if s != m.b.name || a.Kind != KFld || isNewObj(rootOf(a)) || !m.guarded(f) {
		return
	}
	m.fact("store|%s", x.fullPos(ev.Pos))
	owner := a.A[0]
	su := structUnder(m.b.typ)
	is := func(i int) bool { return i >= 0 && su.Field(i).Name() == f }
	if !m.locked(st) {
		x.report(st, "unguarded", f, fn, ev.Pos, "%s.%s is changed without the lock", s, f)
	}
	var cur *V
	for i := 0; i < su.NumFields(); i++ {
		if su.Field(i).Name() == f {
			cur = m.cur(x, st, owner, i)
		}
	}
	switch {
	case is(m.b.msgs):
		switch {
		case v == st.v["ar"] && st.v["ad"] == cur:
			m.ob("messages accepted", x, ev.Pos)
			if st.f["acc"] == 1 {
				x.report(st, "duplicated", "accepted", fn, ev.Pos, "a message can be put in the batch twice")
			}
			if m.data != nil && !m.has(st, st.v["as"], m.data) {
				x.report(st, "lost", "other", fn, ev.Pos, "what is put in the batch is not the message")
			}
			if st.f["moved"] == 1 {
				x.report(st, "duplicated", "moved", fn, ev.Pos, "a message is added to a batch that was queued already")
			}
			if !m.closedSeen(st) {
				x.report(st, "after-close", "", fn, ev.Pos, "a message is accepted without it being settled, in the same section, that the flusher is open: the final flush can be over")
			}
			if m.b.size >= 0 {
				m.fits(x, st, ev, fn, owner, cur)
			}
			st.set("acc", 1)
			if st.f["grown"] == 0 {
				st.set("added", 1)
			}
		case m.empty(st, v):
			if st.f["moved"] == 0 && !m.empty(st, cur) {
				x.report(st, "lost", "reset", fn, ev.Pos, "the pending messages can be dropped")
			}
			if v.Kind == KSlice && (baseOf(v) == baseOf(cur)) {
				x.report(st, "duplicated", "memory", fn, ev.Pos, "the memory of a batch that was queued is used for the next one")
			}
			st.set("moved", 0)
			st.set("reset", 1)
			if m.b.size >= 0 {
				st.set("resize", 1)
			}
		default:
			x.report(st, "reordered", "messages", fn, ev.Pos, "the pending messages are changed other than by adding one at the end or taking all (%s)", v)
		}
	case is(m.b.pend):
		switch {
		case v == st.v["ar"] && st.v["ad"] == cur:
			msgs := m.cur(x, st, owner, m.b.msgs)
			m.ob("batches queued", x, ev.Pos)
			if !m.has(st, st.v["as"], msgs) {
				x.report(st, "lost", "queued", fn, ev.Pos, "what is queued is not the batch of pending messages")
			}
			if st.f["moved"] == 1 {
				x.report(st, "duplicated", "queued", fn, ev.Pos, "a batch can be queued twice")
			}
			st.set("moved", 1)
			st.set("queued", 1)
		case v.Kind == KSlice && v.A[0] == cur && v.A[1] == kInt(1) && sameInt(st, v.A[2], vLen(st, cur)):
			m.ob("batches taken", x, ev.Pos)
			m.lost(x, st, fn, ev.Pos)
			if st.f["ended"] == 1 {
				x.report(st, "two-senders", "ended", fn, ev.Pos, "a batch is taken after the sender declared that it has ended")
			}
			t := su.Field(m.b.msgs).Type()
			st.v["c"] = x.load0(st, x.elemAddr(st, cur, kInt(0), t), t)
			st.set("taken", 1)
			st.set("handed", 0)
		case m.empty(st, v) && m.empty(st, cur):
		default:
			x.report(st, "reordered", "queue", fn, ev.Pos, "the queue of batches is changed other than by adding one at the end or taking the first (%s)", v)
		}
	case is(m.b.sending):
		t, ok := st.eval(v)
		if !ok {
			x.report(st, "two-senders", "mark", fn, ev.Pos, "the mark of the sender is set to an unknown value")
			return
		}
		if t {
			if w, ok := st.eval(cur); ok && !w {
				st.set("claim", 1)
			}
		} else {
			if m.mode != "drain" {
				x.report(st, "two-senders", "mark", fn, ev.Pos, "the mark of the sender is taken away by another function")
			}
			if m.b.pend >= 0 && !m.empty(st, m.cur(x, st, owner, m.b.pend)) {
				x.report(st, "lost", "ended", fn, ev.Pos, "the sender can end while batches wait")
			}
			m.lost(x, st, fn, ev.Pos)
			st.set("ended", 1)
		}
	case is(m.b.size):
		switch {
		case v == kInt(0):
			st.set("resize", 0)
			st.set("rezero", 1)
		case m.data != nil && sameInt(st, v, vAdd(cur, vLen(st, m.data))), m.data == nil:
			st.set("added", 0)
			st.set("grown", 1)
		default:
			x.report(st, "size", "sum", fn, ev.Pos, "the size of the batch is set to something else than its messages' (%s)", v)
		}
	}
}

func (m *batching) closedSeen(st *State) bool { return st.f["open"] == 1 }

// fits: the message is added to an empty batch, or to one that stays within the maximum.
func (m *batching) fits(x *Exec, st *State, ev *Event, fn *ssa.Function, owner, msgs *V) {
	if m.empty(st, msgs) {
		return
	}
	size := m.cur(x, st, owner, m.b.size)
	max := (&inParse{}).option(x, st, "MaxBatchSize")
	if max == nil || m.data == nil {
		return
	}
	if st.f["grown"] == 0 {
		size = vAdd(size, vLen(st, m.data))
	}
	if !st.le(size, max) {
		x.report(st, "size", "max", fn, ev.Pos, "a message is added although the batch can exceed the maximum")
	}
}

func (m *batching) unlock(x *Exec, st *State, ev *Event, fn *ssa.Function) {
	o := m.owner(st)
	if o == nil || !strings.HasPrefix(ev.Name, m.b.name) {
		return
	}
	if st.f["moved"] == 1 {
		x.report(st, "duplicated", "kept", fn, ev.Pos, "messages that were queued stay in the pending batch")
	}
	sending := false
	if m.b.sending >= 0 {
		t, ok := st.eval(m.cur(x, st, o, m.b.sending))
		sending = ok && t
	}
	if st.f["queued"] == 1 && st.f["started"] == 0 && !sending {
		x.report(st, "lost", "no-sender", fn, ev.Pos, "a batch is queued but nobody sends it")
	}
	if st.f["started"] == 1 && !sending {
		x.report(st, "two-senders", "unmarked", fn, ev.Pos, "a sender is started without being marked: a second one can be started")
	}
	if st.f["claim"] == 1 && st.f["started"] == 0 {
		x.report(st, "lost", "claimed", fn, ev.Pos, "a sender is marked but not started")
	}
	if m.b.size >= 0 && (st.f["added"] == 1) {
		x.report(st, "size", "not-added", fn, ev.Pos, "the size of the batch does not count a message that was added")
	}
	if m.b.size >= 0 && st.f["resize"] == 1 && st.f["rezero"] == 0 {
		x.report(st, "size", "not-reset", fn, ev.Pos, "the size of the batch is not reset with it")
	}
	if st.f["pend"] == 1 && (o == st.v["k"] || of(o, st.v["k"])) && m.empty(st, m.cur(x, st, o, m.b.msgs)) {
		st.set("pend", 0)
	}
	m.ob("sections", x, ev.Pos, x.root.Name())
	for _, k := range []string{"moved", "queued", "started", "claim", "open", "added", "resize", "rezero", "reset", "grown"} {
		st.set(k, 0)
	}
}

func (m *batching) Return(x *Exec, st *State, ret *V) {
	pos := x.root.Pos()
	switch m.mode {
	case "accept":
		e := lastErr(x, ret)
		if e == nil {
			return
		}
		m.ob("calls that add a message", x, pos, x.root.Name())
		if e.Kind == KNil && st.f["acc"] == 0 {
			x.report(st, "lost", "refused", x.root, pos, "%s reports success although the message was not put in the batch", x.root.Name())
		}
		if e.Kind != KNil && st.f["acc"] == 1 {
			x.report(st, "refused", "", x.root, pos, "%s reports an error although the message was accepted", x.root.Name())
		}
	case "drain":
		m.ob("senders ended", x, pos)
		m.lost(x, st, x.root, pos)
		if st.f["ended"] == 0 {
			x.report(st, "lost", "sender", x.root, pos, "the sender can end without taking its mark away: nothing is sent any more")
		}
	case "flush":
		if st.f["closing"] == 0 {
			if st.f["ctx"] == 0 {
				x.report(st, "final", "early", x.root, pos, "the flusher can end although neither it was closed nor its context ended")
			}
			return
		}
		m.ob("full flushes", x, pos, x.root.Name())
		if st.f["ctx"] == 0 && (st.f["all"] == 0 || st.f["pend"] == 1) {
			x.report(st, "final", "", x.root, pos, "%s can end without having flushed every connection's batch", x.root.Name())
		}
	}
}

func finishBatch(p *Program, r *Result) {
	b := p.batchType()
	if b == nil {
		r.report("no-batch", "", "", "no struct was found in which the messages of a connection wait")
		return
	}
	su := structUnder(b.typ)
	for _, fn := range p.Funcs {
		if fn.Pkg == nil || !isLibPkg(fn.Pkg.Pkg) {
			continue
		}
		for _, bl := range fn.Blocks {
			for _, in := range bl.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || libStruct(deref(fa.X.Type())) != b.name || isNewAlloc(fa.X) {
					continue
				}
				g := fa.Field == b.msgs || fa.Field == b.pend || fa.Field == b.sending || fa.Field == b.size
				if !g {
					continue
				}
				r.ob("assignments to a batch", su.Field(fa.Field).Name()+" in "+fn.Name())
				if q := p.SSA.Fset.Position(s.Pos()); !r.Facts["store|"+q.Filename+":"+strconv.Itoa(q.Line)] {
					r.report("unknown-store", fn.Name()+" "+su.Field(fa.Field).Name(), p.pos(s.Pos()), "%s changes %s.%s where it was not followed", fn.Name(), b.name, su.Field(fa.Field).Name())
				}
			}
		}
	}
}

func isNewAlloc(v ssa.Value) bool {
	_, ok := v.(*ssa.Alloc)
	return ok
}

func init() {
	register(&Prop{ID: "C28",
		Rule:   "Every path of Batch, BatchJSON, of the goroutine that sends batches and of the flusher's goroutines: the pending messages, the queue of batches, the size and the sender's mark are touched only under the batch's lock; the pending messages change only by adding the message at the end, in a section that saw the flusher open and only if the batch was empty or stays within the maximum, or by being replaced with new memory after the whole of them was put at the end of the queue; a queued batch is left, at the end of the section, to a sender that is marked and (if it was not before) started; the sender takes the first of the queue, hands it over exactly once, outside the lock and not to another goroutine, before it takes the next, and takes its mark away only when, in the same section, the queue is empty; after the flusher is closed its goroutine enumerates all connections and flushes each. No other assignment to that state exists.",
		Limits: "That what is handed over is encoded completely and in order is C29. A flusher whose context has ended flushes no more; the property speaks of closing.",
		Want: func(p *Program, t Target) bool {
			if t.Fn == nil {
				return false
			}
			md := p.batchMode(t.Fn)
			if t.Kind == "api" {
				return md == "accept" && strings.HasPrefix(t.Fn.Name(), "Batch")
			}
			return t.Kind == "go" && (recvOf(t.Fn) == p.flusherName() || md == "drain" || md == "flush" && recvOf(t.Fn) != "Conn")
		},
		New:    func(p *Program) Monitor { return &batching{base: newBase(true), p: p, b: p.batchType()} },
		Finish: finishBatch,
		Min:    map[string]int{"messages accepted": 1, "calls that add a message": 1, "senders ended": 1, "full flushes": 1, "assignments to a batch": 2},
	})
}
