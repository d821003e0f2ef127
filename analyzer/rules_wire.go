package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- frames ----

// byteAt is the byte of slice s at offset i.
func (x *Exec) byteAt(st *State, s *V, i int64) *V {
	t := types.Typ[types.Uint8]
	return x.load0(st, x.elemAddr(st, s, kInt(i), t), t)
}

// frameInfo is what is known about the bytes of a frame.
type frameInfo struct {
	ops     []int // possible opcodes
	op      *V    // the byte with the opcode
	fin     int   // 1 final, 0 not, -1 either
	hdr     int64
	payload *V     // its length
	field   string // the bytes come from this field of another object: checked where that is filled
	err     string
}

func (f *frameInfo) control() bool { return len(f.ops) > 0 && f.ops[0] >= 8 }
func (f *frameInfo) is(op int) bool {
	return len(f.ops) == 1 && f.ops[0] == op
}

// sameInt: a and b are equal numbers on this path.
func sameInt(st *State, a, b *V) bool {
	if a == b {
		return true
	}
	d := vSub(a, b)
	if d == kInt(0) {
		return true
	}
	r := st.rangeOf(d)
	if r.lo == 0 && r.hi == 0 {
		return true
	}
	t, ok := st.eval(vEq(a, b))
	return ok && t
}

// beField reads a big-endian number of w bytes written at offset off of s.
func (x *Exec) beField(st *State, s *V, off, w int64) *V {
	var val *V
	for i := int64(0); i < w; i++ {
		b := x.byteAt(st, s, off+i)
		v, sh := bytePart(b, w)
		if v == nil || sh != 8*(w-1-i) {
			return nil
		}
		if val != nil && v != val {
			return nil
		}
		val = v
	}
	return val
}

// bytePart: b is byte (x >> shift) of x.
func bytePart(b *V, w int64) (*V, int64) {
	for b.Kind == KExpr && strings.HasPrefix(b.Name, "conv:") {
		b = b.A[0]
	}
	if b.Kind == KExpr {
		var bits, i int64
		if n, _ := fmt.Sscanf(b.Name, "bebyte%d.%d", &bits, &i); n == 2 {
			return stripConv(b.A[0]), bits - 8*(i+1)
		}
		if b.Name == ">>" || strings.HasPrefix(b.Name, ">>") {
			if k, ok := b.A[1].isInt(); ok {
				return stripConv(b.A[0]), k
			}
		}
		if b.Name == "&" {
			if k, ok := b.A[1].isInt(); ok && k == 255 {
				return bytePart(b.A[0], w)
			}
		}
	}
	return stripConv(b), 0
}

func stripConv(v *V) *V {
	for v.Kind == KExpr && strings.HasPrefix(v.Name, "conv:") {
		v = v.A[0]
	}
	return v
}

// srcField: v is the content of a field of an object made elsewhere.
func (x *Exec) srcField(v *V) string {
	if v.Kind == KSlice {
		v = v.A[0]
	}
	if a, ok := symField[v]; ok {
		s, f := fieldOf(a)
		switch s {
		case "", "Conn", "ConnWriter", "ControlWriter", "ConnReader":
			return ""
		}
		return s + "." + f
	}
	return ""
}

// frame analyses the bytes s as a frame of the protocol.
func (x *Exec) frame(st *State, s *V) frameInfo {
	f := frameInfo{fin: -1}
	b0 := x.byteAt(st, s, 0)
	set := st.possible(b0, 256)
	if r := st.rangeOf(b0); set == nil && r.lo == r.hi && r.lo >= 0 && r.lo < 256 {
		set = fullSet(256).filter(func(i int) bool { return int64(i) == r.lo })
	}
	if set == nil || set.has(255) && set.has(0x70) {
		if fd := x.srcField(s); fd != "" && s.Kind != KSlice {
			f.field = fd
			return f
		}
		f.err = fmt.Sprintf("the first header byte is not known (%s)", b0)
		return f
	}
	f.op = b0
	ops := map[int]bool{}
	fin, cont := false, false
	for i := 0; i < 256; i++ {
		if set.has(i) {
			if i&0x70 != 0 {
				f.err = fmt.Sprintf("a reserved bit can be set (first byte %s)", set)
			}
			ops[i&15] = true
			if i&0x80 != 0 {
				fin = true
			} else {
				cont = true
			}
		}
	}
	for o := range ops {
		f.ops = append(f.ops, o)
		if o != 0 && o != 1 && o != 2 && o != 8 && o != 9 && o != 10 {
			f.err = fmt.Sprintf("the opcode %#x is possible", o)
		}
		if o >= 8 != (f.ops[0] >= 8) {
			f.err = fmt.Sprintf("both data and control opcodes are possible (%s)", set)
		}
	}
	sort.Ints(f.ops)
	if fin != cont {
		f.fin = 0
		if fin {
			f.fin = 1
		}
	}
	if f.err != "" {
		return f
	}
	total := vLen(st, s)
	b1 := x.byteAt(st, s, 1)
	r := st.rangeOf(b1)
	bad := func(format string, a ...any) frameInfo {
		f.err = fmt.Sprintf(format, a...)
		return f
	}
	switch {
	case r.lo == 126 && r.hi == 126, r.lo == 127 && r.hi == 127:
		w, lo, hi := int64(2), int64(126), int64(65535)
		if r.lo == 127 {
			w, lo, hi = 8, 65536, inf
		}
		f.hdr = 2 + w
		n := x.beField(st, s, 2, w)
		if n == nil {
			return bad("the %d-byte length field is not filled with one big-endian number", w)
		}
		f.payload = vSub(total, kInt(f.hdr))
		if !sameInt(st, n, f.payload) {
			return bad("the length field says %s but %s payload bytes follow", n, f.payload)
		}
		if q := st.rangeOf(n); q.lo < lo || q.hi > hi {
			return bad("the length can be in [%d, %d] where the %d-byte form is not the minimal one", q.lo, q.hi, w)
		}
	case r.hi <= 125 && r.lo >= 0:
		f.hdr = 2
		f.payload = vSub(total, kInt(2))
		if !sameInt(st, b1, f.payload) {
			return bad("the length field says %s but %s payload bytes follow", b1, f.payload)
		}
	default:
		return bad("the second header byte can be in [%d, %d] (%s): the mask bit, or a length that does not fit", r.lo, r.hi, b1)
	}
	if f.control() {
		if f.fin != 1 {
			return bad("a control frame may be fragmented")
		}
		if q := st.rangeOf(f.payload); q.hi > 125 {
			return bad("a control frame can have %d payload bytes", q.hi)
		}
	}
	return f
}

// keepApart makes the engine keep the paths through code that prepares bytes
// to be sent apart: functions without loops that only compute numbers and
// write bytes.
func (x *Exec) keepApart() {
	x.maxSplit = 12
	x.noJoin = map[*ssa.Function]bool{}
	for _, fn := range x.p.Funcs {
		if x.byteWork(fn, 0) {
			x.noJoin[fn] = true
		}
	}
}

func (x *Exec) byteWork(fn *ssa.Function, depth int) bool {
	if depth > 6 || fn.Blocks == nil || len(infoOf(fn).heads) > 0 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Select, *ssa.Send, *ssa.Go, *ssa.MapUpdate, *ssa.MakeChan, *ssa.Defer:
				return false
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					return false
				}
			case ssa.CallInstruction:
				c := in.Common()
				if _, ok := c.Value.(*ssa.Builtin); ok {
					continue
				}
				f := c.StaticCallee()
				if f == nil {
					return false
				}
				f = body(f)
				if f.Pkg != nil && (f.Pkg.Pkg.Path() == "encoding/binary" || f.Pkg.Pkg.Path() == "crypto/rand") {
					continue
				}
				if strings.HasPrefix(f.String(), "(encoding/binary.") || isMaskFn(f) {
					continue
				}
				if !x.p.isLibFn(f) || !x.byteWork(f, depth+1) {
					return false
				}
			}
		}
	}
	return true
}

// formed keeps the paths on which a queued frame has a different header apart.
func (x *Exec) formed(st *State, ev *Event) {
	if ev.Kind != "store" || len(ev.Args) < 2 || ev.Args[0].Kind != KFld {
		return
	}
	a, v := ev.Args[0], ev.Args[1]
	if !isNewObj(rootOf(a)) || v.Kind != KSlice || !isNewObj(rootOf(v.A[0])) {
		return
	}
	if sl, ok := a.Typ.Underlying().(*types.Slice); !ok || basicOf(sl.Elem()) == nil {
		return
	}
	s, f := fieldOf(a)
	st.set("fr|"+s+"."+f, int(x.frame(st, v).hdr))
}

// handshake follows the part of Upgrade in which the socket belongs to the
// handshake: from taking it over until the connection's goroutines start.
func handshake(st *State, ev *Event) bool {
	switch ev.Kind {
	case "hijack":
		if ev.Name == "ok" {
			st.set("hs", 1)
		}
	case "go":
		st.set("hs", 0)
	}
	return st.f["hs"] == 1
}

func writersWant(p *Program, t Target) bool { return lockWant(p, t) }

// ---- C01 ----

type wholeFrames struct {
	base
	roles *Roles
}

func (m *wholeFrames) Init(x *Exec, st *State) { x.keepApart() }

func (m *wholeFrames) Event(x *Exec, st *State, ev *Event) {
	hs := handshake(st, ev)
	switch ev.Kind {
	case "netwrite":
		where := x.pos(ev.Pos)
		if st.f["broken"] == 1 {
			x.report(st, "write-after-failure", "", ev.Fn, ev.Pos, "bytes are written after the write of a frame failed, possibly part-way")
		}
		if hs {
			m.ob("handshake writes", x, ev.Pos)
			return
		}
		m.ob("frame writes", x, ev.Pos, x.root.Name())
		var l []string
		for h := range heldSet(st) {
			l = append(l, h)
		}
		sort.Strings(l)
		m.fact("write|%s|%s|%s|%s", where, x.via(ev.Fn), x.root, strings.Join(l, ","))
		if f := x.frame(st, ev.Args[0]); f.err != "" {
			x.report(st, "not-a-frame", "", x.caller(ev.Fn), ev.Pos, "the bytes of one write are not exactly one frame: %s", f.err)
		}
	case "netwrite.fail":
		if !hs {
			st.set("broken", 1)
		}
	case "netclose", "Close":
		st.set("broken", 0)
	case "unlock":
		if m.roles.Wire[ev.Name] || ev.Name == m.roles.Msg {
			m.ob("releases", x, ev.Pos, ev.Name)
			if !st.isHeld(ev.Name) {
				x.report(st, "release-unheld", ev.Name, ev.Fn, ev.Pos, "%s, which another sender may hold, is released by an operation that does not hold it", ev.Name)
			} else if st.f["broken"] == 1 && m.roles.Wire[ev.Name] {
				m.fact("broken|%s|%s|%s", ev.Name, x.pos(ev.Pos), x.caller(ev.Fn))
			}
		}
	case "lock":
		if m.roles.Wire[ev.Name] && len(ev.Args) > 0 && ev.Args[0] != nil {
			if r := rootOf(ev.Args[0]); isNewObj(r) {
				x.report(st, "private-lock", ev.Name, ev.Fn, ev.Pos, "%s is a lock made by this operation, which excludes nobody", ev.Name)
			}
		}
	}
}

// via names the function that issued an event, skipping small helpers.
func (x *Exec) via(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	return fn.Name()
}

// caller is the function that called the current one, for findings in shared
// helpers.
func (x *Exec) caller(fn *ssa.Function) *ssa.Function {
	if n := len(x.stack); n >= 2 && x.stack[n-1] == fn {
		return x.stack[n-2]
	}
	return fn
}

func finishWhole(p *Program, r *Result) {
	type site struct {
		where, fn, root string
		held            map[string]bool
	}
	var sites []site
	cnt := map[string]int{}
	for f := range r.Facts {
		s := strings.Split(f, "|")
		if s[0] != "write" {
			continue
		}
		x := site{s[1], s[2], s[3], map[string]bool{}}
		for _, h := range strings.Split(s[4], ",") {
			if h != "" && !strings.HasPrefix(h, "once:") {
				x.held[h] = true
				cnt[h]++
			}
		}
		sites = append(sites, x)
	}
	sort.Slice(sites, func(i, j int) bool { return sites[i].where+sites[i].root < sites[j].where+sites[j].root })
	best := ""
	for h, n := range cnt {
		if best == "" || n > cnt[best] || n == cnt[best] && h < best {
			best = h
		}
	}
	if best == "" {
		r.report("no-lock", "", "?", "no lock is held at any write to the transport")
		return
	}
	r.ob("transport lock", best)
	seen := map[string]bool{}
	for _, s := range sites {
		if !s.held[best] && !seen[s.root] {
			seen[s.root] = true
			r.report("unlocked-write", s.root, s.where+" "+s.fn, "a frame is written without %s, under which all the others are written: it can be mixed with another frame", best)
		}
	}
	for f := range r.Facts {
		if s := strings.Split(f, "|"); s[0] == "broken" && s[1] == best {
			r.report("released-broken", s[2], s[3], "%s is released after a failed write while the socket is still open: the next sender writes behind half a frame", best)
		}
	}
	for f, bad := range p.badLockCaps() {
		r.report("lock-capacity", f, f, "the channel lock %s is made with %s: it does not exclude", f, bad)
	}
}

// badLockCaps lists channel locks whose channel does not hold exactly one token.
func (p *Program) badLockCaps() map[string]string {
	out := map[string]string{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				ref := fieldRef(s.Addr)
				if !p.LockChan[ref] {
					continue
				}
				v := s.Val
				if c, ok := v.(*ssa.ChangeType); ok {
					v = c.X
				}
				mc, ok := v.(*ssa.MakeChan)
				if !ok {
					continue
				}
				k, ok := mc.Size.(*ssa.Const)
				if !ok || k.Int64() != 1 {
					out[ref] = "a capacity that is not one"
				}
			}
		}
	}
	return out
}

// ---- C02 ----

type contiguous struct {
	base
	roles *Roles
}

func (m *contiguous) Init(x *Exec, st *State) { x.keepApart() }

// wantType is the message type the entry point promises.
func wantType(x *Exec, st *State) (*V, []int) {
	switch n := x.root.Name(); {
	case strings.Contains(n, "JSON"), strings.Contains(n, "String"):
		return nil, []int{1}
	case strings.Contains(n, "Bytes"), strings.Contains(n, "Binary"):
		return nil, []int{2}
	}
	for _, p := range x.root.Params {
		if b := basicOf(p.Type()); b != nil && b.Kind() == types.Uint8 {
			return sym("arg:"+p.Name(), p.Type()), nil
		}
	}
	return nil, nil
}

func (m *contiguous) Event(x *Exec, st *State, ev *Event) {
	hs := handshake(st, ev)
	x.formed(st, ev)
	switch ev.Kind {
	case "lock":
		if ev.Name == m.roles.Msg {
			st.set("m", 0)
			st.set("bad", 0)
		}
	case "unlock":
		if ev.Name == m.roles.Msg {
			m.ob("messages ended", x, ev.Pos, x.root.Name())
			if st.f["m"] == 1 && !x.connClosed(st) {
				x.report(st, "unfinished", "", x.caller(ev.Fn), ev.Pos, "the right to send is given up in the middle of a message while the connection stays open: the next message would continue it")
			}
		}
	case "encode.fail":
		st.set("bad", 1)
	case "netwrite":
		if hs {
			return
		}
		f := x.frame(st, ev.Args[0])
		if f.err != "" {
			x.report(st, "not-a-frame", "", x.caller(ev.Fn), ev.Pos, "what is written is not a frame: %s", f.err)
			return
		}
		if f.field == "" && f.control() {
			return
		}
		m.ob("data frames", x, ev.Pos, x.root.Name())
		if !st.isHeld(m.roles.Msg) {
			x.report(st, "outside-message", "", x.caller(ev.Fn), ev.Pos, "a data frame is written without the right to send (%s): it can land in the middle of another message", m.roles.Msg)
		}
		if f.field != "" {
			m.fact("need|%s|%s", f.field, x.pos(ev.Pos))
			if st.f["m"] != 0 {
				x.report(st, "whole-inside", "", x.caller(ev.Fn), ev.Pos, "a prepared message is written in the middle of a message")
			}
			st.set("m!", 2)
			return
		}
		if st.f["bad"] == 1 && f.fin != 0 {
			x.report(st, "failed-complete", "", x.caller(ev.Fn), ev.Pos, "the final frame is sent although encoding the message failed: the peer takes it for complete")
		}
		switch st.f["m"] {
		case 0:
			if len(f.ops) == 0 || f.ops[0] == 0 {
				x.report(st, "first-opcode", "", x.caller(ev.Fn), ev.Pos, "the first frame of a message is a continuation frame")
			}
			v, set := wantType(x, st)
			if st.v["type"] != nil {
				v, set = st.v["type"], nil
			}
			if v != nil && !sameInt(st, f.op, vAdd(v, kInt(map[bool]int64{true: 128}[f.fin == 1]))) && !sameOps(st, v, f.ops) {
				x.report(st, "first-opcode", "type", x.caller(ev.Fn), ev.Pos, "the first frame has the opcode %v, not the requested type %s", f.ops, v)
			}
			if set != nil && (len(f.ops) != 1 || f.ops[0] != set[0]) {
				x.report(st, "first-opcode", "type", x.caller(ev.Fn), ev.Pos, "the first frame has the opcode %v, %s sends type %v", f.ops, x.root.Name(), set)
			}
		case 1:
			if !f.is(0) {
				x.report(st, "later-opcode", "", x.caller(ev.Fn), ev.Pos, "a later frame of a message has the opcode %v instead of continuation", f.ops)
			}
		case 2:
			x.report(st, "after-final", "", x.caller(ev.Fn), ev.Pos, "a frame is sent after the final frame of its message")
		}
		if st.f["drv"] == 1 && f.fin != map[bool]int{true: 1, false: 0}[x.root.Name() == "Close"] {
			x.report(st, "final-bit", x.root.Name(), x.caller(ev.Fn), ev.Pos, "ConnWriter.%s sends a frame with the final bit %d (-1: either)", x.root.Name(), f.fin)
		}
		if f.fin == 0 {
			st.set("m!", 1)
		} else {
			st.set("m!", 2)
		}
	case "netwrite.ok":
		if st.f["m!"] != 0 {
			st.set("m", st.f["m!"])
			st.set("m!", 0)
		}
	case "netwrite.fail":
		st.set("m!", 0)
	case "select", "chanop":
		for _, c := range ev.Cases {
			if ev.Kind == "select" && (ev.N < 0 || ev.Cases[ev.N].Chan != c.Chan) {
				continue
			}
			if c.Dir == '>' && c.Val != nil {
				m.published(x, st, c.Val, ev)
			}
		}
	}
}

// sameOps: the opcodes possible are those possible for v.
func sameOps(st *State, v *V, ops []int) bool {
	s := st.possible(v, 256)
	if s == nil || len(ops) != 1 {
		return false
	}
	for i := 0; i < 256; i++ {
		if s.has(i) != (i == ops[0]) {
			return false
		}
	}
	return true
}

// sentObj finds the new object behind a value that is sent to another goroutine.
func sentObj(st *State, v *V) *V {
	v = unwrap(v)
	if v.Kind == KObj || v.Kind == KFld {
		return v
	}
	return nil
}

// bufFields calls f for the byte slice fields of a new object.
func (x *Exec) bufFields(st *State, o *V, f func(ref string, v *V)) {
	t := o.Typ
	if isPtr(t) {
		t = deref(t)
	}
	su := structUnder(t)
	if su == nil {
		return
	}
	for i := 0; i < su.NumFields(); i++ {
		ft := su.Field(i).Type()
		if sl, ok := ft.Underlying().(*types.Slice); ok && basicOf(sl.Elem()) != nil {
			f(libStruct(t)+"."+su.Field(i).Name(), x.load0(st, fld(o, i, ft), ft))
		}
	}
}

func (m *contiguous) published(x *Exec, st *State, v *V, ev *Event) {
	o := sentObj(st, v)
	if o == nil {
		return
	}
	x.bufFields(st, o, func(ref string, b *V) {
		f := x.frame(st, b)
		if f.err != "" {
			m.fact("bad|%s|%s|%s", ref, x.pos(ev.Pos), f.err)
			return
		}
		m.ob("prepared frames", x, ev.Pos, ref)
		m.fact("made|%s", ref)
		if f.fin != 1 || f.control() || f.ops[0] == 0 {
			m.fact("bad|%s|%s|%s", ref, x.pos(ev.Pos), "it is not a complete message in one frame")
		}
		v, set := wantType(x, st)
		if v != nil && !sameInt(st, f.op, vAdd(v, kInt(128))) && !sameOps(st, v, f.ops) || set != nil && (len(f.ops) != 1 || f.ops[0] != set[0]) {
			m.fact("bad|%s|%s|%s", ref, x.pos(ev.Pos), fmt.Sprintf("its type %v is not the one %s sends", f.ops, x.root.Name()))
		}
	})
}

func (m *contiguous) Return(x *Exec, st *State, ret *V) {
	rs := results(ret)
	if len(rs) == 0 || !isErrorType(lastResult(x.root)) {
		return
	}
	if !strings.HasPrefix(x.root.Name(), "Send") || st.f["drv"] != 0 {
		return
	}
	m.ob("sending calls", x, x.root.Pos(), x.root.Name())
	if rs[len(rs)-1].Kind == KNil {
		if st.f["m"] != 2 {
			x.report(st, "not-sent", x.root.Name(), x.root, x.root.Pos(), "%s reports success although no final frame was written", x.root.Name())
		}
	} else if st.f["m"] == 2 && st.f["m!"] == 0 {
		x.report(st, "error-but-sent", x.root.Name(), x.root, x.root.Pos(), "%s reports an error although the message was sent completely", x.root.Name())
	}
}

func lastResult(fn *ssa.Function) types.Type {
	r := fn.Signature.Results()
	if r.Len() == 0 {
		return types.Typ[types.Invalid]
	}
	return r.At(r.Len() - 1).Type()
}

// Call remembers the type a message writer was asked for.
func (m *contiguous) Call(x *Exec, st *State, fn *ssa.Function, args []*V, pos token.Pos) ([]Exit, bool) {
	if recvOf(fn) == "Conn" && fn.Name() == "NextWriter" && len(args) == 3 {
		st.v["type"] = args[2]
	}
	return m.base.Call(x, st, fn, args, pos)
}

func finishPrepared(p *Program, r *Result) {
	need := map[string]string{}
	for f := range r.Facts {
		if s := strings.Split(f, "|"); s[0] == "need" {
			need[s[1]] = s[2]
		}
	}
	for fd, where := range need {
		r.ob("fields with prepared frames", fd)
		if !r.Facts["made|"+fd] {
			r.report("unknown-frame", fd, where, "the bytes of %s are written as a frame, but nothing was found that fills it with one", fd)
		}
		for f := range r.Facts {
			if s := strings.SplitN(f, "|", 4); s[0] == "bad" && s[1] == fd {
				r.report("bad-frame", fd, s[2], "the frame queued in %s at %s is wrong: %s", fd, s[2], s[3])
			}
		}
	}
}

// ---- C03 ----

type closeLast struct {
	base
	roles *Roles
}

func (m *closeLast) Init(x *Exec, st *State) { x.keepApart() }

func (m *closeLast) Event(x *Exec, st *State, ev *Event) {
	hs := handshake(st, ev)
	switch ev.Kind {
	case "netwrite":
		if hs {
			return
		}
		m.ob("frame writes", x, ev.Pos, x.root.Name())
		if st.f["closing"] == 1 {
			x.report(st, "after-close-frame", "", x.caller(ev.Fn), ev.Pos, "a frame is written after the close frame")
		}
		f := x.frame(st, ev.Args[0])
		if f.field == "" && f.is(8) {
			st.set("closing", 1)
			m.ob("close frames", x, ev.Pos, x.root.Name())
		}
		var l []string
		for h := range heldSet(st) {
			l = append(l, h)
		}
		m.fact("write|%v|%s|%s", f.field == "" && f.is(8), x.pos(ev.Pos), strings.Join(l, ","))
	case "netwrite.fail":
	case "netclose":
		st.set("rawclosed", 1)
	case "unlock":
		if st.f["closing"] == 1 && m.roles.Wire[ev.Name] {
			m.fact("freed|%s|%s", ev.Name, x.pos(ev.Pos))
		}
	case "oncerun":
		st.set("first", 1)
	case "select":
		if ev.N < 0 {
			for _, c := range ev.Cases {
				if a, ok := symField[c.Chan]; ok {
					if s, f := fieldOf(a); s == "Conn" && x.p.SignalChan[s+"."+f] {
						st.set("sawopen", 1)
					}
				}
			}
		}
	}
}

func (m *closeLast) Return(x *Exec, st *State, ret *V) {
	switch {
	case x.p.isCloseFn(x.root):
		if st.f["first"] == 1 {
			m.ob("closing exits", x, x.root.Pos(), "first")
			if st.f["rawclosed"] == 0 {
				x.report(st, "socket-open", "", x.root, x.root.Pos(), "closing can complete without closing the socket")
			}
			if st.f["closing"] == 0 && st.f["wdlfail"] == 0 {
				m.fact("noframe")
			} else {
				m.fact("frame")
			}
		}
	case x.root.Name() == "NextWriter":
		rs := results(ret)
		if len(rs) > 0 && rs[len(rs)-1].Kind == KNil {
			m.ob("messages started", x, x.root.Pos())
			if st.f["sawopen"] == 0 {
				x.report(st, "starts-closed", "", x.root, x.root.Pos(), "NextWriter can succeed on a connection that was closed before the call: on this path nothing looked whether it is open")
			}
			if x.connClosed(st) {
				x.report(st, "starts-closed", "known", x.root, x.root.Pos(), "NextWriter succeeds on a connection that is known to be closed")
			}
		}
	}
}

func finishClose(p *Program, r *Result) {
	if !r.Facts["frame"] {
		r.report("no-close-frame", "", "CloseWithCode", "no path of closing writes a close frame")
	}
	// the transport lock is never given back after the close frame
	cnt := map[string]int{}
	n := 0
	for f := range r.Facts {
		if s := strings.Split(f, "|"); s[0] == "write" {
			n++
			for _, h := range strings.Split(s[3], ",") {
				cnt[h]++
			}
		}
	}
	kept := false
	for h, c := range cnt {
		if c != n || h == "" {
			continue
		}
		freed := ""
		for f := range r.Facts {
			if s := strings.Split(f, "|"); s[0] == "freed" && s[1] == h {
				freed = s[2]
			}
		}
		if freed == "" {
			kept = true
			r.ob("lock kept after the close frame", h)
		}
	}
	if !kept {
		r.report("not-last", "", "CloseWithCode", "no lock that every write needs is kept after the close frame was written: another frame can follow it")
	}
}

// ---- C04 ----

type headers struct{ base }

func (m *headers) Init(x *Exec, st *State) { x.keepApart() }

func (m *headers) Event(x *Exec, st *State, ev *Event) {
	hs := handshake(st, ev)
	x.formed(st, ev)
	switch ev.Kind {
	case "netwrite":
		if hs {
			return
		}
		f := x.frame(st, ev.Args[0])
		if f.err != "" {
			x.report(st, "bad-header", "", x.caller(ev.Fn), ev.Pos, "a frame with a wrong header is sent: %s", f.err)
			return
		}
		if f.field != "" {
			m.fact("need|%s|%s", f.field, x.pos(ev.Pos))
			return
		}
		m.ob("frames", x, ev.Pos, x.root.Name(), fmt.Sprint(f.ops, f.fin, f.hdr))
		m.intended(x, st, f, ev)
	case "select", "chanop":
		for _, c := range ev.Cases {
			if ev.Kind == "select" && (ev.N < 0 || ev.Cases[ev.N].Chan != c.Chan) {
				continue
			}
			if c.Dir != '>' || c.Val == nil {
				continue
			}
			if o := sentObj(st, c.Val); o != nil {
				x.bufFields(st, o, func(ref string, b *V) {
					f := x.frame(st, b)
					if f.err != "" {
						m.fact("bad|%s|%s|%s", ref, x.pos(ev.Pos), f.err)
						return
					}
					m.ob("frames", x, ev.Pos, x.root.Name(), fmt.Sprint(f.ops, f.fin, f.hdr))
					m.fact("made|%s", ref)
				})
			}
		}
	}
}

// intended: control frames sent by the entry points whose purpose they are.
func (m *headers) intended(x *Exec, st *State, f frameInfo, ev *Event) {
	if !f.control() {
		return
	}
	want := -1
	switch {
	case x.p.isCloseFn(x.root) || x.root.Name() == "Close" && recvOf(x.root) == "Conn":
		want = 8
	case x.root.Name() == "Ping":
		want = 9
	case strings.HasPrefix(x.root.Name(), "Next") || strings.HasPrefix(x.root.Name(), "Read"):
		want = 10
	}
	if want >= 0 && !f.is(want) {
		x.report(st, "wrong-opcode", fmt.Sprint(want), x.caller(ev.Fn), ev.Pos, "%s sends a control frame with the opcode %v", x.root.Name(), f.ops)
	}
}

// ---- C05 ----

type deadlines struct {
	base
	roles *Roles
}

// fromNow: v is the time that lies the option opt after a call of time.Now.
func fromNow(v *V, opt string) (now *V) {
	if v.Kind != KExpr || v.Name != "time.Add" || len(v.A) != 2 {
		return nil
	}
	if v.A[0].Kind != KSym || !strings.HasPrefix(v.A[0].Name, "now:") {
		return nil
	}
	if a, ok := symField[v.A[1]]; ok {
		if _, f := fieldOf(a); f == opt {
			return v.A[0]
		}
	}
	return nil
}

func (m *deadlines) Event(x *Exec, st *State, ev *Event) {
	hs := handshake(st, ev)
	switch ev.Kind {
	case "hijack":
		st.set("wdl", 0)
	case "lock", "unlock":
		if m.roles.Wire[ev.Name] {
			st.set("wdl", 0)
			delete(st.v, "now")
		}
	case "now":
		st.v["now"] = ev.Args[0]
	case "setwdl.ok", "setdl.ok":
		st.set("wdl", 0)
		st.set("dlfail", 0)
		n := fromNow(ev.Args[0], "WriteWait")
		m.ob("write deadlines", x, ev.Pos, x.root.Name())
		if n != nil && st.v["now"] != nil && (n == st.v["now"]) {
			st.set("wdl", 1)
		} else if n != nil {
			st.set("wdl", 2) // taken before the lock
		}
		if ev.Kind == "setdl.ok" {
			st.set("rdl", 0)
		}
	case "setwdl.fail", "setdl.fail":
		st.set("wdl", 0)
		st.set("dlfail", 1)
	case "setrdl.ok":
		m.ob("read deadlines", x, ev.Pos, x.root.Name())
		st.set("dlfail", 0)
		if fromNow(ev.Args[0], "ReadWait") != nil {
			st.set("rdl", 1)
		} else {
			st.set("rdl", 0)
			if !hs {
				x.report(st, "read-deadline", "", ev.Fn, ev.Pos, "the read deadline is set to something other than now plus the read timeout")
			}
		}
	case "setrdl.fail":
		st.set("dlfail", 1)
	case "netwrite":
		m.ob("writes", x, ev.Pos, x.root.Name())
		switch st.f["wdl"] {
		case 0:
			x.report(st, "no-write-deadline", "", x.caller(ev.Fn), ev.Pos, "a write to the peer is reached without a write deadline of now plus the write timeout set since the sender obtained the transport")
		case 2:
			x.report(st, "stale-deadline", "", x.caller(ev.Fn), ev.Pos, "the write deadline was computed before the sender obtained the transport")
		}
	case "Close", "netclose":
		st.set("dlfail", 0)
	case "peek", "bufread", "discard", "readbyte", "readfull", "netread":
		if x.root.Name() == "NextReader" || strings.HasPrefix(x.root.Name(), "Read") && recvOf(x.root) == "Conn" {
			m.ob("waits for input", x, ev.Pos, x.root.Name())
			if st.f["rdl"] == 0 {
				x.report(st, "no-read-deadline", "", x.caller(ev.Fn), ev.Pos, "the operation waits for input without having set the read deadline")
			}
		}
		if st.f["dlfail"] == 1 {
			x.report(st, "deadline-ignored", "read", x.caller(ev.Fn), ev.Pos, "the operation goes on after a deadline could not be set")
		}
	}
}

func (m *deadlines) Return(x *Exec, st *State, ret *V) {
	if st.f["dlfail"] == 1 && !x.connClosed(st) {
		x.report(st, "deadline-ignored", x.root.Name(), x.root, x.root.Pos(), "%s can return with the connection open although a deadline could not be set", x.root.Name())
	}
}

func init() {
	register(&Prop{ID: "C01",
		Rule:   "At every write to the transport, on every path of every entry point: one common lock is held exclusively; the bytes written are one whole frame by its header (linear relations between header bytes and slice bounds); after a failed write the socket is closed before the lock is released. The lock's channel holds one token, is shared, and is only released by its holder.",
		Limits: "writes of applications to the socket returned by NetConn.",
		Want:   writersWant,
		New:    func(p *Program) Monitor { return &wholeFrames{newBase(true), p.roles()} },
		Finish: finishWhole,
		Min:    map[string]int{"frame writes": 8, "transport lock": 1, "handshake writes": 1},
	})
	register(&Prop{ID: "C02",
		Rule:   "Typestate of the outgoing message on every path: every data frame is written under the right to send; the first has the requested type, later ones are continuations, the final bit is set exactly by closing the writer; the right is given back only between messages or with the connection closed; prepared frames are complete messages.",
		Limits: "which bytes of the payload go into which frame.",
		Want:   writersWant,
		New:    func(p *Program) Monitor { return &contiguous{newBase(true), p.roles()} },
		Finish: finishPrepared,
		Min:    map[string]int{"data frames": 5, "messages ended": 3, "prepared frames": 1, "sending calls": 4},
	})
	register(&Prop{ID: "C03",
		Rule:   "On every path of every entry point: nothing is written after a close frame; a lock needed for every write is kept from the close frame on; the first closer reaches its end only with the socket closed; a message writer is only handed out after looking whether the connection is open.",
		Limits: "the close frame itself may fail to be sent.",
		Want:   writersWant,
		New:    func(p *Program) Monitor { return &closeLast{newBase(true), p.roles()} },
		Finish: finishClose,
		Min:    map[string]int{"frame writes": 8, "close frames": 1, "closing exits": 1, "messages started": 1, "lock kept after the close frame": 1},
	})
	register(&Prop{ID: "C04",
		Rule:   "Value analysis of the header bytes at every write and at every queued frame: reserved bits and mask bit zero, known opcode, final bit, length in the minimal form and, as a linear expression, equal to the bytes that follow.",
		Limits: "the content of the payload.",
		Want:   writersWant,
		New:    func(p *Program) Monitor { return &headers{newBase(true)} },
		Finish: finishPrepared,
		Min:    map[string]int{"frames": 12, "fields with prepared frames": 1},
	})
	register(&Prop{ID: "C05",
		Rule:   "Typestate of the deadlines on every path: every write is preceded, since the sender obtained the transport, by a successful SetWriteDeadline(now+WriteWait) with now read after that; the reading calls set the read deadline before waiting; a failed set ends in closing.",
		Limits: "whether the operating system honours deadlines.",
		Want:   writersWant,
		New:    func(p *Program) Monitor { return &deadlines{newBase(true), p.roles()} },
		Min:    map[string]int{"writes": 8, "write deadlines": 4, "read deadlines": 1, "waits for input": 3},
	})
}
