package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C29: the encoding of batches ----

// flushT describes the struct that says how batches are sent.
type flushT struct {
	name                             string
	typ                              types.Type
	strategy, custom, prefix, suffix int
	strats                           map[string]int64
}

func (p *Program) flushType() *flushT {
	n := p.flusherName()
	t := p.structType(n)
	if t == nil {
		return nil
	}
	f := &flushT{name: n, typ: t, strategy: -1, custom: -1, prefix: -1, suffix: -1, strats: map[string]int64{}}
	su := structUnder(t)
	for i := 0; i < su.NumFields(); i++ {
		fd := su.Field(i)
		switch nt := typeName(fd.Type()); {
		case nt == "BatchStrategy":
			f.strategy = i
		case nt == "SendFunc":
			f.custom = i
		case fd.Name() == "BatchPrefixFunc":
			f.prefix = i
		case fd.Name() == "BatchSuffixFunc":
			f.suffix = i
		}
	}
	for _, c := range []string{"StrategyJSON", "StrategyLengthPrefix", "StrategyCustom"} {
		if o, ok := p.Lib.Pkg.Scope().Lookup(c).(*types.Const); ok {
			if v, ok := constant.Int64Val(constant.ToInt(o.Val())); ok {
				f.strats[c] = v
			}
		}
	}
	if f.strategy < 0 || f.custom < 0 || f.prefix < 0 || f.suffix < 0 || len(f.strats) != 3 {
		return nil
	}
	return f
}

func typeName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// States of a JSON array: what was written last.
const (
	jStart = iota
	jOpen
	jElem
	jComma
	jSuffix
	jDone
)

type encoding struct {
	base
	p     *Program
	b     *batchT
	f     *flushT
	mode  string // drain, enable, queue
	strat string // enable: what the function must choose
}

func (m *encoding) Init(x *Exec, st *State) {
	x.keepApart()
	x.joinV = true
	x.multi = map[string]bool{"Conn": true, m.b.name: true}
	m.mode = m.p.batchMode(x.root)
	m.strat = strategyOf(x.root)
	if m.strat != "" {
		m.mode = "enable"
	}
}

func strategyOf(fn *ssa.Function) string {
	if fn == nil || recvOf(fn) != "Upgrader" {
		return ""
	}
	return map[string]string{"EnableJSONBatching": "StrategyJSON", "EnablePrefixBatching": "StrategyLengthPrefix", "EnableBatching": "StrategyCustom"}[fn.Name()]
}

func (m *encoding) field(x *Exec, st *State, owner *V, t types.Type, i int) *V {
	ft := structUnder(t).Field(i).Type()
	return x.load0(st, x.fieldAddr(owner, i, ft), ft)
}

// flusher is the flusher of the batch with the given owner.
func (m *encoding) flusher(x *Exec, st *State) *V {
	o := st.v["owner"]
	if o == nil {
		return nil
	}
	su := structUnder(m.b.typ)
	for i := 0; i < su.NumFields(); i++ {
		if t := su.Field(i).Type(); isPtr(t) && libStruct(deref(t)) == m.f.name {
			return m.field(x, st, o, m.b.typ, i)
		}
	}
	return nil
}

func (m *encoding) conn(x *Exec, st *State) *V {
	o := st.v["owner"]
	su := structUnder(m.b.typ)
	for i := 0; i < su.NumFields(); i++ {
		if t := su.Field(i).Type(); o != nil && isPtr(t) && libStruct(deref(t)) == "Conn" {
			return m.field(x, st, o, m.b.typ, i)
		}
	}
	return nil
}

// strategy known on this path: "" if several are possible, "other" for a number
// that is none of them.
func (m *encoding) strategy(x *Exec, st *State) string {
	f := m.flusher(x, st)
	if f == nil {
		return ""
	}
	v := m.field(x, st, f, m.f.typ, m.f.strategy)
	out := 0
	for n, c := range m.f.strats {
		t, ok := st.eval(vEq(v, kInt(c)))
		if ok && t {
			return n
		}
		if ok && !t {
			out++
		}
	}
	if out == len(m.f.strats) {
		return "other"
	}
	return ""
}

func (m *encoding) Call(x *Exec, st *State, fn *ssa.Function, args []*V, pos token.Pos) ([]Exit, bool) {
	if m.mode != "drain" || st.v["c"] == nil {
		return m.base.Call(x, st, fn, args, pos)
	}
	m.settle(st)
	res := fn.Signature.Results()
	fail := func() (*State, *V) {
		e := st.clone()
		err := x.freshSym(e, "encerr!"+fn.Name(), res.At(res.Len()-1).Type())
		e.assume(vEq(err, vNil), false)
		return e, err
	}
	switch recv := recvOf(fn); {
	case recv == "Conn" && fn.Name() == "NextWriter" && res.Len() == 2:
		m.ob("writers taken", x, pos)
		if st.f["w"] == 1 {
			x.report(st, "twice", "writer", x.curFn, pos, "a second writer is taken for a batch")
		}
		if c := m.conn(x, st); c != nil && args[0] != c {
			x.report(st, "conn", "", x.curFn, pos, "the batch is sent over another connection than its own")
		}
		if op := m.opcode("OpcodeBinary"); op >= 0 {
			if t, ok := st.eval(vEq(args[2], kInt(op))); !ok || !t {
				x.report(st, "type", "", x.curFn, pos, "the batch isn't sent as a binary message")
			}
		}
		e, err := fail()
		e.set("nowriter", 1)
		w := x.freshSym(st, "encw", res.At(0).Type())
		st.assume(vEq(w, vNil), false)
		st.v["w"] = w
		st.set("w", 1)
		return []Exit{{st, tuple(w, vNil)}, {e, tuple(vNil, err)}}, true
	case recv == "ConnWriter" && st.v["w"] != nil && len(args) > 0 && unwrap(args[0]) == st.v["w"]:
		switch {
		case fn.Name() == "Write" && res.Len() == 2:
			e, err := fail()
			e.set("failed", 1)
			m.write(x, st, args[1], pos)
			if st.f["failed"] == 1 {
				x.report(st, "continues", "", x.curFn, pos, "bytes are written after a write has failed")
			}
			n := x.freshSym(e, "encn", tInt)
			return []Exit{{st, tuple(vLen(st, args[1]), vNil)}, {e, tuple(n, err)}}, true
		case fn.Name() == "Close":
			m.complete(x, st, x.curFn, pos)
			st.set("closed", 1)
			e, err := fail()
			return []Exit{{st, vNil}, {e, err}}, true
		case len(args) == 2 && isErrorType(args[1].Typ) || len(fn.Params) == 2 && isErrorType(fn.Params[1].Type()):
			st.set("aborted", 1)
			if res.Len() == 1 {
				return one(st, args[1]), true
			}
			if res.Len() == 0 {
				return one(st, noVal), true
			}
		case fn.Name() == "Flush" && res.Len() == 1:
			if st.f["failed"] == 1 {
				x.report(st, "continues", "", x.curFn, pos, "bytes are written after a write has failed")
			}
			e, err := fail()
			e.set("failed", 1)
			return []Exit{{st, vNil}, {e, err}}, true
		}
	case recv == "Conn" && strings.HasPrefix(fn.Name(), "Send") && fn.Object() != nil && fn.Object().Exported():
		x.report(st, "unknown", fn.Name(), x.curFn, pos, "a batch is sent with %s, which is not followed", fn.Name())
		return x.freshResultsNoFork(st, fn.Signature, "sent"), true
	}
	return m.base.Call(x, st, fn, args, pos)
}

func (m *encoding) opcode(name string) int64 {
	if o, ok := m.p.Lib.Pkg.Scope().Lookup(name).(*types.Const); ok {
		if v, ok := constant.Int64Val(constant.ToInt(o.Val())); ok {
			return v
		}
	}
	return -1
}

// settle remembers that the path has learnt that every message was written.
func (m *encoding) settle(st *State) {
	if st.v["c"] != nil && st.f["all"] == 0 && m.done(st) {
		st.set("all", 1)
	}
}

// written: bytes that are written.
func (m *encoding) write(x *Exec, st *State, b *V, pos token.Pos) {
	fn := x.curFn
	m.ob("writes followed", x, pos)
	s := m.strategy(x, st)
	switch s {
	case "StrategyJSON", "StrategyLengthPrefix":
	default:
		x.report(st, "strategy", s, fn, pos, "a batch is encoded although the strategy %s", map[bool]string{true: "isn't settled", false: "isn't one with an encoding of the library"}[s == ""])
		return
	}
	b = unwrap(b)
	json := s == "StrategyJSON"
	switch {
	case st.v["p"] != nil && b == st.v["p"]:
		if !m.lenOK(x, st, b, json, fn, pos) {
			return
		}
		if st.f["mi"] == 1 || st.f["sdone"] == 1 || st.f["pdone"] == 1 {
			x.report(st, "order", "prefix", fn, pos, "the prefix is not the first element")
		}
		st.set("pdone", 1)
		m.element(x, st, json, fn, pos)
		return
	case st.v["s"] != nil && b == st.v["s"]:
		if !m.lenOK(x, st, b, json, fn, pos) {
			return
		}
		if !m.allDone(st) || st.f["sdone"] == 1 {
			x.report(st, "order", "suffix", fn, pos, "the suffix is not the last element")
		}
		st.set("sdone", 1)
		m.element(x, st, json, fn, pos)
		return
	}
	if e := symElem[b]; e != nil && (e.A[0] == st.v["c"]) {
		m.ob("messages written", x, pos)
		if !m.lenOK(x, st, b, json, fn, pos) {
			return
		}
		if i := e.A[1]; !sameInt(st, i, st.v["n"]) && !sameInt(st, i, vAdd(st.v["i"], kInt(1))) {
			x.report(st, "order", "message", fn, pos, "the message written is not the next one of the batch")
		}
		if st.f["sdone"] == 1 {
			x.report(st, "order", "suffix", fn, pos, "the suffix is not the last element")
		}
		if st.f["mi"] == 0 && st.f["pdone"] == 0 && !m.absent(x, st, "p") {
			x.report(st, "order", "no-prefix", fn, pos, "the messages are written without the prefix, although there may be one")
		}
		st.set("mi", 1)
		st.set("all", 0)
		st.v["i"], st.v["n"] = e.A[1], vAdd(e.A[1], kInt(1))
		m.element(x, st, json, fn, pos)
		return
	}
	if !json {
		m.length(x, st, b, fn, pos)
		return
	}
	bs, ok := m.constBytes(x, st, b)
	if !ok {
		x.report(st, "unknown", "bytes", fn, pos, "bytes are written that are neither the prefix, the suffix nor a message of the batch, nor constant (%s)", b)
		return
	}
	for _, c := range bs {
		q := st.f["q"]
		switch {
		case c == ' ' || c == '\n' || c == '\t':
			x.report(st, "format", "space", fn, pos, "the array contains white space between its elements")
		case c == '[' && q == jStart:
			st.set("q", jOpen)
		case c == ',' && q == jElem:
			st.set("q", jComma)
		case c == ']' && (q == jElem || q == jSuffix || q == jOpen):
			m.ob("arrays closed", x, pos)
			st.set("q", jDone)
		case c == ',' && q == jSuffix:
			x.report(st, "format", "comma", fn, pos, "a comma follows the last element")
		default:
			x.report(st, "format", string(rune(c)), fn, pos, "%q is written %s", string(rune(c)), []string{"before '['", "right after '['", "right after an element", "right after a comma", "after the suffix", "after ']'"}[q])
		}
	}
}

// element: the next element was written.
func (m *encoding) element(x *Exec, st *State, json bool, fn *ssa.Function, pos token.Pos) {
	if !json {
		return
	}
	q := st.f["q"]
	if q != jOpen && q != jComma {
		x.report(st, "format", "element", fn, pos, "an element is written %s", []string{"before '['", "", "right after another one, without a comma", "", "after the suffix", "after ']'"}[q])
	}
	st.set("q", jElem)
	if st.f["sdone"] == 1 {
		st.set("q", jSuffix)
	}
}

// lenOK: with length prefixes, the length written before is that of b.
func (m *encoding) lenOK(x *Exec, st *State, b *V, json bool, fn *ssa.Function, pos token.Pos) bool {
	if json {
		return true
	}
	l := st.v["len"]
	delete(st.v, "len")
	if l == nil || !sameInt(st, l, vLen(st, b)) {
		x.report(st, "length", "", fn, pos, "an element is written that its own length doesn't precede")
	}
	m.ob("lengths", x, pos)
	return true
}

func (m *encoding) length(x *Exec, st *State, b *V, fn *ssa.Function, pos token.Pos) {
	if st.v["len"] != nil {
		x.report(st, "length", "twice", fn, pos, "a length is written, but not the element it belongs to")
	}
	var v *V
	var ps []*V
	for _, p := range parts(b) {
		if p.Kind != KNil && st.rangeOf(vLen(st, p)).hi != 0 {
			ps = append(ps, p)
		}
	}
	if len(ps) == 1 && ps[0].Kind == KExpr && ps[0].Name == "be32bytes" {
		v = ps[0].A[0]
	} else if sameInt(st, vLen(st, b), kInt(4)) {
		v = x.beField(st, b, 0, 4)
	}
	if v == nil {
		x.report(st, "unknown", "bytes", fn, pos, "what is written is neither a length as a 4-byte big-endian number nor an element of the batch (%s)", b)
		return
	}
	st.v["len"] = stripConv(v)
}

// absent: the path knows that there is no prefix ("p") or suffix ("s").
func (m *encoding) absent(x *Exec, st *State, k string) bool {
	if v := st.v[k]; v != nil {
		return v.Kind == KNil || isTrue(st, vEq(v, vNil)) || st.rangeOf(vLen(st, v)).hi == 0
	}
	f := m.flusher(x, st)
	if f == nil {
		return false
	}
	i := m.f.prefix
	if k == "s" {
		i = m.f.suffix
	}
	return isTrue(st, vEq(m.field(x, st, f, m.f.typ, i), vNil))
}

func isTrue(st *State, c *V) bool {
	t, ok := st.eval(c)
	return ok && t
}

// allDone: every message of the batch was written.
func (m *encoding) allDone(st *State) bool { return st.f["all"] == 1 || m.done(st) }

func (m *encoding) done(st *State) bool {
	c := st.v["c"]
	if c == nil || st.f["mi"] == 0 {
		return c != nil && st.rangeOf(vLen(st, c)).hi == 0
	}
	return st.le(vLen(st, c), st.v["n"]) || st.le(vLen(st, c), vAdd(st.v["i"], kInt(1)))
}

func (m *encoding) complete(x *Exec, st *State, fn *ssa.Function, pos token.Pos) {
	m.ob("batches completed", x, pos)
	switch {
	case st.f["failed"] == 1:
		x.report(st, "as-complete", "", fn, pos, "a batch of which a write has failed is sent as if it were complete")
		return
	case st.f["closed"] == 1 || st.f["aborted"] == 1:
		return
	case !m.allDone(st):
		x.report(st, "incomplete", "", fn, pos, "the batch is completed although not all of its messages are known to be written")
	}
	if st.f["pdone"] == 0 && !m.absent(x, st, "p") {
		x.report(st, "incomplete", "prefix", fn, pos, "the batch is completed without the prefix, although there may be one")
	}
	if st.f["sdone"] == 0 && !m.absent(x, st, "s") {
		x.report(st, "incomplete", "suffix", fn, pos, "the batch is completed without the suffix, although there may be one")
	}
	if st.v["len"] != nil {
		x.report(st, "length", "last", fn, pos, "the batch is completed although the element of the last length is missing")
	}
	if m.strategy(x, st) == "StrategyJSON" && st.f["q"] != jDone {
		x.report(st, "format", "open", fn, pos, "the batch is completed without ']'")
	}
}

// constBytes are the bytes of a constant.
func (m *encoding) constBytes(x *Exec, st *State, b *V) ([]byte, bool) {
	if b.Kind == KSym && strings.HasPrefix(b.Name, "global:") {
		s, ok := m.p.ConstSets[strings.TrimSuffix(strings.TrimPrefix(b.Name, "global:"), "@0")]
		var out []byte
		for _, c := range s {
			out = append(out, byte(c))
		}
		return out, ok
	}
	if s, ok := stripConv(b).isStr(); ok {
		return []byte(s), len(s) < 16
	}
	n, ok := vLen(st, b).isInt()
	if !ok || n > 16 {
		return nil, false
	}
	var out []byte
	for i := int64(0); i < n; i++ {
		c, ok := x.byteAt(st, b, i).isInt()
		if !ok {
			return nil, false
		}
		out = append(out, byte(c))
	}
	return out, true
}

// over: the batch that was taken has been dealt with.
func (m *encoding) over(x *Exec, st *State, fn *ssa.Function, pos token.Pos) {
	if st.v["c"] == nil {
		return
	}
	s := m.strategy(x, st)
	switch {
	case s == "other":
	case st.f["custom"] == 1:
	case s == "StrategyCustom":
		x.report(st, "custom", "", fn, pos, "a batch isn't passed to the function of the custom strategy")
	case st.f["nowriter"] == 1 || st.f["failed"] == 1 || st.f["closed"] == 1:
	case st.f["w"] == 0:
		x.report(st, "not-sent", "", fn, pos, "a batch is neither encoded nor passed to the function of the custom strategy")
	case st.f["aborted"] == 1:
		x.report(st, "not-sent", "aborted", fn, pos, "a batch is given up although nothing failed")
	default:
		x.report(st, "not-sent", "open", fn, pos, "a batch is neither completed nor given up")
	}
	for _, k := range []string{"custom", "nowriter", "failed", "closed", "aborted", "w", "q", "pdone", "sdone", "mi", "all"} {
		st.set(k, 0)
	}
	for _, k := range []string{"c", "p", "s", "w", "i", "n", "len", "owner"} {
		delete(st.v, k)
	}
}

func (m *encoding) Event(x *Exec, st *State, ev *Event) {
	fn := x.caller(ev.Fn)
	if m.mode == "enable" {
		return
	}
	m.settle(st)
	m.event(x, st, ev, fn)
	m.settle(st)
}

func (m *encoding) event(x *Exec, st *State, ev *Event, fn *ssa.Function) {
	switch ev.Kind {
	case "store":
		s, f := fieldOf(ev.Args[0])
		if s != m.b.name || ev.Args[0].Kind != KFld || isNewObj(rootOf(ev.Args[0])) || m.b.pend < 0 {
			return
		}
		su := structUnder(m.b.typ)
		if su.Field(m.b.pend).Name() != f {
			return
		}
		owner, v := ev.Args[0].A[0], ev.Args[1]
		cur := m.field(x, st, owner, m.b.typ, m.b.pend)
		switch {
		case v.Kind == KSlice && v.A[0] == cur && v.A[1] == kInt(1) && m.mode == "drain":
			m.over(x, st, fn, ev.Pos)
			t := su.Field(m.b.msgs).Type()
			c := x.load0(st, x.elemAddr(st, cur, kInt(0), t), t)
			st.v["c"], st.v["owner"] = c, owner
			st.v["i"], st.v["n"] = kInt(-1), kInt(0)
			st.assume(expr("<", tBool, vLen(st, c), kInt(1)), false)
		case v == st.v["ar"] && v != nil:
			// a batch is queued
			msgs := m.field(x, st, owner, m.b.typ, m.b.msgs)
			m.ob("batches queued", x, ev.Pos)
			if !st.le(kInt(1), vLen(st, msgs)) {
				x.report(st, "empty", "", fn, ev.Pos, "a batch without messages can be queued")
			}
		}
	case "appended":
		st.v["ar"] = ev.Args[0]
	case "callback":
		c := st.v["c"]
		if c == nil {
			return
		}
		su := structUnder(m.f.typ)
		f := m.flusher(x, st)
		if f == nil || ev.Args[0] != m.field(x, st, f, m.f.typ, m.f.custom) && ev.Name != m.f.name+"."+su.Field(m.f.custom).Name() {
			return
		}
		m.ob("custom sends", x, ev.Pos)
		given := false
		for _, a := range ev.Args[1:] {
			given = given || a == c
		}
		switch {
		case !given:
			x.report(st, "custom", "other", fn, ev.Pos, "the function of the custom strategy is called with something else than the batch")
		case st.f["custom"] == 1:
			x.report(st, "custom", "twice", fn, ev.Pos, "the function of the custom strategy can be called twice for one batch")
		case m.strategy(x, st) != "StrategyCustom":
			x.report(st, "custom", "strategy", fn, ev.Pos, "the function of the custom strategy is called for another strategy")
		}
		st.set("custom", 1)
	case "cbret":
		su := structUnder(m.f.typ)
		if st.v["c"] == nil {
			return
		}
		switch ev.Name {
		case m.f.name + "." + su.Field(m.f.prefix).Name():
			st.v["p"] = ev.Args[0]
		case m.f.name + "." + su.Field(m.f.suffix).Name():
			st.v["s"] = ev.Args[0]
		}
	}
}

func (m *encoding) Return(x *Exec, st *State, ret *V) {
	pos := x.root.Pos()
	switch m.mode {
	case "drain":
		m.over(x, st, x.root, pos)
		m.ob("senders followed", x, pos)
	case "enable":
		m.ob("strategies chosen", x, pos, x.root.Name())
		u := m.p.structType("Upgrader")
		su := structUnder(u)
		var fl *V
		for i := 0; i < su.NumFields(); i++ {
			if t := su.Field(i).Type(); isPtr(t) && libStruct(deref(t)) == m.f.name {
				fl = m.field(x, st, x.paramValue(newState(), "arg:"+x.root.Params[0].Name(), x.root.Params[0].Type()), u, i)
			}
		}
		if fl == nil || !isNewObj(rootOf(fl)) {
			x.report(st, "strategy", "new", x.root, pos, "%s does not leave a new flusher behind", x.root.Name())
			return
		}
		if v := m.field(x, st, fl, m.f.typ, m.f.strategy); !isTrue(st, vEq(v, kInt(m.f.strats[m.strat]))) {
			x.report(st, "strategy", x.root.Name(), x.root, pos, "%s does not choose %s", x.root.Name(), m.strat)
		}
		if m.strat != "StrategyCustom" {
			return
		}
		v := m.field(x, st, fl, m.f.typ, m.f.custom)
		for _, p := range x.root.Params {
			if typeName(p.Type()) != "SendFunc" {
				continue
			}
			a := x.paramValue(newState(), "arg:"+p.Name(), p.Type())
			none := isTrue(st, vEq(a, vNil))
			if v != a && !none || v.Kind == KNil {
				x.report(st, "custom", "set", x.root, pos, "%s does not use the function it was given", x.root.Name())
			}
		}
	}
}

func init() {
	register(&Prop{ID: "C29",
		Rule:   "Typestate of every path of the goroutine that sends batches, from taking a batch to taking the next: for the JSON strategy the bytes given to the message writer are '[', the prefix and a comma if there is a prefix, the messages by increasing index with one comma between two of them, a comma and the suffix if there is one, ']'; for length prefixes every element directly follows its own length as 4 big-endian bytes. The writer is of the batch's own connection and binary; it is completed only when all of that was written and nothing failed, and after a failed write nothing is written and the message never completed. The prefix and suffix are left out only where the path knows that they are nil (or empty). With the custom strategy the batch is passed once to the function supplied. The three Enable functions install a new flusher with their strategy (and function), and no empty batch is queued.",
		Limits: "The messages are not checked to be JSON (documented). A single element of 4 GiB or more would not fit its length; batches are smaller than the largest allocation the application sets as MaxBatchSize, which is not bounded here.",
		Want: func(p *Program, t Target) bool {
			if t.Fn == nil || p.batchType() == nil || p.flushType() == nil {
				return false
			}
			if strategyOf(t.Fn) != "" {
				return t.Kind == "api"
			}
			md := p.batchMode(t.Fn)
			if t.Kind == "api" {
				return md == "accept" && t.Fn.Name() == "Batch"
			}
			return t.Kind == "go" && (md == "drain" || md == "flush" && recvOf(t.Fn) != "Conn")
		},
		New: func(p *Program) Monitor {
			return &encoding{base: newBase(true), p: p, b: p.batchType(), f: p.flushType()}
		},
		Finish: func(p *Program, r *Result) {
			if p.batchType() == nil || p.flushType() == nil {
				r.report("no-batch", "", "", "no struct was found that says how batches are sent")
			}
		},
		Min: map[string]int{"writes followed": 4, "messages written": 1, "batches completed": 1, "custom sends": 1, "arrays closed": 1, "lengths": 2, "strategies chosen": 3, "batches queued": 1},
	})
}
