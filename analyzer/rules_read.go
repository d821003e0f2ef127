package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
)

// ---- what the peer sends ----
//
// One automaton follows the bytes the library takes from the transport and
// divides them into frames the way the protocol does. Several properties are
// rules over it.

var dbgRead = os.Getenv("WSD") != ""

type inParse struct {
	base
	id    string
	roles *Roles
}

func (m *inParse) Init(x *Exec, st *State) {
	x.keepApart()
	x.joinV = true
}

// done: the current frame needs no more attention.
func (m *inParse) done(st *State) {
	for _, k := range []string{"h0", "h1", "ext", "k0", "k1", "k2", "k3", "pend", "finx", "pk", "pkn", "pingdata", "pinglen", "cnext"} {
		delete(st.v, k)
	}
	for _, k := range []string{"ext", "um", "ping", "match", "seq", "hook", "bad", "kind"} {
		st.set(k, 0)
	}
	st.v["left"] = kInt(0)
	st.set("acc", 1)
	st.set("hd", 1)
	st.set("hb", 2)
}

func (m *inParse) is(ids string) bool { return strings.Contains(ids, m.id) }

// rep reports a violation of the given properties.
func (m *inParse) rep(ids string, x *Exec, st *State, rule, detail string, ev *Event, format string, a ...any) {
	for _, id := range strings.Fields(ids) {
		if id == m.id {
			if dbgRead {
				fmt.Fprintln(os.Stderr, "REP", rule, detail, st.f, ev.Fn.Name())
				for k, v := range st.v {
					fmt.Fprintln(os.Stderr, "   V", k, v)
				}
				for k, v := range st.sets {
					fmt.Fprintln(os.Stderr, "   S", k, v)
				}
				for k, v := range st.rng {
					fmt.Fprintln(os.Stderr, "   R", k, v)
				}
				for k, v := range st.facts {
					fmt.Fprintln(os.Stderr, "   F", k, v)
				}
			}
			x.report(st, rule, detail, ev.Fn, ev.Pos, format, a...)
		}
	}
}

var byteT = types.Typ[types.Uint8]

// and8 is v & k, as the interpreter writes it.
func and8(v *V, k int64) *V {
	a, b := v, kInt(k)
	if a.ID > b.ID {
		a, b = b, a
	}
	return expr("&:"+byteT.String(), byteT, a, b)
}

// over evaluates a function of one byte over all its possible values.
func (st *State) over(b *V, f func(int) bool) (some, all bool) {
	set := st.possible(b, 256)
	if set == nil {
		return true, false
	}
	all = true
	for i := 0; i < 256; i++ {
		if set.has(i) {
			if f(i) {
				some = true
			} else {
				all = false
			}
		}
	}
	return
}

// only: every value the byte can have satisfies f.
func (st *State) only(b *V, f func(int) bool) bool { _, all := st.over(b, f); return all }
func (st *State) may(b *V, f func(int) bool) bool  { some, _ := st.over(b, f); return some }

func isOp(ops ...int) func(int) bool {
	return func(i int) bool {
		for _, o := range ops {
			if i&15 == o {
				return true
			}
		}
		return false
	}
}

// zero: the number is known to be 0, or known to be positive.
func (st *State) zero(v *V) (zero, pos bool) {
	r := st.rangeOf(v)
	return r.lo == 0 && r.hi == 0, r.lo > 0
}

// le: a <= b is known.
func (st *State) le(a, b *V) bool {
	if st.rangeOf(vSub(a, b)).hi <= 0 {
		return true
	}
	t, ok := st.eval(vLt(b, a))
	return ok && !t
}

// leIf: a <= b is known to hold if b is at least min.
func (st *State) leIf(a, b *V, min int64) bool {
	r := st.rangeOf(b)
	if r.hi < min || st.le(a, b) {
		return true
	}
	if r.lo >= min {
		return false
	}
	c := st.clone()
	return !c.constrain(b, ival{min, inf}) || c.le(a, b)
}

// declared is the payload length the header announces.
func (m *inParse) declared(x *Exec, st *State) *V {
	it := types.Typ[types.Int]
	if st.f["ext"] == 0 && st.f["hb"] == 2 && st.v["h1"] != nil {
		m.want(st)
	}
	switch st.f["ext"] {
	case 1:
		return x.convert(st, and8(st.v["h1"], 127), byteT, it)
	case 3, 9:
		w := int64(st.f["ext"] - 1)
		e := st.v["ext"]
		if e == nil {
			return nil
		}
		t := types.Typ[map[int64]types.BasicKind{2: types.Uint16, 8: types.Uint64}[w]]
		return x.convert(st, expr(fmt.Sprintf("be%d", 8*w), t, e), t, it)
	}
	return nil
}

// left is what is left of the payload of the current frame.
func (m *inParse) left(x *Exec, st *State) *V {
	if v := st.v["left"]; v != nil {
		return v
	}
	v := m.declared(x, st)
	if v != nil {
		st.v["left"] = v
	}
	return v
}

func (m *inParse) Event(x *Exec, st *State, ev *Event) {
	if ev.Kind == "apicall" {
		if m.is("C13") && recvOf(x.root) == "ConnReader" {
			st.v["got"] = kInt(0)
		}
		delete(st.v, "pk")
		delete(st.v, "pkn")
		return
	}
	if st.f["cl"] == 1 {
		if m.id == "C15" && ev.Kind == "mask" && st.v["pend"] != nil {
			m.unmask(x, st, ev)
		}
		return
	}
	if st.f["drv"] == 0 {
		if m.id == "C30" {
			m.buckets(x, st, ev)
		} else {
			m.sending(x, st, ev)
		}
		return
	}
	switch ev.Kind {
	case "peek":
		if ev.Name == "fail" {
			st.set("tf", 1)
			return
		}
		st.v["pkn"], st.v["pk"] = ev.Args[0], ev.Args[1]
	case "discard":
		if ev.Name == "fail" {
			st.set("tf", 1)
			return
		}
		n, b := ev.Args[0], st.v["pk"]
		if b != nil && !st.le(n, st.v["pkn"]) {
			b = nil
		}
		delete(st.v, "pk")
		delete(st.v, "pkn")
		m.consume(x, st, n, b, true, ev)
	case "readbyte":
		delete(st.v, "pk")
		delete(st.v, "pkn")
		if ev.Name == "fail" {
			st.set("tf", 1)
			return
		}
		m.consume(x, st, kInt(1), ev.Args[0], false, ev)
	case "readfull":
		delete(st.v, "pk")
		delete(st.v, "pkn")
		if ev.Name == "fail" {
			st.set("tf", 1)
			return
		}
		m.consume(x, st, vLen(st, ev.Args[0]), ev.Args[0], false, ev)
	case "bufread":
		delete(st.v, "pk")
		delete(st.v, "pkn")
		if ev.Name != "ok" {
			st.set("tf", 1)
		}
		if ev.Name == "eof" {
			return
		}
		m.stream(x, st, ev)
	case "setrdl.fail", "netwrite.fail", "setwdl.fail", "setdl.fail":
		st.set("tf", 1)
	case "mask":
		m.unmask(x, st, ev)
	case "use", "append":
		m.used(x, st, ev, ev.Args...)
	case "copy":
		m.used(x, st, ev, ev.Args[1])
	case "store":
		m.stored(x, st, ev)
	case "lock":
		// giving up while waiting for the right to answer
	case "netwrite":
		m.wrote(x, st, ev)
	case "setrdl.ok":
		if st.f["hb"] > 0 && m.is("C19") {
			st.set("extended", 1)
		}
	case "assume":
		m.branch(x, st, ev)
	case "astore":
		m.cleared(x, st, ev, ev.Args[1], nil)
	case "aswap":
		m.cleared(x, st, ev, ev.Args[2], ev.Args[1])
	case "acas":
		m.cleared(x, st, ev, ev.Args[2], nil)
	case "aload":
		m.cleared(x, st, ev, nil, ev.Args[1])
	case "token":
		m.token(x, st, ev)
	case "mapget":
		if m.is("C30") && isConn(ev.Args[1]) && x.isThisConn(ev.Args[1]) {
			st.v["bucket"] = ev.Args[2]
		}
	case "mapdelete":
		if m.is("C30") && strings.HasSuffix(mapElem(ev.Args[0]), "rate.Limiter") {
			m.rep("C30", x, st, "removed", "", ev, "the bucket of a connection is removed while it is open")
		}
	case "callback":
		st.set("hook", 1)
	case "Close":
		m.closing(x, st, ev)
		st.set("cl", 1)
		defer st.set("clhere", 1)
		m.forget(st, m.id == "C15" && st.v["pend"] != nil && st.f["ctl"] == 0)
	}
}

// forget: the connection is closed; only payload already read still matters.
func (m *inParse) forget(st *State, keep bool) {
	for k := range st.v {
		switch k {
		case "pend", "k0", "k1", "k2", "k3", "mnext", "h0", "h1":
			if keep {
				continue
			}
		}
		delete(st.v, k)
	}
	for k := range st.f {
		switch k {
		case "cl", "drv", "drvmsg":
			continue
		case "hb", "hd", "acc", "um":
			if keep {
				continue
			}
		}
		delete(st.f, k)
	}
}

// stored makes the automaton speak of a number the way the program does.
func (m *inParse) stored(x *Exec, st *State, ev *Event) {
	v := ev.Args[1]
	if v.Kind == KConst || v.Kind == KNil || v.Typ == nil {
		return
	}
	switch {
	case isIntV(v):
		for _, k := range []string{"left", "total", "mnext"} {
			w := st.v[k]
			if k == "left" && w == nil && st.f["hb"] >= 2 && st.f["ext"] > 0 {
				w = m.declared(x, st)
			}
			if w == nil || w == v || w.Kind == KConst {
				continue
			}
			if k == "mnext" {
				if mod4(vSub(strip4(v), strip4(w))) {
					st.v[k] = v
				}
				continue
			}
			if sameInt(st, v, w) {
				st.v[k] = v
			}
		}
	default:
		b := basicOf(v.Typ)
		if b == nil || b.Info()&types.IsBoolean == 0 {
			return
		}
		f := st.v["fin"]
		if st.f["hd"] == 0 && st.v["h0"] != nil {
			f = nil
		}
		if f == nil && st.v["h0"] != nil {
			if sameBool(st, v, finOf(st.v["h0"])) {
				st.v["finx"] = v
			}
			return
		}
		if f != nil && f != v && sameBool(st, v, f) {
			st.v["fin"] = v
		}
	}
}

func finOf(h0 *V) *V { return vEq(and8(h0, 128), kInt(128)) }

// sameBool: two conditions on one byte are the same condition.
func sameBool(st *State, a, b *V) bool {
	at := singleAtom(a)
	if at == nil || at != singleAtom(b) {
		return a == b
	}
	set := st.setOf(at)
	for i := 0; i < set.n; i++ {
		if set.has(i) && (evalAt(a, at, int64(i)) != 0) != (evalAt(b, at, int64(i)) != 0) {
			return false
		}
	}
	return true
}

// strip4 removes reductions modulo 4 (or a multiple).
func strip4(v *V) *V {
	switch v.Kind {
	case KExpr:
		if opBase(v.Name) == "%" {
			if k, ok := v.A[1].isInt(); ok && k%4 == 0 {
				return strip4(v.A[0])
			}
		}
		if opBase(v.Name) == "&" {
			for i, a := range v.A {
				if k, ok := a.isInt(); ok && k == 3 {
					return strip4(v.A[1-i])
				}
			}
		}
	case KLin:
		r := kInt(v.C)
		for i, a := range v.A {
			r = linComb(r, 1, strip4(a), v.Coef[i])
		}
		return r
	}
	return v
}

func mod4(v *V) bool {
	n, ok := v.isInt()
	return ok && n%4 == 0
}

// consume takes n bytes from the stream; b is where they are, if the program
// can see them (a single byte if n is 1 and b is no slice).
func (m *inParse) consume(x *Exec, st *State, n, b *V, peeked bool, ev *Event) {
	m.settled(x, st, ev, true)
	off := int64(0)
	for {
		if z, _ := st.zero(vSub(n, kInt(off))); z {
			return
		}
		if st.f["hb"] == 0 || st.f["hd"] == 1 {
			l := kInt(0)
			if st.f["hd"] == 1 {
				l = m.left(x, st)
			}
			if l == nil {
				m.rep("C12 C13 C16 C19", x, st, "lost", "", ev, "it can not be told where the payload of the frame ends")
				st.dead = true
				return
			}
			z, _ := st.zero(l)
			rest := vSub(n, kInt(off))
			if !z {
				// payload
				if !st.le(rest, l) {
					which := "C13 C16"
					if st.f["ctl"] == 1 {
						which = "C19"
					}
					m.rep(which+" C12", x, st, "boundary", "", ev, "bytes are taken from the stream across the end of a frame: %s bytes while %s are left of the payload", rest, l)
					st.dead = true
					return
				}
				m.accept(x, st, ev)
				st.v["left"] = vSub(l, rest)
				if b == nil {
					if recvOf(x.root) == "ConnReader" && st.f["ctl"] == 0 {
						st.set("skipped", 1)
					}
					if z, _ := st.zero(st.v["left"]); z && (st.f["ctl"] == 0 || st.only(st.v["h0"], isOp(10))) {
						m.pong(x, st, ev)
						m.done(st)
					}
				} else {
					m.pending(x, st, x.subslice(b, off, n), ev)
				}
				return
			}
			if st.f["hd"] == 1 {
				m.accept(x, st, ev)
				m.pong(x, st, ev)
			}
			m.begin(x, st)
		}
		want := m.want(st)
		if want < 0 {
			m.rep("C12 C13 C16 C19", x, st, "length-form", "", ev, "the program goes on reading although the header byte %s does not tell yet how long the length field is", st.v["h1"])
			st.dead = true
			return
		}
		if want == 0 {
			m.complete(x, st, ev)
			continue
		}
		r := st.rangeOf(vSub(n, kInt(off)))
		k := want
		if r.lo < want {
			if r.lo != r.hi {
				m.rep("C12 C13 C16 C19", x, st, "boundary", "hdr", ev, "an unknown number of bytes (%s) is taken where a header of the next %d bytes is", n, want)
				st.dead = true
				return
			}
			k = r.lo
		}
		if k <= 0 {
			return
		}
		m.header(x, st, b, off, k, ev)
		off += k
		if m.want(st) == 0 {
			m.complete(x, st, ev)
		}
	}
}

func (x *Exec) subslice(b *V, off int64, n *V) *V {
	if b.Kind == KSlice {
		return slc(b.A[0], vAdd(b.A[1], kInt(off)), vAdd(b.A[1], n))
	}
	return slc(b, kInt(off), n)
}

// begin starts a new frame.
func (m *inParse) begin(x *Exec, st *State) {
	for _, k := range []string{"hb", "ext", "hd", "acc", "ctl", "seq", "bad", "kind", "cleared", "extended", "pm", "match"} {
		st.set(k, 0)
	}
	for _, k := range []string{"sent", "h0", "h1", "ext", "k0", "k1", "k2", "k3", "left", "pend", "finx"} {
		delete(st.v, k)
	}
	st.set("um", 0)
}

// want: how many more bytes until the next decision; -1 if it is not known.
func (m *inParse) want(st *State) int64 {
	hb := int64(st.f["hb"])
	if hb < 2 {
		return 2 - hb
	}
	if st.f["ext"] == 0 {
		h1 := st.v["h1"]
		switch {
		case st.only(h1, func(i int) bool { return i&127 < 126 }):
			st.set("ext", 1)
		case st.only(h1, func(i int) bool { return i&127 == 126 }):
			st.set("ext", 3)
		case st.only(h1, func(i int) bool { return i&127 == 127 }):
			st.set("ext", 9)
		default:
			return -1
		}
	}
	e := int64(st.f["ext"] - 1)
	if hb < 2+e {
		return 2 + e - hb
	}
	masked := st.may(st.v["h1"], func(i int) bool { return i&128 != 0 })
	if masked && !st.only(st.v["h1"], func(i int) bool { return i&128 != 0 }) {
		return -1
	}
	if masked && hb < 6+e {
		return 6 + e - hb
	}
	return 0
}

// header takes k bytes of the header, starting at offset off of b.
func (m *inParse) header(x *Exec, st *State, b *V, off, k int64, ev *Event) {
	hb := int64(st.f["hb"])
	byteOf := func(i int64) *V {
		if b == nil {
			return nil
		}
		if b.Kind != KSlice && b.Typ != nil && basicOf(b.Typ) != nil {
			return b
		}
		return x.byteAt(st, b, off+i)
	}
	for i := int64(0); i < k; i++ {
		at := hb + i
		v := byteOf(i)
		e := int64(st.f["ext"] - 1)
		switch {
		case at < 2:
			if v == nil {
				m.rep("C12 C13 C16 C19", x, st, "header-unseen", "", ev, "a frame header is skipped without being looked at")
				st.dead = true
				return
			}
			st.v[fmt.Sprintf("h%d", at)] = v
		case at < 2+e:
			if at == 2 && k-i >= e && b != nil {
				st.v["ext"] = x.sliceAt(st, x.subslice(b, off+i, kInt(off+k)), e)
			}
		default:
			if v != nil && m.is("C15") {
				st.v[fmt.Sprintf("k%d", at-2-e)] = v
			}
		}
	}
	st.set("hb", int(hb+k))
	m.ob("header reads", x, ev.Pos, fmt.Sprint(hb))
}

// complete: the whole header was read.
func (m *inParse) complete(x *Exec, st *State, ev *Event) {
	st.set("hd", 1)
	if m.left(x, st) == nil {
		m.rep("C12 C13 C16 C19", x, st, "lost", "", ev, "the length field of the frame is not looked at")
		st.dead = true
		return
	}
	h0 := st.v["h0"]
	switch {
	case st.only(h0, func(i int) bool { return i&8 != 0 }):
		st.set("ctl", 1)
		m.ob("control frames", x, ev.Pos)
		if m.is("C16 C19") && st.only(h0, isOp(9)) {
			st.set("ping", 1)
			st.v["pinglen"] = st.v["left"]
			delete(st.v, "pingdata")
		}
	case st.only(h0, func(i int) bool { return i&8 == 0 }):
		st.set("ctl", 0)
		m.ob("data frames", x, ev.Pos, st.v["h0"].String())
		seq := 3
		if st.f["msg"] == 0 {
			seq = 1
		} else if t, ok := st.eval(st.v["fin"]); ok {
			seq = 2
			if t {
				seq = 1
			}
		}
		st.set("seq", seq)
		st.set("msg", 1)
		st.set("new", 1)
		if f := st.v["finx"]; f != nil {
			st.v["fin"] = f
		} else {
			st.v["fin"] = finOf(h0)
		}
		l := st.v["left"]
		switch {
		case m.is("C30") && seq == 1:
			st.set("tok", 0)
			st.set("refused", 0)
			delete(st.v, "tokok")
		case m.is("C14") && seq == 1:
			st.v["total"], st.v["frags"] = l, kInt(1)
		case m.is("C14"):
			if st.v["total"] != nil {
				st.v["total"] = vAdd(st.v["total"], l)
				st.v["frags"] = vAdd(st.v["frags"], kInt(1))
			}
		}
		if m.is("C15") {
			st.v["mnext"] = kInt(0)
		}
	default:
		st.set("ctl", 2)
	}
	delete(st.v, "finx")
	if st.f["ctl"] != 0 && m.is("C15") {
		st.v["cnext"] = kInt(0)
	}
	if st.f["ctl"] == 1 {
		if p, _ := m.illegal(x, st); p == "" {
			m.accept(x, st, ev)
			m.over(st)
		}
	}
}

// over forgets a control frame nothing more is expected about.
func (m *inParse) over(st *State) {
	if st.f["ctl"] != 1 || st.f["hd"] == 0 || st.f["acc"] == 0 || st.v["left"] == nil || st.v["h0"] == nil {
		return
	}
	if z, _ := st.zero(st.v["left"]); !z {
		return
	}
	if st.only(st.v["h0"], isOp(10)) && !m.is("C19") {
		m.done(st)
	}
	if s := st.v["sent"]; s != nil && m.is("C19") && st.only(st.v["h0"], isOp(10)) {
		if t, ok := st.eval(s); ok && !t {
			m.done(st)
		}
	}
}

// illegal: why the current header breaks the protocol. The result is definite
// (all headers possible on this path are illegal), or possible.
func (m *inParse) illegal(x *Exec, st *State) (possible, definite string) {
	h0, h1 := st.v["h0"], st.v["h1"]
	if h0 == nil || h1 == nil {
		return "not seen", ""
	}
	add := func(b *V, why string, f func(int) bool) {
		some, all := st.over(b, f)
		if some && possible == "" {
			possible = why
		}
		if some && all {
			definite = why
		}
	}
	add(h0, "a reserved bit is set", func(i int) bool { return i&0x70 != 0 })
	add(h0, "the opcode is unknown", func(i int) bool { o := i & 15; return o > 2 && o < 8 || o > 10 })
	add(h1, "the frame is not masked", func(i int) bool { return i&128 == 0 })
	add(h0, "a control frame is fragmented", func(i int) bool { return i&8 != 0 && i&128 == 0 })
	// the headers may be illegal for different reasons
	if st.only(h0, func(i int) bool {
		o := i & 15
		return i&0x70 != 0 || o > 2 && o < 8 || o > 10 || i&8 != 0 && i&128 == 0
	}) && definite == "" {
		definite = "the first byte is illegal"
	}
	if some, all := st.over(h0, func(i int) bool { return i&8 != 0 }); some {
		long, sure := true, false
		switch st.f["ext"] {
		case 0:
			l, a := st.over(h1, func(i int) bool { return i&127 > 125 })
			long, sure = l, a // not minimal lengths are refused as well, or not yet
		default:
			d := m.declared(x, st)
			if d == nil {
				break
			}
			r := st.rangeOf(d)
			long, sure = r.hi > 125, r.lo > 125
		}
		if long && possible == "" {
			possible = "a control frame is longer than 125 bytes"
		}
		if sure && all {
			definite = "a control frame is longer than 125 bytes"
		}
	}
	return
}

// sequence: the same for the order of data frames.
func (m *inParse) sequence(x *Exec, st *State) (possible, definite string) {
	h0 := st.v["h0"]
	if h0 == nil || st.may(h0, func(i int) bool { return i&8 != 0 }) {
		return "", ""
	}
	seq := st.f["seq"]
	if st.f["hd"] == 0 {
		seq = 3
		if st.f["msg"] == 0 {
			seq = 1
		} else if t, ok := st.eval(st.v["fin"]); ok {
			seq = 2
			if t {
				seq = 1
			}
		}
	}
	cont, allCont := st.over(h0, isOp(0))
	start, allStart := st.over(h0, isOp(1, 2))
	switch seq {
	case 1:
		if cont {
			possible = "a continuation frame although no message has begun"
		}
		if allCont {
			definite = possible
		}
	case 2:
		if start {
			possible = "a new message before the last one has ended"
		}
		if allStart {
			definite = possible
		}
	default:
		possible = "it is not known whether the last message has ended"
		definite = possible
	}
	return
}

// accept: the program goes on with the current frame.
func (m *inParse) accept(x *Exec, st *State, ev *Event) {
	if st.f["acc"] == 1 || st.f["hb"] < 2 {
		return
	}
	st.set("acc", 1)
	st.set("bad", 0)
	m.ob("frames accepted", x, ev.Pos)
	if p, _ := m.illegal(x, st); p != "" {
		m.rep("C12", x, st, "illegal-accepted", p, ev, "a frame is processed although it can be illegal: %s", p)
		return
	}
	if p, _ := m.sequence(x, st); p != "" && st.f["ctl"] == 0 {
		m.rep("C13", x, st, "sequence", p, ev, "a data frame is processed although it can be out of sequence: %s", p)
	}
}

// pending: payload bytes of the current frame are at b, masked.
func (m *inParse) pending(x *Exec, st *State, b *V, ev *Event) {
	if !m.is("C15 C18 C19") || st.f["ctl"] == 0 && !m.is("C15") {
		return
	}
	st.v["pend"] = b
	st.set("um", 1)
	if st.f["ctl"] == 1 && st.f["ping"] == 1 {
		st.v["pingdata"] = b
	}
}

// settled: before the next step the payload bytes must have been unmasked.
func (m *inParse) settled(x *Exec, st *State, ev *Event, more bool) {
	b := st.v["pend"]
	if b == nil {
		return
	}
	if st.f["ctl"] == 0 && st.f["um"] == 1 {
		if st.rangeOf(vSub(b.A[2], b.A[1])).hi > 0 {
			m.rep("C15", x, st, "not-unmasked", "", ev, "payload bytes are handed out that were not unmasked")
		}
	}
	if st.f["ctl"] == 0 {
		delete(st.v, "pend")
		st.set("um", 0)
	}
}

// stream: payload is read into a buffer of the caller.
func (m *inParse) stream(x *Exec, st *State, ev *Event) {
	p, n := ev.Args[0], ev.Args[1]
	m.settled(x, st, ev, true)
	if z, _ := st.zero(n); z {
		return
	}
	l := kInt(0)
	if st.f["hd"] == 1 {
		l = m.left(x, st)
	}
	if l == nil || st.f["hb"] > 0 && st.f["hd"] == 0 {
		m.rep("C12 C13 C16", x, st, "boundary", "hdr", ev, "payload is read although the header of the frame was not read to its end")
		st.dead = true
		return
	}
	if !st.le(vLen(st, p), l) && !st.le(n, l) {
		m.rep("C13 C16", x, st, "boundary", "", ev, "more can be read than is left of the frame: %s bytes while %s are left", vLen(st, p), l)
		st.dead = true
		return
	}
	if st.f["ctl"] != 0 {
		m.rep("C13", x, st, "delivered", "", ev, "payload of a control frame is delivered")
	}
	m.accept(x, st, ev)
	m.limits(x, st, ev, "payload is delivered")
	m.delivered(x, st, ev)
	st.v["left"] = vSub(l, n)
	b := p
	lo := kInt(0)
	if p.Kind == KSlice {
		b, lo = p.A[0], p.A[1]
	}
	if recvOf(x.root) == "ConnReader" && m.is("C13") {
		if !sameInt(st, lo, st.v["got"]) {
			m.rep("C13", x, st, "order", "", ev, "payload is put at offset %s of the caller's buffer after %s bytes", lo, st.v["got"])
		}
		st.v["got"] = vAdd(st.v["got"], n)
	}
	m.pending(x, st, slc(b, lo, vAdd(lo, n)), ev)
}

// limits: the limits hold when something of the message is delivered.
func (m *inParse) limits(x *Exec, st *State, ev *Event, what string) {
	if !m.is("C14") {
		return
	}
	t, n := st.v["total"], st.v["frags"]
	if t == nil || st.f["msg"] == 0 {
		return
	}
	m.ob("limit checks", x, ev.Pos, x.root.Name())
	if max := m.option(x, st, "MaxMessageSize"); max != nil {
		if !st.leIf(t, max, 0) {
			m.rep("C14", x, st, "too-large", "", ev, "%s although the message can be larger than the configured maximum (%s against %s)", what, t, max)
		}
	}
	if max := m.option(x, st, "ReaderMaxFragments"); max != nil {
		if !st.leIf(n, max, 1) {
			m.rep("C14", x, st, "too-many", "", ev, "%s although the message can have more frames than the configured maximum (%s against %s)", what, n, max)
		}
	}
	if d := stripConv(t); (d != t || t.Kind == KExpr && opBase(t.Name) == "conv") && st.rangeOf(t).lo < 0 {
		m.rep("C14", x, st, "overflow", "", ev, "%s although the announced length may not fit in an int", what)
	}
}

// option is the value of a setting of the connection.
func (m *inParse) option(x *Exec, st *State, name string) *V {
	t := x.p.structType("Options")
	su := structUnder(t)
	if su == nil {
		return nil
	}
	for i := 0; i < su.NumFields(); i++ {
		if f := su.Field(i); f.Name() == name {
			return x.load0(st, fld(obj("Options", t), i, f.Type()), f.Type())
		}
	}
	return nil
}

// unmask: the masking primitive is applied.
func (m *inParse) unmask(x *Exec, st *State, ev *Event) {
	if !m.is("C15") {
		return
	}
	b, key, pos := ev.Args[0], ev.Args[1], ev.Args[2]
	n := vLen(st, b)
	if z, _ := st.zero(n); z {
		return
	}
	m.ob("unmaskings", x, ev.Pos, x.caller(ev.Fn).Name())
	p := st.v["pend"]
	if p == nil || st.f["um"] == 0 {
		m.rep("C15", x, st, "twice", "", ev, "bytes are unmasked that are not payload just read")
		return
	}
	if st.f["um"] == 2 {
		m.rep("C15", x, st, "twice", "", ev, "payload is unmasked twice")
		return
	}
	base, lo, hi := b, kInt(0), n
	if b.Kind == KSlice {
		base, lo, hi = b.A[0], b.A[1], b.A[2]
	}
	if base != p.A[0] || !sameInt(st, lo, p.A[1]) || !sameInt(st, hi, p.A[2]) {
		m.rep("C15", x, st, "region", "", ev, "what is unmasked (%s) is not the payload just read (%s)", b, p)
	}
	for i := int64(0); i < 4; i++ {
		k := st.v[fmt.Sprintf("k%d", i)]
		if k == nil || x.byteAt(st, key, i) != k {
			m.rep("C15", x, st, "key", "", ev, "payload is unmasked with something else than the key of its frame")
			break
		}
	}
	name := "mnext"
	if st.f["ctl"] == 1 {
		name = "cnext"
	}
	want := st.v[name]
	if want == nil || !mod4(vSub(strip4(pos), strip4(want))) {
		m.rep("C15", x, st, "position", "", ev, "payload is unmasked from key position %s where %s is right", pos, want)
	}
	st.v[name] = vAdd(pos, n)
	st.set("um", 2)
	if st.f["ctl"] == 0 {
		delete(st.v, "pend")
		st.set("um", 0)
	}
}

// used: the program looks at bytes.
func (m *inParse) used(x *Exec, st *State, ev *Event, vs ...*V) {
	p := st.v["pend"]
	if p == nil || st.f["um"] != 1 {
		return
	}
	if st.rangeOf(vSub(p.A[2], p.A[1])).hi <= 0 {
		return
	}
	for _, v := range vs {
		b := v
		if v.Kind == KSlice {
			b = v.A[0]
		}
		if b == p.A[0] && b.Kind != KNil {
			m.rep("C15", x, st, "not-unmasked", "use", ev, "payload is used before it was unmasked")
		}
	}
}

// delivered: payload of a data message goes to the application.
func (m *inParse) delivered(x *Exec, st *State, ev *Event) {
	if st.f["refused"] == 1 {
		m.rep("C30", x, st, "refused-delivered", "", ev, "payload of a message the rate limiter refused is delivered")
	}
}

// ---- C30 ----

func (m *inParse) token(x *Exec, st *State, ev *Event) {
	if m.is("C14 C19") {
		st.v["tokok"] = ev.Args[len(ev.Args)-1]
	}
	if !m.is("C30") {
		return
	}
	m.ob("tokens", x, ev.Pos)
	if st.f["ctl"] != 0 || st.f["hd"] == 0 || st.f["seq"] != 1 || st.f["new"] == 0 {
		m.rep("C30", x, st, "charged", "", ev, "a token is taken for something that is not the start of a message")
		return
	}
	if st.f["tok"] == 1 {
		m.rep("C30", x, st, "twice", "", ev, "a message can cost two tokens")
	}
	st.set("tok", 1)
	if len(ev.Args) > 2 || strings.HasSuffix(ev.Name, "N") {
		n, ok := ev.Args[len(ev.Args)-2].isInt()
		if !ok || n != 1 {
			m.rep("C30", x, st, "cost", "", ev, "a message does not cost one token but %s", ev.Args[len(ev.Args)-2])
		}
	}
	st.v["tokok"] = ev.Args[len(ev.Args)-1]
	if b := ev.Args[0]; b != st.v["bucket"] && connField2(b) == "" {
		m.rep("C30", x, st, "bucket", "", ev, "the token is not taken from the bucket of this connection (%s)", b)
	}
}

// ---- C19 ----

func (m *inParse) wrote(x *Exec, st *State, ev *Event) {
	if st.f["ctl"] != 1 && !m.is("C19") {
		return
	}
	f := x.frame(st, ev.Args[0])
	if !f.is(10) {
		return
	}
	if !m.is("C16 C19") {
		if l := st.v["left"]; l != nil {
			if z, _ := st.zero(l); z {
				m.accept(x, st, ev)
				m.done(st)
			}
		}
		return
	}
	m.ob("pongs", x, ev.Pos)
	if st.f["ping"] != 1 {
		m.rep("C19", x, st, "unasked", "", ev, "a pong is sent that answers no ping")
		return
	}
	st.set("ping", 0)
	defer m.done(st)
	if l := st.v["left"]; l != nil {
		if z, _ := st.zero(l); !z {
			m.rep("C19", x, st, "unread", "", ev, "a ping is answered before its payload was read")
		}
	}
	if f.err != "" || !sameInt(st, f.payload, st.v["pinglen"]) {
		m.rep("C19", x, st, "payload", "length", ev, "the pong has %s payload bytes, the ping had %s", f.payload, st.v["pinglen"])
	}
	if z, _ := st.zero(st.v["pinglen"]); !z {
		d := st.v["pingdata"]
		if d == nil || !x.carries(st, ev.Args[0], f.hdr, d) {
			m.rep("C19", x, st, "payload", "content", ev, "the payload of the pong (%s) is not the payload of the ping (%s)", ev.Args[0], d)
		}
	}
}

// carries: the bytes of frame s from offset off on are those at region d.
func (x *Exec) carries(st *State, s *V, off int64, d *V) bool {
	ok := false
	walk := func(v *V) {
		walkV(v, func(y *V) {
			if y == d || y.Kind == KSlice && y.A[0] == d.A[0] && sameInt(st, y.A[1], d.A[1]) && sameInt(st, y.A[2], d.A[2]) {
				ok = true
			}
		})
	}
	walk(s)
	base := s
	if s.Kind == KSlice {
		base = s.A[0]
	}
	for k, v := range st.heap {
		if k.Kind == KExpr && k.Name == "content" && k.A[0] == base {
			walk(v)
		}
	}
	return ok
}

func (m *inParse) branch(x *Exec, st *State, ev *Event) {
	c, t := ev.Args[0], ev.N == 1
	if st.f["hb"] >= 2 && st.f["acc"] == 0 && st.f["bad"] == 0 {
		if _, d := m.illegal(x, st); d != "" && (st.f["ext"] != 0 || !strings.Contains(d, "125")) {
			st.set("bad", 1)
		}
	}
	if c.Kind == KExpr && c.Name == "!" {
		c, t = c.A[0], !t
	}
	if c.Kind == KExpr && (strings.Contains(c.Name, "bytes.Equal") || strings.Contains(c.Name, "slices.Equal")) {
		if t {
			if st.f["ctl"] == 1 && st.v["h0"] != nil && st.only(st.v["h0"], isOp(10)) {
				m.done(st)
				if m.is("C19") {
					st.set("pm", 1)
				}
			}
		} else {
			st.set("match", 2)
		}
	}
	if v, null, ok := nilTest(ev); ok && null && m.is("C30") && (ptrStruct(v) == "RateLimiter" || ptrStruct(v) == "rate.Limiter" || v.Typ != nil && strings.HasSuffix(v.Typ.String(), "rate.Limiter")) {
		st.set("nolimiter", 1)
	}
	if m.is("C14") {
		if st.f["kind"] == 0 && st.f["hb"] == 2 && st.v["h0"] != nil {
			if st.only(st.v["h0"], func(i int) bool { return i&8 != 0 }) {
				st.set("kind", 1)
			} else if st.only(st.v["h0"], func(i int) bool { return i&8 == 0 }) {
				st.set("kind", 2)
			}
		}
		for k, n := range map[string]string{"unl": "MaxMessageSize", "frl": "ReaderMaxFragments"} {
			if v := m.option(x, st, n); v != nil && st.f[k] == 0 {
				r := st.rangeOf(v)
				if r.lo >= 0 && n == "MaxMessageSize" || r.lo > 0 {
					st.set(k, 1)
				} else if r.hi < 0 || r.hi <= 0 && n != "MaxMessageSize" {
					st.set(k, 2)
				}
			}
		}
	}
	if st.v["tokok"] != nil && c == st.v["tokok"] && !t {
		st.set("refused", 1)
		if m.is("C14 C19") {
			st.dead = true // it is not delivered
		}
	}
}

// cleared: an atomic flag of the connection is read (old) or set (val). While
// a pong is handled that is the flag that tells whether a ping is outstanding.
func (m *inParse) cleared(x *Exec, st *State, ev *Event, val, old *V) {
	if !m.is("C19") || connField(ev.Args[0]) == "" || st.f["hb"] < 2 {
		return
	}
	if old != nil {
		st.v["sent"] = old
	}
	if ev.Kind == "acas" {
		if t, ok := ev.Args[1].isBool(); !ok || !t {
			return
		}
		st.v["sent"] = ev.Args[3]
		if ev.Args[3] != kBool(true) {
			return
		}
	}
	if val == kBool(false) {
		m.ob("pings cleared", x, ev.Pos)
		st.set("cleared", 1)
	}
}

// pong: a pong has been dealt with.
func (m *inParse) pong(x *Exec, st *State, ev *Event) {
	if !m.is("C19") {
		return
	}
	switch {
	case st.f["match"] == 2:
		m.rep("C19", x, st, "mismatch", "", ev, "a pong with another payload than our ping can be accepted")
	case st.f["pm"] == 1:
		m.ob("pongs matched", x, ev.Pos)
		if st.f["cleared"] == 0 {
			m.rep("C19", x, st, "outstanding", "", ev, "a matching pong can leave the ping outstanding")
		}
		if st.f["extended"] == 0 {
			m.rep("C19", x, st, "deadline", "", ev, "a matching pong can leave the read deadline as it was")
		}
	case st.f["ctl"] == 1 && st.v["h0"] != nil && st.only(st.v["h0"], isOp(10)):
		m.ob("pongs ignored", x, ev.Pos)
		t := true
		if s := st.v["sent"]; s != nil {
			if b, ok := s.isBool(); ok {
				t = b
			} else if b, ok := st.eval(s); ok {
				t = b
			}
		}
		if t {
			m.rep("C19", x, st, "ignored", "", ev, "a pong can be ignored although a ping is outstanding")
		}
	}
	st.set("pm", 0)
	st.set("match", 0)
}

// ---- closing ----

func (m *inParse) closing(x *Exec, st *State, ev *Event) {
	if len(ev.Args) < 3 {
		return
	}
	code, _ := ev.Args[1].isInt()
	_, isConst := ev.Args[1].isInt()
	m.ob("closings", x, ev.Pos, x.caller(ev.Fn).Name())
	if st.f["tf"] == 1 {
		return // the transport failed
	}
	inHdr := st.f["hb"] >= 2 && st.f["acc"] == 0
	var ip, id, sp, sd string
	if inHdr {
		ip, id = m.illegal(x, st)
		if st.f["bad"] == 1 && id == "" {
			id = "an invalid header"
		}
		sp, sd = m.sequence(x, st)
	}
	_ = ip
	d := m.declared(x, st)
	huge := d != nil && st.rangeOf(d).lo > 1<<60
	if d != nil && st.f["ext"] == 9 {
		huge = huge || d.Kind == KExpr && opBase(d.Name) == "conv"
	}
	if !isConst {
		m.closeFrame(x, st, ev)
		if inHdr && (ip != "" || sp != "") {
			m.rep("C12", x, st, "wrong-code", ip, ev, "an illegal frame (%s) can be answered with a close code of the peer's", ip+sp)
		}
		return
	}
	switch code {
	case 1002:
		m.ob("protocol errors", x, ev.Pos)
		if inHdr && (id != "" || sd != "") {
			return
		}
		if st.may0(st.v["h0"], isOp(8)) {
			m.closeFrame(x, st, ev)
			return
		}
		if st.f["match"] == 2 && st.may0(st.v["h0"], isOp(10)) {
			return
		}
		if inHdr {
			m.rep("C12 C13", x, st, "legal-refused", "", ev, "a legal frame can be refused as a protocol error (first byte %s, second %s)", st.possible(st.v["h0"], 256), st.possible(st.v["h1"], 256))
		} else {
			m.rep("C12 C13", x, st, "legal-refused", "none", ev, "the connection is closed for a protocol error that did not happen")
		}
	case 1009:
		m.ob("size limits", x, ev.Pos)
		if inHdr && id != "" && !huge {
			m.rep("C12", x, st, "wrong-code", id, ev, "an illegal frame (%s) is answered with 1009 instead of 1002", id)
			return
		}
		if huge {
			return
		}
		max := m.option(x, st, "MaxMessageSize")
		if inHdr && sd != "" {
			if max == nil || d == nil || !st.lt(max, d) {
				m.rep("C13", x, st, "wrong-code", sd, ev, "%s is answered with 1009 instead of 1002", sd)
			}
			return
		}
		if max == nil || st.rangeOf(max).lo < 0 {
			m.rep("C14", x, st, "unlimited-refused", "", ev, "a message can be refused for its size although the size is unlimited")
			return
		}
		t := st.v["total"]
		if inHdr && (st.f["hd"] == 0 || t == nil) {
			t = d
		}
		if t == nil || d == nil || !st.lt(max, t) && !st.lt(max, d) {
			m.rep("C14", x, st, "within-refused", "size", ev, "a message can be refused for its size although it is within the limit (%s against %s)", t, max)
		}
	case 1008:
		m.ob("fragment limits", x, ev.Pos)
		if st.f["hook"] == 1 {
			return
		}
		if inHdr && id != "" {
			m.rep("C12", x, st, "wrong-code", id, ev, "an illegal frame (%s) is answered with 1008 instead of 1002", id)
			return
		}
		if inHdr && sd != "" {
			m.rep("C13", x, st, "wrong-code", sd, ev, "%s is answered with 1008 instead of 1002", sd)
			return
		}
		n, max := st.v["frags"], m.option(x, st, "ReaderMaxFragments")
		if n == nil || max == nil {
			return
		}
		if !inHdr {
			n = vAdd(n, kInt(1))
		}
		if st.rangeOf(max).lo <= 0 || !st.lt(max, n) {
			m.rep("C14", x, st, "within-refused", "frames", ev, "a message can be refused for its number of frames although it is within the limit (frame %s of %s)", n, max)
		}
	default:
		if inHdr && id != "" {
			m.rep("C12", x, st, "wrong-code", id, ev, "an illegal frame (%s) is answered with %d instead of 1002", id, code)
		}
		if inHdr && sd != "" {
			m.rep("C13", x, st, "wrong-code", sd, ev, "%s is answered with %d instead of 1002", sd, code)
		}
		if st.may0(st.v["h0"], isOp(8)) {
			m.closeFrame(x, st, ev)
			return
		}
		if !(inHdr && (id != "" || sd != "")) && code != 1007 && st.f["ping"] == 0 && !(st.f["ctl"] == 1 && st.may0(st.v["h0"], isOp(9, 10))) {
			m.rep("C16", x, st, "closed-for-nothing", "", ev, "the connection is closed (%d) although nothing went wrong", code)
		}
	}
}

func (st *State) may0(b *V, f func(int) bool) bool { return b != nil && st.may(b, f) }
func (st *State) lt(a, b *V) bool {
	if st.rangeOf(vSub(a, b)).hi < 0 {
		return true
	}
	t, ok := st.eval(vLt(a, b))
	return ok && t
}

// closeFrame: the connection is closed because of a close frame of the peer.
func (m *inParse) closeFrame(x *Exec, st *State, ev *Event) {
	if st.f["hb"] < 2 {
		return
	}
	d := m.declared(x, st)
	if d == nil {
		return
	}
	m.ob("close frames", x, ev.Pos)
	if p, def := m.illegal(x, st); p != "" {
		if def == "" {
			m.rep("C12", x, st, "illegal-accepted", p, ev, "a close frame is processed although it can be illegal: %s %s", p, st.possible(st.v["h0"], 256))
		}
		return
	}
	code, isConst := ev.Args[1].isInt()
	reason := ev.Args[2]
	r := st.rangeOf(d)
	switch {
	case r.hi == 0:
		if !isConst || code != 1000 {
			m.rep("C18", x, st, "empty", "", ev, "an empty close frame ends in %s instead of a normal closure", ev.Args[1])
		}
		return
	case r.lo == 1 && r.hi == 1:
		if !isConst || code != 1002 {
			m.rep("C18", x, st, "one-byte", "", ev, "a close frame with a one-byte body ends in %s instead of 1002", ev.Args[1])
		}
		return
	case r.lo < 2:
		m.rep("C18", x, st, "short", "", ev, "a close frame is answered without telling whether it has a status code")
		return
	}
	p := st.v["pend"]
	if p == nil {
		m.rep("C18", x, st, "unread", "", ev, "a close frame with a status code ends in %s without its payload having been looked at", ev.Args[1])
		return
	}
	want := expr("be16", types.Typ[types.Uint16], slc(p.A[0], p.A[1], vAdd(p.A[1], kInt(2))))
	set := st.setOf(want)
	anyIllegal, anyLegal := false, false
	for i := 0; i < 65536; i++ {
		if set.has(i) {
			anyIllegal = anyIllegal || !wireCode(i)
			anyLegal = anyLegal || sureCode(i)
		}
	}
	utf := 0
	for f, t := range st.facts {
		if f.Kind == KExpr && strings.Contains(f.Name, "utf8.Valid") {
			if st.holds(f, p, 2) {
				utf = 2
				if t {
					utf = 1
				}
			}
		}
	}
	switch {
	case stripConv(ev.Args[1]) == want:
		m.ob("codes echoed", x, ev.Pos)
		if anyIllegal {
			m.rep("C18", x, st, "illegal-code", "", ev, "an illegal status code of the peer can be taken for legal")
		}
		if r.hi > 2 && utf != 1 {
			m.rep("C18", x, st, "bad-reason", "", ev, "the reason of a close frame is not checked to be valid UTF-8")
		}
		if r.hi != 2 && !st.holds(reason, p, 2) {
			m.rep("C18", x, st, "reason-lost", "", ev, "a close frame is answered without its reason")
		}
	case isConst && code == 1002:
		if anyLegal && utf != 2 {
			m.rep("C18", x, st, "legal-refused", "", ev, "a legal close frame can end in 1002")
		}
	default:
		m.rep("C18", x, st, "wrong-code", "", ev, "a close frame with a status code ends in %s", ev.Args[1])
	}
}

// holds: v is made of the bytes of region p from offset off to its end.
func (st *State) holds(v, p *V, off int64) bool {
	ok := false
	from := vAdd(p.A[1], kInt(off))
	walkV(v, func(y *V) {
		if y.Kind == KSlice && y.A[0] == p.A[0] && sameInt(st, y.A[1], from) && sameInt(st, y.A[2], p.A[2]) {
			ok = true
		}
	})
	return ok
}

// ---- returning ----

func (m *inParse) Return(x *Exec, st *State, ret *V) {
	if st.f["drv"] == 0 {
		if m.id == "C30" {
			m.bucketsReturn(x, st, ret)
		}
		return
	}
	m.returned(x, st, ret)
	if st.f["cl"] == 0 {
		for _, k := range []string{"h0", "h1", "ext", "finx", "pk", "pkn", "pingdata", "pinglen", "cnext", "got", "tokok", "sent"} {
			delete(st.v, k)
		}
	}
	for _, k := range []string{"tf", "new", "nolimiter", "skipped", "hook", "extended", "cleared", "match", "pm", "tok", "seq", "ext", "clhere"} {
		st.set(k, 0)
	}
	if st.f["hb"] > 0 {
		st.set("hb", 2)
	}
}

func (m *inParse) returned(x *Exec, st *State, ret *V) {
	fn := x.root
	ev := &Event{Kind: "return", Fn: fn, Pos: fn.Pos()}
	e := lastErr(x, ret)
	cls := byte('?')
	if e != nil {
		cls = errClass(st, e)
	}
	isEOF := e != nil && e.Kind == KSym && strings.Contains(e.Name, "io.EOF")
	if st.f["tf"] == 1 && (cls != 'f' || isEOF) {
		m.rep("C13", x, st, "failure-hidden", fn.Name(), ev, "%s can report %s after the transport failed or ended", fn.Name(), e)
	}
	if st.f["cl"] == 1 || x.connClosed(st) {
		if m.id == "C15" && st.v["pend"] != nil {
			if n := results(ret)[0]; recvOf(fn) == "ConnReader" && st.rangeOf(n).hi > 0 {
				m.settled(x, st, ev, false)
			}
			m.forget(st, false)
		}
		if st.f["clhere"] == 1 && (cls == 'n' || isEOF) {
			m.rep("C13 C12", x, st, "failure-hidden", fn.Name(), ev, "%s can report %s although it closed the connection", fn.Name(), e)
		}
		return
	}
	m.settled(x, st, ev, false)
	if st.f["hb"] > 0 && st.f["hd"] == 0 {
		if st.f["tf"] == 0 {
			m.rep("C12 C13 C16", x, st, "boundary", "hdr", ev, "%s can return in the middle of a frame header", fn.Name())
		}
		return
	}
	if st.f["hb"] > 0 {
		m.accept(x, st, ev)
	}
	m.pong(x, st, ev)
	if st.f["ping"] == 1 {
		m.rep("C19", x, st, "unanswered", "", ev, "%s can return without having answered a ping", fn.Name())
	}
	if st.f["ctl"] == 1 && st.f["hd"] == 1 && st.may0(st.v["h0"], isOp(8)) {
		m.rep("C18", x, st, "ignored", "", ev, "%s can return with the connection open although a close frame was received", fn.Name())
	}
	rs := results(ret)
	switch {
	case recvOf(fn) == "ConnReader":
		m.ob("deliveries", x, ev.Pos, string(cls))
		n := rs[0]
		if st.v["got"] == nil {
			return
		}
		if !sameInt(st, n, st.v["got"]) {
			m.rep("C13", x, st, "count", "", ev, "Read reports %s bytes after delivering %s", n, st.v["got"])
		}
		ended := false
		if st.f["msg"] == 1 && st.f["ctl"] == 0 && st.f["hd"] == 1 {
			t, ok := st.eval(st.v["fin"])
			z, _ := st.zero(m.left(x, st))
			ended = ok && t && z
		}
		if isEOF && !ended {
			m.rep("C13", x, st, "early-end", "", ev, "the end of the message can be reported although something may be missing (left %s, final %s)", st.v["left"], st.v["fin"])
		}
		if cls == 'n' && ended && st.f["new"] == 0 {
			if z, _ := st.zero(st.v["got"]); z {
				m.rep("C13", x, st, "no-end", "", ev, "the end of the message is not reported")
			}
		}
		if st.f["skipped"] == 1 && st.f["ctl"] == 0 {
			m.rep("C13", x, st, "lost", "bytes", ev, "payload bytes are thrown away while reading a message")
		}
		if cls == 'n' && st.f["new"] == 1 {
			m.limits(x, st, ev, "Read goes on")
		}
	case fn.Name() == "NextReader":
		if cls != 'n' {
			return
		}
		m.ob("messages started", x, ev.Pos)
		if st.f["new"] == 0 || st.f["seq"] != 1 || st.f["ctl"] != 0 {
			m.rep("C13 C16", x, st, "no-start", "", ev, "NextReader can succeed without a new message having begun")
			return
		}
		h0 := st.v["h0"]
		if h0 == nil || !sameByte(st, rs[1], and8(h0, 15)) {
			m.rep("C13", x, st, "type", "", ev, "the type NextReader reports (%s) is not the opcode of the first frame", rs[1])
		}
		if d := m.declared(x, st); d == nil || !sameInt(st, d, st.v["left"]) {
			m.rep("C13", x, st, "lost", "bytes", ev, "payload bytes are thrown away when a message is started")
		}
		m.limits(x, st, ev, "a message is handed out")
		if st.f["refused"] == 1 {
			m.rep("C30", x, st, "refused-delivered", "start", ev, "a message the rate limiter refused is handed out")
		}
		if st.f["tok"] == 0 && st.f["nolimiter"] == 0 && !m.noLimiter(x, st) {
			m.rep("C30", x, st, "free", "", ev, "a message can be handed out without having been charged although there is a rate limiter")
		}
	}
}

// connField2: the field of Conn whose content v is.
func connField2(v *V) string {
	if a, ok := symField[v]; ok {
		return connField(a)
	}
	return ""
}

// mapElem: the element type of map v.
func mapElem(v *V) string {
	if v.Typ != nil {
		if t, ok := v.Typ.Underlying().(*types.Map); ok {
			return t.Elem().String()
		}
	}
	return ""
}

// isThisConn: v is the connection the reading driver works on.
func (x *Exec) isThisConn(v *V) bool { return unwrap(v) == x.connPtr() }

// buckets: each connection gets its own bucket, of the configured rate and size.
func (m *inParse) buckets(x *Exec, st *State, ev *Event) {
	limits := func(v *V) bool { return strings.HasSuffix(mapElem(v), "rate.Limiter") }
	switch ev.Kind {
	case "newlimiter":
		st.v["lim"] = ev.Args[0]
		m.fact("rate|%s|%s|%s", fieldRefOf(stripConv(ev.Args[1])), x.pos(ev.Pos), x.caller(ev.Fn).Name())
		m.fact("burst|%s|%s|%s", fieldRefOf(stripConv(ev.Args[2])), x.pos(ev.Pos), x.caller(ev.Fn).Name())
	case "mapset":
		if limits(ev.Args[0]) && isConn(ev.Args[1]) {
			m.ob("buckets", x, ev.Pos)
			if ev.Args[2] != st.v["lim"] || st.f["reg"] == 1 {
				m.rep("C30", x, st, "shared", "", ev, "a connection is given a bucket that was not made for it")
			}
			st.set("reg", 1)
		}
	case "store":
		if st.v["lim"] != nil && ev.Args[1] == st.v["lim"] && connField(ev.Args[0]) != "" {
			m.ob("buckets", x, ev.Pos)
			m.fact("onconn")
			st.set("reg", 1)
		}
		if s, f := fieldOf(ev.Args[0]); s == "RateLimiter" {
			for i, p := range x.root.Params {
				if stripConv(ev.Args[1]) == sym("arg:"+p.Name(), p.Type()) {
					m.fact("param|%s.%s|%d", s, f, i)
				}
			}
		}
	case "mapdelete":
		if limits(ev.Args[0]) {
			st.set("reg", 0)
			st.set("del", 1)
		}
	case "callback":
		if strings.Contains(ev.Name, "OnConnect") {
			m.registered(x, st, ev, "OnConnect is called")
		}
	case "netclose":
		st.set("ended", 1)
	}
}

func (m *inParse) registered(x *Exec, st *State, ev *Event, what string) {
	m.ob("connections handed over", x, ev.Pos, what)
	if st.f["reg"] == 0 && !m.noLimiter(x, st) {
		m.rep("C30", x, st, "no-bucket", what, ev, "%s before the connection has a bucket of its own although a rate limiter is configured", what)
	}
}

func (m *inParse) bucketsReturn(x *Exec, st *State, ret *V) {
	ev := &Event{Kind: "return", Fn: x.root, Pos: x.root.Pos()}
	switch {
	case x.root.Name() == "Upgrade":
		if e := lastErr(x, ret); e != nil && errClass(st, e) == 'n' {
			m.registered(x, st, ev, "Upgrade returns")
		}
	case x.p.isCloseFn(x.root):
		if st.f["ended"] == 1 && st.f["del"] == 0 && !m.noLimiter(x, st) {
			m.fact("left|%s", x.pos(ev.Pos))
		}
	}
}

func finishBuckets(p *Program, r *Result) {
	param := map[string]string{}
	inMap := len(r.Inst["buckets"]) > 0
	for f := range r.Facts {
		if s := strings.Split(f, "|"); s[0] == "param" {
			param[s[1]] = s[2]
		}
	}
	for f := range r.Facts {
		s := strings.Split(f, "|")
		switch {
		case s[0] == "rate" || s[0] == "burst":
			want := map[string]string{"rate": "0", "burst": "1"}[s[0]]
			if param[s[1]] != want {
				r.report("bucket-"+s[0], s[3], s[2], "the %s of a bucket is not what NewRateLimiter was given for it", s[0])
			}
		case s[0] == "left" && inMap && !r.Facts["onconn"]:
			r.report("bucket-left", "close", s[1], "a closed connection can keep its bucket although a rate limiter is configured")
		}
	}
}

// wireCode: may a close frame carry this code?
func wireCode(c int) bool {
	return c >= 1000 && c <= 1003 || c >= 1007 && c <= 1014 || c >= 3000 && c <= 4999
}

// sureCode: a code nobody may take for illegal.
func sureCode(c int) bool { return wireCode(c) && (c <= 1011 || c >= 3000) }

// sending: what the entry points that send pings and close frames do.
func (m *inParse) sending(x *Exec, st *State, ev *Event) {
	flag := func(a *V) bool { return connField(a) != "" }
	switch ev.Kind {
	case "acas":
		if flag(ev.Args[0]) && ev.Args[1] == kBool(false) && ev.Args[2] == kBool(true) && ev.Args[3] == kBool(true) {
			st.set("claimed", 1)
		}
	case "aswap":
		if flag(ev.Args[0]) && ev.Args[1] == kBool(false) && ev.Args[2] == kBool(true) {
			st.set("claimed", 1)
		}
	case "Close":
		st.set("cl", 1)
	case "netwrite":
		f := x.frame(st, ev.Args[0])
		switch {
		case f.is(9) && m.is("C19"):
			m.ob("pings sent", x, ev.Pos, x.root.Name())
			if st.f["claimed"] == 0 {
				m.rep("C19", x, st, "unclaimed", "", ev, "a ping is sent without an atomic step that marked it as outstanding and allows one only")
			}
			st.set("claimed", 0)
		case f.is(8) && m.is("C18"):
			m.closeSent(x, st, f, ev)
		}
	}
}

func (m *inParse) closeSent(x *Exec, st *State, f frameInfo, ev *Event) {
	m.ob("close frames sent", x, ev.Pos, x.root.Name())
	if f.err != "" || f.payload == nil {
		m.rep("C18", x, st, "malformed", "", ev, "a malformed close frame is sent: %s", f.err)
		return
	}
	r := st.rangeOf(f.payload)
	if r.hi > 125 {
		m.rep("C18", x, st, "too-long", "", ev, "a close frame can be sent with %s payload bytes", f.payload)
	}
	if r.lo < 2 && r.hi > 0 {
		m.rep("C18", x, st, "too-short", "", ev, "a close frame can be sent with %s payload bytes", f.payload)
		return
	}
	var v, code, reason *V
	if r.hi > 0 {
		v = x.beField(st, ev.Args[0], f.hdr, 2)
		if v == nil {
			m.rep("C18", x, st, "no-code", "", ev, "a close frame is sent whose first two payload bytes are no big-endian status code")
			return
		}
		v = stripConv(v)
		if n, ok := v.isInt(); ok {
			if !wireCode(int(n)) {
				m.rep("C18", x, st, "illegal-sent", "", ev, "a close frame is sent with the status code %d", n)
			}
		} else {
			set := st.possible(v, 65536)
			bad := -1
			for i := 0; i < 65536 && bad < 0; i++ {
				if (set == nil || set.has(i)) && !wireCode(i) {
					bad = i
				}
			}
			if bad >= 0 {
				m.rep("C18", x, st, "illegal-sent", "", ev, "a close frame can be sent with the status code %d", bad)
			}
		}
	}
	for _, p := range x.root.Params {
		switch t := p.Type().Underlying().(type) {
		case *types.Basic:
			if t.Kind() == types.Uint16 {
				code = sym("arg:"+p.Name(), p.Type())
			}
			if t.Kind() == types.String {
				reason = sym("arg:"+p.Name(), p.Type())
			}
		}
	}
	if code != nil && v != code {
		set := st.possible(code, 65536)
		for i := 0; i < 65536; i++ {
			if (set == nil || set.has(i)) && sureCode(i) {
				m.rep("C18", x, st, "replaced", "", ev, "the legal status code %d passed to %s can be left out or replaced", i, x.root.Name())
				break
			}
		}
	}
	if code != nil && reason != nil {
		l := vLen(st, reason)
		if st.rangeOf(l).lo <= 123 && !sameInt(st, f.payload, vAdd(kInt(2), l)) {
			m.rep("C18", x, st, "reason-left-out", "", ev, "a reason that fits can be left out or cut short by %s", x.root.Name())
		}
	}
}

func sameByte(st *State, a, b *V) bool {
	if a == b {
		return true
	}
	at := singleAtom(b)
	if ca, ok := a.isInt(); ok && at != nil {
		set := st.setOf(at)
		for i := 0; i < set.n; i++ {
			if set.has(i) && evalAt(b, at, int64(i)) != ca {
				return false
			}
		}
		return true
	}
	if at == nil || singleAtom(a) != at {
		return false
	}
	set := st.setOf(at)
	for i := 0; i < set.n; i++ {
		if set.has(i) && evalAt(a, at, int64(i)) != evalAt(b, at, int64(i)) {
			return false
		}
	}
	return true
}

// noLimiter: on this path the connection has no rate limiter.
func (m *inParse) noLimiter(x *Exec, st *State) bool {
	for f, t := range st.facts {
		if t && f.Kind == KExpr && f.Name == "==" {
			for i := 0; i < 2; i++ {
				if f.A[i].Kind == KNil && ptrStruct(f.A[1-i]) == "RateLimiter" {
					return true
				}
			}
		}
	}
	return false
}

func readerWant(p *Program, t Target) bool { return t.Key == "driver:reader" }

const readLimits = "One connection, one reader at a time; messages and frames of any number and length, header bytes all values, the library's reading calls in any order (a driver). CloseWithCode is replaced by its event, bufio by what it promises, io.ReadAll and json by any sequence of Reads."

func init() {
	for _, pr := range []*Prop{
		{ID: "C12", Rule: "An automaton of the frame format follows the bytes taken from the transport on every path of the reading calls: after two header bytes (all 65536 values, as sets), the length field is read in full where they announce one, then key and payload; before payload is taken or the next header begun, the set of headers possible on the path holds no illegal one; a closing with 1002 while a header is pending needs an illegal one, an illegal one is closed with 1002 and no other code, and no call returns with bytes of a header taken.", Min: map[string]int{"header reads": 2, "frames accepted": 2, "protocol errors": 3}},
		{ID: "C13", Rule: "Same automaton: no data frame is accepted out of sequence, nor a legal one refused; Read's count is the sum of what was read into its buffer; io.EOF only where the last frame is final and nothing of it is left, and never after the transport failed; a path with a failed or ended transport returns a fatal error; NextReader succeeds only at a message start, and gives its opcode; no payload is skipped while a message is read.", Min: map[string]int{"data frames": 1, "frames accepted": 2, "deliveries": 2, "messages started": 1}},
		{ID: "C14", Rule: "Same automaton with the declared sizes and the number of frames of the message summed up: where payload is delivered, more frames read or a message handed out, the sum is at most MaxMessageSize or that is negative, and the count at most ReaderMaxFragments or that is not positive; 1009 and 1008 only where it is not, 1009 also for a length that no int holds.", Min: map[string]int{"limit checks": 2, "size limits": 1, "fragment limits": 1}, Limits: "What is read to skip a message the rate limiter refused is left out."},
		{ID: "C15", Rule: "Same automaton with the key bytes of the frame: every stretch of payload that leaves the library, is echoed or looked at went once through the mask with these four bytes in their order and with the position that the number of payload bytes unmasked so far gives (modulo 4).", Min: map[string]int{"unmaskings": 2}, Limits: "The mask routine itself is C02's and C04's concern only as far as it is called; its inner loop is not analysed here."},
		{ID: "C16", Rule: "Same automaton: wherever a header is taken from the stream the bytes before it are the end of the frame before, also if a message was left unread, refused, or of another type; a call that starts a message has finished the one before; no path closes the connection unless the peer, the transport, a limit or a hook gave reason.", Min: map[string]int{"messages started": 1, "header reads": 2}},
		{ID: "C18", Rule: "Every path that handles a close frame, by the length of its body and the set of status codes possible where the connection is closed: empty gives 1000, one byte 1002, an illegal code or a reason not known to be UTF-8 1002, otherwise that very code with its reason. Every path of CloseWithCode and Close: the close frame written has a code out of those allowed on the wire, the given one if that is legal, and 0 or 2 to 125 payload bytes.", Min: map[string]int{"close frames": 1, "codes echoed": 1, "close frames sent": 1}},
		{ID: "C19", Rule: "Same automaton: a ping is followed by one pong before the next header or the return, after its payload was taken in full, with a payload of the same length made of the same bytes; a pong whose payload compared equal clears the flag of the outstanding ping and moves the read deadline; one that compared unequal closes the connection; one is dropped only where the flag was seen clear. Ping writes its frame only after an atomic step that took the flag from clear to set.", Min: map[string]int{"control frames": 1, "pongs": 1, "pongs matched": 1, "pings sent": 1}, Limits: "What is read to skip a message the rate limiter refused is left out."},
		{ID: "C30", Rule: "Same automaton: a token is taken only after the header of the first frame of a message, once, cost one, from the bucket found under this connection; a message is handed out only after that, or where there is no limiter; after a refused token no payload of that message is delivered and NextReader does not succeed. Every path of Upgrade that succeeds has put a bucket made on that path under the new connection, before OnConnect, unless the limiter is nil; its rate and size are the arguments of NewRateLimiter; closing deletes it, nothing else that reads does.", Min: map[string]int{"tokens": 1, "buckets": 1, "connections handed over": 1}},
	} {
		id := pr.ID
		pr.Want = readerWant
		pr.Limits = strings.TrimSpace(readLimits + " " + pr.Limits)
		switch id {
		case "C18":
			pr.Want = func(p *Program, t Target) bool {
				return readerWant(p, t) || t.Kind == "api" && recvOf(t.Fn) == "Conn" && (p.isCloseFn(t.Fn) || t.Fn.Name() == "Close")
			}
		case "C30":
			pr.Finish = finishBuckets
			pr.Want = func(p *Program, t Target) bool {
				return readerWant(p, t) || t.Kind == "api" && (recvOf(t.Fn) == "Conn" && p.isCloseFn(t.Fn) || t.Fn.Name() == "Upgrade" || t.Fn.Name() == "NewRateLimiter")
			}
		case "C19":
			pr.Want = func(p *Program, t Target) bool {
				return readerWant(p, t) || recvOf(t.Fn) == "Conn" && (t.Kind == "go" || t.Fn.Name() == "Ping")
			}
		}
		pr.New = func(p *Program) Monitor { return &inParse{newBase(true), id, p.roles()} }
		register(pr)
	}
}
