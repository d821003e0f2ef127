package main

import "strings"

// ---- C17: text is valid UTF-8 ----

type validText struct{ base }

func isWholeRead(t Target) bool {
	return t.Kind == "api" && recvOf(t.Fn) == "Conn" && (t.Fn.Name() == "ReadMessage" || t.Fn.Name() == "ReadString" || t.Fn.Name() == "ReadBinary")
}

// kindOnly: the path knows a header byte whose opcode can only be op. Only the
// first frame of a message can have the opcodes 1 and 2.
func (st *State) kindOnly(op int) bool {
	for v := range st.sets {
		set := st.possible(v, 256)
		if set == nil || set.n > 256 {
			continue
		}
		some, all := false, true
		for i := 0; i < set.n; i++ {
			if set.has(i) {
				some = true
				all = all && i&15 == op
			}
		}
		if some && all {
			return true
		}
	}
	return false
}

// validity of the bytes of data: 1 known to be valid, 2 known not to be, 0 unknown.
func (st *State) validity(data *V) int {
	for f, t := range st.facts {
		if f.Kind != KExpr || !strings.Contains(f.Name, "utf8.Valid") || len(f.A) == 0 {
			continue
		}
		if data == nil || st.sameBytes(f.A[len(f.A)-1], data) {
			if t {
				return 1
			}
			return 2
		}
	}
	return 0
}

// sameBytes: a and b are the same bytes, perhaps converted to a string.
func (st *State) sameBytes(a, b *V) bool {
	a, b = stripConv(a), stripConv(b)
	if a == b {
		return true
	}
	part := func(v *V) (base, lo, n *V) {
		if v.Kind == KSlice {
			return v.A[0], v.A[1], vSub(v.A[2], v.A[1])
		}
		return v, kInt(0), vLen(st, v)
	}
	ab, al, an := part(a)
	bb, bl, bn := part(b)
	return ab == bb && sameInt(st, al, bl) && sameInt(st, an, bn)
}

func (m *validText) skip(x *Exec, st *State) (val, known bool) {
	v := (&inParse{}).option(x, st, "SkipUTF8Validation")
	if v == nil {
		return false, true
	}
	if t, ok := v.isBool(); ok {
		return t, true
	}
	return st.eval(v)
}

func (m *validText) Event(x *Exec, st *State, ev *Event) {
	if ev.Kind == "assume" {
		// what the path knows is kept as flags, which no merging of paths loses
		if t, ok := m.skip(x, st); ok && t {
			st.set("skip", 1)
		}
		if st.kindOnly(2) {
			st.set("binary", 1)
		}
		for f, t := range st.facts {
			if t && f.Kind == KExpr && strings.Contains(f.Name, "utf8.Valid") && len(f.A) > 0 {
				st.set("valid", 1)
				st.v["valid"] = f.A[len(f.A)-1]
			}
		}
		return
	}
	if ev.Kind != "Close" || len(ev.Args) < 3 {
		return
	}
	st.set("cl", 1)
	if c, ok := ev.Args[1].isInt(); !ok || c != 1007 {
		return
	}
	m.ob("rejections", x, ev.Pos, x.caller(ev.Fn).Name())
	if t, ok := m.skip(x, st); !ok || t {
		x.report(st, "validated-anyway", "", x.caller(ev.Fn), ev.Pos, "a message can be rejected for its bytes although validation is disabled")
	}
	if !st.kindOnly(1) {
		x.report(st, "binary-rejected", "", x.caller(ev.Fn), ev.Pos, "a message that is not known to be text can be rejected for its bytes")
	}
	if st.validity(nil) != 2 {
		x.report(st, "valid-rejected", "", x.caller(ev.Fn), ev.Pos, "a message can be rejected although it was not found to be invalid")
	}
	st.set("rejected", 1)
}

func (m *validText) Return(x *Exec, st *State, ret *V) {
	rs := results(ret)
	e := lastErr(x, ret)
	if e == nil {
		return
	}
	cls := errClass(st, e)
	if st.f["rejected"] == 1 && cls != 'f' {
		x.report(st, "not-fatal", "", x.root, x.root.Pos(), "%s can report %s after it rejected invalid text", x.root.Name(), e)
	}
	if cls != 'n' && cls != '?' || st.f["cl"] == 1 {
		return
	}
	var data *V
	for i, r := range rs[:len(rs)-1] {
		if x.root.Signature.Results().At(i).Type().String() != "uint8" {
			data = r
		}
	}
	if data == nil {
		x.report(st, "unknown-result", "", x.root, x.root.Pos(), "the result of %s is not understood", x.root.Name())
		return
	}
	m.ob("messages returned", x, x.root.Pos(), x.root.Name())
	if t, ok := m.skip(x, st); ok && t || data.Kind == KNil {
		return
	}
	if st.f["skip"] == 1 || st.f["binary"] == 1 || st.kindOnly(2) || st.validity(data) == 1 {
		return
	}
	if v := st.v["valid"]; v != nil && st.sameBytes(v, data) {
		return
	}
	for i, r := range rs[:len(rs)-1] {
		if x.root.Signature.Results().At(i).Type().String() == "uint8" {
			if n, ok := r.isInt(); ok && n != 1 {
				return
			}
		}
	}
	x.report(st, "unvalidated", "", x.root, x.root.Pos(), "%s can return text that was not found to be valid UTF-8 although validation is on", x.root.Name())
}

func init() {
	register(&Prop{
		ID:     "C17",
		Rule:   "Every path of ReadMessage, ReadString and ReadBinary with all they call: where the error is nil and the data are not, either the opcode of the message can only be binary, or utf8.Valid was true of exactly these data, or SkipUTF8Validation is set; a closing with 1007 needs the opcode text, SkipUTF8Validation not set and utf8.Valid false, and a fatal error after it.",
		Limits: "One call from any state of the connection. CloseWithCode is replaced by its event; utf8.Valid is believed. NextReader and ReadJSON hand out what arrives without this promise.",
		Min:    map[string]int{"messages returned": 2, "rejections": 1},
		Want:   func(p *Program, t Target) bool { return isWholeRead(t) },
		New:    func(p *Program) Monitor { return &validText{newBase(true)} },
	})
}
