package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C20: the handshake ----

type shake struct{ base }

func (m *shake) Init(x *Exec, st *State) {
	x.keepApart()
	x.joinV = true
}

// fromHeader: v is made of request header h: the whole value or one element of
// its comma-separated list, trimmed or lowered.
func fromHeader(v *V) (h string, elem bool) {
	for v != nil {
		if v.Kind == KSym {
			if a := symElem[v]; a != nil && a.A[0].Kind == KExpr && a.A[0].Name == "strings.seq" {
				v = expr("strings.elem", nil, a.A[0], a.A[1])
			}
		}
		if v.Kind != KExpr {
			break
		}
		switch {
		case v.Name == "hdr":
			return strings.ToLower(v.A[0].S), elem
		case v.Name == "strings.elem":
			elem = true
			s := v.A[0]
			if s.Kind != KExpr || s.Name != "strings.seq" || len(s.A) > 1 && s.A[1] != kStr(",") {
				return "", false
			}
			v = s.A[0]
		case strings.HasSuffix(v.Name, "strings.TrimSpace"), strings.HasSuffix(v.Name, "strings.ToLower"), strings.HasPrefix(v.Name, "conv:"):
			v = v.A[len(v.A)-1]
		default:
			return "", false
		}
	}
	return "", false
}

func strOf(v *V) (string, bool) {
	if v != nil && v.Kind == KConst && v.Name == "string" {
		return v.S, true
	}
	return "", false
}

func isOptionField(v *V, name string) bool { return fieldRefOf(v) == "Options."+name }

// learn notes what a condition that holds says about the handshake.
func (m *shake) learn(x *Exec, st *State, c *V) {
	if c.Kind != KExpr {
		return
	}
	switch {
	case c.Name == "==", strings.Contains(c.Name, "strings.EqualFold"):
		a, b := c.A[0], c.A[1]
		if _, ok := strOf(a); ok {
			a, b = b, a
		}
		s, ok := strOf(b)
		if !ok {
			for i := 0; i < 2; i++ {
				if h, el := fromHeader(a); h == "sec-websocket-protocol" && el && x.elemOfOption(st, b, "SubProtocols") {
					st.v["sub"], st.v["sub2"] = a, b
				}
				a, b = b, a
			}
			return
		}
		if fieldRefOf(a) == "Request.Method" || a.Kind == KSym && strings.Contains(a.Name, "Request.Method") {
			if s == "GET" && c.Name == "==" {
				st.set("get", 1)
			}
			return
		}
		m.matched(st, a, s)
	case strings.Contains(c.Name, "slices.Contains"):
		l, e := c.A[0], c.A[1]
		if h, el := fromHeader(e); h == "sec-websocket-protocol" && el && isOptionField(l, "SubProtocols") {
			st.v["sub"] = e
		}
	}
}

func (m *shake) matched(st *State, a *V, s string) {
	h, _ := fromHeader(a)
	switch {
	case h == "upgrade" && strings.EqualFold(s, "websocket"), h == "connection" && strings.EqualFold(s, "upgrade"), h == "sec-websocket-version" && s == "13":
		st.set(h, 1)
	}
}

// elemOfOption: v is an element of the list in an option field.
func (x *Exec) elemOfOption(st *State, v *V, name string) bool {
	ok := false
	if a, is := symElem[v]; is {
		walkV(a, func(y *V) { ok = ok || isOptionField(y, name) })
	}
	walkV(v, func(y *V) { ok = ok || isOptionField(y, name) })
	return ok
}

func (m *shake) isMiddleware(x *Exec, args []*V) bool {
	for _, a := range args {
		for _, p := range x.root.Params {
			if strings.HasSuffix(p.Type().String(), "http.ResponseWriter") && unwrap(a) == x.paramValue(newState(), "arg:"+p.Name(), p.Type()) {
				return true
			}
		}
	}
	return false
}

func (m *shake) Event(x *Exec, st *State, ev *Event) {
	switch ev.Kind {
	case "assume":
		c, t := ev.Args[0], ev.N == 1
		for c.Kind == KExpr && c.Name == "!" {
			c, t = c.A[0], !t
		}
		m.mwEnd(x, st, c, t)
		if t {
			m.learn(x, st, c)
		}
	case "unbase64.ok":
		if h, _ := fromHeader(ev.Args[0]); h == "sec-websocket-key" {
			st.v["key"] = ev.Args[1]
		}
	case "callback":
		if m.isMiddleware(x, ev.Args[1:]) {
			m.ob("middleware calls", x, ev.Pos)
			if st.f["mw"] == 2 {
				x.report(st, "after-refusal", "mw", x.caller(ev.Fn), ev.Pos, "a middleware is called after one has refused")
			}
			if st.f["hj"] == 1 {
				x.report(st, "after-switch", "mw", x.caller(ev.Fn), ev.Pos, "a middleware is called after the connection was taken over")
			}
			st.set("mwdone", 0)
			if a := symElem[ev.Args[0]]; a != nil {
				st.v["mwi"], st.v["mwn"] = a.A[1], vAdd(a.A[1], kInt(1))
			}
		}
	case "cbret":
		if m.isMiddleware(x, ev.Args[2:]) && ev.Args[0] != vNil {
			st.set("mw", 2)
			st.v["mwerr"] = ev.Args[0]
		}
	case "external":
		if unwrap(ev.Args[0]) != nil && !m.isMiddleware(x, ev.Args[:1]) {
			return
		}
		switch ev.Name {
		case "net/http.ResponseWriter.WriteHeader":
			if st.rangeOf(ev.Args[1]).lo < 400 {
				x.report(st, "early-response", "status", x.caller(ev.Fn), ev.Pos, "a status that is no error can be sent before the connection was taken over")
			} else if st.f["he"] < 2 {
				st.set("he", st.f["he"]+1)
			}
		case "net/http.ResponseWriter.Write":
			if st.f["he"] == 0 {
				x.report(st, "early-response", "body", x.caller(ev.Fn), ev.Pos, "a body is sent without an error status")
			}
		}
	case "httperror":
		if r := st.rangeOf(ev.Args[2]); r.hi < 400 {
			x.report(st, "error-status", "", x.caller(ev.Fn), ev.Pos, "the status of the refusal is no error")
		}
		if st.f["he"] < 2 {
			st.set("he", st.f["he"]+1)
		}
	case "hijack":
		if ev.Name != "ok" {
			return
		}
		m.ob("switches", x, ev.Pos)
		st.set("hj", 1)
		m.allowed(x, st, ev)
	case "netwrite":
		m.response(x, st, ev)
	}
}

func (m *shake) allowed(x *Exec, st *State, ev *Event) {
	fn := x.caller(ev.Fn)
	need := func(ok bool, rule, format string, a ...any) {
		if !ok {
			x.report(st, rule, "", fn, ev.Pos, "the connection can be taken over "+format, a...)
		}
	}
	need(st.f["get"] == 1, "method", "although the method is not GET")
	for h, what := range map[string]string{"upgrade": "websocket", "connection": "upgrade", "sec-websocket-version": "13"} {
		need(st.f[h] == 1, "header-"+h, "although the header %s does not contain %s", h, what)
	}
	k := st.v["key"]
	need(k != nil && st.rangeOf(vLen(st, k)).lo == 16 && st.rangeOf(vLen(st, k)).hi == 16, "header-key", "although the key is not 16 bytes in base64")
	need(st.f["mw"] == 0, "middleware-refused", "although a middleware refused")
	need(st.f["he"] == 0, "after-error", "after an HTTP error was sent")
	r := (&inParse{}).option(x, st, "RejectRaw")
	if r != nil {
		t, ok := st.eval(r)
		if b, is := r.isBool(); is {
			t, ok = b, true
		}
		if (!ok || t) && st.v["sub"] == nil {
			need(false, "no-subprotocol", "without a subprotocol although one is required")
		}
	}
	mws := (&inParse{}).option(x, st, "Middlwares")
	if mws == nil {
		return
	}
	if t, ok := st.eval(vEq(mws, vNil)); ok && t || mws.Kind == KNil {
		return
	}
	if st.rangeOf(vLen(st, mws)).hi > 0 {
		need(st.f["mwdone"] == 1, "middleware-skipped", "without every middleware having been called")
	}
}

// mwEnd: a condition says that there is no further middleware.
func (m *shake) mwEnd(x *Exec, st *State, c *V, t bool) {
	if c.Kind != KExpr || len(c.A) != 2 {
		return
	}
	mws := (&inParse{}).option(x, st, "Middlwares")
	if mws == nil {
		return
	}
	n, i := vLen(st, mws), c.A[0]
	switch {
	case c.Name == "<" && c.A[1] == n && !t:
	case c.Name == "==" && c.A[1] == n && t:
	case c.Name == "==" && c.A[0] == n && t:
		i = c.A[1]
	default:
		return
	}
	next := kInt(0)
	if l := st.v["mwi"]; l != nil {
		next = vAdd(l, kInt(1))
	}
	if next == i || st.v["mwn"] == i {
		st.set("mwdone", 1)
	}
}

// parts flattens what a slice was put together from.
func parts(v *V) []*V {
	if v.Kind == KCat {
		var out []*V
		for _, a := range v.A {
			out = append(out, parts(a)...)
		}
		return out
	}
	return []*V{v}
}

func (m *shake) response(x *Exec, st *State, ev *Event) {
	if st.f["resp"] == 1 {
		return
	}
	st.set("resp", 1)
	fn := x.caller(ev.Fn)
	m.ob("responses", x, ev.Pos)
	if st.f["hj"] == 0 {
		x.report(st, "early-response", "", fn, ev.Pos, "something is written before the connection was taken over")
		return
	}
	ps := parts(ev.Args[0])
	text := ""
	vals := []*V{}
	for _, p := range ps {
		if s, ok := strOf(p); ok {
			text += s
			continue
		}
		text += fmt.Sprintf("\x00%d\x00", len(vals))
		vals = append(vals, p)
	}
	lines := strings.Split(text, "\r\n")
	if !strings.HasPrefix(lines[0], "HTTP/1.1 101 ") {
		x.report(st, "status", "", fn, ev.Pos, "the response is not understood as a 101 response (%q) %s", lines[0], ev.Args[0])
		return
	}
	if len(lines) < 3 || lines[len(lines)-1] != "" || lines[len(lines)-2] != "" {
		x.report(st, "unended", "", fn, ev.Pos, "the response does not end with an empty line")
	}
	hdr := map[string]*V{}
	for _, l := range lines[1:] {
		if l == "" {
			continue
		}
		k, v, ok := strings.Cut(l, ":")
		if !ok {
			x.report(st, "bad-line", "", fn, ev.Pos, "the response has a line that is no header (%q)", l)
			continue
		}
		k, v = strings.ToLower(k), strings.TrimSpace(v)
		if hdr[k] != nil {
			x.report(st, "header-twice", k, fn, ev.Pos, "the response has the header %s twice", k)
		}
		if strings.HasPrefix(v, "\x00") && strings.Count(v, "\x00") == 2 && strings.HasSuffix(v, "\x00") {
			i := 0
			fmt.Sscanf(strings.Trim(v, "\x00"), "%d", &i)
			hdr[k] = vals[i]
		} else {
			hdr[k] = kStr(v)
		}
	}
	for k, w := range map[string]string{"upgrade": "websocket", "connection": "upgrade"} {
		if s, ok := strOf(hdr[k]); !ok || !strings.EqualFold(s, w) {
			x.report(st, "response-"+k, "", fn, ev.Pos, "the response does not say %s: %s", k, w)
		}
	}
	if !acceptValue(hdr["sec-websocket-accept"]) {
		x.report(st, "accept", "", fn, ev.Pos, "the accept value of the response is not computed from the client's key (%s)", hdr["sec-websocket-accept"])
	}
	sub := hdr["sec-websocket-protocol"]
	if sub != nil {
		m.ob("subprotocols", x, ev.Pos)
		if sub != st.v["sub"] && sub != st.v["sub2"] {
			x.report(st, "subprotocol", "", fn, ev.Pos, "the response can name a subprotocol that was not offered and supported (%s)", sub)
		}
	} else if st.v["sub"] != nil {
		empty := func(v *V) bool {
			t, ok := st.eval(vEq(v, kStr("")))
			return v != nil && ok && t
		}
		if !empty(st.v["sub"]) && (st.v["sub2"] == nil || !empty(st.v["sub2"])) {
			x.report(st, "subprotocol-left-out", "", fn, ev.Pos, "the response can leave out the subprotocol that was chosen")
		}
	}
}

// acceptValue: base64(sha1(key + GUID)).
func acceptValue(v *V) bool {
	if v == nil || v.Kind != KExpr || v.Name != "base64" {
		return false
	}
	s := v.A[0]
	for s.Kind == KSlice {
		s = s.A[0]
	}
	if s.Kind != KExpr || s.Name != "sha1" {
		return false
	}
	a := parts(stripConv(s.A[0]))
	var flat []*V
	for _, p := range a {
		for _, q := range parts(stripConv(p)) {
			if e, ok := strOf(q); !ok || e != "" {
				flat = append(flat, q)
			}
		}
	}
	if len(flat) != 2 {
		return false
	}
	h, el := fromHeader(flat[0])
	g, _ := strOf(flat[1])
	return h == "sec-websocket-key" && !el && g == "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"
}

func (m *shake) Return(x *Exec, st *State, ret *V) {
	rs := results(ret)
	e := lastErr(x, ret)
	if e == nil {
		return
	}
	pos := x.root.Pos()
	switch errClass(st, e) {
	case 'n':
		m.ob("successes", x, pos)
		if st.f["hj"] == 0 || st.f["resp"] == 0 {
			x.report(st, "no-response", "", x.root, pos, "%s can succeed without the response having been sent", x.root.Name())
		}
	default:
		m.ob("refusals", x, pos)
		if rs[0] != vNil {
			x.report(st, "both", "", x.root, pos, "%s can return a connection together with an error", x.root.Name())
		}
		if st.f["hj"] == 0 && st.f["he"] != 1 {
			x.report(st, "http-errors", "", x.root, pos, "%s can refuse with %d HTTP errors sent", x.root.Name(), st.f["he"])
		}
		if me := st.v["mwerr"]; st.f["mw"] == 2 && me != nil {
			same := false
			walkV(e, func(y *V) { same = same || y == me })
			if !same && unwrap(e) != unwrap(me) {
				x.report(st, "other-error", "", x.root, pos, "%s returns %s where a middleware refused with %s", x.root.Name(), e, me)
			}
		}
	}
}

func init() {
	register(&Prop{
		ID:     "C21",
		Rule:   "Every path of Upgrade, Manager.Connect and RoomManager.Connect: a path that returns no error returns a connection that was taken over, not closed, entered in the rate limiter if there is one, and given to OnConnect exactly once (unless it is nil) after that entry; a path that returns an error returns no connection, has not called OnConnect and, if the socket was taken over on it, has closed it and either closed the connection through its closing function or started no goroutine and left no entry in any registry.",
		Limits: "What the closing function removes is C10; that goroutines end is C11.",
		Min:    map[string]int{"sockets taken over": 1, "successes": 3, "failures": 3, "failures after the switch": 2, "connect hooks": 1, "entries": 1},
		Want: func(p *Program, t Target) bool {
			return t.Kind == "api" && (recvOf(t.Fn) == "Upgrader" && t.Fn.Name() == "Upgrade" || t.Fn.Name() == "Connect")
		},
		New: func(p *Program) Monitor { return &leftover{newBase(true)} },
	})
	register(&Prop{
		ID:     "C20",
		Rule:   "Every path of Upgrade: the hijack comes only after conditions that hold on the path: the method equals GET; an element of the Upgrade list equals websocket and one of Connection upgrade, the version 13; the key decoded from base64 has 16 bytes; RejectRaw is off or a subprotocol was found that is an element both of the client's list and of SubProtocols; every middleware was called and returned nil; no HTTP error was sent. What is then written parses as a 101 response with Upgrade, Connection, the accept value base64(sha1(key+GUID)) of this request's key, and that subprotocol. A path that returns an error before the hijack sent exactly one HTTP error, returns no connection and the middleware's own error.",
		Limits: "The headers are those net/http gives (Header.Get). That strings, sha1 and base64 do what they say is taken for granted.",
		Min:    map[string]int{"switches": 1, "responses": 1, "refusals": 1, "successes": 1, "middleware calls": 1},
		Want: func(p *Program, t Target) bool {
			return t.Kind == "api" && recvOf(t.Fn) == "Upgrader" && t.Fn.Name() == "Upgrade"
		},
		New: func(p *Program) Monitor { return &shake{newBase(true)} },
	})
}

// ---- C21: what an upgrade leaves behind ----

type leftover struct{ base }

func (m *leftover) Init(x *Exec, st *State) {
	x.keepApart()
	x.joinV = true
}

func (m *leftover) limited(x *Exec, st *State) bool {
	return st.f["lim"] == 1 || (&inParse{}).noLimiter(x, st)
}

func (m *leftover) Event(x *Exec, st *State, ev *Event) {
	if v, isNil, ok := nilTest(ev); ok && isNil {
		if r := fieldRefOf(v); r != "" {
			st.set("nil:"+r[strings.IndexByte(r, '.')+1:], 1)
		}
	}
	switch ev.Kind {
	case "hijack":
		if ev.Name == "ok" {
			m.ob("sockets taken over", x, ev.Pos)
			st.set("hj", 1)
		}
	case "netclose":
		st.set("closed", 1)
	case "Close":
		st.set("closed", 1)
		st.set("cleaned", 1)
	case "mapset":
		for _, a := range ev.Args[1:] {
			if !isConn(a) {
				continue
			}
			m.ob("entries", x, ev.Pos, fieldRefOf(ev.Args[0]))
			if strings.HasSuffix(mapElem(ev.Args[0]), "rate.Limiter") {
				st.set("lim", 1)
			}
			if st.f["cleaned"] == 1 {
				x.report(st, "late-entry", fieldRefOf(ev.Args[0]), ev.Fn, ev.Pos, "an entry for the connection is made after it was closed and cleaned up")
			}
			st.set("left:entry "+fieldRefOf(ev.Args[0]), 1)
		}
	case "mapdelete":
		st.set("left:entry "+fieldRefOf(ev.Args[0]), 0)
		if strings.HasSuffix(mapElem(ev.Args[0]), "rate.Limiter") {
			st.set("lim", 0)
		}
	case "go":
		if st.f["hj"] == 1 && !x.p.isCloseFn(goFn(ev)) {
			m.ob("goroutines", x, ev.Pos, ev.Name)
			st.set("left:goroutine "+ev.Name, 1)
			if st.f["cleaned"] == 1 {
				return // it sees the closed signal
			}
		}
	case "callback":
		if strings.HasSuffix(ev.Name, ".OnConnect") {
			m.ob("connect hooks", x, ev.Pos)
			fn := x.caller(ev.Fn)
			if st.f["oc"] == 1 {
				x.report(st, "hook-twice", "", fn, ev.Pos, "the connect hook can be called twice for one upgrade")
			}
			st.set("oc", 1)
			st.v["oc"] = unwrap(ev.Args[1])
			if st.f["hj"] == 0 || st.f["closed"] == 1 {
				x.report(st, "hook-dead", "", fn, ev.Pos, "the connect hook is called for a connection that is not alive")
			}
			if !m.limited(x, st) {
				x.report(st, "hook-unlimited", "", fn, ev.Pos, "the connect hook gets the connection before the rate limiter knows it")
			}
		}
	}
}

// goFn: the function a go statement starts.
func goFn(ev *Event) *ssa.Function {
	if len(ev.Args) > 0 && ev.Args[0].Kind == KClos {
		return ev.Args[0].Fn
	}
	return nil
}

func (m *leftover) Return(x *Exec, st *State, ret *V) {
	e := lastErr(x, ret)
	if e == nil {
		return
	}
	rs, pos, name := results(ret), x.root.Pos(), x.root.Name()
	if errClass(st, e) == 'n' {
		m.ob("successes", x, pos, name)
		if nn, ok := st.nonNil(rs[0]); !ok || !nn {
			x.report(st, "no-connection", "", x.root, pos, "%s can return neither a connection nor an error", name)
		}
		if st.f["hj"] == 0 || st.f["closed"] == 1 {
			x.report(st, "dead", "", x.root, pos, "%s can succeed with a connection that is not alive", name)
		}
		if st.f["oc"] == 0 && st.f["nil:OnConnect"] == 0 {
			x.report(st, "hook-missing", "", x.root, pos, "%s can succeed without the connect hook having been called", name)
		}
		if c := st.v["oc"]; c != nil && isConn(rs[0]) && unwrap(rs[0]) != c {
			x.report(st, "hook-other", "", x.root, pos, "the connect hook is called for another connection than the one %s returns", name)
		}
		if !m.limited(x, st) {
			x.report(st, "unlimited", "", x.root, pos, "%s can return a connection the rate limiter does not know", name)
		}
		return
	}
	m.ob("failures", x, pos, name)
	for _, r := range rs[:len(rs)-1] {
		if r.Kind != KNil {
			x.report(st, "both", "", x.root, pos, "%s can return a connection together with an error", name)
		}
	}
	if st.f["oc"] == 1 {
		x.report(st, "hook-failed", "", x.root, pos, "%s can fail although the connect hook was called", name)
	}
	if st.f["hj"] == 0 {
		return
	}
	m.ob("failures after the switch", x, pos, name)
	if st.f["closed"] == 0 {
		x.report(st, "socket-left", "", x.root, pos, "%s can fail and leave the socket it took over open", name)
	}
	if st.f["cleaned"] == 1 {
		return
	}
	for k := range st.f {
		if strings.HasPrefix(k, "left:") {
			x.report(st, "left", k[5:], x.root, pos, "%s can fail and leave something behind: %s", name, k[5:])
		}
	}
}
