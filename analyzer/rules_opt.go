package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C32: what is optional may be left out ----

// optional follows every use of a value that a program may leave out: fields of
// function, pointer and interface type, and parameters of the types that calls
// accept nil for.
type optional struct {
	base
	p *Program
	f *flushT
}

// optionalType: values of this type are left out by passing nil, wherever they
// come from.
func (m *optional) optionalType(t types.Type) bool {
	if t == nil {
		return false
	}
	if isContext(t) {
		return true
	}
	if isPtr(t) {
		switch typeName(deref(t)) {
		case "Options", "Upgrader", "RateLimiter", m.p.flusherName():
			return true
		}
		return false
	}
	sig, ok := t.Underlying().(*types.Signature)
	if !ok {
		return false
	}
	return typeName(t) != "Middlware" && sig.Params().Len() > 0
}

func (m *optional) whose(x *Exec, st *State, v *V) (what string, optional bool) {
	if v == nil || v.Typ == nil {
		return "", false
	}
	if _, ok := symElem[v]; ok {
		return "", false // what a list holds
	}
	if strings.HasPrefix(v.Name, "arg:") {
		if r := x.root.Signature.Recv(); r != nil && len(x.root.Params) > 0 && v.Name == "arg:"+x.root.Params[0].Name() {
			return "", false
		}
		return "parameter " + strings.TrimPrefix(v.Name, "arg:"), true
	}
	if a, ok := symField[v]; ok {
		s, f := fieldOf(a)
		if s == "" {
			return "", false
		}
		if n := m.p.structType(s); n != nil && types.Implements(types.NewPointer(n), errorIface()) {
			return "", false
		}
		return s + "." + f, true
	}
	if m.optionalType(v.Typ) {
		return "a value of type " + types.TypeString(v.Typ, shortQual), true
	}
	return "", false
}

func errorIface() *types.Interface {
	return types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
}

func nilable(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Signature, *types.Interface:
		return true
	}
	return false
}

// settle keeps what the path knows about MaxMessageSize as a flag, which no
// merging of paths loses.
func (m *optional) settle(x *Exec, st *State) {
	if x.root.Signature.Recv() != nil || st.f["mms"] == 1 {
		return
	}
	try := func(v *V) {
		if fieldRefOf(v) == "Options.MaxMessageSize" && st.known(v) {
			st.set("mms", 1)
		}
	}
	for f := range st.facts {
		walkV(f, try)
	}
	for v := range st.rng {
		walkV(v, try)
	}
}

// known: v is known not to be zero.
func (st *State) known(v *V) bool {
	r := st.rangeOf(v)
	if r.lo > 0 || r.hi < 0 {
		return true
	}
	t, ok := st.eval(vEq(v, kInt(0)))
	return ok && !t
}

func (m *optional) Event(x *Exec, st *State, ev *Event) {
	fn := x.caller(ev.Fn)
	m.settle(x, st)
	defer m.settle(x, st)
	switch ev.Kind {
	case "deref", "nilderef":
		v := ev.Args[0]
		what, ok := m.whose(x, st, v)
		if !ok {
			return
		}
		// what the library itself guarantees is a fact that is checked where it
		// is made
		if m.f != nil && what == m.f.name+"."+structUnder(m.f.typ).Field(m.f.custom).Name() && m.customPath(x, st, symField[v]) {
			m.fact("custom used")
			return
		}
		if b := m.p.batchType(); b != nil && v.Typ != nil && isPtr(v.Typ) && typeName(deref(v.Typ)) == b.name {
			m.fact("batch used|%s", recvOf(x.root))
			if recvOf(x.root) == m.p.flusherName() {
				return
			}
		}
		x.report(st, "nil-use", what, fn, ev.Pos, "%s is used although it can be nil", what)
	case "callback":
		m.ob("calls of functions supplied by the program", x, ev.Pos, ev.Name)
	case "external":
		if !strings.HasPrefix(ev.Name, "context.With") {
			return
		}
		for _, a := range ev.Args {
			if a == nil || a.Typ == nil || !isContext(a.Typ) {
				continue
			}
			if nn, ok := st.nonNil(a); !ok || !nn {
				x.report(st, "nil-use", "derived context", fn, ev.Pos, "a context is derived from one that can be nil")
			}
		}
	case "newtimer":
		if !strings.HasSuffix(ev.Name, "NewTicker") || len(ev.Args) < 2 {
			return
		}
		d := ev.Args[1]
		m.ob("tickers", x, ev.Pos)
		if st.rangeOf(d).lo > 0 {
			return
		}
		r := fieldRefOf(stripConv(d))
		if r == "" {
			x.report(st, "ticker", "", fn, ev.Pos, "a ticker can be made with an interval that is not positive: NewTicker panics")
			return
		}
		m.fact("positive|%s|%s|%s", r, fn.Name(), x.p.pos(ev.Pos))
	case "store":
		m.store(x, st, ev, fn)
	case "mapset":
		if len(ev.Args) < 2 || fieldRefOf(ev.Args[0]) == "" {
			return
		}
		s, _ := fieldOf(symField[ev.Args[0]])
		b := m.p.batchType()
		if s != m.p.flusherName() || b == nil || ev.Args[1].Typ == nil {
			return
		}
		m.member(x, st, ev.Args[1], fn, ev.Pos)
	case "panic":
		if len(ev.Args) == 0 || strings.HasPrefix(ev.Name, "type assertion") {
			return
		}
		m.panics(x, st, fn, ev.Pos)
	}
}

// customPath: the flusher's strategy is known to be the custom one.
func (m *optional) customPath(x *Exec, st *State, a *V) bool {
	if a == nil || a.Kind != KFld {
		return false
	}
	t := structUnder(m.f.typ).Field(m.f.strategy).Type()
	s := x.load0(st, x.fieldAddr(a.A[0], m.f.strategy, t), t)
	r := st.rangeOf(s)
	if r.lo == r.hi && r.lo == m.f.strats["StrategyCustom"] {
		return true
	}
	t2, ok := st.eval(vEq(s, kInt(m.f.strats["StrategyCustom"])))
	return ok && t2
}

// member: a connection becomes known to the flusher.
func (m *optional) member(x *Exec, st *State, conn *V, fn *ssa.Function, pos token.Pos) {
	ct := m.p.structType("Conn")
	su := structUnder(ct)
	b := m.p.batchType()
	for i := 0; i < su.NumFields(); i++ {
		if t := su.Field(i).Type(); isPtr(t) && typeName(deref(t)) == b.name {
			m.ob("connections added to a flusher", x, pos)
			v := x.load0(st, x.fieldAddr(conn, i, t), t)
			if nn, ok := st.nonNil(v); !ok || !nn {
				if x.root.Name() == fn.Name() {
					// seen on its own, without the caller that made the connection
					m.fact("adder|%s", fn.Name())
					return
				}
				x.report(st, "no-batch", "", fn, pos, "a connection can be made known to the flusher before it has a batch")
			}
			m.fact("batch set")
		}
	}
}

// store: fields that must be positive, and the batch that is never taken away.
func (m *optional) store(x *Exec, st *State, ev *Event, fn *ssa.Function) {
	a := ev.Args[0]
	if a.Kind != KFld || len(ev.Args) < 2 {
		return
	}
	s, f := fieldOf(a)
	v := ev.Args[1]
	if s == "" || v == nil {
		return
	}
	if b := m.p.batchType(); b != nil && s == "Conn" && v.Kind == KNil {
		if su := structUnder(m.p.structType("Conn")); su != nil {
			for i := 0; i < su.NumFields(); i++ {
				if su.Field(i).Name() == f && isPtr(su.Field(i).Type()) && typeName(deref(su.Field(i).Type())) == b.name && !isNewObj(rootOf(a)) {
					x.report(st, "no-batch", "taken", fn, ev.Pos, "the batch of a connection is taken away while the flusher may know the connection")
				}
			}
		}
	}
	if m.p.NonNilField[s+"."+f] && nilable(v.Typ) {
		// believed to be never nil
		if what, ok := m.whose(x, st, v); ok {
			m.ob("fields that are never nil", x, ev.Pos, s+"."+f)
			if nn, ok := st.nonNil(v); !ok || !nn {
				x.report(st, "nil-use", s+"."+f, fn, ev.Pos, "%s can be set to nil (%s), but is used without looking", s+"."+f, what)
			}
		}
	}
	if s == "Options" && f == "MaxMessageSize" {
		if st.known(v) {
			st.set("mms", 1)
		} else {
			st.set("mms", 0)
		}
	}
	_, isInt := v.isInt()
	if bt := basicOf(v.Typ); isInt || bt != nil && bt.Info()&types.IsInteger != 0 {
		k := "bad"
		if st.rangeOf(v).lo > 0 {
			k = "good"
		}
		r := st.rangeOf(v)
		m.fact("set|%s.%s|%s|%s|%s|%d|%d", s, f, k, fn.Name(), x.p.pos(ev.Pos), r.lo, r.hi)
	}
}

// panics: the path reaches an explicit panic. That is impossible if it knows
// that a field has none of the values it is restricted to.
func (m *optional) panics(x *Exec, st *State, fn *ssa.Function, pos token.Pos) {
	m.ob("explicit panics", x, pos)
	var why []string
	seen := map[*V]bool{}
	try := func(v *V) {
		if v == nil || seen[v] || v.Typ == nil {
			return
		}
		seen[v] = true
		b := basicOf(v.Typ)
		r := fieldRefOf(v)
		if b == nil || b.Info()&types.IsInteger == 0 || r == "" {
			return
		}
		var ex []string
		for i := int64(-1); i < 16; i++ {
			if rg := st.rangeOf(v); i < rg.lo || i > rg.hi {
				ex = append(ex, strconv.FormatInt(i, 10))
			} else if t, ok := st.eval(vEq(v, kInt(i))); ok && !t {
				ex = append(ex, strconv.FormatInt(i, 10))
			}
		}
		if len(ex) > 0 {
			why = append(why, r+"="+strings.Join(ex, ","))
		}
	}
	for f := range st.facts {
		walkV(f, try)
	}
	for v := range st.rng {
		walkV(v, try)
	}
	for _, v := range st.heap {
		try(v)
	}
	sort.Strings(why)
	m.fact("panic|%s|%s|%s", fn.Name(), x.p.pos(pos), strings.Join(why, ";"))
}

// the least value an option must have for the library to run with it.
func (m *optional) least() map[string]int64 {
	hdr := int64(14)
	if o, ok := m.p.Lib.Pkg.Scope().Lookup("MaxHeaderSize").(*types.Const); ok {
		if v, ok := constant.Int64Val(constant.ToInt(o.Val())); ok {
			hdr = v
		}
	}
	return map[string]int64{"WriteWait": 1, "ReadWait": 1, "PingEvery": 1, "WriteBufferSize": hdr + 1, "BroadcastChannelsSize": 1, "MaxBatchSize": 1}
}

func (m *optional) Return(x *Exec, st *State, ret *V) {
	root := x.root
	if m.f != nil && recvOf(root) == "Upgrader" && root.Name() != "Upgrade" && len(root.Params) > 0 {
		m.installed(x, st, x.paramValue(newState(), "arg:"+root.Params[0].Name(), root.Params[0].Type()))
	}
	if root.Signature.Recv() != nil || root.Parent() != nil {
		return
	}
	for _, r := range results(ret) {
		m.made(x, st, r, 0)
	}
}

// installed: the flusher an Enable function leaves behind can call what it needs.
func (m *optional) installed(x *Exec, st *State, u *V) {
	ut := m.p.structType("Upgrader")
	su := structUnder(ut)
	for i := 0; i < su.NumFields(); i++ {
		t := su.Field(i).Type()
		if !isPtr(t) || typeName(deref(t)) != m.f.name {
			continue
		}
		f := x.load0(st, x.fieldAddr(u, i, t), t)
		if f == nil || !isNewObj(f) {
			continue
		}
		fu := structUnder(m.f.typ)
		strat := x.load0(st, x.fieldAddr(f, m.f.strategy, fu.Field(m.f.strategy).Type()), fu.Field(m.f.strategy).Type())
		cust := x.load0(st, x.fieldAddr(f, m.f.custom, fu.Field(m.f.custom).Type()), fu.Field(m.f.custom).Type())
		m.ob("flushers installed", x, x.root.Pos())
		if t, ok := st.eval(vEq(strat, kInt(m.f.strats["StrategyCustom"]))); ok && !t {
			continue
		}
		if nn, ok := st.nonNil(cust); !ok || !nn {
			x.report(st, "nil-use", "send function", x.root, x.root.Pos(), "a flusher can be installed that sends batches with a function that is nil")
		}
		m.fact("custom set")
	}
}

// made: an object a constructor returns has an upgrader with usable options.
func (m *optional) made(x *Exec, st *State, v *V, depth int) {
	if v == nil || v.Typ == nil || depth > 2 || !isNewObj(v) {
		return
	}
	su := structUnder(v.Typ)
	if su == nil || libStruct(v.Typ) == "" {
		return
	}
	for i := 0; i < su.NumFields(); i++ {
		t := su.Field(i).Type()
		if !isPtr(t) {
			continue
		}
		switch typeName(deref(t)) {
		case "Upgrader":
			if su.Field(i).Name() != "Upgrader" {
				continue
			}
			u := x.load0(st, x.fieldAddr(v, i, t), t)
			m.ob("upgraders substituted", x, x.root.Pos())
			if nn, ok := st.nonNil(u); !ok || !nn {
				x.report(st, "nil-upgrader", "", x.root, x.root.Pos(), "%s can return an object without an upgrader", x.root.Name())
				continue
			}
			m.made(x, st, u, depth+1)
		case "Options":
			o := x.load0(st, x.fieldAddr(v, i, t), t)
			if nn, ok := st.nonNil(o); !ok || !nn {
				x.report(st, "nil-options", "", x.root, x.root.Pos(), "%s can return an upgrader without options", x.root.Name())
				continue
			}
			m.values(x, st, o)
		}
	}
}

func (m *optional) values(x *Exec, st *State, o *V) {
	ot := m.p.structType("Options")
	su := structUnder(ot)
	least := m.least()
	for i := 0; i < su.NumFields(); i++ {
		f := su.Field(i)
		b := basicOf(f.Type())
		if b == nil || b.Info()&types.IsInteger == 0 {
			continue
		}
		v := x.load0(st, x.fieldAddr(o, i, f.Type()), f.Type())
		r := st.rangeOf(v)
		m.fact("option|%s|%d|%d", f.Name(), r.lo, r.hi)
		if want, ok := least[f.Name()]; ok {
			m.ob("option values", x, x.root.Pos(), f.Name())
			if r.lo < want {
				x.report(st, "option", f.Name(), x.root, x.root.Pos(), "%s can leave the option %s at a value below %d", x.root.Name(), f.Name(), want)
			}
		}
		if f.Name() == "MaxMessageSize" {
			m.ob("option values", x, x.root.Pos(), f.Name())
			if !st.known(v) && st.f["mms"] != 1 {
				x.report(st, "option", f.Name(), x.root, x.root.Pos(), "%s can leave the option %s at zero, with which every message is refused", x.root.Name(), f.Name())
			}
		}
	}
}

func (m *optional) Init(x *Exec, st *State)    {}
func (m *optional) Done(x *Exec, exits []Exit) {}

func finishOptional(p *Program, r *Result) {
	lo, hi := map[string]int64{}, map[string]int64{}
	slo, shi := map[string]int64{}, map[string]int64{}
	needs := map[string][]string{}
	sets := map[string][]string{}
	var panics [][]string
	var facts []string
	for f := range r.Facts {
		facts = append(facts, f)
	}
	sort.Strings(facts)
	for _, f := range facts {
		s := strings.Split(f, "|")
		switch s[0] {
		case "option":
			a, _ := strconv.ParseInt(s[2], 10, 64)
			b, _ := strconv.ParseInt(s[3], 10, 64)
			if v, ok := lo[s[1]]; !ok || a < v {
				lo[s[1]] = a
			}
			if v, ok := hi[s[1]]; !ok || b > v {
				hi[s[1]] = b
			}
		case "positive":
			needs[s[1]] = append(needs[s[1]], s[2]+"|"+s[3])
		case "set":
			sets[s[1]] = append(sets[s[1]], strings.Join(s[2:5], "|"))
			a, _ := strconv.ParseInt(s[5], 10, 64)
			b, _ := strconv.ParseInt(s[6], 10, 64)
			if !strings.HasPrefix(s[1], "Options.") {
				slo[s[1]] = min(slo[s[1]], a) // zero if it is never set
				shi[s[1]] = max(shi[s[1]], b)
			}
		case "panic":
			panics = append(panics, s)
		}
	}
	for f, sites := range needs {
		at := strings.Split(sites[0], "|")
		if n := strings.TrimPrefix(f, "Options."); n != f {
			r.ob("fields that must be positive", f)
			if v, ok := lo[n]; !ok || v <= 0 {
				r.report("ticker", f, at[0], "%s: the interval %s is not known to be positive: NewTicker panics", at[1], f)
			}
			continue
		}
		good := len(sets[f]) > 0
		bad := ""
		for _, s := range sets[f] {
			if !strings.HasPrefix(s, "good|") {
				good, bad = false, strings.SplitN(s, "|", 3)[2]
			}
		}
		r.ob("fields that must be positive", f)
		if !good {
			r.report("ticker", f, at[0], "%s: the interval %s can be set to a value that is not positive (%s): NewTicker panics", at[1], f, bad)
		}
	}
	for _, s := range panics {
		ok := false
		for _, w := range strings.Split(s[3], ";") {
			f, vals, _ := strings.Cut(w, "=")
			n := strings.TrimPrefix(f, "Options.")
			l, ok1 := lo[n]
			h, ok2 := hi[n]
			if n == f {
				l, ok1 = slo[f]
				h, ok2 = shi[f]
			}
			if !ok1 || !ok2 || l < -1 || h > 15 {
				continue
			}
			all := true
			for i := l; i <= h; i++ {
				all = all && strings.Contains(","+vals+",", fmt.Sprintf(",%d,", i))
			}
			ok = ok || all
		}
		if !ok {
			r.report("panic", "", s[1], "%s: %s can panic with option values that are not replaced", s[2], s[1])
		}
	}
	if r.Facts["custom used"] && !r.Facts["custom set"] {
		r.report("nil-use", "send function", "", "no function was found that installs a flusher with the custom strategy")
	}
	if !r.Facts["batch set"] {
		for f := range r.Facts {
			if strings.HasPrefix(f, "batch used|") {
				r.report("no-batch", "", "", "the flusher uses the batch of its connections, but they are not known to have one when they are added")
				break
			}
		}
	}
}

func init() {
	register(&Prop{
		ID:     "C32",
		Rule:   "Every path of every entry point: a function, pointer or interface taken from a field, an optional parameter (context, options, upgrader, send function), or a value of such a type from anywhere, is called or dereferenced only where the path knows that it is not nil, or the field is never nil by construction; a flusher with the custom strategy is only installed with a send function, and a connection has a batch before the flusher knows it. Every constructor returns an object with an upgrader and options in which each value is in the range the library can run with (intervals and time limits positive, write buffer larger than a header, queue and batch sizes positive, MaxMessageSize not zero); the argument of every ticker is positive by that, and every explicit panic needs an option value outside of it.",
		Limits: "Elements of lists (a nil middleware, a nil connection) are not optional. Option values that are changed after they were handed over. Callbacks that panic.",
		Min:    map[string]int{"calls of functions supplied by the program": 8, "tickers": 1, "option values": 4, "upgraders substituted": 1, "flushers installed": 2},
		Want:   lockWant,
		New:    func(p *Program) Monitor { return &optional{base: newBase(true), p: p, f: p.flushType()} },
		Finish: finishOptional,
	})
}
