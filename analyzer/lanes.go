package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- C34: masking, decided on byte lanes ----
//
// The buffer is abstracted to a frontier F: every byte before it was XORed with
// its key byte exactly once, every byte from it on is untouched except for a
// few (offsets from F) that are done ahead of it. Integers are linear
// expressions over symbols whose residues are known or not, words are vectors
// of lanes, a lane being the XOR of bytes of the buffer, bytes of the key and a
// constant. A loop that isn't decided by constants is run to a fixpoint in
// which everything is expressed relative to F, one abstract state per residue
// of F.

type lsym struct {
	name     string
	show     string // name without what makes it unique
	res, mod int64  // known to be res modulo mod (1: nothing known)
	neg      bool   // can be negative
}

// lin is a linear expression.
type lin struct {
	c  int64
	co map[*lsym]int64
}

func lconst(c int64) lin { return lin{c: c} }
func lvar(s *lsym) lin   { return lin{co: map[*lsym]int64{s: 1}} }

func (a lin) add(b lin, k int64) lin {
	r := lin{c: a.c + k*b.c, co: map[*lsym]int64{}}
	for s, c := range a.co {
		r.co[s] = c
	}
	for s, c := range b.co {
		if r.co[s] += k * c; r.co[s] == 0 {
			delete(r.co, s)
		}
	}
	return r
}

func (a lin) scale(k int64) lin { return lconst(0).add(a, k) }
func (a lin) isConst() bool     { return len(a.co) == 0 }

func (a lin) String() string {
	return a.text(func(s *lsym) string { return s.name })
}

func (a lin) show() string {
	return a.text(func(s *lsym) string {
		if s.show != "" {
			return s.show
		}
		return s.name
	})
}

func (a lin) text(name func(*lsym) string) string {
	var l []string
	for s, c := range a.co {
		l = append(l, fmt.Sprintf("%d*%s", c, name(s)))
	}
	sort.Strings(l)
	return strings.Join(append(l, fmt.Sprint(a.c)), "+")
}

func (a lin) has(s *lsym) bool { return a.co[s] != 0 }

// mod: the residue modulo m, if it is known.
func (a lin) mod(m int64) (int64, bool) {
	r := a.c
	for s, c := range a.co {
		switch {
		case c%m == 0:
		case s.mod%m == 0:
			r += c * s.res
		default:
			g := gcd(c, m)
			if s.mod%(m/g) != 0 {
				return 0, false
			}
			r += c * s.res
		}
	}
	return ((r % m) + m) % m, true
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// lane is a byte: the XOR of atoms and a constant.
type lane struct {
	top  bool
	c    byte
	atom string // sorted, ";"-separated
}

func (a lane) xor(b lane) lane {
	if a.top || b.top {
		return lane{top: true}
	}
	m := map[string]bool{}
	for _, s := range append(split(a.atom), split(b.atom)...) {
		if m[s] = !m[s]; !m[s] {
			delete(m, s)
		}
	}
	return lane{c: a.c ^ b.c, atom: strings.Join(keys(m), ";")}
}

func split(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(s, ";")
}

func (a lane) isConst() bool { return !a.top && a.atom == "" }

// lval is an abstract value.
type lval struct {
	kind   byte // i integer, w word, s slice, p address, b condition, t tuple, f function, a array, ? unknown
	n      lin  // i; p: index
	lanes  []lane
	base   string // s, p: "b" the buffer, "k" the key, or an array
	lo, hi lin    // s
	op     token.Token
	x, y   lin // b
	t      []lval
	fn     *ssa.Function
	cell   bool // p: a whole variable
}

func (v lval) String() string {
	switch v.kind {
	case 'i':
		return "i" + v.n.show()
	case 'w', 'a':
		return fmt.Sprint(string(v.kind), v.lanes)
	case 's':
		return "s" + v.base + "[" + v.lo.show() + ":" + v.hi.show() + "]"
	case 'p':
		return fmt.Sprint("p", v.base, "[", v.n.show(), "]", v.cell)
	case 'b':
		return "b" + v.x.show() + v.op.String() + v.y.show()
	case 't':
		var l []string
		for _, e := range v.t {
			l = append(l, e.String())
		}
		return "t" + strings.Join(l, ",")
	case 'f':
		return "f" + v.fn.String()
	}
	return "?"
}

var lUnknown = lval{kind: '?'}

type lstate struct {
	n      *lsym          // the length of the buffer
	f      lin            // the frontier
	done   map[int64]bool // offsets from it that are done already
	facts  map[string]lin // >= 0
	frames []map[ssa.Value]lval
	cells  map[string]lval   // variables
	arr    map[string][]lane // arrays
}

func (s *lstate) clone() *lstate {
	n := &lstate{n: s.n, f: s.f, done: map[int64]bool{}, facts: map[string]lin{}, cells: map[string]lval{}, arr: map[string][]lane{}}
	for k := range s.done {
		n.done[k] = true
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.arr {
		n.arr[k] = append([]lane{}, v...)
	}
	for _, f := range s.frames {
		m := map[ssa.Value]lval{}
		for k, v := range f {
			m[k] = v
		}
		n.frames = append(n.frames, m)
	}
	return n
}

func (s *lstate) top() map[ssa.Value]lval { return s.frames[len(s.frames)-1] }

func (s *lstate) String() string {
	var l []string
	for i, f := range s.frames {
		for k, v := range f {
			l = append(l, fmt.Sprintf("%d/%s=%s", i, k.Name(), v))
		}
	}
	for k, v := range s.cells {
		l = append(l, k+"="+v.String())
	}
	for k, v := range s.arr {
		l = append(l, fmt.Sprint(k, v))
	}
	for k := range s.done {
		l = append(l, fmt.Sprint("d", k))
	}
	sort.Strings(l)
	return s.f.show() + "|" + strings.Join(l, "|")
}

// prove: e >= 0 on this path.
func (s *lstate) prove(e lin) bool {
	pos := func(e lin) bool {
		if e.c < 0 {
			return false
		}
		for v, c := range e.co {
			if c < 0 || v.neg {
				return false
			}
		}
		return true
	}
	if pos(e) {
		return true
	}
	// the frontier moves over bytes that were shown to be in the buffer
	all := []lin{lvar(s.n).add(s.f, -1)}
	for _, f := range s.facts {
		all = append(all, f)
	}
	for i, f := range all {
		r := e.add(f, -1)
		if pos(r) {
			return true
		}
		for _, g := range all[i:] {
			if r.smaller(g) && pos(r.add(g, -1)) {
				return true
			}
		}
	}
	return false
}

// smaller: subtracting g removes a symbol of a.
func (a lin) smaller(g lin) bool {
	for s, c := range g.co {
		if a.co[s] == c {
			return true
		}
	}
	return false
}

// dist is e as a constant, if the path knows that it is one.
func (s *lstate) dist(e lin) (int64, bool) {
	if e.isConst() {
		return e.c, true
	}
	all := []lin{lvar(s.n).add(s.f, -1)}
	for _, f := range s.facts {
		all = append(all, f)
	}
	for _, f := range all {
		if r := e.add(f, -1); r.isConst() && s.prove(lconst(r.c).add(e, -1)) {
			return r.c, true
		}
	}
	return 0, false
}

// learn that e >= 0; false if that cannot be.
func (s *lstate) learn(e lin) bool {
	if e.isConst() {
		return e.c >= 0
	}
	if s.prove(e.scale(-1).add(lconst(1), -1)) {
		return false
	}
	if t, ok := e.mod(8); ok {
		e = e.add(lconst(t), -1)
	} else if t, ok := e.mod(4); ok {
		e = e.add(lconst(t), -1)
	}
	if e.isConst() {
		return e.c >= 0
	}
	k := e.add(lconst(e.c), -1).String()
	if o, ok := s.facts[k]; !ok || o.c > e.c {
		s.facts[k] = e
	}
	return true
}

type lexit struct {
	st       *lstate
	ret      lval
	from, to *ssa.BasicBlock // an edge out of a loop
	back     bool
}

type laneExec struct {
	p      *Program
	root   *ssa.Function
	n, pos *lsym
	r      int64
	cnt    int
	steps  int
	start  time.Time
	report func(rule, detail string, fn *ssa.Function, pos token.Pos, format string, a ...any)
	ob     func(kind, what string)
	loops  map[*ssa.Function][]*lloop
	fns    map[string]bool
}

type lloop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type laneBail struct {
	why string
	pos token.Pos
	fn  *ssa.Function
}

func (x *laneExec) bail(in ssa.Instruction, format string, a ...any) {
	panic(laneBail{fmt.Sprintf(format, a...), in.Pos(), in.Parent()})
}

func (x *laneExec) loopsOf(fn *ssa.Function) []*lloop {
	if l, ok := x.loops[fn]; ok {
		return l
	}
	by := map[*ssa.BasicBlock]*lloop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := by[s]
			if l == nil {
				l = &lloop{s, map[*ssa.BasicBlock]bool{s: true}}
				by[s] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				c := work[0]
				work = work[1:]
				if !l.blocks[c] {
					l.blocks[c] = true
					work = append(work, c.Preds...)
				}
			}
		}
	}
	var out []*lloop
	for _, l := range by {
		out = append(out, l)
	}
	x.loops[fn] = out
	return out
}

func (x *laneExec) loopAt(b *ssa.BasicBlock) *lloop {
	for _, l := range x.loopsOf(b.Parent()) {
		if l.head == b {
			return l
		}
	}
	return nil
}

func (x *laneExec) call(fn *ssa.Function, args []lval, binds []lval, st *lstate, in ssa.Instruction) []lexit {
	if len(st.frames) > 12 {
		x.bail(in, "the calls are nested too deeply")
	}
	x.fns[fn.String()] = true
	env := map[ssa.Value]lval{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		if i < len(binds) {
			env[f] = binds[i]
		}
	}
	st.frames = append(st.frames, env)
	outs := x.explore(fn.Blocks[0], nil, st, nil)
	for i := range outs {
		outs[i].st.frames = outs[i].st.frames[:len(outs[i].st.frames)-1]
	}
	return outs
}

// enter evaluates the phis of a block.
func (x *laneExec) enter(b, pred *ssa.BasicBlock, st *lstate) {
	if pred == nil {
		return
	}
	idx := -1
	for i, p := range b.Preds {
		if p == pred {
			idx = i
		}
	}
	vals := map[ssa.Value]lval{}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[ph] = x.val(st, ph.Edges[idx])
	}
	for k, v := range vals {
		st.top()[k] = v
	}
}

// explore runs from b until the function returns or, in a loop, until an edge
// leaves it or goes back to its head.
func (x *laneExec) explore(b, pred *ssa.BasicBlock, st *lstate, in *lloop) []lexit {
	if l := x.loopAt(b); l != nil && l != in {
		x.enter(b, pred, st)
		var out []lexit
		for _, e := range x.runLoop(l, st) {
			if e.to == nil {
				out = append(out, e)
				continue
			}
			out = append(out, x.step(e.from, e.to, e.st, in)...)
		}
		return out
	}
	x.enter(b, pred, st)
	return x.body(b, st, in)
}

func (x *laneExec) step(from, to *ssa.BasicBlock, st *lstate, in *lloop) []lexit {
	if in != nil {
		if to == in.head {
			x.enter(to, from, st)
			return []lexit{{st: st, back: true}}
		}
		if !in.blocks[to] {
			return []lexit{{st: st, from: from, to: to}}
		}
	}
	return x.explore(to, from, st, in)
}

func (x *laneExec) runLoop(l *lloop, st *lstate) []lexit {
	var out []lexit
	// as long as every iteration is decided
	cur := st.clone()
	for i := 0; i < 200; i++ {
		ex := x.body(l.head, cur.clone(), l)
		var back, rest []lexit
		for _, e := range ex {
			if e.back {
				back = append(back, e)
			} else {
				rest = append(rest, e)
			}
		}
		if len(back) == 0 {
			return rest
		}
		if len(back) > 1 || len(rest) > 0 {
			break
		}
		cur = back[0].st
		if i == 199 {
			x.bail(l.head.Instrs[0], "a loop of more than 200 decided iterations")
		}
	}
	// a fixpoint, with one state per residue of the frontier
	x.cnt++
	id := x.cnt
	class := func(s *lstate) string {
		if r, ok := s.f.mod(8); ok {
			return fmt.Sprintf("%d/8", r)
		}
		if r, ok := s.f.mod(4); ok {
			return fmt.Sprintf("%d/4", r)
		}
		x.bail(l.head.Instrs[0], "the position is not known modulo 4 at a loop")
		return ""
	}
	syms := map[string]*lsym{}
	rounds := map[string]int{}
	heads := map[string]*lstate{class(cur): cur}
	work := []string{class(cur)}
	exits := map[string][]lexit{}
	for round := 0; len(work) > 0; round++ {
		if round > 400 {
			x.bail(l.head.Instrs[0], "no fixpoint for a loop")
		}
		c := work[0]
		work = work[1:]
		var outs []lexit
		for _, e := range x.body(l.head, heads[c].clone(), l) {
			if !e.back {
				outs = append(outs, e)
				continue
			}
			k := class(e.st)
			h := heads[k]
			if h == nil {
				heads[k] = e.st
				work = append(work, k)
				continue
			}
			if syms[k] == nil {
				var r, m int64
				fmt.Sscanf(k, "%d/%d", &r, &m)
				syms[k] = &lsym{name: fmt.Sprintf("F%d.%d", id, r), res: r, mod: m}
			}
			n := x.general(h, e.st, syms[k], fmt.Sprintf("%d.%s", id, k))
			same := n.String() == h.String()
			for _, e := range h.facts {
				same = same && n.prove(e)
			}
			if rounds[k]++; rounds[k] > 6 {
				for key, e := range n.facts {
					if o, ok := h.facts[key]; !ok || o.c != e.c {
						delete(n.facts, key)
					}
				}
				same = n.String() == h.String() && len(n.facts) == len(h.facts)
			}
			if !same {
				heads[k] = n
				work = append(work, k)
			}
		}
		exits[c] = outs
	}
	for _, k := range keysOf(heads) {
		out = append(out, exits[k]...)
	}
	x.ob("loops", fmt.Sprint(l.head.Parent().Name(), " block ", l.head.Index))
	return out
}

func keysOf(m map[string]*lstate) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// general is a state that describes both a and b, relative to the frontier phi.
func (x *laneExec) general(a, b *lstate, phi *lsym, id string) *lstate {
	f := lvar(phi)
	n := &lstate{n: a.n, f: f, done: map[int64]bool{}, facts: map[string]lin{}, cells: map[string]lval{}, arr: map[string][]lane{}}
	for k := range a.done {
		if b.done[k] {
			n.done[k] = true
		}
	}
	if len(n.done) != len(a.done) || len(n.done) != len(b.done) {
		n.done[-1] = true // not describable
	}
	one := func(u, v lin, key string) lin {
		if u.String() == v.String() && !u.has(phi) {
			return u
		}
		for _, k := range []int64{1, -1} {
			d, e := u.add(a.f, -k), v.add(b.f, -k)
			if d.String() == e.String() && !d.has(phi) {
				return d.add(f, k)
			}
		}
		// an affine relation with another factor
		s := x.fresh("T", true)
		s.show = "T" + id + "." + key
		for _, m := range []int64{8, 4} {
			ru, ok1 := u.mod(m)
			rv, ok2 := v.mod(m)
			if ok1 && ok2 && ru == rv {
				s.res, s.mod = ru, m
				s.show += fmt.Sprint("%", m)
				break
			}
		}
		return lvar(s)
	}
	var val func(u, v lval, key string) lval
	val = func(u, v lval, key string) lval {
		if u.kind != v.kind {
			return lUnknown
		}
		switch u.kind {
		case 'i':
			return lval{kind: 'i', n: one(u.n, v.n, key)}
		case 'w', 'a':
			if len(u.lanes) != len(v.lanes) {
				return lUnknown
			}
			w := lval{kind: u.kind}
			for i := range u.lanes {
				if u.lanes[i] == v.lanes[i] && !strings.Contains(u.lanes[i].atom, "B") {
					w.lanes = append(w.lanes, u.lanes[i])
				} else {
					w.lanes = append(w.lanes, lane{top: true})
				}
			}
			return w
		case 's':
			if u.base != v.base {
				return lUnknown
			}
			return lval{kind: 's', base: u.base, lo: one(u.lo, v.lo, key+".lo"), hi: one(u.hi, v.hi, key+".hi")}
		case 'p':
			if u.base != v.base || u.cell != v.cell {
				return lUnknown
			}
			return lval{kind: 'p', base: u.base, cell: u.cell, n: one(u.n, v.n, key)}
		case 'f':
			if u.fn != v.fn {
				return lUnknown
			}
			w := u
			w.t = nil
			for i := range u.t {
				w.t = append(w.t, val(u.t[i], v.t[i], fmt.Sprint(key, ".", i)))
			}
			return w
		}
		return lUnknown
	}
	for i := range a.frames {
		m := map[ssa.Value]lval{}
		for k, u := range a.frames[i] {
			if v, ok := b.frames[i][k]; ok {
				m[k] = val(u, v, fmt.Sprint(i, k.Name()))
			}
		}
		n.frames = append(n.frames, m)
	}
	for k, u := range a.cells {
		if v, ok := b.cells[k]; ok {
			n.cells[k] = val(u, v, k)
		} else {
			n.cells[k] = lUnknown
		}
	}
	for k, u := range a.arr {
		v := val(lval{kind: 'a', lanes: u}, lval{kind: 'a', lanes: b.arr[k]}, k)
		if v.kind == 'a' {
			n.arr[k] = v.lanes
		}
	}
	// what both know
	from := func(s, o *lstate) {
		for _, e := range s.facts {
			if !e.has(phi) && o.prove(e) {
				n.learn(e)
			}
			for _, k := range []int64{1, -1} {
				if d := e.add(s.f, -k); (len(d.co) < len(e.co) || s.f.isConst()) && !d.has(phi) && o.prove(d.add(o.f, k)) {
					n.learn(d.add(f, k))
				}
			}
		}
	}
	from(a, b)
	from(b, a)
	return n
}

func (x *laneExec) body(b *ssa.BasicBlock, st *lstate, in *lloop) []lexit {
	return x.instrs(b, 0, st, in)
}

func (x *laneExec) instrs(b *ssa.BasicBlock, i int, st *lstate, in *lloop) []lexit {
	for ; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps%64 == 0 && time.Since(x.start) > 60*time.Second {
			x.bail(b.Instrs[0], "no fixpoint in time")
		}
		if x.steps > 3000000 {
			x.bail(b.Instrs[0], "too many steps")
		}
		switch ins := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			return x.step(b, b.Succs[0], st, in)
		case *ssa.Return:
			var r lval
			switch len(ins.Results) {
			case 0:
			case 1:
				r = x.val(st, ins.Results[0])
			default:
				r.kind = 't'
				for _, v := range ins.Results {
					r.t = append(r.t, x.val(st, v))
				}
			}
			return []lexit{{st: st, ret: r}}
		case *ssa.If:
			c := x.val(st, ins.Cond)
			var out []lexit
			for k, want := range []bool{true, false} {
				s := st.clone()
				if x.assume(s, c, want) {
					out = append(out, x.step(b, b.Succs[k], s, in)...)
				}
			}
			return out
		case *ssa.Panic:
			return nil
		case *ssa.Call:
			exits := x.callInstr(ins, st)
			if exits == nil {
				return nil
			}
			if len(exits) == 1 {
				st = exits[0].st
				st.top()[ins] = exits[0].ret
				continue
			}
			var out []lexit
			for _, e := range exits {
				e.st.top()[ins] = e.ret
				out = append(out, x.instrs(b, i+1, e.st, in)...)
			}
			return out
		default:
			x.instr(ins, st)
		}
	}
	return nil
}

func (x *laneExec) assume(st *lstate, c lval, want bool) bool {
	if c.kind == 'i' && c.n.isConst() {
		return (c.n.c != 0) == want
	}
	if c.kind != 'b' {
		return true
	}
	op := c.op
	if !want {
		op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
	}
	d := c.y.add(c.x, -1) // y - x
	switch op {
	case token.LSS:
		return st.learn(d.add(lconst(1), -1))
	case token.LEQ:
		return st.learn(d)
	case token.GTR:
		return st.learn(d.scale(-1).add(lconst(1), -1))
	case token.GEQ:
		return st.learn(d.scale(-1))
	case token.EQL:
		if r, ok := d.mod(4); ok && r != 0 {
			return false
		}
		return st.learn(d) && st.learn(d.scale(-1))
	case token.NEQ:
		if d.isConst() {
			return d.c != 0
		}
		if st.prove(d) && st.prove(d.scale(-1)) {
			return false
		}
		if st.prove(d) {
			return st.learn(d.add(lconst(1), -1))
		}
		if st.prove(d.scale(-1)) {
			return st.learn(d.scale(-1).add(lconst(1), -1))
		}
	}
	return true
}

func (x *laneExec) val(st *lstate, v ssa.Value) lval {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil {
			switch v.Value.Kind() {
			case constant.Bool:
				if constant.BoolVal(v.Value) {
					return lval{kind: 'i', n: lconst(1)}
				}
				return lval{kind: 'i', n: lconst(0)}
			case constant.Int:
				if w := width(v.Type()); w > 0 {
					u, _ := constant.Uint64Val(v.Value)
					return constWord(u, w)
				}
				if c, ok := constant.Int64Val(v.Value); ok {
					return lval{kind: 'i', n: lconst(c)}
				}
			}
		}
		if w := width(v.Type()); w > 0 {
			return constWord(0, w)
		}
		return lUnknown
	case *ssa.Function:
		return lval{kind: 'f', fn: v}
	}
	if r, ok := st.top()[v]; ok {
		return r
	}
	return lUnknown
}

// width in bytes of an unsigned word.
func width(t types.Type) int {
	b := basicOf(t)
	if b == nil {
		return 0
	}
	switch b.Kind() {
	case types.Uint8:
		return 1
	case types.Uint16:
		return 2
	case types.Uint32:
		return 4
	case types.Uint64:
		return 8
	}
	return 0
}

func constWord(u uint64, w int) lval {
	v := lval{kind: 'w'}
	for i := 0; i < w; i++ {
		v.lanes = append(v.lanes, lane{c: byte(u >> (8 * i))})
	}
	return v
}

// asConst: the value is a constant.
func asConst(v lval) (int64, bool) {
	switch v.kind {
	case 'i':
		return v.n.c, v.n.isConst()
	case 'w':
		var r uint64
		for i, l := range v.lanes {
			if !l.isConst() {
				return 0, false
			}
			r |= uint64(l.c) << (8 * i)
		}
		return int64(r), true
	}
	return 0, false
}

func topWord(w int) lval {
	v := lval{kind: 'w'}
	for i := 0; i < w; i++ {
		v.lanes = append(v.lanes, lane{top: true})
	}
	return v
}

func (x *laneExec) fresh(name string, neg bool) *lsym {
	x.cnt++
	return &lsym{name: fmt.Sprintf("%s%d", name, x.cnt), mod: 1, neg: neg}
}

// div is a symbol for a/c, rounded down.
func (x *laneExec) div(st *lstate, in ssa.Instruction, a lin, c int64) lin {
	if a.isConst() {
		return lconst(a.c / c)
	}
	if !st.prove(a) {
		x.bail(in, "the division of a number that could be negative")
	}
	q := &lsym{name: "Q(" + a.String() + "/" + fmt.Sprint(c) + ")", mod: 1}
	l := lvar(q)
	for _, s := range symsOf(st) {
		if s.name == q.name {
			l = lvar(s)
		}
	}
	st.learn(a.add(l, -c))
	st.learn(lconst(c-1).add(a.add(l, -c), -1))
	return l
}

func symsOf(st *lstate) []*lsym {
	var out []*lsym
	for _, f := range st.facts {
		for s := range f.co {
			out = append(out, s)
		}
	}
	return out
}

func (x *laneExec) instr(in ssa.Instruction, st *lstate) {
	env := st.top()
	switch in := in.(type) {
	case *ssa.BinOp:
		env[in] = x.binop(in, st)
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			env[in] = x.load(in, x.val(st, in.X), st)
		case token.SUB:
			if v := x.val(st, in.X); v.kind == 'i' {
				env[in] = lval{kind: 'i', n: v.n.scale(-1)}
			}
		case token.XOR:
			v := x.val(st, in.X)
			if v.kind == 'w' {
				w := lval{kind: 'w'}
				for _, l := range v.lanes {
					w.lanes = append(w.lanes, l.xor(lane{c: 0xff}))
				}
				env[in] = w
			}
		case token.NOT:
			v := x.val(st, in.X)
			if v.kind == 'b' {
				v.op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}[v.op]
				env[in] = v
			} else if c, ok := asConst(v); ok {
				env[in] = lval{kind: 'i', n: lconst(1 - c)}
			}
		}
	case *ssa.Convert:
		env[in] = x.convert(in, x.val(st, in.X))
	case *ssa.ChangeType:
		env[in] = x.val(st, in.X)
	case *ssa.Alloc:
		t := deref(in.Type())
		x.cnt++
		id := fmt.Sprintf("%s.%d", in.Name(), len(st.frames))
		if a, ok := t.Underlying().(*types.Array); ok {
			if a.Len() > 64 || width(a.Elem()) != 1 {
				x.bail(in, "an array of %s", t)
			}
			st.arr[id] = make([]lane, a.Len())
			env[in] = lval{kind: 'p', base: id, cell: true}
		} else {
			z := lUnknown
			if w := width(t); w > 0 {
				z = constWord(0, w)
			} else if b := basicOf(t); b != nil && b.Info()&types.IsInteger != 0 {
				z = lval{kind: 'i'}
			}
			st.cells[id] = z
			env[in] = lval{kind: 'p', base: id, cell: true}
		}
	case *ssa.Store:
		x.store(in, x.val(st, in.Addr), x.val(st, in.Val), st)
	case *ssa.IndexAddr:
		b, i := x.val(st, in.X), x.val(st, in.Index)
		if w, ok := asConst(i); ok && i.kind == 'w' {
			i = lval{kind: 'i', n: lconst(w)}
		}
		if i.kind != 'i' {
			x.bail(in, "an unknown index")
		}
		switch {
		case b.kind == 's':
			x.within(in, st, b, i.n, i.n.add(lconst(1), 1))
			env[in] = lval{kind: 'p', base: b.base, n: b.lo.add(i.n, 1)}
		case b.kind == 'p' && b.cell:
			env[in] = lval{kind: 'p', base: b.base, n: i.n}
		default:
			x.bail(in, "an index of an unknown slice")
		}
	case *ssa.Index:
		b, i := x.val(st, in.X), x.val(st, in.Index)
		c, ok := asConst(i)
		if b.kind != 'a' || !ok || c < 0 || c >= int64(len(b.lanes)) {
			x.bail(in, "an unknown index")
		}
		env[in] = lval{kind: 'w', lanes: []lane{b.lanes[c]}}
	case *ssa.Slice:
		b := x.val(st, in.X)
		if b.kind == 'p' && b.cell && st.arr[b.base] != nil {
			b = lval{kind: 's', base: b.base, hi: lconst(int64(len(st.arr[b.base])))}
		}
		if b.kind != 's' {
			x.bail(in, "an unknown slice")
		}
		lo, hi := lconst(0), b.hi.add(b.lo, -1)
		if in.Low != nil {
			v := x.val(st, in.Low)
			if v.kind != 'i' {
				x.bail(in, "an unknown bound")
			}
			lo = v.n
		}
		if in.High != nil {
			v := x.val(st, in.High)
			if v.kind != 'i' {
				x.bail(in, "an unknown bound")
			}
			hi = v.n
		}
		x.within(in, st, b, lo, hi)
		env[in] = lval{kind: 's', base: b.base, lo: b.lo.add(lo, 1), hi: b.lo.add(hi, 1)}
	case *ssa.SliceToArrayPointer:
		b := x.val(st, in.X)
		n := deref(in.Type()).Underlying().(*types.Array).Len()
		if b.kind != 's' {
			x.bail(in, "an unknown slice")
		}
		x.within(in, st, b, lconst(0), lconst(n))
		env[in] = lval{kind: 'a', lanes: x.readN(in, st, b, n)}
		if b.base == "b" {
			x.bail(in, "an array over the buffer")
		}
	case *ssa.MakeClosure:
		v := lval{kind: 'f', fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			v.t = append(v.t, x.val(st, b))
		}
		env[in] = v
	case *ssa.Extract:
		if t := x.val(st, in.Tuple); t.kind == 't' && in.Index < len(t.t) {
			env[in] = t.t[in.Index]
		}
	case *ssa.FieldAddr, *ssa.MakeInterface, *ssa.Field, *ssa.ChangeInterface:
	default:
		x.bail(in, "%T is not followed", in)
	}
}

// within: [lo,hi) is inside the slice.
func (x *laneExec) within(in ssa.Instruction, st *lstate, b lval, lo, hi lin) {
	x.ob("bounds", x.p.pos(in.Pos()))
	if !st.prove(lo) || !st.prove(hi.add(lo, -1)) || !st.prove(b.hi.add(b.lo, -1).add(hi, -1)) {
		x.report("bounds", "", in.Parent(), in.Pos(), "[%s:%s] is not known to be inside the slice [%s:%s]", lo, hi, b.lo, b.hi)
	}
}

func (x *laneExec) binop(in *ssa.BinOp, st *lstate) lval {
	a, b := x.val(st, in.X), x.val(st, in.Y)
	switch in.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
		for _, v := range []*lval{&a, &b} {
			if c, ok := asConst(*v); ok {
				*v = lval{kind: 'i', n: lconst(c)}
			}
		}
		if a.kind == 'i' && b.kind == 'i' {
			return lval{kind: 'b', op: in.Op, x: a.n, y: b.n}
		}
		return lUnknown
	case token.SHL, token.SHR:
		k, ok := asConst(b)
		if !ok {
			if a.kind == 'w' {
				return topWord(len(a.lanes))
			}
			return lUnknown
		}
		if a.kind == 'i' {
			if in.Op == token.SHL && k < 32 {
				return lval{kind: 'i', n: a.n.scale(1 << k)}
			}
			if k < 32 {
				return lval{kind: 'i', n: x.div(st, in, a.n, 1<<k)}
			}
			return lUnknown
		}
		if a.kind != 'w' {
			return lUnknown
		}
		n := int64(len(a.lanes))
		if c, ok := asConst(a); ok {
			u := uint64(c) << uint(k)
			if in.Op == token.SHR {
				u = uint64(c) >> uint(k)
			}
			return constWord(u, int(n))
		}
		if k%8 != 0 {
			return topWord(int(n))
		}
		w := lval{kind: 'w', lanes: make([]lane, n)}
		for i := int64(0); i < n; i++ {
			j := i - k/8
			if in.Op == token.SHR {
				j = i + k/8
			}
			if j >= 0 && j < n {
				w.lanes[i] = a.lanes[j]
			}
		}
		return w
	}
	if a.kind == 'i' && b.kind == 'i' {
		c, isC := asConst(b)
		switch in.Op {
		case token.ADD:
			return lval{kind: 'i', n: a.n.add(b.n, 1)}
		case token.SUB:
			return lval{kind: 'i', n: a.n.add(b.n, -1)}
		case token.MUL:
			if isC {
				return lval{kind: 'i', n: a.n.scale(c)}
			}
			if k, ok := asConst(a); ok {
				return lval{kind: 'i', n: b.n.scale(k)}
			}
		case token.QUO:
			if isC && c > 0 {
				return lval{kind: 'i', n: x.div(st, in, a.n, c)}
			}
		case token.REM:
			if isC && c > 0 {
				return lval{kind: 'i', n: x.rem(st, in, a.n, c)}
			}
		case token.AND:
			if k, ok := asConst(a); ok && !isC {
				a, c, isC = b, k, true
			}
			if isC && c >= 0 && c&(c+1) == 0 {
				return lval{kind: 'i', n: x.rem(st, in, a.n, c+1)}
			}
			if isC && c < 0 && (-c)&(-c-1) == 0 {
				return lval{kind: 'i', n: a.n.add(x.rem(st, in, a.n, -c), -1)}
			}
		case token.AND_NOT:
			if isC && c >= 0 && c&(c+1) == 0 {
				return lval{kind: 'i', n: a.n.add(x.rem(st, in, a.n, c+1), -1)}
			}
		}
		return lval{kind: 'i', n: lvar(x.fresh("U", true))}
	}
	w := width(in.Type())
	if w == 0 {
		return lUnknown
	}
	for _, v := range []*lval{&a, &b} {
		if c, ok := asConst(*v); ok && v.kind == 'i' {
			*v = constWord(uint64(c), w)
		}
	}
	if a.kind != 'w' || b.kind != 'w' || len(a.lanes) != len(b.lanes) {
		return topWord(w)
	}
	ca, ok1 := asConst(a)
	cb, ok2 := asConst(b)
	if ok1 && ok2 {
		switch in.Op {
		case token.ADD:
			return constWord(uint64(ca)+uint64(cb), w)
		case token.SUB:
			return constWord(uint64(ca)-uint64(cb), w)
		case token.MUL:
			return constWord(uint64(ca)*uint64(cb), w)
		case token.REM:
			if cb != 0 {
				return constWord(uint64(ca)%uint64(cb), w)
			}
		}
	}
	if in.Op == token.MUL && (ok1 || ok2) {
		// key * 0x0000000100000001: copies at the lanes of the factor
		if ok1 {
			a, cb = b, ca
		}
		r := lval{kind: 'w', lanes: make([]lane, w)}
		for i := 0; i < w; i++ {
			switch byte(uint64(cb) >> (8 * i)) {
			case 0:
			case 1:
				for j := 0; i+j < w; j++ {
					l := a.lanes[j]
					if (l == lane{}) {
						continue
					}
					if (r.lanes[i+j] != lane{}) {
						return topWord(w)
					}
					r.lanes[i+j] = l
				}
			default:
				return topWord(w)
			}
		}
		return r
	}
	r := lval{kind: 'w'}
	for i := range a.lanes {
		l, m := a.lanes[i], b.lanes[i]
		o := lane{top: true}
		switch in.Op {
		case token.XOR:
			o = l.xor(m)
		case token.OR, token.ADD:
			zero := lane{}
			switch {
			case l == zero:
				o = m
			case m == zero:
				o = l
			case l.isConst() && m.isConst() && in.Op == token.OR:
				o = lane{c: l.c | m.c}
			case l == m && in.Op == token.OR:
				o = l
			case in.Op == token.ADD:
				return topWord(w)
			}
		case token.AND:
			switch {
			case l.isConst() && m.isConst():
				o = lane{c: l.c & m.c}
			case m.isConst() && m.c == 0xff:
				o = l
			case l.isConst() && l.c == 0xff:
				o = m
			case m.isConst() && m.c == 0 || l.isConst() && l.c == 0:
				o = lane{}
			case l == m:
				o = l
			}
		case token.AND_NOT:
			if m.isConst() && m.c == 0 {
				o = l
			} else if m.isConst() && m.c == 0xff {
				o = lane{}
			}
		}
		r.lanes = append(r.lanes, o)
	}
	return r
}

func (x *laneExec) rem(st *lstate, in ssa.Instruction, a lin, c int64) lin {
	if a.isConst() {
		if a.c < 0 {
			x.bail(in, "the remainder of a negative number")
		}
		return lconst(a.c % c)
	}
	if !st.prove(a) {
		x.bail(in, "the remainder of a number that could be negative")
	}
	if r, ok := a.mod(c); ok {
		return lconst(r)
	}
	return a.add(x.div(st, in, a, c), -c)
}

func (x *laneExec) convert(in *ssa.Convert, v lval) lval {
	w := width(in.Type())
	if w == 0 {
		if b := basicOf(in.Type()); b != nil && b.Info()&types.IsInteger != 0 {
			if c, ok := asConst(v); ok {
				return lval{kind: 'i', n: lconst(c)}
			}
			if v.kind == 'i' {
				return v
			}
			return lval{kind: 'i', n: lvar(x.fresh("U", true))}
		}
		return lUnknown
	}
	if v.kind == 'i' {
		if c, ok := asConst(v); ok {
			return constWord(uint64(c), w)
		}
		return topWord(w)
	}
	if v.kind != 'w' {
		return topWord(w)
	}
	r := lval{kind: 'w', lanes: make([]lane, w)}
	copy(r.lanes, v.lanes)
	return r
}

func (x *laneExec) readByte(in ssa.Instruction, st *lstate, base string, i lin) lane {
	switch base {
	case "b":
		d, ok := st.dist(i.add(st.f, -1))
		if !ok || d < 0 || st.done[d] || st.done[-1] {
			return lane{top: true}
		}
		return lane{atom: "B" + st.f.add(lconst(d), 1).String()}
	case "k":
		if i.isConst() && i.c >= 0 && i.c < 4 {
			return lane{atom: fmt.Sprintf("K%d", i.c)}
		}
		return lane{top: true}
	}
	if a := st.arr[base]; a != nil && i.isConst() && i.c >= 0 && i.c < int64(len(a)) {
		return a[i.c]
	}
	return lane{top: true}
}

func (x *laneExec) readN(in ssa.Instruction, st *lstate, s lval, n int64) []lane {
	var out []lane
	for i := int64(0); i < n; i++ {
		out = append(out, x.readByte(in, st, s.base, s.lo.add(lconst(i), 1)))
	}
	return out
}

func (x *laneExec) writeByte(in ssa.Instruction, st *lstate, base string, i lin, l lane) {
	if base == "k" {
		x.report("other-memory", "key", in.Parent(), in.Pos(), "the key is written to")
		return
	}
	if base != "b" {
		a := st.arr[base]
		if a == nil || !i.isConst() || i.c < 0 || i.c >= int64(len(a)) {
			x.bail(in, "a write to an unknown place")
		}
		a[i.c] = l
		return
	}
	x.ob("bytes written", x.p.pos(in.Pos()))
	d, ok := st.dist(i.add(st.f, -1))
	if !ok {
		x.report("skips", "", in.Parent(), in.Pos(), "a byte is written that is not the next one (index %s, done up to %s)", i, st.f)
		return
	}
	if d < 0 || st.done[d] {
		x.report("twice", "", in.Parent(), in.Pos(), "a byte is written a second time")
		return
	}
	i = st.f.add(lconst(d), 1)
	k, ok := i.mod(4)
	if !ok {
		x.bail(in, "an index whose residue isn't known")
	}
	want := lane{atom: "B" + i.String()}.xor(lane{atom: fmt.Sprintf("K%d", (k+x.r)%4)})
	if l != want {
		got := l.atom
		if l.top {
			got = "something unknown"
		}
		x.report("value", "", in.Parent(), in.Pos(), "for positions %d modulo 4, the byte %s becomes %s instead of %s", x.r, i, got, want.atom)
	}
	st.done[d] = true
	var n int64
	for st.done[n] {
		delete(st.done, n)
		n++
	}
	if n > 0 {
		m := map[int64]bool{}
		for k := range st.done {
			m[k-n] = true
		}
		st.done = m
		st.f = st.f.add(lconst(n), 1)
	}
}

func (x *laneExec) load(in ssa.Instruction, p lval, st *lstate) lval {
	if p.kind != 'p' {
		return lUnknown
	}
	if p.cell {
		if a, ok := st.arr[p.base]; ok {
			return lval{kind: 'a', lanes: append([]lane{}, a...)}
		}
		return st.cells[p.base]
	}
	return lval{kind: 'w', lanes: []lane{x.readByte(in, st, p.base, p.n)}}
}

func (x *laneExec) store(in *ssa.Store, p, v lval, st *lstate) {
	if p.kind != 'p' {
		x.report("other-memory", "", in.Parent(), in.Pos(), "memory other than the buffer's is written to")
		return
	}
	if p.cell {
		if _, ok := st.arr[p.base]; ok {
			if v.kind != 'a' {
				x.bail(in, "an unknown array")
			}
			st.arr[p.base] = append([]lane{}, v.lanes...)
			return
		}
		st.cells[p.base] = v
		return
	}
	if c, ok := asConst(v); ok && v.kind == 'i' {
		v = constWord(uint64(c), 1)
	}
	if v.kind != 'w' || len(v.lanes) != 1 {
		v = topWord(1)
	}
	x.writeByte(in, st, p.base, p.n, v.lanes[0])
}

func (x *laneExec) callInstr(in *ssa.Call, st *lstate) []lexit {
	var args []lval
	for _, a := range in.Call.Args {
		args = append(args, x.val(st, a))
	}
	one := func(v lval) []lexit { return []lexit{{st: st, ret: v}} }
	if b, ok := in.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap":
			if args[0].kind == 's' && b.Name() == "len" {
				return one(lval{kind: 'i', n: args[0].hi.add(args[0].lo, -1)})
			}
			if args[0].kind == 'p' && st.arr[args[0].base] != nil {
				return one(lval{kind: 'i', n: lconst(int64(len(st.arr[args[0].base])))})
			}
		case "min", "max":
			if len(args) == 2 && args[0].kind == 'i' && args[1].kind == 'i' {
				u, v := args[0].n, args[1].n
				if b.Name() == "max" {
					u, v = v, u
				}
				var out []lexit
				s := st.clone()
				if s.learn(args[1].n.add(args[0].n, -1)) {
					out = append(out, lexit{st: s, ret: lval{kind: 'i', n: u}})
				}
				s = st.clone()
				if s.learn(args[0].n.add(args[1].n, -1).add(lconst(1), -1)) {
					out = append(out, lexit{st: s, ret: lval{kind: 'i', n: v}})
				}
				return out
			}
		case "copy":
			d, s := args[0], args[1]
			if d.kind == 's' && s.kind == 's' && d.base != "b" && d.base != "k" {
				n, ok := asConst(lval{kind: 'i', n: d.hi.add(d.lo, -1)})
				m, ok2 := asConst(lval{kind: 'i', n: s.hi.add(s.lo, -1)})
				if ok && ok2 {
					n = min(n, m)
				} else if ok && s.base == "k" {
					n = min(n, 4)
				}
				if ok {
					for i, l := range x.readN(in, st, s, n) {
						x.writeByte(in, st, d.base, d.lo.add(lconst(int64(i)), 1), l)
					}
					return one(lval{kind: 'i', n: lconst(n)})
				}
			}
		case "ssa:wrapnilchk":
			return one(args[0])
		}
		x.bail(in, "%s is not followed", b.Name())
	}
	fn := in.Call.StaticCallee()
	if fn == nil {
		v := x.val(st, in.Call.Value)
		if v.kind != 'f' || len(v.fn.Blocks) == 0 {
			x.bail(in, "an unknown function is called")
		}
		return x.call(v.fn, args, v.t, st, in)
	}
	if mc, ok := in.Call.Value.(*ssa.MakeClosure); ok {
		return x.call(fn, args, x.val(st, mc).t, st, in)
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	for _, e := range []string{"little", "big"} {
		pre := "(encoding/binary." + e + "Endian)."
		m, ok := strings.CutPrefix(name, pre)
		if !ok {
			continue
		}
		w, put := map[string]int64{"Uint16": 2, "Uint32": 4, "Uint64": 8, "PutUint16": 2, "PutUint32": 4, "PutUint64": 8}[m], strings.HasPrefix(m, "Put")
		if w == 0 || args[1].kind != 's' {
			break
		}
		x.within(in, st, args[1], lconst(0), lconst(w))
		if !put {
			l := x.readN(in, st, args[1], w)
			if e == "big" {
				for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
					l[i], l[j] = l[j], l[i]
				}
			}
			return one(lval{kind: 'w', lanes: l})
		}
		v := args[2]
		if c, ok := asConst(v); ok && v.kind == 'i' {
			v = constWord(uint64(c), int(w))
		}
		if v.kind != 'w' || int64(len(v.lanes)) != w {
			v = topWord(int(w))
		}
		for i := int64(0); i < w; i++ {
			l := v.lanes[i]
			if e == "big" {
				l = v.lanes[w-1-i]
			}
			x.writeByte(in, st, args[1].base, args[1].lo.add(lconst(i), 1), l)
		}
		return one(lUnknown)
	}
	switch name {
	case "math/bits.RotateLeft32", "math/bits.RotateLeft64", "math/bits.RotateLeft16":
		k, ok := asConst(args[1])
		v := args[0]
		if v.kind != 'w' {
			v = topWord(width(fn.Signature.Results().At(0).Type()))
		}
		n := int64(len(v.lanes))
		if !ok || k%8 != 0 {
			return one(topWord(int(n)))
		}
		w := lval{kind: 'w', lanes: make([]lane, n)}
		for i := int64(0); i < n; i++ {
			w.lanes[(((i+k/8)%n)+n)%n] = v.lanes[i]
		}
		return one(w)
	case "math/bits.ReverseBytes32", "math/bits.ReverseBytes64":
		v := args[0]
		if v.kind != 'w' {
			v = topWord(width(fn.Signature.Results().At(0).Type()))
		}
		w := lval{kind: 'w'}
		for i := len(v.lanes) - 1; i >= 0; i-- {
			w.lanes = append(w.lanes, v.lanes[i])
		}
		return one(w)
	}
	if fn.Pkg != nil && isLibPkg(fn.Pkg.Pkg) && len(fn.Blocks) > 0 || strings.Contains(name, "$") && len(fn.Blocks) > 0 {
		return x.call(fn, args, nil, st, in)
	}
	x.bail(in, "%s is not followed", name)
	return nil
}

func maskRoot(p *Program) *ssa.Function {
	for _, fn := range p.Funcs {
		if fn.Pkg != nil && isLibPkg(fn.Pkg.Pkg) && isMaskFn(fn) {
			return fn
		}
	}
	return nil
}

func finishMask(p *Program, r *Result) {
	root := maskRoot(p)
	if root == nil || len(root.Blocks) == 0 {
		r.report("undecided", "mask", "mask", "no masking function was found")
		return
	}
	seen := map[string]bool{}
	for res := int64(0); res < 8; res++ {
		x := &laneExec{p: p, root: root, r: res % 4, start: time.Now(), loops: map[*ssa.Function][]*lloop{}, fns: map[string]bool{}}
		x.n = &lsym{name: "n", mod: 1}
		x.pos = &lsym{name: "pos", res: res, mod: 8}
		x.ob = func(kind, what string) { r.ob(kind, what) }
		x.report = func(rule, detail string, fn *ssa.Function, pos token.Pos, format string, a ...any) {
			k := rule + "|" + fn.String() + "|" + detail
			if seen[k] {
				return
			}
			seen[k] = true
			r.Reports = append(r.Reports, &Report{Rule: rule, Where: p.pos(pos), Fn: fn.String(), Root: root.String(), Msg: fmt.Sprintf(format, a...), Key: k})
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					b, ok := e.(laneBail)
					if !ok {
						panic(e)
					}
					x.report("undecided", b.why, b.fn, b.pos, "%s", b.why)
				}
			}()
			st := &lstate{n: x.n, done: map[int64]bool{}, facts: map[string]lin{}, cells: map[string]lval{}, arr: map[string][]lane{}}
			args := []lval{
				{kind: 's', base: "b", hi: lvar(x.n)},
				{kind: 's', base: "k", hi: lconst(4)},
				{kind: 'i', n: lvar(x.pos)},
			}
			if _, ok := root.Params[1].Type().Underlying().(*types.Array); ok {
				args[1] = lval{kind: 'a', lanes: []lane{{atom: "K0"}, {atom: "K1"}, {atom: "K2"}, {atom: "K3"}}}
			}
			for _, e := range x.call(root, args, nil, st, root.Blocks[0].Instrs[0]) {
				r.ob("paths that end", fmt.Sprintf("%d %s", res, e.st.f))
				if len(e.st.done) > 0 || !e.st.prove(e.st.f.add(lvar(x.n), -1)) {
					x.report("incomplete", "", root, root.Pos(), "not every byte of the buffer is known to be masked at the end (up to %s of n)", e.st.f)
				}
				d := e.ret.n.add(lvar(x.pos), -1).add(lvar(x.n), -1)
				ok := e.ret.kind == 'i'
				if c, isc := d.mod(4); ok && !(isc && c == 0) {
					ok = e.st.prove(d) && e.st.prove(d.scale(-1))
				}
				if !ok {
					x.report("position", "", root, root.Pos(), "the position returned is not the old one plus the number of bytes (%s)", e.ret)
				}
			}
		}()
		r.Outs = append(r.Outs, &WorkerOut{Target: fmt.Sprintf("%s, positions %d modulo 8", root, res), Steps: x.steps, Calls: keys(x.fns)})
	}
}

func init() {
	register(&Prop{ID: "C34",
		Rule:   "Abstract interpretation of the masking function and what it calls over byte lanes, once for every residue of the start position modulo 4: words are vectors of bytes, each the exclusive or of bytes of the buffer, bytes of the key and a constant; indexes are linear expressions; loops whose number of rounds depends on the length are run to a fixpoint relative to the frontier up to which the buffer is masked. Every write to the buffer must store, at the index i, exactly the byte that was there XOR key byte (start + i) mod 4, at an index not written before, inside the slice; at every return the whole buffer is masked and the result is the start position plus the length (modulo 4); nothing else is written to.",
		Limits: "Positions are non-negative and the key has four bytes (the callers pass a [4]byte and their own counter; see C15). Endianness and rotation functions of the standard library are modelled.",
		Tech:   "abstract interpretation over byte lanes and linear index expressions",
		Finish: finishMask,
		Min:    map[string]int{"bytes written": 1, "bounds": 1, "loops": 1, "paths that end": 4},
	})
}
