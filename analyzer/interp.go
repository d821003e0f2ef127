package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Event is something a rule may observe on a path.
type Event struct {
	Kind  string
	Name  string
	Args  []*V
	Pos   token.Pos
	Fn    *ssa.Function
	Cases []SelCase // select / blocking channel operations
	Block bool      // may block
	N     int       // chosen case
}

type SelCase struct {
	Dir  byte // '>' send, '<' receive
	Chan *V
	Val  *V
	Lock string // the operation acquires this channel lock
	Rel  string // the operation releases this channel lock
}

// Checker receives the events of every path.
type Checker interface {
	Event(x *Exec, st *State, ev *Event)
	// Call may replace a call to a library function.
	Call(x *Exec, st *State, fn *ssa.Function, args []*V, pos token.Pos) ([]Exit, bool)
	Return(x *Exec, st *State, ret *V)
}

type Exit struct {
	st  *State
	ret *V
}

type Exec struct {
	p        *Program
	chk      Checker
	root     *ssa.Function
	rootRet  token.Pos
	steps    int
	max      int
	maxMem   uint64
	deadline time.Time
	paths    int
	states   int
	calls    map[*ssa.Function]bool
	reports  *Reports
	bail     string
	stack    []*ssa.Function
	label    string // instance label for reports
	curFn    *ssa.Function
	rec      int
	events   map[string]int
	seenEv   map[string]bool
	debug    bool
	unknown  map[string]bool
	noJoin   map[*ssa.Function]bool // exits are joined only if equal
	maxSplit int                    // see maxSplit
	joinV    bool                   // values of the rule are joined like others at exits
	relTo    func(A, B *State) []*V // values that joins keep comparisons with, besides settings
	multi    map[string]bool        // library types of which a path may meet several instances
}

type deferred struct {
	in   *ssa.Defer
	fn   *V
	args []*V
}

type item struct {
	st     *State
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	env    map[ssa.Value]*V
	defers []deferred
	renN   int
}

func (it *item) fork() *item { return it.with(it.st.clone()) }

// with copies the frame for another state.
func (it *item) with(st *State) *item {
	return &item{st: st, blk: it.blk, prev: it.prev, pc: it.pc, env: cp(it.env), defers: append([]deferred(nil), it.defers...), renN: it.renN}
}

type fnInfo struct {
	live  []map[ssa.Value]bool // live-in per block
	heads map[*ssa.BasicBlock]bool
	rpo   []int
	end   map[*ssa.BasicBlock]int // loop head -> highest number in the loop
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := fnInfos[fn]; ok {
		return i
	}
	i := &fnInfo{heads: map[*ssa.BasicBlock]bool{}}
	n := len(fn.Blocks)
	i.live = make([]map[ssa.Value]bool, n)
	for k := range i.live {
		i.live[k] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for k := n - 1; k >= 0; k-- {
			b := fn.Blocks[k]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range i.live[s.Index] {
					live[v] = true
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for pi, pr := range s.Preds {
						if pr == b {
							live[phi.Edges[pi]] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						live[*op] = true
					}
				}
			}
			// results assigned through named results and recover block are ignored
			if len(live) != len(i.live[k]) {
				i.live[k] = live
				ch = true
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				i.heads[s] = true
			}
		}
	}
	i.rpo = rpo(fn)
	i.end = map[*ssa.BasicBlock]int{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !i.heads[h] || !h.Dominates(b) {
				continue
			}
			// the natural loop of the back edge b -> h
			seen := map[*ssa.BasicBlock]bool{h: true}
			work := []*ssa.BasicBlock{b}
			i.end[h] = max(i.end[h], i.rpo[h.Index])
			for len(work) > 0 {
				c := work[len(work)-1]
				work = work[:len(work)-1]
				if seen[c] {
					continue
				}
				seen[c] = true
				i.end[h] = max(i.end[h], i.rpo[c.Index])
				work = append(work, c.Preds...)
			}
		}
	}
	fnInfos[fn] = i
	return i
}

func (x *Exec) fail(msg string) {
	if x.bail == "" {
		x.bail = msg
		if os.Getenv("WSDEBUG") != "" {
			fmt.Fprintln(os.Stderr, "BAIL", x.root, msg)
		}
	}
}

func (x *Exec) pos(p token.Pos) string {
	ps := x.p.SSA.Fset.Position(p)
	if !ps.IsValid() {
		return "?"
	}
	f := ps.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (x *Exec) emit(st *State, ev *Event) {
	if st.dead {
		return
	}
	if ev.Fn == nil {
		ev.Fn = x.curFn
	}
	x.events[ev.Kind]++
	k := ev.Kind + "|" + ev.Name + "|" + x.pos(ev.Pos)
	x.seenEv[k] = true
	if x.debug {
		var a []string
		for _, v := range ev.Args {
			if v != nil {
				a = append(a, v.String())
			} else {
				a = append(a, "-")
			}
		}
		var h []string
		for _, l := range st.held {
			h = append(h, l.Name)
		}
		fmt.Fprintf(os.Stderr, "  EV %s %s(%s) @%s in %s held=%v\n", ev.Kind, ev.Name, strings.Join(a, ", "), x.pos(ev.Pos), ev.Fn.Name(), h)
	}
	st.note(ev.Pos, ev.Kind+" "+ev.Name)
	x.chk.Event(x, st, ev)
}

// freshSym creates a symbol named by its creation site. If the state already
// uses the symbol (an earlier loop iteration), the earlier one is renamed.
func (x *Exec) freshSym(st *State, name string, t types.Type) *V {
	s := sym(name, t)
	x.renew(st, s, func(n string) *V { return sym(n, t) })
	return s
}

func (x *Exec) freshObj(st *State, name string, t types.Type) *V {
	s := obj(name, t)
	x.renew(st, s, func(n string) *V { return obj(n, t) })
	return s
}

func (x *Exec) renew(st *State, s *V, mk func(string) *V) {
	if st.created[s] {
		old := mk(s.Name + "'")
		if st.mentions(old) {
			// what stood there before that
			older := mk(s.Name + "''")
			if st.mentions(older) {
				// two values share the name: nothing is known about them
				st.forget(old)
				st.dropCells(old)
			}
			st.forget(older)
			st.dropCells(older)
			st.substAll(map[*V]*V{old: older})
			st.created[older] = true
			st.ren = append(st.ren, renaming{old, older})
		}
		st.rename(s, old)
	}
	st.created[s] = true
}

// rename makes old stand for what s stood for so far.
func (s *State) rename(x, old *V) {
	s.forget(old)
	s.dropCells(old)
	s.substAll(map[*V]*V{x: old})
	s.created[old] = true
	s.ren = append(s.ren, renaming{x, old})
}

// since is v after the renamings made since the first n.
func (s *State) since(n int, v *V) *V {
	for _, r := range s.ren[n:] {
		v = subst(v, map[*V]*V{r.from: r.to}, map[*V]*V{})
	}
	return v
}

func (s *State) dropCells(o *V) {
	for k := range s.heap {
		if contains(k, o) {
			delete(s.heap, k)
		}
	}
}

// mentions: o is part of a value the program or the rule still has.
func (s *State) mentions(o *V) bool {
	for _, v := range s.heap {
		if contains(v, o) {
			return true
		}
	}
	for _, v := range s.v {
		if contains(v, o) {
			return true
		}
	}
	for _, h := range s.held {
		if h.Obj != nil && contains(h.Obj, o) {
			return true
		}
	}
	for _, it := range envStack {
		names := []*V{o}
		for i := len(s.ren) - 1; i >= it.renN; i-- {
			for _, n := range names {
				if s.ren[i].to == n {
					names = append(names, s.ren[i].from)
					break
				}
			}
		}
		for _, v := range it.env {
			for _, n := range names {
				if contains(v, n) {
					return true
				}
			}
		}
	}
	return false
}

// envStack holds the frames of the path being executed, innermost last.
var envStack []*item

// sync applies the renamings made since the last sync to the frame of it.
func (it *item) sync() {
	if it.renN == len(it.st.ren) {
		return
	}
	for _, r := range it.st.ren[it.renN:] {
		m := map[*V]*V{r.from: r.to}
		memo := map[*V]*V{}
		for k, v := range it.env {
			it.env[k] = subst(v, m, memo)
		}
		var nd []deferred
		for _, d := range it.defers {
			n := deferred{in: d.in, fn: subst(d.fn, m, memo)}
			for _, a := range d.args {
				n.args = append(n.args, subst(a, m, memo))
			}
			nd = append(nd, n)
		}
		it.defers = nd
	}
	it.renN = len(it.st.ren)
}

// prune drops the registers that are not used after the current instruction.
func (it *item) prune() {
	b := it.blk
	live := map[ssa.Value]bool{}
	info := infoOf(b.Parent())
	for _, s := range b.Succs {
		for v := range info.live[s.Index] {
			live[v] = true
		}
		for _, in := range s.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for pi, pr := range s.Preds {
				if pr == b {
					live[phi.Edges[pi]] = true
				}
			}
		}
	}
	for _, in := range b.Instrs[it.pc:] {
		for _, op := range in.Operands(nil) {
			if *op != nil {
				live[*op] = true
			}
		}
	}
	for v := range it.env {
		if !live[v] {
			delete(it.env, v)
		}
	}
}

// put assigns a new value to a register.
func (it *item) put(v ssa.Value, a *V) {
	it.sync()
	it.env[v] = a
}

// callerRoots returns the values the frames of the callers refer to, as the
// state names them now.
func callerRoots(st *State, frames []*item) []*V {
	var roots []*V
	for _, f := range frames {
		var ren []renaming
		if f.renN < len(st.ren) {
			ren = st.ren[f.renN:]
		}
		add := func(v *V) {
			for _, r := range ren {
				v = subst(v, map[*V]*V{r.from: r.to}, map[*V]*V{})
			}
			roots = append(roots, v)
		}
		for _, v := range f.env {
			add(v)
		}
		for _, d := range f.defers {
			add(d.fn)
			for _, a := range d.args {
				add(a)
			}
		}
	}
	return roots
}

// renKey identifies what the renamings since n did to the symbols of base.
func renKey(st *State, n int, base map[*V]bool) string {
	if n == len(st.ren) {
		return ""
	}
	fin := map[*V]*V{}
	var order []*V
	for _, r := range st.ren[n:] {
		for k, v := range fin {
			if v == r.from {
				fin[k] = r.to
			}
		}
		if base[r.from] && fin[r.from] == nil {
			fin[r.from] = r.to
			order = append(order, r.from)
		}
	}
	sort.Slice(order, func(i, j int) bool { return order[i].ID < order[j].ID })
	var b strings.Builder
	for _, o := range order {
		fmt.Fprintf(&b, "%d>%d,", o.ID, fin[o].ID)
	}
	return b.String()
}

const maxDepth = 28

// run interprets fn from state st and returns its exits, merged by everything
// but facts.
func (x *Exec) run(fn *ssa.Function, args, binds []*V, st *State, ctx string) []Exit {
	x.calls[fn] = true
	if prof != nil {
		prof["RUN "+ctx]++
		if ctx == os.Getenv("WSKEYS") {
			n := 0
			for _, f := range envStack {
				fmt.Fprintln(os.Stderr, "KEY", n, x.groupKey(f, 0, map[*V]bool{}))
				n++
			}
			for k, v := range st.heap {
				fmt.Fprintln(os.Stderr, "HEAP", k.ID, k, v, string(st.class(v)))
			}
			for f, v := range st.facts {
				fmt.Fprintln(os.Stderr, "FACT", f, v)
			}
			fmt.Fprintln(os.Stderr, st.tr)
		}
	}
	if len(x.stack) >= maxDepth {
		x.fail("call depth exceeded at " + fn.String())
		return nil
	}
	x.stack = append(x.stack, fn)
	saved := x.curFn
	x.curFn = fn
	defer func() { x.stack = x.stack[:len(x.stack)-1]; x.curFn = saved }()

	info := infoOf(fn)
	env := map[ssa.Value]*V{}
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		} else {
			env[p] = x.freshSym(st, ctx+":"+p.Name(), p.Type())
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			env[fv] = binds[i]
		} else {
			env[fv] = x.freeVar(st, fn, fv, ctx)
		}
	}
	base := x.frameSyms(st)
	var exits exitSet
	tab := map[string]*accum{}
	cnt := map[string]int{}
	ren0 := len(st.ren)
	work := []*item{{st: st, blk: fn.Blocks[0], env: env, renN: ren0}}
	// a state that comes back to a loop head waits until the body is done
	prio := func(it *item) int {
		if it.prev != nil && info.heads[it.blk] && it.pc == 0 && it.blk.Dominates(it.prev) {
			return 2*info.end[it.blk] + 1
		}
		return 2 * info.rpo[it.blk.Index]
	}
	var ready []*item
	for (len(work) > 0 || len(ready) > 0) && x.bail == "" {
		x.curFn = fn
		if len(ready) == 0 {
			// all the states waiting for the first block, joined
			w := len(work) - 1
			for i := w - 1; i >= 0; i-- {
				if prio(work[i]) < prio(work[w]) {
					w = i
				}
			}
			blk, pw := work[w].blk, prio(work[w])
			var batch, rest []*item
			for _, it := range work {
				if it.blk == blk && prio(it) == pw {
					batch = append(batch, it)
				} else {
					rest = append(rest, it)
				}
			}
			work = rest
			var accs []*accum
			for _, it := range batch {
				if it.st.dead {
					continue
				}
				if it.pc != 0 {
					ready = append(ready, it)
					continue
				}
				n, a := x.enter(it, info, base, tab, cnt, ren0, ctx)
				if n != nil {
					ready = append(ready, n)
				}
				if a != nil && !a.pending {
					a.pending = true
					accs = append(accs, a)
				}
			}
			for _, a := range accs {
				a.pending = false
				a.visits++
				if a.visits > 60 {
					x.fail(fmt.Sprintf("loop %s.b%d does not converge", ctx, blk.Index))
				}
				if prof != nil {
					prof[fmt.Sprintf("ROUND %s.b%d v%d", ctx, blk.Index, a.visits)]++
				}
				n := a.it.fork()
				n.st.tr = a.tr
				ready = append(ready, n)
			}
			continue
		}
		it := ready[len(ready)-1]
		ready = ready[:len(ready)-1]
		envStack = append(envStack, it)
		forks, ex := x.steps1(it, ctx)
		envStack = envStack[:len(envStack)-1]
		work = append(work, forks...)
		for _, e := range ex {
			if e.st.dead {
				continue
			}
			if len(x.stack) == 1 {
				x.chk.Return(x, e.st, e.ret)
			}
			e.st.gc(append(callerRoots(e.st, envStack), e.ret))
			exits.add(x, e, ren0, base, ctx, len(x.stack) > 1 && x.noJoin[fn])
		}
	}
	return exits.list()
}

// exitSet joins the exits of a function.
type exitSet struct {
	m     map[string]*accum
	order []string
}

func (s *exitSet) add(x *Exec, e Exit, ren0 int, base map[*V]bool, tag string, exact bool) {
	if s.m == nil {
		s.m = map[string]*accum{}
	}
	ei := &item{st: e.st, env: map[ssa.Value]*V{loopKey(0): e.ret}, renN: len(e.st.ren)}
	k := retClass(e.st, e.ret) + "|" + x.groupKey(ei, ren0, base)
	if !x.joinV {
		k += vKey(e.st)
	}
	if exact {
		k += "|" + e.st.coreKey()
	}
	if a, ok := s.m[k]; ok {
		x.join(a.it, ei, tag+"#", 0)
		return
	}
	s.m[k] = &accum{it: ei}
	s.order = append(s.order, k)
}

func (s *exitSet) list() []Exit {
	var out []Exit
	for _, k := range s.order {
		out = append(out, Exit{s.m[k].it.st, s.m[k].it.env[loopKey(0)]})
	}
	return out
}

var loopKeys []ssa.Value

// loopKey is the i-th pseudo register.
func loopKey(i int) ssa.Value {
	for len(loopKeys) <= i {
		loopKeys = append(loopKeys, ssa.NewConst(constant.MakeInt64(int64(len(loopKeys))), types.Typ[types.Int]))
	}
	return loopKeys[i]
}

// retClass abstracts a returned value to what callers distinguish.
func retClass(st *State, v *V) string {
	switch v.Kind {
	case KTuple:
		var l []string
		for _, a := range v.A {
			l = append(l, retClass(st, a))
		}
		return strings.Join(l, ",")
	case KIface:
		return "I" + types.TypeString(v.Typ, nil)
	case KConst:
		return fmt.Sprint(v.ID)
	case KSym:
		if strings.HasPrefix(v.Name, "err!") {
			return "E"
		}
		if strings.HasPrefix(v.Name, "global!") {
			return v.Name
		}
	case KClos, KExpr:
		if c := st.class(v); c != '.' {
			return string(c)
		}
		return fmt.Sprint(v.ID)
	}
	return string(st.class(v))
}

// loop iterates body, a loop of code outside the library, to a fixpoint. The
// values are kept up to date with the state.
func (x *Exec) loop(st *State, vals []*V, tag string, body func(it *item, vals []*V) (final []Exit, more []*State)) []Exit {
	base := x.frameSyms(st)
	ren0 := len(st.ren)
	it := &item{st: st, env: map[ssa.Value]*V{}, renN: ren0}
	for i, v := range vals {
		it.env[loopKey(i)] = v
	}
	tab := map[string]*accum{}
	var exits exitSet
	work := []*item{it}
	var accs []*accum
	for (len(work) > 0 || len(accs) > 0) && x.bail == "" {
		for _, it := range work {
			roots := callerRoots(it.st, envStack)
			for _, v := range it.env {
				roots = append(roots, v)
			}
			it.st.gc(roots)
			if a := x.arrive(tab, x.groupKey(it, ren0, base), tag, it); a != nil && !a.pending {
				a.pending = true
				accs = append(accs, a)
			}
		}
		work = nil
		if len(accs) == 0 {
			break
		}
		a := accs[0]
		accs = accs[1:]
		a.pending = false
		if a.visits++; a.visits > 60 {
			x.fail(fmt.Sprintf("loop %s does not converge", tag))
		}
		it := a.it.fork()
		it.st.tr = a.tr
		cur := make([]*V, len(vals))
		for i := range cur {
			cur[i] = it.env[loopKey(i)]
		}
		envStack = append(envStack, it)
		final, more := body(it, cur)
		envStack = envStack[:len(envStack)-1]
		for _, e := range final {
			if !e.st.dead {
				e.st.gc(append(callerRoots(e.st, envStack), e.ret))
				exits.add(x, e, ren0, base, tag, false)
			}
		}
		for _, s := range more {
			if !s.dead {
				n := it.with(s)
				n.sync()
				work = append(work, n)
			}
		}
	}
	return exits.list()
}

// frameSyms returns the symbols the frames of the callers refer to.
func (x *Exec) frameSyms(st *State) map[*V]bool {
	base := map[*V]bool{}
	for _, r := range callerRoots(st, envStack) {
		walkV(r, func(v *V) {
			if v.Kind == KSym || v.Kind == KObj {
				base[v] = true
			}
		})
	}
	return base
}

// vKey identifies the monitor values.
func vKey(st *State) string {
	var l []string
	for k, v := range st.v {
		l = append(l, fmt.Sprintf("%s:%d", k, v.ID))
	}
	sort.Strings(l)
	return "|" + strings.Join(l, ";")
}

// freeVar gives a value to a captured variable of a closure analysed on its own.
func (x *Exec) freeVar(st *State, fn *ssa.Function, fv *ssa.FreeVar, ctx string) *V {
	return x.paramValue(st, ctx+":"+fv.Name(), fv.Type())
}

func (x *Exec) enter(it *item, info *fnInfo, base map[*V]bool, tab map[string]*accum, cnt map[string]int, ren0 int, ctx string) (*item, *accum) {
	st := it.st
	b := it.blk
	// parallel phi assignment
	var phis []*ssa.Phi
	var vals []*V
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for pi, pr := range b.Preds {
			if pr == it.prev {
				phis = append(phis, phi)
				vals = append(vals, x.val(it, phi.Edges[pi]))
			}
		}
	}
	for i, p := range phis {
		it.env[p] = vals[i]
	}
	// drop dead values
	live := info.live[b.Index]
	for v := range it.env {
		if _, isPhi := v.(*ssa.Phi); isPhi && v.(*ssa.Phi).Block() == b {
			continue
		}
		if !live[v] {
			delete(it.env, v)
		}
	}
	x.states++
	if len(b.Preds) > 1 {
		var roots []*V
		for _, v := range it.env {
			roots = append(roots, v)
		}
		for _, d := range it.defers {
			roots = append(roots, d.fn)
			roots = append(roots, d.args...)
		}
		roots = append(roots, callerRoots(st, envStack)...)
		st.gc(roots)
		it.sync()
		key := fmt.Sprintf("%d|%s", b.Index, x.groupKey(it, ren0, base))
		if !info.heads[b] {
			// states that only come together are kept apart as long as
			// there are few of them
			key += vKey(st)
			var ek []string
			for v, a := range it.env {
				ek = append(ek, fmt.Sprintf("%s=%d", v.Name(), a.ID))
			}
			sort.Strings(ek)
			exact := key + "|" + strings.Join(ek, ",") + st.coreKey() + st.factKey()
			if tab[exact] != nil {
				return nil, nil
			}
			if cnt[key] < x.maxSplit {
				cnt[key]++
				key = exact
			}
		}
		if d := os.Getenv("WSKEYS"); d != "" && fmt.Sprintf("%s.b%d", ctx, b.Index) == d {
			fmt.Fprintln(os.Stderr, "KEY", key)
		}
		return nil, x.arrive(tab, key, fmt.Sprintf("%s.b%d", ctx, b.Index), it)
	}
	return it, nil
}

// maxSplit bounds the states kept apart at a block that is no loop head.
var maxSplit = 4

var prof map[string]int

func (x *Exec) val(it *item, v ssa.Value) *V {
	switch v := v.(type) {
	case *ssa.Const:
		return constV(v)
	case *ssa.Global:
		n := v.Name()
		if v.Package() != x.p.Lib {
			n = v.Package().Pkg.Path() + "." + n
		}
		return obj("global:"+n, v.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Function:
		return clos(v, nil)
	case *ssa.Builtin:
		return sym("builtin:"+v.Name(), v.Type())
	}
	if r, ok := it.env[v]; ok {
		return r
	}
	x.fail(fmt.Sprintf("value %s (%s) undefined in %s", v.Name(), v, v.Parent()))
	return vNil
}

func (x *Exec) vals(it *item, vs []ssa.Value) []*V {
	r := make([]*V, len(vs))
	for i, v := range vs {
		r[i] = x.val(it, v)
	}
	return r
}

// steps1 executes from it.pc to the end of the block.
func (x *Exec) steps1(it *item, ctx string) (forks []*item, exits []Exit) {
	for {
		if it.st.dead || x.bail != "" {
			return
		}
		x.steps++
		if prof != nil {
			prof[ctx+fmt.Sprintf(".b%d", it.blk.Index)]++
		}
		if x.steps%4096 == 0 {
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > x.maxMem {
				x.fail("memory budget exceeded in " + x.root.String())
				return
			}
			if !x.deadline.IsZero() && time.Now().After(x.deadline) {
				x.fail("time budget exceeded in " + x.root.String())
				return
			}
		}
		if x.steps > x.max {
			x.fail("step budget exceeded in " + x.root.String())
			return
		}
		it.sync()
		in := it.blk.Instrs[it.pc]
		it.pc++
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			it.prev, it.blk, it.pc = it.blk, it.blk.Succs[0], 0
			return append(forks, it), exits
		case *ssa.If:
			c := x.val(it, in.Cond)
			tb, fb := it.blk.Succs[0], it.blk.Succs[1]
			cur := it.blk
			if t, ok := it.st.eval(c); ok {
				it.prev, it.pc = cur, 0
				if t {
					it.blk = tb
				} else {
					it.blk = fb
				}
				return append(forks, it), exits
			}
			o := it.fork()
			p := in.Cond.Pos()
			if it.st.assume(c, true) {
				x.emitQuiet(it.st, &Event{Kind: "assume", Args: []*V{c}, N: 1, Pos: p})
				it.st.note(p, "assume "+c.String())
				it.prev, it.blk, it.pc = cur, tb, 0
				forks = append(forks, it)
			}
			if o.st.assume(c, false) {
				x.emitQuiet(o.st, &Event{Kind: "assume", Args: []*V{c}, N: 0, Pos: p})
				o.st.note(p, "assume not "+c.String())
				o.prev, o.blk, o.pc = cur, fb, 0
				forks = append(forks, o)
			}
			x.paths++
			return forks, exits
		case *ssa.Return:
			var ret *V
			rs := x.vals(it, in.Results)
			if len(rs) == 1 {
				ret = rs[0]
			} else {
				ret = tuple(rs...)
			}
			if len(x.stack) == 1 {
				x.rootRet = in.Pos()
				it.st.note(in.Pos(), "return "+ret.String())
			}
			exits = append(exits, Exit{it.st, ret})
			return
		case *ssa.Panic:
			x.emit(it.st, &Event{Kind: "panic", Args: []*V{x.val(it, in.X)}, Pos: in.Pos()})
			return
		case *ssa.RunDefers:
			its := []*item{it}
			it.prune()
			for k := len(it.defers) - 1; k >= 0; k-- {
				var next []*item
				for _, i := range its {
					d := i.defers[k]
					envStack[len(envStack)-1] = i
					es := x.invoke(i.st, &d.in.Call, d.fn, d.args, d.in.Pos(), ctx+fmt.Sprintf("/%s.d%d", d.in.Block(), k))
					x.curFn = it.blk.Parent()
					for _, e := range es {
						n := i
						if len(es) > 1 {
							n = i.with(e.st)
						}
						n.st = e.st
						n.sync()
						next = append(next, n)
					}
				}
				its = next
			}
			for _, i := range its {
				i.defers = nil
			}
			if len(its) == 0 {
				return
			}
			if len(its) == 1 {
				it = its[0]
				envStack[len(envStack)-1] = it
				continue
			}
			return append(forks, its...), exits
		case *ssa.Defer:
			fv, args := x.calleeArgs(it, &in.Call)
			it.defers = append(it.defers, deferred{in, fv, args})
			if len(it.defers) > 40 {
				x.fail("too many deferred calls in " + x.curFn.String())
				return
			}
			continue
		case *ssa.Go:
			fv, args := x.calleeArgs(it, &in.Call)
			name := "?"
			if fv != nil && fv.Kind == KClos {
				name = fv.Fn.String()
			}
			x.emit(it.st, &Event{Kind: "go", Name: name, Args: append([]*V{fv}, args...), Pos: in.Pos()})
			x.escape(it.st, fv)
			continue
		case *ssa.Call:
			fv, args := x.calleeArgs(it, &in.Call)
			it.prune()
			es := x.invoke(it.st, &in.Call, fv, args, in.Pos(), ctx+"/"+in.Name())
			x.curFn = it.blk.Parent()
			if len(es) == 0 {
				return
			}
			if len(es) == 1 {
				it.st = es[0].st
				it.sync()
				it.put(in, es[0].ret)
				continue
			}
			x.paths += len(es) - 1
			for _, e := range es {
				n := it.with(e.st)
				n.sync()
				n.put(in, e.ret)
				forks = append(forks, n)
			}
			return
		case *ssa.Select:
			return append(forks, x.doSelect(it, in, ctx)...), exits
		case *ssa.Send:
			ch := x.val(it, in.Chan)
			cs := x.selCase('>', ch, x.val(it, in.X))
			x.emit(it.st, &Event{Kind: "chanop", Cases: []SelCase{cs}, Block: true, Pos: in.Pos(), Args: []*V{ch, x.val(it, in.X)}})
			x.chanEffect(it.st, cs, in.Pos(), true)
			continue
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				ch := x.val(it, in.X)
				cs := x.selCase('<', ch, nil)
				x.emit(it.st, &Event{Kind: "chanop", Cases: []SelCase{cs}, Block: true, Pos: in.Pos(), Args: []*V{ch}})
				x.chanEffect(it.st, cs, in.Pos(), true)
				r := x.freshSym(it.st, ctx+"/"+in.Name(), in.Type())
				if in.CommaOk {
					tt := in.Type().(*types.Tuple)
					vv := x.freshSym(it.st, ctx+"/"+in.Name()+".v", tt.At(0).Type())
					o := it.fork()
					it.put(in, tuple(vv, kBool(true)))
					o.put(in, tuple(zeroOf(tt.At(0).Type()), kBool(false)))
					o.st.facts[x.closedFact(ch)] = true
					x.emitQuiet(it.st, &Event{Kind: "received", Args: []*V{ch, vv}, N: 1, Pos: in.Pos()})
					x.emitQuiet(o.st, &Event{Kind: "received", Args: []*V{ch, nil}, Pos: in.Pos()})
					return append(forks, it, o), exits
				}
				it.put(in, r)
				x.emitQuiet(it.st, &Event{Kind: "received", Args: []*V{ch, r}, N: 1, Pos: in.Pos()})
				continue
			}
		case *ssa.Next:
			r := x.val(it, in.Iter)
			o := it.fork()
			tt := in.Type().(*types.Tuple)
			o.put(in, tuple(kBool(false), zeroOf(tt.At(1).Type()), zeroOf(tt.At(2).Type())))
			// it: one more element
			rr := r
			var k, v *V
			kt, vt := tt.At(1).Type(), tt.At(2).Type()
			if rg, ok := in.Iter.(*ssa.Range); ok {
				if mt, ok := rg.X.Type().Underlying().(*types.Map); ok {
					// the types are not given for what is not used
					kt, vt = mt.Key(), mt.Elem()
				}
			}
			k = x.freshElem(it.st, ctx+"/"+in.Name()+".k", kt)
			v = x.freshElem(it.st, ctx+"/"+in.Name()+".v", vt)
			src := vNil
			if rr.Kind == KExpr && rr.Name == "range" {
				src = rr.A[0]
				if !in.IsString {
					it.st.heap[elem(src, k, vt)] = v
					it.st.heap[expr("has", types.Typ[types.Bool], src, k)] = kBool(true)
				}
			}
			it.put(in, tuple(kBool(true), k, v))
			x.emit(it.st, &Event{Kind: "rangenext", Args: []*V{src, k, v}, Pos: in.Pos()})
			x.emit(o.st, &Event{Kind: "rangeend", Args: []*V{src}, Pos: in.Pos()})
			return append(forks, o, it), exits
		case *ssa.TypeAssert:
			fs := x.typeAssert(it, in, ctx)
			if len(fs) == 1 {
				it = fs[0]
				continue
			}
			return append(forks, fs...), exits
		case *ssa.Store:
			x.store(it.st, x.val(it, in.Addr), x.val(it, in.Val), in.Pos())
			continue
		case *ssa.MapUpdate:
			m, k, v := x.val(it, in.Map), x.val(it, in.Key), x.val(it, in.Value)
			x.emit(it.st, &Event{Kind: "mapset", Args: []*V{m, k, v}, Pos: in.Pos()})
			x.clobberMap(it.st, m, k)
			it.st.heap[elem(m, k, v.Typ)] = v
			it.st.heap[expr("has", types.Typ[types.Bool], m, k)] = kBool(true)
			continue
		}
		v, ok := in.(ssa.Value)
		if !ok {
			x.fail(fmt.Sprintf("unsupported instruction %T in %s", in, x.curFn))
			return
		}
		r := x.pure(it, v, ctx)
		if r == nil {
			x.fail(fmt.Sprintf("unsupported value %T %s in %s", in, in, x.curFn))
			return
		}
		it.put(v, r)
		// multi-way results that need case splits
		if bin, ok := in.(*ssa.Lookup); ok && bin.CommaOk {
			has := r.A[1]
			if _, known := it.st.eval(has); !known {
				o := it.fork()
				if it.st.assume(has, true) {
					forks = append(forks, it)
				}
				if o.st.assume(has, false) {
					zero := zeroOf(bin.Type().(*types.Tuple).At(0).Type())
					o.put(v, tuple(zero, kBool(false)))
					forks = append(forks, o)
				}
				it.put(v, tuple(r.A[0], kBool(true)))
				return forks, exits
			} else if t, _ := it.st.eval(has); !t {
				it.put(v, tuple(zeroOf(bin.Type().(*types.Tuple).At(0).Type()), kBool(false)))
			} else {
				it.put(v, tuple(r.A[0], kBool(true)))
			}
		}
	}
}

func (x *Exec) freshElem(st *State, name string, t types.Type) *V {
	if t == nil || t == types.Typ[types.Invalid] {
		return vNil
	}
	return x.freshSym(st, name, t)
}

func (x *Exec) calleeArgs(it *item, c *ssa.CallCommon) (*V, []*V) {
	args := x.vals(it, c.Args)
	fv := x.val(it, c.Value)
	return fv, args
}

func (x *Exec) typeAssert(it *item, in *ssa.TypeAssert, ctx string) []*item {
	v := x.val(it, in.X)
	t := in.AssertedType
	_, toIface := t.Underlying().(*types.Interface)
	res := func(i *item, ok bool, r *V) {
		if in.CommaOk {
			if !ok {
				r = zeroOf(t)
			}
			i.put(in, tuple(r, kBool(ok)))
		} else {
			i.put(in, r)
		}
	}
	if v.Kind == KNil {
		if in.CommaOk {
			res(it, false, nil)
			return []*item{it}
		}
		x.emit(it.st, &Event{Kind: "panic", Name: "type assertion on nil", Pos: in.Pos()})
		return []*item{}
	}
	if v.Kind == KIface && !toIface {
		if types.Identical(v.Typ, t) {
			res(it, true, v.A[0])
			return []*item{it}
		}
		if !hasTypeParam(v.Typ) && !hasTypeParam(t) {
			if in.CommaOk {
				res(it, false, nil)
				return []*item{it}
			}
			x.emit(it.st, &Event{Kind: "panic", Name: "type assertion", Pos: in.Pos()})
			return []*item{}
		}
	}
	if v.Kind == KIface && toIface {
		if types.Implements(v.Typ, t.Underlying().(*types.Interface)) {
			res(it, true, v)
			return []*item{it}
		}
	}
	is := expr("is:"+types.TypeString(t, nil), types.Typ[types.Bool], v)
	var r *V
	if toIface {
		r = v
	} else {
		r = expr("as:"+types.TypeString(t, nil), t, v)
		if _, ok := t.Underlying().(*types.Pointer); ok {
			r = sym("as!"+types.TypeString(t, shortQual)+":"+v.String(), t)
		}
	}
	// package level errors are created by errors.New: never a library type
	if (isGlobErr(v) || v.Kind == KSym && strings.HasPrefix(v.Name, "err!ctx:")) && !toIface {
		it.st.facts[is] = false
	}
	if nn, ok := it.st.nonNil(v); ok && !nn {
		it.st.facts[is] = false
	}
	if k, ok := it.st.eval(is); ok {
		if k || in.CommaOk {
			res(it, k, r)
			return []*item{it}
		}
		return []*item{}
	}
	if !in.CommaOk {
		it.st.facts[is] = true
		res(it, true, r)
		return []*item{it}
	}
	o := it.fork()
	it.st.facts[is] = true
	it.st.assume(vEq(v, vNil), false)
	res(it, true, r)
	o.st.facts[is] = false
	res(o, false, nil)
	return []*item{it, o}
}

func isGlobErr(v *V) bool { return v.Kind == KSym && strings.HasPrefix(v.Name, "global!") }

func hasTypeParam(t types.Type) bool {
	found := false
	var w func(t types.Type, d int)
	w = func(t types.Type, d int) {
		if d > 6 || found {
			return
		}
		switch t := types.Unalias(t).(type) {
		case *types.TypeParam:
			found = true
		case *types.Pointer:
			w(t.Elem(), d+1)
		case *types.Slice:
			w(t.Elem(), d+1)
		case *types.Named:
			if a := t.TypeArgs(); a != nil {
				for i := 0; i < a.Len(); i++ {
					w(a.At(i), d+1)
				}
			}
			if t.TypeParams().Len() > 0 && t.TypeArgs().Len() == 0 {
				found = true
			}
		}
	}
	w(t, 0)
	return found
}

// pure evaluates instructions without control effect.
func (x *Exec) pure(it *item, in ssa.Value, ctx string) *V {
	st := it.st
	site := ctx + "/" + in.Name()
	switch in := in.(type) {
	case *ssa.Alloc:
		o := x.freshObj(st, "new:"+site, in.Type().Underlying().(*types.Pointer).Elem())
		for k := range st.heap {
			if rootOf(k) == o {
				delete(st.heap, k)
			}
		}
		return o
	case *ssa.BinOp:
		if in.Op == token.QUO || in.Op == token.REM {
			if b := basicOf(in.X.Type()); b != nil && b.Info()&types.IsInteger != 0 {
				x.emit(st, &Event{Kind: "div", Args: []*V{x.val(it, in.X), x.val(it, in.Y)}, Pos: in.Pos()})
			}
		}
		return x.binop(st, in.Op, x.val(it, in.X), x.val(it, in.Y), in.Type(), in.X.Type())
	case *ssa.UnOp:
		v := x.val(it, in.X)
		switch in.Op {
		case token.MUL:
			return x.load(st, v, in.Type(), in.Pos())
		case token.NOT:
			return vNot(v)
		case token.SUB:
			return linComb(v, -1, kInt(0), 0)
		case token.XOR:
			if n, ok := v.isInt(); ok {
				return kInt(wrapTo(in.Type(), ^n))
			}
			return expr("^:"+in.Type().String(), in.Type(), v, kInt(-1))
		}
	case *ssa.ChangeType:
		return x.val(it, in.X)
	case *ssa.ChangeInterface:
		return x.val(it, in.X)
	case *ssa.Convert:
		return x.convert(st, x.val(it, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		return x.convert(st, x.val(it, in.X), in.X.Type(), in.Type())
	case *ssa.MakeInterface:
		v := x.val(it, in.X)
		return iface(in.X.Type(), v)
	case *ssa.MakeClosure:
		return clos(in.Fn.(*ssa.Function), x.vals(it, in.Bindings))
	case *ssa.MakeChan:
		o := x.freshObj(st, "new:chan:"+site, in.Type())
		st.heap[expr("chancap", types.Typ[types.Int], o)] = x.val(it, in.Size)
		return o
	case *ssa.MakeMap:
		o := x.freshObj(st, "new:map:"+site, in.Type())
		return o
	case *ssa.MakeSlice:
		o := x.freshObj(st, "new:slice:"+site, in.Type())
		n := x.val(it, in.Len)
		c := x.val(it, in.Cap)
		st.heap[expr("cap", types.Typ[types.Int], o)] = c
		x.emit(st, &Event{Kind: "makeslice", Args: []*V{n, c}, Pos: in.Pos()})
		return slc(o, kInt(0), n)
	case *ssa.FieldAddr:
		b := x.val(it, in.X)
		x.deref(st, b, in.Pos())
		return x.fieldAddr(b, in.Field, in.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Field:
		return x.field(st, x.val(it, in.X), in.Field, in.Type())
	case *ssa.IndexAddr:
		b, i := x.val(it, in.X), x.val(it, in.Index)
		x.index(st, b, i, in.X.Type(), in.Pos())
		return x.elemAddr(st, b, i, in.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Index:
		b, i := x.val(it, in.X), x.val(it, in.Index)
		x.index(st, b, i, in.X.Type(), in.Pos())
		return expr("index", in.Type(), b, i)
	case *ssa.Lookup:
		m, k := x.val(it, in.X), x.val(it, in.Index)
		if basicOf(in.X.Type()) != nil {
			x.emit(st, &Event{Kind: "strindex", Args: []*V{m, k, vLen(st, m)}, Pos: in.Pos()})
			return expr("index", in.Type(), m, k)
		}
		et := in.X.Type().Underlying().(*types.Map).Elem()
		a := elem(m, k, et)
		h := expr("has", types.Typ[types.Bool], m, k)
		v, ok := st.heap[a]
		if !ok {
			if isNewObj(m) && !x.mapDirty(st, m) {
				v = zeroOf(et)
				st.heap[h] = kBool(false)
			} else {
				v = x.freshSym(st, site+".v", et)
			}
			st.heap[a] = v
		}
		hv, ok := st.heap[h]
		if !ok {
			hv = x.freshSym(st, site+".has", types.Typ[types.Bool])
			st.heap[h] = hv
		}
		x.emit(st, &Event{Kind: "mapget", Args: []*V{m, k, v}, Pos: in.Pos()})
		if in.CommaOk {
			return tuple(v, hv)
		}
		return v
	case *ssa.Extract:
		t := x.val(it, in.Tuple)
		if t.Kind == KTuple && in.Index < len(t.A) {
			return t.A[in.Index]
		}
		return expr(fmt.Sprintf("extract%d", in.Index), in.Type(), t)
	case *ssa.Slice:
		return x.slice(st, it, in)
	case *ssa.Range:
		m := x.val(it, in.X)
		x.emit(st, &Event{Kind: "maprange", Args: []*V{m}, Pos: in.Pos()})
		return expr("range", nil, m)
	case *ssa.SliceToArrayPointer:
		return x.val(it, in.X)
	}
	return nil
}

func isNewObj(v *V) bool { return v.Kind == KObj && strings.HasPrefix(v.Name, "new:") }

func (x *Exec) mapDirty(st *State, m *V) bool {
	_, d := st.heap[expr("dirty", nil, m)]
	return d || strings.HasSuffix(m.Name, "'")
}

func (x *Exec) clobberMap(st *State, m, k *V) {
	for a := range st.heap {
		var mm, kk *V
		if a.Kind == KElem && a.A[0] == m {
			mm, kk = a.A[0], a.A[1]
		} else if a.Kind == KExpr && a.Name == "has" && a.A[0] == m {
			mm, kk = a.A[0], a.A[1]
		}
		if mm != nil && kk != k {
			delete(st.heap, a)
			st.heap[expr("dirty", nil, m)] = kBool(true)
		}
	}
	st.heap[expr("dirty", nil, m)] = kBool(true)
}

func (x *Exec) binop(st *State, op token.Token, a, b *V, t, opT types.Type) *V {
	if bt, ok := t.(*types.Basic); ok && bt.Kind() > 0 && int(bt.Kind()) < len(types.Typ) {
		t = types.Typ[bt.Kind()] // byte is uint8
	}
	bt := basicOf(opT)
	isInt := bt != nil && bt.Info()&types.IsInteger != 0
	isStr := bt != nil && bt.Info()&types.IsString != 0
	switch op {
	case token.EQL, token.NEQ:
		r := vEq(a, b)
		if bt != nil && bt.Info()&types.IsBoolean != 0 {
			if y, ok := a.isBool(); ok {
				r = b
				if !y {
					r = vNot(b)
				}
			} else if y, ok := b.isBool(); ok {
				r = a
				if !y {
					r = vNot(a)
				}
			}
		}
		if op == token.NEQ {
			r = vNot(r)
		}
		if k, ok := st.eval(r); ok {
			return kBool(k)
		}
		return r
	case token.LSS:
		return vLt(a, b)
	case token.GTR:
		return vLt(b, a)
	case token.LEQ:
		return vNot(vLt(b, a))
	case token.GEQ:
		return vNot(vLt(a, b))
	}
	if isStr && op == token.ADD {
		if p, ok := a.isStr(); ok {
			if q, ok := b.isStr(); ok {
				return kStr(p + q)
			}
		}
		return cat(a, b)
	}
	if isInt {
		wide := true
		switch bt.Kind() {
		case types.Uint8, types.Uint16, types.Uint32, types.Int8, types.Int16, types.Int32:
			wide = false
		}
		ca, oka := a.isInt()
		cb, okb := b.isInt()
		if oka && okb {
			tmp := expr(op.String()+":"+t.String(), t, a, b)
			if evalOps[op.String()] && !((op == token.QUO || op == token.REM) && cb == 0) {
				return kInt(evalAt(tmp, vNil, 0))
			}
		}
		if wide {
			switch op {
			case token.ADD:
				return vAdd(a, b)
			case token.SUB:
				return vSub(a, b)
			case token.MUL:
				if oka {
					return linComb(b, ca, kInt(0), 0)
				}
				if okb {
					return linComb(a, cb, kInt(0), 0)
				}
			}
		} else {
			// small integer arithmetic that can not wrap is linear too
			var l *V
			switch op {
			case token.ADD:
				l = vAdd(a, b)
			case token.SUB:
				l = vSub(a, b)
			}
			if l != nil && singleAtom(l) == nil {
				r, q := st.rangeOf(l), typeRange(t)
				if r.lo >= q.lo && r.hi <= q.hi {
					return l
				}
			}
		}
		if op == token.OR || op == token.AND || op == token.ADD {
			if a.ID > b.ID {
				a, b = b, a
			}
		}
		return expr(op.String()+":"+t.String(), t, a, b)
	}
	return expr(op.String()+":"+t.String(), t, a, b)
}

func (x *Exec) convert(st *State, v *V, from, to types.Type) *V {
	fb, tb := basicOf(from), basicOf(to)
	if fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		r, q := st.rangeOf(v), typeRange(to)
		if r.lo >= q.lo && r.hi <= q.hi && (!is64u(from) || is64u(to) || st.fitsInt(v)) {
			return v
		}
		if n, ok := v.isInt(); ok {
			return kInt(wrapTo(to, n))
		}
		if v.Kind == KExpr && opBase(v.Name) == "conv" && types.Identical(v.Typ, to) {
			return v
		}
		// uint64 <-> int of values not known to fit
		return expr("conv:"+tb.Name(), to, v)
	}
	isB := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && basicOf(s.Elem()) != nil
	}
	if fb != nil && fb.Info()&types.IsString != 0 && isB(to) {
		return expr("conv:bytes", to, v)
	}
	if isB(from) && tb != nil && tb.Info()&types.IsString != 0 {
		if v.Kind == KExpr && v.Name == "conv:bytes" {
			return v.A[0]
		}
		return expr("conv:string", to, v)
	}
	if fb != nil && fb.Kind() == types.UntypedNil {
		return vNil
	}
	return expr("conv:"+to.String(), to, v)
}

// deref reports a dereference of a pointer.
func (x *Exec) deref(st *State, p *V, pos token.Pos) {
	if p.Kind == KNil {
		x.emit(st, &Event{Kind: "nilderef", Args: []*V{p}, Pos: pos})
		st.dead = true
		return
	}
	if p.Kind == KSym {
		nn, ok := st.nonNil(p)
		if ok && !nn {
			x.emit(st, &Event{Kind: "nilderef", Args: []*V{p}, Pos: pos})
			st.dead = true
			return
		}
		if !ok {
			x.emit(st, &Event{Kind: "deref", Args: []*V{p}, Pos: pos})
			if !ambiguous(p) {
				st.facts[vEq(p, vNil)] = false
			}
		}
	}
}

func (x *Exec) fieldAddr(b *V, i int, t types.Type) *V {
	return fld(x.canonBase(b), i, t)
}

// canonBase maps a pointer value to the object it points to: library structs
// of which a path deals with one instance are one object per type.
func (x *Exec) canonBase(b *V) *V {
	if b.Kind == KObj || b.Kind == KFld || b.Kind == KElem {
		return b
	}
	if b.Kind == KIface {
		return x.canonBase(b.A[0])
	}
	if b.Typ == nil {
		return b
	}
	p, ok := b.Typ.Underlying().(*types.Pointer)
	if !ok {
		return b
	}
	n := libStruct(p.Elem())
	if n == "" || !x.p.Singleton[n] || x.multi[n] || isPtr(p.Elem()) {
		return b
	}
	if e, ok := x.p.EmbedOwner[n]; ok {
		return fld(obj(e.owner, x.p.structType(e.owner)), e.idx, p.Elem())
	}
	return obj(n, p.Elem())
}

func (x *Exec) field(st *State, v *V, i int, t types.Type) *V {
	if v.Kind == KStruct && i < len(v.A) {
		return v.A[i]
	}
	return expr(fmt.Sprintf("field%d", i), t, v)
}

func vLen(st *State, v *V) *V {
	switch v.Kind {
	case KNil:
		return kInt(0)
	case KConst:
		if v.Name == "string" {
			return kInt(int64(len(v.S)))
		}
	case KSlice:
		return vSub(v.A[2], v.A[1])
	case KCat:
		r := kInt(0)
		for _, a := range v.A {
			r = vAdd(r, vLen(st, a))
		}
		return r
	case KExpr:
		switch v.Name {
		case "conv:bytes", "conv:string", "clone":
			return vLen(st, v.A[0])
		}
	case KObj:
		if n, ok := arrayLen(v.Typ); ok {
			return kInt(n)
		}
	case KFld, KElem:
		if n, ok := arrayLen(v.Typ); ok {
			return kInt(n)
		}
	}
	if n, ok := arrayLen(v.Typ); ok {
		return kInt(n)
	}
	return expr("len", types.Typ[types.Int], v)
}

func arrayLen(t types.Type) (int64, bool) {
	if t == nil {
		return 0, false
	}
	u := t.Underlying()
	if p, ok := u.(*types.Pointer); ok {
		u = p.Elem().Underlying()
	}
	if a, ok := u.(*types.Array); ok {
		return a.Len(), true
	}
	return 0, false
}

func vCap(st *State, v *V) *V {
	if v.Kind == KSlice {
		if c, ok := st.heap[expr("cap", types.Typ[types.Int], v.A[0])]; ok {
			return vSub(c, v.A[1])
		}
		if v.A[0].Kind == KSym {
			return vSub(expr("cap", types.Typ[types.Int], v.A[0]), v.A[1])
		}
		if n, ok := arrayLen(v.A[0].Typ); ok {
			return vSub(kInt(n), v.A[1])
		}
	}
	if v.Kind == KNil {
		return kInt(0)
	}
	return expr("cap", types.Typ[types.Int], v)
}

func (x *Exec) slice(st *State, it *item, in *ssa.Slice) *V {
	b := x.val(it, in.X)
	lo := kInt(0)
	if in.Low != nil {
		lo = x.val(it, in.Low)
	}
	isArr := false
	if _, ok := arrayLen(in.X.Type()); ok {
		isArr = true
	}
	var hi *V
	if in.High != nil {
		hi = x.val(it, in.High)
	} else if isArr {
		n, _ := arrayLen(in.X.Type())
		hi = kInt(n)
	} else {
		hi = vLen(st, b)
	}
	if basicOf(in.X.Type()) != nil { // string
		x.emit(st, &Event{Kind: "strslice", Args: []*V{b, lo, hi, vLen(st, b)}, Pos: in.Pos()})
		if s, ok := b.isStr(); ok {
			l, o1 := lo.isInt()
			h, o2 := hi.isInt()
			if o1 && o2 && l >= 0 && l <= h && h <= int64(len(s)) {
				return kStr(s[l:h])
			}
		}
		return slc(b, lo, hi)
	}
	limit := vCap(st, b)
	if isArr {
		n, _ := arrayLen(in.X.Type())
		limit = kInt(n)
	}
	x.emit(st, &Event{Kind: "slice", Args: []*V{b, lo, hi, limit}, Pos: in.Pos()})
	if in.High == nil && in.Low == nil && !isArr {
		return b
	}
	return x.mkSlice(st, b, lo, hi)
}

func (x *Exec) mkSlice(st *State, b, lo, hi *V) *V {
	switch b.Kind {
	case KNil:
		return vNil
	case KSlice:
		return slc(b.A[0], vAdd(b.A[1], lo), vAdd(b.A[1], hi))
	case KCat:
		// drop whole leading/trailing parts when the bounds are known
		parts := append([]*V(nil), b.A...)
		end := vLen(st, b)
		for len(parts) > 0 {
			l := vLen(st, parts[0])
			r := st.rangeOf(vSub(lo, l))
			if r.lo >= 0 && len(parts) > 1 {
				parts = parts[1:]
				lo, hi, end = vSub(lo, l), vSub(hi, l), vSub(end, l)
				continue
			}
			break
		}
		for len(parts) > 1 {
			l := vLen(st, parts[len(parts)-1])
			if r := st.rangeOf(vSub(hi, vSub(end, l))); r.hi <= 0 {
				parts = parts[:len(parts)-1]
				end = vSub(end, l)
				continue
			}
			break
		}
		if len(parts) == 1 {
			return x.mkSlice(st, parts[0], lo, hi)
		}
		c := cat(parts...)
		if z, ok := lo.isInt(); ok && z == 0 && hi == end {
			return c
		}
		return slc(c, lo, hi)
	}
	if z, ok := lo.isInt(); ok && z == 0 && b.Kind == KSym && hi == vLen(st, b) {
		return b
	}
	return slc(b, lo, hi)
}

func (x *Exec) elemAddr(st *State, b, i *V, t types.Type) *V {
	switch b.Kind {
	case KSlice:
		return x.elemAddr(st, b.A[0], vAdd(b.A[1], i), t)
	case KCat:
		off := i
		for _, p := range b.A {
			l := vLen(st, p)
			if r := st.rangeOf(vSub(off, l)); r.hi < 0 {
				return x.elemAddr(st, p, off, t)
			} else if r.lo < 0 {
				break
			}
			off = vSub(off, l)
		}
	case KIface:
		return x.elemAddr(st, b.A[0], i, t)
	}
	return elem(b, i, t)
}

func (x *Exec) index(st *State, b, i *V, bt types.Type, pos token.Pos) {
	x.emit(st, &Event{Kind: "index", Args: []*V{b, i, vLen(st, b)}, Pos: pos})
}

// symField remembers from which library field a symbol was loaded.
var symField = map[*V]*V{}

// symElem does the same for the elements of slices.
var symElem = map[*V]*V{}

func (x *Exec) load(st *State, a *V, t types.Type, pos token.Pos) *V {
	x.deref(st, a, pos)
	if st.dead {
		return vNil
	}
	if a.Kind != KFld && a.Kind != KElem && a.Kind != KObj {
		a = x.canonBase(a)
	}
	if a.Kind == KFld {
		x.emitQuiet(st, &Event{Kind: "load", Args: []*V{a}, Pos: pos})
	}
	return x.load0(st, a, t)
}

func (x *Exec) emitQuiet(st *State, ev *Event) {
	if ev.Fn == nil {
		ev.Fn = x.curFn
	}
	x.events[ev.Kind]++
	x.chk.Event(x, st, ev)
}

func (x *Exec) load0(st *State, a *V, t types.Type) *V {
	if v, ok := st.heap[a]; ok {
		return v
	}
	if s, ok := t.Underlying().(*types.Struct); ok && (libStruct(t) != "" || isAnonStruct(t)) {
		f := make([]*V, s.NumFields())
		for i := range f {
			f[i] = x.load0(st, fld(a, i, s.Field(i).Type()), s.Field(i).Type())
		}
		return strct(t, f)
	}
	r := rootOf(a)
	if isNewObj(r) && !strings.HasSuffix(r.Name, "'") && !x.contentOverlaps(st, a) && st.heap[expr("dirty", nil, r)] == nil {
		z := zeroOf(t)
		st.heap[a] = z
		return z
	}
	if a.Kind == KObj && strings.HasPrefix(a.Name, "global:") {
		n := strings.TrimPrefix(a.Name, "global:")
		if x.p.ErrGlobals[n] || strings.Contains(n, ".") && isErrorType(t) {
			return sym("global!"+n, t)
		}
	}
	name := addrName(a) + "@0"
	fixed := false
	if a.Kind == KFld {
		s, f := fieldOf(a)
		if x.p.NonNilField[s+"."+f] {
			name += "!"
		}
		fixed = !x.p.Mutable[s+"."+f]
		if c := x.p.ConstField[s+"."+f]; c != nil {
			st.heap[a] = constV(c)
			return st.heap[a]
		}
	}
	v := sym(name, t)
	if !fixed {
		v = x.freshSym(st, name, t)
	}
	if a.Kind == KFld {
		symField[v] = a
	} else if a.Kind == KElem {
		symElem[v] = a
	}
	st.heap[a] = v
	return v
}

func isAnonStruct(t types.Type) bool {
	_, named := types.Unalias(t).(*types.Named)
	return !named
}

func (x *Exec) contentOverlaps(st *State, a *V) bool {
	if a.Kind != KElem {
		return false
	}
	for k := range st.heap {
		if k.Kind == KExpr && k.Name == "content" && k.A[0] == a.A[0] {
			// content(base, lo, hi)
			if r := st.rangeOf(vSub(a.A[1], k.A[1])); r.hi < 0 {
				continue
			}
			if r := st.rangeOf(vSub(a.A[1], k.A[2])); r.lo >= 0 {
				continue
			}
			return true
		}
	}
	return false
}

func addrName(a *V) string {
	switch a.Kind {
	case KFld:
		return addrName(a.A[0]) + "." + fieldName(a)
	case KElem:
		return addrName(a.A[0]) + "[" + a.A[1].String() + "]"
	case KObj, KSym:
		return a.Name
	}
	return a.String()
}

func (x *Exec) store(st *State, a, v *V, pos token.Pos) {
	x.deref(st, a, pos)
	if st.dead {
		return
	}
	if a.Kind != KFld && a.Kind != KElem && a.Kind != KObj {
		a = x.canonBase(a)
	}
	x.emitQuiet(st, &Event{Kind: "store", Args: []*V{a, v}, Pos: pos})
	x.store0(st, a, v)
}

func (x *Exec) store0(st *State, a, v *V) {
	if v.Kind == KStruct {
		if s := structUnder(v.Typ); s != nil {
			for i := range v.A {
				x.store0(st, fld(a, i, s.Field(i).Type()), v.A[i])
			}
			return
		}
	}
	// an opaque struct value overwrites every known field
	if a.Kind == KFld || a.Kind == KObj {
		for k := range st.heap {
			if k != a && (k.Kind == KFld || k.Kind == KElem) && under(k, a) {
				delete(st.heap, k)
			}
		}
	}
	if a.Kind == KElem {
		base, i := a.A[0], a.A[1]
		for k := range st.heap {
			if k.Kind == KElem && k.A[0] == base && k != a {
				if r := st.rangeOf(vSub(k.A[1], i)); r.lo <= 0 && r.hi >= 0 {
					if _, isMap := baseMap(base); !isMap {
						delete(st.heap, k)
						st.heap[expr("dirty", nil, rootOf(base))] = kBool(true)
					}
				}
			}
		}
		if _, c := i.isInt(); !c {
			if st.rangeOf(i).lo != st.rangeOf(i).hi && i.Kind != KLin {
				st.heap[expr("dirty", nil, rootOf(base))] = kBool(true)
			}
		}
	}
	st.heap[a] = v
}

func baseMap(v *V) (*types.Map, bool) {
	if v.Typ == nil {
		return nil, false
	}
	m, ok := v.Typ.Underlying().(*types.Map)
	return m, ok
}

func under(k, a *V) bool {
	for k.Kind == KFld || k.Kind == KElem {
		k = k.A[0]
		if k == a {
			return true
		}
	}
	return false
}

// escape marks objects reachable from v as shared.
func (x *Exec) escape(st *State, v *V) {}

// ---- channels ----

func (x *Exec) closedFact(ch *V) *V { return expr("closed", types.Typ[types.Bool], ch) }

// chanLock returns the name of the channel lock ch implements, if any.
func (x *Exec) chanLock(ch *V) string {
	a, ok := symField[ch]
	if !ok {
		return ""
	}
	s, f := fieldOf(a)
	if !x.p.LockChan[s+"."+f] {
		return ""
	}
	return cleanName(ch.Name)
}

func cleanName(n string) string {
	n = strings.ReplaceAll(n, "@0", "")
	return strings.ReplaceAll(n, "!", "")
}

func (x *Exec) selCase(dir byte, ch, val *V) SelCase {
	c := SelCase{Dir: dir, Chan: ch, Val: val}
	if l := x.chanLock(ch); l != "" {
		if dir == '>' {
			c.Lock = l
		} else {
			c.Rel = l
		}
	}
	return c
}

// chanEffect applies the effect of a completed channel operation.
func (x *Exec) chanEffect(st *State, c SelCase, pos token.Pos, blocking bool) {
	switch {
	case c.Lock != "":
		x.acquire(st, Held{c.Lock, 'C', c.Chan}, pos, blocking)
	case c.Rel != "":
		x.release(st, c.Rel, pos)
	case c.Dir == '<':
		if x.isSignal(c.Chan) {
			st.facts[x.closedFact(c.Chan)] = true
		}
		x.emit(st, &Event{Kind: "recv", Name: cleanName(c.Chan.String()), Args: []*V{c.Chan}, Pos: pos})
	default:
		x.emit(st, &Event{Kind: "send", Name: cleanName(c.Chan.String()), Args: []*V{c.Chan, c.Val}, Pos: pos})
	}
}

// isSignal: a channel nothing is ever sent on, so that a receive only
// completes after it was closed.
func (x *Exec) isSignal(ch *V) bool {
	if ch.Kind == KExpr && ch.Name == "ctx.Done" {
		return true
	}
	if a, ok := symField[ch]; ok {
		s, f := fieldOf(a)
		return x.p.SignalChan[s+"."+f]
	}
	return false
}

func (x *Exec) acquire(st *State, h Held, pos token.Pos, blocking bool) {
	x.emit(st, &Event{Kind: "lock", Name: h.Name, Args: []*V{h.Obj}, Pos: pos, N: int(h.Mode), Block: blocking})
	if st.dead {
		return
	}
	n := 0
	for _, o := range st.held {
		if o.Name == h.Name {
			n++
		}
	}
	if n < 2 { // a loop may take any number of locks of one kind
		st.held = append(st.held, h)
	}
	x.havocGuarded(st, h)
}

func (x *Exec) release(st *State, name string, pos token.Pos) {
	x.emit(st, &Event{Kind: "unlock", Name: name, Pos: pos})
	for i := len(st.held) - 1; i >= 0; i-- {
		if st.held[i].Name == name {
			st.held = append(append([]Held(nil), st.held[:i]...), st.held[i+1:]...)
			return
		}
	}
}

// havocGuarded forgets the fields other goroutines may have changed before the
// mutex was acquired: the plain mutable fields next to it.
func (x *Exec) havocGuarded(st *State, h Held) {
	if h.Mode != 'W' && h.Mode != 'R' {
		return
	}
	if h.Obj == nil || h.Obj.Kind != KFld {
		return
	}
	owner := h.Obj.A[0]
	if isNewObj(rootOf(owner)) && !strings.HasSuffix(rootOf(owner).Name, "'") && rootOf(owner) == owner {
		return
	}
	for k := range st.heap {
		if k.Kind == KFld && k.A[0] == owner {
			s, f := fieldOf(k)
			if x.p.Mutable[s+"."+f] {
				v := st.heap[k]
				delete(st.heap, k)
				// contents of a map read before are stale
				for e := range st.heap {
					if (e.Kind == KElem || e.Kind == KExpr && e.Name == "has") && e.A[0] == v {
						delete(st.heap, e)
					}
				}
			}
		}
	}
	// maps that are never replaced are changed in place
	for k := range st.heap {
		if k.Kind == KElem || k.Kind == KExpr && k.Name == "has" {
			if a, ok := symField[k.A[0]]; ok && a.A[0] == owner {
				delete(st.heap, k)
			}
		}
	}
}

func (x *Exec) doSelect(it *item, in *ssa.Select, ctx string) []*item {
	var cases []SelCase
	for _, s := range in.States {
		ch := x.val(it, s.Chan)
		dir := byte('<')
		var v *V
		if s.Dir == types.SendOnly {
			dir = '>'
			v = x.val(it, s.Send)
		}
		cases = append(cases, x.selCase(dir, ch, v))
	}
	var out []*item
	tt := in.Type().(*types.Tuple)
	mk := func(i int, n *item) bool {
		// result tuple: index, recvOk, received values
		vals := []*V{kInt(int64(i)), kBool(true)}
		ri := 2
		for j, s := range in.States {
			if s.Dir == types.RecvOnly {
				if j == i {
					vals = append(vals, x.freshElem(n.st, ctx+"/"+in.Name()+fmt.Sprintf(".r%d", j), tt.At(ri).Type()))
				} else {
					vals = append(vals, zeroOf(tt.At(ri).Type()))
				}
				ri++
			}
		}
		n.put(in, tuple(vals...))
		return true
	}
	anyClosed := false
	for _, c := range cases {
		if c.Dir == '<' {
			if t, ok := it.st.facts[x.closedFact(c.Chan)]; ok && t {
				anyClosed = true
			}
		}
	}
	block := in.Blocking
	// a token this goroutine put into a channel lock is there to be taken back
	relReady := false
	for _, c := range cases {
		if c.Rel != "" && it.st.isHeld(c.Rel) {
			relReady = true
		}
	}
	for i := range cases {
		n := it.fork()
		c := cases[i]
		if c.Lock != "" && !block && it.st.isHeld(c.Lock) {
			continue // the lock is taken, by this goroutine itself
		}
		if c.Chan.Kind == KNil {
			continue // never ready
		}
		if nn, ok := n.st.nonNil(c.Chan); ok && !nn {
			continue
		}
		if !mk(i, n) {
			continue
		}
		x.withEnv(n, func() {
			x.emit(n.st, &Event{Kind: "select", Cases: cases, N: i, Block: block && !anyClosed, Pos: in.Pos(), Args: []*V{c.Chan}})
			if !n.st.dead {
				x.chanEffect(n.st, c, in.Pos(), block && !anyClosed)
			}
		})
		if n.st.dead {
			continue
		}
		// a receive from a closed channel delivers ok=false
		if c.Dir == '<' && c.Rel == "" {
			isClosed := n.st.facts[x.closedFact(c.Chan)]
			if isClosed {
				t := append([]*V(nil), n.env[in].A...)
				t[1] = kBool(false)
				n.put(in, tuple(t...))
				out = append(out, n)
				continue
			}
			if !strings.HasSuffix(c.Chan.String(), ".C@0") {
				o := n.fork()
				t := append([]*V(nil), n.env[in].A...)
				t[1] = kBool(false)
				o.put(in, tuple(t...))
				if selUsesOk(in) {
					out = append(out, o)
				}
			}
		}
		out = append(out, n)
	}
	if !in.Blocking && !anyClosed && !relReady {
		n := it.fork()
		mk(-1, n)
		x.withEnv(n, func() {
			x.emit(n.st, &Event{Kind: "select", Cases: cases, N: -1, Pos: in.Pos()})
		})
		if !n.st.dead {
			out = append(out, n)
		}
	}
	return out
}

// withEnv makes n the current frame while f runs.
func (x *Exec) withEnv(n *item, f func()) {
	i := len(envStack) - 1
	se := envStack[i]
	envStack[i] = n
	f()
	n.sync()
	envStack[i] = se
}

func selUsesOk(in *ssa.Select) bool {
	for _, r := range *in.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == 1 {
			return true
		}
	}
	return false
}

func newExec(p *Program, chk Checker, r *Reports) *Exec {
	return &Exec{p: p, chk: chk, maxSplit: maxSplit, reports: r, max: 30000000, maxMem: 3 << 30, calls: map[*ssa.Function]bool{}, events: map[string]int{}, seenEv: map[string]bool{}}
}

// runRoot analyses fn with unknown arguments.
func (x *Exec) runRoot(fn *ssa.Function, st *State) []Exit {
	x.root = fn
	envStack = nil
	x.stack = nil
	var args []*V
	for _, p := range fn.Params {
		args = append(args, x.paramValue(st, "arg:"+p.Name(), p.Type()))
	}
	return x.run(fn, args, nil, st, fn.Name())
}
