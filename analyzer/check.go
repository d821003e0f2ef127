package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Monitor is the rule of one property, run over every path of a target.
type Monitor interface {
	Checker
	Init(x *Exec, st *State)
	Done(x *Exec, exits []Exit)
	output() *base
}

// base collects what a rule looked at.
type base struct {
	stub  bool                       // CloseWithCode is an event
	inst  map[string]map[string]bool // obligations by kind
	facts map[string]bool            // facts that are put together over all targets
}

func newBase(stub bool) base {
	return base{stub: stub, inst: map[string]map[string]bool{}, facts: map[string]bool{}}
}

func (b *base) output() *base                       { return b }
func (b *base) Init(x *Exec, st *State)             {}
func (b *base) Done(x *Exec, exits []Exit)          {}
func (b *base) Event(x *Exec, st *State, ev *Event) {}
func (b *base) Return(x *Exec, st *State, ret *V)   {}
func (b *base) fact(format string, a ...any)        { b.facts[fmt.Sprintf(format, a...)] = true }

// Call replaces the closing of a connection by an event, unless the rule is
// about what closing does.
func (b *base) Call(x *Exec, st *State, fn *ssa.Function, args []*V, pos token.Pos) ([]Exit, bool) {
	if b.stub && len(x.stack) > 0 && x.p.isCloseFn(fn) {
		return x.stubClose(st, fn, args, pos), true
	}
	return nil, false
}

// ob counts an obligation.
func (b *base) ob(kind string, x *Exec, pos token.Pos, extra ...string) {
	if b.inst[kind] == nil {
		b.inst[kind] = map[string]bool{}
	}
	b.inst[kind][x.pos(pos)+" "+strings.Join(extra, " ")] = true
}

// isCloseFn: the function every close of a connection goes through.
func (p *Program) isCloseFn(fn *ssa.Function) bool {
	return fn.Name() == "CloseWithCode" && fn.Signature.Recv() != nil && libStruct(deref(fn.Signature.Recv().Type())) == "Conn"
}

// stubClose is the effect of closing the connection for its caller: the event
// Close, and the closed signal raised.
func (x *Exec) stubClose(st *State, fn *ssa.Function, args []*V, pos token.Pos) []Exit {
	x.emit(st, &Event{Kind: "Close", Args: args, Pos: pos})
	if st.dead {
		return nil
	}
	for ref := range x.p.SignalChan {
		if strings.HasPrefix(ref, "Conn.") && x.p.canon(args[0]) {
			x.markClosed(st, ref)
		}
	}
	return one(st, noVal)
}

// canon: v is the connection the analysis is about.
func (p *Program) canon(v *V) bool { return true }

// Target is something the engine runs a rule over.
type Target struct {
	Key  string
	Kind string // api, go, callback, driver
	Fn   *ssa.Function
}

func (p *Program) targets() []Target {
	var out []Target
	for _, r := range p.roots() {
		out = append(out, Target{r.Fn.String(), r.Kind, r.Fn})
	}
	out = append(out, Target{"driver:writer", "driver", nil}, Target{"driver:reader", "driver", nil})
	return out
}

// method finds a method of a library type by name.
func (p *Program) method(typ, name string) *ssa.Function {
	for _, fn := range p.Funcs {
		if fn.Name() == name && fn.Signature.Recv() != nil && libStruct(deref(fn.Signature.Recv().Type())) == typ && fn.Parent() == nil {
			return fn
		}
	}
	return nil
}

// recvOf names the library type fn is a method of.
func recvOf(fn *ssa.Function) string {
	if fn == nil || fn.Signature.Recv() == nil {
		return ""
	}
	return libStruct(deref(fn.Signature.Recv().Type()))
}

// Prop is a property and the rule that decides it.
type Prop struct {
	ID     string
	Rule   string // what is decided, for the evidence
	Limits string // what is not
	Tech   string // the method, if not the common one
	Want   func(p *Program, t Target) bool
	New    func(p *Program) Monitor
	Finish func(p *Program, r *Result) // puts the facts together; other rules
	Min    map[string]int              // obligations confirmed by hand on the unchanged tree
}

// technique names the method for the manifest.
func (pr *Prop) technique() string {
	if pr.Tech != "" {
		return pr.Tech
	}
	return "interprocedural path-sensitive typestate and dataflow analysis over SSA"
}

// Result is what the analysis of a property found.
type Result struct {
	p       *Program
	Outs    []*WorkerOut
	Facts   map[string]bool
	Inst    map[string]map[string]bool
	Reports []*Report
}

func (r *Result) ob(kind, what string) {
	if r.Inst[kind] == nil {
		r.Inst[kind] = map[string]bool{}
	}
	r.Inst[kind][what] = true
}

func (r *Result) report(rule, where, fn, format string, a ...any) {
	r.Reports = append(r.Reports, &Report{Rule: rule, Where: where, Fn: fn, Msg: fmt.Sprintf(format, a...), Key: rule + "|" + fn + "|" + where})
}

// WorkerOut is the outcome of one target.
type WorkerOut struct {
	Target  string
	Bail    string
	Steps   int
	States  int
	Exits   int
	Unknown []string
	Reports []*Report
	Inst    map[string][]string
	Facts   []string
	Calls   []string
	Secs    float64
}

func keys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// runTarget analyses one target for one property.
func runTarget(p *Program, pr *Prop, t Target, budget time.Duration) *WorkerOut {
	t0 := time.Now()
	m := pr.New(p)
	x := newExec(p, m, newReports())
	x.deadline = t0.Add(budget)
	out := &WorkerOut{Target: t.Key}
	func() {
		defer func() {
			if r := recover(); r != nil {
				x.fail(fmt.Sprintf("analyzer panic: %v at %s", r, firstFrame()))
			}
		}()
		st := newState()
		var ex []Exit
		switch t.Key {
		case "driver:writer":
			ex = x.driveWriter(st, m)
		case "driver:reader":
			ex = x.driveReader(st, m)
		default:
			x.root = t.Fn
			m.Init(x, st)
			ex = x.runRoot(t.Fn, st)
		}
		out.Exits = len(ex)
		m.Done(x, ex)
	}()
	out.Bail = x.bail
	out.Steps, out.States = x.steps, x.states
	out.Unknown = keys(x.unknown)
	out.Reports = x.reports.sorted()
	for _, r := range out.Reports {
		r.Key = r.key
	}
	b := m.output()
	out.Inst = map[string][]string{}
	for k, v := range b.inst {
		out.Inst[k] = keys(v)
	}
	out.Facts = keys(b.facts)
	for fn := range x.calls {
		out.Calls = append(out.Calls, fn.String())
	}
	sort.Strings(out.Calls)
	out.Secs = time.Since(t0).Seconds()
	return out
}

func firstFrame() string {
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "/analyzer/") && !strings.Contains(l, "check.go") {
			return strings.TrimSpace(l)
		}
	}
	return "?"
}

// workerMain analyses the targets named on standard input and prints the
// outcomes.
func workerMain(p *Program, id string, key string, budget time.Duration) {
	pr := propByID(id)
	for _, t := range p.targets() {
		if t.Key == key {
			if os.Getenv("WSPROF") != "" {
				prof = map[string]int{}
			}
			out := runTarget(p, pr, t, budget)
			if prof != nil {
				k := make([]string, 0, len(prof))
				for s := range prof {
					k = append(k, s)
				}
				sort.Slice(k, func(i, j int) bool { return prof[k[i]] > prof[k[j]] })
				for i, s := range k {
					if i < 40 || strings.HasPrefix(s, "ROUND") {
						fmt.Fprintln(os.Stderr, prof[s], s)
					}
				}
			}
			json.NewEncoder(os.Stdout).Encode(out)
			return
		}
	}
	fmt.Fprintln(os.Stderr, "no target", key)
	os.Exit(3)
}

func propByID(id string) *Prop {
	for _, p := range props {
		if p.ID == id {
			return p
		}
	}
	return nil
}

var props []*Prop

func register(p *Prop) { props = append(props, p) }

// total is how long a check may take.
const total = 780 * time.Second

// analyse runs all the targets of a property, in parallel.
func analyse(p *Program, pr *Prop, dir string, budget time.Duration) *Result {
	res := &Result{p: p, Facts: map[string]bool{}, Inst: map[string]map[string]bool{}}
	var ts []Target
	if pr.New != nil {
		for _, t := range p.targets() {
			if pr.Want == nil || pr.Want(p, t) {
				ts = append(ts, t)
			}
		}
	}
	outs := make([]*WorkerOut, len(ts))
	// the long ones first
	order := make([]int, len(ts))
	for i := range order {
		order[i] = i
	}
	cost := func(k string) int {
		for i, s := range []string{"drain", "driver:", "Read", "NextReader", "Send", "Connect", "Upgrade", "Write"} {
			if strings.Contains(k, s) {
				return i
			}
		}
		return 100
	}
	sort.SliceStable(order, func(i, j int) bool { return cost(ts[order[i]].Key) < cost(ts[order[j]].Key) })
	end := time.Now().Add(total) // of the whole check
	next := make(chan int, len(ts))
	for _, i := range order {
		next <- i
	}
	close(next)
	exe, err := os.Executable()
	if err != nil {
		exe = os.Args[0]
	}
	var wg sync.WaitGroup
	for w := 0; w < min(8, max(2, runtime.NumCPU())); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				c := exec.Command(exe, "-repo", dir, "-worker", pr.ID, "-budget", strconv.Itoa(int(max(20*time.Second, min(budget, time.Until(end))).Seconds())), "-target", ts[i].Key)
				var so, se bytes.Buffer
				c.Stdout, c.Stderr = &so, &se
				err := c.Run()
				var o WorkerOut
				if err == nil {
					err = json.Unmarshal(so.Bytes(), &o)
				}
				if err != nil {
					e := se.String()
					if len(e) > 600 {
						e = e[:600]
					}
					o = WorkerOut{Target: ts[i].Key, Bail: fmt.Sprintf("worker failed: %v %s", err, e)}
				}
				outs[i] = &o
			}
		}()
	}
	wg.Wait()
	seen := map[string]bool{}
	for _, o := range outs {
		res.Outs = append(res.Outs, o)
		for _, f := range o.Facts {
			res.Facts[f] = true
		}
		for k, v := range o.Inst {
			for _, s := range v {
				res.ob(k, s)
			}
		}
		for _, r := range o.Reports {
			if !seen[r.Key] {
				seen[r.Key] = true
				res.Reports = append(res.Reports, r)
			}
		}
		if o.Bail != "" {
			res.Reports = append(res.Reports, &Report{Rule: "undecided", Fn: o.Target, Where: o.Target, Msg: "the analysis did not finish: " + o.Bail, Key: "undecided|" + o.Target})
		}
	}
	if pr.Finish != nil {
		func() {
			defer func() {
				if r := recover(); r != nil {
					res.report("undecided", "?", "?", "analyzer panic: %v at %s", r, firstFrame())
				}
			}()
			pr.Finish(p, res)
		}()
	}
	var mk []string
	for k := range pr.Min {
		mk = append(mk, k)
	}
	sort.Strings(mk)
	for _, k := range mk {
		if len(res.Inst[k]) < pr.Min[k] {
			res.report("vacuous", k, pr.ID, "only %d instances of %q were found, at least %d are expected: the rule no longer applies to the code", len(res.Inst[k]), k, pr.Min[k])
		}
	}
	sort.SliceStable(res.Reports, func(i, j int) bool { return res.Reports[i].Key < res.Reports[j].Key })
	return res
}

// knownFindings reads the committed list of findings that were not repaired.
func knownFindings(root, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=<id> key=<rule|function|detail> :: <text>
		rest, ok := strings.CutPrefix(l, "known: property="+id+" key=")
		if !ok {
			continue
		}
		k, text, _ := strings.Cut(rest, " :: ")
		out[strings.TrimSpace(k)] = text
	}
	return out
}

func checkMain(id, dir, root, tier string) int {
	t0 := time.Now()
	pr := propByID(id)
	if pr == nil {
		fmt.Println("unknown property", id)
		return 3
	}
	var res *Result
	p, err := load(dir)
	if err != nil {
		res = &Result{Facts: map[string]bool{}, Inst: map[string]map[string]bool{}}
		res.report("undecided", "load", "load", "%v", err)
		p = &Program{}
	} else {
		budget := 600 * time.Second
		if tier == "thorough" {
			budget = 3600 * time.Second
		}
		res = analyse(p, pr, dir, budget)
	}
	known := knownFindings(root, id)
	var viol []*Report
	for _, r := range res.Reports {
		if text, ok := known[r.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, text)
			continue
		}
		viol = append(viol, r)
	}
	evdir := filepath.Join(root, "evidence")
	os.MkdirAll(evdir, 0o755)
	replay := filepath.Join(evdir, id+".report.txt")
	if len(viol) > 0 {
		var b strings.Builder
		for _, r := range viol {
			b.WriteString(r.String())
			b.WriteString("\n")
		}
		os.WriteFile(replay, []byte(b.String()), 0o644)
		for i, r := range viol {
			if i < 20 {
				fmt.Printf("%s: [%s] %s (in %s, from %s)\n", r.Where, r.Rule, r.Msg, r.Fn, r.Root)
			}
		}
	} else {
		os.Remove(replay)
	}
	writeEvidence(p, pr, res, evdir, tier, len(viol), time.Since(t0))
	if len(viol) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	fmt.Printf("property %s holds: %s\n", id, summary(res))
	return 0
}

func summary(res *Result) string {
	steps, states, exits := 0, 0, 0
	for _, o := range res.Outs {
		steps += o.Steps
		states += o.States
		exits += o.Exits
	}
	var l []string
	for _, k := range instKeys(res) {
		l = append(l, fmt.Sprintf("%s %d", k, len(res.Inst[k])))
	}
	return fmt.Sprintf("%d targets, %d instructions interpreted, %d block states; obligations: %s", len(res.Outs), steps, states, strings.Join(l, ", "))
}

func instKeys(res *Result) []string {
	var l []string
	for k := range res.Inst {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func writeEvidence(p *Program, pr *Prop, res *Result, dir, tier string, nviol int, wall time.Duration) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	steps, states, exits := 0, 0, 0
	fns := map[string]bool{}
	unknown := map[string]bool{}
	var targets []string
	for _, o := range res.Outs {
		steps += o.Steps
		states += o.States
		exits += o.Exits
		targets = append(targets, o.Target)
		for _, f := range o.Calls {
			fns[f] = true
		}
		for _, u := range o.Unknown {
			unknown[u] = true
		}
	}
	obl := map[string]int{}
	samples := map[string][]string{}
	total := 0
	for k, v := range res.Inst {
		obl[k] = len(v)
		total += len(v)
		s := keys(v)
		if len(s) > 40 {
			s = s[:40]
		}
		samples[k] = s
	}
	cov := map[string]any{
		"explanation": fmt.Sprintf("Static analysis of the SSA form of the current tree. %s Analysed %d entry points over %d library functions: %d instructions interpreted abstractly in %d block states, %d joined exits; %d obligations checked. Not decided: %s",
			pr.Rule, len(res.Outs), len(fns), steps, states, exits, total, pr.Limits),
		"rule":                pr.Rule,
		"entry_points":        targets,
		"functions":           keys(fns),
		"instructions":        steps,
		"block_states":        states,
		"joined_exits":        exits,
		"obligations_by_kind": obl,
		"samples":             samples,
		"packages":            p.NPkgs,
		"files":               p.NFiles,
		"unmodelled_calls":    keys(unknown),
	}
	ev := map[string]any{
		"property": pr.ID, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": wall.Seconds(), "violations": nviol,
		"assumptions": []string{"the models of the standard library functions in analyzer/models.go", "go/ssa's translation of the source"},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, pr.ID+".json"), append(b, '\n'), 0o644)
}
