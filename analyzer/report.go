package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Report is one violation of a rule.
type Report struct {
	Rule  string
	Where string
	Fn    string
	Msg   string
	Root  string
	Trace []string
	Key   string
	key   string
}

type Reports struct {
	list []*Report
	seen map[string]bool
}

func newReports() *Reports { return &Reports{seen: map[string]bool{}} }

// report records a violation. One report per rule, function and detail.
func (x *Exec) report(st *State, rule, detail string, fn *ssa.Function, pos token.Pos, format string, a ...any) {
	f := "?"
	if fn != nil {
		f = fn.String()
	}
	k := rule + "|" + f + "|" + detail
	if x.reports.seen[k] {
		return
	}
	x.reports.seen[k] = true
	r := &Report{Rule: rule, Where: x.fullPos(pos), Fn: f, Msg: fmt.Sprintf(format, a...), key: k}
	if x.root != nil {
		r.Root = x.root.String()
	}
	if st != nil {
		r.Trace = x.trace(st)
	}
	x.reports.list = append(x.reports.list, r)
}

func (x *Exec) fullPos(p token.Pos) string {
	ps := x.p.SSA.Fset.Position(p)
	if !ps.IsValid() {
		return "?"
	}
	return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
}

func (x *Exec) trace(st *State) []string {
	var l []string
	for t := st.tr; t != nil && len(l) < 400; t = t.prev {
		l = append(l, x.pos(t.pos)+" "+t.msg)
	}
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	if len(l) > 60 {
		l = append(append(append([]string(nil), l[:15]...), "..."), l[len(l)-45:]...)
	}
	return l
}

func (r *Reports) sorted() []*Report {
	l := append([]*Report(nil), r.list...)
	sort.SliceStable(l, func(i, j int) bool { return l[i].key < l[j].key })
	return l
}

func (r *Report) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s: [%s] %s (in %s, from %s)\n", r.Where, r.Rule, r.Msg, r.Fn, r.Root)
	for _, t := range r.Trace {
		fmt.Fprintf(&b, "    %s\n", t)
	}
	return b.String()
}
