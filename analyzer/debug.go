package main

import (
	"fmt"
	"go/token"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type nopChecker struct{ stubClose bool }

func (nopChecker) Event(x *Exec, st *State, ev *Event) {}
func (c nopChecker) Call(x *Exec, st *State, fn *ssa.Function, args []*V, pos token.Pos) ([]Exit, bool) {
	if c.stubClose && fn.Name() == "CloseWithCode" {
		x.emit(st, &Event{Kind: "Close", Args: args[1:], Pos: pos})
		return one(st, noVal), true
	}
	return nil, false
}
func (nopChecker) Return(x *Exec, st *State, ret *V) {}

func debugRoot(p *Program, name string, args []string) {
	fmt.Println("singletons", p.Singleton, "embed", p.EmbedOwner)
	fmt.Println("nonnil", p.NonNilField, "const", p.ConstField)
	fmt.Println("errglobals", len(p.ErrGlobals), "lock", p.LockChan, "signal", p.SignalChan, "mutable", p.Mutable, "sets", p.ConstSets)
	fmt.Println("go", p.GoTargets, "callbacks", p.Callbacks, "impl", p.Impl)
	for _, fn := range p.Funcs {
		if fn.Name() == name || strings.HasSuffix(fn.String(), name) {
			c := nopChecker{stubClose: len(args) > 0 && args[0] == "stub"}
			x := newExec(p, c, newReports())
			x.debug = os.Getenv("WSPROF") == ""
			if n := os.Getenv("MULTI"); n != "" {
				x.multi = map[string]bool{n: true}
			}
			if !x.debug {
				prof = map[string]int{}
				if n, err := strconv.Atoi(os.Getenv("WIDE")); err == nil {
					wideAfter = n
				}
				if n, err := strconv.Atoi(os.Getenv("SPLIT")); err == nil {
					x.maxSplit = n
				}
			}
			ex := x.runRoot(fn, newState())
			var pk []string
			for k := range prof {
				pk = append(pk, k)
			}
			sort.Slice(pk, func(i, j int) bool { return prof[pk[i]] > prof[pk[j]] })
			for i, k := range pk {
				if i < 4000 {
					fmt.Println(prof[k], k)
				}
			}
			fmt.Println(fn, "exits", len(ex), "steps", x.steps, "states", x.states, "bail", x.bail, "unknown", x.unknown)
			if !x.debug {
				return
			}
			for _, e := range ex {
				fmt.Fprintln(os.Stderr, "  EXIT", e.ret, "held", e.st.held)
				var l []string
				for k, v := range e.st.heap {
					l = append(l, k.String()+"="+v.String())
				}
				sort.Strings(l)
				fmt.Fprintln(os.Stderr, "  GROUP", strings.Join(l, "; "))
			}
		}
	}
}
