package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Root is an entry point of the library: a function other code may call or
// start at any time.
type Root struct {
	Fn   *ssa.Function
	Kind string // "api", "go", "callback"
}

// exportedAPI reports whether programs can call fn by name.
func exportedAPI(fn *ssa.Function) bool {
	o, ok := fn.Object().(*types.Func)
	if !ok || !o.Exported() || fn.Parent() != nil || fn.Synthetic != "" {
		return false
	}
	if r := o.Type().(*types.Signature).Recv(); r != nil {
		n := namedOf(r.Type())
		if n == nil {
			return false
		}
		return n.Obj().Exported()
	}
	return true
}

// roots returns the entry points of the library.
func (p *Program) roots() []Root {
	var out []Root
	seen := map[*ssa.Function]bool{}
	add := func(fn *ssa.Function, kind string) {
		if fn != nil && !seen[fn] && len(fn.Blocks) > 0 {
			seen[fn] = true
			out = append(out, Root{fn, kind})
		}
	}
	for _, fn := range p.Funcs {
		if exportedAPI(fn) {
			add(fn, "api")
		}
	}
	for _, fn := range p.GoTargets {
		add(fn, "go")
	}
	for _, fn := range p.Funcs {
		if p.Callbacks[fn] {
			add(fn, "callback")
		}
	}
	// library types handed out as interfaces of other packages
	for _, fn := range p.Funcs {
		o, ok := fn.Object().(*types.Func)
		if !ok || !o.Exported() || fn.Synthetic != "" {
			continue
		}
		if r := o.Type().(*types.Signature).Recv(); r != nil {
			add(fn, "api")
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Kind < out[j].Kind })
	return out
}
