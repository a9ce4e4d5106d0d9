package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// callGraph has an edge from each repository function to every repository function it may call or hand on:
// static calls, closures, functions used as values, and all implementations of an interface method.
type callGraph struct {
	p   *Program
	out map[*ssa.Function][]*ssa.Function
}

func (k *Checker) callGraph() *callGraph { return k.p.callGraph() }

func (p *Program) callGraph() *callGraph {
	cg := &callGraph{p: p, out: map[*ssa.Function][]*ssa.Function{}}
	var named []types.Type
	for _, sp := range p.ssa {
		for _, m := range sp.Members {
			if t, ok := m.(*ssa.Type); ok && !types.IsInterface(t.Type()) {
				named = append(named, t.Type(), types.NewPointer(t.Type()))
			}
		}
	}
	for _, fn := range p.funcs {
		seen := map[*ssa.Function]bool{}
		var add func(g *ssa.Function)
		add = func(g *ssa.Function) {
			if g == nil || seen[g] {
				return
			}
			seen[g] = true
			if g.Synthetic != "" && g.Blocks != nil && !inFuncs(p, g) {
				// a wrapper: what it calls
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok {
							add(ci.Common().StaticCallee())
						}
					}
				}
				return
			}
			if inRepo(g) {
				cg.out[fn] = append(cg.out[fn], g)
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					c := ci.Common()
					if c.IsInvoke() {
						it, _ := c.Value.Type().Underlying().(*types.Interface)
						for _, t := range named {
							if it != nil && types.Implements(t, it) {
								if sel := p.prog.MethodSets.MethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
									add(p.prog.MethodValue(sel))
								}
							}
						}
					} else {
						add(c.StaticCallee())
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
					}
				}
			}
		}
	}
	return cg
}

func inFuncs(p *Program, g *ssa.Function) bool { return g.Synthetic == "" }

// reach returns the functions reachable from f, with the function each was first reached from; functions for which
// stop holds are neither entered nor reported.
func (cg *callGraph) reach(f *ssa.Function, stop func(*ssa.Function) bool) map[*ssa.Function]string {
	out := map[*ssa.Function]string{f: f.String()}
	work := []*ssa.Function{f}
	for len(work) > 0 {
		g := work[len(work)-1]
		work = work[:len(work)-1]
		for _, h := range cg.out[g] {
			if _, ok := out[h]; ok || (stop != nil && stop(h)) {
				continue
			}
			out[h] = g.String()
			work = append(work, h)
		}
	}
	return out
}

// isExportedFn: an exported function, or an exported method of an exported type.
func isExportedFn(fn *ssa.Function) bool {
	o, ok := fn.Object().(*types.Func)
	if !ok || !o.Exported() || fn.Parent() != nil {
		return false
	}
	if r := o.Type().(*types.Signature).Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		n, ok := types.Unalias(t).(*types.Named)
		return ok && n.Obj().Exported()
	}
	return true
}

// namedType finds a type the property is about.
func (k *Checker) namedType(pkg, name string) *types.Named {
	sp := k.p.ssa[modPath+"/"+pkg]
	if sp != nil {
		if t, ok := sp.Members[name].(*ssa.Type); ok {
			if n, ok := types.Unalias(t.Type()).(*types.Named); ok {
				return n
			}
		}
	}
	k.violate(pkg, "the type %s the property is about was not found", name)
	return nil
}

// fieldIndex finds a field by name.
func (k *Checker) fieldIndex(n *types.Named, name string) int {
	st, ok := n.Underlying().(*types.Struct)
	if ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return i
			}
		}
	}
	k.violate(n.String(), "the field %s was not found", name)
	return 0
}
