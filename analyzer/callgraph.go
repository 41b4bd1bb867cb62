package main

// Call graph of the repository: static calls, interface calls on the types of
// the repository, function values. A function passed to a call counts as
// called there; other function values may be any function of that signature
// whose address is taken.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type callEdge struct {
	site ssa.CallInstruction
	kind string // call, go, defer
	to   *ssa.Function
}

type callGraph struct {
	out   map[*ssa.Function][]callEdge
	in    map[*ssa.Function][]*ssa.Function
	taken []*ssa.Function
}

func (p *Prog) graph() *callGraph {
	if p.cg != nil {
		return p.cg
	}
	g := &callGraph{out: map[*ssa.Function][]callEdge{}, in: map[*ssa.Function][]*ssa.Function{}}
	p.cg = g
	seen := map[*ssa.Function]bool{}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					callee = ci.Common().Value
				}
				if _, ok := in.(*ssa.MakeClosure); ok {
					continue // taken where it is used
				}
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if o == nil || *o == nil || *o == callee {
						continue
					}
					if f := funcValue(*o); f != nil && !seen[f] {
						seen[f] = true
						g.taken = append(g.taken, f)
					}
				}
			}
		}
	}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				kind := "call"
				switch in.(type) {
				case *ssa.Go:
					kind = "go"
				case *ssa.Defer:
					kind = "defer"
				}
				add := func(f *ssa.Function) {
					if f != nil {
						g.out[fn] = append(g.out[fn], callEdge{ci, kind, f})
						g.in[f] = append(g.in[f], fn)
					}
				}
				cc := ci.Common()
				for _, a := range cc.Args {
					add(funcValue(a))
				}
				if cc.IsInvoke() {
					for _, f := range p.targets(cc) {
						add(f)
					}
					continue
				}
				if f := funcValue(cc.Value); f != nil {
					add(f)
					continue
				}
				switch v := cc.Value.(type) {
				case *ssa.Builtin, *ssa.Parameter:
					continue
				case *ssa.Extract: // of another module: no function of this one
					if call, ok := v.Tuple.(*ssa.Call); ok && call.Call.StaticCallee() != nil && !p.inRepo(call.Call.StaticCallee()) {
						continue
					}
				}
				if sig, ok := cc.Value.Type().Underlying().(*types.Signature); ok {
					for _, f := range g.taken {
						if types.Identical(f.Signature, sig) || f.Signature.Recv() != nil && types.Identical(types.NewSignatureType(nil, nil, nil, f.Signature.Params(), f.Signature.Results(), f.Signature.Variadic()), sig) {
							add(f)
						}
					}
				}
			}
		}
	}
	return g
}

// targets of a call on an interface, among the types of the repository
func (p *Prog) targets(cc *ssa.CallCommon) []*ssa.Function {
	it, ok := cc.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	n, ok := cc.Value.Type().(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	var l []*ssa.Function
	for _, t := range p.implementors(it) {
		if f := p.methodOf(t, cc.Method); f != nil && p.inRepo(f) {
			l = append(l, f)
		}
	}
	return l
}

func funcValue(v ssa.Value) *ssa.Function {
	switch v := v.(type) {
	case *ssa.Function:
		return v
	case *ssa.MakeClosure:
		return v.Fn.(*ssa.Function)
	case *ssa.ChangeType:
		return funcValue(v.X)
	case *ssa.MakeInterface:
		return funcValue(v.X)
	}
	return nil
}

// path finds calls leading from a function to one that satisfies the predicate
func (p *Prog) path(from *ssa.Function, goal func(f *ssa.Function) bool, skip func(e callEdge) bool) []callEdge {
	g := p.graph()
	type item struct {
		f    *ssa.Function
		prev int
		e    callEdge
	}
	q := []item{{f: from, prev: -1}}
	seen := map[*ssa.Function]bool{from: true}
	for i := 0; i < len(q); i++ {
		for _, e := range g.out[q[i].f] {
			if skip != nil && skip(e) {
				continue
			}
			if goal(e.to) {
				l := []callEdge{e}
				for j := i; q[j].prev >= 0; j = q[j].prev {
					l = append([]callEdge{q[j].e}, l...)
				}
				return l
			}
			if !seen[e.to] && p.inRepo(e.to) {
				seen[e.to] = true
				q = append(q, item{e.to, i, e})
			}
		}
	}
	return nil
}

func (p *Prog) reachesFn(from *ssa.Function, name string) bool {
	return p.path(from, func(f *ssa.Function) bool { return f.RelString(nil) == name }, nil) != nil
}
