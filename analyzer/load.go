package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/bgokden/veri"
const pbPath = modPath + "/veriservice"

type Prog struct {
	dir     string
	ts      *Terms
	fset    *token.FileSet
	pkgs    []*packages.Package
	ssa     *ssa.Program
	spkgs   map[string]*ssa.Package
	funcs   []*ssa.Function // all functions of the repository
	cfgs    map[*ssa.Function]*cfgInfo
	reaches map[*ssa.BasicBlock]map[int]bool
	impls   map[string]*ssa.Function
	effects map[*ssa.Function]*effect
	cg      *callGraph
	fixed   map[*ssa.Global]ssa.Value // variables that are only set when they are declared
}

func loadProg(dir string) (*Prog, error) {
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=1")
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: dir, Env: env, Tests: false}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) < 8 {
		return nil, fmt.Errorf("only %d packages found", len(pkgs))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{dir: dir, ts: NewTerms(), fset: pkgs[0].Fset, pkgs: pkgs, ssa: prog, spkgs: map[string]*ssa.Package{}, cfgs: map[*ssa.Function]*cfgInfo{}, reaches: map[*ssa.BasicBlock]map[int]bool{}, impls: map[string]*ssa.Function{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.spkgs[sp.Pkg.Path()] = sp
	}
	for fn := range ssautil.AllFunctions(prog) {
		if p.inRepo(fn) && len(fn.Blocks) > 0 {
			p.funcs = append(p.funcs, fn)
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool {
		a, b := p.funcs[i], p.funcs[j]
		if a.RelString(nil) != b.RelString(nil) {
			return a.RelString(nil) < b.RelString(nil)
		}
		return a.Pos() < b.Pos()
	})
	return p, nil
}

func fnPkg(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
	}
	return ""
}

func (p *Prog) inRepo(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	return pk == modPath || strings.HasPrefix(pk, modPath+"/")
}

// pos renders a position relative to the repository
func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.fset.Position(pos)
	if r, err := filepath.Rel(p.dir, q.Filename); err == nil {
		q.Filename = r
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// fn finds a function or method: "data.NewDatum", "data.(*Data).Insert"
func (p *Prog) fn(name string) *ssa.Function {
	i := strings.Index(name, ".")
	if i < 0 {
		return nil
	}
	pk := p.spkgs[modPath+"/"+name[:i]]
	if pk == nil {
		return nil
	}
	rest := name[i+1:]
	if !strings.HasPrefix(rest, "(") {
		return pk.Func(rest)
	}
	j := strings.Index(rest, ")")
	tn := strings.TrimPrefix(rest[1:j], "*")
	tm, ok := pk.Members[tn].(*ssa.Type)
	if !ok {
		return nil
	}
	var t types.Type = tm.Type()
	if strings.HasPrefix(rest, "(*") {
		t = types.NewPointer(t)
	}
	sel := p.ssa.MethodSets.MethodSet(t).Lookup(pk.Pkg, rest[j+2:])
	if sel == nil {
		return nil
	}
	return p.ssa.MethodValue(sel)
}

func (p *Prog) typ(name string) *types.Named {
	i := strings.Index(name, ".")
	pk := p.spkgs[modPath+"/"+name[:i]]
	if pk == nil {
		return nil
	}
	o := pk.Pkg.Scope().Lookup(name[i+1:])
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

func (p *Prog) methodOf(t types.Type, m *types.Func) *ssa.Function {
	sel := p.ssa.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.ssa.MethodValue(sel)
}

// implementors of an interface among the repository's types
func (p *Prog) implementors(it *types.Interface) []types.Type {
	var out []types.Type
	var paths []string
	for k := range p.spkgs {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, path := range paths {
		sc := p.spkgs[path].Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if _, ok := tn.Type().Underlying().(*types.Interface); ok {
				continue
			}
			if types.Implements(tn.Type(), it) {
				out = append(out, tn.Type())
			} else if pt := types.NewPointer(tn.Type()); types.Implements(pt, it) {
				out = append(out, pt)
			}
		}
	}
	return out
}

// soleImpl devirtualises calls on interfaces of the repository with exactly
// one implementation
func (p *Prog) soleImpl(t types.Type, m *types.Func) *ssa.Function {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	pk := n.Obj().Pkg().Path()
	if !strings.HasPrefix(pk, modPath) || pk == pbPath || strings.HasSuffix(pk, "/annoyindex") {
		return nil
	}
	key := n.String() + "." + m.Name()
	if f, ok := p.impls[key]; ok {
		return f
	}
	var f *ssa.Function
	if l := p.implementors(n.Underlying().(*types.Interface)); len(l) == 1 {
		f = p.methodOf(l[0], m)
	}
	p.impls[key] = f
	return f
}

// fixedGlobal: the value of a package level variable that never changes, when
// it is a constant or an error made when the program starts
func (p *Prog) fixedGlobal(ts *Terms, in *ssa.UnOp) *Term {
	g, ok := in.X.(*ssa.Global)
	if !ok {
		return nil
	}
	if p.fixed == nil {
		p.fixed = map[*ssa.Global]ssa.Value{}
		changed := map[*ssa.Global]bool{}
		for _, fn := range p.funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if g, ok := st.Addr.(*ssa.Global); ok && st.Val != ssa.Value(g) {
							if p.fixed[g] != nil || fn.Name() != "init" || fn.Synthetic == "" {
								changed[g] = true
							}
							p.fixed[g] = st.Val
							continue
						}
					}
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
						if _, ok := u.X.(*ssa.Global); ok {
							continue
						}
					}
					for _, o := range in.Operands(nil) {
						if g, ok := (*o).(*ssa.Global); ok {
							changed[g] = true
						}
					}
				}
			}
		}
		for g := range changed {
			delete(p.fixed, g)
		}
	}
	switch v := p.fixed[g].(type) {
	case *ssa.Const:
		if v.Value != nil {
			return constTerm(ts, v)
		}
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && types.Identical(in.Type(), types.Universe.Lookup("error").Type()) {
			switch f.RelString(nil) {
			case "errors.New", "fmt.Errorf":
				return ts.OpT("fixed", in.Type(), ts.cons(&Term{K: KGlobal, Op: g.RelString(nil), T: g.Type()}))
			}
		}
	}
	return nil
}
