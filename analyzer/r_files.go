package main

// Files: a node only removes and overwrites what is its own (C22).

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// roots: the functions others may call from which f is reached
func (c *Ctx) roots(f *ssa.Function, out, seen map[*ssa.Function]bool) {
	if seen[f] {
		return
	}
	seen[f] = true
	if f.Parent() != nil {
		c.roots(f.Parent(), out, seen)
		return
	}
	n := 0
	if !exported(f) {
		for _, g := range c.p.funcs {
			if g != f && callsFn(g, f) {
				n++
				c.roots(g, out, seen)
			}
		}
	}
	if n == 0 {
		out[f] = true
	}
}

// destructive calls and the position of the path they change
func destroys(n string) (int, bool) {
	switch n {
	case "os.Remove", "os.RemoveAll", "os.Rename", "os.Truncate", "os.Create", "os.OpenFile", "os.WriteFile", "io/ioutil.WriteFile", "os.Symlink", "os.Link", "os.Chmod", "os.Chown",
		"syscall.Unlink", "syscall.Rmdir", "syscall.Rename", "syscall.Truncate", "(*os.Root).Remove", "(*os.Root).RemoveAll":
		return 0, true
	}
	return 0, false
}

func pathField(fa *ssa.FieldAddr) string {
	t := namedOf(fa.X.Type())
	p, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	st, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	f := st.Field(fa.Field).Name()
	switch t + "." + f {
	case "Data.Path", "Data.DBPath", "Dataset.Path", "Dataset.DataPath", "Annoyer.BuildFileName":
		return f
	}
	return ""
}

func (c *Ctx) files() {
	site := map[*ssa.Function]bool{}
	entry := map[*ssa.Function]bool{}
	for _, fn := range c.p.funcs {
		if fnPkg(fn) == pbPath {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && pathField(fa) != "" {
						site[fn] = true
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil {
						if _, ok := destroys(f.RelString(nil)); ok {
							site[fn] = true
						}
					}
				}
			}
		}
		if site[fn] {
			c.roots(fn, entry, map[*ssa.Function]bool{})
		}
	}
	var l []*ssa.Function
	for f := range entry {
		l = append(l, f)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].RelString(nil) < l[j].RelString(nil) })
	for _, fn := range l {
		c.filesOf(fn, site)
	}
}

func (c *Ctx) filesOf(fn *ssa.Function, site map[*ssa.Function]bool) {
	x := c.exec()
	ts := x.ts
	str := types.Typ[types.String]
	light := c.light()
	needed := map[*ssa.Function]bool{}
	x.opaque = func(f *ssa.Function) bool {
		if f == fn || f.Parent() != nil {
			return false
		}
		if light(f) || !c.p.inRepo(f) {
			return true
		}
		n, ok := needed[f]
		if !ok {
			n = !exported(f) || fnPkg(f) != fnPkg(fn) && len(f.Blocks) < 3 || f.RelString(nil) == dataT+"LoopDBMap"
			needed[f] = n
		}
		return !n
	}
	join := func(t *Term) bool { return callIs(t, "path.Join") || callIs(t, "path/filepath.Join") }
	plain := func(t *Term) bool { // a fixed name without folders
		v, ok := t.strVal()
		return ok && v != "" && v != "." && v != ".." && !strings.Contains(v, "/")
	}
	field := func(t *Term, typ, name string) *Term { // the object of which t is the field
		if t != nil && t.K == KInit && isFAddr(t.A[0], typ, name) {
			return t.A[0].A[0]
		}
		return nil
	}
	inside := func(s *State, p *Term) bool {
		d := field(p, "Data", "DBPath")
		if d == nil {
			return false
		}
		dir := x.field(s, d, "Path")
		rel := ts.OpT("call:path/filepath.Rel", str, dir, p)
		err := ts.OpT("call1:path/filepath.Rel", types.Universe.Lookup("error").Type(), dir, p)
		if !x.isNil(s, err) || !x.holds(s, ts.Cmp(NE, rel, ts.Str("."))) {
			return false
		}
		b := types.Typ[types.Bool]
		if x.holds(s, ts.OpT("call:path/filepath.IsLocal", b, rel)) {
			return true
		}
		no := func(fn, a string) bool { return x.holds(s, ts.Not(ts.OpT("call:"+fn, b, rel, ts.Str(a)))) }
		if no("strings.HasPrefix", "..") || no("strings.Contains", "..") {
			return true
		}
		return no("strings.HasPrefix", "../") && x.holds(s, ts.Cmp(NE, rel, ts.Str("..")))
	}
	// temp: made by this very function, and successfully
	temp := func(s *State, p *Term, dir bool) bool {
		n := []string{"io/ioutil.TempDir", "os.MkdirTemp"}
		if !dir {
			n = []string{"io/ioutil.TempFile", "os.CreateTemp"}
		}
		for _, f := range n {
			if dir && strings.HasPrefix(p.Op, "call:"+f) {
				return s.ghost["made"] != nil && p == s.ghost["#made"]
			}
		}
		return !dir && callIs(p, "(*os.File).Name") && s.ghost["made"] != nil && p.A[0] == s.ghost["#made"]
	}
	own := func(t *Term) bool { // the list of datasets, or a file next to it
		for opIs(t, "concat") && len(t.A) == 2 && plain(t.A[1]) {
			t = t.A[0]
		}
		if callIs(t, "fmt.Sprintf") && len(t.A) == 2 {
			if f, ok := t.A[0].strVal(); ok && (strings.HasPrefix(f, "%s") || strings.HasPrefix(f, "%v")) && !strings.ContainsAny(f[2:], "/%") {
				t = unIface(t.A[1])
			}
		}
		return join(t) && len(t.A) == 2 && field(t.A[0], "Dataset", "Path") != nil && plain(t.A[1])
	}
	x.pure = func(n string) bool { return n == "(*os.File).Name" }
	x.on = func(s *State, e *Event) {
		switch e.Kind {
		case EvBranch:
			if v := s.ghost["#madeerr"]; v != nil && s.ghost["made"] == nil && x.isNil(s, v) {
				s.SetGhost("made", ts.True)
			}
		case EvRet:
			switch e.Callee {
			case "io/ioutil.TempDir", "os.MkdirTemp", "io/ioutil.TempFile", "os.CreateTemp":
				s.SetGhost("made", nil)
				s.SetGhost("#made", e.Res[0])
				s.SetGhost("#madeerr", e.Res[1])
			}
		case EvStore:
			a := e.Args[0]
			v := e.Args[1]
			switch {
			case isFAddr(a, "Data", "DBPath"):
				c.check("paths", e.Fn, e.Pos, s, a.A[0].K == KAlloc, "the folder of a dataset in use is changed")
			case isFAddr(a, "Data", "Path"), isFAddr(a, "Dataset", "Path"):
				c.check("paths", e.Fn, e.Pos, s, a.A[0].K == KAlloc, "the data folder of a dataset in use is changed")
			case isFAddr(a, "Dataset", "DataPath"):
				ok := a.A[0].K == KAlloc && join(v) && len(v.A) == 2 && plain(v.A[1]) && v.A[0] == x.field(s, a.A[0], "Path")
				c.check("paths", e.Fn, e.Pos, s, ok, "the data folder is not a folder of its own inside of the folder of the node")
			case isFAddr(a, "Annoyer", "BuildFileName"):
				st, ok := e.Instr.(*ssa.Store)
				c.check("index-file", e.Fn, e.Pos, s, ok && c.allFrom(st.Val, tempName, map[ssa.Value]bool{}), "the file of the index is not a temporary file made for it")
			}
		case EvCall:
			if _, ok := destroys(e.Callee); !ok {
				return
			}
			p := e.Args[0]
			switch e.Callee {
			case "os.RemoveAll":
				c.check("removed", e.Fn, e.Pos, s, inside(s, p) || temp(s, p, true), "a folder is removed that may lie outside of the data folder")
			case "os.Remove":
				c.check("removed", e.Fn, e.Pos, s, field(p, "Annoyer", "BuildFileName") != nil || temp(s, p, false) || own(p), "a file is removed that is not known to be an own one")
			case "os.Rename":
				c.check("written", e.Fn, e.Pos, s, own(p) && own(e.Args[1]), "a file is renamed that is not known to be an own one")
			case "os.OpenFile":
				fl, ok := e.Args[1].intVal()
				if ok && fl&(writeFlags|0x40|0x400) == 0 {
					c.check("written", e.Fn, e.Pos, s, true, "")
					return
				}
				c.check("written", e.Fn, e.Pos, s, own(p), "a file is written that is not known to be an own one")
			case "os.Create", "os.WriteFile", "io/ioutil.WriteFile", "os.Truncate":
				c.check("written", e.Fn, e.Pos, s, own(p), "a file is written that is not known to be an own one")
			default:
				c.check("written", e.Fn, e.Pos, s, false, "%s changes files", e.Callee)
			}
		}
	}
	c.run(x, fn, nil)
}

func init() {
	register("C22", "A node removes and overwrites only what is its own, whatever the names of datasets are.",
		[]string{"removed", "written", "paths", "index-file"}, func(c *Ctx) { c.files() })
}

// allFrom: every value v may have is one that is wanted
func (c *Ctx) allFrom(v ssa.Value, want func(v ssa.Value) bool, seen map[ssa.Value]bool) bool {
	if seen[v] || want(v) {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !c.allFrom(e, want, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		return v.Op == token.MUL && c.allStored(v.X, want, seen)
	case *ssa.ChangeType:
		return c.allFrom(v.X, want, seen)
	case *ssa.Parameter:
		f := v.Parent()
		i := 0
		for f.Params[i] != v {
			i++
		}
		n := 0
		for _, g := range c.p.funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
						n++
						if !c.allFrom(ci.Common().Args[i], want, seen) {
							return false
						}
					}
				}
			}
		}
		return n > 0
	case *ssa.Call:
		return c.allReturned(v, 0, want, seen)
	case *ssa.Extract:
		if call, ok := v.Tuple.(*ssa.Call); ok {
			return c.allReturned(call, v.Index, want, seen)
		}
	}
	return false
}

func (c *Ctx) allReturned(call *ssa.Call, i int, want func(v ssa.Value) bool, seen map[ssa.Value]bool) bool {
	f := call.Call.StaticCallee()
	if f == nil || !c.p.inRepo(f) {
		return false
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !c.allFrom(r.Results[i], want, seen) {
			return false
		}
	}
	return true
}

// allStored: every value stored in a local variable is one that is wanted
func (c *Ctx) allStored(addr ssa.Value, want func(v ssa.Value) bool, seen map[ssa.Value]bool) bool {
	if seen[addr] {
		return true
	}
	seen[addr] = true
	switch a := addr.(type) {
	case *ssa.Alloc:
	case *ssa.FreeVar:
		for i, fv := range a.Parent().FreeVars {
			if fv != a {
				continue
			}
			for _, b := range a.Parent().Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(a.Parent()) && !c.allStored(mc.Bindings[i], want, seen) {
						return false
					}
				}
			}
		}
	default:
		return false
	}
	for _, r := range *addr.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != addr || !c.allFrom(r.Val, want, seen) {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == addr && !c.allStored(r.Fn.(*ssa.Function).FreeVars[i], want, seen) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// tempName: the name of a temporary file, or none
func tempName(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value != nil && v.Value.ExactString() == `""`
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil || f.RelString(nil) != "(*os.File).Name" {
			return false
		}
		if x, ok := v.Call.Args[0].(*ssa.Extract); ok && x.Index == 0 {
			if call, ok := x.Tuple.(*ssa.Call); ok && call.Call.StaticCallee() != nil {
				switch call.Call.StaticCallee().RelString(nil) {
				case "io/ioutil.TempFile", "os.CreateTemp":
					return true
				}
			}
		}
	}
	return false
}
