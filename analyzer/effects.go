package main

// Bottom-up effect summaries of the repository's functions: which functions
// only compute a value from their arguments and memory they merely read.

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

type effect struct {
	simple bool // writes nothing but memory it allocated itself, no concurrency
	loops  bool // contains (transitively) a loop
	reads  bool // reads memory
}

func (p *Prog) effectOf(fn *ssa.Function) effect {
	if p.effects == nil {
		p.effects = map[*ssa.Function]*effect{}
	}
	if e, ok := p.effects[fn]; ok {
		return *e
	}
	e := &effect{simple: false, loops: true, reads: true} // recursion: not simple
	p.effects[fn] = e
	r := effect{simple: true}
	if len(fn.Blocks) == 0 || len(fn.FreeVars) > 0 {
		r.simple = false
		*e = r
		return r
	}
	r.loops = len(p.cfg(fn).header) > 0
	var local func(v ssa.Value, d int) bool
	local = func(v ssa.Value, d int) bool {
		if d > 10 {
			return false
		}
		switch v := v.(type) {
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
			return true
		case *ssa.FieldAddr:
			return local(v.X, d+1)
		case *ssa.IndexAddr:
			return local(v.X, d+1)
		case *ssa.Slice:
			return local(v.X, d+1)
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return local(v.Call.Args[0], d+1)
			}
		case *ssa.Const:
			return v.Value == nil
		case *ssa.Phi:
			for _, x := range v.Edges {
				if x != v && !local(x, d+1) {
					return false
				}
			}
			return true
		}
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if !local(in.Addr, 0) {
					r.simple = false
				}
			case *ssa.MapUpdate:
				if !local(in.Map, 0) {
					r.simple = false
				}
			case *ssa.Send, *ssa.Select, *ssa.Go, *ssa.Defer, *ssa.MakeClosure, *ssa.MakeChan, *ssa.Panic:
				r.simple = false
			case *ssa.UnOp:
				if in.Op.String() == "<-" {
					r.simple = false
				}
				if in.Op.String() == "*" && !local(in.X, 0) {
					r.reads = true
				}
			case *ssa.Call:
				c := in.Call
				if c.IsInvoke() {
					if c.Method.FullName() != "(error).Error" {
						r.simple = false
					}
					continue
				}
				switch f := c.Value.(type) {
				case *ssa.Builtin:
					if f.Name() == "copy" || f.Name() == "delete" || f.Name() == "clear" || f.Name() == "append" {
						if !local(c.Args[0], 0) {
							r.simple = false
						}
					}
					if f.Name() == "close" || f.Name() == "recover" {
						r.simple = false
					}
				case *ssa.Function:
					n := f.RelString(nil)
					if p.inRepo(f) {
						if strings.HasPrefix(n, gencPath+"Marshal") || strings.HasPrefix(n, gencPath+"Size") {
							continue
						}
						s := p.effectOf(f)
						if !s.simple {
							r.simple = false
						}
						r.loops = r.loops || s.loops
						r.reads = r.reads || s.reads
						continue
					}
					if !pureName(n) && !strings.HasPrefix(n, "log.Print") && !strings.HasPrefix(n, "errors.") && !strings.HasPrefix(n, "fmt.Errorf") && n != "time.Now" && !strings.HasPrefix(n, "sort.Strings") {
						r.simple = false
					}
				default:
					r.simple = false
				}
			}
		}
	}
	*e = r
	return r
}
