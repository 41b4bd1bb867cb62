package main

// What a dataset reports about itself (C32).

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// statsProcess: the number of data reported is the number of unexpired data of one complete pass
func (c *Ctx) statsProcess(seen map[token.Pos]bool) {
	fn := c.fn("data.(*Data).Process")
	x := c.exec()
	ts := x.ts
	x.threads = false
	x.opaque = func(f *ssa.Function) bool {
		n := f.RelString(nil)
		if f.Name() == "LoopDBMap" {
			return false
		}
		return n == dataT+"GetDataInfo" || n == dataT+"DataSourceDiffMap" || n == dataT+"GetConfig" || f != fn && !touchesStats(c.p, f)
	}
	stat := map[string]bool{"N": true, "Avg": true, "Hist": true, "MaxDistance": true}
	var d *Term
	decide := func(s *State) {
		if s.ghost["open"] == nil || s.ghost["decided"] != nil {
			return
		}
		ent := entryOf(x, c.p, s.ghost["#cur"])
		exp := x.field(s, ent, "ExprireAt")
		switch {
		case !storedIsEntry(x, s, s.ghost["#cur"]) || x.expired(s, exp):
			s.SetGhost("decided", ts.Str("gone"))
		case x.unexpired(s, exp):
			s.SetGhost("decided", ts.Str("live"))
			s.SetGhost("#count", ts.AddK(s.ghost["#count"], 1))
		}
	}
	x.on = func(s *State, e *Event) {
		keepNow(c, s, e)
		switch e.Kind {
		case EvBranch:
			decide(s)
		case EvIter:
			if len(e.Args) < 3 || !isFAddr(e.Args[0], "Data", "DBMap") {
				return
			}
			if s.ghost["open"] != nil {
				c.check("count", e.Fn, e.Pos, s, s.ghost["decided"] != nil, "a stored datum is passed over without looking at its expiry")
			}
			if s.ghost["#count"] == nil {
				s.SetGhost("#count", ts.Zero)
			}
			s.SetGhost("decided", nil)
			s.SetGhost("open", nil)
			if e.Ok {
				s.SetGhost("open", ts.True)
				s.SetGhost("#cur", e.Args[2])
				return
			}
			s.SetGhost("scanned", ts.Bool(!e.Write))
		case EvStore:
			a := e.Args[0]
			if a.K != KFAddr || a.A[0] != d || !stat[a.Op] {
				return
			}
			seen[e.Pos] = true
			s.SetGhost("set:"+a.Op, ts.True)
			c.check("publish", e.Fn, e.Pos, s, s.locked(d), "%s is changed without the lock of the dataset", a.Op)
			c.check("publish", e.Fn, e.Pos, s, s.ghost["scanned"] == ts.True, "%s is changed although not all data was looked at", a.Op)
			if a.Op == "N" {
				c.check("count", e.Fn, e.Pos, s, s.ghost["#count"] != nil && x.eq(s, unconv(e.Args[1]), s.ghost["#count"]), "the number of data published is not the number of unexpired data seen")
				s.SetGhost("published", ts.True)
			}
		case EvUnlock:
			l := s.ghosts("set:")
			if len(l) > 0 && isLockOf(e.Args[0], d) {
				c.check("publish", e.Fn, e.Pos, s, len(l) == len(stat), "only a part of the statistics of a pass is published: %s", strings.Join(l, ", "))
				for _, k := range l {
					s.SetGhost(k, nil)
				}
			}
		}
	}
	for _, e := range c.run(x, fn, func(s *State, a []*Term) { d = a[0] }) {
		s := e.s
		if x.nonNil(s, e.res[0]) || s.ghost["scanned"] == nil {
			continue
		}
		c.check("publish", fn, s.retPos(), s, s.ghost["published"] != nil, "what was counted is not published")
	}
}

func isLockOf(a, d *Term) bool {
	return a == d || a != nil && a.K == KFAddr && a.A[0] == d
}

// touchesStats: the function stores statistics or calls back
func touchesStats(p *Prog, f *ssa.Function) bool {
	direct := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && namedOf(fa.X.Type()) == "Data" {
					return true
				}
			}
		}
		for _, q := range f.Params {
			if hasFuncType(q.Type()) || namedOf(q.Type()) == "DBMapEntry" {
				return true
			}
		}
		return f.Parent() != nil
	}
	return direct(f) || p.path(f, func(g *ssa.Function) bool { return p.inRepo(g) && direct(g) }, nil) != nil
}

// statsInfo: the information about a dataset is what it knows, under the right names
func (c *Ctx) statsInfo(seen map[token.Pos]bool) {
	fn := c.fn("data.(*Data).GetDataInfo")
	x := c.exec()
	ts := x.ts
	var d *Term
	own := []string{"Avg", "N", "MaxDistance", "Hist", "Timestamp"}
	cfg := []string{"Version", "Name", "TargetN", "TargetUtilization", "NoTarget"}
	x.on = func(s *State, e *Event) {
		switch e.Kind {
		case EvLock:
			if isLockOf(e.Args[0], d) {
				s.SetGhost("section", ts.True)
			}
		case EvUnlock:
			if isLockOf(e.Args[0], d) && s.ghost["read"] != nil {
				s.SetGhost("past", ts.True)
			}
		case EvCall:
			if e.Callee == "builtin:copy" && e.Args[0].K == KAlloc && e.Args[0].Op == "makeslice" && x.lenOf(s, e.Args[0]) == x.lenOf(s, e.Args[1]) {
				for _, f := range own {
					if x.field(s, d, f) == e.Args[1] {
						s.SetGhost("#copy"+f, e.Args[0])
					}
				}
			}
		case EvLoad:
			a := e.Args[0]
			if a.K == KFAddr && a.A[0] == d && (a.Op == "Avg" || a.Op == "N" || a.Op == "MaxDistance" || a.Op == "Hist") {
				h, _ := x.heldOn(s, d)
				c.check("info", e.Fn, e.Pos, s, h && s.ghost["past"] == nil, "%s is read in another lock than the rest of the statistics", a.Op)
				s.SetGhost("read", ts.True)
			}
		}
	}
	for _, e := range c.run(x, fn, func(s *State, a []*Term) { d = a[0] }) {
		s := e.s
		r := e.res[0]
		if !c.check("info", fn, s.retPos(), s, x.nonNil(s, r), "there is no information about the dataset") {
			continue
		}
		for _, f := range own {
			v, w := x.field(s, r, f), x.field(s, d, f)
			if opIs(v, "append") && v.A[1] == w && (x.isNil(s, v.A[0]) || x.holds(s, ts.Cmp(EQ, x.lenOf(s, v.A[0]), ts.Zero))) || v == s.ghost["#copy"+f] {
				v = w
			}
			c.check("info", fn, s.retPos(), s, v == w, "the %s reported is not that of the dataset", f)
		}
		for _, f := range cfg {
			c.check("info", fn, s.retPos(), s, x.field(s, r, f) == x.field(s, x.field(s, d, "Config"), f), "the %s reported is not that of the config", f)
		}
	}
	// lists that were published are not changed
	for _, f := range c.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
					if _, isArr := ia.X.Type().Underlying().(*types.Pointer); !isArr {
						c.check("publish", f, in.Pos(), nil, !c.published(ia.X, map[ssa.Value]bool{}), "published statistics are changed in place")
					}
				}
			}
		}
	}
	// nothing else changes the statistics
	for _, f := range c.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || namedOf(fa.X.Type()) != "Data" || fieldName(fa) != "N" {
					continue
				}
				_, made := fa.X.(*ssa.Alloc)
				c.check("count", f, in.Pos(), nil, made || seen[in.Pos()], "the number of data is changed outside of a pass over the data")
			}
		}
	}
}

// published: the list may be one that is part of the statistics of a dataset
func (c *Ctx) published(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if c.published(e, seen) {
				return true
			}
		}
	case *ssa.Slice:
		return c.published(v.X, seen)
	case *ssa.Extract:
		return c.published(v.Tuple, seen)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return c.published(v.X, seen)
		}
	case *ssa.FieldAddr:
		n, f := namedOf(v.X.Type()), fieldName(v)
		return (n == "Data" || n == "DataInfo") && (f == "Avg" || f == "Hist")
	case *ssa.Alloc: // a variable: what is stored to it here and in functions it is bound to
		return c.storedTo(v, seen)
	case *ssa.FreeVar:
		f := v.Parent()
		for i, fv := range f.FreeVars {
			if fv != v || f.Parent() == nil {
				continue
			}
			for _, b := range f.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f && c.published(mc.Bindings[i], seen) {
						return true
					}
				}
			}
		}
		return c.storedTo(v, seen)
	case *ssa.Parameter:
		f := v.Parent()
		for i, p := range f.Params {
			if p != v {
				continue
			}
			for _, g := range c.p.funcs {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						call, ok := in.(ssa.CallInstruction)
						if ok && call.Common().StaticCallee() == f && i < len(call.Common().Args) && c.published(call.Common().Args[i], seen) {
							return true
						}
					}
				}
			}
		}
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil {
			return false
		}
		if b := f.Signature.Recv(); b != nil && namedOf(b.Type()) == "DataInfo" {
			return f.Name() == "GetAvg" || f.Name() == "GetHist"
		}
		if !c.p.inRepo(f) {
			return false
		}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				for _, res := range r.Results {
					if _, ok := res.Type().Underlying().(*types.Slice); ok && c.published(res, seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (c *Ctx) storedTo(v ssa.Value, seen map[ssa.Value]bool) bool {
	for _, r := range *v.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == v && c.published(st.Val, seen) {
			return true
		}
		if mc, ok := r.(*ssa.MakeClosure); ok {
			for i, b := range mc.Bindings {
				if b == v && c.storedTo(mc.Fn.(*ssa.Function).FreeVars[i], seen) {
					return true
				}
			}
		}
	}
	return false
}

func init() {
	register("C32", "The number of data a dataset reports is the number of unexpired data of one complete pass, published together with the other statistics of the pass; the information about a dataset is its statistics and config, each under its name.",
		[]string{"count", "publish", "info"}, func(c *Ctx) {
			seen := map[token.Pos]bool{}
			c.statsProcess(seen)
			c.statsInfo(seen)
		})
}
