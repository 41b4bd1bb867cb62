package main

// The approximate index (C16, C17).

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	annPkg   = modPath + "/annoyindex."
	annIface = "iface:(" + annPkg + "AnnoyIndex"
	annNew   = annPkg + "NewAnnoyIndex"
	annDel   = annPkg + "DeleteAnnoyIndex"
)

var annFields = []string{"AnnoyIndex", "DataIndex", "Dimension"}

// annCall: the method of a native index called
func annCall(n string) string {
	if strings.HasPrefix(n, annIface) {
		return n[strings.LastIndex(n, ".")+1:]
	}
	return ""
}

// isDatumList: a list of data
func isDatumList(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && namedOf(s.Elem()) == "Datum"
}

// annObj: the object whose mutex the address is, if it is an index
func annObj(lock *Term) *Term {
	if lock.K == KFAddr && namedOf(lock.A[0].T) == "Annoyer" {
		return lock.A[0]
	}
	return nil
}

// relock: whoever takes the lock knows nothing of what it guards
func (x *Exec) relock(s *State, o *Term) {
	t := o.T.Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	st := t.(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() == "RWMutex" || f.Name() == "Mutex" {
			continue
		}
		s.wh()[x.ts.FAddr(o, f.Name(), f.Type())] = x.ts.Fresh("guarded:"+f.Name(), f.Type(), 0)
	}
}

func (x *Exec) heldOn(s *State, o *Term) (held, write bool) {
	for _, l := range s.locks {
		if l.addr.K == KFAddr && l.addr.A[0] == o {
			held = true
			write = write || l.write
		}
	}
	return
}

// published: an index value read from the field of a dataset
func published(t *Term) bool { return t != nil && strings.HasPrefix(t.Op, "guarded:AnnoyIndex") }

// indexBuild judges how an index is built, published and freed, by the rebuild and by whatever else handles it
func (c *Ctx) indexBuild(safe, whole string) {
	process, search := c.fn("data.(*Data).Process"), c.fn("data.(*Data).SearchAnnoy")
	c.indexChange(process, safe, whole)
	handles := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					if namedOf(in.X.Type()) == "Annoyer" {
						if _, lock := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); !lock {
							return true
						}
					}
				case ssa.CallInstruction:
					cc := in.Common()
					if cc.IsInvoke() && strings.HasPrefix("iface:"+cc.Method.FullName(), annIface) {
						return true
					}
					if g := cc.StaticCallee(); g != nil && strings.HasPrefix(g.RelString(nil), annPkg) {
						return true
					}
				}
			}
		}
		return false
	}
	judged := func(f *ssa.Function) bool { return f == process || f == search }
	for _, f := range c.p.funcs {
		if judged(f) || !exported(f) || fnPkg(f)+"." == annPkg || len(f.Blocks) == 0 {
			continue
		}
		is := func(g *ssa.Function) bool { return g == f }
		if c.p.path(process, is, nil) != nil || c.p.path(search, is, nil) != nil {
			continue // judged as part of these
		}
		skip := func(e callEdge) bool { return judged(e.to) || exported(e.to) || fnPkg(e.to)+"." == annPkg }
		if handles(f) || c.p.path(f, func(g *ssa.Function) bool {
			return c.p.inRepo(g) && fnPkg(g)+"." != annPkg && !exported(g) && handles(g)
		}, skip) != nil {
			c.indexChange(f, safe, whole)
		}
	}
}

func (c *Ctx) indexChange(fn *ssa.Function, safe, whole string) {
	process := fn.RelString(nil) == dataT+"Process"
	x := c.exec()
	x.volatile = func(a *Term) bool { return isFAddr(a, "Data", "Alive") } // DeleteAll may clear it at any time
	ts := x.ts
	x.threads = false
	x.opaque = func(f *ssa.Function) bool {
		switch f.Name() {
		case "LoopDBMap":
			return false
		}
		if f.RelString(nil) == dataT+"GetDataInfo" || f.RelString(nil) == dataT+"DataSourceDiffMap" || f.RelString(nil) == dataT+"GetConfig" {
			return true
		}
		return f != fn && (!touchesIndex(c.p, f) || !process && exported(f))
	}
	x.model = func(x *Exec, s *State, cc *CallCtx) ([]Exit, bool) {
		if strings.HasPrefix(cc.name, annNew) {
			x.pre(s, cc)
			r := ts.Fresh("index", cc.sig.Results().At(0).Type(), cc.instr.Pos())
			x.assume(s, ts.Cmp(NE, r, ts.Nil), true)
			return []Exit{x.post(s, cc, r)}, true
		}
		if annCall(cc.name) != "" || strings.HasPrefix(cc.name, annDel) {
			x.pre(s, cc)
			var res []*Term
			for _, t := range resTypes(cc.sig) {
				res = append(res, ts.Fresh("native", t, cc.instr.Pos()))
			}
			return []Exit{x.post(s, cc, res...)}, true
		}
		if cc.cfn != nil && c.p.inRepo(cc.cfn) && x.opaque(cc.cfn) {
			x.pre(s, cc)
			var res []*Term
			for _, t := range resTypes(cc.sig) {
				if cc.cfn.Name() == "DataSourceDiffMap" || t.String() == "error" {
					res = append(res, ts.Fresh("result", t, cc.instr.Pos()))
					continue
				}
				res = append(res, ts.Fresh("result", t, cc.instr.Pos()))
				if _, ok := t.Underlying().(*types.Pointer); ok {
					x.assume(s, ts.Cmp(NE, res[len(res)-1], ts.Nil), true)
				}
			}
			return []Exit{x.post(s, cc, res...)}, true
		}
		return nil, false
	}
	held := func(s *State) (held, write bool) {
		if s.ghost["locked"] == nil {
			return
		}
		return x.heldOn(s, s.ghost["#obj"])
	}
	mine := func(s *State, t *Term) bool { return s.ghost["made"] != nil && t == s.ghost["#index"] }
	current := func(s *State, t *Term) bool { return s.ghost["locked"] != nil && t == s.ghost["#cur"] }
	retired := func(s *State, t *Term) bool { return s.ghost["retired"] != nil && t == s.ghost["#retired"] }
	retire := func(s *State) {
		if s.ghost["locked"] != nil {
			s.SetGhost("retired", ts.True)
			s.SetGhost("#retired", s.ghost["#cur"])
		}
	}
	pair := func(s *State, e *Event) {
		if s.ghost["added"] == nil || s.ghost["mapped"] == nil {
			return
		}
		dat := s.ghost["#mv"]
		key := x.field(s, dat, "Key")
		ok := x.eq(s, s.ghost["#ai"], s.ghost["#mi"]) && x.field(s, key, "Feature") == s.ghost["#av"]
		c.check(whole, e.Fn, e.Pos, s, ok, "an item of the index is not mapped to the datum its vector was taken from")
		s.SetGhost("added", nil)
		s.SetGhost("mapped", nil)
	}
	settled := func(s *State, e *Event, when string) {
		c.check(whole, e.Fn, e.Pos, s, s.ghost["added"] == nil, "an item was added to the index without being mapped to its datum %s", when)
		s.SetGhost("mapped", nil)
	}
	x.on = func(s *State, e *Event) {
		switch e.Kind {
		case EvLock:
			if o := annObj(e.Args[0]); o != nil {
				x.relock(s, o)
				s.SetGhost("deleted", nil)
				s.SetGhost("unloaded", nil)
				s.SetGhost("locked", ts.True)
				s.SetGhost("#cur", x.field(s, o, "AnnoyIndex"))
				s.SetGhost("#obj", o)
			}
		case EvUnlock:
			o := annObj(e.Args[0])
			if o == nil || !e.Write {
				return
			}
			idx, list, dim := x.field(s, o, "AnnoyIndex"), x.field(s, o, "DataIndex"), x.field(s, o, "Dimension")
			if s.ghost["deleted"] != nil {
				c.check(safe, e.Fn, e.Pos, s, idx != s.ghost["#deleted"], "a deleted index stays in use")
			}
			if s.ghost["unloaded"] != nil {
				c.check(safe, e.Fn, e.Pos, s, idx != s.ghost["#unloaded"], "an unloaded index stays in use")
			}
			if published(idx) { // unchanged
				c.check(whole, e.Fn, e.Pos, s, strings.HasPrefix(list.Op, "guarded:") || x.isNil(s, list), "the index is not replaced together with its list of data")
				c.check(safe, e.Fn, e.Pos, s, strings.HasPrefix(dim.Op, "guarded:"), "the dimension is replaced without the index")
				return
			}
			if x.isNil(s, idx) {
				c.check(safe, e.Fn, e.Pos, s, x.isNil(s, list), "the list of data stays without an index")
				s.SetGhost("state", ts.Str("cleared"))
				retire(s)
				return
			}
			ok := s.ghost["made"] != nil && idx == s.ghost["#index"]
			c.check(safe, e.Fn, e.Pos, s, ok && s.ghost["built"] != nil, "an index is published that was not built")
			c.check(safe, e.Fn, e.Pos, s, s.ghost["freed"] == nil, "a deleted index is published")
			c.check(safe, e.Fn, e.Pos, s, s.ghost["made"] == nil || x.eq(s, dim, s.ghost["#dim"]), "the dimension published is not that of the index")
			l := list
			if list != nil {
				l = x.load(s, list, list.T.Underlying().(*types.Pointer).Elem())
			}
			c.check(whole, e.Fn, e.Pos, s, s.ghost["haslist"] == nil || l == s.ghost["#list"], "the list of data published is not the one of the index")
			s.SetGhost("state", ts.Str("published"))
			retire(s)
		case EvIter:
			if e.Callee == "(*sync.Map).Range" {
				settled(s, e, "before the next datum")
				if e.Ok {
					s.SetGhost("some", ts.True)
				} else {
					s.SetGhost("looped", ts.True)
				}
			}
		case EvCall:
			m := annCall(e.Callee)
			if m != "" && mine(s, e.Args[0]) {
				c.check(safe, e.Fn, e.Pos, s, s.ghost["freed"] == nil, "a deleted index is used")
			}
			switch {
			case strings.HasPrefix(e.Callee, annNew):
				c.check(safe, e.Fn, e.Pos, s, s.ghost["made"] == nil, "a second index is made in one pass")
			case m == "AddItem":
				c.check(safe, e.Fn, e.Pos, s, s.ghost["made"] != nil && e.Args[0] == s.ghost["#index"] && s.ghost["built"] == nil, "an item is added to an index that is not being built")
				if s.ghost["made"] != nil {
					c.check(safe, e.Fn, e.Pos, s, x.holds(s, ts.Cmp(GT|EQ, x.lenOf(s, e.Args[2]), s.ghost["#dim"])), "the native index reads beyond the end of a vector shorter than its dimension")
				}
				settled2 := s.ghost["added"] == nil
				c.check(whole, e.Fn, e.Pos, s, settled2, "an item was added to the index without being mapped to its datum")
				s.SetGhost("added", ts.True)
				s.SetGhost("#ai", e.Args[1])
				s.SetGhost("#av", e.Args[2])
				pair(s, e)
			case m == "Build":
				settled(s, e, "before it is built")
				if s.ghost["made"] != nil && e.Args[0] == s.ghost["#index"] {
					s.SetGhost("built", ts.True)
				}
			case m != "" && !mine(s, e.Args[0]):
				h, w := held(s)
				if m == "Unload" {
					s.SetGhost("unloaded", ts.True)
					s.SetGhost("#unloaded", e.Args[0])
				}
				c.check(safe, e.Fn, e.Pos, s, current(s, e.Args[0]) && h && (w || m != "Unload") || retired(s, e.Args[0]), "the published index is used without its lock")
				c.check(safe, e.Fn, e.Pos, s, s.ghost["deleted"] == nil, "a deleted index is used")
			case strings.HasPrefix(e.Callee, annDel):
				if !mine(s, e.Args[0]) {
					// whoever read it under an earlier lock may delete it once it is replaced
					_, w := held(s)
					c.check(safe, e.Fn, e.Pos, s, current(s, e.Args[0]) && w || retired(s, e.Args[0]), "an index is deleted that searches may use")
				} else {
					c.check(safe, e.Fn, e.Pos, s, s.ghost["state"] == nil, "an index is deleted that searches may use")
					c.check(safe, e.Fn, e.Pos, s, s.ghost["freed"] == nil, "an index is deleted twice")
					s.SetGhost("freed", ts.True)
				}
				c.check(safe, e.Fn, e.Pos, s, s.ghost["deleted"] == nil, "an index is deleted twice")
				s.SetGhost("deleted", ts.True)
				s.SetGhost("#deleted", e.Args[0])
			}
		case EvRet:
			if strings.HasPrefix(e.Callee, annNew) {
				s.SetGhost("made", ts.True)
				s.SetGhost("#index", e.Res[0])
				s.SetGhost("#dim", e.Args[0])
			}
		case EvStore:
			a := e.Args[0]
			if a.K == KIAddr && isDatumList(a.A[0].T) && !isArrayPtr(a.A[0].T) {
				old := false
				walkTerm(a.A[0], func(t *Term) { old = old || strings.HasPrefix(t.Op, "guarded:DataIndex") })
				c.check(whole, e.Fn, e.Pos, s, !old, "the list of data of the published index is changed in place")
				if s.ghost["haslist"] != nil {
					c.check(whole, e.Fn, e.Pos, s, a.A[0] == s.ghost["#list"], "data of one index go to different lists")
				}
				s.SetGhost("haslist", ts.True)
				s.SetGhost("#list", a.A[0])
				s.SetGhost("mapped", ts.True)
				s.SetGhost("#mi", a.A[1])
				s.SetGhost("#mv", e.Args[1])
				pair(s, e)
			}
		}
	}
	ex := c.run(x, fn, func(s *State, a []*Term) {})
	for _, e := range ex {
		s := e.s
		if !process || !x.isNil(s, e.res[0]) || s.ghost["looped"] == nil {
			continue
		}
		if s.ghost["made"] != nil {
			c.check(whole, fn, s.retPos(), s, s.ghost["state"] == ts.Str("published"), "the index built is not published")
		} else if s.ghost["some"] == nil {
			c.check(whole, fn, s.retPos(), s, s.ghost["state"] == ts.Str("cleared"), "the index of an emptied dataset stays in use")
		}
	}
}

func annOf(x *Exec, s *State, d *Term) *Term {
	st := d.T.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); namedOf(f.Type()) == "Annoyer" {
			if _, ptr := f.Type().Underlying().(*types.Pointer); ptr {
				return x.field(s, d, f.Name())
			}
			return x.ts.FAddr(d, f.Name(), f.Type())
		}
	}
	return x.ts.Nil
}

// touchesIndex: the function handles the approximate index, itself or by a call
func touchesIndex(p *Prog, f *ssa.Function) bool {
	direct := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					n := namedOf(in.X.Type())
					if n == "Annoyer" {
						return true
					}
				case ssa.CallInstruction:
					cc := in.Common()
					if cc.IsInvoke() && strings.HasPrefix("iface:"+cc.Method.FullName(), annIface) {
						return true
					}
					if g := cc.StaticCallee(); g != nil && strings.HasPrefix(g.RelString(nil), annPkg) {
						return true
					}
				}
			}
		}
		for _, q := range f.Params {
			if isDatumList(q.Type()) || hasFuncType(q.Type()) {
				return true
			}
		}
		return false
	}
	return direct(f) || p.path(f, func(g *ssa.Function) bool { return p.inRepo(g) && direct(g) }, nil) != nil
}

func hasFuncType(t types.Type) bool { _, ok := t.Underlying().(*types.Signature); return ok }

func isAnyList(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.IsInterface(s.Elem())
}

// fillHits: the native search fills the list of items it found
func (x *Exec) fillHits(s *State, cc *CallCtx, a *Term) {
	if a == nil || a.T == nil {
		return
	}
	p, ok := a.T.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	s.wh()[a] = x.ts.Fresh("hits", p.Elem(), cc.instr.Pos())
	if l, ok := p.Elem().Underlying().(*types.Slice); !ok || l.Elem().Underlying() != types.Typ[types.Int] {
		return
	}
	s.SetGhost("hits", x.ts.True)
	s.SetGhost("#hits", s.wh()[a])
}

// indexUse judges how an approximate search uses the index
func (c *Ctx) indexUse(safe, whole string) {
	fn := c.fn("data.(*Data).SearchAnnoy")
	x := c.exec()
	ts := x.ts
	x.opaque = func(f *ssa.Function) bool {
		n := f.RelString(nil)
		return n == dataT+"Search" || n == collT+"PassesFilters" || n == compFn
	}
	var d, query, config *Term
	x.model = func(x *Exec, s *State, cc *CallCtx) ([]Exit, bool) {
		switch {
		case strings.HasPrefix(annCall(cc.name), "GetNns"):
			x.pre(s, cc)
			var lists []*Term
			for i, a := range cc.args {
				if i > 1 {
					lists = append(lists, a)
				} else if i == 1 && isAnyList(a.T) {
					for k := int64(1); k < 6; k++ {
						lists = append(lists, unIface(x.elem(s, a, ts.Int(k))))
					}
				}
			}
			out := x.post(s, cc)
			for _, l := range lists {
				x.fillHits(out.s, cc, l)
			}
			return []Exit{out}, true
		case cc.name == dataT+"Search":
			x.pre(s, cc)
			return []Exit{x.post(s, cc, ts.Fresh("exact", cc.sig.Results().At(0).Type(), cc.instr.Pos()))}, true
		case cc.name == collT+"PassesFilters":
			x.pre(s, cc)
			f := s.Fork()
			return []Exit{x.post(s, cc, ts.True), x.post(f, cc, ts.False)}, true
		}
		return nil, false
	}
	queryVec := func(s *State) *Term {
		if x.isNil(s, query) {
			return ts.Nil
		}
		k := x.field(s, query, "Key")
		if x.isNil(s, k) {
			return ts.Nil
		}
		return x.field(s, k, "Feature")
	}
	u := &unshared{c, x, whole, "ScoredDatum"}
	// ended: all that was found has been looked at, or there are enough results
	ended := func(s *State) {
		if s.ghost["hits"] == nil || s.ghost["ended"] != nil {
			return
		}
		limit := ts.Int(10)
		if x.nonNil(s, config) {
			limit = x.field(s, config, "Limit")
		}
		if x.holds(s, ts.Cmp(GT|EQ, s.ghost["#walked"], x.lenOf(s, s.ghost["#hits"]))) || x.holds(s, ts.Cmp(GT|EQ, s.ghost["#count"], limit)) {
			s.SetGhost("ended", ts.True)
		}
	}
	x.on = func(s *State, e *Event) {
		u.event(s, e, "a result that was already added is changed")
		switch e.Kind {
		case EvLock:
			if o := annObj(e.Args[0]); o != nil {
				x.relock(s, o)
			}
		case EvCall:
			if e.Callee == dataT+"Search" {
				_, same := x.sameFields(s, e.Args[2], config)
				same = same || x.isNil(s, config) || e.Args[2] == config
				c.check(whole, e.Fn, e.Pos, s, e.Args[0] == d && e.Args[1] == query && same && x.isNil(s, e.Args[3]), "the exact search done instead is not the one asked for")
			}
			if e.Callee == collT+"PassesFilters" && s.ghost["cand"] != nil && e.Args[1] == s.ghost["#cand"] {
				c.check(safe, e.Fn, e.Pos, s, x.nonNil(s, e.Args[1]), "an item of the index without datum is taken for one")
			}
			m := annCall(e.Callee)
			if m == "" {
				return
			}
			o := annOf(x, s, d)
			h, _ := x.heldOn(s, o)
			c.check(safe, e.Fn, e.Pos, s, h && published(e.Args[0]) && e.Args[0] == x.field(s, o, "AnnoyIndex"), "the native index is used without holding its lock since it was looked up")
			c.check(safe, e.Fn, e.Pos, s, x.nonNil(s, e.Args[0]), "the native index is used although there may be none")
			if strings.HasPrefix(m, "GetNnsByVector") {
				vec := e.Args[1]
				if isAnyList(vec.T) {
					vec = unIface(x.elem(s, vec, ts.Zero))
				}
				dim := x.field(s, o, "Dimension")
				c.check(safe, e.Fn, e.Pos, s, x.holds(s, ts.Cmp(GT|EQ, x.lenOf(s, vec), dim)), "the native index reads beyond the end of a query shorter than its dimension")
				c.check(whole, e.Fn, e.Pos, s, vec == queryVec(s) || x.isNil(s, vec) && queryVec(s) == ts.Nil, "the index is not asked for the vector of the query")
				s.SetGhost("asked", ts.True)
				s.SetGhost("#qv", vec)
				l := x.field(s, o, "DataIndex")
				s.SetGhost("#list", x.load(s, l, l.T.Underlying().(*types.Pointer).Elem()))
			}
		case EvLoad:
			a := e.Args[0]
			if a.K == KIAddr && s.ghost["hits"] != nil && a.A[0] == s.ghost["#hits"] && len(e.Res) > 0 {
				if x.eq(s, a.A[1], s.ghost["#walked"]) {
					s.SetGhost("#walked", ts.AddK(s.ghost["#walked"], 1))
				}
				s.SetGhost("hit", ts.True)
				s.SetGhost("#hit", e.Res[0])
			}
			if a.K == KIAddr && isDatumList(a.A[0].T) {
				c.check(whole, e.Fn, e.Pos, s, s.ghost["hit"] != nil && a.A[1] == s.ghost["#hit"], "results are not looked up by the item the index found")
				ok := s.ghost["asked"] != nil && a.A[0] == s.ghost["#list"]
				c.check(whole, e.Fn, e.Pos, s, ok, "results are looked up in another list than the one of the index asked")
				if len(e.Res) > 0 && !(s.ghost["cand"] != nil && s.ghost["#cand"] == e.Res[0]) {
					c.check(whole, e.Fn, e.Pos, s, s.ghost["cand"] == nil, "a datum found by the index is dropped")
					s.SetGhost("cand", ts.True)
					s.SetGhost("#cand", e.Res[0])
				}
			}
		case EvDeref:
			if s.ghost["cand"] != nil && e.Args[0] == s.ghost["#cand"] {
				c.check(safe, e.Fn, e.Pos, s, x.nonNil(s, e.Args[0]), "an item of the index without datum is taken for one")
			}
		case EvAppend:
			r := e.Res[0]
			if !opIs(r, "append1") || namedOf(r.A[1].T) != "ScoredDatum" {
				return
			}
			dat, sc := x.field(s, r.A[1], "Datum"), x.field(s, r.A[1], "Score")
			cand := s.ghost["cand"] != nil && dat == s.ghost["#cand"]
			c.check(whole, e.Fn, e.Pos, s, cand, "a result is not the datum the index item stands for")
			c.check(safe, e.Fn, e.Pos, s, x.nonNil(s, dat), "an item of the index without datum becomes a result")
			ok := callIs(sc, "dynamic") && len(sc.A) == 3 && s.ghost["score"] == ts.True && sc.A[0] == s.ghost["#score"]
			if ok {
				v, q := featureOf(x, s, dat), queryVec(s)
				isQ := func(t *Term) bool { return t == q || s.ghost["asked"] != nil && t == s.ghost["#qv"] }
				ok = sc.A[1] == v && isQ(sc.A[2]) || sc.A[2] == v && isQ(sc.A[1])
			}
			c.check(whole, e.Fn, e.Pos, s, ok, "the score of a result is not the requested score of the query and that datum")
			if s.ghost["grown"] != nil {
				c.check(whole, e.Fn, e.Pos, s, r.A[0] == s.ghost["#grown"], "results go to different lists")
			} else {
				c.check(whole, e.Fn, e.Pos, s, x.eq(s, x.lenOf(s, r.A[0]), ts.Zero), "the list of results does not start empty")
			}
			s.SetGhost("grown", ts.True)
			s.SetGhost("#grown", r)
			s.SetGhost("#count", ts.AddK(s.ghost["#count"], 1))
			s.SetGhost("cand", nil)
			u.handOver(s)
		case EvRet:
			if e.Callee == compFn {
				ok := !x.nonNil(s, config) || x.eq(s, e.Args[0], x.field(s, config, "ScoreFuncName"))
				s.SetGhost("score", ts.Bool(ok))
				s.SetGhost("#score", e.Res[0])
			}
			if e.Callee == collT+"PassesFilters" && s.ghost["cand"] != nil && e.Args[1] == s.ghost["#cand"] && e.Res[0] == ts.False {
				s.SetGhost("cand", nil)
			}
		case EvBranch:
			if s.ghost["cand"] != nil && x.isNil(s, s.ghost["#cand"]) {
				s.SetGhost("cand", nil)
			}
			ended(s)
		}
	}
	ex := c.run(x, fn, func(s *State, a []*Term) {
		d, query, config = a[0], a[1], a[2]
		s.SetGhost("#walked", ts.Zero)
		s.SetGhost("#count", ts.Zero)
	})
	for _, e := range ex {
		s := e.s
		r := e.res[0]
		if s.ghost["asked"] != nil {
			c.check(whole, fn, s.retPos(), s, s.ghost["cand"] == nil, "a datum found by the index is dropped")
			ok := x.nonNil(s, r)
			if ok && s.ghost["grown"] != nil {
				ok = x.field(s, r, "List") == s.ghost["#grown"]
			}
			c.check(whole, fn, s.retPos(), s, ok, "what was found is not returned")
			ended(s)
			c.check(whole, fn, s.retPos(), s, s.ghost["ended"] != nil || s.ghost["hits"] != nil && x.isNil(s, s.ghost["#hits"]), "not all that was found is looked at although there are not enough results yet")
			continue
		}
		c.check(whole, fn, s.retPos(), s, strings.HasPrefix(r.Op, "exact"), "without a usable index the search is not done exactly")
	}
}

func init() {
	register("C16", "The native index is built before it is published, used only under its lock and while it is the published one, never after it was deleted, and never given vectors shorter than its dimension.",
		[]string{"native-index"}, func(c *Ctx) {
			c.indexBuild("native-index", "")
			c.indexUse("native-index", "")
		})
	register("C17", "Items of the index stand for the data their vectors were taken from; index and list are replaced together; approximate results are those data with their own score; without usable index the search is exact.",
		[]string{"index-map"}, func(c *Ctx) {
			c.indexBuild("", "index-map")
			c.indexUse("", "index-map")
		})
}
