package main

// Datasets: names and configs (C24), the saved list (C25), observers (C26).

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// locked: a lock of the object is held, exclusively
func (s *State) locked(o *Term) bool {
	for _, l := range s.locks {
		if l.write && l.addr.K == KFAddr && (l.addr.A[0] == o || l.addr == o) || l.write && l.addr == o {
			return true
		}
	}
	return false
}

func unassert(t *Term) *Term {
	for t != nil && t.K == KOp && strings.HasPrefix(t.Op, "assert:") {
		t = t.A[0]
	}
	return t
}

// cached: the value was found in a cache under the key
func cached(t, cache, key *Term) bool {
	t = unIface(unassert(t))
	return t != nil && (t.Op == "cacheget") && len(t.A) >= 2 && t.A[0] == cache && unIface(t.A[1]) == key
}

func isGetter(n string) bool { return strings.HasPrefix(n, dsetT+"Get") }

// names: a dataset is found under its own name (C24)
func (c *Ctx) datasetNames() {
	retention := modPath + "/data.GetRetention"
	for _, name := range []string{"Get", "GetNoOp", "GetNoCreate", "GetOrCreateIfNotExists"} {
		fn := c.fn("data.(*Dataset)." + name)
		x := c.exec()
		ts := x.ts
		x.opaque = func(f *ssa.Function) bool {
			n := f.RelString(nil)
			return f != fn && (isGetter(n) || n == dsetT+"CreateIfNotExists") || n == retention
		}
		x.pure = func(n string) bool { return n == retention }
		x.model = c.failing(func(cc *CallCtx) bool { return isGetter(cc.name) || cc.name == dsetT+"CreateIfNotExists" })
		var dts, key, config *Term
		x.on = func(s *State, e *Event) {
			switch e.Kind {
			case EvCall:
				if isGetter(e.Callee) {
					a := e.Args[1]
					ok := a == key
					if isPbPtr(a.T) {
						ok = x.nonNil(s, a) && x.field(s, a, "Name") == key
					}
					c.check("named", e.Fn, e.Pos, s, ok, "a dataset of another name is looked up")
				}
				if e.Callee == dsetT+"CreateIfNotExists" && config != nil {
					c.check("named", e.Fn, e.Pos, s, e.Args[1] == config, "a dataset is created with another config than asked for")
				}
			case EvRet:
				if e.Callee == "cache.IncrementExpiration" && e.Args[0] == x.field(s, dts, "DataList") {
					r := e.Args[2]
					c.check("retention", e.Fn, e.Pos, s, unIface(e.Args[1]) == key && callIs(r, retention) && (ofFound(r.A[0], key, s.ghost["#found"]) || r.A[0] == ts.Zero && x.noConfig(s)), "a dataset is not kept for the retention of its config")
				}
				if isGetter(e.Callee) && s.ghost["failed"] == nil {
					s.SetGhost("looked", ts.True)
					s.SetGhost("#found", e.Res[0])
				}
				if e.Callee == dsetT+"CreateIfNotExists" && s.ghost["failed"] == nil {
					s.SetGhost("created", ts.True)
				}
			}
		}
		ex := c.run(x, fn, func(s *State, a []*Term) {
			dts, key = a[0], a[1]
			if isPbPtr(a[1].T) {
				config = a[1]
				key = x.field(s, a[1], "Name")
			}
		})
		for _, e := range ex {
			s := e.s
			if x.nonNil(s, e.res[1]) {
				c.check("named", fn, s.retPos(), s, true, "")
				continue
			}
			r := e.res[0]
			ok := s.ghost["looked"] != nil && s.ghost["#found"] == r && s.ghost["failed"] == nil || cached(r, x.field(s, dts, "DataList"), key)
			c.check("named", fn, s.retPos(), s, ok, "what is returned is not the dataset of that name")
			if config != nil {
				c.check("named", fn, s.retPos(), s, s.ghost["created"] != nil, "the dataset is not created")
			}
		}
	}
}

// datasetCreate: created once, with its config, which only moves forward (C24)
func (c *Ctx) datasetCreate() {
	fn := c.fn("data.(*Dataset).CreateIfNotExists")
	x := c.exec()
	ts := x.ts
	retention := modPath + "/data.GetRetention"
	x.opaque = func(f *ssa.Function) bool {
		n := f.RelString(nil)
		return isGetter(n) || n == dsetT+"SaveIndex" || n == dataT+"InitData" || n == retention
	}
	x.pure = func(n string) bool { return n == retention }
	x.model = c.failing(func(cc *CallCtx) bool { return isGetter(cc.name) })
	var dts, config *Term
	x.on = func(s *State, e *Event) {
		switch e.Kind {
		case EvCall:
			if isGetter(e.Callee) {
				c.check("config-forward", e.Fn, e.Pos, s, e.Args[1] == x.field(s, config, "Name"), "the config of another dataset is updated")
			}
			if !strings.HasPrefix(e.Callee, "cache.") || e.Args[0] != x.field(s, dts, "DataList") {
				return
			}
			switch e.Callee {
			case "cache.Add":
				d := unIface(e.Args[2])
				fresh := d.K == KAlloc && namedOf(d.T) == "Data"
				ok := fresh && x.field(s, d, "Config") == config && unIface(e.Args[1]) == x.field(s, config, "Name")
				c.check("create-once", e.Fn, e.Pos, s, ok, "what is added is not a new dataset with the config and under the name asked for")
				if fresh {
					c.check("create-once", e.Fn, e.Pos, s, x.field(s, d, "Path") == x.field(s, dts, "DataPath"), "the dataset does not keep its files in the data folder")
				}
				r := e.Args[3]
				c.check("create-once", e.Fn, e.Pos, s, callIs(r, retention) && r.A[0] == x.field(s, config, "Retention"), "the dataset is not kept for its retention")
			case "cache.Get", "cache.GetWithExpiration", "cache.Items", "cache.ItemCount", "cache.IncrementExpiration":
			default:
				c.check("create-once", e.Fn, e.Pos, s, false, "an existing dataset may be lost (%s)", e.Callee)
			}
		case EvRet:
			switch {
			case e.Callee == "cache.Add" && x.isNil(s, e.Res[0]):
				s.SetGhost("added", ts.True)
				s.SetGhost("#data", unIface(e.Args[2]))
			case e.Callee == "cache.Add":
				s.SetGhost("exists", ts.True)
			case e.Callee == dataT+"InitData" && s.ghost["added"] != nil && e.Args[0] == s.ghost["#data"]:
				s.SetGhost("init", ts.True)
			case isGetter(e.Callee) && x.nonNil(s, e.Res[0]):
				s.SetGhost("old", ts.True)
				s.SetGhost("#old", e.Res[0])
				x.assume(s, ts.Cmp(NE, x.field(s, e.Res[0], "Config"), ts.Nil), true)
			}
		case EvStore:
			a := e.Args[0]
			if !isFAddr(a, "Data", "Config") || a.A[0].K == KAlloc {
				return
			}
			d, v := a.A[0], e.Args[1]
			ok := s.ghost["old"] != nil && d == s.ghost["#old"] && v == config
			c.check("config-forward", e.Fn, e.Pos, s, ok, "the config of a dataset is replaced by another than the one given for it")
			c.check("config-forward", e.Fn, e.Pos, s, s.locked(d) && s.ghost["newer"] != nil, "the config of a dataset is replaced without making sure, under its lock, that the new one is newer")
			s.SetGhost("updated", ts.True)
		case EvLock:
			s.SetGhost("newer", nil)
			s.SetGhost("not-newer", nil)
			if s.ghost["old"] != nil {
				// datasets have a config
				x.assume(s, ts.Cmp(NE, x.field(s, s.ghost["#old"], "Config"), ts.Nil), true)
			}
		case EvBranch:
			if s.ghost["old"] == nil {
				return
			}
			d := s.ghost["#old"]
			if !s.locked(d) {
				return
			}
			n, o := x.field(s, config, "Version"), x.field(s, x.field(s, d, "Config"), "Version")
			if x.holds(s, ts.Cmp(GT, n, o)) {
				s.SetGhost("newer", ts.True)
			}
			if x.holds(s, ts.Cmp(LT|EQ, n, o)) {
				s.SetGhost("not-newer", ts.True)
			}
		}
	}
	ex := c.run(x, fn, func(s *State, a []*Term) {
		dts, config = a[0], a[1]
		x.assume(s, ts.Cmp(NE, config, ts.Nil), true)
	})
	for _, e := range ex {
		s := e.s
		if x.nonNil(s, e.res[0]) {
			continue
		}
		switch {
		case s.ghost["added"] != nil:
			c.check("create-once", fn, s.retPos(), s, s.ghost["init"] != nil, "a new dataset is not started")
		case s.ghost["exists"] != nil:
			c.check("config-forward", fn, s.retPos(), s, s.ghost["failed"] != nil || s.ghost["updated"] != nil || s.ghost["not-newer"] != nil, "a newer config of an existing dataset is ignored")
		default:
			c.check("create-once", fn, s.retPos(), s, false, "success is reported although nothing was created")
		}
	}
	// retention
	fn = c.fn("data.GetRetention")
	x = c.exec()
	ts = x.ts
	var r *Term
	ex = c.run(x, fn, func(s *State, a []*Term) { r = a[0] })
	for _, e := range ex {
		s, d := e.s, e.res[0]
		switch {
		case x.holds(s, ts.Cmp(EQ, r, ts.Zero)):
			c.check("retention", fn, s.retPos(), s, x.holds(s, ts.Cmp(GT, d, ts.Zero)), "without a retention there is no default")
		case x.holds(s, ts.Cmp(EQ, d, ts.Int(-1))):
			c.check("retention", fn, s.retPos(), s, x.holds(s, ts.Cmp(GT, r, ts.Int(1000000000))), "a retention is turned into forever")
		default:
			ok := d.K == KOp && d.Op == "*" && (unconv(d.A[0]) == r && x.holds(s, ts.Cmp(EQ, d.A[1], ts.Int(1000000000))) || unconv(d.A[1]) == r && x.holds(s, ts.Cmp(EQ, d.A[0], ts.Int(1000000000))))
			c.check("retention", fn, s.retPos(), s, ok, "the retention is not what was asked for, in seconds")
			c.check("retention", fn, s.retPos(), s, x.holds(s, ts.Cmp(LT|EQ, r, ts.Int(7000000000))), "the time of expiration may overflow, and the dataset expire at once")
		}
	}
}

// configStores: nothing else replaces a config or changes a published one (C24)
func (c *Ctx) configStores() {
	create := c.fn("data.(*Dataset).CreateIfNotExists")
	reach := map[*ssa.Function]bool{create: true}
	work := []*ssa.Function{create}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, e := range c.p.graph().out[f] {
			if c.p.inRepo(e.to) && !reach[e.to] && !exported(e.to) && fnPkg(e.to) == modPath+"/data" {
				reach[e.to] = true
				work = append(work, e.to)
			}
		}
	}
	for _, fn := range c.p.funcs {
		if !c.lockPkg(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok {
					continue
				}
				t := namedOf(fa.X.Type())
				f := pt.Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
				_, fresh := fa.X.(*ssa.Alloc)
				switch {
				case t == "Data" && f == "Config":
					c.check("config-owner", fn, in.Pos(), nil, fresh || reach[fn], "the config of a dataset is replaced outside of the function that makes sure it is newer")
				case t == "DataConfig":
					c.check("config-owner", fn, in.Pos(), nil, fresh, "a config that others may use is changed in place")
				}
			}
		}
	}
}

// configRead: GetConfig gives the config the dataset has
func (c *Ctx) configRead() {
	fn := c.fn("data.(*Data).GetConfig")
	x := c.exec()
	var cfg *Term
	x.on = func(s *State, e *Event) {}
	for _, e := range c.run(x, fn, func(s *State, a []*Term) {
		cfg = x.field(s, a[0], "Config")
		x.assume(s, x.ts.Cmp(NE, cfg, x.ts.Nil), true)
	}) {
		f, ok := x.sameFields(e.s, x.unclone(e.s, e.res[0]), cfg)
		c.check("config-forward", fn, e.s.retPos(), e.s, ok, "the config reported is not that of the dataset (%s)", f)
	}
}

func init() {
	register("C24", "Datasets are found under their own name, are created once and keep the newest config they were given.",
		[]string{"named", "create-once", "config-forward", "config-owner", "retention"}, func(c *Ctx) {
			c.datasetNames()
			c.datasetCreate()
			c.configStores()
			c.configRead()
		})
}

// ofFound: a value read from the config of the dataset found under key
func ofFound(t, key, found *Term) bool {
	if t == nil || !isField(t, "DataConfig", "Retention") {
		return false
	}
	ok := false
	walkTerm(t, func(u *Term) {
		ok = ok || u == found || u.Op == "cacheget" && len(u.A) >= 2 && unIface(u.A[1]) == key
	})
	return ok
}

// noConfig: a dataset without config
func (x *Exec) noConfig(s *State) bool {
	for _, it := range s.f.items() {
		for _, t := range []*Term{it.a, it.b} {
			if t != nil && isField(t, "Data", "Config") && x.isNil(s, t) {
				return true
			}
		}
	}
	return false
}
