package main

// Merging results of several searches (C09).

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	newAggFn = modPath + "/data.NewAggrator"
	getKeyFn = modPath + "/data.GetKeyAsBytes"
)

func (c *Ctx) merging() {
	c.topk("merge-order", "data.(*Aggregator).InsertToList", func(x *Exec, s *State, o *Term) (*Term, *Term) {
		cfg := x.field(s, o, "Config")
		return x.field(s, cfg, "Limit"), x.field(s, cfg, "HigherIsBetter")
	})
	c.mergeScore("merge-key")
	c.mergeKey("merge-key")
	c.mergeGroup("merge-group")
	c.mergeResult("merge-result", "merge-group")
	c.mergeOne("merge-group")
	c.mergeAll("merge-all", "data.(*Data).AggregatedSearch")
	c.mergeAll("merge-all", "data.(*Data).MultiAggregatedSearch")
}

func (c *Ctx) keepAgg(but ...string) func(f *ssa.Function) bool {
	return func(f *ssa.Function) bool {
		n := f.RelString(nil)
		for _, b := range but {
			if n == aggT+b {
				return false
			}
		}
		switch n {
		case aggT + "Insert", aggT + "InsertToList", aggT + "Result", aggT + "One", aggT + "BestScore", compFn:
			return true
		}
		return false
	}
}

// keyString: t encodes the key of the scored datum sd
func (x *Exec) keyStringOf(s *State, t, sd *Term) bool {
	k := keyOf(t)
	if k == nil {
		return false
	}
	d := x.field(s, sd, "Datum")
	return x.nonNil(s, d) && k == x.field(s, d, "Key")
}

// mergeScore: the best of its own score and those for the data of the context
func (c *Ctx) mergeScore(rule string) {
	fn := c.fn("data.(*Aggregator).BestScore")
	x := c.exec()
	ts := x.ts
	x.opaque = func(f *ssa.Function) bool { return f.RelString(nil) == compFn }
	var a0, item *Term
	x.on = func(s *State, e *Event) {
		switch e.Kind {
		case EvRet:
			if e.Callee != "dynamic" || len(e.Res) != 1 || len(e.Args) != 3 || e.Args[0] != x.field(s, a0, "ScoreFunc") {
				return
			}
			ctx := x.field(s, a0, "Context")
			if s.ghost["started"] == nil {
				s.SetGhost("started", ts.True)
				switch x.truth(s, x.field(s, ctx, "Prioritize")) {
				case ts.False:
					s.SetGhost("has", ts.True)
					s.SetGhost("#best", x.field(s, item, "Score"))
				case ts.True:
				default:
					s.SetGhost("unclear", ts.True)
				}
			}
			own, other := featureOf(x, s, x.field(s, item, "Datum")), featureOf(x, s, x.elem(s, x.field(s, ctx, "Datum"), s.ghost["#i"]))
			is := func(t, f *Term) bool { return t == f || t == ts.Nil }
			ok := is(e.Args[1], own) && is(e.Args[2], other) || is(e.Args[2], own) && is(e.Args[1], other)
			c.check(rule, e.Fn, e.Pos, s, ok && s.ghost["pending"] == nil, "the score is not that of the result for the next datum of the context")
			s.SetGhost("#i", ts.AddK(s.ghost["#i"], 1))
			if s.ghost["unclear"] != nil {
				return
			}
			if s.ghost["has"] == nil {
				s.SetGhost("has", ts.True)
				s.SetGhost("#best", e.Res[0])
				return
			}
			s.SetGhost("pending", ts.True)
			s.SetGhost("#new", e.Res[0])
		case EvBranch:
			if s.ghost["pending"] == nil {
				return
			}
			n, b := s.ghost["#new"], s.ghost["#best"]
			op := uint8(GT)
			switch x.truth(s, x.field(s, x.field(s, a0, "Config"), "HigherIsBetter")) {
			case ts.True:
			case ts.False:
				op = LT
			default:
				return
			}
			if x.holds(s, ts.Cmp(op, n, b)) {
				s.SetGhost("#best", n)
				s.SetGhost("pending", nil)
			} else if x.holds(s, ts.Not(ts.Cmp(op, n, b))) {
				s.SetGhost("pending", nil)
			}
		}
	}
	for _, prio := range []bool{true, false} {
		ex := c.run(x, fn, func(s *State, a []*Term) {
			a0, item = a[0], a[1]
			d := x.field(s, item, "Datum")
			for _, t := range []*Term{item, d, x.field(s, d, "Key")} { // results are complete
				x.assume(s, ts.Cmp(NE, t, ts.Nil), true)
			}
			x.assume(s, x.field(s, x.field(s, a0, "Context"), "Prioritize"), prio)
			s.SetGhost("#i", ts.Zero)
		})
		for _, e := range ex {
			s := e.s
			ctx := x.field(s, a0, "Context")
			if x.isNil(s, ctx) || x.holds(s, ts.Cmp(EQ, x.lenOf(s, x.field(s, ctx, "Datum")), ts.Zero)) {
				c.check(rule, fn, s.retPos(), s, e.res[0] == x.field(s, item, "Score"), "without a context the score of a result is changed")
				continue
			}
			if s.ghost["unclear"] != nil {
				continue
			}
			all := x.holds(s, ts.Cmp(GT|EQ, s.ghost["#i"], x.lenOf(s, x.field(s, ctx, "Datum"))))
			c.check(rule, fn, s.retPos(), s, all, "not all data of the context is looked at")
			c.check(rule, fn, s.retPos(), s, s.ghost["pending"] == nil && s.ghost["has"] != nil && e.res[0] == s.ghost["#best"], "the score is not the best one")
		}
	}
}

// mergeKey: one result per key, the best one
func (c *Ctx) mergeKey(rule string) {
	fn := c.fn("data.(*Aggregator).Insert")
	x := c.exec()
	ts := x.ts
	keep := c.keepAgg("Insert")
	x.opaque = keep
	x.fieldMaps = true
	k := &topk{c: c, x: x, rule: rule}
	x.model = func(x *Exec, s *State, cc *CallCtx) ([]Exit, bool) {
		if cc.name == aggT+"InsertToList" {
			x.pre(s, cc)
			return []Exit{x.post(s, cc, ts.Nil)}, true
		}
		return nil, false
	}
	settled := func(s *State, e *Event) {
		c.check(rule, e.Fn, e.Pos, s, s.ghost["pend"] == nil, "a superseded result with the same key may stay in the list")
	}
	takes := func(s *State, e *Event, l, i *Term) {
		kp := x.field(s, x.field(s, x.elem(s, l, i), "Datum"), "Key")
		c.check(rule, e.Fn, e.Pos, s, x.sameKey(s, kp, x.field(s, x.field(s, k.item, "Datum"), "Key")), "a result with another key is taken out of the list")
	}
	x.on = func(s *State, e *Event) {
		switch e.Kind {
		case EvCall:
			l := x.field(s, k.obj, "List")
			if strings.HasPrefix(e.Callee, "sort.") && len(e.Args) > 0 && unIface(e.Args[0]) == l {
				if k.ordered(s, e, l) && s.ghost["inplace"] != nil {
					s.SetGhost("inplace", ts.Str("sorted"))
				}
				return
			}
			if e.Callee != "builtin:copy" || e.Args[0] != l && !(opIs(e.Args[0], "slice") && e.Args[0].A[0] == l) {
				return
			}
			// copy(list[i:], list[i+1:])
			d, f := e.Args[0], e.Args[1]
			lo := ts.Zero
			if d != l {
				lo = d.A[1]
			}
			ok := opIs(f, "slice") && f.A[0] == l && x.eq(s, f.A[1], ts.AddK(lo, 1)) && x.eq(s, f.A[2], x.lenOf(s, l)) && s.ghost["removed"] == nil && s.ghost["shifted"] == nil
			c.check(rule, e.Fn, e.Pos, s, ok, "the list of results is changed other than by taking out one result")
			if ok {
				takes(s, e, l, lo)
				s.SetGhost("shifted", ts.True)
			}
		case EvRet:
			switch e.Callee {
			case "cache.Get":
				c.check(rule, e.Fn, e.Pos, s, ownValue(e.Args[0], k.obj) && x.keyStringOf(s, e.Args[1], k.item) && s.ghost["looked"] == nil, "the score seen before is not looked up under the key of the datum")
				s.SetGhost("looked", ts.True)
				s.SetGhost("#map", e.Args[0])
				if e.Res[len(e.Res)-1] == ts.True {
					s.SetGhost("hit", ts.True)
					s.SetGhost("#prev", ts.OpT("assert:float64", types.Typ[types.Float64], e.Res[0]))
					if isFloatType(e.Res[0].T) {
						s.SetGhost("#prev", e.Res[0])
					}
				}
			case "cache.Set", "cache.Add", "cache.SetDefault":
				v := unIface(e.Args[2])
				noExp := len(e.Args) == 4 && x.holds(s, ts.Cmp(LT, e.Args[3], ts.Zero))
				ok := s.ghost["looked"] != nil && e.Args[0] == s.ghost["#map"] && x.keyStringOf(s, e.Args[1], k.item) && v == k.score(s, k.item) && noExp && s.ghost["set"] == nil
				c.check(rule, e.Fn, e.Pos, s, ok, "the score kept for a key is not that of the result kept, for as long as the search lasts")
				s.SetGhost("set", ts.True)
			case "cache.Delete", "cache.Flush":
				c.check(rule, e.Fn, e.Pos, s, false, "a key seen before is forgotten")
			case aggT + "InsertToList":
				c.check(rule, e.Fn, e.Pos, s, e.Args[0] == k.obj && e.Args[1] == k.item && s.ghost["insert"] == nil && s.ghost["shifted"] == nil, "something other than the new result is added, or it is added twice")
				settled(s, e)
				if s.ghost["hit"] != nil && s.ghost["removed"] == nil {
					l := x.field(s, k.obj, "List")
					c.check(rule, e.Fn, e.Pos, s, x.holds(s, ts.Cmp(GT|EQ, s.ghost["#scan"], x.lenOf(s, l))), "a better result for a known key is added without having removed the former one")
				}
				s.SetGhost("insert", ts.True)
			}
		case EvIndex:
			l := x.field(s, k.obj, "List")
			if e.Args[0] != l || s.ghost["removed"] != nil {
				return
			}
			if x.eq(s, e.Args[1], s.ghost["#scan"]) {
				settled(s, e)
				s.SetGhost("#scan", ts.AddK(s.ghost["#scan"], 1))
				s.SetGhost("pend", ts.True)
				s.SetGhost("#pend", x.elem(s, l, e.Args[1]))
			}
		case EvBranch:
			if s.ghost["pend"] == nil {
				return
			}
			if x.isNil(s, s.ghost["#pend"]) {
				s.SetGhost("pend", nil)
				return
			}
			d := x.field(s, s.ghost["#pend"], "Datum")
			if x.isNil(s, d) || x.isNil(s, x.field(s, d, "Key")) {
				s.SetGhost("pend", nil)
				return
			}
			kp := x.field(s, d, "Key")
			if x.differs(s, kp, x.field(s, x.field(s, k.item, "Datum"), "Key")) || x.nonNil(s, ts.OpT("call1:"+marshalK, errT(), kp)) {
				s.SetGhost("pend", nil)
			}
		case EvStore:
			l := x.field(s, k.obj, "List")
			if a := e.Args[0]; a.K == KIAddr && a.A[0] == l && e.Args[1] == k.item {
				// the new result takes the place of the former one
				ok := s.ghost["removed"] == nil && s.ghost["shifted"] == nil && s.ghost["insert"] == nil
				c.check(rule, e.Fn, e.Pos, s, ok, "the list of results is changed other than by replacing one result")
				takes(s, e, l, a.A[1])
				for _, g := range []string{"removed", "insert", "inplace"} {
					s.SetGhost(g, ts.True)
				}
				s.SetGhost("pend", nil)
				return
			}
			if a := e.Args[0]; a.K == KIAddr && a.A[0] == l {
				// list[i] = list[len-1]; adding the new result sorts again
				ok := s.ghost["removed"] == nil && s.ghost["shifted"] == nil && e.Args[1] == x.elem(s, l, ts.AddK(x.lenOf(s, l), -1))
				c.check(rule, e.Fn, e.Pos, s, ok, "the list of results is changed other than by taking out one result")
				takes(s, e, l, a.A[1])
				s.SetGhost("shifted", ts.True)
				return
			}
			if !isFAddr(e.Args[0], "", "List") || e.Args[0].A[0] != k.obj {
				return
			}
			i := removedIndex(x, s, e.Args[1], l)
			if s.ghost["shifted"] != nil {
				v := e.Args[1]
				ok := opIs(v, "slice") && v.A[0] == l && x.eq(s, v.A[1], ts.Zero) && x.eq(s, v.A[2], ts.AddK(x.lenOf(s, l), -1)) && s.ghost["removed"] == nil
				c.check(rule, e.Fn, e.Pos, s, ok, "the list of results is changed other than by taking out one result")
				s.SetGhost("removed", ts.True)
				s.SetGhost("shifted", nil)
				s.SetGhost("pend", nil)
				return
			}
			ok := i != nil && s.ghost["removed"] == nil
			c.check(rule, e.Fn, e.Pos, s, ok, "the list of results is changed other than by taking out one result")
			if ok {
				takes(s, e, l, i)
				s.SetGhost("removed", ts.True)
				s.SetGhost("pend", nil)
			}
		}
	}
	ex := c.run(x, fn, func(s *State, a []*Term) {
		k.obj, k.item = a[0], a[1]
		x.assume(s, ts.Cmp(NE, k.item, ts.Nil), true)
		x.assume(s, x.field(s, k.obj, "Grouped"), false)
		k.higher = x.field(s, x.field(s, k.obj, "Config"), "HigherIsBetter")
		s.SetGhost("#scan", ts.Zero)
	})
	for _, e := range ex {
		s := e.s
		if x.nonNil(s, e.res[0]) && s.ghost["looked"] == nil {
			continue
		}
		at := s.retPos()
		c.check(rule, fn, at, s, s.ghost["looked"] != nil, "a result is taken or dropped without looking for its key")
		in, set := s.ghost["insert"] != nil, s.ghost["set"] != nil
		c.check(rule, fn, at, s, s.ghost["inplace"] != ts.True, "the results are changed but not ordered again")
		c.check(rule, fn, at, s, in == set, "the score kept for a key and the list of results do not go together")
		if s.ghost["hit"] == nil {
			c.check(rule, fn, at, s, in, "a result with a new key is dropped")
			continue
		}
		prev, now := s.ghost["#prev"], k.score(s, k.item)
		if in {
			c.check(rule, fn, at, s, k.rel(s, now, prev, 2), "a result replaces a better one with the same key")
		} else {
			c.check(rule, fn, at, s, k.rel(s, now, prev, 3), "a better result for a known key is dropped")
			c.check(rule, fn, at, s, s.ghost["removed"] == nil, "a result is taken out although it is the best for its key")
		}
	}
}

// ownValue: the value of a field of obj
func ownValue(t, obj *Term) bool {
	return t != nil && t.K == KInit && t.A[0].K == KFAddr && t.A[0].A[0] == obj
}

// isTimer: a channel that tells that a time is over
func isTimer(ch *Term) bool {
	found := false
	walkTerm(ch, func(t *Term) {
		found = found || strings.Contains(t.Op, "time.After") || strings.Contains(t.Op, "time.NewTimer") || strings.HasPrefix(t.Op, "ctx:context.With")
	})
	return found
}

// encodings of keys are one to one (C02), so strings and keys agree
func (x *Exec) differs(s *State, a, b *Term) bool { return x.keyRel(s, a, b, NE) }
func (x *Exec) sameKey(s *State, a, b *Term) bool { return a == b || x.keyRel(s, a, b, EQ) }
func errT() types.Type                            { return types.Universe.Lookup("error").Type() }

func (x *Exec) keyRel(s *State, a, b *Term, m uint8) bool {
	mk := func(k *Term) *Term {
		return x.ts.OpT("bytes2string", types.Typ[types.String], x.ts.OpT("call:"+marshalK, x.marshalT(), k))
	}
	return x.holds(s, x.ts.Cmp(m, mk(a), mk(b)))
}

func (x *Exec) marshalT() types.Type { return types.NewSlice(types.Typ[types.Byte]) }

// removedIndex: v is list l without its element i
func removedIndex(x *Exec, s *State, v, l *Term) *Term {
	if !opIs(v, "append") || len(v.A) != 2 {
		return nil
	}
	a, b := v.A[0], v.A[1]
	if !opIs(a, "slice") || !opIs(b, "slice") || a.A[0] != l || b.A[0] != l || !x.eq(s, a.A[1], x.ts.Zero) {
		return nil
	}
	if !x.eq(s, b.A[1], x.ts.AddK(a.A[2], 1)) || !x.eq(s, b.A[2], x.lenOf(s, l)) {
		return nil
	}
	return a.A[2]
}

// mergeGroup: a grouped result goes to the aggregator of its group label
func (c *Ctx) mergeGroup(rule string) {
	fn := c.fn("data.(*Aggregator).Insert")
	x := c.exec()
	ts := x.ts
	x.fieldMaps = true
	x.opaque = c.keepAgg("Insert")
	var obj, item *Term
	label := func(s *State, t *Term) bool {
		t = unIface(t)
		if opIs(t, "bytes2string") {
			t = t.A[0]
		}
		d := x.field(s, item, "Datum")
		if x.isNil(s, d) || x.isNil(s, x.field(s, d, "Key")) {
			return t == ts.Nil
		}
		return t == x.field(s, x.field(s, d, "Key"), "GroupLabel")
	}
	x.on = func(s *State, e *Event) {
		switch e.Kind {
		case EvStore:
			if e.Args[0].K == KFAddr && e.Args[0].A[0] == x.field(s, obj, "Config") {
				c.check(rule, e.Fn, e.Pos, s, false, "grouping changes the config of the search itself")
			}
		case EvRet:
			switch e.Callee {
			case "cache.Get":
				c.check(rule, e.Fn, e.Pos, s, ownValue(e.Args[0], obj) && label(s, e.Args[1]), "a result is not grouped by its group label")
				s.SetGhost("looked", ts.True)
				if e.Res[len(e.Res)-1] == ts.True {
					s.SetGhost("hit", ts.True)
					s.SetGhost("#agg", e.Res[0])
				}
			case "cache.Set", "cache.Add":
				ok := label(s, e.Args[1]) && s.ghost["hit"] == nil && len(e.Args) == 4 && x.holds(s, ts.Cmp(LT, e.Args[3], ts.Zero))
				c.check(rule, e.Fn, e.Pos, s, ok, "a group is not kept under its group label for as long as the search lasts")
				v := unIface(e.Args[2])
				cfg, pc := x.field(s, v, "Config"), x.field(s, obj, "Config")
				lim := x.eq(s, x.field(s, cfg, "Limit"), x.field(s, pc, "GroupLimit"))
				hi := x.field(s, cfg, "HigherIsBetter") == x.field(s, pc, "HigherIsBetter")
				grp := x.holds(s, ts.Not(x.field(s, v, "Grouped")))
				c.check(rule, e.Fn, e.Pos, s, lim && hi && grp, "a group is not ordered as asked for within the group limit")
				s.SetGhost("set", ts.True)
				s.SetGhost("#agg", v)
			case aggT + "Insert":
				g := s.ghost["#agg"]
				r := e.Args[0]
				same := g != nil && (r == g || r.K == KOp && strings.HasPrefix(r.Op, "assert:") && r.A[0] == g)
				c.check(rule, e.Fn, e.Pos, s, same && (s.ghost["hit"] != nil || s.ghost["set"] != nil) && e.Args[1] == item && s.ghost["insert"] == nil, "a result does not go to the group of its group label")
				s.SetGhost("insert", ts.True)
			}
		}
	}
	ex := c.run(x, fn, func(s *State, a []*Term) {
		obj, item = a[0], a[1]
		x.assume(s, ts.Cmp(NE, item, ts.Nil), true)
		x.assume(s, x.field(s, obj, "Grouped"), true)
	})
	for _, e := range ex {
		c.check(rule, fn, e.s.retPos(), e.s, e.s.ghost["insert"] != nil, "a result is not added to a group")
	}
}

// mergeResult: the list within the result limit; one result of every group
func (c *Ctx) mergeResult(rule, grule string) {
	fn := c.fn("data.(*Aggregator).Result")
	x := c.exec()
	ts := x.ts
	x.opaque = c.keepAgg("Result")
	x.model = func(x *Exec, s *State, cc *CallCtx) ([]Exit, bool) {
		if cc.name == aggT+"Insert" {
			x.pre(s, cc)
			return []Exit{x.post(s, cc, ts.Nil)}, true
		}
		return nil, false
	}
	var obj *Term
	x.on = func(s *State, e *Event) {
		settle := func() {
			c.check(grule, e.Fn, e.Pos, s, s.ghost["open"] == nil || s.ghost["done"] != nil, "a group is left out of the result")
		}
		switch e.Kind {
		case EvIter:
			if len(e.Args) < 1 || !opIs(e.Args[0], "cacheItems") && !ownValue(e.Args[0], obj) {
				return
			}
			settle()
			s.SetGhost("done", nil)
			s.SetGhost("open", nil)
			if e.Ok {
				s.SetGhost("open", ts.True)
				s.SetGhost("#grp", e.Args[2])
			} else {
				s.SetGhost("scanned", ts.True)
				c.check(grule, e.Fn, e.Pos, s, !e.Write, "not every group is looked at")
			}
		case EvCall:
			if e.Callee == aggT+"Result" {
				if v := e.Args[0]; v.K == KAlloc {
					cfg, pc := x.field(s, v, "Config"), x.field(s, obj, "Config")
					ok := cfg == pc || x.eq(s, x.field(s, cfg, "Limit"), x.field(s, pc, "Limit")) && x.eq(s, x.field(s, cfg, "ResultLimit"), x.field(s, pc, "ResultLimit")) && x.field(s, cfg, "HigherIsBetter") == x.field(s, pc, "HigherIsBetter")
					ok = ok && x.holds(s, ts.Not(x.field(s, v, "Grouped")))
					c.check(grule, e.Fn, e.Pos, s, ok && s.ghost["scanned"] != nil, "the groups are not merged as asked for")
				}
			}
		case EvRet:
			switch e.Callee {
			case aggT + "One":
				if s.ghost["open"] != nil {
					s.SetGhost("one", ts.True)
					s.SetGhost("#one", e.Res[0])
				}
			case aggT + "Insert":
				ok := s.ghost["one"] != nil && s.ghost["open"] != nil && e.Args[1] == s.ghost["#one"] && s.ghost["done"] == nil
				c.check(grule, e.Fn, e.Pos, s, ok, "what is added is not the result of the group")
				s.SetGhost("done", ts.True)
				s.SetGhost("one", nil)
				s.SetGhost("#agg", e.Args[0])
			case aggT + "Result":
				s.SetGhost("#res", e.Res[0])
				s.SetGhost("res", ts.True)
			}
		case EvBranch:
			if s.ghost["one"] != nil && x.isNil(s, s.ghost["#one"]) {
				s.SetGhost("done", ts.True)
				s.SetGhost("one", nil)
			}
		}
	}
	ex := c.run(x, fn, func(s *State, a []*Term) { obj = a[0] })
	for _, e := range ex {
		s := e.s
		at := s.retPos()
		if x.holds(s, x.field(s, obj, "Grouped")) {
			c.check(grule, fn, at, s, s.ghost["res"] != nil && e.res[0] == s.ghost["#res"], "the result is not the merged result of the groups")
			continue
		}
		l := x.field(s, obj, "List")
		n := x.lenOf(s, l)
		lim := x.field(s, x.field(s, obj, "Config"), "ResultLimit")
		r := e.res[0]
		none := x.holds(s, ts.Cmp(LT|EQ, lim, ts.Zero)) || x.holds(s, ts.Cmp(EQ, lim, ts.Zero))
		fits := x.holds(s, ts.Cmp(LT|EQ, n, lim))
		if r == l || opIs(r, "slice") && r.A[0] == l && x.eq(s, r.A[1], ts.Zero) && x.eq(s, r.A[2], n) {
			c.check(rule, fn, at, s, none || fits, "more results than the result limit may be returned")
			continue
		}
		ok := opIs(r, "slice") && r.A[0] == l && x.eq(s, r.A[1], ts.Zero) && x.eq(s, r.A[2], lim)
		some := x.holds(s, ts.Cmp(GT, lim, ts.Zero)) || x.holds(s, ts.Cmp(LT|EQ, n, ts.Zero))
		c.check(rule, fn, at, s, ok && !none && some, "the result is not the list of results up to the result limit")
	}
}

// mergeOne: a group is represented by its best datum
func (c *Ctx) mergeOne(rule string) {
	fn := c.fn("data.(*Aggregator).One")
	x := c.exec()
	ts := x.ts
	var obj *Term
	ex := c.run(x, fn, func(s *State, a []*Term) { obj = a[0] })
	for _, e := range ex {
		s := e.s
		l := x.field(s, obj, "List")
		if x.isNil(s, e.res[0]) {
			c.check(rule, fn, s.retPos(), s, x.holds(s, ts.Cmp(LT|EQ, x.lenOf(s, l), ts.Zero)), "a group with results is left out")
			continue
		}
		best := x.field(s, x.elem(s, l, ts.Zero), "Datum")
		c.check(rule, fn, s.retPos(), s, x.field(s, e.res[0], "Datum") == best, "a group is not represented by its best datum")
	}
}

// mergeAll: everything received is merged, and everything merged is returned
func (c *Ctx) mergeAll(rule, name string) {
	fn := c.fn(name)
	x := c.exec()
	ts := x.ts
	keep := c.keepAgg()
	x.opaque = func(f *ssa.Function) bool {
		n := f.RelString(nil)
		return keep(f) || n == dataT+"StreamSearch" || n == dataT+"RunOnRandomSources" || n == dataT+"InitData" || n == modPath+"/data.GetSearchKey" || n == modPath+"/data.CloneResult" || n == dataT+"AggregatedSearch" && fn != f
	}
	var out, config *Term
	multi := strings.HasSuffix(name, "MultiAggregatedSearch")
	x.model = func(x *Exec, s *State, cc *CallCtx) ([]Exit, bool) {
		switch cc.name {
		case aggT + "Insert":
			x.pre(s, cc)
			return []Exit{x.post(s, cc, ts.Nil)}, true
		case aggT + "Result":
			x.pre(s, cc)
			return []Exit{x.post(s, cc, ts.Fresh("result", cc.sig.Results().At(0).Type(), cc.instr.Pos()))}, true
		case modPath + "/data.CloneResult":
			x.pre(s, cc)
			return []Exit{x.post(s, cc, ts.OpT("clone", cc.sig.Results().At(0).Type(), cc.args[0]))}, true
		}
		return nil, false
	}
	isStream := func(ch *Term) bool {
		t, ok := ch.T.Underlying().(*types.Chan)
		return ok && ch != out && namedOf(t.Elem()) == "ScoredDatum"
	}
	x.on = func(s *State, e *Event) {
		settle := func(what string) {
			c.check(rule, e.Fn, e.Pos, s, s.ghost["got"] == nil, "a result received from a search is not merged %s", what)
		}
		switch e.Kind {
		case EvRecv:
			ch := e.Args[0]
			if isStream(ch) {
				if s.thread != "" && s.ghost["timeout"] != nil {
					return // nobody waits for late results: a thread may discard them
				}
				settle("before the next one is received")
				if e.Ok {
					s.SetGhost("got", ts.True)
					s.SetGhost("#got", e.Res[0])
				} else {
					s.SetGhost("drained", ts.True)
				}
			} else if isTimer(ch) {
				s.SetGhost("timeout", ts.True)
			}
		case EvRet:
			switch e.Callee {
			case aggT + "Insert":
				c.check(rule, e.Fn, e.Pos, s, s.ghost["got"] != nil && e.Args[1] == s.ghost["#got"], "what is merged is not what was received")
				s.SetGhost("got", nil)
				c.check(rule, e.Fn, e.Pos, s, s.ghost["agg"] == nil || s.ghost["#agg"] == e.Args[0], "results are merged in different places")
				s.SetGhost("agg", ts.True)
				s.SetGhost("#agg", e.Args[0])
				a := e.Args[0]
				cfg := x.field(s, a, "Config")
				same := true
				for _, f := range []string{"Limit", "HigherIsBetter", "ResultLimit", "GroupLimit"} {
					same = same && x.eq(s, x.field(s, cfg, f), x.field(s, config, f))
				}
				c.check(rule, e.Fn, e.Pos, s, same, "results are not merged with the limits and direction of the search")
				g := x.field(s, a, "Grouped")
				lim := x.field(s, config, "GroupLimit")
				want := ts.False
				if multi {
					switch {
					case x.holds(s, ts.Cmp(GT, lim, ts.Zero)) || x.holds(s, ts.Cmp(NE, lim, ts.Zero)):
						want = ts.True
					case x.holds(s, ts.Cmp(LT|EQ, lim, ts.Zero)):
					default:
						want = ts.Cmp(GT, lim, ts.Zero)
					}
				}
				c.check(rule, e.Fn, e.Pos, s, g == want, "results are not grouped as asked for")
			case aggT + "Result":
				settle("before the result is made")
				c.check(rule, e.Fn, e.Pos, s, s.ghost["drained"] != nil || s.ghost["timeout"] != nil, "the result is made before all searches have answered or the time is over")
				s.SetGhost("res", ts.True)
				s.SetGhost("#res", e.Res[0])
				s.SetGhost("#sent", ts.Zero)
			case "cache.Get":
				if e.Res[len(e.Res)-1] == ts.True && !multi {
					s.SetGhost("cached", ts.True)
					s.SetGhost("#cached", e.Res[0])
				}
			case modPath + "/data.CloneResult":
				if u := e.Args[0]; s.ghost["cached"] != nil && u.K == KOp && strings.HasPrefix(u.Op, "assert:") && u.A[0] == s.ghost["#cached"] {
					s.SetGhost("res", ts.True)
					s.SetGhost("#res", e.Res[0])
					s.SetGhost("#sent", ts.Zero)
				}
			}
		case EvSend:
			if out == nil || e.Args[0] != out {
				return
			}
			ok := s.ghost["res"] != nil
			if ok {
				v := x.elem(s, s.ghost["#res"], s.ghost["#sent"])
				ok = e.Args[1] == v
				if !ok {
					cl := ts.OpT("clone", s.ghost["#res"].T, s.ghost["#res"])
					ok = e.Args[1] == x.elem(s, cl, s.ghost["#sent"])
				}
			}
			c.check(rule, e.Fn, e.Pos, s, ok, "what is sent is not the next merged result")
			s.SetGhost("#sent", ts.AddK(s.ghost["#sent"], 1))
		}
	}
	ex := c.run(x, fn, func(s *State, a []*Term) {
		config = a[4%len(a)]
		if multi {
			config = a[2]
		} else {
			out = a[2]
		}
	})
	for _, e := range ex {
		s := e.s
		ok := s.ghost["res"] != nil
		c.check(rule, fn, s.retPos(), s, ok, "a search returns without the merged results")
		if !ok {
			continue
		}
		if multi {
			c.check(rule, fn, s.retPos(), s, e.res[0] == s.ghost["#res"], "the merged results are not what is returned")
		} else {
			c.check(rule, fn, s.retPos(), s, x.holds(s, ts.Cmp(GT|EQ, s.ghost["#sent"], x.lenOf(s, s.ghost["#res"]))), "not all merged results are sent")
		}
	}
}
