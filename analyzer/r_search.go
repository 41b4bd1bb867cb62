package main

// Searching: the best results of a dataset (C08), merging results (C09),
// filters (C10).

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	collT    = "(*" + modPath + "/data.Collector)."
	aggT     = "(*" + modPath + "/data.Aggregator)."
	compFn   = modPath + "/data.GetVectorComparisonFunction"
	gjsonGet = "call:github.com/tidwall/gjson.Get"
)

// evalFn applies a function value in a copy of the state, without events
func (x *Exec) evalFn(s *State, e *Event, f *Term, args ...*Term) []Exit {
	on := x.on
	x.on = nil
	defer func() { x.on = on }()
	g := s.Fork()
	for i, a := range args { // what is known about them is kept
		g.SetGhost(fmt.Sprintf("#arg%d", i), a)
	}
	return x.callFn(g, &CallCtx{instr: e.Instr, fn: e.Fn}, f, args)
}

// elem reads element i of a list of pointers
func (x *Exec) elem(s *State, list, i *Term) *Term {
	sl, ok := list.T.Underlying().(*types.Slice)
	if !ok {
		return x.ts.Nil
	}
	return x.load(s, x.iaddr(list, i, sl.Elem()), sl.Elem())
}

// topk decides that a method keeps the best limit elements of obj.List in order
type topk struct {
	c             *Ctx
	x             *Exec
	rule          string
	obj, item     *Term
	list0         *Term
	limit, higher *Term
}

func (k *topk) score(s *State, d *Term) *Term { return k.x.field(s, d, "Score") }

// rel: a is better than b (mask 1), at least as good (2), not better (3)
func (k *topk) rel(s *State, a, b *Term, what int) bool {
	x, ts := k.x, k.x.ts
	var h, l bool
	switch what {
	case 2:
		h, l = x.holds(s, ts.Cmp(GT|EQ, a, b)), x.holds(s, ts.Cmp(LT|EQ, a, b))
	case 3:
		h, l = x.holds(s, ts.Not(ts.Cmp(GT, a, b))), x.holds(s, ts.Not(ts.Cmp(LT, a, b)))
	}
	return h && l || h && x.holds(s, k.higher) || l && x.holds(s, ts.Not(k.higher))
}

func (k *topk) event(s *State, e *Event) {
	c, x, ts := k.c, k.x, k.x.ts
	switch e.Kind {
	case EvStore:
		addr, v := e.Args[0], e.Args[1]
		if isFAddr(addr, "", "List") && addr.A[0] == k.obj {
			cur := k.x.field(s, k.obj, "List")
			if v == cur {
				return
			}
			ok := s.ghost["mut"] == nil && opIs(v, "append1") && v.A[0] == k.list0 && v.A[1] == k.item
			c.check(k.rule, e.Fn, e.Pos, s, ok, "the list of results is replaced by something other than itself with the candidate added once")
			c.check(k.rule, e.Fn, e.Pos, s, x.holds(s, ts.Cmp(LT, x.lenOf(s, k.list0), k.limit)), "a candidate is added although the limit may be reached")
			s.SetGhost("mut", ts.Str("added"))
			s.SetGhost("sorted", nil)
			return
		}
		if addr.K == KIAddr && (addr.A[0] == k.list0 || addr.A[0] == x.field(s, k.obj, "List")) {
			n := x.lenOf(s, k.list0)
			last := x.elem(s, k.list0, ts.AddK(n, -1))
			ok := s.ghost["mut"] == nil && v == k.item && x.eq(s, addr.A[1], ts.AddK(n, -1))
			c.check(k.rule, e.Fn, e.Pos, s, ok, "something other than the worst result (the last one) is replaced by the candidate")
			c.check(k.rule, e.Fn, e.Pos, s, x.holds(s, ts.Cmp(GT|EQ, n, k.limit)), "a result is dropped although the limit is not reached")
			c.check(k.rule, e.Fn, e.Pos, s, k.rel(s, k.score(s, k.item), k.score(s, last), 2), "a result is replaced by a candidate that is not known to be better")
			s.SetGhost("mut", ts.Str("replaced"))
			s.SetGhost("sorted", nil)
		}
	case EvCall:
		if strings.HasPrefix(e.Callee, "sort.") && len(e.Args) > 0 {
			l := unIface(e.Args[0])
			if l != x.field(s, k.obj, "List") {
				return
			}
			if k.ordered(s, e, l) {
				s.SetGhost("sorted", ts.True)
			}
		}
	}
}

// ordered: a sort call puts better scores first
func (k *topk) ordered(s *State, e *Event, l *Term) bool {
	c, x, ts := k.c, k.x, k.x.ts
	var less *Term
	var recv []*Term
	switch e.Callee {
	case "sort.Slice", "sort.SliceStable":
		less = e.Args[1]
	case "sort.Sort", "sort.Stable":
		if m := c.p.ssa.LookupMethod(e.Args[0].T, nil, "Less"); m != nil {
			less = ts.cons(&Term{K: KFunc, Fn: m, Op: m.RelString(nil)})
			recv = []*Term{l}
		}
	}
	if less == nil {
		return c.check(k.rule, e.Fn, e.Pos, s, false, "the order of the results by %s is not understood", e.Callee)
	}
	f := s.Fork()
	i := ts.Fresh("i", intT, e.Pos)
	j := ts.Fresh("j", intT, e.Pos)
	for _, v := range []*Term{i, j} {
		x.assume(f, ts.Cmp(GT|EQ, v, ts.Zero), true)
		x.assume(f, ts.Cmp(LT, v, x.lenOf(f, l)), true)
	}
	n := 0
	for _, ex := range x.evalFn(f, e, less, append(recv, i, j)...) {
		for _, tr := range []bool{true, false} {
			for _, hi := range []bool{true, false} {
				g := ex.s.Fork()
				if !x.assume(g, ex.res[0], tr) || !x.assume(g, k.higher, hi) {
					continue
				}
				a, b := k.score(g, x.elem(g, l, i)), k.score(g, x.elem(g, l, j))
				what := 2
				if !tr {
					what = 3
				}
				n++
				if !c.check(k.rule, e.Fn, e.Pos, g, k.rel(g, a, b, what), "the results are not ordered best first (higher is better: %v)", hi) {
					return false
				}
			}
		}
	}
	return n > 0
}

func (k *topk) exit(e Exit, fn *ssa.Function) {
	c, x, ts, s := k.c, k.x, k.x.ts, e.s
	if s.ghost["mut"] != nil {
		c.check(k.rule, fn, s.retPos(), s, s.ghost["sorted"] != nil, "the results are changed but not ordered again")
		return
	}
	n := x.lenOf(s, k.list0)
	full := x.holds(s, ts.Cmp(GT|EQ, n, k.limit))
	c.check(k.rule, fn, s.retPos(), s, full, "a candidate is dropped although the limit is not reached")
	if x.holds(s, ts.Cmp(EQ, n, ts.Zero)) {
		return
	}
	last := x.elem(s, k.list0, ts.AddK(n, -1))
	c.check(k.rule, fn, s.retPos(), s, k.rel(s, k.score(s, k.item), k.score(s, last), 3), "a candidate is dropped although it may be better than the worst result")
}

func (c *Ctx) topk(rule, name string, params func(x *Exec, s *State, obj *Term) (limit, higher *Term)) {
	fn := c.fn(name)
	x := c.exec()
	k := &topk{c: c, x: x, rule: rule}
	x.on = k.event
	ex := c.run(x, fn, func(s *State, a []*Term) {
		k.obj, k.item = a[0], a[1]
		x.assume(s, x.ts.Cmp(NE, k.item, x.ts.Nil), true)
		k.list0 = x.field(s, k.obj, "List")
		k.limit, k.higher = params(x, s, k.obj)
	})
	for _, e := range ex {
		k.exit(e, fn)
		if len(e.res) == 1 {
			c.check(rule, fn, e.s.retPos(), e.s, x.isNil(e.s, e.res[0]), "an error stops the search")
		}
	}
}

// searchConfig: the config a search works with
func (x *Exec) cfgField(s *State, config *Term, name string, def *Term) func(v *Term) bool {
	return func(v *Term) bool {
		if x.nonNil(s, config) {
			return x.eq(s, v, x.field(s, config, name))
		}
		if x.isNil(s, config) {
			return def == nil || v == def || x.eq(s, v, def)
		}
		return false
	}
}

func featureOf(x *Exec, s *State, d *Term) *Term {
	return x.field(s, x.field(s, d, "Key"), "Feature")
}

// collector: the collector is set up as the config asks for
func (c *Ctx) collector(x *Exec, rule string, s *State, e *Event, col, config *Term) {
	ts := x.ts
	okN := x.cfgField(s, config, "Limit", nil)(x.field(s, col, "N"))
	okH := x.cfgField(s, config, "HigherIsBetter", ts.False)(x.field(s, col, "HigherIsBetter"))
	c.check(rule, e.Fn, e.Pos, s, okN && okH, "the limit or the direction of the search is not the one asked for")
	f := x.field(s, col, "ScoreFunc")
	okF := callIs(f, compFn) && len(f.A) == 1
	if okF && x.nonNil(s, config) {
		okF = x.eq(s, f.A[0], x.field(s, config, "ScoreFuncName"))
	}
	c.check(rule, e.Fn, e.Pos, s, okF, "the score function of the search is not the one asked for")
}

// scored: item is the stored datum of entry with its score for the query
func (c *Ctx) scored(x *Exec, rule string, s *State, e *Event, col, item, stored, query *Term) {
	c.check(rule, e.Fn, e.Pos, s, x.field(s, item, "Datum") == stored, "the result is not the datum that was found")
	sc := x.field(s, item, "Score")
	ok := callIs(sc, "dynamic") && len(sc.A) == 3 && sc.A[0] == x.field(s, col, "ScoreFunc")
	if ok {
		a, b := featureOf(x, s, stored), featureOf(x, s, query)
		noQ := x.isNil(s, query) || x.isNil(s, x.field(s, query, "Key"))
		isQ := func(t *Term) bool { return t == b || noQ && t == x.ts.Nil }
		noS := x.isNil(s, stored) || x.isNil(s, x.field(s, stored, "Key"))
		isS := func(t *Term) bool { return t == a || noS && t == x.ts.Nil }
		ok = isS(sc.A[1]) && isQ(sc.A[2]) || isS(sc.A[2]) && isQ(sc.A[1])
	}
	c.check(rule, e.Fn, e.Pos, s, ok, "the score is not that of the datum for the query")
}

func init() {
	register("C08", "An exact search offers every stored, unexpired datum that passes the filters to the collector, once and with its own score, and the collector keeps the best ones up to the limit, best first.",
		[]string{"topk", "search-complete", "search-item", "stream-result"}, func(c *Ctx) {
			c.topk("topk", "data.(*Collector).Insert", func(x *Exec, s *State, o *Term) (*Term, *Term) {
				return x.field(s, o, "N"), x.field(s, o, "HigherIsBetter")
			})
			fn := c.fn("data.(*Data).Search")
			x := c.exec()
			ts := x.ts
			var dt, query, config, given *Term
			x.opaque = func(f *ssa.Function) bool {
				n := f.RelString(nil)
				return n == collT+"Insert" || n == collT+"PassesFilters" || n == compFn
			}
			x.model = func(x *Exec, s *State, cc *CallCtx) ([]Exit, bool) {
				switch cc.name {
				case collT + "Insert":
					x.pre(s, cc)
					return []Exit{x.post(s, cc, ts.Nil)}, true
				case collT + "PassesFilters":
					x.pre(s, cc)
					f := s.Fork()
					return []Exit{x.post(s, cc, ts.True), x.post(f, cc, ts.False)}, true
				}
				return nil, false
			}
			settle := func(s *State, e *Event) {
				if s.ghost["open"] == nil {
					return
				}
				c.check("search-complete", e.Fn, e.Pos, s, s.ghost["offered"] != nil || s.ghost["excused"] != nil, "a stored datum is skipped although it has not expired and passes the filters")
			}
			u := &unshared{c, x, "search-item", "ScoredDatum"}
			x.on = func(s *State, e *Event) {
				keepNow(c, s, e)
				u.event(s, e, "a result that was already offered is changed")
				switch e.Kind {
				case EvIter:
					if len(e.Args) < 3 || !isFAddr(e.Args[0], "Data", "DBMap") || e.Args[0].A[0] != dt {
						return
					}
					settle(s, e)
					s.SetGhost("offered", nil)
					s.SetGhost("excused", nil)
					if e.Ok {
						s.SetGhost("open", ts.True)
						s.SetGhost("#cur", e.Args[2])
						return
					}
					s.SetGhost("open", nil)
					s.SetGhost("scanned", ts.True)
					c.check("search-complete", e.Fn, e.Pos, s, !e.Write, "the search stops before it has seen all stored data")
				case EvBranch:
					if s.ghost["open"] == nil || s.ghost["excused"] != nil {
						return
					}
					ent := entryOf(x, c.p, s.ghost["#cur"])
					if x.expired(s, x.field(s, ent, "ExprireAt")) || x.isNil(s, ent) || !storedIsEntry(x, s, s.ghost["#cur"]) {
						s.SetGhost("excused", ts.True)
					}
				case EvRet:
					switch e.Callee {
					case collT + "PassesFilters":
						ent := storedDatum(e.Args[1])
						if e.Res[0] == ts.False && ent != nil && ent == entryOf(x, c.p, s.ghost["#cur"]) {
							s.SetGhost("excused", ts.True)
						}
					case collT + "Insert":
						u.handOver(s)
						col, item := e.Args[0], e.Args[1]
						if col != given {
							c.collector(x, "search-item", s, e, col, config)
						}
						cur := entryOf(x, c.p, s.ghost["#cur"])
						c.check("search-item", e.Fn, e.Pos, s, s.ghost["open"] != nil && s.ghost["offered"] == nil, "a datum is offered more than once or outside of the iteration")
						c.scored(x, "search-item", s, e, col, item, x.field(s, cur, "Datum"), query)
						s.SetGhost("offered", ts.True)
						s.SetGhost("#col", col)
						s.SetGhost("collected", ts.True)
					}
				}
			}
			ex := c.run(x, fn, func(s *State, a []*Term) { dt, query, config, given = a[0], a[1], a[2], a[3] })
			for _, e := range ex {
				c.check("search-complete", fn, e.s.retPos(), e.s, e.s.ghost["scanned"] != nil, "the search returns without having looked at the stored data")
				if col := e.s.ghost["#col"]; e.s.ghost["collected"] != nil {
					c.check("search-item", fn, e.s.retPos(), e.s, e.res[0] == col, "the search does not return what it collected")
				}
				c.check("search-item", fn, e.s.retPos(), e.s, x.nonNil(e.s, e.res[0]), "the search may return nothing")
			}
			c.streamResult("stream-result")
		})

	register("C10", "A datum enters a search result only when every filter matches its label and every group filter its group label; filters reject only data that lacks one of them.",
		[]string{"filter-accept", "filter-reject", "filtered"}, func(c *Ctx) {
			c.filters()
		})

	register("C09", "Merging keeps, per key, the best score seen, orders the merged results best first within the limit, cuts them to the result limit, and groups by group label.",
		[]string{"merge-order", "merge-key", "merge-result", "merge-group", "merge-all"}, func(c *Ctx) {
			c.merging()
		})
}

// storedIsEntry: a stored value may be an entry on this path
func storedIsEntry(x *Exec, s *State, v *Term) bool {
	for _, it := range s.f.items() {
		if it.kind == 3 && !it.v && it.a != nil && it.a.K == KOp && strings.HasPrefix(it.a.Op, "istype:") && it.a.A[0] == v {
			return false
		}
	}
	return true
}

// streamResult: StreamSearch sends the collected list, all of it, in order
func (c *Ctx) streamResult(rule string) {
	fn := c.fn("data.(*Data).StreamSearch")
	x := c.exec()
	ts := x.ts
	x.opaque = func(f *ssa.Function) bool {
		n := f.RelString(nil)
		return n == dataT+"Search" || n == dataT+"SearchAnnoy"
	}
	var query, config, out *Term
	x.on = func(s *State, e *Event) {
		switch e.Kind {
		case EvRet:
			if e.Callee != dataT+"Search" && e.Callee != dataT+"SearchAnnoy" {
				return
			}
			okC := e.Args[2] == config && x.nonNil(s, config) || x.isNil(s, config)
			c.check(rule, e.Fn, e.Pos, s, e.Args[1] == query && okC && s.ghost["list"] == nil, "the search is not done once for the query and config given")
			s.SetGhost("list", ts.True)
			s.SetGhost("#col", e.Res[0])
			s.SetGhost("#list", x.field(s, e.Res[0], "List"))
			s.SetGhost("#sent", ts.Zero)
			if x.nonNil(s, config) {
				name := x.field(s, config, "ScoreFuncName")
				approx := ts.OpT("call:strings.HasPrefix", types.Typ[types.Bool], name, ts.Str("Annoy"))
				if e.Callee == dataT+"SearchAnnoy" {
					c.check(rule, e.Fn, e.Pos, s, x.holds(s, approx), "an approximate search is done although an exact one is asked for")
				} else {
					c.check(rule, e.Fn, e.Pos, s, x.holds(s, ts.Not(approx)), "an exact search is done although an approximate one is asked for")
				}
			}
		case EvSend:
			if e.Args[0] != out {
				return
			}
			l := s.ghost["list"]
			ok := l != nil
			if ok {
				ok = e.Args[1] == x.elem(s, s.ghost["#list"], s.ghost["#sent"]) || e.Args[1] == x.elem(s, x.field(s, s.ghost["#col"], "List"), s.ghost["#sent"])
			}
			c.check(rule, e.Fn, e.Pos, s, ok, "what is sent is not the next result of the search")
			s.SetGhost("#sent", ts.AddK(s.ghost["#sent"], 1))
		}
	}
	ex := c.run(x, fn, func(s *State, a []*Term) { query, out, config = a[1], a[2], a[4] })
	for _, e := range ex {
		s := e.s
		ok := s.ghost["list"] != nil
		if ok && !x.isNil(s, s.ghost["#col"]) {
			n := s.ghost["#sent"]
			ok = x.holds(s, ts.Cmp(GT|EQ, n, x.lenOf(s, s.ghost["#list"]))) || x.holds(s, ts.Cmp(GT|EQ, n, x.lenOf(s, x.field(s, s.ghost["#col"], "List"))))
		}
		c.check(rule, fn, s.retPos(), s, ok, "not all results of the search are sent")
	}
}

func (c *Ctx) filters() {
	fn := c.fn("data.(*Collector).PassesFilters")
	x := c.exec()
	ts := x.ts
	x.inline = func(f *ssa.Function) bool { return true }
	x.limit = 400
	var col, datum *Term
	// which filter a test is about: 0 group, 1 label
	test := func(s *State, t *Term) (kind int, idx *Term) {
		if t == nil || !callIs(t, "(github.com/tidwall/gjson.Result).Exists") {
			return -1, nil
		}
		g := t.A[0]
		if g.K != KOp || len(g.A) != 2 {
			return -1, nil
		}
		lab := g.A[0]
		switch {
		case g.Op == gjsonGet || g.Op == gjsonGet+"Bytes":
		case g.Op == "call:(github.com/tidwall/gjson.Result).Get" && (callIs(lab, "github.com/tidwall/gjson.Parse") || callIs(lab, "github.com/tidwall/gjson.ParseBytes")):
			lab = lab.A[0]
		default:
			return -1, nil
		}
		for opIs(lab, "bytes2string") || opIs(lab, "string2bytes") {
			lab = lab.A[0]
		}
		f := g.A[1]
		if f.K != KInit || f.A[0].K != KIAddr {
			return -1, nil
		}
		base, idx := f.A[0].A[0], f.A[0].A[1]
		switch {
		case base == x.field(s, col, "GroupFilters") && lab == x.field(s, x.field(s, datum, "Key"), "GroupLabel"):
			return 0, idx
		case base == x.field(s, col, "Filters") && lab == x.field(s, x.field(s, datum, "Value"), "Label"):
			return 1, idx
		}
		return -1, nil
	}
	names := []string{"#group", "#label"}
	x.model = func(x *Exec, s *State, cc *CallCtx) ([]Exit, bool) {
		if cc.name != "(github.com/tidwall/gjson.Result).Exists" {
			return nil, false
		}
		x.pre(s, cc)
		t := ts.OpT("call:"+cc.name, types.Typ[types.Bool], cc.args...)
		k, i := test(s, t)
		f := s.Fork()
		ok1, ok2 := x.assume(s, t, true), x.assume(f, t, false)
		var l []Exit
		if ok1 {
			if k >= 0 && x.eq(s, i, s.ghost[names[k]]) {
				s.SetGhost(names[k], ts.AddK(s.ghost[names[k]], 1))
			}
			l = append(l, x.post(s, cc, ts.True))
		}
		if ok2 {
			if k >= 0 {
				f.SetGhost("missing", ts.True)
			}
			l = append(l, x.post(f, cc, ts.False))
		}
		return l, true
	}
	x.on = func(s *State, e *Event) {
		if e.Kind != EvBranch {
			return
		}
		for _, it := range s.f.items() {
			t := it.a
			if it.kind != 3 || t == nil {
				continue
			}
			k, i := test(s, t)
			if k < 0 {
				continue
			}
			if !it.v {
				s.SetGhost("missing", ts.True)
			} else if x.eq(s, i, s.ghost[names[k]]) {
				s.SetGhost(names[k], ts.AddK(s.ghost[names[k]], 1))
			}
		}
	}
	ex := c.run(x, fn, func(s *State, a []*Term) {
		col, datum = a[0], a[1]
		for _, t := range []*Term{datum, x.field(s, datum, "Key"), x.field(s, datum, "Value")} { // stored data is complete
			x.assume(s, ts.Cmp(NE, t, ts.Nil), true)
		}
		s.SetGhost("#group", ts.Zero)
		s.SetGhost("#label", ts.Zero)
	})
	for _, e := range ex {
		for _, tr := range []bool{true, false} {
			s := e.s.Fork()
			if !x.assume(s, e.res[0], tr) {
				continue
			}
			if !tr {
				miss := s.ghost["missing"] != nil
				for _, it := range s.f.items() {
					if k, _ := test(s, it.a); it.kind == 3 && !it.v && k >= 0 {
						miss = true
					}
				}
				c.check("filter-reject", fn, s.retPos(), s, miss, "a datum is rejected although it is not known to lack one of the filters")
				continue
			}
			for i, f := range []string{"GroupFilters", "Filters"} {
				n := x.lenOf(s, x.field(s, col, f))
				cnt := s.ghost[names[i]]
				c.check("filter-accept", fn, s.retPos(), s, x.holds(s, ts.Cmp(GT|EQ, cnt, n)), "a datum is accepted although not all %s are known to match", f)
			}
		}
	}
	// both searches
	for _, n := range []string{"data.(*Data).Search", "data.(*Data).SearchAnnoy"} {
		fn := c.fn(n)
		x := c.exec()
		ts := x.ts
		x.opaque = func(f *ssa.Function) bool {
			m := f.RelString(nil)
			return m == collT+"Insert" || m == collT+"PassesFilters" || m == compFn || m == dataT+"Search" || strings.HasSuffix(fnPkg(f), "/annoyindex")
		}
		var config, given *Term
		x.model = func(x *Exec, s *State, cc *CallCtx) ([]Exit, bool) {
			switch cc.name {
			case collT + "Insert":
				x.pre(s, cc)
				return []Exit{x.post(s, cc, ts.Nil)}, true
			case collT + "PassesFilters":
				x.pre(s, cc)
				f := s.Fork()
				return []Exit{x.post(s, cc, ts.True), x.post(f, cc, ts.False)}, true
			}
			return nil, false
		}
		accept := func(s *State, e *Event, item *Term) {
			d := x.field(s, item, "Datum")
			c.check("filtered", e.Fn, e.Pos, s, s.ghost["passed"] != nil && s.ghost["#passed"] == d, "a datum becomes a result without having passed the filters")
		}
		x.on = func(s *State, e *Event) {
			switch e.Kind {
			case EvRet:
				if e.Callee == collT+"PassesFilters" {
					s.SetGhost("passed", nil)
					s.SetGhost("#passed", nil)
					if e.Res[0] == ts.True {
						s.SetGhost("passed", ts.True)
						s.SetGhost("#passed", e.Args[1])
					}
					if given == nil || e.Args[0] != given {
						for _, f := range []string{"Filters", "GroupFilters"} {
							ok := x.cfgField(s, config, f, ts.Nil)(x.field(s, e.Args[0], f))
							c.check("filtered", e.Fn, e.Pos, s, ok, "the %s used are not those of the search", f)
						}
					}
				}
			case EvCall:
				if e.Callee == collT+"Insert" {
					accept(s, e, e.Args[1])
				}
			case EvAppend:
				r := e.Res[0]
				if opIs(r, "append1") && namedOf(r.A[1].T) == "ScoredDatum" {
					accept(s, e, r.A[1])
				}
			}
		}
		c.run(x, fn, func(s *State, a []*Term) {
			config = a[2]
			if len(a) > 3 {
				given = a[3]
			}
		})
	}
}
