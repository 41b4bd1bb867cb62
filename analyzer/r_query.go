package main

// Queries: cache of results (C12), query ids (C13), what peers are asked (C15).

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	searchKeyFn = modPath + "/data.GetSearchKey"
	cloneFn     = modPath + "/data.CloneResult"
	jsonMarshal = "encoding/json.Marshal"
)

// pbFields lists the fields of a message that carry data
func pbFields(t types.Type) []string {
	if p := ptrElem(t); p != nil {
		t = p
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var l []string
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Exported() && !strings.HasPrefix(f.Name(), "XXX_") {
			l = append(l, f.Name())
		}
	}
	return l
}

// sameFields: all data fields of a and b agree, but for those named
func (x *Exec) sameFields(s *State, a, b *Term, but ...string) (string, bool) {
	if a == b {
		return "", true
	}
	fs := pbFields(a.T)
	if len(fs) == 0 {
		return "everything", false
	}
next:
	for _, f := range fs {
		for _, n := range but {
			if n == f {
				continue next
			}
		}
		if u, v := x.field(s, a, f), x.field(s, b, f); u != v && !x.eq(s, u, v) {
			return f, false
		}
	}
	return "", true
}

// listElem: name of the elements of a list
func listElem(t types.Type) string {
	if l, ok := t.Underlying().(*types.Slice); ok {
		return namedOf(l.Elem())
	}
	return ""
}

// shrinks: t is v scaled by a factor between 0 and 1 (coefficient, offset)
func linearIn(t, v *Term) (k, c float64, ok bool) {
	if t == v {
		return 1, 0, true
	}
	if f, is := constFloat(t); is {
		return 0, f, true
	}
	if t.K != KOp {
		return 0, 0, false
	}
	if strings.HasPrefix(t.Op, "conv") && len(t.A) == 1 {
		return linearIn(t.A[0], v)
	}
	if len(t.A) != 2 {
		return 0, 0, false
	}
	a, b, ok1 := linearIn(t.A[0], v)
	d, e, ok2 := linearIn(t.A[1], v)
	if !ok1 || !ok2 {
		return 0, 0, false
	}
	switch t.Op {
	case "+":
		return a + d, b + e, true
	case "-":
		return a - d, b - e, true
	case "*":
		if a == 0 {
			return d * b, e * b, true
		}
		if d == 0 {
			return a * e, b * e, true
		}
	case "/":
		if d == 0 && e != 0 {
			return a / e, b / e, true
		}
	}
	return 0, 0, false
}

func (c *Ctx) cacheRules() {
	// the key
	fn := c.fn("data.EncodeSearchConfig")
	x := c.exec()
	ts := x.ts
	var sc *Term
	x.on = func(s *State, e *Event) {
		if e.Kind == EvRet && e.Callee == jsonMarshal {
			a := unIface(e.Args[0])
			f, ok := x.sameFields(s, a, sc, "Uuid", "Timeout")
			c.check("cache-key", e.Fn, e.Pos, s, ok && len(pbFields(a.T)) > 0 && ptrElem(a.T) != nil, "the cache key does not tell searches apart that differ in %s", f)
			c.check("cache-key", e.Fn, e.Pos, s, isConst(x.field(s, a, "Uuid")), "the cache key depends on the query id, so that nothing is ever found")
			s.SetGhost("sig", ts.True)
			s.SetGhost("#sig", e.Res[0])
		}
	}
	ex := c.run(x, fn, func(s *State, a []*Term) {
		sc = a[0]
		x.assume(s, ts.Cmp(NE, sc, ts.Nil), true)
	})
	for _, e := range ex {
		c.check("cache-key", fn, e.s.retPos(), e.s, e.s.ghost["sig"] != nil && e.res[0] == e.s.ghost["#sig"], "the cache key is not made of the whole config")
	}
	fn = c.fn("data.GetSearchKey")
	x = c.exec()
	ts = x.ts
	encFn := modPath + "/data.EncodeSearchConfig"
	x.opaque = func(f *ssa.Function) bool { return f.RelString(nil) == encFn }
	var datum, config *Term
	x.on = func(s *State, e *Event) {
		if e.Kind == EvRet && e.Callee == encFn {
			_, ok := x.sameFields(s, e.Args[0], config, "Uuid", "Timeout")
			c.check("cache-key", e.Fn, e.Pos, s, ok, "the cache key is not made of the config of the search")
			s.SetGhost("sig", ts.True)
			s.SetGhost("#sig", e.Res[0])
		}
	}
	ex = c.run(x, fn, func(s *State, a []*Term) {
		datum, config = a[0], a[1]
		x.assume(s, ts.Cmp(NE, config, ts.Nil), true)
	})
	for _, e := range ex {
		s := e.s
		r := e.res[0]
		ok := s.ghost["sig"] != nil && opIs(r, "bytes2string")
		if ok {
			b := r.A[0]
			sig := s.ghost["#sig"]
			noKey := x.isNil(s, datum) || x.isNil(s, x.field(s, datum, "Key"))
			if !noKey {
				k := ts.OpT("call1:"+marshalK, errT(), x.field(s, datum, "Key"))
				noKey = x.nonNil(s, k)
			}
			isKey := func(t *Term) bool {
				return callIs(t, marshalK) && len(t.A) == 1 && t.A[0] == x.field(s, datum, "Key")
			}
			var parts []*Term
			for opIs(b, "append") {
				parts = append(parts, b.A[1])
				b = b.A[0]
			}
			parts = append(parts, b)
			k, g := false, false
			for _, p := range parts {
				k = k || isKey(p)
				g = g || p == sig
			}
			ok = g && (k || noKey)
		}
		c.check("cache-key", fn, s.retPos(), s, ok, "the cache key is not made of the key of the query and the config")
	}
	// copies
	fn = c.fn("data.CloneResult")
	x = c.exec()
	ts = x.ts
	var list *Term
	x.on = func(s *State, e *Event) {
		item := func(v, i *Term) {
			src := x.elem(s, list, i)
			f, ok := "", false
			if v.K == KAlloc {
				f, ok = x.sameFields(s, v, src)
			} else if x.isNil(s, v) {
				ok = x.isNil(s, src)
			}
			c.check("cache-copy", e.Fn, e.Pos, s, ok, "a copied result is not a copy of its own (%s)", f)
			c.check("cache-copy", e.Fn, e.Pos, s, s.ghost["item"] == nil || s.ghost["#item"] != v || x.isNil(s, v), "one object stands for several of the copied results")
			s.SetGhost("item", ts.True)
			s.SetGhost("#item", v)
			if x.eq(s, i, s.ghost["#n"]) {
				s.SetGhost("#n", ts.AddK(s.ghost["#n"], 1))
			}
		}
		switch e.Kind {
		case EvStore:
			if a := e.Args[0]; a.K == KIAddr && !isArrayPtr(a.A[0].T) && listElem(a.A[0].T) == "ScoredDatum" {
				c.check("cache-copy", e.Fn, e.Pos, s, a.A[0] != list, "the list to copy is changed")
				item(e.Args[1], a.A[1])
			}
		case EvAppend:
			r := e.Res[0]
			if opIs(r, "append1") && namedOf(r.A[1].T) == "ScoredDatum" {
				item(r.A[1], s.ghost["#n"])
				if s.ghost["grown"] == nil {
					c.check("cache-copy", e.Fn, e.Pos, s, x.eq(s, x.lenOf(s, r.A[0]), ts.Zero), "the copy does not start empty")
				} else {
					c.check("cache-copy", e.Fn, e.Pos, s, r.A[0] == s.ghost["#grown"], "the copies go to different lists")
				}
				s.SetGhost("grown", ts.True)
				s.SetGhost("#grown", r)
			}
		}
	}
	ex = c.run(x, fn, func(s *State, a []*Term) {
		list = a[0]
		s.SetGhost("#n", ts.Zero)
	})
	for _, e := range ex {
		s := e.s
		full := x.eq(s, x.lenOf(s, e.res[0]), x.lenOf(s, list)) || s.ghost["grown"] != nil && e.res[0] == s.ghost["#grown"]
		c.check("cache-copy", fn, s.retPos(), s, e.res[0] != list && x.holds(s, ts.Cmp(GT|EQ, s.ghost["#n"], x.lenOf(s, list))) && full, "not every result is copied")
	}
	// use
	fn = c.fn("data.(*Data).AggregatedSearch")
	x = c.exec()
	ts = x.ts
	keep := c.keepAgg()
	x.opaque = func(f *ssa.Function) bool {
		n := f.RelString(nil)
		return keep(f) || n == dataT+"StreamSearch" || n == dataT+"RunOnRandomSources" || n == dataT+"InitData" || n == searchKeyFn || n == cloneFn
	}
	x.model = func(x *Exec, s *State, cc *CallCtx) ([]Exit, bool) {
		switch cc.name {
		case aggT + "Insert":
			x.pre(s, cc)
			return []Exit{x.post(s, cc, ts.Nil)}, true
		case aggT + "Result":
			x.pre(s, cc)
			return []Exit{x.post(s, cc, ts.Fresh("result", cc.sig.Results().At(0).Type(), cc.instr.Pos()))}, true
		case cloneFn:
			x.pre(s, cc)
			return []Exit{x.post(s, cc, ts.Fresh("clone", cc.sig.Results().At(0).Type(), cc.instr.Pos(), cc.args[0]))}, true
		case searchKeyFn:
			x.pre(s, cc)
			return []Exit{x.post(s, cc, ts.Fresh("searchkey", types.Typ[types.String], cc.instr.Pos()))}, true
		}
		return nil, false
	}
	var query, cfg, out *Term
	x.on = func(s *State, e *Event) {
		switch e.Kind {
		case EvRet:
			switch e.Callee {
			case searchKeyFn:
				f, ok := x.sameFields(s, e.Args[1], cfg, "Uuid", "Timeout")
				c.check("cache-use", e.Fn, e.Pos, s, ok && e.Args[0] == query, "the cache key is not made of the query and the config of the search (%s)", f)
				s.SetGhost("key", ts.True)
				s.SetGhost("#key", e.Res[0])
			case "cache.IncrementExpiration":
				ok := s.ghost["key"] != nil && unIface(e.Args[1]) == s.ghost["#key"] && len(e.Args) == 3
				if ok {
					k, o, is := linearIn(e.Args[2], x.field(s, cfg, "CacheDuration"))
					ok = is && k == 1e9 && o == 0
				}
				c.check("cache-use", e.Fn, e.Pos, s, ok, "results are kept for another duration than asked for")
			case "cache.Get", "cache.Set", "cache.Add":
				k := unIface(e.Args[1])
				ok := s.ghost["key"] != nil && k == s.ghost["#key"]
				c.check("cache-use", e.Fn, e.Pos, s, ok, "the cache of results is used with a key not made for this search")
				dur := x.field(s, cfg, "CacheDuration")
				on := x.holds(s, ts.Cmp(GT, dur, ts.Zero)) || x.holds(s, ts.Cmp(NE, dur, ts.Zero))
				c.check("cache-use", e.Fn, e.Pos, s, on, "the cache of results is used although the search does not ask for it")
				if e.Callee == "cache.Get" {
					if e.Res[len(e.Res)-1] == ts.True {
						s.SetGhost("hit", ts.True)
						s.SetGhost("#hit", e.Res[0])
					}
					return
				}
				v := unIface(e.Args[2])
				ok = false
				switch {
				case s.ghost["clone"] != nil && v == s.ghost["#clone"]:
					ok = s.ghost["sent-clone"] == nil && s.ghost["stale"] == nil
					s.SetGhost("cached-clone", ts.True)
				case s.ghost["res"] != nil && v == s.ghost["#res"]:
					ok = s.ghost["sent-res"] == nil
					s.SetGhost("cached-res", ts.True)
				}
				c.check("cache-use", e.Fn, e.Pos, s, ok, "what is cached is not a copy made before the results were handed out")
				okD := len(e.Args) == 4
				if okD {
					k, o, ok := linearIn(e.Args[3], dur)
					okD = ok && k == 1e9 && o == 0
				}
				c.check("cache-use", e.Fn, e.Pos, s, okD, "results are not cached for the duration asked for")
			case cloneFn:
				from := e.Args[0]
				if s.ghost["hit"] != nil && from.K == KOp && strings.HasPrefix(from.Op, "assert:") && from.A[0] == s.ghost["#hit"] {
					s.SetGhost("hitclone", ts.True)
					s.SetGhost("#hitclone", e.Res[0])
					return
				}
				if s.ghost["res"] != nil && from == s.ghost["#res"] {
					s.SetGhost("clone", ts.True)
					s.SetGhost("#clone", e.Res[0])
					if s.ghost["sent-res"] != nil {
						s.SetGhost("stale", ts.True)
					}
				}
			case aggT + "Result":
				s.SetGhost("res", ts.True)
				s.SetGhost("#res", e.Res[0])
			}
		case EvSend:
			if e.Args[0] != out {
				return
			}
			from := listOf(e.Args[1])
			if s.ghost["hit"] != nil {
				c.check("cache-use", e.Fn, e.Pos, s, s.ghost["hitclone"] != nil && from == s.ghost["#hitclone"] || s.ghost["res"] != nil && from == s.ghost["#res"], "cached results are handed out themselves and not as copies")
				return
			}
			for _, l := range []string{"clone", "res"} {
				if s.ghost[l] != nil && from == s.ghost["#"+l] {
					s.SetGhost("sent-"+l, ts.True)
					c.check("cache-use", e.Fn, e.Pos, s, s.ghost["cached-"+l] == nil, "results in the cache are handed out themselves and not as copies")
				}
			}
		}
	}
	c.run(x, fn, func(s *State, a []*Term) {
		query, out, cfg = a[1], a[2], a[4]
	})
}

// listOf: the list an element was read from
func listOf(t *Term) *Term {
	if t.K == KInit && t.A[0].K == KIAddr {
		return t.A[0].A[0]
	}
	return nil
}

func init() {
	register("C12", "The key of the cache of results covers the query key and every field of the config but the query id; the cache is used only when asked for; cached results are never shared with those handed out.",
		[]string{"cache-key", "cache-copy", "cache-use"}, func(c *Ctx) { c.cacheRules() })
}

const (
	multiFn   = dataT + "MultiAggregatedSearch"
	aggFn     = dataT + "AggregatedSearch"
	dStreamFn = dataT + "StreamSearch"
	srcStream = ifaceSrc + "StreamSearch"
)

// names: t is a string that differs whenever i does
func names(t, i *Term) bool {
	if t == i {
		return true
	}
	if t.K == KIface {
		return names(t.A[0], i)
	}
	if t.K != KOp && t.K != KSym {
		return false
	}
	switch {
	case t.Op == "+" || t.Op == "concat", strings.HasPrefix(t.Op, "conv"), strings.HasPrefix(t.Op, "call:fmt.Sprint"), strings.HasPrefix(t.Op, "call:strconv."), t.Op == "bytes2string":
		for _, a := range t.A {
			if names(a, i) {
				return true
			}
		}
	}
	return false
}

func walkTerm(t *Term, f func(*Term)) {
	f(t)
	for _, a := range t.A {
		walkTerm(a, f)
	}
}

func mentions(t, u *Term) bool {
	if t == u {
		return true
	}
	for _, a := range t.A {
		if mentions(a, u) {
			return true
		}
	}
	return false
}

// searchOpaque: calls a search function starts but that are judged on their own
func (c *Ctx) searchOpaque(fn *ssa.Function) func(f *ssa.Function) bool {
	keep := c.keepAgg()
	return func(f *ssa.Function) bool {
		n := f.RelString(nil)
		return keep(f) || n == dStreamFn || n == dataT+"InitData" || n == searchKeyFn || n == cloneFn || n == aggFn && f != fn || n == multiFn && f != fn
	}
}

func (x *Exec) searchModel(s *State, cc *CallCtx) ([]Exit, bool) {
	switch cc.name {
	case aggT + "Insert", dStreamFn, aggFn:
		x.pre(s, cc)
		return []Exit{x.post(s, cc, x.ts.Nil)}, true
	case aggT + "Result", cloneFn:
		x.pre(s, cc)
		return []Exit{x.post(s, cc, x.ts.Fresh("result", cc.sig.Results().At(0).Type(), cc.instr.Pos()))}, true
	}
	return nil, false
}

// queryIDs: a query with a known id is not searched again (C13)
func (c *Ctx) queryIDs() {
	fn := c.fn("node.(*Node).SearchStream")
	x := c.exec()
	ts := x.ts
	x.opaque = func(f *ssa.Function) bool {
		n := f.RelString(nil)
		return n == multiFn || n == dsetT+"GetNoCreate" || n == dsetT+"Get" || n == dsetT+"GetNoOp"
	}
	var n, req *Term
	nonEmpty := func(s *State, id *Term) bool {
		return strings.Contains(id.Op, "google/uuid") || id.K == KConst && id != ts.Str("") || x.holds(s, ts.Cmp(NE, id, ts.Str("")))
	}
	x.on = func(s *State, e *Event) {
		switch e.Kind {
		case EvRet:
			if strings.HasPrefix(e.Callee, "cache.") && e.Args[0] == x.field(s, n, "QueryUUIDCache") {
				switch e.Callee {
				case "cache.Add":
					if x.isNil(s, e.Res[0]) {
						s.SetGhost("registered", ts.True)
						s.SetGhost("#id", unIface(e.Args[1]))
						c.check("query-once", e.Fn, e.Pos, s, x.holds(s, ts.Cmp(GT|EQ, e.Args[3], ts.Zero)) || x.holds(s, ts.Cmp(EQ, e.Args[3], ts.Int(-1))), "a query id is not kept")
					} else {
						s.SetGhost("refused", ts.True)
					}
				case "cache.Get", "cache.GetWithExpiration", "cache.Items", "cache.ItemCount":
				case "cache.Delete":
					c.check("query-once", e.Fn, e.Pos, s, false, "a query id is forgotten while the query may still travel")
				default:
					c.check("query-once", e.Fn, e.Pos, s, false, "a query id is registered without noticing that it was known (%s)", e.Callee)
				}
			}
			if strings.HasPrefix(e.Callee, dsetT+"Get") {
				s.SetGhost("#data", e.Res[0])
				s.SetGhost("data", ts.True)
				cfg := x.field(s, req, "Config")
				c.check("query-whole", e.Fn, e.Pos, s, e.Args[1] == x.field(s, cfg, "DataName"), "the dataset searched is not the one named")
			}
		case EvCall:
			if e.Callee != multiFn {
				return
			}
			cfg := e.Args[2]
			id := x.field(s, cfg, "Uuid")
			reg := s.ghost["registered"] != nil && s.ghost["#id"] == id
			c.check("query-once", e.Fn, e.Pos, s, reg && s.ghost["searched"] == nil, "a search is done although its query id was not registered as new before")
			c.check("query-once", e.Fn, e.Pos, s, nonEmpty(s, id), "a query is forwarded without a query id")
			_, same := x.sameFields(s, cfg, x.field(s, req, "Config"), "Uuid")
			ok := same && e.Args[1] == x.field(s, req, "Datum") && e.Args[3] == x.field(s, req, "Context") && s.ghost["data"] != nil && e.Args[0] == s.ghost["#data"]
			c.check("query-whole", e.Fn, e.Pos, s, ok, "the search is not the one that was asked for")
			s.SetGhost("searched", ts.True)
		}
	}
	ex := c.run(x, fn, func(s *State, a []*Term) {
		n, req = a[0], a[1]
		x.assume(s, ts.Cmp(NE, req, ts.Nil), true)
	})
	for _, e := range ex {
		if x.isNil(e.s, e.res[0]) {
			c.check("query-once", fn, e.s.retPos(), e.s, e.s.ghost["searched"] != nil || e.s.ghost["refused"] != nil, "a query is answered without having been searched, although its id is new")
		}
	}
	// one search for every vector, each with its own id
	fn = c.fn("data.(*Data).MultiAggregatedSearch")
	x = c.exec()
	ts = x.ts
	x.opaque = c.searchOpaque(fn)
	var list, config *Term
	x.model = func(x *Exec, s *State, cc *CallCtx) ([]Exit, bool) { return x.searchModel(s, cc) }
	start := func(s *State, e *Event, i *Term) {
		a := e.Args
		ok := a[0] != nil && a[1] == x.elem(s, list, i)
		c.check("query-whole", e.Fn, e.Pos, s, ok, "the search started is not the one for the next vector")
		f, same := x.sameFields(s, a[4], config, "Uuid")
		c.check("query-whole", e.Fn, e.Pos, s, same, "a vector is searched with another config than asked for (%s)", f)
		id, base := x.field(s, a[4], "Uuid"), x.field(s, config, "Uuid")
		single := x.holds(s, ts.Cmp(LT|EQ, x.lenOf(s, list), ts.Int(1)))
		okID := mentions(id, base) && (single || id != base && names(id, i))
		c.check("query-ids", e.Fn, e.Pos, s, okID, "two vectors of one query may be searched under the same query id, so that peers refuse the second")
	}
	starts := func(f *ssa.Function) bool { return f != nil && f.RelString(nil) != aggFn && c.p.reachesFn(f, aggFn) }
	u := &unshared{c, x, "query-ids", "SearchConfig"}
	x.on = func(s *State, e *Event) {
		i := s.ghost["#i"]
		u.event(s, e, "the config of a vector whose search was already started is changed")
		if e.Kind == EvGo && (e.Callee == aggFn || starts(e.CFn)) {
			defer u.handOver(s)
		}
		switch {
		case e.Callee == aggFn && (e.Kind == EvGo || e.Kind == EvCall && s.thread == ""):
			start(s, e, i)
			s.SetGhost("#i", ts.AddK(i, 1))
		case e.Callee == aggFn && e.Kind == EvCall: // in the thread counted for it
			start(s, e, ts.AddK(i, -1))
			s.SetGhost("#i", ts.AddK(i, -1))
		case e.Kind == EvGo && starts(e.CFn):
			s.SetGhost("#i", ts.AddK(i, 1))
			s.SetGhost("#due", i)
		case e.Kind == EvThreadEnd && starts(e.CFn):
			c.check("query-whole", e.Fn, e.Pos, s, i == s.ghost["#due"], "a thread started to search a vector may end without having done that once")
		}
	}
	ex = c.run(x, fn, func(s *State, a []*Term) {
		list, config = a[1], a[2]
		s.SetGhost("#i", ts.Zero)
	})
	for _, e := range ex {
		c.check("query-whole", fn, e.s.retPos(), e.s, x.holds(e.s, ts.Cmp(GT|EQ, e.s.ghost["#i"], x.lenOf(e.s, list))), "not every vector of the query is searched")
	}
}

// forwarding: peers get the same query with less time; configs of callers are kept (C15)
func (c *Ctx) forwarding() {
	for _, name := range []string{"data.(*Data).AggregatedSearch", "data.(*Data).MultiAggregatedSearch", "data.(*Data).StreamSearch", "data.(*Data).Search", "data.(*Data).SearchAnnoy", "data.(*Aggregator).Insert", "data.(*Aggregator).Result", "node.(*DataSourceClient).StreamSearch"} {
		fn := c.fn(name)
		x := c.exec()
		ts := x.ts
		op := c.searchOpaque(fn)
		x.opaque = func(f *ssa.Function) bool {
			if f == fn {
				return false
			}
			n := f.RelString(nil)
			return op(f) || (n == dataT+"Search" || n == clientT+"SearchStream" || n == dataT+"SearchAnnoy" || n == collT+"Insert" || n == collT+"PassesFilters")
		}
		x.model = func(x *Exec, s *State, cc *CallCtx) ([]Exit, bool) { return x.searchModel(s, cc) }
		var query, config *Term
		agg := strings.HasSuffix(name, ").AggregatedSearch")
		asked := func(s *State, e *Event) {
			a := e.Args
			c.check("same-query", e.Fn, e.Pos, s, a[1] == query, "a peer or the local data is asked for another vector")
			f, same := x.sameFields(s, a[4], config, "Timeout")
			c.check("same-query", e.Fn, e.Pos, s, same, "a peer or the local data is asked with another %s", f)
			if e.Callee == srcStream {
				k, o, ok := linearIn(x.field(s, a[4], "Timeout"), x.field(s, config, "Timeout"))
				c.check("less-time", e.Fn, e.Pos, s, ok && k > 0 && k < 1 && o <= 0, "a peer is not given less time than the search itself has")
			}
		}
		x.on = func(s *State, e *Event) {
			switch e.Kind {
			case EvStore:
				r := e.Args[0]
				for r.K == KFAddr && r != config {
					r = r.A[0]
				}
				cfgRoot := config != nil && r == config
				if !cfgRoot && r.K == KInit && namedOf(r.T) == "SearchConfig" {
					cfgRoot = true
				}
				if e.Args[0].K == KFAddr && (cfgRoot || namedOf(r.T) == "SearchConfig") {
					c.check("config-kept", e.Fn, e.Pos, s, r.K == KAlloc, "the config of the caller, shared with other searches, is changed")
				}
			case EvCall:
				if agg && (e.Callee == dStreamFn || e.Callee == srcStream) {
					asked(s, e)
				}
				if e.Callee == clientT+"SearchStream" || strings.HasSuffix(e.Callee, "VeriServiceClient).SearchStream") {
					r := e.Args[2]
					l := x.field(s, r, "Datum")
					n, ok := constInt(x.lenOf(s, l))
					_, same := x.sameFields(s, x.field(s, r, "Config"), config)
					ok = ok && n == 1 && x.elem(s, l, ts.Zero) == query && same
					c.check("same-query", e.Fn, e.Pos, s, ok, "the request sent to a peer is not the query given")
				}
			case EvGo:
				if agg && (e.Callee == dStreamFn || e.Callee == srcStream) {
					asked(s, e)
				}
			}
		}
		c.run(x, fn, func(s *State, a []*Term) {
			for i, p := range fn.Params {
				switch namedOf(p.Type()) {
				case "Datum":
					query = a[i]
				case "SearchConfig":
					config = a[i]
				}
			}
		})
	}
}

func init() {
	register("C13", "A query is searched only after its non-empty id was registered as new; the search is the one asked for; each vector of a query is searched once under an id of its own.",
		[]string{"query-once", "query-whole", "query-ids"}, func(c *Ctx) { c.queryIDs() })
	register("C15", "Local data and peers are asked for the same query with the same config, peers with a shorter time-out; no search changes a config it was given.",
		[]string{"same-query", "less-time", "config-kept"}, func(c *Ctx) { c.forwarding() })
}
