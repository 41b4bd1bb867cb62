package main

// The life of a dataset: start, activity, closing, removal (C29).

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	closeFn  = dataT + "Close"
	activeFn = dataT + "CheckIfActive"
	infoSrc  = ifaceSrc + "GetDataInfo"
)

// storedWatch follows a pass over the stored data: "entry" when an unexpired
// entry was seen, "empty" when there is none
func (x *Exec) storedWatch(c *Ctx, s *State, e *Event) {
	ts := x.ts
	keepNow(c, s, e)
	switch e.Kind {
	case EvIter:
		if len(e.Args) < 3 || !isFAddr(e.Args[0], "Data", "DBMap") {
			return
		}
		if s.ghost["open"] != nil && s.ghost["gone"] == nil {
			s.SetGhost("entry", ts.True)
		}
		s.SetGhost("open", nil)
		s.SetGhost("gone", nil)
		if e.Ok {
			s.SetGhost("any", ts.True)
			s.SetGhost("open", ts.True)
			s.SetGhost("#cur", e.Args[2])
		} else if s.ghost["entry"] == nil && !e.Write {
			s.SetGhost("empty", ts.True)
		}
	case EvBranch:
		if s.ghost["open"] == nil || s.ghost["gone"] != nil {
			return
		}
		ent := entryOf(x, c.p, s.ghost["#cur"])
		if x.expired(s, x.field(s, ent, "ExprireAt")) || x.isNil(s, ent) || x.isNil(s, x.field(s, ent, "Datum")) || !storedIsEntry(x, s, s.ghost["#cur"]) {
			s.SetGhost("gone", ts.True)
		}
	}
}

// active: inactive only without data here and at the sources
func (c *Ctx) activity() {
	fn := c.fn("data.(*Data).CheckIfActive")
	x := c.exec()
	ts := x.ts
	var dt *Term
	x.opaque = func(f *ssa.Function) bool { return f != fn && exported(f) && fnPkg(f) == modPath+"/node" }
	settle := func(s *State, e *Event) {
		if s.ghost["asked"] != nil && s.ghost["has"] == nil {
			s.SetGhost("unknown", ts.True)
		}
		if s.ghost["has"] == ts.True {
			s.SetGhost("some", ts.True)
		}
		if s.ghost["due"] != nil && s.ghost["asked"] == nil {
			s.SetGhost("skipped", ts.True)
		}
		s.SetGhost("due", nil)
		s.SetGhost("asked", nil)
		s.SetGhost("has", nil)
	}
	x.on = func(s *State, e *Event) {
		x.storedWatch(c, s, e)
		switch e.Kind {
		case EvIter:
			if opIs(e.Args[0], "cacheItems") {
				settle(s, e)
				if e.Ok {
					s.SetGhost("due", ts.True)
					s.SetGhost("#item", e.Args[2])
				} else {
					s.SetGhost("all", ts.True)
				}
			}
		case EvRet:
			if e.Callee == infoSrc {
				s.SetGhost("asked", ts.True)
				s.SetGhost("has", nil)
				s.SetGhost("#info", e.Res[0])
			}
		case EvBranch:
			if x.noItems(s, x.field(s, dt, "Sources")) {
				s.SetGhost("nosource", ts.True)
			}
			if s.ghost["due"] != nil && s.ghost["asked"] == nil && x.otherType(s, s.ghost["#item"], "DataSource") {
				s.SetGhost("due", nil)
			}
			if i := s.ghost["#info"]; i != nil && s.ghost["asked"] != nil && s.ghost["has"] == nil {
				n := x.field(s, i, "N")
				if x.isNil(s, i) || x.holds(s, ts.Cmp(LT|EQ, n, ts.Zero)) {
					s.SetGhost("has", ts.False)
				} else if x.nonNil(s, i) && x.holds(s, ts.Cmp(GT, n, ts.Zero)) {
					s.SetGhost("has", ts.True)
				}
			}
		}
	}
	for _, e := range c.run(x, fn, func(s *State, a []*Term) { dt = a[0] }) {
		s := e.s
		src := x.field(s, dt, "Sources")
		switch x.truth(s, e.res[0]) {
		case ts.True:
			ok := s.ghost["any"] != nil && s.ghost["empty"] == nil || s.ghost["has"] == ts.True || s.ghost["some"] != nil
			c.check("active", fn, s.retPos(), s, ok, "a dataset without data here and at its sources stays active")
		case ts.False:
			c.check("active", fn, s.retPos(), s, s.ghost["empty"] != nil, "a dataset with data of its own is considered inactive")
			none := x.isNil(s, src) || s.ghost["all"] != nil || s.ghost["nosource"] != nil || x.noItems(s, src)
			c.check("active", fn, s.retPos(), s, none && s.ghost["skipped"] == nil && s.ghost["unknown"] == nil && s.ghost["has"] != ts.True && s.ghost["some"] == nil, "a dataset is considered inactive although a source may have data")
		default:
			c.check("active", fn, s.retPos(), s, false, "activity depends on something else than data")
		}
	}
}

// reload: exactly the inactive datasets are closed and removed
func (c *Ctx) reload() {
	fn := c.fn("data.(*Dataset).ReloadRuns")
	x := c.exec()
	ts := x.ts
	x.opaque = func(f *ssa.Function) bool {
		n := f.RelString(nil)
		return n == closeFn || n == activeFn || n == dataT+"Run" || f != fn && exported(f) && strings.HasPrefix(n, dsetT)
	}
	settle := func(s *State, e *Event) {
		if s.ghost["due"] != nil {
			ok := s.ghost["other"] != nil || s.ghost["act"] == ts.True && s.ghost["run"] != nil && s.ghost["closed"] == nil || s.ghost["act"] == ts.False && s.ghost["closed"] != nil && s.ghost["listed"] != nil && s.ghost["run"] == nil
			c.check("reload", e.Fn, e.Pos, s, ok, "a dataset is neither kept running because it is active nor closed and removed because it is not")
		}
		for _, g := range []string{"due", "act", "run", "closed", "listed", "other"} {
			s.SetGhost(g, nil)
		}
	}
	cur := func(s *State, d *Term) bool {
		return s.ghost["due"] != nil && s.ghost["#item"] != nil && d != nil && mentions(d, s.ghost["#item"]) || x.isCurData(s, d)
	}
	x.model = func(x *Exec, s *State, cc *CallCtx) ([]Exit, bool) {
		if cc.name == "sync/atomic.LoadInt32" && isFAddr(cc.args[0], "Data", "Runs") {
			x.pre(s, cc)
			f := s.Fork()
			if cur(s, cc.args[0].A[0]) { // a processor of it is known to run
				s.SetGhost("run", ts.True)
			}
			return []Exit{x.post(s, cc, ts.Int(1)), x.post(f, cc, ts.Zero)}, true
		}
		if cc.name != activeFn {
			return nil, false
		}
		x.pre(s, cc)
		f := s.Fork()
		if cur(s, cc.args[0]) {
			s.SetGhost("act", ts.True)
			f.SetGhost("act", ts.False)
		}
		return []Exit{x.post(s, cc, ts.True), x.post(f, cc, ts.False)}, true
	}
	x.on = func(s *State, e *Event) {
		switch e.Kind {
		case EvIter:
			if !opIs(e.Args[0], "cacheItems") {
				return
			}
			settle(s, e)
			if e.Ok {
				s.SetGhost("due", ts.True)
				s.SetGhost("#key", e.Args[1])
				s.SetGhost("#item", e.Args[2])
			} else {
				s.SetGhost("all", ts.True)
				if l := s.ghost["#list"]; l != nil {
					s.SetGhost("#at", ts.AddK(x.lenOf(s, l), -1))
				}
			}
		case EvBranch:
			if s.ghost["due"] != nil && s.ghost["act"] == nil {
				if x.otherType(s, s.ghost["#item"], "") {
					s.SetGhost("other", ts.True)
				}
			}
		case EvAppend:
			if k := s.ghost["#key"]; k != nil && s.ghost["due"] != nil && (mentions(e.Args[1], k) || len(e.Res) > 0 && mentions(e.Res[0], k)) {
				c.check("reload", e.Fn, e.Pos, s, s.ghost["act"] == ts.False, "a dataset is to be removed that may be active")
				s.SetGhost("listed", ts.True)
				s.SetGhost("some", ts.True)
				s.SetGhost("#list", e.Res[0])
			}
		case EvGo:
			if e.Callee == dataT+"Run" {
				c.check("reload", e.Fn, e.Pos, s, s.ghost["act"] == ts.True && cur(s, e.Args[0]), "a dataset is started that may not be active")
				s.SetGhost("run", ts.True)
			} else if c.starts(e.CFn, dataT+"Run") {
				s.SetGhost("run", ts.True)
				s.SetGhost("runs", nil)
			}
			c.check("reload", e.Fn, e.Pos, s, e.Callee != closeFn, "a dataset is removed before it was closed")
		case EvThreadEnd:
			if c.starts(e.CFn, dataT+"Run") {
				c.check("reload", e.Fn, e.Pos, s, s.ghost["runs"] != nil, "a dataset that is active is not started")
			}
		case EvCall:
			switch e.Callee {
			case dataT + "Run":
				c.check("reload", e.Fn, e.Pos, s, s.thread != "", "the processor of a dataset is waited for")
				c.check("reload", e.Fn, e.Pos, s, s.ghost["act"] == ts.True && cur(s, e.Args[0]), "a dataset is started that may not be active")
				s.SetGhost("runs", ts.True)
			case closeFn:
				c.check("reload", e.Fn, e.Pos, s, s.thread == "" && s.ghost["act"] == ts.False && cur(s, e.Args[0]), "a dataset is closed that may be active")
				s.SetGhost("closed", ts.True)
			case "cache.Delete":
				if s.ghost["due"] != nil && e.Args[1] == s.ghost["#key"] {
					c.check("reload", e.Fn, e.Pos, s, s.ghost["act"] == ts.False && s.ghost["closed"] != nil, "a dataset is removed that may be active or was not closed")
					s.SetGhost("listed", ts.True)
					return
				}
				if i := s.ghost["#at"]; i != nil && s.ghost["all"] != nil && mentions(e.Args[1], i) { // from the end
					s.SetGhost("#at", ts.AddK(i, -1))
					return
				}
				i := s.ghost["#done"]
				c.check("reload", e.Fn, e.Pos, s, s.ghost["all"] != nil && mentions(e.Args[1], i), "something else is removed than the inactive datasets")
				s.SetGhost("#done", ts.AddK(i, 1))
			case "cache.Flush", "cache.DeleteExpired":
				c.check("reload", e.Fn, e.Pos, s, false, "something else is removed than the inactive datasets")
			}
		}
	}
	for _, e := range c.run(x, fn, func(s *State, a []*Term) {
		s.SetGhost("#done", ts.Zero)
	}) {
		settle(e.s, &Event{Fn: fn, Pos: e.s.retPos()})
		c.check("reload", fn, e.s.retPos(), e.s, e.s.ghost["all"] != nil, "not all datasets are looked at")
		l := e.s.ghost["#list"]
		c.check("reload", fn, e.s.retPos(), e.s, l == nil || x.holds(e.s, ts.Cmp(GT|EQ, e.s.ghost["#done"], x.lenOf(e.s, l))) || e.s.ghost["#at"] != nil && x.holds(e.s, ts.Cmp(LT, e.s.ghost["#at"], ts.Zero)), "not all inactive datasets are removed")
	}
}

// starts: a function that runs another one somewhere
func (c *Ctx) starts(f *ssa.Function, name string) bool {
	return f != nil && f.RelString(nil) != name && c.p.reachesFn(f, name)
}

// closing: not alive first, then handing over with a limit, then removal
func (c *Ctx) closing() {
	fn := c.fn("data.(*Data).Close")
	x := c.exec()
	ts := x.ts
	process := dataT + "Process"
	x.opaque = func(f *ssa.Function) bool {
		n := f.RelString(nil)
		return n == process || n == dataT+"DeletePath"
	}
	var dt *Term
	x.on = func(s *State, e *Event) {
		x.storedWatch(c, s, e)
		switch e.Kind {
		case EvIter:
			if len(e.Args) > 2 && isFAddr(e.Args[0], "Data", "DBMap") && !e.Ok {
				s.SetGhost("left", ts.Bool(s.ghost["empty"] == nil))
				s.SetGhost("any", nil)
				s.SetGhost("entry", nil)
				s.SetGhost("empty", nil)
			}
		case EvStore:
			if isFAddr(e.Args[0], "Data", "Alive") && e.Args[0].A[0] == dt {
				c.check("close", e.Fn, e.Pos, s, e.Args[1] == ts.False, "closing a dataset makes it alive")
				s.SetGhost("dead", ts.True)
			}
		case EvRet:
			switch e.Callee {
			case "time.Now":
				s.SetGhost("#now", e.Res[0])
			case "(time.Time).Before", "(time.Time).After", "time.Since", "(time.Time).Sub":
				// the time the limit is counted from stays the same
				for i, a := range e.Args {
					if len(e.Args) > 1 && (e.Args[1-i] != s.ghost["#now"] || a == s.ghost["#now"]) {
						continue
					}
					if s.ghost["handed"] == nil {
						s.SetGhost("#from", a)
					} else {
						c.check("close", e.Fn, e.Pos, s, a == s.ghost["#from"], "the time limit of handing over moves")
					}
				}
			}
			switch e.Callee {
			case "(time.Time).Before", "(time.Time).After":
				s.SetGhost("#clock", e.Res[0])
				s.SetGhost("sense", ts.Bool(strings.HasSuffix(e.Callee, "Before") == callIs(e.Args[0], "time.Now")))
				s.SetGhost("time", nil)
			case "time.Since", "(time.Time).Sub":
				s.SetGhost("#since", e.Res[0])
				s.SetGhost("time", nil)
			}
		case EvBranch:
			if x.noItems(s, x.field(s, dt, "Sources")) {
				s.SetGhost("nosource", ts.True)
			}
			if v := s.ghost["#clock"]; v != nil && s.ghost["time"] == nil {
				if t := x.truth(s, v); t != nil {
					s.SetGhost("time", ts.Bool(t == s.ghost["sense"]))
				}
			}
			if v := s.ghost["#since"]; v != nil && s.ghost["time"] == nil {
				if k, ok := s.f.diffBound(v, ts.Zero); ok && k < 3600e9 {
					s.SetGhost("time", ts.True)
				} else if k, ok := s.f.diffBound(ts.Zero, v); ok && k < 0 && k > -3600e9 {
					s.SetGhost("time", ts.False)
				}
			}
		case EvCall:
			switch e.Callee {
			case process:
				c.check("close", e.Fn, e.Pos, s, s.ghost["dead"] != nil && e.Args[0] == dt, "data is handed over while the dataset still counts as alive")
				c.check("close", e.Fn, e.Pos, s, e.Args[1] == ts.True, "handing over is not enforced")
				c.check("close", e.Fn, e.Pos, s, s.ghost["time"] == ts.True, "handing over may go on forever")
				s.SetGhost("handed", ts.True)
				s.SetGhost("time", nil)
				s.SetGhost("#clock", nil)
				s.SetGhost("#since", nil)
				s.SetGhost("left", nil)
			case dataT + "DeletePath":
				s.SetGhost("removed", ts.True)
			}
		case EvGo:
			c.check("close", e.Fn, e.Pos, s, e.Callee != process, "closing does not wait for data to be handed over")
		}
	}
	for _, e := range c.run(x, fn, func(s *State, a []*Term) { dt = a[0] }) {
		s := e.s
		c.check("close", fn, s.retPos(), s, s.ghost["dead"] != nil, "a closed dataset stays alive")
		src := x.field(s, dt, "Sources")
		none := x.isNil(s, src) || s.ghost["nosource"] != nil || x.noItems(s, src)
		c.check("close", fn, s.retPos(), s, none || s.ghost["left"] == ts.False || s.ghost["time"] == ts.False, "closing ends before everything is handed over and before the time is up")
	}
}

// noItems: a cache without items
func (x *Exec) noItems(s *State, cache *Term) bool {
	for _, it := range s.f.items() {
		for _, t := range []*Term{it.a, it.b} {
			if opIs(t, "cacheItemCount") && t.A[0] == cache && x.holds(s, x.ts.Cmp(LT|EQ, t, x.ts.Zero)) {
				return true
			}
			if t != nil && opIs(t, "len") && opIs(t.A[0], "cacheItems") && len(t.A[0].A) > 0 && t.A[0].A[0] == cache && x.holds(s, x.ts.Cmp(LT|EQ, t, x.ts.Zero)) {
				return true
			}
		}
	}
	return false
}

// starting: once, under the lock, and completely before the processor runs
func (c *Ctx) starting() {
	fn := c.fn("data.(*Data).InitData")
	x := c.exec()
	ts := x.ts
	x.opaque = func(f *ssa.Function) bool { return f.RelString(nil) == dataT+"Run" }
	var dt *Term
	x.model = func(x *Exec, s *State, cc *CallCtx) ([]Exit, bool) {
		if cc.name != "(*sync.Once).Do" || cc.args[0].K != KFAddr || cc.args[0].A[0] != dt || !s.locked(dt) {
			return nil, false
		}
		// done once means initialised
		f := s.Fork()
		f.SetGhost("init", ts.True)
		x.assume(f, x.field(f, dt, "Initialized"), true)
		s.SetGhost("init", ts.False)
		x.assume(s, x.field(s, dt, "Initialized"), false)
		out := []Exit{{f, nil}}
		for _, e := range x.callFn(s, cc, cc.args[1], nil) {
			out = append(out, Exit{e.s, nil})
		}
		return out, true
	}
	x.on = func(s *State, e *Event) {
		switch e.Kind {
		case EvLoad:
			if isFAddr(e.Args[0], "Data", "Initialized") {
				s.SetGhost("#init", e.Res[0])
				s.SetGhost("init", x.truth(s, e.Res[0]))
				if !s.locked(dt) {
					s.SetGhost("#init", nil)
				}
			}
		case EvUnlock:
			s.SetGhost("#init", nil)
			if s.ghost["init"] == ts.False && s.ghost["set:Initialized"] == nil {
				s.SetGhost("init", nil)
			}
		case EvBranch:
			if v := s.ghost["#init"]; v != nil && s.ghost["init"] == nil {
				s.SetGhost("init", x.truth(s, v))
			}
		case EvStore:
			a := e.Args[0]
			if a.K != KFAddr || a.A[0] != dt {
				return
			}
			switch a.Op {
			case "Sources", "QueryCache":
				c.check("start", e.Fn, e.Pos, s, s.locked(dt) && s.ghost["init"] == ts.False, "the sources or cached results of a dataset in use are dropped")
				c.check("start", e.Fn, e.Pos, s, x.nonNil(s, e.Args[1]), "the dataset is started without %s", a.Op)
				s.SetGhost("set:"+a.Op, ts.True)
			case "Alive", "Initialized":
				c.check("start", e.Fn, e.Pos, s, s.locked(dt) && s.ghost["init"] == ts.False && e.Args[1] == ts.True, "the state of a dataset in use is changed")
				s.SetGhost("set:"+a.Op, ts.True)
			}
		case EvGo, EvCall:
			if e.Callee == dataT+"Run" {
				ok := (e.Kind == EvGo || s.thread != "") && e.Args[0] == dt
				for _, f := range []string{"Sources", "QueryCache", "Alive"} {
					ok = ok && s.ghost["set:"+f] != nil
				}
				c.check("start", e.Fn, e.Pos, s, ok, "the processor is started before the dataset is complete")
				s.SetGhost("run", ts.True)
				s.SetGhost("runs", ts.True)
			} else if e.Kind == EvGo && c.starts(e.CFn, dataT+"Run") {
				s.SetGhost("run", ts.True)
				s.SetGhost("runs", nil)
			}
		case EvThreadEnd:
			if c.starts(e.CFn, dataT+"Run") {
				c.check("start", e.Fn, e.Pos, s, s.ghost["runs"] != nil, "the dataset is not started")
			}
		}
	}
	for _, e := range c.run(x, fn, func(s *State, a []*Term) { dt = a[0] }) {
		s := e.s
		if !x.isNil(s, e.res[0]) {
			continue
		}
		ok := s.ghost["init"] == ts.True && s.ghost["run"] == nil || s.ghost["run"] != nil && s.ghost["set:Initialized"] != nil
		c.check("start", fn, s.retPos(), s, ok, "the dataset is not started, or started again")
	}
	// who brings a dataset to life or ends it
	init, closeF := fn, c.fn("data.(*Data).Close")
	for _, fn := range c.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || namedOf(fa.X.Type()) != "Data" || fieldName(fa) != "Alive" && fieldName(fa) != "Initialized" {
					continue
				}
				ok = false
				for _, r := range []*ssa.Function{init, closeF} {
					ok = ok || fn == r || fn.Parent() == r || c.onlyFrom(fn, r, map[*ssa.Function]bool{})
				}
				c.check("start", fn, in.Pos(), nil, ok, "a dataset is brought to life or ended by somebody else")
			}
		}
	}
	// sources
	fn = c.fn("data.(*Data).AddSource")
	x = c.exec()
	ts = x.ts
	x.opaque = func(f *ssa.Function) bool { return f == init }
	var src *Term
	x.on = func(s *State, e *Event) {
		if e.Kind == EvRet && e.Callee == ifaceSrc+"GetID" && e.Args[0] == src {
			s.SetGhost("#id", e.Res[0])
		}
		if strings.HasPrefix(e.Callee, "cache.") && e.Kind == EvCall && e.Callee != "cache.Get" && e.Callee != "cache.Items" {
			ok := e.Callee == "cache.Add" || e.Callee == "cache.Set" || e.Callee == "cache.SetDefault"
			ok = ok && s.ghost["#id"] != nil && e.Args[1] == s.ghost["#id"] && (e.Args[2] == src || unIface(e.Args[2]) == src)
			c.check("source", e.Fn, e.Pos, s, ok, "what is added is not the source given, under its own id")
			if e.Callee != "cache.Add" {
				s.SetGhost("added", ts.True)
			}
		}
		if e.Kind == EvRet && e.Callee == "cache.Add" {
			if x.isNil(s, e.Res[0]) {
				s.SetGhost("added", ts.True)
			} else {
				s.SetGhost("known", ts.True)
			}
		}
	}
	for _, e := range c.run(x, fn, func(s *State, a []*Term) { src = a[1] }) {
		s := e.s
		c.check("source", fn, s.retPos(), s, x.nonNil(s, e.res[0]) || s.ghost["added"] != nil || s.ghost["known"] != nil, "success is reported although the source was not added")
	}
}

// removing: a dataset is closed before it is forgotten
func (c *Ctx) removing() {
	opaque := func(f *ssa.Function) bool {
		n := f.RelString(nil)
		return n == closeFn || strings.HasPrefix(n, dsetT+"Save") || isGetter(n)
	}
	fn := c.fn("data.(*Dataset).Delete")
	x := c.exec()
	ts := x.ts
	x.opaque = opaque
	var name *Term
	x.on = func(s *State, e *Event) {
		switch e.Kind {
		case EvRet:
			if (e.Callee == "cache.Get" || isGetter(e.Callee)) && e.Args[1] == name {
				s.SetGhost("#data", e.Res[0])
				if len(e.Res) > 1 && e.Res[1] == ts.False {
					s.SetGhost("missing", ts.True)
				}
			}
		case EvBranch:
			if d := s.ghost["#data"]; d != nil {
				for _, it := range s.f.items() {
					for _, t := range []*Term{it.a, it.b} {
						if t != nil && t.K == KOp && strings.HasPrefix(t.Op, "istype:") && mentions(t, d) && x.holds(s, ts.Not(t)) {
							s.SetGhost("other", ts.True)
						}
					}
				}
			}
		case EvCall:
			switch e.Callee {
			case closeFn:
				c.check("remove", e.Fn, e.Pos, s, s.ghost["#data"] != nil && unassert(e.Args[0]) == s.ghost["#data"] && s.thread == "", "another dataset is closed than the one to be deleted")
				s.SetGhost("closed", ts.True)
			case "cache.Delete":
				c.check("remove", e.Fn, e.Pos, s, e.Args[1] == name && (s.ghost["closed"] != nil || s.ghost["other"] != nil), "a dataset is removed that was not closed or is not the one to be deleted")
				s.SetGhost("deleted", ts.True)
			case "cache.Flush":
				c.check("remove", e.Fn, e.Pos, s, false, "all datasets are removed")
			}
		}
	}
	for _, e := range c.run(x, fn, func(s *State, a []*Term) { name = a[1] }) {
		s := e.s
		c.check("remove", fn, s.retPos(), s, x.nonNil(s, e.res[0]) || s.ghost["deleted"] != nil, "success is reported although nothing was deleted")
	}
	// closing all
	fn = c.fn("data.(*Dataset).Close")
	x = c.exec()
	ts = x.ts
	x.opaque = opaque
	x.model = c.failing(func(cc *CallCtx) bool { return isGetter(cc.name) })
	settle := func(s *State, e *Event) {
		if s.ghost["due"] != nil {
			c.check("remove", e.Fn, e.Pos, s, s.ghost["closed"] != nil || s.ghost["failed"] != nil || s.ghost["other"] != nil, "a dataset is not closed")
		}
		for _, g := range []string{"due", "closed", "failed", "other", "#data"} {
			s.SetGhost(g, nil)
		}
	}
	x.on = func(s *State, e *Event) {
		switch e.Kind {
		case EvIter:
			if opIs(e.Args[0], "cacheItems") {
				settle(s, e)
				if e.Ok {
					s.SetGhost("due", ts.True)
					s.SetGhost("#key", e.Args[1])
					s.SetGhost("#item", e.Args[2])
				} else {
					s.SetGhost("all", ts.True)
				}
			}
		case EvRet:
			if isGetter(e.Callee) && e.Args[1] == s.ghost["#key"] && s.ghost["failed"] == nil {
				s.SetGhost("#data", e.Res[0])
			}
		case EvBranch:
			if i := s.ghost["#item"]; i != nil && s.ghost["due"] != nil {
				for _, it := range s.f.items() {
					for _, t := range []*Term{it.a, it.b} {
						if t != nil && t.K == KOp && strings.HasPrefix(t.Op, "istype:") && mentions(t, i) && x.holds(s, ts.Not(t)) {
							s.SetGhost("other", ts.True)
						}
					}
				}
			}
		case EvCall, EvGo:
			if e.Callee == closeFn {
				c.check("remove", e.Fn, e.Pos, s, e.Kind == EvCall && s.thread == "" && x.isCurData(s, e.Args[0]), "closing all datasets does not wait for each of them to be closed")
				s.SetGhost("closed", ts.True)
			}
		}
	}
	for _, e := range c.run(x, fn, nil) {
		settle(e.s, &Event{Fn: fn, Pos: e.s.retPos()})
		c.check("remove", fn, e.s.retPos(), e.s, e.s.ghost["all"] != nil, "not all datasets are closed")
	}
	// expiry
	fn = c.fn("data.NewDataset")
	x = c.exec()
	ts = x.ts
	x.opaque = func(f *ssa.Function) bool { return f != fn && exported(f) }
	x.on = func(s *State, e *Event) {
		if e.Kind == EvCall && strings.HasSuffix(e.Callee, "go-cache.New") {
			c.check("remove", e.Fn, e.Pos, s, len(e.Args) < 2 || x.holds(s, ts.Cmp(GT, e.Args[1], ts.Zero)), "expired datasets are never looked for, and so not closed")
		}
		if e.Kind == EvCall && e.Callee == "cache.OnEvicted" {
			f := e.Args[1]
			ok := (f.K == KFunc || f.K == KClosure) && f.Fn != nil && c.evictCloses(f.Fn)
			c.check("remove", e.Fn, e.Pos, s, ok, "a dataset that expires is not closed")
			s.SetGhost("hook", ts.True)
		}
	}
	for _, e := range c.run(x, fn, nil) {
		c.check("remove", fn, e.s.retPos(), e.s, e.s.ghost["hook"] != nil, "a dataset that expires is not closed")
	}
}

func (c *Ctx) evictCloses(f *ssa.Function) bool {
	y := c.exec()
	ts := y.ts
	y.opaque = func(g *ssa.Function) bool { return g.RelString(nil) == closeFn }
	var v *Term
	ok := true
	y.on = func(s *State, e *Event) {
		if (e.Kind == EvCall || e.Kind == EvGo) && e.Callee == closeFn && v != nil && unassert(e.Args[0]) == v {
			s.SetGhost("closed", ts.True)
		}
		if e.Kind == EvBranch && v != nil {
			for _, it := range s.f.items() {
				for _, t := range []*Term{it.a, it.b} {
					if t != nil && t.K == KOp && strings.HasPrefix(t.Op, "istype:") && mentions(t, v) && y.holds(s, ts.Not(t)) {
						s.SetGhost("other", ts.True)
					}
				}
			}
		}
	}
	for _, e := range c.run(y, f, func(s *State, a []*Term) { v = a[len(a)-1] }) {
		if e.s.ghost["closed"] == nil && e.s.ghost["other"] == nil {
			ok = false
		}
	}
	return ok
}

func init() {
	register("C29", "A dataset is started once and completely, is removed only when inactive, deleted or expired, and is closed before, handing over what it holds.",
		[]string{"active", "reload", "close", "start", "source", "remove"}, func(c *Ctx) {
			c.activity()
			c.reload()
			c.maintained("reload")
			c.closing()
			c.starting()
			c.removing()
			c.sourceIDs()
		})
}

// otherType: a checked type assertion (to a type named typ) on something of
// item has failed
func (x *Exec) otherType(s *State, item *Term, typ string) bool {
	for _, it := range s.f.items() {
		for _, t := range []*Term{it.a, it.b} {
			if item != nil && t != nil && t.K == KOp && strings.HasPrefix(t.Op, "istype:") && strings.HasSuffix(t.Op, typ) && mentions(t, item) && x.holds(s, x.ts.Not(t)) {
				return true
			}
		}
	}
	return false
}

// periodic: a node does its periodic work at every tick, as long as it is not
// told to stop
func (c *Ctx) periodic(rule string) {
	task := nodeT + "Periodic"
	fn := c.fn("node.NewNode")
	x := c.exec()
	ts := x.ts
	x.opaque = func(f *ssa.Function) bool {
		return f != fn && (f.RelString(nil) == task || exported(f) && !c.starts(f, task))
	}
	seen := false
	tick := func(s *State, e *Event) {
		c.check(rule, e.Fn, e.Pos, s, s.ghost["due"] == nil, "a tick goes by without the periodic work")
		s.SetGhost("due", ts.True)
		s.SetGhost("last", ts.True)
	}
	x.on = func(s *State, e *Event) {
		if s.thread == "" {
			return
		}
		switch e.Kind {
		case EvRecv:
			if ch, ok := e.Args[0].T.(*types.Chan); ok && namedOf(ch.Elem()) == "Time" {
				if e.Ok {
					tick(s, e)
				}
			} else {
				s.SetGhost("last", nil)
			}
		case EvRet:
			if e.Callee == "time.Sleep" {
				tick(s, e)
			}
		case EvCall, EvGo:
			if e.Callee == task || e.Kind == EvGo && c.starts(e.CFn, task) {
				seen = seen || s.ghost["due"] != nil
				s.SetGhost("due", nil)
			}
		case EvThreadEnd:
			if c.starts(e.CFn, task) {
				c.check(rule, e.Fn, e.Pos, s, s.ghost["last"] == nil, "the periodic work ends by itself")
			}
		}
	}
	for _, e := range c.run(x, fn, nil) {
		c.check(rule, fn, e.s.retPos(), e.s, seen, "a node does no periodic work")
	}
}

// maintained: maintenance of the datasets is part of the periodic work
func (c *Ctx) maintained(rule string) {
	c.periodic(rule)
	fn := c.fn("node.(*Node).Periodic")
	what := dsetT + "ReloadRuns"
	y := c.exec()
	ts := y.ts
	y.opaque = func(f *ssa.Function) bool {
		n := f.RelString(nil)
		return f != fn && (strings.HasPrefix(n, dsetT) || strings.HasPrefix(n, dataT) || strings.HasPrefix(n, nodeT))
	}
	y.on = func(s *State, e *Event) {
		if e.Kind == EvCall && e.Callee == what && s.thread != "" {
			s.SetGhost("thread-did", ts.True)
		}
		if (e.Kind == EvCall || e.Kind == EvGo) && e.Callee == what && s.thread == "" || e.Kind == EvGo && c.starts(e.CFn, what) {
			s.SetGhost("did", ts.True)
			s.SetGhost("thread-did", nil)
		}
		if e.Kind == EvThreadEnd && c.starts(e.CFn, what) {
			c.check(rule, e.Fn, e.Pos, s, s.ghost["thread-did"] != nil, "the datasets are not maintained periodically")
		}
	}
	for _, e := range c.run(y, fn, nil) {
		c.check(rule, fn, e.s.retPos(), e.s, e.s.ghost["did"] != nil, "the datasets are not maintained periodically")
	}
}

// sourceIDs: the id of a source that is a peer tells it from other peers
func (c *Ctx) sourceIDs() {
	fn := c.fn("node.(*DataSourceClient).GetID")
	x := c.exec()
	read := map[string]bool{}
	x.on = func(s *State, e *Event) {
		if e.Kind == EvLoad && isFAddr(e.Args[0], "DataSourceClient", e.Args[0].Op) {
			read[e.Args[0].Op] = true
		}
	}
	c.run(x, fn, nil)
	fn = c.fn("node.GetDataSourceClient")
	x = c.exec()
	var name *Term
	for _, e := range c.run(x, fn, func(s *State, a []*Term) { name = a[1] }) {
		s := e.s
		p := unIface(e.res[0])
		all := true
		for f := range read {
			t := x.field(s, p, f)
			if t != nil && t.T != nil {
				if _, ok := t.T.Underlying().(*types.Slice); ok {
					t = x.elem(s, t, x.ts.Zero)
				}
			}
			all = all && t != nil && (t == name || t.K == KConst || t == x.ts.Nil)
		}
		c.check("source", fn, s.retPos(), s, !all, "all peers get the same id as a source")
	}
}
