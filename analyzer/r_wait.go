package main

// Waiting for the searches of a query (C14).

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const wgT = "(*sync.WaitGroup)."

// wgDelta: how much a call changes a wait group
func (x *Exec) wgDelta(e *Event) (*Term, bool) {
	switch e.Callee {
	case wgT + "Done":
		return x.ts.Int(-1), true
	case wgT + "Add":
		return e.Args[1], true
	}
	return nil, false
}

func isStart(n string) bool { return n == dStreamFn || n == srcStream || n == aggFn }

// signals: a search given a wait group signals it once, after its last result
func (c *Ctx) signals(name string) {
	fn := c.fn(name)
	x := c.exec()
	ts := x.ts
	op := c.searchOpaque(fn)
	x.opaque = func(f *ssa.Function) bool {
		if f == fn {
			return false
		}
		n := f.RelString(nil)
		return op(f) || n == dataT+"Search" || n == dataT+"SearchAnnoy" || n == dataT+"RunOnRandomSources"
	}
	x.model = func(x *Exec, s *State, cc *CallCtx) ([]Exit, bool) { return x.searchModel(s, cc) }
	var wg, out *Term
	x.on = func(s *State, e *Event) {
		switch e.Kind {
		case EvRet:
			if d, ok := x.wgDelta(e); ok && e.Args[0] == wg {
				if c.check("signal-once", e.Fn, e.Pos, s, d == ts.Int(-1) && s.ghost["done"] == nil && s.thread == "", "a search may signal its end more than once") {
					s.SetGhost("done", ts.True)
				}
			}
		case EvSend:
			if e.Args[0] == out {
				c.check("signal-once", e.Fn, e.Pos, s, s.ghost["done"] == nil, "a result is sent after the search signalled its end: the stream may be closed by then")
				c.check("signal-once", e.Fn, e.Pos, s, s.thread == "", "a result is sent by a thread that is not waited for")
			}
		case EvGo, EvCall:
			if e.Kind == EvCall && !strings.HasPrefix(e.Callee, "dynamic") {
				return
			}
			for _, a := range e.Args {
				if e.Kind == EvGo && (isStart(e.Callee) || e.CFn == nil) && (a == wg || a == out) {
					c.check("signal-once", e.Fn, e.Pos, s, false, "the wait group or the stream of a search is handed to another search")
				}
			}
		}
	}
	ex := c.run(x, fn, func(s *State, a []*Term) {
		for i, p := range fn.Params {
			switch {
			case namedOf(p.Type()) == "WaitGroup":
				wg = a[i]
			case isChan(p.Type()):
				out = a[i]
			}
		}
	})
	if wg == nil || out == nil {
		c.giveUp("%s has no wait group or stream", name)
	}
	for _, e := range ex {
		ok := e.s.ghost["done"] != nil || x.isNil(e.s, wg)
		c.check("signal-once", fn, e.s.retPos(), e.s, ok, "a search may end without signalling its end: whoever waits for it waits forever")
	}
}

func isChan(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok }

// waits: all searches started are waited for, and the stream is closed only
// after they ended; somebody receives until then
func (c *Ctx) waits(name string) {
	fn := c.fn(name)
	x := c.exec()
	ts := x.ts
	x.opaque = c.searchOpaque(fn)
	x.model = func(x *Exec, s *State, cc *CallCtx) ([]Exit, bool) { return x.searchModel(s, cc) }
	// what the thread that waits does afterwards
	told := map[*Term]bool{}     // channels that tell that all searches ended
	untold := map[*Term]string{} // channels also used otherwise
	badDrain := map[ssa.Instruction]string{}
	goodDrain := map[ssa.Instruction]bool{}
	var upper *Term
	mine := func(t *Term) bool { return t != nil && t != ts.Nil && t != upper && namedOf(t.T) == "WaitGroup" }
	stream := func(t *Term) bool {
		ch, ok := t.T.Underlying().(*types.Chan)
		return ok && t.K == KAlloc && namedOf(ch.Elem()) == "ScoredDatum"
	}
	wgArg := func(e *Event) *Term {
		for _, a := range e.Args {
			if mine(a) {
				return a
			}
		}
		return nil
	}
	starts := func(f *ssa.Function) bool {
		if f == nil || isStart(f.RelString(nil)) {
			return false
		}
		return c.p.path(f, func(g *ssa.Function) bool {
			n := g.RelString(nil)
			return n == aggFn || n == dStreamFn || strings.HasSuffix(n, ").StreamSearch")
		}, nil) != nil
	}
	n := func(s *State, g string) *Term {
		if t := s.ghost[g]; t != nil {
			return t
		}
		return ts.Zero
	}
	start := func(s *State, e *Event, w *Term) {
		added, started := n(s, "#added"), n(s, "#started")
		c.check("wait-all", e.Fn, e.Pos, s, s.ghost["waiting"] == nil, "a search is started after the wait for all searches began")
		c.check("wait-all", e.Fn, e.Pos, s, x.holds(s, ts.Cmp(GT, added, started)), "a search is started without having been added to those waited for")
		s.SetGhost("#started", ts.AddK(started, 1))
	}
	x.on = func(s *State, e *Event) {
		inThread := s.thread != ""
		switch e.Kind {
		case EvGo:
			s.SetGhost("due", nil)
			switch {
			case isStart(e.Callee):
				if w := wgArg(e); c.check("wait-all", e.Fn, e.Pos, s, w != nil, "a search is started that nobody waits for") {
					start(s, e, w)
				}
			case starts(e.CFn):
				start(s, e, nil)
				s.SetGhost("due", ts.True)
			case c.waiter(e.CFn):
				s.SetGhost("waiting", ts.True)
				full := x.holds(s, ts.Cmp(LT|EQ, n(s, "#added"), n(s, "#started")))
				c.check("wait-all", e.Fn, e.Pos, s, full, "more searches are waited for than were started: the wait never ends")
			default:
				if e.CFn != nil {
					s.SetGhost("drainer", ts.OpT("go", nil, ts.Int(int64(e.Pos))))
				}
			}
		case EvCall:
			if isStart(e.Callee) && wgArg(e) != nil {
				if !inThread {
					c.check("wait-all", e.Fn, e.Pos, s, false, "a search is run before anybody receives its results")
					return
				}
				c.check("wait-all", e.Fn, e.Pos, s, s.ghost["due"] != nil && s.ghost["fin"] == nil, "a thread may run more searches than were added to those waited for")
				s.SetGhost("fin", ts.True)
			}
			if e.Callee == wgT+"Wait" && mine(e.Args[0]) {
				ok := inThread || s.ghost["alldone"] != nil
				c.check("stream-close", e.Fn, e.Pos, s, ok, "the search waits for others while nobody receives their results")
				full := x.holds(s, ts.Cmp(LT|EQ, n(s, "#added"), n(s, "#started")))
				c.check("wait-all", e.Fn, e.Pos, s, full, "more searches are waited for than were started: the wait never ends")
			}
		case EvRet:
			if e.Callee == wgT+"Wait" && mine(e.Args[0]) {
				s.SetGhost("waited", ts.True)
			}
			if d, ok := x.wgDelta(e); ok && mine(e.Args[0]) {
				if d == ts.Int(-1) {
					c.check("wait-all", e.Fn, e.Pos, s, inThread && s.ghost["due"] != nil && s.ghost["fin"] == nil, "a search is signalled as ended that may not have ended")
					s.SetGhost("fin", ts.True)
					return
				}
				c.check("wait-all", e.Fn, e.Pos, s, !inThread && s.ghost["waiting"] == nil, "a search is added to those waited for after the wait may have ended")
				s.SetGhost("#added", ts.Arith(token.ADD, n(s, "#added"), d, types.Typ[types.Int]))
			}
		case EvThreadEnd:
			if starts(e.CFn) && s.ghost["due"] != nil {
				c.check("wait-all", e.Fn, e.Pos, s, s.ghost["fin"] != nil, "a thread started for a search may end without signalling its end")
			}
			if s.ghost["tgot"] != nil {
				if s.ghost["alldone"] == nil {
					badDrain[e.Instr] = "the thread that receives late results ends before all searches ended"
				} else {
					goodDrain[e.Instr] = true
				}
			}
		case EvSend, EvClose:
			ch := e.Args[0]
			if stream(ch) {
				if e.Kind == EvClose {
					ok := s.ghost["waited"] != nil || s.ghost["alldone"] != nil
					c.check("stream-close", e.Fn, e.Pos, s, ok && s.ghost["closed"] == nil, "the stream of results is closed although searches may still send to it")
					s.SetGhost("closed", ts.True)
				}
				return
			}
			if s.ghost["waited"] != nil {
				told[ch] = true
			} else if ch.K == KAlloc {
				untold[ch] = c.p.pos(e.Pos)
			}
		case EvRecv:
			ch := e.Args[0]
			if stream(ch) {
				if inThread {
					s.SetGhost("tgot", ts.True)
				}
				if !e.Ok {
					s.SetGhost("alldone", ts.True)
					s.SetGhost("drained", ts.True)
				}
				return
			}
			if told[ch] {
				if p, bad := untold[ch]; bad {
					c.check("stream-close", e.Fn, e.Pos, s, false, "the end of all searches is also announced before they ended (%s)", p)
				}
				s.SetGhost("alldone", ts.True)
			}
		}
	}
	// the statement that starts the thread, for the check below
	gos := map[*Term]ssa.Instruction{}
	for _, f := range c.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					gos[ts.OpT("go", nil, ts.Int(int64(g.Pos())))] = g
				}
			}
		}
	}
	ex := c.run(x, fn, func(s *State, a []*Term) {
		s.SetGhost("#added", ts.Zero)
		s.SetGhost("#started", ts.Zero)
		for i, p := range fn.Params {
			if namedOf(p.Type()) == "WaitGroup" {
				upper = a[i]
			}
		}
	})
	for _, e := range ex {
		s := e.s
		if s.ghost["waiting"] == nil && x.eq(s, n(s, "#added"), ts.Zero) && x.eq(s, n(s, "#started"), ts.Zero) {
			continue // nothing started
		}
		ok := s.ghost["alldone"] != nil
		msg := "the search may end with nobody receiving the results of searches still running, which then never end"
		if !ok && s.ghost["drainer"] != nil {
			g := gos[s.ghost["drainer"]]
			if m := badDrain[g]; m != "" {
				msg = m
			} else {
				ok = goodDrain[g]
			}
		}
		c.check("drain", fn, s.retPos(), s, ok, "%s", msg)
	}
}

// waiter: a thread that waits for a wait group
func (c *Ctx) waiter(f *ssa.Function) bool {
	return f != nil && c.p.path(f, func(g *ssa.Function) bool { return g.RelString(nil) == wgT+"Wait" }, nil) != nil
}

func init() {
	register("C14", "Every search of a query is added before it is started, signals its end once, after its last result; streams are closed only after all ended, and are received from until then.",
		[]string{"signal-once", "wait-all", "stream-close", "drain"}, func(c *Ctx) {
			for _, n := range []string{"data.(*Data).StreamSearch", "data.(*Data).AggregatedSearch", "node.(*DataSourceClient).StreamSearch"} {
				c.signals(n)
			}
			c.waits("data.(*Data).AggregatedSearch")
			c.waits("data.(*Data).MultiAggregatedSearch")
		})
}
