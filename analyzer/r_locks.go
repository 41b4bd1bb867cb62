package main

// Locking discipline (C18).

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// guarded fields: accessed only with a lock of the same object held
var guarded = map[string][]string{
	"Data":    {"Config", "Avg", "N", "MaxDistance", "Hist", "Timestamp"},
	"Annoyer": {"DataIndex", "AnnoyIndex", "Dimension", "BuildFileName"},
	"Node":    {"KnownIds"},
}

// counters: accessed only by atomic operations
var counters = map[string][]string{
	"Data":       {"RecentInsertCount", "Runs"},
	"Connection": {"Counter"},
}

func inList(m map[string][]string, typ, f string) bool {
	for _, g := range m[typ] {
		if g == f {
			return true
		}
	}
	return false
}

func lockClass(t *Term) string {
	if t.K == KFAddr {
		return namedOf(t.A[0].T) + "." + t.Op
	}
	if t.K == KOp || t.K == KInit {
		return "a " + namedOf(t.T)
	}
	return "local"
}

// ssaLock is the lock class of the receiver of a locking call
func ssaLock(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		st := v.X.Type().Underlying().(*types.Pointer).Elem()
		return namedOf(st) + "." + st.Underlying().(*types.Struct).Field(v.Field).Name()
	case *ssa.UnOp:
		return "a " + namedOf(v.Type())
	}
	return "local"
}

func isSliceT(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func isLockCall(n string) bool {
	switch n {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		return true
	}
	return false
}

// blocking calls wait for other threads or other nodes
func blocking(n string) string {
	switch {
	case n == wgT+"Wait", n == "(*sync.Cond).Wait":
		return "waits for other threads"
	case n == "time.Sleep":
		return "sleeps"
	case strings.HasPrefix(n, "iface:("+pbPath+".") && strings.Contains(n, "Client)."), strings.HasPrefix(n, "(*"+pbPath+".") && strings.Contains(n, "Client)."):
		return "calls another node"
	case strings.HasPrefix(n, "iface:("+pbPath+".") && strings.Contains(n, "Server).Send"):
		return "sends to a client"
	case n == "google.golang.org/grpc.Dial", n == "google.golang.org/grpc.DialContext", strings.HasPrefix(n, "net.Dial"), strings.HasPrefix(n, "net/http.ListenAndServe"), n == "(*google.golang.org/grpc.Server).Serve":
		return "uses the network"
	case strings.HasPrefix(n, ifaceSrc) && !strings.HasSuffix(n, "GetID"):
		return "calls another node"
	}
	return ""
}

type lockSum struct {
	acq    map[string]bool
	blocks string
}

// lockSums: the locks each function may take and whether it may block
func (c *Ctx) lockSums() map[*ssa.Function]*lockSum {
	g := c.p.graph()
	sums := map[*ssa.Function]*lockSum{}
	for _, fn := range c.p.funcs {
		s := &lockSum{acq: map[string]bool{}}
		sums[fn] = s
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Send:
					s.blocks = "sends to a channel"
				case *ssa.Select:
					if in.Blocking {
						s.blocks = "waits for a channel"
					}
				case *ssa.UnOp:
					if in.Op == token.ARROW {
						s.blocks = "receives from a channel"
					}
				case ssa.CallInstruction:
					if _, isGo := in.(*ssa.Go); isGo {
						continue
					}
					cc := in.Common()
					n := ""
					if cc.IsInvoke() {
						n = "iface:" + cc.Method.FullName()
					} else if f := cc.StaticCallee(); f != nil {
						n = f.RelString(nil)
						if isLockCall(n) {
							s.acq[ssaLock(cc.Args[0])] = true
						}
					}
					if w := blocking(n); w != "" {
						s.blocks = w
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range c.p.funcs {
			s := sums[fn]
			for _, e := range g.out[fn] {
				t := sums[e.to]
				if t == nil || e.kind == "go" {
					continue
				}
				for a := range t.acq {
					if !s.acq[a] {
						s.acq[a] = true
						changed = true
					}
				}
				if s.blocks == "" && t.blocks != "" {
					s.blocks = t.blocks + " in " + fnName(e.to)
					changed = true
				}
			}
		}
	}
	return sums
}

// lockRoots: functions judged on their own
func (c *Ctx) lockPkg(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return p != pbPath && !strings.HasSuffix(p, "/annoyindex") && !strings.HasSuffix(p, "/gencoder")
}

func exported(fn *ssa.Function) bool {
	o := fn.Object()
	return fn.Parent() == nil && (o != nil && o.Exported() || fn.Name() == "main" || strings.HasPrefix(fn.Name(), "init"))
}

func hasFuncParam(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

func (c *Ctx) locking() {
	sums := c.lockSums()
	type pair struct{ a, b string }
	order := map[pair]string{}
	type access struct {
		fn    *ssa.Function
		pos   token.Pos
		write bool
		held  map[string]bool // lock field -> held exclusively
	}
	acc := map[string][]access{}
	seen := map[*ssa.Function]bool{}
	pure := func(t *Term) bool { // memory of its own
		for t.K == KFAddr || t.K == KIAddr {
			t = t.A[0]
		}
		return t.K == KAlloc
	}
	judge := func(fn *ssa.Function) {
		x := c.exec()
		x.inlineAll = true
		x.limit = 24
		x.opaque = func(f *ssa.Function) bool {
			return f != fn && (!c.lockPkg(f) || exported(f) && !hasFuncParam(f))
		}
		blocked := func(s *State, e *Event, what string) {
			if len(s.locks) > 0 {
				c.check("no-wait", e.Fn, e.Pos, s, what == "", "%s while %s is held", what, lockClass(s.locks[0].addr))
			}
		}
		lists := map[*Term]*Term{} // list -> field it was read from
		x.on = func(s *State, e *Event) {
			switch e.Kind {
			case EvLock:
				for _, l := range s.locks[:len(s.locks)-1] {
					c.check("once", e.Fn, e.Pos, s, l.addr != e.Args[0], "%s is taken while it is already held (since %s)", lockClass(l.addr), c.p.pos(l.pos))
					if l.addr != e.Args[0] {
						order[pair{lockClass(l.addr), lockClass(e.Args[0])}] = fnName(e.Fn) + " " + c.p.pos(e.Pos)
					}
				}
			case EvUnlock:
				c.check("released", e.Fn, e.Pos, s, e.Ok, "%s is released although it is not held that way", lockClass(e.Args[0]))
			case EvSend:
				blocked(s, e, "sends to a channel")
			case EvRecv:
				if e.Callee != "select" {
					blocked(s, e, "receives from a channel")
				}
			case EvSelect:
				if e.Ok {
					blocked(s, e, "waits for a channel")
				}
			case EvCall:
				if len(s.locks) == 0 {
					return
				}
				blocked(s, e, blocking(e.Callee))
				if e.CFn == nil || sums[e.CFn] == nil {
					return
				}
				sm := sums[e.CFn]
				blocked(s, e, sm.blocks)
				var l []string
				for a := range sm.acq {
					l = append(l, a)
				}
				sort.Strings(l)
				for _, h := range s.locks {
					for _, a := range l {
						cl := lockClass(h.addr)
						if a == cl && a != "local" {
							c.check("once", e.Fn, e.Pos, s, false, "%s may take %s, which is already held", fnName(e.CFn), a)
						} else {
							order[pair{cl, a}] = fnName(e.Fn) + " " + c.p.pos(e.Pos)
						}
					}
				}
			case EvLoad, EvStore, EvAppend:
				a := e.Args[0]
				if e.Kind == EvAppend { // may write behind the list
					if a = lists[a]; a == nil {
						return
					}
				}
				if a.K != KFAddr {
					return
				}
				typ := namedOf(a.A[0].T)
				if e.Kind == EvLoad && len(e.Res) > 0 && isSliceT(e.Res[0].T) {
					lists[e.Res[0]] = a
				}
				if inList(counters, typ, a.Op) && !pure(a) {
					c.check("atomic", e.Fn, e.Pos, s, false, "%s.%s is used without an atomic operation", typ, a.Op)
				}
				if !inList(guarded, typ, a.Op) || pure(a) {
					return
				}
				ac := access{e.Fn, e.Pos, e.Kind != EvLoad, map[string]bool{}}
				for _, l := range s.locks {
					if l.addr.K == KFAddr && l.addr.A[0] == a.A[0] {
						ac.held[l.addr.Op] = ac.held[l.addr.Op] || l.write
					}
				}
				acc[typ+"."+a.Op] = append(acc[typ+"."+a.Op], ac)
			}
		}
		ex := c.run(x, fn, nil)
		for f := range x.nFuncs {
			seen[f] = true
		}
		seen[fn] = true
		for _, e := range ex {
			for _, l := range e.s.locks {
				c.check("released", fn, e.s.retPos(), e.s, false, "%s, taken at %s, is still held", lockClass(l.addr), c.p.pos(l.pos))
			}
		}
	}
	var later []*ssa.Function
	for _, fn := range c.p.funcs {
		if !c.lockPkg(fn) || fn.Synthetic != "" {
			continue
		}
		if exported(fn) {
			judge(fn)
		} else {
			later = append(later, fn)
		}
	}
	for _, fn := range later {
		if !seen[fn] && fn.Parent() == nil {
			judge(fn)
		}
	}
	for _, fn := range later {
		if !seen[fn] {
			judge(fn)
		}
	}
	// one lock for all accesses
	var fields []string
	for typ, l := range guarded {
		for _, f := range l {
			fields = append(fields, typ+"."+f)
		}
	}
	sort.Strings(fields)
	for _, f := range fields {
		l := acc[f]
		count := map[string]int{}
		for _, a := range l {
			for h, w := range a.held {
				if w || !a.write {
					count[h]++
				}
			}
		}
		best := ""
		for h, n := range count {
			if best == "" || n > count[best] || n == count[best] && h < best {
				best = h
			}
		}
		for _, a := range l {
			w, ok := a.held[best]
			how := ""
			if ok && a.write && !w {
				how = " exclusively"
			}
			kind := "read"
			if a.write {
				kind = "written"
			}
			c.check("guarded", a.fn, a.pos, nil, ok && (w || !a.write), "%s is %s without holding its lock (%s)%s", f, kind, best, how)
		}
	}
	// order
	next := map[string][]string{}
	for p := range order {
		next[p.a] = append(next[p.a], p.b)
	}
	var names []string
	for a := range next {
		sort.Strings(next[a])
		names = append(names, a)
	}
	sort.Strings(names)
	c.check("order", nil, token.NoPos, nil, true, "")
	for _, a := range names {
		path := map[string]bool{}
		var dfs func(n string, trail []string) []string
		dfs = func(n string, trail []string) []string {
			for _, m := range next[n] {
				if m == a {
					return append(trail, fmt.Sprintf("%s then %s in %s", n, m, order[pair{n, m}]))
				}
				if !path[m] {
					path[m] = true
					if r := dfs(m, append(trail, fmt.Sprintf("%s then %s in %s", n, m, order[pair{n, m}]))); r != nil {
						return r
					}
				}
			}
			return nil
		}
		if r := dfs(a, nil); r != nil {
			c.check("order", nil, token.NoPos, nil, false, "locks are taken in different orders: %s", strings.Join(r, "; "))
		}
	}
}

func init() {
	register("C18", "Locks are released on every path, not taken twice, taken in one order, not held while waiting; guarded fields are accessed under one lock of their object, counters atomically.",
		[]string{"released", "guarded", "order"}, func(c *Ctx) { c.locking() })
}
