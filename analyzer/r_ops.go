package main

// Operation of a node: draining and health (C28), the processor of a dataset
// (C19), files (C22).

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isGlobal(t *Term, name string) bool {
	return t != nil && t.K == KGlobal && t.Op == modPath+"/"+name
}

// stateVar: watches what is known about a variable of the package state
func (x *Exec) stateVar(s *State, e *Event, names ...string) {
	for _, n := range names {
		switch e.Kind {
		case EvLoad:
			if isGlobal(e.Args[0], "state."+n) {
				s.SetGhost("#"+n, e.Res[0])
				s.SetGhost(n, x.truth(s, e.Res[0]))
			}
		case EvBranch:
			if v := s.ghost["#"+n]; v != nil && s.ghost[n] == nil {
				s.SetGhost(n, x.truth(s, v))
			}
		case EvStore:
			if isGlobal(e.Args[0], "state."+n) {
				s.SetGhost("set:"+n, x.truth(s, e.Args[1]))
			}
		}
	}
}

func (x *Exec) truth(s *State, t *Term) *Term {
	if t == x.ts.True || x.holds(s, t) {
		return x.ts.True
	}
	if t == x.ts.False || x.holds(s, x.ts.Not(t)) {
		return x.ts.False
	}
	return nil
}

// healthPage: the page says that all is well exactly when it is
func (c *Ctx) healthPage(name string, good map[string]bool) {
	fn := c.fn(name)
	x := c.exec()
	ts := x.ts
	var vars []string
	for n := range good {
		vars = append(vars, n)
	}
	w := "iface:(net/http.ResponseWriter)."
	ok200 := func(code int64) bool { return code >= 200 && code < 300 }
	set := func(s *State, e *Event, code *Term) {
		v, isC := code.intVal()
		if !isC {
			c.check("page", e.Fn, e.Pos, s, false, "the status is not known")
			return
		}
		if s.ghost["status"] == nil {
			if ok200(v) {
				s.SetGhost("status", ts.True)
			} else {
				s.SetGhost("status", ts.False)
			}
		}
	}
	body := func(s *State, e *Event) {
		if s.ghost["status"] == nil {
			s.SetGhost("status", ts.True) // the default
		}
		for _, a := range e.Args {
			for _, l := range constsOf(a) {
				if strings.Contains(l, "true") {
					c.check("page", e.Fn, e.Pos, s, s.ghost["status"] == ts.True, "the page says all is well, the status does not")
				}
				if strings.Contains(l, "false") {
					c.check("page", e.Fn, e.Pos, s, s.ghost["status"] == ts.False, "the page says something is wrong, the status does not")
				}
			}
		}
	}
	x.on = func(s *State, e *Event) {
		x.stateVar(s, e, vars...)
		if e.Kind != EvCall {
			return
		}
		switch e.Callee {
		case w + "WriteHeader":
			set(s, e, e.Args[1])
		case "net/http.Error":
			set(s, e, e.Args[2])
			body(s, e)
		case w + "Write", "io.WriteString", "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln":
			body(s, e)
		}
	}
	for _, e := range c.run(x, fn, nil) {
		s := e.s
		st := s.ghost["status"]
		if st == nil {
			st = ts.True
		}
		all, bad := true, false
		for n, v := range good {
			want := ts.True
			if !v {
				want = ts.False
			}
			if s.ghost[n] != want {
				all = false
			}
			if s.ghost[n] != nil && s.ghost[n] != want {
				bad = true
			}
		}
		if st == ts.True {
			c.check("page", fn, s.retPos(), s, all, "the page reports that all is well although it may not be")
		} else {
			c.check("page", fn, s.retPos(), s, bad, "the page reports that something is wrong although all may be well")
		}
	}
}

func constsOf(t *Term) []string {
	var l []string
	if v, ok := t.strVal(); ok {
		l = append(l, v)
	}
	for _, a := range t.A {
		l = append(l, constsOf(a)...)
	}
	return l
}

func (c *Ctx) draining() {
	// inserts
	fn := c.fn("node.(*Node).Insert")
	x := c.exec()
	ts := x.ts
	x.opaque = func(f *ssa.Function) bool { return fnPkg(f) == modPath+"/data" }
	x.on = func(s *State, e *Event) {
		x.stateVar(s, e, "Drain")
		if e.Kind == EvCall && (strings.HasPrefix(e.Callee, dsetT) || strings.HasPrefix(e.Callee, dataT)) {
			c.check("drain-insert", e.Fn, e.Pos, s, s.ghost["Drain"] == ts.False, "an insert is accepted without making sure that the node is not draining")
		}
	}
	for _, e := range c.run(x, fn, nil) {
		if !x.nonNil(e.s, e.res[1]) {
			c.check("drain-insert", fn, e.s.retPos(), e.s, e.s.ghost["Drain"] == ts.False, "an insert into a draining node succeeds")
		} else {
			c.check("drain-insert", fn, e.s.retPos(), e.s, true, "")
		}
	}
	// closing
	fn = c.fn("node.(*Node).Close")
	x = c.exec()
	ts = x.ts
	x.opaque = func(f *ssa.Function) bool { return fnPkg(f) == modPath+"/data" }
	x.on = func(s *State, e *Event) {
		x.stateVar(s, e, "Drain", "Ready")
		if (e.Kind == EvCall || e.Kind == EvGo) && e.Callee == dsetT+"Close" {
			c.check("drain-close", e.Fn, e.Pos, s, e.Kind == EvCall && s.thread == "", "closing does not wait for the data to be handed over")
			c.check("drain-close", e.Fn, e.Pos, s, s.ghost["set:Drain"] == ts.True && s.ghost["set:Ready"] == ts.False, "data is handed over while the node still takes inserts or reports to be ready")
			s.SetGhost("closed", ts.True)
		}
	}
	for _, e := range c.run(x, fn, nil) {
		c.check("drain-close", fn, e.s.retPos(), e.s, e.s.ghost["closed"] != nil, "closing the node does not close its datasets")
	}
	// the server
	fn = c.fn("server.RunServer")
	x = c.exec()
	ts = x.ts
	x.opaque = func(f *ssa.Function) bool { return f != fn && fnPkg(f) != fnPkg(fn) || f.Name() == "RestApi" }
	x.on = func(s *State, e *Event) {
		if e.Kind == EvRet && e.Callee == nodeT+"Close" {
			s.SetGhost("closed", ts.True)
		}
		if e.Kind == EvCall && e.Callee == "os.Exit" {
			c.check("drain-exit", e.Fn, e.Pos, s, s.ghost["closed"] != nil, "the process ends without having closed the node")
		}
	}
	c.run(x, fn, nil)
	c.endSignals()
	// nobody ends draining; the node is ready only once it has synchronised
	sync := c.fn("node.(*Node).SyncWithPeers")
	for _, fn := range c.p.funcs {
		if !c.lockPkg(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok || g.Pkg.Pkg.Path() != modPath+"/state" || fn.Name() == "init" {
					continue
				}
				v, isC := st.Val.(*ssa.Const)
				is := func(b string) bool { return isC && v.Value != nil && v.Value.String() == b }
				switch g.Name() {
				case "Drain":
					c.check("drain-stays", fn, in.Pos(), nil, is("true"), "a draining node may take inserts again")
				case "Ready":
					c.check("drain-ready", fn, in.Pos(), nil, is("false") || is("true") && (fn == sync || c.onlyFrom(fn, sync, map[*ssa.Function]bool{})), "the node reports to be ready without having synchronised with its peers")
				}
			}
		}
	}
	x = c.exec()
	ts = x.ts
	x.opaque = func(f *ssa.Function) bool { return f != sync && exported(f) }
	x.on = func(s *State, e *Event) {
		x.stateVar(s, e, "Ready", "Drain")
		if e.Kind == EvIter && opIs(e.Args[0], "cacheItems") {
			l := x.loopOf(e)
			if e.Ok && s.ghost["in"] == nil {
				s.SetGhost("in", l)
			}
			if !e.Ok && (s.ghost["in"] == nil || s.ghost["in"] == l) {
				s.SetGhost("in", nil)
				s.SetGhost("synced", ts.True)
			}
		}
		if e.Kind == EvStore && isGlobal(e.Args[0], "state.Ready") && e.Args[1] != ts.False {
			c.check("drain-ready", e.Fn, e.Pos, s, s.ghost["synced"] != nil, "the node reports to be ready before it has synchronised with all known peers")
		}
	}
	for _, e := range c.run(x, sync, nil) {
		c.check("drain-ready", sync, e.s.retPos(), e.s, e.s.ghost["set:Ready"] == ts.True || e.s.ghost["Ready"] == ts.True || e.s.ghost["Drain"] == ts.True, "the node does not become ready")
	}
	c.healthPage("server.GetReady", map[string]bool{"Ready": true, "Drain": false})
	c.healthPage("server.GetHeath", map[string]bool{"Health": true})
}

// processor: one processor per dataset, as long as it is alive (C19)
func (c *Ctx) processor() {
	fn := c.fn("data.(*Data).Run")
	x := c.exec()
	ts := x.ts
	process := dataT + "Process"
	x.opaque = func(f *ssa.Function) bool { return f.RelString(nil) == process }
	var dt *Term
	runs := func(e *Event) bool {
		return len(e.Args) > 0 && isFAddr(e.Args[0], "Data", "Runs") && e.Args[0].A[0] == dt
	}
	x.on = func(s *State, e *Event) {
		switch e.Kind {
		case EvRet:
			if !strings.Contains(e.Callee, "sync/atomic.") || !runs(e) {
				return
			}
			op := e.Callee[strings.LastIndex(e.Callee, ".")+1:]
			switch {
			case strings.HasPrefix(op, "CompareAndSwap"):
				if e.Res[0] == ts.True {
					ok := x.eq(s, e.Args[1], ts.Zero) && x.eq(s, e.Args[2], ts.Int(1)) && s.ghost["owner"] == nil
					c.check("one-processor", e.Fn, e.Pos, s, ok, "another processor of the dataset may be running")
					s.SetGhost("owner", ts.True)
				} else {
					s.SetGhost("refused", ts.True)
				}
			case strings.HasPrefix(op, "Load"):
			case strings.HasPrefix(op, "Add"):
				ok := s.ghost["owner"] != nil && x.eq(s, e.Args[1], ts.Int(-1)) && s.ghost["released"] == nil
				c.check("one-processor", e.Fn, e.Pos, s, ok, "the mark of the running processor is changed by somebody else")
				s.SetGhost("released", ts.True)
			case strings.HasPrefix(op, "Store"):
				ok := s.ghost["owner"] != nil && x.eq(s, e.Args[1], ts.Zero) && s.ghost["released"] == nil
				c.check("one-processor", e.Fn, e.Pos, s, ok, "the mark of the running processor is changed by somebody else")
				s.SetGhost("released", ts.True)
			default:
				c.check("one-processor", e.Fn, e.Pos, s, false, "the mark of the running processor is changed by %s", op)
			}
		case EvGo:
			c.check("one-processor", e.Fn, e.Pos, s, e.Callee != process, "the dataset is processed without being its one processor")
		case EvCall:
			if e.Callee == process {
				c.check("one-processor", e.Fn, e.Pos, s, s.ghost["owner"] != nil && s.ghost["released"] == nil && s.thread == "", "the dataset is processed without being its one processor")
				c.check("one-processor", e.Fn, e.Pos, s, e.Args[0] == dt, "another dataset is processed")
			}
		case EvLoad:
			if isFAddr(e.Args[0], "Data", "Alive") {
				s.SetGhost("#alive", e.Res[0])
				s.SetGhost("alive", x.truth(s, e.Res[0]))
			}
		case EvBranch:
			if v := s.ghost["#alive"]; v != nil && s.ghost["alive"] == nil {
				s.SetGhost("alive", x.truth(s, v))
			}
		}
	}
	ex := c.run(x, fn, func(s *State, a []*Term) { dt = a[0] })
	for _, e := range ex {
		s := e.s
		c.check("one-processor", fn, s.retPos(), s, (s.ghost["owner"] != nil) == (s.ghost["released"] != nil), "the mark of the running processor is not released: the dataset is never processed again")
		if s.ghost["owner"] != nil {
			c.check("processor-stays", fn, s.retPos(), s, s.ghost["alive"] == ts.False, "the processor ends although the dataset is alive")
		} else {
			c.check("processor-stays", fn, s.retPos(), s, s.ghost["refused"] != nil && x.nonNil(s, e.res[0]), "the dataset is not processed although no other processor is running")
		}
	}
	for _, fn := range c.p.funcs { // the mark belongs to Run
		if !c.lockPkg(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || namedOf(fa.X.Type()) != "Data" {
					continue
				}
				if f := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field).Name(); f == "Runs" {
					ok := fn == c.fn("data.(*Data).Run") || c.onlyFrom(fn, c.fn("data.(*Data).Run"), map[*ssa.Function]bool{}) || onlyLoads(fa)
					c.check("one-processor", fn, in.Pos(), nil, ok, "the mark of the running processor is used outside of the processor")
				}
			}
		}
	}
	// nothing blocks the processor
	fn = c.fn("data.(*Data).Process")
	x = c.exec()
	ts = x.ts
	light := c.light()
	x.opaque = func(f *ssa.Function) bool {
		return light(f) || f.RelString(nil) == dataT+"evictBDMap" || f.RelString(nil) == dataT+"GetDataInfo"
	}
	handover := func(t types.Type) bool {
		if t == nil {
			return false
		}
		ch, ok := t.Underlying().(*types.Chan)
		return ok && namedOf(ch.Elem()) == "InsertDatumWithConfig"
	}
	x.on = func(s *State, e *Event) {
		switch e.Kind {
		case EvSend:
			if handover(e.Args[0].T) {
				c.check("handover-read", e.Fn, e.Pos, s, s.ghost["consumer"] != nil, "nobody reads what is to be handed over: the processor may block forever")
				c.check("handover-read", e.Fn, e.Pos, s, s.ghost["closed"] == nil, "a closed channel is sent to")
			}
		case EvGo:
			if e.CFn != nil && recvs(e.CFn, handover) {
				s.SetGhost("consumer", ts.True)
			}
		case EvClose:
			if handover(e.Args[0].T) {
				s.SetGhost("closed", ts.True)
			}
		case EvRecv:
			if handover(e.Args[0].T) && !e.Ok {
				s.SetGhost("end", ts.True)
			}
		case EvThreadEnd:
			if e.CFn != nil && recvs(e.CFn, handover) {
				c.check("handover-read", e.Fn, e.Pos, s, s.ghost["end"] != nil, "the thread that hands data over ends before everything was read: the processor may block forever")
			}
		}
	}
	for _, e := range c.run(x, fn, nil) {
		if e.s.ghost["consumer"] != nil {
			c.check("handover-read", fn, e.s.retPos(), e.s, e.s.ghost["closed"] != nil, "the thread that hands data over never ends")
		}
	}
}

// onlyLoads: the address is only used to read
func onlyLoads(fa *ssa.FieldAddr) bool {
	for _, r := range *fa.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.Call:
			f := r.Call.StaticCallee()
			if f == nil || !strings.HasPrefix(f.Name(), "Load") {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// recvs: the function receives from a channel of the type
func recvs(fn *ssa.Function, is func(t types.Type) bool) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.UnOp:
				if in.Op == token.ARROW && is(in.X.Type()) {
					return true
				}
			case *ssa.Select:
				for _, st := range in.States {
					if st.Dir == types.RecvOnly && is(st.Chan.Type()) {
						return true
					}
				}
			case *ssa.Call:
				for _, a := range in.Call.Args {
					if is(a.Type()) {
						if f := in.Call.StaticCallee(); f != nil && f != fn && recvs(f, is) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func init() {
	register("C28", "A draining node refuses inserts and reports not to be ready, closing drains first and hands data over before the process ends, and the pages report readiness and health as they are.",
		[]string{"drain-insert", "drain-close", "drain-exit", "drain-stays", "drain-ready", "page"}, func(c *Ctx) { c.draining() })
	register("C19", "A dataset has one background processor as long as it is alive, and handing over never blocks it.",
		[]string{"one-processor", "processor-stays", "handover-read"}, func(c *Ctx) { c.processor() })
}

// endSignals: the signals that ask a server to end are all waited for, since
// one that is not ends the process at once
func (c *Ctx) endSignals() {
	got := map[string]bool{}
	var at *ssa.Function
	pos := token.NoPos
	for _, fn := range c.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil {
					continue
				}
				switch ci.Common().StaticCallee().RelString(nil) {
				case "os/signal.Notify", "os/signal.NotifyContext":
				case "os/signal.Stop", "os/signal.Reset", "os/signal.Ignore":
					return // not followed
				default:
					continue
				}
				at, pos = fn, in.Pos()
				if !signalNames(ci.Common().Args[1], got) {
					return // all of them, or not known
				}
			}
		}
	}
	if at == nil {
		return
	}
	c.check("drain-exit", at, pos, nil, got["interrupt"] && got["15"], "a signal that asks the server to end, ends the process without the node being closed")
}

// signalNames: the elements of a list of signals, false if not known
func signalNames(v ssa.Value, got map[string]bool) bool {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return false
	}
	arr, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *arr.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, r := range *ia.Referrers() {
			st, ok := r.(*ssa.Store)
			if !ok {
				continue
			}
			switch v := st.Val.(type) {
			case *ssa.MakeInterface:
				k, ok := v.X.(*ssa.Const)
				if !ok || k.Value == nil {
					return false
				}
				n := k.Value.String()
				if n == "2" {
					n = "interrupt"
				}
				got[n] = true
			case *ssa.UnOp:
				g, ok := v.X.(*ssa.Global)
				if !ok || g.Pkg.Pkg.Path() != "os" || g.Name() != "Interrupt" {
					return false
				}
				got["interrupt"] = true
			default:
				return false
			}
		}
	}
	return true
}
