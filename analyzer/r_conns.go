package main

// Connections, time limits and files: what is taken is given back (C27).

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	connT  = "(*" + modPath + "/util.ConnectionCache)."
	grpcC  = "(*google.golang.org/grpc.ClientConn)."
	grpcD  = "google.golang.org/grpc.Dial"
	fileT  = "(*os.File)."
	limitP = "ctx:context.With"
)

// limited: the context ends by itself
func limited(t *Term) bool {
	t = unIface(t)
	if t == nil {
		return false
	}
	if strings.HasPrefix(t.Op, limitP+"Timeout") || strings.HasPrefix(t.Op, limitP+"Deadline") {
		return true
	}
	return strings.HasPrefix(t.Op, limitP) && len(t.A) > 0 && limited(t.A[0])
}

// ghosts lists the ghosts whose name starts with the prefix
func (s *State) ghosts(prefix string) []string {
	var l []string
	for k, v := range s.ghost {
		if v != nil && strings.HasPrefix(k, prefix) {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return l
}

func isOpen(n string) bool { return n == "os.OpenFile" || n == "os.Open" || n == "os.Create" }

// remoteCall: the call of any remote procedure of a peer
func remoteCall(n string) bool {
	n = strings.TrimPrefix(n, "iface:")
	return strings.HasPrefix(n, "("+pbPath+".VeriServiceClient).") || strings.HasPrefix(n, clientT)
}

// streamCall: the use of a stream opened by a remote call
func streamCall(n string) bool {
	n = strings.TrimPrefix(n, "iface:")
	return strings.HasPrefix(n, "("+pbPath+".VeriService_") && strings.Contains(n, "Client).")
}

func (c *Ctx) connections(name string) {
	fn := c.fn(name)
	x := c.exec()
	ts := x.ts
	x.opaque = func(f *ssa.Function) bool {
		n := f.RelString(nil)
		if f == fn || f.Parent() != nil {
			return false
		}
		return clientOpaque(f) || exported(f) && c.p.inRepo(f) && fnPkg(f) != pbPath || strings.HasPrefix(n, dsetT+"Get")
	}
	fails := c.failing(func(cc *CallCtx) bool {
		return strings.HasPrefix(cc.name, grpcD) || isOpen(cc.name) || remoteCall(cc.name) || streamCall(cc.name)
	})
	x.model = func(x *Exec, s *State, cc *CallCtx) ([]Exit, bool) {
		if cc.name == connT+"Get" {
			x.pre(s, cc)
			f := s.Fork()
			r := ts.Fresh("conn", resTypes(cc.sig)[0], cc.instr.Pos())
			x.assume(s, ts.Cmp(NE, r, ts.Nil), true)
			return []Exit{x.post(s, cc, r), x.post(f, cc, ts.Nil)}, true
		}
		was := s.ghost["failed"]
		ex, ok := fails(x, s, cc)
		for _, e := range ex {
			if e.s.ghost["failed"] != was { // noted for the call only
				e.s.SetGhost("failed", was)
			}
		}
		return ex, ok
	}
	// open lists the connections that may be used: their addresses in the state
	open := func(s *State) []*Term {
		var l []*Term
		for _, k := range s.ghosts("held@") {
			l = append(l, x.field(s, s.ghost["#"+k], "Conn"))
		}
		for _, k := range s.ghosts("dialled@") {
			l = append(l, s.ghost["#"+k])
		}
		return l
	}
	release := func(s *State, e *Event, prefix, what string) {
		for _, k := range s.ghosts(prefix) {
			if s.ghost["#"+k] == e.Args[0] || prefix == "held@" && len(e.Args) > 1 && s.ghost["#"+k] == e.Args[1] {
				s.SetGhost(k, nil)
				c.check("give-back", e.Fn, e.Pos, s, true, "")
				return
			}
		}
		c.check("give-back", e.Fn, e.Pos, s, false, "%s that is not in use", what)
	}
	fresh := func(s *State, e *Event, prefix string, v *Term, what string) {
		k := fmt.Sprintf("%s%d", prefix, e.Pos)
		c.check("give-back", e.Fn, e.Pos, s, s.ghost[k] == nil, "%s while the last one is still in use", what)
		s.SetGhost(k, ts.True)
		s.SetGhost("#"+k, v)
	}
	x.on = func(s *State, e *Event) {
		switch e.Kind {
		case EvRet:
			switch {
			case e.Callee == connT+"Get":
				if !x.isNil(s, e.Res[0]) {
					fresh(s, e, "held@", e.Res[0], "a connection is taken")
				}
			case strings.HasPrefix(e.Callee, grpcD):
				if x.isNil(s, e.Res[1]) {
					fresh(s, e, "dialled@", e.Res[0], "a connection is opened")
				}
			case isOpen(e.Callee):
				if x.isNil(s, e.Res[1]) {
					fresh(s, e, "file@", e.Res[0], "a file is opened")
				}
			case strings.HasPrefix(e.Callee, "context.With") && len(e.Res) == 2:
				k := fmt.Sprintf("limit@%d", e.Pos)
				s.SetGhost(k, ts.True)
				s.SetGhost("#"+k, e.Res[0])
			case remoteCall(e.Callee):
				s.SetGhost("#ctx", e.Args[1])
			}
		case EvCall:
			switch {
			case e.Callee == connT+"Put":
				release(s, e, "held@", "a connection is given back")
			case e.Callee == connT+"Close":
				release(s, e, "held@", "a connection is given back")
			case e.Callee == grpcC+"Close":
				release(s, e, "dialled@", "a connection is closed")
			case e.Callee == fileT+"Close":
				release(s, e, "file@", "a file is closed")
			case e.Callee == "dynamic" && e.Args[0].Op == "cancel":
				for _, k := range s.ghosts("limit@") {
					if s.ghost["#"+k] == e.Args[0].A[0] {
						s.SetGhost(k, nil)
					}
				}
			case remoteCall(e.Callee):
				cc := unIface(x.field(s, unIface(e.Args[0]), "cc"))
				ok := false
				for _, o := range open(s) {
					ok = ok || o == cc
				}
				c.check("conn-use", e.Fn, e.Pos, s, ok, "a peer is called on a connection that is not held")
				c.check("time-limit", e.Fn, e.Pos, s, limited(e.Args[1]), "a peer is called without a time limit")
				c.check("time-limit", e.Fn, e.Pos, s, x.liveCtx(s, e.Args[1]), "a peer is called after its time limit was released")
			case streamCall(e.Callee):
				c.check("conn-use", e.Fn, e.Pos, s, len(open(s)) > 0, "a stream of a peer is used without its connection")
				ctx := s.ghost["#ctx"]
				c.check("time-limit", e.Fn, e.Pos, s, ctx != nil && x.liveCtx(s, ctx), "a stream of a peer is used after its time limit was released")
			case strings.HasPrefix(e.Callee, fileT):
				ok := false
				for _, k := range s.ghosts("file@") {
					ok = ok || s.ghost["#"+k] == e.Args[0]
				}
				c.check("conn-use", e.Fn, e.Pos, s, ok, "a file is used that is not open")
			}
		}
	}
	for _, e := range c.run(x, fn, func(s *State, a []*Term) {
		for _, t := range a {
			if isPtr(t.T) {
				x.assume(s, ts.Cmp(NE, t, ts.Nil), true)
			}
		}
	}) {
		s := e.s
		for _, q := range []struct{ prefix, what string }{{"held@", "a connection is not given back"}, {"dialled@", "a connection is not closed"}, {"file@", "a file is not closed"}, {"limit@", "a time limit is not released"}} {
			c.check("give-back", fn, s.retPos(), s, len(s.ghosts(q.prefix)) == 0, "%s", q.what)
		}
	}
}

// liveCtx: the context and what it derives from have not been released
func (x *Exec) liveCtx(s *State, t *Term) bool {
	t = unIface(t)
	if t == nil || !strings.HasPrefix(t.Op, limitP) {
		return true
	}
	for _, k := range s.ghosts("limit@") {
		if s.ghost["#"+k] == t {
			return len(t.A) == 0 || x.liveCtx(s, t.A[0])
		}
	}
	return false
}

func init() {
	register("C27", "Every call of a peer has a time limit and uses a connection that is held; connections, time limits and files are given back exactly once, after their last use, on every path.",
		[]string{"give-back", "conn-use", "time-limit"}, func(c *Ctx) {
			for _, n := range []string{"node.(*Node).SendJoinRequest", "node.(*Node).SendAddPeerRequest", "node.(*Node).SendPingRequest",
				"node.(*DataSourceClient).StreamSearch", "node.(*DataSourceClient).Insert", "node.(*DataSourceClient).GetDataInfo",
				"data.(*Dataset).LoadIndex", "data.(*Dataset).SaveIndex"} {
				c.connections(n)
			}
		})
}
