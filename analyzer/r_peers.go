package main

// Peers: what a node knows about others (C23).

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	serialFn   = modPath + "/node.SerializeStringArray"
	nodeInfoFn = nodeT + "GetNodeInfo"
)

// peerModel: ids are functions of addresses; the node itself is one peer
func (c *Ctx) peerModel(self **Term) func(x *Exec, s *State, cc *CallCtx) ([]Exit, bool) {
	return func(x *Exec, s *State, cc *CallCtx) ([]Exit, bool) {
		switch cc.name {
		case serialFn:
			x.pre(s, cc)
			return []Exit{x.post(s, cc, x.ts.OpT("idOf", cc.sig.Results().At(0).Type(), cc.args[0]))}, true
		case nodeInfoFn:
			x.pre(s, cc)
			if *self == nil {
				*self = x.ts.Fresh("self", cc.sig.Results().At(0).Type(), cc.instr.Pos())
			}
			x.assume(s, x.ts.Cmp(NE, *self, x.ts.Nil), true)
			return []Exit{x.post(s, cc, *self)}, true
		}
		return nil, false
	}
}

// peerFacts notes what is known about a peer: that it is the node itself or
// another, that it is recent or not
func (x *Exec) peerFacts(s *State, peer, self *Term) {
	ts := x.ts
	if peer == nil || s.ghost["self"] != nil && s.ghost["recent"] != nil {
		return
	}
	if self != nil && s.ghost["self"] == nil {
		a, b := x.peerID(s, self), x.peerID(s, peer)
		if x.holds(s, ts.Cmp(EQ, a, b)) {
			s.SetGhost("self", ts.True)
		} else if x.holds(s, ts.Cmp(NE, a, b)) {
			s.SetGhost("self", ts.False)
		}
	}
	if s.ghost["recent"] == nil {
		t := x.field(s, peer, "Timestamp")
		sum := ts.AddK(t, 300)
		for _, q := range []*Term{t, sum} {
			for _, o := range x.related(s, q) {
				if !isNow(o) {
					continue
				}
				if x.holds(s, ts.Cmp(GT, sum, o)) {
					s.SetGhost("recent", ts.True)
				} else if x.holds(s, ts.Cmp(LT|EQ, sum, o)) {
					s.SetGhost("recent", ts.False)
				}
			}
		}
	}
}

func (x *Exec) peerID(s *State, peer *Term) *Term {
	return x.ts.OpT("idOf", types.Typ[types.String], x.field(s, peer, "AddressList"))
}

func isPeerList(t *Term) bool {
	return t != nil && t.K == KInit && isFAddr(t.A[0], "Node", "PeerList")
}

func (c *Ctx) peerList() {
	// who changes the list
	entry := map[*ssa.Function]bool{c.fn("node.(*Node).AddPeerElement"): true, c.fn("node.(*Node).CheckPeer"): true}
	for _, fn := range c.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil || len(ci.Common().Args) == 0 {
					continue
				}
				n := ci.Common().StaticCallee().RelString(nil)
				if !strings.HasPrefix(n, cacheT) || !fromField(ci.Common().Args[0], "Node", "PeerList") {
					continue
				}
				switch n[strings.LastIndex(n, ".")+1:] {
				case "Get", "Items", "ItemCount", "GetWithExpiration", "IncrementExpiration", "DeleteExpired":
				default:
					c.roots(fn, entry, map[*ssa.Function]bool{})
				}
			}
		}
	}
	for fn := range entry {
		fn := fn
		x := c.exec()
		ts := x.ts
		var peer, self, node *Term
		x.model = c.peerModel(&self)
		x.opaque = func(f *ssa.Function) bool { return f != fn && fnPkg(f) != modPath+"/node" && fnPkg(f) != pbPath }
		x.on = func(s *State, e *Event) {
			c.peerFixed(s, e)
			switch e.Kind {
			case EvBranch:
				x.peerFacts(s, peer, self)
				x.newer(s, peer)
			case EvUnlock:
				s.SetGhost("newer", nil)
				s.SetGhost("looked", nil)
				s.SetGhost("#old", nil)
				s.SetGhost("#found", nil)
			case EvRet:
				if e.Callee == "cache.Get" && isPeerList(e.Args[0]) {
					s.SetGhost("looked", nil)
					s.SetGhost("newer", nil)
					if peer != nil && e.Args[1] == x.peerID(s, peer) && s.locked(node) {
						s.SetGhost("looked", ts.True)
						s.SetGhost("#old", e.Res[0])
						s.SetGhost("#found", e.Res[1])
						known := ts.OpT("assert:"+peer.T.String(), peer.T, e.Res[0])
						x.assume(s, ts.Cmp(NE, known, ts.Nil), true) // no list holds a missing message (C21)
						x.newer(s, peer)
					}
				}
			case EvCall:
				if !strings.HasPrefix(e.Callee, "cache.") || !isPeerList(e.Args[0]) {
					return
				}
				switch e.Callee {
				case "cache.Get", "cache.Items", "cache.ItemCount", "cache.IncrementExpiration", "cache.DeleteExpired", "cache.GetWithExpiration":
				case "cache.Set", "cache.SetDefault", "cache.Add", "cache.Replace":
					if peer == nil {
						c.check("peer-kept", e.Fn, e.Pos, s, false, "something is added to the list of peers that was not announced")
						return
					}
					c.check("peer-kept", e.Fn, e.Pos, s, unIface(e.Args[2]) == peer && e.Args[1] == x.peerID(s, peer), "what is kept is not the peer announced, under its own id")
					c.check("peer-kept", e.Fn, e.Pos, s, s.ghost["self"] == ts.False, "the node may keep itself as a peer")
					c.check("peer-kept", e.Fn, e.Pos, s, s.ghost["recent"] == ts.True, "outdated information about a peer may be kept")
					c.check("peer-kept", e.Fn, e.Pos, s, s.ghost["newer"] == ts.True && s.locked(node), "newer information about a peer may be replaced by older one")
					s.SetGhost("kept", ts.True)
				case "cache.Delete":
					ok := peer != nil && e.Args[1] == x.peerID(s, peer) && s.ghost["recent"] == ts.False
					c.check("peer-forgotten", e.Fn, e.Pos, s, ok, "a peer is forgotten although it may be recent")
				default:
					c.check("peer-forgotten", e.Fn, e.Pos, s, false, "peers may be forgotten by %s", e.Callee)
				}
			}
		}
		ex := c.run(x, fn, func(s *State, a []*Term) {
			node, peer = a[0], nil
			for _, t := range a[1:] {
				if namedOf(t.T) == "Peer" {
					peer = t
					x.assume(s, ts.Cmp(NE, t, ts.Nil), true)
				}
			}
		})
		for _, e := range ex {
			s := e.s
			switch fn.Name() {
			case "AddPeerElement":
				excuse := s.ghost["kept"] != nil || x.nonNil(s, e.res[0]) || s.ghost["self"] == ts.True || s.ghost["recent"] == ts.False || s.ghost["newer"] == ts.False || s.ghost["outdated"] != nil
				c.check("peer-kept", fn, s.retPos(), s, excuse, "newer information about a peer is ignored")
			case "CheckPeer":
				x.peerFacts(s, peer, self)
				r := x.truth(s, e.res[0])
				ok := r == ts.True && s.ghost["self"] == ts.False && s.ghost["recent"] == ts.True || r == ts.False && (s.ghost["self"] == ts.True || s.ghost["recent"] == ts.False)
				c.check("peer-usable", fn, s.retPos(), s, ok, "a peer is used exactly when it is another node and recent: not so here")
			}
		}
	}
}

// newer notes if the peer is newer than what is kept about it
func (x *Exec) newer(s *State, peer *Term) {
	ts := x.ts
	if s.ghost["looked"] == nil || s.ghost["newer"] != nil {
		return
	}
	if x.holds(s, ts.Not(s.ghost["#found"])) || s.ghost["#found"] == ts.False {
		s.SetGhost("newer", ts.True)
		return
	}
	old := s.ghost["#old"]
	for _, it := range s.f.items() { // something else is stored
		for _, t := range []*Term{it.a, it.b} {
			if t != nil && t.K == KOp && strings.HasPrefix(t.Op, "istype:") && len(t.A) > 0 && t.A[0] == old && x.holds(s, ts.Not(t)) {
				s.SetGhost("newer", ts.True)
				return
			}
			if t != nil && t.K == KInit && isFAddr(t.A[0], "Peer", "Timestamp") && unassert(t.A[0].A[0]) == old {
				p := x.field(s, peer, "Timestamp")
				if x.holds(s, ts.Cmp(LT, t, p)) {
					s.SetGhost("newer", ts.True)
					return
				}
				if x.holds(s, ts.Cmp(GT|EQ, t, p)) {
					s.SetGhost("newer", ts.False)
					s.SetGhost("outdated", ts.True)
					return
				}
			}
		}
	}
}

// peerSync: sources are other, recent nodes with the dataset they are a source of
func (c *Ctx) peerSync() {
	for _, n := range []string{"Join", "AddPeer"} {
		x := c.exec()
		x.on = func(s *State, e *Event) { c.peerFixed(s, e) }
		c.run(x, c.fn("node.(*Node)."+n), nil)
	}
	fn := c.fn("node.(*Node).SyncWithPeers")
	x := c.exec()
	ts := x.ts
	get := dsetT + "GetOrCreateIfNotExists"
	client := c.fn("node.GetDataSourceClient")
	x.opaque = func(f *ssa.Function) bool { return f != fn && exported(f) && f != client && fnPkg(f) != pbPath }
	addr := func(p *Term) *Term { return ts.OpT("addressOf", types.Typ[types.String], p) }
	fails := c.failing(func(cc *CallCtx) bool { return cc.name == get })
	settle := func(s *State, e *Event) {
		if s.ghost["usable"] == ts.True && s.ghost["address"] != ts.False {
			ok := s.ghost["all"] != nil && s.ghost["pending"] == nil
			c.check("peer-source", fn, e.Pos, s, ok, "a peer does not become the source of all of its datasets")
		}
	}
	x.model = func(x *Exec, s *State, cc *CallCtx) ([]Exit, bool) {
		switch cc.name {
		case nodeT + "CheckPeer":
			x.pre(s, cc)
			x.assume(s, ts.Cmp(NE, cc.args[1], ts.Nil), true) // the list holds no missing peer (C21)
			f := s.Fork()
			f.SetGhost("usable", ts.False)
			s.SetGhost("usable", ts.True)
			s.SetGhost("address", nil)
			s.SetGhost("#peer", cc.args[1])
			s.SetGhost("#di", ts.Zero)
			s.SetGhost("#list", nil)
			s.SetGhost("all", nil)
			s.SetGhost("#addr", nil)
			s.SetGhost("pending", nil)
			return []Exit{x.post(s, cc, ts.True), x.post(f, cc, ts.False)}, true
		case nodeT + "GetDifferentAddressOf":
			x.pre(s, cc)
			a := addr(cc.args[1])
			if cc.args[1] == s.ghost["#peer"] {
				s.SetGhost("#addr", a)
			}
			return []Exit{x.post(s, cc, a)}, true
		}
		return fails(x, s, cc)
	}
	usable := func(s *State) bool { return s.ghost["usable"] == ts.True && s.ghost["#peer"] != nil }
	x.on = func(s *State, e *Event) {
		c.peerFixed(s, e)
		switch e.Kind {
		case EvIter: // the loop over the known peers is the one in which they are judged
			if !opIs(e.Args[0], "cacheItems") {
				return
			}
			if e.Ok {
				s.SetGhost("loop", x.loopOf(e))
			} else if s.ghost["peers"] == x.loopOf(e) {
				s.SetGhost("peers", nil)
			}
		case EvBranch:
			if l := s.ghost["#list"]; usable(s) && l != nil && s.ghost["#di"] != nil && x.holds(s, ts.Cmp(GT|EQ, s.ghost["#di"], x.lenOf(s, l))) {
				s.SetGhost("all", ts.True)
			}
			if a := s.ghost["#addr"]; usable(s) && a != nil && s.ghost["address"] == nil {
				if x.holds(s, ts.Cmp(NE, a, ts.Str(""))) {
					s.SetGhost("address", ts.True)
				} else if x.holds(s, ts.Cmp(EQ, a, ts.Str(""))) {
					s.SetGhost("address", ts.False)
				}
			}
		case EvCall:
			switch e.Callee {
			case nodeT + "CheckPeer":
				settle(s, e)
				if s.ghost["peers"] == nil {
					s.SetGhost("peers", s.ghost["loop"])
				}
				s.SetGhost("#di", nil)
				s.SetGhost("#peer", nil)
				s.SetGhost("usable", nil)
			case get:
				i := s.ghost["#di"]
				c.check("peer-source", e.Fn, e.Pos, s, s.ghost["pending"] == nil, "a peer does not become the source of all of its datasets")
				ok := usable(s) && i != nil && s.ghost["#list"] != nil && e.Args[1] == x.elem(s, s.ghost["#list"], i)
				c.check("peer-source", e.Fn, e.Pos, s, ok, "a dataset is created that is not the next one of a peer known to be another node and recent")
				if i != nil {
					s.SetGhost("#di", ts.AddK(i, 1))
				}
				x.assume(s, ts.Cmp(NE, e.Args[1], ts.Nil), true) // no list holds a missing message (C21)
				s.SetGhost("all", nil)
				s.SetGhost("failed", nil)
				s.SetGhost("#config", e.Args[1])
			case dataT + "AddSource":
				c.check("peer-source", e.Fn, e.Pos, s, usable(s) && s.ghost["address"] == ts.True, "a source is added without making sure that it is another, recent node with an address")
				src := unIface(e.Args[1])
				ok := s.ghost["#data"] != nil && e.Args[0] == s.ghost["#data"] && s.ghost["#config"] != nil && usable(s) &&
					x.field(s, src, "Name") == x.field(s, s.ghost["#config"], "Name") && x.field(s, src, "IdOfPeer") == s.ghost["#addr"]
				c.check("peer-source", e.Fn, e.Pos, s, ok, "the source added is not the peer, with the dataset it is added to")
				s.SetGhost("pending", nil)
			case nodeT + "SendAddPeerRequest":
				ok := usable(s) && s.ghost["address"] == ts.True && e.Args[1] == s.ghost["#addr"]
				c.check("peer-source", e.Fn, e.Pos, s, ok, "a peer is used without making sure that it is another, recent node with an address")
			}
		case EvLoad:
			if usable(s) && isFAddr(e.Args[0], "Peer", "DataList") && e.Args[0].A[0] == s.ghost["#peer"] && s.ghost["#list"] == nil {
				s.SetGhost("#list", e.Res[0])
			}
		case EvRet:
			if e.Callee == get && s.ghost["failed"] == nil {
				s.SetGhost("pending", ts.True)
				s.SetGhost("#data", e.Res[0])
			}
		}
	}
	for _, e := range c.run(x, fn, nil) {
		settle(e.s, &Event{Fn: fn, Pos: e.s.retPos()})
		c.check("peer-source", fn, e.s.retPos(), e.s, e.s.ghost["peers"] == nil, "not all known peers are looked at")
	}
}

// joined: the elements of l are part of list t
func joined(t, l *Term) bool {
	switch {
	case t == l:
		return true
	case opIs(t, "append"):
		return joined(t.A[0], l) || joined(t.A[1], l)
	case opIs(t, "append1"):
		return joined(t.A[0], l)
	}
	return false
}

// peerFixed: what a peer told about itself, which is shared, is not changed
func (c *Ctx) peerFixed(s *State, e *Event) {
	if e.Kind != EvStore {
		return
	}
	peer := false
	for t := e.Args[0]; t != nil; {
		if t.K == KFAddr && namedOf(t.A[0].T) == "Peer" && !pbInternal(t.Op) {
			peer = true
		}
		if t.K == KFAddr || t.K == KIAddr || t.K == KInit {
			t = t.A[0]
			continue
		}
		c.check("peer-kept", e.Fn, e.Pos, s, !peer || t.K == KAlloc, "the information about a peer is changed")
		return
	}
}

// selfInfo: what a node tells about itself
func (c *Ctx) selfInfo() {
	fn := c.fn("node.(*Node).GetNodeInfo")
	x := c.exec()
	ts := x.ts
	x.inlineAll = true
	x.opaque = func(f *ssa.Function) bool {
		n := f.RelString(nil)
		return f != fn && (strings.HasPrefix(n, dsetT) || strings.HasPrefix(n, dataT) || strings.HasPrefix(n, nodeT) && exported(f))
	}
	var n *Term
	lists := []string{"KnownIds", "AdvertisedIds"}
	passed := func(s *State, f *ssa.Function, pos token.Pos) {
		c.check("self", f, pos, s, s.ghost["cand"] == nil || s.ghost["kept"] != nil || s.ghost["dup"] != nil, "an address of the node is left out although it is not in the list yet")
		for _, g := range []string{"cand", "kept", "dup", "marked", "other"} {
			s.SetGhost(g, nil)
		}
		s.SetGhost("#cand", nil)
		s.SetGhost("#other", nil)
	}
	res := map[string]string{nodeT + "ServiceListKeys": "ServiceList", dsetT + "DataConfigList": "DataList"}
	x.on = func(s *State, e *Event) {
		if e.Kind == EvRet && res[e.Callee] != "" {
			s.SetGhost("#"+res[e.Callee], e.Res[0])
		}
		if e.Kind == EvLoad && e.Args[0].K == KFAddr && e.Args[0].A[0] == n && (e.Args[0].Op == "KnownIds" || e.Args[0].Op == "AdvertisedIds") {
			s.SetGhost("#"+e.Args[0].Op, e.Res[0])
			s.SetGhost("#at-"+e.Args[0].Op, ts.Zero)
		}
		if e.Kind == EvAppend {
			for _, f := range lists {
				if g := s.ghost["#"+f]; g != nil && joined(e.Res[0], g) {
					s.SetGhost(f, ts.True)
				}
			}
			if s.ghost["KnownIds"] != nil && s.ghost["AdvertisedIds"] != nil && s.ghost["all"] == nil {
				s.SetGhost("#all", e.Res[0])
				s.SetGhost("all", ts.True)
				s.SetGhost("#at-all", ts.Zero)
			}
			if s.ghost["cand"] != nil && opIs(e.Res[0], "append1") && e.Res[0].A[1] == s.ghost["#cand"] {
				s.SetGhost("kept", ts.True)
			}
		}
		// an address that is passed over is already in the list
		if e.Kind == EvLoad && e.Args[0].K == KIAddr {
			for _, f := range append(lists, "all") {
				g, at := s.ghost["#"+f], s.ghost["#at-"+f]
				if g == nil || at == nil || e.Args[0].A[0] != g || !x.eq(s, e.Args[0].A[1], at) {
					continue
				}
				passed(s, e.Fn, e.Pos)
				s.SetGhost("#at-"+f, ts.AddK(at, 1))
				s.SetGhost("cand", ts.True)
				s.SetGhost("#cand", e.Res[0])
				return
			}
			if s.ghost["cand"] != nil {
				s.SetGhost("other", ts.True)
				s.SetGhost("#other", e.Res[0])
			}
		}
		if e.Kind == EvMapUpd && s.ghost["cand"] != nil && e.Args[1] == s.ghost["#cand"] {
			s.SetGhost("marked", ts.True)
		}
		if e.Kind == EvBranch && s.ghost["cand"] != nil && s.ghost["marked"] == nil {
			k := s.ghost["#cand"]
			if s.ghost["other"] != nil && x.holds(s, ts.Cmp(EQ, k, s.ghost["#other"])) {
				s.SetGhost("dup", ts.True)
			}
			walkTerm(e.Args[0], func(t *Term) {
				if (opIs(t, "haskey") || opIs(t, "lookup")) && t.A[1] == k && x.holds(s, t) {
					s.SetGhost("dup", ts.True)
				}
			})
		}
	}
	for _, e := range c.run(x, fn, func(s *State, a []*Term) { n = a[0] }) {
		s := e.s
		p := e.res[0]
		c.check("self", fn, s.retPos(), s, isNow(x.field(s, p, "Timestamp")), "the node announces itself with another time than the current one")
		for _, f := range []string{"ServiceList", "DataList"} {
			c.check("self", fn, s.retPos(), s, s.ghost["#"+f] != nil && x.field(s, p, f) == s.ghost["#"+f], "the node does not announce its %s", f)
		}
		passed(s, fn, s.retPos())
		a := x.field(s, p, "AddressList")
		walked := func(f string) bool {
			g, at := s.ghost["#"+f], s.ghost["#at-"+f]
			return g != nil && at != nil && x.holds(s, ts.Cmp(GT|EQ, at, x.lenOf(s, g)))
		}
		for _, f := range lists {
			ok := s.ghost[f] != nil && (s.ghost["all"] != nil && a == s.ghost["#all"] || walked("all")) || walked(f)
			c.check("self", fn, s.retPos(), s, ok && a != s.ghost["#KnownIds"] && a != s.ghost["#AdvertisedIds"], "the node does not announce its %s", f)
		}
	}
	// the id of a peer
	fn = c.fn("node.SerializeStringArray")
	x = c.exec()
	ts = x.ts
	x.inlineAll = true
	var list *Term
	sorts := func(n string) bool { return n == "sort.Strings" || n == "slices.Sort" }
	x.on = func(s *State, e *Event) {
		if e.Kind == EvCall && (strings.HasPrefix(e.Callee, "sort.") || strings.HasPrefix(e.Callee, "slices.Sort")) {
			c.check("peer-id", e.Fn, e.Pos, s, e.Args[0] != list && (e.Args[0].K != KIface || e.Args[0].A[0] != list), "the addresses of a peer are reordered for everybody who uses them")
			if sorts(e.Callee) {
				s.SetGhost("#sorted", e.Args[0])
			}
		}
		if e.Kind == EvStore && e.Args[0].K == KIAddr {
			c.check("peer-id", e.Fn, e.Pos, s, e.Args[0].A[0] != list, "the addresses of a peer are changed for everybody who uses them")
		}
	}
	for _, e := range c.run(x, fn, func(s *State, a []*Term) { list = a[0] }) {
		s := e.s
		r := e.res[0]
		ok := callIs(r, "strings.Join") && s.ghost["#sorted"] != nil && r.A[0] == s.ghost["#sorted"]
		if ok {
			sep, isC := r.A[1].strVal()
			ok = isC && sep != ""
		}
		c.check("peer-id", fn, s.retPos(), s, ok || x.holds(s, ts.Cmp(LT|EQ, x.lenOf(s, list), ts.Int(1))), "the id of a peer depends on the order of its addresses")
	}
}

// otherAddress: a peer is reached through an address that is not one of the node itself
func (c *Ctx) otherAddress() {
	fn := c.fn("node.(*Node).GetDifferentAddressOf")
	info := c.fn("node.(*Node).GetNodeInfo")
	x := c.exec()
	ts := x.ts
	x.inlineAll = true
	x.opaque = func(f *ssa.Function) bool { return f == info }
	var own, theirs *Term
	fresh := func(s *State) {
		for _, g := range []string{"cand", "own", "same", "absent"} {
			s.SetGhost(g, nil)
		}
		s.SetGhost("#own", nil)
		s.SetGhost("#j", ts.Zero)
	}
	known := func(s *State, k *Term) (is, not bool) {
		m := s.ghost["#known"]
		if m == nil || s.ghost["full"] == nil {
			return
		}
		args := []*Term{m, k}
		if e := x.epochOf(s, m); e != nil {
			args = append(args, e)
		}
		for _, op := range []string{"haskey", "lookup"} {
			t := ts.OpT(op, types.Typ[types.Bool], args...)
			is, not = is || x.holds(s, t), not || x.holds(s, ts.Not(t))
		}
		return
	}
	x.on = func(s *State, e *Event) {
		switch e.Kind {
		case EvRet:
			if e.CFn == info {
				x.assume(s, ts.Cmp(NE, e.Res[0], ts.Nil), true)
				own = x.field(s, e.Res[0], "AddressList")
				s.SetGhost("#list", own)
			}
		case EvLoad:
			a := e.Args[0]
			if a.K != KIAddr || own == nil {
				return
			}
			if a.A[0] == theirs && x.eq(s, a.A[1], s.ghost["#i"]) {
				c.check("peer-source", e.Fn, e.Pos, s, s.ghost["cand"] == nil || s.ghost["same"] != nil, "an address of a peer is passed over although it is not one of the node")
				fresh(s)
				s.SetGhost("cand", ts.True)
				s.SetGhost("#cand", e.Res[0])
				s.SetGhost("#i", ts.AddK(s.ghost["#i"], 1))
			}
			if a.A[0] == own && s.ghost["cand"] != nil && x.eq(s, a.A[1], s.ghost["#j"]) {
				s.SetGhost("own", ts.True)
				s.SetGhost("#own", e.Res[0])
			}
		case EvMapUpd:
			if own != nil && e.Args[1] == x.elem(s, own, s.ghost["#m"]) {
				s.SetGhost("set", ts.True)
				s.SetGhost("#known", e.Args[0])
				s.SetGhost("#m", ts.AddK(s.ghost["#m"], 1))
			}
		case EvBranch:
			if own == nil {
				return
			}
			if s.ghost["#known"] != nil && x.holds(s, ts.Cmp(GT|EQ, s.ghost["#m"], x.lenOf(s, own))) {
				s.SetGhost("full", ts.True)
			}
			if s.ghost["cand"] == nil {
				return
			}
			k := s.ghost["#cand"]
			if s.ghost["own"] != nil {
				o := s.ghost["#own"]
				switch {
				case x.holds(s, ts.Cmp(NE, k, o)):
					s.SetGhost("#j", ts.AddK(s.ghost["#j"], 1))
					s.SetGhost("own", nil)
				case x.holds(s, ts.Cmp(EQ, k, o)):
					s.SetGhost("same", ts.True)
					s.SetGhost("own", nil)
				}
			}
			is, not := known(s, k)
			if is {
				s.SetGhost("same", ts.True)
			}
			if not || s.ghost["own"] == nil && s.ghost["same"] == nil && x.holds(s, ts.Cmp(GT|EQ, s.ghost["#j"], x.lenOf(s, own))) {
				s.SetGhost("absent", ts.True)
			}
		}
	}
	for _, e := range c.run(x, fn, func(s *State, a []*Term) {
		x.assume(s, ts.Cmp(NE, a[1], ts.Nil), true)
		theirs = x.field(s, a[1], "AddressList")
		s.SetGhost("#i", ts.Zero)
		s.SetGhost("#j", ts.Zero)
		s.SetGhost("#m", ts.Zero)
	}) {
		s, r := e.s, e.res[0]
		if x.holds(s, ts.Cmp(EQ, r, ts.Str(""))) {
			ok := x.holds(s, ts.Cmp(GT|EQ, s.ghost["#i"], x.lenOf(s, theirs))) && (s.ghost["cand"] == nil || s.ghost["same"] != nil)
			c.check("peer-source", fn, s.retPos(), s, ok, "a peer is not used although it has an address that is not one of the node")
			continue
		}
		c.check("peer-source", fn, s.retPos(), s, s.ghost["absent"] != nil && r == s.ghost["#cand"], "a peer is used through an address that may be one of the node itself")
	}
}

// fromField: the value is loaded from the field
func fromField(v ssa.Value, typ, name string) bool {
	for {
		switch u := v.(type) {
		case *ssa.UnOp:
			v = u.X
		case *ssa.FieldAddr:
			if namedOf(u.X.Type()) == typ && fieldName(u) == name {
				return true
			}
			v = u.X
		default:
			return false
		}
	}
}

func init() {
	register("C23", "A node keeps what it knows about peers current: recent, newer than before, never itself.",
		[]string{"peer-kept", "peer-forgotten", "peer-usable", "peer-source", "self", "peer-id"}, func(c *Ctx) {
			c.peerList()
			c.peerSync()
			c.otherAddress()
			c.selfInfo()
		})
}

func fieldName(fa *ssa.FieldAddr) string {
	p, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	st, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return st.Field(fa.Field).Name()
}
