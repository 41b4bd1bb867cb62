package main

// Remote procedures: streamed answers (C20), reported failures (C30).

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	nodeT  = "(*" + modPath + "/node.Node)."
	ifaceP = "iface:(" + pbPath + "."
)

// invokes: the function calls the method of an interface, in itself or in what it calls
func (p *Prog) invokes(fn *ssa.Function, method string, seen map[*ssa.Function]bool) bool {
	if fn == nil || seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if cc := ci.Common(); cc.IsInvoke() && cc.Method.Name() == method {
				return true
			}
		}
	}
	for _, e := range p.graph().out[fn] {
		if p.inRepo(e.to) && fnPkg(e.to) != pbPath && p.invokes(e.to, method, seen) {
			return true
		}
	}
	return false
}

// remote: the call of a remote procedure of a peer
func remote(n, method string) bool {
	n = strings.TrimPrefix(n, "iface:")
	return n == "("+pbPath+".VeriServiceClient)."+method || n == "(*"+pbPath+".veriServiceClient)."+method
}

func errResult(sig *types.Signature) int {
	n := sig.Results().Len()
	if n > 0 && isErr(sig.Results().At(n-1).Type()) {
		return n - 1
	}
	return -1
}

// failing models calls that either succeed, with everything they return being
// there, or fail with an error, which is noted in the state
func (c *Ctx) failing(want func(cc *CallCtx) bool) func(x *Exec, s *State, cc *CallCtx) ([]Exit, bool) {
	return func(x *Exec, s *State, cc *CallCtx) ([]Exit, bool) {
		k := errResult(cc.sig)
		if k < 0 || !want(cc) {
			return nil, false
		}
		ts := x.ts
		x.pre(s, cc)
		for i, a := range cc.args {
			if i > 0 || !cc.iface {
				x.escape(s, a)
			}
		}
		mk := func(t *State, fail bool) Exit {
			var l []*Term
			for i, rt := range resTypes(cc.sig) {
				switch {
				case i == k && !fail:
					l = append(l, ts.Nil)
				case i == k:
					e := ts.Fresh("failure", rt, cc.instr.Pos())
					x.assume(t, ts.Cmp(NE, e, ts.Nil), true)
					l = append(l, e)
				case fail && isPtr(rt):
					l = append(l, ts.Nil)
				default:
					r := ts.Fresh("result", rt, cc.instr.Pos())
					if isPtr(rt) {
						x.assume(t, ts.Cmp(NE, r, ts.Nil), true)
					}
					l = append(l, r)
				}
			}
			if fail {
				t.SetGhost("failed", ts.Str(cc.name))
			}
			return x.post(t, cc, l...)
		}
		f := s.Fork()
		return []Exit{mk(s, false), mk(f, true)}, true
	}
}

// sendsErr: the function sends an error to a channel
func sendsErr(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Send); ok && isErr(s.X.Type()) {
				return true
			}
		}
	}
	return false
}

// unclone: what an unchanged copy was made of
func (x *Exec) unclone(s *State, t *Term) *Term {
	for t != nil && t.K == KAlloc && t.Op == "clone" && len(t.A) == 1 {
		if _, ok := x.sameFields(s, t, t.A[0]); !ok {
			break
		}
		t = t.A[0]
	}
	return t
}

// dataStream: everything stored is sent, or the call fails (C20)
func (c *Ctx) dataStream() {
	fn := c.fn("node.(*Node).DataStream")
	x := c.exec()
	ts := x.ts
	getters := func(n string) bool { return strings.HasPrefix(n, dsetT+"Get") }
	x.opaque = func(f *ssa.Function) bool { return getters(f.RelString(nil)) }
	send := ifaceP + "VeriService_DataStreamServer).Send"
	x.model = c.failing(func(cc *CallCtx) bool { return getters(cc.name) || cc.name == send })
	settle := func(s *State, e *Event) {
		if s.ghost["open"] != nil {
			c.check("stream-data", e.Fn, e.Pos, s, s.ghost["offered"] != nil || s.ghost["excused"] != nil || s.ghost["failed"] != nil, "a stored datum is skipped although it has not expired")
		}
		s.SetGhost("offered", nil)
		s.SetGhost("excused", nil)
		s.SetGhost("open", nil)
	}
	passOn := func(s *State, e *Event) {
		if s.ghost["got"] != nil {
			seen := s.ghost["#seen"] // an earlier failure kept in a shared variable
			c.check("stream-data", e.Fn, e.Pos, s, s.ghost["failed"] != nil || seen != nil && x.nonNil(s, seen), "a datum taken from the stream of stored data is not sent")
		}
		s.SetGhost("got", nil)
	}
	deliver := func(s *State, e *Event, d *Term) {
		if s.ghost["open"] != nil {
			d = x.unclone(s, d)
		}
		c.check("stream-data", e.Fn, e.Pos, s, s.ghost["open"] != nil && s.ghost["offered"] == nil && d == x.field(s, entryOf(x, c.p, s.ghost["#cur"]), "Datum"), "what is sent is not the stored datum, once")
		s.SetGhost("offered", ts.True)
	}
	isDatum := func(t *Term) bool { return namedOf(t.T) == "Datum" }
	x.on = func(s *State, e *Event) {
		keepNow(c, s, e)
		switch e.Kind {
		case EvIter:
			if len(e.Args) < 3 || !isFAddr(e.Args[0], "Data", "DBMap") {
				return
			}
			settle(s, e)
			if e.Ok {
				s.SetGhost("open", ts.True)
				s.SetGhost("#cur", e.Args[2])
				return
			}
			s.SetGhost("scanned", ts.True)
			c.check("stream-data", e.Fn, e.Pos, s, !e.Write || s.ghost["failed"] != nil, "not all stored data is looked at")
		case EvBranch:
			if s.ghost["open"] == nil || s.ghost["excused"] != nil {
				return
			}
			ent := entryOf(x, c.p, s.ghost["#cur"])
			if x.expired(s, x.field(s, ent, "ExprireAt")) || x.isNil(s, ent) || x.isNil(s, x.field(s, ent, "Datum")) || !storedIsEntry(x, s, s.ghost["#cur"]) {
				s.SetGhost("excused", ts.True)
			}
		case EvSend:
			if isDatum(e.Args[1]) {
				c.check("stream-data", e.Fn, e.Pos, s, s.ghost["closed"] == nil, "a datum is sent to a closed channel")
				deliver(s, e, e.Args[1])
			}
			if ch, ok := e.Args[0].T.Underlying().(*types.Chan); ok && isErr(ch.Elem()) && s.thread != "" {
				c.check("stream-error", e.Fn, e.Pos, s, s.ghost["failed"] == nil || x.nonNil(s, e.Args[1]), "the failure of sending is lost")
				s.SetGhost("handed", ts.True)
			}
		case EvCall:
			if e.Callee != send {
				return
			}
			d := e.Args[len(e.Args)-1]
			if s.ghost["got"] != nil {
				c.check("stream-data", e.Fn, e.Pos, s, d == s.ghost["#got"], "what is sent is not the datum taken from the stream of stored data")
				s.SetGhost("got", nil)
			} else {
				deliver(s, e, d)
			}
		case EvRecv:
			if len(e.Res) == 0 {
				return
			}
			t := e.Args[0].T
			if ch, ok := t.Underlying().(*types.Chan); ok && namedOf(ch.Elem()) == "Datum" {
				passOn(s, e)
				if e.Ok {
					s.SetGhost("got", ts.True)
					s.SetGhost("#got", e.Res[0])
				} else {
					s.SetGhost("end", ts.True)
				}
			}
			if s.ghost["thread"] != nil && s.thread == "" {
				s.SetGhost("joined", ts.True)
				if isErr(e.Res[0].T) {
					s.SetGhost("#err", e.Res[0])
				}
			}
		case EvLoad:
			if v, ok := e.Instr.(ssa.Value); ok && isErr(v.Type()) && s.thread != "" {
				s.SetGhost("#seen", e.Res[0])
			}
			if v, ok := e.Instr.(ssa.Value); ok && s.ghost["joined"] != nil && isErr(v.Type()) && e.Args[0].K == KAlloc {
				s.SetGhost("#err", e.Res[0])
			}
		case EvRet:
			if e.Callee == wgT+"Wait" && s.ghost["thread"] != nil {
				s.SetGhost("joined", ts.True)
			}
		case EvClose:
			s.SetGhost("closed", ts.True)
		case EvGo:
			if c.p.invokes(e.CFn, "Send", map[*ssa.Function]bool{}) {
				s.SetGhost("thread", ts.True)
			}
		case EvThreadEnd:
			if c.p.invokes(e.CFn, "Send", map[*ssa.Function]bool{}) {
				passOn(s, e)
				c.check("stream-data", e.Fn, e.Pos, s, s.ghost["end"] != nil, "the sending thread ends before the stream of stored data does, which blocks the other side")
				c.check("stream-error", e.Fn, e.Pos, s, s.ghost["handed"] != nil || !sendsErr(e.CFn), "the sending thread ends without telling how it went, which blocks the other side")
			}
		}
	}
	ex := c.run(x, fn, nil)
	for _, e := range ex {
		s := e.s
		ok := x.nonNil(s, e.res[0])
		if s.ghost["thread"] != nil {
			c.check("stream-error", fn, s.retPos(), s, s.ghost["closed"] != nil && s.ghost["joined"] != nil, "the call returns while its data is still being sent")
			err := s.ghost["#err"]
			c.check("stream-error", fn, s.retPos(), s, ok || s.ghost["failed"] == nil && err != nil && (err == e.res[0] || x.isNil(s, err)), "the call succeeds although sending may have failed")
		}
		if !ok {
			c.check("stream-data", fn, s.retPos(), s, s.ghost["failed"] == nil && s.ghost["scanned"] != nil, "the call succeeds although a part of it failed")
		}
	}
}

// searchStream: every result is sent, in order, or the call fails
func (c *Ctx) searchStream() {
	fn := c.fn("node.(*Node).SearchStream")
	x := c.exec()
	ts := x.ts
	x.opaque = func(f *ssa.Function) bool {
		n := f.RelString(nil)
		return n == multiFn || strings.HasPrefix(n, dsetT+"Get")
	}
	send := ifaceP + "VeriService_SearchStreamServer).Send"
	x.model = c.failing(func(cc *CallCtx) bool {
		return cc.name == multiFn || cc.name == send || strings.HasPrefix(cc.name, dsetT+"Get")
	})
	x.on = func(s *State, e *Event) {
		switch e.Kind {
		case EvRet:
			if e.Callee == multiFn && s.ghost["failed"] == nil {
				s.SetGhost("#list", e.Res[0])
				s.SetGhost("list", ts.True)
				s.SetGhost("#i", ts.Zero)
			}
		case EvCall:
			if e.Callee != send {
				return
			}
			i := s.ghost["#i"]
			if s.ghost["list"] == nil || i == nil {
				c.check("stream-result", e.Fn, e.Pos, s, false, "something is sent that is no result of the search")
				return
			}
			c.check("stream-result", e.Fn, e.Pos, s, s.ghost["failed"] == nil && e.Args[len(e.Args)-1] == x.elem(s, s.ghost["#list"], i), "what is sent is not the next result of the search")
			s.SetGhost("#i", ts.AddK(i, 1))
		}
	}
	ex := c.run(x, fn, func(s *State, a []*Term) { x.assume(s, ts.Cmp(NE, a[1], ts.Nil), true) })
	for _, e := range ex {
		s := e.s
		if x.nonNil(s, e.res[0]) {
			continue
		}
		c.check("stream-error", fn, s.retPos(), s, s.ghost["failed"] == nil, "the call succeeds although a part of it failed")
		if s.ghost["list"] != nil {
			c.check("stream-result", fn, s.retPos(), s, x.holds(s, ts.Cmp(GT|EQ, s.ghost["#i"], x.lenOf(s, s.ghost["#list"]))), "not every result of the search is sent")
		}
	}
}

// peerStream: every result a peer sends is passed on
func (c *Ctx) peerStream() {
	fn := c.fn("node.(*DataSourceClient).StreamSearch")
	x := c.exec()
	ts := x.ts
	recv := ifaceP + "VeriService_SearchStreamClient).Recv"
	x.opaque = clientOpaque
	x.model = c.failing(func(cc *CallCtx) bool { return cc.name == recv || remote(cc.name, "SearchStream") })
	settle := func(s *State, e *Event, fn *ssa.Function) {
		c.check("stream-peer", fn, e.Pos, s, s.ghost["got"] == nil, "a result of a peer is not passed on")
	}
	var out *Term
	x.on = func(s *State, e *Event) {
		switch e.Kind {
		case EvCall:
			if e.Callee == recv {
				settle(s, e, e.Fn)
				c.check("stream-peer", e.Fn, e.Pos, s, s.ghost["failed"] == nil, "an ended stream is read again")
			}
		case EvRet:
			if e.Callee == recv && x.isNil(s, e.Res[1]) {
				s.SetGhost("got", ts.True)
				s.SetGhost("#got", e.Res[0])
			}
			if remote(e.Callee, "SearchStream") && s.ghost["failed"] == nil {
				s.SetGhost("opened", ts.True)
			}
		case EvSend:
			if e.Args[0] != out && namedOf(e.Args[1].T) != "ScoredDatum" {
				return
			}
			c.check("stream-peer", e.Fn, e.Pos, s, s.ghost["got"] != nil && e.Args[1] == s.ghost["#got"], "what is passed on is not the result received, once")
			s.SetGhost("got", nil)
		case EvStore:
			if g := s.ghost["#got"]; g != nil && within(e.Args[0], g) {
				c.check("stream-peer", e.Fn, e.Pos, s, false, "a result of a peer is changed")
			}
		}
	}
	ex := c.run(x, fn, func(s *State, a []*Term) { out = a[2] })
	for _, e := range ex {
		s := e.s
		settle(s, &Event{Pos: s.retPos()}, fn)
		if s.ghost["opened"] != nil {
			c.check("stream-peer", fn, s.retPos(), s, s.ghost["failed"] != nil, "the stream of a peer is left before its end")
		}
	}
}

func init() {
	register("C20", "Data and results are streamed completely, unchanged and in order, or the call fails.",
		[]string{"stream-data", "stream-error", "stream-result", "stream-peer"}, func(c *Ctx) {
			c.dataStream()
			c.searchStream()
			c.peerStream()
		})
}

// answers: success is reported only when it was one, with an answer (C30)
func (c *Ctx) answers() {
	hs := c.handlers()
	for fn := range hs {
		fn := fn
		x := c.exec()
		ts := x.ts
		x.opaque = func(f *ssa.Function) bool {
			return f != fn && errResult(f.Signature) >= 0 && exported(f) && (fnPkg(f) == modPath+"/data" || fnPkg(f) == modPath+"/node") && !strings.HasSuffix(f.RelString(nil), ".StreamAll")
		}
		joins := fn.Name() == "Join" // a node is told its address even if it is not added
		x.model = c.failing(func(cc *CallCtx) bool {
			if joins {
				return false
			}
			return cc.cfn != nil && c.p.inRepo(cc.cfn) && x.opaque(cc.cfn) || strings.HasPrefix(cc.name, ifaceP)
		})
		var req *Term
		about := fn.Name() == "GetDataInfo" || fn.Name() == "DataStream" || fn.Name() == "CreateDataIfNotExists"
		x.on = func(s *State, e *Event) {
			switch e.Kind {
			case EvCall:
				if e.Callee == nodeT+"AddPeerElement" {
					c.check("target", e.Fn, e.Pos, s, e.Args[1] == x.field(s, req, "Peer"), "another peer is added than the one of the request")
					s.SetGhost("peer", ts.True)
				}
				if about && isGetter(e.Callee) && len(e.Args) > 1 {
					ok := e.Args[1] == req || e.Args[1] == x.field(s, req, "Name")
					c.check("target", e.Fn, e.Pos, s, ok, "another dataset is used than the one of the request")
				}
				if about && e.Callee == dataT+"GetDataInfo" {
					c.check("target", e.Fn, e.Pos, s, s.ghost["#dt"] != nil && e.Args[0] == s.ghost["#dt"], "the information is not about the dataset of the request")
				}
			case EvRet:
				if about && isGetter(e.Callee) && len(e.Args) > 1 {
					s.SetGhost("#dt", e.Res[0])
				}
				if about && e.Callee == dataT+"GetDataInfo" {
					s.SetGhost("informed", ts.True)
					s.SetGhost("#info", e.Res[0])
				}
			}
		}
		opq := x.opaque
		x.opaque = func(f *ssa.Function) bool {
			return opq(f) || about && f.RelString(nil) == dataT+"GetDataInfo"
		}
		ex := c.run(x, fn, func(s *State, a []*Term) {
			for _, t := range a {
				if isPbPtr(t.T) {
					x.assume(s, ts.Cmp(NE, t, ts.Nil), true)
					if req == nil {
						req = t
					}
				}
			}
		})
		k := errResult(fn.Signature)
		for _, e := range ex {
			s := e.s
			if x.nonNil(s, e.res[k]) {
				c.check("failure", fn, s.retPos(), s, true, "")
				continue
			}
			f := ""
			if g := s.ghost["failed"]; g != nil {
				f = short(g.String())
			}
			c.check("failure", fn, s.retPos(), s, f == "", "success is reported although %s failed", f)
			if k == 1 {
				if about {
					c.check("answer", fn, s.retPos(), s, s.ghost["informed"] != nil && e.res[0] == s.ghost["#info"], "the answer is not the information about the dataset")
				} else {
					c.check("answer", fn, s.retPos(), s, x.nonNil(s, e.res[0]), "success is reported without an answer")
				}
				if fn.Name() == "Join" || fn.Name() == "AddPeer" {
					c.check("answer", fn, s.retPos(), s, s.ghost["peer"] != nil, "success is reported without looking at the peer")
				}
			}
		}
	}
	// requests to other nodes
	for _, q := range []struct{ fn, method, field string }{
		{"node.(*Node).SendJoinRequest", "Join", ""},
		{"node.(*Node).SendAddPeerRequest", "AddPeer", ""},
		{"node.(*Node).SendPingRequest", "Ping", ""},
		{"node.(*DataSourceClient).Insert", "Insert", "IdOfPeer"},
		{"node.(*DataSourceClient).GetDataInfo", "GetDataInfo", "IdOfPeer"},
	} {
		fn := c.fn(q.fn)
		x := c.exec()
		ts := x.ts
		x.opaque = func(f *ssa.Function) bool {
			return strings.HasPrefix(f.RelString(nil), "(*"+modPath+"/util.Connection") || strings.HasPrefix(f.RelString(nil), clientT)
		}
		x.model = c.failing(func(cc *CallCtx) bool { return remote(cc.name, q.method) })
		var to, obj *Term
		var args []*Term
		x.on = func(s *State, e *Event) {
			switch e.Kind {
			case EvCall:
				if e.Callee == "google.golang.org/grpc.Dial" || e.Callee == "google.golang.org/grpc.DialContext" {
					c.check("target", e.Fn, e.Pos, s, e.Args[0] == to || e.Args[len(e.Args)-2] == to, "another node is connected to than the one asked for")
				}
				if strings.HasPrefix(e.Callee, "(*"+modPath+"/util.Connection") && strings.HasSuffix(e.Callee, ".Get") {
					c.check("target", e.Fn, e.Pos, s, e.Args[1] == to, "another node is connected to than the one asked for")
				}
				if remote(e.Callee, q.method) && q.method == "GetDataInfo" {
					req := e.Args[2]
					c.check("target", e.Fn, e.Pos, s, x.field(s, req, "Name") == x.field(s, obj, "Name"), "the information of another dataset is asked for")
				}
				if remote(e.Callee, q.method) && q.method == "Insert" {
					req := e.Args[2]
					ok := x.field(s, req, "DataName") == x.field(s, obj, "Name") && x.field(s, req, "Datum") == args[1] && x.field(s, req, "Config") == args[2]
					c.check("target", e.Fn, e.Pos, s, ok, "something else is inserted than the datum given, into the dataset of the source")
				}
				if remote(e.Callee, q.method) && q.method == "AddPeer" {
					c.check("target", e.Fn, e.Pos, s, x.field(s, e.Args[2], "Peer") == obj, "another peer is announced")
				}
			case EvRet:
				if remote(e.Callee, q.method) && s.ghost["failed"] == nil {
					s.SetGhost("called", ts.True)
					s.SetGhost("#answer", e.Res[0])
				}
			}
		}
		ex := c.run(x, fn, func(s *State, a []*Term) {
			to, obj, args = a[1%len(a)], a[len(a)-1], a
			if q.field != "" {
				obj = a[0]
				to = x.field(s, a[0], q.field)
			}
		})
		for _, e := range ex {
			s := e.s
			if q.method == "GetDataInfo" {
				ok := x.isNil(s, e.res[0]) || s.ghost["called"] != nil && e.res[0] == s.ghost["#answer"]
				c.check("called", fn, s.retPos(), s, ok, "the information is not the answer of the peer")
				c.check("called", fn, s.retPos(), s, s.ghost["called"] == nil || e.res[0] == s.ghost["#answer"], "the answer of the peer is not returned")
				continue
			}
			c.check("called", fn, s.retPos(), s, x.nonNil(s, e.res[0]) || s.ghost["called"] != nil, "success is reported although the peer did not answer without error")
			c.check("called", fn, s.retPos(), s, !x.nonNil(s, e.res[0]) || s.ghost["called"] == nil, "a failure is reported although the peer answered without error")
		}
	}
}

func init() {
	register("C30", "A remote procedure reports success only when everything it did succeeded, and then with an answer; a request to a peer goes to that peer and succeeds only when the peer answered without error.",
		[]string{"failure", "answer", "target", "called"}, func(c *Ctx) { c.answers() })
}
