package main

// Life of stored data: expiry (C03), removal (C04), hand-over (C05),
// capacity (C06), replication (C07).

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// storedEntry: t is a value found in the map of stored data, as an entry
func storedEntry(t *Term) *Term {
	if t == nil || t.K != KOp || !strings.HasPrefix(t.Op, "assert:") || !strings.HasSuffix(t.Op, "data.DBMapEntry") {
		return nil
	}
	v := t.A[0]
	if (opIs(v, "rangeval") || opIs(v, "mapload")) && len(v.A) > 0 && isFAddr(v.A[0], "Data", "DBMap") {
		return v
	}
	return nil
}

// storedDatum: t is the datum of a stored entry; returns the entry
func storedDatum(t *Term) *Term {
	if t != nil && t.K == KInit && isFAddr(t.A[0], "DBMapEntry", "Datum") && storedEntry(t.A[0].A[0]) != nil {
		return t.A[0].A[0]
	}
	return nil
}

func init() {
	register("C03", "The expiry stored with a datum is the one its insert asked for, and a datum taken from the store reaches a result, a stream, an index or a peer only where its expiry is known to be in the future or absent.",
		[]string{"expiry-stored", "expired-not-delivered"}, func(c *Ctx) {
			insert := c.fn("data.(*Data).Insert")
			x := c.exec()
			x.limit = 400
			var config *Term
			x.on = func(s *State, e *Event) {
				keepNow(c, s, e)
				if op := dbmapOp(e); e.Kind == EvCall && isWrite(op) {
					ent := unIface(e.Args[len(e.Args)-1])
					exp := x.field(s, ent, "ExprireAt")
					c.check("expiry-stored", e.Fn, e.Pos, s, x.requestedExpiry(s, exp, config), "the stored expiry %v is not what the TTL asks for (0 for none, now + TTL, or the end of time when that does not fit)", exp)
				}
			}
			c.run(x, insert, func(s *State, a []*Term) { config = a[2] })
			for _, n := range []string{"data.(*Data).StreamAll", "data.(*Data).StreamSearch", "data.(*Data).Process"} {
				fn := c.fn(n)
				x := c.exec()
				x.opaque = c.light()
				sink := func(s *State, e *Event, d *Term) {
					ent := storedDatum(d)
					if ent == nil {
						return
					}
					exp := x.field(s, ent, "ExprireAt")
					c.check("expired-not-delivered", e.Fn, e.Pos, s, x.unexpired(s, exp), "a stored datum is handed out here although it may have expired")
				}
				x.on = func(s *State, e *Event) {
					keepNow(c, s, e)
					switch e.Kind {
					case EvStore:
						if e.Args[0].K != KAlloc {
							sink(s, e, e.Args[1])
						}
					case EvSend:
						sink(s, e, e.Args[1])
					}
				}
				c.run(x, fn, nil)
			}
		})

	register("C04", "Stored data is removed only by a delete of that key, once its expiry has passed, or after a peer acknowledged that very datum while the dataset is closing or above its eviction threshold; expiry and eviction never remove a newer datum of the same key.",
		[]string{"removal"}, func(c *Ctx) {
			seen := map[string]bool{}
			entries := []string{"data.(*Data).Insert", "data.(*Data).Delete", "data.(*Data).Process", "data.(*Data).StreamAll", "data.(*Data).StreamSearch", "data.(*Data).Close", "data.(*Data).CheckIfActive"}
			for _, n := range entries {
				fn := c.fn(n)
				isDelete := strings.HasSuffix(n, ".Delete")
				x := c.exec()
				light := c.light()
				proc := c.fn("data.(*Data).Process")
				x.opaque = func(f *ssa.Function) bool { return light(f) || f == proc && fn != proc }
				var prm *Term
				if n == "data.(*Data).Process" {
					x.pure = nil
				}
				x.on = func(s *State, e *Event) {
					keepNow(c, s, e)
					if e.Kind == EvRet && e.Callee == ifaceSrc+"Insert" {
						s.SetGhost("#ackd", e.Args[1])
						s.SetGhost("#acke", e.Res[0])
						return
					}
					op := dbmapOp(e)
					if e.Kind != EvCall || !isRemoval(op) {
						return
					}
					seen[c.p.pos(e.Pos)] = true
					if op == "Clear" {
						c.check("removal", e.Fn, e.Pos, s, false, "removes everything")
						return
					}
					k := unIface(e.Args[1])
					if isDelete {
						c.check("removal", e.Fn, e.Pos, s, keyOf(k) != nil && x.keyOfDatum(s, k, prm), "deletes the key %v, not the one of the datum given", k)
						return
					}
					c.check("removal", e.Fn, e.Pos, s, op == "CompareAndDelete", "%s removes whatever is stored under the key by now, possibly a newer datum", op)
					if op != "CompareAndDelete" {
						return
					}
					v := e.Args[2]
					ent := entryOf(x, c.p, v)
					if x.sameRange(k, v) && x.expired(s, x.field(s, ent, "ExprireAt")) {
						c.check("removal", e.Fn, e.Pos, s, true, "")
						return
					}
					why := x.evictable(s, k, v, ent)
					c.check("removal", e.Fn, e.Pos, s, why == "", "removes stored data although %s", why)
					s.SetGhost("#evicted", x.ts.AddK(s.ghost["#evicted"], 1))
				}
				c.run(x, fn, func(s *State, a []*Term) {
					if len(a) > 1 {
						prm = a[1]
					}
					s.SetGhost("#evicted", x.ts.Zero)
				})
			}
			// removal compares entries, so an entry must not be changed once it is stored
			for _, f := range c.p.funcs {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						st, ok := in.(*ssa.Store)
						if !ok {
							continue
						}
						fa, ok := st.Addr.(*ssa.FieldAddr)
						if ok && namedOf(fa.X.Type()) == "DBMapEntry" {
							c.check("entry-fixed", f, in.Pos(), nil, c.madeHere(fa.X, 0), "an entry that may be stored is changed, so that its removal may remove a newer datum")
						}
					}
				}
			}
			// all removals of the source must have been looked at
			for _, f := range c.p.funcs {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						call, ok := in.(ssa.CallInstruction)
						if !ok {
							continue
						}
						cf := call.Common().StaticCallee()
						if cf == nil || !strings.HasPrefix(cf.RelString(nil), syncMap) || !isRemoval(cf.Name()) {
							continue
						}
						fa, ok := call.Common().Args[0].(*ssa.FieldAddr)
						if !ok || fieldOf(fa.X.Type(), fa.Field).Name() != "DBMap" {
							continue
						}
						c.check("removal-reached", f, in.Pos(), nil, seen[c.p.pos(in.Pos())], "stored data is removed here, outside of delete, expiry and hand-over")
					}
				}
			}
		})

	register("C05", "What is handed over to a peer or replicated is a stored datum with the time it has left: never more, at least one second when it expires at all, no expiry when it has none, and marked so that the receiver does not replicate it again.",
		[]string{"handover-ttl", "handover-pair", "replica-config"}, func(c *Ctx) {
			fn := c.fn("data.(*Data).Process")
			x := c.exec()
			x.opaque = c.light()
			ts := x.ts
			handed := []string{"InsertDatumWithConfig", "InsertConfig"}
			x.on = func(s *State, e *Event) {
				keepNow(c, s, e)
				if e.Kind == EvIter {
					s.SetGhost("ttl-left", nil)
					s.SetGhost("counted", nil)
					s.SetGhost("#cur", nil)
					for _, n := range handed {
						s.SetGhost("new-"+n, nil)
						s.SetGhost("#new-"+n, nil)
					}
					if e.Ok && len(e.Args) > 2 && isFAddr(e.Args[0], "Data", "DBMap") {
						s.SetGhost("#cur", e.Args[2])
						s.SetGhost("in-range", ts.True)
					} else {
						s.SetGhost("in-range", nil)
					}
				}
				// every datum is handed over with a pair and options made for it, since the receiver reads them later
				if e.Kind == EvAlloc && s.ghost["in-range"] != nil {
					for _, n := range handed {
						if namedOf(e.Args[0].T) == n {
							s.SetGhost("new-"+n, ts.True)
							s.SetGhost("#new-"+n, e.Args[0])
						}
					}
				}
				if e.Kind == EvStore && s.ghost["in-range"] != nil {
					for _, n := range handed {
						if a := e.Args[0]; a.K == KFAddr && namedOf(a.A[0].T) == n {
							c.check("handover-pair", e.Fn, e.Pos, s, s.ghost["new-"+n] != nil && s.ghost["#new-"+n] == a.A[0], "what was already handed over is changed, the peer may get another datum or other options")
						}
					}
				}
				if e.Kind == EvStore && isFAddr(e.Args[0], "InsertConfig", "TTL") && s.ghost["in-range"] != nil {
					ent := entryOf(x, c.p, s.ghost["#cur"])
					s.SetGhost("ttl-left", nil)
					if x.ttlLeft(s, e.Args[1], x.field(s, ent, "ExprireAt")) {
						s.SetGhost("ttl-left", ts.True)
						s.SetGhost("#ttl-cfg", e.Args[0].A[0])
					}
				}
				if e.Kind == EvStore && isFAddr(e.Args[0], "InsertConfig", "Count") && s.ghost["in-range"] != nil {
					s.SetGhost("counted", nil)
					if x.holds(s, ts.Cmp(GT|EQ, e.Args[1], ts.Int(1))) {
						s.SetGhost("counted", ts.True)
						s.SetGhost("#count-cfg", e.Args[0].A[0])
					}
				}
				if e.Kind == EvRecv && e.Ok && len(e.Res) > 0 && namedOf(e.Res[0].T) == "InsertDatumWithConfig" {
					x.assume(s, ts.Cmp(NE, e.Res[0], ts.Nil), true) // judged where it is sent
				}
				if e.Kind == EvSend && namedOf(e.Args[1].T) == "InsertDatumWithConfig" {
					m := e.Args[1]
					d, cfg := x.field(s, m, "Datum"), x.field(s, m, "Config")
					ent := storedDatum(d)
					if !c.check("handover-ttl", e.Fn, e.Pos, s, ent != nil && x.nonNil(s, cfg), "what is handed over is not a stored datum with a config") {
						return
					}
					c.check("handover-ttl", e.Fn, e.Pos, s, s.ghost["ttl-left"] != nil && s.ghost["#ttl-cfg"] == cfg && ent == entryOf(x, c.p, s.ghost["#cur"]) || x.ttlLeft(s, x.field(s, cfg, "TTL"), x.field(s, ent, "ExprireAt")), "the TTL %v handed over is not the time the datum has left", x.field(s, cfg, "TTL"))
					for _, n := range handed {
						s.SetGhost("new-"+n, nil)
					}
					c.check("handover-ttl", e.Fn, e.Pos, s, s.ghost["counted"] != nil && s.ghost["#count-cfg"] == cfg || x.holds(s, ts.Cmp(GT|EQ, x.field(s, cfg, "Count"), ts.Int(1))), "the receiver may replicate the datum again (Count %v)", x.field(s, cfg, "Count"))
				}
				if e.Kind == EvCall && e.Callee == ifaceSrc+"Insert" {
					d, cfg := e.Args[1], e.Args[2]
					cfg = x.unclone(s, cfg)
					if cfg.K == KAlloc { // a config made of that of the pair
						if ttl, n := x.field(s, cfg, "TTL"), x.field(s, cfg, "Count"); isField(ttl, "InsertConfig", "TTL") && x.holds(s, ts.Cmp(GT|EQ, n, ts.Int(1))) {
							cfg = baseOf(ttl, "InsertConfig", "TTL")
						} else if isField(ttl, "InsertConfig", "TTL") && isField(n, "InsertConfig", "Count") && baseOf(ttl, "InsertConfig", "TTL") == baseOf(n, "InsertConfig", "Count") {
							cfg = baseOf(ttl, "InsertConfig", "TTL")
						}
					}
					ok := isField(d, "InsertDatumWithConfig", "Datum") && isField(cfg, "InsertDatumWithConfig", "Config") && baseOf(d, "InsertDatumWithConfig", "Datum") == baseOf(cfg, "InsertDatumWithConfig", "Config")
					if ent := storedDatum(d); !ok && ent != nil {
						ok = x.ttlLeft(s, x.field(s, cfg, "TTL"), x.field(s, ent, "ExprireAt")) && x.holds(s, ts.Cmp(GT|EQ, x.field(s, cfg, "Count"), ts.Int(1)))
					}
					c.check("handover-pair", e.Fn, e.Pos, s, ok, "the peer is not given the datum and the config that belong together")
				}
			}
			c.run(x, fn, nil)
			if f := c.opt("data.InsertConfigFromExpireAt"); f != nil {
				z := c.exec()
				var at *Term
				z.on = func(s *State, e *Event) { keepNow(c, s, e) }
				for _, e := range c.run(z, f, func(s *State, a []*Term) { at = a[0] }) {
					cfg := e.res[0]
					c.check("handover-ttl", f, e.s.retPos(), e.s, z.nonNil(e.s, cfg) && z.ttlLeft(e.s, z.field(e.s, cfg, "TTL"), at), "the TTL is not the time left until the expiry given")
					c.check("handover-ttl", f, e.s.retPos(), e.s, z.holds(e.s, ts.Cmp(GT|EQ, z.field(e.s, cfg, "Count"), ts.Int(1))), "the receiver may replicate the datum again")
				}
			}
			ins := c.fn("data.(*Data).Insert")
			y := c.exec()
			y.limit = 400
			var datum, config *Term
			var ttl0 *Term
			y.on = func(s *State, e *Event) {
				if e.Kind == EvCall && e.Callee == ifaceSrc+"Insert" {
					d, cfg := e.Args[1], e.Args[2]
					ttl := y.field(s, cfg, "TTL")
					okT := ttl == ttl0 && y.nonNil(s, config)
					if k, isC := constInt(ttl); isC && k == 0 {
						okT = okT || y.isNil(s, config) || y.holds(s, y.ts.Cmp(EQ, ttl0, y.ts.Zero))
					}
					c.check("replica-config", e.Fn, e.Pos, s, d == datum && okT, "the replica does not get the inserted datum with its TTL (same datum %v, TTL %v)", d == datum, ttl)
					c.check("replica-config", e.Fn, e.Pos, s, y.holds(s, y.ts.Cmp(GT|EQ, y.field(s, cfg, "Count"), y.ts.Int(1))), "the receiver may replicate the datum again")
				}
			}
			c.run(y, ins, func(s *State, a []*Term) { datum, config = a[1], a[2]; ttl0 = y.field(s, config, "TTL") })
		})

	register("C06", "A datum is added to a dataset only while the dataset has no target size or counts fewer data than its target.",
		[]string{"capacity", "store-reached"}, func(c *Ctx) {
			seen := map[string]bool{}
			fn := c.fn("data.(*Data).Insert")
			x := c.exec()
			x.limit = 400
			x.on = func(s *State, e *Event) {
				if op := dbmapOp(e); e.Kind == EvCall && isWrite(op) {
					seen[c.p.pos(e.Pos)] = true
					c.check("capacity", e.Fn, e.Pos, s, x.hasRoom(s), "stores a datum although the dataset may have reached its target size")
					s.SetGhost("stored", x.ts.True)
				}
			}
			var datum *Term
			for _, e := range c.run(x, fn, func(s *State, a []*Term) { datum = a[1] }) {
				s := e.s
				if !x.nonNil(s, e.res[0]) || s.ghost["stored"] != nil || x.isNil(s, datum) || x.isNil(s, x.field(s, datum, "Key")) {
					continue
				}
				c.check("capacity", fn, s.retPos(), s, x.hasRoom(s) && !x.countedOut(s) || x.isFull(s), "refuses a datum although the dataset may have no target size or room left")
			}
			for _, f := range c.p.funcs {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						call, ok := in.(ssa.CallInstruction)
						if !ok {
							continue
						}
						cf := call.Common().StaticCallee()
						if cf == nil || !strings.HasPrefix(cf.RelString(nil), syncMap) || !isWrite(cf.Name()) {
							continue
						}
						fa, ok := call.Common().Args[0].(*ssa.FieldAddr)
						if !ok || fieldOf(fa.X.Type(), fa.Field).Name() != "DBMap" {
							continue
						}
						c.check("store-reached", f, in.Pos(), nil, seen[c.p.pos(in.Pos())], "data is stored here, not through an insert that checks the capacity")
					}
				}
			}
			// helpers that store must not be entered past the check
			for _, f := range c.p.funcs {
				if f == fn || f.Name() == "init" {
					continue
				}
				for _, g := range c.storers() {
					if g == fn {
						continue
					}
					if callsFn(f, g) && !c.onlyFrom(f, fn, map[*ssa.Function]bool{}) {
						c.check("store-reached", f, f.Pos(), nil, false, "calls %s without the capacity check of an insert", fnName(g))
					}
				}
			}
		})

	register("C07", "With enforced replication, a first-hand insert succeeds only when the configured number of copies (the local one included) was acknowledged, each by one call to one peer; the caller's config is left alone.",
		[]string{"replicas", "config-unchanged"}, func(c *Ctx) {
			fn := c.fn("data.(*Data).Insert")
			x := c.exec()
			x.limit = 200
			var dt, config, count0 *Term
			ts := x.ts
			var enf, need *Term
			// once true it stays true: acknowledgements only add up
			enough := func(s *State) bool {
				return x.holds(s, ts.Not(enf)) || x.nonNil(s, config) && x.holds(s, ts.Cmp(NE, count0, ts.Zero)) ||
					x.holds(s, ts.Cmp(LT|EQ, need, ts.AddK(s.ghost["#acks"], 1)))
			}
			x.on = func(s *State, e *Event) {
				switch e.Kind {
				case EvIter:
					if e.Ok {
						s.SetGhost("fresh-source", ts.True)
					}
				case EvRet:
					if e.Callee == ifaceSrc+"Insert" {
						s.SetGhost("#last", e.Res[0])
						s.SetGhost("pending", ts.True)
						c.check("replicas", e.Fn, e.Pos, s, s.ghost["fresh-source"] == ts.True, "the same peer may be asked again and counted as several copies")
					}
				case EvBranch:
					if l := s.ghost["#last"]; l != nil && s.ghost["pending"] == ts.True {
						if x.isNil(s, l) {
							s.SetGhost("#acks", ts.AddK(s.ghost["#acks"], 1))
							s.SetGhost("pending", nil)
							s.SetGhost("fresh-source", nil)
						} else if x.nonNil(s, l) {
							s.SetGhost("pending", nil)
						}
					}
					if s.ghost["enough"] == nil && enough(s) {
						s.SetGhost("enough", ts.True)
					}
				case EvStore:
					if config != nil && within(e.Args[0], config) {
						c.check("config-unchanged", e.Fn, e.Pos, s, false, "the config of the caller is changed")
					}
				}
			}
			ex := c.run(x, fn, func(s *State, a []*Term) {
				dt, config = a[0], a[2]
				s.SetGhost("#acks", ts.Zero)
				count0 = x.field(s, config, "Count")
				cfg := x.field(s, dt, "Config")
				enf, need = x.field(s, cfg, "EnforceReplicationOnInsert"), x.field(s, cfg, "ReplicationOnInsert")
			})
			for _, e := range ex {
				if x.nonNil(e.s, e.res[0]) {
					continue
				}
				s := e.s
				ok := s.ghost["enough"] == ts.True || enough(s)
				c.check("replicas", fn, s.retPos(), s, ok, "the insert succeeds with %v acknowledged copies besides the local one, which may be fewer than the dataset asks for", s.ghost["#acks"])
				c.check("config-unchanged", fn, s.retPos(), s, true, "")
			}
		})
}

// sameRange: k and v were handed out together by an iteration
func (x *Exec) sameRange(k, v *Term) bool {
	v = unIface(v)
	if v != nil && v.K == KOp && strings.HasPrefix(v.Op, "assert:") {
		v = v.A[0]
	}
	return opIs(k, "rangekey") && opIs(v, "rangeval") && len(v.A) > 1 && v.A[1] == k
}

// evictable explains why an entry must not be evicted ("" if it may)
func (x *Exec) evictable(s *State, k, v, ent *Term) string {
	ts := x.ts
	d := s.ghost["#ackd"]
	if d == nil {
		return "no peer was given the datum, and it is not known to have expired"
	}
	if !x.isNil(s, s.ghost["#acke"]) {
		return "the peer did not acknowledge the datum"
	}
	kp := keyOf(k)
	if kp == nil || kp.K != KInit || kp.A[0].A[0] != d {
		return "the key is not the one of the datum the peer acknowledged"
	}
	if v = unIface(v); v.K == KOp && strings.HasPrefix(v.Op, "assert:") {
		v = v.A[0]
	}
	if !opIs(v, "mapload") || !x.eq(s, x.field(s, ent, "Datum"), d) {
		return "what is stored is not known to be the datum the peer acknowledged"
	}
	alive := false
	evict := false
	for _, it := range s.f.items() {
		if it.kind == 3 && isField(it.a, "Data", "Alive") && !it.v {
			alive = true
		}
	}
	if alive {
		return ""
	}
	noTarget := true
	for _, it := range s.f.items() {
		if it.kind == 3 && isField(it.a, "DataConfig", "NoTarget") && !it.v {
			noTarget = false
		}
		if it.kind != 0 || it.a == nil || it.b == nil || it.c > 0 {
			continue
		}
		thr := unconv(it.a)
		if it.a.K != KOp || !strings.HasPrefix(it.a.Op, "conv:uint") || thr.K != KOp || thr.Op != "*" {
			continue
		}
		okT := false
		for i := 0; i < 2; i++ {
			if isField(unconv(thr.A[i]), "DataConfig", "TargetN") && isField(thr.A[1-i], "DataConfig", "TargetUtilization") {
				okT = true
			}
		}
		if !okT {
			continue
		}
		b, off, _ := lin(it.b)
		if b == nil || off+it.c > 0 {
			continue
		}
		if b.K == KOp && b.Op == "-" && isField(b.A[0], "Data", "N") {
			ev := s.ghost["#evicted"]
			if ev != nil && (x.eq(s, b.A[1], ev) || x.holds(s, ts.Cmp(GT|EQ, b.A[1], ev))) {
				evict = true
			}
		}
		if isField(b, "Data", "N") {
			if n, ok := constInt(s.ghost["#evicted"]); ok && n == -off {
				evict = true
			}
		}
	}
	if noTarget || !evict {
		return sprintf("the dataset is neither closing nor known to be above its eviction threshold (target known %v, above threshold after what was evicted %v)", !noTarget, evict)
	}
	return ""
}

// isZero: t is known to be zero, itself or converted to 64 bits
func (x *Exec) isZero(s *State, t *Term) bool {
	if x.holds(s, x.ts.Cmp(EQ, t, x.ts.Zero)) {
		return true
	}
	for _, it := range s.f.items() {
		for _, o := range []*Term{it.a, it.b} {
			if o != nil && o != t && unconv(o) == t && is64(o) && x.holds(s, x.ts.Cmp(EQ, o, x.ts.Zero)) {
				return true
			}
		}
	}
	return false
}

func (x *Exec) nonZero(s *State, t *Term) bool {
	if x.holds(s, x.ts.Cmp(NE, t, x.ts.Zero)) || x.holds(s, x.ts.Cmp(GT, t, x.ts.Zero)) {
		return true
	}
	for _, it := range s.f.items() {
		for _, o := range []*Term{it.a, it.b} {
			if o != nil && o != t && unconv(o) == t && is64(o) && (x.holds(s, x.ts.Cmp(NE, o, x.ts.Zero)) || x.holds(s, x.ts.Cmp(GT, o, x.ts.Zero))) {
				return true
			}
		}
	}
	return false
}

func is64(t *Term) bool {
	for t.K == KOp && strings.HasPrefix(t.Op, "conv") && len(t.A) == 1 {
		if t.Op != "conv:uint64" && t.Op != "conv:int64" {
			return false
		}
		t = t.A[0]
	}
	return true
}

// ttlLeft: ttl is the remaining time of an expiry
func (x *Exec) ttlLeft(s *State, ttl, exp *Term) bool {
	ts := x.ts
	if x.isZero(s, exp) {
		return x.holds(s, ts.Cmp(EQ, ttl, ts.Zero))
	}
	if k, ok := constInt(ttl); ok {
		return k == 1 && !x.isZero(s, exp) && x.nonZero(s, exp)
	}
	b, off, _ := lin(unconv(ttl))
	if b == nil || b.K != KOp || b.Op != "-" || off != 0 {
		return false
	}
	if unconv(b.A[0]) != exp || !isNow(b.A[1]) {
		return false
	}
	// no wrap-around
	return x.holds(s, ts.Cmp(GT, b.A[0], ts.AddK(b.A[1], -off))) || off == 0 && x.holds(s, ts.Cmp(GT, exp, unconv(b.A[1])))
}

// hasRoom: the dataset is known to be below its target or without one
func (x *Exec) hasRoom(s *State) bool {
	for _, it := range s.f.items() {
		if it.kind == 3 && isField(it.a, "DataConfig", "NoTarget") && it.v {
			return true
		}
		if it.kind == 0 && it.a != nil && it.b != nil && isField(it.a, "Data", "N") && isField(it.b, "DataConfig", "TargetN") && it.c <= -1 {
			return true
		}
	}
	return false
}

// isFull: the dataset has a target size and has reached it
func (x *Exec) isFull(s *State) bool {
	target, full := false, false
	for _, it := range s.f.items() {
		target = target || it.kind == 3 && isField(it.a, "DataConfig", "NoTarget") && !it.v
		full = full || it.kind == 0 && isField(it.a, "DataConfig", "TargetN") && isField(it.b, "Data", "N") && it.c <= 0
	}
	return target && full
}

// countedOut: the count of a dataset without target size was tested
func (x *Exec) countedOut(s *State) bool {
	no := false
	var n *Term
	for _, it := range s.f.items() {
		no = no || it.kind == 3 && isField(it.a, "DataConfig", "NoTarget") && it.v
		for _, t := range []*Term{it.a, it.b} {
			if isField(t, "Data", "N") {
				n = t
			}
		}
	}
	if !no || n == nil {
		return false
	}
	k, ok := s.f.diffBound(x.ts.Zero, n)
	return ok && k < 0
}

// storers: functions that write to the map of stored data themselves
func (c *Ctx) storers() []*ssa.Function {
	var l []*ssa.Function
	for _, f := range c.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					cf := call.Common().StaticCallee()
					if cf == nil || !strings.HasPrefix(cf.RelString(nil), syncMap) || !isWrite(cf.Name()) {
						continue
					}
					if fa, ok := call.Common().Args[0].(*ssa.FieldAddr); ok && fieldOf(fa.X.Type(), fa.Field).Name() == "DBMap" {
						l = append(l, f)
					}
				}
			}
		}
	}
	return l
}

func callsFn(f, g *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok && call.Common().StaticCallee() == g {
				return true
			}
		}
	}
	return false
}

// onlyFrom: f is called by nobody but (transitively) root
func (c *Ctx) onlyFrom(f, root *ssa.Function, seen map[*ssa.Function]bool) bool {
	if f == root || seen[f] {
		return true
	}
	seen[f] = true
	if f.Object() != nil && f.Object().Exported() {
		return false
	}
	n := 0
	for _, g := range c.p.funcs {
		if callsFn(g, f) {
			n++
			if !c.onlyFrom(g, root, seen) {
				return false
			}
		}
	}
	return n > 0
}

// madeHere: the object was made by the function itself, or by those that call it
func (c *Ctx) madeHere(v ssa.Value, depth int) bool {
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.Phi:
		for _, e := range v.Edges {
			if depth > 3 || !c.madeHere(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if al, ok := v.X.(*ssa.Alloc); ok { // a variable
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == al && (depth > 3 || !c.madeHere(st.Val, depth+1)) {
					return false
				}
			}
			return true
		}
	case *ssa.Parameter:
		f := v.Parent()
		if exported(f) || depth > 3 {
			return false
		}
		i := -1
		for k, p := range f.Params {
			if p == v {
				i = k
			}
		}
		n := 0
		for _, g := range c.p.funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(ssa.CallInstruction); ok && call.Common().StaticCallee() == f {
						n++
						if !c.madeHere(call.Common().Args[i], depth+1) {
							return false
						}
					}
				}
			}
		}
		return n > 0
	}
	return false
}
