package main

// Properties of the local store: acknowledged inserts, keys, expiry,
// eviction, capacity, replication.

import (
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	syncMap   = "(*sync.Map)."
	dataT     = "(*" + modPath + "/data.Data)."
	dsetT     = "(*" + modPath + "/data.Dataset)."
	clientT   = "(*" + pbPath + ".veriServiceClient)."
	ifaceSrc  = "iface:(" + modPath + "/data.DataSource)."
	marshalK  = gencPath + "MarshalKey"
	marshalV  = gencPath + "MarshalValue"
	cacheItem = "cache."
)

// dbmapOp: an operation on the map of stored data of a dataset
func dbmapOp(e *Event) string {
	if strings.HasPrefix(e.Callee, syncMap) && len(e.Args) > 0 && isFAddr(e.Args[0], "Data", "DBMap") {
		return strings.TrimPrefix(e.Callee, syncMap)
	}
	return ""
}

func isRemoval(op string) bool {
	switch op {
	case "Delete", "LoadAndDelete", "CompareAndDelete", "Clear":
		return true
	}
	return false
}

func isWrite(op string) bool {
	switch op {
	case "Store", "LoadOrStore", "Swap", "CompareAndSwap":
		return true
	}
	return false
}

// keyOf returns the datum key a map key was made of
func keyOf(k *Term) *Term {
	k = unIface(k)
	if opIs(k, "bytes2string") && callIs(k.A[0], marshalK) && len(k.A[0].A) == 1 {
		return k.A[0].A[0]
	}
	return nil
}

// keyOfDatum: map key k is the encoded key of datum d
func (x *Exec) keyOfDatum(s *State, k, d *Term) bool {
	kp := keyOf(k)
	return kp != nil && (kp == x.field(s, d, "Key") || isField(kp, "Datum", "Key") && kp.K == KInit && kp.A[0].A[0] == d)
}

// requestedExpiry: e is the expiry time an insert with this config asks for
func (x *Exec) requestedExpiry(s *State, e, config *Term) bool {
	ts := x.ts
	ttl := x.field(s, config, "TTL")
	none := x.isNil(s, config) || x.holds(s, ts.Cmp(EQ, ttl, ts.Zero))
	if v, ok := constInt(e); ok {
		if v == 0 {
			return none
		}
		if v == math.MaxInt64 && !none {
			// only when the sum does not fit
			for _, o := range x.related(s, ttl) {
				u := unconv(o)
				if x.holds(s, ts.Cmp(GT|EQ, ttl, o)) && u.K == KOp && u.Op == "-" && len(u.A) == 2 && isNow(u.A[1]) {
					if k, ok := constInt(u.A[0]); ok && k == math.MaxInt64 {
						return true
					}
				}
			}
			return false
		}
		return false
	}
	if x.mayBeNil(s, config) {
		return false
	}
	b, off, ok := lin(e)
	if !ok || off != 0 || b.K != KOp || b.Op != "+" {
		return false
	}
	u, v := unconv(b.A[0]), unconv(b.A[1])
	if isNow(u) {
		u, v = v, u
	}
	if u != ttl || !isNow(v) {
		return false
	}
	// the sum must fit
	for _, o := range x.related(s, ttl) {
		w := unconv(o)
		if x.holds(s, ts.Cmp(LT|EQ, ttl, o)) && w.K == KOp && w.Op == "-" && len(w.A) == 2 && isNow(w.A[1]) && unconv(w.A[1]) == v {
			if k, ok := constInt(w.A[0]); ok && k <= math.MaxInt64 {
				return true
			}
		}
		if k, ok := constInt(o); ok && k < 1<<62 && x.holds(s, ts.Cmp(LT|EQ, ttl, o)) {
			return true
		}
	}
	if k, ok := s.f.diffBound(ttl, ts.Zero); ok && k < 1<<62 {
		return true
	}
	return false
}

func (x *Exec) mayBeNil(s *State, t *Term) bool { return !x.nonNil(s, t) }

// unexpired: an expiry time lies in the future or is none
// (a stored expiry is never negative: rule expiry-stored)
func (x *Exec) unexpired(s *State, exp *Term) bool {
	if x.holds(s, x.ts.Cmp(LT|EQ, exp, x.ts.Zero)) {
		return true
	}
	for _, o := range x.related(s, exp) {
		if isNow(o) && x.holds(s, x.ts.Cmp(GT, exp, o)) {
			return true
		}
	}
	return false
}

func (x *Exec) expired(s *State, exp *Term) bool {
	if !x.holds(s, x.ts.Cmp(NE, exp, x.ts.Zero)) && !x.holds(s, x.ts.Cmp(GT, exp, x.ts.Zero)) {
		return false
	}
	for _, o := range x.related(s, exp) {
		if isNow(o) && x.holds(s, x.ts.Cmp(LT|EQ, exp, o)) {
			return true
		}
	}
	return false
}

// sameValue: the values of two data are known to be equal
func (x *Exec) sameValue(s *State, a, b *Term) bool {
	va, vb := x.field(s, a, "Value"), x.field(s, b, "Value")
	if x.eq(s, va, vb) {
		return true
	}
	if x.holds(s, x.ts.OpT("protoequal", types.Typ[types.Bool], va, vb)) || x.holds(s, x.ts.OpT("protoequal", types.Typ[types.Bool], vb, va)) {
		return true
	}
	label := false
	for _, pr := range x.equalPairs(s) {
		for i := 0; i < 2; i++ {
			p, q := pr[i], pr[1-i]
			if callIs(p, marshalV) && callIs(q, marshalV) && len(p.A) > 0 && len(q.A) > 0 && p.A[0] == va && q.A[0] == vb {
				return true
			}
			if p == x.field(s, va, "Label") && q == x.field(s, vb, "Label") {
				label = true
			}
		}
	}
	return label && x.eq(s, x.field(s, va, "Version"), x.field(s, vb, "Version"))
}

func entryOf(x *Exec, p *Prog, v *Term) *Term {
	n := p.typ("data.DBMapEntry")
	if n == nil {
		return nil
	}
	v = unIface(v)
	if v.K == KAlloc {
		return v
	}
	t := typesPtr(n)
	if v.K == KOp && v.Op == "assert:"+t.String() {
		return v
	}
	return x.ts.OpT("assert:"+t.String(), t, v)
}

func init() {
	register("C01", "An insert that is acknowledged stored the datum (or found it stored).",
		[]string{"ack-stored", "store-entry", "ack-forwarded", "client-ack"}, func(c *Ctx) {
			insert := c.fn("data.(*Data).Insert")
			x := c.exec()
			var dt, datum, config *Term
			bad := ""
			x.on = func(s *State, e *Event) {
				keepNow(c, s, e)
				c.asGiven(x, s, e, "store-entry", datum)
				if old := s.ghost["#old"]; old != nil && e.Kind == EvBranch && s.ghost["found"] == nil {
					ent := entryOf(x, c.p, old)
					exp := x.field(s, ent, "ExprireAt")
					if x.sameValue(s, datum, x.field(s, ent, "Datum")) && x.unexpired(s, exp) && x.closeExpiry(s, exp, config) {
						s.SetGhost("found", x.ts.True)
					}
				}
				op := dbmapOp(e)
				if op == "" || e.Kind != EvRet {
					return
				}
				switch {
				case isWrite(op):
					val := unIface(e.Args[len(e.Args)-1])
					okKey := e.Args[0].A[0] == dt && x.keyOfDatum(s, e.Args[1], datum)
					okVal := x.field(s, val, "Datum") == datum
					okOp := op == "Store" || op == "Swap"
					c.check("store-entry", e.Fn, e.Pos, s, okKey && okVal && okOp, "%s does not put the inserted datum under its own key (key ok: %v, datum ok: %v)", op, okKey, okVal)
					if okKey && okVal && okOp {
						s.SetGhost("stored", x.ts.True)
					}
				case op == "Load":
					if len(e.Res) > 1 && e.Res[1] == x.ts.True && e.Args[0].A[0] == dt && x.keyOfDatum(s, e.Args[1], datum) {
						s.SetGhost("#old", e.Res[0])
					}
				case isRemoval(op):
					s.SetGhost("stored", nil)
					s.SetGhost("found", nil)
					s.SetGhost("#old", nil)
					bad = op
				}
			}
			ex := c.run(x, insert, func(s *State, a []*Term) { dt, datum, config = a[0], a[1], a[2] })
			for _, e := range ex {
				if len(e.res) != 1 || x.nonNil(e.s, e.res[0]) {
					continue
				}
				ok := e.s.ghost["stored"] == x.ts.True || e.s.ghost["found"] == x.ts.True
				why := "the datum is neither stored on this path nor known to be stored already (same key, same value, not expired, same expiry)"
				if bad != "" {
					why += ", or is removed again by " + bad
				}
				c.check("ack-stored", insert, e.s.retPos(), e.s, ok, "Insert reports success but %s", why)
			}
			// the remote procedure
			ni := c.fn("node.(*Node).Insert")
			x = c.exec()
			x.opaque = func(f *ssa.Function) bool {
				n := f.RelString(nil)
				return n == dataT+"Insert" || strings.HasPrefix(n, dsetT)
			}
			var req, node *Term
			x.on = func(s *State, e *Event) {
				c.asGiven(x, s, e, "ack-forwarded", req)
				if e.Kind != EvRet {
					return
				}
				if strings.HasPrefix(e.Callee, dsetT+"Get") && len(e.Res) > 0 {
					name := e.Args[len(e.Args)-1]
					if name == x.field(s, req, "DataName") {
						s.SetGhost("#ds", e.Res[0])
					}
				}
				if e.Callee == dataT+"Insert" {
					ok := e.Args[0] == s.ghost["#ds"] && e.Args[1] == x.field(s, req, "Datum") && e.Args[2] == x.field(s, req, "Config")
					c.check("ack-forwarded", e.Fn, e.Pos, s, ok, "the request's datum and config are not what is inserted into the dataset the request names")
					s.SetGhost("#ins", e.Res[0])
				}
			}
			ex = c.run(x, ni, func(s *State, a []*Term) {
				node, req = a[0], a[2]
				_ = node
				x.assume(s, x.ts.Cmp(NE, req, x.ts.Nil), true)
			})
			for _, e := range ex {
				if x.nonNil(e.s, e.res[1]) {
					continue
				}
				r := e.s.ghost["#ins"]
				c.check("ack-forwarded", ni, e.s.retPos(), e.s, r != nil && x.isNil(e.s, r), "the insert call reports success although the dataset did not accept the datum")
			}
			// the client side used for peers
			ci := c.fn("node.(*DataSourceClient).Insert")
			x = c.exec()
			x.opaque = clientOpaque
			var cl, dm, cf *Term
			x.on = func(s *State, e *Event) {
				c.asGiven(x, s, e, "client-ack", dm, cf)
				if e.Kind == EvRet && e.Callee == clientT+"Insert" {
					r := e.Args[2]
					ok := x.field(s, r, "Datum") == dm && x.field(s, r, "Config") == cf && x.field(s, r, "DataName") == x.field(s, cl, "Name")
					c.check("client-ack", e.Fn, e.Pos, s, ok, "the request sent to the peer does not carry the datum, config and dataset name given")
					s.SetGhost("#ins", e.Res[1])
				}
			}
			ex = c.run(x, ci, func(s *State, a []*Term) { cl, dm, cf = a[0], a[1], a[2] })
			for _, e := range ex {
				if x.nonNil(e.s, e.res[0]) {
					continue
				}
				r := e.s.ghost["#ins"]
				c.check("client-ack", ci, e.s.retPos(), e.s, r != nil && (r == e.res[0] || x.isNil(e.s, r)), "success is reported although the peer did not acknowledge the insert")
			}
		})
}

// asGiven: what was given to an insert is not changed (a missing value is
// filled in)
func (c *Ctx) asGiven(x *Exec, s *State, e *Event, rule string, given ...*Term) {
	var a *Term
	switch {
	case e.Kind == EvStore:
		a = e.Args[0]
		if a.K == KFAddr && (pbInternal(a.Op) || a.Op == "Value" && x.isNil(s, x.field(s, a.A[0], "Value"))) {
			return
		}
	case e.Kind == EvCall && e.Callee == "builtin:copy":
		a = e.Args[0]
	}
	for t := a; t != nil; {
		switch {
		case t.K == KFAddr || t.K == KIAddr || t.K == KInit || t.K == KOp && (t.Op == "slice" || t.Op == "append1" || t.Op == "append"):
			t = t.A[0]
			continue
		}
		for _, g := range given {
			if t == g {
				c.check(rule, e.Fn, e.Pos, s, false, "what is inserted is changed (%v)", a)
			}
		}
		return
	}
}

// keepNow keeps what is known about the current time alive
func keepNow(c *Ctx, s *State, e *Event) {
	if e.Kind == EvRet && e.Callee == "(time.Time).Unix" && len(e.Res) == 1 && isNow(e.Res[0]) {
		s.SetGhost("#now:"+c.p.pos(e.Pos), e.Res[0])
	}
}

func clientOpaque(f *ssa.Function) bool {
	n := f.RelString(nil)
	return strings.HasPrefix(n, clientT) || strings.HasPrefix(n, "(*"+modPath+"/util.Connection")
}

// closeExpiry: an existing expiry is within ten seconds of the requested one
func (x *Exec) closeExpiry(s *State, exp, config *Term) bool {
	if x.requestedExpiry(s, exp, config) {
		return true
	}
	seen := map[*Term]bool{}
	for _, it := range s.f.items() {
		for _, t := range []*Term{it.a, it.b} {
			if t == nil || seen[t] {
				continue
			}
			seen[t] = true
			b, _, _ := lin(t)
			if b == nil || b.K != KOp || b.Op != "-" || len(b.A) != 2 {
				continue
			}
			var o *Term
			if b.A[0] == exp {
				o = b.A[1]
			} else if b.A[1] == exp {
				o = b.A[0]
			} else {
				continue
			}
			hi, ok1 := s.f.diffBound(b, x.ts.Zero)
			lo, ok2 := s.f.diffBound(x.ts.Zero, b)
			rev, ok3 := s.f.diffBound(x.ts.OpT("-", b.T, b.A[1], b.A[0]), x.ts.Zero)
			if ok1 && hi <= 10 && (ok2 && lo <= 10 || ok3 && rev <= 10) && x.requestedExpiry(s, o, config) {
				return true
			}
		}
	}
	// no expiry asked for and an existing one that is none either
	if x.requestedExpiry(s, x.ts.Zero, config) && x.holds(s, x.ts.Cmp(EQ, exp, x.ts.Zero)) {
		return true
	}
	// never expiring in practice
	if lo, ok := s.f.diffBound(x.ts.Zero, exp); ok && lo <= -(math.MaxInt64-10) && x.requestedExpiry(s, x.ts.Int(math.MaxInt64), config) {
		return true
	}
	// 0 - exp folds into a bound on exp
	if x.requestedExpiry(s, x.ts.Zero, config) {
		hi, ok1 := s.f.diffBound(exp, x.ts.Zero)
		lo, ok2 := s.f.diffBound(x.ts.Zero, exp)
		return ok1 && ok2 && hi <= 10 && lo <= 10
	}
	return false
}

var _ = token.NoPos
