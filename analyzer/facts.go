package main

// Facts of one abstract state: difference bounds between integer terms,
// order/equality masks between other terms, truth values of boolean terms.

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"
)

type edge struct{ a, b *Term } // a - b <= c, nil is zero

type pair struct{ a, b *Term } // a.ID < b.ID

type Facts struct {
	dbm   map[edge]int64
	adj   map[*Term][]*Term // b -> a's with an edge (a,b)
	neq   map[edge]int64set // a - b not in set
	rel   map[pair]uint8
	bools map[*Term]bool
}

type int64set map[int64]bool

func NewFacts() *Facts {
	return &Facts{dbm: map[edge]int64{}, neq: map[edge]int64set{}, rel: map[pair]uint8{}, bools: map[*Term]bool{}}
}

func (f *Facts) Copy() *Facts {
	n := &Facts{dbm: make(map[edge]int64, len(f.dbm)+4), neq: make(map[edge]int64set, len(f.neq)), rel: make(map[pair]uint8, len(f.rel)+4), bools: make(map[*Term]bool, len(f.bools)+4)}
	for k, v := range f.dbm {
		n.dbm[k] = v
	}
	for k, v := range f.neq {
		c := int64set{}
		for x := range v {
			c[x] = true
		}
		n.neq[k] = c
	}
	for k, v := range f.rel {
		n.rel[k] = v
	}
	for k, v := range f.bools {
		n.bools[k] = v
	}
	return n
}

func mkPair(a, b *Term) (pair, bool) {
	if a.ID > b.ID {
		return pair{b, a}, true
	}
	return pair{a, b}, false
}

func (f *Facts) adjacency() map[*Term][]*Term {
	if f.adj == nil {
		f.adj = map[*Term][]*Term{}
		for e := range f.dbm {
			f.adj[e.b] = append(f.adj[e.b], e.a)
		}
	}
	return f.adj
}

// nonneg: values that can not be negative by construction
func nonneg(t *Term) bool {
	if t == nil {
		return false
	}
	if t.K == KOp && (t.Op == "len" || t.Op == "cap") {
		return true
	}
	if t.K == KLin {
		return false
	}
	return isUnsigned(t.T) && !(t.K == KOp && t.Op == "-")
}

// bound returns the least c known with a - b <= c (bases only)
func (f *Facts) bound(a, b *Term) (int64, bool) {
	if a == b {
		return 0, true
	}
	adj := f.adjacency()
	dist := map[*Term]int64{b: 0}
	work := []*Term{b}
	steps := 0
	relax := func(from, to *Term, w int64) {
		d, ok := addOv(dist[from], w)
		if !ok {
			return
		}
		if o, ok := dist[to]; !ok || d < o {
			dist[to] = d
			work = append(work, to)
		}
	}
	for len(work) > 0 && steps < 4000 {
		steps++
		n := work[0]
		work = work[1:]
		for _, m := range adj[n] {
			relax(n, m, f.dbm[edge{m, n}])
		}
		// 0 - n <= 0 for non negative n : edge (nil, n)
		if n != nil && nonneg(n) {
			relax(n, nil, 0)
		}
	}
	d, ok := dist[a]
	return d, ok
}

// diffBound: least c with x - y <= c for arbitrary integer terms
func (f *Facts) diffBound(x, y *Term) (int64, bool) {
	bx, ox, _ := lin(x)
	by, oy, _ := lin(y)
	c, ok := f.bound(bx, by)
	if !ok {
		return 0, false
	}
	r, ok := addOv(c, ox)
	if !ok || oy == math.MinInt64 {
		return 0, false
	}
	return addOvr(r, -oy)
}

func addOvr(a, b int64) (int64, bool) { return addOv(a, b) }

// addDiff records x - y <= c; false if contradictory
func (f *Facts) addDiff(x, y *Term, c int64) bool {
	bx, ox, _ := lin(x)
	by, oy, _ := lin(y)
	c, ok := addOv(c, -ox)
	if !ok {
		return true
	}
	c, ok = addOv(c, oy)
	if !ok {
		return true
	}
	if bx == by {
		return c >= 0
	}
	if r, ok := f.bound(by, bx); ok {
		if s, ok := addOv(r, c); ok && s < 0 {
			return false
		}
	}
	if r, ok := f.bound(bx, by); ok && r <= c {
		return true
	}
	f.dbm[edge{bx, by}] = c
	f.adj = nil
	// sharpen with disequalities
	for {
		changed := false
		if s, ok := f.neq[edge{bx, by}]; ok {
			if r, ok := f.bound(bx, by); ok && s[r] {
				f.dbm[edge{bx, by}] = r - 1
				f.adj = nil
				changed = true
			}
		}
		if s, ok := f.neq[edge{by, bx}]; ok {
			if r, ok := f.bound(bx, by); ok && s[-r] {
				f.dbm[edge{bx, by}] = r - 1
				f.adj = nil
				changed = true
			}
		}
		if !changed {
			break
		}
		if r, ok := f.bound(by, bx); ok {
			if s, ok2 := f.bound(bx, by); ok2 && r+s < 0 {
				return false
			}
		}
	}
	return true
}

func (f *Facts) addNeq(x, y *Term) bool {
	bx, ox, _ := lin(x)
	by, oy, _ := lin(y)
	d := oy - ox // bx - by != d
	if bx == by {
		return d != 0
	}
	up, okU := f.bound(bx, by)
	lo, okL := f.bound(by, bx)
	if okU && okL && up == d && lo == -d {
		return false
	}
	e := edge{bx, by}
	if f.neq[e] == nil {
		f.neq[e] = int64set{}
	}
	f.neq[e][d] = true
	if okU && up == d {
		f.dbm[e] = d - 1
		f.adj = nil
	}
	if okL && lo == -d {
		f.dbm[edge{by, bx}] = -d - 1
		f.adj = nil
	}
	return true
}

// intRel returns the relations possible between integer terms
func (f *Facts) intRel(a, b *Term) uint8 {
	m := uint8(7)
	if c, ok := f.diffBound(a, b); ok { // a-b<=c
		if c < 0 {
			m &= LT
		} else if c == 0 {
			m &= LT | EQ
		}
	}
	if c, ok := f.diffBound(b, a); ok {
		if c < 0 {
			m &= GT
		} else if c == 0 {
			m &= GT | EQ
		}
	}
	if m&EQ != 0 {
		ba, oa, _ := lin(a)
		bb, ob, _ := lin(b)
		if s, ok := f.neq[edge{ba, bb}]; ok && s[ob-oa] {
			m &^= EQ
		}
		if s, ok := f.neq[edge{bb, ba}]; ok && s[oa-ob] {
			m &^= EQ
		}
	}
	return m
}

func isIntTerm(t *Term) bool { return isIntType(t.T) || t.K == KLin }

// eqClass lists terms known equal to t (non integers)
func (f *Facts) eqClass(t *Term) []*Term {
	out := []*Term{t}
	seen := map[*Term]bool{t: true}
	for i := 0; i < len(out); i++ {
		for p, m := range f.rel {
			if m != EQ {
				continue
			}
			var o *Term
			if p.a == out[i] {
				o = p.b
			} else if p.b == out[i] {
				o = p.a
			}
			if o != nil && !seen[o] {
				seen[o] = true
				out = append(out, o)
			}
		}
	}
	return out
}

func structNonNil(t *Term) bool {
	switch t.K {
	case KAlloc, KFAddr, KIAddr, KGlobal, KFunc, KClosure, KIface:
		return true
	}
	return t.K == KOp && t.Op == "fixed"
}

func (f *Facts) directRel(ts *Terms, a, b *Term) uint8 {
	full := fullMask(a, b)
	if a == b && full == 7 {
		return EQ
	}
	if m, ok := cmpConst(a, b); ok {
		return m
	}
	if (a == ts.Nil && structNonNil(b)) || (b == ts.Nil && structNonNil(a)) {
		return NE
	}
	if a.K == KAlloc && b.K == KAlloc && a != b {
		return NE
	}
	// an allocation differs from everything that existed before
	p, sw := mkPair(a, b)
	m, ok := f.rel[p]
	if !ok {
		return full
	}
	if sw {
		m = swapMask(m)
	}
	return m
}

// relOf returns the possible relations between two terms
func (f *Facts) relOf(ts *Terms, a, b *Term) uint8 {
	if isIntTerm(a) && isIntTerm(b) {
		return f.intRel(a, b)
	}
	full := fullMask(a, b)
	m := f.directRel(ts, a, b)
	if m != full && m&(m-1) == 0 {
		return m
	}
	if full == 7 {
		ca, cb := f.eqClass(a), f.eqClass(b)
		if len(ca) > 1 || len(cb) > 1 {
			for _, x := range ca {
				for _, y := range cb {
					if x == y {
						return EQ
					}
					m &= f.directRel(ts, x, y)
				}
			}
		}
		return m
	}
	// floats: order through known facts
	if f.floatLess(ts, a, b, true) {
		m &= LT
	} else if f.floatLess(ts, a, b, false) {
		m &= LT | EQ
	}
	if f.floatLess(ts, b, a, true) {
		m &= GT
	} else if f.floatLess(ts, b, a, false) {
		m &= GT | EQ
	}
	return m
}

func (f *Facts) floatLess(ts *Terms, a, b *Term, strict bool) bool {
	type node struct {
		t *Term
		s bool
	}
	seen := map[node]bool{}
	work := []node{{a, false}}
	for len(work) > 0 && len(seen) < 200 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[n] {
			continue
		}
		seen[n] = true
		if n.t == b && (n.s || !strict) && (n.t != a || len(seen) > 1) {
			return true
		}
		if n.t.K == KConst && b.K == KConst && n.t != b {
			if m, ok := cmpConst(n.t, b); ok && m == LT {
				return true
			}
		}
		for p, m := range f.rel {
			if p.b == n.t {
				m = swapMask(m)
			} else if p.a != n.t {
				continue
			}
			o := p.b
			if p.b == n.t {
				o = p.a
			}
			switch m {
			case LT:
				work = append(work, node{o, true})
			case LT | EQ, EQ:
				work = append(work, node{o, n.s})
			}
		}
	}
	return false
}

// eval: 1 true, 0 false, -1 unknown
func (f *Facts) eval(ts *Terms, c *Term) int {
	switch {
	case c == ts.True:
		return 1
	case c == ts.False:
		return 0
	}
	if v, ok := f.bools[c]; ok {
		if v {
			return 1
		}
		return 0
	}
	if c.K == KOp && c.Op == "!" {
		r := f.eval(ts, c.A[0])
		if r >= 0 {
			return 1 - r
		}
		return -1
	}
	if c.K == KCmp {
		m := f.relOf(ts, c.A[0], c.A[1])
		if m&^c.Mask == 0 {
			return 1
		}
		if m&c.Mask == 0 {
			return 0
		}
		if isBoolType(c.A[0].T) && isBoolType(c.A[1].T) {
			x, y := f.eval(ts, c.A[0]), f.eval(ts, c.A[1])
			if x >= 0 && y >= 0 {
				if (x == y) == (c.Mask&EQ != 0) {
					return 1
				}
				return 0
			}
		}
	}
	// equal arguments: bytes.Equal(x, x)
	if c.K == KOp && c.Op == "call:bytes.Equal" && c.A[0] == c.A[1] {
		return 1
	}
	// congruence on equal arguments of pure calls
	if c.K == KOp && len(c.A) > 0 {
		for b, v := range f.bools {
			if b.K == KOp && b.Op == c.Op && len(b.A) == len(c.A) {
				same := true
				for i := range b.A {
					if b.A[i] != c.A[i] && f.relOf(ts, b.A[i], c.A[i]) != EQ {
						same = false
						break
					}
				}
				if same {
					if v {
						return 1
					}
					return 0
				}
			}
		}
	}
	return -1
}

// assume adds a condition; false if it contradicts the facts
func (f *Facts) assume(ts *Terms, c *Term, truth bool) bool {
	if c.K == KOp && c.Op == "!" {
		return f.assume(ts, c.A[0], !truth)
	}
	switch f.eval(ts, c) {
	case 1:
		return truth
	case 0:
		return !truth
	}
	if c.K == KCmp {
		m := c.Mask
		if !truth {
			m = fullMask(c.A[0], c.A[1]) &^ m
		}
		return f.assumeRel(ts, c.A[0], c.A[1], m)
	}
	f.bools[c] = truth
	if truth && c.K == KOp && c.Op == "call:bytes.Equal" {
		// equal contents
		return f.assumeRel(ts, ts.OpT("len", types.Typ[types.Int], c.A[0]), ts.OpT("len", types.Typ[types.Int], c.A[1]), EQ)
	}
	return true
}

func (f *Facts) assumeRel(ts *Terms, a, b *Term, m uint8) bool {
	if isIntTerm(a) && isIntTerm(b) {
		if l, o := a, b; isStrLen(l) || isStrLen(o) { // of an empty text or not
			mm := m & f.intRel(a, b)
			if !isStrLen(l) {
				l, o, mm = o, l, swapMask(mm)
			}
			if o == ts.Zero && (mm == GT || mm == NE || mm == EQ) || o == ts.Int(1) && (mm == GT|EQ || mm == LT) {
				em := uint8(NE)
				if mm == EQ || mm == LT {
					em = EQ
				}
				if !f.assumeRel(ts, l.A[0], ts.Str(""), em) {
					return false
				}
			}
		}
		m &= f.intRel(a, b)
		switch m {
		case 0:
			return false
		case LT:
			return f.addDiff(a, b, -1)
		case LT | EQ:
			return f.addDiff(a, b, 0)
		case EQ:
			return f.addDiff(a, b, 0) && f.addDiff(b, a, 0)
		case GT:
			return f.addDiff(b, a, -1)
		case GT | EQ:
			return f.addDiff(b, a, 0)
		case NE:
			return f.addNeq(a, b)
		}
		return true
	}
	cur := f.relOf(ts, a, b)
	m &= cur
	if m == 0 {
		return false
	}
	p, sw := mkPair(a, b)
	if sw {
		m = swapMask(m)
	}
	f.rel[p] = m
	return true
}

func (f *Facts) String() string {
	var l []string
	n := func(t *Term) string {
		if t == nil {
			return "0"
		}
		return t.String()
	}
	for e, c := range f.dbm {
		l = append(l, fmt.Sprintf("%s - %s <= %d", n(e.a), n(e.b), c))
	}
	for e, s := range f.neq {
		for d := range s {
			l = append(l, fmt.Sprintf("%s - %s != %d", n(e.a), n(e.b), d))
		}
	}
	for p, m := range f.rel {
		l = append(l, fmt.Sprintf("%s R%d %s", p.a, m, p.b))
	}
	for b, v := range f.bools {
		l = append(l, fmt.Sprintf("%s = %v", b, v))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func isStrLen(t *Term) bool {
	if t.K != KOp || t.Op != "len" || t.A[0].T == nil {
		return false
	}
	b, ok := t.A[0].T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
