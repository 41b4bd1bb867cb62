package main

// Scores (C11): a name stands for one function, and the function computes
// what it is named after. Sums are followed by ghosts: "#dot" is the value of
// the sum of the products of the first "#n:dot" coordinates, and so on.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// poly: a polynomial over atoms, by the sorted names of the atoms of a monomial
type poly map[string]float64

const polySep = "·"

func pConst(c float64) poly { return poly{"": c} }
func pAtom(n string) poly   { return poly{n: 1} }

func pAdd(a, b poly, k float64) poly {
	r := poly{}
	for m, c := range a {
		r[m] += c
	}
	for m, c := range b {
		r[m] += k * c
	}
	for m, c := range r {
		if c == 0 {
			delete(r, m)
		}
	}
	return r
}

func pMul(a, b poly) poly {
	r := poly{}
	for m, c := range a {
		for n, d := range b {
			var l []string
			if m != "" {
				l = append(l, strings.Split(m, polySep)...)
			}
			if n != "" {
				l = append(l, strings.Split(n, polySep)...)
			}
			sort.Strings(l)
			r[strings.Join(l, polySep)] += c * d
		}
	}
	for m, c := range r {
		if c == 0 {
			delete(r, m)
		}
	}
	return r
}

func (p poly) String() string {
	var l []string
	for m, c := range p {
		l = append(l, fmt.Sprintf("%.9g*[%s]", c, m))
	}
	sort.Strings(l)
	return strings.Join(l, "+")
}

func (p poly) eq(q poly) bool { return p.String() == q.String() }

func (p poly) num() (float64, bool) {
	if len(p) == 0 {
		return 0, true
	}
	c, ok := p[""]
	return c, ok && len(p) == 1
}

// each applies f to the atoms of a monomial
func pEach(p poly, f func(a string) string, k func(c float64) float64) (poly, bool) {
	if len(p) != 1 {
		return nil, false
	}
	for m, c := range p {
		var l []string
		if m != "" {
			for _, a := range strings.Split(m, polySep) {
				l = append(l, f(a))
			}
		}
		sort.Strings(l)
		return poly{strings.Join(l, polySep): k(c)}, true
	}
	return nil, false
}

func pInv(p poly) poly {
	if r, ok := pEach(p, func(a string) string { return "1/" + a }, func(c float64) float64 { return 1 / c }); ok {
		return r
	}
	return pAtom("1/(" + p.String() + ")")
}

func pSqrt(p poly) poly {
	if len(p) == 0 {
		return poly{}
	}
	for _, c := range p {
		if c < 0 {
			return pAtom("√(" + p.String() + ")")
		}
	}
	if r, ok := pEach(p, func(a string) string { return "√" + a }, math.Sqrt); ok {
		return r
	}
	return pAtom("√(" + p.String() + ")")
}

func pAbs(p poly) poly {
	n := pAdd(poly{}, p, -1)
	if n.String() < p.String() {
		p = n
	}
	return pAtom("|" + p.String() + "|")
}

// numeric reads a term as a formula over the reals
func (x *Exec) numeric(s *State, t *Term) poly {
	if t.K == KConst && t.C != nil {
		if f, ok := constant.Float64Val(constant.ToFloat(t.C)); ok || !math.IsInf(f, 0) {
			return pAdd(poly{}, pConst(f), 1)
		}
	}
	if t.K == KOp {
		n := t.Op[strings.LastIndex(t.Op, "/")+1:]
		if strings.HasPrefix(t.Op, "conv:float") && len(t.A) == 1 {
			return x.numeric(s, t.A[0])
		}
		switch {
		case t.Op == "+" && len(t.A) == 2:
			return pAdd(x.numeric(s, t.A[0]), x.numeric(s, t.A[1]), 1)
		case t.Op == "-" && len(t.A) == 2:
			return pAdd(x.numeric(s, t.A[0]), x.numeric(s, t.A[1]), -1)
		case t.Op == "*" && len(t.A) == 2:
			return pMul(x.numeric(s, t.A[0]), x.numeric(s, t.A[1]))
		case t.Op == "/" && len(t.A) == 2 && isFloatType(t.T):
			return pMul(x.numeric(s, t.A[0]), pInv(x.numeric(s, t.A[1])))
		case (t.Op == "neg" || t.Op == "-") && len(t.A) == 1:
			return pAdd(poly{}, x.numeric(s, t.A[0]), -1)
		case strings.HasPrefix(t.Op, "call:") && (strings.HasSuffix(n, "math.Sqrt") || strings.HasSuffix(n, "math32.Sqrt")):
			return pSqrt(x.numeric(s, t.A[0]))
		case strings.HasPrefix(t.Op, "call:") && (strings.HasSuffix(n, "math.Abs") || strings.HasSuffix(n, "math32.Abs")):
			return pAbs(x.numeric(s, t.A[0]))
		case strings.HasPrefix(t.Op, "call:") && (strings.HasSuffix(n, "math.Pow") || strings.HasSuffix(n, "math32.Pow")):
			b := x.numeric(s, t.A[0])
			e, ok := x.numeric(s, t.A[1]).num()
			switch {
			case ok && e == 1:
				return b
			case ok && e == 2:
				return pMul(b, b)
			case ok && e == 0.5:
				return pSqrt(b)
			}
		case strings.HasPrefix(t.Op, "call:") && strings.HasSuffix(n, "math.Acos"):
			return pAtom("acos(" + x.numeric(s, t.A[0]).String() + ")")
		}
	}
	return pAtom(fmt.Sprintf("t%d", t.ID))
}

type scoreKind struct {
	name string
	step func(a, b poly) poly
	of   func(n, la, lb *Term) []*Term // complete when the count reaches one of them
}

var scoreKinds = []scoreKind{
	{"dot", func(a, b poly) poly { return pMul(a, b) }, func(n, la, lb *Term) []*Term { return []*Term{la, lb} }},
	{"sq", func(a, b poly) poly { d := pAdd(a, b, -1); return pMul(d, d) }, func(n, la, lb *Term) []*Term { return []*Term{la, lb} }},
	{"abs", func(a, b poly) poly { return pAbs(pAdd(a, b, -1)) }, func(n, la, lb *Term) []*Term { return []*Term{la, lb} }},
	{"aa", func(a, b poly) poly { return pMul(a, a) }, func(n, la, lb *Term) []*Term { return []*Term{la} }},
	{"bb", func(a, b poly) poly { return pMul(b, b) }, func(n, la, lb *Term) []*Term { return []*Term{lb} }},
}

// score checks that fn computes the formula want over complete sums
func (c *Ctx) score(name string, want func(sum func(k string) poly) poly, cosine bool) {
	fn := c.fn(name)
	x := c.exec()
	x.splitLens = true
	ts := x.ts
	var a, b, la, lb *Term
	g := func(s *State, k string) *Term { return s.ghost["#sum:"+k] }
	elem := func(s *State, l *Term, i *Term) poly { return x.numeric(s, x.elem(s, l, i)) }
	judge := func(s *State) {
		for _, k := range scoreKinds {
			n := s.ghost["#n:"+k.name]
			if n == nil || s.ghost["all:"+k.name] != nil {
				continue
			}
			for _, l := range k.of(n, la, lb) {
				if x.holds(s, ts.Cmp(GT|EQ, n, l)) {
					s.SetGhost("all:"+k.name, ts.True)
				}
			}
		}
		if s.ghost["all:aa"] != nil && s.ghost["nothing"] == nil {
			for _, k := range []string{"aa", "bb"} {
				if s.ghost["all:"+k] != nil && x.zeroNum(s, g(s, k)) {
					s.SetGhost("nothing", ts.True)
				}
			}
		}
	}
	x.on = func(s *State, e *Event) {
		switch e.Kind {
		case EvFloat:
			if e.Callee != "+" {
				return
			}
			for _, k := range scoreKinds {
				for i := 0; i < 2; i++ {
					acc, d := e.Args[i], e.Args[1-i]
					if unconvF(acc) != unconvF(g(s, k.name)) {
						continue
					}
					n := s.ghost["#n:"+k.name]
					if !x.numeric(s, d).eq(k.step(elem(s, a, n), elem(s, b, n))) {
						continue
					}
					s.SetGhost("#sum:"+k.name, e.Res[0])
					s.SetGhost("#n:"+k.name, ts.AddK(n, 1))
					judge(s)
					return
				}
			}
		case EvBranch:
			judge(s)
			if cosine { // its relation to 1 and -1 is needed at the end
				for _, t := range cmpSides(e.Args[0]) {
					if t.K == KOp && isFloatType(t.T) && x.numeric(s, t).eq(want(func(k string) poly { return x.numeric(s, g(s, k)) })) {
						s.SetGhost("#value", t)
					}
				}
			}
		}
	}
	ex := c.run(x, fn, func(s *State, args []*Term) {
		a, b = args[0], args[1]
		la, lb = x.lenOf(s, a), x.lenOf(s, b)
		s.SetGhost("#la", la)
		s.SetGhost("#lb", lb)
		for _, k := range scoreKinds {
			s.SetGhost("#sum:"+k.name, x.fnum(0))
			s.SetGhost("#n:"+k.name, ts.Zero)
		}
	})
	for _, e := range ex {
		s := e.s
		judge(s)
		all := true
		exp := want(func(k string) poly {
			all = all && s.ghost["all:"+k] != nil
			return x.numeric(s, g(s, k))
		})
		r := e.res[0]
		if !cosine {
			c.check("score-value", fn, s.retPos(), s, all && x.numeric(s, r).eq(exp), "the score is not what the function is named after (%v)", r)
			continue
		}
		v := s.ghost["#value"]
		num, isNum := x.numeric(s, r).num()
		switch {
		case isNum && num == 0:
			// no common coordinate: the sum of products is 0
			none := all && x.numeric(s, r).eq(exp) && x.nonZeroNum(s, g(s, "aa")) && x.nonZeroNum(s, g(s, "bb"))
			c.check("score-value", fn, s.retPos(), s, none || s.ghost["nothing"] != nil, "the score is 0 although no vector is")
		case isNum && num == 1 && v != nil:
			c.check("score-value", fn, s.retPos(), s, all && x.holds(s, ts.Cmp(GT|EQ, v, x.fnum(1))), "the score is 1 although the cosine is less")
		case isNum && num == -1 && v != nil:
			c.check("score-value", fn, s.retPos(), s, all && x.holds(s, ts.Cmp(LT|EQ, v, x.fnum(-1))), "the score is -1 although the cosine is more")
		default:
			in, lo, hi := x.clamps(s, r)
			c.check("score-value", fn, s.retPos(), s, all && x.numeric(s, in).eq(exp), "the score is not what the function is named after (%v)", r)
			if lo > -1 { // may still be limited by a test
				lo = -1
			}
			not := func(m uint8, k int64) bool {
				return v != nil && x.numeric(s, v).eq(exp) && s.f.relOf(ts, v, x.fnum(k))&m == 0
			}
			c.check("score-range", fn, s.retPos(), s, (hi || not(GT, 1)) && (lo == -1 && x.clampLow(r) || not(LT, -1)), "the score may be beyond -1 or 1")
			c.check("score-value", fn, s.retPos(), s, x.nonZeroNum(s, g(s, "aa")) && x.nonZeroNum(s, g(s, "bb")), "the score of a zero vector is not a number")
		}
	}
}

// cmpSides: the terms compared in a condition
func cmpSides(t *Term) []*Term {
	for t.K == KOp && t.Op == "!" {
		t = t.A[0]
	}
	if t.K == KCmp {
		return t.A
	}
	return nil
}

func unconvF(t *Term) *Term {
	for t != nil && t.K == KOp && strings.HasPrefix(t.Op, "conv:float") && len(t.A) == 1 {
		t = t.A[0]
	}
	return t
}

func (x *Exec) zeroNum(s *State, t *Term) bool {
	if n, ok := x.numeric(s, t).num(); ok {
		return n == 0
	}
	return s.f.relOf(x.ts, t, x.fnum(0)) == EQ
}

func (x *Exec) nonZeroNum(s *State, t *Term) bool {
	if n, ok := x.numeric(s, t).num(); ok {
		return n != 0
	}
	return s.f.relOf(x.ts, t, x.fnum(0))&EQ == 0
}

func (x *Exec) fnum(k int64) *Term {
	return x.ts.constVal(constant.ToFloat(constant.MakeInt64(k)), types.Typ[types.Float64])
}

// clamps: math.Min(1, ...), math.Max(-1, ...)
func (x *Exec) clamps(s *State, t *Term) (in *Term, lo float64, hi bool) {
	lo = math.Inf(1)
	for {
		t = unconvF(t)
		if t.K != KOp || len(t.A) != 2 || !strings.HasPrefix(t.Op, "call:") {
			return t, lo, hi
		}
		n := t.Op[strings.LastIndex(t.Op, "/")+1:]
		min, max := strings.HasSuffix(n, "math.Min") || strings.HasSuffix(n, "math32.Min"), strings.HasSuffix(n, "math.Max") || strings.HasSuffix(n, "math32.Max")
		if !min && !max {
			return t, lo, hi
		}
		k := -1
		for i := 0; i < 2; i++ {
			if v, ok := x.numeric(s, t.A[i]).num(); ok && (max && v == -1 || min && v == 1) {
				k = i
				hi = hi || min
			}
		}
		if k < 0 {
			return t, lo, hi
		}
		t = t.A[1-k]
	}
}

func (x *Exec) clampLow(t *Term) bool {
	for {
		t = unconvF(t)
		if t.K != KOp || len(t.A) != 2 || !strings.HasPrefix(t.Op, "call:") {
			return false
		}
		if strings.HasSuffix(t.Op, ".Max") {
			return true
		}
		if t.A[0].K == KConst {
			t = t.A[1]
		} else {
			t = t.A[0]
		}
	}
}

// mapLit: the content of a package level map that nothing changes
func (c *Ctx) mapLit(name string) map[string]*ssa.Function {
	var g *ssa.Global
	for _, p := range c.p.ssa.AllPackages() {
		if m, ok := p.Members[name[strings.LastIndex(name, ".")+1:]].(*ssa.Global); ok && m.RelString(nil) == name {
			g = m
		}
	}
	if g == nil {
		return nil
	}
	var lit ssa.Value
	r := map[string]*ssa.Function{}
	for _, fn := range c.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if in.Addr == ssa.Value(g) {
						init := fn.Name() == "init" && lit == nil
						c.check("score-name", fn, in.Pos(), nil, init, "the functions are replaced")
						lit = in.Val
					}
				case *ssa.UnOp:
					if in.Op != token.MUL || in.X != ssa.Value(g) {
						continue
					}
					for _, ref := range *in.Referrers() {
						switch ref := ref.(type) {
						case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
						case *ssa.Call:
							bi, ok := ref.Call.Value.(*ssa.Builtin)
							c.check("score-name", fn, ref.Pos(), nil, ok && bi.Name() == "len", "the functions may be replaced")
						default:
							c.check("score-name", fn, ref.Pos(), nil, false, "the functions may be replaced")
						}
					}
				}
			}
		}
	}
	if lit == nil {
		return nil
	}
	for _, ref := range *lit.Referrers() {
		if u, ok := ref.(*ssa.MapUpdate); ok {
			k, ok := u.Key.(*ssa.Const)
			f, ok2 := u.Value.(*ssa.Function)
			if !ok || !ok2 {
				return nil
			}
			r[constant.StringVal(k.Value)] = f
		}
	}
	return r
}

func (c *Ctx) scoreNames() {
	fn := c.fn("data.GetVectorComparisonFunction")
	names := []string{"VectorDistance", "VectorMultiplication", "CosineSimilarity", "QuickVectorDistance", "AngularDistance"}
	all := map[string]string{}
	for _, n := range names {
		all[n] = n
	}
	for _, n := range []string{"VectorDistance", "CosineSimilarity", "AngularDistance"} {
		all["Annoy"+n] = n
	}
	lits := map[string]map[string]*ssa.Function{}
	one := func(name, want string) {
		x := c.exec()
		ts := x.ts
		x.lookups = func(s *State, m, k *Term) (v, ok *Term) {
			if m.K != KInit || m.A[0].K != KGlobal {
				return nil, nil
			}
			g := m.A[0].Op
			lit, known := lits[g]
			if !known {
				lit = c.mapLit(g)
				lits[g] = lit
			}
			if lit == nil {
				return nil, nil
			}
			absent := true
			for n, f := range lit {
				switch s.f.relOf(ts, k, ts.Str(n)) {
				case EQ:
					return x.val(s, f), ts.True
				default:
					if s.f.relOf(ts, k, ts.Str(n))&EQ != 0 {
						absent = false
					}
				}
			}
			if absent {
				return ts.Nil, ts.False
			}
			return nil, nil
		}
		ex := c.run(x, fn, func(s *State, a []*Term) {
			if name != "" {
				a[0] = ts.Str(name)
				return
			}
			for n := range all {
				x.assume(s, ts.Cmp(NE, a[0], ts.Str(n)), true)
			}
		})
		what := "the name " + name
		if name == "" {
			what = "an unknown name"
		}
		for _, e := range ex {
			r := e.res[0]
			ok := r.K == KFunc && r.Fn == c.fn("data."+want)
			c.check("score-name", fn, e.s.retPos(), e.s, ok, "%s stands for %v", what, r)
		}
	}
	var l []string
	for n := range all {
		l = append(l, n)
	}
	sort.Strings(l)
	for _, n := range l {
		one(n, all[n])
	}
	one("", "VectorDistance")
}

func init() {
	register("C11", "A name stands for one scoring function; each of them sums over every coordinate once and returns the value it is named after.",
		[]string{"score-name", "score-value", "score-range"}, func(c *Ctx) {
			c.scoreNames()
			c.score("data.VectorDistance", func(s func(string) poly) poly { return pSqrt(s("sq")) }, false)
			c.score("data.VectorMultiplication", func(s func(string) poly) poly { return s("dot") }, false)
			c.score("data.QuickVectorDistance", func(s func(string) poly) poly { return s("abs") }, false)
			c.score("data.CosineSimilarity", func(s func(string) poly) poly {
				return pMul(s("dot"), pMul(pInv(pSqrt(s("aa"))), pInv(pSqrt(s("bb")))))
			}, true)
			c.angular()
		})
}

// angular: 1 - arccos(cosine similarity) / pi
func (c *Ctx) angular() {
	fn := c.fn("data.AngularDistance")
	cos := c.fn("data.CosineSimilarity")
	x := c.exec()
	ts := x.ts
	x.opaque = func(f *ssa.Function) bool { return f == cos }
	x.model = func(x *Exec, s *State, cc *CallCtx) ([]Exit, bool) {
		if cc.cfn != cos {
			return nil, false
		}
		x.pre(s, cc)
		return []Exit{x.post(s, cc, ts.OpT("cosine", types.Typ[types.Float64], sortedArgs(cc.args[0], cc.args[1])...))}, true
	}
	var a, b *Term
	ex := c.run(x, fn, func(s *State, args []*Term) { a, b = args[0], args[1] })
	for _, e := range ex {
		v := ts.OpT("cosine", types.Typ[types.Float64], sortedArgs(a, b)...)
		want := pAdd(pConst(1), pMul(pAtom("acos("+x.numeric(e.s, v).String()+")"), pConst(1/math.Pi)), -1)
		c.check("score-value", fn, e.s.retPos(), e.s, x.numeric(e.s, e.res[0]).eq(want), "the score is not what the function is named after (%v)", e.res[0])
	}
}
