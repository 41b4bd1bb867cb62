package main

// Value numbers ("terms"). Every SSA value, memory address and ghost variable
// of the data-flow analysis is denoted by a hash-consed term, so that two
// program expressions that must have the same value share one node.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Kind uint8

const (
	KConst   Kind = iota // constant (C), nil has C == nil
	KSym                 // unknown value: parameter, opaque result, loop variable
	KAlloc               // freshly allocated object (its address, slice, map, chan)
	KOp                  // pure operation on other terms
	KLin                 // A[0] + Off (integers)
	KFAddr               // address of field Op of object A[0]
	KIAddr               // address of element A[1] of A[0]
	KGlobal              // address of a package level variable
	KInit                // initial content of address A[0] (A[1] optional epoch)
	KFunc                // function value
	KClosure             // function with bindings A
	KCmp                 // comparison of A[0], A[1], true for relations in Mask
	KIface               // interface holding A[0] of dynamic type T
	KTuple
	KStruct // struct value, A are fields
)

const (
	LT = 1
	EQ = 2
	GT = 4
	UN = 8 // unordered (NaN)
	NE = LT | GT
)

type Term struct {
	shape uint64
	ID    int
	K     Kind
	Op    string
	A     []*Term
	C     constant.Value
	Off   int64
	Mask  uint8
	T     types.Type
	Fn    *ssa.Function
	Pos   token.Pos
	Pat   int // >0: generalisation variable of that loop header
	key   string
	lv    []*Term // leaves, cached
}

type Terms struct {
	m                      map[string]*Term
	all                    []*Term
	seq                    int
	Nil, True, False, Zero *Term
}

func NewTerms() *Terms {
	ts := &Terms{m: map[string]*Term{}}
	ts.Nil = ts.cons(&Term{K: KConst, Op: "nil"})
	ts.True = ts.cons(&Term{K: KConst, C: constant.MakeBool(true), T: types.Typ[types.Bool]})
	ts.False = ts.cons(&Term{K: KConst, C: constant.MakeBool(false), T: types.Typ[types.Bool]})
	ts.Zero = ts.Int(0)
	return ts
}

func (ts *Terms) cons(t *Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|%d|%d|", t.K, t.Op, t.Off, t.Mask)
	for _, a := range t.A {
		fmt.Fprintf(&sb, "%d,", a.ID)
	}
	if t.C != nil {
		sb.WriteString("|" + t.C.Kind().String() + t.C.ExactString())
	}
	if t.Fn != nil {
		fmt.Fprintf(&sb, "|%p", t.Fn)
	}
	if t.K == KIface && t.T != nil {
		sb.WriteString("|" + t.T.String())
	}
	k := sb.String()
	if r, ok := ts.m[k]; ok {
		return r
	}
	t.ID = len(ts.all)
	t.key = k
	ts.all = append(ts.all, t)
	ts.m[k] = t
	return t
}

func (ts *Terms) Int(k int64) *Term {
	return ts.cons(&Term{K: KConst, C: constant.MakeInt64(k), T: types.Typ[types.Int]})
}

func (ts *Terms) Str(s string) *Term {
	return ts.cons(&Term{K: KConst, C: constant.MakeString(s), T: types.Typ[types.String]})
}

func (ts *Terms) Bool(b bool) *Term {
	if b {
		return ts.True
	}
	return ts.False
}

// Fresh makes a new unknown value. op says where it comes from.
func (ts *Terms) Fresh(op string, t types.Type, pos token.Pos, args ...*Term) *Term {
	ts.seq++
	n := &Term{K: KSym, Op: op, A: args, T: t, Pos: pos, ID: len(ts.all)}
	n.key = fmt.Sprintf("sym%d", ts.seq)
	ts.all = append(ts.all, n)
	return n
}

func (ts *Terms) Alloc(op string, t types.Type, pos token.Pos, args ...*Term) *Term {
	ts.seq++
	n := &Term{K: KAlloc, Op: op, A: args, T: t, Pos: pos, ID: len(ts.all)}
	n.key = fmt.Sprintf("alloc%d", ts.seq)
	ts.all = append(ts.all, n)
	return n
}

func (ts *Terms) OpT(op string, t types.Type, args ...*Term) *Term {
	return ts.cons(&Term{K: KOp, Op: op, A: args, T: t})
}

func (ts *Terms) FAddr(base *Term, field string, t types.Type) *Term {
	return ts.cons(&Term{K: KFAddr, Op: field, A: []*Term{base}, T: t})
}

func (ts *Terms) IAddr(base, idx *Term, t types.Type) *Term {
	return ts.cons(&Term{K: KIAddr, A: []*Term{base, idx}, T: t})
}

func (ts *Terms) Iface(x *Term, dyn types.Type) *Term {
	return ts.cons(&Term{K: KIface, A: []*Term{x}, T: dyn})
}

func (ts *Terms) Tuple(args ...*Term) *Term {
	return ts.cons(&Term{K: KTuple, A: args})
}

func constTerm(ts *Terms, c *ssa.Const) *Term {
	if c.Value == nil {
		switch u := c.Type().Underlying().(type) {
		case *types.Struct:
			return ts.zeroOf(c.Type())
		case *types.Array:
			return ts.cons(&Term{K: KOp, Op: "zero:" + u.String(), T: c.Type()})
		}
		return ts.Nil
	}
	v := c.Value
	if b, ok := c.Type().Underlying().(*types.Basic); ok {
		if b.Info()&types.IsInteger != 0 {
			v = constant.ToInt(v)
		} else if b.Info()&types.IsFloat != 0 {
			v = constant.ToFloat(v)
		}
	}
	return ts.constVal(v, c.Type())
}

func (ts *Terms) constVal(v constant.Value, t types.Type) *Term {
	if v.Kind() == constant.Bool {
		return ts.Bool(constant.BoolVal(v))
	}
	return ts.cons(&Term{K: KConst, C: v, T: t})
}

func (ts *Terms) zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return ts.False
		case u.Info()&types.IsInteger != 0:
			return ts.cons(&Term{K: KConst, C: constant.MakeInt64(0), T: t})
		case u.Info()&types.IsFloat != 0:
			return ts.cons(&Term{K: KConst, C: constant.ToFloat(constant.MakeInt64(0)), T: t})
		case u.Info()&types.IsString != 0:
			return ts.Str("")
		case u.Kind() == types.UnsafePointer:
			return ts.Nil
		}
		return ts.cons(&Term{K: KOp, Op: "zero:" + t.String(), T: t})
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = ts.zeroOf(u.Field(i).Type())
		}
		return ts.cons(&Term{K: KStruct, Op: typeKey(t), A: args, T: t})
	case *types.Array:
		return ts.cons(&Term{K: KOp, Op: "zero:" + t.String(), T: t})
	}
	return ts.Nil
}

func typeKey(t types.Type) string { return types.TypeString(t, nil) }

func isConst(t *Term) bool { return t.K == KConst }

func constInt(t *Term) (int64, bool) {
	if t.K == KConst && t.C != nil && t.C.Kind() == constant.Int {
		return constant.Int64Val(t.C)
	}
	return 0, false
}

func constStr(t *Term) (string, bool) {
	if t.K == KConst && t.C != nil && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}

func constFloat(t *Term) (float64, bool) {
	if t.K == KConst && t.C != nil && (t.C.Kind() == constant.Float || t.C.Kind() == constant.Int) {
		f, _ := constant.Float64Val(t.C)
		return f, true
	}
	return 0, false
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isFloatType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// lin splits an integer term in base + offset; base nil means constant
func lin(t *Term) (base *Term, off int64, ok bool) {
	if k, isInt := constInt(t); isInt {
		return nil, k, true
	}
	if t.K == KLin {
		return t.A[0], t.Off, true
	}
	if t.K == KConst {
		return t, 0, true // huge constant, opaque
	}
	return t, 0, true
}

func addOv(a, b int64) (int64, bool) {
	c := a + b
	if (a > 0 && b > 0 && c < 0) || (a < 0 && b < 0 && c >= 0) {
		return 0, false
	}
	return c, true
}

func (ts *Terms) AddK(t *Term, k int64) *Term {
	if k == 0 {
		return t
	}
	b, o, _ := lin(t)
	n, ok := addOv(o, k)
	if !ok {
		return ts.OpT("+", t.T, t, ts.Int(k))
	}
	return ts.mkLin(b, n, t.T)
}

func (ts *Terms) mkLin(b *Term, off int64, t types.Type) *Term {
	if b == nil {
		return ts.cons(&Term{K: KConst, C: constant.MakeInt64(off), T: t})
	}
	if off == 0 {
		return b
	}
	return ts.cons(&Term{K: KLin, A: []*Term{b}, Off: off, T: t})
}

func sortedArgs(a, b *Term) []*Term {
	if a.ID > b.ID {
		a, b = b, a
	}
	return []*Term{a, b}
}

// Arith builds the term for an arithmetic operation
func (ts *Terms) Arith(op token.Token, x, y *Term, t types.Type) *Term {
	if x.K == KConst && y.K == KConst && x.C != nil && y.C != nil {
		if r := foldConst(op, x, y, t); r != nil {
			return ts.constVal(r, t)
		}
	}
	if isIntType(t) {
		if op == token.ADD {
			if k, ok := constInt(y); ok {
				return ts.AddK(x, k)
			}
			if k, ok := constInt(x); ok {
				return ts.AddK(y, k)
			}
			bx, ox, _ := lin(x)
			by, oy, _ := lin(y)
			// (a - b) + b
			if bx.K == KOp && bx.Op == "-" && bx.A[1] == by {
				return ts.AddK(ts.AddK(bx.A[0], ox), oy)
			}
			if by.K == KOp && by.Op == "-" && by.A[1] == bx {
				return ts.AddK(ts.AddK(by.A[0], ox), oy)
			}
			if s, ok := addOv(ox, oy); ok {
				return ts.AddK(ts.OpT("+", t, sortedArgs(bx, by)...), s)
			}
		}
		if op == token.SUB {
			if k, ok := constInt(y); ok && k != math.MinInt64 {
				return ts.AddK(x, -k)
			}
			bx, ox, _ := lin(x)
			by, oy, _ := lin(y)
			if bx == by && oy != math.MinInt64 {
				if s, ok := addOv(ox, -oy); ok {
					return ts.mkLin(nil, s, t)
				}
			}
			if bx != nil && by != nil {
				if bx.K == KOp && bx.Op == "+" { // (a+b) - b
					if bx.A[0] == by {
						return ts.AddK(bx.A[1], ox-oy)
					}
					if bx.A[1] == by {
						return ts.AddK(bx.A[0], ox-oy)
					}
				}
				if s, ok := addOv(ox, -oy); ok {
					return ts.AddK(ts.OpT("-", t, bx, by), s)
				}
			}
			if bx == nil && by != nil { // k - y
				return ts.OpT("-", t, x, y)
			}
		}
		if op == token.MUL {
			if k, ok := constInt(x); ok && k == 1 {
				return y
			}
			if k, ok := constInt(y); ok && k == 1 {
				return x
			}
		}
		if op == token.SHL || op == token.SHR {
			if k, ok := constInt(y); ok && k == 0 {
				return x
			}
		}
		if op == token.OR || op == token.XOR {
			if k, ok := constInt(x); ok && k == 0 {
				return y
			}
			if k, ok := constInt(y); ok && k == 0 {
				return x
			}
		}
	}
	switch op {
	case token.ADD:
		if isStringType(t) {
			return ts.OpT("concat", t, x, y)
		}
		return ts.OpT("+", t, sortedArgs(x, y)...)
	case token.MUL, token.AND, token.OR, token.XOR:
		return ts.OpT(op.String(), t, sortedArgs(x, y)...)
	}
	return ts.OpT(op.String(), t, x, y)
}

func foldConst(op token.Token, x, y *Term, t types.Type) (r constant.Value) {
	defer func() {
		if recover() != nil {
			r = nil
		}
	}()
	switch op {
	case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
		r = constant.BinaryOp(x.C, op, y.C)
	case token.QUO:
		if constant.Sign(y.C) == 0 {
			return nil
		}
		if isIntType(t) {
			r = constant.BinaryOp(x.C, token.QUO_ASSIGN, y.C)
		} else {
			r = constant.BinaryOp(x.C, token.QUO, y.C)
		}
	case token.REM:
		if constant.Sign(y.C) == 0 {
			return nil
		}
		r = constant.BinaryOp(x.C, op, y.C)
	case token.SHL, token.SHR:
		s, ok := constant.Uint64Val(y.C)
		if !ok || s > 1000 {
			return nil
		}
		r = constant.Shift(x.C, op, uint(s))
	default:
		return nil
	}
	if r == nil || r.Kind() == constant.Unknown {
		return nil
	}
	if isIntType(t) && r.Kind() == constant.Int {
		// wrap to the width of the type
		if !fits(r, t) {
			return nil
		}
	}
	return r
}

func intBits(t types.Type) (bits uint, unsigned bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, false
	case types.Int16:
		return 16, false
	case types.Int32:
		return 32, false
	case types.Int64, types.Int, types.UntypedInt:
		return 64, false
	case types.Uint8:
		return 8, true
	case types.Uint16:
		return 16, true
	case types.Uint32:
		return 32, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, true
	}
	return 64, false
}

func fits(v constant.Value, t types.Type) bool {
	bits, uns := intBits(t)
	if uns {
		if constant.Sign(v) < 0 {
			return false
		}
		return constant.BitLen(v) <= int(bits)
	}
	if constant.Sign(v) < 0 {
		return constant.BitLen(constant.BinaryOp(constant.UnaryOp(token.SUB, v, 0), token.SUB, constant.MakeInt64(1))) <= int(bits)-1
	}
	return constant.BitLen(v) <= int(bits)-1
}

func swapMask(m uint8) uint8 {
	r := m & (EQ | UN)
	if m&LT != 0 {
		r |= GT
	}
	if m&GT != 0 {
		r |= LT
	}
	return r
}

func fullMask(a, b *Term) uint8 {
	if isFloatType(a.T) || isFloatType(b.T) {
		return 15
	}
	return 7
}

// Cmp builds the boolean term "a rel b for a relation in mask"
func (ts *Terms) Cmp(mask uint8, a, b *Term) *Term {
	full := fullMask(a, b)
	mask &= full
	if mask == 0 {
		return ts.False
	}
	if mask == full {
		return ts.True
	}
	if a == b && full == 7 {
		return ts.Bool(mask&EQ != 0)
	}
	if m, ok := cmpConst(a, b); ok {
		return ts.Bool(m&mask != 0)
	}
	if isIntType(a.T) || isIntType(b.T) {
		ba, oa, _ := lin(a)
		bb, ob, _ := lin(b)
		if ba == bb {
			switch {
			case oa < ob:
				return ts.Bool(mask&LT != 0)
			case oa > ob:
				return ts.Bool(mask&GT != 0)
			default:
				return ts.Bool(mask&EQ != 0)
			}
		}
	}
	// comparison of booleans with constants
	if mask == EQ || mask == NE {
		for i := 0; i < 2; i++ {
			if b == ts.True {
				if mask == EQ {
					return a
				}
				return ts.Not(a)
			}
			if b == ts.False {
				if mask == EQ {
					return ts.Not(a)
				}
				return a
			}
			a, b = b, a
		}
		if b == ts.Nil || a == ts.Nil {
			o := a
			if a == ts.Nil {
				o = b
			}
			switch o.K {
			case KAlloc, KFAddr, KIAddr, KGlobal, KFunc, KClosure, KIface, KLin:
				if !(o.K == KFAddr) && !(o.K == KIAddr) {
					return ts.Bool(mask == NE)
				}
				return ts.Bool(mask == NE)
			}
		}
		// bytes.Compare(a, b) == 0 is bytes.Equal(a, b); strings likewise
		for i := 0; i < 2; i++ {
			if k, ok := constInt(b); ok && k == 0 && a.K == KOp && (a.Op == "call:bytes.Compare" || a.Op == "call:strings.Compare") {
				var e *Term
				if a.Op == "call:bytes.Compare" {
					e = ts.OpT("call:bytes.Equal", types.Typ[types.Bool], sortedArgs(a.A[0], a.A[1])...)
				} else {
					e = ts.Cmp(EQ, a.A[0], a.A[1])
				}
				if mask == NE {
					e = ts.Not(e)
				}
				return e
			}
			a, b = b, a
		}
		// string(a) == string(b) for byte slices
		if a.K == KOp && b.K == KOp && a.Op == "bytes2string" && b.Op == "bytes2string" {
			e := ts.OpT("call:bytes.Equal", types.Typ[types.Bool], sortedArgs(a.A[0], b.A[0])...)
			if mask == NE {
				e = ts.Not(e)
			}
			return e
		}
		// distinct functions, distinct allocations
		if a.K == KAlloc && b.K == KAlloc && a != b {
			return ts.Bool(mask == NE)
		}
	}
	if a.ID > b.ID {
		a, b = b, a
		mask = swapMask(mask)
	}
	return ts.cons(&Term{K: KCmp, Mask: mask, A: []*Term{a, b}, T: types.Typ[types.Bool]})
}

func cmpConst(a, b *Term) (uint8, bool) {
	if a.K != KConst || b.K != KConst {
		return 0, false
	}
	if a == b {
		return EQ, true
	}
	if a.C == nil || b.C == nil {
		return 0, false
	}
	ka, kb := a.C.Kind(), b.C.Kind()
	num := func(k constant.Kind) bool { return k == constant.Int || k == constant.Float }
	if ka == kb || (num(ka) && num(kb)) {
		if ka == constant.Bool {
			return NE, true
		}
		switch {
		case constant.Compare(a.C, token.LSS, b.C):
			return LT, true
		case constant.Compare(a.C, token.GTR, b.C):
			return GT, true
		}
		return EQ, true
	}
	return 0, false
}

func (ts *Terms) Not(t *Term) *Term {
	switch {
	case t == ts.True:
		return ts.False
	case t == ts.False:
		return ts.True
	case t.K == KCmp:
		full := fullMask(t.A[0], t.A[1])
		return ts.Cmp(full&^t.Mask, t.A[0], t.A[1])
	case t.K == KOp && t.Op == "!":
		return t.A[0]
	}
	return ts.OpT("!", types.Typ[types.Bool], t)
}

// leaves are the symbols and allocations a term is built from
func (t *Term) leaves() []*Term {
	if t.lv != nil {
		return t.lv
	}
	if t.K == KSym || t.K == KAlloc {
		t.lv = []*Term{t}
		return t.lv
	}
	seen := map[*Term]bool{}
	out := []*Term{}
	for _, a := range t.A {
		for _, l := range a.leaves() {
			if !seen[l] {
				seen[l] = true
				out = append(out, l)
			}
		}
	}
	t.lv = out
	return out
}

// root of an address: the object it lies in
func addrRoot(t *Term) *Term {
	for t.K == KFAddr || t.K == KIAddr {
		t = t.A[0]
	}
	return t
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "?"
	}
	if d > 6 {
		return "…"
	}
	list := func(sep string) string {
		var p []string
		for _, a := range t.A {
			p = append(p, a.str(d+1))
		}
		return strings.Join(p, sep)
	}
	switch t.K {
	case KConst:
		if t.C == nil {
			return "nil"
		}
		return t.C.String()
	case KSym:
		s := t.Op
		if len(t.A) > 0 {
			s += "(" + list(", ") + ")"
		}
		return fmt.Sprintf("%s#%d", s, t.ID)
	case KAlloc:
		return fmt.Sprintf("new:%s#%d", t.Op, t.ID)
	case KLin:
		return fmt.Sprintf("(%s%+d)", t.A[0].str(d+1), t.Off)
	case KFAddr:
		return "&" + t.A[0].str(d+1) + "." + t.Op
	case KIAddr:
		return "&" + t.A[0].str(d+1) + "[" + t.A[1].str(d+1) + "]"
	case KGlobal:
		return "&" + t.Op
	case KInit:
		return strings.TrimPrefix(t.A[0].str(d+1), "&")
	case KFunc, KClosure:
		if t.Fn != nil {
			return t.Fn.Name()
		}
	case KCmp:
		names := map[uint8]string{LT: "<", EQ: "==", GT: ">", LT | EQ: "<=", GT | EQ: ">=", NE: "!=", NE | UN: "!="}
		n := names[t.Mask]
		if n == "" {
			n = fmt.Sprintf("rel%d", t.Mask)
		}
		return "(" + t.A[0].str(d+1) + " " + n + " " + t.A[1].str(d+1) + ")"
	case KIface:
		return t.A[0].str(d + 1)
	case KTuple:
		return "<" + list(", ") + ">"
	case KStruct:
		return "struct{…}"
	}
	return t.Op + "(" + list(", ") + ")"
}

func sortTerms(l []*Term) {
	sort.Slice(l, func(i, j int) bool { return l[i].ID < l[j].ID })
}

func (t *Term) intVal() (int64, bool) {
	if t == nil || t.K != KConst || t.C == nil || t.C.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(t.C)
}

func (t *Term) strVal() (string, bool) {
	if t == nil || t.K != KConst || t.C == nil || t.C.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(t.C), true
}
