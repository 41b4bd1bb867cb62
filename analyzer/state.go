package main

// Abstract states: environment of the current activation, abstract heap,
// facts, held locks, ghost variables; and their generalisation at loop heads.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type lockEnt struct {
	addr    *Term
	write   bool
	session *Term
	pos     token.Pos
}

type deferred struct {
	call *ssa.Defer
	fn   *Term
	args []*Term
}

type traceNode struct {
	pos  token.Pos
	txt  string
	prev *traceNode
}

type upFrame struct {
	env    map[ssa.Value]*Term
	defers []*deferred
	fn     *ssa.Function
	prev   *upFrame
}

type State struct {
	env    map[ssa.Value]*Term
	defers []*deferred
	up     *upFrame
	heap   map[*Term]*Term
	f      *Facts
	ghost  map[string]*Term
	locks  []lockEnt
	trace  *traceNode
	thread string
	made   map[ssa.Instruction]int // objects made so far, per site
	ownH   bool
	ownF   bool
	ownG   bool
}

func NewState() *State {
	return &State{env: map[ssa.Value]*Term{}, heap: map[*Term]*Term{}, f: NewFacts(), ghost: map[string]*Term{}, ownH: true, ownF: true, ownG: true}
}

func (s *State) Fork() *State {
	n := &State{up: s.up, heap: s.heap, f: s.f, ghost: s.ghost, trace: s.trace, thread: s.thread, made: s.made}
	s.ownH, s.ownF, s.ownG = false, false, false
	n.env = make(map[ssa.Value]*Term, len(s.env)+8)
	for k, v := range s.env {
		n.env[k] = v
	}
	n.defers = append([]*deferred(nil), s.defers...)
	n.locks = append([]lockEnt(nil), s.locks...)
	return n
}

// alloc makes an object. States of one site share the names of their objects,
// so that states that differ only by the path taken remain comparable.
func (x *Exec) alloc(s *State, in ssa.Instruction, op string, t types.Type, args ...*Term) *Term {
	k := s.made[in]
	m := make(map[ssa.Instruction]int, len(s.made)+1)
	for i, c := range s.made {
		m[i] = c
	}
	m[in] = k + 1
	s.made = m
	id := fmt.Sprintf("%p/%d", in, k)
	for _, a := range args {
		id += "/" + a.key
	}
	if x.allocs == nil {
		x.allocs = map[string]*Term{}
	}
	n := x.allocs[id]
	if n == nil {
		n = x.ts.Alloc(op, t, in.Pos(), args...)
		x.allocs[id] = n
	}
	return n
}

func (s *State) wf() *Facts {
	if !s.ownF {
		s.f = s.f.Copy()
		s.ownF = true
	}
	return s.f
}

func (s *State) wh() map[*Term]*Term {
	if !s.ownH {
		n := make(map[*Term]*Term, len(s.heap)+8)
		for k, v := range s.heap {
			n[k] = v
		}
		s.heap = n
		s.ownH = true
	}
	return s.heap
}

func (s *State) SetGhost(k string, v *Term) {
	if s.ghost[k] == v {
		return
	}
	if !s.ownG {
		n := make(map[string]*Term, len(s.ghost)+2)
		for k, v := range s.ghost {
			n[k] = v
		}
		s.ghost = n
		s.ownG = true
	}
	if v == nil {
		delete(s.ghost, k)
		return
	}
	s.ghost[k] = v
}

func (s *State) note(pos token.Pos, txt string) {
	s.trace = &traceNode{pos, txt, s.trace}
}

// Assume refines the state; false when infeasible
func (x *Exec) assume(s *State, c *Term, truth bool) bool {
	switch s.f.eval(x.ts, c) {
	case 1:
		return truth
	case 0:
		return !truth
	}
	return s.wf().assume(x.ts, c, truth)
}

// Holds tells that c is implied by the facts
func (x *Exec) holds(s *State, c *Term) bool { return s.f.eval(x.ts, c) == 1 }

func (x *Exec) nonNil(s *State, t *Term) bool {
	return structNonNil(t) || s.f.relOf(x.ts, t, x.ts.Nil)&EQ == 0
}
func (x *Exec) isNil(s *State, t *Term) bool {
	return t == x.ts.Nil || s.f.relOf(x.ts, t, x.ts.Nil) == EQ
}

// ---- heap ----

func (x *Exec) epochOf(s *State, base *Term) *Term {
	return s.heap[x.ts.OpT("epoch", nil, base)]
}

func (x *Exec) load(s *State, addr *Term, t types.Type) *Term {
	if x.volatile != nil && x.volatile(addr) {
		return x.ts.Fresh("read", t, token.NoPos)
	}
	if v, ok := s.heap[addr]; ok {
		return v
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		if !x.expandStruct(t) {
			return x.defaultAt(s, addr, t)
		}
		args := make([]*Term, st.NumFields())
		for i := range args {
			f := st.Field(i)
			if pbInternal(f.Name()) && isPbStruct(t) {
				args[i] = x.ts.zeroOf(f.Type())
				continue
			}
			args[i] = x.load(s, x.ts.FAddr(addr, f.Name(), f.Type()), f.Type())
		}
		return x.ts.cons(&Term{K: KStruct, Op: typeKey(t), A: args, T: t})
	}
	if addr.K == KIAddr {
		b := addr.A[0]
		idx := addr.A[1]
		if b.K == KOp && b.Op == "append1" {
			n := x.lenOf(s, b.A[0])
			switch s.f.intRel(idx, n) {
			case EQ:
				return b.A[1]
			case LT:
				return x.load(s, x.iaddr(b.A[0], idx, addr.T), t)
			}
		}
	}
	return x.defaultAt(s, addr, t)
}

func (x *Exec) defaultAt(s *State, addr *Term, t types.Type) *Term {
	root := addrRoot(addr)
	if addr.K == KFAddr {
		if pv, ok := s.heap[addr.A[0]]; ok && addr.A[0].K != KSym {
			return x.ts.OpT("field:"+addr.Op, t, pv)
		}
	}
	if h, ok := s.heap[x.ts.OpT("havoc", nil, root)]; ok {
		return x.ts.cons(&Term{K: KInit, A: []*Term{addr, h}, T: t})
	}
	a := addr
	var ep *Term
	for a.K == KFAddr || a.K == KIAddr {
		if a.K == KIAddr {
			if e := x.epochOf(s, a.A[0]); e != nil {
				ep = e
			}
		}
		a = a.A[0]
	}
	if ep != nil {
		return x.ts.cons(&Term{K: KInit, A: []*Term{addr, ep}, T: t})
	}
	if root.K == KAlloc && root.Op != "opaque" {
		return x.ts.zeroOf(t)
	}
	return x.ts.cons(&Term{K: KInit, A: []*Term{addr}, T: t})
}

// expandStruct: structs whose fields are tracked one by one
func (x *Exec) expandStruct(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || st.NumFields() > 40 {
		return false
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		p := n.Obj().Pkg().Path()
		switch p {
		case "sync", "sync/atomic", "google.golang.org/protobuf/internal/impl", "time", "internal/sync":
			return false
		}
	}
	return true
}

func (x *Exec) iaddr(base, idx *Term, t types.Type) *Term {
	for base.K == KOp && base.Op == "slice" {
		lo := base.A[1]
		idx = x.ts.Arith(token.ADD, idx, lo, types.Typ[types.Int])
		base = base.A[0]
	}
	return x.ts.IAddr(base, idx, t)
}

// fieldVal is field f of a struct value
func (x *Exec) fieldVal(v *Term, i int, f *types.Var) *Term {
	if v.K == KStruct && i < len(v.A) {
		return v.A[i]
	}
	if v.K == KInit {
		return x.ts.cons(&Term{K: KInit, A: append([]*Term{x.ts.FAddr(v.A[0], f.Name(), f.Type())}, v.A[1:]...), T: f.Type()})
	}
	if v.K == KOp && strings.HasPrefix(v.Op, "zero:") {
		return x.ts.zeroOf(f.Type())
	}
	return x.ts.OpT("field:"+f.Name(), f.Type(), v)
}

func pbInternal(f string) bool {
	return f == "sizeCache" || f == "unknownFields" || f == "state"
}

func isPbStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pbPath
}

func (x *Exec) store(s *State, addr, v *Term) {
	h := s.wh()
	if v.K != KStruct && v.T != nil {
		if st, ok := v.T.Underlying().(*types.Struct); ok && x.expandStruct(v.T) {
			args := make([]*Term, st.NumFields())
			for i := range args {
				args[i] = x.fieldVal(v, i, st.Field(i))
			}
			v = x.ts.cons(&Term{K: KStruct, Op: typeKey(v.T), A: args, T: v.T})
		}
	}
	if v.K == KStruct {
		st := v.T.Underlying().(*types.Struct)
		delete(h, addr)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if pbInternal(f.Name()) && isPbStruct(v.T) {
				continue
			}
			x.store(s, x.ts.FAddr(addr, f.Name(), f.Type()), v.A[i])
		}
		return
	}
	if addr.K == KIAddr {
		base := addr.A[0]
		_, constIdx := constInt(addr.A[1])
		for k := range h {
			if k.K == KIAddr && k.A[0] == base && k != addr {
				if _, ok := constInt(k.A[1]); ok && constIdx {
					continue
				}
				delete(h, k)
			}
		}
		if !(constIdx && base.K == KAlloc && isArrayPtr(base.T)) {
			h[x.ts.OpT("epoch", nil, base)] = x.ts.Fresh("epoch", nil, token.NoPos)
		}
	}
	h[addr] = v
}

func isArrayPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Array)
	return ok
}

// havocObj forgets the content reachable by one step from p
func (x *Exec) havocObj(s *State, p *Term) {
	h := s.wh()
	root := addrRoot(p)
	for k := range h {
		if (k.K == KFAddr || k.K == KIAddr || k == p) && within(k, p) {
			delete(h, k)
		}
	}
	if p == root || root.K == KAlloc {
		h[x.ts.OpT("havoc", nil, root)] = x.ts.Fresh("havoc", nil, token.NoPos)
	} else {
		h[p] = x.ts.Fresh("havoc", p.T, token.NoPos)
	}
}

func within(k, p *Term) bool {
	for {
		if k == p {
			return true
		}
		if k.K != KFAddr && k.K != KIAddr {
			return false
		}
		k = k.A[0]
	}
}

func (x *Exec) lenOf(s *State, t *Term) *Term {
	ts := x.ts
	it := types.Typ[types.Int]
	switch {
	case t == ts.Nil:
		return ts.Int(0)
	case t.K == KConst && t.C != nil:
		if str, ok := constStr(t); ok {
			return ts.Int(int64(len(str)))
		}
	case t.K == KAlloc && t.Op == "makeslice":
		return t.A[0]
	case t.K == KOp && t.Op == "append1":
		return ts.AddK(x.lenOf(s, t.A[0]), 1)
	case t.K == KOp && t.Op == "append":
		return ts.Arith(token.ADD, x.lenOf(s, t.A[0]), x.lenOf(s, t.A[1]), it)
	case t.K == KOp && t.Op == "slice":
		hi := t.A[2]
		if hi == ts.Nil {
			hi = x.lenOf(s, t.A[0])
		}
		return ts.Arith(token.SUB, hi, t.A[1], it)
	case t.K == KOp && (t.Op == "bytes2string" || t.Op == "string2bytes"):
		return x.lenOf(s, t.A[0])
	case t.K == KAlloc && isArrayPtr(t.T):
		return ts.Int(t.T.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
	}
	if t.T != nil {
		if a, ok := t.T.Underlying().(*types.Array); ok {
			return ts.Int(a.Len())
		}
		if isArrayPtr(t.T) {
			return ts.Int(t.T.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		}
	}
	return ts.OpT("len", it, t)
}

// ---- garbage collection ----

func (x *Exec) gc(s *State, keepEnv func(ssa.Value) bool, extra ...*Term) {
	if keepEnv != nil {
		for k := range s.env {
			if !keepEnv(k) {
				delete(s.env, k)
			}
		}
	}
	live := map[*Term]bool{}
	var work []*Term
	add := func(t *Term) {
		if t == nil {
			return
		}
		for _, l := range t.leaves() {
			if !live[l] {
				live[l] = true
				work = append(work, l)
			}
		}
	}
	for _, t := range s.env {
		add(t)
	}
	for _, d := range s.defers {
		add(d.fn)
		for _, a := range d.args {
			add(a)
		}
	}
	for u := s.up; u != nil; u = u.prev {
		for _, t := range u.env {
			add(t)
		}
		for _, d := range u.defers {
			add(d.fn)
			for _, a := range d.args {
				add(a)
			}
		}
	}
	for _, g := range s.ghost {
		add(g)
	}
	for _, l := range s.locks {
		add(l.addr)
	}
	for _, p := range x.roots {
		add(p)
	}
	for _, t := range extra {
		add(t)
	}
	// heap: addresses whose leaves are all live contribute their values
	pending := map[*Term]bool{}
	for a := range s.heap {
		pending[a] = true
	}
	for changed := true; changed; {
		changed = false
		for a := range pending {
			ok := true
			for _, l := range a.leaves() {
				if !live[l] {
					ok = false
					break
				}
			}
			if ok {
				delete(pending, a)
				add(s.heap[a])
				changed = true
			}
		}
	}
	if len(pending) > 0 {
		h := s.wh()
		for a := range pending {
			delete(h, a)
		}
	}
	dead := func(t *Term) bool {
		if t == nil {
			return false
		}
		for _, l := range t.leaves() {
			if !live[l] {
				return true
			}
		}
		return false
	}
	// project difference bounds through dying terms first
	var dying []*Term
	seen := map[*Term]bool{}
	need := false
	for e := range s.f.dbm {
		for _, t := range []*Term{e.a, e.b} {
			if t != nil && !seen[t] {
				seen[t] = true
				if dead(t) {
					dying = append(dying, t)
					need = true
				}
			}
		}
	}
	f := s.f
	if !need {
		for e := range f.neq {
			if dead(e.a) || dead(e.b) {
				need = true
			}
		}
		for p := range f.rel {
			if dead(p.a) || dead(p.b) {
				need = true
			}
		}
		for b := range f.bools {
			if dead(b) {
				need = true
			}
		}
	}
	if !need {
		return
	}
	f = s.wf()
	if len(dying) > 0 && len(dying) < 200 {
		for t := range seen {
			if dead(t) {
				continue
			}
			for u := range seen {
				if t == u || dead(u) {
					continue
				}
				if _, ok := f.dbm[edge{t, u}]; ok {
					continue
				}
				if c, ok := f.boundVia(t, u, dying); ok {
					f.dbm[edge{t, u}] = c
				}
			}
			// against zero
			if c, ok := f.boundVia(t, nil, dying); ok {
				if o, ok2 := f.dbm[edge{t, nil}]; !ok2 || c < o {
					f.dbm[edge{t, nil}] = c
				}
			}
			if c, ok := f.boundVia(nil, t, dying); ok {
				if o, ok2 := f.dbm[edge{nil, t}]; !ok2 || c < o {
					f.dbm[edge{nil, t}] = c
				}
			}
		}
	}
	for e := range f.dbm {
		if dead(e.a) || dead(e.b) {
			delete(f.dbm, e)
		}
	}
	for e := range f.neq {
		if dead(e.a) || dead(e.b) {
			delete(f.neq, e)
		}
	}
	for p := range f.rel {
		if dead(p.a) || dead(p.b) {
			delete(f.rel, p)
		}
	}
	for b := range f.bools {
		if dead(b) {
			delete(f.bools, b)
		}
	}
	f.adj = nil
}

// boundVia is bound, computed only when both ends touch a dying term
func (f *Facts) boundVia(a, b *Term, dying []*Term) (int64, bool) {
	ta, tb := false, false
	for _, d := range dying {
		if _, ok := f.dbm[edge{a, d}]; ok {
			ta = true
		}
		if _, ok := f.dbm[edge{d, b}]; ok {
			tb = true
		}
		if a == nil && nonneg(d) {
			ta = true
		}
	}
	if !ta || !tb {
		return 0, false
	}
	return f.bound(a, b)
}

// ---- generalisation ----

var debugGen = os.Getenv("VF_DEBUG") != ""

type slot struct {
	v ssa.Value
	a *Term
	g string
	d int // deferred index
	i int // argument index, -1 fn
}

// plainAddr: a variable or field that is the same in every iteration
func plainAddr(a *Term) bool {
	for a.K == KFAddr {
		a = a.A[0]
	}
	return a.K == KAlloc || a.K == KGlobal || (a.K == KSym && strings.HasPrefix(a.Op, "param:"))
}

// splitTerm: one of finitely many values known on entry
func splitTerm(t *Term) bool {
	if t.K == KOp && t.Op == "len" {
		t = t.A[0]
	}
	return t.K == KAlloc || t.K == KSym && strings.HasPrefix(t.Op, "param:")
}

func (x *Exec) discreteKey(s *State) string {
	var l []string
	for v, t := range s.env {
		if isBoolType(v.Type()) && t.K == KConst {
			l = append(l, fmt.Sprintf("e%p=%s", v, t))
		}
		if ph, ok := v.(*ssa.Phi); ok && isErr(ph.Type()) { // the results that come with it depend on it
			switch {
			case x.isNil(s, t):
				l = append(l, fmt.Sprintf("n%p", v))
			case x.nonNil(s, t):
				l = append(l, fmt.Sprintf("x%p", v))
			}
		}
		if x.splitLens && splitTerm(t) {
			if _, slice := v.Type().Underlying().(*types.Slice); slice || isIntType(v.Type()) && t.K != KConst {
				l = append(l, fmt.Sprintf("s%p=%d", v, t.ID))
			}
		}
	}
	for a, t := range s.heap {
		if t.K == KConst && t.C != nil && isBoolType(t.T) && plainAddr(a) {
			l = append(l, fmt.Sprintf("h%d=%s", a.ID, t))
		}
	}
	for g, t := range s.ghost {
		if !strings.HasPrefix(g, "#") {
			l = append(l, fmt.Sprintf("g%s=%d", g, t.ID))
		}
	}
	for _, k := range s.locks {
		l = append(l, fmt.Sprintf("l%d%v", k.addr.ID, k.write))
	}
	for i, d := range s.defers {
		l = append(l, fmt.Sprintf("d%d%p", i, d.call))
	}
	for v := range s.env {
		if strings.HasPrefix(v.Name(), "$none") {
			l = append(l, v.Name())
		}
	}
	l = append(l, s.thread)
	sort.Strings(l)
	return strings.Join(l, ";")
}

func (x *Exec) slots(s *State, o *State) []slot {
	var l []slot
	for v := range s.env {
		if _, ok := o.env[v]; ok {
			l = append(l, slot{v: v, d: -1})
		}
	}
	seen := map[*Term]bool{}
	for a := range s.heap {
		seen[a] = true
		l = append(l, slot{a: a, d: -1})
	}
	known := x.knownLeaves(s)
	for a := range o.heap {
		if seen[a] {
			continue
		}
		ok := true
		if a.K == KIAddr && o.heap[x.ts.OpT("epoch", nil, a.A[0])] != nil {
			continue // covered by the epoch of the collection
		}
		for _, lf := range a.leaves() {
			if !known[lf] {
				ok = false
				break
			}
		}
		if ok {
			l = append(l, slot{a: a, d: -1})
		}
	}
	gs := map[string]bool{}
	for g := range s.ghost {
		gs[g] = true
		l = append(l, slot{g: g, d: -1})
	}
	for g := range o.ghost {
		if !gs[g] {
			l = append(l, slot{g: g, d: -1})
		}
	}
	for i, d := range s.defers {
		if i < len(o.defers) {
			l = append(l, slot{d: i, i: -1})
			for j := range d.args {
				l = append(l, slot{d: i, i: j})
			}
		}
	}
	key := func(s slot) string {
		if s.v != nil {
			return fmt.Sprintf("1%s/%p", s.v.Name(), s.v)
		}
		if s.a != nil {
			return fmt.Sprintf("2%09d", s.a.ID)
		}
		if s.g != "" {
			return "3" + s.g
		}
		return fmt.Sprintf("4%d/%d", s.d, s.i)
	}
	sort.Slice(l, func(i, j int) bool { return key(l[i]) < key(l[j]) })
	return l
}

// knownLeaves are the symbols a state says something about
func (x *Exec) knownLeaves(s *State) map[*Term]bool {
	m := map[*Term]bool{}
	add := func(t *Term) {
		if t != nil {
			for _, l := range t.leaves() {
				m[l] = true
			}
		}
	}
	for _, t := range s.env {
		add(t)
	}
	for a, t := range s.heap {
		add(a)
		add(t)
	}
	for _, t := range s.ghost {
		add(t)
	}
	for _, d := range s.defers {
		add(d.fn)
		for _, a := range d.args {
			add(a)
		}
	}
	for u := s.up; u != nil; u = u.prev {
		for _, t := range u.env {
			add(t)
		}
		for _, d := range u.defers {
			add(d.fn)
			for _, a := range d.args {
				add(a)
			}
		}
	}
	for _, t := range x.roots {
		add(t)
	}
	return m
}

func (x *Exec) slotGet(s *State, k slot) *Term {
	switch {
	case k.v != nil:
		return s.env[k.v]
	case k.a != nil:
		if v, ok := s.heap[k.a]; ok {
			return v
		}
		if k.a.K == KOp {
			return x.ts.Nil // no epoch, no havoc yet
		}
		t := k.a.T
		if t == nil {
			return x.ts.Nil
		}
		if p, ok := t.Underlying().(*types.Pointer); ok && (k.a.K == KAlloc || k.a.K == KGlobal) {
			t = p.Elem()
		}
		return x.defaultAt(s, k.a, t)
	case k.g != "":
		if v, ok := s.ghost[k.g]; ok {
			return v
		}
		return x.ts.Nil
	}
	if k.i < 0 {
		return s.defers[k.d].fn
	}
	return s.defers[k.d].args[k.i]
}

func (x *Exec) slotSet(s *State, k slot, t *Term) {
	switch {
	case k.v != nil:
		s.env[k.v] = t
	case k.a != nil:
		s.wh()[k.a] = t
	case k.g != "":
		s.SetGhost(k.g, t)
	default:
		d := *s.defers[k.d]
		if k.i < 0 {
			d.fn = t
		} else {
			d.args = append([]*Term(nil), d.args...)
			d.args[k.i] = t
		}
		s.defers[k.d] = &d
	}
}

// subst rebuilds a term with pattern variables replaced
func (x *Exec) subst(t *Term, m map[*Term]*Term) *Term {
	if t == nil || len(m) == 0 {
		return t
	}
	if r, ok := m[t]; ok {
		return r
	}
	if t.K == KSym || t.K == KAlloc || len(t.A) == 0 {
		return t
	}
	hit := false
	for _, l := range t.leaves() {
		if _, ok := m[l]; ok {
			hit = true
			break
		}
	}
	if !hit {
		return t
	}
	args := make([]*Term, len(t.A))
	for i, a := range t.A {
		args[i] = x.subst(a, m)
	}
	switch t.K {
	case KLin:
		return x.ts.AddK(args[0], t.Off)
	case KCmp:
		return x.ts.Cmp(t.Mask, args[0], args[1])
	case KOp:
		if t.Op == "!" {
			return x.ts.Not(args[0])
		}
		if t.Op == "len" {
			return x.lenOf(nil, args[0])
		}
		if isIntType(t.T) && len(args) == 2 {
			if t.Op == "+" {
				return x.ts.Arith(token.ADD, args[0], args[1], t.T)
			}
			if t.Op == "-" {
				return x.ts.Arith(token.SUB, args[0], args[1], t.T)
			}
		}
	}
	n := *t
	n.A = args
	n.lv = nil
	return x.ts.cons(&n)
}

type factItem struct {
	kind int // 0 diff, 1 neq, 2 rel, 3 bool
	a, b *Term
	c    int64
	m    uint8
	v    bool
}

func (f *Facts) items() []factItem {
	var l []factItem
	for e, c := range f.dbm {
		l = append(l, factItem{kind: 0, a: e.a, b: e.b, c: c})
	}
	for e, s := range f.neq {
		for d := range s {
			l = append(l, factItem{kind: 1, a: e.a, b: e.b, c: d})
		}
	}
	for p, m := range f.rel {
		l = append(l, factItem{kind: 2, a: p.a, b: p.b, m: m})
	}
	for b, v := range f.bools {
		l = append(l, factItem{kind: 3, a: b, v: v})
	}
	return l
}

func (x *Exec) factHolds(f *Facts, it factItem, m map[*Term]*Term) bool {
	a, b := x.subst(it.a, m), x.subst(it.b, m)
	z := func(t *Term) *Term {
		if t == nil {
			return x.ts.Zero
		}
		return t
	}
	switch it.kind {
	case 0:
		c, ok := f.diffBound(z(a), z(b))
		return ok && c <= it.c
	case 1:
		return f.intRel(z(a), x.ts.AddK(z(b), it.c))&EQ == 0
	case 2:
		return f.relOf(x.ts, a, b)&^it.m == 0
	case 3:
		r := f.eval(x.ts, a)
		return (r == 1 && it.v) || (r == 0 && !it.v)
	}
	return false
}

func (x *Exec) factAdd(f *Facts, it factItem) {
	z := func(t *Term) *Term {
		if t == nil {
			return x.ts.Zero
		}
		return t
	}
	switch it.kind {
	case 0:
		f.addDiff(z(it.a), z(it.b), it.c)
	case 1:
		f.addNeq(z(it.a), x.ts.AddK(z(it.b), it.c))
	case 2:
		if it.a == nil || it.b == nil {
			return
		}
		f.assumeRel(x.ts, it.a, it.b, it.m)
	case 3:
		if it.a.K == KCmp {
			f.assume(x.ts, it.a, it.v)
		} else if it.a.K != KConst {
			f.bools[it.a] = it.v
		}
	}
}

// grown: b is a plus a variable and a constant, their sum; else nil
func (x *Exec) grown(a, b *Term) *Term {
	d := map[*Term]int64{}
	sumOf(b, 1, d)
	sumOf(a, -1, d)
	var v *Term
	for t, k := range d {
		if t == nil || k == 0 {
			continue
		}
		if v != nil || k != 1 || t.K != KSym {
			return nil
		}
		v = t
	}
	if v == nil {
		return nil
	}
	return x.ts.AddK(v, d[nil])
}

// generalise merges the incoming state i into h. pat > 0 marks variables of
// this merge point that may be instantiated anew by incoming states.
// It returns (h, false) when i is an instance of h.
func (x *Exec) generalise(h, i *State, pat int, round int) (*State, bool) {
	ts := x.ts
	sl := x.slots(h, i)
	sigma := map[*Term]*Term{}
	isPat := func(t *Term) bool { return t.K == KSym && t.Pat == pat }
	// bind pattern variables
	getI := func(k slot) *Term {
		if k.a != nil {
			k.a = x.subst(k.a, sigma)
		}
		return x.slotGet(i, k)
	}
	for pass := 0; pass < 3; pass++ {
		for _, k := range sl {
			ht, it := x.slotGet(h, k), getI(k)
			if ht == it && pass == 0 && !isPat(ht) {
				continue
			}
			base, off := ht, int64(0)
			if ht.K == KLin {
				base, off = ht.A[0], ht.Off
			}
			if isPat(base) {
				if _, ok := sigma[base]; !ok {
					sigma[base] = ts.AddK(it, -off)
				}
			} else if pass > 0 && ht.K == KOp && ht.Op == "len" && it.K == KOp && it.Op == "len" && isPat(ht.A[0]) {
				if _, ok := sigma[ht.A[0]]; !ok {
					sigma[ht.A[0]] = it.A[0]
				}
			} else if pass > 0 && base.K == KOp && base.Op == "+" && isIntType(base.T) {
				for j := 0; j < 2; j++ {
					if isPat(base.A[j]) {
						if _, ok := sigma[base.A[j]]; !ok {
							sigma[base.A[j]] = ts.AddK(ts.Arith(token.SUB, it, x.subst(base.A[1-j], sigma), types.Typ[types.Int]), -off)
						}
						break
					}
				}
			}
		}
	}
	type bad struct {
		k      slot
		ht, it *Term
	}
	var bads []bad
	for _, k := range sl {
		ht, it := x.slotGet(h, k), getI(k)
		if x.subst(ht, sigma) != it {
			bads = append(bads, bad{k, ht, it})
		}
	}
	items := h.f.items()
	keep := items[:0:0]
	dropped := false
	for _, f := range items {
		if x.factHolds(i.f, f, sigma) {
			keep = append(keep, f)
		} else {
			dropped = true
		}
	}
	if len(bads) == 0 && !dropped {
		return h, false
	}
	if debugGen && round > 10 {
		for _, b := range bads {
			fmt.Printf("round %d bad slot v=%v a=%v g=%q: %v | %v\n", round, b.k.v, b.k.a, b.k.g, b.ht, b.it)
		}
		for _, f := range items {
			if !x.factHolds(i.f, f, sigma) {
				fmt.Printf("round %d dropped %d: %v %v %d %d %v\n", round, f.kind, f.a, f.b, f.c, f.m, f.v)
			}
		}
	}
	n := h.Fork()
	n.trace = i.trace
	n.made = map[ssa.Instruction]int{}
	for k, c := range h.made {
		n.made[k] = c
	}
	for k, c := range i.made {
		if c > n.made[k] {
			n.made[k] = c
		}
	}
	th1 := map[*Term]*Term{} // new var -> term in h
	th2 := map[*Term]*Term{}
	for k, v := range sigma {
		th2[k] = v
	}
	memo := map[string]*Term{}
	var fresh []*Term
	var sums [][3]*Term // r = base + m
	newVar := func(key string, t types.Type, a, b *Term) *Term {
		if v, ok := memo[key]; ok {
			return v
		}
		v := ts.Fresh("loop", t, token.NoPos)
		v.Pat = pat
		memo[key] = v
		th1[v] = a
		th2[v] = b
		fresh = append(fresh, v)
		return v
	}
	for _, b := range bads {
		var r *Term
		typ := b.ht.T
		if typ == nil {
			typ = b.it.T
		}
		if round < 4 && isIntTerm(b.ht) && isIntTerm(b.it) && !(isPat(b.ht)) && !(b.ht.K == KLin && isPat(b.ht.A[0])) {
			b1, o1, _ := lin(b.ht)
			b2, o2, _ := lin(b.it)
			if b1 == b2 {
				d := o2 - o1
				m := newVar(fmt.Sprintf("delta%d", d), types.Typ[types.Int], ts.Int(0), ts.Int(d))
				if b1 == nil {
					r = ts.AddK(m, o1)
				} else {
					r = ts.Arith(token.ADD, m, b.ht, types.Typ[types.Int])
					sums = append(sums, [3]*Term{r, b.ht, m})
				}
			} else if d := x.grown(x.subst(b.ht, sigma), b.it); d != nil {
				// several counters grown by the same unknown amount
				m := newVar(fmt.Sprintf("grown%d", d.ID), types.Typ[types.Int], ts.Int(0), d)
				r = ts.Arith(token.ADD, b.ht, m, types.Typ[types.Int])
				sums = append(sums, [3]*Term{r, b.ht, m})
			}
		}
		if r == nil {
			if b.k.g != "" && strings.HasPrefix(b.k.g, "#set") {
				r = x.unionSet(b.ht, b.it)
			} else if round < 4 && b.ht.K == KOp && b.ht.Op == "len" && b.it.K == KOp && b.it.Op == "len" {
				// the length of what differs
				h0, i0 := b.ht.A[0], b.it.A[0]
				r = ts.OpT("len", b.ht.T, newVar(fmt.Sprintf("p%d/%d", h0.ID, i0.ID), h0.T, h0, i0))
			} else {
				r = newVar(fmt.Sprintf("p%d/%d", b.ht.ID, b.it.ID), typ, b.ht, b.it)
			}
		}
		x.slotSet(n, b.k, r)
	}
	nf := NewFacts()
	for _, f := range keep {
		x.factAdd(nf, f)
	}
	// candidate facts about the new variables
	tryRel := func(v, o *Term) {
		v1, v2 := th1[v], th2[v]
		o1, o2 := x.substV(o, th1), x.subst(o, th2)
		if isIntTerm(v) && isIntTerm(o) {
			c1, ok1 := h.f.diffBound(v1, o1)
			c2, ok2 := i.f.diffBound(v2, o2)
			if ok1 && ok2 {
				c := c1
				if c2 > c {
					c = c2
				}
				if round < 3 || c1 >= c2 {
					nf.addDiff(v, o, c)
				}
			}
			c1, ok1 = h.f.diffBound(o1, v1)
			c2, ok2 = i.f.diffBound(o2, v2)
			if ok1 && ok2 {
				c := c1
				if c2 > c {
					c = c2
				}
				if round < 3 || c1 >= c2 {
					nf.addDiff(o, v, c)
				}
			}
			return
		}
		m := h.f.relOf(ts, v1, o1) | i.f.relOf(ts, v2, o2)
		if m != fullMask(v, o) {
			nf.assumeRel(ts, v, o, m)
		}
	}
	for _, v := range fresh {
		if round >= 8 {
			if !isIntTerm(v) {
				tryRel(v, ts.Nil)
			}
			continue
		}
		if isIntTerm(v) {
			// sign only: bounds that grow are not kept
			v1, v2 := th1[v], th2[v]
			lo1, ok1 := h.f.diffBound(ts.Zero, v1)
			lo2, ok2 := i.f.diffBound(ts.Zero, v2)
			if ok1 && ok2 && lo2 <= lo1 {
				nf.addDiff(ts.Zero, v, lo1)
			} else if ok1 && ok2 && lo1 <= 0 && lo2 <= 0 {
				nf.addDiff(ts.Zero, v, 0)
			}
			up1, ok1 := h.f.diffBound(v1, ts.Zero)
			up2, ok2 := i.f.diffBound(v2, ts.Zero)
			if ok1 && ok2 && up2 <= up1 {
				nf.addDiff(v, ts.Zero, up1)
			}
			cands := map[*Term]bool{}
			for _, vv := range []struct {
				f *Facts
				t *Term
			}{{h.f, v1}, {i.f, v2}} {
				b, _, _ := lin(vv.t)
				for e := range vv.f.dbm {
					if e.a == b && e.b != nil {
						cands[e.b] = true
					}
					if e.b == b && e.a != nil {
						cands[e.a] = true
					}
				}
				if b != nil && !x.mentionsOnly(b, th1) {
					cands[b] = true
				}
			}
			for o := range cands {
				if o == v {
					continue
				}
				// only orders that are stable: v <= o + max(c1,c2), kept if not growing
				o1, o2 := o, x.subst(o, th2)
				if c1, ok := h.f.diffBound(v1, o1); ok {
					if c2, ok := i.f.diffBound(v2, o2); ok && c2 <= c1 {
						nf.addDiff(v, o, c1)
					} else if ok && c2 <= 0 && c1 <= 0 {
						nf.addDiff(v, o, 0)
					}
				}
				if c1, ok := h.f.diffBound(o1, v1); ok {
					if c2, ok := i.f.diffBound(o2, v2); ok && c2 <= c1 {
						nf.addDiff(o, v, c1)
					} else if ok && c2 <= 0 && c1 <= 0 {
						nf.addDiff(o, v, 0)
					}
				}
			}
			for _, w := range fresh {
				if w != v && isIntTerm(w) && w.ID > v.ID {
					tryRel(v, w)
				}
			}
			continue
		}
		tryRel(v, ts.Nil)
		cands := map[*Term]bool{}
		for p := range h.f.rel {
			if p.a == th1[v] {
				cands[p.b] = true
			}
			if p.b == th1[v] {
				cands[p.a] = true
			}
		}
		for o := range cands {
			if o != v {
				tryRel(v, o)
			}
		}
		if isBoolType(v.T) {
			a, b := h.f.eval(ts, th1[v]), i.f.eval(ts, th2[v])
			if a == b && a >= 0 {
				nf.bools[v] = a == 1
			}
		}
	}
	for _, v := range sums {
		if lo, ok := nf.diffBound(ts.Zero, v[2]); ok && lo <= 0 {
			nf.addDiff(v[1], v[0], lo)
		}
	}
	n.f = nf
	n.ownF = true
	x.gc(n, nil)
	return n, true
}

func (x *Exec) mentionsOnly(t *Term, m map[*Term]*Term) bool {
	for _, l := range t.leaves() {
		if _, ok := m[l]; ok {
			return true
		}
	}
	return false
}

// substV replaces only the variables introduced by this merge
func (x *Exec) substV(t *Term, m map[*Term]*Term) *Term { return x.subst(t, m) }

func (x *Exec) unionSet(a, b *Term) *Term {
	set := map[*Term]bool{}
	for _, t := range []*Term{a, b} {
		if t.K == KOp && t.Op == "set" {
			for _, e := range t.A {
				set[e] = true
			}
		}
	}
	var l []*Term
	for e := range set {
		l = append(l, e)
	}
	sortTerms(l)
	return x.ts.OpT("set", nil, l...)
}
