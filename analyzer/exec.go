package main

// Forward data-flow engine over go/ssa: disjunctive abstract states, branch
// refinement, context sensitive inlining of the repository's functions,
// generalisation at loop heads until a fixpoint is reached.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type EvKind int

const (
	EvCall      EvKind = iota // before a call to an opaque or modelled function
	EvRet                     // after it, per outcome
	EvEnter                   // an inlined function is entered
	EvExit                    // and left
	EvStore                   // store to memory
	EvLoad                    // load from memory
	EvMapUpd                  // m[k] = v
	EvSend                    // channel send
	EvRecv                    // channel receive (Res, Ok)
	EvClose                   // close(ch)
	EvGo                      // go statement
	EvDeref                   // pointer dereference, Args[0]
	EvIndex                   // element access Args[0][Args[1]]
	EvSlice                   // slicing: Args base, lo, hi
	EvMakeSlice               // Args len, cap
	EvMakeChan
	EvAssert // x.(T) that may panic
	EvReturn // return of an entry function, Args results
	EvLock   // after acquiring, Args[0] mutex
	EvUnlock // before releasing
	EvAppend // append: Args base, added; Res result
	EvSelect // blocking select
	EvIter   // map/channel/callback iteration obtained an element
	EvDiv    // integer division
	EvFloat  // floating-point operation (Callee: operator)
	EvConv   // conversion
	EvBranch
	EvThreadEnd
	EvAlloc // a variable or object comes into being, Args[0]
)

type Event struct {
	Kind   EvKind
	Instr  ssa.Instruction
	Pos    token.Pos
	Fn     *ssa.Function // function containing the instruction
	Callee string
	CFn    *ssa.Function
	Args   []*Term
	Res    []*Term
	Write  bool
	Ok     bool
	T      types.Type
	Defer  bool
}

type Exit struct {
	s   *State
	res []*Term
}

type Exec struct {
	allocs  map[string]*Term
	p       *Prog
	ts      *Terms
	roots   []*Term
	on      func(s *State, e *Event)
	opaque  func(fn *ssa.Function) bool // functions treated as unknown
	pure    func(name string) bool
	stack   []*ssa.Function
	entry   string
	depth   int
	maxIn   int
	limit   int // disjuncts per program point before merging
	steps   int
	budget  int
	over    bool
	patSeq  int
	threads bool // follow go closures
	// statistics
	nFuncs     map[*ssa.Function]bool
	nState     int
	nCalls     int
	nMerge     int
	model      func(x *Exec, s *State, c *CallCtx) ([]Exit, bool)
	goDep      int
	stored     map[*Term]bool                           // addresses written by the running thread
	lookups    func(s *State, m, k *Term) (v, ok *Term) // content of maps
	frameN     int
	prof       map[string]int
	splitLens  bool                        // keep apart states by the lists and lengths they computed
	inlineAll  bool                        // look into functions that only compute a value
	inline     func(fn *ssa.Function) bool // the ones to look into
	inlineGenc bool                        // look into the generated codec
	fieldMaps  bool                        // maps in fields are used like caches (cache.Get, cache.Set)
	volatile   func(addr *Term) bool       // others may write it between any two reads
	copyAll    bool                        // copy finds room for all of its source
}

type CallCtx struct {
	name   string
	cfn    *ssa.Function
	instr  ssa.Instruction
	fn     *ssa.Function // caller
	args   []*Term
	fnT    *Term
	sig    *types.Signature
	deferd bool
	iface  bool
}

func NewExec(p *Prog) *Exec {
	return &Exec{p: p, ts: p.ts, maxIn: 24, limit: 96, budget: 4000000, nFuncs: map[*ssa.Function]bool{}, threads: true}
}

func (x *Exec) emit(s *State, e *Event) {
	if x.on != nil {
		x.on(s, e)
	}
}

func (x *Exec) curFn() *ssa.Function {
	if len(x.stack) == 0 {
		return nil
	}
	return x.stack[len(x.stack)-1]
}

// Run executes an entry function with symbolic arguments
func (x *Exec) Run(fn *ssa.Function, setup func(s *State, args []*Term)) []Exit {
	s := NewState()
	var args []*Term
	for i, p := range fn.Params {
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("arg%d", i)
		}
		t := x.ts.Fresh("param:"+n, p.Type(), p.Pos())
		args = append(args, t)
	}
	x.roots = args
	x.entry = fn.RelString(nil)
	x.stack = nil
	if fn.Signature.Recv() != nil && len(args) > 0 {
		if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok {
			x.assume(s, x.ts.Cmp(NE, args[0], x.ts.Nil), true)
		}
	}
	if setup != nil {
		setup(s, args)
	}
	var free []*Term
	for _, fv := range fn.FreeVars {
		t := x.ts.Fresh("free:"+fv.Name(), fv.Type(), fv.Pos())
		x.assume(s, x.ts.Cmp(NE, t, x.ts.Nil), true)
		x.roots = append(x.roots, t)
		free = append(free, t)
	}
	ex := x.call(fn, s, args, free)
	for _, e := range ex {
		x.emit(e.s, &Event{Kind: EvReturn, Fn: fn, Args: e.res, Pos: e.s.retPos()})
	}
	return ex
}

func (s *State) retPos() token.Pos {
	for t := s.trace; t != nil; t = t.prev {
		if t.txt == "return" {
			return t.pos
		}
	}
	return token.NoPos
}

type pend struct {
	pred int
	s    *State
}

type cfgInfo struct {
	rpo    map[int]int
	header map[int]bool
	// dom
	order []*ssa.BasicBlock
}

func (p *Prog) cfg(fn *ssa.Function) *cfgInfo {
	if c, ok := p.cfgs[fn]; ok {
		return c
	}
	c := &cfgInfo{rpo: map[int]int{}, header: map[int]bool{}}
	seen := map[int]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for _, t := range b.Succs {
			if !seen[t.Index] {
				dfs(t)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		c.rpo[post[i].Index] = len(c.order)
		c.order = append(c.order, post[i])
	}
	for _, b := range c.order {
		for _, t := range b.Succs {
			if t.Dominates(b) {
				c.header[t.Index] = true
			}
		}
	}
	p.cfgs[fn] = c
	return c
}

// call runs fn from s and returns its exits. s's env is the caller's.
func (x *Exec) call(fn *ssa.Function, s *State, args, free []*Term) []Exit {
	x.nFuncs[fn] = true
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	x.frameN++
	ns := s.Fork()
	callerEnv := s.env
	callerDefers := s.defers
	ns.up = &upFrame{env: s.env, defers: s.defers, fn: fn, prev: s.up}
	ns.env = map[ssa.Value]*Term{}
	ns.defers = nil
	for i, p := range fn.Params {
		if i < len(args) {
			ns.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(free) {
			ns.env[p] = free[i]
		}
	}
	cfg := x.p.cfg(fn)
	pending := map[int][]pend{0: {{-1, ns}}}
	type hdrState struct {
		s     *State
		round int
		pat   int
	}
	hdrs := map[int]map[string]*hdrState{}
	var exits []Exit
	for len(pending) > 0 {
		// earliest block in reverse post order
		best := -1
		for b := range pending {
			if best < 0 || cfg.rpo[b] < cfg.rpo[best] {
				best = b
			}
		}
		list := pending[best]
		delete(pending, best)
		blk := fn.Blocks[best]
		// phis
		for _, pd := range list {
			var vals []*Term
			var phis []*ssa.Phi
			for _, in := range blk.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				pi := -1
				for i, p := range blk.Preds {
					if p.Index == pd.pred {
						pi = i
						break
					}
				}
				phis = append(phis, ph)
				vals = append(vals, x.val(pd.s, ph.Edges[pi]))
			}
			for i, ph := range phis {
				pd.s.env[ph] = vals[i]
			}
		}
		var states []*State
		if cfg.header[best] {
			if hdrs[best] == nil {
				hdrs[best] = map[string]*hdrState{}
			}
			redo := map[string]*hdrState{}
			for _, pd := range list {
				st := pd.s
				x.gc(st, func(v ssa.Value) bool { return liveAt(v, blk) })
				key := x.discreteKey(st)
				h := hdrs[best][key]
				if h == nil {
					x.patSeq++
					h = &hdrState{s: st, pat: x.patSeq}
					hdrs[best][key] = h
					redo[key] = h
					continue
				}
				n, changed := x.generalise(h.s, st, h.pat, h.round)
				if changed {
					x.nMerge++
					h.s = n
					redo[key] = h
				}
			}
			var keys []string
			for k, h := range redo {
				keys = append(keys, k)
				h.round++
			}
			sort.Strings(keys)
			for _, k := range keys {
				states = append(states, redo[k].s.Fork())
			}
		} else {
			for _, pd := range list {
				states = append(states, pd.s)
			}
			if len(states) > 1 {
				states = x.reduce(states, blk)
			}
		}
		for _, st := range states {
			x.nState++
			if x.prof != nil {
				x.prof[fn.RelString(nil)]++
			}
			outs := x.block(fn, blk, st)
			for _, o := range outs {
				if o.exit {
					o.s.env = callerEnv
					o.s.defers = callerDefers
					o.s.up = s.up
					cp := o.s.Fork()
					exits = append(exits, Exit{cp, o.res})
				} else {
					pending[o.succ] = append(pending[o.succ], pend{blk.Index, o.s})
				}
			}
			if x.over {
				return nil
			}
		}
	}
	if len(exits) > 1 {
		exits = x.reduceExits(exits)
	}
	return exits
}

func liveAt(v ssa.Value, b *ssa.BasicBlock) bool {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return true
	}
	vb := in.Block()
	if vb == nil {
		return true
	}
	if vb == b {
		_, phi := v.(*ssa.Phi)
		return phi
	}
	return vb.Dominates(b)
}

// reduce drops duplicates and merges when there are too many disjuncts
func (x *Exec) reduce(l []*State, blk *ssa.BasicBlock) []*State {
	seen := map[string]bool{}
	var out []*State
	for _, s := range l {
		x.gc(s, func(v ssa.Value) bool { return liveAt(v, blk) && usedFrom(x.p, v, blk) })
		k := x.stateKey(s)
		if seen[k] {
			continue
		}
		seen[k] = true
		out = append(out, s)
	}
	if len(out) <= x.limit {
		return out
	}
	// merge what looks alike in the running function first
	key := func(s *State) string { return x.discreteKey(s) + x.frameShape(s) }
	n := map[string]bool{}
	for _, s := range out {
		n[key(s)] = true
	}
	if len(n) > x.limit {
		key = x.discreteKey
	}
	groups := map[string]*State{}
	var keys []string
	x.patSeq++
	for _, s := range out {
		k := key(s)
		if g, ok := groups[k]; ok {
			n, _ := x.generalise(g, s, -1, 0)
			groups[k] = n
		} else {
			groups[k] = s
			keys = append(keys, k)
		}
	}
	x.nMerge += len(out) - len(groups)
	out = out[:0]
	for _, k := range keys {
		out = append(out, groups[k])
	}
	return out
}

// shapeOf is the structure of a term without the identity of its unknowns
func shapeOf(t *Term) uint64 {
	if t == nil {
		return 7
	}
	if t.shape != 0 {
		return t.shape
	}
	h := uint64(14695981039346656037)
	mix := func(v uint64) { h = (h ^ v) * 1099511628211 }
	mixs := func(s string) {
		for i := 0; i < len(s); i++ {
			mix(uint64(s[i]))
		}
	}
	mix(uint64(t.K))
	mixs(t.Op)
	mix(uint64(t.Off))
	mix(uint64(t.Pos))
	if t.C != nil {
		mixs(t.C.ExactString())
	}
	for _, a := range t.A {
		mix(shapeOf(a))
	}
	if h == 0 {
		h = 1
	}
	t.shape = h
	return h
}

// frameShape: the shapes of the values of the running function
func (x *Exec) frameShape(s *State) string {
	var l []string
	for v, t := range s.env {
		l = append(l, v.Name()+"="+strconv.FormatUint(shapeOf(t), 36))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func (x *Exec) reduceExits(l []Exit) []Exit {
	seen := map[string]bool{}
	var out []Exit
	for _, e := range l {
		x.gc(e.s, nil, e.res...)
		k := x.stateKey(e.s)
		for _, r := range e.res {
			k += fmt.Sprintf("|%d", r.ID)
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		out = append(out, e)
	}
	return out
}

// usedFrom: v is used in a block reachable from blk (inclusive)
func usedFrom(p *Prog, v ssa.Value, blk *ssa.BasicBlock) bool {
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	reach := p.reach(blk)
	for _, r := range *refs {
		if r.Block() == nil || reach[r.Block().Index] {
			return true
		}
	}
	return false
}

func (p *Prog) reach(b *ssa.BasicBlock) map[int]bool {
	if m, ok := p.reaches[b]; ok {
		return m
	}
	m := map[int]bool{b.Index: true}
	work := []*ssa.BasicBlock{b}
	for len(work) > 0 {
		c := work[0]
		work = work[1:]
		for _, s := range c.Succs {
			if !m[s.Index] {
				m[s.Index] = true
				work = append(work, s)
			}
		}
	}
	p.reaches[b] = m
	return m
}

func (x *Exec) stateKey(s *State) string {
	var l []string
	var buf [96]byte
	id := func(t *Term) int64 {
		if t == nil {
			return -1
		}
		return int64(t.ID)
	}
	rec := func(tag string, n ...int64) {
		b := append(buf[:0], tag...)
		for _, v := range n {
			b = strconv.AppendInt(b, v, 36)
			b = append(b, ',')
		}
		l = append(l, string(b))
	}
	for v, t := range s.env {
		rec("e", int64(uintptr(valuePtr(v))), id(t))
	}
	for a, t := range s.heap {
		rec("h", id(a), id(t))
	}
	for g, t := range s.ghost {
		rec("g"+g+"=", id(t))
	}
	for e, c := range s.f.dbm {
		rec("d", id(e.a), id(e.b), c)
	}
	for e, c := range s.f.neq {
		for d := range c {
			rec("n", id(e.a), id(e.b), d)
		}
	}
	for e, c := range s.f.rel {
		rec("r", id(e.a), id(e.b), int64(c))
	}
	for e, c := range s.f.bools {
		if c {
			rec("b", id(e))
		} else {
			rec("B", id(e))
		}
	}
	for _, k := range s.locks {
		w := int64(0)
		if k.write {
			w = 1
		}
		rec("l", id(k.addr), w, id(k.session))
	}
	for i, d := range s.defers {
		rec("D", int64(i), int64(uintptr(unsafe.Pointer(d.call))))
		for _, a := range d.args {
			rec("Da", int64(i), id(a))
		}
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

// valuePtr identifies an SSA value
func valuePtr(v ssa.Value) unsafe.Pointer {
	return (*[2]unsafe.Pointer)(unsafe.Pointer(&v))[1]
}

type blockOut struct {
	exit bool
	succ int
	s    *State
	res  []*Term
}

func (x *Exec) val(s *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(x.ts, v)
	case *ssa.Function:
		return x.ts.cons(&Term{K: KFunc, Fn: v, Op: v.RelString(nil), T: v.Type()})
	case *ssa.Global:
		return x.ts.cons(&Term{K: KGlobal, Op: v.RelString(nil), T: v.Type()})
	case *ssa.Builtin:
		return x.ts.cons(&Term{K: KFunc, Op: "builtin:" + v.Name()})
	}
	if t, ok := s.env[v]; ok {
		return t
	}
	// value of an instruction that was not executed: must not happen
	t := x.ts.Fresh("undef:"+v.Name(), v.Type(), v.Pos())
	s.env[v] = t
	return t
}

// block executes the instructions of a block from one state
func (x *Exec) block(fn *ssa.Function, blk *ssa.BasicBlock, s0 *State) []blockOut {
	cur := []*State{s0}
	for _, in := range blk.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		x.steps++
		if x.steps > x.budget {
			x.over = true
			return nil
		}
		switch in := in.(type) {
		case *ssa.If:
			var outs []blockOut
			for _, s := range cur {
				c := x.val(s, in.Cond)
				pos := in.Cond.Pos()
				for i := 0; i < 2; i++ {
					n := s
					if i == 0 {
						n = s.Fork()
					}
					if x.assume(n, c, i == 0) {
						n.note(pos, fmt.Sprintf("branch %v", i == 0))
						if x.on != nil {
							x.emit(n, &Event{Kind: EvBranch, Instr: in, Pos: pos, Fn: fn, Args: []*Term{c}, Ok: i == 0})
						}
						outs = append(outs, blockOut{succ: blk.Succs[i].Index, s: n})
					}
				}
			}
			return outs
		case *ssa.Jump:
			var outs []blockOut
			for _, s := range cur {
				outs = append(outs, blockOut{succ: blk.Succs[0].Index, s: s})
			}
			return outs
		case *ssa.Return:
			var outs []blockOut
			for _, s := range cur {
				var res []*Term
				for _, r := range in.Results {
					res = append(res, x.val(s, r))
				}
				s.note(in.Pos(), "return")
				outs = append(outs, blockOut{exit: true, s: s, res: res})
			}
			return outs
		case *ssa.Panic:
			return nil
		}
		var next []*State
		for _, s := range cur {
			next = append(next, x.instr(fn, in, s)...)
		}
		cur = next
		if len(cur) == 0 {
			return nil
		}
		if len(cur) > 4*x.limit {
			cur = x.dedupe(cur)
		}
	}
	return nil
}

func (x *Exec) dedupe(l []*State) []*State {
	seen := map[string]bool{}
	var out []*State
	for _, s := range l {
		k := x.stateKey(s)
		if !seen[k] {
			seen[k] = true
			out = append(out, s)
		}
	}
	return out
}

func fieldOf(t types.Type, i int) *types.Var {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct).Field(i)
}

func (x *Exec) deref(s *State, fn *ssa.Function, in ssa.Instruction, p *Term) bool {
	if !structNonNil(p) {
		x.emit(s, &Event{Kind: EvDeref, Instr: in, Pos: in.Pos(), Fn: fn, Args: []*Term{p}})
		if !x.assume(s, x.ts.Cmp(NE, p, x.ts.Nil), true) {
			return false
		}
	}
	return true
}

func one(s *State) []*State { return []*State{s} }

func (x *Exec) instr(fn *ssa.Function, in ssa.Instruction, s *State) []*State {
	ts := x.ts
	set := func(v ssa.Value, t *Term) []*State {
		s.env[v] = t
		return one(s)
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		return one(s)
	case *ssa.Alloc:
		a := x.alloc(s, in, in.Comment, in.Type())
		x.emit(s, &Event{Kind: EvAlloc, Instr: in, Pos: in.Pos(), Fn: fn, Args: []*Term{a}})
		return set(in, a)
	case *ssa.FieldAddr:
		p := x.val(s, in.X)
		if !x.deref(s, fn, in, p) {
			return nil
		}
		f := fieldOf(in.X.Type(), in.Field)
		return set(in, ts.FAddr(p, f.Name(), f.Type()))
	case *ssa.Field:
		v := x.val(s, in.X)
		f := fieldOf(in.X.Type(), in.Field)
		return set(in, x.fieldVal(v, in.Field, f))
	case *ssa.IndexAddr:
		b := x.val(s, in.X)
		i := x.val(s, in.Index)
		_, isPtr := in.X.Type().Underlying().(*types.Pointer)
		if isPtr {
			if !x.deref(s, fn, in, b) {
				return nil
			}
		}
		if !x.index(s, fn, in, b, i) {
			return nil
		}
		et := in.Type().Underlying().(*types.Pointer).Elem()
		return set(in, x.iaddr(b, i, et))
	case *ssa.Index:
		b := x.val(s, in.X)
		i := x.val(s, in.Index)
		if !x.index(s, fn, in, b, i) {
			return nil
		}
		return set(in, ts.OpT("index", in.Type(), b, i))
	case *ssa.Lookup:
		b := x.val(s, in.X)
		i := x.val(s, in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			if !x.index(s, fn, in, b, i) {
				return nil
			}
			return set(in, ts.OpT("index", in.Type(), b, i))
		}
		return x.lookup(fn, in, s, b, i)
	case *ssa.Store:
		a := x.val(s, in.Addr)
		if !x.deref(s, fn, in, a) {
			return nil
		}
		v := x.val(s, in.Val)
		x.emit(s, &Event{Kind: EvStore, Instr: in, Pos: in.Pos(), Fn: fn, Args: []*Term{a, v}})
		if fa, ok := in.Addr.(*ssa.FieldAddr); ok && a.K == KFAddr && pbInternal(a.Op) && isPbStruct(ptrElem(fa.X.Type())) {
			return one(s) // bookkeeping of the protobuf runtime
		}
		if x.stored != nil {
			x.stored[a] = true
		}
		x.store(s, a, v)
		return one(s)
	case *ssa.MapUpdate:
		m, k, v := x.val(s, in.Map), x.val(s, in.Key), x.val(s, in.Value)
		x.emit(s, &Event{Kind: EvMapUpd, Instr: in, Pos: in.Pos(), Fn: fn, Args: []*Term{m, k, v}})
		if x.fieldMaps && m.K == KInit && m.A[0].K == KFAddr {
			x.emit(s, &Event{Kind: EvRet, Instr: in, Pos: in.Pos(), Fn: fn, Callee: "cache.Set", Args: []*Term{m, k, v, ts.Int(-1)}})
		}
		if x.stored != nil {
			x.stored[m] = true
		}
		x.mapStore(s, m, k, v)
		return one(s)
	case *ssa.UnOp:
		return x.unop(fn, in, s)
	case *ssa.BinOp:
		a, b := x.val(s, in.X), x.val(s, in.Y)
		if (in.Op == token.QUO || in.Op == token.REM) && isIntType(in.Type()) {
			x.emit(s, &Event{Kind: EvDiv, Instr: in, Pos: in.Pos(), Fn: fn, Args: []*Term{a, b}})
		}
		r := x.binop(in.Op, a, b, in.Type(), in.X.Type())
		if isFloatType(in.Type()) {
			if x.splitLens && in.Op == token.ADD { // adding 0 leaves a sum as it is
				if n, ok := x.numeric(s, b).num(); ok && n == 0 {
					r = a
				}
			}
			x.emit(s, &Event{Kind: EvFloat, Instr: in, Pos: in.Pos(), Fn: fn, Callee: in.Op.String(), Args: []*Term{a, b}, Res: []*Term{r}})
		}
		return set(in, r)
	case *ssa.Convert:
		return set(in, x.convert(s, fn, in, x.val(s, in.X), in.X.Type(), in.Type()))
	case *ssa.ChangeType:
		return set(in, x.val(s, in.X))
	case *ssa.ChangeInterface:
		return set(in, x.val(s, in.X))
	case *ssa.SliceToArrayPointer:
		return set(in, ts.OpT("slice2arr", in.Type(), x.val(s, in.X)))
	case *ssa.MakeInterface:
		return set(in, ts.Iface(x.val(s, in.X), in.X.Type()))
	case *ssa.MakeClosure:
		var b []*Term
		for _, v := range in.Bindings {
			b = append(b, x.val(s, v))
		}
		f := in.Fn.(*ssa.Function)
		return set(in, ts.cons(&Term{K: KClosure, Fn: f, Op: f.RelString(nil), A: b, T: in.Type()}))
	case *ssa.MakeChan:
		sz := x.val(s, in.Size)
		t := x.alloc(s, in, "chan", in.Type(), sz)
		x.emit(s, &Event{Kind: EvMakeChan, Instr: in, Pos: in.Pos(), Fn: fn, Args: []*Term{sz}, Res: []*Term{t}})
		return set(in, t)
	case *ssa.MakeMap:
		var a []*Term
		if in.Reserve != nil {
			a = append(a, x.val(s, in.Reserve))
			x.emit(s, &Event{Kind: EvMakeSlice, Instr: in, Pos: in.Pos(), Fn: fn, Args: []*Term{a[0], a[0]}, T: in.Type()})
		}
		return set(in, x.alloc(s, in, "map", in.Type(), a...))
	case *ssa.MakeSlice:
		l, c := x.val(s, in.Len), x.val(s, in.Cap)
		x.emit(s, &Event{Kind: EvMakeSlice, Instr: in, Pos: in.Pos(), Fn: fn, Args: []*Term{l, c}, T: in.Type()})
		return set(in, x.alloc(s, in, "makeslice", in.Type(), l, c))
	case *ssa.Slice:
		return x.slice(fn, in, s)
	case *ssa.Range:
		return set(in, ts.Fresh("iter", in.Type(), in.Pos(), x.val(s, in.X)))
	case *ssa.Next:
		it := x.val(s, in.Iter)
		var coll *Term = ts.Nil
		if len(it.A) > 0 {
			coll = it.A[0]
		}
		tt := in.Type().(*types.Tuple)
		end := s.Fork()
		end.env[in] = ts.Tuple(ts.False, ts.zeroOf2(tt.At(1).Type()), ts.zeroOf2(tt.At(2).Type()))
		k := ts.Fresh("rangekey", tt.At(1).Type(), in.Pos(), coll)
		v := ts.Fresh("rangeval", tt.At(2).Type(), in.Pos(), coll, k)
		if mt, ok := coll.T.(types.Type); ok && mt != nil {
			if m, ok := mt.Underlying().(*types.Map); ok {
				k.T = m.Key()
				v.T = m.Elem()
			}
		}
		s.env[in] = ts.Tuple(ts.True, k, v)
		x.emit(s, &Event{Kind: EvIter, Instr: in, Pos: in.Pos(), Fn: fn, Args: []*Term{coll, k, v}, Ok: true})
		x.emit(end, &Event{Kind: EvIter, Instr: in, Pos: in.Pos(), Fn: fn, Args: []*Term{coll, k, v}, Ok: false})
		return []*State{s, end}
	case *ssa.TypeAssert:
		return x.typeAssert(fn, in, s)
	case *ssa.Extract:
		t := x.val(s, in.Tuple)
		if t.K == KTuple && in.Index < len(t.A) {
			return set(in, t.A[in.Index])
		}
		return set(in, ts.OpT(fmt.Sprintf("extract:%d", in.Index), in.Type(), t))
	case *ssa.Send:
		c, v := x.val(s, in.Chan), x.val(s, in.X)
		x.emit(s, &Event{Kind: EvSend, Instr: in, Pos: in.Pos(), Fn: fn, Args: []*Term{c, v}})
		return one(s)
	case *ssa.Select:
		return x.selectI(fn, in, s)
	case *ssa.Call:
		outs := x.doCall(fn, in, &in.Call, s, false)
		var r []*State
		for _, o := range outs {
			switch len(o.res) {
			case 0:
			case 1:
				o.s.env[in] = o.res[0]
			default:
				o.s.env[in] = ts.Tuple(o.res...)
			}
			r = append(r, o.s)
		}
		return r
	case *ssa.Defer:
		d := &deferred{call: in}
		d.fn, d.args = x.callArgs(s, &in.Call)
		s.defers = append(s.defers, d)
		return one(s)
	case *ssa.RunDefers:
		cur := []*State{s}
		for {
			more := false
			var next []*State
			for _, st := range cur {
				if len(st.defers) == 0 {
					next = append(next, st)
					continue
				}
				more = true
				d := st.defers[len(st.defers)-1]
				st.defers = st.defers[:len(st.defers)-1]
				for _, o := range x.doCallWith(fn, d.call, &d.call.Call, st, d.fn, d.args, true) {
					next = append(next, o.s)
				}
			}
			cur = next
			if !more {
				return cur
			}
		}
	case *ssa.Go:
		return x.goStmt(fn, in, s)
	}
	panic(fmt.Sprintf("unsupported instruction %T in %s", in, fn))
}

func (ts *Terms) zeroOf2(t types.Type) *Term {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return ts.Nil
	}
	return ts.zeroOf(t)
}

func (x *Exec) index(s *State, fn *ssa.Function, in ssa.Instruction, b, i *Term) bool {
	x.emit(s, &Event{Kind: EvIndex, Instr: in, Pos: in.Pos(), Fn: fn, Args: []*Term{b, i}})
	n := x.lenOf(s, b)
	return x.assume(s, x.ts.Cmp(LT, i, n), true) && x.assume(s, x.ts.Cmp(GT|EQ, i, x.ts.Zero), true)
}

func (x *Exec) mapStore(s *State, m, k, v *Term) {
	h := s.wh()
	addr := x.ts.IAddr(m, k, v.T)
	for a := range h {
		if a.K == KIAddr && a.A[0] == m && a != addr {
			if mm, ok := cmpConst(a.A[1], k); ok && mm != EQ {
				continue
			}
			delete(h, a)
		}
	}
	h[x.ts.OpT("epoch", nil, m)] = x.ts.Fresh("epoch", nil, token.NoPos)
	h[addr] = v
}

func (x *Exec) lookup(fn *ssa.Function, in *ssa.Lookup, s *State, m, k *Term) []*State {
	ts := x.ts
	vt := in.X.Type().Underlying().(*types.Map).Elem()
	addr := ts.IAddr(m, k, vt)
	v, known := s.heap[addr]
	if !known && x.fieldMaps && in.CommaOk && m.K == KInit && m.A[0].K == KFAddr {
		f := s.Fork()
		v := ts.Fresh("mapget", vt, in.Pos(), m, k)
		for _, o := range []struct {
			s     *State
			v, ok *Term
		}{{s, v, ts.True}, {f, ts.zeroOf(vt), ts.False}} {
			o.s.env[in] = ts.Tuple(o.v, o.ok)
			x.emit(o.s, &Event{Kind: EvRet, Instr: in, Pos: in.Pos(), Fn: fn, Callee: "cache.Get", Args: []*Term{m, k}, Res: []*Term{o.v, o.ok}})
		}
		return []*State{s, f}
	}
	if !known && x.lookups != nil {
		if v, ok := x.lookups(s, m, k); ok != nil {
			if !in.CommaOk {
				s.env[in] = v
			} else {
				s.env[in] = ts.Tuple(v, ok)
			}
			return one(s)
		}
	}
	if !known {
		args := []*Term{m, k}
		e := x.epochOf(s, m)
		if e != nil {
			args = append(args, e)
		}
		if _, havoc := s.heap[ts.OpT("havoc", nil, m)]; e == nil && !havoc && m.K == KAlloc && m.Op == "map" { // nothing was stored yet
			s.env[in] = ts.zeroOf(vt)
			if in.CommaOk {
				s.env[in] = ts.Tuple(ts.zeroOf(vt), ts.False)
			}
			return one(s)
		}
		v = ts.OpT("lookup", vt, args...)
	}
	if !in.CommaOk {
		s.env[in] = v
		return one(s)
	}
	if known {
		s.env[in] = ts.Tuple(v, ts.True)
		return one(s)
	}
	ok := ts.OpT("haskey", types.Typ[types.Bool], v.A...)
	s.env[in] = ts.Tuple(v, ok)
	return one(s)
}

func (x *Exec) unop(fn *ssa.Function, in *ssa.UnOp, s *State) []*State {
	ts := x.ts
	v := x.val(s, in.X)
	switch in.Op {
	case token.MUL:
		if !x.deref(s, fn, in, v) {
			return nil
		}
		t := x.p.fixedGlobal(x.ts, in)
		if t == nil {
			t = x.load(s, v, in.Type())
		}
		if x.on != nil {
			x.emit(s, &Event{Kind: EvLoad, Instr: in, Pos: in.Pos(), Fn: fn, Args: []*Term{v}, Res: []*Term{t}})
		}
		s.env[in] = t
		return one(s)
	case token.NOT:
		s.env[in] = ts.Not(v)
		return one(s)
	case token.SUB:
		if v.K == KConst && v.C != nil {
			s.env[in] = ts.constVal(constant.UnaryOp(token.SUB, v.C, 0), in.Type())
			return one(s)
		}
		if v.K == KOp && v.Op == "-" && len(v.A) == 2 && isIntType(in.Type()) {
			s.env[in] = ts.OpT("-", in.Type(), v.A[1], v.A[0]) // exact, also when it wraps
			return one(s)
		}
		s.env[in] = ts.OpT("neg", in.Type(), v)
		return one(s)
	case token.XOR:
		s.env[in] = ts.OpT("compl", in.Type(), v)
		return one(s)
	case token.ARROW:
		et := in.X.Type().Underlying().(*types.Chan).Elem()
		r := ts.Fresh("recv", et, in.Pos(), v)
		if in.CommaOk {
			end := s.Fork()
			end.env[in] = ts.Tuple(ts.zeroOf(et), ts.False)
			x.emit(end, &Event{Kind: EvRecv, Instr: in, Pos: in.Pos(), Fn: fn, Args: []*Term{v}, Res: []*Term{ts.zeroOf(et)}, Ok: false})
			s.env[in] = ts.Tuple(r, ts.True)
			x.emit(s, &Event{Kind: EvRecv, Instr: in, Pos: in.Pos(), Fn: fn, Args: []*Term{v}, Res: []*Term{r}, Ok: true})
			return []*State{s, end}
		}
		x.emit(s, &Event{Kind: EvRecv, Instr: in, Pos: in.Pos(), Fn: fn, Args: []*Term{v}, Res: []*Term{r}, Ok: true})
		s.env[in] = r
		return one(s)
	}
	panic("unop " + in.Op.String())
}

func (x *Exec) binop(op token.Token, a, b *Term, t types.Type, opT types.Type) *Term {
	ts := x.ts
	switch op {
	case token.EQL:
		return ts.Cmp(EQ, a, b)
	case token.NEQ:
		return ts.Cmp(NE|UN, a, b)
	case token.LSS:
		return ts.Cmp(LT, a, b)
	case token.LEQ:
		return ts.Cmp(LT|EQ, a, b)
	case token.GTR:
		return ts.Cmp(GT, a, b)
	case token.GEQ:
		return ts.Cmp(GT|EQ, a, b)
	}
	return ts.Arith(op, a, b, t)
}

func smallNat(t *Term) bool {
	b, o, _ := lin(t)
	if b == nil {
		return o >= 0 && o < 1<<31
	}
	return b.K == KOp && (b.Op == "len" || b.Op == "cap") && o >= 0 && o < 1<<20
}

func (x *Exec) convert(s *State, fn *ssa.Function, in *ssa.Convert, v *Term, from, to types.Type) *Term {
	ts := x.ts
	switch {
	case isIntType(from) && isIntType(to):
		if v.K == KConst && v.C != nil {
			if fits(v.C, to) {
				return ts.constVal(v.C, to)
			}
			return ts.OpT("conv:"+to.String(), to, v)
		}
		fb, fu := intBits(from)
		tb, tu := intBits(to)
		if fu == tu && tb >= fb {
			return v
		}
		if fu && !tu && tb > fb {
			return v
		}
		if smallNat(v) && tb >= 32 {
			return v
		}
		// value preserving when the known range fits
		up, okU := s.f.diffBound(v, ts.Zero)
		lo, okL := s.f.diffBound(ts.Zero, v)
		if okL && lo <= 0 && (tb >= fb && tu) {
			// non negative signed value to an unsigned type
			if !fu {
				return v
			}
		}
		if okU && okL && lo <= 0 && tb >= 32 && up < 1<<31 {
			return v
		}
		r := ts.OpT("conv:"+to.String(), to, v)
		if okL && lo <= 0 || fu {
			_ = r
		}
		return r
	case isStringType(to) && isByteSlice(from):
		return ts.OpT("bytes2string", to, v)
	case isByteSlice(to) && isStringType(from):
		if v.K == KOp && v.Op == "bytes2string" {
			return ts.OpT("string2bytes", to, v)
		}
		return ts.OpT("string2bytes", to, v)
	case v.K == KConst && v.C != nil && isFloatType(to):
		return ts.constVal(constant.ToFloat(v.C), to)
	case isFloatType(from) && isFloatType(to):
		return ts.OpT("conv:"+to.String(), to, v)
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return ts.OpT("conv:"+to.String(), to, v)
	}
	return ts.OpT("conv:"+to.String(), to, v)
}

func isByteSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (x *Exec) slice(fn *ssa.Function, in *ssa.Slice, s *State) []*State {
	ts := x.ts
	b := x.val(s, in.X)
	lo, hi := ts.Zero, ts.Nil
	if in.Low != nil {
		lo = x.val(s, in.Low)
	}
	if in.High != nil {
		hi = x.val(s, in.High)
	}
	_, isPtr := in.X.Type().Underlying().(*types.Pointer)
	if isPtr && !x.deref(s, fn, in, b) {
		return nil
	}
	x.emit(s, &Event{Kind: EvSlice, Instr: in, Pos: in.Pos(), Fn: fn, Args: []*Term{b, lo, hi}, T: in.X.Type()})
	h := hi
	if h == ts.Nil {
		h = x.lenOf(s, b)
	}
	if !x.assume(s, ts.Cmp(LT|EQ, lo, h), true) {
		return nil
	}
	if lo == ts.Zero && hi == ts.Nil && !isPtr {
		s.env[in] = b
		return one(s)
	}
	if isStringType(in.X.Type()) {
		s.env[in] = ts.OpT("slice", in.Type(), b, lo, h)
		return one(s)
	}
	s.env[in] = ts.OpT("slice", in.Type(), b, lo, h)
	return one(s)
}

func (x *Exec) typeAssert(fn *ssa.Function, in *ssa.TypeAssert, s *State) []*State {
	ts := x.ts
	v := x.val(s, in.X)
	_, toIface := in.AssertedType.Underlying().(*types.Interface)
	if v.K == KIface {
		ok := false
		if toIface {
			ok = types.Implements(v.T, in.AssertedType.Underlying().(*types.Interface))
		} else {
			ok = types.Identical(v.T, in.AssertedType)
		}
		r := v
		if !toIface {
			r = v.A[0]
		}
		if in.CommaOk {
			if ok {
				s.env[in] = ts.Tuple(r, ts.True)
			} else {
				s.env[in] = ts.Tuple(ts.zeroOf(in.AssertedType), ts.False)
			}
			return one(s)
		}
		if !ok {
			x.emit(s, &Event{Kind: EvAssert, Instr: in, Pos: in.Pos(), Fn: fn, Args: []*Term{v}, T: in.AssertedType})
			return nil
		}
		s.env[in] = r
		return one(s)
	}
	tn := in.AssertedType.String()
	r := ts.OpT("assert:"+tn, in.AssertedType, v)
	if toIface {
		r = v
	}
	isT := ts.OpT("istype:"+tn, types.Typ[types.Bool], v)
	if in.CommaOk {
		end := s.Fork()
		var out []*State
		if x.assume(s, isT, true) && x.assume(s, ts.Cmp(NE, v, ts.Nil), true) {
			s.env[in] = ts.Tuple(r, ts.True)
			out = append(out, s)
		}
		if x.assume(end, isT, false) {
			end.env[in] = ts.Tuple(ts.zeroOf(in.AssertedType), ts.False)
			out = append(out, end)
		}
		return out
	}
	x.emit(s, &Event{Kind: EvAssert, Instr: in, Pos: in.Pos(), Fn: fn, Args: []*Term{v}, T: in.AssertedType})
	if !x.assume(s, isT, true) || !x.assume(s, ts.Cmp(NE, v, ts.Nil), true) {
		return nil
	}
	s.env[in] = r
	return one(s)
}

func (x *Exec) selectI(fn *ssa.Function, in *ssa.Select, s *State) []*State {
	ts := x.ts
	var outs []*State
	tt := in.Type().(*types.Tuple)
	okUsed := false
	for _, r := range *in.Referrers() {
		if e, is := r.(*ssa.Extract); is && e.Index == 1 && len(*e.Referrers()) > 0 {
			okUsed = true
		}
	}
	mk := func(idx int, open bool) *State {
		n := s.Fork()
		res := []*Term{ts.Int(int64(idx)), ts.False}
		pos := 2
		for i, st := range in.States {
			if st.Dir == types.RecvOnly {
				et := tt.At(pos).Type()
				if i == idx {
					ch := x.val(n, st.Chan)
					r := ts.Fresh("recv", et, st.Pos, ch)
					ok := ts.Bool(open)
					if !open {
						r = ts.zeroOf(et)
					}
					res[1] = ok
					res = append(res, r)
					n.env[in] = ts.Tuple(res...)
					x.emit(n, &Event{Kind: EvRecv, Instr: in, Pos: st.Pos, Fn: fn, Args: []*Term{ch}, Res: []*Term{r, ok}, Ok: open, Callee: "select"})
				} else {
					res = append(res, ts.zeroOf(et))
				}
				pos++
			} else if i == idx {
				x.emit(n, &Event{Kind: EvSend, Instr: in, Pos: st.Pos, Fn: fn, Args: []*Term{x.val(n, st.Chan), x.val(n, st.Send)}, Callee: "select"})
			}
		}
		n.env[in] = ts.Tuple(res...)
		n.note(in.Pos(), fmt.Sprintf("select case %d", idx))
		return n
	}
	x.emit(s, &Event{Kind: EvSelect, Instr: in, Pos: in.Pos(), Fn: fn, Ok: in.Blocking})
	for i := range in.States {
		outs = append(outs, mk(i, true))
		if okUsed && in.States[i].Dir == types.RecvOnly {
			outs = append(outs, mk(i, false))
		}
	}
	if !in.Blocking {
		outs = append(outs, mk(-1, true))
	}
	return outs
}

func (x *Exec) callArgs(s *State, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	var f *Term
	if c.IsInvoke() {
		f = x.val(s, c.Value)
	} else {
		f = x.val(s, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, x.val(s, a))
	}
	return f, args
}

func (x *Exec) doCall(fn *ssa.Function, in ssa.Instruction, c *ssa.CallCommon, s *State, deferd bool) []Exit {
	f, args := x.callArgs(s, c)
	return x.doCallWith(fn, in, c, s, f, args, deferd)
}

func (x *Exec) onStack(fn *ssa.Function) int {
	n := 0
	for _, f := range x.stack {
		if f == fn {
			n++
		}
	}
	return n
}

func (x *Exec) doCallWith(fn *ssa.Function, in ssa.Instruction, c *ssa.CallCommon, s *State, f *Term, args []*Term, deferd bool) []Exit {
	x.nCalls++
	cc := &CallCtx{instr: in, fn: fn, args: args, fnT: f, sig: c.Signature(), deferd: deferd}
	if c.IsInvoke() {
		recv := f
		cc.iface = true
		m := c.Method
		if recv.K == KIface {
			if callee := x.p.methodOf(recv.T, m); callee != nil {
				cc.cfn = callee
				cc.name = callee.RelString(nil)
				cc.args = append([]*Term{recv.A[0]}, args...)
				return x.static(s, cc, nil)
			}
		}
		cc.name = "iface:" + m.FullName()
		cc.args = append([]*Term{recv}, args...)
		if !x.deref(s, fn, in, recv) {
			return nil
		}
		if impl := x.p.soleImpl(c.Value.Type(), m); impl != nil {
			cc.cfn = impl
			cc.name = impl.RelString(nil)
			rt := impl.Signature.Recv().Type()
			cc.args[0] = x.ts.OpT("assert:"+rt.String(), rt, recv)
			if _, ok := rt.Underlying().(*types.Pointer); ok {
				x.assume(s, x.ts.Cmp(NE, cc.args[0], x.ts.Nil), true)
			}
			return x.static(s, cc, nil)
		}
		if x.model != nil {
			if o, ok := x.model(x, s, cc); ok {
				return o
			}
		}
		return x.external(s, cc)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fn, in, b, s, args, c)
	}
	switch f.K {
	case KFunc:
		cc.cfn = f.Fn
		cc.name = f.Fn.RelString(nil)
		return x.static(s, cc, nil)
	case KClosure:
		cc.cfn = f.Fn
		cc.name = f.Fn.RelString(nil)
		return x.static(s, cc, f.A)
	}
	cc.name = "dynamic"
	cc.args = append([]*Term{f}, args...)
	return x.external(s, cc)
}

func (x *Exec) static(s *State, cc *CallCtx, free []*Term) []Exit {
	fn := cc.cfn
	if outs, ok := x.modelled(s, cc); ok {
		return outs
	}
	if !x.inlineGenc && strings.HasPrefix(cc.name, gencPath) {
		return x.external(s, cc)
	}
	if fn != nil && !x.inlineGenc && exported(fn) && x.p.inRepo(fn) && !x.keepSimple(fn) && len(fn.Blocks) > 0 {
		if e := x.p.effectOf(fn); e.simple && e.loops {
			return x.computed(s, cc, e)
		}
	}
	if fn != nil && len(fn.Blocks) > 0 && x.p.inRepo(fn) && (x.opaque == nil || !x.opaque(fn)) &&
		x.onStack(fn) < 1 && len(x.stack) < x.maxIn {
		x.emit(s, &Event{Kind: EvEnter, Instr: cc.instr, Pos: cc.instr.Pos(), Fn: cc.fn, Callee: cc.name, CFn: fn, Args: cc.args, Defer: cc.deferd})
		outs := x.call(fn, s, cc.args, free)
		for _, o := range outs {
			x.emit(o.s, &Event{Kind: EvExit, Instr: cc.instr, Pos: cc.instr.Pos(), Fn: cc.fn, Callee: cc.name, CFn: fn, Args: cc.args, Res: o.res, Defer: cc.deferd})
		}
		return outs
	}
	return x.external(s, cc)
}

// callClosure calls a function term from a model
func (x *Exec) callFn(s *State, cc *CallCtx, f *Term, args []*Term) []Exit {
	n := &CallCtx{instr: cc.instr, fn: cc.fn, args: args, fnT: f}
	switch f.K {
	case KFunc:
		n.cfn = f.Fn
		n.name = f.Fn.RelString(nil)
		n.sig = f.Fn.Signature
		return x.static(s, n, nil)
	case KClosure:
		n.cfn = f.Fn
		n.name = f.Fn.RelString(nil)
		n.sig = f.Fn.Signature
		return x.static(s, n, f.A)
	}
	n.name = "dynamic"
	n.args = append([]*Term{f}, args...)
	if f.T != nil {
		n.sig, _ = f.T.Underlying().(*types.Signature)
	}
	return x.external(s, n)
}

func resTypes(sig *types.Signature) []types.Type {
	if sig == nil {
		return nil
	}
	var l []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		l = append(l, sig.Results().At(i).Type())
	}
	return l
}

// computed: a function of the repository that only computes a value
func (x *Exec) computed(s *State, cc *CallCtx, e effect) []Exit {
	x.pre(s, cc)
	var res []*Term
	for i, t := range resTypes(cc.sig) {
		op := "call:" + cc.name
		if i > 0 {
			op = fmt.Sprintf("call%d:%s", i, cc.name)
		}
		if e.reads {
			res = append(res, x.ts.Fresh(op, t, cc.instr.Pos(), cc.args...))
		} else {
			res = append(res, x.ts.OpT(op, t, cc.args...))
		}
	}
	return []Exit{x.post(s, cc, res...)}
}

func (x *Exec) keepSimple(fn *ssa.Function) bool {
	return x.inlineAll || (x.inline != nil && x.inline(fn))
}

// external is the effect of a function that is not looked into
func (x *Exec) external(s *State, cc *CallCtx) []Exit {
	x.emit(s, &Event{Kind: EvCall, Instr: cc.instr, Pos: cc.instr.Pos(), Fn: cc.fn, Callee: cc.name, CFn: cc.cfn, Args: cc.args, Defer: cc.deferd})
	rt := resTypes(cc.sig)
	var res []*Term
	pure := x.isPure(cc.name)
	for i, t := range rt {
		if pure {
			op := "call:" + cc.name
			if i > 0 {
				op = fmt.Sprintf("call%d:%s", i, cc.name)
			}
			a := cc.args
			if cc.name == "bytes.Equal" {
				a = sortedArgs(a[0], a[1])
			}
			res = append(res, x.ts.OpT(op, t, x.pureArgs(s, a)...))
		} else {
			op := "call:" + cc.name
			if i > 0 {
				op = fmt.Sprintf("call%d:%s", i, cc.name)
			}
			res = append(res, x.ts.Fresh(op, t, cc.instr.Pos(), cc.args...))
		}
	}
	if !pure && !harmless(cc.name) {
		for _, a := range cc.args {
			x.escape(s, a)
		}
	}
	x.emit(s, &Event{Kind: EvRet, Instr: cc.instr, Pos: cc.instr.Pos(), Fn: cc.fn, Callee: cc.name, CFn: cc.cfn, Args: cc.args, Res: res, Defer: cc.deferd})
	return []Exit{{s, res}}
}

// pureArgs replaces variadic arrays by their contents
func (x *Exec) pureArgs(s *State, args []*Term) []*Term {
	var out []*Term
	for _, a := range args {
		if e := x.sliceElems(s, a); e != nil {
			out = append(out, e...)
			continue
		}
		out = append(out, a)
		if a.T != nil && (ptrElem(a.T) != nil) {
			// contents written by this function are part of the argument
			var l []*Term
			for k := range s.heap {
				if k != a && within(k, a) {
					l = append(l, k)
				}
			}
			if len(l) > 0 {
				sortTerms(l)
				var c []*Term
				for _, k := range l {
					c = append(c, k, s.heap[k])
				}
				out = append(out, x.ts.OpT("content", nil, c...))
			}
		}
	}
	return out
}

// sliceElems lists the elements of a slice literal
func (x *Exec) sliceElems(s *State, a *Term) []*Term {
	if a.K == KOp && a.Op == "slice" && a.A[0].K == KAlloc && isArrayPtr(a.A[0].T) && a.A[1] == x.ts.Zero {
		at := a.A[0].T.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n, ok := constInt(a.A[2])
		if !ok || n != at.Len() || n > 64 {
			return nil
		}
		var out []*Term
		for i := int64(0); i < n; i++ {
			out = append(out, x.load(s, x.ts.IAddr(a.A[0], x.ts.Int(i), at.Elem()), at.Elem()))
		}
		return out
	}
	return nil
}

// escape: an unknown function may write what a points to
func (x *Exec) escape(s *State, a *Term) {
	if a.K == KIface {
		a = a.A[0]
	}
	if a.K == KAlloc {
		if a.Op == "chan" || a.Op == "map" {
			return
		}
		x.havocObj(s, a)
	}
	if a.K == KFAddr || a.K == KIAddr {
		if addrRoot(a).K == KAlloc {
			x.havocObj(s, a)
		}
	}
	if a.K == KOp && a.Op == "slice" {
		for _, e := range x.sliceElems(s, a) {
			x.escape(s, e)
		}
		x.escape(s, a.A[0])
	}
	if a.K == KClosure {
		// cells written by the closure
		for i, fv := range a.Fn.FreeVars {
			if writesVar(fv) && i < len(a.A) {
				x.havocObj(s, a.A[i])
			}
		}
	}
}

func writesVar(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == v {
				return true
			}
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == v && writesVar(r.Fn.(*ssa.Function).FreeVars[i]) {
					return true
				}
			}
		}
	}
	return false
}

func (x *Exec) goStmt(fn *ssa.Function, in *ssa.Go, s *State) []*State {
	f, args := x.callArgs(s, &in.Call)
	e := &Event{Kind: EvGo, Instr: in, Pos: in.Pos(), Fn: fn, Args: append([]*Term{f}, args...)}
	switch {
	case in.Call.IsInvoke():
		e.Callee = "iface:" + in.Call.Method.FullName()
		if f.K == KIface {
			if callee := x.p.methodOf(f.T, in.Call.Method); callee != nil {
				e.Callee = callee.RelString(nil)
				e.CFn = callee
				e.Args[0] = f.A[0]
			}
		}
	case f.Fn != nil:
		e.Callee = f.Fn.RelString(nil)
		e.CFn = f.Fn
		e.Args = args
		if f.K == KClosure {
			e.Args = append(append([]*Term{}, args...), f.A...)
		}
	default:
		e.Callee = "dynamic"
	}
	x.emit(s, e)
	if x.threads && (f.K == KClosure || f.K == KFunc && x.followGo(f.Fn)) && x.p.inRepo(f.Fn) && x.onStack(f.Fn) == 0 && x.goDep < 3 {
		t := s.Fork()
		t.locks = nil
		t.defers = nil
		t.thread = f.Fn.RelString(nil)
		for i, fv := range f.Fn.FreeVars {
			if i < len(f.A) && multiAssigned(fv, f.Fn, in) {
				x.havocObj(t, f.A[i])
			}
		}
		saved := x.stored
		x.stored = map[*Term]bool{}
		x.goDep++
		outs := x.call(f.Fn, t, args, f.A)
		x.goDep--
		for _, o := range outs {
			x.emit(o.s, &Event{Kind: EvThreadEnd, Instr: in, Pos: in.Pos(), Fn: fn, Callee: e.Callee, CFn: f.Fn, Args: o.res})
		}
		for a := range x.stored {
			r := addrRoot(a)
			if r.K == KAlloc && r.ID > s.maxAlloc(x) {
				continue
			}
			if a.K == KAlloc && a.Op == "map" {
				s.wh()[x.ts.OpT("epoch", nil, a)] = x.ts.Fresh("epoch", nil, token.NoPos)
				for k := range s.heap {
					if k.K == KIAddr && k.A[0] == a {
						delete(s.wh(), k)
					}
				}
				continue
			}
			s.wh()[a] = x.ts.Fresh("shared", a.T, in.Pos())
			if saved != nil {
				saved[a] = true
			}
		}
		x.stored = saved
	}
	return one(s)
}

// followGo: a helper started as a thread is followed as a closure would be
func (x *Exec) followGo(fn *ssa.Function) bool {
	if fn == nil || len(fn.Blocks) == 0 || x.opaque != nil && x.opaque(fn) {
		return false
	}
	o := fn.Object()
	return o != nil && !o.Exported()
}

func (s *State) maxAlloc(x *Exec) int {
	// allocations of the thread itself are not visible to the parent; they are
	// unreachable there, so overwriting them is harmless
	return 1 << 60
}

// multiAssigned: the captured variable is assigned more than once overall
func multiAssigned(fv *ssa.FreeVar, fn *ssa.Function, at *ssa.Go) bool {
	parent := fn.Parent()
	if parent == nil {
		return true
	}
	for _, r := range *fn.Referrers() {
		mc, ok := r.(*ssa.MakeClosure)
		if !ok {
			continue
		}
		for i, v := range fn.FreeVars {
			if v == fv {
				b := mc.Bindings[i]
				n := countStores(b, map[ssa.Value]bool{})
				if al, ok := b.(*ssa.Alloc); ok && n == 1 && al.Parent() == at.Parent() {
					return !assignedBefore(b, at)
				}
				return n > 1 && !assignedBefore(b, at)
			}
		}
	}
	return true
}

// assignedBefore: no assignment to the variable can follow the go statement
func assignedBefore(v ssa.Value, at *ssa.Go) bool {
	al, ok := v.(*ssa.Alloc)
	if !ok || al.Parent() != at.Parent() {
		return false
	}
	after := map[*ssa.BasicBlock]bool{}
	var mark func(b *ssa.BasicBlock)
	mark = func(b *ssa.BasicBlock) {
		for _, n := range b.Succs {
			if !after[n] && n != al.Block() { // there it is a new variable
				after[n] = true
				mark(n)
			}
		}
	}
	mark(at.Block())
	index := func(in ssa.Instruction) int {
		for i, x := range in.Block().Instrs {
			if x == in {
				return i
			}
		}
		return -1
	}
	late := func(r ssa.Instruction) bool {
		return after[r.Block()] || r.Block() == at.Block() && index(r) > index(at)
	}
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == al && late(r) {
				return false
			}
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == ssa.Value(al) && storesDown(r.Fn.(*ssa.Function).FreeVars[i]) > 0 {
					return false
				}
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			for _, q := range *r.(ssa.Value).Referrers() {
				if _, ok := q.(*ssa.UnOp); !ok && late(q) {
					return false
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func countStores(v ssa.Value, seen map[ssa.Value]bool) int {
	if seen[v] {
		return 0
	}
	seen[v] = true
	if fv, ok := v.(*ssa.FreeVar); ok {
		p := fv.Parent()
		for _, r := range *p.Referrers() {
			if mc, ok := r.(*ssa.MakeClosure); ok {
				for i, f := range p.FreeVars {
					if f == fv {
						return countStores(mc.Bindings[i], seen)
					}
				}
			}
		}
		return 2
	}
	return storesDown(v)
}

func storesDown(v ssa.Value) int {
	n := 0
	if v.Referrers() == nil {
		return 0
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == v {
				n++
			}
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == v {
					n += storesDown(r.Fn.(*ssa.Function).FreeVars[i])
				}
			}
		}
	}
	return n
}

func (x *Exec) builtin(fn *ssa.Function, in ssa.Instruction, b *ssa.Builtin, s *State, args []*Term, c *ssa.CallCommon) []Exit {
	ts := x.ts
	ret := func(t ...*Term) []Exit { return []Exit{{s, t}} }
	switch b.Name() {
	case "len":
		return ret(x.lenOf(s, args[0]))
	case "cap":
		if args[0].K == KAlloc && args[0].Op == "makeslice" && len(args[0].A) > 1 {
			return ret(args[0].A[1])
		}
		if args[0].K == KAlloc && args[0].Op == "chan" {
			return ret(args[0].A[0])
		}
		return ret(ts.OpT("cap", types.Typ[types.Int], args[0]))
	case "append":
		base := args[0]
		r := base
		if len(args) > 1 {
			if el := x.sliceElems(s, args[1]); el != nil {
				for _, e := range el {
					r = ts.OpT("append1", c.Args[0].Type(), r, e)
				}
			} else {
				r = ts.OpT("append", c.Args[0].Type(), base, args[1])
			}
		}
		x.emit(s, &Event{Kind: EvAppend, Instr: in, Pos: in.Pos(), Fn: fn, Args: args, Res: []*Term{r}, T: c.Args[0].Type()})
		return ret(r)
	case "copy":
		x.emit(s, &Event{Kind: EvCall, Instr: in, Pos: in.Pos(), Fn: fn, Callee: "builtin:copy", Args: args})
		base := args[0]
		for base.K == KOp && base.Op == "slice" {
			base = base.A[0]
		}
		h := s.wh()
		for k := range h {
			if k.K == KIAddr && k.A[0] == base {
				delete(h, k)
			}
		}
		h[ts.OpT("epoch", nil, base)] = ts.Fresh("epoch", nil, token.NoPos)
		if x.copyAll {
			return ret(x.lenOf(s, args[1]))
		}
		return ret(ts.Fresh("copied", types.Typ[types.Int], in.Pos()))
	case "close":
		x.emit(s, &Event{Kind: EvClose, Instr: in, Pos: in.Pos(), Fn: fn, Args: args})
		return ret()
	case "delete":
		x.emit(s, &Event{Kind: EvCall, Instr: in, Pos: in.Pos(), Fn: fn, Callee: "builtin:delete", Args: args})
		h := s.wh()
		for k := range h {
			if k.K == KIAddr && k.A[0] == args[0] {
				delete(h, k)
			}
		}
		h[ts.OpT("epoch", nil, args[0])] = ts.Fresh("epoch", nil, token.NoPos)
		return ret()
	case "print", "println":
		return ret()
	case "min", "max":
		r := ts.Fresh(b.Name(), c.Signature().Results().At(0).Type(), in.Pos(), args...)
		for _, a := range args {
			if b.Name() == "min" {
				x.assume(s, ts.Cmp(LT|EQ, r, a), true)
			} else {
				x.assume(s, ts.Cmp(GT|EQ, r, a), true)
			}
		}
		return ret(r)
	case "recover":
		return ret(ts.Fresh("recover", c.Signature().Results().At(0).Type(), in.Pos()))
	case "ssa:wrapnilchk":
		return ret(args[0])
	case "clear":
		h := s.wh()
		for k := range h {
			if k.K == KIAddr && k.A[0] == args[0] {
				delete(h, k)
			}
		}
		h[ts.OpT("epoch", nil, args[0])] = ts.Fresh("epoch", nil, token.NoPos)
		return ret()
	}
	var res []*Term
	for _, t := range resTypes(c.Signature()) {
		res = append(res, ts.Fresh("builtin:"+b.Name(), t, in.Pos(), args...))
	}
	return ret(res...)
}

// loop runs body repeatedly from a generalised state, as a callback iteration
// does. body returns the states that continue and those that stop.
func (x *Exec) loop(s *State, body func(s *State) (cont, stop []*State)) []*State {
	type hs struct {
		s     *State
		round int
		pat   int
	}
	hdr := map[string]*hs{}
	var exits []*State
	work := []*State{s}
	for len(work) > 0 {
		redo := map[string]bool{}
		for _, st := range work {
			x.gc(st, nil)
			k := x.discreteKey(st)
			h := hdr[k]
			if h == nil {
				x.patSeq++
				hdr[k] = &hs{s: st, pat: x.patSeq}
				redo[k] = true
				continue
			}
			n, changed := x.generalise(h.s, st, h.pat, h.round)
			if changed {
				x.nMerge++
				h.s = n
				redo[k] = true
			}
		}
		work = nil
		var ks []string
		for k := range redo {
			ks = append(ks, k)
			hdr[k].round++
		}
		sort.Strings(ks)
		for _, k := range ks {
			cont, stop := body(hdr[k].s.Fork())
			work = append(work, cont...)
			exits = append(exits, stop...)
			if x.over {
				return nil
			}
		}
	}
	var keys []string
	for k := range hdr {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		exits = append(exits, hdr[k].s.Fork())
	}
	return exits
}
