package main

// No input from the network crashes the node (C21).
//
// An interprocedural analysis of missing messages: a function that uses part
// of a message it was given without looking whether it is there requires it of
// its callers; requirements travel up the call graph. A handler must not
// require any part of its request. Lists, channels, caches and the fields
// below hold no missing messages, which is judged where they are filled.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fields of the repository that always hold a message
var wholeFields = map[string][]string{
	"Data":       {"Config"},
	"Aggregator": {"Config"},
	"DBMapEntry": {"Datum"},
}

func isPbPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isPbStruct(p.Elem())
}

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func isErr(t types.Type) bool { return t != nil && t.String() == "error" }

const (
	resWhole   = iota // never nil
	resNoError        // not nil unless an error is returned
	resMaybe
)

type crashFacts struct {
	req     map[*ssa.Function]map[string]token.Pos
	res     map[*ssa.Function]int
	changed bool
}

func (f *crashFacts) require(fn *ssa.Function, path string, pos token.Pos) {
	if f.req[fn] == nil {
		f.req[fn] = map[string]token.Pos{}
	}
	if _, ok := f.req[fn][path]; !ok {
		f.req[fn][path] = pos
		f.changed = true
	}
}

// paramPath: the parameter and the fields leading from it to the value
func paramPath(t *Term, params []*Term) (string, bool) {
	var l []string
	for {
		for i, p := range params {
			if t == p {
				path := fmt.Sprint(i)
				for j := len(l) - 1; j >= 0; j-- {
					path += "." + l[j]
				}
				return path, len(l) < 5
			}
		}
		if t.K == KInit && t.A[0].K == KFAddr {
			l = append(l, t.A[0].Op)
			t = t.A[0].A[0]
			continue
		}
		return "", false
	}
}

// handlers: the remote procedures of the node
func (c *Ctx) handlers() map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, pk := range c.p.ssa.AllPackages() {
		if pk.Pkg.Path() != pbPath {
			continue
		}
		o := pk.Pkg.Scope().Lookup("VeriServiceServer")
		if o == nil {
			continue
		}
		it := o.Type().Underlying().(*types.Interface)
		for _, t := range c.p.implementors(it) {
			for i := 0; i < it.NumMethods(); i++ {
				if f := c.p.methodOf(t, it.Method(i)); f != nil && c.p.inRepo(f) && fnPkg(f) != pbPath {
					m[f] = true
				}
			}
		}
	}
	return m
}

// scoreFns: the functions that compute on vectors of any length
func floatLists(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if s, ok := p.Type().Underlying().(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
				return true
			}
		}
	}
	return false
}

// rangeBound: the index runs over exactly this list
func rangeBound(in ssa.Instruction) bool {
	var x, i ssa.Value
	switch in := in.(type) {
	case *ssa.IndexAddr:
		x, i = in.X, in.Index
	case *ssa.Index:
		x, i = in.X, in.Index
	default:
		return false
	}
	b, ok := i.(*ssa.BinOp)
	if !ok || b.Op != token.ADD {
		return false
	}
	phi, ok := b.X.(*ssa.Phi)
	if !ok || phi.Comment != "rangeindex" {
		return false
	}
	for _, r := range *b.Referrers() {
		if cmp, ok := r.(*ssa.BinOp); ok && cmp.Op == token.LSS && cmp.X == b {
			if call, ok := cmp.Y.(*ssa.Call); ok {
				if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && call.Call.Args[0] == x {
					return true
				}
			}
		}
	}
	return false
}

// wireSized: the term is a number of a message
func (x *Exec) wireSized(s *State, t *Term) bool {
	for _, n := range []int64{1 << 10, 1 << 16, 1 << 20} { // bounded
		if x.holds(s, x.ts.Cmp(LT|EQ, t, x.ts.Int(n))) {
			return false
		}
	}
	if t.K == KOp && strings.HasPrefix(t.Op, "conv:") {
		return x.wireSized(s, t.A[0])
	}
	if t.K == KLin {
		return x.wireSized(s, t.A[0])
	}
	if t.K == KOp && (t.Op == "+" || t.Op == "*" || t.Op == "<<") {
		return x.wireSized(s, t.A[0]) || x.wireSized(s, t.A[1])
	}
	if t.K == KInit && t.A[0].K == KFAddr && isPbPtr(t.A[0].A[0].T) {
		n := namedOf(t.A[0].A[0].T)
		return n != "DataInfo"
	}
	return false
}

// peerSized: t grows with a number in the answer of a peer
func (x *Exec) peerSized(s *State, t *Term) bool {
	for _, n := range []int64{1 << 10, 1 << 16, 1 << 20} { // bounded
		if x.holds(s, x.ts.Cmp(LT|EQ, t, x.ts.Int(n))) {
			return false
		}
	}
	if t.K == KOp && (t.Op == "+" || t.Op == "*" || t.Op == "<<" || strings.HasPrefix(t.Op, "conv:")) || t.K == KLin {
		if b, o, _ := lin(t); t.K == KLin && x.holds(s, x.ts.Cmp(LT|EQ, x.ts.AddK(b, o), x.ts.Int(1<<20))) {
			return false
		}
		for i, a := range t.A {
			if t.K == KLin && t.A[i].K == KOp && t.A[i].Op == "+" { // the constant belongs to the last part added
				last := a.A[len(a.A)-1]
				_, o, _ := lin(t)
				if x.holds(s, x.ts.Cmp(LT|EQ, x.ts.AddK(last, o), x.ts.Int(1<<20))) {
					return x.peerSized(s, a.A[0])
				}
				if x.holds(s, x.ts.Cmp(LT|EQ, x.ts.AddK(a.A[0], o), x.ts.Int(1<<20))) {
					return x.peerSized(s, last)
				}
			}
			if x.peerSized(s, a) {
				return true
			}
		}
		return false
	}
	found := false
	walkTerm(t, func(u *Term) {
		if u.K == KInit && u.A[0].K == KFAddr && namedOf(u.A[0].A[0].T) == "DataInfo" && strings.HasPrefix(u.A[0].A[0].Op, "maybe") {
			found = true
		}
	})
	return found
}

func (c *Ctx) crash() {
	hs := c.handlers()
	f := &crashFacts{req: map[*ssa.Function]map[string]token.Pos{}, res: map[*ssa.Function]int{}}
	var order []*ssa.Function
	for _, fn := range c.p.funcs {
		if c.lockPkg(fn) && fn.Synthetic == "" && exported(fn) {
			order = append(order, fn)
		}
	}
	for _, fn := range c.p.funcs {
		if c.lockPkg(fn) && fn.Synthetic == "" && !exported(fn) && fn.Parent() == nil {
			order = append(order, fn)
		}
	}
	for _, fn := range c.p.funcs {
		if c.lockPkg(fn) && fn.Synthetic == "" && fn.Parent() != nil {
			order = append(order, fn)
		}
	}
	for round := 0; round < 12; round++ {
		f.changed = false
		seen := map[*ssa.Function]bool{}
		for _, fn := range order {
			if exported(fn) || !seen[fn] {
				c.crashIn(fn, f, hs, seen, false)
			}
		}
		if !f.changed {
			break
		}
	}
	if os.Getenv("VF_REQ") != "" {
		for fn, m := range f.req {
			fmt.Println(fnName(fn), m, f.res[fn])
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, fn := range order {
		if exported(fn) || !seen[fn] {
			c.crashIn(fn, f, hs, seen, true)
		}
	}
	var hl []*ssa.Function
	for h := range hs {
		hl = append(hl, h)
	}
	sort.Slice(hl, func(i, j int) bool { return fnName(hl[i]) < fnName(hl[j]) })
	for _, h := range hl {
		c.check("request", h, h.Pos(), nil, true, "")
		var l []string
		for p := range f.req[h] {
			if strings.Contains(p, ".") {
				l = append(l, p)
			}
		}
		sort.Strings(l)
		for _, p := range l {
			q := strings.SplitN(p, ".", 2)
			var i int
			fmt.Sscan(q[0], &i)
			c.check("request", h, f.req[h][p], nil, i == 0, "crashes when %s of the request is missing", q[1])
		}
		// no handler ends the process
		path := c.p.path(h, func(g *ssa.Function) bool {
			switch n := g.RelString(nil); {
			case n == "os.Exit", strings.HasPrefix(n, "log.Fatal"), strings.HasPrefix(n, "log.Panic"), strings.HasPrefix(n, "(*log.Logger).Fatal"), strings.HasPrefix(n, "(*log.Logger).Panic"), n == "runtime.Goexit":
				return true
			}
			return c.lockPkg(g) && c.p.inRepo(g) && panics(g)
		}, func(e callEdge) bool { // the command line
			p := fnPkg(e.to)
			return p == modPath || p == modPath+"/cmd" || p == modPath+"/server"
		})
		if path != nil {
			last := path[len(path)-1]
			c.check("exit", h, last.site.Pos(), nil, false, "ends the process by %s", fnName(last.to))
		} else {
			c.check("exit", h, h.Pos(), nil, !panics(h), "panics")
		}
	}
}

func panics(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Panic); ok && p.Pos().IsValid() {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) crashIn(fn *ssa.Function, f *crashFacts, hs map[*ssa.Function]bool, seen map[*ssa.Function]bool, final bool) {
	x := c.exec()
	ts := x.ts
	x.inlineAll = true
	x.limit = 24
	x.pure = func(n string) bool { return n == "iface:(net.Addr).String" }
	x.splitLens = floatLists(fn)
	x.opaque = func(g *ssa.Function) bool {
		if g == fn || fnPkg(g) == pbPath {
			return false
		}
		return !c.lockPkg(g) || exported(g) && !hasFuncParam(g)
	}
	check := func(rule string, s *State, e *Event, ok bool, format string, a ...interface{}) {
		if final && fnPkg(e.Fn) != pbPath {
			c.check(rule, e.Fn, e.Pos, s, ok, format, a...)
		}
	}
	var params []*Term
	// whole: the value is there, or the caller is required to give it
	whole := func(rule string, s *State, e *Event, t *Term, format string, a ...interface{}) {
		if x.nonNil(s, t) || strings.HasPrefix(t.Op, "assert:") {
			check(rule, s, e, true, "")
			return
		}
		if p, ok := paramPath(t, params); ok {
			f.require(fn, p, e.Pos)
			x.assume(s, ts.Cmp(NE, t, ts.Nil), true)
			check(rule, s, e, true, "")
			return
		}
		check(rule, s, e, false, format, a...)
		x.assume(s, ts.Cmp(NE, t, ts.Nil), true)
	}
	wellFormed := func(s *State, d *Term) {
		for _, n := range []string{"Key", "Value"} {
			x.assume(s, ts.Cmp(NE, x.field(s, d, n), ts.Nil), true)
		}
	}
	x.model = func(x *Exec, s *State, cc *CallCtx) ([]Exit, bool) {
		rt := resTypes(cc.sig)
		if len(rt) == 0 || !isPtr(rt[0]) {
			return nil, false
		}
		kind, known := resWhole, false
		if cc.cfn != nil && c.p.inRepo(cc.cfn) && x.opaque(cc.cfn) {
			kind, known = f.res[cc.cfn], true
		} else if strings.HasPrefix(cc.name, "iface:("+pbPath+".") && len(rt) == 2 && isErr(rt[1]) {
			kind, known = resNoError, true
		} else if strings.HasPrefix(cc.name, ifaceSrc) {
			kind, known = resMaybe, true
		}
		if !known {
			return nil, false
		}
		hasErr := len(rt) == 2 && isErr(rt[1])
		x.pre(s, cc)
		if cc.cfn != nil {
			for _, a := range cc.args {
				x.escape(s, a)
			}
		}
		mk := func(op string) []*Term {
			var l []*Term
			for i, t := range rt {
				o := op
				if i > 0 {
					o = "result"
				}
				l = append(l, ts.Fresh(o, t, cc.instr.Pos()))
			}
			return l
		}
		switch {
		case kind == resWhole:
			r := mk("result")
			x.assume(s, ts.Cmp(NE, r[0], ts.Nil), true)
			return []Exit{x.post(s, cc, r...)}, true
		case kind == resNoError && hasErr:
			g := s.Fork()
			r, q := mk("result"), mk("maybe")
			x.assume(s, ts.Cmp(NE, r[0], ts.Nil), true)
			r[1] = ts.Nil
			x.assume(g, ts.Cmp(NE, q[1], ts.Nil), true)
			return []Exit{x.post(s, cc, r...), x.post(g, cc, q...)}, true
		}
		return []Exit{x.post(s, cc, mk("maybe")...)}, true
	}
	callee := func(s *State, e *Event, g *ssa.Function, args []*Term) {
		if g == nil {
			return
		}
		var l []string
		for p := range f.req[g] {
			l = append(l, p)
		}
		sort.Strings(l)
		for _, p := range l {
			q := strings.Split(p, ".")
			var i int
			fmt.Sscan(q[0], &i)
			if i >= len(args) {
				continue
			}
			t := args[i]
			okp := true
			g0 := s
			for _, n := range q[1:] {
				if x.isNil(g0, t) { // its own requirement
					okp = false
					break
				}
				if !x.nonNil(g0, t) {
					if g0 == s {
						g0 = s.Fork()
					}
					x.assume(g0, ts.Cmp(NE, t, ts.Nil), true)
				}
				t = x.field(g0, t, n)
			}
			if okp {
				whole("message", g0, e, t, "%s is given a message without %s", fnName(g), strings.Join(q[1:], "."))
			}
		}
	}
	targets := func(in ssa.Instruction) []*ssa.Function {
		if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
			return c.p.targets(ci.Common())
		}
		return nil
	}
	diffs := c.fn("data.(*Data).DataSourceDiffMap")
	x.on = func(s *State, e *Event) {
		switch e.Kind {
		case EvDeref:
			t := e.Args[0]
			if isPbPtr(t.T) || strings.HasPrefix(t.Op, "maybe") {
				whole("message", s, e, t, "uses a %s that may be missing", namedOf(t.T))
			}
		case EvGo:
			if e.CFn != nil {
				callee(s, e, e.CFn, e.Args)
			}
			for _, g := range targets(e.Instr) {
				if g != e.CFn {
					callee(s, e, g, e.Args)
				}
			}
		case EvCall:
			if e.CFn != nil && c.p.inRepo(e.CFn) && e.CFn.Signature.Recv() != nil && isPtr(e.Args[0].T) && strings.HasPrefix(e.Args[0].Op, "maybe") {
				whole("message", s, e, e.Args[0], "uses a %s that may be missing", namedOf(e.Args[0].T))
			}
			if e.CFn != nil && c.p.inRepo(e.CFn) {
				callee(s, e, e.CFn, e.Args)
			} else {
				for _, g := range targets(e.Instr) {
					callee(s, e, g, e.Args)
				}
			}
			switch e.Callee {
			case "cache.Set", "cache.Add", "cache.SetDefault":
				if len(e.Args) > 2 {
					if v := unIface(e.Args[2]); isPbPtr(v.T) {
						whole("filled", s, e, v, "a missing message is put into a cache")
					}
				}
			}
			if strings.HasPrefix(e.Callee, gencPath) {
				for _, a := range e.Args {
					if isPbPtr(a.T) {
						whole("message", s, e, a, "a missing message is encoded")
					}
				}
			}
		case EvRet:
			if strings.HasPrefix(e.Callee, "strings.LastIndex") || strings.HasPrefix(e.Callee, "strings.Index") {
				x.assume(s, ts.Cmp(LT|EQ, e.Res[0], x.lenOf(s, e.Args[0])), true)
			}
		case EvSend:
			if isPbPtr(e.Args[1].T) {
				whole("filled", s, e, e.Args[1], "a missing message is sent to a channel")
			}
		case EvRecv:
			if e.Ok && len(e.Res) > 0 && isPbPtr(e.Res[0].T) {
				x.assume(s, ts.Cmp(NE, e.Res[0], ts.Nil), true)
			}
		case EvAppend:
			if r := e.Res[0]; opIs(r, "append1") && isPbPtr(r.A[1].T) {
				whole("filled", s, e, r.A[1], "a missing message is put into a list")
			}
		case EvStore:
			a := e.Args[0]
			if fn == diffs && a.K == KAlloc && isIntType(e.Args[1].T) { // its sum is the size of a channel
				check("size", s, e, !x.peerSized(s, e.Args[1]), "the size of an allocation is taken from the answer of a peer")
			}
			if a.K == KIAddr && isPbPtr(e.Args[1].T) {
				whole("filled", s, e, e.Args[1], "a missing message is put into a list")
			}
			if a.K == KFAddr && inList(wholeFields, namedOf(a.A[0].T), a.Op) {
				whole("filled", s, e, e.Args[1], "%s.%s is set to a missing message", namedOf(a.A[0].T), a.Op)
				if isFAddr(a, "DBMapEntry", "Datum") && x.nonNil(s, e.Args[1]) {
					for _, n := range []string{"Key", "Value"} {
						whole("filled", s, e, x.field(s, e.Args[1], n), "a datum without %s is stored", n)
					}
				}
			}
		case EvLoad:
			a := e.Args[0]
			if len(e.Res) == 0 {
				return
			}
			v := e.Res[0]
			if p, ok := a.T.Underlying().(*types.Pointer); ok && a.K != KIAddr && a.K != KFAddr && isDatumList(p.Elem()) {
				s.SetGhost("index", ts.True)
				s.SetGhost("#index", v)
			}
			if !isPbPtr(v.T) {
				return
			}
			if a.K == KIAddr {
				x.assume(s, ts.Cmp(NE, v, ts.Nil), true)
				if s.ghost["index"] != nil && a.A[0] == s.ghost["#index"] {
					wellFormed(s, v)
				}
			}
			if a.K == KFAddr && inList(wholeFields, namedOf(a.A[0].T), a.Op) {
				x.assume(s, ts.Cmp(NE, v, ts.Nil), true)
				if namedOf(v.T) == "Datum" {
					wellFormed(s, v)
				}
			}
		case EvIndex:
			if rangeBound(e.Instr) || isDatumList(e.Args[0].T) && e.Args[0].K != KAlloc || isLess(e.Fn) {
				return
			}
			n := x.lenOf(s, e.Args[0])
			i := e.Args[1]
			ok := x.holds(s, ts.Cmp(LT, i, n)) && (x.holds(s, ts.Cmp(GT|EQ, i, ts.Zero)) || i.K == KOp && strings.HasPrefix(i.Op, "conv:") && !isFloatType(i.A[0].T))
			check("bounds", s, e, ok, "the index may be out of range")
		case EvSlice:
			if isArrayPtr(e.Args[0].T) {
				return
			}
			lo, hi := e.Args[1], e.Args[2]
			n := x.lenOf(s, e.Args[0])
			if x.isNil(s, hi) || hi == ts.Nil {
				hi = n
			}
			ok := lo == hi || lo == ts.Zero || x.holds(s, ts.Cmp(LT|EQ, lo, hi))
			within := func(i *Term) bool { return i == n || i == ts.Zero || x.holds(s, ts.Cmp(LT|EQ, i, n)) }
			ok = ok && within(hi)
			if in, is := e.Instr.(*ssa.Slice); is && in.Max != nil {
				ok = ok && within(x.val(s, in.Max)) && x.holds(s, ts.Cmp(LT|EQ, hi, x.val(s, in.Max)))
			}
			check("bounds", s, e, ok, "the slice may be out of range")
		case EvMakeSlice, EvMakeChan:
			for _, a := range e.Args {
				if x.wireSized(s, a) {
					check("size", s, e, false, "the size of an allocation is taken from a message")
				}
			}
			check("size", s, e, true, "")
		case EvDiv:
			check("division", s, e, x.holds(s, ts.Cmp(NE, e.Args[1], ts.Zero)), "the divisor may be zero")
		}
	}
	handler := hs[fn]
	ex := c.run(x, fn, func(s *State, a []*Term) {
		params = a
		for i, t := range a {
			if isPbPtr(t.T) && handler || i == 0 && fn.Signature.Recv() != nil && isPtr(t.T) && !isPbPtr(t.T) {
				x.assume(s, ts.Cmp(NE, t, ts.Nil), true)
			}
		}
	})
	for g := range x.nFuncs {
		seen[g] = true
	}
	seen[fn] = true
	rt := resTypes(fn.Signature)
	if len(rt) == 0 || !isPtr(rt[0]) {
		return
	}
	kind := resWhole
	for _, e := range ex {
		if x.nonNil(e.s, e.res[0]) || strings.HasPrefix(e.res[0].Op, "assert:") {
			continue
		}
		k := resMaybe
		if len(rt) == 2 && isErr(rt[1]) && x.nonNil(e.s, e.res[1]) {
			k = resNoError
		}
		if k > kind {
			kind = k
		}
	}
	if kind > f.res[fn] {
		f.res[fn] = kind
		f.changed = true
	}
}

// isLess: compares elements by position, as sorting asks
func isLess(fn *ssa.Function) bool {
	s := fn.Signature
	if s.Recv() != nil || s.Params().Len() != 2 || s.Results().Len() != 1 || !isBoolType(s.Results().At(0).Type()) {
		return false
	}
	for i := 0; i < 2; i++ {
		if !isIntType(s.Params().At(i).Type()) {
			return false
		}
	}
	return true
}

func init() {
	register("C21", "No message from the network, whatever it lacks, makes the node use a missing message, index out of range, size an allocation, divide by zero or exit.",
		[]string{"request", "message", "filled", "bounds", "size", "exit"}, func(c *Ctx) { c.crash() })
}
