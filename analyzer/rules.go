package main

// Rule framework: obligations, violations, evidence.

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Rule struct {
	ID    string
	Doc   string
	Run   func(c *Ctx)
	Needs []string // rule names that must have at least one instance
}

var rules = map[string]*Rule{}

func register(id, doc string, needs []string, run func(c *Ctx)) {
	rules[id] = &Rule{ID: id, Doc: doc, Run: run, Needs: needs}
}

type Violation struct {
	Rule, Func, Site, Msg string
	Trace                 []string
}

type Ctx struct {
	p      *Prog
	prop   string
	tier   string
	ob     map[string]map[string]bool // rule -> construct -> seen
	evals  map[string]int
	viol   map[string]*Violation
	vkeys  []string
	funcs  map[string]bool
	states int
	calls  int
	steps  int
	entry  []string

	loadPath           string // C25
	loadTerm, loadRecv *Term
}

// undecided aborts the analysis of a property: reported as a violation
type undecided struct{ msg string }

func (c *Ctx) giveUp(format string, a ...interface{}) {
	panic(undecided{fmt.Sprintf(format, a...)})
}

func (c *Ctx) fn(name string) *ssa.Function {
	f := c.p.fn(name)
	if f == nil {
		c.giveUp("the function %s the property is about does not exist", name)
	}
	return f
}

// opt returns the function when it exists
func (c *Ctx) opt(name string) *ssa.Function { return c.p.fn(name) }

func (c *Ctx) exec() *Exec {
	x := NewExec(c.p)
	if c.tier == "thorough" {
		x.limit *= 4
		x.budget *= 4
	}
	return x
}

func (c *Ctx) run(x *Exec, fn *ssa.Function, setup func(s *State, args []*Term)) []Exit {
	ex := x.Run(fn, setup)
	c.entry = append(c.entry, short(fn.RelString(nil)))
	c.states += x.nState
	c.calls += x.nCalls
	c.steps += x.steps
	for f := range x.nFuncs {
		c.funcs[short(f.RelString(nil))] = true
	}
	if x.over {
		c.giveUp("the analysis of %s exceeded its budget of %d steps", short(fn.RelString(nil)), x.budget)
	}
	return ex
}

func short(s string) string { return strings.ReplaceAll(s, modPath+"/", "") }

func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	return short(fn.RelString(nil))
}

// check records an obligation at a construct and whether it is met
func (c *Ctx) check(rule string, fn *ssa.Function, pos token.Pos, s *State, ok bool, format string, a ...interface{}) bool {
	if rule == "" {
		return ok // judged under another property
	}
	site := c.p.pos(pos)
	if c.ob[rule] == nil {
		c.ob[rule] = map[string]bool{}
	}
	c.ob[rule][fnName(fn)+" "+site] = true
	c.evals[rule]++
	if ok {
		return true
	}
	key := rule + "|" + fnName(fn) + "|" + site
	if c.viol[key] == nil {
		v := &Violation{Rule: rule, Func: fnName(fn), Site: site, Msg: fmt.Sprintf(format, a...)}
		if s != nil {
			n := 0
			for t := s.trace; t != nil && n < 40; t = t.prev {
				v.Trace = append(v.Trace, c.p.pos(t.pos)+" "+t.txt)
				n++
			}
			for i, j := 0, len(v.Trace)-1; i < j; i, j = i+1, j-1 {
				v.Trace[i], v.Trace[j] = v.Trace[j], v.Trace[i]
			}
		}
		c.viol[key] = v
		c.vkeys = append(c.vkeys, key)
	}
	return false
}

// ---- recognisers ----

func namedOf(t types.Type) string {
	if t == nil {
		return ""
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// isFAddr: address of field name of a struct of the named type
func isFAddr(t *Term, typ, field string) bool {
	return t != nil && t.K == KFAddr && t.Op == field && (typ == "" || namedOf(t.A[0].T) == typ)
}

// isField: value read from field of a struct of the named type
func isField(t *Term, typ, field string) bool {
	if t == nil {
		return false
	}
	if t.K == KOp && t.Op == "field:"+field {
		return true
	}
	return t.K == KInit && isFAddr(t.A[0], typ, field)
}

// fieldOf2 returns the object a field value was read from
func baseOf(t *Term, typ, field string) *Term {
	if isField(t, typ, field) && t.K == KInit {
		return t.A[0].A[0]
	}
	return nil
}

// unconv strips conversions that keep all bits of a number
func unconv(t *Term) *Term {
	for t != nil && t.K == KOp && strings.HasPrefix(t.Op, "conv") && len(t.A) == 1 && !narrows(t) {
		t = t.A[0]
	}
	return t
}

func narrows(t *Term) bool {
	if t.T == nil || !isIntType(t.T) || t.A[0].T == nil || !isIntType(t.A[0].T) {
		return false
	}
	from, _ := intBits(t.A[0].T)
	to, _ := intBits(t.T)
	return to < from
}

func opIs(t *Term, op string) bool { return t != nil && (t.K == KOp || t.K == KSym) && t.Op == op }

func callIs(t *Term, name string) bool { return opIs(t, "call:"+name) }

// isNow: seconds since the epoch, now
func isNow(t *Term) bool {
	t = unconv(t)
	return callIs(t, "(time.Time).Unix") && len(t.A) > 0 && callIs(t.A[0], "time.Now")
}

func unIface(t *Term) *Term {
	if t != nil && t.K == KIface {
		return t.A[0]
	}
	return t
}

// field reads a field of the object o points to
func (x *Exec) field(s *State, o *Term, name string) *Term {
	t := o.T
	if t == nil {
		return x.ts.Nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return x.ts.Nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return x.load(s, x.ts.FAddr(o, name, st.Field(i).Type()), st.Field(i).Type())
		}
	}
	return x.ts.Nil
}

func (x *Exec) mayNil(s *State, t *Term) bool { return !x.nonNil(s, t) }

func (x *Exec) eq(s *State, a, b *Term) bool {
	return a == b || x.holds(s, x.ts.Cmp(EQ, a, b))
}

// relFacts enumerates what is known about t in relation to other terms
func (x *Exec) related(s *State, t *Term) []*Term {
	var l []*Term
	seen := map[*Term]bool{}
	add := func(o *Term) {
		if o != nil && o != t && !seen[o] {
			seen[o] = true
			l = append(l, o)
		}
	}
	for _, it := range s.f.items() {
		if it.kind == 3 {
			continue
		}
		if it.a == t {
			add(it.b)
		}
		if it.b == t {
			add(it.a)
		}
	}
	sortTerms(l)
	return l
}

// equalPairs lists byte strings known to be equal
func (x *Exec) equalPairs(s *State) [][2]*Term {
	var l [][2]*Term
	var cands []*Term
	seen := map[*Term]bool{}
	for _, it := range s.f.items() {
		for _, t := range []*Term{it.a, it.b} {
			if t != nil && !seen[t] {
				seen[t] = true
				cands = append(cands, t)
			}
		}
		if it.kind == 2 && it.m == EQ {
			a, b := it.a, it.b
			if opIs(a, "bytes2string") && opIs(b, "bytes2string") {
				a, b = a.A[0], b.A[0]
			}
			l = append(l, [2]*Term{a, b})
		}
	}
	for _, t := range cands {
		switch {
		case callIs(t, "bytes.Equal") && len(t.A) >= 2 && x.holds(s, t):
			l = append(l, [2]*Term{t.A[0], t.A[1]})
		case callIs(t, "bytes.Compare") && len(t.A) >= 2 && x.holds(s, x.ts.Cmp(EQ, t, x.ts.Zero)):
			l = append(l, [2]*Term{t.A[0], t.A[1]})
		}
	}
	return l
}

// ---- driver ----

type known struct{ prop, rule, fn string }

func loadKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var l []known
	for _, line := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(line, "known: ") {
			continue
		}
		k := known{}
		for _, f := range strings.Fields(line) {
			if v := strings.TrimPrefix(f, "property="); v != f {
				k.prop = v
			}
			if v := strings.TrimPrefix(f, "rule="); v != f {
				k.rule = v
			}
			if v := strings.TrimPrefix(f, "func="); v != f {
				k.fn = v
			}
		}
		l = append(l, k)
	}
	return l
}

func runRule(p *Prog, r *Rule, tier string) (c *Ctx) {
	c = &Ctx{p: p, prop: r.ID, tier: tier, ob: map[string]map[string]bool{}, evals: map[string]int{}, viol: map[string]*Violation{}, funcs: map[string]bool{}}
	defer func() {
		if e := recover(); e != nil {
			if os.Getenv("VF_PANIC") != "" {
				if _, ok := e.(undecided); !ok {
					panic(e)
				}
			}
			msg := fmt.Sprint("the analysis failed: ", e)
			if u, ok := e.(undecided); ok {
				msg = u.msg
			}
			c.check("undecided", nil, token.NoPos, nil, false, "%s", msg)
		}
	}()
	r.Run(c)
	for _, n := range r.Needs {
		if len(c.ob[n]) == 0 {
			c.check("vacuous:"+n, nil, token.NoPos, nil, false, "no construct of the source is an instance of rule %q: the mechanism the property rests on is gone or not recognised", n)
		}
	}
	return c
}

func verdict(c *Ctx, r *Rule, tier, verif string, wall float64, knownL []known) int {
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0755)
	obl, evals := 0, 0
	perRule := map[string]interface{}{}
	var samples []string
	var names []string
	for n := range c.ob {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		obl += len(c.ob[n])
		evals += c.evals[n]
		perRule[n] = map[string]int{"constructs": len(c.ob[n]), "evaluations": c.evals[n]}
		var l []string
		for k := range c.ob[n] {
			l = append(l, k)
		}
		sort.Strings(l)
		for i, k := range l {
			if i == 3 {
				break
			}
			samples = append(samples, n+" @ "+k)
		}
	}
	var vs, ks []*Violation
	sort.Strings(c.vkeys)
	for _, k := range c.vkeys {
		v := c.viol[k]
		isKnown := false
		for _, kn := range knownL {
			if kn.prop == c.prop && kn.rule == v.Rule && kn.fn == v.Func {
				isKnown = true
			}
		}
		if isKnown {
			ks = append(ks, v)
		} else {
			vs = append(vs, v)
		}
	}
	var fns []string
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var vmsg []string
	for _, v := range vs {
		vmsg = append(vmsg, v.Site+" "+v.Func+" ["+v.Rule+"] "+v.Msg)
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]interface{}{
		"property": c.prop, "tier": tier, "seed": seed, "level": "other", "wall_s": wall,
		"violations": len(vs),
		"coverage": map[string]interface{}{
			"explanation": r.Doc + " Decided by a static dataflow analysis of the SSA form of the current source; nothing of the repository is executed. Every obligation below was evaluated on the abstract states reaching that construct.",
			"obligations": obl, "discharged": obl - len(c.viol), "evaluations": evals,
			"rules": perRule, "entry_functions": c.entry, "functions_analysed": fns,
			"abstract_states": c.states, "call_sites_visited": c.calls, "instructions_interpreted": c.steps,
			"samples": samples, "violations": vmsg,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, c.prop+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println(err)
	}
	for _, v := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s %s [%s] %s\n", c.prop, v.Site, v.Func, v.Rule, v.Msg)
	}
	if len(vs) == 0 {
		fmt.Printf("OK property=%s: %d constructs, %d evaluations, %d functions, %d abstract states, %.1fs\n", c.prop, obl, evals, len(fns), c.states, wall)
		return 0
	}
	rp := filepath.Join(dir, c.prop+".violation.txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\n", c.prop)
	for _, v := range vs {
		fmt.Fprintf(&sb, "\n%s: in %s\n  rule: %s\n  %s\n", v.Site, v.Func, v.Rule, v.Msg)
		if len(v.Trace) > 0 {
			fmt.Fprintf(&sb, "  path:\n")
			for _, t := range v.Trace {
				fmt.Fprintf(&sb, "    %s\n", t)
			}
		}
		fmt.Printf("%s: %s: [%s] %s\n", v.Site, v.Func, v.Rule, v.Msg)
	}
	os.WriteFile(rp, []byte(sb.String()), 0644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, rp)
	return 1
}

func mainCheck(props []string, tier, repo, verif string) int {
	start := time.Now()
	p, err := loadProg(repo)
	code := 0
	knownL := loadKnown(filepath.Join(verif, "known-findings.txt"))
	for _, id := range props {
		r := rules[id]
		if r == nil {
			fmt.Println("no such property", id)
			return 1
		}
		var c *Ctx
		if err != nil {
			c = &Ctx{p: &Prog{dir: repo, fset: token.NewFileSet()}, prop: id, ob: map[string]map[string]bool{}, evals: map[string]int{}, viol: map[string]*Violation{}, funcs: map[string]bool{}}
			c.check("load", nil, token.NoPos, nil, false, "%v", err)
		} else {
			c = runRule(p, r, tier)
		}
		if verdict(c, r, tier, verif, time.Since(start).Seconds(), knownL) != 0 {
			code = 1
		}
		start = time.Now()
		if p != nil && len(props) > 1 { // fresh terms per property
			p.ts = NewTerms()
		}
	}
	return code
}

func typesPtr(n *types.Named) types.Type { return types.NewPointer(n) }

func sprintf(f string, a ...interface{}) string { return fmt.Sprintf(f, a...) }

const (
	shr = token.SHR
	add = token.ADD
)

var intT = types.Typ[types.Int]

// light makes functions opaque that have no part in the life of stored data
func (c *Ctx) light() func(f *ssa.Function) bool {
	return func(f *ssa.Function) bool {
		if strings.HasSuffix(fnPkg(f), "/annoyindex") {
			return true
		}
		switch f.RelString(nil) {
		case dataT + "DataSourceDiffMap":
			return true
		}
		return false
	}
}

// unshared: an object of a type that was handed over is not changed any more; every one handed over was
// made for that. One object at a time is followed, the last one made.
type unshared struct {
	c          *Ctx
	x          *Exec
	rule, name string
}

func (u *unshared) event(s *State, e *Event, format string, a ...interface{}) {
	ts := u.x.ts
	switch e.Kind {
	case EvAlloc:
		if namedOf(e.Args[0].T) == u.name {
			s.SetGhost("new-"+u.name, ts.True)
			s.SetGhost("#new-"+u.name, e.Args[0])
		}
	case EvStore:
		if a := e.Args[0]; a.K != KFAddr || namedOf(a.A[0].T) != u.name {
			return
		}
		u.own(s, e, e.Args[0].A[0], format, a...)
	}
}

// own: the object is about to be changed or handed over
func (u *unshared) own(s *State, e *Event, o *Term, format string, a ...interface{}) {
	ok := s.ghost["gone-"+u.name] == nil || s.ghost["new-"+u.name] != nil && s.ghost["#new-"+u.name] == o
	u.c.check(u.rule, e.Fn, e.Pos, s, ok, format, a...)
}

func (u *unshared) handOver(s *State) {
	s.SetGhost("gone-"+u.name, u.x.ts.True)
	s.SetGhost("new-"+u.name, nil)
	s.SetGhost("#new-"+u.name, nil)
}

// loopOf names the loop an iteration belongs to
func (x *Exec) loopOf(e *Event) *Term {
	n := e.Fn.RelString(nil)
	if v, ok := e.Instr.(ssa.Value); ok {
		n += ":" + v.Name()
	}
	return x.ts.Str(n)
}
