package main

// Models of library functions: what they return and which memory they touch.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const cacheT = "(*github.com/bgokden/go-cache.cache)."
const gencPath = modPath + "/data/gencoder."

func (x *Exec) isPure(name string) bool {
	if x.pure != nil && x.pure(name) {
		return true
	}
	return pureName(name)
}

func pureName(name string) bool {
	for _, p := range []string{"strings.", "bytes.", "math.", "strconv.", "path.", "path/filepath.", "unicode.", "github.com/chewxy/math32.", "(time.Time).", "(time.Duration).", "github.com/tidwall/gjson.", "(github.com/tidwall/gjson.", "iface:(error).Error", "fmt.Sprint", "net.ParseIP", "net.JoinHostPort", gencPath + "Marshal", gencPath + "Size", "slices.Contains"} {
		if strings.HasPrefix(name, p) {
			switch name {
			case "path/filepath.Walk", "path/filepath.WalkDir", "path/filepath.Glob":
				return false
			}
			return true
		}
	}
	return false
}

// harmless functions do not write to memory passed to them
func harmless(name string) bool {
	if strings.Contains(name, "GetNnsBy") || strings.HasSuffix(name, ".Read") || strings.HasSuffix(name, ".ReadAt") {
		return false
	}
	for _, p := range []string{"log.", "fmt.Print", "fmt.Fprint", "errors.", "time.", "sync.", "(*sync.", "(sync.", "(*sync/atomic.", "context.", "os.", "(*os.", "io.WriteString", "(*bufio.", "bufio.", "runtime.", "math/rand.", "encoding/json.Marshal", "sort.", cacheT, "(*github.com/bgokden/go-cache.", "github.com/bgokden/go-cache.", "iface:(" + modPath, "google.golang.org/grpc/status.", "github.com/pkg/errors.", pbPath, "(*" + pbPath, "(*strings.Builder)", "iface:(google.golang.org", "google.golang.org/grpc.", "iface:(net", modPath + "/annoyindex", "github.com/google/uuid", "net.", "io/ioutil.", "os/signal.", "net/http.", "iface:(context"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (x *Exec) pre(s *State, cc *CallCtx) {
	x.emit(s, &Event{Kind: EvCall, Instr: cc.instr, Pos: cc.instr.Pos(), Fn: cc.fn, Callee: cc.name, CFn: cc.cfn, Args: cc.args, Defer: cc.deferd})
}

func (x *Exec) post(s *State, cc *CallCtx, res ...*Term) Exit {
	x.emit(s, &Event{Kind: EvRet, Instr: cc.instr, Pos: cc.instr.Pos(), Fn: cc.fn, Callee: cc.name, CFn: cc.cfn, Args: cc.args, Res: res, Defer: cc.deferd})
	return Exit{s, res}
}

// cacheObj maps the embedded implementation of a go-cache to the cache itself
func cacheObj(t *Term) *Term {
	if t.K == KInit && t.A[0].K == KFAddr && t.A[0].Op == "cache" {
		return t.A[0].A[0]
	}
	return t
}

func (x *Exec) newErr(cc *CallCtx) *Term {
	var t types.Type
	if r := resTypes(cc.sig); len(r) > 0 {
		t = r[0]
	}
	return x.ts.Alloc("error", t, cc.instr.Pos(), cc.args...)
}

func (x *Exec) modelled(s *State, cc *CallCtx) ([]Exit, bool) {
	if x.model != nil {
		if o, ok := x.model(x, s, cc); ok {
			return o, true
		}
	}
	ts := x.ts
	n := cc.name
	rt := resTypes(cc.sig)
	pos := cc.instr.Pos()
	ret := func(res ...*Term) ([]Exit, bool) {
		return []Exit{x.post(s, cc, res...)}, true
	}
	switch n {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		x.pre(s, cc)
		s.locks = append(s.locks, lockEnt{addr: cc.args[0], write: !strings.HasSuffix(n, "RLock"), session: ts.Fresh("session", nil, pos), pos: pos})
		x.emit(s, &Event{Kind: EvLock, Instr: cc.instr, Pos: pos, Fn: cc.fn, Args: cc.args, Write: !strings.HasSuffix(n, "RLock")})
		return []Exit{{s, nil}}, true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		w := !strings.HasSuffix(n, "RUnlock")
		found := -1
		for i := len(s.locks) - 1; i >= 0; i-- {
			if s.locks[i].addr == cc.args[0] && s.locks[i].write == w {
				found = i
				break
			}
		}
		x.emit(s, &Event{Kind: EvUnlock, Instr: cc.instr, Pos: pos, Fn: cc.fn, Args: cc.args, Write: w, Ok: found >= 0, Defer: cc.deferd})
		if found >= 0 {
			s.locks = append(append([]lockEnt{}, s.locks[:found]...), s.locks[found+1:]...)
		}
		return []Exit{{s, nil}}, true
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock":
		x.pre(s, cc)
		f := s.Fork()
		s.locks = append(s.locks, lockEnt{addr: cc.args[0], write: !strings.HasSuffix(n, "RLock"), session: ts.Fresh("session", nil, pos), pos: pos})
		return []Exit{{s, []*Term{ts.True}}, {f, []*Term{ts.False}}}, true
	case "(*sync.Once).Do":
		x.pre(s, cc)
		f := s.Fork()
		out := []Exit{{f, nil}}
		for _, e := range x.callFn(s, cc, cc.args[1], nil) {
			out = append(out, Exit{e.s, nil})
		}
		return out, true
	case "(*sync.Map).Load", "(*sync.Map).LoadAndDelete":
		x.pre(s, cc)
		f := s.Fork()
		v := ts.Fresh("mapload", rt[0], pos, cc.args...)
		x.assume(s, ts.Cmp(NE, v, ts.Nil), true)
		return []Exit{x.post(s, cc, v, ts.True), x.post(f, cc, ts.Nil, ts.False)}, true
	case "(*sync.Map).LoadOrStore":
		x.pre(s, cc)
		f := s.Fork()
		v := ts.Fresh("mapload", rt[0], pos, cc.args...)
		x.assume(s, ts.Cmp(NE, v, ts.Nil), true)
		return []Exit{x.post(s, cc, v, ts.True), x.post(f, cc, cc.args[2], ts.False)}, true
	case "(*sync.Map).CompareAndDelete", "(*sync.Map).CompareAndSwap":
		x.pre(s, cc)
		f := s.Fork()
		return []Exit{x.post(s, cc, ts.True), x.post(f, cc, ts.False)}, true
	case "(*sync.Map).Range":
		x.pre(s, cc)
		var ft *types.Signature
		if len(cc.args) > 1 && cc.args[1].Fn != nil {
			ft = cc.args[1].Fn.Signature
		}
		_ = ft
		any := types.Universe.Lookup("any").Type()
		exits := x.loop(s, func(b *State) (cont, stop []*State) {
			k := ts.Fresh("rangekey", any, pos, cc.args[0])
			v := ts.Fresh("rangeval", any, pos, cc.args[0], k)
			x.assume(b, ts.Cmp(NE, v, ts.Nil), true)
			x.emit(b, &Event{Kind: EvIter, Instr: cc.instr, Pos: pos, Fn: cc.fn, Callee: n, Args: []*Term{cc.args[0], k, v}, Ok: true})
			for _, e := range x.callFn(b, cc, cc.args[1], []*Term{k, v}) {
				if len(e.res) == 0 {
					cont = append(cont, e.s)
					continue
				}
				t := e.s.Fork()
				if x.assume(t, e.res[0], true) {
					cont = append(cont, t)
				}
				if x.assume(e.s, e.res[0], false) {
					e.s.SetGhost("range-stopped", ts.True)
					stop = append(stop, e.s)
				}
			}
			return
		})
		var out []Exit
		for _, e := range exits {
			st := e.ghost["range-stopped"] == ts.True
			e.SetGhost("range-stopped", nil)
			x.emit(e, &Event{Kind: EvIter, Instr: cc.instr, Pos: pos, Fn: cc.fn, Callee: n, Args: []*Term{cc.args[0], ts.Nil, ts.Nil}, Ok: false, Write: st})
			out = append(out, Exit{e, nil})
		}
		return out, true
	case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf", "google.golang.org/grpc/status.Error", "google.golang.org/grpc/status.Errorf":
		return []Exit{{s, []*Term{x.newErr(cc)}}}, true
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithMessage", "github.com/pkg/errors.WithStack":
		// nil stays nil
		f := s.Fork()
		var out []Exit
		if x.assume(f, ts.Cmp(EQ, cc.args[0], ts.Nil), true) {
			out = append(out, Exit{f, []*Term{ts.Nil}})
		}
		if x.assume(s, ts.Cmp(NE, cc.args[0], ts.Nil), true) {
			out = append(out, Exit{s, []*Term{x.newErr(cc)}})
		}
		return out, true
	case "github.com/jinzhu/copier.Copy":
		x.pre(s, cc)
		dst, src := cc.args[0], cc.args[1]
		if dst.K == KIface && src.K == KIface {
			d, e := dst.A[0], src.A[0]
			dt := ptrElem(dst.T)
			et := ptrElem(src.T)
			if et == nil { // struct passed by value
				et = src.T
			} else if !structNonNil(e) {
				x.assume(s, ts.Cmp(NE, e, ts.Nil), true)
			}
			if dt != nil && et != nil && types.Identical(dt, et) {
				var v *Term
				if ptrElem(src.T) != nil {
					v = x.load(s, e, et)
				} else {
					v = e
				}
				x.store(s, d, v)
				return ret(ts.Fresh("copyerr", rt[0], pos))
			}
		}
		x.escape(s, dst)
		return ret(ts.Fresh("copyerr", rt[0], pos))
	case "github.com/golang/protobuf/proto.Clone", "google.golang.org/protobuf/proto.Clone":
		x.pre(s, cc)
		src := cc.args[0]
		if src.K != KIface || ptrElem(src.T) == nil {
			break
		}
		p := src.A[0]
		var out []Exit
		if !structNonNil(p) {
			f := s.Fork()
			if x.assume(f, ts.Cmp(EQ, p, ts.Nil), true) {
				out = append(out, x.post(f, cc, ts.Iface(ts.Nil, src.T)))
			}
			if !x.assume(s, ts.Cmp(NE, p, ts.Nil), true) {
				return out, true
			}
		}
		d := x.alloc(s, cc.instr, "clone", src.T, p)
		x.emit(s, &Event{Kind: EvAlloc, Instr: cc.instr, Pos: pos, Fn: cc.fn, Args: []*Term{d}})
		x.store(s, d, x.load(s, p, ptrElem(src.T)))
		return append(out, x.post(s, cc, ts.Iface(d, src.T))), true
	case "github.com/golang/protobuf/proto.Equal", "google.golang.org/protobuf/proto.Equal":
		x.pre(s, cc)
		a, b := unIface(cc.args[0]), unIface(cc.args[1])
		if a.key > b.key {
			a, b = b, a
		}
		return ret(ts.OpT("protoequal", types.Typ[types.Bool], a, b))
	case "(time.Time).After", "(time.Time).Before":
		// a whole second compared with now
		a, b := cc.args[0], cc.args[1]
		after := strings.HasSuffix(n, "After")
		if callIs(a, "time.Now") {
			a, b, after = b, a, !after
		}
		if !callIs(b, "time.Now") || !callIs(a, "time.Unix") || len(a.A) < 2 || a.A[1] != ts.Zero {
			break
		}
		x.pre(s, cc)
		now := ts.OpT("call:(time.Time).Unix", types.Typ[types.Int64], b)
		x.emit(s, &Event{Kind: EvRet, Instr: cc.instr, Pos: pos, Fn: cc.fn, Callee: "(time.Time).Unix", Args: []*Term{b}, Res: []*Term{now}})
		if after {
			return ret(ts.Cmp(GT, a.A[0], now))
		}
		return ret(ts.Cmp(LT|EQ, a.A[0], now))
	case "sort.Slice", "sort.SliceStable", "sort.Strings", "sort.Sort", "sort.Stable", "sort.Ints", "sort.Float64s", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc":
		x.pre(s, cc)
		b := cc.args[0]
		if b.K == KIface {
			b = b.A[0]
		}
		h := s.wh()
		for k := range h {
			if k.K == KIAddr && k.A[0] == b {
				delete(h, k)
			}
		}
		h[ts.OpT("epoch", nil, b)] = ts.Fresh("epoch", nil, pos)
		return ret()
	case "context.WithTimeout", "context.WithCancel", "context.WithDeadline":
		x.pre(s, cc)
		c := ts.Alloc("ctx:"+n, rt[0], pos, cc.args...)
		f := ts.Fresh("cancel", rt[1], pos, c)
		x.assume(s, ts.Cmp(NE, f, ts.Nil), true)
		return ret(c, f)
	case "context.Background", "context.TODO":
		return []Exit{{s, []*Term{ts.OpT("background", rt[0])}}}, true
	case modPath + "/util.EncodeToString":
		return []Exit{{s, []*Term{ts.OpT("bytes2string", types.Typ[types.String], cc.args[0])}}}, true
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "runtime.Goexit":
		x.pre(s, cc)
		return nil, true
	case "github.com/bgokden/go-cache.New", "time.After", "time.NewTicker", "time.NewTimer", modPath + "/annoyindex.NewAnnoyIndexAngular", modPath + "/annoyindex.NewAnnoyIndexEuclidean":
		x.pre(s, cc)
		v := ts.Fresh("call:"+n, rt[0], pos, cc.args...)
		x.assume(s, ts.Cmp(NE, v, ts.Nil), true)
		return ret(v)
	}
	if strings.HasPrefix(n, cacheT) || strings.HasPrefix(n, "(*github.com/bgokden/go-cache.Cache).") {
		args := append([]*Term{cacheObj(cc.args[0])}, cc.args[1:]...)
		m := n[strings.LastIndex(n, ".")+1:]
		c2 := *cc
		c2.args = args
		c2.name = "cache." + m
		switch m {
		case "Get", "GetWithExpiration":
			x.pre(s, &c2)
			f := s.Fork()
			v := ts.Fresh("cacheget", rt[0], pos, args...)
			x.assume(s, ts.Cmp(NE, v, ts.Nil), true)
			a := []*Term{v, ts.True}
			b := []*Term{ts.Nil, ts.False}
			if len(rt) == 3 {
				e := ts.Fresh("expiration", rt[1], pos)
				a = []*Term{v, e, ts.True}
				b = []*Term{ts.Nil, e, ts.False}
			}
			return []Exit{x.post(s, &c2, a...), x.post(f, &c2, b...)}, true
		case "Add", "Replace", "Increment", "IncrementExpiration":
			if len(rt) == 1 {
				x.pre(s, &c2)
				f := s.Fork()
				return []Exit{x.post(s, &c2, ts.Nil), x.post(f, &c2, ts.Alloc("cacheerr", rt[0], pos, args...))}, true
			}
		}
		x.pre(s, &c2)
		var res []*Term
		for _, t := range rt {
			v := ts.Fresh("cache"+m, t, pos, args...)
			if m == "Items" {
				x.assume(s, ts.Cmp(NE, v, ts.Nil), true)
			}
			res = append(res, v)
		}
		return []Exit{x.post(s, &c2, res...)}, true
	}
	if strings.HasPrefix(n, "sync/atomic.") {
		return x.atomicOp(s, cc)
	}
	if strings.HasPrefix(n, "(*sync/atomic.") {
		// typed atomics: keep the value in the heap at the object's address
		return x.atomicMethod(s, cc)
	}
	return nil, false
}

func ptrElem(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func (x *Exec) atomicOp(s *State, cc *CallCtx) ([]Exit, bool) {
	ts := x.ts
	n := strings.TrimPrefix(cc.name, "sync/atomic.")
	x.pre(s, cc)
	if len(cc.args) == 0 {
		return nil, false
	}
	a := cc.args[0]
	et := types.Type(types.Typ[types.Int64])
	if cc.cfn != nil && cc.cfn.Signature.Params().Len() > 0 {
		if e := ptrElem(cc.cfn.Signature.Params().At(0).Type()); e != nil {
			et = e
		}
	}
	// what other threads may have changed is not known
	load := func() *Term {
		if addrRoot(a).K == KAlloc {
			return x.load(s, a, et)
		}
		return ts.Fresh("atomic", et, cc.instr.Pos(), a)
	}
	switch {
	case strings.HasPrefix(n, "Add"):
		v := ts.Arith(token.ADD, load(), cc.args[1], et)
		x.store(s, a, v)
		return []Exit{x.post(s, cc, v)}, true
	case strings.HasPrefix(n, "Load"):
		return []Exit{x.post(s, cc, load())}, true
	case strings.HasPrefix(n, "Store"):
		x.store(s, a, cc.args[1])
		return []Exit{x.post(s, cc)}, true
	case strings.HasPrefix(n, "Swap"):
		v := load()
		x.store(s, a, cc.args[1])
		return []Exit{x.post(s, cc, v)}, true
	case strings.HasPrefix(n, "CompareAndSwap"):
		f := s.Fork()
		var out []Exit
		x.store(s, a, cc.args[2])
		out = append(out, x.post(s, cc, ts.True))
		out = append(out, x.post(f, cc, ts.False))
		return out, true
	}
	return nil, false
}

func (x *Exec) atomicMethod(s *State, cc *CallCtx) ([]Exit, bool) {
	ts := x.ts
	m := cc.name[strings.LastIndex(cc.name, ".")+1:]
	x.pre(s, cc)
	a := cc.args[0]
	rt := resTypes(cc.sig)
	switch m {
	case "Load":
		return []Exit{x.post(s, cc, x.load(s, ts.FAddr(a, "v", rt[0]), rt[0]))}, true
	case "Store":
		x.store(s, ts.FAddr(a, "v", cc.args[1].T), cc.args[1])
		return []Exit{x.post(s, cc)}, true
	case "Add":
		v := ts.Arith(token.ADD, x.load(s, ts.FAddr(a, "v", rt[0]), rt[0]), cc.args[1], rt[0])
		x.store(s, ts.FAddr(a, "v", rt[0]), v)
		return []Exit{x.post(s, cc, v)}, true
	case "CompareAndSwap":
		f := s.Fork()
		x.store(s, ts.FAddr(a, "v", cc.args[2].T), cc.args[2])
		return []Exit{x.post(s, cc, ts.True), x.post(f, cc, ts.False)}, true
	}
	return nil, false
}

var _ = ssa.NewProgram
