package main

// The saved list of datasets (C25), observers (C26).

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

var writeFlags = int64(0x1 | 0x2 | 0x200) // O_WRONLY, O_RDWR, O_TRUNC

func (c *Ctx) saveIndex() {
	fn := c.fn("data.(*Dataset).SaveIndex")
	x := c.exec()
	ts := x.ts
	x.opaque = func(f *ssa.Function) bool { return isGetter(f.RelString(nil)) }
	fallible := map[string]string{
		"(*bufio.Writer).Flush": "flushed", "(*os.File).Sync": "synced", "(*os.File).Close": "closed",
		"os.OpenFile": "opened", "os.Create": "opened", "os.Rename": "renamed",
	}
	fails := c.failing(func(cc *CallCtx) bool { return fallible[cc.name] != "" })
	skips := c.failing(func(cc *CallCtx) bool { return isGetter(cc.name) || cc.name == "encoding/json.Marshal" })
	x.model = func(x *Exec, s *State, cc *CallCtx) ([]Exit, bool) {
		if ex, ok := fails(x, s, cc); ok {
			return ex, true
		}
		was := s.ghost["failed"]
		ex, ok := skips(x, s, cc)
		for _, e := range ex { // a dataset that is gone or can not be encoded is left out
			e.s.SetGhost("failed", was)
		}
		return ex, ok
	}
	var dts *Term
	settle := func(s *State, e *Event) {
		if s.ghost["due"] != nil {
			c.check("save-all", e.Fn, e.Pos, s, s.ghost["written"] != nil || s.ghost["excused"] != nil, "the config of a dataset is not saved")
		}
		c.check("save-all", e.Fn, e.Pos, s, s.ghost["open"] == nil, "a line of the list is not ended")
		s.SetGhost("due", nil)
		s.SetGhost("written", nil)
		s.SetGhost("excused", nil)
	}
	locked := func(s *State, e *Event, what string) {
		c.check("save-lock", e.Fn, e.Pos, s, s.locked(dts), "%s without the lock of the list", what)
	}
	x.on = func(s *State, e *Event) {
		switch e.Kind {
		case EvIter:
			if !opIs(e.Args[0], "cacheItems") {
				return
			}
			settle(s, e)
			if e.Ok {
				s.SetGhost("due", ts.True)
				s.SetGhost("#key", e.Args[1])
				s.SetGhost("#item", e.Args[2])
			} else {
				s.SetGhost("all", ts.True)
			}
		case EvBranch: // something else than a dataset is stored
			if s.ghost["due"] != nil && s.ghost["#item"] != nil {
				for _, it := range s.f.items() {
					if it.kind == 3 && !it.v && it.a != nil && it.a.K == KOp && strings.HasPrefix(it.a.Op, "istype:") && mentions(it.a, s.ghost["#item"]) {
						s.SetGhost("excused", ts.True)
					}
				}
			}
		case EvCall:
			switch e.Callee {
			case "cache.Items":
				locked(s, e, "the list of datasets is taken")
			case "os.OpenFile", "os.Create":
				locked(s, e, "a file is opened")
				if e.Callee == "os.OpenFile" {
					fl, ok := e.Args[1].intVal()
					c.check("save-atomic", e.Fn, e.Pos, s, ok && fl&0x200 != 0, "an old file is not overwritten from its start")
				}
				s.SetGhost("#tmp", e.Args[0])
			case "os.Rename":
				locked(s, e, "the file is renamed")
				ok := s.ghost["opened"] != nil && e.Args[0] == s.ghost["#tmp"] && e.Args[1] != e.Args[0]
				c.check("save-atomic", e.Fn, e.Pos, s, ok, "what is renamed is not the file just written")
				ok = s.ghost["failed"] == nil && s.ghost["all"] != nil && s.ghost["synced"] != nil && (s.ghost["buffered"] == nil || s.ghost["flushed"] != nil)
				c.check("save-atomic", e.Fn, e.Pos, s, ok, "the new list replaces the old one before it is written completely and successfully")
				c.check("save-atomic", e.Fn, e.Pos, s, e.Args[1] == x.indexPath(c, s, dts), "the list is not saved under the name it is loaded from")
				s.SetGhost("#final", e.Args[1])
			case "os.WriteFile", "io/ioutil.WriteFile", "os.Truncate", "os.Remove", "os.RemoveAll":
				c.check("save-atomic", e.Fn, e.Pos, s, strings.HasPrefix(e.Callee, "os.Remove") && s.ghost["#tmp"] != nil && e.Args[0] == s.ghost["#tmp"], "the list is replaced in place")
			case "bufio.NewWriter", "bufio.NewWriterSize":
				s.SetGhost("buffered", ts.True)
			}
			if isWriter(e.Callee) {
				c.check("save-atomic", e.Fn, e.Pos, s, s.ghost["synced"] == nil && s.ghost["closed"] == nil, "something is written after the list was completed")
				ok, nl := x.savedLine(s, e)
				end := s.ghost["open"] != nil && s.ghost["written"] != nil // of a line started before
				if !end {
					c.check("save-all", e.Fn, e.Pos, s, ok, "what is written is not the config of the dataset")
				}
				c.check("save-all", e.Fn, e.Pos, s, s.ghost["open"] == nil || end && x.newline(s, e), "a line of the list is not ended")
				s.SetGhost("written", ts.True)
				s.SetGhost("open", nil)
				if !nl {
					s.SetGhost("open", ts.True)
				}
			}
		case EvRet:
			if f := fallible[e.Callee]; f != "" && x.isNil(s, e.Res[len(e.Res)-1]) {
				s.SetGhost(f, ts.True)
			}
			if isGetter(e.Callee) && s.ghost["due"] != nil {
				if x.nonNil(s, e.Res[1]) {
					s.SetGhost("excused", ts.True)
				} else {
					s.SetGhost("#data", e.Res[0])
					c.check("save-all", e.Fn, e.Pos, s, e.Args[1] == s.ghost["#key"], "another dataset is saved")
				}
			}
			if e.Callee == "encoding/json.Marshal" && s.ghost["due"] != nil {
				if x.nonNil(s, e.Res[1]) {
					s.SetGhost("excused", ts.True)
				} else {
					s.SetGhost("#json", e.Res[0])
					s.SetGhost("json", nil)
					v := unIface(e.Args[0])
					if isField(v, "Data", "Config") && x.isCurData(s, baseOf(v, "Data", "Config")) {
						s.SetGhost("json", ts.True)
					}
				}
			}
		}
	}
	ex := c.run(x, fn, func(s *State, a []*Term) { dts = a[0] })
	for _, e := range ex {
		s := e.s
		if x.nonNil(s, e.res[0]) {
			continue
		}
		c.check("save-atomic", fn, s.retPos(), s, s.ghost["renamed"] != nil && s.ghost["failed"] == nil, "success is reported although the list was not saved")
	}
}

// isCurData: the dataset the running iteration is about
func (x *Exec) isCurData(s *State, d *Term) bool {
	if d == nil {
		return false
	}
	if d == s.ghost["#data"] {
		return true
	}
	return s.ghost["#item"] != nil && mentions(d, s.ghost["#item"])
}

func isWriter(n string) bool {
	switch n {
	case "(*bufio.Writer).WriteString", "(*bufio.Writer).Write", "(*os.File).WriteString", "(*os.File).Write", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint", "io.WriteString", "(*encoding/json.Encoder).Encode", "(*bufio.Writer).WriteByte", "(*bufio.Writer).WriteRune":
		return true
	}
	return false
}

// savedLine: the current config and the end of a line
func (x *Exec) savedLine(s *State, e *Event) (ok, nl bool) {
	if strings.HasSuffix(e.Callee, "Encoder).Encode") {
		v := unIface(e.Args[1])
		return isField(v, "Data", "Config") && x.isCurData(s, baseOf(v, "Data", "Config")), true
	}
	if strings.HasSuffix(e.Callee, "WriteByte") || strings.HasSuffix(e.Callee, "WriteRune") { // the end of the line on its own
		v, _ := e.Args[1].intVal()
		return false, v == '\n'
	}
	var parts []*Term
	var walk func(t *Term, d int)
	walk = func(t *Term, d int) {
		if t == nil || d > 6 {
			return
		}
		parts = append(parts, t)
		for _, a := range t.A {
			walk(a, d+1)
		}
	}
	for _, a := range e.Args[1:] {
		walk(a, 0)
		for _, v := range x.varargs(s, a) {
			walk(v, 0)
		}
	}
	nl = strings.HasSuffix(e.Callee, "Fprintln")
	for _, t := range parts {
		if s.ghost["json"] != nil && t == s.ghost["#json"] {
			ok = true
		}
		if v, is := t.intVal(); is && v == '\n' {
			nl = true
		}
		if str, is := t.strVal(); is && strings.HasSuffix(str, "\n") {
			nl = true
		}
	}
	return
}

// newline: nothing else is written
func (x *Exec) newline(s *State, e *Event) bool {
	if strings.HasPrefix(e.Callee, "fmt.Fprint") {
		if len(e.Args) > 2 && x.isNil(s, e.Args[2]) {
			str, _ := e.Args[1].strVal()
			return str == "\n"
		}
		l := x.varargs(s, e.Args[len(e.Args)-1])
		if len(l) == 0 {
			return strings.HasSuffix(e.Callee, "ln")
		}
		str, _ := l[0].strVal()
		return len(l) == 1 && str == "\n" && e.Callee == "fmt.Fprint"
	}
	if v, is := e.Args[1].intVal(); is {
		return v == '\n'
	}
	if str, is := e.Args[1].strVal(); is {
		return str == "\n"
	}
	v := x.elem(s, e.Args[1], x.ts.Zero)
	if v == nil {
		v = x.ts.Nil
	} // []byte{'\n'} or []byte("\n")
	if n, is := v.intVal(); is {
		k, isK := x.lenOf(s, e.Args[1]).intVal()
		return n == '\n' && isK && k == 1
	}
	t := e.Args[1]
	if opIs(t, "string2bytes") {
		t = t.A[0]
	}
	str, is := t.strVal()
	return is && str == "\n"
}

// varargs: the elements of a list of arguments
func (x *Exec) varargs(s *State, a *Term) []*Term {
	var l []*Term
	if a.T == nil {
		return nil
	}
	for i := int64(0); i < 4; i++ {
		if v := x.elem(s, a, x.ts.Int(i)); v != nil {
			l = append(l, unIface(v))
		}
	}
	return l
}

// indexPath: what LoadIndex opens
func (x *Exec) indexPath(c *Ctx, s *State, dts *Term) *Term {
	if c.loadPath == "" {
		y := c.exec()
		y.opaque = func(f *ssa.Function) bool { return f.RelString(nil) == dsetT+"CreateIfNotExists" }
		y.on = func(t *State, e *Event) {
			if e.Kind == EvCall && (e.Callee == "os.OpenFile" || e.Callee == "os.Open" || e.Callee == "os.ReadFile" || e.Callee == "io/ioutil.ReadFile") {
				c.loadPath = e.Args[0].String()
				c.loadTerm = e.Args[0]
			}
		}
		y.Run(c.fn("data.(*Dataset).LoadIndex"), func(t *State, a []*Term) { c.loadRecv = a[0] })
	}
	return x.subst(c.loadTerm, map[*Term]*Term{c.loadRecv: dts})
}

func (c *Ctx) loadIndex() {
	fn := c.fn("data.(*Dataset).LoadIndex")
	x := c.exec()
	ts := x.ts
	create := dsetT + "CreateIfNotExists"
	x.opaque = func(f *ssa.Function) bool { return f.RelString(nil) == create }
	read := func(n string) bool {
		return n == "(*bufio.Reader).ReadString" || n == "(*bufio.Reader).ReadBytes" || n == "(*bufio.Scanner).Scan"
	}
	unm := "encoding/json.Unmarshal"
	fails := c.failing(func(cc *CallCtx) bool { return cc.name == "os.OpenFile" || cc.name == "os.Open" })
	own := c.failing(func(cc *CallCtx) bool { return read(cc.name) || cc.name == unm || cc.name == create })
	x.model = func(x *Exec, s *State, cc *CallCtx) ([]Exit, bool) {
		if ex, ok := fails(x, s, cc); ok {
			return ex, true
		}
		was := s.ghost["failed"]
		ex, ok := own(x, s, cc)
		for _, e := range ex {
			e.s.SetGhost("failed", was)
		}
		if cc.name == "(*bufio.Scanner).Scan" {
			x.pre(s, cc)
			f := s.Fork()
			return []Exit{x.post(s, cc, ts.True), x.post(f, cc, ts.False)}, true
		}
		return ex, ok
	}
	settle := func(s *State, e *Event) {
		if s.ghost["due"] != nil {
			c.check("load-all", e.Fn, e.Pos, s, s.ghost["done"] != nil, "a saved dataset is not created again")
		}
		s.SetGhost("due", nil)
		s.SetGhost("done", nil)
		s.SetGhost("parsed", nil)
	}
	var dts *Term
	x.on = func(s *State, e *Event) {
		switch e.Kind {
		case EvCall:
			switch {
			case e.Callee == "os.OpenFile":
				fl, ok := e.Args[1].intVal()
				c.check("load-all", e.Fn, e.Pos, s, ok && fl&0x200 == 0, "loading empties the list")
			case read(e.Callee):
				settle(s, e)
				if len(e.Args) > 1 {
					d, ok := e.Args[1].intVal()
					c.check("load-all", e.Fn, e.Pos, s, ok && d == '\n', "the list is not read by lines")
				}
			case e.Callee == unm:
				src := e.Args[0]
				ok := s.ghost["due"] != nil && (s.ghost["#line"] == nil || mentions(src, s.ghost["#line"]) || s.ghost["scan"] != nil)
				c.check("load-all", e.Fn, e.Pos, s, ok, "something else than the line read is decoded")
				d := unIface(e.Args[1])
				c.check("load-all", e.Fn, e.Pos, s, d.K == KAlloc && d != s.ghost["#prev"], "datasets share one config")
				s.SetGhost("#cfg", d)
			case e.Callee == create:
				ok := s.ghost["parsed"] != nil && e.Args[1] == s.ghost["#cfg"] && e.Args[0] == dts
				c.check("load-all", e.Fn, e.Pos, s, ok, "something else than the saved dataset is created")
				s.SetGhost("done", ts.True)
				s.SetGhost("#prev", s.ghost["#cfg"])
			case strings.HasPrefix(e.Callee, "os.Remove"), e.Callee == "os.Truncate", e.Callee == "os.Create", e.Callee == "os.Rename":
				c.check("load-all", e.Fn, e.Pos, s, false, "loading changes the list")
			}
		case EvRet:
			if read(e.Callee) {
				if e.Callee == "(*bufio.Scanner).Scan" {
					s.SetGhost("scan", ts.True)
					if e.Res[0] == ts.True {
						s.SetGhost("due", ts.True)
					} else {
						s.SetGhost("end", ts.True)
					}
					return
				}
				if x.isNil(s, e.Res[1]) {
					s.SetGhost("due", ts.True)
					s.SetGhost("#line", e.Res[0])
				} else {
					s.SetGhost("end", ts.True)
				}
			}
			if e.Callee == unm {
				if x.isNil(s, e.Res[0]) {
					s.SetGhost("parsed", ts.True)
				} else {
					s.SetGhost("done", ts.True) // not readable
				}
			}
		}
	}
	ex := c.run(x, fn, func(s *State, a []*Term) { dts = a[0] })
	for _, e := range ex {
		s := e.s
		settle(s, &Event{Fn: fn, Pos: s.retPos()})
		if x.nonNil(s, e.res[0]) {
			continue
		}
		c.check("load-all", fn, s.retPos(), s, s.ghost["end"] != nil && s.ghost["failed"] == nil, "loading ends before the end of the list")
	}
	// when
	for _, q := range []struct{ fn, what string }{
		{"data.NewDataset", "LoadIndex"}, {"data.(*Dataset).Close", "SaveIndex"}, {"data.(*Dataset).CreateIfNotExists", "SaveIndex"}, {"data.(*Dataset).Delete", "SaveIndex"}, {"node.(*Node).Periodic", "SaveIndex"},
	} {
		fn := c.fn(q.fn)
		x := c.exec()
		ts := x.ts
		x.opaque = func(f *ssa.Function) bool {
			n := f.RelString(nil)
			return f != fn && (strings.HasPrefix(n, dsetT) || strings.HasPrefix(n, dataT) || strings.HasPrefix(n, nodeT))
		}
		x.on = func(s *State, e *Event) {
			if e.Kind == EvCall && e.Callee == dsetT+q.what && s.thread != "" {
				s.SetGhost("thread-did", ts.True)
			}
			if (e.Kind == EvCall || e.Kind == EvGo) && e.Callee == dsetT+q.what && s.thread == "" || e.Kind == EvGo && c.starts(e.CFn, dsetT+q.what) {
				s.SetGhost("did", ts.True)
				s.SetGhost("thread-did", nil)
			}
			if e.Kind == EvThreadEnd && c.starts(e.CFn, dsetT+q.what) {
				c.check("save-when", e.Fn, e.Pos, s, s.ghost["thread-did"] != nil, "%s is not called", q.what)
			}
			if e.Kind == EvCall && e.Callee == "cache.Add" && q.what == "SaveIndex" {
				s.SetGhost("adds", ts.True)
			}
			if e.Kind == EvRet && e.Callee == "cache.Add" && x.isNil(s, e.Res[0]) {
				s.SetGhost("added", ts.True)
			}
		}
		for _, e := range c.run(x, fn, nil) {
			s := e.s
			if s.ghost["adds"] != nil && s.ghost["added"] == nil {
				continue
			}
			if k := errResult(fn.Signature); k >= 0 && x.nonNil(s, e.res[k]) {
				continue
			}
			c.check("save-when", fn, s.retPos(), s, s.ghost["did"] != nil, "%s is not called", q.what)
		}
	}
}

// observers: looking at datasets never creates one nor stores data (C26)
func (c *Ctx) observers() {
	creates := func(f *ssa.Function) bool { return f.RelString(nil) == dsetT+"CreateIfNotExists" }
	stores := func(f *ssa.Function) bool {
		n := f.RelString(nil)
		return n == dataT+"InsertBDMap" || n == dataT+"Insert" || creates(f)
	}
	background := func(e callEdge) bool { return e.to.RelString(nil) == dataT+"Run" }
	show := func(l []callEdge) string {
		var t []string
		for _, e := range l {
			t = append(t, fnName(e.to))
		}
		return strings.Join(t, " -> ")
	}
	for _, q := range []struct {
		fn  string
		bad func(f *ssa.Function) bool
	}{
		{"node.(*Node).SearchStream", stores}, {"node.(*Node).Info", stores}, {"node.(*Node).GetNodeInfo", stores},
		{"node.(*Node).Ping", stores}, {"node.(*Node).AddPeer", stores}, {"node.(*Node).Join", stores}, {"node.(*Node).JoinToPeers", stores},
		{"node.(*Node).Close", creates},
		{"data.(*Dataset).SaveIndex", stores}, {"data.(*Dataset).List", stores}, {"data.(*Dataset).DataConfigList", stores},
		{"data.(*Dataset).GetNoCreate", stores}, {"data.(*Dataset).ReloadRuns", creates}, {"data.(*Dataset).Close", creates}, {"data.(*Dataset).Delete", creates},
		{"data.(*Data).GetDataInfo", stores}, {"data.(*Data).StreamAll", stores}, {"data.(*Data).CheckIfActive", stores}, {"data.(*Data).Process", creates}, {"data.(*Data).Insert", creates},
		{"data.(*Data).AggregatedSearch", stores}, {"data.(*Data).MultiAggregatedSearch", stores}, {"data.(*Data).StreamSearch", stores}, {"data.(*Data).Search", stores}, {"data.(*Data).SearchAnnoy", stores},
	} {
		fn := c.opt(q.fn)
		if fn == nil {
			continue
		}
		p := c.p.path(fn, q.bad, background)
		pos := fn.Pos()
		if p != nil {
			pos = p[0].site.Pos()
		}
		c.check("observer", fn, pos, nil, p == nil, "may create a dataset or store data: %s", show(p))
	}
	// nobody else puts datasets into the list
	for _, fn := range c.p.funcs {
		if !c.lockPkg(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil {
					continue
				}
				n := ci.Common().StaticCallee().RelString(nil)
				if !strings.HasPrefix(n, cacheT) {
					continue
				}
				m := n[strings.LastIndex(n, ".")+1:]
				if (m == "Set" || m == "Add" || m == "SetDefault" || m == "Replace") && len(ci.Common().Args) > 2 {
					if mi, ok := ci.Common().Args[2].(*ssa.MakeInterface); ok && namedOf(mi.X.Type()) == "Data" {
						ok := creates(fn) || c.onlyFrom(fn, c.fn("data.(*Dataset).CreateIfNotExists"), map[*ssa.Function]bool{})
						c.check("creator", fn, in.Pos(), nil, ok, "a dataset is put into the list outside of the function that creates datasets")
					}
				}
			}
		}
	}
}

func init() {
	register("C25", "The saved list of datasets is replaced only by a complete new one, and everything in it is created again when a node starts.",
		[]string{"save-all", "save-atomic", "save-lock", "load-all", "save-when"}, func(c *Ctx) {
			c.saveIndex()
			c.loadIndex()
			c.periodic("save-when")
		})
	register("C26", "Searching, listing, saving and informing about datasets never create one nor store data.",
		[]string{"observer", "creator"}, func(c *Ctx) { c.observers() })
}
