package main

// C02: the encoded key is an injective image of the key.

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type codecSpec struct {
	fn      string
	scalars map[string]int // field -> bytes
	lists   map[string]int // field -> bytes per element (0: copied as a whole)
}

// byteOf splits byte(v >> k) into v and k; cont tells that 0x80 was or'ed
func byteOf(t *Term) (v *Term, shift int64, cont bool) {
	if t.K == KOp && t.Op == "|" && len(t.A) == 2 {
		for i := 0; i < 2; i++ {
			if k, ok := constInt(t.A[i]); ok && k == 0x80 {
				v, s, _ := byteOf(t.A[1-i])
				return v, s, true
			}
		}
	}
	if t.K == KOp && strings.HasPrefix(t.Op, "conv:") {
		t = t.A[0]
	}
	if t.K == KOp && t.Op == ">>" {
		if k, ok := constInt(t.A[1]); ok {
			return t.A[0], k, false
		}
	}
	return t, 0, false
}

// wholeOf: what byte(t) or byte(t)|0x80 was taken from
func wholeOf(t *Term) *Term {
	if t.K == KOp && t.Op == "|" && len(t.A) == 2 {
		for i := 0; i < 2; i++ {
			if k, ok := constInt(t.A[i]); ok && k == 0x80 {
				return wholeOf(t.A[1-i])
			}
		}
	}
	if t.K == KOp && strings.HasPrefix(t.Op, "conv:") {
		t = t.A[0]
	}
	return t
}

// elemOf: the bits of element i of a list
func elemOf(t *Term) (list, idx *Term) {
	if callIs(t, "math.Float32bits") || callIs(t, "math.Float64bits") {
		t = t.A[0]
	}
	if t.K != KInit {
		return nil, nil
	}
	a := t.A[0]
	for a.K == KOp && strings.HasPrefix(a.Op, "conv:") && len(a.A) == 1 {
		a = a.A[0]
	}
	if a.K == KIAddr {
		return a.A[0], a.A[1]
	}
	return nil, nil
}

func (c *Ctx) codec(sp codecSpec) {
	fn := c.fn(sp.fn)
	x := c.exec()
	x.inlineGenc = true
	x.opaque = func(f *ssa.Function) bool { return f.Name() == "SizeKey" || f.Name() == "SizeValue" }
	ts := x.ts
	var d *Term
	// at: the next byte goes to offset idx of buf
	at := func(s *State, e *Event, buf, idx *Term) {
		end := s.ghost["#end"]
		if s.ghost["buf"] == nil {
			s.SetGhost("buf", buf)
		}
		okPos := s.ghost["buf"] == buf && s.ghost["appended"] == nil && x.eq(s, idx, end)
		c.check("codec-position", e.Fn, e.Pos, s, okPos, "byte written at offset %v, the encoding so far ends at %v", idx, end)
	}
	// to: what follows is appended to buf and makes r
	to := func(s *State, e *Event, buf, r *Term) {
		ok := s.ghost["appended"] != nil && s.ghost["#buf"] == buf
		if s.ghost["appended"] == nil {
			own := buf == ts.Nil || buf.K == KAlloc || buf.K == KOp && buf.Op == "slice" && buf.A[0].K == KAlloc
			ok = s.ghost["buf"] == nil && own && x.eq(s, x.lenOf(s, buf), ts.Zero)
		}
		c.check("codec-position", e.Fn, e.Pos, s, ok, "bytes appended to %v, which is not the encoding so far", buf)
		s.SetGhost("appended", ts.True)
		s.SetGhost("#buf", r)
	}
	// length: the length of a list is written as a whole
	length := func(s *State, e *Event, val, n *Term) {
		for f := range sp.lists {
			if vt := s.ghost["#len:"+f]; vt != nil && vt == x.lenOf(s, x.field(s, d, f)) && unconv(val) == unconv(vt) {
				s.SetGhost("#len:"+f, nil)
				s.SetGhost("lendone:"+f, ts.True)
				s.SetGhost("#end", ts.Arith(add, s.ghost["#end"], n, intT))
				return
			}
		}
		c.check("codec-byte", e.Fn, e.Pos, s, false, "the number %v is no part of the encoded value", val)
	}
	put := func(s *State, e *Event, val *Term) {
		s.SetGhost("#end", ts.AddK(s.ghost["#end"], 1))
		v, sh, cont := byteOf(val)
		for f, n := range sp.lists {
			vt := s.ghost["#len:"+f]
			if w := wholeOf(val); vt != nil && unconv(w) == unconv(vt) {
				v := w
				if cont {
					s.SetGhost("#len:"+f, ts.Arith(shr, v, ts.Int(7), v.T))
					c.check("codec-length", e.Fn, e.Pos, s, s.ghost["open"] == nil, "length of %s inside another item", f)
				} else {
					c.check("codec-length", e.Fn, e.Pos, s, x.holds(s, ts.Cmp(LT, v, ts.Int(0x80))), "last byte of the length of %s may not hold all of it", f)
					s.SetGhost("#len:"+f, nil)
					s.SetGhost("lendone:"+f, ts.True)
				}
				return
			}
			if list, i := elemOf(v); n > 0 && list != nil && list == x.field(s, d, f) {
				k := fmt.Sprintf("elem:%s:%d", f, sh)
				okE := !cont && x.eq(s, i, s.ghost["#n:"+f]) && s.ghost[k] == nil && s.ghost["lendone:"+f] != nil
				c.check("codec-element", e.Fn, e.Pos, s, okE, "byte %d of element %v of %s is not what comes next (elements so far %v)", sh/8, i, f, s.ghost["#n:"+f])
				s.SetGhost(k, ts.True)
				all := true
				for b := 0; b < n; b++ {
					if s.ghost[fmt.Sprintf("elem:%s:%d", f, 8*b)] == nil {
						all = false
					}
				}
				if all {
					for b := 0; b < n; b++ {
						s.SetGhost(fmt.Sprintf("elem:%s:%d", f, 8*b), nil)
					}
					s.SetGhost("#n:"+f, ts.AddK(s.ghost["#n:"+f], 1))
				}
				return
			}
		}
		for f := range sp.scalars {
			if v == x.field(s, d, f) && !cont {
				s.SetGhost(fmt.Sprintf("byte:%s:%d", f, sh), ts.True)
				return
			}
		}
		c.check("codec-byte", e.Fn, e.Pos, s, false, "the byte %v is no part of the encoded value", val)
	}
	write := func(s *State, e *Event, buf, idx, val *Term) {
		at(s, e, buf, idx)
		put(s, e, val)
	}
	content := func(s *State, e *Event, f string, pos bool, where *Term) {
		c.check("codec-position", e.Fn, e.Pos, s, pos && s.ghost["lendone:"+f] != nil, "%s is copied to %v, the encoding so far ends at %v", f, where, s.ghost["#end"])
		s.SetGhost("#end", ts.Arith(add, s.ghost["#end"], x.lenOf(s, x.field(s, d, f)), intT))
		s.SetGhost("copied:"+f, ts.True)
	}
	split := func(b *Term) (buf, lo *Term) {
		if b.K == KOp && b.Op == "slice" {
			return b.A[0], b.A[1]
		}
		return b, ts.Zero
	}
	x.copyAll = true // the buffer has the announced length (codec-size)
	x.on = func(s *State, e *Event) {
		switch e.Kind {
		case EvAppend:
			if !isByteSlice(e.T) || e.Res[0] == e.Args[0] {
				return
			}
			to(s, e, e.Args[0], e.Res[0])
			var l []*Term
			r := e.Res[0]
			for ; r != e.Args[0] && opIs(r, "append1"); r = r.A[0] {
				l = append([]*Term{r.A[1]}, l...)
			}
			for _, v := range l {
				put(s, e, v)
			}
			if r != e.Args[0] {
				for f, n := range sp.lists {
					if n == 0 && e.Args[1] == x.field(s, d, f) {
						content(s, e, f, true, e.Args[0])
						return
					}
				}
				c.check("codec-byte", e.Fn, e.Pos, s, false, "the bytes %v are no part of the encoded value", e.Args[1])
			}
		case EvRet:
			switch e.Callee {
			case "encoding/binary.PutUvarint":
				b, lo := split(e.Args[0])
				at(s, e, b, lo)
				length(s, e, e.Args[1], e.Res[0])
			case "encoding/binary.AppendUvarint":
				to(s, e, e.Args[0], e.Res[0])
				length(s, e, e.Args[1], ts.Fresh("uvarint", intT, e.Pos))
			case "(encoding/binary.littleEndian).AppendUint32", "(encoding/binary.littleEndian).AppendUint64":
				n := 4
				if strings.HasSuffix(e.Callee, "64") {
					n = 8
				}
				to(s, e, e.Args[1], e.Res[0])
				for i := 0; i < n; i++ {
					put(s, e, ts.Arith(shr, e.Args[2], ts.Int(int64(8*i)), e.Args[2].T))
				}
			}
		case EvStore:
			if e.Args[0].K == KIAddr && addrRoot(e.Args[0]).K == KAlloc && isByteSlice(addrRoot(e.Args[0]).T) {
				write(s, e, e.Args[0].A[0], e.Args[0].A[1], e.Args[1])
			}
		case EvCall:
			if strings.HasPrefix(e.Callee, "(encoding/binary.littleEndian).PutUint") && len(e.Args) == 3 {
				n := 4
				if strings.HasSuffix(e.Callee, "64") {
					n = 8
				}
				b, lo := split(e.Args[1])
				for i := 0; i < n; i++ {
					write(s, e, b, ts.AddK(lo, int64(i)), ts.Arith(shr, e.Args[2], ts.Int(int64(8*i)), e.Args[2].T))
				}
			}
			if e.Callee == "builtin:copy" {
				b, lo := split(e.Args[0])
				for f, n := range sp.lists {
					if n == 0 && e.Args[1] == x.field(s, d, f) {
						content(s, e, f, s.ghost["buf"] == b && s.ghost["appended"] == nil && x.eq(s, lo, s.ghost["#end"]), lo)
					}
				}
			}
		}
	}
	ex := c.run(x, fn, func(s *State, a []*Term) {
		d = a[0]
		x.assume(s, ts.Cmp(NE, d, ts.Nil), true)
		s.SetGhost("#end", ts.Zero)
		for f, n := range sp.lists {
			s.SetGhost("#len:"+f, x.lenOf(s, x.field(s, d, f)))
			if n > 0 {
				s.SetGhost("#n:"+f, ts.Zero)
			}
		}
	})
	for _, e := range ex {
		if !x.isNil(e.s, e.res[1]) && x.nonNil(e.s, e.res[1]) {
			continue
		}
		s := e.s
		missing := ""
		for f, n := range sp.scalars {
			for b := 0; b < n; b++ {
				if s.ghost[fmt.Sprintf("byte:%s:%d", f, 8*b)] == nil {
					missing += fmt.Sprintf(" byte %d of %s;", b, f)
				}
			}
		}
		for f, n := range sp.lists {
			if s.ghost["lendone:"+f] == nil {
				missing += " length of " + f + ";"
			}
			if n == 0 && s.ghost["copied:"+f] == nil {
				missing += " content of " + f + ";"
			}
			if n > 0 && !x.eq(s, s.ghost["#n:"+f], x.lenOf(s, x.field(s, d, f))) {
				missing += " all elements of " + f + ";"
			}
		}
		c.check("codec-complete", fn, s.retPos(), s, missing == "", "not part of the encoding:%s", missing)
		r := e.res[0]
		whole := s.ghost["appended"] != nil && r == s.ghost["#buf"]
		if buf := s.ghost["buf"]; buf != nil && buf.K == KAlloc && s.ghost["appended"] == nil {
			if r == buf && len(buf.A) > 0 {
				whole = x.eq(s, buf.A[0], s.ghost["#end"])
			} else if r.K == KOp && r.Op == "slice" && r.A[0] == buf && x.eq(s, r.A[1], ts.Zero) && len(r.A) > 2 {
				whole = x.eq(s, r.A[2], s.ghost["#end"])
			}
		}
		c.check("codec-whole", fn, s.retPos(), s, whole, "what is returned (%v) is not exactly the encoding in a buffer of its own", r)
	}
}

// sumOf adds k times t to sum: coefficients per term, the constant under nil
func sumOf(t *Term, k int64, sum map[*Term]int64) {
	b, o, _ := lin(t)
	sum[nil] += k * o
	if b == nil {
		return
	}
	b = unconv(b)
	if b.K == KLin || b.K == KConst {
		sumOf(b, k, sum)
		return
	}
	if b.K == KOp && len(b.A) == 2 && isIntType(b.T) {
		switch b.Op {
		case "+":
			sumOf(b.A[0], k, sum)
			sumOf(b.A[1], k, sum)
			return
		case "-":
			sumOf(b.A[0], k, sum)
			sumOf(b.A[1], -k, sum)
			return
		case "*":
			for i := 0; i < 2; i++ {
				if c, ok := constInt(b.A[i]); ok {
					sumOf(b.A[1-i], k*c, sum)
					return
				}
			}
		case "<<":
			if c, ok := constInt(b.A[1]); ok && c >= 0 && c < 32 {
				sumOf(b.A[0], k<<c, sum)
				return
			}
		}
	}
	sum[b] += k
}

// size: the announced length is that of the encoding: per list the bytes of
// its length (one for every 7 bits) and of its elements, and the scalars
func (c *Ctx) codecSize(sp codecSpec, name string) {
	fn := c.fn(name)
	x := c.exec()
	x.inlineGenc = true
	ts := x.ts
	var d *Term
	bump := func(s *State, n string) { s.SetGhost(n, ts.AddK(s.ghost[n], 1)) }
	x.on = func(s *State, e *Event) {
		if e.Kind != EvBranch {
			return
		}
		for f := range sp.lists {
			t := s.ghost["#t:"+f]
			if s.ghost["done:"+f] != nil || !mentions(e.Args[0], unconv(t)) {
				continue
			}
			switch {
			case x.holds(s, ts.Cmp(GT|EQ, t, ts.Int(0x80))):
				s.SetGhost("#t:"+f, ts.Arith(shr, t, ts.Int(7), t.T))
				bump(s, "#n:"+f)
				return
			case x.holds(s, ts.Cmp(LT, t, ts.Int(0x80))):
				s.SetGhost("done:"+f, ts.True)
				bump(s, "#n:"+f)
				return
			}
		}
	}
	ex := c.run(x, fn, func(s *State, a []*Term) {
		d = a[0]
		x.assume(s, ts.Cmp(NE, d, ts.Nil), true)
		for f := range sp.lists {
			s.SetGhost("#t:"+f, x.lenOf(s, x.field(s, d, f)))
			s.SetGhost("#n:"+f, ts.Zero)
		}
	})
	for _, e := range ex {
		s := e.s
		want, all := map[*Term]int64{}, true
		for _, n := range sp.scalars {
			want[nil] += int64(n)
		}
		for f, n := range sp.lists {
			all = all && s.ghost["done:"+f] != nil
			if n == 0 {
				n = 1
			}
			sumOf(s.ghost["#n:"+f], 1, want)
			sumOf(x.lenOf(s, x.field(s, d, f)), int64(n), want)
		}
		sumOf(e.res[0], -1, want)
		ok := true
		for _, k := range want {
			ok = ok && k == 0
		}
		c.check("codec-size", fn, s.retPos(), s, all && ok, "the announced length (%v) is not that of the encoding", e.res[0])
	}
}

func init() {
	register("C02", "Data are stored under the complete, unambiguous encoding of their key: the encoder writes every byte of every field once, in sequence, with lengths; every access to the stored data uses that encoding.",
		[]string{"codec-position", "codec-length", "codec-element", "codec-complete", "codec-whole", "codec-size", "encode-exact", "map-key"}, func(c *Ctx) {
			key := codecSpec{fn: "data/gencoder.MarshalKey", scalars: map[string]int{"Size1": 4, "Size2": 4, "Dim1": 4, "Dim2": 4}, lists: map[string]int{"Feature": 4, "GroupLabel": 0}}
			val := codecSpec{fn: "data/gencoder.MarshalValue", scalars: map[string]int{"Version": 8}, lists: map[string]int{"Label": 0}}
			c.codec(key)
			c.codec(val)
			c.codecSize(key, "data/gencoder.SizeKey")
			c.codecSize(val, "data/gencoder.SizeValue")
			c.encodeExact()
			c.mapKeys()
		})
}

// encodeExact: conversion of the encoding to a map key keeps all of it
func (c *Ctx) encodeExact() {
	fn := c.fn("util.EncodeToString")
	x := c.exec()
	var b *Term
	ex := c.run(x, fn, func(s *State, a []*Term) { b = a[0] })
	strip := func(t *Term) *Term {
		for t != nil && t.K == KOp && strings.HasPrefix(t.Op, "conv:") {
			t = t.A[0]
		}
		return t
	}
	for _, e := range ex {
		r := e.res[0]
		ok := opIs(r, "bytes2string") && r.A[0] == b
		if !ok && r.K == KInit { // a string header over the same memory
			h := strip(r.A[0])
			okD, okL := false, false
			for a, v := range e.s.heap {
				if a.K == KFAddr && a.A[0] == h {
					src := v
					if src.K == KInit && src.A[0].K == KFAddr {
						o := strip(src.A[0].A[0])
						if o.K == KAlloc && e.s.heap[o] == b {
							okD = okD || a.Op == "Data" && src.A[0].Op == "Data"
							okL = okL || a.Op == "Len" && src.A[0].Op == "Len"
						}
					}
				}
			}
			ok = okD && okL
		}
		if !ok && callIs(r, "encoding/hex.EncodeToString") {
			ok = len(r.A) > 0 && r.A[0] == b
		}
		c.check("encode-exact", fn, e.s.retPos(), e.s, ok, "the map key %v is not the encoded key, byte for byte", r)
	}
}

// mapKeys: every access to the stored data goes by the key's encoding
func (c *Ctx) mapKeys() {
	for _, n := range []string{"data.(*Data).Insert", "data.(*Data).Delete", "data.(*Data).Process"} {
		fn := c.fn(n)
		x := c.exec()
		x.opaque = c.light()
		x.on = func(s *State, e *Event) {
			if e.Kind == EvStore && e.Args[0].K == KIAddr && callIs(e.Args[0].A[0], marshalK) {
				c.check("map-key", e.Fn, e.Pos, s, false, "an encoded key is modified")
			}
			op := dbmapOp(e)
			if e.Kind != EvRet || op == "" || len(e.Args) < 2 || op == "Range" || op == "Clear" {
				return
			}
			k := unIface(e.Args[1])
			ok := keyOf(k) != nil && isField(keyOf(k), "Datum", "Key") || opIs(k, "rangekey") && len(k.A) > 0 && k.A[0] == e.Args[0]
			c.check("map-key", e.Fn, e.Pos, s, ok, "%s with the key %v, which is not the encoded key of a datum", op, k)
		}
		c.run(x, fn, nil)
	}
}
