package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["S09"] = checkS09 }

// ---- message codecs ----

// tapeItem is one item of a message: a header or a primitive value.
type tapeItem struct {
	kind string
	val  *Term
}

// tape reads the next item of the message a stream reader was given.
func (e *Engine) tapeRead(c *callCtx, kind string) []Exit {
	pos := 0
	for _, ev := range c.st.events {
		if strings.HasPrefix(ev.kind, "read:") {
			pos++
		}
	}
	rt := c.sig.Results().At(0).Type()
	fail := func(why string) []Exit {
		c.st.events = append(c.st.events[:len(c.st.events):len(c.st.events)], event{kind: "mismatch:" + why, pos: e.p.pos(c.instr.Pos())})
		return one(c, zeroOf(rt), mkErr("stream"))
	}
	if pos >= len(e.tape) {
		return fail("reads an item after the last one of the message")
	}
	it := e.tape[pos]
	if "read:"+it.kind != kind {
		return fail(fmt.Sprintf("item %d of the message is written as %s and read as %s", pos+1, it.kind, kind[5:]))
	}
	v := it.val
	if _, ok := rt.Underlying().(*types.Slice); ok {
		v = e.freshBytes(c.st, it.val, "ReadBytes")
	}
	c.st.events = append(c.st.events[:len(c.st.events):len(c.st.events)], event{kind: kind, args: []*Term{it.val}, pos: e.p.pos(c.instr.Pos())})
	return one(c, v, mkNil(nil))
}

// written lists the items a stream encoder wrote; ok is false if it wrote bytes that are no header.
func (e *Engine) written(st *State) (items []tapeItem, ok bool) {
	for _, ev := range st.events {
		if !strings.HasPrefix(ev.kind, "write:") {
			continue
		}
		kind := ev.kind[6:]
		if kind != "raw" {
			v := ev.args[0]
			if kind == "string" || kind == "bytes" {
				v = e.seqOf(st, v)
			}
			items = append(items, tapeItem{kind, v})
			continue
		}
		s := st.canon(e.seqOf(st, ev.args[0]))
		if s.op != OSeq {
			return nil, false
		}
		for _, g := range s.args {
			if g.op != OLit {
				return nil, false
			}
			for i := 0; i < len(g.str); i++ {
				switch b := g.str[i]; {
				case b&0xf0 == 0x90:
					items = append(items, tapeItem{"array", mkInt(int64(b & 15))})
				case b&0xf0 == 0x80:
					items = append(items, tapeItem{"map", mkInt(int64(b & 15))})
				default:
					return nil, false
				}
			}
		}
	}
	return items, true
}

// encoding is the bytes of a list of items.
func encoding(st *State, items []tapeItem) *Term {
	var segs []*Term
	for _, it := range items {
		v := st.canon(it.val)
		if (it.kind == "array" || it.kind == "map") && v.op == OInt && v.val.Sign() >= 0 && v.val.Cmp(big.NewInt(16)) < 0 {
			h := byte(0x90)
			if it.kind == "map" {
				h = 0x80
			}
			segs = append(segs, mkLit(string([]byte{h | byte(v.val.Int64())})))
			continue
		}
		segs = append(segs, mpEnc(it.kind, v))
	}
	return mkSeq(segs...)
}

type codec struct {
	named                            *types.Named
	enc, dec, marsh, unmarsh, sizeFn *ssa.Function
}

func (k *Checker) codecs() []*codec {
	var out []*codec
	byName := map[string]*codec{}
	for _, fn := range k.p.funcs {
		r := fn.Signature.Recv()
		if r == nil || fn.Pkg == nil || fn.Synthetic != "" {
			continue
		}
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		n, ok := types.Unalias(t).(*types.Named)
		if !ok {
			continue
		}
		id := n.Obj().Pkg().Path() + "." + n.Obj().Name()
		c := byName[id]
		if c == nil {
			c = &codec{named: n}
			byName[id] = c
		}
		switch fn.Name() {
		case "EncodeMsg":
			c.enc = fn
		case "DecodeMsg":
			c.dec = fn
		case "MarshalMsg":
			c.marsh = fn
		case "UnmarshalMsg":
			c.unmarsh = fn
		case "Msgsize":
			c.sizeFn = fn
		}
	}
	var ids []string
	for id, c := range byName {
		if c.enc != nil || c.dec != nil {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	for _, id := range ids {
		c := byName[id]
		for n, f := range map[string]*ssa.Function{"EncodeMsg": c.enc, "DecodeMsg": c.dec, "MarshalMsg": c.marsh, "UnmarshalMsg": c.unmarsh, "Msgsize": c.sizeFn} {
			if f == nil {
				k.violate(shortFn(id), "the type has no %s of its own", n)
				c = nil
				break
			}
		}
		if c != nil {
			out = append(out, c)
		}
	}
	return out
}

func checkS09(k *Checker) {
	k.rule("for every type with message codecs, abstract interpretation of both encoders with an unconstrained object (lists: of up to three unconstrained elements, every loop over them being checked to treat all positions alike): the stream encoder's items must spell the in-memory encoder's bytes, and the announced size must cover them; both decoders, given exactly those items followed by anything and an object with arbitrary previous content, must succeed, restore every field and leave the rest untouched; given a structure header that announces any other number of elements they must fail")
	cs := k.codecs()
	for _, c := range cs {
		sl, isList := c.named.Underlying().(*types.Slice)
		if !isList {
			k.codec(c, -1, nil)
			continue
		}
		for n := 0; n <= 3; n++ {
			k.codec(c, n, sl.Elem())
		}
		for _, f := range []*ssa.Function{c.enc, c.dec, c.marsh, c.unmarsh, c.sizeFn} {
			k.uniform(f)
		}
	}
	k.count("types", len(cs))
	k.atLeast("types with message codecs", len(cs), 12)
}

// uniform: positions of a list are used for nothing but access to the list (and error texts).
func (k *Checker) uniform(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok || bo.Op != token.ADD {
				continue
			}
			ph, ok := bo.X.(*ssa.Phi)
			if !ok || bo.Y.String() != "1:int" {
				continue
			}
			cyc := false
			for _, e := range ph.Edges {
				cyc = cyc || e == ssa.Value(bo)
			}
			if !cyc {
				continue
			}
			k.count("loops", 1)
			for _, v := range []ssa.Value{ph, bo} {
				for _, r := range *v.Referrers() {
					switch x := r.(type) {
					case *ssa.IndexAddr, *ssa.Index, *ssa.MakeInterface, *ssa.DebugRef:
						continue
					case *ssa.BinOp:
						if x == bo {
							continue
						}
						if x.Op == token.LSS || x.Op == token.GEQ || x.Op == token.NEQ {
							o := x.Y
							if o == v {
								o = x.X
							}
							if c, ok := o.(*ssa.Call); ok {
								if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
									continue
								}
							}
						}
					case *ssa.Phi:
						if x == ph {
							continue
						}
					}
					k.violate(k.p.pos(r.Pos()), "%s: a position in the list is used for something other than access to the list, so that elements may be treated differently", shortFn(f.String()))
				}
			}
		}
	}
}

func isPtrRecv(f *ssa.Function) bool {
	_, ok := f.Signature.Recv().Type().(*types.Pointer)
	return ok
}

// recvArg is the object as the method wants it.
func (k *Checker) recvArg(st *State, f *ssa.Function, t types.Type, v *Term) *Term {
	if isPtrRecv(f) {
		return k.e.alloc(st, t, v, "obj")
	}
	return v
}

// sameObject compares two values of a type, following slices.
func (k *Checker) sameObject(st *State, t types.Type, got, want *Term, where, what string) {
	e := k.e
	switch u := t.Underlying().(type) {
	case *types.Struct:
		got, want = st.canon(got), st.canon(want)
		if got.op == OStruct && want.op == OStruct && len(got.args) == u.NumFields() && len(want.args) == u.NumFields() {
			for i := 0; i < u.NumFields(); i++ {
				k.sameObject(st, u.Field(i).Type(), got.args[i], want.args[i], where, what+"."+u.Field(i).Name())
			}
			return
		}
	case *types.Slice:
		a, b := e.seqOf(st, e.asSlice(got, t)), e.seqOf(st, e.asSlice(want, t))
		if bt, ok := u.Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
			k.equal(st, a, b, where, what)
			return
		}
		n := st.canon(seqLen(b))
		if !k.equal(st, seqLen(a), n, where, "the length of "+what) || n.op != OInt {
			return
		}
		for i := int64(0); i < n.val.Int64(); i++ {
			k.sameObject(st, u.Elem(), k.at(st, a, mkInt(i)), k.at(st, b, mkInt(i)), where, fmt.Sprintf("%s[%d]", what, i))
		}
		return
	}
	k.equal(st, got, want, where, what)
}

func (k *Checker) codec(c *codec, n int, elem types.Type) {
	e := k.fresh()
	name := shortFn(c.named.String())
	base := newState()
	object := func(st *State, tag string) *Term {
		if n < 0 {
			return k.sym(tag, c.named)
		}
		var segs []*Term
		for i := 0; i < n; i++ {
			segs = append(segs, mkElem(k.sym(fmt.Sprintf("%s%d", tag, i), elem), false))
		}
		return e.newSlice(st, mkSeq(segs...), elem, nil, tag)
	}
	v := object(base, "v")

	// what the stream encoder writes
	st := base.clone()
	xs, ok := k.run(c.enc, st, []*Term{k.recvArg(st, c.enc, c.named, v), k.sym("writer", c.enc.Params[1].Type())})
	if !ok {
		return
	}
	good, _ := k.splitErr(xs, 0)
	if len(good) != 1 {
		k.violate(k.p.pos(c.enc.Pos()), "%s: the stream encoder ends successfully in %d ways, expected one", name, len(good))
		return
	}
	items, ok := e.written(good[0].st)
	if !ok || len(items) == 0 {
		k.violate(k.p.pos(c.enc.Pos()), "%s: the items the stream encoder writes are not determined", name)
		return
	}
	k.count("items", len(items))
	enc := encoding(good[0].st, items)

	// what the in-memory encoder appends
	st = base.clone()
	buf := k.sym("buf", c.marsh.Signature.Params().At(0).Type())
	pre := e.seqOf(st, buf)
	xs, ok = k.run(c.marsh, st, []*Term{k.recvArg(st, c.marsh, c.named, v), buf})
	if !ok {
		return
	}
	good, bad := k.splitErr(xs, 1)
	for _, x := range bad {
		k.violate(k.p.pos(x.pos), "%s: the in-memory encoder fails where the stream encoder succeeds", name)
	}
	k.atLeast("ways of encoding "+name, len(good), 1)
	for _, x := range good {
		k.equal(x.st, e.seqOf(x.st, x.ret[0]), mkSeq(pre, enc), k.p.pos(x.pos), "the bytes the in-memory encoder of "+name+" appends, compared with what its stream encoder writes,")
	}

	// the announced size
	st = base.clone()
	xs, ok = k.run(c.sizeFn, st, []*Term{k.recvArg(st, c.sizeFn, c.named, v)})
	if !ok {
		return
	}
	for _, x := range xs {
		if !x.pan {
			k.must(x.st, mkLe(seqLen(x.st.canon(enc)), x.ret[0]), k.p.pos(x.pos), "the announced size of "+name+" can be smaller than its encoding")
		}
	}

	// the decoders
	rest := seqOfAtom(mkSym("rest", types.NewSlice(types.Typ[types.Uint8])))
	decode := func(items []tapeItem, want bool, what string) {
		st := base.clone()
		old := k.sym("old", c.named)
		obj := e.alloc(st, c.named, old, "target")
		in := e.newSlice(st, mkSeq(encoding(st, items), rest), types.Typ[types.Uint8], nil, "message")
		type outcome struct {
			f     *ssa.Function
			exits []Exit
			idx   int
		}
		var all []outcome
		xs, ok := k.run(c.unmarsh, st.clone(), []*Term{obj, in})
		if !ok {
			return
		}
		all = append(all, outcome{c.unmarsh, xs, 1})
		e.tape, e.useTape = items, true
		xs, ok = k.run(c.dec, st.clone(), []*Term{obj, k.sym("reader", c.dec.Params[1].Type())})
		e.useTape = false
		if !ok {
			return
		}
		all = append(all, outcome{c.dec, xs, 0})
		for _, o := range all {
			good, bad := k.splitErr(o.exits, o.idx)
			if !want {
				for _, x := range good {
					k.violate(k.p.pos(x.pos), "%s accepts %s", shortFn(o.f.String()), what)
				}
				continue
			}
			for _, x := range bad {
				why := ""
				for _, ev := range x.st.events {
					if strings.HasPrefix(ev.kind, "mismatch:") {
						why = ": " + ev.kind[9:] + " at " + ev.pos
					}
				}
				k.violate(k.p.pos(x.pos), "%s fails on a message the encoders produce%s", shortFn(o.f.String()), why)
			}
			k.atLeast("ways "+shortFn(o.f.String())+" succeeds", len(good), 1)
			for _, x := range good {
				where := k.p.pos(x.pos)
				k.sameObject(x.st, c.named, e.load(x.st, obj), v, where, "the object restored by "+shortFn(o.f.String()))
				if o.idx == 1 {
					k.equal(x.st, e.seqOf(x.st, x.ret[0]), rest, where, "what "+shortFn(o.f.String())+" leaves of the message")
				} else {
					reads := 0
					for _, ev := range x.st.events {
						if strings.HasPrefix(ev.kind, "read:") {
							reads++
						}
					}
					if reads != len(items) {
						k.violate(where, "%s reads %d of the %d items of the message", shortFn(o.f.String()), reads, len(items))
					}
				}
			}
		}
	}
	decode(items, true, "")
	// a structure header with another number of elements
	first := 0
	if n >= 0 {
		first = 1
	}
	if first < len(items) && items[first].kind == "array" && n < 2 {
		if w := items[first].val; w.op == OInt {
			m := mkSymR("count", types.Typ[types.Uint32], big0, big.NewInt(1<<32-1))
			alt := append([]tapeItem(nil), items...)
			alt[first] = tapeItem{"array", m}
			k.altCount(c, alt, m, w, decode)
			k.count("headers", 1)
		}
	}
	k.clearObs()
}

func (k *Checker) altCount(c *codec, items []tapeItem, m, w *Term, decode func([]tapeItem, bool, string)) {
	// smaller and larger counts
	for _, r := range [][2]*big.Int{{big0, new(big.Int).Sub(w.val, big1)}, {new(big.Int).Add(w.val, big1), big.NewInt(1<<32 - 1)}} {
		if r[0].Cmp(r[1]) > 0 {
			continue
		}
		alt := append([]tapeItem(nil), items...)
		for i := range alt {
			if alt[i].val == m {
				alt[i].val = mkSymR("count:"+r[0].String(), types.Typ[types.Uint32], r[0], r[1])
			}
		}
		decode(alt, false, fmt.Sprintf("a structure announced with another number of elements than %s", w))
	}
}
