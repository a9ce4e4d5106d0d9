package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models describe the documented behaviour of the functions of other modules and of the standard
// library that the repository calls. Everything else outside the repository is opaque.

// fakeType stands for a type of another package whose values are described by a term.
func fakeType(name string) types.Type {
	tn := types.NewTypeName(0, nil, name, nil)
	t := types.NewPointer(types.NewNamed(tn, types.NewStruct(nil, nil), nil))
	fakeNames[t] = name
	return t
}

var (
	errType  = fakeType("error#")
	hashType = fakeType("hash#")
	objType  = fakeType("object#")
	rtType   = fakeType("rtype#")
)

func mkErr(name string, args ...*Term) *Term {
	return mkIface(errType, intern(Term{op: OApp, name: "err:" + name, args: args}))
}

func one(c *callCtx, rs ...*Term) []Exit { return []Exit{{st: c.st, ret: rs}} }

func (c *callCtx) frame() *Frame { return &Frame{st: c.st} }

// need records an obligation of the called function.
func (c *callCtx) need(e *Engine, lit *Term, kind string) bool {
	return e.require(c.frame(), c.ctx, lit, kind, c.instr.Pos())
}

// seq is the content of a slice or string argument.
func (c *callCtx) seq(e *Engine, i int) *Term { return c.seqT(e, c.args[i]) }

func (c *callCtx) seqT(e *Engine, v *Term) *Term {
	switch v.op {
	case OSeq, ONil, OSlice, OPtr, OFld, OIdx:
		return c.st.canon(e.seqOf(c.st, v))
	}
	return seqOfAtom(v)
}

// split makes two exits depending on a literal.
func (c *callCtx) split(lit *Term, yes, no func(st *State) []*Term) []Exit {
	y, n := fork(c.st, lit)
	var out []Exit
	if y != nil {
		out = append(out, Exit{st: y, ret: yes(y)})
	}
	if n != nil {
		out = append(out, Exit{st: n, ret: no(n)})
	}
	live := out[:0]
	for _, x := range out {
		if !x.st.dead {
			live = append(live, x)
		}
	}
	return live
}

func (e *Engine) freshBytes(st *State, content *Term, name string) *Term {
	return e.newSlice(st, content, types.Typ[types.Uint8], nil, name)
}

func bytesAtom(name string, args ...*Term) *Term {
	return seqOfAtom(intern(Term{op: OApp, name: name, args: args, typ: types.NewSlice(types.Typ[types.Uint8])}))
}

func strAtom(name string, args ...*Term) *Term {
	return seqOfAtom(intern(Term{op: OApp, name: name, args: args, typ: types.Typ[types.String]}))
}

// whole is wholeApp under the facts of the call's state.
func (c *callCtx) whole(s *Term, name string) *Term { return wholeIn(c.st, s, name) }

func wholeIn(st *State, s *Term, name string) *Term {
	if a := wholeApp(s, name); a != nil {
		return a
	}
	if s.op == OSeq && len(s.args) == 1 && s.args[0].op == OSub {
		g := s.args[0]
		if g.args[0].op == OApp && g.args[0].name == name && g.args[1] == t0 && st.decide(mkEqInt(g.args[2], atomLen(g.args[0]))) == 1 {
			return g.args[0]
		}
	}
	return nil
}

// wholeApp returns the application whose complete value the sequence is.
func wholeApp(s *Term, name string) *Term {
	if s.op == OSeq && len(s.args) == 1 && s.args[0].op == OSub {
		g := s.args[0]
		if g.args[0].op == OApp && g.args[0].name == name && g.args[1] == t0 && g.args[2] == atomLen(g.args[0]) {
			return g.args[0]
		}
	}
	return nil
}

// nonNilApps are applications that never denote nil.
var nonNilApps = map[string]bool{"b32.Encoding": true, "b64.Encoding": true, "crc16table": true, "regexp": true, "S256": true,
	"curveparams": true, "reflect.Type": true, "js": true, "newof": true, "relem": true}

var secpN, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)

// beInt is the value of bytes as a big-endian number.
func beInt(s *Term) *Term {
	if a := wholeApp(s, "befix"); a != nil {
		return a.args[0]
	}
	if a := wholeApp(s, "minbytes"); a != nil {
		return a.args[0]
	}
	// leading zero bytes do not matter
	if len(s.args) > 0 {
		g := s.args[0]
		if g.op == ORep && g.args[0] == t0 {
			return beInt(mkSeq(s.args[1:]...))
		}
		if g.op == OLit && len(s.args) > 1 && strings.Trim(g.str, "\x00") == "" {
			return beInt(mkSeq(s.args[1:]...))
		}
	}
	if c, ok := seqConst(s); ok {
		return mkBig(new(big.Int).SetBytes([]byte(c)))
	}
	hi := (*big.Int)(nil)
	if n, ok := seqLen(s).int64(); ok && n <= 128 {
		hi = new(big.Int).Sub(pow2(int(8*n)), big1)
	}
	return mkAppR("beint", big0, hi, s)
}

// beFix is the big-endian form of a number in exactly n bytes.
func beFix(v *Term, n int64) *Term {
	if v.op == OApp && v.name == "beint" {
		if k, ok := seqLen(v.args[0]).int64(); ok && k == n {
			return v.args[0]
		}
	}
	if v.op == OInt {
		return mkLit(string(v.val.FillBytes(make([]byte, n))))
	}
	return bytesAtom("befix", v, mkInt(n))
}

// bigVal is the number held by a *big.Int.
func (e *Engine) bigVal(st *State, p *Term, t types.Type) *Term {
	p = e.resolve(p, t)
	c := e.load(st, p)
	if c.op == OStruct {
		if len(c.args) == 2 && c.args[0] == tFalse && c.args[1].op == ONil {
			return t0
		}
		return mkAppR("bigval", nil, nil, p)
	}
	return st.canon(c)
}

func bigType(c *callCtx) types.Type {
	if c.sig.Recv() != nil {
		return c.sig.Recv().Type().Underlying().(*types.Pointer).Elem()
	}
	return types.Typ[types.Invalid]
}

func (e *Engine) newBig(st *State, v *Term) *Term {
	return e.alloc(st, types.NewStruct(nil, nil), v, "big.Int")
}

// pickFirst gives the first n of a tuple of zero values for a signature.
func zeroResults(sig *types.Signature) []*Term {
	var out []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, zeroOf(sig.Results().At(i).Type()))
	}
	return out
}

func byteTerms(v *Term, n int) []*Term {
	out := make([]*Term, n)
	for i := range out {
		out[i] = mkElem(mkBits(v, 8*(n-1-i), 8), true)
	}
	return out
}

// getBE reads n bytes as a big-endian number.
func (e *Engine) getBE(st *State, s *Term, off *Term, n int) *Term {
	v := t0
	for i := 0; i < n; i++ {
		b := e.seqAt(st, s, tAddI(off, int64(i)), types.Typ[types.Uint8])
		v = tAdd(v, tScale(b, pow2(8*(n-1-i))))
	}
	return v
}

func (e *Engine) getLE(st *State, s *Term, off *Term, n int) *Term {
	v := t0
	for i := 0; i < n; i++ {
		b := e.seqAt(st, s, tAddI(off, int64(i)), types.Typ[types.Uint8])
		v = tAdd(v, tScale(b, pow2(8*i)))
	}
	return v
}

func reverseTerms(ts []*Term) []*Term {
	for i, j := 0, len(ts)-1; i < j; i, j = i+1, j-1 {
		ts[i], ts[j] = ts[j], ts[i]
	}
	return ts
}

// pureModel makes a function an opaque function of its arguments' values, with fresh memory for slices.
func pureModel(name string, lo, hi *big.Int) modelFn {
	return func(e *Engine, c *callCtx) []Exit {
		var snaps []*Term
		for _, a := range c.args {
			snaps = append(snaps, c.st.canon(e.snap(c.st, a)))
		}
		var ret []*Term
		for i := 0; i < c.sig.Results().Len(); i++ {
			t := c.sig.Results().At(i).Type()
			n := name
			if c.sig.Results().Len() > 1 {
				n = fmt.Sprintf("%s.%d", name, i)
			}
			switch u := t.Underlying().(type) {
			case *types.Slice:
				ret = append(ret, e.newSlice(c.st, seqOfAtom(intern(Term{op: OApp, name: n, args: snaps, typ: t})), u.Elem(), nil, name))
			case *types.Basic:
				if u.Info()&types.IsBoolean != 0 {
					ret = append(ret, mkPred(n, snaps...))
					continue
				}
				if lo != nil && isIntType(t) {
					ret = append(ret, mkAppR(n, lo, hi, snaps...))
					continue
				}
				ret = append(ret, e.materialize(mkApp(n, t, snaps...), t))
			default:
				ret = append(ret, e.materialize(mkApp(n, t, snaps...), t))
			}
		}
		return one(c, ret...)
	}
}

// toLower folds a sequence to lower case; ASCII letters only where the content is known.
func toLower(st *State, s *Term) *Term {
	if c, ok := seqConst(s); ok {
		return mkLit(strings.ToLower(c))
	}
	if wholeIn(st, s, "tolower") != nil {
		return s
	}
	return strAtom("tolower", s)
}

func buildModels() map[string]modelFn {
	m := map[string]modelFn{}
	stringModels(m)
	codecModels(m)
	hashModels(m)
	bigModels(m)
	reflectModels(m)
	msgpModels(m)
	decimalModels(m)
	miscModels(m)
	return m
}

func stringModels(m map[string]modelFn) {
	m["strings.ToLower"] = func(e *Engine, c *callCtx) []Exit {
		s := c.seq(e, 0)
		r := toLower(c.st, s)
		if a := c.whole(r, "tolower"); a != nil {
			// empty exactly when the argument is
			z := mkEqInt(seqLen(s), t0)
			switch c.st.decide(z) {
			case 1:
				return one(c, mkSeq())
			case -1:
				c.st.assume(mkLe(t1, atomLen(a)))
			}
		}
		return one(c, r)
	}
	m["strings.ToUpper"] = func(e *Engine, c *callCtx) []Exit {
		s := c.seq(e, 0)
		if k, ok := seqConst(s); ok {
			return one(c, mkLit(strings.ToUpper(k)))
		}
		return one(c, strAtom("toupper", s))
	}
	m["bytes.ToLower"] = func(e *Engine, c *callCtx) []Exit {
		return one(c, e.freshBytes(c.st, toLower(c.st, c.seq(e, 0)), "ToLower"))
	}
	prefix := func(e *Engine, c *callCtx) []Exit {
		s, p := c.seq(e, 0), c.seq(e, 1)
		n := seqLen(p)
		y, no := fork(c.st, mkLe(n, seqLen(s)))
		var out []Exit
		if y != nil {
			out = append(out, Exit{st: y, ret: []*Term{y.canon(mkSeqEq(e.subSeq(y, y.canon(s), t0, y.canon(n)), y.canon(p)))}})
		}
		if no != nil {
			out = append(out, Exit{st: no, ret: []*Term{tFalse}})
		}
		return out
	}
	suffix := func(e *Engine, c *callCtx) []Exit {
		s, p := c.seq(e, 0), c.seq(e, 1)
		n := seqLen(p)
		y, no := fork(c.st, mkLe(n, seqLen(s)))
		var out []Exit
		if y != nil {
			out = append(out, Exit{st: y, ret: []*Term{mkSeqEq(e.subSeq(y, s, tSub(seqLen(s), n), n), p)}})
		}
		if no != nil {
			out = append(out, Exit{st: no, ret: []*Term{tFalse}})
		}
		return out
	}
	m["strings.HasPrefix"], m["bytes.HasPrefix"] = prefix, prefix
	m["strings.HasSuffix"], m["bytes.HasSuffix"] = suffix, suffix
	m["strings.TrimPrefix"] = func(e *Engine, c *callCtx) []Exit {
		s, p := c.seq(e, 0), c.seq(e, 1)
		n := seqLen(p)
		var out []Exit
		y, no := fork(c.st, mkLe(n, seqLen(s)))
		if y != nil {
			y2, n2 := fork(y, mkSeqEq(e.subSeq(y, s, t0, n), p))
			if y2 != nil {
				out = append(out, Exit{st: y2, ret: []*Term{e.subSeq(y2, s, n, tSub(seqLen(s), n))}})
			}
			if n2 != nil {
				out = append(out, Exit{st: n2, ret: []*Term{s}})
			}
		}
		if no != nil {
			out = append(out, Exit{st: no, ret: []*Term{s}})
		}
		return out
	}
	m["strings.TrimSuffix"] = func(e *Engine, c *callCtx) []Exit {
		s, p := c.seq(e, 0), c.seq(e, 1)
		n := seqLen(p)
		var out []Exit
		y, no := fork(c.st, mkLe(n, seqLen(s)))
		if y != nil {
			y2, n2 := fork(y, mkSeqEq(e.subSeq(y, s, tSub(seqLen(s), n), n), p))
			if y2 != nil {
				out = append(out, Exit{st: y2, ret: []*Term{e.subSeq(y2, s, t0, tSub(seqLen(s), n))}})
			}
			if n2 != nil {
				out = append(out, Exit{st: n2, ret: []*Term{s}})
			}
		}
		if no != nil {
			out = append(out, Exit{st: no, ret: []*Term{s}})
		}
		return out
	}
	// on slices the result is a part of the argument
	trim := func(front bool) modelFn {
		return func(e *Engine, c *callCtx) []Exit {
			t := c.sig.Params().At(0).Type()
			s, p := c.seq(e, 0), c.seq(e, 1)
			base, off, ln, cp, _ := sliceParts(e.asSlice(c.args[0], t))
			n := seqLen(p)
			var out []Exit
			whole := func(st *State) { out = append(out, Exit{st: st, ret: []*Term{c.args[0]}}) }
			y, no := fork(c.st, mkLe(n, ln))
			if y != nil {
				from := t0
				if !front {
					from = tSub(ln, n)
				}
				y2, n2 := fork(y, mkSeqEq(e.subSeq(y, s, from, n), p))
				if y2 != nil {
					r := mkSlice(base, off, tSub(ln, n), cp)
					if front {
						r = mkSlice(base, tAdd(off, n), tSub(ln, n), tSub(cp, n))
					}
					out = append(out, Exit{st: y2, ret: []*Term{r}})
				}
				if n2 != nil {
					whole(n2)
				}
			}
			if no != nil {
				whole(no)
			}
			return out
		}
	}
	m["bytes.TrimPrefix"], m["bytes.TrimSuffix"] = trim(true), trim(false)
	eq := func(e *Engine, c *callCtx) []Exit {
		return one(c, e.seqEqLit(c.st, c.seq(e, 0), c.seq(e, 1)))
	}
	m["bytes.Equal"] = eq
	m["crypto/subtle.ConstantTimeCompare"] = func(e *Engine, c *callCtx) []Exit {
		return c.split(e.seqEqLit(c.st, c.seq(e, 0), c.seq(e, 1)), func(*State) []*Term { return []*Term{t1} }, func(*State) []*Term { return []*Term{t0} })
	}
	cmp := func(e *Engine, c *callCtx) []Exit {
		a, b := c.seq(e, 0), c.seq(e, 1)
		var out []Exit
		y, n := fork(c.st, mkSeqEq(a, b))
		if y != nil {
			out = append(out, Exit{st: y, ret: []*Term{t0}})
		}
		if n != nil {
			l, g := fork(n, strLess(a, b))
			if l != nil {
				out = append(out, Exit{st: l, ret: []*Term{mkInt(-1)}})
			}
			if g != nil {
				out = append(out, Exit{st: g, ret: []*Term{t1}})
			}
		}
		return out
	}
	m["strings.Compare"], m["bytes.Compare"] = cmp, cmp
	m["strings.Clone"] = func(e *Engine, c *callCtx) []Exit { return one(c, c.seq(e, 0)) }
	m["bytes.Clone"] = func(e *Engine, c *callCtx) []Exit {
		if c.args[0].op == ONil {
			return one(c, c.args[0])
		}
		return one(c, e.freshBytes(c.st, c.seq(e, 0), "Clone"))
	}
	m["slices.Clone"] = m["bytes.Clone"]
	// position of a single byte in a constant or symbolic string
	index := func(e *Engine, c *callCtx) []Exit {
		s := c.seq(e, 0)
		var b *Term
		if isIntType(c.sig.Params().At(1).Type()) {
			b = c.args[1]
			if lo, hi := c.st.bounds(b); !(lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(big.NewInt(255)) <= 0) {
				b = nil
			} else if bt, ok := c.sig.Params().At(1).Type().Underlying().(*types.Basic); ok && bt.Kind() != types.Uint8 && hi.Cmp(big.NewInt(127)) > 0 {
				b = nil
			}
		} else {
			q := c.seq(e, 1)
			if x, ok := seqConst(q); ok {
				if y, ok := seqConst(s); ok {
					return one(c, mkInt(int64(strings.Index(y, x))))
				}
			}
			if seqLen(q) == t1 {
				b = e.seqAt(c.st, q, t0, types.Typ[types.Uint8])
			}
		}
		if k, ok := seqConst(s); ok && b != nil && len(k) <= 256 {
			var out []Exit
			cur := c.st
			seen := map[byte]bool{}
			for i := 0; i < len(k) && cur != nil; i++ {
				if seen[k[i]] {
					continue
				}
				seen[k[i]] = true
				y, n := fork(cur, mkEqInt(b, mkInt(int64(k[i]))))
				if y != nil {
					out = append(out, Exit{st: y, ret: []*Term{mkInt(int64(i))}})
				}
				cur = n
			}
			if cur != nil {
				out = append(out, Exit{st: cur, ret: []*Term{mkInt(-1)}})
			}
			return out
		}
		arg := c.args[1]
		if !isIntType(c.sig.Params().At(1).Type()) {
			arg = c.seq(e, 1)
		}
		r := mkAppR("strings.index", mkInt(-1).val, maxLen, s, arg)
		ex := one(c, r)
		ql := t1
		if arg.op == OSeq {
			ql = seqLen(arg)
		}
		c.st.assume(mkOr(mkLt(r, t0), mkLe(tAdd(r, ql), seqLen(s))))
		c.st.assume(mkLe(r, seqLen(s)))
		return ex
	}
	for _, n := range []string{"strings.Index", "strings.IndexByte", "strings.IndexRune", "bytes.IndexByte", "bytes.Index", "bytes.IndexRune"} {
		m[n] = index
	}
	contains := func(e *Engine, c *callCtx) []Exit {
		var out []Exit
		for _, x := range index(e, c) {
			r := x.st.canon(x.ret[0])
			out = append(out, Exit{st: x.st, ret: []*Term{mkLe(t0, r)}})
		}
		return out
	}
	for _, n := range []string{"strings.Contains", "strings.ContainsRune", "bytes.Contains", "bytes.ContainsRune", "strings.ContainsAny"} {
		m[n] = contains
	}
	m["strings.Split"] = func(e *Engine, c *callCtx) []Exit {
		s, sep := c.seq(e, 0), c.seq(e, 1)
		if x, ok := seqConst(s); ok {
			if y, ok := seqConst(sep); ok {
				var el []*Term
				for _, w := range strings.Split(x, y) {
					el = append(el, mkElem(mkLit(w), false))
				}
				return one(c, e.newSlice(c.st, mkSeq(el...), types.Typ[types.String], nil, "Split"))
			}
		}
		a := intern(Term{op: OApp, name: "strings.Split", args: []*Term{s, sep}, typ: types.NewSlice(types.Typ[types.String])})
		c.st.assume(mkLe(t1, atomLen(a))) // the separators used are never empty
		return one(c, e.newSlice(c.st, seqOfAtom(a), types.Typ[types.String], nil, "Split"))
	}
	m["strings.Fields"] = pureModel("strings.Fields", nil, nil)
	m["strings.SplitN"] = pureModel("strings.SplitN", nil, nil)
	join := func(e *Engine, c *callCtx, sep *Term) (*Term, *Term) {
		l := c.st.canon(e.snap(c.st, c.args[0]))
		if l.op == ONil {
			l = mkSeq()
		}
		// a list of known length
		var parts []*Term
		for _, g := range l.args {
			if g.op != OElem {
				return l, nil
			}
			if len(parts) > 0 {
				parts = append(parts, sep)
			}
			parts = append(parts, c.seqT(e, g.args[0]))
		}
		return l, mkSeq(parts...)
	}
	m["strings.Join"] = func(e *Engine, c *callCtx) []Exit {
		sep := c.seq(e, 1)
		l, s := join(e, c, sep)
		if s != nil {
			return one(c, s)
		}
		return one(c, strAtom("strings.Join", l, sep))
	}
	m["bytes.Join"] = func(e *Engine, c *callCtx) []Exit {
		sep := c.seq(e, 1)
		l, s := join(e, c, sep)
		if s == nil {
			s = bytesAtom("bytes.Join", l, sep)
		}
		return one(c, e.freshBytes(c.st, s, "Join"))
	}
	m["slices.Concat"] = func(e *Engine, c *callCtx) []Exit {
		if t, ok := c.sig.Results().At(0).Type().Underlying().(*types.Slice); ok && isByteType(t.Elem()) {
			l, s := join(e, c, mkSeq())
			if s == nil {
				s = bytesAtom("bytes.Join", l, mkSeq())
			}
			return one(c, e.freshBytes(c.st, s, "Concat"))
		}
		return pureModel("slices.Concat", nil, nil)(e, c)
	}
	repeat := func(e *Engine, c *callCtx) *Term {
		b, n := c.seq(e, 0), c.st.canon(c.args[1])
		if !c.need(e, mkLe(t0, n), "negative repeat count") {
			return nil
		}
		if k, ok := c.st.constOf(n); ok && k <= 64 {
			var parts []*Term
			for i := int64(0); i < k; i++ {
				parts = append(parts, b)
			}
			return mkSeq(parts...)
		}
		if len(b.args) == 1 && b.args[0].op == OElem {
			return mkSeq(mkRep(b.args[0].args[0], n, true))
		}
		if k, ok := seqConst(b); ok && len(k) == 1 {
			return mkSeq(mkRep(mkInt(int64(k[0])), n, true))
		}
		return strAtom("strings.Repeat", b, n)
	}
	m["strings.Repeat"] = func(e *Engine, c *callCtx) []Exit {
		if s := repeat(e, c); s != nil {
			return one(c, s)
		}
		return nil
	}
	m["bytes.Repeat"] = func(e *Engine, c *callCtx) []Exit {
		if s := repeat(e, c); s != nil {
			return one(c, e.freshBytes(c.st, s, "Repeat"))
		}
		return nil
	}
	m["strings.Replace"] = func(e *Engine, c *callCtx) []Exit {
		n := mkInt(-1)
		if len(c.args) > 3 {
			if n = c.st.canon(c.args[3]); c.st.decide(mkLt(n, t0)) == 1 {
				n = mkInt(-1)
			}
		}
		return one(c, strAtom("strings.Replace", c.seq(e, 0), c.seq(e, 1), c.seq(e, 2), n))
	}
	m["strings.ReplaceAll"] = m["strings.Replace"]
	for _, n := range []string{"strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.Title", "strings.Map"} {
		m[n] = pureModel(n, nil, nil)
	}
	for _, n := range []string{"strings.EqualFold"} {
		m[n] = pureModel(n, nil, nil)
	}
	m["strings.Count"] = pureModel("strings.Count", big0, maxLen)
	m["unicode/utf8.Valid"] = func(e *Engine, c *callCtx) []Exit { return one(c, mkPred("utf8", c.seq(e, 0))) }
	m["unicode/utf8.ValidString"] = m["unicode/utf8.Valid"]
	m["unicode/utf8.RuneCountInString"] = pureModel("runecount", big0, maxLen)
	// strings.Builder and bytes.Buffer: content kept in the object
	for _, t := range []string{"(*strings.Builder)", "(*bytes.Buffer)"} {
		isBuf := strings.Contains(t, "bytes")
		get := func(e *Engine, c *callCtx) (p, s *Term) {
			p = c.args[0]
			if p.op != OPtr && p.op != OFld && p.op != OIdx {
				p = e.resolve(p, types.NewStruct(nil, nil))
			}
			v := e.load(c.st, p)
			if v.op == OStruct {
				if len(v.args) > 0 && v.contains(func(x *Term) bool { return x.op == OSym || x.op == OApp }) {
					return p, bytesAtom("buffer", v)
				}
				return p, mkSeq()
			}
			return p, v
		}
		m[t+".WriteString"] = func(e *Engine, c *callCtx) []Exit {
			p, s := get(e, c)
			x := c.seq(e, 1)
			e.store(c.st, p, mkSeq(s, x))
			return one(c, seqLen(x), mkNil(nil))
		}
		m[t+".Write"] = m[t+".WriteString"]
		m[t+".WriteByte"] = func(e *Engine, c *callCtx) []Exit {
			p, s := get(e, c)
			e.store(c.st, p, mkSeq(s, mkElem(c.args[1], true)))
			return one(c, mkNil(nil))
		}
		m[t+".WriteRune"] = func(e *Engine, c *callCtx) []Exit {
			p, s := get(e, c)
			x := e.convert(c.st, c.args[1], types.Typ[types.Int32], types.Typ[types.String])
			e.store(c.st, p, mkSeq(s, x))
			return one(c, seqLen(x), mkNil(nil))
		}
		m[t+".String"] = func(e *Engine, c *callCtx) []Exit { _, s := get(e, c); return one(c, s) }
		m[t+".Len"] = func(e *Engine, c *callCtx) []Exit { _, s := get(e, c); return one(c, seqLen(s)) }
		m[t+".Grow"] = func(e *Engine, c *callCtx) []Exit {
			if !c.need(e, mkLe(t0, c.args[1]), "negative Grow") {
				return nil
			}
			return one(c)
		}
		m[t+".Reset"] = func(e *Engine, c *callCtx) []Exit { p, _ := get(e, c); e.store(c.st, p, mkSeq()); return one(c) }
		if isBuf {
			m[t+".Bytes"] = func(e *Engine, c *callCtx) []Exit {
				_, s := get(e, c)
				return one(c, e.freshBytes(c.st, s, "Buffer.Bytes"))
			}
		}
	}
	parse := func(signed bool) modelFn {
		return func(e *Engine, c *callCtx) []Exit {
			s := c.seq(e, 0)
			bits := int64(64)
			base := c.args[1]
			if k, ok := c.st.constOf(c.args[2]); ok && k > 0 {
				bits = k
			}
			lo, hi := big0, new(big.Int).Sub(pow2(int(bits)), big1)
			nm := "parseuint"
			if signed {
				nm = "parseint"
				hi = new(big.Int).Sub(pow2(int(bits-1)), big1)
				lo = new(big.Int).Neg(pow2(int(bits - 1)))
			}
			ok := mkPred(nm+"ok", s, base, mkInt(bits))
			return c.split(ok, func(st *State) []*Term {
				return []*Term{mkAppR(nm, lo, hi, s, base, mkInt(bits)), mkNil(nil)}
			}, func(st *State) []*Term {
				return []*Term{mkAppR(nm+"!", lo, hi, s, base, mkInt(bits)), mkErr("strconv", s)}
			})
		}
	}
	m["strconv.ParseUint"], m["strconv.ParseInt"] = parse(false), parse(true)
	m["strconv.Atoi"] = func(e *Engine, c *callCtx) []Exit {
		c.args = append(c.args, mkInt(10), mkInt(64))
		return parse(true)(e, c)
	}
	m["strconv.ParseFloat"] = func(e *Engine, c *callCtx) []Exit {
		s := c.seq(e, 0)
		return c.split(mkPred("parsefloatok", s), func(*State) []*Term { return []*Term{mkApp("parsefloat", nil, s), mkNil(nil)} },
			func(*State) []*Term { return []*Term{mkApp("parsefloat!", nil, s), mkErr("strconv", s)} })
	}
	for _, n := range []string{"strconv.FormatInt", "strconv.FormatUint", "strconv.Itoa", "strconv.Quote"} {
		m[n] = pureModel(n, nil, nil)
	}
}

func codecModels(m map[string]modelFn) {
	newEnc := func(tag string, size int64) modelFn {
		return func(e *Engine, c *callCtx) []Exit {
			s := c.seq(e, 0)
			if !c.need(e, mkEqInt(seqLen(s), mkInt(size)), "encoding alphabet of the wrong length") {
				return nil
			}
			if k, ok := seqConst(s); ok {
				seen := map[byte]bool{}
				for i := 0; i < len(k); i++ {
					if k[i] == '\n' || k[i] == '\r' || seen[k[i]] {
						c.need(e, tFalse, "encoding alphabet with a repeated or line-break character")
						return nil
					}
					seen[k[i]] = true
				}
			}
			return one(c, mkApp(tag, nil, s, mkInt('=')))
		}
	}
	m["encoding/base32.NewEncoding"] = newEnc("b32.Encoding", 32)
	m["encoding/base64.NewEncoding"] = newEnc("b64.Encoding", 64)
	withPad := func(tag string) modelFn {
		return func(e *Engine, c *callCtx) []Exit {
			enc := encTerm(e, c, tag)
			return one(c, mkApp(tag, nil, enc.args[0], c.args[1]))
		}
	}
	m["(encoding/base32.Encoding).WithPadding"] = withPad("b32.Encoding")
	m["(encoding/base64.Encoding).WithPadding"] = withPad("b64.Encoding")
	for _, x := range []struct {
		tag, pkg string
		per, out int64
	}{{"b32", "encoding/base32", 5, 8}, {"b64", "encoding/base64", 3, 4}} {
		x := x
		encode := func(e *Engine, c *callCtx) []Exit {
			enc := encTerm(e, c, x.tag+".Encoding")
			return one(c, strAtom(x.tag+"enc", enc, c.seq(e, 1)))
		}
		decode := func(e *Engine, c *callCtx) []Exit {
			enc := encTerm(e, c, x.tag+".Encoding")
			s := c.seq(e, 1)
			if a := c.whole(s, x.tag+"enc"); a != nil && a.args[0] == enc {
				return one(c, e.freshBytes(c.st, a.args[1], "decoded"), mkNil(nil))
			}
			return c.split(mkPred(x.tag+"ok", enc, s), func(st *State) []*Term {
				d := bytesAtom(x.tag+"dec", enc, s)
				st.assume(mkLe(tScale(seqLen(d), big.NewInt(x.out)), tScale(seqLen(s), big.NewInt(x.per))))
				return []*Term{e.freshBytes(st, d, "decoded"), mkNil(nil)}
			}, func(st *State) []*Term {
				return []*Term{e.freshBytes(st, bytesAtom(x.tag+"partial", enc, s), "partial"), mkErr(x.tag, enc)}
			})
		}
		for _, r := range []string{"(*" + x.pkg + ".Encoding)", "(" + x.pkg + ".Encoding)"} {
			m[r+".EncodeToString"] = encode
			m[r+".DecodeString"] = decode
			m[r+".EncodedLen"] = func(e *Engine, c *callCtx) []Exit {
				if enc := encTerm(e, c, x.tag+".Encoding"); len(enc.args) < 2 || !enc.args[1].isConst() || enc.args[1].val.Sign() < 0 {
					return one(c, e.materialize(mkAppR(x.tag+"encodedlen", big0, maxLen, enc, c.args[1]), types.Typ[types.Int]))
				}
				return one(c, encLen(c.args[1], x.per, x.out))
			}
			m[r+".DecodedLen"] = func(e *Engine, c *callCtx) []Exit {
				if enc := encTerm(e, c, x.tag+".Encoding"); len(enc.args) < 2 || !enc.args[1].isConst() || enc.args[1].val.Sign() < 0 {
					return one(c, e.materialize(mkAppR(x.tag+"decodedlen", big0, maxLen, enc, c.args[1]), types.Typ[types.Int]))
				}
				return one(c, tScale(e.quo(c.st, c.args[1], mkInt(x.out)), big.NewInt(x.per)))
			}
			m[r+".Encode"] = func(e *Engine, c *callCtx) []Exit {
				enc := encTerm(e, c, x.tag+".Encoding")
				t := strAtom(x.tag+"enc", enc, c.seq(e, 2))
				base, off, n, _, _ := sliceParts(e.asSlice(c.args[1], c.sig.Params().At(0).Type()))
				if !c.need(e, mkLe(seqLen(t), n), "encoding destination too short") {
					return nil
				}
				if base != nil {
					e.store(c.st, base, e.seqStoreRange(c.st, e.load(c.st, base), off, t))
				}
				return one(c)
			}
			m[r+".Decode"] = func(e *Engine, c *callCtx) []Exit {
				enc := encTerm(e, c, x.tag+".Encoding")
				s := c.seq(e, 2)
				base, off, n, _, _ := sliceParts(e.asSlice(c.args[1], c.sig.Params().At(0).Type()))
				return c.split(mkPred(x.tag+"ok", enc, s), func(st *State) []*Term {
					d := bytesAtom(x.tag+"dec", enc, s)
					if a := wholeIn(st, s, x.tag+"enc"); a != nil && a.args[0] == enc {
						d = a.args[1]
					}
					st.assume(mkLe(tScale(seqLen(d), big.NewInt(x.out)), tScale(seqLen(s), big.NewInt(x.per))))
					if len(enc.args) > 1 && enc.args[1].isConst() && enc.args[1].val.Sign() >= 0 {
						// at most DecodedLen bytes, by the library's documentation
						st.assume(mkLe(seqLen(d), tScale(e.quo(st, seqLen(s), mkInt(x.out)), big.NewInt(x.per))))
					}
					d = st.canon(d)
					cc := *c
					cc.st = st
					if !cc.need(e, mkLe(seqLen(d), n), "decoding destination too short") {
						st.dead = true
						return nil
					}
					if base != nil {
						e.store(st, base, e.seqStoreRange(st, e.load(st, base), off, d))
					}
					return []*Term{seqLen(d), mkNil(nil)}
				}, func(st *State) []*Term {
					if base != nil {
						e.havocReach(st, c.args[1], x.tag, 0)
					}
					k := mkSymR(fmt.Sprintf("decn#%d", e.freshID()), nil, big0, maxLen)
					st.assume(mkLe(k, n))
					return []*Term{k, mkErr(x.tag, enc)}
				})
			}
		}
	}
	m["encoding/hex.EncodeToString"] = func(e *Engine, c *callCtx) []Exit {
		return one(c, strAtom("hexenc", c.seq(e, 0)))
	}
	m["encoding/hex.DecodeString"] = func(e *Engine, c *callCtx) []Exit {
		s := c.seq(e, 0)
		if a := c.whole(s, "hexenc"); a != nil {
			return one(c, e.freshBytes(c.st, a.args[0], "decoded"), mkNil(nil))
		}
		return c.split(mkPred("hexok", s), func(st *State) []*Term {
			d := bytesAtom("hexdec", s)
			st.assume(mkEqInt(tScale(seqLen(d), big.NewInt(2)), seqLen(s)))
			return []*Term{e.freshBytes(st, d, "decoded"), mkNil(nil)}
		}, func(st *State) []*Term {
			return []*Term{e.freshBytes(st, bytesAtom("hexpartial", s), "partial"), mkErr("hex", s)}
		})
	}
	m["encoding/hex.EncodedLen"] = func(e *Engine, c *callCtx) []Exit { return one(c, tScale(c.args[0], big.NewInt(2))) }
	m["encoding/hex.DecodedLen"] = func(e *Engine, c *callCtx) []Exit { return one(c, e.quo(c.st, c.args[0], mkInt(2))) }
	m["encoding/hex.Encode"] = func(e *Engine, c *callCtx) []Exit {
		s := c.seq(e, 1)
		base, off, n, _, _ := sliceParts(e.asSlice(c.args[0], c.sig.Params().At(0).Type()))
		w := tScale(seqLen(s), big.NewInt(2))
		if !c.need(e, mkLe(w, n), "hex.Encode destination too short") {
			return nil
		}
		if base != nil {
			e.store(c.st, base, e.seqStoreRange(c.st, e.load(c.st, base), off, mkSeq(mkSub(strAtom("hexenc", s).args[0].args[0], t0, w))))
		}
		return one(c, w)
	}
	m["encoding/hex.Decode"] = func(e *Engine, c *callCtx) []Exit {
		s := c.seq(e, 1)
		base, off, n, _, _ := sliceParts(e.asSlice(c.args[0], c.sig.Params().At(0).Type()))
		half := e.quo(c.st, seqLen(s), mkInt(2))
		if !c.need(e, mkLe(half, n), "hex.Decode destination too short") {
			return nil
		}
		return c.split(mkPred("hexok", s), func(st *State) []*Term {
			d := bytesAtom("hexdec", s)
			st.assume(mkEqInt(tScale(seqLen(d), big.NewInt(2)), seqLen(s)))
			d = st.canon(d)
			if base != nil {
				e.store(st, base, e.seqStoreRange(st, e.load(st, base), off, d))
			}
			return []*Term{seqLen(d), mkNil(nil)}
		}, func(st *State) []*Term {
			if base != nil {
				e.havocReach(st, c.args[0], "hex", 0)
			}
			k := mkSymR(fmt.Sprintf("hexn#%d", e.freshID()), nil, big0, maxLen)
			st.assume(mkLe(k, half))
			return []*Term{k, mkErr("hex", s)}
		})
	}
	// binary.Write of one fixed-size integer into a buffer
	m["encoding/binary.Write"] = func(e *Engine, c *callCtx) []Exit {
		w, o, v := c.args[0], c.args[1], c.args[2]
		unk := func() []Exit { return e.external(c) }
		if w.op != OIface || o.op != OIface || v.op != OIface || types.TypeString(w.typ, nil) != "*bytes.Buffer" {
			return unk()
		}
		b, ok := v.typ.Underlying().(*types.Basic)
		if !ok {
			return unk()
		}
		n := map[types.BasicKind]int{types.Uint8: 1, types.Uint16: 2, types.Uint32: 4, types.Uint64: 8}[b.Kind()]
		name := types.TypeString(o.typ, nil)
		if n == 0 || !strings.HasPrefix(name, "encoding/binary.") {
			return unk()
		}
		ts := byteTerms(c.st.canon(v.args[0]), n)
		if name == "encoding/binary.littleEndian" {
			reverseTerms(ts)
		} else if name != "encoding/binary.bigEndian" {
			return unk()
		}
		p := w.args[0]
		if p.op != OPtr && p.op != OFld && p.op != OIdx {
			p = e.resolve(p, types.NewStruct(nil, nil))
		}
		s := e.load(c.st, p)
		if s.op == OStruct {
			if len(s.args) > 0 && s.contains(func(x *Term) bool { return x.op == OSym || x.op == OApp }) {
				s = bytesAtom("buffer", s)
			} else {
				s = mkSeq()
			}
		}
		e.store(c.st, p, mkSeq(append([]*Term{s}, ts...)...))
		return one(c, mkNil(nil))
	}
	// byte order
	for _, o := range []string{"big", "little"} {
		le := o == "little"
		r := "(encoding/binary." + o + "Endian)"
		for _, w := range []int{2, 4, 8} {
			w := w
			bits := fmt.Sprint(8 * w)
			m[r+".PutUint"+bits] = func(e *Engine, c *callCtx) []Exit {
				base, off, n, _, _ := sliceParts(e.asSlice(c.args[1], c.sig.Params().At(0).Type()))
				if !c.need(e, mkLe(mkInt(int64(w)), n), "PutUint"+bits+" destination too short") {
					return nil
				}
				ts := byteTerms(c.st.canon(c.args[2]), w)
				if le {
					reverseTerms(ts)
				}
				e.store(c.st, base, e.seqStoreRange(c.st, e.load(c.st, base), off, mkSeq(ts...)))
				return one(c)
			}
			m[r+".Uint"+bits] = func(e *Engine, c *callCtx) []Exit {
				s := c.seq(e, 1)
				if !c.need(e, mkLe(mkInt(int64(w)), seqLen(s)), "Uint"+bits+" source too short") {
					return nil
				}
				if le {
					return one(c, e.getLE(c.st, s, t0, w))
				}
				return one(c, e.getBE(c.st, s, t0, w))
			}
			m[r+".AppendUint"+bits] = func(e *Engine, c *callCtx) []Exit {
				ts := byteTerms(c.st.canon(c.args[2]), w)
				if le {
					reverseTerms(ts)
				}
				var out []Exit
				e.appendSeq(c.st, e.asSlice(c.args[1], c.sig.Params().At(0).Type()), mkSeq(ts...), types.Typ[types.Uint8], func(s *State, v *Term) {
					out = append(out, Exit{st: s, ret: []*Term{v}})
				})
				return out
			}
		}
	}
}

// encTerm is the encoding object a method is called on.
func encTerm(e *Engine, c *callCtx, tag string) *Term {
	r := c.args[0]
	if r.op == OPtr || r.op == OFld || r.op == OIdx {
		r = e.load(c.st, r)
	}
	if r.op == OApp && r.name == "deref" {
		r = r.args[0]
	}
	if r.op == OStruct && len(r.args) > 0 {
		// the dereferenced encoding: all its fields are projections of the same value
		var f *Term
		r.contains(func(x *Term) bool {
			if x.op == OApp && x.name == tag {
				f = x
				return true
			}
			return false
		})
		if f != nil {
			return f
		}
		return mkApp(tag, nil, mkApp("enc", nil, r), mkInt('='))
	}
	if r.op == OApp && r.name == tag {
		return r
	}
	return mkApp(tag, nil, mkApp("enc", nil, r), mkInt('='))
}

// a hash object holds struct{data, kind, key}
func (e *Engine) newHash(st *State, kind string, key *Term) *Term {
	if key == nil {
		key = mkSeq()
	}
	p := e.alloc(st, types.NewStruct(nil, nil), mkStruct(mkSeq(), mkLit(kind), key), "hash")
	return mkIface(hashType, p)
}

func hashTerm(kind string, key, data *Term) *Term {
	if strings.HasPrefix(kind, "hmac") {
		return bytesAtom(kind, key, data)
	}
	return bytesAtom(kind, data)
}

func hashModels(m map[string]modelFn) {
	for n, k := range map[string]string{"crypto/sha256.New": "sha256", "crypto/sha256.New224": "sha224", "crypto/sha512.New": "sha512", "crypto/sha1.New": "sha1", "crypto/md5.New": "md5",
		"crypto/sha512.New384": "sha384", "crypto/sha512.New512_256": "sha512_256"} {
		k := k
		m[n] = func(e *Engine, c *callCtx) []Exit { return one(c, e.newHash(c.st, k, nil)) }
	}
	for n, k := range map[string]string{"crypto/sha256.Sum256": "sha256", "crypto/sha256.Sum224": "sha224", "crypto/sha512.Sum512": "sha512", "crypto/sha1.Sum": "sha1", "crypto/md5.Sum": "md5",
		"crypto/sha512.Sum384": "sha384", "crypto/sha512.Sum512_256": "sha512_256"} {
		k := k
		m[n] = func(e *Engine, c *callCtx) []Exit { return one(c, hashTerm(k, nil, c.seq(e, 0))) }
	}
	m["crypto/hmac.New"] = func(e *Engine, c *callCtx) []Exit {
		kind := "hmac?"
		if c.args[0].op == OFunc {
			switch c.args[0].fn.String() {
			case "crypto/sha512.New":
				kind = "hmac512"
			default:
				kind = "hmac:" + c.args[0].fn.String()
			}
		}
		return one(c, e.newHash(c.st, kind, c.seq(e, 1)))
	}
	m["crypto/hmac.Equal"] = m["bytes.Equal"]
	get := func(e *Engine, c *callCtx) (p *Term, kind string, v *Term) {
		p = c.args[0]
		v = e.load(c.st, p)
		kind, _ = seqConst(v.args[1])
		return
	}
	m["fake:hash#.Write"] = func(e *Engine, c *callCtx) []Exit {
		p, _, v := get(e, c)
		s := c.seq(e, 1)
		e.store(c.st, p, mkStruct(mkSeq(v.args[0], s), v.args[1], v.args[2]))
		return one(c, seqLen(s), mkNil(nil))
	}
	m["fake:hash#.Sum"] = func(e *Engine, c *callCtx) []Exit {
		_, k, v := get(e, c)
		var out []Exit
		e.appendSeq(c.st, e.asSlice(c.args[1], types.NewSlice(types.Typ[types.Uint8])), hashTerm(k, v.args[2], c.st.canon(v.args[0])), types.Typ[types.Uint8], func(s *State, r *Term) {
			out = append(out, Exit{st: s, ret: []*Term{r}})
		})
		return out
	}
	m["fake:hash#.Reset"] = func(e *Engine, c *callCtx) []Exit {
		p, _, v := get(e, c)
		e.store(c.st, p, mkStruct(mkSeq(), v.args[1], v.args[2]))
		return one(c)
	}
	m["fake:hash#.Size"] = func(e *Engine, c *callCtx) []Exit {
		_, k, v := get(e, c)
		return one(c, seqLen(hashTerm(k, v.args[2], v.args[0])))
	}
	m["io.WriteString"] = func(e *Engine, c *callCtx) []Exit {
		w := c.args[0]
		if w.op == OIface && w.typ == hashType {
			d := *c
			d.args = []*Term{w.args[0], c.args[1]}
			return m["fake:hash#.Write"](e, &d)
		}
		return e.external(c)
	}
	m["github.com/sigurn/crc16.MakeTable"] = func(e *Engine, c *callCtx) []Exit {
		return one(c, mkApp("crc16table", nil, e.snap(c.st, c.args[0])))
	}
	m["github.com/sigurn/crc16.Checksum"] = func(e *Engine, c *callCtx) []Exit {
		return one(c, mkAppR("crc16", big0, big.NewInt(65535), c.args[1], c.seq(e, 0)))
	}
}

func bigModels(m map[string]modelFn) {
	r := "(*math/big.Int)"
	set := func(f func(e *Engine, c *callCtx) *Term) modelFn {
		return func(e *Engine, c *callCtx) []Exit {
			v := f(e, c)
			if v == nil {
				return nil
			}
			if !c.need(e, mkNot(e.isNil(c.args[0])), "nil big.Int") {
				return nil
			}
			e.store(c.st, e.resolve(c.args[0], bigType(c)), v)
			return one(c, c.args[0])
		}
	}
	val := func(e *Engine, c *callCtx, i int) *Term { return e.bigVal(c.st, c.args[i], bigType(c)) }
	m[r+".SetBytes"] = set(func(e *Engine, c *callCtx) *Term { return beInt(c.seq(e, 1)) })
	m[r+".Set"] = set(func(e *Engine, c *callCtx) *Term { return val(e, c, 1) })
	m[r+".SetInt64"] = set(func(e *Engine, c *callCtx) *Term { return c.args[1] })
	m[r+".SetUint64"] = set(func(e *Engine, c *callCtx) *Term { return c.args[1] })
	m[r+".Add"] = set(func(e *Engine, c *callCtx) *Term { return tAdd(val(e, c, 1), val(e, c, 2)) })
	m[r+".Sub"] = set(func(e *Engine, c *callCtx) *Term { return tSub(val(e, c, 1), val(e, c, 2)) })
	m[r+".Mul"] = set(func(e *Engine, c *callCtx) *Term { return tMul(val(e, c, 1), val(e, c, 2)) })
	m["math/big.NewInt"] = func(e *Engine, c *callCtx) []Exit {
		t := c.sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		return one(c, e.alloc(c.st, t, c.args[0], "big.Int"))
	}
	m[r+".Mod"] = set(func(e *Engine, c *callCtx) *Term {
		x, y := val(e, c, 1), val(e, c, 2)
		if !c.need(e, mkNot(mkEqInt(y, t0)), "big.Int modulus zero") {
			return nil
		}
		var hi *big.Int
		if y.op == OInt && y.val.Sign() > 0 {
			hi = new(big.Int).Sub(y.val, big1)
			if lo, h := c.st.bounds(x); lo != nil && h != nil && lo.Sign() >= 0 && h.Cmp(y.val) < 0 {
				return x
			}
		}
		return mkAppR("mod", big0, hi, x, y)
	})
	cmp := func(abs bool) modelFn {
		return func(e *Engine, c *callCtx) []Exit {
			a, b := val(e, c, 0), val(e, c, 1)
			return cmp3(c, a, b)
		}
	}
	m[r+".Cmp"], m[r+".CmpAbs"] = cmp(false), cmp(true)
	m[r+".Sign"] = func(e *Engine, c *callCtx) []Exit { return cmp3(c, val(e, c, 0), t0) }
	m[r+".IsInt64"] = func(e *Engine, c *callCtx) []Exit {
		v := val(e, c, 0)
		lo, hi := typeRange(types.Typ[types.Int64])
		return one(c, mkAnd(mkLe(mkBig(lo), v), mkLe(v, mkBig(hi))))
	}
	m[r+".BitLen"] = func(e *Engine, c *callCtx) []Exit {
		v := val(e, c, 0)
		_, hi := c.st.bounds(v)
		var h *big.Int
		if hi != nil {
			h = big.NewInt(int64(hi.BitLen()))
		}
		return one(c, mkAppR("bitlen", big0, h, v))
	}
	m[r+".Bytes"] = func(e *Engine, c *callCtx) []Exit {
		v := val(e, c, 0)
		a := intern(Term{op: OApp, name: "minbytes", args: []*Term{v}, typ: types.NewSlice(types.Typ[types.Uint8])})
		_, hi := c.st.bounds(v)
		if hi != nil {
			c.st.assume(mkLe(atomLen(a), mkInt(int64((hi.BitLen()+7)/8))))
		}
		return one(c, e.freshBytes(c.st, seqOfAtom(a), "big.Bytes"))
	}
	m[r+".FillBytes"] = func(e *Engine, c *callCtx) []Exit {
		v := val(e, c, 0)
		sl := e.asSlice(c.args[1], c.sig.Params().At(0).Type())
		base, off, n, _, _ := sliceParts(sl)
		k, ok := c.st.constOf(n)
		if !ok {
			e.havocReach(c.st, sl, "FillBytes", 0)
			return one(c, sl)
		}
		if !c.need(e, mkLt(v, mkBig(pow2(int(8*k)))), "FillBytes buffer too small") {
			return nil
		}
		if base != nil {
			e.store(c.st, base, e.seqStoreRange(c.st, e.load(c.st, base), off, beFix(v, k)))
		}
		return one(c, sl)
	}
	// secp256k1
	b := "github.com/btcsuite/btcd/btcec"
	m[b+".S256"] = func(e *Engine, c *callCtx) []Exit { return one(c, e.s256(c.sig.Results().At(0).Type())) }
	kc := "(*" + b + ".KoblitzCurve)"
	point := func(e *Engine, c *callCtx, tag string, args ...*Term) []*Term {
		t := c.sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		return []*Term{e.alloc(c.st, t, mkAppR(tag+".x", big0, nil, args...), "x"), e.alloc(c.st, t, mkAppR(tag+".y", big0, nil, args...), "y")}
	}
	m[kc+".ScalarBaseMult"] = func(e *Engine, c *callCtx) []Exit {
		n := c.st.canon(beInt(c.seq(e, 1)))
		ps := point(e, c, "G*", n)
		if c.st.decide(mkLe(t1, n)) == 1 && c.st.decide(mkLt(n, mkBig(secpN))) == 1 {
			// a finite point; no point of the curve has a zero coordinate
			for _, t := range []string{"G*.x", "G*.y"} {
				c.st.assume(mkLe(t1, mkAppR(t, big0, nil, n)))
			}
		}
		return one(c, ps...)
	}
	m[kc+".Add"] = func(e *Engine, c *callCtx) []Exit {
		t := c.sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		v := make([]*Term, 4)
		for i := range v {
			v[i] = e.bigVal(c.st, c.args[i+1], t)
		}
		p, q := mkTuple(v[0], v[1]), mkTuple(v[2], v[3])
		if p.id > q.id {
			p, q = q, p
		}
		return one(c, point(e, c, "addP", p, q)...)
	}
	m[kc+".Params"] = func(e *Engine, c *callCtx) []Exit {
		s := e.load(c.st, e.resolve(c.args[0], types.NewStruct(nil, nil)))
		if s.op == OStruct {
			return one(c, s.args[0])
		}
		return e.external(c)
	}
	m["(*"+b+".PublicKey).SerializeCompressed"] = func(e *Engine, c *callCtx) []Exit {
		pt := c.sig.Recv().Type().Underlying().(*types.Pointer).Elem()
		v := e.load(c.st, e.resolve(c.args[0], pt))
		if v.op != OStruct {
			return e.external(c)
		}
		bt := types.NewStruct(nil, nil)
		x, y := e.bigVal(c.st, v.args[1], bt), e.bigVal(c.st, v.args[2], bt)
		return one(c, e.freshBytes(c.st, serP(x, y), "serialized"))
	}
	m[b+".ParsePubKey"] = func(e *Engine, c *callCtx) []Exit {
		s := c.seq(e, 0)
		pt := c.sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		mk := func(st *State, x, y *Term) *Term {
			bt := types.NewStruct(nil, nil)
			return e.alloc(st, pt, mkStruct(mkIface(c.sig.Params().At(1).Type(), c.args[1]), e.alloc(st, bt, x, "X"), e.alloc(st, bt, y, "Y")), "pubkey")
		}
		if a := c.whole(s, "serP"); a != nil {
			return one(c, mk(c.st, a.args[0], a.args[1]), mkNil(nil))
		}
		return c.split(mkPred("pubkeyok", s), func(st *State) []*Term {
			st.assume(mkOr(mkEqInt(seqLen(s), mkInt(33)), mkEqInt(seqLen(s), mkInt(65))))
			return []*Term{mk(st, mkAppR("pub.x", big0, nil, s), mkAppR("pub.y", big0, nil, s)), mkNil(nil)}
		}, func(st *State) []*Term { return []*Term{mkNil(nil), mkErr("pubkey")} })
	}
	m[b+".PrivKeyFromBytes"] = func(e *Engine, c *callCtx) []Exit {
		s := c.seq(e, 1)
		pt := c.sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		qt := c.sig.Results().At(1).Type().Underlying().(*types.Pointer).Elem()
		return one(c, e.alloc(c.st, pt, mkApp("ecpriv", nil, beInt(s)), "ecpriv"), e.alloc(c.st, qt, mkApp("ecpub", nil, beInt(s)), "ecpub"))
	}
	m["(*"+b+".PrivateKey).Sign"] = func(e *Engine, c *callCtx) []Exit {
		k, h := e.snap(c.st, c.args[0]), c.seq(e, 1)
		pt := c.sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		return c.split(mkPred("ecsignok", k, h), func(st *State) []*Term {
			return []*Term{e.alloc(st, pt, mkApp("ecsig", nil, k, h), "sig"), mkNil(nil)}
		}, func(st *State) []*Term { return []*Term{mkNil(nil), mkErr("ecsign")} })
	}
	m["(*"+b+".Signature).Serialize"] = func(e *Engine, c *callCtx) []Exit {
		return one(c, e.freshBytes(c.st, bytesAtom("ecsigser", e.snap(c.st, c.args[0])), "sigbytes"))
	}
	for _, n := range []string{"ParseSignature", "ParseDERSignature"} {
		n := n
		m[b+"."+n] = func(e *Engine, c *callCtx) []Exit {
			s := c.seq(e, 0)
			pt := c.sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
			return c.split(mkPred("sigok:"+n, s), func(st *State) []*Term {
				return []*Term{e.alloc(st, pt, mkApp("parsedsig", nil, s), "sig"), mkNil(nil)}
			}, func(st *State) []*Term { return []*Term{mkNil(nil), mkErr("sig")} })
		}
	}
	m["(*"+b+".Signature).Verify"] = func(e *Engine, c *callCtx) []Exit {
		return one(c, mkPred("ecverify", e.snap(c.st, c.args[0]), c.seq(e, 1), e.snap(c.st, c.args[2])))
	}
	// ed25519
	for _, x := range []string{"golang.org/x/crypto/ed25519", "crypto/ed25519"} {
		m[x+".Sign"] = func(e *Engine, c *callCtx) []Exit {
			k := c.seq(e, 0)
			if !c.need(e, mkEqInt(seqLen(k), mkInt(64)), "ed25519 private key of the wrong length") {
				return nil
			}
			return one(c, e.freshBytes(c.st, bytesAtom("edsign", k, c.seq(e, 1)), "edsig"))
		}
		m[x+".Verify"] = func(e *Engine, c *callCtx) []Exit {
			k := c.seq(e, 0)
			if !c.need(e, mkEqInt(seqLen(k), mkInt(32)), "ed25519 public key of the wrong length") {
				return nil
			}
			return one(c, mkPred("edverify", k, c.seq(e, 1), c.seq(e, 2)))
		}
		m[x+".GenerateKey"] = func(e *Engine, c *callCtx) []Exit {
			id := mkInt(int64(e.freshID()))
			return c.split(mkPred("genok", id), func(st *State) []*Term {
				return []*Term{e.freshBytes(st, mkSeq(mkSub(intern(Term{op: OApp, name: "edpub", args: []*Term{id}}), t0, mkInt(32))), "edpub"),
					e.freshBytes(st, mkSeq(mkSub(intern(Term{op: OApp, name: "edpriv", args: []*Term{id}}), t0, mkInt(64))), "edpriv"), mkNil(nil)}
			}, func(st *State) []*Term { return []*Term{mkNil(nil), mkNil(nil), mkErr("gen")} })
		}
		m["("+x+".PrivateKey).Public"] = func(e *Engine, c *callCtx) []Exit {
			k := c.seq(e, 0)
			if !c.need(e, mkLe(mkInt(64), seqLen(k)), "ed25519 private key too short") {
				return nil
			}
			t := e.edPubType(x)
			v := e.freshBytes(c.st, e.subSeq(c.st, k, mkInt(32), mkInt(32)), "edpub")
			if t == nil {
				return e.external(c)
			}
			return one(c, mkIface(t, v))
		}
	}
}

func (e *Engine) edPubType(pkg string) types.Type {
	for _, p := range []string{"crypto/ed25519", pkg} {
		if q := e.p.prog.ImportedPackage(p); q != nil {
			if o := q.Pkg.Scope().Lookup("PublicKey"); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

func serP(x, y *Term) *Term { return bytesAtom("serP", x, y) }

func cmp3(c *callCtx, a, b *Term) []Exit {
	var out []Exit
	l, ge := fork(c.st, mkLt(a, b))
	if l != nil {
		out = append(out, Exit{st: l, ret: []*Term{mkInt(-1)}})
	}
	if ge != nil {
		eq, g := fork(ge, mkEqInt(a, b))
		if eq != nil {
			out = append(out, Exit{st: eq, ret: []*Term{t0}})
		}
		if g != nil {
			out = append(out, Exit{st: g, ret: []*Term{t1}})
		}
	}
	return out
}

var s256Ptr *Term

// s256 is the curve object; only its parameters are described.
func (e *Engine) s256(t types.Type) *Term {
	if s256Ptr != nil {
		return s256Ptr
	}
	kt := t.Underlying().(*types.Pointer).Elem()
	st := kt.Underlying().(*types.Struct)
	fs := make([]*Term, st.NumFields())
	for i := range fs {
		f := st.Field(i)
		fs[i] = e.materialize(mkApp("curvefield", f.Type(), mkInt(int64(i))), f.Type())
		if f.Name() == "CurveParams" {
			pt := f.Type().Underlying().(*types.Pointer).Elem()
			ps := pt.Underlying().(*types.Struct)
			gs := make([]*Term, ps.NumFields())
			for j := range gs {
				g := ps.Field(j)
				gs[j] = e.materialize(mkApp("curveparam", g.Type(), mkInt(int64(j))), g.Type())
				switch g.Name() {
				case "N":
					o := e.newObj(types.NewStruct(nil, nil), "N")
					e.baseHeap[o] = mkBig(secpN)
					gs[j] = mkPtr(o)
				case "BitSize":
					gs[j] = mkInt(256)
				}
			}
			o := e.newObj(pt, "CurveParams")
			e.baseHeap[o] = mkStruct(gs...)
			fs[i] = mkPtr(o)
		}
	}
	o := e.newObj(kt, "S256")
	e.baseHeap[o] = mkStruct(fs...)
	s256Ptr = mkPtr(o)
	return s256Ptr
}

func reflectModels(m map[string]modelFn) {
	// values of reflect.Type are described by the Go type where it is known
	rt := rtType
	m["reflect.TypeOf"] = func(e *Engine, c *callCtx) []Exit {
		v := c.args[0]
		if v.op == ONil {
			return one(c, mkNil(nil))
		}
		if v.op == OIface {
			return one(c, mkIface(rt, intern(Term{op: OApp, name: "rtype", str: types.TypeString(v.typ, nil), typ: v.typ})))
		}
		var out []Exit
		y, n := fork(c.st, e.isNil(v))
		if y != nil {
			out = append(out, Exit{st: y, ret: []*Term{mkNil(nil)}})
		}
		if n != nil {
			out = append(out, Exit{st: n, ret: []*Term{mkIface(rt, mkApp("rtypeof", nil, v))}})
		}
		return out
	}
	known := func(t *Term) types.Type {
		if t.op == OApp && t.name == "rtype" {
			return t.typ
		}
		return nil
	}
	m["fake:rtype#.Kind"] = func(e *Engine, c *callCtx) []Exit {
		if t := known(c.args[0]); t != nil {
			return one(c, mkInt(reflectKind(t)))
		}
		return one(c, mkAppR("rkind", big0, big.NewInt(26), c.args[0]))
	}
	m["fake:rtype#.Elem"] = func(e *Engine, c *callCtx) []Exit {
		if t := known(c.args[0]); t != nil {
			var el types.Type
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				el = u.Elem()
			case *types.Slice:
				el = u.Elem()
			case *types.Array:
				el = u.Elem()
			}
			if el != nil {
				return one(c, mkIface(rt, intern(Term{op: OApp, name: "rtype", str: types.TypeString(el, nil), typ: el})))
			}
			c.need(e, tFalse, "reflect Elem of a type without elements")
			return nil
		}
		k := mkAppR("rkind", big0, big.NewInt(26), c.args[0])
		// only pointers (22), interfaces (20), arrays, channels, maps and slices have elements
		if !c.need(e, mkOr(mkEqInt(k, mkInt(22)), mkEqInt(k, mkInt(20)), mkEqInt(k, mkInt(17)), mkEqInt(k, mkInt(18)), mkEqInt(k, mkInt(21)), mkEqInt(k, mkInt(23))), "reflect Elem of a type without elements") {
			return nil
		}
		return one(c, mkIface(rt, mkApp("relem", nil, c.args[0])))
	}
	m["fake:rtype#.Name"] = func(e *Engine, c *callCtx) []Exit {
		if t := known(c.args[0]); t != nil {
			switch u := t.(type) {
			case *types.Named:
				return one(c, mkLit(u.Obj().Name()))
			case *types.Basic:
				return one(c, mkLit(u.Name()))
			}
			return one(c, mkSeq())
		}
		return one(c, strAtom("rname", c.args[0]))
	}
	// the chain that makes a new zero value of an object's type: ValueOf, Indirect, Type, New, Interface
	m["reflect.ValueOf"] = func(e *Engine, c *callCtx) []Exit { return one(c, mkApp("rv", nil, c.args[0])) }
	rvBase := func(v *Term) *Term { // the interface value behind a reflect.Value
		for v.op == OApp && (v.name == "rvind" || v.name == "rv") {
			v = v.args[0]
		}
		return v
	}
	m["(reflect.Value).Kind"] = func(e *Engine, c *callCtx) []Exit {
		v := c.args[0]
		if v.op == OApp && v.name == "rv" && v.args[0].op == OIface {
			return one(c, mkInt(reflectKind(v.args[0].typ)))
		}
		if v.op == OApp && v.name == "rv" && v.args[0].op == ONil {
			return one(c, t0)
		}
		if v.op == OApp && v.name == "rv" { // the kind of the type the value has
			return one(c, mkAppR("rkind", big0, big.NewInt(26), mkApp("rtypeof", nil, v.args[0])))
		}
		return one(c, mkAppR("rvkind", big0, big.NewInt(26), v))
	}
	m["reflect.Indirect"] = func(e *Engine, c *callCtx) []Exit { return one(c, mkApp("rvind", nil, c.args[0])) }
	m["(reflect.Value).Elem"] = m["reflect.Indirect"]
	m["(reflect.Value).Type"] = func(e *Engine, c *callCtx) []Exit {
		b := rvBase(c.args[0])
		if !c.need(e, mkNot(e.isNil(b)), "reflect Type of a nil value") {
			return nil
		}
		if b.op == OIface {
			t := b.typ
			for v := c.args[0]; v.op == OApp && v.name == "rvind"; v = v.args[0] {
				if p, ok := t.Underlying().(*types.Pointer); ok {
					t = p.Elem()
				}
			}
			return one(c, mkIface(rt, intern(Term{op: OApp, name: "rtype", str: types.TypeString(t, nil), typ: t})))
		}
		if v := c.args[0]; v.op == OApp && v.name == "rv" {
			return one(c, mkIface(rt, mkApp("rtypeof", nil, v.args[0])))
		}
		return one(c, mkIface(rt, mkApp("rvtype", nil, c.args[0])))
	}
	m["reflect.New"] = func(e *Engine, c *callCtx) []Exit {
		if c.args[0].op == OIface {
			return one(c, mkApp("rvnew", nil, c.args[0].args[0]))
		}
		return one(c, mkApp("rvnew", nil, c.args[0]))
	}
	m["(reflect.Value).Interface"] = func(e *Engine, c *callCtx) []Exit {
		v := c.args[0]
		if v.op == OApp && v.name == "rvnew" {
			t := v.args[0]
			if t.name == "rtype" {
				p := e.alloc(c.st, t.typ, zeroOf(t.typ), "reflect.New")
				return one(c, mkIface(types.NewPointer(t.typ), p))
			}
			isPtr := func(x *Term) int {
				return c.st.decide(mkEqInt(mkAppR("rkind", big0, big.NewInt(26), mkApp("rtypeof", nil, x)), mkInt(22)))
			}
			switch {
			case t.name == "rvtype" && t.args[0].op == OApp && t.args[0].name == "rvind" && t.args[0].args[0].op == OApp && t.args[0].args[0].name == "rv":
				// the pointer is followed exactly when there is one
				return one(c, mkApp("newof", nil, t.args[0].args[0].args[0]))
			case t.name == "rtypeof" && isPtr(t.args[0]) == -1:
				return one(c, mkApp("newof", nil, t.args[0]))
			case t.name == "relem" && t.args[0].op == OApp && t.args[0].name == "rtypeof" && isPtr(t.args[0].args[0]) == 1:
				return one(c, mkApp("newof", nil, t.args[0].args[0]))
			}
		}
		return one(c, mkApp("rviface", nil, v))
	}
	for _, n := range []string{"Kind", "Elem", "Name", "String"} {
		n := n
		m["invoke:reflect.Type."+n] = func(e *Engine, c *callCtx) []Exit {
			c.need(e, mkNot(e.isNil(c.args[0])), "method of a nil reflect.Type")
			return m["fake:rtype#."+n](e, c)
		}
	}
	// algorithms not known statically: their methods are functions of their arguments
	al := "invoke:" + modPath + "/pkg/signature.Algorithm."
	for _, n := range []string{"PublicKeySize", "PrivateKeySize", "SignatureSize", "Public", "Sign", "Verify", "Generate"} {
		n := n
		pm := pureModel("al:"+n, nil, nil)
		m[al+n] = func(e *Engine, c *callCtx) []Exit {
			if !c.need(e, mkNot(e.isNil(c.args[0])), "method of a nil algorithm") {
				return nil
			}
			c.args[0] = stripNew(c.args[0])
			return pm(e, c)
		}
	}
	m["fake:rtype#.String"] = func(e *Engine, c *callCtx) []Exit { return one(c, strAtom("rstring", c.args[0])) }
}

// stripNew: a new value of an algorithm's type stands for the same algorithm.
func stripNew(v *Term) *Term {
	for v.op == OApp && v.name == "newof" {
		v = v.args[0]
	}
	return v
}

func reflectKind(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return map[types.BasicKind]int64{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6, types.Uint: 7, types.Uint8: 8,
			types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12, types.Float32: 13, types.Float64: 14, types.String: 24}[u.Kind()]
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

// message pack: "mp:<kind>" applications are the encoded bytes of a value
var mpMax = map[string]int64{"uint8": 2, "int8": 2, "uint16": 3, "int16": 3, "uint32": 5, "int32": 5, "uint64": 9, "int64": 9, "int": 9, "uint": 9, "array": 5, "map": 5, "bool": 1, "nil": 1, "float64": 9, "float32": 5, "byte": 2}

func msgpModels(m map[string]modelFn) {
	p := "github.com/tinylib/msgp/msgp"
	m[p+".Require"] = func(e *Engine, c *callCtx) []Exit {
		b := e.asSlice(c.args[0], c.sig.Params().At(0).Type())
		base, off, n, cp, _ := sliceParts(b)
		_ = off
		// same content; capacity for at least sz more bytes; never in place of shared memory
		sz := c.args[1]
		if base == nil {
			cpn := mkSymR(fmt.Sprintf("cap#%d", e.freshID()), nil, big0, maxLen)
			c.st.assume(mkLe(sz, cpn))
			c.st.assume(mkLe(t0, cpn))
			pp := e.alloc(c.st, types.NewArray(types.Typ[types.Uint8], -1), mkSeq(mkRep(t0, cpn, true)), "Require")
			return one(c, mkSlice(pp, t0, t0, cpn))
		}
		var out []Exit
		y, no := fork(c.st, mkLe(sz, tSub(cp, n)))
		if y != nil {
			out = append(out, Exit{st: y, ret: []*Term{b}})
		}
		if no != nil {
			cpn := mkSymR(fmt.Sprintf("cap#%d", e.freshID()), nil, big0, maxLen)
			no.assume(mkLe(tAdd(n, sz), cpn))
			no.assume(mkLe(n, cpn))
			content := mkSeq(e.seqOf(no, b), mkRep(t0, tSub(cpn, n), true))
			pp := e.alloc(no, types.NewArray(types.Typ[types.Uint8], -1), content, "Require")
			out = append(out, Exit{st: no, ret: []*Term{mkSlice(pp, t0, n, cpn)}})
		}
		return out
	}
	kinds := map[string]string{"Uint8": "uint8", "Uint16": "uint16", "Uint32": "uint32", "Uint64": "uint64", "Int8": "int8", "Int16": "int16", "Int32": "int32", "Int64": "int64", "Int": "int", "Uint": "uint",
		"Bool": "bool", "Byte": "byte", "ArrayHeader": "array", "MapHeader": "map", "String": "string", "Bytes": "bytes", "Float64": "float64"}
	for n, k := range kinds {
		k := k
		value := func(e *Engine, c *callCtx, i int) *Term {
			switch k {
			case "string", "bytes":
				return c.seq(e, i)
			}
			return c.st.canon(c.args[i])
		}
		m[p+".Append"+n] = func(e *Engine, c *callCtx) []Exit {
			v := value(e, c, 1)
			var add *Term
			if k == "array" && v.op == OInt && v.val.Sign() >= 0 && v.val.Cmp(big.NewInt(16)) < 0 {
				add = mkLit(string([]byte{0x90 | byte(v.val.Int64())}))
			} else {
				add = mpEnc(k, v)
			}
			var out []Exit
			e.appendSeq(c.st, e.asSlice(c.args[0], c.sig.Params().At(0).Type()), add, types.Typ[types.Uint8], func(s *State, r *Term) {
				out = append(out, Exit{st: s, ret: []*Term{r}})
			})
			return out
		}
		m[p+".Read"+n+"Bytes"] = func(e *Engine, c *callCtx) []Exit {
			b := e.asSlice(c.args[0], c.sig.Params().At(0).Type())
			base, off, ln, cp, _ := sliceParts(b)
			s := c.seq(e, 0)
			rt := c.sig.Results().At(0).Type()
			rest := func(st *State, n *Term) *Term {
				if base == nil {
					return mkNil(nil)
				}
				return mkSlice(base, tAdd(off, n), tSub(ln, n), tSub(cp, n))
			}
			give := func(st *State, v *Term) *Term {
				if k == "bytes" {
					return e.readInto(st, c, v)
				}
				return v
			}
			// the bytes were produced by the matching append
			if len(s.args) > 0 {
				g := s.args[0]
				if g.op == OSub && g.args[1] == t0 && g.args[0].op == OApp && g.args[0].name == "mp:"+k && g.args[2] == atomLen(g.args[0]) {
					return one(c, give(c.st, g.args[0].args[0]), rest(c.st, atomLen(g.args[0])), mkNil(nil))
				}
				if k == "array" && g.op == OLit && g.str[0]&0xf0 == 0x90 {
					return one(c, mkInt(int64(g.str[0]&15)), rest(c.st, t1), mkNil(nil))
				}
			}
			return c.split(mkPred("mpok:"+k, s), func(st *State) []*Term {
				used := mkAppR("mpused:"+k, big1, maxLen, s)
				st.assume(mkLe(used, ln))
				var v *Term
				switch k {
				case "string":
					v = strAtom("mpval:"+k, s)
				case "bytes":
					a := bytesAtom("mpval:"+k, s)
					st.assume(mkLt(seqLen(a), used))
					v = give(st, a)
				default:
					v = e.materialize(mkApp("mpval:"+k, rt, s), rt)
				}
				return []*Term{v, rest(st, used), mkNil(nil)}
			}, func(st *State) []*Term {
				z := zeroOf(rt)
				if k == "bytes" {
					z = mkNil(nil)
				}
				return []*Term{z, b, mkErr("msgp:" + k)}
			})
		}
		m["(*"+p+".Writer).Write"+n] = streamWrite("write:" + k)
		m["(*"+p+".Reader).Read"+n] = streamRead("read:" + k)
	}
	m["(*"+p+".Writer).Append"] = streamWrite("write:raw")
	m["(*"+p+".Writer).WriteStringFromBytes"] = streamWrite("write:string")
	m[p+".AppendStringFromBytes"] = m[p+".AppendString"]
	m[p+".WrapError"] = func(e *Engine, c *callCtx) []Exit {
		if c.st.decide(e.isNil(c.args[0])) == 1 {
			return one(c, c.args[0])
		}
		return c.split(mkNot(e.isNil(c.args[0])), func(*State) []*Term { return []*Term{mkErr("wrap", c.args[0])} }, func(*State) []*Term { return []*Term{mkNil(nil)} })
	}
}

// readInto gives the destination semantics of ReadBytesBytes(b, scratch): scratch is reused when large enough.
func (e *Engine) readInto(st *State, c *callCtx, v *Term) *Term {
	if len(c.args) > 1 {
		if sl := e.asSlice(c.args[1], c.sig.Params().At(1).Type()); sl.op == OSlice {
			st.events = append(st.events, event{kind: "appendshare", args: []*Term{sl.args[0], sl.args[0]}})
			base, off, _, cp, _ := sliceParts(sl)
			if st.decide(mkLe(seqLen(v), cp)) == 1 {
				e.store(st, base, e.seqStoreRange(st, e.load(st, base), off, v))
				return mkSlice(base, off, seqLen(v), cp)
			}
			if st.decide(mkLe(seqLen(v), cp)) == 0 {
				// unknown: the old memory may or may not be used; forget it
				e.havocReach(st, sl, "ReadBytes", 0)
			}
		}
	}
	return e.freshBytes(st, v, "ReadBytes")
}

func mpEnc(k string, v *Term) *Term { return bytesAtom("mp:"+k, v) }

func streamWrite(kind string) modelFn {
	return func(e *Engine, c *callCtx) []Exit {
		var as []*Term
		for _, a := range c.args[1:] {
			as = append(as, c.st.canon(e.snap(c.st, a)))
		}
		return c.split(mkPred("streamok", mkInt(int64(e.freshID()))), func(st *State) []*Term {
			st.events = append(st.events, event{kind: kind, args: as, pos: e.p.pos(c.instr.Pos())})
			return []*Term{mkNil(nil)}
		}, func(st *State) []*Term {
			st.events = append(st.events, event{kind: "failed:" + kind, args: as, pos: e.p.pos(c.instr.Pos())})
			return []*Term{mkErr("stream")}
		})
	}
}

func streamRead(kind string) modelFn {
	return func(e *Engine, c *callCtx) []Exit {
		if e.useTape {
			return e.tapeRead(c, kind)
		}
		id := mkInt(int64(e.freshID()))
		rt := c.sig.Results().At(0).Type()
		return c.split(mkPred("streamok", id), func(st *State) []*Term {
			t := mkApp("streamval", rt, id)
			var v *Term
			if _, ok := rt.Underlying().(*types.Slice); ok {
				v = e.freshBytes(st, seqOfAtom(t), "ReadBytes")
			} else {
				v = e.materialize(t, rt)
			}
			st.events = append(st.events, event{kind: kind, args: []*Term{t}, pos: e.p.pos(c.instr.Pos())})
			return []*Term{v, mkNil(nil)}
		}, func(st *State) []*Term {
			st.events = append(st.events, event{kind: "failed:" + kind, pos: e.p.pos(c.instr.Pos())})
			return []*Term{zeroOf(rt), mkErr("stream")}
		})
	}
}

func miscModels(m map[string]modelFn) {
	m["errors.New"] = func(e *Engine, c *callCtx) []Exit {
		return one(c, mkErr(fmt.Sprintf("new@%s", e.p.pos(c.instr.Pos())), c.seq(e, 0)))
	}
	m["github.com/pkg/errors.New"] = m["errors.New"]
	m["fmt.Errorf"] = func(e *Engine, c *callCtx) []Exit {
		return one(c, mkErr(fmt.Sprintf("errorf@%s", e.p.pos(c.instr.Pos())), c.seq(e, 0), e.snap(c.st, c.args[1])))
	}
	m["github.com/pkg/errors.Errorf"] = m["fmt.Errorf"]
	wrap := func(e *Engine, c *callCtx) []Exit {
		return c.split(e.isNil(c.args[0]), func(*State) []*Term { return []*Term{mkNil(nil)} }, func(st *State) []*Term {
			as := []*Term{c.args[0]}
			for _, a := range c.args[1:] {
				as = append(as, e.snap(st, a))
			}
			return []*Term{mkErr("wrap", as...)}
		})
	}
	for _, n := range []string{"Wrap", "Wrapf", "WithMessage", "WithMessagef", "WithStack"} {
		m["github.com/pkg/errors."+n] = wrap
	}
	m["github.com/pkg/errors.Cause"] = pureModel("errcause", nil, nil)
	m["fake:error#.Error"] = func(e *Engine, c *callCtx) []Exit { return one(c, strAtom("errtext", c.args[0])) }
	m["invoke:error.Error"] = func(e *Engine, c *callCtx) []Exit { return one(c, strAtom("errtext", c.args[0])) }
	m["errors.Is"] = func(e *Engine, c *callCtx) []Exit { return one(c, mkPred("errors.Is", c.args[0], c.args[1])) }
	for _, n := range []string{"fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln"} {
		m[n] = pureModel(n, nil, nil)
	}
	opaqueFormat := m["fmt.Sprintf"]
	m["fmt.Sprintf"] = func(e *Engine, c *callCtx) []Exit {
		if r := e.format(c); r != nil {
			return one(c, r)
		}
		return opaqueFormat(e, c)
	}
	m["io.ReadFull"] = func(e *Engine, c *callCtx) []Exit {
		b := e.asSlice(c.args[1], c.sig.Params().At(1).Type())
		base, off, n, _, _ := sliceParts(b)
		id := e.freshID()
		if !c.need(e, mkNot(e.isNil(c.args[0])), "nil reader") {
			return nil
		}
		rd := c.args[0]
		fill := func(st *State, tag string) {
			if base == nil {
				return
			}
			s := intern(Term{op: OApp, name: "havocN", args: []*Term{mkInt(int64(id)), n}, str: tag, typ: types.NewSlice(types.Typ[types.Uint8])})
			e.store(st, base, e.seqStoreRange(st, e.load(st, base), off, mkSeq(mkSub(s, t0, n))))
		}
		return c.split(mkPred("readok", mkInt(int64(id))), func(st *State) []*Term {
			fill(st, "random")
			st.events = append(st.events, event{kind: "readfull", args: []*Term{rd, e.seqOf(st, b)}, pos: e.p.pos(c.instr.Pos())})
			return []*Term{n, mkNil(nil)}
		}, func(st *State) []*Term {
			fill(st, "partial")
			k := mkSymR(fmt.Sprintf("read#%d", id), nil, big0, maxLen)
			st.assume(mkLe(k, n))
			return []*Term{k, mkErr("read")}
		})
	}
	m["crypto/rand.Read"] = func(e *Engine, c *callCtx) []Exit {
		e.havocReach(c.st, c.args[0], "rand", 0)
		id := mkInt(int64(e.freshID()))
		n := seqLen(c.seq(e, 0))
		return c.split(mkPred("readok", id), func(*State) []*Term { return []*Term{n, mkNil(nil)} }, func(*State) []*Term { return []*Term{t0, mkErr("read")} })
	}
	m["math/rand.Read"] = m["crypto/rand.Read"]
	for _, w := range []string{"8", "16", "32", "64", ""} {
		width := int64(64)
		if w != "" {
			fmt.Sscan(w, &width)
		}
		w8 := width
		m["math/bits.OnesCount"+w] = func(e *Engine, c *callCtx) []Exit {
			v := c.st.canon(c.args[0])
			if v.op == OInt {
				n := 0
				for i := 0; i < v.val.BitLen(); i++ {
					n += int(v.val.Bit(i))
				}
				return one(c, mkInt(int64(n)))
			}
			return one(c, mkAppR("popcount", big0, big.NewInt(w8), v))
		}
		m["math/bits.TrailingZeros"+w] = func(e *Engine, c *callCtx) []Exit {
			v := c.st.canon(c.args[0])
			if v.op == OInt {
				if v.val.Sign() == 0 {
					return one(c, mkInt(w8))
				}
				return one(c, mkInt(int64(v.val.TrailingZeroBits())))
			}
			if w8 == 64 && c.st.decide(mkEq0(v)) == -1 {
				return one(c, mkLowIdx(v))
			}
			return one(c, mkAppR("ctz", big0, big.NewInt(w8), v))
		}
		m["math/bits.LeadingZeros"+w] = func(e *Engine, c *callCtx) []Exit {
			v := c.st.canon(c.args[0])
			if v.op == OInt {
				return one(c, mkInt(w8-int64(v.val.BitLen())))
			}
			return one(c, mkAppR("clz"+w, big0, big.NewInt(w8), v))
		}
		m["math/bits.Len"+w] = func(e *Engine, c *callCtx) []Exit {
			return one(c, mkAppR("bitlen", big0, big.NewInt(w8), c.st.canon(c.args[0])))
		}
	}
	for _, w := range []int{8, 16, 32, 64, 0} {
		name, w := fmt.Sprint(w), w
		if w == 0 {
			name, w = "", 64
		}
		m["math/bits.RotateLeft"+name] = func(e *Engine, c *callCtx) []Exit {
			v := c.st.canon(c.args[0])
			k, ok := c.st.constOf(c.args[1])
			if ok {
				k = (k%int64(w) + int64(w)) % int64(w)
			}
			switch {
			case ok && k == 0:
				return one(c, v)
			case ok:
				return one(c, tAdd(tScale(mkBits(v, 0, w-int(k)), pow2(int(k))), mkBits(v, w-int(k), int(k))))
			}
			return one(c, mkAppR("rotl"+name, big0, new(big.Int).Sub(pow2(w), big1), v, c.args[1]))
		}
		if w < 32 {
			continue
		}
		// the carry or borrow is one exactly where the result leaves the range
		carry := func(sum func(x, y, c *Term) *Term, out func(s *Term) *Term, back int64) func(e *Engine, c *callCtx) []Exit {
			return func(e *Engine, c *callCtx) []Exit {
				s := c.st.canon(sum(c.args[0], c.args[1], c.args[2]))
				return c.split(out(s),
					func(st *State) []*Term {
						return []*Term{tAdd(s, mkBig(new(big.Int).Mul(big.NewInt(back), pow2(w)))), t1}
					},
					func(st *State) []*Term { return []*Term{s, t0} })
			}
		}
		m["math/bits.Add"+name] = carry(func(x, y, z *Term) *Term { return tAdd(tAdd(x, y), z) },
			func(s *Term) *Term { return mkLe(mkBig(pow2(w)), s) }, -1)
		m["math/bits.Sub"+name] = carry(func(x, y, z *Term) *Term { return tSub(tSub(x, y), z) },
			func(s *Term) *Term { return mkLe(s, mkInt(-1)) }, 1)
	}
	for _, n := range []string{"HasPrefix", "HasSuffix", "Index", "IndexByte", "TrimPrefix", "TrimSuffix", "Clone"} {
		if h := m["strings."+n]; h != nil {
			m["internal/stringslite."+n] = h
		}
	}
	for _, n := range []string{"math.Pow", "math.Exp", "math.Log", "math.Floor", "math.Ceil", "math.Round", "math.Abs", "math.Sqrt", "math.Log2", "math.Exp2", "math.Trunc", "math.Mod"} {
		m[n] = pureModel(n, nil, nil)
	}
	m["regexp.MustCompile"] = func(e *Engine, c *callCtx) []Exit {
		s := c.seq(e, 0)
		if k, ok := seqConst(s); ok {
			if _, err := regexp.Compile(k); err != nil {
				c.need(e, tFalse, "regexp.MustCompile of an invalid expression")
				return nil
			}
		} else if !c.need(e, mkPred("regexpok", s), "regexp.MustCompile of an unknown expression") {
			return nil
		}
		return one(c, mkApp("regexp", nil, s))
	}
	rx := func(c *callCtx) (*regexp.Regexp, *Term) {
		t := c.args[0]
		if t.op == OApp && t.name == "regexp" {
			if k, ok := seqConst(t.args[0]); ok {
				return regexp.MustCompile(k), t
			}
		}
		return nil, t
	}
	r := "(*regexp.Regexp)"
	for _, n := range []string{"MatchString", "Match"} {
		m[r+"."+n] = func(e *Engine, c *callCtx) []Exit {
			x, t := rx(c)
			if x != nil {
				for _, sp := range e.rxMatch {
					if sameLanguage(x.String(), sp) {
						t = mkApp("regexp", nil, mkSeq(mkLit(sp)))
					}
				}
			}
			return one(c, mkPred("rxmatch", t, c.seq(e, 1)))
		}
	}
	strs := types.NewSlice(types.Typ[types.String])
	m[r+".FindStringSubmatch"] = func(e *Engine, c *callCtx) []Exit {
		x, t := rx(c)
		s := c.seq(e, 1)
		if x == nil {
			return pureModel("rxsub", nil, nil)(e, c)
		}
		return c.split(mkPred("rxmatch", t, s), func(st *State) []*Term {
			a := intern(Term{op: OApp, name: "rxsub", args: []*Term{t, s}, typ: strs})
			n := mkInt(int64(x.NumSubexp() + 1))
			st.assume(mkEqInt(atomLen(a), n))
			return []*Term{e.newSlice(st, mkSeq(mkSub(a, t0, n)), types.Typ[types.String], nil, "submatch")}
		}, func(*State) []*Term { return []*Term{mkNil(nil)} })
	}
	m[r+".FindAllStringSubmatch"] = func(e *Engine, c *callCtx) []Exit {
		x, t := rx(c)
		s := c.seq(e, 1)
		a := intern(Term{op: OApp, name: "rxallsub", args: []*Term{t, s, c.args[2]}, typ: types.NewSlice(strs)})
		if x != nil {
			for _, sp := range e.rxParts {
				if sameStructure(x.String(), sp) {
					t = mkApp("regexp", nil, mkSeq(mkLit(sp)))
				}
			}
			if c.st.decide(mkLt(c.args[2], t0)) == 1 {
				c.args[2] = mkInt(-1)
			}
			a = intern(Term{op: OApp, name: "rxallsub", args: []*Term{t, s, c.args[2], mkInt(int64(x.NumSubexp() + 1))}, typ: types.NewSlice(strs)})
		}
		return one(c, e.newSlice(c.st, seqOfAtom(a), strs, nil, "allsubmatch"))
	}
	m[r+".FindString"] = pureModel("rxfind", nil, nil)
	m[r+".FindAllString"] = pureModel("rxfindall", nil, nil)
	m[r+".FindAllStringIndex"] = pureModel("rxfindidx", nil, nil)
	m[r+".ReplaceAllString"] = pureModel("rxreplace", nil, nil)
	m[r+".SubexpNames"] = func(e *Engine, c *callCtx) []Exit {
		x, _ := rx(c)
		if x == nil {
			return pureModel("rxnames", nil, nil)(e, c)
		}
		var el []*Term
		for _, n := range x.SubexpNames() {
			el = append(el, mkElem(mkLit(n), false))
		}
		return one(c, e.newSlice(c.st, mkSeq(el...), types.Typ[types.String], nil, "names"))
	}
	m[r+".NumSubexp"] = func(e *Engine, c *callCtx) []Exit {
		x, _ := rx(c)
		if x == nil {
			return e.external(c)
		}
		return one(c, mkInt(int64(x.NumSubexp())))
	}
	m["encoding/json.Marshal"] = func(e *Engine, c *callCtx) []Exit {
		v := e.snap(c.st, c.args[0])
		return c.split(mkPred("jsonok", v), func(st *State) []*Term { return []*Term{e.freshBytes(st, bytesAtom("json", v), "json"), mkNil(nil)} },
			func(*State) []*Term { return []*Term{mkNil(nil), mkErr("json")} })
	}
	_ = ssa.Function{}
}

// format is the text Sprintf gives where it is put together from constants and texts, or nil.
func (e *Engine) format(c *callCtx) *Term {
	f, ok := seqConst(c.seq(e, 0))
	if !ok {
		return nil
	}
	list := c.seq(e, 1)
	n, ok := c.st.constOf(seqLen(list))
	if !ok {
		return nil
	}
	var out []*Term
	next := int64(0)
	for i := 0; i < len(f); {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			out = append(out, mkLit(f[i:i+j]).args...)
			i += j
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("0123456789+-# .", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			return nil
		}
		verb := f[i : j+1]
		i = j + 1
		if verb == "%%" {
			out = append(out, mkLit("%").args...)
			continue
		}
		if next >= n {
			return nil
		}
		v := e.seqAtQuiet(c.st, list, mkInt(next))
		next++
		if v == nil || v.op != OIface {
			return nil
		}
		switch t := v.typ.(type) {
		case *types.Basic:
			switch {
			case t.Info()&types.IsString != 0:
				s := c.seqT(e, v.args[0])
				if k, ok := seqConst(s); ok && strings.IndexByte("svqx", verb[len(verb)-1]) >= 0 {
					out = append(out, mkLit(fmt.Sprintf(verb, k)).args...)
					continue
				}
				if verb == "%x" {
					out = append(out, strAtom("hexenc", s).args...)
					continue
				}
				if verb != "%s" && verb != "%v" || s.op != OSeq {
					return nil
				}
				out = append(out, s.args...)
				continue
			case t.Info()&types.IsInteger != 0:
				k, ok := c.st.constOf(v.args[0])
				if !ok || strings.IndexByte("dvxXob", verb[len(verb)-1]) < 0 {
					return nil
				}
				out = append(out, mkLit(fmt.Sprintf(verb, k)).args...)
				continue
			}
		case *types.Slice:
			if b, ok := t.Elem().(*types.Basic); ok && b.Kind() == types.Uint8 && (verb == "%x" || verb == "%s") {
				s := e.seqOf(c.st, v.args[0])
				if verb == "%x" {
					s = strAtom("hexenc", s)
				}
				out = append(out, s.args...)
				continue
			}
		}
		return nil
	}
	if next != n {
		return nil
	}
	return mkSeq(out...)
}
