package main

import (
	"go/types"
	"math/big"
	"strings"
)

// Sequences (strings, byte slices' contents, arrays, slices of any element) are lists of segments.

func mkSeq(segs ...*Term) *Term {
	var out []*Term
	var push func(s *Term)
	push = func(s *Term) {
		switch s.op {
		case OSeq:
			for _, x := range s.args {
				push(x)
			}
			return
		case OElem:
			e := s.args[0]
			if s.n == 1 { // byte element
				if e.op == OInt {
					push(intern(Term{op: OLit, str: string([]byte{byte(e.val.Int64())})}))
					return
				}
				if e.op == OAt {
					push(mkSub(e.args[0], e.args[1], t1))
					return
				}
			}
		case OLit:
			if s.str == "" {
				return
			}
		case OSub:
			if s.args[2] == t0 {
				return
			}
		case ORep:
			if s.args[1] == t0 {
				return
			}
			if k, ok := s.args[1].int64(); ok && s.args[0].op == OInt && s.n == 1 && k <= 4096 && k > 0 {
				b := make([]byte, k)
				for i := range b {
					b[i] = byte(s.args[0].val.Int64())
				}
				push(intern(Term{op: OLit, str: string(b)}))
				return
			}
		case OMapSeg:
			if s.args[1] == t0 {
				return
			}
			if b := s.args[0]; b.op == OAt {
				v := mkVar(s.n)
				off := tSub(b.args[1], v)
				is := func(y *Term) bool { return y == v }
				if !off.contains(is) && !b.args[0].contains(is) {
					push(mkSub(b.args[0], off, s.args[1]))
					return
				}
			}
		}
		if len(out) > 0 {
			p := out[len(out)-1]
			if p.op == OLit && s.op == OLit {
				out[len(out)-1] = intern(Term{op: OLit, str: p.str + s.str})
				return
			}
			if p.op == ORep && s.op == ORep && p.args[0] == s.args[0] && p.n == s.n {
				out = out[:len(out)-1]
				push(mkRep(p.args[0], tAdd(p.args[1], s.args[1]), s.n == 1))
				return
			}
			// equal bytes next to a run of them belong to the run
			if p.op == OLit && s.op == ORep && s.n == 1 && s.args[0].op == OInt {
				b := byte(s.args[0].val.Int64())
				n := len(p.str)
				for n > 0 && p.str[n-1] == b {
					n--
				}
				if d := len(p.str) - n; d > 0 {
					out = out[:len(out)-1]
					push(intern(Term{op: OLit, str: p.str[:n]}))
					push(mkRep(s.args[0], tAddI(s.args[1], int64(d)), true))
					return
				}
			}
			if p.op == ORep && s.op == OLit && p.n == 1 && p.args[0].op == OInt {
				b := byte(p.args[0].val.Int64())
				n := 0
				for n < len(s.str) && s.str[n] == b {
					n++
				}
				if n > 0 {
					out = out[:len(out)-1]
					push(mkRep(p.args[0], tAddI(p.args[1], int64(n)), true))
					push(intern(Term{op: OLit, str: s.str[n:]}))
					return
				}
			}
			if p.op == OSub && s.op == OSub && p.args[0] == s.args[0] && tAdd(p.args[1], p.args[2]) == s.args[1] {
				out[len(out)-1] = mkSub(p.args[0], p.args[1], tAdd(p.args[2], s.args[2]))
				return
			}
		}
		out = append(out, s)
	}
	for _, s := range segs {
		push(s)
	}
	return intern(Term{op: OSeq, args: out})
}

func mkLit(s string) *Term { return mkSeq(intern(Term{op: OLit, str: s})) }
func mkSub(a, lo, n *Term) *Term {
	return intern(Term{op: OSub, args: []*Term{a, lo, n}})
}

// mkElem makes a one-element segment; byteElem tells whether it is a byte.
func mkElem(v *Term, byteElem bool) *Term {
	n := 0
	if byteElem {
		n = 1
	}
	return intern(Term{op: OElem, args: []*Term{v}, n: n})
}
func mkRep(v, cnt *Term, byteElem bool) *Term {
	n := 0
	if byteElem {
		n = 1
	}
	return intern(Term{op: ORep, args: []*Term{v, cnt}, n: n})
}

// fixedLens are the lengths of sequences produced by modelled functions.
var fixedLens = map[string]int64{"sha256": 32, "sha224": 28, "hmac512": 64, "sha512": 64, "serP": 33, "pointX": 32}

// atomLen is the length of a sequence atom.
func atomLen(a *Term) *Term {
	if a.op == OApp {
		if n, ok := fixedLens[a.name]; ok {
			return mkInt(n)
		}
		switch a.name {
		case "b32enc":
			return encLen(seqLen(a.args[1]), 5, 8)
		case "b64enc":
			return encLen(seqLen(a.args[1]), 3, 4)
		case "hexenc":
			return tScale(seqLen(a.args[0]), big.NewInt(2))
		case "hexdec":
			return mkFdiv(seqLen(a.args[0]), big.NewInt(2), true)
		case "befix", "havocN":
			return a.args[1]
		case "store", "seq":
			return seqLen(a.args[0])
		case "elem":
			// one match of an expression has one string per group
			if x := a.args[0]; x.op == OApp && x.name == "rxallsub" && len(x.args) == 4 {
				return x.args[3]
			}
		}
	}
	if a.typ != nil && (a.op == OApp || a.op == OSym) {
		if at, ok := a.typ.Underlying().(*types.Array); ok && at.Len() >= 0 {
			return mkInt(at.Len())
		}
	}
	if a.op == OSym && a.n > 0 { // symbol of fixed length
		return mkInt(int64(a.n - 1))
	}
	if l := listAtomLen(a); l != nil {
		return l
	}
	return intern(Term{op: OLen, args: []*Term{a}})
}

func encLen(n *Term, per, out int64) *Term {
	if k, ok := n.int64(); ok {
		return mkInt((k + per - 1) / per * out)
	}
	return tScale(mkFdiv(tAddI(n, per-1), big.NewInt(per), true), big.NewInt(out))
}

// mkSeqAtom is a symbolic sequence; fixed >= 0 gives its length.
func mkSeqAtom(name string, typ types.Type, fixed int64) *Term {
	return intern(Term{op: OSym, name: name, typ: typ, n: int(fixed + 1)})
}

func seqOfAtom(a *Term) *Term {
	if a.op == OSeq {
		return a
	}
	return mkSeq(mkSub(a, t0, atomLen(a)))
}

func segLen(s *Term) *Term {
	switch s.op {
	case OLit:
		return mkInt(int64(len(s.str)))
	case OElem:
		return t1
	case OSub:
		return s.args[2]
	case ORep, OMapSeg:
		return s.args[1]
	}
	panic("segLen " + s.String())
}

func seqLen(s *Term) *Term {
	n := t0
	for _, x := range s.args {
		n = tAdd(n, segLen(x))
	}
	return n
}

func seqConst(s *Term) (string, bool) {
	if s.op != OSeq {
		return "", false
	}
	if len(s.args) == 0 {
		return "", true
	}
	if len(s.args) == 1 && s.args[0].op == OLit {
		return s.args[0].str, true
	}
	return "", false
}

// isByteSeq guesses whether the elements of a sequence atom are bytes.
func atomElemType(a *Term) types.Type {
	if a.typ == nil {
		return types.Typ[types.Uint8]
	}
	switch t := a.typ.Underlying().(type) {
	case *types.Slice:
		return t.Elem()
	case *types.Array:
		return t.Elem()
	case *types.Basic:
		return types.Typ[types.Uint8]
	case *types.Pointer:
		if ar, ok := t.Elem().Underlying().(*types.Array); ok {
			return ar.Elem()
		}
	}
	return types.Typ[types.Uint8]
}

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// at builds the element of an atom at an index.
func (e *Engine) atomAt(a, i *Term) *Term {
	et := atomElemType(a)
	if isByteType(et) {
		if a.op == OApp && a.name == "seqat" && len(a.args) == 2 {
			if l := listOf(a.args[0]); l != nil {
				return intern(Term{op: OAt, args: []*Term{a, i}, lo: big.NewInt(int64(l.minCh)), hi: big.NewInt(int64(l.maxCh))})
			}
		}
		return intern(Term{op: OAt, args: []*Term{a, i}, lo: big0, hi: big.NewInt(255)})
	}
	lo, hi := typeRange(et)
	if lo != nil {
		return intern(Term{op: OAt, args: []*Term{a, i}, lo: lo, hi: hi})
	}
	if t := optionalGroup(a, i); t != nil {
		return t
	}
	// elements of other kinds are materialised from an application term
	return e.materialize(intern(Term{op: OApp, name: "elem", args: []*Term{a, i}, typ: et}), et)
}

func (e *Engine) segAt(s, i *Term) *Term {
	switch s.op {
	case OLit:
		if k, ok := i.int64(); ok && k >= 0 && k < int64(len(s.str)) {
			return mkInt(int64(s.str[k]))
		}
		lo, hi := s.str[0], s.str[0]
		for k := 0; k < len(s.str); k++ {
			lo, hi = min(lo, s.str[k]), max(hi, s.str[k])
		}
		return mkAppR("litat", big.NewInt(int64(lo)), big.NewInt(int64(hi)), s, i)
	case OElem, ORep:
		return s.args[0]
	case OSub:
		return e.atomAt(s.args[0], tAdd(s.args[1], i))
	case OMapSeg:
		return substVar(s.args[0], s.n, i)
	}
	panic("segAt")
}

// substVar replaces the bound variable v by t.
func substVar(x *Term, v int, t *Term) *Term {
	return rewrite(x, func(y *Term) *Term {
		if y.op == OVar && y.n == v {
			return t
		}
		return nil
	})
}

// rewrite rebuilds a term bottom-up; f may replace a subterm (before descending).
func rewrite(x *Term, f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var walk func(*Term) *Term
	walk = func(y *Term) *Term {
		if y.ground {
			return y
		}
		if r, ok := memo[y]; ok {
			return r
		}
		if r := f(y); r != nil {
			memo[y] = r
			return r
		}
		if len(y.args) == 0 {
			memo[y] = y
			return y
		}
		ch := false
		as := make([]*Term, len(y.args))
		for i, a := range y.args {
			as[i] = walk(a)
			if as[i] != a {
				ch = true
			}
		}
		r := y
		if ch {
			r = rebuild(y, as)
		}
		memo[y] = r
		return r
	}
	return walk(x)
}

func rebuild(y *Term, as []*Term) *Term {
	switch y.op {
	case OLin:
		l := newAcc()
		l.c.Set(y.val)
		for i, a := range as {
			l.add(a, y.coef[i])
		}
		return l.term()
	case OBits:
		return mkBits(as[0], y.n, y.m)
	case OXor:
		r := t0
		for _, a := range as {
			r = xorBit(r, a)
		}
		return r
	case OLe:
		return mkLe0(as[0])
	case OEq:
		return mkEq0(as[0])
	case ONot:
		return mkNot(as[0])
	case OAnd:
		return mkAnd(as...)
	case OSeq:
		return mkSeq(as...)
	case OElem:
		return mkElem(as[0], y.n == 1)
	case ORep:
		return mkRep(as[0], as[1], y.n == 1)
	case OSub:
		if as[0].op == OSeq { // an atom was replaced by a known sequence
			if as[1].op == OInt && as[1].val.Sign() == 0 && seqLen(as[0]) == as[2] {
				return as[0]
			}
			if s, ok := subConst(as[0], as[1], as[2]); ok {
				return s
			}
			return mkSub(intern(Term{op: OApp, name: "seq", args: []*Term{as[0]}}), as[1], as[2])
		}
		return mkSub(as[0], as[1], as[2])
	case OLen:
		if as[0].op == OSeq {
			return seqLen(as[0])
		}
		return atomLen(as[0])
	case OAt:
		if as[0].op == OSeq {
			if s, ok := subConst(as[0], as[1], t1); ok && len(s.args) == 1 {
				switch g := s.args[0]; g.op {
				case OLit:
					return mkInt(int64(g.str[0]))
				case OElem:
					return g.args[0]
				case OSub:
					return intern(Term{op: OAt, args: []*Term{g.args[0], g.args[1]}, lo: y.lo, hi: y.hi})
				}
			}
			return intern(Term{op: OAt, args: []*Term{intern(Term{op: OApp, name: "seq", args: []*Term{as[0]}}), as[1]}, lo: y.lo, hi: y.hi})
		}
	case OSeqEq:
		return mkSeqEq(as[0], as[1])
	case OPred:
		if y.name == "isnil" {
			return theEngine.isNil(as[0])
		}
	case OApp:
		if y.name == "mul" {
			return tMul(as[0], as[1])
		}
		if f := appRebuild[y.name]; f != nil {
			if r := f(y, as); r != nil {
				return r
			}
		}
	}
	z := *y
	z.args = as
	z.s = ""
	return intern(z)
}

var appRebuild = map[string]func(y *Term, as []*Term) *Term{}

// subConst cuts a sequence when the offsets fall on constant positions.
func subConst(s, lo, n *Term) (*Term, bool) {
	a, ok1 := lo.int64()
	k, ok2 := n.int64()
	if !ok1 || !ok2 {
		return nil, false
	}
	return subC(s, a, k)
}

func subC(s *Term, a, k int64) (*Term, bool) {
	var out []*Term
	pos := int64(0)
	for _, g := range s.args {
		if k == 0 {
			break
		}
		l, ok := segLen(g).int64()
		if !ok {
			// only usable when the wanted range starts here and the segment is an atom range
			if a < pos {
				return nil, false
			}
			return nil, false
		}
		if a >= pos+l {
			pos += l
			continue
		}
		off := a - pos
		take := l - off
		if take > k {
			take = k
		}
		out = append(out, segSub(g, mkInt(off), mkInt(take)))
		a += take
		k -= take
		pos += l
	}
	if k != 0 {
		return nil, false
	}
	return mkSeq(out...), true
}

func segSub(g, off, n *Term) *Term {
	switch g.op {
	case OLit:
		o, ok1 := off.int64()
		k, ok2 := n.int64()
		if ok1 && ok2 && o >= 0 && k >= 0 && o+k <= int64(len(g.str)) {
			return intern(Term{op: OLit, str: g.str[o : o+k]})
		}
		if g.str != "" && strings.Count(g.str, g.str[:1]) == len(g.str) {
			return mkRep(mkInt(int64(g.str[0])), n, true)
		}
		return mkSub(intern(Term{op: OApp, name: "seq", args: []*Term{mkSeq(g)}}), off, n)
	case OElem:
		return g
	case OSub:
		return mkSub(g.args[0], tAdd(g.args[1], off), n)
	case ORep:
		return mkRep(g.args[0], n, g.n == 1)
	case OMapSeg:
		v := g.n
		body := substVar(g.args[0], v, tAdd(mkVar(v), off))
		return intern(Term{op: OMapSeg, args: []*Term{body, n}, n: v})
	}
	panic("segSub")
}

func mkSeqEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if ca, ok := seqConst(a); ok {
		if cb, ok := seqConst(b); ok {
			return mkBool(ca == cb)
		}
	}
	if eq, _, ok := rankCompare(a, b); ok {
		return eq
	}
	la, lb := seqLen(a), seqLen(b)
	if mkEqInt(la, lb) == tFalse {
		return tFalse
	}
	// repetitions of a constant are equal to constants of that form when they are as long
	for i, x := range []*Term{a, b} {
		y := b
		if i == 1 {
			y = a
		}
		if x.op != OSeq || len(x.args) != 1 || x.args[0].op != ORep || x.args[0].args[0].op != OInt {
			continue
		}
		if c, ok := seqConst(y); ok {
			for j := range c {
				if v, isK := x.args[0].args[0].int64(); !isK || v != int64(c[j]) {
					return tFalse
				}
			}
			return mkEqInt(la, lb)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(Term{op: OSeqEq, args: []*Term{a, b}})
}

func segConstLen(s *Term) (int64, bool) {
	switch s.op {
	case OLit:
		return int64(len(s.str)), true
	case OElem:
		return 1, true
	case OSub:
		return s.args[2].int64()
	}
	return s.args[1].int64()
}
