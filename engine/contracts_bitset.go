package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["T01"] = checkT01
	checks["T02"] = checkT02
	checks["T03"] = checkT03
}

// ---- bits as polynomials over GF(2) ----

// anf is the algebraic normal form of a 0/1 value: a set of monomials, each a set of atoms.
// It is canonical: two 0/1 terms over the same atoms are equal exactly when their forms are.
type anf map[string]bool

func monoKey(ids []string) string {
	sort.Strings(ids)
	out := ids[:0:0]
	for i, x := range ids {
		if i == 0 || x != ids[i-1] {
			out = append(out, x)
		}
	}
	return strings.Join(out, "*")
}

func (a anf) xor(b anf) anf {
	r := anf{}
	for m := range a {
		r[m] = true
	}
	for m := range b {
		if r[m] {
			delete(r, m)
		} else {
			r[m] = true
		}
	}
	return r
}

func (a anf) mul(b anf) anf {
	r := anf{}
	for m := range a {
		for n := range b {
			var ids []string
			if m != "" {
				ids = append(ids, strings.Split(m, "*")...)
			}
			if n != "" {
				ids = append(ids, strings.Split(n, "*")...)
			}
			q := monoKey(ids)
			if r[q] {
				delete(r, q)
			} else {
				r[q] = true
			}
		}
	}
	return r
}

func (a anf) key() string {
	ms := make([]string, 0, len(a))
	for m := range a {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	return strings.Join(ms, "+")
}

func anfConst(c bool) anf {
	if c {
		return anf{"": true}
	}
	return anf{}
}

// anfBit is bit i of a non-negative integer term.
func anfBit(t *Term, i int) (anf, bool) {
	if y := complement(t); y != nil && i < 64 {
		p, ok := anfBit(y, i)
		return p.xor(anfConst(true)), ok
	}
	b := mkBits(t, i, 1)
	switch b.op {
	case OInt:
		return anfConst(b.val.Sign() != 0), true
	case OXor:
		r := anf{}
		for _, x := range b.args {
			y, ok := anfBit(x, 0)
			if !ok {
				return nil, false
			}
			r = r.xor(y)
		}
		return r, true
	case OLin:
		if len(b.args) == 1 && b.val.Cmp(big1) == 0 && b.coef[0].Cmp(bigM1) == 0 {
			y, ok := anfBit(b.args[0], 0)
			return y.xor(anfConst(true)), ok
		}
		return nil, false
	case OBits:
		x := b.args[0]
		if x.op == OApp && len(x.args) == 2 {
			if r, ok := anfOp(x, b.n); ok {
				return r, true
			}
		}
		return anf{fmt.Sprintf("%d.%d", x.id, b.n): true}, true
	case OApp:
		if r, ok := anfOp(b, 0); ok {
			return r, true
		}
	}
	return anf{fmt.Sprintf("%d.0", b.id): true}, true
}

// complement is y for a term 2^64-1-y.
func complement(x *Term) *Term {
	if x.op == OLin && len(x.args) == 1 && x.coef[0].Cmp(bigM1) == 0 && x.val.Cmp(new(big.Int).Sub(pow2(64), big1)) == 0 && bitWidth(x.args[0]) <= 64 && bitWidth(x.args[0]) >= 0 {
		return x.args[0]
	}
	return nil
}

// orParts are values that are all zero exactly when bit i of a term is.
func orParts(t *Term, i int) []*Term {
	b := mkBits(t, i, 1)
	x, n := b, 0
	if b.op == OBits {
		x, n = b.args[0], b.n
	}
	if x.op == OApp && x.name == "bitor" && len(x.args) == 2 {
		return append(orParts(x.args[0], n), orParts(x.args[1], n)...)
	}
	return []*Term{b}
}

func anfOp(x *Term, i int) (anf, bool) {
	switch x.name {
	case "bitand", "bitor", "bitxor":
	default:
		return nil, false
	}
	p, ok1 := anfBit(x.args[0], i)
	q, ok2 := anfBit(x.args[1], i)
	if !ok1 || !ok2 {
		return nil, false
	}
	switch x.name {
	case "bitand":
		return p.mul(q), true
	case "bitor":
		return p.xor(q).xor(p.mul(q)), true
	}
	return p.xor(q), true
}

// eqPolys expresses t == 0 as polynomials that must all vanish.
func eqPolys(t *Term, w int) ([]anf, bool) {
	// separate into two non-negative sides
	c, atoms, coefs := linParts(t)
	a, b := newAcc(), newAcc()
	if c.Sign() > 0 {
		a.c.Set(c)
	} else {
		b.c.Neg(c)
	}
	for i, x := range atoms {
		if coefs[i].Sign() > 0 {
			a.add(x, coefs[i])
		} else {
			b.add(tScale(x, bigM1), coefs[i])
		}
	}
	x, y := a.term(), b.term()
	for _, s := range []*Term{x, y} {
		if _, ok := pieces(s); !ok && complement(s) == nil {
			return nil, false
		}
	}
	var out []anf
	for i := 0; i < w; i++ {
		if y == t0 || x == t0 {
			o := x
			if x == t0 {
				o = y
			}
			for _, b := range orParts(o, i) {
				p, ok := anfBit(b, 0)
				if !ok {
					return nil, false
				}
				if len(p) > 0 {
					out = append(out, p)
				}
			}
			continue
		}
		p, ok1 := anfBit(x, i)
		q, ok2 := anfBit(y, i)
		if !ok1 || !ok2 {
			return nil, false
		}
		if d := p.xor(q); len(d) > 0 {
			out = append(out, d)
		}
	}
	return out, true
}

// vanish decides a literal built from equalities, given the polynomials known to be zero.
func (k *Checker) vanish(l *Term, zero map[string]bool) int {
	switch l.op {
	case OBool:
		if l.n == 1 {
			return 1
		}
		return -1
	case ONot:
		return -k.vanish(l.args[0], zero)
	case OAnd:
		r := 1
		for _, x := range l.args {
			switch k.vanish(x, zero) {
			case -1:
				return -1
			case 0:
				r = 0
			}
		}
		return r
	case OSeqEq:
		es := k.elementwise(l)
		if es == nil {
			return 0
		}
		return k.vanish(es, zero)
	case OEq:
		ps, ok := eqPolys(l.args[0], 64)
		if !ok {
			return 0
		}
		for _, p := range ps {
			if len(p) == 1 && p[""] {
				return -1
			}
			if !zero[p.key()] {
				return 0
			}
		}
		return 1
	}
	return 0
}

// elementwise spells the equality of two sequences of the same constant length out.
func (k *Checker) elementwise(l *Term) *Term {
	a, b := l.args[0], l.args[1]
	n, ok1 := seqLen(a).int64()
	m, ok2 := seqLen(b).int64()
	if !ok1 || !ok2 || n != m || n > 64 {
		return nil
	}
	var es []*Term
	for i := int64(0); i < n; i++ {
		x, y := k.at(newState(), a, mkInt(i)), k.at(newState(), b, mkInt(i))
		if x == nil || y == nil {
			return nil
		}
		es = append(es, mkEqInt(x, y))
	}
	return mkAnd(es...)
}

// zeroOfLit collects the polynomials that vanish when a literal holds.
func (k *Checker) zeroOfLit(l *Term, zero map[string]bool) {
	switch l.op {
	case OAnd:
		for _, x := range l.args {
			k.zeroOfLit(x, zero)
		}
	case OSeqEq:
		if es := k.elementwise(l); es != nil {
			k.zeroOfLit(es, zero)
		}
	case OEq:
		if ps, ok := eqPolys(l.args[0], 64); ok {
			for _, p := range ps {
				zero[p.key()] = true
			}
		}
	}
}

// ---- bitsets ----

type bitset struct {
	k  *Checker
	t  *types.Named
	at types.Type
}

func (k *Checker) bitset() *bitset {
	t := k.namedType("pkg/bitset256", "Bitset256")
	if t == nil {
		return nil
	}
	a, ok := t.Underlying().(*types.Array)
	if !ok || a.Len() != 4 {
		k.violate("pkg/bitset256", "a bitset is no longer an array of four 64-bit words")
		return nil
	}
	return &bitset{k, t, a.Elem()}
}

// words are the four words behind a pointer to a bitset.
func (b *bitset) words(st *State, p *Term) []*Term {
	e := b.k.e
	q := e.resolve(st.canon(p), b.t)
	s := e.load(st, q)
	out := make([]*Term, 4)
	for i := range out {
		out[i] = st.canon(b.k.at(st, s, mkInt(int64(i))))
	}
	return out
}

// start prepares a call of a bitset operation on well-formed bitsets.
func (b *bitset) start(fn *ssa.Function) (*State, []*Term) {
	k := b.k
	st := newState()
	args := k.symArgs(fn)
	for i, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			st.assume(mkNot(k.e.isNil(args[i])))
		}
	}
	return st, args
}

// sameBits compares bit by bit.
func (k *Checker) sameBits(st *State, got, want *Term, w int, pos, what string) bool {
	k.count("facts", w)
	for i := 0; i < w; i++ {
		p, ok1 := anfBit(st.canon(got), i)
		q, ok2 := anfBit(st.canon(want), i)
		if !ok1 || !ok2 || p.key() != q.key() {
			k.violate(pos, "%s: bit %d of %s does not agree with %s", what, i, st.canon(got), st.canon(want)).with(st)
			return false
		}
	}
	return true
}

func checkT01(k *Checker) {
	k.rule("Bit-precise abstract interpretation of Get, Set, Clear and Toggle for each of the 256 constant indices on an unconstrained bitset: the words afterwards, decomposed into bits (algebraic normal form over the bits before), differ from the words before in exactly the documented bit, and Get answers exactly that bit. New is decided by its step on arbitrary content for each of the 256 indices and on constant lists; Clone by equality of content and freshness of memory.")
	b := k.bitset()
	if b == nil {
		return
	}
	e := k.e
	n := 0
	for _, op := range []string{"Get", "Set", "Clear", "Toggle"} {
		fn := k.anchor("pkg/bitset256", "(*Bitset256)."+op)
		if fn == nil {
			continue
		}
		for ix := int64(0); ix < 256; ix++ {
			st, args := b.start(fn)
			args[1] = mkInt(ix)
			before := b.words(st, args[0])
			xs, ok := k.run(fn, st, args)
			if !ok {
				return
			}
			n++
			w, bit := int(ix/64), int(ix%64)
			k.atLeast("ways "+op+" ends", len(xs), 1)
			for _, x := range xs {
				pos := k.p.pos(x.pos)
				what := fmt.Sprintf("%s(%d)", op, ix)
				if x.pan {
					k.violate(pos, "%s can panic", what).with(x.st)
					continue
				}
				after := b.words(x.st, args[0])
				for i := range after {
					want := before[i]
					if i == w && op != "Get" {
						old := mkBits(before[i], bit, 1)
						var nb *Term
						switch op {
						case "Set":
							nb = t1
						case "Clear":
							nb = t0
						case "Toggle":
							nb = tSub(t1, old)
						}
						want = tAdd(tScale(mkBits(before[i], bit+1, 63-bit), pow2(bit+1)), tAdd(tScale(nb, pow2(bit)), mkBits(before[i], 0, bit)))
					}
					if !k.sameBits(x.st, after[i], want, 64, pos, fmt.Sprintf("word %d after %s", i, what)) {
						return
					}
				}
				if op == "Get" {
					isSet := mkEqInt(mkBits(before[w], bit, 1), t1)
					k.boolIs(fn, []Exit{x}, 0, isSet, what)
				} else {
					k.equal(x.st, x.ret[0], args[0], pos, what+" returns the bitset it was called on")
				}
			}
			k.noPanics(nil)
		}
	}
	k.count("operation_index_pairs", n)
	k.atLeast("operation and index pairs", n, 1024)
	b.clone()
	b.construct()
	_ = e
}

// clone: same content, fresh memory.
func (b *bitset) clone() {
	k := b.k
	fn := k.anchor("pkg/bitset256", "(*Bitset256).Clone")
	if fn == nil {
		return
	}
	st, args := b.start(fn)
	before := b.words(st, args[0])
	mark := k.e.nextObj()
	xs, ok := k.run(fn, st, args)
	if !ok {
		return
	}
	for _, x := range xs {
		pos := k.p.pos(x.pos)
		k.onlyFresh(x.st, x.ret[0], fn.Signature.Results().At(0).Type(), mark, pos, "the clone of a bitset", nil)
		got, after := b.words(x.st, x.ret[0]), b.words(x.st, args[0])
		for i := range got {
			k.sameBits(x.st, got[i], before[i], 64, pos, fmt.Sprintf("word %d of the clone", i))
			k.sameBits(x.st, after[i], before[i], 64, pos, fmt.Sprintf("word %d of the bitset that was cloned", i))
		}
	}
	k.noPanics(nil)
}

// construct decides New.
func (b *bitset) construct() {
	k, e := b.k, b.k.e
	fn := k.anchor("pkg/bitset256", "New")
	if fn == nil {
		return
	}
	byteT := types.Typ[types.Byte]
	mk := func(st *State, s *Term) []*Term {
		return []*Term{e.newSlice(st, s, byteT, nil, "indices")}
	}
	// constant lists
	lists := [][]byte{{}, {0}, {63}, {64}, {127}, {128}, {191}, {192}, {255}, {7, 7}, {200, 3, 200}, {0, 64, 128, 192}, {255, 254, 1, 0, 70, 1}}
	for _, l := range lists {
		st := newState()
		mark := e.nextObj()
		xs, ok := k.run(fn, st, mk(st, mkSeq(mkLit(string(l)))))
		if !ok {
			return
		}
		var want [4]uint64
		for _, i := range l {
			want[i/64] |= 1 << (i % 64)
		}
		k.atLeast("ways New ends", len(xs), 1)
		for _, x := range xs {
			pos := k.p.pos(x.pos)
			k.onlyFresh(x.st, x.ret[0], fn.Signature.Results().At(0).Type(), mark, pos, "a new bitset", nil)
			for i, g := range b.words(x.st, x.ret[0]) {
				w := tAdd(tScale(mkInt(int64(want[i]>>32)), pow2(32)), mkInt(int64(want[i]&0xffffffff)))
				k.equal(x.st, g, w, pos, fmt.Sprintf("word %d of New(%v)", i, l))
			}
		}
		k.noPanics(nil)
	}
	// the step: from arbitrary content, each index
	steps := 0
	for ix := int64(0); ix < 256; ix++ {
		st := newState()
		n := mkSymR("n", nil, big0, maxLen)
		e.sums = nil
		xs, ok := k.run(fn, st, mk(st, mkSeq(mkRep(mkInt(ix), n, true))))
		if !ok {
			return
		}
		_ = xs
		found := false
		for _, s := range e.sums {
			if s.fn != fn || len(s.backs) == 0 {
				continue
			}
			for _, bk := range s.backs {
				for o, c := range bk.st.heap {
					h, ok := s.head.heap[o]
					if !ok || e.objs[o].typ == nil || !types.Identical(e.objs[o].typ.Underlying(), b.t.Underlying()) {
						continue
					}
					found = true
					for i := 0; i < 4; i++ {
						old, now := s.head.canon(k.at(s.head, h, mkInt(int64(i)))), bk.st.canon(k.at(bk.st, c, mkInt(int64(i))))
						want := old
						if int(ix/64) == i {
							bit := int(ix % 64)
							want = tAdd(tScale(mkBits(old, bit+1, 63-bit), pow2(bit+1)), tAdd(tScale(t1, pow2(bit)), mkBits(old, 0, bit)))
						}
						if !k.sameBits(bk.st, now, want, 64, k.p.pos(fn.Pos()), fmt.Sprintf("word %d after New handled index %d", i, ix)) {
							return
						}
					}
				}
			}
		}
		if found {
			steps++
		}
		k.clearObs()
	}
	k.count("construction_steps", steps)
	k.atLeast("inductive steps of New", steps, 256)
}

func checkT02(k *Checker) {
	k.rule("Bit-precise abstract interpretation on two unconstrained bitsets: Intersect and Union yield fresh memory whose every bit is the and/or of the operands' bits (algebraic normal form) and leave both operands as they were; Equals, IsSubsetOf and Less are decided on every exit against their word- or bit-wise definition; Count is the sum of the population counts of all four words.")
	b := k.bitset()
	if b == nil {
		return
	}
	e := k.e
	unchanged := func(x Exit, pos, what string, args []*Term, before [][]*Term) {
		for j, bw := range before {
			for i, w := range b.words(x.st, args[j]) {
				k.sameBits(x.st, w, bw[i], 64, pos, fmt.Sprintf("word %d of operand %d after %s", i, j, what))
			}
		}
	}
	for _, op := range []string{"Intersect", "Union"} {
		fn := k.anchor("pkg/bitset256", "(*Bitset256)."+op)
		if fn == nil {
			continue
		}
		st, args := b.start(fn)
		before := [][]*Term{b.words(st, args[0]), b.words(st, args[1])}
		mark := e.nextObj()
		xs, ok := k.run(fn, st, args)
		if !ok {
			continue
		}
		k.atLeast("ways "+op+" ends", len(xs), 1)
		for _, x := range xs {
			pos := k.p.pos(x.pos)
			if x.pan {
				k.violate(pos, "%s can panic", op).with(x.st)
				continue
			}
			k.onlyFresh(x.st, x.ret[0], fn.Signature.Results().At(0).Type(), mark, pos, "the result of "+op, nil)
			got := b.words(x.st, x.ret[0])
			for i := range got {
				want := bitwise(map[string]string{"Intersect": "and", "Union": "or"}[op], before[0][i], before[1][i], 64)
				k.sameBits(x.st, got[i], want, 64, pos, fmt.Sprintf("word %d of %s", i, op))
			}
			unchanged(x, pos, op, args, before)
		}
		k.noPanics(nil)
	}
	// predicates that are conjunctions of bit equations
	for _, op := range []string{"Equals", "IsSubsetOf"} {
		fn := k.anchor("pkg/bitset256", "(*Bitset256)."+op)
		if fn == nil {
			continue
		}
		st, args := b.start(fn)
		before := [][]*Term{b.words(st, args[0]), b.words(st, args[1])}
		spec := map[string]bool{}
		for i := 0; i < 4; i++ {
			for j := 0; j < 64; j++ {
				p, _ := anfBit(before[0][i], j)
				q, _ := anfBit(before[1][i], j)
				if op == "Equals" {
					spec[p.xor(q).key()] = true
				} else {
					spec[p.xor(p.mul(q)).key()] = true
				}
			}
		}
		xs, ok := k.run(fn, st, args)
		if !ok {
			continue
		}
		yes := 0
		for _, x := range xs {
			pos := k.p.pos(x.pos)
			if x.pan {
				k.violate(pos, "%s can panic", op).with(x.st)
				continue
			}
			unchanged(x, pos, op, args, before)
			ret := x.st.canon(x.ret[0])
			// answering true needs every bit equation
			known := map[string]bool{}
			for _, l := range x.st.path {
				k.zeroOfLit(l, known)
			}
			if !(ret.op == OBool && ret.n == 0) {
				yes++
				k.zeroOfLit(ret, known)
				k.count("facts", len(spec))
				for p := range spec {
					if !known[p] {
						k.violate(pos, "%s can answer true although not all 256 bits satisfy its definition (answer %s)", op, ret).with(x.st)
						break
					}
				}
			}
			// answering false needs one to fail: with all of them the exit is either impossible or true
			k.count("facts", 1)
			dead := false
			for _, l := range x.st.path {
				if k.vanish(l, spec) == -1 {
					dead = true
				}
			}
			if !dead && k.vanish(ret, spec) != 1 {
				k.violate(pos, "%s can answer false although all 256 bits satisfy its definition (answer %s)", op, ret).with(x.st)
			}
		}
		k.atLeast("ways "+op+" answers true", yes, 1)
		k.noPanics(nil)
	}
	if fn := k.anchor("pkg/bitset256", "(*Bitset256).Less"); fn != nil {
		st, args := b.start(fn)
		before := [][]*Term{b.words(st, args[0]), b.words(st, args[1])}
		x0, y0 := before[0], before[1]
		xs, ok := k.run(fn, st, args)
		cases := 0
		if ok {
			for _, x := range xs {
				pos := k.p.pos(x.pos)
				if x.pan {
					k.violate(pos, "Less can panic").with(x.st)
					continue
				}
				unchanged(x, pos, "Less", args, before)
				for top := 3; top >= -1; top-- {
					for _, lt := range []bool{true, false} {
						s := x.st.clone()
						alive := true
						for j := 3; j > top; j-- {
							alive = alive && s.assume(mkEqInt(x0[j], y0[j]))
						}
						if top < 0 {
							if lt {
								continue
							}
						} else if lt {
							alive = alive && s.assume(mkLt(x0[top], y0[top]))
						} else {
							alive = alive && s.assume(mkLt(y0[top], x0[top]))
						}
						if !alive || k.refute(s) {
							continue
						}
						cases++
						k.count("facts", 1)
						want := -1
						if lt {
							want = 1
						}
						if s.decide(s.canon(x.ret[0])) != want {
							k.violate(pos, "Less is wrong where the highest differing word is number %d and the receiver's is the smaller one: %v (answer %s)", top, lt, s.canon(x.ret[0])).with(s)
						}
					}
				}
			}
			k.atLeast("orderings Less tells apart", cases, 9)
			k.noPanics(nil)
		}
	}
	if fn := k.anchor("pkg/bitset256", "(*Bitset256).Count"); fn != nil {
		st, args := b.start(fn)
		before := [][]*Term{b.words(st, args[0])}
		xs, ok := k.run(fn, st, args)
		if ok {
			k.atLeast("ways Count ends", len(xs), 1)
			want := t0
			for _, w := range before[0] {
				want = tAdd(want, mkAppR("popcount", big0, big.NewInt(64), w))
			}
			for _, x := range xs {
				k.equal(x.st, popBits(x.st.canon(x.ret[0])), popBits(want), k.p.pos(x.pos), "the count")
				unchanged(x, k.p.pos(x.pos), "Count", args, before)
			}
			k.noPanics(nil)
		}
	}
}

// popBits spells population counts out as sums of bits.
func popBits(t *Term) *Term {
	return rewrite(t, func(y *Term) *Term {
		if y.op == OApp && y.name == "popcount" {
			s := t0
			for i := 0; i < 64; i++ {
				s = tAdd(s, mkBits(y.args[0], i, 1))
			}
			return s
		}
		return nil
	})
}

func checkT03(k *Checker) {
	k.rule("Bit-precise abstract interpretation of AsBytes, FromBytes, AsHex, FromHex and String: AsBytes places each of the 256 bits at its own position of the 32 bytes (a permutation extracted from the result), FromBytes reads every bit from the position AsBytes gives it, in fresh memory, and succeeds exactly for 32 bytes; the hex forms are the hex coding of exactly these bytes.")
	b := k.bitset()
	if b == nil {
		return
	}
	e := k.e
	type place struct{ by, bit int }
	where := map[string]place{}
	var bytesTerm func(st *State, p *Term) *Term
	if fn := k.anchor("pkg/bitset256", "(*Bitset256).AsBytes"); fn != nil {
		st, args := b.start(fn)
		before := b.words(st, args[0])
		mark := e.nextObj()
		xs, ok := k.run(fn, st, args)
		if !ok {
			return
		}
		k.atLeast("ways AsBytes ends", len(xs), 1)
		for _, x := range xs {
			pos := k.p.pos(x.pos)
			if x.pan {
				k.violate(pos, "AsBytes can panic").with(x.st)
				return
			}
			k.onlyFresh(x.st, x.ret[0], fn.Signature.Results().At(0).Type(), mark, pos, "the byte form", nil)
			s := x.st.canon(e.seqOf(x.st, x.ret[0]))
			if n, ok := x.st.constOf(seqLen(s)); !ok || n != 32 {
				k.violate(pos, "the byte form has %s bytes instead of 32", seqLen(s))
				return
			}
			here := map[string]place{}
			for i := 0; i < 32; i++ {
				v := k.at(x.st, s, mkInt(int64(i)))
				for j := 0; j < 8; j++ {
					p, ok := anfBit(x.st.canon(v), j)
					k.count("facts", 1)
					if !ok || len(p) != 1 {
						k.violate(pos, "bit %d of byte %d of the byte form is not simply one bit of the set: %s", j, i, v)
						return
					}
					if o, dup := here[p.key()]; dup {
						k.violate(pos, "bit %d of byte %d of the byte form repeats bit %d of byte %d: another bit is lost", j, i, o.bit, o.by)
						return
					}
					here[p.key()] = place{i, j}
				}
			}
			for i, w := range before {
				for j := 0; j < 64; j++ {
					p, _ := anfBit(w, j)
					if _, ok := here[p.key()]; !ok {
						k.violate(pos, "bit %d of the set does not appear in its byte form", i*64+j)
						return
					}
				}
			}
			if len(where) > 0 && len(where) == len(here) {
				for q, p := range here {
					if where[q] != p {
						k.violate(pos, "the place of a bit in the byte form depends on the path taken")
						return
					}
				}
			}
			where = map[string]place{}
			for i, w := range before {
				for j := 0; j < 64; j++ {
					p, _ := anfBit(w, j)
					where[fmt.Sprintf("%d.%d", i, j)] = here[p.key()]
				}
			}
			for i, w := range b.words(x.st, args[0]) {
				k.sameBits(x.st, w, before[i], 64, pos, fmt.Sprintf("word %d after AsBytes", i))
			}
		}
		k.noPanics(nil)
	}
	if len(where) != 256 {
		k.violate("pkg/bitset256", "the byte form of a bitset could not be determined")
		return
	}
	bytesTerm = func(st *State, p *Term) *Term {
		ws := b.words(st, p)
		accs := make([]*linAcc, 32)
		for i := range accs {
			accs[i] = newAcc()
		}
		for i := 0; i < 4; i++ {
			for j := 0; j < 64; j++ {
				pl := where[fmt.Sprintf("%d.%d", i, j)]
				accs[pl.by].add(mkBits(ws[i], j, 1), pow2(pl.bit))
			}
		}
		var segs []*Term
		for _, a := range accs {
			segs = append(segs, mkElem(a.term(), true))
		}
		return mkSeq(segs...)
	}
	// fromBytes checks that a pointer refers to the set of a 32-byte sequence
	fromBytes := func(x Exit, p, s *Term, what string) {
		pos := k.p.pos(x.pos)
		ws := b.words(x.st, p)
		for i := 0; i < 4; i++ {
			for j := 0; j < 64; j++ {
				pl := where[fmt.Sprintf("%d.%d", i, j)]
				got, ok1 := anfBit(ws[i], j)
				want, ok2 := anfBit(x.st.canon(k.at(x.st, s, mkInt(int64(pl.by)))), pl.bit)
				k.count("facts", 1)
				if !ok1 || !ok2 || got.key() != want.key() {
					k.violate(pos, "%s: bit %d of the set is not read from bit %d of byte %d, where AsBytes puts it", what, i*64+j, pl.bit, pl.by).with(x.st)
					return
				}
			}
		}
	}
	if fn := k.anchor("pkg/bitset256", "FromBytes"); fn != nil {
		st := newState()
		args := k.symArgs(fn)
		s := e.seqOf(st, args[0])
		mark := e.nextObj()
		xs, ok := k.run(fn, st, args)
		if ok {
			good, bad := k.splitErr(xs, 1)
			k.exactly(fn, good, bad, []named{{"there are 32 bytes", mkEqInt(seqLen(s), mkInt(32))}})
			for _, x := range good {
				k.onlyFresh(x.st, x.ret[0], fn.Signature.Results().At(0).Type(), mark, k.p.pos(x.pos), "the set read from bytes", nil)
				fromBytes(x, x.ret[0], s, "FromBytes")
				k.equal(x.st, e.seqOf(x.st, args[0]), s, k.p.pos(x.pos), "the bytes after FromBytes read them")
			}
			for _, x := range bad {
				k.must(x.st, e.isNil(x.ret[0]), k.p.pos(x.pos), "FromBytes returns no set with an error")
			}
			k.noPanics(nil)
		}
	}
	if fn := k.anchor("pkg/bitset256", "FromHex"); fn != nil {
		st := newState()
		args := k.symArgs(fn)
		text := e.seqOf(st, args[0])
		dec := func(st *State) *Term { return bytesAtom("hexdec", st.canon(text)) }
		mark := e.nextObj()
		xs, ok := k.run(fn, st, args)
		if ok {
			good, bad := k.splitErr(xs, 1)
			k.exactlyF(fn, good, bad, func(st *State) []named {
				return []named{
					{"the text is hexadecimal", mkPred("hexok", st.canon(text))},
					{"it stands for 32 bytes", mkEqInt(seqLen(dec(st)), mkInt(32))},
				}
			})
			for _, x := range good {
				k.onlyFresh(x.st, x.ret[0], fn.Signature.Results().At(0).Type(), mark, k.p.pos(x.pos), "the set read from hex", nil)
				fromBytes(x, x.ret[0], dec(x.st), "FromHex")
			}
			for _, x := range bad {
				k.must(x.st, e.isNil(x.ret[0]), k.p.pos(x.pos), "FromHex returns no set with an error")
			}
			k.noPanics(nil)
		}
	}
	for _, op := range []string{"AsHex", "String"} {
		fn := k.anchor("pkg/bitset256", "(*Bitset256)."+op)
		if fn == nil {
			continue
		}
		st, args := b.start(fn)
		xs, ok := k.run(fn, st, args)
		if !ok {
			continue
		}
		for _, x := range xs {
			want := strAtom("hexenc", x.st.canon(bytesTerm(x.st, args[0])))
			k.equal(x.st, e.seqOf(x.st, x.ret[0]), want, k.p.pos(x.pos), "the result of "+op)
		}
		k.noPanics(nil)
	}
}
