package main

import (
	"go/token"
	"math/big"
)

// ---- walking over the set bits of a word, lowest first ----
//
// lowidx(x)   index of the lowest set bit of x (meaningful when x is not 0)
// clearlow(x) x without its lowest set bit
// rest(w,k)   w without its k lowest set bits; it is 0 exactly when k >= popcount(w)
// nthbit(w,k) index of the k-th set bit of w, counted from the lowest (meaningful when k < popcount(w))

var max64 = new(big.Int).Sub(pow2(64), big1)

func isRest(x *Term) bool { return x.op == OApp && x.name == "rest" }

func mkLowIdx(x *Term) *Term {
	if isRest(x) {
		return mkNthBit(x.args[0], x.args[1])
	}
	return mkNthBit(x, t0)
}

func mkNthBit(w, k *Term) *Term { return mkAppR("nthbit", big0, big.NewInt(63), w, k) }

func mkClearLow(x *Term) *Term {
	if isRest(x) {
		return mkRest(x.args[0], tAddI(x.args[1], 1))
	}
	return mkRest(x, t1)
}

func mkRest(w, k *Term) *Term {
	if k == t0 {
		return w
	}
	if isRest(w) {
		return mkRest(w.args[0], tAdd(w.args[1], k))
	}
	return mkAppR("rest", big0, max64, w, k)
}

func mkPopcount(w *Term) *Term { return mkAppR("popcount", big0, big.NewInt(64), w) }

func init() {
	appRebuild["rest"] = func(y *Term, as []*Term) *Term { return mkRest(as[0], as[1]) }
	appRebuild["nthbit"] = func(y *Term, as []*Term) *Term {
		if isRest(as[0]) {
			return mkNthBit(as[0].args[0], tAdd(as[0].args[1], as[1]))
		}
		return nil
	}
}

// restEmpty is the literal "rest(w,k) is 0" for t = ±rest(w,k), or nil.
func restEmpty(t *Term) *Term {
	if isRest(t) {
		return mkLe(mkPopcount(t.args[0]), t.args[1])
	}
	if t.op == OLin && len(t.args) == 1 && t.val.Sign() == 0 && isRest(t.args[0]) {
		return restEmpty(t.args[0])
	}
	return nil
}

// restPositive recognises 1-rest(w,k) <= 0.
func restPositive(t *Term) *Term {
	if t.op == OLin && len(t.args) == 1 && isRest(t.args[0]) && t.val.Cmp(big1) == 0 && t.coef[0].Cmp(big.NewInt(-1)) == 0 {
		return mkNot(restEmpty(t.args[0]))
	}
	return nil
}

// lowBitOp recognises the idioms that isolate or clear the lowest set bit of a word known not to be 0.
func (e *Engine) lowBitOp(st *State, op token.Token, a, b *Term, w int, signed bool) *Term {
	if w != 64 || signed || a.op == OInt || b.op == OInt {
		return nil
	}
	try := func(a, b *Term) *Term {
		if a.op == OLin || a.op == OBits || a.op == OInt {
			return nil
		}
		bit := mkAppR("shl", big0, max64, t1, mkLowIdx(a))
		one := b == bit
		if b.op == OApp && b.name == "shl" && b.args[0] == t1 && b.args[1] == mkLowIdx(a) {
			one = true
		}
		switch op {
		case token.AND:
			switch {
			case b == tAddI(a, -1), b.op == OLin && tSub(mkBig(max64), b) == bit:
				return mkClearLow(a)
			case b == tSub(mkBig(pow2(64)), a), b == mkBits(tNeg(a), 0, 64):
				return bit
			}
		case token.XOR, token.SUB:
			if one {
				return mkClearLow(a)
			}
		}
		return nil
	}
	r := try(a, b)
	if r == nil && op != token.SUB {
		r, a = try(b, a), b
	}
	if r == nil || st.decide(mkEq0(a)) != -1 {
		return nil
	}
	return r
}
