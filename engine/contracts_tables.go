package main

import (
	"fmt"
	"math/big"
)

func init() { checks["M05"] = checkM05 }

// floorExp is the largest integer not above e^i, from the series with a remainder bound.
func floorExp(i int) *big.Int {
	if i == 0 {
		return big.NewInt(1)
	}
	const prec = 400
	one := new(big.Int).Lsh(big1, prec)
	// e^i = sum i^n/n!, truncated downwards; the terms past n = 400 and the truncation errors stay below 2^-300
	sum, term := new(big.Int), new(big.Int).Set(one)
	for n := int64(1); term.Sign() > 0 || n < 400; n++ {
		sum.Add(sum, term)
		term.Mul(term, big.NewInt(int64(i)))
		term.Quo(term, big.NewInt(n))
	}
	lo := new(big.Int).Rsh(sum, prec)
	hi := new(big.Int).Rsh(new(big.Int).Add(sum, new(big.Int).Lsh(big1, prec-300)), prec)
	if lo.Cmp(hi) != 0 {
		return nil // undecided; e^i is never that close to an integer for the i used here
	}
	return lo
}

// nearPrice: v is within tol of 10^11 * 2^(14*block/last), decided exactly in integers.
func nearPrice(v *big.Int, tol, block, last int64) bool {
	pw := func(x *big.Int) *big.Int { return new(big.Int).Exp(x, big.NewInt(last), nil) }
	f := pw(big.NewInt(100000000000))
	f.Lsh(f, uint(14*block))
	lo, hi := new(big.Int).Sub(v, big.NewInt(tol)), new(big.Int).Add(v, big.NewInt(tol))
	return lo.Sign() >= 0 && pw(lo).Cmp(f) <= 0 && f.Cmp(pw(hi)) <= 0
}

func checkM05(k *Checker) {
	k.rule("abstract interpretation of the price functions over one interval of amounts sold for each examined sale block, and of the integer logarithm over a partition of all 64-bit numbers into the intervals between the powers of e: the abstract result is one number for the whole interval; the logarithm must be the interval's index, and a price must agree with 10^11 * 2^(14*block/9999) (10000 in the legacy function only) up to the truncations on its way, which exact integer arithmetic decides")
	k.trust("the decimal library's operations on integers are exact")
	// ---- logarithm ----
	if fn := k.anchor("pkg/unsigned", "LnInt"); fn != nil {
		lo := big.NewInt(0)
		n := 0
		for i := 0; i < 60 && lo.Cmp(maxU64) <= 0; i++ {
			fe := floorExp(i)
			if fe == nil {
				k.violate(k.p.pos(fn.Pos()), "e^%d could not be bounded", i)
				break
			}
			// x in [lo, hi] has logarithm i-1; the least x of logarithm i is the ceiling of e^i
			next := new(big.Int).Set(fe)
			if i > 0 {
				next.Add(next, big1)
			}
			hi := new(big.Int).Sub(next, big1)
			if hi.Cmp(maxU64) > 0 {
				hi = maxU64
			}
			k.fresh()
			st := newState()
			args := k.symArgs(fn)
			st.assume(mkLe(mkBig(lo), args[0]))
			st.assume(mkLe(args[0], mkBig(hi)))
			xs, ok := k.run(fn, st, args)
			if ok {
				n++
				for _, x := range xs {
					if x.pan || k.refute(x.st.clone()) {
						continue
					}
					k.equal(x.st, x.ret[0], mkInt(int64(i-1)), k.p.pos(x.pos), fmt.Sprintf("LnInt of every number from %s to %s", lo, hi))
				}
				k.noPanics(nil)
			}
			lo = next
		}
		k.atLeast("logarithm intervals", n, 45)
		k.count("logarithm_intervals", n)
	}
	// ---- prices ----
	var blocks []int64
	for b := int64(0); b <= 70; b++ {
		blocks = append(blocks, b)
	}
	for n := uint(7); n <= 13; n++ {
		p := int64(1) << n
		blocks = append(blocks, p, p+1, p+37)
	}
	for _, f := range []struct {
		name string
		last int64
	}{{"PriceAtUnit", 9999}, {"PriceAtUnit9999", 9999}, {"PriceAtUnit10000", 10000}} {
		fn := k.anchor("pkg/pricecurve", f.name)
		if fn == nil {
			continue
		}
		n := 0
		for _, b := range blocks {
			k.fresh()
			st := newState()
			args := k.symArgs(fn)
			unit := int64(1000 * 100000000)
			st.assume(mkLe(mkInt(b*unit), args[0]))
			st.assume(mkLe(args[0], mkInt((b+1)*unit-1)))
			xs, ok := k.run(fn, st, args)
			if !ok {
				continue
			}
			k.noPanics(nil)
			p := int64(1)
			for b >= 2*p {
				p *= 2
			}
			tol := int64(1)
			if b > 1 {
				tol += 2 * (b - p + 1)
			}
			for _, x := range xs {
				if x.pan || k.refute(x.st.clone()) {
					continue
				}
				what := fmt.Sprintf("%s for amounts sold in block %d", shortFn(fn.String()), b)
				v := x.st.canon(x.ret[0])
				if x.st.decide(k.e.isNil(x.ret[1])) != 1 {
					k.violate(k.p.pos(x.pos), "%s may fail", what).with(x.st)
				} else if v.op != OInt {
					k.violate(k.p.pos(x.pos), "%s is not one number: %s", what, v).with(x.st)
				} else if !nearPrice(v.val, tol, b, f.last) {
					k.violate(k.p.pos(x.pos), "%s is %s, which is not 10^11 * 2^(14*%d/%d) up to %d units", what, v.val, b, f.last, tol)
				} else {
					n++
				}
			}
		}
		k.atLeast("blocks of "+f.name, n, len(blocks))
		k.count("price_blocks", n)
	}
}
