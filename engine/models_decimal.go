package main

import (
	"go/types"
	"math/big"
)

// Decimal arithmetic: the content of a decimal object is "dec" of an integer. Sums and differences of 64-bit operands
// are exact; products, quotients and remainders are functions of the exact operands.

func (e *Engine) decVal(st *State, p *Term) *Term {
	v := e.load(st, p)
	if v.op == OApp && v.name == "dec" {
		return v.args[0]
	}
	return mkApp("decvalue", nil, v)
}

func (e *Engine) decSet(st *State, p, v *Term) { e.store(st, p, mkApp("dec", nil, v)) }

var (
	minI64 = new(big.Int).Neg(pow2(63))
	maxI64 = new(big.Int).Sub(pow2(63), big1)
	maxU64 = new(big.Int).Sub(pow2(64), big1)
)

func decBin(op string, x, y *Term) *Term {
	switch op {
	case "Add":
		return tAdd(x, y)
	case "Sub":
		return tSub(x, y)
	}
	if x.isConst() && y.isConst() && (op == "Mul" || y.val.Sign() != 0) {
		switch op {
		case "Mul":
			return mkBig(new(big.Int).Mul(x.val, y.val))
		case "QuoInt":
			return mkBig(new(big.Int).Quo(x.val, y.val))
		case "Rem":
			return mkBig(new(big.Int).Rem(x.val, y.val))
		}
	}
	return mkApp("dec"+op, nil, x, y)
}

// decFits: the value can be represented in 64 bits.
func decFits(v *Term, signed bool) *Term {
	if signed {
		return mkAnd(mkLe(mkBig(minI64), v), mkLe(v, mkBig(maxI64)))
	}
	return mkAnd(mkLe(t0, v), mkLe(v, mkBig(maxU64)))
}

func decimalModels(m map[string]modelFn) {
	p := "github.com/ericlagergren/decimal"
	m[p+".WithContext"] = func(e *Engine, c *callCtx) []Exit {
		t := c.sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		return one(c, e.alloc(c.st, t, mkApp("dec", nil, t0), "decimal"))
	}
	set := func(e *Engine, c *callCtx) []Exit {
		v := c.st.canon(c.args[1])
		if len(c.args) > 2 && c.st.decide(mkEq0(c.args[2])) != 1 {
			v = mkApp("decscale", nil, v, c.args[2])
		}
		e.decSet(c.st, c.args[0], v)
		return one(c, c.args[0])
	}
	b := "(*" + p + ".Big)"
	m[b+".SetMantScale"] = set
	m[b+".SetUint64"] = set
	m[b+".Set"] = func(e *Engine, c *callCtx) []Exit {
		e.decSet(c.st, c.args[0], e.decVal(c.st, c.args[1]))
		return one(c, c.args[0])
	}
	for _, op := range []string{"Add", "Sub", "Mul", "QuoInt", "Rem"} {
		op := op
		m[b+"."+op] = func(e *Engine, c *callCtx) []Exit {
			x, y := e.decVal(c.st, c.args[1]), e.decVal(c.st, c.args[2])
			v := decBin(op, x, y)
			if (op == "Mul" || op == "QuoInt") && !v.isConst() && c.st.decide(mkAnd(mkLe(t0, x), mkLe(t0, y))) == 1 {
				c.st.assume(mkLe(t0, v))
			}
			e.decSet(c.st, c.args[0], v)
			return one(c, c.args[0])
		}
	}
	m[b+".QuoRem"] = func(e *Engine, c *callCtx) []Exit {
		x, y := e.decVal(c.st, c.args[1]), e.decVal(c.st, c.args[2])
		e.decSet(c.st, c.args[0], decBin("QuoInt", x, y))
		e.decSet(c.st, c.args[3], decBin("Rem", x, y))
		return one(c, c.args[0], c.args[3])
	}
	conv := func(signed bool) modelFn {
		return func(e *Engine, c *callCtx) []Exit {
			v := c.st.canon(e.decVal(c.st, c.args[0]))
			rt := c.sig.Results().At(0).Type()
			return c.split(decFits(v, signed), func(*State) []*Term { return []*Term{v, tTrue} }, func(*State) []*Term {
				return []*Term{e.materialize(mkApp("decunfit", rt, v), rt), tFalse}
			})
		}
	}
	m[b+".Int64"] = conv(true)
	m[b+".Uint64"] = conv(false)
}
