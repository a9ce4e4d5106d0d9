// Package decimal is a stand-in for github.com/ericlagergren/decimal, which is not available offline.
// It declares just the API ndaumath uses, so that the packages depending on it type-check.
// Values are exact integers (math/big); that is what ndaumath uses the library for.
package decimal

import "math/big"

type Context struct{ Precision int }

var Context128 = Context{Precision: 34}

type Big struct {
	v   big.Int
	bad bool
}

func WithContext(c Context) *Big { return new(Big) }

func (z *Big) SetMantScale(value int64, scale int) *Big { z.v.SetInt64(value); return z }
func (z *Big) SetUint64(x uint64) *Big                  { z.v.SetUint64(x); return z }
func (z *Big) Add(x, y *Big) *Big                       { z.bad = x.bad || y.bad; z.v.Add(&x.v, &y.v); return z }
func (z *Big) Sub(x, y *Big) *Big                       { z.bad = x.bad || y.bad; z.v.Sub(&x.v, &y.v); return z }
func (z *Big) Mul(x, y *Big) *Big                       { z.bad = x.bad || y.bad; z.v.Mul(&x.v, &y.v); return z }
func (z *Big) QuoInt(x, y *Big) *Big {
	if y.v.Sign() == 0 {
		z.bad = true
		return z
	}
	z.bad = x.bad || y.bad
	z.v.Quo(&x.v, &y.v)
	return z
}
func (z *Big) Rem(x, y *Big) *Big {
	if y.v.Sign() == 0 {
		z.bad = true
		return z
	}
	z.bad = x.bad || y.bad
	z.v.Rem(&x.v, &y.v)
	return z
}
func (z *Big) QuoRem(x, y, r *Big) (*Big, *Big) {
	if y.v.Sign() == 0 {
		z.bad, r.bad = true, true
		return z, r
	}
	z.bad = x.bad || y.bad
	q, rr := new(big.Int).QuoRem(&x.v, &y.v, new(big.Int))
	z.v.Set(q)
	r.v.Set(rr)
	return z, r
}
func (z *Big) Int64() (int64, bool) {
	if z.bad || !z.v.IsInt64() {
		return 0, false
	}
	return z.v.Int64(), true
}
func (z *Big) Uint64() (uint64, bool) {
	if z.bad || !z.v.IsUint64() {
		return 0, false
	}
	return z.v.Uint64(), true
}
