package main

import (
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["M01"] = func(k *Checker) { checkArith(k, false) }
	checks["M02"] = func(k *Checker) { checkArith(k, true) }
	checks["M06"] = checkM06
	checks["M04"] = checkM04
}

// ---- checked arithmetic ----

type arithOp struct {
	name    string
	divisor int // index of the divisor, or -1
	results func(a []*Term) []*Term
}

func arithOps() []arithOp {
	bin := func(op string) func(a []*Term) []*Term {
		return func(a []*Term) []*Term { return []*Term{decBin(op, a[0], a[1])} }
	}
	return []arithOp{
		{"Add", -1, bin("Add")}, {"Sub", -1, bin("Sub")}, {"Mul", -1, bin("Mul")},
		{"Div", 1, bin("QuoInt")}, {"Mod", 1, bin("Rem")},
		{"DivMod", 1, func(a []*Term) []*Term { return []*Term{decBin("QuoInt", a[0], a[1]), decBin("Rem", a[0], a[1])} }},
		{"MulDiv", 2, func(a []*Term) []*Term { return []*Term{decBin("QuoInt", decBin("Mul", a[0], a[1]), a[2])} }},
	}
}

func checkArith(k *Checker, zero bool) {
	if zero {
		k.rule("abstract interpretation of every division, modulus, divide-with-remainder and multiply-then-divide operation, signed and unsigned, with unconstrained operands: a path that ends with the divide-by-zero error has established that the divisor is zero, and no path on which the divisor can be zero ends in anything but that error and zero values")
	} else {
		k.rule("abstract interpretation of every checked operation, signed and unsigned, with unconstrained operands, decimals being exact integers: a path ends without error exactly if the mathematical result fits into 64 bits (and the divisor is not zero), and then returns that result; a path that ends with an error returns zero")
		k.trust("the decimal library's operations are exact on these operands (its products are rounded to 34 digits, which can matter only where the result of a multiply-then-divide depends on digits beyond them)")
	}
	n := 0
	for _, pkg := range []string{"pkg/signed", "pkg/unsigned"} {
		for _, op := range arithOps() {
			if zero && op.divisor < 0 {
				continue
			}
			fn := k.anchor(pkg, op.name)
			if fn == nil {
				continue
			}
			k.fresh()
			st := newState()
			args := k.symArgs(fn)
			zeroErr := k.errorVar(st, "pkg/ndauerr", "ErrDivideByZero")
			want := op.results(args)
			xs, ok := k.runRegions(fn, st, args, want[0], pkg == "pkg/signed")
			if !ok {
				continue
			}
			n++
			good, bad := k.splitErr(xs, fn.Signature.Results().Len()-1)
			if zero {
				div := args[op.divisor]
				for _, x := range good {
					k.must(x.st, mkNot(mkEq0(div)), k.p.pos(x.pos), shortFn(fn.String())+" can succeed although the divisor is zero")
				}
				for _, x := range bad {
					isZ, notZ := fork(x.st, mkEq0(div))
					last := x.ret[len(x.ret)-1]
					if isZ != nil && !isZ.dead {
						k.equal(isZ, last, zeroErr, k.p.pos(x.pos), "the error of "+shortFn(fn.String())+" for a zero divisor")
						for _, r := range x.ret[:len(x.ret)-1] {
							k.equal(isZ, r, t0, k.p.pos(x.pos), "the value "+shortFn(fn.String())+" returns for a zero divisor")
						}
					}
					if notZ != nil && !notZ.dead && notZ.eqVal(last, zeroErr, 0) != -1 && !differentErrors(last, zeroErr) {
						k.violate(k.p.pos(x.pos), "%s can report a division by zero although the divisor is not zero", shortFn(fn.String())).with(notZ)
					}
				}
				k.noPanics(nil)
				continue
			}
			var conds []named
			if op.divisor >= 0 {
				conds = append(conds, named{"the divisor is not zero", mkNot(mkEq0(args[op.divisor]))})
			}
			for _, w := range want {
				conds = append(conds, named{"the result fits into 64 bits", decFits(w, pkg == "pkg/signed")})
			}
			k.exactly(fn, good, bad, conds)
			for _, x := range good {
				for i, w := range want {
					k.equal(x.st, x.ret[i], w, k.p.pos(x.pos), "the result of "+shortFn(fn.String()))
				}
			}
			for _, x := range bad {
				for i := range want {
					k.equal(x.st, x.ret[i], t0, k.p.pos(x.pos), "the value "+shortFn(fn.String())+" returns with an error")
				}
			}
			k.noPanics(nil)
		}
	}
	k.count("operations", n)
	if !zero {
		// the amount type's operations are these
		for _, op := range arithOps()[:2] {
			fn := k.anchor("pkg/types", "(Ndau)."+op.name)
			if fn == nil {
				continue
			}
			k.fresh()
			args := k.symArgs(fn)
			w := op.results(args)[0]
			xs, ok := k.runRegions(fn, newState(), args, w, true)
			if !ok {
				continue
			}
			good, bad := k.splitErr(xs, 1)
			k.exactly(fn, good, bad, []named{{"the result fits into 64 bits", decFits(w, true)}})
			for _, x := range good {
				k.equal(x.st, x.ret[0], w, k.p.pos(x.pos), "the result of "+shortFn(fn.String()))
			}
			k.noPanics(nil)
		}
	}
}

// ---- the exponential ----

// checkM04: fractions outside 0 to 1 are refused, no operation of the exponential wraps around, divides by zero or
// crashes in any other way, and every loop ends.
func checkM04(k *Checker) {
	k.rule("abstract interpretation of the fixed-point exponential, signed and unsigned, with unconstrained operands: every success exit has established 0 <= numerator <= denominator and denominator > 0; every +, - and * on integers in it, every division and every call is shown to stay within 64 bits and not to panic under the inductive invariants of its loops (with the fact that i <= x/f implies f*i <= x); every loop has an integer that at least doubles, or grows or falls by one towards a fixed bound, from one iteration to the next")
	for _, pkg := range []string{"pkg/signed", "pkg/unsigned"} {
		fn := k.anchor(pkg, "ExpFrac")
		if fn == nil {
			continue
		}
		k.fresh()
		args := k.symArgs(fn)
		if len(args) != 2 {
			k.violate(k.p.pos(fn.Pos()), "ExpFrac does not take a numerator and a denominator")
			continue
		}
		k.e.noWrap = func(f *ssa.Function) bool { return f.Pkg == fn.Pkg }
		st := newState()
		xs, ok := k.run(fn, st, args)
		k.e.noWrap = nil
		if !ok {
			continue
		}
		good, bad := k.splitErr(xs, 1)
		k.atLeast("success exits", len(good), 1)
		for _, x := range good {
			k.must(x.st, mkLe(t0, args[0]), k.p.pos(x.pos), shortFn(fn.String())+" can succeed with a negative numerator")
			k.must(x.st, mkLe(args[0], args[1]), k.p.pos(x.pos), shortFn(fn.String())+" can succeed with a fraction above one")
			k.must(x.st, mkLe(mkInt(1), args[1]), k.p.pos(x.pos), shortFn(fn.String())+" can succeed with a denominator that is not positive")
		}
		for _, x := range bad {
			k.equal(x.st, x.ret[0], t0, k.p.pos(x.pos), "the value "+shortFn(fn.String())+" returns with an error")
		}
		loops := 0
		for _, s := range k.e.sums {
			if s.fn.Pkg == nil || s.fn.Pkg != fn.Pkg {
				continue
			}
			loops++
			if v := terminates(s); v == "" {
				k.violate(k.p.pos(s.header.Instrs[0].Pos()), "nothing shows that the loop of %s ends", shortFn(s.fn.String()))
			}
		}
		k.count("loops", loops)
		k.noPanics(nil)
	}
}

// terminates names the quantity that shows that a loop ends after a bounded number of iterations.
func terminates(s *loopSummary) string {
	if len(s.backs) == 0 {
		return "no second iteration"
	}
	for i, p := range s.phis {
		if !isIntType(p.phi.Type()) {
			continue
		}
		doubles, counts := true, true
		for _, b := range s.backs {
			v := b.vals[i]
			if b.st.decide(mkAnd(mkLe(mkInt(1), p.cur), mkLe(tScale(p.cur, big.NewInt(2)), v))) != 1 {
				doubles = false
			}
			// towards a bound: v falls and stays non-negative
			if b.st.decide(mkAnd(mkLe(t0, v), mkLt(v, p.cur))) != 1 || p.init.op != OInt {
				counts = false
			}
		}
		if doubles || counts {
			return p.phi.Comment
		}
	}
	return ""
}

// runRegions examines a function separately where a sum is below, within and above the range of 64-bit numbers.
func (k *Checker) runRegions(fn *ssa.Function, st *State, args []*Term, sum *Term, signed bool) ([]Exit, bool) {
	if sum.op != OLin {
		return k.run(fn, st, args)
	}
	lo, hi := t0, mkBig(maxU64)
	if signed {
		lo, hi = mkBig(minI64), mkBig(maxI64)
	}
	var out []Exit
	for _, lits := range [][]*Term{{mkLt(sum, lo)}, {mkLe(lo, sum), mkLe(sum, hi)}, {mkLt(hi, sum)}} {
		s := st.clone()
		dead := false
		for _, l := range lits {
			dead = dead || !s.assume(l)
		}
		if dead {
			continue
		}
		xs, ok := k.run(fn, s, args)
		if !ok {
			return nil, false
		}
		for _, x := range xs {
			if !k.refute(x.st.clone()) {
				out = append(out, x)
			}
		}
	}
	return out, true
}

// errorVar is the error a package variable holds.
func (k *Checker) errorVar(st *State, pkg, name string) *Term {
	if sp := k.p.ssa[modPath+"/"+pkg]; sp != nil {
		if g, ok := sp.Members[name].(*ssa.Global); ok {
			return k.e.load(st, k.e.globalPtr(g))
		}
	}
	k.violate(pkg, "the variable %s was not found", name)
	return mkNil(nil)
}

// differentErrors: errors made at different places are different values.
func differentErrors(a, b *Term) bool {
	made := func(t *Term) bool {
		return t.op == OIface && t.args[0].op == OApp && strings.HasPrefix(t.args[0].name, "err:new@")
	}
	return made(a) && made(b) && a.args[0].name != b.args[0].name
}

// ---- timestamps ----

func checkM06(k *Checker) {
	k.rule("abstract interpretation of adding to and subtracting from an unconstrained non-negative timestamp an unconstrained duration, in exact integers with wrap-around made explicit: on every path the result must be the exact sum where that lies between 0 and the maximum, and the bound on the side it left otherwise")
	maxTS := big.NewInt(0)
	if sp := k.p.ssa[modPath+"/pkg/constants"]; sp != nil {
		if c, ok := sp.Members["MaxTimestamp"].(*ssa.NamedConst); ok {
			maxTS.SetString(c.Value.Value.ExactString(), 10)
		}
	}
	if maxTS.Cmp(maxI64) != 0 {
		k.violate("pkg/constants", "the maximum timestamp is %s, not the largest 64-bit number", maxTS)
	}
	for _, m := range []string{"Add", "Sub"} {
		fn := k.anchor("pkg/types", "(Timestamp)."+m)
		if fn == nil {
			continue
		}
		k.fresh()
		st := newState()
		args := k.symArgs(fn)
		st.assume(mkLe(t0, args[0]))
		sum := tAdd(args[0], args[1])
		if m == "Sub" {
			sum = tSub(args[0], args[1])
		}
		n := 0
		for _, c := range []struct {
			lits []*Term
			want *Term
			what string
		}{
			{[]*Term{mkLt(sum, mkBig(minI64))}, t0, "the lower bound"},
			{[]*Term{mkLe(mkBig(minI64), sum), mkLt(sum, t0)}, t0, "the lower bound"},
			{[]*Term{mkLe(t0, sum), mkLe(sum, mkBig(maxTS))}, sum, "the exact sum"},
			{[]*Term{mkLt(mkBig(maxTS), sum)}, mkBig(maxTS), "the upper bound"},
		} {
			s := st.clone()
			dead := false
			for _, l := range c.lits {
				dead = dead || !s.assume(l)
			}
			if dead {
				continue
			}
			xs, ok := k.run(fn, s, args)
			if !ok {
				continue
			}
			for _, x := range xs {
				if x.pan || k.refute(x.st.clone()) {
					continue
				}
				n++
				k.equal(x.st, x.ret[0], c.want, k.p.pos(x.pos), shortFn(fn.String())+" where it must be "+c.what)
			}
		}
		k.atLeast("paths of "+fn.Name(), n, 1)
		k.count("paths_examined", n)
		k.noPanics(nil)
	}
}
