package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["M09"] = checkM09 }

// rate tables are examined up to this many rows
const (
	lookupRows = 16
	sliceRows  = 10
)

// rateTable makes a table of n rows in increasing order, all fields unknown.
func (k *Checker) rateTable(st *State, t types.Type, n int, start func(*Term) *Term) (tbl *Term, from, rate []*Term) {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil, nil, nil
	}
	rs, ok := sl.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil, nil, nil
	}
	fi, ri := fieldNamed(rs, "From"), fieldNamed(rs, "Rate")
	if fi < 0 || ri < 0 {
		return nil, nil, nil
	}
	var rows []*Term
	for i := 0; i < n; i++ {
		fs := make([]*Term, rs.NumFields())
		for j := range fs {
			fs[j] = k.e.materialize(mkSym(fmt.Sprintf("row%d.%s", i, rs.Field(j).Name()), rs.Field(j).Type()), rs.Field(j).Type())
		}
		if start != nil {
			fs[fi] = start(fs[fi])
		}
		from, rate = append(from, fs[fi]), append(rate, fs[ri])
		rows = append(rows, mkElem(mkStruct(fs...), false))
		if i > 0 {
			st.assume(mkLt(from[i-1], from[i]))
		}
	}
	return k.e.newSlice(st, mkSeq(rows...), sl.Elem(), nil, "table"), from, rate
}

func fieldNamed(t *types.Struct, name string) int {
	for i := 0; i < t.NumFields(); i++ {
		if t.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func checkM09(k *Checker) {
	k.rule("abstract interpretation of the two readings of a rate table, for every table length up to a bound and unknown, increasing row starts and unknown rates: a point's rate must be that of the last row that starts at or before it, zero before the first row; and on every path of slicing, the slice's durations must add up to the period, none of them negative, and every piece must carry the rate of the row that holds throughout the piece (with a freeze, of the row that holds at the freeze point wherever the piece lies after it)")
	fn := k.anchor("pkg/eai", "(RateTable).RateAt")
	if fn == nil {
		return
	}
	for n := 0; n <= lookupRows; n++ {
		k.fresh()
		st := newState()
		args := k.symArgs(fn)
		tbl, from, rate := k.rateTable(st, fn.Params[0].Type(), n, nil)
		if tbl == nil {
			k.violate(k.p.pos(fn.Pos()), "a rate table is not a list of rows with a start and a rate")
			return
		}
		args[0] = tbl
		xs, ok := k.run(fn, st, args)
		if !ok {
			return
		}
		k.atLeast("ways a lookup ends", len(xs), 1)
		k.count("table_lengths", 1)
		for _, x := range xs {
			if x.pan {
				continue
			}
			// the point lies in exactly one of the n+1 stretches of the table
			for j := -1; j < n; j++ {
				s := x.st.clone()
				want := t0
				if j >= 0 {
					want = rate[j]
					if !s.assume(mkLe(from[j], args[1])) {
						continue
					}
				}
				if j+1 < n && !s.assume(mkLt(args[1], from[j+1])) || k.refute(s.clone()) {
					continue
				}
				k.count("facts", 1)
				k.equal(s, x.ret[0], want, k.p.pos(x.pos), fmt.Sprintf("the rate in stretch %d of a table of %d rows", j+1, n))
			}
		}
		k.noPanics(nil)
	}
	k.slices("Slice", 1)
	k.slices("SliceF", 3)
}

func (k *Checker) slices(name string, modes int) {
	fn := k.anchor("pkg/eai", "(RateTable)."+name)
	if fn == nil {
		return
	}
	res, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice)
	if !ok {
		k.violate(k.p.pos(fn.Pos()), "slicing does not return a list")
		return
	}
	rs, ok := res.Elem().Underlying().(*types.Struct)
	if !ok || fieldNamed(rs, "Duration") < 0 || fieldNamed(rs, "Rate") < 0 {
		k.violate(k.p.pos(fn.Pos()), "a slice is not a list of rows with a duration and a rate")
		return
	}
	for n := 0; n <= sliceRows; n++ {
		// no freeze, a freeze, a freeze given as a negative number
		for mode := 0; mode < modes; mode++ {
			k.fresh()
			k.e.morePar = 500
			st := newState()
			args := k.symArgs(fn)
			// numbers of 60 bits around zero: their sums stay within 64 bits
			small := func(v *Term) *Term {
				return tAddI(mkBits(k.e.materialize(mkSym(v.String()+"'", nil), types.Typ[types.Uint64]), 0, 60), -1<<59)
			}
			tbl, from, rate := k.rateTable(st, fn.Params[0].Type(), n, small)
			args[0] = tbl
			for i := 1; i < 4; i++ {
				args[i] = small(args[i])
			}
			freeze := t0
			if mode > 0 {
				freeze = tAddI(mkBits(k.e.materialize(mkSym("freeze", nil), types.Typ[types.Uint64]), 0, 59), 1)
			}
			switch {
			case len(args) > 4 && mode == 2:
				args[4] = tNeg(freeze)
			case len(args) > 4:
				args[4] = freeze
			}
			xs, ok := k.run(fn, st, args)
			if !ok {
				return
			}
			k.atLeast("ways slicing ends", len(xs), 1)
			k.count("slicings", 1)
			for _, x := range xs {
				if !x.pan && !k.sliced(fn, x, args, freeze, from, rate, rs) {
					return
				}
			}
			k.noPanics(nil)
		}
	}
}

// sliced checks one way slicing ends.
func (k *Checker) sliced(fn *ssa.Function, x Exit, args []*Term, freeze *Term, from, rate []*Term, rs *types.Struct) bool {
	if k.refute(x.st.clone()) {
		return true
	}
	pos := k.p.pos(x.pos)
	n := len(from)
	what := fmt.Sprintf("slicing a table of %d rows", n)
	out := x.st.canon(k.e.seqOf(x.st, x.ret[0]))
	cnt, ok := x.st.constOf(seqLen(out))
	if !ok {
		k.violate(pos, "%s gives %s pieces", what, seqLen(out)).with(x.st)
		return false
	}
	di, ri := fieldNamed(rs, "Duration"), fieldNamed(rs, "Rate")
	var dur, rt []*Term
	for i := int64(0); i < cnt; i++ {
		v := k.e.seqAt(x.st, out, mkInt(i), nil)
		if v != nil {
			v = x.st.canon(v)
		}
		if v == nil || v.op != OStruct {
			k.violate(pos, "piece %d of %s could not be followed: %s", i, what, v).with(x.st)
			return false
		}
		dur, rt = append(dur, v.args[di]), append(rt, v.args[ri])
	}
	total := t0
	for _, d := range dur {
		total = tAdd(total, d)
	}
	// an empty period
	s := x.st.clone()
	if s.assume(mkLe(args[2], args[1])) && !k.refute(s.clone()) {
		k.count("facts", 1)
		k.equal(s, total, t0, pos, "the length of an empty period in "+what)
	}
	s = x.st.clone()
	if !s.assume(mkLt(args[1], args[2])) || k.refute(s.clone()) {
		return true
	}
	if !k.equal(s, total, tSub(args[2], args[1]), pos, "the sum of the durations in "+what) {
		return false
	}
	k.count("facts", 1)
	at := tAdd(args[1], args[3])
	frozen := tSub(tAdd(args[2], args[3]), freeze)
	holds := func(s *State, l *Term) bool { k.count("facts", 1); return s.decide(l) == 1 }
	for i := range dur {
		next := tAdd(at, dur[i])
		if !holds(s, mkLe(t0, dur[i])) {
			k.violate(pos, "piece %d of %s can have a negative duration: %s", i, what, dur[i]).with(s)
			return false
		}
		good := false
		for j := -1; j < n && !good; j++ {
			r := t0
			if j >= 0 {
				r = rate[j]
			}
			if s.eqVal(s.canon(rt[i]), s.canon(r), 0) != 1 {
				continue
			}
			// the row has begun, at the piece's start and at the freeze point
			if j >= 0 && !(holds(s, mkLe(from[j], at)) && holds(s, mkLe(from[j], frozen))) {
				continue
			}
			// and its successor does not begin before the piece's end, or not before the freeze
			good = j == n-1 || holds(s, mkLe(next, from[j+1])) || holds(s, mkLt(frozen, from[j+1]))
		}
		if !good {
			k.violate(pos, "piece %d of %s, from %s to %s, has rate %s, which is not the rate of a row that holds throughout", i, what, at, next, rt[i]).with(s)
			return false
		}
		at = next
	}
	return true
}

func init() { checks["M10"] = checkM10 }

func checkM10(k *Checker) {
	k.rule("abstract interpretation of the rate calculation for an account without a lock, with a lock that was not notified, with a notified lock before and from its unlocking on, with unknown ages, times and rates, table lookup and lock being deterministic: the rate must be the table's at the age (plus the notice period, or the time until unlocking), and the lock's bonus is added exactly while it is locked")
	fn := k.anchor("pkg/eai", "CalculateEAIRate")
	look := k.anchor("pkg/eai", "(RateTable).RateAt")
	if fn == nil || look == nil {
		return
	}
	lockT := fn.Params[1].Type()
	iface, ok := lockT.Underlying().(*types.Interface)
	if !ok {
		k.violate(k.p.pos(fn.Pos()), "a lock is not an interface")
		return
	}
	cases := 0
	for _, c := range []string{"without a lock", "with a lock that was not notified", "with a notified lock", "with a lock that has run out"} {
		k.fresh()
		st := newState()
		args := k.symArgs(fn)
		small := func(name string, bits int) *Term {
			return mkBits(k.e.materialize(mkSym(name, nil), types.Typ[types.Uint64]), 0, bits)
		}
		// the results of RateAt, as an unknown function of the table and the point
		rateAt := func(st *State, table, p *Term) *Term {
			return mkBits(k.e.materialize(mkApp("rateAt", nil, k.e.snap(st, table), p), types.Typ[types.Uint64]), 0, 60)
		}
		k.e.opaque[look.String()] = func(e *Engine, c *callCtx) []Exit {
			return []Exit{{st: c.st, ret: []*Term{rateAt(c.st, c.args[0], c.st.canon(c.args[1]))}}}
		}
		age, notice, bonus := small("age", 60), small("notice", 60), small("bonus", 60)
		at, unlocks := small("at", 60), small("unlocks", 60)
		args[0], args[3] = age, at
		point, extra := age, t0
		nilLock := k.e.isNil(args[1])
		if c == "without a lock" {
			st.assume(nilLock)
		} else {
			st.assume(mkNot(nilLock))
		}
		var on *Term
		for i := 0; i < iface.NumMethods(); i++ {
			m := iface.Method(i)
			if m.Name() != "GetUnlocksOn" {
				continue
			}
			pt := m.Type().(*types.Signature).Results().At(0).Type()
			if p, ok := pt.Underlying().(*types.Pointer); ok {
				if on = k.e.alloc(st, p.Elem(), unlocks, "unlocks"); c == "with a lock that was not notified" {
					on = mkNil(pt)
				}
			}
		}
		if on == nil {
			k.violate(k.p.pos(fn.Pos()), "a lock does not tell when it unlocks")
			return
		}
		for n, v := range map[string]*Term{"GetUnlocksOn": on, "GetNoticePeriod": notice, "GetBonusRate": bonus} {
			v := v
			k.e.opaque["invoke:"+types.TypeString(lockT, nil)+"."+n] = func(e *Engine, c *callCtx) []Exit {
				return []Exit{{st: c.st, ret: []*Term{v}}}
			}
		}
		switch c {
		case "with a lock that was not notified":
			point, extra = tAdd(age, notice), bonus
		case "with a notified lock":
			st.assume(mkLt(at, unlocks))
			point, extra = tAdd(age, tSub(unlocks, at)), bonus
		case "with a lock that has run out":
			st.assume(mkLe(unlocks, at))
		}
		xs, ok := k.run(fn, st, args)
		if !ok {
			return
		}
		for _, x := range xs {
			if x.pan || k.refute(x.st.clone()) {
				continue
			}
			cases++
			k.count("facts", 1)
			k.equal(x.st, x.ret[0], tAdd(rateAt(x.st, args[2], x.st.canon(point)), extra), k.p.pos(x.pos), "the rate "+c)
		}
		k.noPanics(nil)
	}
	k.atLeast("ways the rate is calculated", cases, 4)
}

func init() { checks["M11"] = checkM11 }

func checkM11(k *Checker) {
	k.rule("abstract interpretation of the operations on amounts and timestamps with unknown operands, in exact integers with wrap-around made explicit: addition and subtraction give the exact result and no error exactly when it fits in 64 bits; comparison gives -1, 0 or 1 as the first operand is less than, equal to or greater than the second; the absolute value and the time between two non-negative timestamps are exact")
	type way struct {
		lits []*Term
		want *Term // nil: an error
		what string
	}
	n := 0
	try := func(pkg, name string, hasErr bool, ways func(a []*Term) []way) {
		fn := k.anchor(pkg, name)
		if fn == nil {
			return
		}
		k.fresh()
		st := newState()
		args := k.symArgs(fn)
		for _, w := range ways(args) {
			s := st.clone()
			dead := false
			for _, l := range w.lits {
				dead = dead || !s.assume(l)
			}
			if dead {
				continue
			}
			xs, ok := k.run(fn, s, args)
			if !ok {
				return
			}
			for _, x := range xs {
				if x.pan || k.refute(x.st.clone()) {
					continue
				}
				n++
				k.count("facts", 1)
				pos := k.p.pos(x.pos)
				if hasErr {
					want := 1
					if w.want == nil {
						want = -1
					}
					if x.st.decide(k.e.isNil(x.ret[1])) != want {
						k.violate(pos, "%s where the result %s: an error is given where there should be none, or none where there should be", name, w.what).with(x.st)
						continue
					}
				}
				if w.want != nil {
					k.equal(x.st, x.ret[0], w.want, pos, name+" where the result "+w.what)
				}
			}
			k.noPanics(nil)
		}
	}
	for _, op := range []string{"Add", "Sub"} {
		op := op
		try("pkg/types", "(Ndau)."+op, true, func(a []*Term) []way {
			r := tAdd(a[0], a[1])
			if op == "Sub" {
				r = tSub(a[0], a[1])
			}
			return []way{
				{[]*Term{mkLt(r, mkBig(minI64))}, nil, "is too small"},
				{[]*Term{mkLe(mkBig(minI64), r), mkLe(r, mkBig(maxI64))}, r, "fits"},
				{[]*Term{mkLt(mkBig(maxI64), r)}, nil, "is too large"},
			}
		})
	}
	for _, t := range []string{"Ndau", "Timestamp"} {
		try("pkg/types", "("+t+").Compare", false, func(a []*Term) []way {
			return []way{
				{[]*Term{mkLt(a[0], a[1])}, mkInt(-1), "is that of a lesser first operand"},
				{[]*Term{mkEqInt(a[0], a[1])}, t0, "is that of equal operands"},
				{[]*Term{mkLt(a[1], a[0])}, t1, "is that of a greater first operand"},
			}
		})
	}
	try("pkg/types", "(Ndau).Abs", false, func(a []*Term) []way {
		return []way{
			{[]*Term{mkLe(t0, a[0])}, a[0], "is the amount itself"},
			{[]*Term{mkLt(mkBig(minI64), a[0]), mkLt(a[0], t0)}, tNeg(a[0]), "is the opposite"},
		}
	})
	try("pkg/types", "(Timestamp).Since", false, func(a []*Term) []way {
		return []way{{[]*Term{mkLe(t0, a[0]), mkLe(t0, a[1])}, tSub(a[0], a[1]), "is a difference of non-negative timestamps"}}
	})
	k.atLeast("ways the operations end", n, 15)
}
