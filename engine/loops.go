package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---- joins ----

// onlyDiff returns the single literals in which two assumption sets differ, if they are complementary.
func onlyDiff(a, b *State) (c *Term, common []*Term, ok bool) {
	if len(a.path) != len(b.path) {
		return nil, nil, false
	}
	ia := map[*Term]bool{}
	for _, l := range a.path {
		ia[l] = true
	}
	ib := map[*Term]bool{}
	for _, l := range b.path {
		ib[l] = true
	}
	var da, db []*Term
	for _, l := range a.path {
		if !ib[l] {
			da = append(da, l)
		} else {
			common = append(common, l)
		}
	}
	for _, l := range b.path {
		if !ia[l] {
			db = append(db, l)
		}
	}
	if len(da) != 1 || len(db) != 1 || mkNot(da[0]) != db[0] {
		return nil, nil, false
	}
	return da[0], common, true
}

// bit01 gives the literal as a 0/1 term.
func bit01(l *Term) (*Term, bool) {
	if l.op == ONot && l.args[0].op == OEq && is01(l.args[0].args[0]) {
		return l.args[0].args[0], true
	}
	if l.op == OEq && is01(l.args[0]) {
		return tSub(t1, l.args[0]), true
	}
	return nil, false
}

// mergeVal is "c ? a : b"; exact or refused.
func mergeVal(c, a, b *Term) (*Term, bool) {
	if a == b {
		return a, true
	}
	isBool := func(t *Term) bool {
		switch t.op {
		case OBool, OLe, OEq, OSeqEq, OPred, OAnd, ONot:
			return true
		}
		return false
	}
	if isBool(a) && isBool(b) {
		switch {
		case a == tTrue && b == tFalse:
			return c, true
		case a == tFalse && b == tTrue:
			return mkNot(c), true
		case a == tFalse:
			return mkAnd(mkNot(c), b), true
		case b == tFalse:
			return mkAnd(c, a), true
		case a == tTrue:
			return mkOr(c, b), true
		case b == tTrue:
			return mkOr(mkNot(c), a), true
		}
		return nil, false
	}
	isNum := func(t *Term) bool {
		if t.op == OInt || t.op == OLin || t.op == OBits || t.op == OXor || t.op == OAt || t.op == OLen {
			return true
		}
		return (t.op == OApp || t.op == OSym) && (t.lo != nil || t.hi != nil)
	}
	if isNum(a) && isNum(b) {
		x, ok := bit01(c)
		if !ok {
			if !theEngine.coarse {
				return nil, false
			}
			x = mkAppR("truth", big0, big1, c)
		}
		return iteBits(x, a, b)
	}
	if a.op != b.op {
		return nil, false
	}
	switch a.op {
	case OStruct, OTuple:
		if len(a.args) != len(b.args) {
			return nil, false
		}
		as := make([]*Term, len(a.args))
		for i := range as {
			m, ok := mergeVal(c, a.args[i], b.args[i])
			if !ok {
				return nil, false
			}
			as[i] = m
		}
		return rebuild(a, as), true
	case OSeq:
		la, lb := seqLen(a), seqLen(b)
		if la != lb {
			return nil, false
		}
		n, ok := la.int64()
		if !ok || n > 256 {
			return nil, false
		}
		var out []*Term
		for k := int64(0); k < n; {
			ga, oa := segIndex(a, k)
			gb, ob := segIndex(b, k)
			if ga == nil || gb == nil {
				return nil, false
			}
			va, vb := theEngine.segAt(ga, mkInt(oa)), theEngine.segAt(gb, mkInt(ob))
			m, ok := mergeVal(c, va, vb)
			if !ok {
				return nil, false
			}
			byteE := ga.op == OLit || ga.op == OSub && isByteType(atomElemType(ga.args[0])) || (ga.op == OElem || ga.op == ORep) && ga.n == 1 || gb.op == OLit || (gb.op == OElem || gb.op == ORep) && gb.n == 1
			out = append(out, mkElem(m, byteE))
			k++
		}
		return mkSeq(out...), true
	}
	return nil, false
}

// segIndex finds the segment holding constant position k.
func segIndex(s *Term, k int64) (*Term, int64) {
	for _, g := range s.args {
		n, ok := segLen(g).int64()
		if !ok {
			return nil, 0
		}
		if k < n {
			return g, k
		}
		k -= n
	}
	return nil, 0
}

func sameEvents(a, b []event) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].kind != b[i].kind || len(a[i].args) != len(b[i].args) {
			return false
		}
		for j := range a[i].args {
			if a[i].args[j] != b[i].args[j] {
				return false
			}
		}
	}
	return true
}

// joinStates merges two partitions whose assumptions differ in one complementary literal. The values
// are those observable afterwards. The result describes exactly the union of the two.
func (e *Engine) joinStates(a, b *State, va, vb []*Term) (*State, []*Term, bool) {
	c, common, ok := onlyDiff(a, b)
	if !ok || !sameEvents(a.events, b.events) || len(a.foralls) != len(b.foralls) {
		return nil, nil, false
	}
	for i := range a.foralls {
		if a.foralls[i] != b.foralls[i] {
			return nil, nil, false
		}
	}
	out := make([]*Term, len(va))
	for i := range va {
		m, ok := mergeVal(c, va[i], vb[i])
		if !ok {
			return nil, nil, false
		}
		out[i] = m
	}
	n := newState()
	merged := map[int]*Term{}
	for o, x := range a.heap {
		if _, in := b.heap[o]; !in {
			// written or created on one side only
			if _, base := e.baseHeap[o]; base || e.objs[o].init != nil {
				m, ok := mergeVal(c, x, e.content(b, o))
				if !ok {
					return nil, nil, false
				}
				merged[o] = m
			} else {
				merged[o] = x
			}
			continue
		}
		m, ok := mergeVal(c, x, b.heap[o])
		if !ok {
			return nil, nil, false
		}
		merged[o] = m
	}
	for o, x := range b.heap {
		if _, in := a.heap[o]; in {
			continue
		}
		if _, base := e.baseHeap[o]; base || e.objs[o].init != nil {
			m, ok := mergeVal(c, e.content(a, o), x)
			if !ok {
				return nil, nil, false
			}
			merged[o] = m
		} else {
			merged[o] = x
		}
	}
	n.foralls = a.foralls
	if !n.replay(common) {
		return nil, nil, false
	}
	n.heap = merged
	n.events = a.events
	return n, out, true
}

// replays remembers the states that result from assuming a sequence of literals.
var (
	replaySteps = map[genStep]int{}
	replays     = map[int]*State{}
)

// replay assumes the literals in order, from scratch. States already computed for a prefix are reused.
func (n *State) replay(common []*Term) bool {
	keep := len(n.foralls) == 0 && len(n.lits) == 0
	key, from := 0, 0
	if keep {
		for i, l := range common {
			q, ok := replaySteps[genStep{key, l, nil}]
			if !ok {
				break
			}
			key = q
			if r := replays[key]; r != nil {
				*n = *r.clone()
				from = i + 1
			}
		}
	}
	for _, l := range common[from:] {
		if !n.assume(l) {
			return false
		}
		if len(n.path) == 0 || n.path[len(n.path)-1] != l {
			n.path = append(n.path, l)
		}
	}
	if keep && len(common) > from {
		key = 0
		for _, l := range common {
			g := genStep{key, l, nil}
			q, ok := replaySteps[g]
			if !ok {
				q = len(replaySteps) + 1
				replaySteps[g] = q
			}
			key = q
		}
		replays[key] = n.clone()
	}
	return true
}

func (e *Engine) joinFrames(fs []*Frame) []*Frame {
	if len(fs) < 2 || len(fs) > 200 {
		return fs
	}
	for changed := true; changed; {
		changed = false
	outer:
		for i := 0; i < len(fs); i++ {
			for j := i + 1; j < len(fs); j++ {
				a, b := fs[i], fs[j]
				if len(a.defers) != len(b.defers) {
					continue
				}
				keys := make([]ssa.Value, 0, len(a.env))
				ok := true
				for k := range a.env {
					if _, in := b.env[k]; !in {
						continue
					}
					keys = append(keys, k)
				}
				if !ok {
					continue
				}
				sort.Slice(keys, func(x, y int) bool { return keys[x].Name() < keys[y].Name() })
				va, vb := make([]*Term, len(keys)), make([]*Term, len(keys))
				for x, k := range keys {
					va[x], vb[x] = a.env[k], b.env[k]
					if va[x] == nil || vb[x] == nil {
						if va[x] != vb[x] {
							ok = false
						}
						va[x], vb[x] = t0, t0
					}
				}
				if !ok {
					continue
				}
				st, out, ok := e.joinStates(a.st, b.st, va, vb)
				if !ok {
					continue
				}
				env := map[ssa.Value]*Term{}
				for x, k := range keys {
					if a.env[k] != nil {
						env[k] = out[x]
					}
				}
				fs[i] = &Frame{st: st, env: env, defers: a.defers}
				fs = append(fs[:j], fs[j+1:]...)
				changed = true
				break outer
			}
		}
	}
	return fs
}

func (e *Engine) joinExits(xs []Exit) []Exit {
	if len(xs) < 2 || len(xs) > 100 {
		return xs
	}
	for changed := true; changed; {
		changed = false
	outer:
		for i := 0; i < len(xs); i++ {
			for j := i + 1; j < len(xs); j++ {
				a, b := xs[i], xs[j]
				if a.pan || b.pan || a.st.dead || b.st.dead || len(a.ret) != len(b.ret) {
					continue
				}
				st, out, ok := e.joinStates(a.st, b.st, a.ret, b.ret)
				if !ok {
					continue
				}
				xs[i] = Exit{st: st, ret: out, pos: a.pos}
				xs = append(xs[:j], xs[j+1:]...)
				changed = true
				break outer
			}
		}
	}
	return xs
}

// ---- loops ----

// loopSummary is what was learned about a loop whose number of iterations is not fixed.
type loopSummary struct {
	fn     *ssa.Function
	header *ssa.BasicBlock
	k      *Term // number of completed iterations
	phis   []phiSum
	head   *State // facts at the header (with the invariants)
	backs  []backEdge
	exits  []arrival
	stack  []string
}

type phiSum struct {
	phi  *ssa.Phi
	cur  *Term // value at the header
	init *Term
}

type backEdge struct {
	st   *State
	vals []*Term // new phi values
	lits []*Term // literals added by the body
}

type mark struct{ obs, sums, total int }

func (e *Engine) mark() mark { return mark{len(e.obs), len(e.sums), e.obsTotal} }
func (e *Engine) reset(m mark) {
	e.obs, e.sums, e.obsTotal = e.obs[:m.obs], e.sums[:m.sums], m.total
}

const (
	unrollMax = 2200
	unrollPar = 24
)

func cloneFrame(f *Frame) *Frame {
	return &Frame{st: f.st.clone(), env: cloneEnv(f.env), defers: f.defers}
}

// execLoop interprets a loop entered by the given arrivals and returns the arrivals at its exits.
func (e *Engine) execLoop(ctx *fnCtx, l *loop, in []arrival) []arrival {
	var outs []arrival
	entering := make([]*Frame, 0, len(in))
	for _, a := range in {
		entering = append(entering, e.enter(ctx, a))
	}
	entering = e.joinFrames(entering)
	for _, f := range entering {
		m := e.mark()
		nex := len(ctx.exits)
		keep := cloneFrame(f)
		o, ok := e.unroll(ctx, l, f)
		if ok {
			outs = append(outs, o...)
			continue
		}
		e.reset(m)
		ctx.exits = ctx.exits[:nex]
		outs = append(outs, e.symbolicLoop(ctx, l, keep)...)
	}
	return outs
}

// headerBlock runs the loop body once from header frames whose phis are already set.
func (e *Engine) bodyOnce(ctx *fnCtx, l *loop, fs []*Frame) (back []arrival, exits []arrival) {
	// run the header directly, then the rest of the region
	var pend []arrival
	for _, f := range fs {
		for _, a := range e.execBlock(ctx, l.header, f) {
			if a.fr.st.dead {
				continue
			}
			switch {
			case a.to == l.header:
				back = append(back, a)
			case !l.body[a.to]:
				exits = append(exits, a)
			default:
				pend = append(pend, a)
			}
		}
	}
	if len(pend) > 0 {
		for _, a := range e.runRegion(ctx, l, pend) {
			if a.to == l.header {
				back = append(back, a)
			} else {
				exits = append(exits, a)
			}
		}
	}
	return
}

// controlsExit reports whether a block of the loop decides about leaving it on every path through an iteration.
func exitTests(l *loop) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	for b := range l.body {
		for _, s := range b.Succs {
			if !l.body[s] {
				out = append(out, b)
				break
			}
		}
	}
	return out
}

// unroll runs the loop iteration by iteration as long as whether to go on is decided by constants.
func (e *Engine) unroll(ctx *fnCtx, l *loop, f *Frame) ([]arrival, bool) {
	var outs []arrival
	cur := []*Frame{f}
	headerExits := false
	for _, s := range l.header.Succs {
		if !l.body[s] {
			headerExits = true
		}
	}
	undecided := 0
	for it := 0; ; it++ {
		if it > unrollMax {
			return nil, false
		}
		if it == 64 && len(cur) > 0 && len(cur[0].st.path) > len(f.st.path)+60 {
			return nil, false // every iteration is decided by a new assumption only
		}
		var next []*Frame
		for _, g := range cur {
			if headerExits {
				if iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); ok {
					// does the header's own test depend on something unknown?
					probe := cloneFrame(g)
					m := e.mark()
					nex := len(ctx.exits)
					as := e.execBlock(ctx, l.header, probe)
					e.reset(m)
					ctx.exits = ctx.exits[:nex]
					stay, leave := false, false
					for _, a := range as {
						if l.body[a.to] {
							stay = true
						} else {
							leave = true
						}
					}
					_ = iff
					if stay && leave {
						return nil, false
					}
				}
			}
			back, exits := e.bodyOnce(ctx, l, []*Frame{g})
			if !headerExits && len(back) > 0 && len(exits) > 0 {
				undecided++
				if undecided > 6 {
					return nil, false
				}
			}
			outs = append(outs, exits...)
			for _, a := range back {
				next = append(next, e.enter(ctx, a))
			}
		}
		next = e.joinFrames(next)
		par := unrollPar + e.morePar
		if len(next) > par && e.coarseOK {
			// give up telling the cases apart by anything but a truth value
			e.coarse = true
			next = e.joinFrames(next)
			e.coarse = false
		}
		if len(next) > par || len(outs) > 4000 {
			return nil, false
		}
		if len(next) == 0 {
			return outs, true
		}
		if !headerExits && it > 300 {
			return nil, false
		}
		cur = next
	}
}

// symbolicLoop summarises a loop by induction on the number of completed iterations.
func (e *Engine) symbolicLoop(ctx *fnCtx, l *loop, f *Frame) []arrival {
	m := e.mark()
	nex := len(ctx.exits)
	restart := func() {
		e.reset(m)
		ctx.exits = ctx.exits[:nex]
	}
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			phis = append(phis, ph)
		}
	}
	k := mkSymR(fmt.Sprintf("k%d", e.freshID()), nil, big0, maxLen)
	cur := make([]*Term, len(phis)) // value of each phi after k iterations
	init := make([]*Term, len(phis))
	closed := make([]bool, len(phis))
	refused := make([]int, len(phis))
	for i, ph := range phis {
		init[i] = f.env[ph]
		cur[i] = e.havocLike(f.st, init[i], ph.Type(), ph.Comment)
	}
	for i, ph := range phis {
		// a pointer usually stays; this is verified with the other closed forms
		if _, ok := ph.Type().Underlying().(*types.Pointer); ok && init[i].op == OPtr {
			cur[i], closed[i] = init[i], true
		}
	}
	dep := make([]int, len(phis)) // the other phi a closed form is expressed with, plus one
	depRefused := make([]bool, len(phis))
	inner := func(t *Term) *Term { // the type descriptor in a reflect.Type
		if t.op == OIface && len(t.args) == 1 && t.args[0].op == OApp {
			return t.args[0]
		}
		return t
	}
	objs := map[int]*Term{} // modified objects and their content after k iterations
	objClosed := map[int]bool{}
	objRefused := map[int]int{}
	var inv []*Term
	nEvents := len(f.st.events)

	phiVals := func(a arrival) []*Term {
		g := e.enter(ctx, a)
		vs := make([]*Term, len(phis))
		for i, ph := range phis {
			vs[i] = g.env[ph]
		}
		return vs
	}
	// a flag that starts with a known value: the summary covers the iterations up to the one that changes it, and the
	// loop is taken up again from there
	phase := make([]bool, len(phis))
	if e.phases[l] < 2 {
		for i, ph := range phis {
			if b, ok := ph.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 && init[i].op == OBool {
				phase[i], cur[i], closed[i] = true, init[i], true
			}
		}
	}
	var leaves []arrival
	splitPhases := func(back []arrival) []arrival {
		leaves = nil
		for i := range phis {
			if !phase[i] {
				continue
			}
			var stay []arrival
			for _, a := range back {
				v := phiVals(a)[i]
				keep := v
				if init[i] == tFalse {
					keep = mkNot(v)
				}
				switch a.fr.st.decide(keep) {
				case 1:
					stay = append(stay, a)
				case -1:
					leaves = append(leaves, a)
				default:
					b := arrival{a.from, a.to, cloneFrame(a.fr)}
					if b.fr.st.assume(keep) {
						stay = append(stay, b)
					}
					if a.fr.st.assume(mkNot(keep)) {
						leaves = append(leaves, a)
					}
				}
			}
			back = stay
		}
		return back
	}

	run := func() (back, exits []arrival, base *State) {
		restart()
		g := cloneFrame(f)
		for i, ph := range phis {
			g.env[ph] = cur[i]
		}
		for o, c := range objs {
			g.st.heap[o] = c
		}
		for _, x := range inv {
			if !g.st.assume(x) {
				return nil, nil, nil
			}
		}
		if e.loopAssume != nil {
			s := &loopSummary{fn: ctx.fn, header: l.header, k: k}
			for i, ph := range phis {
				s.phis = append(s.phis, phiSum{ph, cur[i], init[i]})
			}
			e.loopAssume(s, g.st)
			if g.st.dead {
				return nil, nil, nil
			}
		}
		base = g.st.clone()
		back, exits = e.bodyOnce(ctx, l, []*Frame{g})
		back = splitPhases(back)
		return
	}
	// 1. which objects does the body change?
	var back, exits []arrival
	var base *State
	for round := 0; ; round++ {
		if round > 12 {
			panic(budgetError{"loop modifies too many objects in " + ctx.fn.String()})
		}
		back, exits, base = run()
		grew := false
		for _, a := range back {
			for o, c := range a.fr.st.heap {
				var before *Term
				if x, ok := base.heap[o]; ok {
					before = x
				} else if _, ok := e.baseHeap[o]; ok || e.objs[o].init != nil {
					before = e.content(base, o)
				} else {
					continue // created by this iteration
				}
				if before != c {
					if _, known := objs[o]; !known {
						objs[o] = e.havocContent(o, before)
						grew = true
					}
				}
			}
		}
		for _, a := range back {
			for i, v := range phiVals(a) {
				if closed[i] && !phase[i] && a.fr.st.eqVal(v, init[i], 0) != 1 {
					closed[i], grew = false, true
					cur[i] = e.havocLike(f.st, init[i], phis[i].Type(), phis[i].Comment)
				}
			}
		}
		if !grew {
			break
		}
	}
	// 2. candidate invariants from bounds and initial values
	substCur := func(t *Term, from, to []*Term) *Term {
		m := map[*Term]*Term{}
		for i := range from {
			if from[i] != to[i] {
				addSubst(m, from[i], to[i])
			}
		}
		return rewrite(t, func(y *Term) *Term { return m[y] })
	}
	var cands []*Term
	genCands := func() {
		cands = nil
		seen := map[*Term]bool{}
		add := func(t *Term) {
			if t.op != OBool && !seen[t] {
				seen[t] = true
				cands = append(cands, t)
			}
		}
		for i, ph := range phis {
			switch ph.Type().Underlying().(type) {
			case *types.Pointer, *types.Interface:
				if !closed[i] {
					add(mkNot(e.isNil(cur[i])))
				}
			}
			if !isIntType(ph.Type()) || closed[i] {
				continue
			}
			add(mkLe(init[i], cur[i]))
			add(mkLe(cur[i], init[i]))
			if init[i].op != OInt {
				add(mkLe(t0, cur[i]))
			}
			for j, pj := range phis {
				if j != i && isIntType(pj.Type()) {
					add(mkLe(cur[i], cur[j]))
					add(mkLe(init[j], cur[i]))
					add(mkLe(cur[i], init[j]))
				}
			}
		}
		// loop tests, weakened by one step
		var outside []*Term
		seenOut := map[*Term]bool{}
		isCur := map[*Term]bool{}
		for i := range cur {
			isCur[cur[i]] = true
		}
		collect := func(lits []*Term) {
			for _, x := range lits {
				t := x
				if t.op == ONot {
					t = t.args[0]
				}
				if t.op != OLe && t.op != OEq {
					continue
				}
				mentions := false
				for i := range cur {
					c := cur[i]
					if t.holds(c) || t.holds(k) {
						mentions = true
					}
				}
				if !mentions {
					continue
				}
				// loop-external quantities the tests compare with bound the variables
				_, atoms, _ := linParts(t.args[0])
				for _, a := range atoms {
					if len(outside) >= 6 || seenOut[a] || a.contains(func(y *Term) bool { return y == k || isCur[y] }) {
						continue
					}
					seenOut[a] = true
					outside = append(outside, a)
				}
				for d := int64(-1); d <= 1; d++ {
					add(mkLe0(tAddI(t.args[0], d)))
					add(mkLe0(tAddI(tNeg(t.args[0]), d)))
				}
			}
		}
		for _, a := range append(append([]arrival{}, back...), exits...) {
			if len(a.fr.st.lits) > len(base.lits) {
				collect(a.fr.st.lits[len(base.lits):])
			}
		}
		for i, ph := range phis {
			if !isIntType(ph.Type()) || closed[i] {
				continue
			}
			for _, a := range outside {
				for d := int64(-1); d <= 1; d++ {
					add(mkLe(cur[i], tAddI(a, d)))
					add(mkLe(a, tAddI(cur[i], d)))
				}
			}
		}
	}
	stable := false
	for round := 0; round < 30 && !stable; round++ {
		// closed forms
		changed := false
		for i, ph := range phis {
			if closed[i] || len(back) == 0 || refused[i] > 2 {
				continue
			}
			if t := e.closedPhi(ctx, f.st, ph, init[i], cur[i], k, back, phiVals, i); t != nil {
				cur[i], closed[i] = t, true
				changed = true
				for d := range dep {
					if dep[d] == i+1 {
						dep[d], closed[d] = 0, false
						cur[d] = e.havocLike(f.st, init[d], phis[d].Type(), phis[d].Comment)
					}
				}
			}
		}
		if !changed {
			// one phi may be a function of another, as it is on entry
			for i := range phis {
				if closed[i] || depRefused[i] || len(back) == 0 {
					continue
				}
				for j := range phis {
					from := inner(init[j])
					if j == i || closed[j] || from.op != OApp || cur[j].op != OSym || from == init[i] || !contains(init[i], from) {
						continue
					}
					cur[i] = rewrite(init[i], func(y *Term) *Term {
						if y == from {
							return cur[j]
						}
						return nil
					})
					closed[i], dep[i], changed = true, j+1, true
					break
				}
			}
		}
		for _, o := range sortedKeys(objs) {
			if objClosed[o] || len(back) == 0 || objRefused[o] > 2 {
				continue
			}
			if t := e.closedObj(f.st, o, objs[o], k, back, cur); t != nil {
				objs[o], objClosed[o] = t, true
				changed = true
			}
		}
		if changed {
			back, exits, base = run()
			// verify the closed forms inductively, again whenever one they may rely on is refused
			for again := true; again; {
				again = false
				for i := range phis {
					if !closed[i] || phase[i] {
						continue
					}
					next := substK(cur[i], k)
					grown := cur[i].op == OSlice && cur[i] != init[i] && (init[i].op != OSlice || cur[i].args[0] != init[i].args[0])
					if grown {
						next = substK(e.seqOf(base, cur[i]), k)
					}
					for _, a := range back {
						vs := phiVals(a)
						v := vs[i]
						if j := dep[i] - 1; j >= 0 {
							if closed[j] {
								vs[j] = nil
							}
							next = rewrite(cur[i], func(y *Term) *Term {
								if y == cur[j] && vs[j] != nil {
									return inner(vs[j])
								}
								return nil
							})
						}
						if grown && v.op == OSlice {
							v = e.seqOf(a.fr.st, v)
						}
						if a.fr.st.eqVal(v, next, 0) != 1 {
							closed[i] = false
							if dep[i] > 0 {
								dep[i], depRefused[i] = 0, true
							} else {
								refused[i]++
							}
							cur[i] = e.havocLike(f.st, init[i], phis[i].Type(), phis[i].Comment)
							again = true
							break
						}
					}
				}
				for _, o := range sortedKeys(objs) {
					if !objClosed[o] {
						continue
					}
					next := substK(objs[o], k)
					for _, a := range back {
						if a.fr.st.eqVal(e.content(a.fr.st, o), next, 0) != 1 {
							objClosed[o] = false
							objRefused[o]++
							again = true
							objs[o] = e.havocContent(o, e.content(f.st, o))
							break
						}
					}
				}
				if again {
					back, exits, base = run()
				}
			}
		}
		genCands()
		// initiation
		var live []*Term
		zero := map[*Term]*Term{k: t0}
		for i := range phis {
			if !closed[i] {
				addSubst(zero, cur[i], init[i])
			}
		}
		for _, x := range cands {
			x0 := rewrite(x, func(y *Term) *Term { return zero[y] })
			if f.st.decide(x0) == 1 {
				live = append(live, x)
			}
		}
		// consecution
		for len(live) > 0 {
			old := inv
			inv = live
			b2, e2, bs := run()
			back, exits, base = b2, e2, bs
			inv = old
			var keep []*Term
			for _, x := range live {
				ok := true
				for _, a := range back {
					vs := phiVals(a)
					x1 := e.nextOf(x, k, cur, vs, closed)
					if a.fr.st.decide(x1) != 1 {
						ok = false
						break
					}
				}
				if ok {
					keep = append(keep, x)
				}
			}
			if len(keep) == len(live) {
				break
			}
			live = keep
		}
		same := len(live) == len(inv)
		if same {
			for i := range live {
				if live[i] != inv[i] {
					same = false
				}
			}
		}
		inv = live
		if !changed && same {
			stable = true
		}
		back, exits, base = run()
		_ = substCur
	}
	// 3. facts established by every iteration
	var fa []forall
	if len(back) > 0 && base != nil {
		v := e.freshID()
		var common map[*Term]bool
		for _, a := range back {
			set := map[*Term]bool{}
			for _, x := range a.fr.st.lits[min(len(base.lits), len(a.fr.st.lits)):] {
				set[x] = true
			}
			for _, x := range a.fr.st.path {
				set[x] = true
			}
			if common == nil {
				common = set
			} else {
				for x := range common {
					if !set[x] {
						delete(common, x)
					}
				}
			}
		}
		var ls []*Term
		for x := range common {
			hasK := x.holds(k)
			open := false
			for i := range cur {
				if !closed[i] {
					c := cur[i]
					if c.op == OSym && x.holds(c) {
						open = true
					}
				}
			}
			for o, c := range objs {
				if !objClosed[o] && x.contains(func(y *Term) bool { return y == c || len(c.args) > 0 && c.op == OSeq && y == c.args[0].args[0] }) {
					open = true
				}
			}
			if hasK && !open {
				ls = append(ls, x)
			}
		}
		sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
		for _, x := range ls {
			body := rewrite(x, func(y *Term) *Term {
				if y == k {
					return mkVar(v)
				}
				return nil
			})
			fa = append(fa, forall{body: body, v: v, n: k})
		}
	}
	sum := &loopSummary{fn: ctx.fn, header: l.header, k: k, head: base}
	for _, x := range e.stack {
		sum.stack = append(sum.stack, x.String())
	}
	for i, ph := range phis {
		sum.phis = append(sum.phis, phiSum{ph, cur[i], init[i]})
	}
	for _, a := range back {
		b := backEdge{st: a.fr.st, vals: phiVals(a)}
		if base != nil && len(a.fr.st.lits) > len(base.lits) {
			b.lits = a.fr.st.lits[len(base.lits):]
		}
		sum.backs = append(sum.backs, b)
		if len(a.fr.st.events) > nEvents {
			// effects of one iteration are recorded once, marked as repeated
			for _, x := range append(append([]arrival{}, exits...), leaves...) {
				for _, evn := range a.fr.st.events[nEvents:] {
					if evn.kind == "appendshare" {
						continue
					}
					x.fr.st.events = append(x.fr.st.events, event{kind: "repeat:" + evn.kind, args: evn.args, pos: evn.pos, in: a.fr.st})
				}
			}
		}
	}
	sum.exits = exits
	e.sums = append(e.sums, sum)
	for _, x := range append(append([]arrival{}, exits...), leaves...) {
		s := x.fr.st
		s.foralls = append(s.foralls[:len(s.foralls):len(s.foralls)], fa...)
	}
	if len(leaves) > 0 {
		if e.phases == nil {
			e.phases = map[*loop]int{}
		}
		e.phases[l]++
		exits = append(exits[:len(exits):len(exits)], e.execLoop(ctx, l, leaves)...)
		e.phases[l]--
	}
	return exits
}

func sortedKeys(m map[int]*Term) []int {
	ks := make([]int, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

// addSubst maps the opaque leaves of a value to the corresponding parts of another.
func addSubst(m map[*Term]*Term, from, to *Term) {
	switch {
	case from.op == OSym || from.op == OApp && from.name == "havocN":
		m[from] = to
	case from.op == OSeq && len(from.args) == 1 && from.args[0].op == OSub:
		m[from.args[0].args[0]] = to
	case from.op == OPred && from.name == "true":
		m[from] = to
	case from.op == OStruct && to.op == OStruct:
		for i := range from.args {
			addSubst(m, from.args[i], to.args[i])
		}
	}
}

func (e *Engine) nextOf(x, k *Term, cur, vs []*Term, closed []bool) *Term {
	m := map[*Term]*Term{k: tAddI(k, 1)}
	for i := range cur {
		if !closed[i] {
			addSubst(m, cur[i], vs[i])
		}
	}
	return rewrite(x, func(y *Term) *Term { return m[y] })
}

func substK(t, k *Term) *Term {
	k1 := tAddI(k, 1)
	return rewrite(t, func(y *Term) *Term {
		if y == k {
			return k1
		}
		return nil
	})
}

// havocLike is an unknown value of a type; what never changes shape is kept.
func (e *Engine) havocLike(st *State, init *Term, t types.Type, name string) *Term {
	if name == "" {
		name = "phi"
	}
	return e.materialize(mkSym(fmt.Sprintf("%s#%d", name, e.freshID()), t), t)
}

func (e *Engine) havocContent(o int, before *Term) *Term {
	t := e.objs[o].typ
	switch u := t.Underlying().(type) {
	case *types.Array:
		return seqOfAtom(e.havocSeq(seqLen(before), u.Elem()))
	case *types.Map:
		return intern(Term{op: OMapV, args: []*Term{mkSym(fmt.Sprintf("loopmap#%d", e.freshID()), nil)}})
	}
	return e.materialize(mkSym(fmt.Sprintf("obj%d#%d", o, e.freshID()), t), t)
}

// closedPhi finds the value of a phi after k iterations.
func (e *Engine) closedPhi(ctx *fnCtx, st *State, ph *ssa.Phi, init, cur, k *Term, back []arrival, phiVals func(arrival) []*Term, i int) *Term {
	var nv *Term
	if sl, ok := ph.Type().Underlying().(*types.Slice); ok {
		if t := e.grownSlice(st, sl.Elem(), init, cur, k, back, phiVals, i); t != nil {
			return t
		}
		if t := shrunkSlice(init, cur, k, back, phiVals, i); t != nil {
			return t
		}
	}
	for _, a := range back {
		v := phiVals(a)[i]
		if nv != nil && v != nv {
			return e.filterForm(st, init, cur, k, back, phiVals, i, ph)
		}
		nv = v
	}
	if nv == cur || nv == init {
		return init // never changes
	}
	if isIntType(ph.Type()) {
		return e.closedInt(init, cur, nv, k, ph.Type())
	}
	if isStringType(ph.Type()) {
		if t := shrunkString(init, cur, nv, k); t != nil {
			return t
		}
		return e.accumForm(init, cur, nv, k)
	}
	return nil
}

// shrunkSlice recognises a slice that every iteration cuts at the front by the same number of elements.
func shrunkSlice(init, cur, k *Term, back []arrival, phiVals func(arrival) []*Term, i int) *Term {
	if init.op != OSlice || cur.op != OSlice {
		return nil
	}
	var d *Term
	for _, a := range back {
		v := phiVals(a)[i]
		if v.op != OSlice || v.args[0] != cur.args[0] {
			return nil
		}
		x := tSub(v.args[1], cur.args[1])
		if x.op != OInt || x.val.Sign() <= 0 || d != nil && d != x || tSub(cur.args[2], v.args[2]) != x {
			return nil
		}
		d = x
	}
	if d == nil {
		return nil
	}
	n := tScale(k, d.val)
	return mkSlice(init.args[0], tAdd(init.args[1], n), tSub(init.args[2], n), tSub(init.args[3], n))
}

// shrunkString is the same for a string.
func shrunkString(init, cur, nv, k *Term) *Term {
	one := func(t *Term) *Term {
		if t.op == OSeq && len(t.args) == 1 && t.args[0].op == OSub {
			return t.args[0]
		}
		return nil
	}
	a, b, c := one(cur), one(nv), one(init)
	if a == nil || b == nil || c == nil || a.args[0] != b.args[0] {
		return nil
	}
	d := tSub(b.args[1], a.args[1])
	if d.op != OInt || d.val.Sign() <= 0 || tSub(a.args[2], b.args[2]) != d {
		return nil
	}
	n := tScale(k, d.val)
	return mkSeq(mkSub(c.args[0], tAdd(c.args[1], n), tSub(c.args[2], n)))
}

// closedInt is the value after k steps of a number that every step changes in the same way.
func (e *Engine) closedInt(init, cur, nv, k *Term, t types.Type) *Term {
	if nv == mkClearLow(cur) && init.op != OInt {
		return mkRest(init, k)
	}
	d := tSub(nv, cur)
	if d.op == OInt {
		return tAdd(init, tScale(k, d.val))
	}
	// the step as computed without knowing that it does not wrap around; verified afterwards
	for _, d := range []int64{1, -1, 2, -2, 3, 4, 5, 8, 16} {
		if e.wrap(newState(), tAddI(cur, d), t) == nv {
			return tAdd(init, tScale(k, big.NewInt(d)))
		}
	}
	return nil
}

// grownSlice recognises a slice that every iteration extends by one element.
func (e *Engine) grownSlice(st *State, et types.Type, init, cur, k *Term, back []arrival, phiVals func(arrival) []*Term, i int) *Term {
	if init.op != OSlice && init.op != ONil || cur.op != OSlice {
		return nil
	}
	seq := func(st *State, v *Term) *Term {
		if v.op == ONil {
			return mkSeq()
		}
		return e.seqOf(st, v)
	}
	var form *Term
	for _, a := range back {
		v := phiVals(a)[i]
		if v.op != OSlice || v == cur {
			return nil
		}
		t := e.accumForm(seq(st, init), seq(a.fr.st, cur), seq(a.fr.st, v), k)
		if t == nil {
			return nil
		}
		if form != nil && !sameForm(form, t) {
			return nil
		}
		form = t
	}
	if form == nil {
		return nil
	}
	v := e.newSlice(st, form, et, nil, "grown")
	if init.op == OSlice {
		st.events = append(st.events, event{kind: "appendshare", args: []*Term{init.args[0], v.args[0]}})
	}
	return v
}

// sameForm compares two closed forms whose bound variables may differ.
func sameForm(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op != OSeq || b.op != OSeq || len(a.args) != len(b.args) {
		return false
	}
	for i := range a.args {
		x, y := a.args[i], b.args[i]
		if x == y {
			continue
		}
		if x.op != OMapSeg || y.op != OMapSeg || x.args[1] != y.args[1] {
			return false
		}
		if rewrite(y.args[0], func(z *Term) *Term {
			if z == mkVar(y.n) {
				return mkVar(x.n)
			}
			return nil
		}) != x.args[0] {
			return false
		}
	}
	return true
}

// accumForm recognises cur' = cur ++ E(k).
func (e *Engine) accumForm(init, cur, nv, k *Term) *Term {
	if nv.op != OSeq || cur.op != OSeq || len(cur.args) != 1 || len(nv.args) != 2 || nv.args[0] != cur.args[0] {
		return nil
	}
	g := nv.args[1]
	if segLen(g) != t1 {
		return nil
	}
	if g.holds(cur.args[0].args[0]) {
		return nil
	}
	v := e.freshID()
	body := rewrite(e.segAt(g, t0), func(y *Term) *Term {
		if y == k {
			return mkVar(v)
		}
		return nil
	})
	return mkSeq(init, intern(Term{op: OMapSeg, args: []*Term{body, k}, n: v}))
}

// filterForm is reserved for accumulators that grow on some iterations only.
func (e *Engine) filterForm(st *State, init, cur, k *Term, back []arrival, phiVals func(arrival) []*Term, i int, ph *ssa.Phi) *Term {
	return nil
}

// closedObj recognises contents written element by element: after k iterations the elements at
// positions p0+0..p0+k-1 hold E(0)..E(k-1) and the others are unchanged.
func (e *Engine) closedObj(st *State, o int, cur, k *Term, back []arrival, phis []*Term) *Term {
	if t := e.objs[o].typ; isIntType(t) && cur.op == OSym && len(back) > 0 {
		nv := e.content(back[0].fr.st, o)
		for _, a := range back[1:] {
			if e.content(a.fr.st, o) != nv {
				return nil
			}
		}
		return e.closedInt(e.content(st, o), cur, nv, k, t)
	}
	if cur.op != OSeq || len(cur.args) != 1 || cur.args[0].op != OSub {
		return nil
	}
	h := cur.args[0].args[0]
	var pos, val *Term
	for _, a := range back {
		nv := e.content(a.fr.st, o)
		if nv.op != OSeq {
			return nil
		}
		// H{0:p} [v] H{p+1:...}
		var p, v *Term
		at := t0
		for _, g := range nv.args {
			if g.op == OSub && g.args[0] == h {
				if tSub(g.args[1], at).op != OInt || g.args[1] != at {
					if a.fr.st.decide(mkEqInt(g.args[1], at)) != 1 {
						return nil
					}
				}
				at = tAdd(at, g.args[2])
				continue
			}
			if v != nil || segLen(g) != t1 {
				return nil
			}
			p, v = at, e.segAt(g, t0)
			at = tAdd(at, t1)
		}
		if v == nil {
			return nil
		}
		if pos != nil && (p != pos || v != val) {
			return nil
		}
		pos, val = p, v
	}
	if pos == nil {
		return nil
	}
	step := tSub(pos, k)
	down := false
	if step.holds(k) {
		if step, down = tAdd(pos, k), true; step.holds(k) {
			return nil
		}
	}
	init := e.content(st, o)
	// the element's own former value may be used
	val = rewrite(val, func(y *Term) *Term {
		if y.op == OAt && y.args[0] == h && y.args[1] == pos {
			return e.seqAt(st, init, pos, e.elemType(mkPtr(o)))
		}
		return nil
	})
	if val.holds(h) {
		return nil
	}
	v := e.freshID()
	iter := mkVar(v) // the iteration that wrote the v-th element of the segment
	if down {
		iter = tSub(tAddI(k, -1), mkVar(v))
	}
	body := rewrite(val, func(y *Term) *Term {
		if y == k {
			return iter
		}
		return nil
	})
	seg := intern(Term{op: OMapSeg, args: []*Term{body, k}, n: v})
	if !body.contains(func(y *Term) bool { return y == mkVar(v) }) {
		seg = mkRep(body, k, isByteType(e.elemType(mkPtr(o))))
	}
	if down {
		// positions step-k+1 .. step
		n := seqLen(init)
		first := tAddI(tSub(step, k), 1)
		whole := init
		if len(init.args) != 1 {
			whole = mkSeq(mkSub(intern(Term{op: OApp, name: "seq", args: []*Term{init}}), t0, n))
		}
		return mkSeq(segSub(whole.args[0], t0, first), seg, segSub(whole.args[0], tAddI(step, 1), tSub(n, tAddI(step, 1))))
	}
	l, r, ok := e.split(st, init, step)
	if !ok {
		return nil
	}
	n := seqLen(r)
	// the untouched tail
	var tail *Term
	if len(r.args) == 1 {
		tail = segSub(r.args[0], k, tSub(n, k))
	} else {
		tail = mkSub(intern(Term{op: OApp, name: "seq", args: []*Term{r}}), k, tSub(n, k))
	}
	return mkSeq(l, seg, tail)
}
