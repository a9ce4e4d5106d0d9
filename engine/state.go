package main

import (
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// State is one partition of the abstract state: facts about opaque values and the heap.
type State struct {
	lits    []*Term         // literals known to hold
	sub     map[*Term]*Term // atoms equated with something simpler (integer atom -> integer term, sequence atom -> sequence)
	heap    map[int]*Term   // object -> content
	foralls []forall        // universally quantified literals
	events  []event         // observable effects, in order
	path    []*Term         // the assumptions, as made
	depth   int
	dead    bool
	probing bool
	memo    map[*Term]*Term // canonical forms under the current facts
	lin     []*Term         // the first linN facts as canonical linear terms <= 0
	linN    int
	gen     int // identifies the sequence of facts and equations added so far
}

type genStep struct {
	gen  int
	a, b *Term
}

var (
	genSteps = map[genStep]int{}
	infMemo  = map[genStep]bool{}
	infHits  int
)

// next records a fact or equation in the generation.
func (s *State) next(a, b *Term) {
	g := genStep{s.gen, a, b}
	n, ok := genSteps[g]
	if !ok {
		n = len(genSteps) + 1
		genSteps[g] = n
	}
	s.gen = n
}

type forall struct {
	body *Term // literal over OVar(v)
	v    int
	n    *Term // holds for 0 <= var < n
}

type event struct {
	kind string
	args []*Term
	pos  string
	in   *State // where an effect of a loop took place
}

func newState() *State {
	return &State{sub: map[*Term]*Term{}, heap: map[int]*Term{}}
}

func (s *State) clone() *State {
	c := &State{
		lits:    s.lits[:len(s.lits):len(s.lits)],
		heap:    make(map[int]*Term, len(s.heap)+4),
		sub:     make(map[*Term]*Term, len(s.sub)+2),
		foralls: s.foralls[:len(s.foralls):len(s.foralls)],
		events:  s.events[:len(s.events):len(s.events)],
		path:    s.path[:len(s.path):len(s.path)],
		dead:    s.dead,
		gen:     s.gen,
		lin:     s.lin[:len(s.lin):len(s.lin)],
		linN:    s.linN,
	}
	if s.memo == nil {
		s.memo = map[*Term]*Term{}
	}
	c.memo = s.memo // valid as long as neither gains an equation
	for k, v := range s.heap {
		c.heap[k] = v
	}
	for k, v := range s.sub {
		c.sub[k] = v
	}
	return c
}

func (s *State) has(l *Term) bool {
	for _, x := range s.lits {
		if x == l {
			return true
		}
	}
	return false
}

// canon rewrites a term using the equalities of the state.
func (s *State) canon(t *Term) *Term {
	if len(s.sub) == 0 {
		return t
	}
	if s.memo == nil {
		s.memo = map[*Term]*Term{}
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	r := t
	for i := 0; i < 8; i++ {
		n := rewrite(r, func(y *Term) *Term {
			if z, ok := s.sub[y]; ok {
				return z
			}
			return nil
		})
		if n == r {
			break
		}
		r = n
	}
	s.memo[t] = r
	return r
}

// bounds of an integer term from single-atom facts
func (s *State) bounds(t *Term) (lo, hi *big.Int) {
	t = s.canon(t)
	c, as, cs := linParts(t)
	if len(as) == 0 {
		return c, c
	}
	lo, hi = new(big.Int).Set(c), new(big.Int).Set(c)
	for i, a := range as {
		alo, ahi := s.atomBounds(a)
		if cs[i].Sign() < 0 {
			alo, ahi = ahi, alo
		}
		if lo != nil {
			if alo == nil {
				lo = nil
			} else {
				lo.Add(lo, new(big.Int).Mul(alo, cs[i]))
			}
		}
		if hi != nil {
			if ahi == nil {
				hi = nil
			} else {
				hi.Add(hi, new(big.Int).Mul(ahi, cs[i]))
			}
		}
	}
	return
}

func (s *State) atomBounds(a *Term) (lo, hi *big.Int) {
	lo, hi = a.rng()
	if isRest(a) && s.decide(restEmpty(a)) == -1 {
		lo = big1
	}
	for _, l := range s.lits {
		if l.op != OLe {
			continue
		}
		c, as, cs := linParts(l.args[0])
		if len(as) != 1 || as[0] != a {
			continue
		}
		// k*a + c <= 0
		k := cs[0]
		if k.Sign() > 0 {
			v := new(big.Int).Neg(c)
			v.Div(v, k)
			if hi == nil || v.Cmp(hi) < 0 {
				hi = v
			}
		} else {
			// a >= c/(-k), rounded up
			nk := new(big.Int).Neg(k)
			v := new(big.Int).Add(c, new(big.Int).Sub(nk, big1))
			v.Div(v, nk)
			if lo == nil || v.Cmp(lo) > 0 {
				lo = v
			}
		}
	}
	return
}

func (s *State) constOf(t *Term) (int64, bool) {
	t = s.canon(t)
	if v, ok := t.int64(); ok {
		return v, true
	}
	lo, hi := s.bounds(t)
	if lo != nil && hi != nil && lo.Cmp(hi) == 0 && lo.IsInt64() {
		return lo.Int64(), true
	}
	return 0, false
}

// decide returns 1 if the literal holds in every concrete state described, -1 if it fails in all, 0 otherwise.
func (s *State) decide(l *Term) int {
	return s.decideD(l, 0)
}

func (s *State) decideD(l *Term, d int) int {
	switch l.op {
	case OBool:
		if l.n == 1 {
			return 1
		}
		return -1
	case ONot:
		return -s.decideD(l.args[0], d)
	case OAnd:
		r := 1
		for _, a := range l.args {
			switch s.decideD(a, d) {
			case -1:
				return -1
			case 0:
				r = 0
			}
		}
		if r == 0 && s.has(mkNot(l)) {
			return -1
		}
		if r == 0 && d == 0 && !s.probing {
			// the conjunction is false when assuming it leads to a contradiction
			q := s.clone()
			q.probing = true
			q.depth = 1
			for _, a := range l.args {
				if !q.assume(a) {
					return -1
				}
			}
		}
		return r
	}
	if s.has(l) {
		return 1
	}
	if s.has(mkNot(l)) {
		return -1
	}
	c := s.canon(l)
	if c != l {
		return s.decideD(c, d)
	}
	switch l.op {
	case OLe:
		return s.decideLe(l.args[0])
	case OEq:
		t := l.args[0]
		lo, hi := s.bounds(t)
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return -1
		}
		if s.neqHolds(t) {
			return -1
		}
		if s.decideLe(tAddI(t, 1)) == 1 || s.decideLe(tAddI(tNeg(t), 1)) == 1 {
			return -1
		}
		if s.decideLe(t) == 1 && s.decideLe(tNeg(t)) == 1 {
			return 1
		}
		if p, q := splitEq(t); p != nil {
			x, y := s.decideD(p, d), s.decideD(q, d)
			if x == -1 || y == -1 {
				return -1
			}
			if x == 1 && y == 1 {
				return 1
			}
		}
		return 0
	case OSeqEq:
		return s.decideSeqEq(l.args[0], l.args[1], d)
	case OPred:
		for _, x := range s.lits {
			y, sign := x, 1
			if x.op == ONot {
				y, sign = x.args[0], -1
			}
			if y.op == OPred && y.name == l.name && s.canon(y) == l {
				return sign
			}
		}
	}
	return 0
}

func (s *State) neqHolds(t *Term) bool {
	e := mkEq0(t)
	for _, x := range s.lits {
		if x.op == ONot && x.args[0].op == OEq {
			if x.args[0] == e || s.canon(x.args[0]) == e {
				return true
			}
		}
	}
	return false
}

// decideLe decides t <= 0.
func (s *State) decideLe(t *Term) int {
	lo, hi := s.bounds(t)
	if hi != nil && hi.Sign() <= 0 {
		return 1
	}
	if lo != nil && lo.Sign() > 0 {
		return -1
	}
	t = s.canon(t)
	if t.op == OInt {
		if t.val.Sign() <= 0 {
			return 1
		}
		return -1
	}
	// t <= 0 entailed iff facts & t >= 1 infeasible
	if s.infeasible(tAddI(tNeg(t), 1)) {
		return 1
	}
	if s.infeasible(t) {
		return -1
	}
	// strict from disequality: t != 0 known and t >= 0 entails t >= 1, i.e. not t <= 0
	if s.neqHolds(t) {
		if s.infeasible(tAddI(t, 1)) { // t >= 0
			return -1
		}
	}
	if s.neqHolds(tSub(t, t1)) { // t != 1
		if s.infeasible(tAddI(tNeg(t), 2)) { // t <= 1
			return 1
		}
	}
	return 0
}

// decideSeqEq compares two sequences, segment by segment and with what has been assumed about them.
func (s *State) decideSeqEq(a, b *Term, d int) int {
	if r := s.compareSeq(a, b, d); r != 0 {
		return r
	}
	l := mkSeqEq(s.canon(a), s.canon(b))
	for _, x := range s.lits {
		y, sign := x, 1
		if x.op == ONot {
			y, sign = x.args[0], -1
		}
		if y.op == OSeqEq && (y == l || s.canon(y) == l) {
			return sign
		}
	}
	return 0
}

// padded recognises the big-endian form of a number, padded with zeros in front to a fixed length.
func (s *State) padded(a *Term, d int) *Term {
	i := 0
	for i < len(a.args) {
		g := a.args[i]
		if !(g.op == ORep && g.args[0] == t0 || g.op == OLit && strings.Trim(g.str, "\x00") == "" || g.op == OElem && g.args[0] == t0) {
			break
		}
		i++
	}
	if i >= len(a.args) {
		return a
	}
	g := a.args[i]
	for _, x := range a.args[i+1:] {
		if s.decideD(mkEqInt(segLen(x), t0), d) != 1 {
			return a
		}
	}
	if g.op != OSub || g.args[0].op != OApp || g.args[0].name != "minbytes" || g.args[1] != t0 {
		return a
	}
	m := g.args[0]
	if s.decideD(mkEqInt(g.args[2], atomLen(m)), d) != 1 {
		return a
	}
	if n, ok := s.constOf(seqLen(a)); ok && n <= 64 {
		return beFix(m.args[0], n)
	}
	return a
}

func (s *State) compareSeq(a, b *Term, d int) int {
	a, b = s.padded(s.canon(a), d), s.padded(s.canon(b), d)
	if a == b {
		return 1
	}
	la, lb := seqLen(a), seqLen(b)
	le := mkEqInt(la, lb)
	r := s.decideD(le, d)
	if r == -1 {
		return -1
	}
	if d > 3 {
		return 0
	}
	lenEq := r == 1
	// walk both from the front, comparing aligned parts
	i, j := 0, 0
	ra, rb := append([]*Term{}, a.args...), append([]*Term{}, b.args...)
	all := true
	for i < len(ra) && j < len(rb) {
		x, y := ra[i], rb[j]
		if x == y {
			i++
			j++
			continue
		}
		lx, ly := segLen(x), segLen(y)
		var c int
		switch {
		case s.decideD(mkEqInt(lx, ly), d+1) == 1:
			c = 0
		case s.decideD(mkLt(lx, ly), d+1) == 1:
			c = -1
		case s.decideD(mkLt(ly, lx), d+1) == 1:
			c = 1
		default:
			// a literal against an element-wise readable range
			return 0
		}
		if c < 0 {
			rb = append(append(append([]*Term{}, rb[:j]...), segSub(y, t0, lx), segSub(y, lx, tSub(ly, lx))), rb[j+1:]...)
			y = rb[j]
		} else if c > 0 {
			ra = append(append(append([]*Term{}, ra[:i]...), segSub(x, t0, ly), segSub(x, ly, tSub(lx, ly))), ra[i+1:]...)
			x = ra[i]
		}
		switch s.segEq(x, y, d+1) {
		case -1:
			if lenEq || true { // both sequences reach at least this far
				return -1
			}
		case 0:
			all = false
		}
		i++
		j++
	}
	if all && lenEq {
		return 1
	}
	// known equality literal
	return 0
}

func (s *State) segEq(x, y *Term, d int) int {
	if x == y {
		return 1
	}
	if s.decideD(mkEqInt(segLen(x), t0), d) == 1 {
		return 1
	}
	eq := func(p, q *Term) int {
		if p == q {
			return 1
		}
		return s.eqVal(p, q, d)
	}
	switch {
	case x.op == OSub && y.op == OSub && x.args[0] == y.args[0]:
		if s.decideD(mkEqInt(x.args[1], y.args[1]), d) == 1 {
			return 1
		}
		return 0
	case x.op == OSub && y.op == OSub:
		// congruence: equal atoms
		if x.args[0].op == OApp && y.args[0].op == OApp && s.eqVal(x.args[0], y.args[0], d) == 1 && s.decideD(mkEqInt(x.args[1], y.args[1]), d) == 1 {
			return 1
		}
	}
	n, ok := s.constOf(segLen(x))
	if !ok {
		n, ok = s.constOf(segLen(y))
	}
	if ok && n <= 64 {
		res := 1
		for k := int64(0); k < n; k++ {
			p, q := theEngine.segAt(x, mkInt(k)), theEngine.segAt(y, mkInt(k))
			switch eq(p, q) {
			case -1:
				return -1
			case 0:
				res = 0
			}
		}
		return res
	}
	if (x.op == ORep || x.op == OElem) && (y.op == ORep || y.op == OElem) {
		return eq(x.args[0], y.args[0])
	}
	if x.op == OMapSeg && y.op == OMapSeg {
		b := substVar(y.args[0], y.n, mkVar(x.n))
		if eq(x.args[0], b) == 1 {
			return 1
		}
	}
	return 0
}

// eqVal compares two arbitrary values: 1 equal, -1 different, 0 unknown.
func (s *State) eqVal(a, b *Term, d int) int {
	a, b = s.canon(a), s.canon(b)
	if a == b {
		return 1
	}
	if d > 6 {
		return 0
	}
	isInt := func(t *Term) bool {
		switch t.op {
		case OInt, OLin, OBits, OXor, OAt, OLen:
			return true
		}
		return (t.op == OApp || t.op == OSym || t.op == OVar) && (t.lo != nil || t.hi != nil)
	}
	if isInt(a) && isInt(b) || a.op == OInt || b.op == OInt || a.op == OLin || b.op == OLin {
		if r := s.decideD(mkEqInt(a, b), d+1); r != 0 {
			return r
		}
		// congruence for applications
	}
	if a.op == OSeq && b.op == OSeq {
		return s.decideD(mkSeqEq(a, b), d+1)
	}
	if a.op == OBool && b.op == OBool {
		return -1
	}
	if a.op != b.op {
		return 0
	}
	switch a.op {
	case OApp, OPred:
		if a.name == b.name && len(a.args) == len(b.args) {
			for i := range a.args {
				if s.eqVal(a.args[i], b.args[i], d+1) != 1 {
					return 0
				}
			}
			return 1
		}
	case OBits:
		if a.n == b.n && a.m == b.m && s.eqVal(a.args[0], b.args[0], d+1) == 1 {
			return 1
		}
	case OAt, OIface, OStruct, OTuple:
		if len(a.args) == len(b.args) {
			for i := range a.args {
				if s.eqVal(a.args[i], b.args[i], d+1) != 1 {
					return 0
				}
			}
			return 1
		}
	}
	return 0
}

// assume adds a literal; it reports false (and marks the state dead) if that is contradictory.
func (s *State) assume(l *Term) bool {
	if s.dead {
		return false
	}
	switch s.decide(l) {
	case 1:
		return true
	case -1:
		s.dead = true
		return false
	}
	if s.depth == 0 {
		s.record(l)
	}
	s.depth++
	r := s.add(s.canon(l))
	s.depth--
	return r
}

func (s *State) add(l *Term) bool {
	switch l.op {
	case OBool:
		if l.n == 0 {
			s.dead = true
		}
		return !s.dead
	case OAnd:
		for _, a := range l.args {
			if !s.assume(a) {
				return false
			}
		}
		return true
	}
	s.lits = append(s.lits, l)
	s.next(l, nil)
	switch l.op {
	case OPred:
		if l.name == "isnil" && (l.args[0].op == OSym || l.args[0].op == OApp) && l.args[0].typ != nil {
			if _, ok := l.args[0].typ.Underlying().(*types.Slice); ok && !s.assume(mkEqInt(atomLen(l.args[0]), t0)) {
				return false
			}
		}
	case OEq:
		s.solve(l.args[0])
		if p, q := splitEq(l.args[0]); p != nil && !s.dead && !(s.assume(p) && s.assume(q)) {
			return false
		}
		if !s.dead && (s.noIntegers() || s.infeasibleSet(nil)) {
			s.dead = true
		}
		if s.dead {
			return false
		}
	case ONot:
		if q := l.args[0]; q.op == OSeqEq {
			for i := 0; i < 2; i++ {
				if len(q.args[i].args) == 0 && q.args[i].op == OSeq {
					if !s.assume(mkLe(t1, seqLen(q.args[1-i]))) {
						return false
					}
				}
			}
		}
	case OSeqEq:
		a, b := l.args[0], l.args[1]
		if !s.assume(mkEqInt(seqLen(a), seqLen(b))) {
			return false
		}
		s.unify(s.canon(a), s.canon(b))
	case OLe:
		if s.infeasibleSet(nil) {
			s.dead = true
			return false
		}
		// two inequalities that make an equation
		rev := mkLe0(tNeg(l.args[0]))
		if s.entails(rev) && !s.add(mkEqInt(l.args[0], t0)) {
			return false
		}
		// bounds that pin an atom
		_, as, _ := linParts(l.args[0])
		for _, a := range as {
			if v, ok := s.constOf(a); ok && isIntAtom(a) {
				if _, done := s.sub[a]; !done {
					s.setSub(a, mkInt(v))
				}
			}
		}
	}
	if !s.dead {
		s.recheck()
	}
	if !s.dead && l.op == OEq {
		s.pinned()
	}
	if !s.dead {
		s.propagate()
	}
	return !s.dead
}

// record notes what the path assumes, one fact at a time.
func (s *State) record(l *Term) {
	if l.op == OAnd {
		for _, a := range l.args {
			s.record(a)
		}
		return
	}
	s.path = append(s.path, l)
}

// entails reports whether the inequality is among the assumptions or, for a comparison of two values, follows from
// them: then the two values are equal.
func (s *State) entails(rev *Term) bool {
	if rev.op != OLe {
		return false
	}
	for _, x := range s.lits {
		if x == rev {
			return true
		}
	}
	_, as, _ := linParts(rev.args[0])
	if len(as) != 2 {
		return false
	}
	// only a value bounded from both sides by something else can be pinned this way
	for _, a := range as {
		n := 0
		for _, x := range s.lits {
			if x.op == OLe && x.holds(a) {
				n++
			}
		}
		if n < 2 {
			return false
		}
	}
	return s.infeasibleSet(mkNot(rev))
}

// pinned turns pairs of inequalities that have become opposite under the substitutions into equations.
func (s *State) pinned() {
	for again := true; again && !s.dead; {
		again = false
		seen, eqs := map[*Term]bool{}, map[*Term]bool{}
		for _, x := range s.lits {
			if x.op == OEq {
				eqs[x], eqs[s.canon(x)] = true, true
			}
		}
		for _, x := range s.lits {
			if x.op != OLe {
				continue
			}
			c := s.canon(x)
			if c.op != OLe || seen[c] {
				continue
			}
			seen[c] = true
			if rev := mkLe0(tNeg(c.args[0])); seen[rev] {
				if q := s.canon(mkEqInt(c.args[0], t0)); q.op == OEq && !eqs[q] {
					if !s.add(q) {
						return
					}
					again = true
					break
				}
			}
		}
	}
}

// propagate draws the conclusion from a refuted conjunction when all but one of its parts hold.
func (s *State) propagate() {
	for i := 0; i < len(s.lits); i++ {
		x := s.lits[i]
		if x.op != ONot || x.args[0].op != OAnd {
			continue
		}
		var open *Term
		n := 0
		for _, a := range x.args[0].args {
			switch s.decideD(a, 1) {
			case 0:
				open = a
				n++
			case -1:
				n = 2
			}
			if n > 1 {
				break
			}
		}
		if n == 1 && !s.assume(mkNot(open)) {
			return
		}
	}
}

func (s *State) setSub(a, v *Term) {
	if v.holds(a) {
		return
	}
	s.sub[a] = v
	s.next(a, v)
	s.memo = nil
	s.lin, s.linN = nil, 0
	// congruence: what was known about a value containing a is known about its new form
	type kv struct{ k, v *Term }
	var more []kv
	for k, x := range s.sub {
		if k == a || len(k.args) == 0 || !k.holds(a) {
			continue
		}
		as := make([]*Term, len(k.args))
		for i, y := range k.args {
			as[i] = s.canon(y)
		}
		if n := rebuild(k, as); n != k {
			more = append(more, kv{n, x})
		}
	}
	sort.Slice(more, func(i, j int) bool { return more[i].k.id < more[j].k.id })
	for _, m := range more {
		if s.dead {
			return
		}
		if m.k.op == OSeq || m.v.op == OSeq {
			if isSeqAtomOp(m.k) && m.v.op == OSeq {
				if _, ok := s.sub[m.k]; !ok {
					s.setSub(m.k, m.v)
				}
			}
			continue
		}
		if y, ok := s.sub[m.k]; ok {
			if y != m.v {
				s.assume(mkEqInt(y, m.v))
			}
			continue
		}
		if m.k.op == OInt || m.k.op == OLin {
			s.assume(mkEqInt(m.k, m.v))
			continue
		}
		s.setSub(m.k, m.v)
	}
}

func isSeqAtomOp(t *Term) bool { return t.op == OSym || t.op == OApp }

// solve turns an equality into a substitution when an atom has coefficient 1 or -1.
func (s *State) solve(t *Term) {
	t = s.canon(t)
	c, as, cs := linParts(t)
	if len(as) == 0 {
		if c.Sign() != 0 {
			s.dead = true
		}
		return
	}
	// prefer atoms that are not parts of other terms' structure, largest id last
	best := -1
	for i := range as {
		if new(big.Int).Abs(cs[i]).Cmp(big1) != 0 {
			continue
		}
		rest := newAcc()
		rest.add(t, big1)
		delete(rest.m, as[i])
		if best < 0 || atomRank(as[i]) > atomRank(as[best]) || atomRank(as[i]) == atomRank(as[best]) && as[i].id > as[best].id {
			ok := true
			for j, o := range as {
				if j != i && o.holds(as[i]) {
					ok = false
				}
			}
			if ok {
				best = i
			}
		}
	}
	if best >= 0 {
		l := newAcc()
		for i, a := range as {
			if i != best {
				l.add(a, cs[i])
			}
		}
		l.c.Add(l.c, c)
		r := l.term()
		if cs[best].Sign() > 0 {
			r = tNeg(r)
		}
		// the substituted atom's range becomes a fact about the right-hand side
		lo, hi := s.atomBounds(as[best])
		a := as[best]
		var def []*Term // what defines the atom, too
		if a.op == OApp && (a.name == "fdiv" || a.name == "quo") {
			def = s.axioms(a)
		}
		s.setSub(a, r)
		for _, d := range def {
			if !s.dead && s.decideLe(s.canon(d)) != 1 {
				s.assume(mkLe(s.canon(d), t0))
			}
		}
		if lo != nil && s.decideLe(tSub(mkBig(lo), r)) != 1 {
			s.assume(mkLe(mkBig(lo), r))
		}
		if !s.dead && hi != nil && s.decideLe(tSub(r, mkBig(hi))) != 1 {
			s.assume(mkLe(r, mkBig(hi)))
		}
		return
	}
	if s.infeasibleSet(nil) {
		s.dead = true
	}
}

func atomRank(a *Term) int {
	switch a.op {
	case OSym:
		return 3
	case OAt:
		return 2
	case OLen:
		return 2
	case OBits:
		return 1
	}
	return 1
}

// splitEq takes an equation between two values made of bit fields apart at the lowest boundary between fields: the
// parts below it are equal and so are the parts above it.
func splitEq(t *Term) (low, high *Term) {
	c, as, cs := linParts(t)
	if len(as) < 2 || len(as) > 16 {
		return nil, nil
	}
	pos, neg := newAcc(), newAcc()
	for i, a := range as {
		if cs[i].Sign() > 0 {
			pos.add(a, cs[i])
		} else {
			neg.add(a, new(big.Int).Neg(cs[i]))
		}
	}
	if c.Sign() > 0 {
		pos.c.Set(c)
	} else {
		neg.c.Neg(c)
	}
	p, q := pos.term(), neg.term()
	k, w := -1, 0
	for _, x := range []*Term{p, q} {
		ps, ok := pieces(x)
		if !ok {
			return nil, nil
		}
		for _, y := range ps {
			if y.at > 0 && (k < 0 || y.at < k) {
				k = y.at
			}
			if y.at+y.w > w {
				w = y.at + y.w
			}
		}
	}
	if k < 0 || k >= w {
		return nil, nil
	}
	low, high = mkEqInt(mkBits(p, 0, k), mkBits(q, 0, k)), mkEqInt(mkBits(p, k, w-k), mkBits(q, k, w-k))
	if low.op == OEq && low.args[0] == t || high.op == OEq && high.args[0] == t {
		return nil, nil
	}
	return low, high
}

// unify records the consequences of two equal sequences.
func (s *State) unify(a, b *Term) {
	if a == b || s.dead {
		return
	}
	// whole atom equals a sequence not mentioning it
	whole := func(x *Term) *Term {
		if len(x.args) == 1 && x.args[0].op == OSub && x.args[0].args[1] == t0 {
			at := x.args[0].args[0]
			if s.decide(mkEqInt(x.args[0].args[2], atomLen(at))) == 1 && at.op == OSym {
				return at
			}
		}
		return nil
	}
	if w := whole(a); w != nil && !b.holds(w) {
		s.setSub(w, b)
		return
	}
	if w := whole(b); w != nil && !a.holds(w) {
		s.setSub(w, a)
		return
	}
	// element-wise for short sequences
	n, ok := s.constOf(seqLen(a))
	if !ok {
		n, ok = s.constOf(seqLen(b))
	}
	if ok && n <= 64 {
		for k := int64(0); k < n; k++ {
			p, q := theEngine.seqAtQuiet(s, a, mkInt(k)), theEngine.seqAtQuiet(s, b, mkInt(k))
			if p == nil || q == nil || p == q {
				continue
			}
			if plo, _ := p.rng(); plo == nil {
				continue
			}
			if !s.assume(mkEqInt(p, q)) {
				return
			}
		}
	}
}

// recheck looks for contradictions between negative literals and what has become true.
func (s *State) recheck() {
	for _, x := range s.lits {
		if x.op == ONot {
			switch x.args[0].op {
			case OSeqEq:
				if s.decideSeqEq(x.args[0].args[0], x.args[0].args[1], 1) == 1 {
					s.dead = true
					return
				}
			case OEq:
				c := s.canon(x.args[0])
				if c == tTrue {
					s.dead = true
					return
				}
			case OAnd:
				c := s.canon(x.args[0])
				if c == tTrue || c.op == OAnd && s.decideD(c, 1) == 1 {
					s.dead = true
					return
				}
				if c.op != OAnd && s.decideNoHas(c, x) == 1 {
					s.dead = true
					return
				}
			case OPred:
				c := s.canon(x.args[0])
				for _, y := range s.lits {
					if y.op == OPred && y.name == c.name && s.canon(y) == c {
						s.dead = true
						return
					}
				}
			}
		} else if x.op == OEq || x.op == OLe {
			c := s.canon(x)
			if c == tFalse {
				s.dead = true
				return
			}
		} else if x.op == OSeqEq {
			if s.decideSeqEq(x.args[0], x.args[1], 1) == -1 {
				s.dead = true
				return
			}
		}
	}
}

func (s *State) decideNoHas(c, except *Term) int {
	return s.decide(c)
}

// ---- linear reasoning (Fourier-Motzkin over the rationals, integer tightening on inputs) ----

type row struct {
	c *big.Int
	k map[*Term]*big.Int
}

func (s *State) infeasible(extra *Term) bool { return s.infeasibleSet(extra) }

// infeasibleSet reports whether the linear facts, together with extra <= 0, have no solution.
func (s *State) infeasibleSet(extra *Term) bool {
	g := genStep{s.gen, extra, nil}
	r, ok := infMemo[g]
	if !ok {
		r = s.infeasibleSet1(extra)
		infMemo[g] = r
	} else {
		infHits++
	}
	return r
}

func (s *State) infeasibleSet1(extra *Term) bool {
	var rows []row
	addRow := func(t *Term) {
		c, as, cs := linParts(t)
		r := row{c: c, k: make(map[*Term]*big.Int, len(as))}
		for i, a := range as {
			r.k[a] = cs[i]
		}
		rows = append(rows, r)
	}
	rel := map[*Term]bool{}
	for _, l := range s.lits[s.linN:] {
		switch l.op {
		case OLe:
			s.lin = append(s.lin, s.canon(l.args[0]))
		case OEq:
			t := s.canon(l.args[0])
			if t.op != OInt {
				s.lin = append(s.lin, t, tNeg(t))
			}
		}
	}
	s.linN = len(s.lits)
	lin := s.lin[:len(s.lin):len(s.lin)]
	if extra != nil {
		extra = s.canon(extra)
		if extra.op == OInt {
			return extra.val.Sign() > 0
		}
		addRow(extra)
	}
	expand := func(a *Term) {
		// definitional facts of derived atoms
		for _, t := range s.axioms(a) {
			t = s.canon(t)
			lin = append(lin, t)
		}
	}
	expanded := map[*Term]bool{}
	mark := func(t *Term) {
		_, as, _ := linParts(t)
		for _, a := range as {
			rel[a] = true
			if !expanded[a] {
				expanded[a] = true
				expand(a)
			}
		}
	}
	if extra != nil {
		mark(extra)
	} else if len(s.lits) > 0 {
		// start from the most recent linear fact
		for i := len(s.lits) - 1; i >= 0; i-- {
			l := s.lits[i]
			if l.op == OLe || l.op == OEq {
				mark(s.canon(l.args[0]))
				break
			}
		}
	}
	used := map[int]bool{}
	for changed := true; changed; {
		changed = false
		for i := 0; i < len(lin); i++ {
			if used[i] {
				continue
			}
			c, as, _ := linParts(lin[i])
			hit := len(as) == 0 && c.Sign() > 0
			for _, a := range as {
				if rel[a] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				addRow(lin[i])
				mark(lin[i])
				if len(rows) > 120 {
					changed = false
					break
				}
			}
		}
	}
	// intrinsic ranges
	as := make([]*Term, 0, len(rel))
	for a := range rel {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	for _, a := range as {
		lo, hi := a.rng()
		if lo != nil {
			rows = append(rows, row{c: lo, k: map[*Term]*big.Int{a: bigM1}})
		}
		if hi != nil {
			rows = append(rows, row{c: new(big.Int).Neg(hi), k: map[*Term]*big.Int{a: big1}})
		}
	}
	return fm(rows, as)
}

func fm(rows []row, vars []*Term) bool {
	for {
		for _, r := range rows {
			if len(r.k) == 0 && r.c.Sign() > 0 {
				return true
			}
		}
		// choose the variable with the fewest products
		type cnt struct{ p, n int }
		counts := map[*Term]*cnt{}
		for _, r := range rows {
			for a, k := range r.k {
				c := counts[a]
				if c == nil {
					c = &cnt{}
					counts[a] = c
				}
				if k.Sign() > 0 {
					c.p++
				} else {
					c.n++
				}
			}
		}
		if len(counts) == 0 {
			return false
		}
		var best *Term
		bestCost := 1 << 60
		for _, a := range vars {
			c := counts[a]
			if c == nil {
				continue
			}
			cost := c.p*c.n - c.p - c.n
			if cost < bestCost {
				best, bestCost = a, cost
			}
		}
		if best == nil {
			return false
		}
		var pos, neg, rest []row
		for _, r := range rows {
			k := r.k[best]
			switch {
			case k == nil:
				rest = append(rest, r)
			case k.Sign() > 0:
				pos = append(pos, r)
			default:
				neg = append(neg, r)
			}
		}
		if len(rest)+len(pos)*len(neg) > 600 {
			return false
		}
		seen := map[string]bool{}
		for _, p := range pos {
			for _, n := range neg {
				kp, kn := p.k[best], new(big.Int).Neg(n.k[best])
				r := row{c: new(big.Int).Add(new(big.Int).Mul(p.c, kn), new(big.Int).Mul(n.c, kp)), k: map[*Term]*big.Int{}}
				for a, k := range p.k {
					if a != best {
						r.k[a] = new(big.Int).Mul(k, kn)
					}
				}
				for a, k := range n.k {
					if a != best {
						v := new(big.Int).Mul(k, kp)
						if o := r.k[a]; o != nil {
							v.Add(v, o)
						}
						if v.Sign() == 0 {
							delete(r.k, a)
						} else {
							r.k[a] = v
						}
					}
				}
				r.tighten()
				if len(r.k) == 0 {
					if r.c.Sign() > 0 {
						return true
					}
					continue
				}
				key := r.key()
				if !seen[key] {
					seen[key] = true
					rest = append(rest, r)
				}
			}
		}
		rows = rest
	}
}

// tighten divides by the gcd of the coefficients, rounding the constant (all variables are integers).
func (r *row) tighten() {
	g := new(big.Int)
	for _, k := range r.k {
		g.GCD(nil, nil, g, new(big.Int).Abs(k))
	}
	if g.Cmp(big1) <= 0 {
		return
	}
	for a, k := range r.k {
		r.k[a] = new(big.Int).Div(k, g)
	}
	q := new(big.Int).Neg(r.c)
	q.Div(q, g)
	r.c = q.Neg(q)
}

func (r *row) key() string {
	ids := make([]*Term, 0, len(r.k))
	for a := range r.k {
		ids = append(ids, a)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i].id < ids[j].id })
	s := r.c.Text(62)
	for _, a := range ids {
		s += "," + mkInt(int64(a.id)).val.Text(62) + "*" + r.k[a].Text(62)
	}
	return s
}

// axioms are the defining inequalities (t <= 0) of an atom.
func (s *State) axioms(a *Term) []*Term {
	switch a.op {
	case OBits:
		x := a.args[0]
		// x = low + 2^n*a + 2^(n+m)*rest with 0 <= low < 2^n
		lo, hi := x.rng()
		low := t0
		if a.n > 0 {
			low = mkBits(x, 0, a.n)
		}
		sum := tAdd(low, tScale(a, pow2(a.n)))
		if blo, bhi := s.bounds(x); blo != nil && bhi != nil && blo.Sign() >= 0 && bhi.BitLen() <= a.n+a.m {
			// the facts bound x: nothing is left above the field
		} else if lo != nil && hi != nil && lo.Sign() >= 0 && hi.BitLen() > a.n+a.m {
			sum = tAdd(sum, tScale(mkBits(x, a.n+a.m, hi.BitLen()-a.n-a.m), pow2(a.n+a.m)))
		} else if !(lo != nil && hi != nil && lo.Sign() >= 0) {
			rest := mkAppR("fdiv", nil, nil, x, mkBig(pow2(a.n+a.m)))
			sum = tAdd(sum, tScale(rest, pow2(a.n+a.m)))
		}
		d := tSub(x, sum)
		if d.op == OInt {
			// the fields together are x itself: relate each to x
			out := []*Term{tSub(tScale(a, pow2(a.n)), x)}
			if hi != nil && hi.BitLen() <= a.n+a.m {
				out = append(out, tSub(x, tAdd(tScale(a, pow2(a.n)), mkBig(new(big.Int).Sub(pow2(a.n), big1)))))
			}
			return out
		}
		return []*Term{d, tNeg(d)}
	case OLen:
		if x := a.args[0]; x.op == OApp && len(x.args) == 1 {
			switch x.name {
			case "tolower", "toupper": // rune by rune; an invalid byte becomes three bytes, a three-byte rune may become one
				n := seqLen(x.args[0])
				return []*Term{tSub(a, tScale(n, big.NewInt(3))), tSub(n, tScale(a, big.NewInt(3)))}
			case "rune2str":
				return []*Term{tSub(t1, a), tSub(a, mkInt(4))}
			}
		}
		// message-pack encodings have bounded size
		if x := a.args[0]; x.op == OApp && strings.HasPrefix(x.name, "mp:") {
			if k, ok := mpMax[x.name[3:]]; ok {
				return []*Term{tSub(a, mkInt(k)), tSub(t1, a)}
			}
			if x.args[0].op == OSeq {
				n := seqLen(x.args[0])
				return []*Term{tSub(a, tAddI(n, 5)), tSub(tAddI(n, 1), a)}
			}
		}
	case OApp:
		switch a.name {
		case "fdiv": // floor division by a positive constant: c*q <= x <= c*q + c-1
			x, c := a.args[0], a.args[1]
			if c.op == OInt && c.val.Sign() > 0 {
				q := tScale(a, c.val)
				return []*Term{tSub(q, x), tSub(x, tAdd(q, mkBig(new(big.Int).Sub(c.val, big1))))}
			}
		case "quo": // truncated division by a positive constant
			x, c := a.args[0], a.args[1]
			if c.op == OInt && c.val.Sign() > 0 {
				q := tScale(a, c.val)
				cm := mkBig(new(big.Int).Sub(c.val, big1))
				// |x - c*q| <= c-1, and the quotient has the sign of the dividend
				out := []*Term{tSub(tSub(x, q), cm), tSub(tSub(q, x), cm)}
				lo, hi := s.bounds(x)
				if lo != nil && new(big.Int).Add(lo, c.val).Sign() > 0 {
					out = append(out, tNeg(a))
				}
				if hi != nil && new(big.Int).Sub(hi, c.val).Sign() < 0 {
					out = append(out, a)
				}
				return out
			}
		case "idx", "min":
		}
	}
	return nil
}

// noIntegers reports whether the equations have no integer solution (by reduction to echelon form over the integers).
func (s *State) noIntegers() bool {
	type eqn struct {
		c *big.Int
		k map[*Term]*big.Int
	}
	var rows []*eqn
	for _, l := range s.lits {
		if l.op != OEq {
			continue
		}
		t := s.canon(l.args[0])
		c, as, cs := linParts(t)
		if len(as) == 0 {
			continue
		}
		r := &eqn{new(big.Int).Set(c), map[*Term]*big.Int{}}
		for i, a := range as {
			r.k[a] = new(big.Int).Set(cs[i])
		}
		rows = append(rows, r)
	}
	if len(rows) < 2 || len(rows) > 40 {
		return false
	}
	var vars []*Term
	seen := map[*Term]bool{}
	for _, r := range rows {
		for a := range r.k {
			if !seen[a] {
				seen[a] = true
				vars = append(vars, a)
			}
		}
	}
	if len(vars) > 80 {
		return false
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].id < vars[j].id })
	bad := func(r *eqn) bool {
		g := new(big.Int)
		for _, k := range r.k {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if g.Sign() == 0 {
			return r.c.Sign() != 0
		}
		return new(big.Int).Rem(r.c, g).Sign() != 0
	}
	for _, v := range vars {
		for {
			// the row with the smallest coefficient reduces the others
			var p *eqn
			n := 0
			for _, r := range rows {
				if k := r.k[v]; k != nil {
					n++
					if p == nil || k.CmpAbs(p.k[v]) < 0 {
						p = r
					}
				}
			}
			if n == 0 {
				break
			}
			if bad(p) {
				return true
			}
			if n == 1 {
				for i, r := range rows {
					if r == p {
						rows = append(rows[:i:i], rows[i+1:]...)
						break
					}
				}
				break
			}
			for _, r := range rows {
				k := r.k[v]
				if r == p || k == nil {
					continue
				}
				q := new(big.Int).Quo(k, p.k[v])
				for a, x := range p.k {
					y := new(big.Int).Neg(new(big.Int).Mul(q, x))
					if o := r.k[a]; o != nil {
						y.Add(y, o)
					}
					if y.Sign() == 0 {
						delete(r.k, a)
					} else {
						r.k[a] = y
					}
				}
				r.c.Sub(r.c, new(big.Int).Mul(q, p.c))
				if bad(r) {
					return true
				}
				if r.c.BitLen() > 512 {
					return false
				}
			}
		}
	}
	for _, r := range rows {
		if bad(r) {
			return true
		}
	}
	return false
}
