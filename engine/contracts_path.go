package main

import (
	"go/types"
	"math/big"
	"regexp/syntax"
	"sort"
)

func init() { checks["K05"] = checkK05 }

// ---- languages of regular expressions ----

// rxAuto decides whether a text contains a match of a regular expression, one character at a time.
type rxAuto struct {
	p *syntax.Prog
}

func newRxAuto(pat string) (*rxAuto, error) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil, err
	}
	p, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil, err
	}
	return &rxAuto{p}, nil
}

const rxBad = syntax.EmptyBeginLine | syntax.EmptyEndLine | syntax.EmptyWordBoundary | syntax.EmptyNoWordBoundary

// simple: no conditions on the surroundings other than the ends of the text.
func (a *rxAuto) simple() bool {
	for _, in := range a.p.Inst {
		if in.Op == syntax.InstEmptyWidth && syntax.EmptyOp(in.Arg)&rxBad != 0 {
			return false
		}
	}
	return true
}

// closure follows the empty moves; ends tells that the text ends here, begins that it starts here.
func (a *rxAuto) closure(from []uint32, begins, ends bool) (map[uint32]bool, bool) {
	seen := map[uint32]bool{}
	match := false
	work := append([]uint32{}, from...)
	for len(work) > 0 {
		i := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[i] {
			continue
		}
		seen[i] = true
		in := &a.p.Inst[i]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			work = append(work, in.Out, in.Arg)
		case syntax.InstCapture, syntax.InstNop:
			work = append(work, in.Out)
		case syntax.InstEmptyWidth:
			op := syntax.EmptyOp(in.Arg)
			if (op&syntax.EmptyBeginText == 0 || begins) && (op&syntax.EmptyEndText == 0 || ends) {
				work = append(work, in.Out)
			}
		case syntax.InstMatch:
			match = true
		}
	}
	return seen, match
}

type rxState struct {
	cores  []uint32 // positions reached by reading, before empty moves
	begins bool
	done   bool // a match has been seen
}

func (a *rxAuto) start() rxState {
	s := rxState{cores: []uint32{uint32(a.p.Start)}, begins: true}
	return s
}

func (a *rxAuto) accepts(s rxState) bool {
	if s.done {
		return true
	}
	_, m := a.closure(s.cores, s.begins, true)
	return m
}

func (a *rxAuto) step(s rxState, r rune) rxState {
	if s.done {
		return s
	}
	cl, m := a.closure(s.cores, s.begins, false)
	if m {
		return rxState{done: true}
	}
	next := map[uint32]bool{uint32(a.p.Start): true} // a match may begin anywhere
	for i := range cl {
		in := &a.p.Inst[i]
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			if in.MatchRune(r) {
				next[in.Out] = true
			}
		}
	}
	var out rxState
	for i := range next {
		out.cores = append(out.cores, i)
	}
	sort.Slice(out.cores, func(i, j int) bool { return out.cores[i] < out.cores[j] })
	return out
}

func (s rxState) key() string {
	if s.done {
		return "done"
	}
	b := []byte{}
	if s.begins {
		b = append(b, '^')
	}
	for _, c := range s.cores {
		b = append(b, byte(c), byte(c>>8))
	}
	return string(b)
}

// sameLanguage: the same texts contain a match of both expressions.
func sameLanguage(x, y string) bool {
	a, err1 := newRxAuto(x)
	b, err2 := newRxAuto(y)
	if err1 != nil || err2 != nil || !a.simple() || !b.simple() {
		return false
	}
	// representatives of all characters the expressions distinguish
	cuts := map[rune]bool{0: true}
	for _, p := range []*syntax.Prog{a.p, b.p} {
		for _, in := range p.Inst {
			if in.Op == syntax.InstRune && len(in.Rune) == 1 || in.Op == syntax.InstRune1 {
				if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
					for r := rune(0); r < 0x250; r++ {
						cuts[r] = true
					}
				}
			}
			for i, r := range in.Rune {
				if i%2 == 0 || len(in.Rune) == 1 {
					cuts[r] = true
				}
				if i%2 == 1 || len(in.Rune) == 1 {
					cuts[r+1] = true
				}
			}
			if in.Op == syntax.InstRuneAnyNotNL {
				cuts['\n'], cuts['\n'+1] = true, true
			}
		}
	}
	type pair struct{ s, t rxState }
	work := []pair{{a.start(), b.start()}}
	seen := map[string]bool{}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		id := p.s.key() + "|" + p.t.key()
		if seen[id] {
			continue
		}
		seen[id] = true
		if len(seen) > 20000 {
			return false
		}
		if a.accepts(p.s) != b.accepts(p.t) {
			return false
		}
		for r := range cuts {
			if r > 0x10FFFF {
				continue
			}
			work = append(work, pair{a.step(p.s, r), b.step(p.t, r)})
		}
	}
	return true
}

// optionalGroup is the text captured by a group that is an optional single character.
func optionalGroup(a, i *Term) *Term {
	if a.op != OApp || a.name != "elem" || a.args[0].op != OApp || a.args[0].name != "rxallsub" {
		return nil
	}
	x := a.args[0].args[0]
	j, isK := i.int64()
	if x.op != OApp || x.name != "regexp" || !isK {
		return nil
	}
	pat, ok := seqConst(x.args[0])
	if !ok {
		return nil
	}
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil
	}
	var out *Term
	var find func(r *syntax.Regexp)
	find = func(r *syntax.Regexp) {
		if r.Op == syntax.OpCapture && int64(r.Cap) == j {
			if q := r.Sub[0]; q.Op == syntax.OpQuest && q.Sub[0].Op == syntax.OpLiteral && len(q.Sub[0].Rune) == 1 && q.Sub[0].Rune[0] < 128 && q.Sub[0].Flags&syntax.FoldCase == 0 {
				out = mkSeq(mkRep(mkInt(int64(q.Sub[0].Rune[0])), mkAppR("rxlen", big0, big1, a, i), true))
			}
		}
		for _, s := range r.Sub {
			find(s)
		}
	}
	find(re)
	return out
}

// sameStructure: the expressions are the same up to notation, so that they capture the same parts.
func sameStructure(x, y string) bool {
	a, err1 := syntax.Parse(x, syntax.Perl)
	b, err2 := syntax.Parse(y, syntax.Perl)
	if err1 != nil || err2 != nil {
		return false
	}
	for _, r := range []*syntax.Regexp{a, b} {
		dropNames(r)
	}
	return a.Simplify().String() == b.Simplify().String()
}

func dropNames(r *syntax.Regexp) {
	r.Name = ""
	for _, s := range r.Sub {
		dropNames(s)
	}
}

// ---- K05 ----

const (
	pathSpec = "^(/[0-9]+'?)+$"
	elemSpec = "/([0-9]+)('?)"
)

// pathForm is a path text as the property reads it.
type pathForm struct {
	what  string
	s     *Term // without spaces
	list  *Term // the elements found in it
	n     *Term // their number
	root  *Term // it is the root path
	valid *Term // it is a list of elements
}

func (k *Checker) pathForm(what string, s *Term) *pathForm {
	e := k.e
	strs := types.NewSlice(types.Typ[types.String])
	t := e.stripSpaces(s)
	a := intern(Term{op: OApp, name: "rxallsub", args: []*Term{mkApp("regexp", nil, mkSeq(mkLit(elemSpec))), t, mkInt(-1), mkInt(3)}, typ: types.NewSlice(strs)})
	return &pathForm{what: what, s: t, list: seqOfAtom(a), n: atomLen(a), root: mkSeqEq(t, mkSeq(mkLit("/"))),
		valid: mkPred("rxmatch", mkApp("regexp", nil, mkSeq(mkLit(pathSpec))), t)}
}

func (e *Engine) stripSpaces(s *Term) *Term {
	return strAtom("strings.Replace", s, mkSeq(mkLit(" ")), mkSeq(), mkInt(-1))
}

// part is a captured part of an element.
func (k *Checker) part(st *State, p *pathForm, i *Term, j int64) *Term {
	e := k.e
	el := e.seqAtQuiet(st, p.list, i)
	if el == nil {
		return nil
	}
	v := e.seqAtQuiet(st, e.seqOf(st, el), mkInt(j))
	if v == nil {
		return nil
	}
	return st.canon(e.seqOf(st, v))
}

func (k *Checker) elemID(st *State, p *pathForm, i *Term) (ok, id *Term) {
	s := k.part(st, p, i, 1)
	if s == nil {
		return mkPred("?"), mkSym("?", nil)
	}
	return mkPred("parseuintok", s, mkInt(10), mkInt(32)), mkAppR("parseuint", big0, new(big.Int).SetUint64(1<<32-1), s, mkInt(10), mkInt(32))
}

func (k *Checker) elemHard(st *State, p *pathForm, i *Term) *Term {
	s := k.part(st, p, i, 2)
	if s == nil {
		return mkPred("?")
	}
	return mkSeqEq(s, mkSeq(mkLit("'")))
}

func checkK05(k *Checker) {
	k.rule("Abstract interpretation of ExtendedKey.DeriveFrom with unconstrained paths, Child and HardenedChild being opaque operations: each success exit has established that both texts (without spaces) are the root or match an expression accepting exactly the language of %s (decided by comparing the automata of the expressions in the source), has read every number as 32 bits, has run a loop over the whole parent path whose every iteration establishes agreement with the child path, and returns the result of a loop over exactly the remaining elements whose every iteration applies the operation its mark asks for to the key so far; each failing exit has established one of the reasons to fail and returns no key; no run-time condition can fail.", pathSpec)
	k.trust("the Go library finds the matches of " + elemSpec + " in a text of that form one after the other, without gaps")
	fn := k.anchor("pkg/key", "(*ExtendedKey).DeriveFrom")
	if fn == nil {
		return
	}
	e := k.e
	for _, o := range []struct{ fn, name string }{{"(*ExtendedKey).Child", opChild}, {"(*ExtendedKey).HardenedChild", opHard}} {
		f := k.anchor("pkg/key", o.fn)
		if f == nil {
			return
		}
		pt := f.Params[0].Type()
		e.opaque[f.String()] = func(e *Engine, c *callCtx) []Exit {
			if !c.need(e, mkNot(e.isNil(c.args[0])), "nil dereference") {
				return nil
			}
			p, i := c.st.canon(c.args[0]), c.st.canon(c.args[1])
			return c.split(mkPred(o.name+"?", p, i), func(st *State) []*Term {
				r := mkApp(o.name, pt, p, i)
				st.assume(mkNot(e.isNil(r)))
				return []*Term{r, mkNil(nil)}
			}, func(*State) []*Term { return []*Term{mkNil(nil), mkErr(o.name)} })
		}
	}
	e.rxMatch, e.rxParts = []string{pathSpec}, []string{elemSpec}
	st := newState()
	args := k.symArgs(fn)
	st.assume(mkNot(e.isNil(args[0])))
	P := k.pathForm("the parent path", e.seqOf(st, args[1]))
	C := k.pathForm("the child path", e.seqOf(st, args[2]))
	xs, ok := k.run(fn, st, args)
	if !ok {
		return
	}
	good, bad := k.splitErr(xs, 1)
	if len(good) == 0 {
		k.violate(k.p.pos(fn.Pos()), "DeriveFrom never succeeds")
	}
	for _, x := range good {
		k.derivation(x, P, C, args[0])
	}
	for _, x := range bad {
		k.must(x.st, e.isNil(x.ret[0]), k.p.pos(x.pos), "DeriveFrom fails but returns a key")
		k.count("facts", 1)
		if !k.mayFail(x.st, P, C) {
			k.violate(k.p.pos(x.pos), "DeriveFrom can fail here although nothing is wrong with the paths and no derivation step failed").with(x.st)
		}
	}
	k.noPanics(nil)
	k.atLeast("success exits", len(good), 2)
}

// ended: the exit is reached after the loop of the summary has run as often as given.
func ended(st *State, s *loopSummary, n *Term) bool { return st.decide(mkEqInt(s.k, n)) == 1 }

// derivation checks one success exit of DeriveFrom.
func (k *Checker) derivation(x Exit, P, C *pathForm, recv *Term) {
	e := k.e
	pos := k.p.pos(x.pos)
	fail := func(f string, a ...any) { k.violate(pos, f, a...).with(x.st) }
	// both paths are well formed
	count := map[*pathForm]*Term{}
	for _, p := range []*pathForm{P, C} {
		k.count("facts", 2)
		switch {
		case x.st.decide(p.root) == 1:
			count[p] = t0
		case x.st.decide(p.root) == -1 && x.st.decide(p.valid) == 1:
			count[p] = p.n
			// every number was read
			found := false
			for _, s := range e.sums {
				if s.head == nil || x.st.decide(mkLe(p.n, s.k)) != 1 {
					continue
				}
				all := len(s.backs) > 0
				for _, b := range s.backs {
					ok, _ := k.elemID(b.st, p, s.k)
					all = all && b.st.decide(ok) == 1
				}
				found = found || all
			}
			if !found {
				fail("DeriveFrom succeeds although an element of %s need not fit in 32 bits", p.what)
				return
			}
		default:
			fail("DeriveFrom succeeds although %s need not be well formed", p.what)
			return
		}
	}
	m := count[P]
	k.must(x.st, mkLt(m, count[C]), pos, "DeriveFrom succeeds although the child path need not be longer than the parent path")
	// the parent path is a prefix
	if m != t0 {
		found := false
		for _, s := range e.sums {
			if s.head == nil || x.st.decide(mkLe(m, s.k)) != 1 {
				continue
			}
			all := len(s.backs) > 0
			for _, b := range s.backs {
				_, i := k.elemID(b.st, P, s.k)
				_, j := k.elemID(b.st, C, s.k)
				all = all && b.st.eqVal(i, j, 0) == 1 && sameTruth(b.st, k.elemHard(b.st, P, s.k), k.elemHard(b.st, C, s.k))
			}
			found = found || all
		}
		k.count("facts", 1)
		if !found {
			fail("DeriveFrom succeeds although the parent path need not agree with the beginning of the child path, marks included")
		}
	}
	// the remaining elements are applied in order
	var steps *loopSummary
	var key int
	for _, s := range e.sums {
		for i, ph := range s.phis {
			if s.head != nil && x.st.canon(x.ret[0]) == x.st.canon(ph.cur) && ph.cur != recv {
				steps, key = s, i
			}
		}
	}
	if steps == nil {
		fail("the key returned is not the result of applying the elements of the path one by one: %s", x.ret[0])
		return
	}
	if x.st.canon(steps.phis[key].init) != x.st.canon(recv) {
		fail("the derivation does not start from the given key")
	}
	if !ended(x.st, steps, tSub(count[C], m)) {
		fail("the number of derivation steps need not be the number of elements the child path adds")
	}
	for _, b := range steps.backs {
		k.count("derivation_steps", 1)
		i := tAdd(m, steps.k)
		_, id := k.elemID(b.st, C, i)
		for _, hard := range []bool{true, false} {
			st := b.st.clone()
			l, op := k.elemHard(st, C, i), opHard
			if !hard {
				l, op = mkNot(l), opChild
			}
			if !st.assume(l) || k.refute(st) {
				continue
			}
			want := mkApp(op, steps.phis[key].phi.Type(), st.canon(steps.phis[key].cur), st.canon(id))
			k.count("facts", 1)
			if st.canon(b.vals[key]) != st.canon(want) && st.eqVal(b.vals[key], want, 0) != 1 {
				k.violate(pos, "a derivation step gives %s instead of %s", st.canon(b.vals[key]), want).with(st)
			}
		}
	}
}

// sameTruth: two conditions hold together or not at all.
func sameTruth(st *State, a, b *Term) bool {
	y, n := fork(st, a)
	return (y == nil || y.dead || y.decide(b) == 1) && (n == nil || n.dead || n.decide(b) == -1)
}

// mayFail: the exit has established that a path is malformed, that the child path does not extend the parent path, or
// that a step failed.
func (k *Checker) mayFail(st *State, P, C *pathForm) bool {
	for _, p := range []*pathForm{P, C} {
		if st.decide(p.root) == -1 && st.decide(p.valid) == -1 {
			return true
		}
	}
	n := func(p *pathForm) *Term {
		if st.decide(p.root) == 1 {
			return t0
		}
		return p.n
	}
	if st.decide(mkLe(n(C), n(P))) == 1 {
		return true
	}
	for _, s := range k.e.sums {
		if s.head == nil || st.decide(mkLt(s.k, n(C))) != 1 && st.decide(mkLt(s.k, n(P))) != 1 {
			continue
		}
		for _, p := range []*pathForm{P, C} {
			if ok, _ := k.elemID(st, p, s.k); st.decide(s0(st, s.k, n(p))) == 1 && st.decide(ok) == -1 {
				return true
			}
		}
		if st.decide(s0(st, s.k, n(P))) == 1 && st.decide(s0(st, s.k, n(C))) == 1 {
			_, i := k.elemID(st, P, s.k)
			_, j := k.elemID(st, C, s.k)
			same := st.clone()
			if !same.assume(mkEqInt(i, j)) || k.refute(same) {
				return true
			}
			hp, hc := k.elemHard(st, P, s.k), k.elemHard(st, C, s.k)
			agree := false
			for _, ls := range [][]*Term{{hp, hc}, {mkNot(hp), mkNot(hc)}} {
				t := same.clone()
				if t.assume(ls[0]) && t.assume(ls[1]) && !k.refute(t) {
					agree = true
				}
			}
			if !agree {
				return true
			}
		}
	}
	for _, l := range st.lits {
		if l.op == ONot && l.args[0].op == OPred && (l.args[0].name == opChild+"?" || l.args[0].name == opHard+"?") {
			return true
		}
	}
	return false
}

func s0(st *State, i, n *Term) *Term { return mkAnd(mkLe(t0, i), mkLt(i, n)) }
