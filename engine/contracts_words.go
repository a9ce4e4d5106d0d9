package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["W01"] = checkW01
	checks["W02"] = checkW02
	checks["W03"] = checkW03
	checks["W04"] = checkW04
}

// wordLists finds the shipped word lists: the package-level map from language to list.
func (k *Checker) wordLists() map[string]*Term {
	e := k.e
	out := map[string]*Term{}
	st := newState()
	sp := k.p.ssa[modPath+"/pkg/words"]
	if sp == nil {
		k.violate("pkg/words", "the package was not found")
		return nil
	}
	maps := 0
	for _, m := range sp.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		gt := g.Type().Underlying().(*types.Pointer).Elem()
		if types.TypeString(gt.Underlying(), nil) != "map[string][]string" {
			continue
		}
		maps++
		c := e.content(st, e.asMap(e.load(st, e.globalPtr(g)), gt).n)
		if c.op != OMapV || c.args[0].name != "emptymap" {
			k.violate("pkg/words", "the contents of %s are not determined", g.Name())
			return nil
		}
		for i := 1; i+1 < len(c.args); i += 2 {
			lang, ok := seqConst(c.args[i])
			if !ok {
				k.violate("pkg/words", "a language of %s is not constant: %s", g.Name(), c.args[i])
				continue
			}
			out[lang] = e.seqOf(st, c.args[i+1])
		}
	}
	if maps != 1 {
		k.violate("pkg/words", "expected one package-level map from language to word list, found %d", maps)
		return nil
	}
	if out["en"] == nil {
		k.violate("pkg/words", "there is no English word list")
		return nil
	}
	return out
}

func languages(ls map[string]*Term) []string {
	var langs []string
	for l := range ls {
		langs = append(langs, l)
	}
	sort.Strings(langs)
	return langs
}

func checkW01(k *Checker) {
	k.rule("Evaluation of package initialisation on constants: every word list the language map holds is read from the initial state and checked entry by entry. The map counts as constant only because no function other than initialisation writes the package variable or stores into it; otherwise its content is unknown and the check fails.")
	k.fresh()
	ls := k.wordLists()
	k.atLeast("word lists", len(ls), 1)
	for _, lang := range languages(ls) {
		l := listOf(ls[lang])
		if l == nil {
			k.violate("pkg/words", "the word list %q is not a constant list of words", lang)
			continue
		}
		k.count("words", len(l.words))
		if len(l.words) != 2048 {
			k.violate("pkg/words", "the word list %q has %d words instead of 2048", lang, len(l.words))
		}
		four := map[string]string{}
		for i, w := range l.words {
			k.count("facts", 4)
			if w == "" {
				k.violate("pkg/words", "word %d of %q is empty", i, lang)
			}
			for _, c := range []byte(w) {
				if c < 'a' || c > 'z' {
					k.violate("pkg/words", "word %d of %q, %q, is not lower-case ASCII", i, lang, w)
				}
			}
			if i > 0 && l.words[i-1] >= w {
				k.violate("pkg/words", "words %d and %d of %q, %q and %q, are not in strictly ascending order", i-1, i, lang, l.words[i-1], w)
			}
			p := w
			if len(p) > 4 {
				p = p[:4]
			}
			if o, ok := four[p]; ok {
				k.violate("pkg/words", "%q and %q in %q share their first four letters", o, w, lang)
			}
			four[p] = w
		}
	}
}

// ---- linear algebra over bit polynomials ----

// span is a set of polynomials known to vanish, closed under addition.
type span struct {
	rows map[string]anf // by leading monomial
}

func newSpan() *span { return &span{map[string]anf{}} }

func leadOf(p anf) string {
	l, first := "", true
	for m := range p {
		if first || m > l {
			l, first = m, false
		}
	}
	return l
}

// reduce takes the known polynomials out.
func (s *span) reduce(p anf) anf {
	for {
		// the largest monomial of p that leads a row
		best, found := "", false
		for m := range p {
			if _, ok := s.rows[m]; ok && (!found || m > best) {
				best, found = m, true
			}
		}
		if !found {
			return p
		}
		p = p.xor(s.rows[best])
	}
}

func (s *span) add(p anf) {
	p = s.reduce(p)
	if len(p) > 0 {
		s.rows[leadOf(p)] = p
	}
}

// broken: the polynomials cannot all vanish.
func (s *span) broken() bool { r, ok := s.rows[""]; return ok && len(r) == 1 }

func (s *span) has(p anf) bool { return len(s.reduce(p)) == 0 }

// polysOf collects the polynomials an equality literal makes vanish; nil when it is not of that kind.
func (k *Checker) polysOf(l *Term) ([]anf, bool) {
	switch l.op {
	case OBool:
		return nil, l.n == 1
	case OAnd:
		var out []anf
		for _, x := range l.args {
			ps, ok := k.polysOf(x)
			if !ok {
				return nil, false
			}
			out = append(out, ps...)
		}
		return out, true
	case OSeqEq:
		if es := k.elementwise(l); es != nil {
			return k.polysOf(es)
		}
	case OEq:
		return eqPolys(l.args[0], 64)
	}
	return nil, false
}

// spanOf is what a state's equalities say about bits.
func (k *Checker) spanOf(st *State) *span {
	s := newSpan()
	for _, l := range st.path {
		if ps, ok := k.polysOf(l); ok {
			for _, p := range ps {
				s.add(p)
			}
			continue
		}
		if l.op == ONot {
			// a single bit that is not zero is one
			if ps, ok := k.polysOf(l.args[0]); ok && len(ps) == 1 {
				s.add(ps[0].xor(anfConst(true)))
			}
		}
	}
	return s
}

// contradicted: the state excludes that all the polynomials vanish.
func (k *Checker) contradicted(st *State, ps []anf) bool {
	s := k.spanOf(st)
	for _, p := range ps {
		s.add(p)
	}
	if s.broken() {
		return true
	}
	for _, l := range st.path {
		if l.op != ONot {
			continue
		}
		qs, ok := k.polysOf(l.args[0])
		if !ok {
			continue
		}
		all := true
		for _, q := range qs {
			if !s.has(q) {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}

// ---- the documented layout ----

// crc8Bits is the CRC-8 with polynomial x^8+x^4+x^3+x^2+1, starting from zero, of a stream of bits; bit 0 first.
func crc8Bits(stream []anf) [8]anf {
	var r [8]anf
	for i := range r {
		r[i] = anf{}
	}
	for _, b := range stream {
		top := r[7].xor(b)
		copy(r[1:], r[:7])
		r[0] = anf{}
		for _, i := range []int{0, 2, 3, 4} {
			r[i] = r[i].xor(top)
		}
	}
	return r
}

// wordsFor is the number of words n bytes take: the bytes and at least four bits of checksum.
func wordsFor(n int) int { return (8*n + 4 + 10) / 11 }

// candidates are the byte counts that n words may stand for, shortest first.
func candidates(n int) []int {
	var out []int
	for rb := 0; 8*rb+4 <= 11*n; rb++ {
		if wordsFor(rb) == n {
			out = append(out, rb)
		}
	}
	return out
}

// streamBit is bit i of the stream made of 11-bit groups.
func streamBit(idx []*Term, i int) (anf, bool) { return anfBit(idx[i/11], 10-i%11) }

// checksum lists the polynomials that vanish exactly when the checksum for rb bytes matches.
func checksum(idx []*Term, rb int) ([]anf, bool) {
	var stream []anf
	for i := 0; i < 11*len(idx); i++ {
		p, ok := streamBit(idx, i)
		if !ok {
			return nil, false
		}
		stream = append(stream, p)
	}
	c := crc8Bits(stream[:8*rb])
	n := len(stream) - 8*rb
	var out []anf
	for j := 0; j < n; j++ {
		p := stream[len(stream)-1-j]
		if j < 8 {
			p = p.xor(c[j])
		}
		out = append(out, p)
	}
	return out, true
}

// listIndex is the position of a word in the list, if the word is known to be an element.
func listIndex(list, w *Term) *Term {
	if l, idx := rankOf(w); l != nil && l == listOf(list) {
		return idx
	}
	if c, ok := seqConst(w); ok {
		if l := listOf(list); l != nil {
			if i, in := l.pos[c]; in {
				return mkInt(int64(i))
			}
		}
	}
	return nil
}

const maxEncoded = 64 // bytes

func checkW03(k *Checker) {
	k.rule("Bit-precise abstract interpretation of encoding for every length from 0 to %d bytes with unconstrained content, and of decoding for every number of words that results, with every word an unconstrained member of the list: each of the 11 bits of each word's index is shown, as a polynomial over GF(2), to be the input bit or CRC-8 bit the layout puts there; decoding is shown to return the bits at those places, and never to fail, or return something longer, while the checksum equations of a length hold.", maxEncoded)
	k.trust("the polynomials are compared in algebraic normal form, which is canonical; the reference CRC-8 is computed by the checker from the polynomial 0x1D")
	k.fresh()
	ls := k.wordLists()
	if ls == nil {
		return
	}
	for _, lang := range languages(ls) {
		if listOf(ls[lang]) == nil || !listOf(ls[lang]).ascending || len(listOf(ls[lang]).words) != 2048 {
			k.violate("pkg/words", "the word list %q is not an ascending list of 2048 words", lang)
			return
		}
		k.encodeWords(lang, ls[lang])
		k.decodeWords(lang, ls[lang])
	}
}

func (k *Checker) encodeWords(lang string, list *Term) {
	fn := k.anchor("pkg/words", "FromBytes")
	if fn == nil {
		return
	}
	e := k.e
	for n := 0; n <= maxEncoded; n++ {
		st := newState()
		args := []*Term{mkSeq(mkLit(lang)), nil}
		data := mkSeq(mkSub(mkSym("data", types.NewSlice(types.Typ[types.Uint8])), t0, mkInt(int64(n))))
		args[1] = e.newSlice(st, data, types.Typ[types.Uint8], nil, "data")
		xs, ok := k.run(fn, st, args)
		if !ok {
			return
		}
		k.count("encoded_lengths", 1)
		k.atLeast("ways encoding ends", len(xs), 1)
		for _, x := range xs {
			pos := k.p.pos(x.pos)
			if x.pan || x.st.decide(e.isNil(x.ret[1])) != 1 {
				k.violate(pos, "encoding %d bytes can fail", n).with(x.st)
				return
			}
			var stream []anf
			for i := 0; i < 8*n; i++ {
				p, ok := anfBit(k.at(x.st, data, mkInt(int64(i/8))), 7-i%8)
				if !ok {
					k.violate(pos, "bit %d of the input could not be followed", i)
					return
				}
				stream = append(stream, p)
			}
			crc := crc8Bits(stream)
			out := x.st.canon(e.seqOf(x.st, x.ret[0]))
			nw, isC := x.st.constOf(seqLen(out))
			if !isC || int(nw) != wordsFor(n) {
				k.violate(pos, "%d bytes are encoded in %s words instead of %d", n, seqLen(out), wordsFor(n)).with(x.st)
				return
			}
			s := k.spanOf(x.st)
			for w := 0; w < int(nw); w++ {
				el := k.at(x.st, out, mkInt(int64(w)))
				var idx *Term
				if el != nil {
					idx = listIndex(list, x.st.canon(el))
				}
				if idx == nil {
					k.violate(pos, "word %d of the encoding of %d bytes is not a word of the list at a known index: %s", w, n, el)
					return
				}
				for b := 0; b < 11; b++ {
					i := 11*w + b
					want := anf{}
					if i < 8*n {
						want = stream[i]
					} else if j := 11*int(nw) - 1 - i; j < 8 {
						want = crc[j]
					}
					got, ok := anfBit(idx, 10-b)
					k.count("facts", 1)
					if !ok || got.key() != want.key() && !s.has(got.xor(want)) {
						k.violate(pos, "encoding %d bytes: bit %d of word %d (bit %d of the stream) is not the bit the layout puts there", n, 10-b, w, i).with(x.st)
						return
					}
				}
			}
		}
		k.noPanics(nil)
	}
}

func (k *Checker) decodeWords(lang string, list *Term) {
	fn := k.anchor("pkg/words", "ToBytes")
	if fn == nil {
		return
	}
	e := k.e
	str := types.Typ[types.String]
	for n := 1; n <= wordsFor(maxEncoded); n++ {
		st := newState()
		args := []*Term{mkSeq(mkLit(lang)), nil}
		var segs, idx []*Term
		for i := 0; i < n; i++ {
			v := mkBits(e.materialize(mkSym(fmt.Sprint("i", i), nil), types.Typ[types.Uint16]), 0, 11)
			idx = append(idx, v)
			segs = append(segs, mkElem(e.seqAt(st, list, v, str), false))
		}
		args[1] = e.newSlice(st, mkSeq(segs...), str, nil, "data")
		xs, ok := k.run(fn, st, args)
		if !ok {
			return
		}
		k.count("decoded_lengths", 1)
		if !k.decoded(fn, xs, idx, n) {
			return
		}
		k.noPanics(nil)
	}
}

// decoded checks the ways decoding words of known indices ends.
func (k *Checker) decoded(fn *ssa.Function, xs []Exit, idx []*Term, n int) bool {
	e := k.e
	before := len(k.viols)
	good, bad := k.splitErr(xs, 1)
	cands := candidates(n)
	sums := map[int][]anf{}
	for _, rb := range cands {
		ps, ok := checksum(idx, rb)
		if !ok {
			k.violate(k.p.pos(fn.Pos()), "the checksum of %d words could not be expressed", n)
			return false
		}
		sums[rb] = ps
	}
	if len(cands) > 0 && len(good) == 0 {
		k.violate(k.p.pos(fn.Pos()), "%d words are never decoded", n)
	}
	for _, x := range good {
		pos := k.p.pos(x.pos)
		out := x.st.canon(e.seqOf(x.st, x.ret[0]))
		rb, isC := x.st.constOf(seqLen(out))
		ps, allowed := sums[int(rb)]
		if !isC || !allowed {
			k.violate(pos, "%d words are decoded to %s bytes, which encoding would not put in that many words", n, seqLen(out)).with(x.st)
			continue
		}
		s := k.spanOf(x.st)
		for _, p := range ps {
			k.count("facts", 1)
			if !s.has(p) {
				k.violate(pos, "%d words are decoded to %d bytes although the checksum need not match", n, rb).with(x.st)
				break
			}
		}
		for i := 0; i < 8*int(rb); i++ {
			got, ok := anfBit(x.st.canon(k.at(x.st, out, mkInt(int64(i/8)))), 7-i%8)
			want, _ := streamBit(idx, i)
			k.count("facts", 1)
			if !ok || got.key() != want.key() && !s.has(got.xor(want)) {
				k.violate(pos, "decoding %d words to %d bytes: bit %d of byte %d is not bit %d of word %d, where encoding puts it", n, rb, 7-i%8, i/8, 10-i%11, i/11).with(x.st)
				break
			}
		}
		for _, sh := range cands {
			if sh < int(rb) && !k.contradicted(x.st, sums[sh]) {
				k.violate(pos, "%d words are decoded to %d bytes although the checksum for %d bytes may match", n, rb, sh).with(x.st)
			}
		}
	}
	for _, x := range bad {
		for _, rb := range cands {
			k.count("facts", 1)
			if !k.contradicted(x.st, sums[rb]) && !k.refute(x.st) {
				k.violate(k.p.pos(x.pos), "decoding %d words of the list can fail although the checksum for %d bytes matches", n, rb).with(x.st)
			}
		}
	}
	return len(k.viols) == before
}

const maxUnknown = 24 // words

func checkW02(k *Checker) {
	k.rule("Abstract interpretation of decoding with an unconstrained language and every number of unconstrained words from 0 to %d: each accepting path is shown to have established that the language is known, that there is a word, that every word equals an element of the list at some index, and that the checksum equations over those indices hold for the length returned; decoding is also interpreted with an unconstrained number of words, showing that no run-time condition can fail.", maxUnknown)
	k.trust("the polynomials are compared in algebraic normal form; the reference CRC-8 is computed by the checker from the polynomial 0x1D")
	k.fresh()
	ls := k.wordLists()
	fn := k.anchor("pkg/words", "ToBytes")
	if ls == nil || fn == nil {
		return
	}
	e := k.e
	str := types.Typ[types.String]
	for n := 0; n <= maxUnknown; n++ {
		st := newState()
		args := k.symArgs(fn)
		lang := args[0]
		var segs, in []*Term
		for i := 0; i < n; i++ {
			w := k.sym(fmt.Sprint("w", i), str)
			in = append(in, w)
			segs = append(segs, mkElem(w, false))
		}
		args[1] = e.newSlice(st, mkSeq(segs...), str, nil, "data")
		xs, ok := k.run(fn, st, args)
		if !ok {
			return
		}
		k.count("word_counts", 1)
		good, _ := k.splitErr(xs, 1)
		if n == 0 && len(good) > 0 {
			k.violate(k.p.pos(good[0].pos), "an empty list of words is decoded").with(good[0].st)
			return
		}
		for _, x := range good {
			var list *Term
			for l, t := range ls {
				if x.st.decide(mkSeqEq(lang, mkSeq(mkLit(l)))) == 1 {
					list = t
				}
			}
			k.count("facts", 1)
			if list == nil {
				k.violate(k.p.pos(x.pos), "words are decoded although the language need not be known").with(x.st)
				return
			}
			var idx []*Term
			for i, w := range in {
				k.count("facts", 1)
				v := k.memberIndex(x.st, w, list)
				if v == nil {
					k.violate(k.p.pos(x.pos), "%d words are decoded although word %d need not be in the list", n, i).with(x.st)
					return
				}
				idx = append(idx, v)
			}
			if !k.decoded(fn, []Exit{x}, idx, n) {
				return
			}
		}
		k.noPanics(nil)
	}
	// any number of words
	if _, ok := k.run(fn, newState(), k.symArgs(fn)); ok {
		k.noPanics(nil)
	}
}

// memberIndex is the index at which the path found the word in the list.
func (k *Checker) memberIndex(st *State, w, list *Term) *Term {
	if i := listIndex(list, st.canon(w)); i != nil {
		return i
	}
	for _, l := range st.path {
		if l.op != OSeqEq {
			continue
		}
		for j := 0; j < 2; j++ {
			if l.args[j] == w || st.canon(l.args[j]) == st.canon(w) {
				if i := listIndex(list, l.args[1-j]); i != nil {
					return st.canon(i)
				}
			}
		}
	}
	return nil
}

func checkW04(k *Checker) {
	k.rule("Abstract interpretation of the prefix search with unconstrained language, prefix and limit. The search loop is summarised by induction over the words examined: each iteration is shown to append the current word exactly when it starts with the prefix, and (with a positive limit) to keep the list below the limit; each way of ending is shown to have reached the limit, examined every word, or met a word whose first letter is past the prefix's in the ascending list.")
	k.fresh()
	e := k.e
	ls := k.wordLists()
	fn := k.anchor("pkg/words", "FromPrefix")
	if ls == nil || fn == nil {
		return
	}
	for _, lang := range languages(ls) {
		if l := listOf(ls[lang]); l == nil || !l.ascending {
			k.violate("pkg/words", "the word list %q is not in strictly ascending order", lang)
			return
		}
	}
	for _, limited := range []bool{false, true} {
		st := newState()
		args := k.symArgs(fn)
		lang, prefix, limit := args[0], args[1], args[2]
		if limited {
			st.assume(mkLe(t1, limit))
		} else {
			st.assume(mkLe(limit, t0))
		}
		start := st.clone()
		// below the limit before every word, if that can be kept up
		bound := func(s *loopSummary, st *State) []*Term {
			var out []*Term
			for _, p := range s.phis {
				if types.TypeString(p.phi.Type().Underlying(), nil) == "[]string" && p.cur.op == OSlice {
					out = append(out, mkLe(tAddI(p.cur.args[2], 1), limit))
				}
			}
			return out
		}
		if limited {
			e.loopAssume = func(s *loopSummary, st *State) {
				for _, l := range bound(s, st) {
					st.assume(l)
				}
			}
		}
		xs, ok := k.run(fn, st, args)
		if limited && ok {
			for _, s := range e.sums {
				if len(bound(s, nil)) == 0 {
					continue
				}
				for i, p := range s.phis {
					if types.TypeString(p.phi.Type().Underlying(), nil) != "[]string" || p.cur.op != OSlice {
						continue
					}
					kept := start.decide(mkLe(tAddI(listLen(p.init), 1), limit)) == 1
					for _, b := range s.backs {
						kept = kept && b.st.decide(mkLe(tAddI(listLen(b.vals[i]), 1), limit)) == 1
					}
					if !kept {
						ok = false
					}
				}
			}
			if !ok { // not an invariant of this code: decide without it
				e.loopAssume = nil
				k.clearObs()
				xs, ok = k.run(fn, start.clone(), args)
			}
		}
		e.loopAssume = nil
		if !ok {
			return
		}
		k.atLeast("ways the search ends", len(xs), 2)
		for _, x := range xs {
			k.prefixExit(fn, x, ls, lang, prefix, limit, limited)
		}
		k.noPanics(nil)
	}
}

func listLen(v *Term) *Term {
	if v.op == ONil {
		return t0
	}
	return v.args[2]
}

// prefixExit checks one way the prefix search ends.
func (k *Checker) prefixExit(fn *ssa.Function, x Exit, ls map[string]*Term, lang, prefix, limit *Term, limited bool) {
	e := k.e
	pos := k.p.pos(x.pos)
	if x.pan {
		k.violate(pos, "the prefix search can panic").with(x.st)
		return
	}
	var list *Term
	unknown := true
	for l, t := range ls {
		switch x.st.decide(mkSeqEq(lang, mkSeq(mkLit(l)))) {
		case 1:
			list = t
		case 0:
			unknown = false
		}
	}
	res := x.st.canon(e.seqOf(x.st, x.ret[0]))
	k.count("facts", 1)
	if list == nil {
		if !unknown {
			k.violate(pos, "the result does not depend on whether the language is known").with(x.st)
		} else if res != mkSeq() {
			k.violate(pos, "an unknown language gives %s instead of the empty string", res).with(x.st)
		}
		return
	}
	n := mkInt(int64(len(listOf(list).words)))
	starts := func(st *State, w *Term) int {
		fits := mkLe(seqLen(prefix), seqLen(w))
		y := st.clone()
		if !y.assume(fits) {
			return -1
		}
		return st.decide(mkAnd(fits, mkSeqEq(e.subSeq(y, y.canon(w), t0, y.canon(seqLen(prefix))), y.canon(prefix))))
	}
	// the words joined
	var got *Term
	if len(res.args) == 1 && res.args[0].op == OSub && res.args[0].args[1] == t0 {
		if a := res.args[0].args[0]; a.op == OApp && a.name == "strings.Join" && res.args[0].args[2] == atomLen(a) {
			if c, ok := seqConst(a.args[1]); ok && c == " " {
				got = a.args[0]
			}
		}
	}
	if got == nil {
		k.violate(pos, "the result is not the words found joined by spaces: %s", res).with(x.st)
		return
	}
	// the loop that collects them
	for _, s := range e.sums {
		for i, p := range s.phis {
			if p.cur.op != OSlice || types.TypeString(p.phi.Type().Underlying(), nil) != "[]string" {
				continue
			}
			acc := e.seqOf(x.st, p.cur)
			if acc == nil || len(acc.args) == 0 || len(got.args) == 0 || !contains(got, acc.args[0].args[0]) {
				continue
			}
			k.prefixLoop(s, i, list, starts)
			w := e.seqAt(x.st, list, s.k, types.Typ[types.String])
			inside := x.st.decide(mkLt(s.k, n)) == 1
			all, next := acc, s.k // the matches among the words before next
			if inside {
				switch starts(x.st, w) {
				case 1:
					all, next = mkSeq(append(append([]*Term{}, acc.args...), mkElem(w, false))...), tAddI(s.k, 1)
				case -1:
					next = tAddI(s.k, 1)
				}
			}
			all = x.st.canon(all)
			k.count("facts", 2)
			switch {
			case limited && got == all && x.st.decide(mkEqInt(seqLen(all), limit)) == 1:
			case limited && x.st.decide(mkLe(limit, seqLen(all))) == 1 && got == e.subSeq(x.st, all, t0, limit):
			case limited && x.st.decide(mkLe(seqLen(all), limit)) != 1:
				k.violate(pos, "more words than the limit may be returned").with(x.st)
			case got != all:
				k.violate(pos, "the words returned are not the matching words examined: %s instead of %s", got, all).with(x.st)
			case x.st.decide(mkLe(n, next)) == 1:
			case inside && x.st.decide(mkLe(t1, seqLen(prefix))) == 1 && x.st.decide(mkLt(k.at(x.st, prefix, t0), k.at(x.st, w, t0))) == 1:
			case inside && starts(x.st, w) == -1 && x.st.decide(strLess(prefix, w)) == 1:
			default:
				k.violate(pos, "the search ends here although later words may match and the limit need not be reached").with(x.st)
			}
			return
		}
	}
	k.violate(pos, "the loop that collects the words returned was not found: %s", got).with(x.st)
}

// prefixLoop checks that each iteration appends the current word exactly when it matches.
func (k *Checker) prefixLoop(s *loopSummary, i int, list *Term, starts func(st *State, w *Term) int) {
	e := k.e
	pos := k.p.pos(s.phis[i].phi.Pos())
	if l, ok := seqLen(e.seqOf(s.head, s.phis[i].init)).int64(); !ok || l != 0 {
		k.violate(pos, "the search does not start from an empty list")
	}
	for _, b := range s.backs {
		k.count("facts", 1)
		acc := e.seqOf(b.st, s.phis[i].cur)
		got := b.st.canon(e.seqOf(b.st, b.vals[i]))
		w := e.seqAt(b.st, list, s.k, types.Typ[types.String])
		switch starts(b.st, w) {
		case 1:
			if got != b.st.canon(mkSeq(append(append([]*Term{}, acc.args...), mkElem(w, false))...)) {
				k.violate(pos, "a word that starts with the prefix is not added as it is: %s", got).with(b.st)
			}
		case -1:
			if got != b.st.canon(acc) {
				k.violate(pos, "a word that does not start with the prefix changes the list: %s", got).with(b.st)
			}
		default:
			k.violate(pos, "whether a word is added does not depend on whether it starts with the prefix").with(b.st)
		}
	}
}
