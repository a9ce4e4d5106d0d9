package main

func init() { checks["T04"] = checkT04 }

func checkT04(k *Checker) {
	k.rule("Abstract interpretation of Indices on an unconstrained bitset with an inductive closed form for walking over the set bits of a word (the word without its k lowest bits, empty exactly from its population count on): on every exit the list must be, word after word, the k-th set bit's index plus 64 times the word's number for every k below the population count.")
	b := k.bitset()
	fn := k.anchor("pkg/bitset256", "(*Bitset256).Indices")
	if b == nil || fn == nil {
		return
	}
	e := k.e
	st, args := b.start(fn)
	ws := b.words(st, args[0])
	var parts []*Term
	for i, w := range ws {
		v := e.freshID()
		parts = append(parts, intern(Term{op: OMapSeg, args: []*Term{tAddI(mkNthBit(w, mkVar(v)), int64(64*i)), mkPopcount(w)}, n: v}))
	}
	want := mkSeq(parts...)
	mark := e.nextObj()
	xs, ok := k.run(fn, st, args)
	if !ok {
		return
	}
	n := 0
	for _, x := range xs {
		pos := k.p.pos(x.pos)
		if x.pan {
			k.violate(pos, "Indices can panic").with(x.st)
			continue
		}
		n++
		k.equal(x.st, e.seqOf(x.st, x.ret[0]), want, pos, "the list of indices")
		if r := x.st.canon(x.ret[0]); r.op == OSlice && (r.args[0].op != OPtr || int(r.args[0].n) < mark) {
			k.violate(pos, "the list of indices shares memory with something older").with(x.st)
		}
		for i, w := range b.words(x.st, args[0]) {
			k.sameBits(x.st, w, ws[i], 64, pos, "the bitset after listing its indices")
		}
	}
	k.atLeast("ways Indices ends", n, 1)
	k.noPanics(nil)
}
