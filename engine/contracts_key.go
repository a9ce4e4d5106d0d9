package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["K01"] = checkK01
	checks["K02"] = checkK02
	checks["K03"] = checkK03
	checks["K04"] = checkK04
}

const keyPkg = modPath + "/pkg/key"

// ekRoles says which field of an extended key plays which part, found from what NewExtendedKey does with its parameters.
type ekRoles struct {
	t                                    *types.Named
	key, chain, fp, depth, num, priv, pk int
	n                                    int
	ok                                   bool
}

// ek is an extended key in a state.
type ek struct {
	key, chain, fp, pk *Term // sequences
	depth, num, priv   *Term
	obj                *Term
}

func (k *Checker) ekRoles() *ekRoles {
	r := &ekRoles{t: k.namedType("pkg/key", "ExtendedKey")}
	fn := k.anchor("pkg/key", "NewExtendedKey")
	if r.t == nil || fn == nil {
		return r
	}
	st, ok := r.t.Underlying().(*types.Struct)
	if !ok || st.NumFields() != 7 || len(fn.Params) != 6 {
		k.violate(k.p.pos(fn.Pos()), "an extended key does not have the expected parts")
		return r
	}
	r.n = st.NumFields()
	args := k.symArgs(fn)
	xs, ok := k.run(fn, newState(), args)
	if !ok || len(xs) != 1 || xs[0].pan || xs[0].ret[0].op != OPtr {
		k.violate(k.p.pos(fn.Pos()), "NewExtendedKey does not plainly build a key from its arguments")
		return r
	}
	s := xs[0].st
	obj := k.e.load(s, xs[0].ret[0])
	if obj.op != OStruct || len(obj.args) != r.n {
		k.violate(k.p.pos(fn.Pos()), "the object built by NewExtendedKey is not described")
		return r
	}
	place := []*int{&r.key, &r.chain, &r.fp, &r.depth, &r.num, &r.priv}
	used := map[int]bool{}
	for i, p := range place {
		*p = -1
		for f, v := range obj.args {
			same := v == args[i]
			if !same {
				if _, isSl := st.Field(f).Type().Underlying().(*types.Slice); isSl && i < 3 {
					same = k.e.seqOf(s, v) == k.e.seqOf(s, args[i])
				}
			}
			if same && !used[f] {
				*p = f
				used[f] = true
				break
			}
		}
		if *p < 0 {
			k.violate(k.p.pos(fn.Pos()), "no field of the extended key holds the argument %s of NewExtendedKey", fn.Params[i].Name())
			return r
		}
	}
	r.pk = -1
	for f := 0; f < r.n; f++ {
		if !used[f] {
			r.pk = f
			k.equal(s, k.e.seqOf(s, obj.args[f]), mkSeq(), k.p.pos(fn.Pos()), "the cached public key of a key built by NewExtendedKey")
		}
	}
	if _, isSl := st.Field(r.pk).Type().Underlying().(*types.Slice); !isSl {
		k.violate(k.p.pos(fn.Pos()), "the remaining field %s of an extended key is not a cached public key", st.Field(r.pk).Name())
		return r
	}
	r.ok = true
	k.clearObs()
	return r
}

func (k *Checker) ekAt(st *State, r *ekRoles, obj *Term) *ek {
	if obj.op != OStruct || len(obj.args) != r.n {
		return nil
	}
	sq := func(i int) *Term { return st.canon(k.e.seqOf(st, obj.args[i])) }
	return &ek{key: sq(r.key), chain: sq(r.chain), fp: sq(r.fp), pk: sq(r.pk),
		depth: st.canon(obj.args[r.depth]), num: st.canon(obj.args[r.num]), priv: st.canon(obj.args[r.priv]), obj: obj}
}

// ekPtr is the extended key a result or argument points to.
func (k *Checker) ekPtr(st *State, r *ekRoles, p *Term) *ek {
	p = st.canon(p)
	if p.op == ONil {
		return nil
	}
	return k.ekAt(st, r, k.e.load(st, k.e.resolve(p, r.t)))
}

func pubOf(key *Term) *Term {
	n := beInt(key)
	return serP(mkAppR("G*.x", big0, nil, n), mkAppR("G*.y", big0, nil, n))
}

// served is the public key that belongs to an extended key whose nature is known.
func (x *ek) served(priv bool) *Term {
	if priv {
		return pubOf(x.key)
	}
	return x.key
}

// ekCases are the kinds of well-formed receivers: private with or without a cached public key, and public.
type ekCase struct {
	name   string
	priv   bool
	cached bool
}

var ekCases = []ekCase{{"private", true, false}, {"private with cached public key", true, true}, {"public", false, false}}

// assume restricts an object to the case; the lengths are those every parser and constructor in the package enforces.
func (k *Checker) ekAssume(st *State, r *ekRoles, obj *Term, c ekCase) *ek {
	x := k.ekAt(st, r, obj)
	if x == nil {
		return nil
	}
	lits := []*Term{x.priv}
	n := int64(32)
	if !c.priv {
		lits[0] = mkNot(x.priv)
		n = 33
	}
	lits = append(lits, mkEqInt(seqLen(x.key), mkInt(n)), mkEqInt(seqLen(x.fp), mkInt(3)), mkEqInt(seqLen(x.chain), mkInt(32)))
	if c.priv {
		n = 0
		if c.cached {
			n = 33
		}
		lits = append(lits, mkEqInt(seqLen(x.pk), mkInt(n)))
	}
	for _, l := range lits {
		st.assume(l)
	}
	x = k.ekAt(st, r, obj)
	if c.cached {
		// the cached bytes are the public key of the secret
		v := k.e.asSlice(x.obj.args[r.pk], types.NewSlice(types.Typ[types.Uint8]))
		if v.op == OSlice {
			k.e.store(st, v.args[0], x.served(true))
		}
	}
	return k.ekAt(st, r, obj)
}

// receiver is the object a method is called on: what the pointer refers to, or the value itself.
func (k *Checker) receiver(st *State, fn *ssa.Function, arg *Term) *Term {
	if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok {
		return k.deref(st, arg, fn, 0)
	}
	return arg
}

func (k *Checker) ekStart(fn *ssa.Function, r *ekRoles, c ekCase) (*State, []*Term, *ek) {
	st := newState()
	args := k.symArgs(fn)
	if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok {
		st.assume(mkNot(k.e.isNil(args[0])))
	}
	x := k.ekAssume(st, r, k.receiver(st, fn, args[0]), c)
	if x == nil {
		k.violate(k.p.pos(fn.Pos()), "the receiver of %s is not described", shortFn(fn.String()))
	}
	return st, args, x
}

// inOrder: a non-zero number below the order of the curve.
func inOrder(n *Term) []named {
	return []named{{"the left half is not zero", mkLe(t1, n)}, {"the left half is below the curve order", mkLt(n, mkBig(secpN))}}
}

func be32(v *Term) *Term {
	return mkSeq(mkElem(mkBits(v, 24, 8), true), mkElem(mkBits(v, 16, 8), true), mkElem(mkBits(v, 8, 8), true), mkElem(mkBits(v, 0, 8), true))
}

// ---- K01 ----

func checkK01(k *Checker) {
	k.rule("Abstract interpretation of bip32.NewMaster, key.NewMaster and the seed generators with unconstrained seeds, lengths and random source: success holds exactly under the documented conditions, the secret and chain code are the two halves of the keyed hash, the remaining fields are zero and private, and every byte of a generated seed comes from a complete read of the source.")
	e := k.e
	roles := k.ekRoles()
	conds := func(seed *Term) func(st *State) []named {
		return func(st *State) []named {
			s := st.canon(seed)
			left := e.subSeq(st, hashTerm("hmac512", mkLit("ndau seed"), s), t0, mkInt(32))
			return append([]named{{"the seed has at least 16 bytes", mkLe(mkInt(16), seqLen(s))}, {"the seed has at most 64 bytes", mkLe(seqLen(s), mkInt(64))}}, inOrder(beInt(left))...)
		}
	}
	halves := func(st *State, seed *Term) (l, r *Term) {
		h := hashTerm("hmac512", mkLit("ndau seed"), st.canon(seed))
		return e.subSeq(st, h, t0, mkInt(32)), e.subSeq(st, h, mkInt(32), mkInt(32))
	}
	if fn := k.anchor("pkg/bip32", "NewMaster"); fn != nil {
		st := newState()
		args := k.symArgs(fn)
		seed := e.seqOf(st, args[0])
		if xs, ok := k.run(fn, st, args); ok {
			good, bad := k.splitErr(xs, 2)
			k.exactlyF(fn, good, bad, conds(seed))
			for _, x := range good {
				l, r := halves(x.st, seed)
				k.equal(x.st, x.ret[0], l, k.p.pos(x.pos), "the master secret")
				k.equal(x.st, x.ret[1], r, k.p.pos(x.pos), "the master chain code")
			}
			k.noPanics(nil)
		}
	}
	if fn := k.anchor("pkg/key", "NewMaster"); fn != nil && roles.ok {
		st := newState()
		args := k.symArgs(fn)
		seed := e.seqOf(st, args[0])
		if xs, ok := k.run(fn, st, args); ok {
			good, bad := k.splitErr(xs, 1)
			k.exactlyF(fn, good, bad, conds(seed))
			for _, x := range good {
				m := k.ekPtr(x.st, roles, x.ret[0])
				if m == nil {
					k.violate(k.p.pos(x.pos), "NewMaster succeeds without a key")
					continue
				}
				l, r := halves(x.st, seed)
				pos := k.p.pos(x.pos)
				k.equal(x.st, m.key, l, pos, "the secret of a master key")
				k.equal(x.st, m.chain, r, pos, "the chain code of a master key")
				k.equal(x.st, m.fp, mkLit("\x00\x00\x00"), pos, "the parent fingerprint of a master key")
				k.equal(x.st, m.depth, t0, pos, "the depth of a master key")
				k.equal(x.st, m.num, t0, pos, "the child number of a master key")
				k.must(x.st, m.priv, pos, "a master key is not marked private")
			}
			k.noErrKey(bad, fn)
			k.noPanics(nil)
		}
	}
	for _, g := range []struct{ pkg, name string }{{"pkg/bip32", "GenerateSeed"}, {"pkg/key", "GenerateSeed"}} {
		fn := k.anchor(g.pkg, g.name)
		if fn == nil {
			continue
		}
		st := newState()
		args := k.symArgs(fn)
		xs, ok := k.run(fn, st, args)
		if !ok {
			continue
		}
		good, bad := k.splitErr(xs, 1)
		k.atLeast("ways "+g.pkg+".GenerateSeed succeeds", len(good), 1)
		n := args[0]
		inRange := mkAnd(mkLe(mkInt(16), n), mkLe(n, mkInt(64)))
		for _, x := range good {
			pos := k.p.pos(x.pos)
			k.must(x.st, inRange, pos, "a seed can be generated with a length outside 16..64")
			s := x.st.canon(e.seqOf(x.st, x.ret[0]))
			k.must(x.st, mkEqInt(seqLen(s), n), pos, "a generated seed does not have the requested length")
			segs := s.args
			seen := map[*Term]bool{}
			for _, sg := range segs {
				if x.st.decide(mkEqInt(segLen(sg), t0)) == 1 {
					continue
				}
				k.count("facts", 1)
				if sg.op != OSub || sg.args[0].op != OApp || sg.args[0].name != "havocN" || sg.args[0].str != "random" || seen[sg.args[0]] {
					k.violate(pos, "part of a generated seed (%s) does not come from a complete read of the random source", sg).with(x.st)
				}
				seen[sg.args[0]] = true
			}
			for _, ev := range x.st.events {
				if strings.HasSuffix(ev.kind, "readfull") {
					rd := ev.args[0]
					if g.pkg == "pkg/bip32" && x.st.decide(e.isNil(args[1])) == -1 {
						k.equal(x.st, rd, args[1], ev.pos, "the random source read")
					} else if !isRandReader(rd) {
						k.violate(ev.pos, "a seed is read from %s instead of the system's random source", rd)
					}
				}
			}
		}
		for _, x := range bad {
			// a complete read with a good length is a success
			readOK := false
			for _, ev := range x.st.events {
				readOK = readOK || strings.HasSuffix(ev.kind, "readfull")
			}
			z := x.st.clone()
			if readOK && z.assume(inRange) && !k.refute(z) {
				k.violate(k.p.pos(x.pos), "seed generation can fail although the source delivered every byte").with(z)
			}
		}
		k.noPanics(nil)
	}
}

func isRandReader(t *Term) bool {
	return t.contains(func(x *Term) bool { return strings.Contains(x.String(), "crypto/rand.Reader") })
}

// noErrKey: a failing constructor hands out no key.
func (k *Checker) noErrKey(bad []Exit, fn *ssa.Function) {
	for _, x := range bad {
		k.must(x.st, k.e.isNil(x.ret[0]), k.p.pos(x.pos), shortFn(fn.String())+" can hand out a key together with an error")
	}
}

// ---- K02, K03 ----

// childSpec is the derivation of the child at index i. hard is the truth of "i is hardened".
func (k *Checker) childSpec(st *State, p *ek, priv, hard bool, i *Term) (conds []named, want ek) {
	e := k.e
	pub := p.served(priv)
	data := mkSeq(pub, be32(i))
	if hard {
		data = mkSeq(mkLit("\x00"), p.key, be32(i))
	}
	h := hashTerm("hmac512", st.canon(p.chain), st.canon(data))
	left, right := e.subSeq(st, h, t0, mkInt(32)), e.subSeq(st, h, mkInt(32), mkInt(32))
	l := beInt(left)
	conds = append(conds, named{"the parent's depth is below 255", mkLe(p.depth, mkInt(254))})
	if hard && !priv {
		conds = append(conds, named{"the parent is private", tFalse})
	}
	conds = append(conds, inOrder(l)...)
	if !priv {
		conds = append(conds, named{"the parent's public key parses", mkPred("pubkeyok", p.key)})
	}
	want.chain = right
	want.depth = tAddI(p.depth, 1)
	want.num = i
	want.priv = mkBool(priv)
	h1 := hashTerm("sha256", nil, st.canon(pub))
	want.fp = e.subSeq(st, hashTerm("sha256", nil, h1), t0, mkInt(3))
	if priv {
		sum := tAdd(l, beInt(p.key))
		want.key = beFix(mkAppR("mod", big0, new(big.Int).Sub(secpN, big1), sum, mkBig(secpN)), 32)
	} else {
		a := mkTuple(mkAppR("G*.x", big0, nil, l), mkAppR("G*.y", big0, nil, l))
		b := mkTuple(mkAppR("pub.x", big0, nil, p.key), mkAppR("pub.y", big0, nil, p.key))
		if a.id > b.id {
			a, b = b, a
		}
		want.key = serP(mkAppR("addP.x", big0, nil, a, b), mkAppR("addP.y", big0, nil, a, b))
	}
	return
}

// children interprets a derivation method for every kind of parent; visit receives the parent's case and each exit.
func (k *Checker) children(r *ekRoles, name string, off int64, visit func(fn *ssa.Function, c ekCase, hard bool, p *ek, i *Term, good, bad []Exit)) {
	fn := k.anchor("pkg/key", name)
	if fn == nil || !r.ok {
		return
	}
	for _, c := range ekCases {
		for _, hard := range []bool{false, true} {
			st, args, p := k.ekStart(fn, r, c)
			if p == nil {
				return
			}
			// an index is its low 31 bits, plus 2^31 when it is hardened
			args[1] = mkBits(args[1], 0, 31)
			if hard {
				args[1] = tAddI(args[1], 1<<31)
			}
			i := tAddI(args[1], off)
			xs, ok := k.run(fn, st, args)
			if !ok {
				return
			}
			good, bad := k.splitErr(xs, 1)
			k.count("parent_cases", 1)
			visit(fn, c, hard || off != 0, p, i, good, bad)
			k.clearObs()
		}
	}
}

func checkK02(k *Checker) {
	k.rule("Abstract interpretation of (*ExtendedKey).Child for private parents (with and without cached public key) and public parents, at hardened and plain indices, with every other part unconstrained: success exactly under the documented conditions, and every field of the child equals the term the construction prescribes.")
	k.trust("a well-formed extended key holds 32 secret or 33 public key bytes, and its cached public key belongs to its secret (decided by K08)")
	r := k.ekRoles()
	n := 0
	k.children(r, "(*ExtendedKey).Child", 0, func(fn *ssa.Function, c ekCase, hard bool, p *ek, i *Term, good, bad []Exit) {
		if hard && !c.priv {
			for _, x := range good {
				k.violate(k.p.pos(x.pos), "a hardened child can be derived from a public key").with(x.st)
			}
			return
		}
		k.exactlyF(fn, good, bad, func(st *State) []named { cs, _ := k.childSpec(st, p, c.priv, hard, i); return cs })
		k.noErrKey(bad, fn)
		for _, x := range good {
			ch := k.ekPtr(x.st, r, x.ret[0])
			pos := k.p.pos(x.pos)
			if ch == nil {
				k.violate(pos, "a derivation succeeds without a key")
				continue
			}
			n++
			_, w := k.childSpec(x.st, p, c.priv, hard, i)
			what := " of a child of a " + c.name + " key"
			k.equal(x.st, ch.key, w.key, pos, "the key"+what)
			k.equal(x.st, ch.chain, w.chain, pos, "the chain code"+what)
			k.equal(x.st, ch.depth, w.depth, pos, "the depth"+what)
			k.equal(x.st, ch.num, w.num, pos, "the child number"+what)
			k.equal(x.st, ch.fp, w.fp, pos, "the parent fingerprint"+what)
			if c.priv {
				k.must(x.st, ch.priv, pos, "a child of a private key is not marked private")
				k.must(x.st, mkEqInt(seqLen(ch.key), mkInt(32)), pos, "the secret of a child does not have 32 bytes")
			} else {
				k.must(x.st, mkNot(ch.priv), pos, "a child of a public key is marked private")
			}
			k.must(x.st, mkOr(mkEqInt(seqLen(ch.pk), t0), mkSeqEq(ch.pk, ch.served(c.priv))), pos, "a child can start with a cached public key that is not its own")
		}
	})
	k.atLeast("successful derivations", n, 5)
}

func checkK03(k *Checker) {
	k.rule("Abstract interpretation of Child, HardenedChild, ECPrivKey and SPrivKey: no success exit is reachable for a hardened index of a public parent, at depth 255, or (HardenedChild) without the child number being 2^31+n; the child's depth is the parent's plus one; private conversions of public keys always fail.")
	r := k.ekRoles()
	n := 0
	for _, m := range []struct {
		name string
		off  int64
	}{{"(*ExtendedKey).Child", 0}, {"(*ExtendedKey).HardenedChild", 1 << 31}} {
		k.children(r, m.name, m.off, func(fn *ssa.Function, c ekCase, hard bool, p *ek, i *Term, good, bad []Exit) {
			k.noErrKey(bad, fn)
			for _, x := range good {
				pos := k.p.pos(x.pos)
				ch := k.ekPtr(x.st, r, x.ret[0])
				if ch == nil {
					k.violate(pos, "%s succeeds without a key", m.name)
					continue
				}
				n++
				if hard && !c.priv {
					k.violate(pos, "%s can derive a hardened key from a public key", m.name).with(x.st)
				}
				k.must(x.st, mkLe(p.depth, mkInt(254)), pos, m.name+" can derive from a key at depth 255")
				k.equal(x.st, ch.depth, tAddI(p.depth, 1), pos, "the depth recorded by "+m.name)
				k.equal(x.st, ch.num, i, pos, "the child number recorded by "+m.name)
				if hard {
					k.must(x.st, mkLe(mkInt(1<<31), ch.num), pos, m.name+" can yield a key that is not hardened")
				}
				if m.off != 0 {
					// the derivation really is the one at that index
					_, w := k.childSpec(x.st, p, c.priv, true, i)
					k.equal(x.st, ch.key, w.key, pos, "the key derived by "+m.name)
					k.equal(x.st, ch.chain, w.chain, pos, "the chain code derived by "+m.name)
				}
			}
		})
	}
	k.atLeast("successful derivations", n, 5)
	for _, name := range []string{"(*ExtendedKey).ECPrivKey", "(*ExtendedKey).SPrivKey"} {
		fn := k.anchor("pkg/key", name)
		if fn == nil || !r.ok {
			continue
		}
		for _, c := range ekCases {
			st, args, _ := k.ekStart(fn, r, c)
			xs, ok := k.run(fn, st, args)
			if !ok {
				continue
			}
			good, bad := k.splitErr(xs, 1)
			if !c.priv {
				for _, x := range good {
					k.violate(k.p.pos(x.pos), "%s can succeed for a public key", name).with(x.st)
				}
				k.atLeast("ways "+name+" refuses a public key", len(bad), 1)
				for _, x := range bad {
					k.must(x.st, e0isNil(k, x.ret[0]), k.p.pos(x.pos), name+" hands out a private key although it refuses")
				}
			} else {
				k.atLeast("ways "+name+" succeeds for a private key", len(good), 1)
			}
		}
	}
	k.clearObs()
}

func e0isNil(k *Checker, v *Term) *Term { return k.e.isNil(v) }

// ---- K04 ----

func (k *Checker) extraSpec(x *ek) *Term {
	return mkSeq(mkElem(x.depth, true), x.fp, be32(x.num), x.chain)
}

// sigKeyPtr reads a *signature.PublicKey or *signature.PrivateKey.
func (k *Checker) sigKeyPtr(st *State, p *Term) (kind string, al, key, extra *Term) {
	p = st.canon(p)
	if p.op == OIface {
		kind = types.TypeString(p.typ, nil)
		p = p.args[0]
	}
	kind = strings.TrimPrefix(kind, "*"+sigPkg+".")
	if p.op == OPtr {
		al, key, extra = k.keyObj(st, k.e.load(st, p))
		return
	}
	if p.op == OStruct {
		al, key, extra = k.keyObj(st, p)
		return
	}
	return "?", mkSym("?", nil), mkSeq(), mkSeq()
}

func (k *Checker) isSecp(al *Term) bool {
	return al.op == OIface && strings.HasSuffix(types.TypeString(al.typ, nil), "algorithms/secp256k1.secp256k1")
}

func checkK04(k *Checker) {
	k.rule("Abstract interpretation of every operation that yields a public form (Public, SPubKey, ECPubKey, PubKeyBytes, Child of a public key, and the facade's ToPublic): the result is marked or typed public, its key material is the term for the elliptic-curve public key of the secret (or the public key it started from), and every other field equals the source's.")
	k.trust("a well-formed extended key holds 32 secret or 33 public key bytes, and its cached public key belongs to its secret (decided by K08)")
	r := k.ekRoles()
	if !r.ok {
		return
	}
	k.publicForms(r)
	k.children(r, "(*ExtendedKey).Child", 0, func(fn *ssa.Function, c ekCase, hard bool, p *ek, i *Term, good, bad []Exit) {
		if c.priv {
			return
		}
		for _, x := range good {
			pos := k.p.pos(x.pos)
			ch := k.ekPtr(x.st, r, x.ret[0])
			if ch == nil {
				continue
			}
			k.must(x.st, mkNot(ch.priv), pos, "a child of a public key is marked private")
			_, w := k.childSpec(x.st, p, false, hard, i)
			k.equal(x.st, ch.key, w.key, pos, "the key of a child of a public key")
		}
	})
}

func (k *Checker) publicForms(r *ekRoles) {
	e := k.e
	if fn := k.anchor("pkg/key", "(*ExtendedKey).Public"); fn != nil {
		for _, c := range ekCases {
			st, args, p := k.ekStart(fn, r, c)
			xs, ok := k.run(fn, st, args)
			if !ok {
				return
			}
			good, bad := k.splitErr(xs, 1)
			for _, x := range bad {
				k.violate(k.p.pos(x.pos), "Public can fail").with(x.st)
			}
			for _, x := range good {
				pos := k.p.pos(x.pos)
				q := k.ekPtr(x.st, r, x.ret[0])
				if q == nil {
					k.violate(pos, "Public succeeds without a key")
					continue
				}
				k.must(x.st, mkNot(q.priv), pos, "the public form of a key is marked private")
				k.equal(x.st, q.key, p.served(c.priv), pos, "the key bytes of the public form of a "+c.name+" key")
				k.equal(x.st, q.chain, p.chain, pos, "the chain code of the public form")
				k.equal(x.st, q.fp, p.fp, pos, "the parent fingerprint of the public form")
				k.equal(x.st, q.depth, p.depth, pos, "the depth of the public form")
				k.equal(x.st, q.num, p.num, pos, "the child number of the public form")
				if c.priv {
					k.must(x.st, mkOr(mkEqInt(seqLen(q.pk), t0), mkSeqEq(q.pk, p.served(true))), pos, "the public form carries cached bytes that are not its public key")
				}
			}
			k.clearObs()
		}
	}
	if fn := k.anchor("pkg/key", "(*ExtendedKey).SPubKey"); fn != nil {
		for _, c := range ekCases {
			st, args, p := k.ekStart(fn, r, c)
			xs, ok := k.run(fn, st, args)
			if !ok {
				return
			}
			good, bad := k.splitErr(xs, 1)
			k.atLeast("ways SPubKey succeeds for a "+c.name+" key", len(good), 1)
			for _, x := range bad {
				k.violate(k.p.pos(x.pos), "SPubKey can fail for a %s key", c.name).with(x.st)
			}
			for _, x := range good {
				pos := k.p.pos(x.pos)
				_, al, key, extra := k.sigKeyPtr(x.st, x.ret[0])
				if !k.isSecp(al) {
					k.violate(pos, "the public signature key of an extended key uses %s", al)
				}
				k.equal(x.st, key, p.served(c.priv), pos, "the key bytes of the public signature key of a "+c.name+" key")
				k.equal(x.st, extra, k.extraSpec(p), pos, "the extra data of the public signature key")
			}
			k.clearObs()
		}
	}
	if fn := k.anchor("pkg/key", "(*ExtendedKey).PubKeyBytes"); fn != nil {
		for _, c := range ekCases {
			st, args, p := k.ekStart(fn, r, c)
			xs, ok := k.run(fn, st, args)
			if !ok {
				return
			}
			for _, x := range xs {
				k.equal(x.st, e.seqOf(x.st, x.ret[0]), p.served(c.priv), k.p.pos(x.pos), "the public key bytes of a "+c.name+" key")
			}
			k.clearObs()
		}
	}
	if fn := k.anchor("pkg/key", "(*ExtendedKey).ECPubKey"); fn != nil {
		for _, c := range ekCases {
			st, args, p := k.ekStart(fn, r, c)
			xs, ok := k.run(fn, st, args)
			if !ok {
				return
			}
			good, _ := k.splitErr(xs, 1)
			k.atLeast("ways ECPubKey succeeds", len(good), 1)
			for _, x := range good {
				v := x.st.canon(e.load(x.st, x.st.canon(x.ret[0])))
				bt := types.NewStruct(nil, nil)
				pos := k.p.pos(x.pos)
				if v.op != OStruct || len(v.args) != 3 {
					k.violate(pos, "the curve point returned by ECPubKey is not described")
					continue
				}
				wx, wy := mkAppR("pub.x", big0, nil, p.key), mkAppR("pub.y", big0, nil, p.key)
				if c.priv {
					wx, wy = mkAppR("G*.x", big0, nil, beInt(p.key)), mkAppR("G*.y", big0, nil, beInt(p.key))
				}
				k.equal(x.st, e.bigVal(x.st, v.args[1], bt), wx, pos, "the x coordinate of the curve public key")
				k.equal(x.st, e.bigVal(x.st, v.args[2], bt), wy, pos, "the y coordinate of the curve public key")
			}
			k.clearObs()
		}
	}
}
