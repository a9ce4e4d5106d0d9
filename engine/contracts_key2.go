package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["K06"] = checkK06
	checks["K07"] = checkK07
	checks["K08"] = checkK08
	checks["K09"] = checkK09
	checks["K11"] = checkK11
	checks["K10"] = checkK10
}

// ---- K06 ----

func checkK06(k *Checker) {
	k.rule("Abstract interpretation of (*ExtendedKey).Zero with every field unconstrained (loops summarised inductively): every buffer a slice field referred to holds only zero bytes afterwards and every field has its zero value; Zeroize of the signature keys leaves every field at its zero value.")
	e := k.e
	r := k.ekRoles()
	if fn := k.anchor("pkg/key", "(*ExtendedKey).Zero"); fn != nil && r.ok {
		st := newState()
		args := k.symArgs(fn)
		st.assume(mkNot(e.isNil(args[0])))
		before := k.deref(st, args[0], fn, 0)
		xs, ok := k.run(fn, st, args)
		if ok {
			k.atLeast("ways Zero ends", len(xs), 1)
			stt := r.t.Underlying().(*types.Struct)
			for _, x := range xs {
				if x.pan {
					k.violate(k.p.pos(x.pos), "Zero can panic")
					continue
				}
				pos := k.p.pos(x.pos)
				after := k.deref(x.st, args[0], fn, 0)
				for f := 0; f < r.n; f++ {
					name := stt.Field(f).Name()
					if _, isSl := stt.Field(f).Type().Underlying().(*types.Slice); isSl {
						old := e.asSlice(before.args[f], stt.Field(f).Type())
						s := x.st.canon(e.seqOf(x.st, old))
						k.equal(x.st, s, mkSeq(mkRep(t0, seqLen(s), true)), pos, "the former content of the field "+name+" after zeroing")
						k.equal(x.st, e.seqOf(x.st, after.args[f]), mkSeq(), pos, "the field "+name+" after zeroing")
						continue
					}
					k.equal(x.st, after.args[f], zeroOf(stt.Field(f).Type()), pos, "the field "+name+" after zeroing")
				}
			}
			k.noPanics(nil)
		}
	}
	for _, typ := range []string{"PublicKey", "PrivateKey"} {
		fn := k.anchor("pkg/signature", "(*"+typ+").Zeroize")
		if fn == nil {
			continue
		}
		st := newState()
		args := k.symArgs(fn)
		st.assume(mkNot(e.isNil(args[0])))
		xs, ok := k.run(fn, st, args)
		if !ok {
			continue
		}
		for _, x := range xs {
			pos := k.p.pos(x.pos)
			al, key, extra := k.keyObj(x.st, k.deref(x.st, args[0], fn, 0))
			k.must(x.st, e.isNil(al), pos, "a zeroed "+typ+" keeps its algorithm")
			k.equal(x.st, key, mkSeq(), pos, "the key bytes of a zeroed "+typ)
			k.equal(x.st, extra, mkSeq(), pos, "the extra bytes of a zeroed "+typ)
		}
		k.noPanics(nil)
	}
}

// ---- K07 ----

// memory walks the memory a value gives access to and reports every object with the way to it.
func (k *Checker) memory(st *State, v *Term, t types.Type, path string, seen map[int]string, d int) {
	e := k.e
	if d > 8 || v == nil {
		return
	}
	v = st.canon(v)
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if v.op == ONil || st.decide(e.isNil(v)) == 1 {
			return
		}
		p := e.resolve(v, u.Elem())
		o := rootObj(p)
		if o < 0 {
			return
		}
		if _, ok := seen[o]; ok {
			return
		}
		seen[o] = path
		k.memory(st, e.load(st, p), u.Elem(), "*"+path, seen, d+1)
	case *types.Slice:
		s := e.asSlice(v, t)
		if s.op == ONil {
			return
		}
		base, _, _, c, ok := sliceParts(s)
		if !ok || base == nil || st.decide(mkEqInt(c, t0)) == 1 {
			return
		}
		seen[rootObj(base)] = path
	case *types.Struct:
		if v.op != OStruct {
			v = e.materialize(v, t)
		}
		for i := 0; i < u.NumFields() && v.op == OStruct && i < len(v.args); i++ {
			k.memory(st, v.args[i], u.Field(i).Type(), path+"."+u.Field(i).Name(), seen, d+1)
		}
	case *types.Interface:
		if v.op == OIface {
			k.memory(st, v.args[0], v.typ, path, seen, d+1)
		}
	}
}

// isFresh: allocated by the code interpreted since mark.
func (k *Checker) isFresh(o, mark int) bool {
	if _, ok := k.e.baseHeap[o]; ok {
		return false
	}
	return o >= mark && k.e.objs[o].origin == nil
}

func (k *Checker) describeObj(o int) string {
	if or := k.e.objs[o].origin; or != nil {
		return or.String()
	}
	return k.e.objs[o].name
}

// onlyFresh checks that all memory reachable from a result was allocated for it.
func (k *Checker) onlyFresh(st *State, v *Term, t types.Type, mark int, pos, what string, allow map[int]bool) {
	seen := map[int]string{}
	k.memory(st, v, t, "result", seen, 0)
	k.count("memory_objects", len(seen))
	for o, via := range seen {
		k.count("facts", 1)
		if !k.isFresh(o, mark) && !allow[o] {
			k.violate(pos, "%s shares memory with something that existed before (%s refers to %s)", what, via, shortFn(k.describeObj(o))).with(st)
		}
	}
}

// keyArg makes a signature key of the given kind behind the Key interface.
func (k *Checker) keyArg(st *State, kind string) (v, ptr *Term) {
	t := k.namedType("pkg/signature", kind)
	if t == nil {
		return mkNil(nil), nil
	}
	pt := types.NewPointer(t)
	ptr = k.sym("key", pt)
	st.assume(mkNot(k.e.isNil(ptr)))
	return mkIface(pt, ptr), ptr
}

func checkK07(k *Checker) {
	k.rule("Escape and alias analysis by abstract interpretation: for every exported operation that obtains a key from another key, a seed or a text, every buffer and object reachable from the result (type-directed walk of the abstract heap) was allocated during the call. The one exemption is Public applied to a public key.")
	k.trust("byte slices inside an argument start out in distinct buffers; library functions share memory with their arguments only where they are documented to")
	r := k.ekRoles()
	if !r.ok {
		return
	}
	e := k.sigEngine(true)
	r = k.ekRoles()
	n := 0
	results := func(fn *ssa.Function, x Exit, mark int, what string) {
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			t := fn.Signature.Results().At(i).Type()
			if types.Identical(t, types.Universe.Lookup("error").Type()) {
				continue
			}
			k.onlyFresh(x.st, x.ret[i], t, mark, k.p.pos(x.pos), "the result of "+what, nil)
		}
		n++
	}
	for _, name := range []string{"(*ExtendedKey).Child", "(*ExtendedKey).HardenedChild", "(*ExtendedKey).Public", "(*ExtendedKey).SPubKey", "(*ExtendedKey).SPrivKey", "(ExtendedKey).AsSignatureKey", "(ExtendedKey).MarshalText"} {
		fn := k.anchor("pkg/key", name)
		if fn == nil {
			continue
		}
		for _, c := range ekCases {
			st, args, p := k.ekStart(fn, r, c)
			if p == nil {
				continue
			}
			mark := e.nextObj()
			xs, ok := k.run(fn, st, args)
			if !ok {
				continue
			}
			for _, x := range xs {
				if x.pan || name == "(*ExtendedKey).Public" && !c.priv {
					continue
				}
				results(fn, x, mark, name+" of a "+c.name+" key")
			}
		}
	}
	// conversion from signature keys
	for _, name := range []string{"FromSignatureKey", "(*ExtendedKey).FromSignatureKey"} {
		fn := k.anchor("pkg/key", name)
		if fn == nil {
			continue
		}
		for _, kind := range []string{"PublicKey", "PrivateKey"} {
			st := newState()
			args := k.symArgs(fn)
			v, _ := k.keyArg(st, kind)
			args[len(args)-1] = v
			own := map[int]bool{}
			if len(args) == 2 {
				st.assume(mkNot(e.isNil(args[0])))
				own[rootObj(e.resolve(args[0], r.t))] = true
			}
			mark := e.nextObj()
			xs, ok := k.run(fn, st, args)
			if !ok {
				continue
			}
			for _, x := range xs {
				if x.pan {
					continue
				}
				if len(args) == 1 {
					results(fn, x, mark, name)
				} else {
					n++
					k.onlyFresh(x.st, args[0], fn.Params[0].Type(), mark, k.p.pos(x.pos), "the key after "+name, own)
				}
			}
		}
	}
	// decoding and construction
	for _, f := range []struct {
		pkg, name string
		method    bool
	}{
		{"pkg/key", "NewMaster", false}, {"pkg/key", "FromOldSerialization", false}, {"pkg/key", "(*ExtendedKey).UnmarshalText", true},
		{"pkg/signature", "ParseKey", false}, {"pkg/signature", "ParsePublicKey", false}, {"pkg/signature", "ParsePrivateKey", false}, {"pkg/signature", "ParseSignature", false},
		{"pkg/signature", "(*PublicKey).UnmarshalText", true}, {"pkg/signature", "(*PrivateKey).UnmarshalText", true}, {"pkg/signature", "(*Signature).UnmarshalText", true},
		{"pkg/signature", "(*PublicKey).Unmarshal", true}, {"pkg/signature", "(*PrivateKey).Unmarshal", true}, {"pkg/signature", "(*Signature).Unmarshal", true},
		{"pkg/signature", "(*PublicKey).UnmarshalMsg", true}, {"pkg/signature", "(*PrivateKey).UnmarshalMsg", true}, {"pkg/signature", "(*Signature).UnmarshalMsg", true},
	} {
		fn := k.anchor(f.pkg, f.name)
		if fn == nil {
			continue
		}
		st := newState()
		args := k.symArgs(fn)
		own := map[int]bool{}
		if f.method {
			st.assume(mkNot(e.isNil(args[0])))
			own[rootObj(e.resolve(args[0], fn.Params[0].Type().Underlying().(*types.Pointer).Elem()))] = true
		}
		mark := e.nextObj()
		xs, ok := k.run(fn, st, args)
		if !ok {
			continue
		}
		good, _ := k.splitErr(xs, fn.Signature.Results().Len()-1)
		for _, x := range good {
			if !f.method {
				results(fn, x, mark, f.name)
			} else {
				n++
				k.onlyFresh(x.st, args[0], fn.Params[0].Type(), mark, k.p.pos(x.pos), "the value decoded by "+f.name, own)
			}
		}
	}
	k.clearObs()
	k.count("operations_checked", n)
	k.atLeast("ways a key is obtained from another", n, 30)
}

// ---- K08 ----

// ekInv: a cached public key of a private key is the public key of its secret.
func ekInv(x *ek) *Term {
	return mkOr(mkNot(x.priv), mkEqInt(seqLen(x.pk), t0), mkSeqEq(x.pk, pubOf(x.key)))
}

func checkK08(k *Checker) {
	k.rule("Invariant by induction over the operations of package key: every exported function that can reach a write to the secret, the cached public key or the private mark (found by a store scan and the call graph; the fields are unexported) is interpreted abstractly from an arbitrary object satisfying the invariant, and must re-establish it at every exit, failing ones included. PubKeyBytes must serve the public key of the current secret.")
	r := k.ekRoles()
	if !r.ok {
		return
	}
	e := k.sigEngine(true)
	r = k.ekRoles()
	writers := map[*ssa.Function]bool{}
	for _, fn := range k.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					if sameNamed(x.X.Type(), r.t) && (x.Field == r.key || x.Field == r.pk || x.Field == r.priv) {
						for _, ref := range *x.Referrers() {
							if s, ok := ref.(*ssa.Store); ok && s.Addr == x {
								writers[fn] = true
							} else if _, ok := ref.(*ssa.UnOp); !ok {
								if _, dbg := ref.(*ssa.DebugRef); !dbg {
									writers[fn] = true // the address goes elsewhere
								}
							}
						}
					}
				case *ssa.Store:
					if p, ok := x.Addr.Type().Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), r.t) {
						writers[fn] = true
					}
				}
			}
		}
	}
	for fn := range writers {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != keyPkg {
			if fn.Pkg != nil {
				k.violate(k.p.pos(fn.Pos()), "%s writes the parts of an extended key outside their package", shortFn(fn.String()))
			}
		}
	}
	k.count("functions_writing_key_parts", len(writers))
	k.atLeast("functions that write the parts of an extended key", len(writers), 3)
	cg := k.callGraph()
	n := 0
	for _, fn := range k.p.funcs {
		if fn.Synthetic != "" || !isExportedFn(fn) || fn.Pkg == nil || fn.Pkg.Pkg.Path() != keyPkg {
			continue
		}
		hit := false
		for g := range cg.reach(fn, func(g *ssa.Function) bool {
			return g != fn && isExportedFn(g) && g.Pkg != nil && g.Pkg.Pkg.Path() == keyPkg
		}) {
			hit = hit || writers[g]
		}
		if !hit {
			continue
		}
		n++
		k.invariantKept(r, fn)
	}
	k.count("operations_checked", n)
	k.atLeast("operations that can change an extended key", n, 5)
	// what is served
	if fn := k.anchor("pkg/key", "(*ExtendedKey).PubKeyBytes"); fn != nil {
		for _, c := range ekCases {
			st, args, p := k.ekStart(fn, r, c)
			xs, ok := k.run(fn, st, args)
			if !ok {
				return
			}
			for _, x := range xs {
				k.equal(x.st, e.seqOf(x.st, x.ret[0]), p.served(c.priv), k.p.pos(x.pos), "the public key bytes of a "+c.name+" key")
			}
		}
	}
	k.clearObs()
}

// invariantKept interprets an operation for each kind of extended key and signature key among its parameters.
func (k *Checker) invariantKept(r *ekRoles, fn *ssa.Function) {
	e := k.e
	keyIface := k.namedType("pkg/signature", "Key")
	var eks, keys []int
	for i, p := range fn.Params {
		t := p.Type()
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		if types.Identical(t, r.t) {
			eks = append(eks, i)
		}
		if keyIface != nil && types.Identical(t, keyIface) {
			keys = append(keys, i)
		}
	}
	cases := []ekCase{{"unconstrained", false, false}}
	if len(eks) > 0 {
		cases = ekCases
	}
	kinds := []string{""}
	if len(keys) > 0 {
		kinds = []string{"PublicKey", "PrivateKey"}
	}
	for _, c := range cases {
		for _, kind := range kinds {
			st := newState()
			args := k.symArgs(fn)
			for _, i := range eks {
				obj := args[i]
				if _, ok := fn.Params[i].Type().Underlying().(*types.Pointer); ok {
					st.assume(mkNot(e.isNil(args[i])))
					obj = k.deref(st, args[i], fn, i)
				}
				k.ekAssume(st, r, obj, c)
			}
			for _, i := range keys {
				args[i], _ = k.keyArg(st, kind)
			}
			xs, ok := k.run(fn, st, args)
			if !ok {
				return
			}
			for _, x := range xs {
				if x.pan {
					continue
				}
				pos := k.p.pos(x.pos)
				for _, i := range eks {
					if _, ok := fn.Params[i].Type().Underlying().(*types.Pointer); !ok {
						continue
					}
					q := k.ekAt(x.st, r, k.deref(x.st, args[i], fn, i))
					if q == nil {
						k.violate(pos, "the key after %s is not described", shortFn(fn.String()))
						continue
					}
					k.must(x.st, ekInv(q), pos, fmt.Sprintf("%s can leave a private key with a cached public key that is not its own (%s key before)", shortFn(fn.String()), c.name))
				}
				for i := range x.ret {
					t := fn.Signature.Results().At(i).Type()
					pt, ok := t.Underlying().(*types.Pointer)
					if !ok || !types.Identical(pt.Elem(), r.t) || x.st.decide(e.isNil(x.ret[i])) == 1 {
						continue
					}
					q := k.ekPtr(x.st, r, x.ret[i])
					if q == nil {
						k.violate(pos, "the key returned by %s is not described", shortFn(fn.String()))
						continue
					}
					k.must(x.st, ekInv(q), pos, shortFn(fn.String())+" can return a private key with a cached public key that is not its own")
				}
			}
			k.clearObs()
		}
	}
}

// ---- K09 ----

// sameOutcome compares two ways to compute the same results: where both can be under way, they succeed or fail together
// and give equal results.
func (k *Checker) sameOutcome(what string, as, bs []Exit, errA, errB int, get func(x Exit, first bool) []*Term) {
	k.atLeast("ways "+what, len(as), 1)
	pairs := 0
	for _, a := range as {
		if a.pan {
			continue
		}
		for _, b := range bs {
			if b.pan {
				continue
			}
			st := a.st.clone()
			ok := true
			for _, l := range b.st.path {
				if !st.assume(l) {
					ok = false
					break
				}
			}
			if !ok || k.refute(st) {
				continue
			}
			pairs++
			ea, eb := st.decide(k.e.isNil(a.ret[errA])), st.decide(k.e.isNil(b.ret[errB]))
			k.count("facts", 1)
			pos := k.p.pos(a.pos)
			if ea != eb {
				k.violate(pos, "%s can differ: one way succeeds where the other fails (other way ends at %s)", what, k.p.pos(b.pos)).with(st)
				continue
			}
			if ea != 1 {
				continue
			}
			ga, gb := get(a, true), get(b, false)
			for i := range ga {
				k.equal(st, ga[i], gb[i], pos, what)
			}
		}
	}
	k.atLeast("comparable ways "+what, pairs, 2)
}

func checkK09(k *Checker) {
	k.rule("Abstract interpretation of the conversions between extended keys and signature keys in both directions with unconstrained fields: the extra data written is depth, fingerprint, child number and chain code in order, each field read back is the term at exactly that place, the type decides private or public, other algorithms and short data are refused. MarshalText and UnmarshalText are compared exit by exit with the composition of the conversion and the signature key's own text methods.")
	k.trust("a well-formed extended key holds a 3-byte fingerprint and a 32-byte chain code; base32 text accepted by the signature package is valid UTF-8")
	e := k.sigEngine(true)
	r := k.ekRoles()
	if !r.ok {
		return
	}
	as := k.anchor("pkg/key", "(ExtendedKey).AsSignatureKey")
	if as == nil {
		return
	}
	for _, c := range ekCases {
		st, args, p := k.ekStart(as, r, c)
		xs, ok := k.run(as, st, args)
		if !ok {
			return
		}
		good, bad := k.splitErr(xs, 1)
		k.exactlyF(as, good, bad, func(*State) []named { return nil })
		for _, x := range good {
			pos := k.p.pos(x.pos)
			kind, al, key, extra := k.sigKeyPtr(x.st, x.ret[0])
			want := "PublicKey"
			if c.priv {
				want = "PrivateKey"
			}
			if kind != want {
				k.violate(pos, "a %s extended key is converted to a %s", c.name, kind)
			}
			if !k.isSecp(al) {
				k.violate(pos, "an extended key is converted to a key of the algorithm %s", al)
			}
			k.equal(x.st, key, p.key, pos, "the key bytes of the converted key")
			k.equal(x.st, extra, k.extraSpec(p), pos, "the extra data of the converted key")
		}
		k.noPanics(nil)
		k.textOfKey(r, c)
	}
	// the way back
	secpName := mkLit("")
	if fn := k.anchor("pkg/signature", "NameOf"); fn != nil {
		if g := k.global("pkg/signature", "Secp256k1"); g != nil {
			st := newState()
			v, t := e.load(st, g), e.typeAt(g)
			if !types.IsInterface(t) {
				v = mkIface(t, v)
			}
			if xs, ok := k.run(fn, st, []*Term{v}); ok && len(xs) == 1 {
				secpName = xs[0].st.canon(xs[0].ret[0])
			}
		}
	}
	if s, ok := seqConst(secpName); !ok || s == "" {
		k.violate("pkg/signature", "the name of the secp256k1 algorithm is not determined: %s", secpName)
	}
	k.setNullName()
	for _, name := range []string{"(*ExtendedKey).FromSignatureKey", "FromSignatureKey"} {
		fn := k.anchor("pkg/key", name)
		if fn == nil {
			continue
		}
		for _, kind := range []string{"PublicKey", "PrivateKey"} {
			st := newState()
			args := k.symArgs(fn)
			v, ptr := k.keyArg(st, kind)
			args[len(args)-1] = v
			if len(args) == 2 {
				st.assume(mkNot(e.isNil(args[0])))
			}
			_, al, key, extra := k.sigKeyPtr(st, e.load(st, e.resolve(ptr, k.namedType("pkg/signature", kind))))
			xs, ok := k.run(fn, st, args)
			if !ok {
				return
			}
			ei := fn.Signature.Results().Len() - 1
			good, bad := k.splitErr(xs, ei)
			k.exactlyF(fn, good, bad, func(st *State) []named {
				nm := nameOf_(al)
				if st.decide(e.isNil(al)) == 1 {
					nm = k.nullName
				}
				return []named{{"the algorithm is secp256k1", mkSeqEq(st.canon(nm), secpName)}, {"the extra data has at least 40 bytes", mkLe(mkInt(40), seqLen(extra))}}
			})
			for _, x := range good {
				pos := k.p.pos(x.pos)
				var q *ek
				if len(args) == 2 {
					q = k.ekAt(x.st, r, k.deref(x.st, args[0], fn, 0))
				} else {
					q = k.ekPtr(x.st, r, x.ret[0])
				}
				if q == nil {
					k.violate(pos, "%s succeeds without a key", name)
					continue
				}
				k.equal(x.st, q.key, key, pos, "the key bytes read by "+name)
				k.equal(x.st, q.depth, k.at(x.st, extra, t0), pos, "the depth read by "+name)
				k.equal(x.st, q.fp, e.subSeq(x.st, extra, t1, mkInt(3)), pos, "the parent fingerprint read by "+name)
				k.equal(x.st, q.num, e.getBE(x.st, extra, mkInt(4), 4), pos, "the child number read by "+name)
				k.equal(x.st, q.chain, e.subSeq(x.st, extra, mkInt(8), mkInt(32)), pos, "the chain code read by "+name)
				k.equal(x.st, q.priv, mkBool(kind == "PrivateKey"), pos, "the private mark set by "+name+" for a "+kind)
			}
			if len(args) == 1 {
				k.noErrKey(bad, fn)
			}
			k.noPanics(func(o *Oblig) bool { return false })
		}
	}
	k.textToKey(r)
	k.clearObs()
}

// textOfKey: MarshalText is the signature key's text of the converted key.
func (k *Checker) textOfKey(r *ekRoles, c ekCase) {
	e := k.e
	as, mt := k.anchor("pkg/key", "(ExtendedKey).AsSignatureKey"), k.anchor("pkg/key", "(ExtendedKey).MarshalText")
	if as == nil || mt == nil {
		return
	}
	st, args, _ := k.ekStart(mt, r, c)
	direct, ok := k.run(mt, st.clone(), args)
	if !ok {
		return
	}
	conv, ok := k.run(as, st.clone(), args)
	if !ok {
		return
	}
	good, _ := k.splitErr(conv, 1)
	var comp []Exit
	for _, x := range good {
		p := x.st.canon(x.ret[0])
		if p.op != OIface {
			continue
		}
		typ := "PublicKey"
		if strings.HasSuffix(types.TypeString(p.typ, nil), "PrivateKey") {
			typ = "PrivateKey"
		}
		fn := k.anchor("pkg/signature", "("+typ+").MarshalText")
		recv := p.args[0]
		if fn != nil {
			recv = e.load(x.st, recv)
		} else {
			return
		}
		ys, ok := k.run(fn, x.st, []*Term{recv})
		if !ok {
			return
		}
		comp = append(comp, ys...)
	}
	k.sameOutcome("writing an extended key as text", direct, comp, 1, 1, func(x Exit, first bool) []*Term {
		return []*Term{x.st.canon(e.seqOf(x.st, x.ret[0]))}
	})
	k.noPanics(nil)
}

// textToKey: UnmarshalText is ParseKey followed by the conversion.
func (k *Checker) textToKey(r *ekRoles) {
	e := k.e
	um, pk, fs := k.anchor("pkg/key", "(*ExtendedKey).UnmarshalText"), k.anchor("pkg/signature", "ParseKey"), k.anchor("pkg/key", "(*ExtendedKey).FromSignatureKey")
	if um == nil || pk == nil || fs == nil {
		return
	}
	st := newState()
	args := k.symArgs(um)
	st.assume(mkNot(e.isNil(args[0])))
	text := e.seqOf(st, args[1])
	direct, ok := k.run(um, st.clone(), args)
	if !ok {
		return
	}
	k.noPanics(nil)
	var valid []Exit
	for _, x := range direct {
		bad := false
		for _, l := range x.st.path {
			if l.op == ONot && l.args[0].op == OPred && strings.Contains(l.args[0].name, "utf8") {
				bad = true
			}
		}
		if bad && !x.pan {
			k.must(x.st, mkNot(e.isNil(x.ret[0])), k.p.pos(x.pos), "an extended key can be read from text that is not valid UTF-8")
			continue
		}
		valid = append(valid, x)
	}
	parsed, ok := k.run(pk, st.clone(), []*Term{text})
	if !ok {
		return
	}
	good, bad := k.splitErr(parsed, 1)
	var comp []Exit
	for _, x := range bad {
		comp = append(comp, Exit{st: x.st, ret: []*Term{x.ret[1]}, pos: x.pos})
	}
	for _, x := range good {
		ys, ok := k.run(fs, x.st, []*Term{args[0], x.ret[0]})
		if !ok {
			return
		}
		comp = append(comp, ys...)
	}
	k.sameOutcome("reading an extended key from text", valid, comp, 0, 0, func(x Exit, first bool) []*Term {
		q := k.ekAt(x.st, r, k.deref(x.st, args[0], um, 0))
		if q == nil {
			return []*Term{mkSym("?", nil)}
		}
		return []*Term{q.key, q.chain, q.fp, q.depth, q.num, q.priv}
	})
}

// global is the address of a package-level variable.
func (k *Checker) global(pkg, name string) *Term {
	if sp := k.p.ssa[modPath+"/"+pkg]; sp != nil {
		if g, ok := sp.Members[name].(*ssa.Global); ok {
			return k.e.globalPtr(g)
		}
	}
	k.violate(pkg, "the variable %s the property is about was not found", name)
	return nil
}

// ---- K10 ----

func checkK10(k *Checker) {
	k.rule("Abstract interpretation of FromOldSerialization with an unconstrained text: success holds exactly under the documented conditions (decoded length, double SHA-256 checksum, usable secret or parseable public key), every field equals the bytes at its documented offset, and no panic condition is reachable.")
	e := k.e
	r := k.ekRoles()
	fn := k.anchor("pkg/key", "FromOldSerialization")
	if fn == nil || !r.ok {
		return
	}
	st := newState()
	args := k.symArgs(fn)
	low := toLower(st, e.seqOf(st, args[0]))
	xs, ok := k.run(fn, st, args)
	if !ok {
		return
	}
	dec := func(st *State) *Term { return st.canon(bytesAtom("b32dec", specEnc(), st.canon(low))) }
	lead := func(st *State) *Term { return mkEqInt(k.at(st, dec(st), mkInt(43)), t0) }
	ok80 := func(st *State) bool { return st.decide(mkEqInt(seqLen(dec(st)), mkInt(80))) == 1 }
	cut := func(st *State) *Term {
		if !ok80(st) {
			return tTrue
		}
		return lead(st)
	}
	good, bad := k.splitErr(xs, 1)
	good, bad = k.splitOn(good, cut), k.splitOn(bad, cut)
	k.exactlyF(fn, good, bad, func(st *State) []named {
		d := dec(st)
		cs := []named{{"the text is base32", mkPred("b32ok", specEnc(), st.canon(low))}, {"it decodes to 80 bytes", mkEqInt(seqLen(d), mkInt(80))}}
		ckl, privl := mkPred("old?1", d), mkPred("old?2", d)
		keyConds := []named{{"the key is usable", privl}, {"the key is usable", privl}}
		if ok80(st) {
			body := e.subSeq(st, d, t0, mkInt(76))
			h := hashTerm("sha256", nil, st.canon(hashTerm("sha256", nil, st.canon(body))))
			ckl = mkSeqEq(e.subSeq(st, d, mkInt(76), mkInt(4)), e.subSeq(st, h, t0, mkInt(4)))
			if st.decide(lead(st)) == 1 {
				keyConds = inOrder(beInt(st.canon(e.subSeq(st, d, mkInt(44), mkInt(32)))))
			} else {
				keyConds[0] = named{"the public key parses", mkPred("pubkeyok", st.canon(e.subSeq(st, d, mkInt(43), mkInt(33))))}
				keyConds[1] = keyConds[0]
			}
		}
		cs = append(cs, named{"the checksum matches", ckl})
		return append(cs, keyConds...)
	})
	for _, x := range good {
		pos := k.p.pos(x.pos)
		q := k.ekPtr(x.st, r, x.ret[0])
		if q == nil {
			k.violate(pos, "FromOldSerialization succeeds without a key")
			continue
		}
		d := dec(x.st)
		sub := func(o, n int64) *Term { return e.subSeq(x.st, d, mkInt(o), mkInt(n)) }
		k.equal(x.st, q.depth, k.at(x.st, d, mkInt(3)), pos, "the depth of an old-format key")
		k.equal(x.st, q.fp, sub(4, 3), pos, "the parent fingerprint of an old-format key")
		k.equal(x.st, q.num, e.getBE(x.st, d, mkInt(7), 4), pos, "the child number of an old-format key")
		k.equal(x.st, q.chain, sub(11, 32), pos, "the chain code of an old-format key")
		if x.st.decide(lead(x.st)) == 1 {
			k.equal(x.st, q.key, sub(44, 32), pos, "the secret of an old-format private key")
			k.must(x.st, q.priv, pos, "an old-format private key is not marked private")
		} else {
			k.equal(x.st, q.key, sub(43, 33), pos, "the bytes of an old-format public key")
			k.must(x.st, mkNot(q.priv), pos, "an old-format public key is marked private")
		}
	}
	k.noErrKey(bad, fn)
	k.noPanics(nil)
}

func checkK11(k *Checker) {
	k.rule("Abstract interpretation of the two ways to the public child (Child then Public, and Public then Child) for every kind of private parent and unconstrained plain indices; wherever both can succeed, every field of the results is the same term, after rewriting with the one law of the group: the base point times a sum of scalars modulo the order is the sum of the multiples.")
	k.trust("scalar multiplication of the base point of secp256k1 distributes over addition modulo the group order, and the library computes it")
	k.trust("a well-formed extended key holds 32 secret or 33 public key bytes, and its cached public key belongs to its secret (decided by K08)")
	r := k.ekRoles()
	child, public := k.anchor("pkg/key", "(*ExtendedKey).Child"), k.anchor("pkg/key", "(*ExtendedKey).Public")
	if !r.ok || child == nil || public == nil {
		return
	}
	compose := func(st *State, key, i *Term, childFirst bool) (out []Exit, ok bool) {
		step := func(st *State, p *Term, c bool) ([]Exit, bool) {
			if c {
				return k.run(child, st, []*Term{p, i})
			}
			return k.run(public, st, []*Term{p})
		}
		xs, ok := step(st, key, childFirst)
		if !ok {
			return nil, false
		}
		good, bad := k.splitErr(xs, 1)
		out = append(out, bad...)
		for _, x := range good {
			ys, ok := step(x.st, x.ret[0], !childFirst)
			if !ok {
				return nil, false
			}
			out = append(out, ys...)
		}
		k.clearObs()
		return out, true
	}
	pairs := 0
	for _, c := range ekCases {
		if !c.priv {
			continue
		}
		st, args, p := k.ekStart(child, r, c)
		if p == nil {
			return
		}
		st.assume(mkLt(args[1], mkInt(1<<31)))
		as, ok1 := compose(st.clone(), args[0], args[1], true)
		bs, ok2 := compose(st.clone(), args[0], args[1], false)
		if !ok1 || !ok2 {
			return
		}
		ga, _ := k.splitErr(as, 1)
		gb, _ := k.splitErr(bs, 1)
		for _, a := range ga {
			for _, b := range gb {
				st := a.st.clone()
				ok := true
				for _, l := range b.st.path {
					ok = ok && st.assume(l)
				}
				if !ok || k.refute(st) {
					continue
				}
				x, y := k.ekPtr(a.st, r, a.ret[0]), k.ekPtr(b.st, r, b.ret[0])
				if x == nil || y == nil {
					k.violate(k.p.pos(a.pos), "a derivation succeeds without a key")
					continue
				}
				pairs++
				pos := k.p.pos(a.pos)
				what := " of the public child of a " + c.name + " key depends on whether the child or the public form is taken first"
				for _, f := range []struct {
					n    string
					x, y *Term
				}{{"key", x.key, y.key}, {"chain code", x.chain, y.chain}, {"fingerprint", x.fp, y.fp}, {"depth", x.depth, y.depth}, {"child number", x.num, y.num}} {
					k.equal(st, spread(st, f.x), spread(st, f.y), pos, "the "+f.n+what)
				}
				k.must(st, mkNot(x.priv), pos, "the public form of the child is marked private")
				k.must(st, mkNot(y.priv), pos, "the child of the public form is marked private")
			}
		}
	}
	k.atLeast("comparable pairs of derivations", pairs, 2)
}

// spread applies the group law: the multiple of the base point by a sum modulo the order is the sum of the multiples.
func spread(st *State, t *Term) *Term {
	// the number whose shortest form a text is
	t = rewrite(st.canon(t), func(y *Term) *Term {
		if y.op == OApp && y.name == "beint" {
			if a := wholeIn(st, y.args[0], "minbytes"); a != nil {
				return a.args[0]
			}
		}
		return nil
	})
	return rewrite(t, func(y *Term) *Term {
		if y.op != OApp || len(y.args) != 1 || y.name != "G*.x" && y.name != "G*.y" {
			return nil
		}
		m := y.args[0]
		if m.op != OApp || m.name != "mod" || len(m.args) != 2 || m.args[1] != mkBig(secpN) {
			return nil
		}
		c, as, cs := linParts(m.args[0])
		if c.Sign() != 0 || len(as) != 2 || cs[0].Cmp(big1) != 0 || cs[1].Cmp(big1) != 0 {
			return nil
		}
		var pt []*Term
		for _, s := range as {
			pt = append(pt, mkTuple(mkAppR("G*.x", big0, nil, s), mkAppR("G*.y", big0, nil, s)))
		}
		if pt[0].id > pt[1].id {
			pt[0], pt[1] = pt[1], pt[0]
		}
		return mkAppR("addP"+y.name[2:], big0, nil, pt[0], pt[1])
	})
}
