package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["S01"] = checkS01
	checks["S02"] = checkS02
	checks["S03"] = checkS03
	checks["S04"] = checkS04
	checks["S05"] = checkS05
	checks["S06"] = checkS06
	checks["S07"] = checkS07
	checks["S08"] = checkS08
}

const sigPkg = modPath + "/pkg/signature"

// sigEngine prepares an engine in which the name of an algorithm is a function of its type (decided separately by
// S03), registered algorithms are never nil, and the text checksum is a pair of functions (decided by S04).
func (k *Checker) sigEngine(checksums bool) *Engine {
	e := k.fresh()
	nameOf := sigPkg + ".NameOf"
	var h modelFn
	h = func(e *Engine, c *callCtx) []Exit {
		v := stripNew(c.args[0])
		real := func(st *State, v *Term) []Exit {
			delete(e.opaque, nameOf)
			defer func() { e.opaque[nameOf] = h }()
			return e.call(st, c.fn, []*Term{v}, nil, c.depth)
		}
		if v.op == OIface || v.op == ONil {
			return real(c.st, v)
		}
		y, n := fork(c.st, e.isNil(v))
		var out []Exit
		if n != nil {
			out = append(out, Exit{st: n, ret: []*Term{nameOf_(v)}})
		}
		if y != nil {
			out = append(out, real(y, mkNil(nil))...)
		}
		return out
	}
	e.opaque[nameOf] = h
	if checksums {
		e.opaque[sigPkg+".AddChecksum"] = func(e *Engine, c *callCtx) []Exit {
			return one(c, e.freshBytes(c.st, addck(c.seq(e, 0)), "checksummed"))
		}
		e.opaque[sigPkg+".CheckChecksum"] = func(e *Engine, c *callCtx) []Exit {
			s := c.seq(e, 0)
			if a := c.whole(s, "addck"); a != nil {
				return one(c, e.freshBytes(c.st, a.args[0], "message"), tTrue)
			}
			return c.split(mkPred("ckok", s), func(st *State) []*Term {
				m := bytesAtom("ckmsg", s)
				st.assume(mkLe(tAddI(seqLen(m), 4), seqLen(s)))
				return []*Term{e.freshBytes(st, m, "message"), tTrue}
			}, func(st *State) []*Term {
				return []*Term{e.freshSym("message", types.NewSlice(types.Typ[types.Uint8])), tFalse}
			})
		}
	}
	e.mapVal = func(mt *types.Map, val *Term) *Term {
		if types.TypeString(mt.Elem(), nil) == sigPkg+".Algorithm" {
			return mkNot(e.isNil(val))
		}
		return nil
	}
	return e
}

func nameOf_(al *Term) *Term { return strAtom("nameof", stripNew(al)) }
func addck(m *Term) *Term    { return bytesAtom("addck", m) }
func sizeOf(w string, al *Term) *Term {
	return mkApp("al:"+w+"Size", types.Typ[types.Int], stripNew(al))
}

// mapBase is the unknown part of the package-level map with the given key and value types.
func (k *Checker) mapBase(pkg, key, val string) *Term {
	sp := k.p.ssa[modPath+"/"+pkg]
	var found []*ssa.Global
	if sp != nil {
		for _, m := range sp.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			mt, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Map)
			if ok && shortFn(types.TypeString(mt.Key(), nil)) == key && shortFn(types.TypeString(mt.Elem(), nil)) == val {
				found = append(found, g)
			}
		}
	}
	if len(found) != 1 {
		k.violate(pkg, "expected one package-level map from %s to %s, found %d", key, val, len(found))
		return mkSym("nomap", nil)
	}
	st := newState()
	m := k.e.load(st, k.e.globalPtr(found[0]))
	m = k.e.asMap(m, found[0].Type().Underlying().(*types.Pointer).Elem())
	c := k.e.content(st, m.n)
	if c.op == OMapV && len(c.args) == 1 {
		return c.args[0]
	}
	k.violate(pkg, "the contents of the map %s are not treated as unknown", found[0].Name())
	return mkSym("nomap", nil)
}

// algID is the identifier the registry holds for a name.
func (k *Checker) algID(names, name *Term) *Term {
	t := k.namedType("pkg/signature", "AlgorithmID")
	if t == nil {
		return mkSym("noid", nil)
	}
	return k.e.materialize(mkApp("mapget", t, names, name), t)
}

// decoded is what the encoded form of an identified value says.
type decoded struct {
	conds           []named
	id, data, rest  *Term
	known, al       *Term
	used            *Term
	keyLen          *Term // nil while it is unknown whether the data is empty
	key, extra      *Term
	frame, notEmpty *Term
}

func (k *Checker) decodeSpec(st *State, s, idMap *Term) *decoded {
	e := k.e
	d := &decoded{}
	step := func(kind string, s *Term) (rest *Term) {
		s = st.canon(s)
		d.conds = append(d.conds, named{"a readable " + kind, mkPred("mpok:"+kind, s)})
		u := mkAppR("mpused:"+kind, big1, maxLen, s)
		return e.subSeq(st, s, u, tSub(seqLen(s), u))
	}
	s = st.canon(s)
	s1 := step("array", s)
	d.conds = append(d.conds, named{"two elements", mkEqInt(mkAppR("mpval:array", big0, big.NewInt(1<<32-1), s), mkInt(2))})
	s1 = st.canon(s1)
	s2 := st.canon(step("uint8", s1))
	d.id = e.materialize(mkApp("mpval:uint8", types.Typ[types.Uint8], s1), types.Typ[types.Uint8])
	s3 := step("bytes", s2)
	d.data = st.canon(bytesAtom("mpval:bytes", s2))
	d.rest = st.canon(s3)
	d.known = mkPred("mapok", idMap, d.id)
	d.al = mkApp("mapget", k.namedType("pkg/signature", "Algorithm"), idMap, d.id)
	d.notEmpty = mkLe(t1, seqLen(d.data))
	switch st.decide(d.notEmpty) {
	case -1:
		d.frame, d.keyLen, d.key, d.extra = tTrue, t0, mkSeq(), mkSeq()
	case 1:
		lk := k.at(st, d.data, t0)
		d.frame = mkLe(tAddI(lk, 1), seqLen(d.data))
		d.keyLen = lk
		if st.decide(d.frame) == 1 {
			d.key = e.subSeq(st, d.data, t1, lk)
			d.extra = e.subSeq(st, d.data, tAddI(lk, 1), tSub(tAddI(seqLen(d.data), -1), lk))
		}
	}
	return d
}

// splitOn forks exits by a literal (computed in each exit's state) so that it is decided in each.
func (k *Checker) splitOn(xs []Exit, f func(st *State) *Term) (out []Exit) {
	for _, x := range xs {
		y, n := fork(x.st, f(x.st))
		for _, s := range []*State{y, n} {
			if s != nil && !s.dead {
				z := x
				z.st = s
				out = append(out, z)
			}
		}
	}
	return
}

// keyObj reads a key object: algorithm, key bytes, extra bytes.
func (k *Checker) keyObj(st *State, v *Term) (al, key, extra *Term) {
	for v.op == OStruct && len(v.args) == 1 {
		v = v.args[0]
	}
	if v.op != OStruct || len(v.args) != 3 {
		return mkSym("?", nil), mkSeq(), mkSeq()
	}
	return v.args[0], k.e.seqOf(st, v.args[1]), k.e.seqOf(st, v.args[2])
}

func (k *Checker) sigObj(st *State, v *Term) (al, data *Term) {
	if v.op != OStruct || len(v.args) != 2 {
		return mkSym("?", nil), mkSeq()
	}
	return v.args[0], k.e.seqOf(st, v.args[1])
}

func stripSeq(st *State, t *Term) *Term { return st.canon(t) }

// orNull is the algorithm used when none is set.
func isNullCase(k *Checker, st *State, al *Term) bool { return st.decide(k.e.isNil(al)) == 1 }

// ---- decoding contracts shared by S02, S03, S05, S06, S07 ----

type decoderSpec struct {
	name   string // function
	method bool   // receiver is the object; otherwise the object is returned
	text   string // text prefix ("-" for binary, "" for prefix-less text)
	rest   bool   // hands back the remaining bytes
	size   string // PublicKey, PrivateKey, Signature
}

var keyDecoders = []decoderSpec{
	{"(*PublicKey).Unmarshal", true, "-", false, "PublicKey"},
	{"(*PrivateKey).Unmarshal", true, "-", false, "PrivateKey"},
	{"(*Signature).Unmarshal", true, "-", false, "Signature"},
	{"(*PublicKey).UnmarshalMsg", true, "-", true, "PublicKey"},
	{"(*PrivateKey).UnmarshalMsg", true, "-", true, "PrivateKey"},
	{"(*Signature).UnmarshalMsg", true, "-", true, "Signature"},
	{"(*PublicKey).UnmarshalText", true, "npub", false, "PublicKey"},
	{"(*PrivateKey).UnmarshalText", true, "npvt", false, "PrivateKey"},
	{"(*Signature).UnmarshalText", true, "", false, "Signature"},
	{"ParsePublicKey", false, "npub", false, "PublicKey"},
	{"ParsePrivateKey", false, "npvt", false, "PrivateKey"},
	{"ParseSignature", false, "", false, "Signature"},
}

// decodeConds are the conditions under which a decoder succeeds.
func (k *Checker) decodeConds(st *State, d decoderSpec, in, idMap *Term) ([]named, *decoded) {
	var pre []named
	s := st.canon(in)
	if d.text != "-" {
		n := int64(len(d.text))
		if n > 0 {
			pre = append(pre, named{"the text is at least as long as its prefix", mkLe(mkInt(n), seqLen(s))})
			pre = append(pre, named{"the text starts with " + d.text, mkSeqEq(k.e.subSeq(st, s, t0, mkInt(n)), mkLit(d.text))})
		}
		body := toLower(st, st.canon(k.e.subSeq(st, s, mkInt(n), tAddI(seqLen(s), -n))))
		pre = append(pre, named{"the rest of the text is base32", mkPred("b32ok", specEnc(), body)})
		raw := st.canon(bytesAtom("b32dec", specEnc(), body))
		pre = append(pre, named{"the checksum matches", mkPred("ckok", raw)})
		s = bytesAtom("ckmsg", raw)
	}
	q := k.decodeSpec(st, s, idMap)
	conds := append(pre, q.conds...)
	if !d.rest {
		conds = append(conds, named{"nothing follows the value", mkEqInt(seqLen(q.rest), t0)})
	}
	conds = append(conds, named{"the algorithm is registered", q.known})
	sz := sizeOf(d.size, q.al)
	if d.size == "Signature" {
		conds = append(conds, named{"the signature has the size its algorithm declares", mkOr(mkLt(sz, t0), mkEqInt(seqLen(q.data), sz))})
		return conds, q
	}
	if q.frame == nil {
		conds = append(conds, named{"the key frame is complete", mkPred("frame?", s)}, named{"the key has the size its algorithm declares", mkPred("size?", s)})
		return conds, q
	}
	conds = append(conds, named{"the key frame is complete", q.frame}, named{"the key has the size its algorithm declares", mkEqInt(q.keyLen, sz)})
	return conds, q
}

// checkDecoder interprets one decoder and compares it with its contract. what selects the conclusions drawn.
func (k *Checker) checkDecoder(d decoderSpec, what string) {
	fn := k.anchor("pkg/signature", d.name)
	if fn == nil {
		return
	}
	e := k.e
	idMap := k.mapBase("pkg/signature", "pkg/signature.AlgorithmID", "pkg/signature.Algorithm")
	st := newState()
	args := k.symArgs(fn)
	ai := 0
	if d.method {
		ai = 1
		st.assume(mkNot(e.isNil(args[0])))
	}
	in := e.seqOf(st, args[ai])
	xs, ok := k.run(fn, st, args)
	if !ok {
		return
	}
	errIdx := fn.Signature.Results().Len() - 1
	good, bad := k.splitErr(xs, errIdx)
	cut := func(st *State) *Term { _, q := k.decodeConds(st, d, in, idMap); return q.notEmpty }
	if d.size != "Signature" {
		good, bad = k.splitOn(good, cut), k.splitOn(bad, cut)
	}
	k.exactlyF(fn, good, bad, func(st *State) []named { c, _ := k.decodeConds(st, d, in, idMap); return c })
	for _, x := range good {
		var obj *Term
		if d.method {
			obj = k.deref(x.st, args[0], fn, 0)
		} else if v := x.ret[0]; v.op == OPtr {
			obj = e.load(x.st, v)
		} else {
			k.violate(k.p.pos(x.pos), "%s succeeds without an object", shortFn(fn.String()))
			continue
		}
		_, q := k.decodeConds(x.st, d, in, idMap)
		pos := k.p.pos(x.pos)
		if d.size == "Signature" {
			al, data := k.sigObj(x.st, obj)
			k.equal(x.st, stripNew(al), q.al, pos, "the algorithm decoded by "+d.name)
			k.equal(x.st, data, q.data, pos, "the signature bytes decoded by "+d.name)
		} else if q.key != nil {
			al, key, extra := k.keyObj(x.st, obj)
			k.equal(x.st, stripNew(al), q.al, pos, "the algorithm decoded by "+d.name)
			k.equal(x.st, key, q.key, pos, "the key bytes decoded by "+d.name)
			k.equal(x.st, extra, q.extra, pos, "the extra bytes decoded by "+d.name)
		}
		if d.rest {
			k.equal(x.st, e.seqOf(x.st, x.ret[0]), q.rest, pos, "the bytes handed back by "+d.name)
		}
	}
	k.noPanics(nil)
	k.count("decoders", 1)
}

// ---- S02 ----

func checkS02(k *Checker) {
	k.rule("Abstract interpretation of every function that builds a key or signature from outside data, with unconstrained input and registry: success is shown to require, and failure to contradict, that all documented conditions hold, the last being that the length equals the size the algorithm declares (or that size is negative, for signatures).")
	k.trust("an algorithm's sizes depend only on its type, not on the state of its value")
	e := k.sigEngine(true)
	for _, d := range keyDecoders {
		k.checkDecoder(d, "size")
	}
	for _, r := range []struct{ name, size string }{{"RawPublicKey", "PublicKey"}, {"RawPrivateKey", "PrivateKey"}, {"RawSignature", "Signature"}} {
		fn := k.anchor("pkg/signature", r.name)
		if fn == nil {
			continue
		}
		for _, null := range []bool{false, true} {
			if null && r.size == "Signature" {
				continue // a signature needs an algorithm
			}
			st := newState()
			args := k.symArgs(fn)
			if null {
				args[0] = mkNil(nil)
			} else {
				st.assume(mkNot(e.isNil(args[0])))
			}
			data := e.seqOf(st, args[1])
			xs, ok := k.run(fn, st, args)
			if !ok {
				return
			}
			good, bad := k.splitErr(xs, 1)
			sz := sizeOf(r.size, args[0])
			if null {
				sz = t0
			}
			lit := mkEqInt(seqLen(data), sz)
			if r.size == "Signature" {
				lit = mkOr(lit, mkLt(sz, t0))
			}
			k.exactlyF(fn, good, bad, func(*State) []named { return []named{{"the length is the size the algorithm declares", lit}} })
			for _, x := range good {
				if x.ret[0].op != OPtr {
					k.violate(k.p.pos(x.pos), "%s succeeds without an object", r.name)
					continue
				}
				obj := e.load(x.st, x.ret[0])
				if r.size == "Signature" {
					al, d := k.sigObj(x.st, obj)
					k.equal(x.st, al, args[0], k.p.pos(x.pos), "the algorithm of "+r.name)
					k.equal(x.st, d, data, k.p.pos(x.pos), "the data of "+r.name)
				} else {
					al, key, extra := k.keyObj(x.st, obj)
					k.equal(x.st, al, args[0], k.p.pos(x.pos), "the algorithm of "+r.name)
					k.equal(x.st, key, data, k.p.pos(x.pos), "the key of "+r.name)
					k.equal(x.st, extra, e.seqOf(x.st, args[2]), k.p.pos(x.pos), "the extra data of "+r.name)
				}
			}
			k.noPanics(nil)
		}
	}
	k.sizes()
}

// sizes checks the sizes the built-in algorithms declare.
func (k *Checker) sizes() {
	for _, a := range []struct {
		pkg, typ         string
		pub, priv, sigSz int64
	}{{"null", "null", 0, 0, 0}, {"ed25519", "ed25519", 32, 64, 64}, {"secp256k1", "secp256k1", 33, 32, -1}} {
		for m, want := range map[string]int64{"PublicKeySize": a.pub, "PrivateKeySize": a.priv, "SignatureSize": a.sigSz} {
			fn := k.anchor("pkg/signature/algorithms/"+a.pkg, "("+a.typ+")."+m)
			if fn == nil {
				continue
			}
			xs, ok := k.run(fn, newState(), k.symArgs(fn))
			if !ok {
				continue
			}
			for _, x := range xs {
				if want >= 0 {
					k.equal(x.st, x.ret[0], mkInt(want), k.p.pos(x.pos), a.typ+"."+m)
				} else {
					k.must(x.st, mkLt(x.ret[0], t0), k.p.pos(x.pos), a.typ+"."+m+" is negative because signatures vary in length")
				}
			}
		}
	}
	k.clearObs()
}

// ---- S05 / S06 ----

func checkS05(k *Checker) {
	k.rule("Abstract interpretation of the key encoders and decoders with unconstrained keys and bytes: the encoded form is exactly length byte, key, extra inside the two-element container, refused beyond 255 bytes; decoding takes exactly the announced key bytes, the rest as extra, refuses truncated frames and replaces algorithm, key and extra; an empty frame is an empty key.")
	k.sigEngine(true)
	for _, d := range keyDecoders {
		if d.size != "Signature" {
			k.checkDecoder(d, "frame")
		}
	}
	k.encoders(false)
}

func checkS06(k *Checker) {
	k.rule("Abstract interpretation of whole-value and message decoding and encoding: whole-value success is shown to require that nothing follows the value, message decoding hands back exactly the bytes after it, and message encoding yields the given buffer's content followed by exactly the whole-value encoding, leaving the buffer's existing bytes as they were.")
	k.sigEngine(true)
	for _, d := range keyDecoders {
		k.checkDecoder(d, "rest")
	}
	k.encoders(true)
}

// marshalSpec: success conditions and content of the encoded form of a key or signature object.
func (k *Checker) marshalSpec(st *State, typ string, obj, idMap, names *Term) (conds []named, out *Term) {
	var al, frame *Term
	if typ == "Signature" {
		al, frame = k.sigObj(st, obj)
	} else {
		var key, extra *Term
		al, key, extra = k.keyObj(st, obj)
		conds = append(conds, named{"the key has at most 255 bytes", mkLe(seqLen(key), mkInt(255))})
		frame = mkSeq(mkElem(mkBits(seqLen(key), 0, 8), true), key, extra)
		if st.decide(conds[0].lit) == 1 {
			frame = mkSeq(mkElem(seqLen(key), true), key, extra)
		}
	}
	isNil := k.e.isNil(al)
	var id *Term
	switch {
	case st.decide(isNil) == 1 && typ == "Signature":
		id = t0
	default:
		name := nameOf_(al)
		if st.decide(isNil) == 1 {
			name = k.nullName
		} else {
			conds = append(conds, named{"the algorithm has a name", mkLe(t1, seqLen(name))})
		}
		conds = append(conds, named{"the algorithm is registered", mkPred("mapok", names, st.canon(name))})
		id = k.algID(names, st.canon(name))
	}
	out = mkSeq(mkLit("\x92"), mpEnc("uint8", id), mpEnc("bytes", st.canon(frame)))
	return
}

func (k *Checker) setNullName() {
	fn := k.anchor("pkg/signature", "NameOf")
	if fn == nil {
		return
	}
	xs, ok := k.run(fn, newState(), []*Term{mkNil(nil)})
	if ok && len(xs) == 1 {
		k.nullName = xs[0].st.canon(xs[0].ret[0])
		return
	}
	k.nullName = mkLit("null")
	k.violate(k.p.pos(fn.Pos()), "the name of the absent algorithm is not determined")
}

func (k *Checker) encoders(msgs bool) {
	e := k.e
	k.setNullName()
	names := k.mapBase("pkg/signature", "string", "pkg/signature.AlgorithmID")
	idMap := k.mapBase("pkg/signature", "pkg/signature.AlgorithmID", "pkg/signature.Algorithm")
	for _, typ := range []string{"PublicKey", "PrivateKey", "Signature"} {
		for _, m := range []string{"Marshal", "MarshalMsg"} {
			fn := k.anchor("pkg/signature", "("+typ+")."+m)
			if fn == nil {
				continue
			}
			st := newState()
			args := k.symArgs(fn)
			pre := mkSeq()
			if m == "MarshalMsg" {
				pre = e.seqOf(st, args[1])
			}
			xs, ok := k.run(fn, st, args)
			if !ok {
				return
			}
			good, bad := k.splitErr(xs, 1)
			cut := func(st *State) *Term {
				v := args[0]
				for v.op == OStruct && len(v.args) == 1 {
					v = v.args[0]
				}
				return e.isNil(v.args[0])
			}
			good, bad = k.splitOn(good, cut), k.splitOn(bad, cut)
			k.exactlyF(fn, good, bad, func(st *State) []named {
				c, _ := k.marshalSpec(st, typ, args[0], idMap, names)
				return c
			})
			for _, x := range good {
				_, out := k.marshalSpec(x.st, typ, args[0], idMap, names)
				k.equal(x.st, e.seqOf(x.st, x.ret[0]), mkSeq(pre, out), k.p.pos(x.pos), "the bytes produced by ("+typ+")."+m)
				if m == "MarshalMsg" {
					k.equal(x.st, e.seqOf(x.st, args[1]), pre, k.p.pos(x.pos), "the content of the buffer given to ("+typ+")."+m)
				}
			}
			k.noPanics(nil)
			k.count("encoders", 1)
		}
	}
}

// ---- S01 ----

func checkS01(k *Checker) {
	k.rule("Abstract interpretation of PublicKey.Verify and Signature.Verify with unconstrained algorithms: true requires that both algorithms have the same name (or identifier) and that the key's algorithm verified exactly the key bytes, message and signature bytes; false contradicts that. The built-in algorithms' methods are interpreted against their libraries: the null algorithm never verifies or generates, secp256k1 answers false for unparseable input and hashes the message with SHA-256 both when signing and when verifying.")
	e := k.sigEngine(true)
	k.setNullName()
	names := k.mapBase("pkg/signature", "string", "pkg/signature.AlgorithmID")
	for _, f := range []struct {
		name     string
		key, sig int
	}{{"(PublicKey).Verify", 0, 2}, {"(Signature).Verify", 2, 0}} {
		fn := k.anchor("pkg/signature", f.name)
		if fn == nil {
			continue
		}
		st := newState()
		args := k.symArgs(fn)
		al, key, _ := k.keyObj(st, args[f.key])
		sal, data := k.sigObj(st, args[f.sig])
		msg := e.seqOf(st, args[1])
		xs, ok := k.run(fn, st, args)
		if !ok {
			return
		}
		xs = k.splitOn(k.splitOn(xs, func(*State) *Term { return e.isNil(al) }), func(*State) *Term { return e.isNil(sal) })
		k.atLeast("ways "+f.name+" ends", len(xs), 2)
		for _, x := range xs {
			y, n := fork(x.st, x.ret[0])
			pos := k.p.pos(x.pos)
			name := func(st *State, a *Term) *Term {
				if st.decide(e.isNil(a)) == 1 {
					return k.nullName
				}
				return st.canon(nameOf_(a))
			}
			same := func(st *State) (byName, byID *Term) {
				a, b := name(st, al), name(st, sal)
				id := func(x *Term) *Term { return k.algID(names, x) }
				return mkSeqEq(a, b), mkEqInt(id(a), id(b))
			}
			verified := mkPred("al:Verify", stripNew(al), key, msg, data)
			if y != nil && !y.dead {
				k.count("facts", 1)
				a, b := same(y)
				if y.decide(a) != 1 && y.decide(b) != 1 {
					k.violate(pos, "%s can answer true although the algorithms may differ", f.name).with(y)
				}
				if y.decide(e.isNil(al)) == 1 {
					k.violate(pos, "%s can answer true for a key without algorithm", f.name).with(y)
				} else {
					k.must(y, verified, pos, f.name+" can answer true although the key's algorithm did not verify key, message and signature")
				}
			}
			if n != nil && !n.dead && n.decide(e.isNil(al)) != 1 {
				z := n.clone()
				a, _ := same(z)
				// the key's algorithm is one the library knows
				known := mkAnd(mkLe(t1, seqLen(name(z, al))), mkPred("mapok", names, name(z, al)))
				if z.assume(known) && z.assume(a) && z.assume(verified) && !k.refute(z) {
					k.violate(pos, "%s can answer false although the algorithms agree and the signature verifies", f.name).with(z)
				}
			}
		}
		k.noPanics(nil)
	}
	// signing
	if fn := k.anchor("pkg/signature", "(PrivateKey).Sign"); fn != nil {
		st := newState()
		args := k.symArgs(fn)
		al, key, _ := k.keyObj(st, args[0])
		st.assume(mkNot(e.isNil(al)))
		if xs, ok := k.run(fn, st, args); ok {
			for _, x := range xs {
				ral, data := k.sigObj(x.st, x.ret[0])
				k.equal(x.st, ral, al, k.p.pos(x.pos), "the algorithm of a signature made by a key")
				k.equal(x.st, data, bytesAtom("al:Sign", stripNew(al), key, e.seqOf(x.st, args[1])), k.p.pos(x.pos), "the bytes of a signature made by a key")
			}
			k.noPanics(nil)
		}
	}
	k.algorithmsS01()
}

func (k *Checker) algorithmsS01() {
	e := k.e
	// null
	if fn := k.anchor("pkg/signature/algorithms/null", "(null).Verify"); fn != nil {
		if xs, ok := k.run(fn, newState(), k.symArgs(fn)); ok {
			for _, x := range xs {
				k.must(x.st, mkNot(x.ret[0]), k.p.pos(x.pos), "the null algorithm verifies something")
			}
		}
	}
	if fn := k.anchor("pkg/signature/algorithms/null", "(null).Generate"); fn != nil {
		if xs, ok := k.run(fn, newState(), k.symArgs(fn)); ok {
			for _, x := range xs {
				k.must(x.st, mkNot(e.isNil(x.ret[2])), k.p.pos(x.pos), "the null algorithm generates keys")
			}
		}
	}
	// ed25519: exactly the library's verification, signing of the same bytes
	if fn := k.anchor("pkg/signature/algorithms/ed25519", "(ed25519).Verify"); fn != nil {
		st := newState()
		args := k.symArgs(fn)
		st.assume(mkEqInt(seqLen(e.seqOf(st, args[1])), mkInt(32)))
		if xs, ok := k.run(fn, st, args); ok {
			k.boolIs(fn, xs, 0, mkPred("edverify", e.seqOf(st, args[1]), e.seqOf(st, args[2]), e.seqOf(st, args[3])), "ed25519 verification")
		}
	}
	if fn := k.anchor("pkg/signature/algorithms/ed25519", "(ed25519).Sign"); fn != nil {
		st := newState()
		args := k.symArgs(fn)
		st.assume(mkEqInt(seqLen(e.seqOf(st, args[1])), mkInt(64)))
		if xs, ok := k.run(fn, st, args); ok {
			for _, x := range xs {
				k.equal(x.st, e.seqOf(x.st, x.ret[0]), bytesAtom("edsign", e.seqOf(st, args[1]), e.seqOf(st, args[2])), k.p.pos(x.pos), "an ed25519 signature")
			}
		}
	}
	// secp256k1
	if fn := k.anchor("pkg/signature/algorithms/secp256k1", "(secp256k1).Verify"); fn != nil {
		st := newState()
		args := k.symArgs(fn)
		pub, msg, sig := e.seqOf(st, args[1]), e.seqOf(st, args[2]), e.seqOf(st, args[3])
		if xs, ok := k.run(fn, st, args); ok {
			k.secpVerify(fn, xs, pub, msg, sig)
			k.noPanics(nil)
		}
	}
	if fn := k.anchor("pkg/signature/algorithms/secp256k1", "(secp256k1).Sign"); fn != nil {
		st := newState()
		args := k.symArgs(fn)
		key, msg := e.seqOf(st, args[1]), e.seqOf(st, args[2])
		st.assume(mkEqInt(seqLen(key), mkInt(32)))
		if xs, ok := k.run(fn, st, args); ok {
			k.secpSign(fn, xs, key, msg)
		}
	}
	k.clearObs()
}

// secpParsed are the library's views of a public key and a signature.
func secpParsed(pub, sig *Term) (pubOK, sigOK func(st *State) *Term) {
	return func(st *State) *Term { return mkPred("pubkeyok", st.canon(pub)) },
		func(st *State) *Term { return mkPred("sigok:ParseSignature", st.canon(sig)) }
}

// secpVerify: true only with a parseable key and signature and the library's verification of the SHA-256 of the message.
func (k *Checker) secpVerify(fn *ssa.Function, xs []Exit, pub, msg, sig *Term) {
	pubOK, sigOK := secpParsed(pub, sig)
	k.atLeast("ways secp256k1 verification ends", len(xs), 2)
	ver := func(st *State) *Term {
		for _, l := range st.lits {
			t := l
			if t.op == ONot {
				t = t.args[0]
			}
			if t.op == OPred && t.name == "ecverify" {
				return t
			}
		}
		return nil
	}
	for _, x := range xs {
		y, n := fork(x.st, x.ret[0])
		pos := k.p.pos(x.pos)
		if y != nil && !y.dead {
			k.must(y, pubOK(y), pos, "secp256k1 can verify with a public key that does not parse")
			k.must(y, sigOK(y), pos, "secp256k1 can verify a signature that does not parse")
			v := ver(y)
			switch {
			case v == nil || y.decide(v) != 1:
				k.violate(pos, "secp256k1 can verify without asking the library").with(y)
			case !contains(v.args[0], mkApp("parsedsig", nil, y.canon(sig))) || !contains(v.args[2], mkAppR("pub.x", big0, nil, y.canon(pub))) || !contains(v.args[2], mkAppR("pub.y", big0, nil, y.canon(pub))):
				k.violate(pos, "secp256k1 verification asks the library about something other than the given key and signature: %s", v).with(y)
			default:
				k.equal(y, v.args[1], hashTerm("sha256", nil, y.canon(msg)), pos, "the hash checked by secp256k1 verification")
			}
		}
		if n != nil && !n.dead {
			z := n.clone()
			if z.assume(pubOK(z)) && z.assume(sigOK(z)) {
				if v := ver(z); (v == nil || z.decide(v) != -1) && !k.refute(z) {
					k.violate(pos, "secp256k1 can refuse although key and signature parse and the library was not asked or agreed").with(z)
				}
			}
		}
	}
}

// secpSign: the signature is the library's, of the SHA-256 of the message under the key's number.
func (k *Checker) secpSign(fn *ssa.Function, xs []Exit, key, msg *Term) {
	n := 0
	for _, x := range xs {
		if x.pan {
			continue
		}
		n++
		pos := k.p.pos(x.pos)
		v := x.st.canon(k.e.seqOf(x.st, x.ret[0]))
		a := wholeIn(x.st, v, "ecsigser")
		if a == nil {
			k.violate(pos, "the secp256k1 signature is %s, not the serialised signature of the library", v).with(x.st)
			continue
		}
		var sg *Term
		walkTerm(a, func(t *Term) {
			if t.op == OApp && t.name == "ecsig" {
				sg = t
			}
		})
		if sg == nil || !contains(sg.args[0], x.st.canon(beInt(x.st.canon(key)))) {
			k.violate(pos, "the secp256k1 signature is not made with the given key: %s", a).with(x.st)
			continue
		}
		k.equal(x.st, sg.args[1], hashTerm("sha256", nil, x.st.canon(msg)), pos, "the hash signed by secp256k1")
	}
	k.atLeast("ways secp256k1 signs", n, 1)
}

// walkTerm visits a term and everything in it.
func walkTerm(t *Term, f func(t *Term)) {
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.args {
			w(a)
		}
	}
	w(t)
}

// ---- S03 ----

func checkS03(k *Checker) {
	k.rule("Abstract interpretation of every decoder (an unregistered identifier contradicts success), of the registration function with an unconstrained registry (reserved identifiers, identifiers and names in use by a different algorithm contradict success), of algorithm identity, and of the registry's initial contents; plus a whole-program rule that nothing else writes the registry.")
	e := k.sigEngine(true)
	for _, d := range keyDecoders {
		k.checkDecoder(d, "registered")
	}
	// names: the same for a value and a pointer to it, different between built-ins, never empty
	type alg struct{ pkg, typ string }
	builtin := []alg{{"null", "null"}, {"ed25519", "ed25519"}, {"secp256k1", "secp256k1"}}
	k.setNullName()
	nameFn := k.anchor("pkg/signature", "NameOf")
	var nm []*Term
	var vals []*Term
	saved := e.opaque
	e.opaque = map[string]modelFn{}
	for _, a := range builtin {
		sp := k.p.ssa[modPath+"/pkg/signature/algorithms/"+a.pkg]
		var t types.Type
		if sp != nil {
			if m, ok := sp.Members[a.typ].(*ssa.Type); ok {
				t = m.Type()
			}
		}
		if t == nil || nameFn == nil {
			k.violate("pkg/signature/algorithms/"+a.pkg, "the type %s was not found", a.typ)
			continue
		}
		st := newState()
		v := mkIface(t, zeroOf(t))
		p := mkIface(types.NewPointer(t), e.alloc(st, t, zeroOf(t), a.typ))
		vals = append(vals, v)
		x1, ok1 := k.run(nameFn, st, []*Term{v})
		x2, ok2 := k.run(nameFn, st.clone(), []*Term{p})
		if !ok1 || !ok2 || len(x1) != 1 || len(x2) != 1 {
			k.violate(k.p.pos(nameFn.Pos()), "the name of %s is not determined", a.typ)
			continue
		}
		k.equal(x2[0].st, x2[0].ret[0], x1[0].ret[0], k.p.pos(x2[0].pos), "the name of a pointer to "+a.typ)
		c, ok := seqConst(x1[0].ret[0])
		if !ok || c == "" {
			k.violate(k.p.pos(x1[0].pos), "the name of %s is empty or unknown", a.typ)
		}
		for i, o := range nm {
			if o == x1[0].ret[0] {
				k.violate(k.p.pos(x1[0].pos), "%s and %s have the same name %q", builtin[i].typ, a.typ, c)
			}
		}
		nm = append(nm, x1[0].ret[0])
	}
	e.opaque = saved
	if len(nm) == 3 && nm[0] != k.nullName {
		k.violate(k.p.pos(nameFn.Pos()), "the absent algorithm is not the null algorithm")
	}
	k.clearObs()
	k.registryInit(vals, nm)
	k.registerContract()
	k.identity()
	k.registryWriters()
}

// registryInit reads the registry's contents after package initialisation.
func (k *Checker) registryInit(vals, names []*Term) {
	e := k.e
	// interpret the package initialisation with the maps tracked
	for _, q := range []struct{ key, val string }{{"pkg/signature.AlgorithmID", "pkg/signature.Algorithm"}, {"string", "pkg/signature.AlgorithmID"}} {
		got := e.initMaps[q.key+"->"+q.val]
		if got == nil {
			k.violate("pkg/signature", "the initial contents of the map from %s to %s are not determined", q.key, q.val)
			continue
		}
		k.count("initial_registry_entries", len(got)/2)
		if len(got) != 6 {
			k.violate("pkg/signature", "the map from %s to %s has %d initial entries instead of 3", q.key, q.val, len(got)/2)
		}
		find := func(key *Term) *Term {
			for i := 0; i+1 < len(got); i += 2 {
				if got[i] == key {
					return got[i+1]
				}
			}
			return nil
		}
		for i := range vals {
			if q.key == "string" {
				if v := find(names[i]); v != mkInt(int64(i)) {
					k.violate("pkg/signature", "the built-in algorithm %s is registered under %v instead of %d", names[i], v, i)
				}
			} else if v := find(mkInt(int64(i))); v == nil || v.op != OIface || !types.Identical(v.typ, vals[i].typ) {
				k.violate("pkg/signature", "identifier %d does not belong to %s", i, names[i])
			}
		}
	}
}

// registerContract: what RegisterAlgorithm accepts.
func (k *Checker) registerContract() {
	e := k.e
	fn := k.anchor("pkg/signature", "RegisterAlgorithm")
	if fn == nil {
		return
	}
	idMap := k.mapBase("pkg/signature", "pkg/signature.AlgorithmID", "pkg/signature.Algorithm")
	names := k.mapBase("pkg/signature", "string", "pkg/signature.AlgorithmID")
	st := newState()
	args := k.symArgs(fn)
	id, al := args[0], args[1]
	// the registry before the call: the null algorithm is known under its name and identifier 0
	st.assume(mkPred("mapok", names, k.nullName))
	st.assume(mkEqInt(k.algID(names, k.nullName), t0))
	xs, ok := k.run(fn, st, args)
	if !ok {
		return
	}
	good, bad := k.splitErr(xs, 0)
	k.atLeast("ways RegisterAlgorithm succeeds", len(good), 1)
	for _, x := range good {
		pos := k.p.pos(x.pos)
		k.must(x.st, mkLe(mkInt(128), id), pos, "an identifier below 128 can be registered")
		k.must(x.st, mkNot(e.isNil(al)), pos, "a nil algorithm can be registered")
		name := nameOf_(al)
		k.must(x.st, mkLe(t1, seqLen(name)), pos, "an algorithm without a name can be registered")
		// neither the identifier nor the name belongs to a different algorithm
		z := x.st.clone()
		if z.assume(mkPred("mapok", idMap, id)) {
			old := mkApp("mapget", k.namedType("pkg/signature", "Algorithm"), idMap, id)
			k.must(z, mkSeqEq(z.canon(nameOf_(old)), z.canon(name)), pos, "an identifier in use by a different algorithm can be taken over")
		}
		z = x.st.clone()
		if z.assume(mkPred("mapok", names, z.canon(name))) {
			old := k.algID(names, z.canon(name))
			k.must(z, mkEqInt(old, id), pos, "a name in use by a different algorithm can be taken over")
		}
		// it is entered under its own identifier
		in := false
		for _, ev := range x.st.events {
			if ev.kind == "mapwrite" && len(ev.args) == 3 && x.st.eqVal(ev.args[1], id, 0) == 1 && stripNew(ev.args[2]) == al {
				in = true
			}
		}
		if !in {
			k.violate(pos, "RegisterAlgorithm succeeds without entering the algorithm under its identifier").with(x.st)
		}
		if !k.nameEntered(x.st, id, al) {
			k.violate(pos, "RegisterAlgorithm succeeds without making the identifier known under the algorithm's name").with(x.st)
		}
		k.count("facts", 1)
	}
	for _, x := range bad {
		for _, ev := range x.st.events {
			if strings.HasSuffix(ev.kind, "mapwrite") {
				k.violate(ev.pos, "the registry is changed although registration fails").with(x.st)
			}
		}
		k.count("facts", 1)
	}
	k.noPanics(nil)
}

// nameEntered: the name leads to the identifier, by a direct entry or by entering every algorithm of a map that holds it.
func (k *Checker) nameEntered(st *State, id, al *Term) bool {
	for _, ev := range st.events {
		if len(ev.args) != 3 || !strings.HasSuffix(ev.kind, "mapwrite") {
			continue
		}
		key, val := st.canon(ev.args[1]), st.canon(ev.args[2])
		if ev.kind == "mapwrite" && st.eqVal(val, id, 0) == 1 && st.eqVal(key, nameOf_(al), 0) == 1 {
			return true
		}
		if ev.kind == "repeat:mapwrite" {
			var next, alg *Term
			if val.op == OApp && len(val.args) == 1 && val.args[0].op == OApp && val.args[0].name == "next" {
				next = val.args[0]
			}
			if next == nil {
				continue
			}
			if a := wholeIn(st, key, "nameof"); a != nil {
				alg = a.args[0]
			}
			r := k.e.materialize(next, next.typ)
			if ev.in != nil && r.op == OTuple && len(r.args) == 3 && contains(next.args[0], al) && ev.in.eqVal(r.args[1], id, 0) == 1 && ev.in.eqVal(ev.args[1], nameOf_(al), 0) == 1 {
				return true // the step at the identifier itself, having looked the algorithm up
			}
			if alg == nil || r.op != OTuple || len(r.args) != 3 || stripNew(r.args[2]) != alg || r.args[1] != val || key != st.canon(nameOf_(alg)) {
				continue
			}
			if contains(next.args[0], al) || contains(next.args[0], stripNew(al)) {
				return true
			}
		}
	}
	return false
}

// identity: SameAlgorithm compares identifiers, found under the algorithm's name.
func (k *Checker) identity() {
	e := k.e
	fn := k.anchor("pkg/signature", "SameAlgorithm")
	if fn == nil {
		return
	}
	names := k.mapBase("pkg/signature", "string", "pkg/signature.AlgorithmID")
	st := newState()
	args := k.symArgs(fn)
	st.assume(mkPred("mapok", names, k.nullName))
	st.assume(mkEqInt(k.algID(names, k.nullName), t0))
	xs, ok := k.run(fn, st, args)
	if !ok {
		return
	}
	for i := range args {
		a := args[i]
		xs = k.splitOn(xs, func(*State) *Term { return e.isNil(a) })
	}
	for _, x := range xs {
		y, n := fork(x.st, x.ret[0])
		pos := k.p.pos(x.pos)
		lits := func(st *State) []*Term {
			var ids, out []*Term
			for _, a := range args {
				if st.decide(e.isNil(a)) == 1 {
					ids = append(ids, t0)
					continue
				}
				nm := st.canon(nameOf_(a))
				out = append(out, mkLe(t1, seqLen(nm)), mkPred("mapok", names, nm))
				ids = append(ids, k.algID(names, nm))
			}
			return append(out, mkEqInt(ids[0], ids[1]))
		}
		if y != nil && !y.dead {
			for _, l := range lits(y) {
				k.must(y, l, pos, "SameAlgorithm can answer true for algorithms not registered under the same identifier")
			}
		}
		if n != nil && !n.dead {
			z := n.clone()
			dead := false
			for i := range lits(z) {
				if !z.assume(lits(z)[i]) {
					dead = true
					break
				}
			}
			if !dead && !k.refute(z) {
				k.violate(pos, "SameAlgorithm can answer false for algorithms registered under the same identifier").with(z)
			}
		}
	}
	k.noPanics(nil)
}

// registryWriters: only initialisation and RegisterAlgorithm reach a write to the registry maps.
func (k *Checker) registryWriters() {
	isReg := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		if !ok {
			return false
		}
		s := shortFn(types.TypeString(m.Key(), nil)) + "->" + shortFn(types.TypeString(m.Elem(), nil))
		return s == "pkg/signature.AlgorithmID->pkg/signature.Algorithm" || s == "string->pkg/signature.AlgorithmID"
	}
	writers := map[*ssa.Function]string{}
	for _, fn := range k.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					if isReg(x.Map.Type()) {
						writers[fn] = k.p.pos(x.Pos())
					}
				case *ssa.Store:
					if _, ok := x.Addr.(*ssa.Global); ok && isReg(x.Val.Type()) {
						writers[fn] = k.p.pos(x.Pos())
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") && len(x.Call.Args) > 0 && isReg(x.Call.Args[0].Type()) {
						writers[fn] = k.p.pos(x.Pos())
					}
				}
			}
		}
	}
	k.count("functions_writing_the_registry", len(writers))
	k.atLeast("functions that write the registry", len(writers), 1)
	cg := k.callGraph()
	for _, fn := range k.p.funcs {
		if fn.Synthetic != "" || !isExportedFn(fn) || fn.Name() == "RegisterAlgorithm" && fn.Pkg != nil && fn.Pkg.Pkg.Path() == sigPkg {
			continue
		}
		for g, via := range cg.reach(fn, func(g *ssa.Function) bool {
			return g.Pkg != nil && g.Pkg.Pkg.Path() == sigPkg && g.Name() == "RegisterAlgorithm"
		}) {
			if pos, ok := writers[g]; ok {
				k.violate(pos, "the registry of algorithms is written here, reachable from %s through %s", shortFn(fn.String()), shortFn(via))
			}
		}
	}
}

// ---- S04 ----

func checkS04(k *Checker) {
	k.rule("Abstract interpretation of AddChecksum for each residue of the message length modulo 5, and of CheckChecksum for each residue of the length and each of the 256 width bytes, with otherwise unconstrained bytes: the produced frame and the accepted frames must be exactly the documented ones. Text decoders must require the checksum.")
	e := k.sigEngine(false)
	if fn := k.anchor("pkg/signature", "AddChecksum"); fn != nil {
		for r := int64(0); r < 5; r++ {
			st := newState()
			args := k.symArgs(fn)
			m := e.seqOf(st, args[0])
			q := mkSymR("q", nil, big0, maxLen)
			st.assume(mkEqInt(seqLen(m), tAddI(tScale(q, big.NewInt(5)), r)))
			w := (5 - (r+1)%5) % 5
			if w < 3 {
				w += 5
			}
			xs, ok := k.run(fn, st, args)
			if !ok {
				return
			}
			k.atLeast("ways AddChecksum ends", len(xs), 1)
			for _, x := range xs {
				h := hashTerm("sha224", nil, x.st.canon(m))
				want := mkSeq(mkElem(mkInt(w), true), m, e.subSeq(x.st, h, mkInt(28-w), mkInt(w)))
				k.equal(x.st, e.seqOf(x.st, x.ret[0]), want, k.p.pos(x.pos), fmt.Sprintf("the checksummed form of a message of length 5q+%d", r))
				k.equal(x.st, e.seqOf(x.st, args[0]), m, k.p.pos(x.pos), "the message given to AddChecksum")
			}
			k.noPanics(nil)
		}
	}
	if fn := k.anchor("pkg/signature", "CheckChecksum"); fn != nil {
		for r := int64(0); r < 5; r++ {
			for w := int64(-1); w < 256; w++ {
				st := newState()
				args := k.symArgs(fn)
				s := e.seqOf(st, args[0])
				q := mkSymR("q", nil, big0, maxLen)
				st.assume(mkEqInt(seqLen(s), tAddI(tScale(q, big.NewInt(5)), r)))
				if w < 0 {
					if r != 0 || !st.assume(mkEqInt(seqLen(s), t0)) {
						continue
					}
				} else {
					if !st.assume(mkLe(t1, seqLen(s))) {
						continue
					}
					st.assume(mkEqInt(k.at(st, s, t0), mkInt(w)))
				}
				xs, ok := k.run(fn, st, args)
				if !ok {
					return
				}
				possible := r == 0 && w >= 3 && w <= 7
				for _, x := range xs {
					y, n := fork(x.st, x.ret[1])
					pos := k.p.pos(x.pos)
					k.count("facts", 1)
					conds := func(st *State) []*Term {
						L := seqLen(st.canon(s))
						fits := mkLe(mkInt(1+w), L)
						if st.decide(fits) != 1 {
							return []*Term{fits, fits}
						}
						m := e.subSeq(st, s, t1, tAddI(L, -1-w))
						h := hashTerm("sha224", nil, st.canon(m))
						return []*Term{fits, mkSeqEq(st.canon(e.subSeq(st, s, tAddI(L, -w), mkInt(w))), st.canon(e.subSeq(st, h, mkInt(28-w), mkInt(w))))}
					}
					if y != nil && !y.dead {
						if !possible {
							k.violate(pos, "CheckChecksum can accept a width byte %d on a length of 5q+%d", w, r).with(y)
							continue
						}
						for i := range conds(y) {
							k.must(y, conds(y)[i], pos, fmt.Sprintf("CheckChecksum can accept width %d without a matching checksum", w))
						}
						L := seqLen(y.canon(s))
						k.equal(y, e.seqOf(y, x.ret[0]), e.subSeq(y, s, t1, tAddI(L, -1-w)), pos, "the message CheckChecksum returns")
					}
					if n != nil && !n.dead && possible {
						z := n.clone()
						dead := false
						for i := range conds(z) {
							if !z.assume(conds(z)[i]) {
								dead = true
								break
							}
						}
						if !dead && !k.refute(z) {
							k.violate(pos, "CheckChecksum can refuse an intact message with width %d", w).with(z)
						}
					}
				}
				k.noPanics(nil)
			}
		}
	}
	k.sigEngine(true)
	for _, d := range keyDecoders {
		if d.text != "-" {
			k.checkDecoder(d, "checksum")
		}
	}
}

// ---- S07 ----

func checkS07(k *Checker) {
	k.rule("Abstract interpretation of text encoding, text decoding and ParseKey with unconstrained input: encoded text is the kind's prefix followed by the base32 of the checksummed encoding; decoding success requires the kind's own prefix; ParseKey yields a private key exactly for npvt text, a public key exactly for npub text, and an error otherwise.")
	e := k.sigEngine(true)
	for _, d := range keyDecoders {
		if d.text == "npub" || d.text == "npvt" {
			k.checkDecoder(d, "prefix")
		}
	}
	k.setNullName()
	names := k.mapBase("pkg/signature", "string", "pkg/signature.AlgorithmID")
	idMap := k.mapBase("pkg/signature", "pkg/signature.AlgorithmID", "pkg/signature.Algorithm")
	for _, t := range []struct{ typ, prefix string }{{"PublicKey", "npub"}, {"PrivateKey", "npvt"}, {"Signature", ""}} {
		for _, m := range []string{"MarshalText", "MarshalString"} {
			recv := "(" + t.typ + ")."
			if m == "MarshalString" {
				recv = "(*" + t.typ + ")."
			}
			fn := k.anchor("pkg/signature", recv+m)
			if fn == nil {
				continue
			}
			st := newState()
			args := k.symArgs(fn)
			obj := args[0]
			if m == "MarshalString" {
				st.assume(mkNot(e.isNil(args[0])))
				obj = k.deref(st, args[0], fn, 0)
			}
			xs, ok := k.run(fn, st, args)
			if !ok {
				return
			}
			good, bad := k.splitErr(xs, 1)
			cut := func(st *State) *Term {
				v := obj
				for v.op == OStruct && len(v.args) == 1 {
					v = v.args[0]
				}
				return e.isNil(v.args[0])
			}
			good, bad = k.splitOn(good, cut), k.splitOn(bad, cut)
			k.exactlyF(fn, good, bad, func(st *State) []named {
				c, _ := k.marshalSpec(st, t.typ, obj, idMap, names)
				return c
			})
			for _, x := range good {
				_, out := k.marshalSpec(x.st, t.typ, obj, idMap, names)
				want := mkSeq(mkLit(t.prefix), strAtom("b32enc", specEnc(), addck(x.st.canon(out))))
				k.equal(x.st, e.seqOf(x.st, x.ret[0]), want, k.p.pos(x.pos), "the text produced by "+recv+m)
			}
			k.noPanics(nil)
		}
	}
	if fn := k.anchor("pkg/signature", "ParseKey"); fn != nil {
		st := newState()
		args := k.symArgs(fn)
		text := e.seqOf(st, args[0])
		xs, ok := k.run(fn, st, args)
		if !ok {
			return
		}
		good, bad := k.splitErr(xs, 1)
		pre := func(st *State, p string) *Term {
			return mkAnd(mkLe(mkInt(4), seqLen(st.canon(text))), mkSeqEq(st.canon(e.subSeq(st, text, t0, mkInt(4))), mkLit(p)))
		}
		k.atLeast("ways ParseKey succeeds", len(good), 2)
		kinds := map[string]bool{}
		for _, x := range good {
			v := x.ret[0]
			p, spec := "", decoderSpec{}
			if v.op == OIface {
				switch shortFn(types.TypeString(v.typ, nil)) {
				case "*pkg/signature.PublicKey":
					p, spec = "npub", decoderSpec{"ParseKey", false, "npub", false, "PublicKey"}
				case "*pkg/signature.PrivateKey":
					p, spec = "npvt", decoderSpec{"ParseKey", false, "npvt", false, "PrivateKey"}
				}
			}
			if p == "" {
				k.violate(k.p.pos(x.pos), "ParseKey can succeed with something that is neither a public nor a private key: %s", v).with(x.st)
				continue
			}
			kinds[p] = true
			k.must(x.st, pre(x.st, p), k.p.pos(x.pos), "ParseKey can yield this kind of key for text that does not start with "+p)
			for _, z := range k.splitOn([]Exit{x}, func(st *State) *Term { _, q := k.decodeConds(st, spec, text, idMap); return q.notEmpty }) {
				cs, _ := k.decodeConds(z.st, spec, text, idMap)
				for _, c := range cs {
					k.must(z.st, c.lit, k.p.pos(z.pos), "ParseKey can succeed without: "+c.name)
				}
			}
		}
		if len(kinds) != 2 {
			k.violate(k.p.pos(fn.Pos()), "ParseKey does not yield both kinds of key")
		}
		for _, x := range bad {
			for _, spec := range []decoderSpec{{"ParseKey", false, "npub", false, "PublicKey"}, {"ParseKey", false, "npvt", false, "PrivateKey"}} {
				for _, z := range k.splitOn([]Exit{x}, func(st *State) *Term { _, q := k.decodeConds(st, spec, text, idMap); return q.notEmpty }) {
					s := z.st.clone()
					cs, _ := k.decodeConds(s, spec, text, idMap)
					dead := false
					for i := range cs {
						cs, _ = k.decodeConds(s, spec, text, idMap)
						if !s.assume(cs[i].lit) {
							dead = true
							break
						}
					}
					if !dead && !k.refute(s) {
						k.violate(k.p.pos(x.pos), "ParseKey can refuse well-formed %s text", spec.text).with(s)
					}
				}
			}
		}
		k.noPanics(nil)
	}
}

// ---- S08 ----

func checkS08(k *Checker) {
	k.rule("Abstract interpretation of Msgsize and MarshalMsg with unconstrained objects: on every success path of the encoder, the announced size is shown to be at least the length of the encoding by linear arithmetic over the lengths, using the size bounds of the message-pack primitives.")
	e := k.sigEngine(true)
	k.setNullName()
	for _, typ := range []string{"PublicKey", "PrivateKey", "Signature"} {
		enc, sz := k.anchor("pkg/signature", "("+typ+").MarshalMsg"), k.anchor("pkg/signature", "(*"+typ+").Msgsize")
		if enc == nil || sz == nil {
			continue
		}
		st := newState()
		p := k.sym("obj", sz.Params[0].Type())
		st.assume(mkNot(e.isNil(p)))
		obj := k.deref(st, p, sz, 0)
		sx, ok := k.run(sz, st, []*Term{p})
		if !ok {
			return
		}
		for _, s := range sx {
			xs, ok := k.run(enc, s.st, []*Term{obj, mkNil(nil)})
			if !ok {
				return
			}
			good, _ := k.splitErr(xs, 1)
			k.atLeast("ways of encoding a "+typ, len(good), 1)
			for _, x := range good {
				k.must(x.st, mkLe(seqLen(x.st.canon(e.seqOf(x.st, x.ret[0]))), s.ret[0]), k.p.pos(s.pos), "the announced size of a "+typ+" can be smaller than its encoding")
			}
		}
		k.noPanics(nil)
	}
	for _, typ := range []string{"IdentifiedData", "AlgorithmID"} {
		k.msgSize("pkg/signature", typ)
	}
}

// msgSize checks a generated message-pack pair.
func (k *Checker) msgSize(pkg, typ string) {
	e := k.e
	var enc, sz *ssa.Function
	for _, star := range []string{"*", ""} {
		if f := k.p.fn(pkg, "("+star+typ+").MarshalMsg"); f != nil && f.Synthetic == "" {
			enc = f
		}
		if f := k.p.fn(pkg, "("+star+typ+").Msgsize"); f != nil && f.Synthetic == "" {
			sz = f
		}
	}
	if enc == nil || sz == nil {
		k.violate(pkg, "the message encoder of %s was not found", typ)
		return
	}
	st := newState()
	recv := k.sym("obj", enc.Params[0].Type())
	szArg := recv
	_, encPtr := enc.Params[0].Type().Underlying().(*types.Pointer)
	_, szPtr := sz.Params[0].Type().Underlying().(*types.Pointer)
	if encPtr {
		st.assume(mkNot(e.isNil(recv)))
	}
	switch {
	case encPtr && !szPtr:
		szArg = k.deref(st, recv, enc, 0)
	case !encPtr && szPtr:
		szArg = e.alloc(st, sz.Params[0].Type().Underlying().(*types.Pointer).Elem(), recv, "obj")
	}
	sx, ok := k.run(sz, st, []*Term{szArg})
	if !ok {
		return
	}
	for _, s := range sx {
		xs, ok := k.run(enc, s.st, []*Term{recv, mkNil(nil)})
		if !ok {
			return
		}
		good, _ := k.splitErr(xs, 1)
		k.atLeast("ways of encoding "+typ, len(good), 1)
		for _, x := range good {
			k.must(x.st, mkLe(seqLen(x.st.canon(e.seqOf(x.st, x.ret[0]))), s.ret[0]), k.p.pos(s.pos), "the announced size of "+typ+" can be smaller than its encoding")
		}
	}
	k.clearObs()
}

func contains(t, want *Term) bool { return t.holds(want) }
