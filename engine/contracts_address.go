package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const specAlphabet = "abcdefghijkmnpqrstuvwxyz23456789"
const specKinds = "anexbm"

func init() {
	checks["A01"] = checkA01
	checks["A02"] = checkA02
	checks["A03"] = checkA03
	checks["A04"] = checkA04
	checks["A05"] = checkA05
	checks["B01"] = checkB01
	checks["B02"] = checkB02
}

// ---- specification terms ----

func specEnc() *Term { return mkApp("b32.Encoding", nil, mkLit(specAlphabet), mkInt('=')) }

// crcTable is the CRC-16/AUG-CCITT table of the checksum library.
func (k *Checker) crcTable() *Term {
	pk := k.p.prog.ImportedPackage("github.com/sigurn/crc16")
	if pk == nil || pk.Var("CRC16_AUG_CCITT") == nil {
		k.violate("pkg/b32", "the CRC-16/AUG-CCITT parameters of github.com/sigurn/crc16 are not part of the program")
		return mkSym("nocrc", nil)
	}
	st := newState()
	return mkApp("crc16table", nil, k.e.snap(st, k.e.load(st, k.e.globalPtr(pk.Var("CRC16_AUG_CCITT")))))
}

func (k *Checker) crc(data *Term) *Term {
	return mkAppR("crc16", big0, big.NewInt(65535), k.crcTable(), data)
}

// kindLit says that a byte is one of the six kinds.
func kindLit(b *Term) *Term {
	var ds []*Term
	for _, c := range specKinds {
		ds = append(ds, mkEqInt(b, mkInt(int64(c))))
	}
	return mkOr(ds...)
}

// addressSpec are the conditions for a text to be an address, and its canonical form.
func (k *Checker) addressSpec(st *State, text *Term) (conds func(st *State) []named, canon *Term) {
	low := toLower(st, text)
	return func(st *State) []named {
		low := st.canon(low)
		dec := bytesAtom("b32dec", specEnc(), low)
		body := k.e.subSeq(st, dec, t0, mkInt(28))
		ck := k.crc(body)
		return []named{
			{"the lower-case text has 48 characters", mkEqInt(seqLen(low), mkInt(48))},
			{"the third character is one of the six kinds", kindLit(k.at(st, low, mkInt(2)))},
			{"the text is base32", mkPred("b32ok", specEnc(), low)},
			{"it decodes to 30 bytes", mkEqInt(seqLen(dec), mkInt(30))},
			{"the first checksum byte matches", mkEqInt(k.at(st, dec, mkInt(28)), mkBits(ck, 8, 8))},
			{"the second checksum byte matches", mkEqInt(k.at(st, dec, mkInt(29)), mkBits(ck, 0, 8))},
		}
	}, low
}

// settle evaluates the conditions one after the other, so that later ones are simplified by earlier ones.
func (k *Checker) exactlyF(fn *ssa.Function, good, bad []Exit, f func(st *State) []named) {
	if len(good) == 0 {
		k.violate(k.p.pos(fn.Pos()), "%s has no path on which it succeeds", shortFn(fn.String()))
	}
	for _, x := range good {
		for _, c := range f(x.st) {
			k.count("facts", 1)
			if x.st.decide(c.lit) != 1 {
				k.violate(k.p.pos(x.pos), "%s can succeed here without: %s", shortFn(fn.String()), c.name).with(x.st)
			}
		}
	}
	for _, x := range bad {
		k.count("facts", 1)
		st := x.st.clone()
		n := len(f(st))
		dead := false
		for i := 0; i < n && !dead; i++ {
			if !st.assume(f(st)[i].lit) {
				dead = true
			}
		}
		if !dead && !k.refute(st) {
			k.violate(k.p.pos(x.pos), "%s can fail here although every condition for success holds", shortFn(fn.String())).with(st)
		}
	}
}

func (k *Checker) addrOf(st *State, v *Term) *Term {
	if v.op == OStruct && len(v.args) == 1 {
		return v.args[0]
	}
	return v
}

func emptyStr() *Term { return mkSeq() }

// ---- A01 ----

func checkA01(k *Checker) {
	k.rule("Abstract interpretation of Validate, (*Address).UnmarshalText and Address.Revalidate with an unconstrained text: every success exit must establish each documented condition, every error exit must contradict their conjunction, and every run-time panic condition on any path must be refuted.")
	e := k.e
	if fn := k.anchor("pkg/address", "Validate"); fn != nil {
		st := newState()
		args := k.symArgs(fn)
		conds, canon := k.addressSpec(st, e.seqOf(st, args[0]))
		if xs, ok := k.run(fn, st, args); ok {
			good, bad := k.splitErr(xs, 1)
			k.exactlyF(fn, good, bad, conds)
			for _, x := range good {
				k.equal(x.st, k.addrOf(x.st, x.ret[0]), canon, k.p.pos(x.pos), "the address returned by Validate")
			}
			k.noPanics(nil)
		}
	}
	if fn := k.anchor("pkg/address", "(*Address).UnmarshalText"); fn != nil {
		st := newState()
		args := k.symArgs(fn)
		st.assume(mkNot(e.isNil(args[0])))
		before := k.deref(st, args[0], fn, 0)
		conds, canon := k.addressSpec(st, e.seqOf(st, args[1]))
		if xs, ok := k.run(fn, st, args); ok {
			good, bad := k.splitErr(xs, 0)
			k.exactlyF(fn, good, bad, conds)
			for _, x := range good {
				k.equal(x.st, k.addrOf(x.st, k.deref(x.st, args[0], fn, 0)), canon, k.p.pos(x.pos), "the address decoded by UnmarshalText")
			}
			for _, x := range bad {
				k.equal(x.st, k.deref(x.st, args[0], fn, 0), before, k.p.pos(x.pos), "the address a rejected text was decoded into")
			}
			k.noPanics(nil)
		}
	}
	if fn := k.anchor("pkg/address", "(Address).Revalidate"); fn != nil {
		st := newState()
		args := k.symArgs(fn)
		conds, _ := k.addressSpec(st, e.seqOf(st, k.addrOf(st, args[0])))
		if xs, ok := k.run(fn, st, args); ok {
			good, bad := k.splitErr(xs, 0)
			k.exactlyF(fn, good, bad, conds)
			k.noPanics(nil)
		}
	}
}

// ---- A02 ----

func checkA02(k *Checker) {
	k.rule("Abstract interpretation of Generate for each of the 256 kind bytes with unconstrained data: for the six kinds, success exactly when the data has at least 12 bytes, with the documented 30 bytes encoded; for the others only errors, always with the empty address.")
	e := k.e
	fn := k.anchor("pkg/address", "Generate")
	if fn == nil {
		return
	}
	for kind := 0; kind < 256; kind++ {
		st := newState()
		args := k.symArgs(fn)
		args[0] = mkInt(int64(kind))
		data := e.seqOf(st, args[1])
		xs, ok := k.run(fn, st, args)
		if !ok {
			return
		}
		good, bad := k.splitErr(xs, 1)
		for _, x := range bad {
			k.equal(x.st, k.addrOf(x.st, x.ret[0]), emptyStr(), k.p.pos(x.pos), "the address returned with an error")
		}
		if !strings.ContainsRune(specKinds, rune(kind)) || kind == 0 {
			for _, x := range good {
				k.violate(k.p.pos(x.pos), "Generate can succeed for the invalid kind %q", rune(kind))
			}
			k.noPanics(nil)
			continue
		}
		k.exactlyF(fn, good, bad, func(st *State) []named {
			return []named{{"the data has at least 12 bytes", mkLe(mkInt(12), seqLen(data))}}
		})
		for _, x := range good {
			h := hashTerm("sha256", nil, x.st.canon(data))
			hdr := strings.Index(specAlphabet, "n")<<11 | strings.Index(specAlphabet, "d")<<6 | strings.IndexByte(specAlphabet, byte(kind))<<1
			body := mkSeq(mkElem(mkInt(int64(hdr>>8)), true), mkElem(mkInt(int64(hdr&255)), true), e.subSeq(x.st, h, mkInt(6), mkInt(26)))
			ck := k.crc(body)
			whole := mkSeq(body, mkElem(mkBits(ck, 8, 8), true), mkElem(mkBits(ck, 0, 8), true))
			k.equal(x.st, k.addrOf(x.st, x.ret[0]), strAtom("b32enc", specEnc(), whole), k.p.pos(x.pos), "the text of the generated address")
		}
		k.noPanics(nil)
	}
}

// ---- A03 ----

func checkA03(k *Checker) {
	k.rule("IsValidKind is evaluated for all 256 bytes; ParseKind is interpreted abstractly with an unconstrained value of every dynamic type: each success exit must establish that the result is one of the six kinds, and every panic condition must be refuted.")
	if fn := k.anchor("pkg/address", "IsValidKind"); fn != nil {
		for b := 0; b < 256; b++ {
			xs, ok := k.run(fn, newState(), []*Term{mkInt(int64(b))})
			if !ok {
				return
			}
			want := mkBool(b != 0 && strings.ContainsRune(specKinds, rune(b)))
			for _, x := range xs {
				if x.st.canon(x.ret[0]) != want {
					k.violate(k.p.pos(x.pos), "IsValidKind(%q) is not %s", rune(b), want)
				}
				k.count("facts", 1)
			}
		}
		k.noPanics(nil)
	}
	if fn := k.anchor("pkg/address", "ParseKind"); fn != nil {
		xs, ok := k.run(fn, newState(), k.symArgs(fn))
		if !ok {
			return
		}
		good, _ := k.splitErr(xs, 1)
		k.atLeast("ways ParseKind succeeds", len(good), 1)
		for _, x := range good {
			k.must(x.st, kindLit(x.ret[0]), k.p.pos(x.pos), "ParseKind succeeds with a byte that may not be a valid kind")
		}
		k.noPanics(nil)
	}
}

// ---- A04 ----

func checkA04(k *Checker) {
	k.rule("Whole-program rule: only Validate, Generate, UnmarshalText and the message decoders may reach a place that sets the text of an address. Those are interpreted abstractly: the text they set is the lower-case form of the accepted text, the direct output of the encoder, or empty with an error. String and MarshalText return exactly that text.")
	e := k.e
	allowed := map[string]bool{"Validate": true, "Generate": true, "(*Address).UnmarshalText": true, "(*Address).DecodeMsg": true, "(*Address).UnmarshalMsg": true}
	at := k.namedType("pkg/address", "Address")
	if at == nil {
		return
	}
	setters := map[*ssa.Function]string{}
	for _, fn := range k.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || !sameNamed(fa.X.Type(), at) {
						continue
					}
					if c, ok := x.Val.(*ssa.Const); ok && (c.Value == nil || c.Value.ExactString() == `""`) {
						continue
					}
					setters[fn] = k.p.pos(x.Pos())
				case *ssa.FieldAddr:
					if sameNamed(x.X.Type(), at) && escapes(x) {
						setters[fn] = k.p.pos(x.Pos())
					}
				case *ssa.ChangeType:
					if sameNamed(x.Type(), at) && !sameNamed(x.X.Type(), at) {
						setters[fn] = k.p.pos(x.Pos())
					}
				}
			}
		}
	}
	k.count("functions_setting_address_text", len(setters))
	k.atLeast("functions that set the text of an address", len(setters), 2)
	cg := k.callGraph()
	for _, fn := range k.p.funcs {
		if fn.Synthetic != "" || !isExportedFn(fn) {
			continue
		}
		k.count("exported_functions", 1)
		if fn.Pkg != nil && fn.Pkg.Pkg == at.Obj().Pkg() && allowed[fn.RelString(fn.Pkg.Pkg)] {
			continue
		}
		hit := cg.reach(fn, func(g *ssa.Function) bool {
			return g.Pkg != nil && g.Pkg.Pkg == at.Obj().Pkg() && allowed[g.RelString(g.Pkg.Pkg)]
		})
		for g, via := range hit {
			if pos, ok := setters[g]; ok {
				k.violate(pos, "the text of an address is set here by %s, reachable from %s without passing validation or generation", shortFn(via), shortFn(fn.String()))
			}
		}
	}
	// what the allowed ones produce
	if fn := k.anchor("pkg/address", "Validate"); fn != nil {
		st := newState()
		args := k.symArgs(fn)
		low := toLower(st, e.seqOf(st, args[0]))
		if xs, ok := k.run(fn, st, args); ok {
			good, bad := k.splitErr(xs, 1)
			for _, x := range good {
				k.equal(x.st, k.addrOf(x.st, x.ret[0]), low, k.p.pos(x.pos), "the address returned by Validate")
			}
			for _, x := range bad {
				k.equal(x.st, k.addrOf(x.st, x.ret[0]), emptyStr(), k.p.pos(x.pos), "the address returned with an error")
			}
		}
	}
	if fn := k.anchor("pkg/address", "(*Address).UnmarshalText"); fn != nil {
		st := newState()
		args := k.symArgs(fn)
		st.assume(mkNot(e.isNil(args[0])))
		before := k.deref(st, args[0], fn, 0)
		low := toLower(st, e.seqOf(st, args[1]))
		if xs, ok := k.run(fn, st, args); ok {
			good, bad := k.splitErr(xs, 0)
			for _, x := range good {
				k.equal(x.st, k.addrOf(x.st, k.deref(x.st, args[0], fn, 0)), low, k.p.pos(x.pos), "the address decoded by UnmarshalText")
			}
			for _, x := range bad {
				k.equal(x.st, k.deref(x.st, args[0], fn, 0), before, k.p.pos(x.pos), "the address after a rejected text")
			}
		}
	}
	if fn := k.anchor("pkg/address", "Generate"); fn != nil {
		for i, c := range specKinds {
			st := newState()
			args := k.symArgs(fn)
			args[0] = mkInt(int64(specKinds[i]))
			if xs, ok := k.run(fn, st, args); ok {
				good, _ := k.splitErr(xs, 1)
				for _, x := range good {
					v := x.st.canon(k.addrOf(x.st, x.ret[0]))
					a := wholeIn(x.st, v, "b32enc")
					if a == nil || a.args[0] != specEnc() {
						k.violate(k.p.pos(x.pos), "the address generated for kind %c is %s, not the direct output of the encoder", c, v).with(x.st)
					}
					k.count("facts", 1)
				}
			}
		}
	}
	for _, n := range []string{"(Address).String", "(Address).MarshalText"} {
		if fn := k.anchor("pkg/address", n); fn != nil {
			st := newState()
			args := k.symArgs(fn)
			if xs, ok := k.run(fn, st, args); ok {
				for _, x := range xs {
					k.equal(x.st, e.seqOf(x.st, x.ret[0]), e.seqOf(x.st, k.addrOf(x.st, args[0])), k.p.pos(x.pos), "the text printed by "+n)
					if len(x.ret) > 1 {
						k.must(x.st, e.isNil(x.ret[1]), k.p.pos(x.pos), "MarshalText fails")
					}
				}
			}
		}
	}
	k.clearObs()
}

// ---- A05 ----

func checkA05(k *Checker) {
	k.rule("The exact acceptance condition of Validate is established by abstract interpretation, as for A01. Under it, accepted texts are the code words of a code that is linear up to a constant: the syndrome of each of the 48 x 31 differences of a single 5-bit character is computed from the polynomial 0x1021 of that checksum and must be non-zero.")
	e := k.e
	fn := k.anchor("pkg/address", "Validate")
	if fn == nil {
		return
	}
	st := newState()
	args := k.symArgs(fn)
	conds, _ := k.addressSpec(st, e.seqOf(st, args[0]))
	xs, ok := k.run(fn, st, args)
	if !ok {
		return
	}
	good, bad := k.splitErr(xs, 1)
	k.exactlyF(fn, good, bad, conds)
	k.clearObs()
	const poly = 0x1021 // CRC-16/AUG-CCITT, unreflected, which the condition above names
	for i := 0; i < 48; i++ {
		for d := 1; d < 32; d++ {
			var w [30]byte
			for b := 0; b < 5; b++ {
				if d>>(4-b)&1 == 1 {
					at := 5*i + b
					w[at/8] |= 0x80 >> (at % 8)
				}
			}
			r := 0
			for _, c := range w[:28] {
				r ^= int(c) << 8
				for b := 0; b < 8; b++ {
					if r <<= 1; r&0x10000 != 0 {
						r ^= 0x10000 | poly
					}
				}
			}
			k.count("single_character_differences", 1)
			if r == int(w[28])<<8|int(w[29]) {
				k.violate("pkg/address", "changing character %d by %05b is not detected by the checksum", i, d)
			}
		}
	}
}

// escapes says whether the address of a field is used other than for loading from or storing to it.
func escapes(fa *ssa.FieldAddr) bool {
	for _, r := range *fa.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if x.Val == fa {
				return true
			}
		default:
			return true
		}
	}
	return false
}

func sameNamed(t types.Type, n *types.Named) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	m, ok := types.Unalias(t).(*types.Named)
	return ok && m.Obj() == n.Obj()
}

// ---- B01 ----

func checkB01(k *Checker) {
	k.rule("The alphabet is read off the encoder's term and checked for 32 distinct lower-case characters without l, 1, 0, o; Encode, Decode and Index are interpreted abstractly and must use that alphabet with '=' padding; Index is evaluated for all 256 single bytes; every construction of a base32 encoding in the program must use the same alphabet.")
	e := k.e
	alpha := ""
	if fn := k.anchor("pkg/b32", "Encode"); fn != nil {
		st := newState()
		args := k.symArgs(fn)
		if xs, ok := k.run(fn, st, args); ok {
			for _, x := range xs {
				v := x.st.canon(x.ret[0])
				a := wholeIn(x.st, v, "b32enc")
				if a == nil {
					k.violate(k.p.pos(x.pos), "Encode returns %s, not the base32 encoding of its input", v)
					continue
				}
				alpha, _ = seqConst(a.args[0].args[0])
				k.equal(x.st, v, strAtom("b32enc", mkApp("b32.Encoding", nil, mkLit(alpha), mkInt('=')), e.seqOf(x.st, args[0])), k.p.pos(x.pos), "the result of Encode")
			}
			k.noPanics(nil)
		}
	}
	seen := map[rune]bool{}
	for _, c := range alpha {
		if seen[c] {
			k.violate("pkg/b32", "the alphabet %q contains %q twice", alpha, c)
		}
		seen[c] = true
		if !(c >= 'a' && c <= 'z' || c >= '0' && c <= '9') || strings.ContainsRune("l10o", c) {
			k.violate("pkg/b32", "the alphabet %q contains %q", alpha, c)
		}
	}
	if len(alpha) != 32 {
		k.violate("pkg/b32", "the alphabet %q has %d characters", alpha, len(alpha))
	}
	enc := mkApp("b32.Encoding", nil, mkLit(alpha), mkInt('='))
	if fn := k.anchor("pkg/b32", "Decode"); fn != nil {
		st := newState()
		args := k.symArgs(fn)
		low := toLower(st, e.seqOf(st, args[0]))
		if xs, ok := k.run(fn, st, args); ok {
			good, bad := k.splitErr(xs, 1)
			k.exactlyF(fn, good, bad, func(st *State) []named {
				return []named{{"the decoder accepts the lower-case text", mkPred("b32ok", enc, low)}}
			})
			for _, x := range good {
				k.equal(x.st, e.seqOf(x.st, x.ret[0]), bytesAtom("b32dec", enc, low), k.p.pos(x.pos), "the result of Decode")
			}
			k.noPanics(nil)
		}
	}
	if fn := k.anchor("pkg/b32", "Index"); fn != nil {
		for b := 0; b < 256; b++ {
			c := string([]byte{byte(b)})
			xs, ok := k.run(fn, newState(), []*Term{mkLit(c)})
			if !ok {
				return
			}
			for _, x := range xs {
				k.equal(x.st, x.ret[0], mkInt(int64(strings.Index(alpha, c))), k.p.pos(x.pos), "the index of the one-byte text "+c)
			}
		}
		k.noPanics(nil)
	}
	n := 0
	for _, fn := range k.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok {
					if g, ok := u.X.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "encoding/base32" {
						k.violate(k.p.pos(in.Pos()), "%s uses the alphabet of base32.%s", shortFn(fn.String()), g.Name())
					}
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := ci.Common().StaticCallee()
				if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "encoding/base32" {
					continue
				}
				if f.Name() == "NewEncoding" {
					n++
				}
			}
		}
	}
	k.count("base32_encodings_built", n)
	k.atLeast("places that build a base32 encoding", n, 1)
	// every exported user of base32 was interpreted above or uses this package
	for _, fn := range k.p.funcs {
		if fn.Pkg == nil || strings.HasSuffix(fn.Pkg.Pkg.Path(), "/pkg/b32") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "encoding/base32" && f.Name() == "NewEncoding" {
						c, ok := ci.Common().Args[0].(*ssa.Const)
						if !ok || c.Value == nil || constTerm(c) != mkLit(alpha) {
							k.violate(k.p.pos(in.Pos()), "%s builds a base32 encoding that is not known to use the shared alphabet", shortFn(fn.String()))
						}
					}
				}
			}
		}
	}
}

// ---- B02 ----

func checkB02(k *Checker) {
	k.rule("Abstract interpretation of Checksum16, Check and Checksum24 with unconstrained bytes: the results must be the big-endian CRC-16/AUG-CCITT, exact equality of both bytes, and the first three bytes of the SHA-256.")
	e := k.e
	if fn := k.anchor("pkg/b32", "Checksum16"); fn != nil {
		st := newState()
		args := k.symArgs(fn)
		if xs, ok := k.run(fn, st, args); ok {
			for _, x := range xs {
				ck := k.crc(e.seqOf(x.st, args[0]))
				k.equal(x.st, e.seqOf(x.st, x.ret[0]), mkSeq(mkElem(mkBits(ck, 8, 8), true), mkElem(mkBits(ck, 0, 8), true)), k.p.pos(x.pos), "the checksum")
			}
			k.noPanics(nil)
		}
	}
	if fn := k.anchor("pkg/b32", "Check"); fn != nil {
		st := newState()
		args := k.symArgs(fn)
		given := e.seqOf(st, args[1])
		st.assume(mkEqInt(seqLen(given), mkInt(2)))
		ck := k.crc(e.seqOf(st, args[0]))
		if xs, ok := k.run(fn, st, args); ok {
			l := mkAnd(mkEqInt(k.at(st, given, t0), mkBits(ck, 8, 8)), mkEqInt(k.at(st, given, t1), mkBits(ck, 0, 8)))
			k.boolIs(fn, xs, 0, l, "Check")
			k.noPanics(nil)
		}
		// a value of another length is not the checksum of anything
		k.clearObs()
		st = newState()
		args = k.symArgs(fn)
		st.assume(mkNot(mkEqInt(seqLen(e.seqOf(st, args[1])), mkInt(2))))
		if xs, ok := k.run(fn, st, args); ok {
			k.boolIs(fn, xs, 0, tFalse, "Check of a value that is not two bytes long")
			k.noPanics(nil)
		}
	}
	if fn := k.anchor("pkg/b32", "Checksum24"); fn != nil {
		st := newState()
		args := k.symArgs(fn)
		if xs, ok := k.run(fn, st, args); ok {
			for _, x := range xs {
				h := hashTerm("sha256", nil, e.seqOf(x.st, args[0]))
				k.equal(x.st, e.seqOf(x.st, x.ret[0]), e.subSeq(x.st, h, t0, mkInt(3)), k.p.pos(x.pos), "the 24-bit checksum")
			}
			k.noPanics(nil)
		}
	}
}

// boolIs checks that a boolean result is exactly a condition.
func (k *Checker) boolIs(fn *ssa.Function, xs []Exit, i int, want *Term, what string) {
	for _, x := range xs {
		if x.pan {
			continue
		}
		y, n := fork(x.st, x.ret[i])
		k.count("facts", 2)
		if y != nil && !y.dead && y.decide(want) != 1 {
			k.violate(k.p.pos(x.pos), "%s can answer true here although its condition does not hold", what).with(y)
		}
		if n != nil && !n.dead {
			z := n.clone()
			if z.assume(want) && !k.refute(z) {
				k.violate(k.p.pos(x.pos), "%s can answer false here although its condition holds", what).with(z)
			}
		}
	}
}
