package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["F01"] = checkF01
	checks["F02"] = checkF02
}

// ---- operations behind the facade ----

// opArg is a value as an argument of an operation: what it refers to rather than where.
func (e *Engine) opArg(st *State, v *Term) *Term {
	switch v.op {
	case OSlice:
		return st.canon(e.seqOf(st, v))
	case OPtr, OFld, OIdx:
		return e.wholeOf(st.canon(e.snap(st, e.load(st, v))))
	case ONil:
		if _, ok := v.typ.(*types.Slice); ok {
			return mkSeq()
		}
	}
	return e.wholeOf(st.canon(e.snap(st, v)))
}

// wholeOf undoes the expansion of an opaque structure into its fields.
func (e *Engine) wholeOf(v *Term) *Term {
	if v.op != OStruct || len(v.args) == 0 {
		return v
	}
	var src *Term
	v.contains(func(x *Term) bool {
		if x.op == OApp && x.name == "f0" && len(x.args) == 1 && x.args[0].typ != nil {
			y := x.args[0]
			if _, ok := y.typ.Underlying().(*types.Struct); ok && e.snap(newState(), e.materialize(y, y.typ)) == v {
				src = y
			}
		}
		return src != nil
	})
	if src != nil {
		return src
	}
	return v
}

// operation makes the analysis treat a function as a deterministic operation on the content of its arguments,
// succeeding when a condition depending on them alone holds. With into, the operation fills in what its first
// argument refers to.
func (k *Checker) operation(pkg, fn, name string, into bool) {
	f := k.anchor(pkg, fn)
	if f == nil {
		return
	}
	k.e.opaque[f.String()] = func(e *Engine, c *callCtx) []Exit {
		var args []*Term
		for i, a := range c.args {
			switch a.op {
			case OPtr, OFld, OIdx:
			default:
				if _, isP := f.Params[i].Type().Underlying().(*types.Pointer); isP && c.st.decide(e.isNil(a)) != -1 {
					if !c.need(e, mkNot(e.isNil(a)), "nil dereference") {
						return nil
					}
				}
				if _, isP := f.Params[i].Type().Underlying().(*types.Pointer); isP {
					a = e.resolve(a, f.Params[i].Type().Underlying().(*types.Pointer).Elem())
				}
			}
			if i == 0 && into {
				continue
			}
			args = append(args, e.opArg(c.st, a))
		}
		var recv *Term
		var rt types.Type
		if into {
			rt = f.Params[0].Type().Underlying().(*types.Pointer).Elem()
			recv = e.resolve(c.args[0], rt)
		}
		res := f.Signature.Results()
		hasErr := res.Len() > 0 && isErrorType(res.At(res.Len()-1).Type())
		if k.onOperation != nil {
			k.onOperation(name, c, args)
		}
		give := func(st *State) []*Term {
			var out []*Term
			if into {
				e.store(st, recv, mkApp(name, rt, args...))
			}
			for i := 0; i < res.Len(); i++ {
				t := res.At(i).Type()
				if isErrorType(t) {
					out = append(out, mkNil(nil))
					continue
				}
				out = append(out, e.opResult(st, name, t, args))
			}
			return out
		}
		if !hasErr {
			return []Exit{{st: c.st, ret: give(c.st)}}
		}
		lit := k.opOK(c.st, name, args)
		return c.split(lit, give, func(st *State) []*Term {
			if into {
				e.store(st, recv, e.freshSym("failed", rt))
			}
			var out []*Term
			for i := 0; i < res.Len(); i++ {
				t := res.At(i).Type()
				if isErrorType(t) {
					out = append(out, mkErr(name, args...))
					continue
				}
				out = append(out, e.freshSym("failed", t))
			}
			return out
		})
	}
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// opOK is the condition under which an operation succeeds. Text that an extended key was written as is read back as
// that key (decided by K09).
func (k *Checker) opOK(st *State, name string, args []*Term) *Term {
	return mkPred(name+"?", args...)
}

func (e *Engine) opResult(st *State, name string, t types.Type, args []*Term) *Term {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		v := mkApp(name, u.Elem(), args...)
		return e.alloc(st, u.Elem(), v, name)
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return e.freshBytes(st, bytesAtom(name, args...), name)
		}
		a := intern(Term{op: OApp, name: name, args: args, typ: types.NewSlice(u.Elem())})
		return e.newSlice(st, seqOfAtom(a), u.Elem(), nil, name)
	case *types.Basic:
		switch {
		case u.Kind() == types.Bool:
			return mkPred(name, args...)
		case u.Info()&types.IsString != 0:
			return strAtom(name, args...)
		}
	}
	return e.materialize(mkApp(name, t, args...), t)
}

const (
	opRead    = "read-key"
	opWrite   = "write-key"
	opOld     = "read-old-key"
	opMaster  = "master"
	opDerive  = "derive"
	opPublic  = "public"
	opChild   = "child"
	opHard    = "hardened-child"
	opSecret  = "signing-key"
	opSign    = "sign"
	opWriteS  = "write-signature"
	opReadS   = "read-signature"
	opPubB    = "public-bytes"
	opPrivate = "is-private"
	opAddr    = "address"
	opAddrS   = "address-text"
	opReadPub = "read-public"
	opReadPvt = "read-private"
	opTextPub = "write-public"
	opTextPvt = "write-private"
	opEncW    = "words-of"
	opDecW    = "bytes-of"
	opPrefix  = "words-with-prefix"
)

// facade prepares an engine in which the operations behind the wallet facade are opaque.
func (k *Checker) facade() *Engine {
	e := k.fresh()
	for _, o := range []struct {
		pkg, fn, name string
		into          bool
	}{
		{"pkg/key", "(*ExtendedKey).UnmarshalText", opRead, true},
		{"pkg/key", "(ExtendedKey).MarshalText", opWrite, false},
		{"pkg/key", "FromOldSerialization", opOld, false},
		{"pkg/key", "NewMaster", opMaster, false},
		{"pkg/key", "(*ExtendedKey).DeriveFrom", opDerive, false},
		{"pkg/key", "(*ExtendedKey).Public", opPublic, false},
		{"pkg/key", "(*ExtendedKey).Child", opChild, false},
		{"pkg/key", "(*ExtendedKey).HardenedChild", opHard, false},
		{"pkg/key", "(*ExtendedKey).SPrivKey", opSecret, false},
		{"pkg/key", "(*ExtendedKey).PubKeyBytes", opPubB, false},
		{"pkg/key", "(*ExtendedKey).IsPrivate", opPrivate, false},
		{"pkg/signature", "(PrivateKey).Sign", opSign, false},
		{"pkg/signature", "(Signature).MarshalText", opWriteS, false},
		{"pkg/signature", "(*Signature).UnmarshalText", opReadS, true},
		{"pkg/signature", "(*PublicKey).UnmarshalText", opReadPub, true},
		{"pkg/signature", "(*PrivateKey).UnmarshalText", opReadPvt, true},
		{"pkg/signature", "(PublicKey).MarshalText", opTextPub, false},
		{"pkg/signature", "(PrivateKey).MarshalText", opTextPvt, false},
		{"pkg/address", "Generate", opAddr, false},
		{"pkg/address", "(Address).String", opAddrS, false},
		{"pkg/words", "FromBytes", opEncW, false},
		{"pkg/words", "ToBytes", opDecW, false},
		{"pkg/words", "FromPrefix", opPrefix, false},
	} {
		k.operation(o.pkg, o.fn, o.name, o.into)
	}
	// reading what was written
	if f := k.p.fn("pkg/key", "(*ExtendedKey).UnmarshalText"); f != nil {
		h := e.opaque[f.String()]
		e.opaque[f.String()] = func(e *Engine, c *callCtx) []Exit {
			if a := c.whole(e.opArg(c.st, c.args[1]), opWrite); a != nil {
				t := f.Params[0].Type().Underlying().(*types.Pointer).Elem()
				e.store(c.st, e.resolve(c.args[0], t), a.args[0])
				return one(c, mkNil(nil))
			}
			return h(e, c)
		}
	}
	return e
}

// facadeSpec says what a facade operation gives: the conditions for success, further conditions that always hold
// for keys that were read or derived successfully, and the result.
type facadeSpec struct {
	ok     []named
	also   []*Term
	result *Term
}

func (k *Checker) checkFacade(pkg, name string, spec func(st *State, args []*Term) []facadeSpec, get func(x Exit) *Term) {
	fn := k.anchor(pkg, name)
	if fn == nil {
		return
	}
	e := k.e
	st := newState()
	args := k.symArgs(fn)
	for i, a := range args {
		if _, ok := fn.Params[i].Type().Underlying().(*types.Pointer); ok {
			st.assume(mkNot(e.isNil(a)))
		}
	}
	sps := spec(st, args)
	xs, ok := k.run(fn, st, args)
	if !ok {
		return
	}
	k.count("facade_operations", 1)
	res := fn.Signature.Results()
	ei := res.Len() - 1
	good, bad := xs, []Exit(nil)
	if isErrorType(res.At(ei).Type()) {
		good, bad = k.splitErr(xs, ei)
	}
	what := "keyaddr." + strings.TrimPrefix(shortFn(fn.String()), "pkg/keyaddr.")
	if len(good) == 0 {
		k.violate(k.p.pos(fn.Pos()), "%s never succeeds", what)
	}
	// each way of succeeding is one of the specified ones
	for _, x := range good {
		if x.pan {
			continue
		}
		pos := k.p.pos(x.pos)
		matched := false
		why := ""
		for _, sp := range sps {
			bad := ""
			for _, c := range sp.ok {
				k.count("facts", 1)
				if x.st.decide(c.lit) != 1 {
					bad = c.name
					break
				}
			}
			if bad == "" {
				matched = true
				if got := get(x); !k.sameResult(x.st, got, sp.result) {
					k.violate(pos, "%s gives %s instead of %s", what, x.st.canon(got), x.st.canon(sp.result)).with(x.st)
				}
				break
			}
			if why == "" {
				why = bad
			}
		}
		if !matched {
			k.violate(pos, "%s can succeed here without: %s", what, why).with(x.st)
		}
	}
	// and no specified one fails
	for _, x := range bad {
		for _, sp := range sps {
			k.count("facts", 1)
			st := x.st.clone()
			dead := false
			for _, c := range sp.ok {
				dead = dead || !st.assume(c.lit)
			}
			for _, l := range sp.also {
				dead = dead || !st.assume(l)
			}
			if !dead && !k.refute(st) {
				k.violate(k.p.pos(x.pos), "%s can fail here although every step it stands for succeeds", what).with(st)
			}
		}
		for i := 0; i < ei; i++ {
			if p, isP := res.At(i).Type().Underlying().(*types.Pointer); isP && strings.HasSuffix(types.TypeString(p.Elem(), nil), "/pkg/keyaddr."+objName(p.Elem())) {
				k.must(x.st, e.isNil(x.ret[i]), k.p.pos(x.pos), what+" fails but returns an object")
			}
		}
	}
	k.noPanics(nil)
}

func (k *Checker) sameResult(st *State, got, want *Term) bool {
	if want.op == OPred {
		y, n := fork(st, got)
		return (y == nil || y.dead || y.decide(want) == 1) && (n == nil || n.dead || n.decide(want) == -1)
	}
	return st.canon(got) == st.canon(want) || st.eqVal(got, want, 0) == 1
}

func objName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// text is the only field of a facade object.
func (k *Checker) text(st *State, v *Term) *Term {
	e := k.e
	v = st.canon(v)
	switch v.op {
	case OPtr, OFld, OIdx:
		v = e.load(st, v)
	}
	if v.op == OStruct && len(v.args) == 1 {
		return st.canon(e.seqOf(st, v.args[0]))
	}
	return v
}

func (k *Checker) facadeField(st *State, fn string, v *Term) *Term {
	f := k.p.fn("pkg/keyaddr", fn)
	if f == nil {
		return mkSeq()
	}
	t := f.Params[0].Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return k.text(st, k.e.load(st, k.e.resolve(v, p.Elem())))
	}
	if v.op != OStruct {
		v = k.e.materialize(v, t)
	}
	return k.text(st, v)
}

// stdEnc is the standard base64 encoding.
func (k *Checker) stdEnc() *Term {
	for _, sp := range k.p.prog.AllPackages() {
		if sp.Pkg.Path() != "encoding/base64" {
			continue
		}
		g, ok := sp.Members["StdEncoding"].(*ssa.Global)
		if !ok {
			break
		}
		st := newState()
		v := k.e.load(st, k.e.globalPtr(g))
		return encTerm(k.e, &callCtx{st: st, args: []*Term{v}}, "b64.Encoding")
	}
	return mkSym("noenc", nil)
}

func checkF01(k *Checker) {
	k.rule("Abstract interpretation of every exported function of package keyaddr with unconstrained arguments, the operations of the packages below it being deterministic operations on the content of their arguments: each succeeding path is shown to have passed exactly the steps the facade operation stands for and to return their result; no failing path is compatible with all of those steps succeeding; failing paths return no facade object; no run-time condition can fail.")
	k.trust("reading the text an extended key was written as gives that key back (decided by K09)")
	e := k.facade()
	enc := k.stdEnc()
	read := func(s *Term) *Term { return mkApp(opRead, k.ekType(), s) }
	app := func(op string, as ...*Term) *Term { return mkApp(op, k.ekType(), as...) }
	okk := func(what, op string, as ...*Term) named { return named{what, mkPred(op+"?", as...)} }
	text := func(x *Term) *Term { return bytesAtom(opWrite, x) }
	textOK := func(x *Term) named { return okk("the key can be written as text", opWrite, x) }
	result := func(x Exit) *Term { return k.text(x.st, x.ret[0]) }
	seq := func(st *State, v *Term) *Term { return st.canon(e.seqOf(st, v)) }
	pk := "pkg/keyaddr"

	b64 := func(s *Term) (named, *Term) {
		return named{"the text is base64", mkPred("b64ok", enc, s)}, bytesAtom("b64dec", enc, s)
	}
	k.checkFacade(pk, "NewKey", func(st *State, a []*Term) []facadeSpec {
		c, d := b64(seq(st, a[0]))
		m := app(opMaster, d)
		return []facadeSpec{{[]named{c, okk("the seed gives a master key", opMaster, d), textOK(m)}, nil, text(m)}}
	}, result)
	fromString := func(s *Term) []facadeSpec {
		r, o := read(s), app(opOld, s)
		return []facadeSpec{
			{[]named{okk("the text is a key", opRead, s), textOK(r)}, nil, text(r)},
			{[]named{{"the text is not a key", mkNot(mkPred(opRead+"?", s))}, okk("the text is an old key", opOld, s), textOK(o)}, nil, text(o)},
		}
	}
	k.checkFacade(pk, "FromString", func(st *State, a []*Term) []facadeSpec { return fromString(seq(st, a[0])) }, result)
	k.checkFacade(pk, "FromOldString", func(st *State, a []*Term) []facadeSpec {
		s := seq(st, a[0])
		o := app(opOld, s)
		return []facadeSpec{{[]named{okk("the text is an old key", opOld, s), textOK(o)}, nil, text(o)}}
	}, result)
	k.checkFacade(pk, "DeriveFrom", func(st *State, a []*Term) []facadeSpec {
		var out []facadeSpec
		for _, sp := range fromString(seq(st, a[0])) {
			n := len(sp.ok) - 1
			key := sp.ok[n].lit.args[0]
			as := []*Term{key, seq(st, a[1]), seq(st, a[2])}
			d := app(opDerive, as...)
			out = append(out, facadeSpec{append(append([]named{}, sp.ok[:n]...), okk("the path is derived", opDerive, as...), textOK(d)), []*Term{sp.ok[n].lit}, text(d)})
		}
		return out
	}, result)
	self := func(st *State, fn string, a []*Term) (named, *Term) {
		s := k.facadeField(st, fn, a[0])
		return okk("the text is a key", opRead, s), read(s)
	}
	k.checkFacade(pk, "(*Key).ToPublic", func(st *State, a []*Term) []facadeSpec {
		c, key := self(st, "(*Key).ToPublic", a)
		p := app(opPublic, key)
		return []facadeSpec{{[]named{c, okk("the public key exists", opPublic, key), textOK(p)}, nil, text(p)}}
	}, result)
	for _, x := range []struct{ fn, op string }{{"(*Key).Child", opChild}, {"(*Key).HardenedChild", opHard}} {
		k.checkFacade(pk, x.fn, func(st *State, a []*Term) []facadeSpec {
			c, key := self(st, x.fn, a)
			n := a[1] // converting it keeps it, as it is not negative
			d := app(x.op, key, n)
			return []facadeSpec{{[]named{{"the index is not negative", mkLe(t0, a[1])}, c, okk("the child exists", x.op, key, n), textOK(d)}, nil, text(d)}}
		}, result)
	}
	k.checkFacade(pk, "(*Key).Sign", func(st *State, a []*Term) []facadeSpec {
		c, key := self(st, "(*Key).Sign", a)
		b, d := b64(seq(st, a[1]))
		sec := mkApp(opSecret, k.namedType("pkg/signature", "PrivateKey"), key)
		sig := mkApp(opSign, k.namedType("pkg/signature", "Signature"), sec, d)
		return []facadeSpec{{[]named{c, b, okk("the key can sign", opSecret, key), okk("the signature can be written as text", opWriteS, sig)}, nil, bytesAtom(opWriteS, sig)}}
	}, result)
	k.checkFacade(pk, "(*Key).NdauAddress", func(st *State, a []*Term) []facadeSpec {
		c, key := self(st, "(*Key).NdauAddress", a)
		as := []*Term{mkInt('a'), bytesAtom(opPubB, key)}
		ad := mkApp(opAddr, k.namedType("pkg/address", "Address"), as...)
		return []facadeSpec{{[]named{c, okk("the address exists", opAddr, as...)}, nil, strAtom(opAddrS, ad)}}
	}, result)
	k.checkFacade(pk, "(*Key).IsPrivate", func(st *State, a []*Term) []facadeSpec {
		c, key := self(st, "(*Key).IsPrivate", a)
		return []facadeSpec{{[]named{c}, nil, mkPred(opPrivate, key)}}
	}, func(x Exit) *Term { return x.ret[0] })

	// conversions
	content := func(x Exit) *Term { return e.opArg(x.st, x.ret[0]) }
	k.checkFacade(pk, "(Key).ToExtended", func(st *State, a []*Term) []facadeSpec {
		c, key := self(st, "(Key).ToExtended", a)
		return []facadeSpec{{[]named{c}, nil, key}}
	}, content)
	k.checkFacade(pk, "KeyFromExtended", func(st *State, a []*Term) []facadeSpec {
		key := e.opArg(st, e.resolve(a[0], k.ekType()))
		return []facadeSpec{{[]named{textOK(key)}, nil, text(key)}}
	}, result)
	for _, x := range []struct{ fn, op, typ string }{{"KeyFromPublic", opTextPub, "PublicKey"}, {"KeyFromPrivate", opTextPvt, "PrivateKey"}} {
		k.checkFacade(pk, x.fn, func(st *State, a []*Term) []facadeSpec {
			sk := e.opArg(st, a[0])
			t := bytesAtom(x.op, sk)
			return []facadeSpec{{[]named{okk("the key can be written as text", x.op, sk), okk("it is an extended key", opRead, t), textOK(read(t))}, nil, text(read(t))}}
		}, result)
	}
	k.checkFacade(pk, "(*Key).ToPublicKey", func(st *State, a []*Term) []facadeSpec {
		c, key := self(st, "(*Key).ToPublicKey", a)
		p := app(opPublic, key)
		t := text(p)
		return []facadeSpec{{[]named{c, okk("the public key exists", opPublic, key), textOK(p), okk("it is a public key", opReadPub, t)}, nil,
			mkApp(opReadPub, k.namedType("pkg/signature", "PublicKey"), t)}}
	}, content)
	k.checkFacade(pk, "(*Key).ToPrivateKey", func(st *State, a []*Term) []facadeSpec {
		c, key := self(st, "(*Key).ToPrivateKey", a)
		t := text(key)
		return []facadeSpec{{[]named{c, {"the key is private", mkPred(opPrivate, key)}, textOK(key), okk("it is a private key", opReadPvt, t)}, nil,
			mkApp(opReadPvt, k.namedType("pkg/signature", "PrivateKey"), t)}}
	}, content)
	k.checkFacade(pk, "SignatureFrom", func(st *State, a []*Term) []facadeSpec {
		sig := e.opArg(st, a[0])
		return []facadeSpec{{[]named{okk("the signature can be written as text", opWriteS, sig)}, nil, bytesAtom(opWriteS, sig)}}
	}, result)
	k.checkFacade(pk, "(Signature).ToSignature", func(st *State, a []*Term) []facadeSpec {
		s := k.facadeField(st, "(Signature).ToSignature", a[0])
		return []facadeSpec{{[]named{okk("the text is a signature", opReadS, s)}, nil, mkApp(opReadS, k.namedType("pkg/signature", "Signature"), s)}}
	}, content)

	// mnemonics
	str := types.Typ[types.String]
	k.checkFacade(pk, "WordsFromBytes", func(st *State, a []*Term) []facadeSpec {
		b, d := b64(seq(st, a[1]))
		as := []*Term{seq(st, a[0]), d}
		l := seqOfAtom(intern(Term{op: OApp, name: opEncW, args: as, typ: types.NewSlice(str)}))
		return []facadeSpec{{[]named{b, okk("there are words for the bytes", opEncW, as...)}, nil, strAtom("strings.Join", l, mkSeq(mkLit(" ")))}}
	}, func(x Exit) *Term { return seq(x.st, x.ret[0]) })
	k.checkFacade(pk, "WordsToBytes", func(st *State, a []*Term) []facadeSpec {
		l := seqOfAtom(intern(Term{op: OApp, name: "strings.Split", args: []*Term{seq(st, a[1]), mkSeq(mkLit(" "))}, typ: types.NewSlice(str)}))
		as := []*Term{seq(st, a[0]), l}
		return []facadeSpec{{[]named{okk("the words stand for bytes", opDecW, as...)}, nil, strAtom("b64enc", enc, bytesAtom(opDecW, as...))}}
	}, func(x Exit) *Term { return seq(x.st, x.ret[0]) })
	k.checkFacade(pk, "WordsFromPrefix", func(st *State, a []*Term) []facadeSpec {
		return []facadeSpec{{nil, nil, strAtom(opPrefix, seq(st, a[0]), seq(st, a[1]), a[2])}}
	}, func(x Exit) *Term { return seq(x.st, x.ret[0]) })
	k.atLeast("facade operations", k.counts["facade_operations"], 20)
}

func (k *Checker) ekType() types.Type {
	if t := k.namedType("pkg/key", "ExtendedKey"); t != nil {
		return t
	}
	return types.Typ[types.Invalid]
}

func checkF02(k *Checker) {
	k.rule("Abstract interpretation: Child and HardenedChild of the facade with a negative index have no success exit and call neither child operation of package key; the facade's Sign and ToPrivateKey, and SPrivKey of package key, have no success exit for a key that is public; every success exit of ToPublic and ToPublicKey holds the text of, or a typed public key read from, a result of ExtendedKey.Public, whose own success exits are all marked public.")
	k.trust("reading the text an extended key was written as gives that key back (decided by K09)")
	r := k.ekRoles()
	if !r.ok {
		return
	}
	// what the facade relies on
	if fn := k.anchor("pkg/key", "(*ExtendedKey).SPrivKey"); fn != nil {
		for _, c := range ekCases {
			if c.priv {
				continue
			}
			st, args, _ := k.ekStart(fn, r, c)
			xs, ok := k.run(fn, st, args)
			if !ok {
				return
			}
			good, _ := k.splitErr(xs, 1)
			for _, x := range good {
				k.violate(k.p.pos(x.pos), "a signing key is made from a %s key", c.name).with(x.st)
			}
			k.count("guards", 1)
			k.clearObs()
		}
	}
	if fn := k.anchor("pkg/key", "(*ExtendedKey).IsPrivate"); fn != nil {
		for _, c := range ekCases {
			st, args, p := k.ekStart(fn, r, c)
			xs, ok := k.run(fn, st, args)
			if !ok {
				return
			}
			for _, x := range xs {
				if !x.pan {
					k.count("facts", 1)
					if !k.sameResult(x.st, x.ret[0], p.priv) && !(x.st.decide(x.ret[0]) != 0 && x.st.decide(x.ret[0]) == x.st.decide(p.priv)) {
						k.violate(k.p.pos(x.pos), "IsPrivate does not tell whether a %s key is private", c.name).with(x.st)
					}
				}
			}
			k.count("guards", 1)
			k.clearObs()
		}
	}
	if fn := k.anchor("pkg/key", "(*ExtendedKey).Public"); fn != nil {
		for _, c := range ekCases {
			st, args, _ := k.ekStart(fn, r, c)
			xs, ok := k.run(fn, st, args)
			if !ok {
				return
			}
			good, _ := k.splitErr(xs, 1)
			for _, x := range good {
				if q := k.ekPtr(x.st, r, x.ret[0]); q != nil {
					k.must(x.st, mkNot(q.priv), k.p.pos(x.pos), "the public form of a key is marked private")
				}
			}
			k.count("guards", 1)
			k.clearObs()
		}
	}

	e := k.facade()
	pk := "pkg/keyaddr"
	for _, name := range []string{"(*Key).Child", "(*Key).HardenedChild"} {
		fn := k.anchor(pk, name)
		if fn == nil {
			return
		}
		st := newState()
		args := k.symArgs(fn)
		st.assume(mkNot(e.isNil(args[0])))
		if b, ok := fn.Params[1].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned == 0 {
			st.assume(mkLt(args[1], t0))
		} else {
			k.violate(k.p.pos(fn.Pos()), "the index of %s is not a signed number", name)
			continue
		}
		k.onOperation = func(op string, c *callCtx, _ []*Term) {
			if (op == opChild || op == opHard || op == opDerive) && !k.refute(c.st) {
				k.violate(k.p.pos(c.instr.Pos()), "a negative child index reaches derivation from %s", name).with(c.st)
			}
		}
		xs, ok := k.run(fn, st, args)
		k.onOperation = nil
		if !ok {
			return
		}
		good, _ := k.splitErr(xs, 1)
		for _, x := range good {
			k.violate(k.p.pos(x.pos), "%s succeeds for a negative index", name).with(x.st)
		}
		k.noPanics(nil)
		k.count("guards", 1)
	}
	for _, name := range []string{"(*Key).Sign", "(*Key).ToPrivateKey"} {
		fn := k.anchor(pk, name)
		if fn == nil {
			return
		}
		st := newState()
		args := k.symArgs(fn)
		st.assume(mkNot(e.isNil(args[0])))
		key := mkApp(opRead, k.ekType(), k.facadeField(st, name, args[0]))
		st.assume(mkNot(mkPred(opPrivate, key)))
		st.assume(mkNot(mkPred(opSecret+"?", key))) // shown above
		xs, ok := k.run(fn, st, args)
		if !ok {
			return
		}
		good, _ := k.splitErr(xs, 1)
		for _, x := range good {
			if !k.refute(x.st) {
				k.violate(k.p.pos(x.pos), "%s succeeds for a public key", name).with(x.st)
			}
		}
		k.clearObs()
		k.count("guards", 1)
	}
	public := func(t *Term) bool { return t.op == OApp && t.name == opPublic }
	if fn := k.anchor(pk, "(*Key).ToPublic"); fn != nil {
		st := newState()
		args := k.symArgs(fn)
		st.assume(mkNot(e.isNil(args[0])))
		xs, ok := k.run(fn, st, args)
		if !ok {
			return
		}
		good, _ := k.splitErr(xs, 1)
		for _, x := range good {
			k.count("facts", 1)
			t := k.text(x.st, x.ret[0])
			a := (&callCtx{st: x.st}).whole(t, opWrite)
			if a == nil || !(public(a.args[0]) || x.st.decide(mkPred(opPrivate, a.args[0])) == -1) {
				k.violate(k.p.pos(x.pos), "ToPublic gives a key that is not shown to be public: %s", t).with(x.st)
			}
		}
		k.clearObs()
		k.count("guards", 1)
	}
	if fn := k.anchor(pk, "(*Key).ToPublicKey"); fn != nil {
		if got, want := fn.Signature.Results().At(0).Type(), k.namedType("pkg/signature", "PublicKey"); want == nil || !types.Identical(got, want) {
			k.violate(k.p.pos(fn.Pos()), "ToPublicKey does not give a public key")
		}
		k.count("guards", 1)
	}
}
