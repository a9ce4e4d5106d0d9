package main

import (
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["J01"] = func(k *Checker) { k.bridge(true) }
	checks["J02"] = func(k *Checker) { k.bridge(false) }
}

// types of JavaScript values as numbered by syscall/js
const (
	jsUndefined = 0
	jsNull      = 1
	jsBoolean   = 2
	jsNumber    = 3
	jsString    = 4
	jsSymbol    = 5
	jsObject    = 6
	jsFunction  = 7
)

// bridgeOp is a wallet operation with the kind of its result as handed to JavaScript.
type bridgeFn struct {
	n      int                                        // arguments ahead of the callback
	op     string                                     // the wallet operation
	numArg int                                        // argument that has to be a number, or -1
	narrow bool                                       // the number has to fit 32 bits
	method bool                                       // the first argument is the text of the key operated on
	give   func(e *Engine, r *Term, k *Checker) *Term // what JavaScript gets
}

func giveSelf(e *Engine, r *Term, k *Checker) *Term { return r }

func giveText(e *Engine, r *Term, k *Checker) *Term {
	return mkApp("f0", types.Typ[types.String], r)
}

var bridgeFns = map[string]bridgeFn{
	"newKey":          {1, "NewKey", -1, false, false, giveText},
	"wordsToBytes":    {2, "WordsToBytes", -1, false, false, giveSelf},
	"deriveFrom":      {3, "DeriveFrom", -1, false, false, giveText},
	"ndauAddress":     {1, "NdauAddress", -1, false, true, giveText},
	"toPublic":        {1, "ToPublic", -1, false, true, giveText},
	"child":           {2, "Child", 1, true, true, giveText},
	"sign":            {2, "Sign", -1, false, true, giveText},
	"hardenedChild":   {2, "HardenedChild", 1, true, true, giveText},
	"wordsFromPrefix": {3, "WordsFromPrefix", 2, false, false, giveSelf},
	"isPrivate":       {1, "IsPrivate", -1, false, true, giveSelf},
	"wordsFromBytes":  {2, "WordsFromBytes", -1, false, false, giveSelf},
	"fromString":      {1, "FromString", -1, false, false, giveText},
	"exit":            {0, "", -1, false, false, nil},
}

// jsVal is the value behind a js.Value.
func jsVal(e *Engine, st *State, v *Term) *Term { return e.wholeOf(st.canon(e.snap(st, v))) }

// jsBox is what a Go value becomes in JavaScript; the second result is false when it cannot be converted.
func jsBox(e *Engine, st *State, v *Term) (*Term, bool) {
	v = st.canon(v)
	if v.op == ONil {
		return mkApp("jsnull", nil), true
	}
	if v.op != OIface {
		return v, false
	}
	switch u := v.typ.(type) {
	case *types.Named:
		n := u.Obj()
		if n.Pkg() == nil || n.Pkg().Path() != "syscall/js" {
			return v, false
		}
		switch n.Name() {
		case "Value":
			return jsVal(e, st, v.args[0]), true
		case "Func":
			return mkApp("jsfunc", nil, st.canon(e.snap(st, v.args[0]))), true
		}
		return v, false
	case *types.Basic:
		if u.Info()&types.IsComplex != 0 {
			return v, false
		}
		return e.snap(st, st.canon(v.args[0])), true
	case *types.Slice:
		if !types.Identical(u.Elem(), types.NewInterfaceType(nil, nil)) {
			return v, false
		}
		return mkApp("jsarray", nil, st.canon(e.snap(st, v.args[0]))), true
	case *types.Map:
		if !types.Identical(u.Key(), types.Typ[types.String]) || !types.Identical(u.Elem(), types.NewInterfaceType(nil, nil)) {
			return v, false
		}
		m := e.asMap(v.args[0], u)
		if m.op != OMapRef {
			return mkApp("jsobject", nil), v.args[0].op == ONil
		}
		c := e.content(st, m.n)
		if c.op != OMapV || c.args[0] != mkSym("emptymap", nil) {
			return v, false
		}
		type kv struct{ k, v *Term }
		var kvs []kv
		for i := 1; i+1 < len(c.args); i += 2 {
			b, ok := jsBox(e, st, c.args[i+1])
			if !ok {
				return v, false
			}
			kvs = append(kvs, kv{st.canon(c.args[i]), b})
		}
		sort.Slice(kvs, func(i, j int) bool { return kvs[i].k.String() < kvs[j].k.String() })
		var as []*Term
		for _, x := range kvs {
			as = append(as, x.k, x.v)
		}
		return mkApp("jsobject", nil, as...), true
	}
	return v, false
}

// jsRun prepares an engine over the program the bridge is built from.
func (k *Checker) jsRun() *Engine {
	p, err := loadProgram(k.p.repo, k.p.verif, "js", "wasm", "./cmd/...", "./pkg/...")
	if err != nil {
		k.violate(k.p.repo, "the program built for JavaScript could not be loaded: %v", err)
		return nil
	}
	k.p = p
	e := k.fresh()
	for _, o := range []string{"NewKey", "WordsToBytes", "WordsFromBytes", "WordsFromPrefix", "DeriveFrom", "FromString",
		"(*Key).ToPublic", "(*Key).Child", "(*Key).HardenedChild", "(*Key).Sign", "(*Key).NdauAddress", "(*Key).IsPrivate"} {
		name := o
		if i := len("(*Key)."); len(o) > i && o[:i] == "(*Key)." {
			name = o[i:]
		}
		k.operation("pkg/keyaddr", o, name, false)
	}
	vt := k.jsValueType()
	if vt == nil {
		k.violate("cmd/keyaddr", "the bridge does not use syscall/js")
		return nil
	}
	val := func(name string, args ...*Term) *Term { return mkApp(name, vt, args...) }
	jtype := func(c *callCtx, v *Term) *Term {
		switch v.name {
		case "jsundefined":
			return mkInt(jsUndefined)
		case "jsnull":
			return mkInt(jsNull)
		case "jsget", "jscall", "jsnew":
			if v.op == OApp && len(v.args) > 1 && v.name == "jscall" && v.args[1] == mkLit("now") {
				return mkInt(jsNumber)
			}
		}
		t := mkApp("jstype", types.Typ[types.Int], v)
		c.st.assume(mkLe(t0, t))
		c.st.assume(mkLe(t, mkInt(jsFunction)))
		return t
	}
	// env reports whether a value comes from the JavaScript environment rather than from the caller
	env := func(v *Term) bool {
		for v.op == OApp && (v.name == "jsget" || v.name == "jscall" || v.name == "jsinvoke") {
			v = v.args[0]
		}
		return v.op == OApp && v.name == "jsglobal"
	}
	boxes := func(c *callCtx, i int) []*Term {
		var out []*Term
		if i >= len(c.args) {
			return nil
		}
		s := c.seq(e, i)
		n, ok := c.st.constOf(seqLen(s))
		if !ok {
			c.need(e, mkPred("known-arguments", s), "unknown number of arguments to JavaScript")
			return nil
		}
		for j := int64(0); j < n; j++ {
			v := e.seqAtQuiet(c.st, s, mkInt(j))
			if v == nil {
				v = mkApp("unknown", nil, s, mkInt(j))
			}
			b, ok := jsBox(e, c.st, v)
			if !ok {
				c.need(e, mkPred("convertible", b), "value without a JavaScript equivalent")
			}
			out = append(out, b)
		}
		return out
	}
	say := func(c *callCtx, kind string, args ...*Term) {
		c.st.events = append(c.st.events, event{kind: kind, args: args, pos: e.p.pos(c.instr.Pos())})
	}
	tell := func(c *callCtx, what string, v *Term, as []*Term) {
		if k.onEnv != nil {
			for _, a := range as {
				k.onEnv(c.st, e.p.pos(c.instr.Pos()), what, a)
			}
		}
	}
	recv := func(c *callCtx) *Term { return jsVal(e, c.st, c.args[0]) }
	m := map[string]modelFn{
		"syscall/js.Global":    func(e *Engine, c *callCtx) []Exit { return one(c, val("jsglobal")) },
		"syscall/js.Undefined": func(e *Engine, c *callCtx) []Exit { return one(c, val("jsundefined")) },
		"syscall/js.Null":      func(e *Engine, c *callCtx) []Exit { return one(c, val("jsnull")) },
		"syscall/js.ValueOf": func(e *Engine, c *callCtx) []Exit {
			b, ok := jsBox(e, c.st, c.args[0])
			if !ok && !c.need(e, mkPred("convertible", b), "value without a JavaScript equivalent") {
				return nil
			}
			return one(c, val("jsvalue", b))
		},
		"syscall/js.FuncOf": func(e *Engine, c *callCtx) []Exit {
			say(c, "jsfunc", c.args[0])
			return one(c, mkApp("jsfuncof", c.sig.Results().At(0).Type(), e.snap(c.st, c.args[0])))
		},
		"(syscall/js.Value).Type": func(e *Engine, c *callCtx) []Exit { return one(c, jtype(c, recv(c))) },
		"(syscall/js.Value).String": func(e *Engine, c *callCtx) []Exit {
			return one(c, strAtom("jstext", recv(c)))
		},
		"(syscall/js.Value).Int": func(e *Engine, c *callCtx) []Exit {
			v := recv(c)
			if !c.need(e, mkEqInt(jtype(c, v), mkInt(jsNumber)), "number read from a JavaScript value of another type") {
				return nil
			}
			n := mkApp("jsint", types.Typ[types.Int], v)
			c.st.assume(mkLe(mkInt(math.MinInt64), n))
			c.st.assume(mkLe(n, mkInt(math.MaxInt64)))
			return one(c, n)
		},
		"(syscall/js.Value).Float": func(e *Engine, c *callCtx) []Exit {
			v := recv(c)
			if !c.need(e, mkEqInt(jtype(c, v), mkInt(jsNumber)), "number read from a JavaScript value of another type") {
				return nil
			}
			return one(c, mkApp("jsfloat", types.Typ[types.Float64], v))
		},
		"(syscall/js.Value).Bool": func(e *Engine, c *callCtx) []Exit {
			v := recv(c)
			if !c.need(e, mkEqInt(jtype(c, v), mkInt(jsBoolean)), "truth value read from a JavaScript value of another type") {
				return nil
			}
			return one(c, mkPred("jsbool", v))
		},
		"(syscall/js.Value).Truthy": func(e *Engine, c *callCtx) []Exit { return one(c, mkPred("jstruthy", recv(c))) },
		"(syscall/js.Value).IsUndefined": func(e *Engine, c *callCtx) []Exit {
			return one(c, mkEqInt(jtype(c, recv(c)), mkInt(jsUndefined)))
		},
		"(syscall/js.Value).IsNull": func(e *Engine, c *callCtx) []Exit {
			return one(c, mkEqInt(jtype(c, recv(c)), mkInt(jsNull)))
		},
		"(syscall/js.Value).Get": func(e *Engine, c *callCtx) []Exit {
			v := recv(c)
			if !env(v) {
				t := jtype(c, v)
				if !c.need(e, mkOr(mkEqInt(t, mkInt(jsObject)), mkEqInt(t, mkInt(jsFunction))), "property read from a JavaScript value that is no object") {
					return nil
				}
			}
			return one(c, val("jsget", v, c.seq(e, 1)))
		},
		"(syscall/js.Value).Set": func(e *Engine, c *callCtx) []Exit {
			v := recv(c)
			if !env(v) {
				t := jtype(c, v)
				if !c.need(e, mkOr(mkEqInt(t, mkInt(jsObject)), mkEqInt(t, mkInt(jsFunction))), "property set on a JavaScript value that is no object") {
					return nil
				}
			}
			b, ok := jsBox(e, c.st, c.args[2])
			if !ok && !c.need(e, mkPred("convertible", b), "value without a JavaScript equivalent") {
				return nil
			}
			say(c, "jsset", v, c.seq(e, 1), b)
			tell(c, "property set", v, []*Term{b})
			return one(c)
		},
		"(syscall/js.Value).Call": func(e *Engine, c *callCtx) []Exit {
			v := recv(c)
			as := boxes(c, 2)
			if !env(v) {
				c.need(e, mkPred("method", v, c.seq(e, 1)), "method of a caller's value called")
				say(c, "jsother", v)
			}
			tell(c, "method called", v, as)
			return one(c, val("jscall", append([]*Term{v, c.seq(e, 1)}, as...)...))
		},
		"(syscall/js.Value).Invoke": func(e *Engine, c *callCtx) []Exit {
			v := recv(c)
			as := boxes(c, 1)
			if env(v) {
				tell(c, "function called", v, as)
				return one(c, val("jsinvoke", append([]*Term{v}, as...)...))
			}
			if !c.need(e, mkEqInt(jtype(c, v), mkInt(jsFunction)), "JavaScript value invoked that is no function") {
				return nil
			}
			say(c, "answer", append([]*Term{v}, as...)...)
			return one(c, e.freshSym("jsresult", vt))
		},
		"encoding/json.Marshal": func(e *Engine, c *callCtx) []Exit {
			return one(c, e.freshBytes(c.st, bytesAtom("json", e.snap(c.st, c.args[0])), "json"), mkNil(nil))
		},
		"(*regexp.Regexp).FindAllStringIndex": func(e *Engine, c *callCtx) []Exit {
			t := types.NewSlice(types.NewSlice(types.Typ[types.Int]))
			a := intern(Term{op: OApp, name: "rxfindall", args: []*Term{c.args[0], c.seq(e, 1), c.args[2]}, typ: t})
			return one(c, e.newSlice(c.st, seqOfAtom(a), t.Elem(), nil, "matches"))
		},
	}
	for n, h := range m {
		e.opaque[n] = h
	}
	return e
}

func (k *Checker) jsValueType() types.Type {
	for _, p := range k.p.prog.AllPackages() {
		if p.Pkg.Path() == "syscall/js" {
			if o := p.Pkg.Scope().Lookup("Value"); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

// bridge interprets the program's start, and then every function it has exported to JavaScript.
func (k *Checker) bridge(answers bool) {
	k.rule("the start of the bridge is interpreted to find what it exports; each exported function is interpreted with an argument list of unknown length and types, the work it starts in the background included, wallet operations being opaque")
	if answers {
		k.rule("on every path: an empty argument list or one not ending in a function leads to no answer, any other to exactly one call of the last argument: (error, null) or (null, the result of the wallet operation on the arguments in their order)")
	} else {
		k.rule("no run-time condition (index, nil, a number read from another type, a call of a non-function, a value without a JavaScript equivalent) can fail, and 32-bit operands are range-checked")
	}
	k.trust("objects of the JavaScript environment (console, Date, Error, KeyaddrErrorHandler) behave as in every JavaScript engine")
	e := k.jsRun()
	if e == nil {
		return
	}
	exported, others := k.bridgeStart(answers)
	if exported == nil {
		return
	}
	if !answers {
		k.onOperation = k.narrowed
		defer func() { k.onOperation = nil }()
	}
	var names []string
	for n := range bridgeFns {
		names = append(names, n)
	}
	for n := range exported {
		if _, ok := bridgeFns[n]; !ok {
			if answers {
				k.violate("cmd/keyaddr", "the exported function %s has no documented behaviour to compare with", n)
			}
			names = append(names, n)
		}
	}
	sort.Strings(names)
	done := map[*ssa.Function]bool{}
	for _, n := range names {
		f := exported[n]
		if f == nil || f.op != OFunc {
			if answers {
				k.violate("cmd/keyaddr", "the function %s is not exported to JavaScript", n)
			}
			continue
		}
		done[f.fn] = true
		k.bridgeCall(n, f, answers)
	}
	if !answers {
		for _, f := range others {
			if f.op == OFunc && !done[f.fn] {
				done[f.fn] = true
				k.bridgeCall("", f, false)
			}
		}
	}
	k.count("exported_functions", len(done))
	k.atLeast("functions exported to JavaScript", len(done), len(bridgeFns))
}

func (k *Checker) bridgeCall(name string, f *Term, answers bool) {
	e := k.e
	fn := f.fn
	where := k.p.pos(fn.Pos())
	st := newState()
	args := k.symArgs(fn)
	xs, ok := k.runWith(fn, st, args, f.args)
	if !ok {
		return
	}
	if !answers {
		k.noPanics(nil)
		for _, x := range xs {
			if _, ok := jsBox(e, x.st, x.ret[0]); !ok {
				k.violate(where, "%s may return a value without a JavaScript equivalent", name).with(x.st)
			}
		}
		k.clearObs()
		return
	}
	k.clearObs()
	sp, known := bridgeFns[name]
	if !known {
		return
	}
	vt := k.jsValueType()
	list := e.seqOf(newState(), args[1])
	n := seqLen(list)
	arg := func(st *State, i *Term) *Term {
		v := e.seqAtQuiet(st, list, i)
		if v == nil {
			return nil
		}
		return jsVal(e, st, v)
	}
	jt := func(v *Term) *Term { return mkApp("jstype", types.Typ[types.Int], v) }
	_ = vt
	for _, x := range xs {
		st := x.st
		if x.pan {
			continue
		}
		var ans []event
		strange := false
		for _, ev := range st.events {
			switch ev.kind {
			case "answer":
				ans = append(ans, ev)
			case "jsother", "repeat:answer":
				strange = true
			}
		}
		if strange {
			k.violate(where, "%s uses the caller's values in a way that could not be followed", name).with(st)
			continue
		}
		switch len(ans) {
		case 0:
			// only without a callback
			s2 := st.clone()
			if s2.assume(mkLe(mkInt(1), n)) && !s2.dead {
				last := arg(s2, tAdd(n, mkInt(-1)))
				if last == nil || s2.assume(mkEqInt(jt(last), mkInt(jsFunction))) && !k.refute(s2) {
					k.violate(where, "%s may never answer although it was given a callback", name).with(s2)
				}
			}
			k.count("silent_paths", 1)
			continue
		case 1:
		default:
			k.violate(ans[1].pos, "%s may answer more than once", name).with(st)
			continue
		}
		a := ans[0]
		last := arg(st, tAdd(n, mkInt(-1)))
		if last == nil || st.eqVal(a.args[0], last, 0) != 1 {
			k.violate(a.pos, "%s answers through a value that is not its last argument", name).with(st)
			continue
		}
		if len(a.args) != 3 {
			k.violate(a.pos, "%s answers with %d values instead of two", name, len(a.args)-1).with(st)
			continue
		}
		isNull := func(v *Term) bool { return v.op == OApp && v.name == "jsnull" }
		k.count("answers", 1)
		right := st.decide(mkEqInt(n, mkInt(int64(sp.n+1))))
		if !isNull(a.args[1]) {
			// a failure
			if !isNull(a.args[2]) {
				k.violate(a.pos, "%s answers with both an error and a result", name).with(st)
			}
			if v := a.args[1]; !(v.op == OSeq && st.decide(mkEqInt(seqLen(v), t0)) == -1) && !(v.op == OApp && v.name == "jsinvoke") {
				k.violate(a.pos, "%s answers failure with something that is not an error or text: %s", name, v).with(st)
			}
			// must be impossible when the operation succeeds
			s2 := st.clone()
			if !s2.assume(mkEqInt(n, mkInt(int64(sp.n+1)))) || s2.dead {
				continue
			}
			bad := false
			for _, c := range k.bridgeCases(s2, sp, arg) {
				s3 := s2.clone()
				feasible := true
				for _, l := range c.lits {
					if !s3.assume(l) || s3.dead {
						feasible = false
						break
					}
				}
				if feasible && !k.refute(s3) {
					bad = true
					k.violate(a.pos, "%s may answer with an error although the operation succeeds", name).with(s3)
					break
				}
			}
			_ = bad
			continue
		}
		// success
		if right != 1 {
			k.violate(a.pos, "%s may succeed with a wrong number of arguments", name).with(st)
			continue
		}
		if sp.op == "" {
			continue
		}
		for _, c := range k.bridgeCases(st, sp, arg) {
			s3 := st.clone()
			feasible := true
			for _, l := range c.sel {
				if !s3.assume(l) || s3.dead {
					feasible = false
					break
				}
			}
			if !feasible || k.refute(s3) {
				continue
			}
			okAll := true
			for _, l := range c.lits {
				if s3.decide(l) != 1 {
					okAll = false
					k.violate(a.pos, "%s may answer with a result although this is not established: %s", name, l).with(s3)
					break
				}
			}
			if !okAll {
				break
			}
			got := a.args[2]
			if got.op == OApp && got.name == "jsvalue" {
				got = got.args[0]
			}
			want := c.res
			if name == "fromString" {
				want = mkApp("jsobject", nil, mkLit("key"), want)
			}
			if !k.sameAnswer(s3, got, want) {
				k.violate(a.pos, "%s answers with %s instead of %s", name, got, want).with(s3)
				break
			}
		}
	}
}

func (k *Checker) sameAnswer(st *State, a, b *Term) bool {
	a, b = st.canon(a), st.canon(b)
	if a == b {
		return true
	}
	if a.op == OApp && b.op == OApp && a.name == "jsobject" && b.name == "jsobject" && len(a.args) == len(b.args) {
		for i := range a.args {
			if !k.sameAnswer(st, a.args[i], b.args[i]) {
				return false
			}
		}
		return true
	}
	return st.eqVal(a, b, 0) == 1
}

type bridgeCase struct {
	sel  []*Term // which case it is
	lits []*Term // conditions of success (sel included)
	res  *Term
}

// bridgeCases gives the conditions under which a call succeeds, and its result.
func (k *Checker) bridgeCases(st *State, sp bridgeFn, arg func(*State, *Term) *Term) []bridgeCase {
	e := k.e
	if sp.op == "" {
		return []bridgeCase{{}}
	}
	jt := func(v *Term) *Term { return mkApp("jstype", types.Typ[types.Int], v) }
	text := func(v *Term) *Term { return strAtom("jstext", v) }
	var vals, as, sel []*Term
	for i := 0; i < sp.n; i++ {
		v := arg(st, mkInt(int64(i)))
		if v == nil {
			return nil
		}
		vals = append(vals, v)
		if i == sp.numArg {
			n := mkApp("jsint", types.Typ[types.Int], v)
			as = append(as, n)
			sel = append(sel, mkEqInt(jt(v), mkInt(jsNumber)))
			if sp.narrow {
				sel = append(sel, mkLe(mkInt(math.MinInt32), n), mkLe(n, mkInt(math.MaxInt32)))
			}
			continue
		}
		as = append(as, text(v))
	}
	if sp.method {
		kt := k.namedType("pkg/keyaddr", "Key")
		if kt == nil {
			return nil
		}
		as[0] = intern(Term{op: OStruct, args: []*Term{as[0]}})
	}
	mk := func(sel []*Term, as []*Term) bridgeCase {
		var rt types.Type
		for _, n := range []string{sp.op, "(*Key)." + sp.op} {
			if f := k.p.fn("pkg/keyaddr", n); f != nil {
				rt = f.Signature.Results().At(0).Type()
			}
		}
		r := e.opResult(st, sp.op, rt, as)
		if r.op == OPtr {
			r = mkApp(sp.op, rt.Underlying().(*types.Pointer).Elem(), as...)
		}
		lits := append([]*Term{}, sel...)
		if sp.op != "WordsFromPrefix" {
			lits = append(lits, k.opOK(st, sp.op, as))
		}
		res := sp.give(e, r, k)
		if res != r {
			res = e.materialize(res, types.Typ[types.String])
		}
		return bridgeCase{sel, lits, res}
	}
	if sp.op == "WordsToBytes" {
		u := mkEqInt(jt(vals[0]), mkInt(jsUndefined))
		return []bridgeCase{
			mk([]*Term{u}, []*Term{mkLit("en"), as[1]}),
			mk([]*Term{mkNot(u)}, as),
		}
	}
	return []bridgeCase{mk(sel, as)}
}

// bridgeSecrets looks at everything the bridge hands to the JavaScript environment.
func (k *Checker) bridgeSecrets() {
	ops := map[string]bool{}
	secret := map[string][]int{ // arguments that are secret
		"newKey": {0}, "wordsToBytes": {1}, "deriveFrom": {0}, "ndauAddress": {0}, "toPublic": {0}, "child": {0}, "sign": {0},
		"hardenedChild": {0}, "wordsFromPrefix": {1}, "isPrivate": {0}, "wordsFromBytes": {1}, "fromString": {0},
	}
	for _, f := range bridgeFns {
		if f.op != "" {
			ops[f.op] = true
		}
	}
	e := k.jsRun()
	if e == nil {
		return
	}
	exported := k.bridgeExports()
	k.clearObs()
	told := 0
	for _, n := range sortedNames(exported) {
		f := exported[n]
		if f.op != OFunc {
			continue
		}
		fn := f.fn
		args := k.symArgs(fn)
		list := e.seqOf(newState(), args[1])
		isSecret := func(st *State, v *Term) bool {
			for _, i := range secret[n] {
				if x := e.seqAtQuiet(st, list, mkInt(int64(i))); x != nil && jsVal(e, st, x) == v {
					return true
				}
			}
			return false
		}
		var leak func(st *State, t *Term) *Term
		leak = func(st *State, t *Term) *Term {
			switch {
			case t.op == OLen || t.op == OPred || isCount(t):
				return nil
			case t.op == OApp && (strings.HasPrefix(t.name, "err:") || t.name == "jstype" || t.name == "jsfuncof" || t.name == "jsfunc"):
				return nil
			case t.op == OApp && ops[t.name]:
				return t
			case t.op == OApp && t.name == "jstext" && isSecret(st, t.args[0]):
				return t
			}
			if isSecret(st, t) {
				return t
			}
			for _, a := range t.args {
				if x := leak(st, a); x != nil {
					return x
				}
			}
			return nil
		}
		k.onEnv = func(st *State, pos, what string, v *Term) {
			told++
			if x := leak(st, st.canon(v)); x != nil {
				k.violate(pos, "%s gives the JavaScript environment (%s) something secret: %s", n, what, x).with(st)
			}
		}
		xs, ok := k.runWith(fn, newState(), args, f.args)
		k.onEnv = nil
		k.clearObs()
		if !ok {
			continue
		}
		for _, x := range xs {
			for _, ev := range x.st.events {
				if ev.kind == "answer" && len(ev.args) > 1 {
					told++
					if y := leak(x.st, x.st.canon(ev.args[1])); y != nil {
						k.violate(ev.pos, "%s answers with an error that mentions something secret: %s", n, y).with(x.st)
					}
				}
			}
		}
	}
	k.count("values_given_to_javascript", told)
	k.atLeast("values given to JavaScript", told, 50)
}

// bridgeStart interprets the start of the bridge and finds what it exports.
func (k *Checker) bridgeStart(answers bool) (map[string]*Term, []*Term) {
	e := k.e
	mainFn := k.anchor("cmd/keyaddr", "main")
	if mainFn == nil {
		return nil, nil
	}
	e.inInit = true
	xs, ok := k.run(mainFn, newState(), nil)
	e.inInit = false
	if !ok {
		return nil, nil
	}
	if !answers {
		k.noPanics(nil)
	}
	k.clearObs()
	exported := map[string]*Term{}
	var others []*Term
	for _, x := range xs {
		for _, ev := range x.st.events {
			switch ev.kind {
			case "jsset":
				v := ev.args[2]
				if v.op == OApp && v.name == "jsvalue" {
					v = v.args[0]
				}
				if c, _ := seqConst(ev.args[1]); c == "KeyaddrNS" && v.op == OApp && v.name == "jsobject" {
					for i := 0; i+1 < len(v.args); i += 2 {
						n, _ := seqConst(v.args[i])
						f := v.args[i+1]
						if f.op == OApp && f.name == "jsfunc" && f.args[0].op == OApp && f.args[0].name == "jsfuncof" {
							exported[n] = f.args[0].args[0]
						}
					}
				}
			case "jsfunc":
				others = append(others, ev.args[0])
			}
		}
	}
	return exported, others
}

func (k *Checker) bridgeExports() map[string]*Term { m, _ := k.bridgeStart(true); return m }

func sortedNames(m map[string]*Term) []string {
	var out []string
	for n := range m {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func (k *Checker) narrowed(name string, c *callCtx, args []*Term) {
	f := c.fn
	for i, a := range args {
		if f == nil || i >= len(f.Params) {
			continue
		}
		if b, ok := f.Params[i].Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		a = c.st.canon(a)
		if _, fixed := c.st.constOf(a); !fixed && !(a.op == OApp && a.name == "jsint") {
			k.violate(k.p.pos(c.instr.Pos()), "a number from JavaScript reaches %s changed: %s", name, a).with(c.st)
		}
		k.count("numbers_passed", 1)
	}
}

// isCount: how often a fixed character occurs.
func isCount(t *Term) bool {
	if t.op != OApp || t.name != "strings.Count" || len(t.args) != 2 {
		return false
	}
	c, ok := seqConst(t.args[1])
	return ok && len(c) == 1
}
