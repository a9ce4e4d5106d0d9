package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["X01"] = checkX01 }

// ---- secrets ----

var secretPkgs = []string{"pkg/bip32", "pkg/key", "pkg/keyaddr", "pkg/signature", "pkg/signature/algorithms/null", "pkg/signature/algorithms/secp256k1", "pkg/signature/algorithms/ed25519", "pkg/words"}

// secretParam says which arguments of the library's operations carry secrets.
func secretParam(fn *ssa.Function, i int) bool {
	pkg := strings.TrimPrefix(fn.Pkg.Pkg.Path(), modPath+"/")
	recv := ""
	t := fn.Params[i].Type()
	if r := fn.Signature.Recv(); r != nil {
		rt := r.Type()
		if p, ok := rt.(*types.Pointer); ok {
			rt = p.Elem()
		}
		recv = rt.(*types.Named).Obj().Name()
		if i == 0 {
			return holdsKey(rt)
		}
		i--
	}
	if holdsKey(t) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() != types.String {
			return false
		}
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		if !ok || b.Kind() != types.Uint8 && b.Kind() != types.String {
			return false
		}
	default:
		return false
	}
	switch pkg + " " + recv + "." + fn.Name() {
	case "pkg/words .FromBytes", "pkg/words .ToBytes", "pkg/words .FromPrefix",
		"pkg/keyaddr .WordsFromBytes", "pkg/keyaddr .WordsToBytes", "pkg/keyaddr .WordsFromPrefix":
		return i != 0 // the language
	case "pkg/keyaddr .DeriveFrom":
		return i == 0 // not the paths
	case "pkg/key ExtendedKey.DeriveFrom", "pkg/keyaddr Key.Sign", "pkg/signature PrivateKey.Sign":
		return false // paths and messages
	}
	if pkg == "pkg/signature" {
		switch recv {
		case "Signature", "PublicKey", "AlgorithmID", "IdentifiedData", "AlgorithmIDList":
			return false
		}
		switch fn.Name() {
		case "RegisterAlgorithm", "NameOf", "RawSignature", "RawPublicKey", "ParseSignature", "ParsePublicKey", "MaybePublic":
			return false
		}
	}
	if strings.Contains(pkg, "algorithms/") {
		return fn.Name() == "Sign" && i == 0 || fn.Name() == "Public" || fn.Name() == "Match" && i == 1
	}
	return true
}

// holdsKey recognises the types whose objects contain key material.
func holdsKey(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch strings.TrimPrefix(n.Obj().Pkg().Path(), modPath+"/") + "." + n.Obj().Name() {
	case "pkg/key.ExtendedKey", "pkg/signature.PrivateKey", "pkg/signature.Key", "pkg/keyaddr.Key":
		return true
	}
	return false
}

var fieldApp = regexp.MustCompile(`^(f|r)\d+$`)

var carriesText = regexp.MustCompile(`^err:(new@|errorf@|wrap$|strconv$|hex$|json$)`)

// isTextual reports whether values of the type are bytes or text.
func isTextual(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && (b.Kind() == types.Uint8 || b.Kind() == types.String)
	case *types.Array:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && (b.Kind() == types.Uint8 || b.Kind() == types.String)
	}
	return false
}

// secretWalk looks for secrets in a value.
type secretWalk struct {
	k     *Checker
	roots map[*Term]bool // arguments that are or contain secrets
	texts map[*Term]bool // those that are the text form of a key
	st    *State
	seen  map[*Term]bool
	lens  map[*Term]bool // lengths of the slices objects refer to
}

// isLen reports whether a number is the length of a slice held by some object.
func (w *secretWalk) isLen(t *Term) bool {
	if w.lens == nil {
		w.lens = map[*Term]bool{}
		var rec func(v *Term, d int)
		rec = func(v *Term, d int) {
			if v == nil || d > 5 {
				return
			}
			switch v.op {
			case OSlice:
				w.lens[w.st.canon(v.args[2])] = true
			case OStruct:
				for _, a := range v.args {
					rec(a, d+1)
				}
			}
		}
		for _, v := range w.st.heap {
			rec(v, 0)
		}
	}
	return w.lens[t]
}

func (w *secretWalk) root(t *Term) *Term {
	for t.op == OApp && len(t.args) > 0 && (fieldApp.MatchString(t.name) || t.name == "deref" || t.name == "elem") {
		t = t.args[0]
	}
	return t
}

// find returns the secret in a value, with how it was recognised.
func (w *secretWalk) find(t *Term) (*Term, string) {
	if t == nil || w.seen[t] {
		return nil, ""
	}
	w.seen[t] = true
	switch t.op {
	case OLen, OPred, OLe, OEq, OSeqEq, ONot, OAnd, OBool:
		return nil, ""
	case OSub:
		// the type prefix of a key's text
		if lo, ok := t.args[1].int64(); ok {
			if n, ok := t.args[2].int64(); ok && lo == 0 && n <= 4 && w.texts[t.args[0]] {
				return nil, ""
			}
		}
		return w.find(t.args[0])
	case OAt:
		if w.isLen(t) {
			return nil, ""
		}
	case OSlice, OPtr, OFld, OIdx:
		return w.find(w.k.e.snap(w.st, t))
	case OSym:
		if w.roots[t] {
			return t, "an argument"
		}
		if strings.HasPrefix(t.name, "obj") || strings.Contains(t.name, "loop") {
			if t.typ != nil && isTextual(t.typ) {
				return t, "a value that is not understood"
			}
		}
		return nil, ""
	case OApp:
		if isCount(t) {
			return nil, ""
		}
		if strings.HasPrefix(t.name, "err:") && !carriesText.MatchString(t.name) {
			return nil, "" // the error of an operation examined on its own, or a fixed text of a library
		}
		switch t.name {
		case "nameof", "mpval:array", "mpval:map", "mpval:uint8": // which algorithm it is for; a number of elements
			return nil, ""
		}
		if t.name == "havocN" || strings.HasPrefix(t.name, "havoc") {
			return t, "bytes whose origin is not understood or random"
		}
		if fieldApp.MatchString(t.name) || t.name == "deref" || t.name == "elem" {
			r := w.root(t)
			if w.roots[r] {
				if t.typ != nil && isTextual(t.typ) {
					return t, "content of an argument"
				}
				return nil, ""
			}
			if r.op == OApp {
				for _, a := range r.args {
					if x, why := w.find(a); x != nil {
						return x, why
					}
				}
			}
			return nil, ""
		}
	}
	for _, a := range t.args {
		if x, why := w.find(a); x != nil {
			return x, why
		}
	}
	return nil, ""
}

func checkX01(k *Checker) {
	k.rule("every operation on secret material is interpreted with unconstrained arguments; the value of every error it returns, of every panic, and of everything it hands to a printing or logging function is walked down to the arguments it was computed from: no byte or text that is, or comes out of, a secret argument, the key material of a key object or a random source may be part of it, except its length and the first four characters of a text")
	values, secrets := 0, 0
	roots, texts := map[*Term]bool{}, map[*Term]bool{}
	bad := func(st *State, roots map[*Term]bool, v *Term, pos, what string) {
		values++
		w := &secretWalk{k, roots, texts, st, map[*Term]bool{}, nil}
		if x, why := w.find(st.canon(v)); x != nil {
			k.violate(pos, "%s contains something secret: %s (%s) in %s", what, x, why, v).with(st)
		}
	}
	printing := func(n string) bool {
		for _, p := range []string{"fmt.Print", "fmt.Fprint", "log.", "(*log.Logger)", "log/slog.", "print", "os.WriteFile", "(*os.File).Write", "io.WriteString"} {
			if strings.HasPrefix(n, p) {
				return true
			}
		}
		return false
	}
	k.onSweep = func(fn *ssa.Function, args []*Term) {
		roots, texts = map[*Term]bool{}, map[*Term]bool{}
		for i, p := range fn.Params {
			if secretParam(fn, i) {
				secrets++
				r := mkSym(fmt.Sprintf("a%d", i), p.Type())
				roots[r] = true
				if isStringType(p.Type()) || strings.HasSuffix(fn.Name(), "Text") {
					texts[r] = true
				}
			}
		}
		k.e.onExternal = func(st *State, name, pos string, as []*Term) {
			if printing(name) {
				for _, a := range as {
					bad(st, roots, a, pos, "what "+shortFn(fn.String())+" gives to "+name)
				}
			}
		}
	}
	n := k.sweep(secretPkgs, nil, func(r *sweepRun) {
		for _, x := range r.xs {
			if x.pan {
				if x.panV != nil {
					bad(x.st, roots, x.panV, k.p.pos(x.pos), "a panic of "+shortFn(r.fn.String()))
				}
				continue
			}
			for i, v := range x.ret {
				if isErrorType(r.fn.Signature.Results().At(i).Type()) && v.op != ONil {
					bad(x.st, roots, v, k.p.pos(x.pos), "an error of "+shortFn(r.fn.String()))
				}
			}
		}
	})
	k.onSweep = nil
	k.count("operations", n)
	k.count("secret_arguments", secrets)
	k.count("values", values)
	k.atLeast("operations on secrets", n, 80)
	k.atLeast("secret arguments", secrets, 60)
	k.bridgeSecrets()
}
