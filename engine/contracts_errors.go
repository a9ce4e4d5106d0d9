package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["E01"] = checkE01 }

// ---- swallowed failures ----

// noteFailures marks the exits of a call that report a failure.
func (e *Engine) noteFailures(name, pos string, sig *types.Signature, exits []Exit) []Exit {
	n := sig.Results().Len()
	if n == 0 {
		return exits
	}
	last := sig.Results().At(n - 1).Type()
	isErr := isErrorType(last)
	if !isErr && (n < 2 || !isBoolType(last)) {
		return exits
	}
	switch name {
	case "errors.New", "fmt.Errorf":
		return exits
	}
	if strings.HasPrefix(name, "github.com/pkg/errors.") || strings.HasSuffix(name, ".Error") {
		return exits // makes an error, does not fail
	}
	var out []Exit
	for _, x := range exits {
		if x.pan || x.st.dead || len(x.ret) != n {
			out = append(out, x)
			continue
		}
		l := mkNot(x.ret[n-1])
		if isErr {
			l = mkNot(e.isNil(x.ret[n-1]))
		}
		bad, good := fork(x.st, l)
		if good != nil && !good.dead {
			y := x
			y.st = good
			out = append(out, y)
		}
		if bad != nil && !bad.dead {
			y := x
			y.st = bad
			y.st.events = append(y.st.events[:len(y.st.events):len(y.st.events)], event{kind: "failure:" + name, pos: pos})
			out = append(out, y)
		}
	}
	return out
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

var errorPkgs = []string{"pkg/address", "pkg/b32", "pkg/bip32", "pkg/bitset256", "pkg/key", "pkg/keyaddr", "pkg/signature", "pkg/signature/algorithms/null", "pkg/signature/algorithms/secp256k1", "pkg/signature/algorithms/ed25519", "pkg/words", "pkg/eai", "pkg/types", "pkg/signed", "pkg/unsigned", "pkg/pricecurve"}

func checkE01(k *Checker) {
	k.rule("every exported operation is interpreted with unconstrained arguments and every call on the way, of a library function, of an interface method or of another operation, made to fail in every way it can; on every exit that saw a failure the operation must itself report failure: a non-nil error, a false result, or a panic")
	found := map[string]bool{}
	ops := 0
	k.onSweep = func(*ssa.Function, []*Term) { k.e.trackFailures = true }
	n := k.sweep(errorPkgs, nil, func(r *sweepRun) {
		sig := r.fn.Signature
		m := sig.Results().Len()
		for _, x := range r.xs {
			if x.pan {
				continue
			}
			var fs []string
			for _, ev := range x.st.events {
				if i := strings.Index(ev.kind, "failure:"); i >= 0 {
					fs = append(fs, ev.kind[i+8:]+" at "+ev.pos)
				}
			}
			if len(fs) == 0 {
				continue
			}
			ops++
			reported := false
			for i := 0; i < m; i++ {
				t := sig.Results().At(i).Type()
				switch {
				case isErrorType(t):
					reported = reported || x.st.decide(k.e.isNil(x.ret[i])) == -1
				case isBoolType(t):
					reported = reported || x.st.decide(x.ret[i]) == -1
				}
			}
			if !reported && !excusedFailure(r.fn, fs) {
				for _, f := range fs {
					found[shortFn(r.fn.String())+" reports success although a call failed: "+shortFn(f)] = true
				}
			}
		}
	})
	k.onSweep = nil
	var l []string
	for f := range found {
		l = append(l, f)
	}
	sort.Strings(l)
	for _, f := range l {
		k.violate("-", "%s", f)
	}
	k.count("operations", n)
	k.count("failing_exits", ops)
	k.atLeast("exported operations", n, 200)
	k.atLeast("exits after a failure", ops, 300)
}

// excusedFailure recognises the documented fall-backs.
func excusedFailure(fn *ssa.Function, fs []string) bool {
	r := fn.Signature.Results()
	root := fs[0]
	switch rel := strings.TrimPrefix(fn.Pkg.Pkg.Path(), modPath+"/"); {
	case (fn.Name() == "String" || fn.Name() == "FullString") && r.Len() == 1 && isStringType(r.At(0).Type()) && rel == "pkg/signature":
		return true // text for display of a key that cannot be encoded
	case rel == "pkg/keyaddr" && strings.HasPrefix(root, "(*"+modPath+"/pkg/key.ExtendedKey).UnmarshalText "):
		n := 0
		for _, f := range fs {
			if !strings.HasPrefix(f, modPath+"/pkg/keyaddr.") {
				n++
			}
		}
		return n == 1 // the old key format is tried next
	case rel == "pkg/types" && strings.HasPrefix(root, "time.Parse "):
		return len(fs) == 1 // the next format is tried
	}
	return false
}
