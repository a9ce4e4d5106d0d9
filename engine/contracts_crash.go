package main

import (
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["P01"] = checkP01
}

// ---- every exported operation on unconstrained arguments ----

var crashPkgs = []string{"pkg/address", "pkg/b32", "pkg/bip32", "pkg/bitset256", "pkg/key", "pkg/keyaddr", "pkg/signature", "pkg/signature/algorithms/null", "pkg/signature/algorithms/secp256k1", "pkg/signature/algorithms/ed25519", "pkg/words"}

type sweepRun struct {
	fn   *ssa.Function
	e    *Engine
	args []*Term
	xs   []Exit
}

// wellFormed assumes what the constructors of a type guarantee for a value of it.
func (k *Checker) wellFormed(st *State, t types.Type, v *Term, d int) {
	e := k.e
	if d > 4 {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		st.assume(mkNot(e.isNil(v)))
		if _, ok := u.Elem().Underlying().(*types.Struct); ok {
			k.wellFormed(st, u.Elem(), e.load(st, e.resolve(v, u.Elem())), d+1)
		}
	case *types.Interface:
		if u.NumMethods() > 0 {
			st.assume(mkNot(e.isNil(v)))
		}
	case *types.Struct:
		if v.op != OStruct {
			return
		}
		for i := 0; i < u.NumFields() && i < len(v.args); i++ {
			switch u.Field(i).Type().Underlying().(type) {
			case *types.Struct, *types.Interface:
				k.wellFormed(st, u.Field(i).Type(), v.args[i], d+1)
			}
		}
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "Address" && n.Obj().Pkg().Path() == modPath+"/pkg/address" && len(v.args) == 1 {
			st.assume(mkEqInt(seqLen(e.seqOf(st, v.args[0])), mkInt(48)))
		}
	}
}

func numericPkg(path string) bool {
	switch strings.TrimPrefix(path, modPath+"/") {
	case "pkg/eai", "pkg/types", "pkg/signed", "pkg/unsigned", "pkg/pricecurve":
		return true
	}
	return false
}

// sweep interprets every exported operation of the packages with arguments that are unconstrained except for being
// well-formed objects.
func (k *Checker) sweep(pkgs []string, skip func(fn *ssa.Function) bool, visit func(r *sweepRun)) int {
	var fns []*ssa.Function
	for _, fn := range k.p.funcs {
		if fn.Pkg == nil || !isExportedFn(fn) || fn.Blocks == nil {
			continue
		}
		rel := strings.TrimPrefix(fn.Pkg.Pkg.Path(), modPath+"/")
		for _, q := range pkgs {
			if rel == q && (skip == nil || !skip(fn)) {
				fns = append(fns, fn)
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	n := 0
	for _, fn := range fns {
		if s := os.Getenv("NDONLY"); s != "" && !strings.Contains(fn.String(), s) {
			continue
		}
		t0 := time.Now()
		switch {
		case strings.Contains(fn.Pkg.Pkg.Path(), "pkg/keyaddr"):
			k.facade()
		case strings.Contains(fn.Pkg.Pkg.Path(), "pkg/signature") || strings.Contains(fn.Pkg.Pkg.Path(), "pkg/key"):
			ck := fn.Name() == "AddChecksum" || fn.Name() == "CheckChecksum"
			k.sigEngine(!ck)
			delete(k.e.opaque, fn.String())
			if fn.Name() == "DeriveFrom" {
				// single steps are operations of their own
				for _, o := range []string{"Child", "HardenedChild", "Public"} {
					k.operation("pkg/key", "(*ExtendedKey)."+o, o, false)
				}
			}
		case numericPkg(fn.Pkg.Pkg.Path()):
			k.fresh()
			// every operation is examined on its own
			for _, f := range k.p.funcs {
				if f == fn || f.Pkg == nil || !isExportedFn(f) || !numericPkg(f.Pkg.Pkg.Path()) {
					continue
				}
				byVal := true
				for _, q := range f.Params {
					switch q.Type().Underlying().(type) {
					case *types.Pointer, *types.Interface:
						byVal = false
					}
				}
				if byVal {
					k.operation(strings.TrimPrefix(f.Pkg.Pkg.Path(), modPath+"/"), f.RelString(f.Pkg.Pkg), f.Name(), false)
				}
			}
		default:
			k.fresh()
		}
		k.e.coarseOK = true
		st := newState()
		args := k.symArgs(fn)
		for i, a := range args {
			k.wellFormed(st, fn.Params[i].Type(), a, 0)
		}
		if k.onSweep != nil {
			k.onSweep(fn, args)
		}
		xs, ok := k.run(fn, st, args)
		k.e.onExternal = nil
		n++
		if ok {
			visit(&sweepRun{fn, k.e, args, xs})
		}
		if os.Getenv("NDONLY") != "" || os.Getenv("NDSWEEP") != "" {
			println(shortFn(fn.String()), time.Since(t0).Milliseconds(), "ms")
		}
		k.clearObs()
	}
	return n
}

func checkP01(k *Checker) {
	k.rule("every exported operation of the packages is interpreted with unconstrained byte slices, strings and numbers and arbitrary well-formed objects; every index, slice, dereference, type assertion, division and allocation reached must be shown to be within its limits, and no panic reachable")
	n := k.sweep(crashPkgs, nil, func(r *sweepRun) { k.noPanics(nil) })
	k.count("operations", n)
	k.atLeast("exported operations", n, 120)
}
