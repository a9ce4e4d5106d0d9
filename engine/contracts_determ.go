package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["D01"] = checkD01 }

// ---- determinism: an effect analysis of everything exported operations can reach ----

// generators draw on randomness by contract.
func generator(fn *ssa.Function) bool {
	rel := strings.TrimPrefix(fn.Pkg.Pkg.Path(), modPath+"/")
	switch rel {
	case "pkg/key", "pkg/bip32":
		return fn.Name() == "GenerateSeed"
	case "pkg/signature":
		return fn.Signature.Recv() == nil && (fn.Name() == "Generate" || fn.Name() == "Match")
	case "pkg/pricecurve":
		return strings.HasPrefix(fn.Name(), "Approx")
	}
	return strings.HasPrefix(rel, "pkg/signature/algorithms/") && fn.Name() == "Generate"
}

// deterministicPkgs: the results of functions of these packages depend on their arguments alone, except as listed in
// ambientFuncs.
var deterministicPkgs = map[string]bool{
	"bufio": true, "bytes": true, "cmp": true, "container/heap": true, "container/list": true, "crypto": true,
	"crypto/aes": true, "crypto/cipher": true, "crypto/ecdsa": true, "crypto/ed25519": true, "crypto/elliptic": true,
	"crypto/hmac": true, "crypto/md5": true, "crypto/sha1": true, "crypto/sha256": true, "crypto/sha512": true,
	"crypto/sha3": true, "crypto/subtle": true, "encoding": true, "encoding/ascii85": true, "encoding/asn1": true,
	"encoding/base32": true, "encoding/base64": true, "encoding/binary": true, "encoding/csv": true, "encoding/gob": true,
	"encoding/hex": true, "encoding/json": true, "encoding/pem": true, "errors": true, "fmt": true, "hash": true,
	"hash/adler32": true, "hash/crc32": true, "hash/crc64": true, "hash/fnv": true, "io": true, "iter": true,
	"maps": true, "math": true, "math/big": true, "math/bits": true, "math/cmplx": true, "path": true, "reflect": true,
	"regexp": true, "regexp/syntax": true, "slices": true, "sort": true, "strconv": true, "strings": true, "text/template": true,
	"unicode": true, "unicode/utf16": true, "unicode/utf8": true, "unsafe": true, "sync": true, "time": true,
	"github.com/btcsuite/btcd/btcec": true, "github.com/btcsuite/btcutil": true, "github.com/btcsuite/btcutil/base58": true,
	"github.com/ericlagergren/decimal": true, "github.com/sigurn/crc16": true, "github.com/pkg/errors": true, "github.com/tinylib/msgp/msgp": true, "golang.org/x/crypto/ripemd160": true,
	"golang.org/x/crypto/ed25519": true, "golang.org/x/crypto/sha3": true, "golang.org/x/crypto/blake2b": true,
	"golang.org/x/crypto/pbkdf2": true, "github.com/stretchr/testify/require": true, "syscall/js": true,
}

// ambient says why a library function's result depends on more than its arguments.
func ambient(pkg, name string) string {
	switch pkg {
	case "time":
		switch name {
		case "time.Now", "time.Since", "time.Until":
			return "the wall clock"
		case "time.After", "time.AfterFunc", "time.NewTimer", "time.NewTicker", "time.Tick", "time.Sleep":
			return "the scheduler"
		case "(time.Time).Local", "time.LoadLocation":
			return "the machine's time zone"
		}
	case "crypto/ecdsa":
		switch name {
		case "(*crypto/ecdsa.PublicKey).Equal", "(*crypto/ecdsa.PrivateKey).Equal", "(*crypto/ecdsa.PrivateKey).Public", "crypto/ecdsa.Verify", "crypto/ecdsa.VerifyASN1":
			return ""
		}
		return "a random source"
	case "crypto/ed25519", "golang.org/x/crypto/ed25519", "crypto/elliptic":
		if strings.HasSuffix(name, ".GenerateKey") {
			return "a random source"
		}
	case "github.com/btcsuite/btcd/btcec":
		if strings.HasSuffix(name, ".NewPrivateKey") || strings.HasSuffix(name, ".Encrypt") || strings.HasSuffix(name, ".GenerateSharedSecret") {
			return "a random source"
		}
	case "maps":
		switch name {
		case "maps.Keys", "maps.Values", "maps.All":
			return "the iteration order of a map"
		}
	case "reflect":
		for _, s := range []string{".MapKeys", ".MapRange", ".Pointer", ".UnsafePointer", ".UnsafeAddr", ".Select"} {
			if strings.HasSuffix(name, s) {
				return "map order, memory addresses or scheduling"
			}
		}
	case "sync":
		switch {
		case strings.HasPrefix(name, "(*sync.Pool)"), strings.HasPrefix(name, "(*sync.Map)"):
			return "state left by other calls"
		case strings.HasPrefix(name, "(*sync.WaitGroup)"), strings.HasPrefix(name, "(*sync.Cond)"):
			return "the scheduler"
		}
	case "fmt":
		if strings.Contains(name, "Scan") && !strings.Contains(name, "Sscan") {
			return "its input"
		}
	}
	return ""
}

type detAnalysis struct {
	k       *Checker
	fns     map[*ssa.Function]string // how it is reached
	global  map[ssa.Value]bool       // memory that package variables own or share
	retGlob map[*ssa.Function]bool
	inits   map[*ssa.Function]bool // run once, before any operation
	changed bool
	calls   int
	loops   int
	stores  int
}

func checkD01(k *Checker) {
	k.rule("effect analysis over the call graph: in every function an exported operation can reach, no call of a library function whose result depends on more than its arguments, no goroutine, channel operation or select, no floating-point arithmetic, no memory address turned into data, no write to memory owned by package variables (except by RegisterAlgorithm and one-time initialisation), and no loop over a map whose result could depend on the order of iteration")
	k.trust("algorithm names identify registered algorithms (property S08)")
	a := &detAnalysis{k: k, fns: map[*ssa.Function]string{}, global: map[ssa.Value]bool{}, retGlob: map[*ssa.Function]bool{}, inits: map[*ssa.Function]bool{}}
	cg := k.callGraph()
	roots := 0
	stop := func(f *ssa.Function) bool { return f.Pkg != nil && isExportedFn(f) && generator(f) }
	for _, fn := range k.p.funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Name() == "main" || !isExportedFn(fn) || generator(fn) {
			continue
		}
		roots++
		for f, by := range cg.reach(fn, stop) {
			if _, ok := a.fns[f]; !ok {
				a.fns[f] = by
			}
		}
	}
	for _, sp := range k.p.ssa {
		if !inRepoPkg(sp) || sp.Pkg.Name() == "main" {
			continue
		}
		for _, m := range sp.Members {
			f, ok := m.(*ssa.Function)
			if !ok || f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#") {
				continue
			}
			for g, by := range cg.reach(f, nil) {
				if _, ok := a.fns[g]; !ok {
					a.inits[g] = true
					a.fns[g] = by
				}
			}
		}
	}
	a.onceOnly()
	a.escape()
	var l []*ssa.Function
	for f := range a.fns {
		l = append(l, f)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	for _, f := range l {
		k.funcs[shortFn(f.String())] = true
		a.function(f)
	}
	k.count("exported_operations", roots)
	k.count("functions_reached", len(a.fns))
	k.count("library_calls", a.calls)
	k.count("map_loops", a.loops)
	k.count("writes_examined", a.stores)
	k.atLeast("exported operations", roots, 200)
	k.atLeast("calls of library functions", a.calls, 300)
	k.atLeast("writes", a.stores, 100)
}

// onceOnly finds the closures that only ever run under sync.Once.
func (a *detAnalysis) onceOnly() {
	for f := range a.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil {
					continue
				}
				switch c.Common().StaticCallee().String() {
				case "(*sync.Once).Do", "sync.OnceFunc":
					x := c.Common().Args[len(c.Common().Args)-1]
					if m, ok := x.(*ssa.MakeClosure); ok {
						x = m.Fn
					}
					if g, ok := x.(*ssa.Function); ok {
						used := 0
						for h := range a.fns {
							for _, hb := range h.Blocks {
								for _, hi := range hb.Instrs {
									for _, op := range hi.Operands(nil) {
										if *op == ssa.Value(g) {
											used++
										}
									}
								}
							}
						}
						if used == 1 {
							a.inits[g] = true
						}
					}
				}
			}
		}
	}
}

func isRef(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if isRef(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return isRef(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if isRef(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (a *detAnalysis) isGlobal(v ssa.Value) bool {
	if g, ok := v.(*ssa.Global); ok {
		return g.Pkg == nil || inRepoPkg(g.Pkg)
	}
	return a.global[v]
}

func (a *detAnalysis) mark(v ssa.Value) {
	if !a.global[v] && isRef(v.Type()) {
		a.global[v] = true
		a.changed = true
	}
}

// escape follows the memory of package variables through loads, slices, phis, calls and results.
func (a *detAnalysis) escape() {
	for a.changed = true; a.changed; {
		a.changed = false
		for f := range a.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Index, *ssa.Slice, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.TypeAssert, *ssa.Extract, *ssa.Phi, *ssa.Lookup, *ssa.SliceToArrayPointer, *ssa.Next, *ssa.Range:
						for i, op := range in.Operands(nil) {
							if i > 0 && !isPhi(in) {
								break
							}
							if *op != nil && a.isGlobal(*op) {
								if _, ok := in.(*ssa.Range); ok {
									a.global[in.(ssa.Value)] = true
								} else {
									a.mark(in.(ssa.Value))
								}
							}
						}
					case *ssa.UnOp:
						if x.Op == token.MUL && a.isGlobal(x.X) {
							a.mark(x)
						}
					case *ssa.MakeClosure:
						for i, bd := range x.Bindings {
							if a.isGlobal(bd) {
								a.mark(x.Fn.(*ssa.Function).FreeVars[i])
							}
						}
					case *ssa.Return:
						for _, r := range x.Results {
							if a.isGlobal(r) && !a.retGlob[f] && mutable(r.Type()) {
								a.retGlob[f] = true
								a.changed = true
							}
						}
					case ssa.CallInstruction:
						c := x.Common()
						if bi, ok := c.Value.(*ssa.Builtin); ok {
							if bi.Name() == "append" && a.isGlobal(c.Args[0]) {
								if v, ok := in.(ssa.Value); ok && !fullGlobal(c.Args[0]) {
									a.mark(v)
								}
							}
							continue
						}
						g := c.StaticCallee()
						if g == nil || !inRepo(g) || len(g.Params) != len(c.Args) {
							continue
						}
						for i, arg := range c.Args {
							if a.isGlobal(arg) {
								a.mark(g.Params[i])
							}
						}
						if v, ok := in.(ssa.Value); ok && a.retGlob[g] {
							a.mark(v)
						}
					}
				}
			}
		}
	}
}

func isPhi(in ssa.Instruction) bool { _, ok := in.(*ssa.Phi); return ok }

// mutable: memory that can be written through a value of this type.
func mutable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map:
		return true
	}
	return false
}

// fullGlobal: a slice variable that holds exactly the array it was initialised with, so that append copies it.
func fullGlobal(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	if !ok || g.Pkg == nil {
		return false
	}
	n, good := 0, 0
	for _, m := range g.Pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok || s.Addr != ssa.Value(g) {
					continue
				}
				n++
				if sl, ok := s.Val.(*ssa.Slice); ok && sl.Low == nil && sl.High == nil && sl.Max == nil && f.Name() == "init" {
					if _, ok := sl.X.(*ssa.Alloc); ok {
						good++
					}
				}
			}
		}
	}
	return n == 1 && good == 1
}

func (a *detAnalysis) bad(f *ssa.Function, pos token.Pos, format string, args ...interface{}) {
	where := a.k.p.pos(pos)
	by := a.fns[f]
	if by != "" && by != f.String() {
		where += " (reached from " + shortFn(by) + ")"
	}
	a.k.violate(where, shortFn(f.String())+": "+format, args...)
}

func (a *detAnalysis) function(f *ssa.Function) {
	init := a.inits[f]
	registrar := f.Pkg != nil && onlyFrom(a.k.callGraph(), a.fns, f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Go:
				a.bad(f, x.Pos(), "starts a goroutine: the result may depend on scheduling")
			case *ssa.Select:
				a.bad(f, x.Pos(), "chooses between channels: the result may depend on scheduling")
			case *ssa.Send, *ssa.MakeChan:
				a.bad(f, in.Pos(), "uses a channel: the result may depend on scheduling")
			case *ssa.BinOp:
				if !init && (isFloat(x.Type()) || isFloat(x.X.Type())) && !bothConst(x) {
					a.bad(f, x.Pos(), "computes in floating point (%s)", x.Op)
				}
			case *ssa.Convert:
				if !init && isFloat(x.Type()) != isFloat(x.X.Type()) {
					if _, ok := x.X.(*ssa.Const); !ok {
						a.bad(f, x.Pos(), "converts between integers and floating point")
					}
				}
				if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uintptr {
					if ft, ok := x.X.Type().Underlying().(*types.Basic); ok && ft.Kind() == types.UnsafePointer {
						a.bad(f, x.Pos(), "turns a memory address into a number")
					}
				}
			case *ssa.Store:
				a.stores++
				if !init && !registrar && a.isGlobal(x.Addr) {
					a.bad(f, x.Pos(), "writes to memory of package variables: later results depend on earlier calls")
				}
			case *ssa.MapUpdate:
				a.stores++
				if !init && !registrar && a.isGlobal(x.Map) {
					a.bad(f, x.Pos(), "changes a map held by a package variable: later results depend on earlier calls")
				}
			case *ssa.Return:
				if !init && f.Pkg != nil && isExportedFn(f) {
					for _, r := range x.Results {
						if a.isGlobal(r) && handsOut(r.Type()) {
							a.bad(f, x.Pos(), "returns memory of a package variable: the caller can change later results")
						}
					}
				}
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					a.loops++
					if why := a.mapLoop(f, x); why != "" {
						a.bad(f, x.Pos(), "loop over a map whose outcome may depend on the order of iteration: %s", why)
					}
				}
			case ssa.CallInstruction:
				a.call(f, in, x.Common(), init || registrar)
			}
			a.operands(f, in)
		}
	}
}

// onlyFrom: the function serves RegisterAlgorithm (or start-up) alone.
func onlyFrom(cg *callGraph, fns map[*ssa.Function]string, f *ssa.Function) bool {
	isReg := func(g *ssa.Function) bool {
		return g.Pkg != nil && g.Pkg.Pkg.Path() == modPath+"/pkg/signature" && g.Name() == "RegisterAlgorithm"
	}
	if isReg(f) {
		return true
	}
	if isExportedFn(f) {
		return false
	}
	n := 0
	for g := range fns {
		if g == f || isReg(g) || g.Name() == "init" || strings.HasPrefix(g.Name(), "init#") {
			if isReg(g) {
				n++
			}
			continue
		}
		for _, h := range cg.out[g] {
			if h == f && !onlyFrom2(cg, fns, g, f, isReg) {
				return false
			}
		}
	}
	return n > 0 && reachesFrom(cg, fns, f, isReg)
}

func onlyFrom2(cg *callGraph, fns map[*ssa.Function]string, g, f *ssa.Function, isReg func(*ssa.Function) bool) bool {
	if g.Parent() != nil {
		g = g.Parent()
		if isReg(g) {
			return true
		}
	}
	return !isExportedFn(g) && g != f && onlyFrom(cg, fns, g)
}

func reachesFrom(cg *callGraph, fns map[*ssa.Function]string, f *ssa.Function, isReg func(*ssa.Function) bool) bool {
	for g := range fns {
		if isReg(g) {
			if _, ok := cg.reach(g, nil)[f]; ok {
				return true
			}
		}
	}
	return false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

func bothConst(x *ssa.BinOp) bool {
	_, p := x.X.(*ssa.Const)
	_, q := x.Y.(*ssa.Const)
	return p && q
}

// handsOut: byte slices, lists and maps; objects such as algorithms and errors are immutable to callers.
func handsOut(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	case *types.Pointer:
		_, arr := u.Elem().Underlying().(*types.Array)
		return arr
	}
	return false
}

// operands looks for values of the environment.
func (a *detAnalysis) operands(f *ssa.Function, in ssa.Instruction) {
	for _, op := range in.Operands(nil) {
		if op == nil || *op == nil {
			continue
		}
		switch x := (*op).(type) {
		case *ssa.Global:
			if x.Pkg == nil || inRepoPkg(x.Pkg) {
				continue
			}
			switch p := x.Pkg.Pkg.Path(); {
			case p == "time" && x.Name() == "Local":
				a.bad(f, in.Pos(), "depends on the machine's time zone (time.Local)")
			case p == "crypto/rand" || p == "os":
				a.bad(f, in.Pos(), "depends on %s.%s", p, x.Name())
			}
		case *ssa.Function:
			if !inRepo(x) {
				if c, ok := in.(ssa.CallInstruction); !ok || c.Common().Value != ssa.Value(x) {
					a.library(f, in.Pos(), x, nil)
				}
			}
		}
	}
}

func (a *detAnalysis) library(f *ssa.Function, pos token.Pos, g *ssa.Function, in ssa.Instruction) {
	pkg := ""
	if g.Pkg != nil {
		pkg = g.Pkg.Pkg.Path()
	} else if o := g.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	} else if g.Origin() != nil && g.Origin().Pkg != nil {
		pkg = g.Origin().Pkg.Pkg.Path()
	}
	if pkg == "" {
		return
	}
	name := g.String()
	if g.Origin() != nil {
		name = g.Origin().String()
	}
	if !deterministicPkgs[pkg] {
		a.bad(f, pos, "calls %s, whose result is not known to depend on its arguments alone", name)
		return
	}
	if why := ambient(pkg, name); why != "" {
		if pkg == "maps" && in != nil && sortedNext(in) {
			return
		}
		a.bad(f, pos, "calls %s: the result depends on %s", name, why)
		return
	}
	if pkg == "time" && in != nil {
		switch name {
		case "time.Unix", "time.UnixMilli", "time.UnixMicro":
			if why := localUse(in.(ssa.Value), 0); why != "" {
				a.bad(f, pos, "uses a time in the machine's time zone (%s, %s)", name, why)
			}
		}
	}
}

// sortedNext: the only use of the sequence is to be sorted.
func sortedNext(in ssa.Instruction) bool {
	v, ok := in.(ssa.Value)
	if !ok || v.Referrers() == nil || len(*v.Referrers()) == 0 {
		return false
	}
	for _, r := range *v.Referrers() {
		c, ok := r.(ssa.CallInstruction)
		if !ok || c.Common().StaticCallee() == nil {
			return false
		}
		g := c.Common().StaticCallee()
		n := g.String()
		if g.Origin() != nil {
			n = g.Origin().String()
		}
		if n != "slices.Sorted" && n != "slices.SortedFunc" {
			return false
		}
	}
	return true
}

// localUse: what a time in the local zone is used for, other than as a moment.
func localUse(v ssa.Value, d int) string {
	if d > 4 || v.Referrers() == nil {
		return "passed on"
	}
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		c, ok := r.(ssa.CallInstruction)
		if !ok || c.Common().StaticCallee() == nil {
			return "passed on"
		}
		switch n := c.Common().StaticCallee().String(); n {
		case "(time.Time).UTC", "(time.Time).In", "(time.Time).Unix", "(time.Time).UnixNano", "(time.Time).UnixMicro", "(time.Time).UnixMilli", "(time.Time).Sub", "(time.Time).Before", "(time.Time).After", "(time.Time).Equal", "(time.Time).Compare", "(time.Time).IsZero", "(time.Time).Nanosecond":
		case "(time.Time).Add", "(time.Time).Truncate", "(time.Time).Round":
			if why := localUse(c.(ssa.Value), d+1); why != "" {
				return why
			}
		default:
			return n
		}
	}
	return ""
}

func (a *detAnalysis) call(f *ssa.Function, in ssa.Instruction, c *ssa.CallCommon, init bool) {
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		a.stores++
		if init {
			return
		}
		switch bi.Name() {
		case "append":
			if a.isGlobal(c.Args[0]) && !fullGlobal(c.Args[0]) {
				a.bad(f, in.Pos(), "appends to memory of package variables: later results depend on earlier calls")
			}
		case "copy", "delete", "clear":
			if a.isGlobal(c.Args[0]) {
				a.bad(f, in.Pos(), "%s on memory of package variables: later results depend on earlier calls", bi.Name())
			}
		}
		return
	}
	if c.IsInvoke() {
		if !init && a.isGlobal(c.Value) && c.Method.Pkg() != nil {
			switch c.Method.Pkg().Path() + "." + c.Method.Name() {
			case "io.Write", "io.Read", "hash.Reset", "hash.Sum":
				a.bad(f, in.Pos(), "%s on an object held by a package variable: later results depend on earlier calls", c.Method.Name())
			}
		}
		return
	}
	g := c.StaticCallee()
	if g == nil || inRepo(g) {
		return
	}
	a.calls++
	if g.Name() == "init" && g.Signature.Recv() == nil {
		return
	}
	a.library(f, in.Pos(), g, in)
	if v := printsAddress(c); v != nil {
		a.bad(f, in.Pos(), "formats a memory address (a value of type %s)", v.Type())
	}
	if init {
		return
	}
	for i, arg := range c.Args {
		if a.isGlobal(arg) && libraryWrites(g, i, arg) {
			a.bad(f, in.Pos(), "passes memory of package variables to %s, which may change it: later results depend on earlier calls", g.String())
		}
	}
}

// libraryWrites: whether a library function may write through its argument.
func libraryWrites(g *ssa.Function, i int, v ssa.Value) bool {
	pkg := ""
	if g.Pkg != nil {
		pkg = g.Pkg.Pkg.Path()
	}
	switch v.Type().Underlying().(type) {
	case *types.Pointer:
		switch t := strings.TrimPrefix(v.Type().String(), "*"); t {
		case "regexp.Regexp", "github.com/btcsuite/btcd/btcec.KoblitzCurve", "strings.Replacer", "sync.Once", "sync.Mutex", "sync.RWMutex", "encoding/base32.Encoding", "encoding/base64.Encoding", "time.Location", "hash/crc32.Table", "github.com/sigurn/crc16.Table", "hash/crc64.Table", "crypto/elliptic.CurveParams", "text/template.Template":
			return false
		case "math/big.Int":
			if i > 0 {
				return false
			}
			switch g.Name() {
			case "Cmp", "CmpAbs", "Sign", "Bytes", "Bit", "BitLen", "String", "Text", "Uint64", "Int64", "IsInt64", "IsUint64", "ProbablyPrime", "TrailingZeroBits", "FillBytes", "Append":
				return false
			}
		}
		return true
	case *types.Slice:
		switch pkg {
		case "sort":
			return !strings.HasPrefix(g.Name(), "Search") && !strings.HasSuffix(g.Name(), "AreSorted") && g.Name() != "IsSorted"
		case "slices":
			switch g.Name() {
			case "Sort", "SortFunc", "SortStableFunc", "Reverse", "Compact", "Delete", "Insert", "Replace", "Grow":
				return true
			}
			return strings.HasPrefix(g.Name(), "Sort[") || strings.HasPrefix(g.Name(), "Reverse[")
		case "encoding/hex", "encoding/base64", "encoding/base32":
			return (g.Name() == "Encode" || g.Name() == "Decode") && (i == 0 || i == 1 && g.Signature.Recv() != nil)
		case "encoding/binary":
			return strings.HasPrefix(g.Name(), "Put") || strings.HasPrefix(g.Name(), "Append")
		case "io":
			return strings.HasPrefix(g.Name(), "Read")
		case "strconv":
			return strings.HasPrefix(g.Name(), "Append") && i == 0
		case "github.com/tinylib/msgp/msgp":
			return strings.HasPrefix(g.Name(), "Append") && i == 0 || g.Name() == "Require" || strings.HasPrefix(g.Name(), "Read") && i > 0
		}
	}
	return false
}

// printsAddress finds an argument of a formatting function that prints as an address.
func printsAddress(c *ssa.CallCommon) ssa.Value {
	g := c.StaticCallee()
	if g.Pkg == nil || g.Pkg.Pkg.Path() != "fmt" && g.Pkg.Pkg.Path() != "github.com/pkg/errors" || len(c.Args) == 0 {
		return nil
	}
	format := ""
	for _, arg := range c.Args {
		if k, ok := arg.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			format = constant.StringVal(k.Value)
		}
	}
	sl, ok := c.Args[len(c.Args)-1].(*ssa.Slice)
	if !ok {
		return nil
	}
	arr, ok := sl.X.(*ssa.Alloc)
	if !ok || arr.Referrers() == nil {
		return nil
	}
	for _, r := range *arr.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok || ia.Referrers() == nil {
			continue
		}
		for _, s := range *ia.Referrers() {
			st, ok := s.(*ssa.Store)
			if !ok {
				continue
			}
			mi, ok := st.Val.(*ssa.MakeInterface)
			if !ok {
				continue
			}
			t := mi.X.Type()
			if strings.Contains(format, "%p") && mutable(t) {
				return mi.X
			}
			switch u := t.Underlying().(type) {
			case *types.Signature, *types.Chan:
				return mi.X
			case *types.Basic:
				if u.Kind() == types.UnsafePointer {
					return mi.X
				}
			case *types.Pointer:
				if !prints(t) {
					switch u.Elem().Underlying().(type) {
					case *types.Struct, *types.Array, *types.Slice, *types.Map:
						if inner := hasPointer(u.Elem(), 0); inner {
							return mi.X
						}
					default:
						return mi.X
					}
				}
			case *types.Struct, *types.Array, *types.Slice, *types.Map:
				if !prints(t) && !strings.Contains(format, "%T") && hasPointer(t, 0) {
					return mi.X
				}
			}
		}
	}
	return nil
}

// prints: a type with a text form of its own.
func prints(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for _, n := range []string{"Error", "String", "Format"} {
		if ms.Lookup(nil, n) != nil {
			return true
		}
	}
	return false
}

// hasPointer: printing the value prints an address inside it.
func hasPointer(t types.Type, d int) bool {
	if d > 6 || prints(t) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Chan, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointer(u.Field(i).Type(), d+1) {
				return true
			}
		}
	case *types.Array:
		return hasPointer(u.Elem(), d+1)
	case *types.Slice:
		return hasPointer(u.Elem(), d+1)
	case *types.Map:
		return hasPointer(u.Elem(), d+1) || hasPointer(u.Key(), d+1)
	}
	return false
}

// mapLoop examines a loop over a map; "" if its outcome cannot depend on the order.
func (a *detAnalysis) mapLoop(f *ssa.Function, rg *ssa.Range) string {
	var next *ssa.Next
	for _, r := range *rg.Referrers() {
		if n, ok := r.(*ssa.Next); ok {
			if next != nil {
				return "more than one loop"
			}
			next = n
		}
	}
	if next == nil {
		return ""
	}
	head := next.Block()
	// the loop: blocks that can reach the header again
	body := map[*ssa.BasicBlock]bool{head: true}
	var work []*ssa.BasicBlock
	for _, p := range head.Preds {
		if head.Dominates(p) {
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if body[b] {
			continue
		}
		body[b] = true
		work = append(work, b.Preds...)
	}
	// values derived from the current element
	elem := map[ssa.Value]bool{}
	for grow := true; grow; {
		grow = false
		for b := range body {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || elem[v] || in == ssa.Instruction(next) {
					continue
				}
				if e, ok := v.(*ssa.Extract); ok && e.Tuple == ssa.Value(next) {
					elem[v], grow = e.Index > 0, grow || e.Index > 0
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && elem[*op] {
						elem[v], grow = true, true
						break
					}
				}
			}
		}
	}
	unique := func(v ssa.Value) bool { return a.identifies(v, next, 0) }
	// leaving early
	early := map[*ssa.BasicBlock]bool{}
	for b := range body {
		for _, s := range b.Succs {
			if body[s] || b == head {
				continue
			}
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				return "leaves the loop early"
			}
			hit := b.Succs[0] == s
			cmp, ok := iff.Cond.(*ssa.BinOp)
			if ok && (cmp.Op == token.EQL && hit || cmp.Op == token.NEQ && !hit) && (unique(cmp.X) && !elem[cmp.Y] || unique(cmp.Y) && !elem[cmp.X]) {
				continue // a search for one element
			}
			early[s] = true
		}
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				return "returns from inside the loop"
			}
		}
	}
	for s := range early {
		ret, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return)
		if !ok || len(s.Instrs) > 1 {
			return "stops at whichever matching element comes first"
		}
		for _, r := range ret.Results {
			if _, ok := r.(*ssa.Const); !ok {
				return "returns whichever matching element comes first"
			}
		}
	}
	if len(early) > 1 {
		return "returns different results for different elements"
	}
	for b := range body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if elem[x.Val] || true {
					if al, ok := rootAlloc(x.Addr); ok && body[al.Block()] {
						continue
					}
					if elemIndex(x.Addr, elem) {
						continue
					}
					return "stores the element visited last"
				}
			case *ssa.MapUpdate:
				if !elem[x.Key] {
					return "sets one map entry from several elements"
				}
			case *ssa.Phi:
				if b == head && !carried(a, f, x, body, unique) {
					return "carries a value from one element to the next"
				}
			case ssa.CallInstruction:
				c := x.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append", "len", "cap", "min", "max", "delete":
						continue
					}
					return "calls " + bi.Name()
				}
				if c.IsInvoke() {
					continue
				}
				g := c.StaticCallee()
				if g == nil {
					return "calls a function value"
				}
				for _, arg := range c.Args {
					if mutable(arg.Type()) && !elem[arg] {
						if al, ok := rootAlloc(arg); !ok || !body[al.Block()] {
							return "calls " + shortFn(g.String()) + " with memory shared between elements"
						}
					}
				}
			}
		}
	}
	// values of the loop used after it
	for b := range body {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || !elem[v] || isPhi(in) || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if body[r.Block()] {
					continue
				}
				if ph, ok := r.(*ssa.Phi); ok {
					for i, ed := range ph.Edges {
						if ed == v && !a.afterSearch(ph.Block().Preds[i], ph.Block(), body, elem, unique) {
							return "uses the element visited last"
						}
					}
					continue
				}
				if !a.afterSearch(nil, r.Block(), body, elem, unique) {
					return "uses the element visited last"
				}
			}
		}
	}
	return ""
}

// afterSearch: the use (on the edge from a block, if given) lies on the exit taken when the one element searched for was found.
func (a *detAnalysis) afterSearch(from, use *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, elem map[ssa.Value]bool, unique func(ssa.Value) bool) bool {
	for p := range body {
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for i, s := range p.Succs {
			if body[s] {
				continue
			}
			cmp, ok := iff.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			hit := i == 0
			if (cmp.Op == token.EQL && hit || cmp.Op == token.NEQ && !hit) && (unique(cmp.X) && !elem[cmp.Y] || unique(cmp.Y) && !elem[cmp.X]) && (from == nil && s.Dominates(use) || from != nil && (from == p && s == use || !body[from] && s.Dominates(from))) {
				return true
			}
		}
	}
	return false
}

// identifies: no two elements of the map give the same value.
func (a *detAnalysis) identifies(v ssa.Value, next *ssa.Next, d int) bool {
	if d > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Extract:
		return x.Tuple == ssa.Value(next) && x.Index == 1
	case *ssa.Convert:
		return a.identifies(x.X, next, d+1) && widens(x)
	case *ssa.ChangeType:
		return a.identifies(x.X, next, d+1)
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g != nil && g.Name() == "NameOf" && inRepo(g) && len(x.Call.Args) == 1 {
			e, ok := x.Call.Args[0].(*ssa.Extract)
			return ok && e.Tuple == ssa.Value(next) && e.Index == 2
		}
	}
	return false
}

func widens(x *ssa.Convert) bool {
	p, ok1 := x.X.Type().Underlying().(*types.Basic)
	q, ok2 := x.Type().Underlying().(*types.Basic)
	if !ok1 || !ok2 {
		return false
	}
	size := func(b *types.Basic) int {
		switch b.Kind() {
		case types.Int8, types.Uint8:
			return 1
		case types.Int16, types.Uint16:
			return 2
		case types.Int32, types.Uint32:
			return 4
		case types.Int, types.Uint, types.Int64, types.Uint64:
			return 8
		}
		return 0
	}
	return size(p) > 0 && size(q) >= size(p)
}

func rootAlloc(v ssa.Value) (*ssa.Alloc, bool) {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Alloc:
			return x, true
		default:
			return nil, false
		}
	}
}

// elemIndex: a slot of its own for each element (indexed by the key).
func elemIndex(v ssa.Value, elem map[ssa.Value]bool) bool {
	x, ok := v.(*ssa.IndexAddr)
	return ok && elem[x.Index]
}

// carried: a loop-carried value whose final value does not depend on the order.
func carried(a *detAnalysis, f *ssa.Function, p *ssa.Phi, body map[*ssa.BasicBlock]bool, unique func(ssa.Value) bool) bool {
	var ok func(v ssa.Value, d int) bool
	ok = func(v ssa.Value, d int) bool {
		if v == ssa.Value(p) {
			return true
		}
		if d > 6 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Phi:
			if !body[x.Block()] {
				return false
			}
			for _, e := range x.Edges {
				if !ok(e, d+1) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			switch x.Op {
			case token.ADD, token.MUL, token.OR, token.AND, token.XOR:
				b, isB := x.Type().Underlying().(*types.Basic)
				if !isB || b.Info()&types.IsInteger == 0 {
					return false
				}
				return ok(x.X, d+1) && !uses(x.Y, p, body, 0) || ok(x.Y, d+1) && !uses(x.X, p, body, 0)
			}
		case *ssa.Call:
			if bi, isB := x.Call.Value.(*ssa.Builtin); isB && bi.Name() == "append" {
				return ok(x.Call.Args[0], d+1) && sortedAfter(f, p, body)
			}
			if bi, isB := x.Call.Value.(*ssa.Builtin); isB && (bi.Name() == "min" || bi.Name() == "max") {
				return true
			}
		}
		return false
	}
	for i, e := range p.Edges {
		if body[p.Block().Preds[i]] && !ok(e, 0) {
			return false
		}
	}
	return true
}

func uses(v ssa.Value, p *ssa.Phi, body map[*ssa.BasicBlock]bool, d int) bool {
	if v == ssa.Value(p) {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok || d > 8 || !body[in.Block()] {
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && uses(*op, p, body, d+1) {
			return true
		}
	}
	return false
}

// sortedAfter: the list is sorted after the loop, before anything else reads it.
func sortedAfter(f *ssa.Function, p *ssa.Phi, body map[*ssa.BasicBlock]bool) bool {
	var sorts []ssa.Instruction
	for _, b := range f.Blocks {
		if body[b] {
			continue
		}
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok || c.Common().StaticCallee() == nil {
				continue
			}
			g := c.Common().StaticCallee()
			pk := ""
			if g.Pkg != nil {
				pk = g.Pkg.Pkg.Path()
			} else if g.Origin() != nil && g.Origin().Pkg != nil {
				pk = g.Origin().Pkg.Pkg.Path()
			}
			if pk != "sort" && pk != "slices" || len(c.Common().Args) == 0 {
				continue
			}
			x := c.Common().Args[0]
			if m, ok := x.(*ssa.MakeInterface); ok {
				x = m.X
			}
			if m, ok := x.(*ssa.ChangeType); ok {
				x = m.X
			}
			if x == ssa.Value(p) {
				sorts = append(sorts, in)
			}
		}
	}
	if p.Referrers() == nil {
		return false
	}
	for _, r := range *p.Referrers() {
		if body[r.Block()] {
			continue
		}
		ok := false
		for _, s := range sorts {
			if s == r || s.Block() == r.Block() && instrIndex(s) < instrIndex(r) || s.Block() != r.Block() && s.Block().Dominates(r.Block()) {
				ok = true
			}
			switch x := r.(type) {
			case *ssa.MakeInterface, *ssa.ChangeType:
				_ = x
				ok = true
			case ssa.CallInstruction:
				if bi, isB := x.Common().Value.(*ssa.Builtin); isB && bi.Name() == "len" {
					ok = true
				}
			}
		}
		if !ok {
			return false
		}
	}
	return len(sorts) > 0
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}
