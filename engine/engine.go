package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Engine interprets the SSA form of the repository over the abstract domain of terms.
type Engine struct {
	phases           map[*loop]int // loops being taken up again after a flag changed
	p                *Program
	objs             []objInfo // by id
	objOf            map[*Term]int
	globals          map[*ssa.Global]int
	baseHeap         map[int]*Term // contents established by package initialisation and never changed afterwards
	models           map[string]modelFn
	opaque           map[string]modelFn // calls summarised by their contract in the current analysis
	obs              []*Oblig
	obsTotal         int
	fresh            int
	loops            map[*ssa.Function]*loopInfo
	sums             []*loopSummary
	steps            int
	stack            []*ssa.Function
	deadline         time.Time
	inInit           bool
	trackFailures    bool
	tape             []tapeItem // what a stream reader finds
	useTape          bool
	onExternal       func(st *State, name, pos string, args []*Term)
	coarse           bool // joins may turn conditions into numbers
	morePar          int  // cases a loop may be told apart into beyond the usual number
	coarseOK         bool // a loop with too many cases may be continued that way
	mutated          map[*ssa.Global]bool
	pure             map[string]bool
	unknown          map[string]int              // external functions met without a model
	noWrap           func(fn *ssa.Function) bool // functions whose integer arithmetic must not wrap around
	loopAssume       func(l *loopSummary, st *State)
	rxMatch, rxParts []string // expressions whose language, or whose captured parts, the property is about
	initDone         bool
	funcsSeen        map[*ssa.Function]bool
	trackRecv        bool
	initMaps         map[string][]*Term                   // entries of package-level maps after initialisation, by type
	mapVal           func(mt *types.Map, val *Term) *Term // invariants of values held in maps
}

type objInfo struct {
	typ    types.Type // type of the content
	init   *Term      // content when first seen (nil for allocations, which are always in the heap)
	origin *Term      // the symbolic pointer or slice this object backs
	name   string
	nonNil bool
	instr  ssa.Instruction
}

// Oblig is a place that would panic at run time and is not excluded by the facts known there.
type Oblig struct {
	kind  string
	fn    *ssa.Function
	pos   token.Pos
	lit   *Term
	stack []string
	sure  bool
	lits  []string
}

type budgetError struct{ msg string }

var theEngine *Engine

type modelFn func(e *Engine, c *callCtx) []Exit

type callCtx struct {
	st    *State
	name  string
	args  []*Term
	ctx   *fnCtx
	instr ssa.Instruction
	sig   *types.Signature
	fn    *ssa.Function
	depth int
}

// Exit is one way a call ends.
type Exit struct {
	st   *State
	ret  []*Term
	pan  bool
	panV *Term
	pos  token.Pos
}

func NewEngine(p *Program) *Engine {
	e := &Engine{p: p, objs: make([]objInfo, 1), objOf: map[*Term]int{}, globals: map[*ssa.Global]int{}, baseHeap: map[int]*Term{},
		opaque: map[string]modelFn{}, initMaps: map[string][]*Term{}, loops: map[*ssa.Function]*loopInfo{}, unknown: map[string]int{}, funcsSeen: map[*ssa.Function]bool{}}
	theEngine = e
	s256Ptr = nil
	e.models = buildModels()
	e.deadline = time.Now().Add(780 * time.Second)
	e.findMutated()
	return e
}

func (e *Engine) freshID() int { e.fresh++; return e.fresh }

func (e *Engine) freshSym(name string, t types.Type) *Term {
	return e.materialize(mkSym(fmt.Sprintf("%s#%d", name, e.freshID()), t), t)
}

func (e *Engine) newObj(t types.Type, name string) int {
	e.objs = append(e.objs, objInfo{typ: t, name: name})
	return len(e.objs) - 1
}

// alloc creates an object with the given content.
func (e *Engine) alloc(st *State, t types.Type, content *Term, name string) *Term {
	o := e.newObj(t, name)
	st.heap[o] = content
	return mkPtr(o)
}

// objFor is the object an opaque pointer or slice refers to.
func (e *Engine) objFor(p *Term, elem types.Type, content func(o int) *Term) int {
	if o, ok := e.objOf[p]; ok {
		return o
	}
	o := e.newObj(elem, p.String())
	e.objOf[p] = o
	e.objs[o].origin = p
	e.objs[o].init = content(o)
	return o
}

// materialize gives an opaque value of a type its structure.
func (e *Engine) materialize(t *Term, typ types.Type) *Term {
	if typ == nil {
		return t
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkPred("true", t)
		case u.Info()&types.IsString != 0:
			return seqOfAtom(t)
		}
		return t
	case *types.Array:
		return seqOfAtom(t)
	case *types.Slice:
		o := e.objFor(t, types.NewArray(u.Elem(), -1), func(int) *Term { return seqOfAtom(t) })
		n := atomLen(t)
		return mkSlice(mkPtr(o), t0, n, n)
	case *types.Struct:
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = e.materialize(mkApp(fmt.Sprintf("f%d", i), u.Field(i).Type(), t), u.Field(i).Type())
		}
		return mkStruct(fs...)
	case *types.Tuple:
		fs := make([]*Term, u.Len())
		for i := range fs {
			fs[i] = e.materialize(mkApp(fmt.Sprintf("r%d", i), u.At(i).Type(), t), u.At(i).Type())
		}
		return mkTuple(fs...)
	}
	return t
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return mkSeq()
		case u.Info()&types.IsFloat != 0, u.Info()&types.IsComplex != 0:
			return intern(Term{op: OFloat, str: "0"})
		case u.Kind() == types.UnsafePointer:
			return mkNil(t)
		}
		return t0
	case *types.Array:
		return mkSeq(mkRep(zeroOf(u.Elem()), mkInt(u.Len()), isByteType(u.Elem())))
	case *types.Struct:
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = zeroOf(u.Field(i).Type())
		}
		return mkStruct(fs...)
	}
	return mkNil(nil)
}

// ---- heap ----

func (e *Engine) content(st *State, o int) *Term {
	if c, ok := st.heap[o]; ok {
		return c
	}
	if c, ok := e.baseHeap[o]; ok {
		return c
	}
	if e.objs[o].init != nil {
		return e.objs[o].init
	}
	// uninitialised: an object of another partition; opaque
	t := e.objs[o].typ
	c := e.materialize(mkSym(fmt.Sprintf("obj%d", o), t), t)
	e.objs[o].init = c
	return c
}

// resolve maps opaque pointers to objects.
func (e *Engine) resolve(p *Term, elem types.Type) *Term {
	switch p.op {
	case OPtr, OFld, OIdx, ONil:
		return p
	}
	o := e.objFor(p, elem, func(o int) *Term { return e.materialize(mkApp("deref", elem, p), elem) })
	return mkPtr(o)
}

func rootObj(p *Term) int {
	for p.op == OFld || p.op == OIdx {
		p = p.args[0]
	}
	if p.op == OPtr {
		return p.n
	}
	return 0
}

func (e *Engine) load(st *State, p *Term) *Term {
	switch p.op {
	case OPtr:
		return e.content(st, p.n)
	case OFld:
		b := e.load(st, p.args[0])
		if b.op == OStruct && p.n < len(b.args) {
			return b.args[p.n]
		}
		t := e.typeAt(p)
		return e.materialize(mkApp(fmt.Sprintf("f%d", p.n), t, b), t)
	case OIdx:
		b := e.load(st, p.args[0])
		return e.seqAt(st, b, p.args[1], e.typeAt(p))
	}
	panic(budgetError{"load through " + p.String()})
}

// typeAt is the type of the value a pointer term points to.
func (e *Engine) typeAt(p *Term) types.Type {
	switch p.op {
	case OPtr:
		return e.objs[p.n].typ
	case OFld:
		if s, ok := e.typeAt(p.args[0]).Underlying().(*types.Struct); ok {
			return s.Field(p.n).Type()
		}
	case OIdx:
		switch a := e.typeAt(p.args[0]).Underlying().(type) {
		case *types.Array:
			return a.Elem()
		}
	}
	return types.Typ[types.Invalid]
}

func (e *Engine) store(st *State, p, v *Term) {
	switch p.op {
	case OPtr:
		st.heap[p.n] = v
	case OFld:
		b := e.load(st, p.args[0])
		if b.op != OStruct {
			panic(budgetError{"store to a field of an opaque struct"})
		}
		as := append([]*Term{}, b.args...)
		as[p.n] = v
		e.store(st, p.args[0], mkStruct(as...))
	case OIdx:
		b := e.load(st, p.args[0])
		e.store(st, p.args[0], e.seqStore(st, b, p.args[1], v, e.typeAt(p)))
	default:
		panic(budgetError{"store through " + p.String()})
	}
}

// ---- sequences under a state ----

func (e *Engine) seqAtQuiet(st *State, s, i *Term) *Term {
	if s.op != OSeq {
		return nil
	}
	// find the segment
	pos := t0
	from := 0
	if want, isC := i.int64(); isC && want >= 0 {
		at := int64(0)
		for k, g := range s.args {
			n, isC := segConstLen(g)
			if !isC {
				break
			}
			if want < at+n {
				return e.segAt(g, mkInt(want-at))
			}
			at += n
			from = k + 1
		}
		pos = mkInt(at)
	}
	for _, g := range s.args[from:] {
		n := segLen(g)
		end := tAdd(pos, n)
		if st.decide(mkLt(i, end)) == 1 {
			if st.decide(mkLe(pos, i)) == 1 {
				return e.segAt(g, tSub(i, pos))
			}
			return nil
		}
		if st.decide(mkLe(end, i)) != 1 {
			return nil
		}
		pos = end
	}
	return nil
}

func (e *Engine) seqAt(st *State, s, i *Term, et types.Type) *Term {
	i = st.canon(i)
	if len(s.args) == 1 && s.op == OSeq && s.args[0].op != OLit && s.args[0].op != OElem {
		return e.segAt(s.args[0], i)
	}
	if v := e.seqAtQuiet(st, s, i); v != nil {
		return v
	}
	byteE := et != nil && isByteType(et)
	if c, ok := seqConst(s); ok && byteE && len(c) > 0 {
		lo, hi := c[0], c[0]
		for k := 0; k < len(c); k++ {
			if c[k] < lo {
				lo = c[k]
			}
			if c[k] > hi {
				hi = c[k]
			}
		}
		return mkAppR("litat", big.NewInt(int64(lo)), big.NewInt(int64(hi)), s, i)
	}
	return e.materialize(mkApp("seqat", et, s, i), et)
}

// split cuts a sequence at position i; ok is false when the position is not known relative to the segments.
func (e *Engine) split(st *State, s, i *Term) (a, b *Term, ok bool) {
	if s.op != OSeq {
		return nil, nil, false
	}
	i = st.canon(i)
	if i == t0 {
		return mkSeq(), s, true
	}
	pos := t0
	from := 0
	if want, isC := i.int64(); isC {
		at := int64(0)
		for k, g := range s.args {
			n, isC := segConstLen(g)
			if !isC || at+n > want {
				break
			}
			at += n
			from = k + 1
			if at == want {
				return mkSeq(s.args[:k+1]...), mkSeq(s.args[k+1:]...), true
			}
		}
		pos = mkInt(at)
	}
	for k := from; k < len(s.args); k++ {
		g := s.args[k]
		n := segLen(g)
		end := tAdd(pos, n)
		if d := tSub(i, end); d == t0 || st.decide(mkEqInt(i, end)) == 1 {
			return mkSeq(s.args[:k+1]...), mkSeq(s.args[k+1:]...), true
		}
		if st.decide(mkLt(i, end)) == 1 || (g.op != OLit || uniform(g.str)) && g.op != OElem && st.decide(mkLe(i, end)) == 1 {
			if st.decide(mkLe(pos, i)) != 1 {
				return nil, nil, false
			}
			off := tSub(i, pos)
			l, r := e.segCut(st, g, off)
			if l == nil {
				return nil, nil, false
			}
			la := append(append([]*Term{}, s.args[:k]...), l...)
			ra := append(append([]*Term{}, r...), s.args[k+1:]...)
			return mkSeq(la...), mkSeq(ra...), true
		}
		if st.decide(mkLe(end, i)) != 1 {
			return nil, nil, false
		}
		pos = end
	}
	if st.decide(mkEqInt(i, pos)) == 1 {
		return s, mkSeq(), true
	}
	return nil, nil, false
}

// uniform: one byte repeated.
func uniform(s string) bool { return len(s) > 1 && strings.Count(s, s[:1]) == len(s) }

func (e *Engine) segCut(st *State, g, off *Term) (l, r []*Term) {
	if g.op == OLit {
		k, ok := st.constOf(off)
		if !ok && uniform(g.str) {
			v := mkInt(int64(g.str[0]))
			return []*Term{mkRep(v, off, true)}, []*Term{mkRep(v, tSub(segLen(g), off), true)}
		}
		if !ok || k < 0 || k > int64(len(g.str)) {
			return nil, nil
		}
		return []*Term{intern(Term{op: OLit, str: g.str[:k]})}, []*Term{intern(Term{op: OLit, str: g.str[k:]})}
	}
	if g.op == OElem {
		if st.decide(mkEqInt(off, t0)) == 1 {
			return []*Term{}, []*Term{g}
		}
		return nil, nil
	}
	n := segLen(g)
	return []*Term{segSub(g, t0, off)}, []*Term{segSub(g, off, tSub(n, off))}
}

// subSeq is s[off:off+n].
func (e *Engine) subSeq(st *State, s, off, n *Term) *Term {
	if s.op == OSeq {
		if off == t0 && (seqLen(s) == n || st.decide(mkEqInt(seqLen(s), n)) == 1) {
			return s
		}
		if st.decide(mkEqInt(n, t0)) == 1 {
			return mkSeq()
		}
		if _, r, ok := e.split(st, s, off); ok {
			if seqLen(r) == n || st.decide(mkEqInt(seqLen(r), n)) == 1 {
				return r
			}
			if l, _, ok := e.split(st, r, n); ok {
				return l
			}
			if len(r.args) > 0 && r.args[0].op == OSub && false {
				return nil
			}
		}
	}
	return mkSeq(mkSub(intern(Term{op: OApp, name: "seq", args: []*Term{s}}), off, n))
}

func (e *Engine) seqStore(st *State, s, i, v *Term, et types.Type) *Term {
	return e.seqStoreRange(st, s, i, mkSeq(mkElem(v, isByteType(et))))
}

// seqStoreRange replaces the part of s starting at i by r.
func (e *Engine) seqStoreRange(st *State, s, i, r *Term) *Term {
	n := seqLen(r)
	if l, rest, ok := e.split(st, s, i); ok {
		if _, tail, ok := e.split(st, rest, n); ok {
			return mkSeq(l, r, tail)
		}
	}
	return mkSeq(mkSub(intern(Term{op: OApp, name: "store", args: []*Term{s, i, r}}), t0, seqLen(s)))
}

// sliceParts of a slice value; nil slices have length 0.
func sliceParts(v *Term) (base, off, n, c *Term, ok bool) {
	switch v.op {
	case OSlice:
		return v.args[0], v.args[1], v.args[2], v.args[3], true
	case ONil:
		return nil, t0, t0, t0, true
	}
	return nil, nil, nil, nil, false
}

// asSlice gives an opaque slice value its structure.
func (e *Engine) asSlice(v *Term, t types.Type) *Term {
	if v.op == OSlice || v.op == ONil {
		return v
	}
	return e.materialize(v, t)
}

// seqOf is the content of a slice, string or array value.
func (e *Engine) seqOf(st *State, v *Term) *Term {
	switch v.op {
	case OSeq:
		return v
	case ONil:
		return mkSeq()
	case OSlice:
		return e.subSeq(st, e.load(st, v.args[0]), v.args[1], v.args[2])
	case OPtr, OFld, OIdx:
		return e.load(st, v)
	}
	return seqOfAtom(v)
}

func (e *Engine) newSlice(st *State, content *Term, elem types.Type, capT *Term, name string) *Term {
	n := seqLen(content)
	if capT == nil {
		capT = n
	}
	p := e.alloc(st, types.NewArray(elem, -1), content, name)
	return mkSlice(p, t0, n, capT)
}

// snap is the value of v with references replaced by what they refer to.
func (e *Engine) snap(st *State, v *Term) *Term { return e.snapD(st, v, 0) }

func (e *Engine) snapD(st *State, v *Term, d int) *Term {
	if v == nil || d > 6 {
		return v
	}
	switch v.op {
	case OSlice:
		c := e.seqOf(st, v)
		return e.snapD(st, c, d+1)
	case ONil:
		return v
	case OPtr, OFld, OIdx:
		c := e.load(st, v)
		return mkApp("ref", nil, e.snapD(st, c, d+1))
	case OStruct, OTuple, OSeq, OElem, OIface, OFunc:
		ch := false
		as := make([]*Term, len(v.args))
		for i, a := range v.args {
			as[i] = e.snapD(st, a, d+1)
			ch = ch || as[i] != a
		}
		if !ch {
			return v
		}
		if v.op == OIface {
			return mkIface(v.typ, as[0])
		}
		return rebuild(v, as)
	case OMapRef:
		return e.content(st, v.n)
	}
	return v
}

// ---- obligations ----

func (e *Engine) require(fr *Frame, ctx *fnCtx, lit *Term, kind string, pos token.Pos) bool {
	e.obsTotal++
	st := fr.st
	r := st.decide(lit)
	if r == 1 {
		return true
	}
	o := &Oblig{kind: kind, fn: ctx.fn, pos: pos, lit: lit, sure: r == -1}
	for _, f := range e.stack {
		o.stack = append(o.stack, f.String())
	}
	for _, l := range st.lits {
		o.lits = append(o.lits, l.String())
		if len(o.lits) > 25 {
			break
		}
	}
	e.obs = append(e.obs, o)
	if r == -1 {
		st.dead = true
		return false
	}
	return st.assume(lit)
}

func (o *Oblig) describe(p *Program) string {
	v := "may"
	if o.sure {
		v = "does"
	}
	return fmt.Sprintf("%s: %s %s happen in %s (needs %s; via %s; known: %s)", p.pos(o.pos), o.kind, v, shortFn(o.fn.String()), o.lit, shortFn(strings.Join(o.stack, " > ")), strings.Join(o.lits, " & "))
}

func shortFn(s string) string { return strings.ReplaceAll(s, modPath+"/", "") }

// ---- globals ----

// findMutated determines the package variables that something other than package initialisation may change.
func (e *Engine) findMutated() {
	e.mutated = map[*ssa.Global]bool{}
	var root func(v ssa.Value, d int) *ssa.Global
	root = func(v ssa.Value, d int) *ssa.Global {
		if d > 20 {
			return nil
		}
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			return root(x.X, d+1)
		case *ssa.IndexAddr:
			return root(x.X, d+1)
		case *ssa.UnOp:
			return root(x.X, d+1)
		case *ssa.Slice:
			return root(x.X, d+1)
		case *ssa.ChangeType:
			return root(x.X, d+1)
		case *ssa.Field:
			return root(x.X, d+1)
		case *ssa.Phi:
			for _, y := range x.Edges {
				if g := root(y, d+1); g != nil {
					return g
				}
			}
		}
		return nil
	}
	for _, f := range e.p.funcs {
		if f.Name() == "init" && f.Synthetic != "" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if g := root(x.Addr, 0); g != nil {
						e.mutated[g] = true
					}
				case *ssa.MapUpdate:
					if g := root(x.Map, 0); g != nil {
						e.mutated[g] = true
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, a := range c.Common().Args {
						// the address of a global handed out
						switch y := a.(type) {
						case *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr:
							if g := root(y, 0); g != nil && inRepoPkg(g.Pkg) {
								e.mutated[g] = true
							}
						case *ssa.Slice:
							if g := root(y, 0); g != nil && inRepoPkg(g.Pkg) {
								if _, isStr := y.X.Type().Underlying().(*types.Basic); !isStr {
									if cb, ok := c.Common().Value.(*ssa.Builtin); ok && cb.Name() == "copy" && c.Common().Args[0] != a {
										continue
									}
									e.mutated[g] = true
								}
							}
						}
					}
				}
			}
		}
	}
}

func inRepoPkg(p *ssa.Package) bool {
	return p != nil && strings.HasPrefix(p.Pkg.Path(), modPath+"/")
}

func (e *Engine) globalPtr(g *ssa.Global) *Term {
	if o, ok := e.globals[g]; ok {
		return mkPtr(o)
	}
	elem := g.Type().Underlying().(*types.Pointer).Elem()
	o := e.newObj(elem, g.String())
	e.globals[g] = o
	if inRepoPkg(g.Pkg) && e.inInit {
		e.objs[o].init = zeroOf(elem)
	} else {
		e.objs[o].init = e.materialize(mkSym("glob:"+shortFn(g.String()), elem), elem)
		e.objs[o].nonNil = !inRepoPkg(g.Pkg)
	}
	return mkPtr(o)
}

// runInits interprets the package initialisers in dependency order and keeps what they establish.
func (e *Engine) runInits() {
	if e.initDone {
		return
	}
	e.initDone = true
	var order []*ssa.Package
	seen := map[string]bool{}
	var visit func(path string)
	visit = func(path string) {
		if seen[path] {
			return
		}
		seen[path] = true
		sp, ok := e.p.ssa[path]
		if !ok {
			return
		}
		var imps []string
		for _, q := range sp.Pkg.Imports() {
			imps = append(imps, q.Path())
		}
		sort.Strings(imps)
		for _, q := range imps {
			visit(q)
		}
		order = append(order, sp)
	}
	var paths []string
	for p := range e.p.ssa {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		visit(p)
	}
	e.inInit = true
	st := newState()
	for _, sp := range order {
		f := sp.Func("init")
		if f == nil {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if be, ok := r.(budgetError); ok {
						e.unknown["init "+sp.Pkg.Path()+": "+be.msg]++
						return
					}
					panic(r)
				}
			}()
			ex := e.call(st.clone(), f, nil, nil, 0)
			for _, x := range ex {
				if !x.pan {
					st = x.st
					break
				}
			}
		}()
	}
	e.inInit = false
	e.obs = nil
	e.obsTotal = 0
	e.sums = nil
	for o, c := range st.heap {
		e.baseHeap[o] = c
	}
	// package variables that change later are opaque, and so is what they refer to
	for g := range e.mutated {
		o, ok := e.globals[g]
		if !ok {
			continue
		}
		elem := g.Type().Underlying().(*types.Pointer).Elem()
		if mt, ok := elem.Underlying().(*types.Map); ok {
			if m, ok := e.baseHeap[o]; ok && m.op == OMapRef {
				if c := e.content(newState(), m.n); c.op == OMapV && c.args[0] == mkSym("emptymap", nil) {
					e.initMaps[shortFn(types.TypeString(mt.Key(), nil)+"->"+types.TypeString(mt.Elem(), nil))] = c.args[1:]
				}
			}
		}
		delete(e.baseHeap, o)
		e.objs[o].init = e.materialize(mkSym("glob:"+shortFn(g.String()), elem), elem)
	}
}

func constTerm(c *ssa.Const) *Term {
	t := c.Type()
	if c.Value == nil {
		if _, ok := t.Underlying().(*types.Struct); ok {
			return zeroOf(t)
		}
		if _, ok := t.Underlying().(*types.Array); ok {
			return zeroOf(t)
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() != types.UntypedNil {
			return zeroOf(t)
		}
		return mkNil(nil)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return mkLit(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&(types.IsFloat|types.IsComplex) != 0 {
			return intern(Term{op: OFloat, str: c.Value.ExactString()})
		}
		v, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if !ok {
			panic(budgetError{"constant " + c.String()})
		}
		return mkBig(v)
	case constant.Float:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if iv := constant.ToInt(c.Value); iv.Kind() == constant.Int {
				v, _ := new(big.Int).SetString(iv.ExactString(), 10)
				return mkBig(v)
			}
		}
		return intern(Term{op: OFloat, str: c.Value.ExactString()})
	}
	return intern(Term{op: OFloat, str: c.Value.ExactString()})
}

// nextObj is the number the next object created will have.
func (e *Engine) nextObj() int { return len(e.objs) }
