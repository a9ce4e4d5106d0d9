package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Frame is one partition inside a function: facts plus the values of the live variables.
type Frame struct {
	st     *State
	env    map[ssa.Value]*Term
	defers []*deferred
}

type deferred struct {
	call *ssa.CallCommon
	args []*Term
	fn   *Term
	in   ssa.Instruction
}

type arrival struct {
	from, to *ssa.BasicBlock
	fr       *Frame
}

type fnCtx struct {
	fn    *ssa.Function
	exits []Exit
	depth int
	li    *loopInfo
	binds []*Term
}

type loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	parent *loop
}

type loopInfo struct {
	rpo    []*ssa.BasicBlock
	loops  []*loop
	inner  map[*ssa.BasicBlock]*loop
	live   map[*ssa.BasicBlock]map[ssa.Value]bool
	region map[*loop][]*ssa.BasicBlock // blocks of a loop (nil key: function) in reverse postorder
}

func (e *Engine) loopInfo(f *ssa.Function) *loopInfo {
	if l, ok := e.loops[f]; ok {
		return l
	}
	li := &loopInfo{inner: map[*ssa.BasicBlock]*loop{}, live: map[*ssa.BasicBlock]map[ssa.Value]bool{}, region: map[*loop][]*ssa.BasicBlock{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	byHeader := map[*ssa.BasicBlock]*loop{}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := byHeader[s]
				if l == nil {
					l = &loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					byHeader[s] = l
					li.loops = append(li.loops, l)
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	sort.Slice(li.loops, func(i, j int) bool { return len(li.loops[i].body) < len(li.loops[j].body) })
	for i, l := range li.loops {
		for _, m := range li.loops[i+1:] {
			if m.body[l.header] && m != l {
				l.parent = m
				break
			}
		}
		for b := range l.body {
			if li.inner[b] == nil {
				li.inner[b] = l
			}
		}
	}
	for _, b := range li.rpo {
		li.region[nil] = append(li.region[nil], b)
		for _, l := range li.loops {
			if l.body[b] {
				li.region[l] = append(li.region[l], b)
			}
		}
	}
	// liveness
	use := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	def := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	tracked := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
			return false
		}
		return true
	}
	for _, b := range li.rpo {
		u, d := map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); !ok {
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if *o != nil && tracked(*o) && !d[*o] {
						u[*o] = true
					}
				}
			}
			if v, ok := in.(ssa.Value); ok {
				d[v] = true
			}
		}
		use[b], def[b] = u, d
		li.live[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(li.rpo) - 1; i >= 0; i-- {
			b := li.rpo[i]
			in := li.live[b]
			add := func(v ssa.Value) {
				if !in[v] {
					in[v] = true
					changed = true
				}
			}
			for v := range use[b] {
				add(v)
			}
			for _, s := range b.Succs {
				for v := range li.live[s] {
					if !def[b][v] {
						add(v)
					}
				}
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, x := range s.Instrs {
						ph, ok := x.(*ssa.Phi)
						if !ok {
							break
						}
						if v := ph.Edges[pi]; tracked(v) && !def[b][v] {
							add(v)
						}
					}
				}
			}
		}
	}
	e.loops[f] = li
	return li
}

func (e *Engine) checkBudget() {
	e.steps++
	if e.steps&0xff == 0 && time.Now().After(e.deadline) {
		panic(budgetError{"time limit"})
	}
	if e.steps > 80_000_000 {
		panic(budgetError{"step limit"})
	}
}

const maxDepth = 40

// call interprets a function body.
func (e *Engine) call(st *State, fn *ssa.Function, args, binds []*Term, depth int) []Exit {
	if fn.Blocks == nil {
		panic(budgetError{"no body: " + fn.String()})
	}
	for _, f := range e.stack {
		if f == fn {
			panic(budgetError{"recursion in " + fn.String()})
		}
	}
	if depth > maxDepth {
		panic(budgetError{"call depth"})
	}
	e.funcsSeen[fn] = true
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	li := e.loopInfo(fn)
	ctx := &fnCtx{fn: fn, depth: depth, li: li, binds: binds}
	fr := &Frame{st: st, env: map[ssa.Value]*Term{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = binds[i]
	}
	e.runRegion(ctx, nil, []arrival{{nil, fn.Blocks[0], fr}})
	return e.joinExits(ctx.exits)
}

// runRegion interprets the blocks of one loop body (or the function) in topological order.
func (e *Engine) runRegion(ctx *fnCtx, self *loop, in []arrival) (outs []arrival) {
	pend := map[*ssa.BasicBlock][]arrival{}
	for _, a := range in {
		pend[a.to] = append(pend[a.to], a)
	}
	inRegion := func(b *ssa.BasicBlock) bool { return self == nil || self.body[b] }
	route := func(as []arrival) {
		for _, a := range as {
			if a.fr.st.dead {
				continue
			}
			if !inRegion(a.to) || self != nil && a.to == self.header {
				outs = append(outs, a)
			} else {
				pend[a.to] = append(pend[a.to], a)
			}
		}
	}
	for _, b := range ctx.li.region[self] {
		as := pend[b]
		if len(as) == 0 {
			continue
		}
		l := ctx.li.inner[b]
		if l != self {
			// a nested loop: find the one directly inside self
			for l.parent != self {
				l = l.parent
			}
			if l.header != b {
				panic(budgetError{"irreducible loop in " + ctx.fn.String()})
			}
			delete(pend, b)
			route(e.execLoop(ctx, l, as))
			continue
		}
		delete(pend, b)
		frs := make([]*Frame, 0, len(as))
		for _, a := range as {
			frs = append(frs, e.enter(ctx, a))
		}
		frs = e.joinFrames(frs)
		for _, fr := range frs {
			route(e.execBlock(ctx, b, fr))
		}
	}
	return outs
}

// enter evaluates the phis of a block for one incoming edge and drops dead values.
func (e *Engine) enter(ctx *fnCtx, a arrival) *Frame {
	b := a.to
	live := ctx.li.live[b]
	env := make(map[ssa.Value]*Term, len(live)+4)
	for v := range live {
		if t, ok := a.fr.env[v]; ok {
			env[v] = t
		}
	}
	if a.from != nil {
		pi := -1
		for i, p := range b.Preds {
			if p == a.from {
				pi = i
			}
		}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			env[ph] = e.eval(ctx, a.fr, ph.Edges[pi])
		}
	}
	return &Frame{st: a.fr.st, env: env, defers: a.fr.defers}
}

func (e *Engine) eval(ctx *fnCtx, fr *Frame, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Global:
		return e.globalPtr(x)
	case *ssa.Function:
		return mkFunc(x)
	case *ssa.Builtin:
		return mkSym("builtin:"+x.Name(), nil)
	}
	t, ok := fr.env[v]
	if !ok {
		panic(budgetError{"no value for " + v.Name() + " in " + ctx.fn.String()})
	}
	return t
}

// execBlock interprets the instructions of a block for one frame.
func (e *Engine) execBlock(ctx *fnCtx, b *ssa.BasicBlock, fr *Frame) (outs []arrival) {
	cur := []*Frame{fr}
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		if len(cur) == 0 {
			return
		}
		e.checkBudget()
		switch x := in.(type) {
		case *ssa.If:
			for _, f := range cur {
				c := e.eval(ctx, f, x.Cond)
				outs = append(outs, e.branch(f, c, b)...)
			}
			return
		case *ssa.Jump:
			for _, f := range cur {
				outs = append(outs, arrival{b, b.Succs[0], f})
			}
			return
		case *ssa.Return:
			for _, f := range cur {
				ex := Exit{st: f.st, pos: x.Pos()}
				for _, r := range x.Results {
					ex.ret = append(ex.ret, e.eval(ctx, f, r))
				}
				ctx.exits = append(ctx.exits, ex)
			}
			return
		case *ssa.Panic:
			for _, f := range cur {
				v := e.eval(ctx, f, x.X)
				e.require(f, ctx, tFalse, "explicit panic", x.Pos())
				f.st.dead = false
				ctx.exits = append(ctx.exits, Exit{st: f.st, pan: true, panV: v, pos: x.Pos()})
			}
			return
		}
		var next []*Frame
		for _, f := range cur {
			next = append(next, e.step(ctx, f, in)...)
		}
		n2 := next[:0]
		for _, f := range next {
			if !f.st.dead {
				n2 = append(n2, f)
			}
		}
		cur = n2
		if len(cur) > 1 {
			if _, ok := in.(ssa.CallInstruction); ok {
				cur = e.joinFrames(cur)
			}
		}
		if len(cur) > 600 {
			panic(budgetError{"too many partitions in " + ctx.fn.String()})
		}
	}
	return
}

func (e *Engine) branch(f *Frame, c *Term, b *ssa.BasicBlock) []arrival {
	switch f.st.decide(c) {
	case 1:
		return []arrival{{b, b.Succs[0], f}}
	case -1:
		return []arrival{{b, b.Succs[1], f}}
	}
	g := &Frame{st: f.st.clone(), env: f.env, defers: f.defers}
	var outs []arrival
	if f.st.assume(c) {
		outs = append(outs, arrival{b, b.Succs[0], f})
	}
	if g.st.assume(mkNot(c)) {
		outs = append(outs, arrival{b, b.Succs[1], g})
	}
	return outs
}

// fork splits a state on a condition; either result may be nil.
func fork(st *State, c *Term) (yes, no *State) {
	switch st.decide(c) {
	case 1:
		return st, nil
	case -1:
		return nil, st
	}
	n := st.clone()
	if st.assume(c) {
		yes = st
	}
	if n.assume(mkNot(c)) {
		no = n
	}
	return
}

func (e *Engine) intType(t types.Type) (w int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	w, signed = intWidth(b)
	if e.wasm() && (b.Kind() == types.Int || b.Kind() == types.Uint || b.Kind() == types.Uintptr) {
		w = 64
	}
	return w, signed, true
}

func (e *Engine) wasm() bool { return false }

// wrap reduces a mathematical integer to the range of a type.
func (e *Engine) wrap(st *State, v *Term, t types.Type) *Term {
	w, signed, ok := e.intType(t)
	if !ok {
		return v
	}
	lo, hi := typeRange(t)
	l, h := st.bounds(v)
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return v
	}
	if st.decideLe(tSub(v, mkBig(hi))) == 1 && st.decideLe(tSub(mkBig(lo), v)) == 1 {
		return v
	}
	// wraps around exactly once
	m := mkBig(pow2(w))
	if st.decideLe(tAddI(tSub(mkBig(hi), v), 1)) == 1 && st.decideLe(tSub(tSub(v, mkBig(hi)), m)) == 1 {
		return tSub(v, m)
	}
	if st.decideLe(tAddI(tSub(v, mkBig(lo)), 1)) == 1 && st.decideLe(tSub(tSub(mkBig(lo), v), m)) == 1 {
		return tAdd(v, m)
	}
	if !signed {
		return mkBits(v, 0, w)
	}
	h2 := mkBig(pow2(w - 1))
	return tSub(mkBits(tAdd(v, h2), 0, w), h2)
}

func (e *Engine) step(ctx *fnCtx, fr *Frame, in ssa.Instruction) []*Frame {
	one := []*Frame{fr}
	set := func(v ssa.Value, t *Term) []*Frame {
		fr.env[v] = t
		return one
	}
	st := fr.st
	ev := func(v ssa.Value) *Term { return e.eval(ctx, fr, v) }
	switch x := in.(type) {
	case *ssa.DebugRef:
		return one
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		p := e.alloc(st, t, zeroOf(t), x.Comment)
		e.objs[p.n].instr = x
		return set(x, p)
	case *ssa.FieldAddr:
		p := ev(x.X)
		st0 := x.X.Type().Underlying().(*types.Pointer).Elem()
		if !e.nonNilPtr(fr, ctx, p, x.Pos(), "nil dereference") {
			return nil
		}
		return set(x, mkFld(e.resolve(p, st0), x.Field))
	case *ssa.IndexAddr:
		b, i := ev(x.X), ev(x.Index)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Pointer:
			at := u.Elem()
			if !e.nonNilPtr(fr, ctx, b, x.Pos(), "nil dereference") {
				return nil
			}
			n := at.Underlying().(*types.Array).Len()
			if !e.inRange(fr, ctx, i, mkInt(n), x.Pos()) {
				return nil
			}
			return set(x, mkIdx(e.resolve(b, at), i))
		case *types.Slice:
			b = e.asSlice(b, x.X.Type())
			base, off, n, _, _ := sliceParts(b)
			if !e.inRange(fr, ctx, i, n, x.Pos()) || base == nil {
				return nil
			}
			return set(x, mkIdx(base, tAdd(off, i)))
		}
	case *ssa.Index:
		b, i := ev(x.X), ev(x.Index)
		n := seqLen(e.seqOf(st, b))
		if !e.inRange(fr, ctx, i, n, x.Pos()) {
			return nil
		}
		return set(x, e.seqAt(st, e.seqOf(st, b), i, x.Type()))
	case *ssa.Field:
		s := ev(x.X)
		if s.op == OStruct {
			return set(x, s.args[x.Field])
		}
		return set(x, e.materialize(mkApp(fmt.Sprintf("f%d", x.Field), x.Type(), s), x.Type()))
	case *ssa.Store:
		p := ev(x.Addr)
		if !e.nonNilPtr(fr, ctx, p, x.Pos(), "nil dereference") {
			return nil
		}
		t := x.Addr.Type().Underlying().(*types.Pointer).Elem()
		p = e.resolve(p, t)
		e.store(st, p, ev(x.Val))
		return one
	case *ssa.UnOp:
		return e.unop(ctx, fr, x)
	case *ssa.BinOp:
		r := e.binop(ctx, fr, x)
		if r == nil {
			return nil
		}
		return set(x, r)
	case *ssa.Convert:
		return set(x, e.convert(st, ev(x.X), x.X.Type(), x.Type()))
	case *ssa.ChangeType:
		return set(x, ev(x.X))
	case *ssa.ChangeInterface:
		return set(x, ev(x.X))
	case *ssa.MultiConvert:
		return set(x, e.freshSym("multiconvert", x.Type()))
	case *ssa.MakeInterface:
		return set(x, mkIface(x.X.Type(), ev(x.X)))
	case *ssa.TypeAssert:
		return e.typeAssert(ctx, fr, x)
	case *ssa.Extract:
		t := ev(x.Tuple)
		if t.op == OTuple {
			return set(x, t.args[x.Index])
		}
		return set(x, e.materialize(mkApp(fmt.Sprintf("r%d", x.Index), x.Type(), t), x.Type()))
	case *ssa.MakeSlice:
		n, c := ev(x.Len), ev(x.Cap)
		if !e.require(fr, ctx, mkLe(t0, n), "negative make length", x.Pos()) || !e.require(fr, ctx, mkLe(n, c), "make length beyond capacity", x.Pos()) {
			return nil
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		size := max(types.SizesFor("gc", "amd64").Sizeof(et), 1)
		if !e.require(fr, ctx, mkLe(c, mkInt((1<<47)/size)), "make capacity out of range", x.Pos()) {
			return nil
		}
		if !st.assume(mkLe(c, mkBig(maxLen))) {
			return nil
		}
		p := e.alloc(st, types.NewArray(et, -1), mkSeq(mkRep(zeroOf(et), c, isByteType(et))), "make")
		return set(x, mkSlice(p, t0, n, c))
	case *ssa.Slice:
		return e.sliceOp(ctx, fr, x)
	case *ssa.SliceToArrayPointer:
		v := e.asSlice(ev(x.X), x.X.Type())
		base, off, n, _, _ := sliceParts(v)
		at := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !e.require(fr, ctx, mkLe(mkInt(at.Len()), n), "slice to array conversion", x.Pos()) {
			return nil
		}
		if base == nil {
			return set(x, mkNil(nil))
		}
		// the array is a view on the slice; only whole-object views keep their identity
		if st.decide(mkEqInt(off, t0)) == 1 && st.decide(mkEqInt(seqLen(e.load(st, base)), mkInt(at.Len()))) == 1 {
			return set(x, base)
		}
		p := e.alloc(st, at, e.subSeq(st, e.load(st, base), off, mkInt(at.Len())), "array view")
		return set(x, p)
	case *ssa.MakeMap:
		o := e.newObj(x.Type(), "map")
		st.heap[o] = intern(Term{op: OMapV, args: []*Term{mkSym("emptymap", nil)}})
		return set(x, intern(Term{op: OMapRef, n: o}))
	case *ssa.MapUpdate:
		m := e.asMap(ev(x.Map), x.Map.Type())
		if m.op != OMapRef {
			e.require(fr, ctx, tFalse, "write to a nil map", x.Pos())
			return nil
		}
		k, v := ev(x.Key), ev(x.Value)
		st.heap[m.n] = mapPut(e.content(st, m.n), e.snap(st, k), v)
		st.events = append(st.events, event{kind: "mapwrite", args: []*Term{m, k, v}, pos: e.p.pos(x.Pos())})
		return one
	case *ssa.Lookup:
		return e.lookup(ctx, fr, x)
	case *ssa.MakeClosure:
		bs := make([]*Term, len(x.Bindings))
		for i, b := range x.Bindings {
			bs[i] = ev(b)
		}
		return set(x, mkFunc(x.Fn.(*ssa.Function), bs...))
	case *ssa.Call:
		return e.execCall(ctx, fr, x, x.Common(), x)
	case *ssa.Go:
		// the goroutine's effects are interpreted at the place it is started
		return e.execCall(ctx, fr, x, x.Common(), nil)
	case *ssa.Defer:
		d := &deferred{call: x.Common(), in: x}
		for _, a := range x.Common().Args {
			d.args = append(d.args, ev(a))
		}
		d.fn = nil
		if !x.Common().IsInvoke() || true {
			if _, ok := x.Common().Value.(*ssa.Builtin); !ok {
				d.fn = ev(x.Common().Value)
			}
		}
		fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], d)
		return one
	case *ssa.RunDefers:
		ds := fr.defers
		fr.defers = nil
		cur := one
		for i := len(ds) - 1; i >= 0; i-- {
			var next []*Frame
			for _, f := range cur {
				next = append(next, e.callWith(ctx, f, ds[i].in, ds[i].call, ds[i].fn, ds[i].args, nil)...)
			}
			cur = next
		}
		return cur
	case *ssa.MakeChan:
		return set(x, e.freshSym("chan", x.Type()))
	case *ssa.Send:
		return one
	case *ssa.Select:
		return set(x, e.freshSym("select", x.Type()))
	case *ssa.Range:
		if e.inInit {
			if m := ev(x.X); m.op == OMapRef {
				if c := e.content(st, m.n); c.op == OMapV && c.args[0] == mkSym("emptymap", nil) {
					o := e.newObj(x.Type(), "iterator")
					st.heap[o] = c
					return set(x, intern(Term{op: OMapRef, n: o}))
				}
			}
		}
		over := ev(x.X)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			if m := e.asMap(over, x.X.Type()); m.op == OMapRef {
				over = e.content(st, m.n)
			}
		} else {
			over = e.snap(st, over)
		}
		if x.X.Type().Underlying() == types.Typ[types.String] {
			if c := e.runesOf(st, over); c != nil {
				o := e.newObj(x.Type(), "iterator")
				st.heap[o] = c
				return set(x, intern(Term{op: OMapRef, n: o}))
			}
		}
		return set(x, mkApp("iter", nil, over, mkInt(int64(e.freshID()))))
	case *ssa.Next:
		it := ev(x.Iter)
		if c := remaining(e, st, it); c != nil {
			tt := x.Type().(*types.Tuple)
			if len(c.args) == 1 {
				return set(x, mkTuple(tFalse, zeroOf(tt.At(1).Type()), zeroOf(tt.At(2).Type())))
			}
			st.heap[it.n] = intern(Term{op: OMapV, args: append([]*Term{c.args[0]}, c.args[3:]...)})
			return set(x, mkTuple(tTrue, c.args[1], c.args[2]))
		}
		r := e.materialize(mkApp("next", x.Type(), it, mkInt(int64(e.freshID()))), x.Type())
		if rg, ok := x.Iter.(*ssa.Range); ok && e.mapVal != nil && r.op == OTuple {
			if mt, ok := rg.X.Type().Underlying().(*types.Map); ok {
				if l := e.mapVal(mt, r.args[2]); l != nil {
					st.assume(mkOr(mkNot(r.args[0]), l))
				}
			}
		}
		return set(x, r)
	}
	panic(budgetError{fmt.Sprintf("instruction %T in %s", in, ctx.fn)})
}

// remaining is what is left of an iteration of known extent.
func remaining(e *Engine, st *State, it *Term) *Term {
	if it.op != OMapRef {
		return nil
	}
	if c := e.content(st, it.n); c.op == OMapV && c.args[0] == mkSym("emptymap", nil) {
		return c
	}
	return nil
}

// runesOf lists the positions and characters of a short string of known length that is all ASCII.
func (e *Engine) runesOf(st *State, s *Term) *Term {
	s = st.canon(e.seqOf(st, s))
	n, ok := st.constOf(seqLen(s))
	if !ok || n > 64 {
		return nil
	}
	as := []*Term{mkSym("emptymap", nil)}
	for i := int64(0); i < n; i++ {
		b := st.canon(e.seqAt(st, s, mkInt(i), types.Typ[types.Uint8]))
		if lo, hi := st.bounds(b); lo == nil || hi == nil || lo.Sign() < 0 || hi.Cmp(big.NewInt(127)) > 0 {
			return nil
		}
		as = append(as, mkInt(i), b)
	}
	return intern(Term{op: OMapV, args: as})
}

// isNil is the literal "v is nil".
func (e *Engine) isNil(v *Term) *Term {
	switch v.op {
	case ONil:
		return tTrue
	case OPtr, OFld, OIdx, OIface, OFunc, OMapRef:
		return tFalse
	case OSlice:
		if v.args[0].op == OPtr {
			if or := e.objs[v.args[0].n].origin; or != nil && v.args[1] == t0 {
				return mkPred("isnil", or)
			}
		}
		return tFalse
	}
	if v.op == OApp && nonNilApps[v.name] {
		return tFalse
	}
	if v.op == OSym && strings.HasPrefix(v.name, "glob:") && !strings.HasPrefix(v.name, "glob:pkg/") {
		return tFalse // variables of other packages are set up when they load
	}
	return mkPred("isnil", v)
}

func (e *Engine) nonNilPtr(fr *Frame, ctx *fnCtx, p *Term, pos token.Pos, kind string) bool {
	return e.require(fr, ctx, mkNot(e.isNil(p)), kind, pos)
}

func (e *Engine) inRange(fr *Frame, ctx *fnCtx, i, n *Term, pos token.Pos) bool {
	return e.require(fr, ctx, mkLe(t0, i), "index out of range", pos) && e.require(fr, ctx, mkLt(i, n), "index out of range", pos)
}

func (e *Engine) unop(ctx *fnCtx, fr *Frame, x *ssa.UnOp) []*Frame {
	st := fr.st
	v := e.eval(ctx, fr, x.X)
	switch x.Op {
	case token.MUL:
		if !e.nonNilPtr(fr, ctx, v, x.Pos(), "nil dereference") {
			return nil
		}
		p := e.resolve(v, x.X.Type().Underlying().(*types.Pointer).Elem())
		fr.env[x] = e.load(st, p)
	case token.NOT:
		fr.env[x] = mkNot(v)
	case token.SUB:
		if v.op == OFloat || !isIntType(x.Type()) {
			fr.env[x] = mkApp("fneg", nil, v)
		} else {
			fr.env[x] = e.wrap(st, tNeg(v), x.Type())
		}
	case token.XOR:
		w, signed, _ := e.intType(x.Type())
		if signed {
			fr.env[x] = tSub(mkInt(-1), v)
		} else {
			fr.env[x] = tSub(mkBig(new(big.Int).Sub(pow2(w), big1)), v)
		}
	case token.ARROW:
		fr.env[x] = e.freshSym("recv", x.Type())
	default:
		panic(budgetError{"unary " + x.Op.String()})
	}
	return []*Frame{fr}
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// eqTerm is the literal "a == b" for values of a type.
func (e *Engine) eqTerm(st *State, a, b *Term, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return mkEqInt(a, b)
		case u.Info()&types.IsString != 0:
			return e.seqEqLit(st, a, b)
		case u.Info()&types.IsBoolean != 0:
			if a == tTrue {
				return b
			}
			if b == tTrue {
				return a
			}
			if a == tFalse {
				return mkNot(b)
			}
			if b == tFalse {
				return mkNot(a)
			}
			if a == b {
				return tTrue
			}
			return mkOr(mkAnd(a, b), mkAnd(mkNot(a), mkNot(b)))
		case u.Kind() == types.UntypedNil:
			return e.isNil(a)
		}
		if a == b {
			return mkPred("feq", a, b)
		}
		return mkPred("feq", a, b)
	case *types.Array:
		return e.seqEqLit(st, a, b)
	case *types.Struct:
		if a.op == OStruct && b.op == OStruct {
			ls := make([]*Term, len(a.args))
			for i := range ls {
				ls[i] = e.eqTerm(st, a.args[i], b.args[i], u.Field(i).Type())
			}
			return mkAnd(ls...)
		}
	}
	if a.op == ONil {
		return e.isNil(b)
	}
	if b.op == ONil {
		return e.isNil(a)
	}
	if a == b {
		return tTrue
	}
	conc := func(p *Term) bool { return p.op == OPtr || p.op == OFld || p.op == OIdx }
	if conc(a) && conc(b) {
		ra, rb := rootObj(a), rootObj(b)
		if ra != rb {
			return tFalse
		}
	}
	if a.op == OIface && b.op == OIface {
		if !types.Identical(a.typ, b.typ) {
			return tFalse
		}
		return e.eqTerm(st, a.args[0], b.args[0], a.typ)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkPred("same", a, b)
}

// seqEqLit simplifies the equality of two sequences: fixed-length comparison becomes element equalities.
func (e *Engine) seqEqLit(st *State, a, b *Term) *Term {
	ca, cb := st.canon(a), st.canon(b)
	l := mkSeqEq(ca, cb)
	return l
}

func (e *Engine) binop(ctx *fnCtx, fr *Frame, x *ssa.BinOp) *Term {
	st := fr.st
	a, b := e.eval(ctx, fr, x.X), e.eval(ctx, fr, x.Y)
	t := x.X.Type()
	switch x.Op {
	case token.EQL:
		return e.eqTermNil(st, a, b, x)
	case token.NEQ:
		return mkNot(e.eqTermNil(st, a, b, x))
	}
	if isStringType(t) {
		switch x.Op {
		case token.ADD:
			return mkSeq(a, b)
		case token.LSS:
			return strLess(a, b)
		case token.GTR:
			return strLess(b, a)
		case token.LEQ:
			return mkNot(strLess(b, a))
		case token.GEQ:
			return mkNot(strLess(a, b))
		}
	}
	if !isIntType(t) {
		switch x.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return mkPred("f"+x.Op.String(), a, b)
		}
		return mkApp("f"+x.Op.String(), nil, a, b)
	}
	switch x.Op {
	case token.LSS:
		return mkLt(a, b)
	case token.LEQ:
		return mkLe(a, b)
	case token.GTR:
		return mkLt(b, a)
	case token.GEQ:
		return mkLe(b, a)
	case token.ADD:
		if r := e.flipBit(st, x.Op, a, b); r != nil {
			return r
		}
		return e.arith(ctx, fr, tAdd(a, b), x)
	case token.SUB:
		if w, signed, ok := e.intType(x.Type()); ok {
			if r := e.lowBitOp(st, x.Op, a, b, w, signed); r != nil {
				return r
			}
		}
		if r := e.flipBit(st, x.Op, a, b); r != nil {
			return r
		}
		return e.arith(ctx, fr, tSub(a, b), x)
	case token.MUL:
		e.productFacts(st, a, b)
		return e.arith(ctx, fr, tMul(a, b), x)
	case token.QUO, token.REM:
		if !e.require(fr, ctx, mkNot(mkEqInt(b, t0)), "division by zero", x.Pos()) {
			return nil
		}
		q := e.quo(st, st.canon(a), st.canon(b))
		if q.op == OApp && q.name == "quo" && q.args[1].op != OInt && st.decide(mkAnd(mkLe(t0, a), mkLe(mkInt(1), b))) == 1 {
			st.assume(mkLe(t0, q))
			st.assume(mkLe(q, a))
		}
		if x.Op == token.QUO {
			return e.wrap(st, q, x.Type())
		}
		return tSub(a, tMul(q, b))
	case token.SHL, token.SHR:
		if _, signed, ok := e.intType(x.Y.Type()); ok && signed {
			if !e.require(fr, ctx, mkLe(t0, b), "negative shift", x.Pos()) {
				return nil
			}
		}
		return e.shift(st, x.Op, a, b, x.Type())
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return e.bitop(st, x.Op, a, b, x.Type())
	}
	panic(budgetError{"operator " + x.Op.String()})
}

// arith is the result of an integer operation; where a check asks for it, wrapping around is reported.
func (e *Engine) arith(ctx *fnCtx, fr *Frame, v *Term, x *ssa.BinOp) *Term {
	if e.noWrap != nil && e.noWrap(ctx.fn) {
		if _, _, ok := e.intType(x.Type()); ok {
			lo, hi := typeRange(x.Type())
			if !e.require(fr, ctx, mkAnd(mkLe(mkBig(lo), v), mkLe(v, mkBig(hi))), "arithmetic that wraps around", x.Pos()) {
				return nil
			}
		}
	}
	return e.wrap(fr.st, v, x.Type())
}

// productFacts records what is known about the product of two quantities that are not constant: with both factors
// non-negative it is at least each factor times the least value of the other, and if one factor is at most the
// quotient of X by the other, the product is at most X.
func (e *Engine) productFacts(st *State, a, b *Term) {
	p := tMul(a, b)
	if p.op != OApp || p.name != "mul" {
		return
	}
	lower := func(t *Term) *big.Int {
		l, _ := st.bounds(t)
		if l == nil || l.Sign() < 0 {
			return nil
		}
		return l
	}
	la, lb := lower(a), lower(b)
	if la == nil || lb == nil {
		return
	}
	st.assume(mkLe(tScale(b, la), p))
	st.assume(mkLe(tScale(a, lb), p))
	for _, l := range append([]*Term{}, st.lits...) {
		if l.op == ONot {
			l = l.args[0]
		}
		if l.op != OLe {
			continue
		}
		_, atoms, _ := linParts(l.args[0])
		for _, q := range atoms {
			if q.op != OApp || q.name != "quo" {
				continue
			}
			x, d := q.args[0], q.args[1]
			for _, f := range [][2]*Term{{a, b}, {b, a}} {
				if f[0] == d && st.decide(mkLe(f[1], q)) == 1 && st.decide(mkLe(t0, x)) == 1 && st.decide(mkLe(mkInt(1), d)) == 1 {
					st.assume(mkLe(p, x))
				}
			}
		}
	}
}

func strLess(a, b *Term) *Term {
	ca, ok1 := seqConst(a)
	cb, ok2 := seqConst(b)
	if ok1 && ok2 {
		return mkBool(ca < cb)
	}
	if _, less, ok := rankCompare(a, b); ok {
		return less
	}
	return mkPred("strless", a, b)
}

func (e *Engine) eqTermNil(st *State, a, b *Term, x *ssa.BinOp) *Term {
	if c, ok := x.Y.(*ssa.Const); ok && c.Value == nil {
		if _, isB := x.X.Type().Underlying().(*types.Basic); !isB {
			if _, isS := x.X.Type().Underlying().(*types.Struct); !isS {
				return e.isNil(a)
			}
		}
	}
	if c, ok := x.X.(*ssa.Const); ok && c.Value == nil {
		if _, isB := x.Y.Type().Underlying().(*types.Basic); !isB {
			if _, isS := x.Y.Type().Underlying().(*types.Struct); !isS {
				return e.isNil(b)
			}
		}
	}
	return e.eqTerm(st, a, b, x.X.Type())
}

// quo is Go's truncated division.
func (e *Engine) quo(st *State, a, b *Term) *Term {
	if a.op == OInt && b.op == OInt && b.val.Sign() != 0 {
		return mkBig(new(big.Int).Quo(a.val, b.val))
	}
	if b.op == OInt && b.val.Sign() > 0 {
		if b.val.Cmp(big1) == 0 {
			return a
		}
		nonneg := st.decideLe(tNeg(a)) == 1
		if nonneg {
			// exact multiples come out of the division
			if q, ok := divExact(a, b.val); ok {
				return q
			}
			if k := b.val.BitLen() - 1; int(b.val.TrailingZeroBits()) == k {
				if q, rest := e.takeMultiples(st, a, k); q != nil {
					return tAdd(q, e.quo(st, rest, b))
				}
				if w := e.widthOf(st, a); w >= 0 {
					return mkBits(a, k, max(w-k, 0))
				}
			}
			return mkFdiv(a, b.val, true)
		}
		return mkAppR("quo", nil, nil, a, b)
	}
	return mkAppR("quo", nil, nil, a, b)
}

// takeMultiples splits a sum into 2^k*q + rest with a non-negative rest, when that makes it simpler.
func (e *Engine) takeMultiples(st *State, a *Term, k int) (q, rest *Term) {
	if a.op != OLin {
		return nil, nil
	}
	if _, ok := pieces(a); ok {
		return nil, nil
	}
	c, as, cs := linParts(a)
	qa, ra := newAcc(), newAcc()
	p := pow2(k)
	d, r := new(big.Int).DivMod(c, p, new(big.Int))
	qa.c.Set(d)
	ra.c.Set(r)
	n := 0
	for i, x := range as {
		if d, m := new(big.Int).DivMod(cs[i], p, new(big.Int)); m.Sign() == 0 {
			qa.add(x, d)
			n++
		} else {
			ra.add(x, cs[i])
		}
	}
	q, rest = qa.term(), ra.term()
	if n == 0 && d.Sign() == 0 || st.decideLe(tNeg(rest)) != 1 {
		return nil, nil
	}
	return q, rest
}

// mkFdiv is floor division by a positive constant; multiples of the divisor are taken out.
// flipBit adds a power of two to a value that does not have that bit, or takes it from one that has it: only that
// bit changes.
func (e *Engine) flipBit(st *State, op token.Token, a, b *Term) *Term {
	if b.op != OInt || b.val.Sign() <= 0 || a.op == OInt {
		return nil
	}
	k, w := int(b.val.TrailingZeroBits()), bitWidth(a)
	if k != b.val.BitLen()-1 || w < 0 || k >= w {
		return nil
	}
	bit, now := mkBits(a, k, 1), t1
	if op == token.SUB {
		now = t0
	}
	if bit.op == OInt || st.decide(mkEqInt(bit, tSub(t1, now))) != 1 {
		return nil
	}
	return tAdd(tAdd(mkBits(a, 0, k), tScale(now, b.val)), tScale(mkBits(a, k+1, w-k-1), pow2(k+1)))
}

func mkFdiv(a *Term, k *big.Int, nonneg bool) *Term {
	c, as, cs := linParts(a)
	out, rest := newAcc(), newAcc()
	q, r := new(big.Int).DivMod(c, k, new(big.Int))
	out.c.Set(q)
	rest.c.Set(r)
	for i, x := range as {
		if q, m := new(big.Int).DivMod(cs[i], k, new(big.Int)); m.Sign() == 0 {
			out.add(x, q)
		} else {
			rest.add(x, cs[i])
		}
	}
	rt := rest.term()
	if rt.op == OInt {
		return out.term()
	}
	if n := k.BitLen() - 1; int(k.TrailingZeroBits()) == n {
		if w := bitWidth(rt); w >= 0 {
			out.add(mkBits(rt, n, max(w-n, 0)), big1)
			return out.term()
		}
	}
	var lo *big.Int
	if nonneg && rt == a {
		lo = big0
	} else if l, _ := rt.rng(); l != nil {
		lo = new(big.Int).Div(l, k)
	}
	return tAdd(out.term(), mkAppR("fdiv", lo, nil, rt, mkBig(k)))
}

func divExact(a *Term, k *big.Int) (*Term, bool) {
	c, as, cs := linParts(a)
	if new(big.Int).Mod(c, k).Sign() != 0 {
		return nil, false
	}
	l := newAcc()
	l.c.Set(new(big.Int).Div(c, k))
	for i, x := range as {
		if new(big.Int).Mod(cs[i], k).Sign() != 0 {
			return nil, false
		}
		l.add(x, new(big.Int).Div(cs[i], k))
	}
	return l.term(), true
}

// widthOf is a bound on the number of bits of a non-negative term, or -1.
func (e *Engine) widthOf(st *State, a *Term) int {
	if w := bitWidth(a); w >= 0 {
		return w
	}
	lo, hi := st.bounds(a)
	if lo != nil && hi != nil && lo.Sign() >= 0 {
		return hi.BitLen()
	}
	return -1
}

func (e *Engine) shift(st *State, op token.Token, a, b *Term, t types.Type) *Term {
	w, signed, _ := e.intType(t)
	a = st.canon(a)
	if k, ok := st.constOf(b); ok {
		if op == token.SHL {
			if k >= int64(w) {
				return t0
			}
			if !signed && bitWidth(a) >= 0 {
				return mkBitsScale(a, int(k), w)
			}
			return e.wrap(st, tScale(a, pow2(int(k))), t)
		}
		lo, hi := st.bounds(a)
		if lo != nil && hi != nil {
			l, h := new(big.Int).Rsh(lo, uint(k)), new(big.Int).Rsh(hi, uint(k))
			if l.Cmp(h) == 0 {
				return mkBig(l)
			}
		}
		if lo != nil && lo.Sign() >= 0 {
			if k >= int64(w) {
				return t0
			}
			return mkBits(a, int(k), w-int(k))
		}
		if k >= int64(w) {
			k = int64(w - 1)
		}
		return mkFdiv(a, pow2(int(k)), false)
	}
	lo, hi := typeRange(t)
	if op == token.SHR {
		if l, h := st.bounds(a); l != nil && l.Sign() >= 0 {
			return mkAppR("shr", big0, h, a, b)
		}
	}
	return mkAppR(strings.ToLower("sh"+map[token.Token]string{token.SHL: "l", token.SHR: "r"}[op]), lo, hi, a, b)
}

// mkBitsScale is (a << k) mod 2^w for a non-negative term.
func mkBitsScale(a *Term, k, w int) *Term {
	return tScale(mkBits(a, 0, w-k), pow2(k))
}

func (e *Engine) bitop(st *State, op token.Token, a, b *Term, t types.Type) *Term {
	w, signed, _ := e.intType(t)
	a, b = st.canon(a), st.canon(b)
	if op == token.AND_NOT {
		if b.op == OInt {
			if signed {
				b = mkBig(new(big.Int).Not(b.val))
			} else {
				b = mkBig(new(big.Int).Sub(new(big.Int).Sub(pow2(w), big1), b.val))
			}
		} else if signed {
			b = tSub(mkInt(-1), b)
		} else {
			b = tSub(mkBig(new(big.Int).Sub(pow2(w), big1)), b)
		}
		op = token.AND
	}
	if r := e.lowBitOp(st, op, a, b, w, signed); r != nil {
		return r
	}
	if op == token.XOR && signed {
		for i, x := range [2]*Term{a, b} {
			other := [2]*Term{b, a}[i]
			if v, ok := x.int64(); ok && v == 0 {
				return other
			} else if ok && v == -1 {
				return tSub(mkInt(-1), other)
			}
		}
	}
	// masks of the form 2^k-1 and their shifts apply to any integer
	if op == token.AND {
		if a.op == OInt && b.op != OInt {
			a, b = b, a
		}
		if b.op == OInt && b.val.Sign() >= 0 {
			if lo, _ := st.bounds(a); lo == nil || lo.Sign() < 0 {
				if allOnes(b, b.val.BitLen()) {
					return mkBits(a, 0, b.val.BitLen())
				}
				return bitwise("and", mkBits(a, 0, b.val.BitLen()), b, w)
			}
		}
	}
	alo, ahi := st.bounds(a)
	blo, bhi := st.bounds(b)
	narrow := func(x *Term, lo, hi *big.Int) *Term {
		if lo == nil || lo.Sign() < 0 || bitWidth(x) >= 0 || x.op == OInt {
			return x
		}
		if _, ok := pieces(x); ok {
			return x
		}
		m := 63
		if hi != nil {
			m = hi.BitLen()
		}
		if m > 12 {
			top := sort.Search(20, func(i int) bool { return st.decide(mkLe(x, mkBig(new(big.Int).Sub(pow2(i), big1)))) == 1 })
			if top < 20 {
				m = top
			}
		}
		if m > 62 {
			return x
		}
		return intern(Term{op: OBits, args: []*Term{x}, n: 0, m: m})
	}
	a, b = narrow(a, alo, ahi), narrow(b, blo, bhi)
	if alo != nil && alo.Sign() >= 0 && blo != nil && blo.Sign() >= 0 {
		name := map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor"}[op]
		return bitwise(name, a, b, w)
	}
	lo, hi := typeRange(t)
	if a.id > b.id {
		a, b = b, a
	}
	return mkAppR("s"+op.String(), lo, hi, a, b)
}

func (e *Engine) convert(st *State, v *Term, from, to types.Type) *Term {
	fu, tu := from.Underlying(), to.Underlying()
	switch {
	case isIntType(fu) && isIntType(tu):
		return e.wrap(st, v, to)
	case isStringType(tu):
		if sl, ok := fu.(*types.Slice); ok {
			if isByteType(sl.Elem()) {
				return e.seqOf(st, v)
			}
			return seqOfAtom(mkApp("runes2str", types.Typ[types.String], e.snap(st, v)))
		}
		if isStringType(fu) {
			return v
		}
		if isIntType(fu) {
			if k, ok := st.constOf(v); ok {
				return mkLit(string(rune(k)))
			}
			if lo, hi := st.bounds(v); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(big.NewInt(127)) <= 0 {
				return mkSeq(mkElem(v, true))
			}
			return seqOfAtom(mkApp("rune2str", types.Typ[types.String], v))
		}
	case isStringType(fu):
		if sl, ok := tu.(*types.Slice); ok {
			if isByteType(sl.Elem()) {
				return e.newSlice(st, v, sl.Elem(), nil, "[]byte(string)")
			}
			return e.materialize(mkApp("str2runes", to, v), to)
		}
	}
	if types.Identical(fu, tu) {
		return v
	}
	if _, ok := tu.(*types.Pointer); ok {
		return v
	}
	if isIntType(tu) {
		lo, hi := typeRange(to)
		return mkAppR("f2i", lo, hi, v)
	}
	if isIntType(fu) {
		return mkApp("i2f", nil, v)
	}
	if fb, ok := fu.(*types.Basic); ok {
		if tb, ok := tu.(*types.Basic); ok && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0 {
			return mkApp("f2f", nil, v)
		}
	}
	if _, ok := tu.(*types.Slice); ok {
		return v
	}
	panic(budgetError{fmt.Sprintf("conversion %s to %s", from, to)})
}

func (e *Engine) typeAssert(ctx *fnCtx, fr *Frame, x *ssa.TypeAssert) []*Frame {
	v := e.eval(ctx, fr, x.X)
	st := fr.st
	iface, toIface := x.AssertedType.Underlying().(*types.Interface)
	var lit, val *Term
	switch {
	case v.op == ONil:
		lit = tFalse
	case v.op == OIface:
		if toIface {
			lit = mkBool(types.Implements(v.typ, iface))
			val = v
		} else {
			lit = mkBool(types.Identical(v.typ, x.AssertedType))
			val = v.args[0]
		}
	case toIface:
		lit = mkAnd(mkNot(e.isNil(v)), mkPred("impl:"+types.TypeString(x.AssertedType, nil), v))
		if v.op == OApp && v.name == "newof" && strings.HasSuffix(types.TypeString(x.AssertedType, nil), "/pkg/signature.Algorithm") {
			lit = tTrue
		}
		if iface.NumMethods() == 0 || types.AssignableTo(x.X.Type(), x.AssertedType) {
			lit = mkNot(e.isNil(v))
		}
		val = v
	default:
		lit = mkAnd(mkNot(e.isNil(v)), mkPred("typeis:"+types.TypeString(x.AssertedType, nil), v))
		val = e.materialize(mkApp("as:"+types.TypeString(x.AssertedType, nil), x.AssertedType, v), x.AssertedType)
	}
	if !x.CommaOk {
		if !e.require(fr, ctx, lit, "type assertion", x.Pos()) {
			return nil
		}
		fr.env[x] = val
		return []*Frame{fr}
	}
	yes, no := fork(st, lit)
	var out []*Frame
	if yes != nil {
		f := &Frame{st: yes, env: cloneEnv(fr.env), defers: fr.defers}
		f.env[x] = mkTuple(val, tTrue)
		out = append(out, f)
	}
	if no != nil {
		f := &Frame{st: no, env: cloneEnv(fr.env), defers: fr.defers}
		f.env[x] = mkTuple(zeroOf(x.AssertedType), tFalse)
		out = append(out, f)
	}
	return out
}

func cloneEnv(m map[ssa.Value]*Term) map[ssa.Value]*Term {
	c := make(map[ssa.Value]*Term, len(m)+1)
	for k, v := range m {
		c[k] = v
	}
	return c
}

func (e *Engine) sliceOp(ctx *fnCtx, fr *Frame, x *ssa.Slice) []*Frame {
	st := fr.st
	v := e.eval(ctx, fr, x.X)
	get := func(y ssa.Value, d *Term) *Term {
		if y == nil {
			return d
		}
		return e.eval(ctx, fr, y)
	}
	if isStringType(x.X.Type()) {
		n := seqLen(v)
		lo, hi := get(x.Low, t0), get(x.High, n)
		if !e.require(fr, ctx, mkLe(t0, lo), "slice bounds", x.Pos()) || !e.require(fr, ctx, mkLe(lo, hi), "slice bounds", x.Pos()) || !e.require(fr, ctx, mkLe(hi, n), "slice bounds", x.Pos()) {
			return nil
		}
		fr.env[x] = e.subSeq(st, v, lo, tSub(hi, lo))
		return []*Frame{fr}
	}
	var base, off, n, c *Term
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		if !e.nonNilPtr(fr, ctx, v, x.Pos(), "nil dereference") {
			return nil
		}
		base = e.resolve(v, pt.Elem())
		al := mkInt(pt.Elem().Underlying().(*types.Array).Len())
		off, n, c = t0, al, al
	} else {
		v = e.asSlice(v, x.X.Type())
		base, off, n, c, _ = sliceParts(v)
	}
	lo, hi, mx := get(x.Low, t0), get(x.High, n), get(x.Max, c)
	if !e.require(fr, ctx, mkLe(t0, lo), "slice bounds", x.Pos()) || !e.require(fr, ctx, mkLe(lo, hi), "slice bounds", x.Pos()) || !e.require(fr, ctx, mkLe(hi, mx), "slice bounds", x.Pos()) || !e.require(fr, ctx, mkLe(mx, c), "slice bounds", x.Pos()) {
		return nil
	}
	if base == nil {
		fr.env[x] = v
		return []*Frame{fr}
	}
	fr.env[x] = mkSlice(base, tAdd(off, lo), tSub(hi, lo), tSub(mx, lo))
	return []*Frame{fr}
}

// ---- maps ----

func (e *Engine) asMap(m *Term, t types.Type) *Term {
	if m.op == OMapRef || m.op == ONil {
		return m
	}
	o := e.objFor(m, t, func(o int) *Term { return intern(Term{op: OMapV, args: []*Term{mkApp("mapof", nil, m)}}) })
	return intern(Term{op: OMapRef, n: o})
}

func mapPut(m, k, v *Term) *Term {
	as := append([]*Term{}, m.args...)
	for i := 1; i+1 < len(as); i += 2 {
		if as[i] == k {
			as[i+1] = v
			return intern(Term{op: OMapV, args: as})
		}
	}
	as = append(as, k, v)
	return intern(Term{op: OMapV, args: as})
}

func (e *Engine) lookup(ctx *fnCtx, fr *Frame, x *ssa.Lookup) []*Frame {
	st := fr.st
	v, k := e.eval(ctx, fr, x.X), e.eval(ctx, fr, x.Index)
	mt, isMap := x.X.Type().Underlying().(*types.Map)
	if !isMap {
		n := seqLen(v)
		if !e.inRange(fr, ctx, k, n, x.Pos()) {
			return nil
		}
		fr.env[x] = e.seqAt(st, v, k, x.Type())
		return []*Frame{fr}
	}
	result := func(f *Frame, val *Term, ok bool) {
		if x.CommaOk {
			f.env[x] = mkTuple(val, mkBool(ok))
		} else {
			f.env[x] = val
		}
	}
	m := e.asMap(v, x.X.Type())
	if m.op == ONil {
		result(fr, zeroOf(mt.Elem()), false)
		return []*Frame{fr}
	}
	cont := e.content(st, m.n)
	key := e.snap(st, k)
	var out []*Frame
	rest := st
	// later entries override earlier ones only if the keys are equal, so look at the newest first
	for i := len(cont.args) - 2; i >= 1; i -= 2 {
		eq := e.eqTerm(rest, key, cont.args[i], mt.Key())
		yes, no := fork(rest, eq)
		if yes != nil {
			f := &Frame{st: yes, env: cloneEnv(fr.env), defers: fr.defers}
			result(f, cont.args[i+1], true)
			out = append(out, f)
		}
		if no == nil {
			return out
		}
		rest = no
	}
	base := cont.args[0]
	if base.op == OSym && base.name == "emptymap" {
		f := &Frame{st: rest, env: cloneEnv(fr.env), defers: fr.defers}
		result(f, zeroOf(mt.Elem()), false)
		return append(out, f)
	}
	key = rest.canon(key)
	yes, no := fork(rest, mkPred("mapok", base, key))
	if yes != nil {
		f := &Frame{st: yes, env: cloneEnv(fr.env), defers: fr.defers}
		val := e.materialize(mkApp("mapget", mt.Elem(), base, key), mt.Elem())
		if e.mapVal != nil {
			if l := e.mapVal(mt, val); l != nil {
				yes.assume(l)
			}
		}
		result(f, val, true)
		out = append(out, f)
	}
	if no != nil {
		f := &Frame{st: no, env: cloneEnv(fr.env), defers: fr.defers}
		result(f, zeroOf(mt.Elem()), false)
		out = append(out, f)
	}
	return out
}

// ---- calls ----

func (e *Engine) execCall(ctx *fnCtx, fr *Frame, in ssa.Instruction, cc *ssa.CallCommon, res ssa.Value) []*Frame {
	args := make([]*Term, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = e.eval(ctx, fr, a)
	}
	var fv *Term
	if _, ok := cc.Value.(*ssa.Builtin); !ok {
		fv = e.eval(ctx, fr, cc.Value)
	}
	return e.callWith(ctx, fr, in, cc, fv, args, res)
}

func (e *Engine) callWith(ctx *fnCtx, fr *Frame, in ssa.Instruction, cc *ssa.CallCommon, fv *Term, args []*Term, res ssa.Value) []*Frame {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return e.builtin(ctx, fr, in, b.Name(), cc, args, res)
	}
	var exits []Exit
	sig := cc.Signature()
	c := &callCtx{st: fr.st, args: args, ctx: ctx, instr: in, sig: sig, depth: ctx.depth + 1}
	switch {
	case cc.IsInvoke():
		if !e.require(fr, ctx, mkNot(e.isNil(fv)), "method call on a nil interface", in.Pos()) {
			return nil
		}
		exits = e.invoke(c, fv, cc.Method, cc.Value.Type())
	default:
		exits = e.callValue(c, fr, ctx, fv, in)
	}
	if e.trackFailures {
		name := "a function value"
		switch {
		case cc.IsInvoke():
			name = cc.Method.FullName()
		case fv.op == OFunc && fv.fn != nil:
			name = fv.fn.String()
		}
		exits = e.noteFailures(name, e.p.pos(in.Pos()), sig, exits)
	}
	return e.resume(ctx, fr, exits, res, sig)
}

// fakeNames are the types that stand for values of other packages.
var fakeNames = map[types.Type]string{}

func typeOfIface(v *Term) types.Type {
	if v.op == OIface {
		return v.typ
	}
	return nil
}

func (e *Engine) invoke(c *callCtx, recv *Term, m *types.Func, it types.Type) []Exit {
	iname := "invoke:" + types.TypeString(it, nil) + "." + m.Name()
	if h := e.opaque[iname]; h != nil {
		c.name = iname
		c.args = append([]*Term{recv}, c.args...)
		return h(e, c)
	}
	if n, ok := fakeNames[typeOfIface(recv)]; ok {
		c.args = append([]*Term{recv.args[0]}, c.args...)
		c.name = "fake:" + n + "." + m.Name()
		if h := e.models[c.name]; h != nil {
			return h(e, c)
		}
		return e.external(c)
	}
	if recv.op == OIface {
		ms := e.p.prog.MethodSets.MethodSet(recv.typ)
		sel := ms.Lookup(m.Pkg(), m.Name())
		if sel == nil {
			panic(budgetError{"no method " + m.Name() + " on " + recv.typ.String()})
		}
		fn := e.p.prog.MethodValue(sel)
		c.args = append([]*Term{recv.args[0]}, c.args...)
		return e.callFn(c, fn, nil)
	}
	c.args = append([]*Term{recv}, c.args...)
	c.name = iname
	if h := e.models[iname]; h != nil {
		return h(e, c)
	}
	return e.external(c)
}

func (e *Engine) callValue(c *callCtx, fr *Frame, ctx *fnCtx, fv *Term, in ssa.Instruction) []Exit {
	if fv.op == OFunc {
		return e.callFn(c, fv.fn, fv.args)
	}
	if !e.require(fr, ctx, mkNot(e.isNil(fv)), "call of a nil function", in.Pos()) {
		return nil
	}
	c.name = "dyn"
	c.args = append([]*Term{fv}, c.args...)
	if h := e.models["dyn"]; h != nil {
		return h(e, c)
	}
	return e.external(c)
}

func (e *Engine) callFn(c *callCtx, fn *ssa.Function, binds []*Term) []Exit {
	c.fn = fn
	c.name = fn.String()
	if o := fn.Origin(); o != nil && !inRepo(fn) {
		c.name = o.String()
	}
	if h := e.opaque[c.name]; h != nil {
		return h(e, c)
	}
	if h := e.models[c.name]; h != nil {
		return h(e, c)
	}
	if fn.Blocks != nil && (inRepo(fn) || fn.Synthetic != "" && fn.Pkg == nil || readable(fn)) {
		for _, f := range e.stack {
			if f == fn {
				return e.external(c)
			}
		}
		return e.call(c.st, fn, c.args, binds, c.depth)
	}
	if fn.Name() == "init" && fn.Pkg != nil {
		return []Exit{{st: c.st}}
	}
	return e.external(c)
}

// readable library functions are small and plain enough for their own source to be interpreted.
func readable(fn *ssa.Function) bool {
	o := fn
	if o.Origin() != nil {
		o = o.Origin()
	}
	for o.Parent() != nil {
		o = o.Parent()
	}
	if o.Pkg == nil {
		return false
	}
	switch path := o.Pkg.Pkg.Path(); path {
	case "slices", "cmp", "math/bits":
		return true
	default:
		return readableFns[path+"."+o.Name()]
	}
}

// readablePkgs are the library packages with functions that are interpreted; true of those that need building for it.
var readablePkgs = map[string]bool{
	"slices": true, "cmp": true, "math/bits": true, "strings": true, "bytes": true, "internal/stringslite": true, "sort": true,
	"crypto/subtle": true, "crypto/internal/fips140/subtle": true, "unicode/utf8": true,
}

var readableFns = map[string]bool{
	"strings.Cut": true, "strings.CutPrefix": true, "strings.CutSuffix": true,
	"internal/stringslite.Cut": true, "internal/stringslite.CutPrefix": true, "internal/stringslite.CutSuffix": true,
	"bytes.Cut": true, "bytes.CutPrefix": true, "bytes.CutSuffix": true,
	"sort.Search": true, "sort.SearchStrings": true, "sort.SearchInts": true, "sort.Find": true,
	"crypto/subtle.ConstantTimeSelect": true, "crypto/subtle.ConstantTimeEq": true, "crypto/subtle.ConstantTimeByteEq": true, "crypto/subtle.ConstantTimeLessOrEq": true,
	"crypto/internal/fips140/subtle.ConstantTimeSelect": true, "crypto/internal/fips140/subtle.ConstantTimeEq": true,
	"crypto/internal/fips140/subtle.ConstantTimeByteEq": true, "crypto/internal/fips140/subtle.ConstantTimeLessOrEq": true,
	"unicode/utf8.RuneLen": true, "unicode/utf8.ValidRune": true,
}

// resume continues the caller after the exits of a call.
func (e *Engine) resume(ctx *fnCtx, fr *Frame, exits []Exit, res ssa.Value, sig *types.Signature) []*Frame {
	var out []*Frame
	for i := range exits {
		x := exits[i]
		if x.st.dead {
			continue
		}
		if x.pan {
			ctx.exits = append(ctx.exits, x)
			continue
		}
		f := &Frame{st: x.st, defers: fr.defers}
		if len(exits) == 1 {
			f.env = fr.env
		} else {
			f.env = cloneEnv(fr.env)
		}
		if res != nil {
			switch sig.Results().Len() {
			case 0:
			case 1:
				f.env[res] = x.ret[0]
			default:
				f.env[res] = mkTuple(x.ret...)
			}
		}
		out = append(out, f)
	}
	return out
}

// external is a call whose body is not analysed: its results are opaque functions of its arguments
// and whatever it can reach through pointers and slices is forgotten.
func (e *Engine) external(c *callCtx) []Exit {
	e.unknown[c.name]++
	if e.onExternal != nil {
		e.onExternal(c.st, c.name, e.p.pos(c.instr.Pos()), c.args)
	}
	snaps := make([]*Term, 0, len(c.args)+1)
	for _, a := range c.args {
		snaps = append(snaps, e.snap(c.st, a))
	}
	for _, a := range c.args {
		e.havocReach(c.st, a, c.name, 0)
	}
	c.st.events = append(c.st.events, event{kind: "ext:" + c.name, args: snaps, pos: e.p.pos(c.instr.Pos())})
	if e.pure == nil || !e.pure[c.name] {
		snaps = append(snaps, mkInt(int64(e.freshID())))
	}
	return []Exit{{st: c.st, ret: e.results(c.name, c.sig, snaps)}}
}

func (e *Engine) results(name string, sig *types.Signature, args []*Term) []*Term {
	var ret []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		n := name
		if sig.Results().Len() > 1 {
			n = fmt.Sprintf("%s.%d", name, i)
		}
		ret = append(ret, e.materialize(mkApp(n, t, args...), t))
	}
	return ret
}

func (e *Engine) havocReach(st *State, v *Term, why string, d int) {
	if d > 3 {
		return
	}
	switch v.op {
	case OPtr, OFld, OIdx:
		if o := rootObj(v); o != 0 {
			if v.op == OPtr {
				e.havocObj(st, o)
			} else {
				t := e.typeAt(v)
				if _, bad := t.Underlying().(*types.Basic); bad && t.Underlying().(*types.Basic).Kind() == types.Invalid {
					e.havocObj(st, o)
				} else {
					e.store(st, v, e.freshSym("havoc", t))
				}
			}
		}
	case OSlice:
		base, off, n, _, _ := sliceParts(v)
		c := e.load(st, base)
		et := e.elemType(base)
		e.store(st, base, e.seqStoreRange(st, c, off, seqOfAtom(e.havocSeq(n, et))))
	case OIface:
		e.havocReach(st, v.args[0], why, d+1)
	}
}

func (e *Engine) elemType(base *Term) types.Type {
	if a, ok := e.typeAt(base).Underlying().(*types.Array); ok {
		return a.Elem()
	}
	return types.Typ[types.Uint8]
}

// havocSeq is an unknown sequence of known length.
func (e *Engine) havocSeq(n *Term, et types.Type) *Term {
	return intern(Term{op: OApp, name: "havocN", args: []*Term{mkInt(int64(e.freshID())), n}, typ: types.NewSlice(et)})
}

func (e *Engine) havocObj(st *State, o int) {
	t := e.objs[o].typ
	if a, ok := t.Underlying().(*types.Array); ok {
		st.heap[o] = seqOfAtom(e.havocSeq(seqLen(e.content(st, o)), a.Elem()))
		return
	}
	if _, ok := t.Underlying().(*types.Map); ok {
		st.heap[o] = intern(Term{op: OMapV, args: []*Term{mkSym(fmt.Sprintf("havocmap#%d", e.freshID()), nil)}})
		return
	}
	st.heap[o] = e.freshSym("havoc", t)
}

func (e *Engine) builtin(ctx *fnCtx, fr *Frame, in ssa.Instruction, name string, cc *ssa.CallCommon, args []*Term, res ssa.Value) []*Frame {
	st := fr.st
	ret := func(v *Term) []*Frame {
		if res != nil {
			fr.env[res] = v
		}
		return []*Frame{fr}
	}
	at := func(i int) types.Type { return cc.Args[i].Type() }
	switch name {
	case "len":
		switch u := at(0).Underlying().(type) {
		case *types.Slice:
			_, _, n, _, _ := sliceParts(e.asSlice(args[0], u))
			return ret(n)
		case *types.Basic:
			return ret(seqLen(args[0]))
		case *types.Array:
			return ret(mkInt(u.Len()))
		case *types.Pointer:
			return ret(mkInt(u.Elem().Underlying().(*types.Array).Len()))
		}
		return ret(mkAppR("len", big0, maxLen, e.snap(st, args[0])))
	case "cap":
		if _, ok := at(0).Underlying().(*types.Slice); ok {
			_, _, _, c, _ := sliceParts(e.asSlice(args[0], at(0)))
			return ret(c)
		}
		return ret(mkAppR("cap", big0, maxLen, args[0]))
	case "append":
		return e.appendOp(ctx, fr, in, cc, args, res)
	case "copy":
		dst := e.asSlice(args[0], at(0))
		src := args[1]
		if _, ok := at(1).Underlying().(*types.Slice); ok {
			src = e.asSlice(src, at(1))
		}
		db, do, dn, _, _ := sliceParts(dst)
		sc := e.seqOf(st, src)
		sn := seqLen(sc)
		yes, no := fork(st, mkLe(sn, dn))
		var out []*Frame
		do1 := func(s *State, n *Term) {
			f := &Frame{st: s, env: cloneEnv(fr.env), defers: fr.defers}
			if db != nil {
				part := e.subSeq(s, sc, t0, n)
				e.store(s, db, e.seqStoreRange(s, e.load(s, db), do, part))
			}
			if res != nil {
				f.env[res] = n
			}
			out = append(out, f)
		}
		if yes != nil {
			do1(yes, sn)
		}
		if no != nil {
			do1(no, dn)
		}
		return out
	case "panic":
		e.require(fr, ctx, tFalse, "explicit panic", in.Pos())
		return nil
	case "clear":
		if _, ok := at(0).Underlying().(*types.Slice); ok {
			b, o, n, _, _ := sliceParts(e.asSlice(args[0], at(0)))
			if b != nil {
				et := e.elemType(b)
				e.store(st, b, e.seqStoreRange(st, e.load(st, b), o, mkSeq(mkRep(zeroOf(et), n, isByteType(et)))))
			}
			return ret(nil)
		}
		m := e.asMap(args[0], at(0))
		if m.op == OMapRef {
			st.heap[m.n] = intern(Term{op: OMapV, args: []*Term{mkSym("emptymap", nil)}})
		}
		return ret(nil)
	case "delete":
		m := e.asMap(args[0], at(0))
		if m.op == OMapRef {
			st.heap[m.n] = intern(Term{op: OMapV, args: []*Term{mkApp("mapdel", nil, e.content(st, m.n), e.snap(st, args[1]))}})
			st.events = append(st.events, event{kind: "mapdelete", args: []*Term{m, args[1]}, pos: e.p.pos(in.Pos())})
		}
		return ret(nil)
	case "min", "max":
		// split on the comparison
		cur := []*Frame{fr}
		vals := map[*Frame]*Term{fr: args[0]}
		for _, a := range args[1:] {
			var next []*Frame
			nv := map[*Frame]*Term{}
			for _, f := range cur {
				v := vals[f]
				c := mkLe(v, a)
				if name == "max" {
					c = mkLe(a, v)
				}
				if !isIntType(at(0)) {
					nf := &Frame{st: f.st, env: f.env, defers: f.defers}
					nv[nf] = mkApp(name, at(0), v, a)
					next = append(next, nf)
					continue
				}
				yes, no := fork(f.st, c)
				if yes != nil {
					nf := &Frame{st: yes, env: cloneEnv(f.env), defers: f.defers}
					nv[nf] = v
					next = append(next, nf)
				}
				if no != nil {
					nf := &Frame{st: no, env: cloneEnv(f.env), defers: f.defers}
					nv[nf] = a
					next = append(next, nf)
				}
			}
			cur, vals = next, nv
		}
		if res != nil {
			for _, f := range cur {
				f.env[res] = vals[f]
			}
		}
		return cur
	case "close", "print", "println":
		if name != "close" {
			if e.onExternal != nil {
				e.onExternal(st, "print", e.p.pos(in.Pos()), args)
			}
			st.events = append(st.events, event{kind: "print", args: args, pos: e.p.pos(in.Pos())})
		}
		return ret(nil)
	case "recover":
		return ret(e.freshSym("recover", types.NewInterfaceType(nil, nil)))
	case "ssa:wrapnilchk":
		if !e.nonNilPtr(fr, ctx, args[0], in.Pos(), "nil receiver") {
			return nil
		}
		return ret(args[0])
	}
	panic(budgetError{"builtin " + name})
}

func (e *Engine) appendOp(ctx *fnCtx, fr *Frame, in ssa.Instruction, cc *ssa.CallCommon, args []*Term, res ssa.Value) []*Frame {
	t := cc.Args[0].Type()
	et := t.Underlying().(*types.Slice).Elem()
	dst := e.asSlice(args[0], t)
	var add *Term
	if len(args) > 1 {
		src := args[1]
		if _, ok := cc.Args[1].Type().Underlying().(*types.Slice); ok {
			src = e.asSlice(src, cc.Args[1].Type())
		}
		add = e.seqOf(fr.st, src)
	} else {
		add = mkSeq()
	}
	var out []*Frame
	e.appendSeq(fr.st, dst, add, et, func(s *State, v *Term) {
		f := fr
		if s != fr.st || len(out) > 0 {
			f = &Frame{st: s, env: cloneEnv(fr.env), defers: fr.defers}
		}
		if res != nil {
			f.env[res] = v
		}
		out = append(out, f)
	})
	return out
}

// appendSeq appends a sequence to a slice, in place when the capacity is known to allow it.
func (e *Engine) appendSeq(st *State, dst, add *Term, et types.Type, k func(*State, *Term)) {
	base, off, n, c, _ := sliceParts(dst)
	an := seqLen(add)
	if an == t0 {
		k(st, dst)
		return
	}
	if base != nil && n != c {
		fits := mkLe(tAdd(n, an), c)
		yes, no := fork(st, fits)
		if yes != nil {
			old := e.load(yes, base)
			e.store(yes, base, e.seqStoreRange(yes, old, tAdd(off, n), add))
			k(yes, mkSlice(base, off, tAdd(n, an), c))
		}
		if no == nil {
			return
		}
		st = no
	}
	content := mkSeq(e.seqOf(st, dst), add)
	v := e.newSlice(st, content, et, nil, "append")
	if base != nil {
		st.events = append(st.events, event{kind: "appendshare", args: []*Term{base, v.args[0]}})
	}
	k(st, v)
}
