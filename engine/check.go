package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Checker decides one property.
type Checker struct {
	id       string
	p        *Program // linux/amd64
	js       *Program // js/wasm, loaded on demand
	e        *Engine
	viols    []violation
	rules    []string
	funcs    map[string]bool
	counts   map[string]int
	samples  []string
	assume   []string
	started  time.Time
	seenViol map[string]bool
	nullName *Term // name of the absent algorithm

	onEnv func(st *State, pos, what string, v *Term) // told about every value handed to the JavaScript environment

	onSweep func(fn *ssa.Function, args []*Term) // told before every operation of a sweep

	onOperation func(name string, c *callCtx, args []*Term) // told about every operation called through the facade
}

type violation struct {
	where, what string
	trace       []string
}

type propCheck struct {
	id  string
	run func(k *Checker)
}

var checks = map[string]func(k *Checker){}

func (k *Checker) rule(format string, a ...any) { k.rules = append(k.rules, fmt.Sprintf(format, a...)) }
func (k *Checker) trust(s string)               { k.assume = append(k.assume, s) }
func (k *Checker) count(n string, d int)        { k.counts[n] += d }

func (k *Checker) violate(where, format string, a ...any) *violation {
	what := fmt.Sprintf(format, a...)
	if k.seenViol[where+"|"+what] {
		return &violation{}
	}
	k.seenViol[where+"|"+what] = true
	k.viols = append(k.viols, violation{where: where, what: what})
	return &k.viols[len(k.viols)-1]
}

func (v *violation) with(st *State) {
	for _, l := range st.path {
		v.trace = append(v.trace, "when "+l.String())
	}
}

// anchor finds a function the property is about.
func (k *Checker) anchor(pkg, name string) *ssa.Function {
	fn := k.p.fn(pkg, name)
	if fn == nil || fn.Blocks == nil {
		k.violate(pkg, "the function %s the property is about was not found", name)
		return nil
	}
	return fn
}

// fresh makes an engine over the Linux build with the package state established.
func (k *Checker) fresh() *Engine {
	dl := time.Now().Add(780 * time.Second)
	if k.e != nil {
		dl = k.e.deadline
	}
	k.e = NewEngine(k.p)
	k.e.deadline = dl
	k.e.runInits()
	return k.e
}

// run interprets a function from a state; ok is false when the analysis gave up, which is reported.
func (k *Checker) run(fn *ssa.Function, st *State, args []*Term) (exits []Exit, ok bool) {
	return k.runWith(fn, st, args, nil)
}

func (k *Checker) runWith(fn *ssa.Function, st *State, args, binds []*Term) (exits []Exit, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			b, isB := r.(budgetError)
			if !isB {
				b = budgetError{fmt.Sprint("internal: ", r)}
				if os.Getenv("NDDEBUG") != "" {
					panic(r)
				}
			}
			k.e.stack = nil
			k.violate(k.p.pos(fn.Pos()), "%s could not be analysed: %s", shortFn(fn.String()), shortFn(b.msg))
			exits, ok = nil, false
		}
	}()
	xs := k.e.call(st, fn, args, binds, 0)
	for f := range k.e.funcsSeen {
		k.funcs[shortFn(f.String())] = true
	}
	live := xs[:0]
	for _, x := range xs {
		if !x.st.dead {
			live = append(live, x)
		}
	}
	k.count("paths", len(live))
	return live, true
}

// noPanics reports the undischarged run-time conditions met since the last call, except those allowed.
func (k *Checker) noPanics(allow func(o *Oblig) bool) {
	k.count("panic_conditions", k.e.obsTotal)
	for _, o := range k.e.obs {
		if allow != nil && allow(o) {
			continue
		}
		v := k.violate(k.p.pos(o.pos), "%s may happen in %s (needs %s; reached from %s)", o.kind, shortFn(o.fn.String()), o.lit, shortFn(strings.Join(o.stack, " > ")))
		v.trace = append(v.trace, o.lits...)
	}
	k.clearObs()
}

func (k *Checker) clearObs() { k.e.obs, k.e.obsTotal, k.e.sums = nil, 0, nil }

func (k *Checker) sym(name string, t types.Type) *Term { return k.e.materialize(mkSym(name, t), t) }

// symArgs are unconstrained arguments for a function, named after their position.
func (k *Checker) symArgs(fn *ssa.Function) []*Term {
	var args []*Term
	for i, q := range fn.Params {
		args = append(args, k.sym(fmt.Sprintf("a%d", i), q.Type()))
	}
	return args
}

// splitErr separates the exits by whether the error result is nil.
func (k *Checker) splitErr(xs []Exit, idx int) (good, bad []Exit) {
	for _, x := range xs {
		if x.pan {
			continue
		}
		l := k.e.isNil(x.ret[idx])
		y, n := fork(x.st, l)
		if y != nil && !y.dead {
			g := x
			g.st = y
			good = append(good, g)
		}
		if n != nil && !n.dead {
			b := x
			b.st = n
			bad = append(bad, b)
		}
	}
	return
}

type named struct {
	name string
	lit  *Term
}

// exactly checks that the good exits establish all conditions and that no bad exit is compatible with all of them.
func (k *Checker) exactly(fn *ssa.Function, good, bad []Exit, conds []named) {
	k.implies(fn, good, conds)
	for _, x := range bad {
		k.count("facts", 1)
		st := x.st.clone()
		dead := false
		for _, c := range conds {
			if !st.assume(c.lit) {
				dead = true
				break
			}
		}
		if !dead && !k.refute(st) {
			k.violate(k.p.pos(x.pos), "%s can fail here although every condition for success holds", shortFn(fn.String())).with(st)
		}
	}
}

// refute looks once more for a contradiction among the recorded facts.
func (k *Checker) refute(st *State) bool {
	if st.dead {
		return true
	}
	for _, l := range st.lits {
		if st.decide(st.canon(l)) == -1 {
			return true
		}
		if l.op == ONot && l.args[0].op == OEq {
			t := st.canon(l.args[0].args[0])
			if st.decideLe(t) == 1 && st.decideLe(tNeg(t)) == 1 {
				return true
			}
		}
	}
	return false
}

// implies checks that every given exit establishes all conditions.
func (k *Checker) implies(fn *ssa.Function, good []Exit, conds []named) {
	for _, x := range good {
		for _, c := range conds {
			k.count("facts", 1)
			if x.st.decide(c.lit) != 1 {
				k.violate(k.p.pos(x.pos), "%s can succeed here without: %s", shortFn(fn.String()), c.name).with(x.st)
			}
		}
	}
	if len(good) == 0 {
		k.violate(k.p.pos(fn.Pos()), "%s has no path on which it succeeds", shortFn(fn.String()))
	}
}

// equal checks a value.
func (k *Checker) equal(st *State, got, want *Term, where, what string) bool {
	k.count("facts", 1)
	if st.eqVal(got, want, 0) == 1 {
		return true
	}
	v := k.violate(where, "%s: it is %s instead of %s", what, st.canon(got), st.canon(want))
	v.with(st)
	return false
}

// must checks a literal.
func (k *Checker) must(st *State, l *Term, where, what string) bool {
	k.count("facts", 1)
	if st.decide(l) == 1 {
		return true
	}
	v := k.violate(where, "%s (not established: %s)", what, st.canon(l))
	v.with(st)
	return false
}

// atLeast checks that the analysis met as many instances as the property is about.
func (k *Checker) atLeast(what string, got, want int) {
	if got < want {
		k.violate("-", "only %d %s were found, expected at least %d: the code the property is about has moved out of reach", got, what, want)
	}
}

// ---- output ----

func (k *Checker) finish(verif, tier string, seed int) int {
	known := loadKnown(filepath.Join(verif, "known_findings.txt"), k.id)
	var rest []violation
	for _, v := range k.viols {
		hit := ""
		for _, f := range known {
			if strings.Contains(v.where+" "+v.what, f.match) {
				hit = f.text
				break
			}
		}
		if hit != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.id, hit)
			continue
		}
		rest = append(rest, v)
	}
	fns := make([]string, 0, len(k.funcs))
	for f := range k.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]any{
		"explanation":        "static analysis of the current source: " + strings.Join(k.rules, " "),
		"functions_analysed": len(fns),
		"functions":          fns,
		"rules":              k.rules,
	}
	for n, c := range k.counts {
		cov[n] = c
	}
	if len(k.samples) > 0 {
		if len(k.samples) > 12 {
			k.samples = k.samples[:12]
		}
		cov["samples"] = k.samples
	}
	var vs []string
	for _, v := range rest {
		vs = append(vs, v.where+": "+v.what)
	}
	if len(vs) > 0 {
		cov["violations"] = vs
	}
	if k.e != nil {
		un := []string{}
		for n := range k.e.unknown {
			un = append(un, shortFn(n))
		}
		sort.Strings(un)
		cov["calls_treated_as_opaque"] = un
	}
	ev := map[string]any{"property": k.id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": append([]string{"Go semantics as given by the go/ssa form of the type-checked source", "library functions behave as documented (engine/models.go)"}, k.assume...),
		"wall_s":      float64(time.Since(k.started).Milliseconds()) / 1000, "violations": len(rest)}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, k.id+".json"), append(b, '\n'), 0o644)
	replay := filepath.Join(dir, k.id+".violation.txt")
	os.Remove(replay)
	if len(rest) == 0 {
		fmt.Printf("OK property=%s functions=%d %s\n", k.id, len(fns), countsText(k.counts))
		return 0
	}
	var sb strings.Builder
	for _, v := range rest {
		fmt.Fprintf(&sb, "%s: %s\n", v.where, v.what)
		for _, t := range v.trace {
			fmt.Fprintf(&sb, "    %s\n", t)
		}
	}
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	for i, v := range rest {
		if i >= 15 {
			fmt.Printf("  ... and %d more\n", len(rest)-i)
			break
		}
		s := v.where + ": " + v.what
		if len(s) > 600 {
			s = strings.ToValidUTF8(s[:600], "") + "…"
		}
		fmt.Println("  " + s)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", k.id, replay)
	return 1
}

func countsText(m map[string]int) string {
	var ks []string
	for n := range m {
		ks = append(ks, n)
	}
	sort.Strings(ks)
	var out []string
	for _, n := range ks {
		out = append(out, n+"="+strconv.Itoa(m[n]))
	}
	return strings.Join(out, " ")
}

type finding struct{ match, text string }

// loadKnown reads "known: property=<id> match=<text> :: <description>" lines.
func loadKnown(path, id string) (out []finding) {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		pre := "known: property=" + id + " match="
		if strings.HasPrefix(l, pre) {
			m, t, ok := strings.Cut(l[len(pre):], " :: ")
			if ok && m != "" {
				out = append(out, finding{m, t})
			}
		}
	}
	return
}

func runCheck(repo, verif, id, tier string, seed int) int {
	k := &Checker{id: id, funcs: map[string]bool{}, counts: map[string]int{}, started: time.Now(), seenViol: map[string]bool{}}
	f := checks[id]
	if f == nil {
		fmt.Println("no check for", id)
		return 1
	}
	p, err := loadProgram(repo, verif, "linux", "amd64", "./pkg/...")
	if err != nil {
		k.violate(repo, "%v", err)
		return k.finish(verif, tier, seed)
	}
	k.p = p
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("NDDEBUG") != "" {
					panic(r)
				}
				k.violate("-", "the analysis could not be completed: %v", r)
			}
		}()
		k.fresh()
		f(k)
	}()
	return k.finish(verif, tier, seed)
}

// deref is what the pointer passed for a parameter refers to.
func (k *Checker) deref(st *State, p *Term, fn *ssa.Function, i int) *Term {
	return k.e.load(st, k.e.resolve(p, fn.Params[i].Type().Underlying().(*types.Pointer).Elem()))
}

// at is the element of a sequence, or something unknown where the facts do not determine it.
func (k *Checker) at(st *State, s, i *Term) *Term {
	if v := k.e.seqAtQuiet(st, s, i); v != nil {
		return v
	}
	return mkAppR("unknown-at", nil, nil, s, i)
}
