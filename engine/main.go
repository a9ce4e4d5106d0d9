package main

import (
	"flag"
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var (
	flagRepo  = flag.String("repo", "/repo", "repository")
	flagVerif = flag.String("verif", "/verif", "verification directory")
	flagDump  = flag.String("dump", "", "pkg:func to dump exits of")
	flagProp  = flag.String("prop", "", "property ids to decide, separated by commas")
	flagInit  = flag.Bool("init", false, "dump init state")
)

func main() {
	flag.Parse()
	debug.SetGCPercent(400)
	if f := os.Getenv("NDPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if *flagProp != "" {
		tier := os.Getenv("VERIF_TIER")
		if tier == "" {
			tier = "quick"
		}
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		rc := 0
		for _, id := range strings.Split(*flagProp, ",") {
			if r := runCheck(*flagRepo, *flagVerif, id, tier, seed); r != 0 {
				rc = r
			}
		}
		pprof.StopCPUProfile()
		os.Exit(rc)
	}
	p, err := loadProgram(*flagRepo, *flagVerif, "linux", "amd64", "./pkg/...")
	if err != nil {
		fmt.Println("LOAD", err)
		os.Exit(1)
	}
	e := NewEngine(p)
	e.runInits()
	if *flagInit {
		for g, o := range e.globals {
			if c, ok := e.baseHeap[o]; ok && inRepoPkg(g.Pkg) {
				fmt.Println(g, "=", c)
			}
		}
		fmt.Println(e.unknown)
	}
	if *flagDump != "" {
		dump(e, *flagDump)
	}
}

func symArgs(e *Engine, fn *ssa.Function) []*Term {
	var args []*Term
	for i, q := range fn.Params {
		t := q.Type()
		n := q.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("p%d", i)
		}
		args = append(args, e.materialize(mkSym(n, t), t))
	}
	_ = types.Typ
	return args
}

func dump(e *Engine, spec string) {
	var pkg, name string
	for i := range spec {
		if spec[i] == ':' {
			pkg, name = spec[:i], spec[i+1:]
		}
	}
	fn := e.p.fn(pkg, name)
	if fn == nil {
		fmt.Println("no such function")
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if b, ok := r.(budgetError); ok {
				fmt.Println("BUDGET", b.msg, e.stack)
				return
			}
			panic(r)
		}
	}()
	st := newState()
	xs := e.call(st, fn, symArgs(e, fn), nil, 0)
	for i, x := range xs {
		fmt.Printf("--- exit %d panic=%v at %s\n", i, x.pan, e.p.pos(x.pos))
		for _, l := range x.st.path {
			fmt.Println("   path:", l)
		}
		for _, r := range x.ret {
			fmt.Println("   ret:", x.st.canon(e.snap(x.st, r)))
		}
		for _, ev := range x.st.events {
			fmt.Println("   event:", ev.kind, ev.args, ev.pos)
		}
	}
	for _, o := range e.obs {
		fmt.Println("OB", o.describe(e.p))
	}
	fmt.Println("obligations", e.obsTotal, "undischarged", len(e.obs), "unknown", e.unknown, "steps", e.steps)
}
