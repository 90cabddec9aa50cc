package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type unitReport struct {
	Unit    string              `json:"unit"`
	Total   int                 `json:"obligations"`
	Proved  int                 `json:"proved"`
	ByKind  map[string]int      `json:"by_kind"`
	Secs    float64             `json:"seconds"`
	Failed  []map[string]string `json:"failed,omitempty"`
	Dropped []string            `json:"dropped_candidates,omitempty"`
	Kept    []string            `json:"invariants,omitempty"`
	Inlined []string            `json:"inlined,omitempty"`
}

type report struct {
	Property string             `json:"property"`
	OK       bool               `json:"ok"`
	Units    []unitReport       `json:"units"`
	Total    int                `json:"obligations"`
	Proved   int                `json:"proved"`
	Solver   map[string]int     `json:"proved_by"`
	Times    map[string]float64 `json:"solver_seconds"`
	Trusted  []string           `json:"trusted_contracts"`
	Assumed  []string           `json:"assumptions"`
	Lemmas   []string           `json:"lemmas"`
	Funcs    []string           `json:"functions_under_contract"`
	Inlined  []string           `json:"functions_inlined"`
	Axioms   int                `json:"theory_axioms"`
	Wall     float64            `json:"wall_seconds"`
	Error    string             `json:"error,omitempty"`
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("specs", "/verif/contracts", "contracts")
	prop := flag.String("prop", "", "property")
	fns := flag.String("fn", "", "functions (comma separated)")
	lem := flag.String("lemma", "", "lemmas")
	out := flag.String("json", "", "report file")
	debug := flag.Bool("v", false, "verbose")
	keep := flag.String("keep", "", "keep queries in this directory")
	fast := flag.Int("fast", 5, "fast timeout")
	slow := flag.Int("slow", 20, "slow timeout")
	budget := flag.Int("budget", 0, "seconds after which the remaining obligations count as not proved")
	externs := flag.Bool("externs", false, "list functions called outside the module")
	list := flag.Bool("list", false, "list functions")
	dump := flag.String("dump", "", "print the SSA of a function")
	flag.Parse()
	t0 := time.Now()
	rep := &report{Property: *prop}
	fail := func(err error) {
		rep.Error = err.Error()
		rep.OK = false
		write(*out, rep)
		fmt.Println("ERROR:", err)
		os.Exit(2)
	}
	P, err := loadProgram(*repo)
	if err != nil {
		fail(err)
	}
	if *list {
		for _, k := range sortedKeys(P.funcs) {
			fmt.Println(k)
		}
		return
	}
	if *dump != "" {
		f := P.funcs[*dump]
		if f == nil {
			fmt.Println("no such function")
			return
		}
		f.WriteTo(os.Stdout)
		for _, a := range f.AnonFuncs {
			a.WriteTo(os.Stdout)
		}
		return
	}
	if *externs {
		listExterns(P)
		return
	}
	S, err := loadSpecs(*specs)
	if err != nil {
		fail(err)
	}
	e := &Engine{P: P, S: S, decls: map[string]string{}, tags: map[string]int{}, tagTy: map[int]types.Type{}, immut: map[*ssa.Global]bool{}, impls: map[string][]types.Type{}, boxes: map[string]bool{}, trust: map[string]bool{}, assum: map[string]bool{}, debug: *debug, autoTerms: map[string]*Term{}}
	if err := e.prepareSpecs(); err != nil {
		fail(err)
	}
	for _, l := range S.lemmaList {
		if len(l.auto) == 0 {
			continue
		}
		t, err := e.autoLemma(l)
		if err != nil {
			fail(err)
		}
		e.autoTerms[l.name] = t
	}
	dir := *keep
	if dir == "" {
		dir, err = os.MkdirTemp("", "gocv")
		if err != nil {
			fail(err)
		}
		defer os.RemoveAll(dir)
	}
	os.MkdirAll(dir, 0o755)
	s := newSolver(dir, 8)
	s.keep = *keep != ""
	s.fast, s.slow = *fast, *slow
	if *budget > 0 {
		s.deadline = t0.Add(time.Duration(*budget) * time.Second)
	}
	var todo []string
	var lemmas []string
	if *prop != "" {
		ps := S.props[*prop]
		if ps == nil {
			fail(fmt.Errorf("no property %s in the contracts", *prop))
		}
		todo = append(todo, ps.funcs...)
		lemmas = append(lemmas, ps.lemmas...)
	}
	if *fns != "" {
		todo = append(todo, strings.Split(*fns, ",")...)
	}
	if *lem != "" {
		lemmas = append(lemmas, strings.Split(*lem, ",")...)
	}
	done := map[string]bool{}
	doneL := map[string]bool{}
	var outcomes []*outcome
	inl := map[string]bool{}
	usedFns := map[string]bool{}
	big.Lock()
	defer big.Unlock()
	runUnit := func(ex *Exec) *outcome {
		o := e.solveUnit(s, ex)
		return o
	}
	type job struct{ o *outcome }
	var jobs []*job
	var jwg sync.WaitGroup
	spawn := func(f func() *outcome) {
		j := &job{}
		jobs = append(jobs, j)
		jwg.Add(1)
		go func() {
			defer jwg.Done()
			big.Lock()
			defer big.Unlock()
			j.o = f()
		}()
	}
	addOut := func(o *outcome) {
		outcomes = append(outcomes, o)
		if *debug || len(o.failed) > 0 {
			fmt.Printf("%-44s %3d/%3d  %.1fs\n", o.ex.name, o.proved, o.total, o.secs)
			for _, f := range o.failed {
				fmt.Printf("   FAILED %s at %s [%s]: %s\n", f.name, f.pos, f.status, f.descr)
				if f.status == "error" {
					fmt.Println("      ", f.out)
				}
			}
		}
	}
	for len(todo) > 0 || len(lemmas) > 0 {
		for len(todo) > 0 {
			n := todo[0]
			todo = todo[1:]
			if !strings.Contains(n, ".") {
				n = "helium." + n
			}
			if done[n] {
				continue
			}
			done[n] = true
			c := S.contracts[n]
			if c == nil {
				fail(fmt.Errorf("no contract for %s", n))
			}
			if c.trusted || c.iface && false {
				continue
			}
			if c.opts["inline"] != "" {
				continue
			}
			if c.iface {
				for _, ex := range e.verifyIface(c) {
					ex := ex
					spawn(func() *outcome { return runUnit(ex) })
					for k := range ex.called {
						if cc := S.contracts[k]; cc != nil && !cc.trusted {
							todo = append(todo, k)
						}
					}
					for k := range ex.inlined {
						inl[k] = true
					}
					lemmas = append(lemmas, ex.usedLemmas...)
					for k := range ex.autoUsed {
						lemmas = append(lemmas, k)
					}
					collectFns(e, ex, usedFns)
				}
				sort.Strings(todo)
				continue
			}
			ex := e.verifyFunc(c)
			spawn(func() *outcome {
				o := runUnit(ex)
				if len(o.failed) > 0 && hasHoles(c) {
					// second attempt: every assignment of the invariants' holes
					e.enumNext = true
					ex2 := e.verifyFunc(c)
					e.enumNext = false
					o2 := runUnit(ex2)
					if len(o2.failed) < len(o.failed) {
						o = o2
					}
				}
				return o
			})
			for k := range ex.called {
				if cc := S.contracts[k]; cc != nil && !cc.trusted {
					todo = append(todo, k)
				}
			}
			sort.Strings(todo)
			for k := range ex.inlined {
				inl[k] = true
			}
			lemmas = append(lemmas, ex.usedLemmas...)
			for k := range ex.autoUsed {
				lemmas = append(lemmas, k)
			}
			collectFns(e, ex, usedFns)
		}
		for len(lemmas) > 0 {
			n := lemmas[0]
			lemmas = lemmas[1:]
			if doneL[n] {
				continue
			}
			doneL[n] = true
			l := S.lemmas[n]
			if l == nil {
				fail(fmt.Errorf("no lemma %s", n))
			}
			ex := e.verifyLemma(l)
			if len(ex.items) == 0 {
				continue
			}
			spawn(func() *outcome { return runUnit(ex) })
			lemmas = append(lemmas, ex.usedLemmas...)
			for k := range ex.autoUsed {
				lemmas = append(lemmas, k)
			}
			collectFns(e, ex, usedFns)
		}
	}
	for _, ex := range e.specObligations(usedFns) {
		ex := ex
		spawn(func() *outcome { return runUnit(ex) })
	}
	big.Unlock()
	jwg.Wait()
	big.Lock()
	for _, j := range jobs {
		addOut(j.o)
	}
	// the precondition of an interface method may exclude some implementations, not all of them
	sound := map[*Contract]int{}
	for _, o := range outcomes {
		if c := o.ex.contract; c != nil && c.iface {
			sound[c] += 0
			if !o.vacuous {
				sound[c]++
			}
		}
	}
	for _, o := range outcomes {
		if c := o.ex.contract; c != nil && c.iface && sound[c] == 0 {
			o.failed = append(o.failed, &failure{o.ex.name + "/vacuous", "the contract is satisfiable and the function can return", "", "unsat", "the assumptions are contradictory"})
		}
	}
	rep.OK = true
	for _, o := range outcomes {
		u := unitReport{Unit: o.ex.name, Total: o.total, Proved: o.proved, ByKind: o.byKind, Secs: o.secs, Kept: o.kept, Dropped: o.dropped, Inlined: sortedKeys(o.ex.inlined)}
		for _, f := range o.failed {
			rep.OK = false
			u.Failed = append(u.Failed, map[string]string{"name": f.name, "what": f.descr, "at": f.pos, "status": f.status, "solver": f.out})
		}
		rep.Total += o.total
		rep.Proved += o.proved
		rep.Units = append(rep.Units, u)
		if !strings.HasPrefix(o.ex.name, "lemma ") && !strings.HasPrefix(o.ex.name, "spec ") {
			rep.Funcs = append(rep.Funcs, o.ex.name)
		}
	}
	rep.Solver = s.counts
	rep.Times = s.times
	for k := range e.trust {
		c := S.contracts[k]
		w := k
		if c != nil && c.why != "" {
			w += ": " + c.why
		}
		rep.Trusted = append(rep.Trusted, w)
	}
	sort.Strings(rep.Trusted)
	rep.Assumed = sortedKeys(e.assum)
	rep.Lemmas = sortedKeys(doneL)
	rep.Inlined = sortedKeys(inl)
	rep.Axioms = strings.Count(seqAxioms(SSeq)+utf8Prelude, ":named")
	rep.Wall = time.Since(t0).Seconds()
	write(*out, rep)
	fmt.Printf("%s: %d/%d obligations, %d functions, %.1fs\n", *prop, rep.Proved, rep.Total, len(rep.Funcs), rep.Wall)
	if !rep.OK {
		os.Exit(1)
	}
}

func hasHoles(c *Contract) bool {
	for _, l := range c.loops {
		for _, cl := range l.clauses {
			if len(cl.vars) > 0 {
				return true
			}
		}
	}
	return false
}

func collectFns(e *Engine, ex *Exec, m map[string]bool) {
	var add func(n string)
	add = func(n string) {
		if m[n] {
			return
		}
		f := e.S.fns[n]
		if f == nil {
			return
		}
		m[n] = true
		for c := range f.callees {
			add(c)
		}
	}
	seen := map[*Term]bool{}
	for _, it := range ex.items {
		it.term.walk(func(t *Term) bool { add(t.op); return true }, seen)
	}
	for n := range ex.autoUsed {
		if t := e.autoTerms[n]; t != nil {
			t.walk(func(t *Term) bool { add(t.op); return true }, seen)
		}
	}
}

func write(out string, rep *report) {
	if out == "" {
		return
	}
	b, _ := json.MarshalIndent(rep, "", " ")
	os.MkdirAll(filepath.Dir(out), 0o755)
	os.WriteFile(out, b, 0o644)
}

func listExterns(P *Program) {
	ext := map[string]map[string]bool{}
	for _, name := range sortedKeys(P.funcs) {
		var rec func(fn *ssa.Function)
		rec = func(fn *ssa.Function) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					var cc *ssa.CallCommon
					switch in := in.(type) {
					case *ssa.Call:
						cc = &in.Call
					case *ssa.Defer:
						cc = &in.Call
					default:
						continue
					}
					k := ""
					if cc.IsInvoke() {
						k = "iface " + objName(cc.Method)
					} else if f := cc.StaticCallee(); f != nil {
						if f.Pkg != nil && P.pkgs[f.Pkg.Pkg.Path()] != nil {
							continue
						}
						k = funcName(f)
					} else if _, ok := cc.Value.(*ssa.Builtin); ok {
						continue
					} else {
						k = "value " + cc.Value.Type().String()
					}
					if ext[k] == nil {
						ext[k] = map[string]bool{}
					}
					ext[k][name] = true
				}
			}
			for _, a := range fn.AnonFuncs {
				rec(a)
			}
		}
		rec(P.funcs[name])
	}
	for _, k := range sortedKeys(ext) {
		ks := sortedKeys(ext[k])
		if len(ks) > 6 {
			ks = append(ks[:6], "...")
		}
		fmt.Println(k, ks)
	}
}
