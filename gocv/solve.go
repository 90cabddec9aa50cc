package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Solver struct {
	dir      string
	sem      chan struct{}
	n        int64
	times    map[string]float64
	counts   map[string]int
	queries  int64
	mu       sync.Mutex
	keep     bool
	fast     int
	slow     int
	deadline time.Time
}

func newSolver(dir string, workers int) *Solver {
	return &Solver{dir: dir, sem: make(chan struct{}, workers), times: map[string]float64{}, counts: map[string]int{}, fast: 5, slow: 20}
}

type result struct {
	status string // unsat sat unknown
	by     string
	out    string
	secs   float64
}

// big guards the engine's state; it is released while solvers run.
var big sync.Mutex

func wait(wg *sync.WaitGroup) {
	big.Unlock()
	wg.Wait()
	big.Lock()
}

func (s *Solver) run(ctx context.Context, name string, args []string, file string, secs int) result {
	select {
	case s.sem <- struct{}{}:
		defer func() { <-s.sem }()
	case <-ctx.Done():
		return result{status: "unknown"}
	}
	if !s.deadline.IsZero() && time.Now().After(s.deadline) {
		return result{status: "unknown", out: "time budget of this check used up"}
	}
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(ctx, time.Duration(secs+2)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, append(args, file)...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	el := time.Since(t0).Seconds()
	first := strings.TrimSpace(out.String())
	if i := strings.IndexByte(first, '\n'); i >= 0 {
		first = first[:i]
	}
	st := "unknown"
	if first == "unsat" || first == "sat" {
		st = first
	}
	s.mu.Lock()
	s.times[filepath.Base(name)] += el
	s.queries++
	s.mu.Unlock()
	o := out.String()
	if len(o) > 2000 {
		o = o[:2000]
	}
	return result{status: st, by: filepath.Base(name), out: o, secs: el}
}

// check decides a query: "unsat" means the obligation holds.
func (s *Solver) check(text string, fast, slow int) result {
	n := atomic.AddInt64(&s.n, 1)
	file := filepath.Join(s.dir, fmt.Sprintf("q%d.smt2", n))
	if err := os.WriteFile(file, []byte(text), 0o644); err != nil {
		return result{status: "unknown", out: err.Error()}
	}
	if !s.keep {
		defer os.Remove(file)
	}
	z := []string{"smt.mbqi=false", "auto_config=false"}
	bg := context.Background()
	r := s.run(bg, "z3-new", append([]string{fmt.Sprintf("-T:%d", fast)}, z...), file, fast)
	if r.status == "unsat" || slow == 0 {
		return s.done(r)
	}
	if strings.Contains(r.out, "(error") {
		r.status = "error"
		return r
	}
	if r.status == "unknown" && r.secs < float64(fast)/2 {
		// saturated: terms the solver took for irrelevant may be the ones that match
		x := s.run(bg, "z3-new", append([]string{fmt.Sprintf("-T:%d", fast), "smt.relevancy=0"}, z...), file, fast)
		if x.status == "unsat" {
			return s.done(x)
		}
	}
	type job struct {
		name string
		args []string
	}
	jobs := []job{
		{"z3", append([]string{fmt.Sprintf("-T:%d", slow)}, z...)},
		{"cvc5", []string{fmt.Sprintf("--tlimit=%d", slow*1000), "--lang=smt2"}},
		{"z3-new", []string{fmt.Sprintf("-T:%d", slow), "smt.mbqi=false", "auto_config=false", "smt.case_split=3", "smt.qi.eager_threshold=100", "smt.random_seed=7"}},
	}
	ch := make(chan result, len(jobs))
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	for _, j := range jobs {
		j := j
		go func() { ch <- s.run(ctx, j.name, j.args, file, slow) }()
	}
	best := r
	for range jobs {
		x := <-ch
		if x.status == "unsat" {
			return s.done(x)
		}
		if x.status == "sat" {
			best = x
		}
	}
	return best
}

func (s *Solver) done(r result) result {
	if r.status == "unsat" {
		s.mu.Lock()
		s.counts[r.by]++
		s.mu.Unlock()
	}
	return r
}

// ---------- query text

type smtCtx struct {
	e         *Engine
	vars      map[string]Sort
	ops       map[string]bool
	sorts     map[Sort]bool
	seen      map[*Term]bool
	pending   []*Term
	axs       []string
	axTerms   []*Term
	noFns     map[string]bool
	lemmaMax  int
	lemmas    map[string]bool
	utf8      bool
	extraText []string
}

func (c *smtCtx) sort(s Sort) {
	if c.sorts[s] {
		return
	}
	c.sorts[s] = true
	for _, q := range []Sort{SSeq, SSeqF, SSeqS, SSeqB} {
		if strings.Contains(s, q) && s != q {
			c.sort(q)
		}
	}
	if s == SSeqS {
		c.sort(SSeq)
	}
}

func (c *smtCtx) add(t *Term) {
	if c.seen[t] {
		return
	}
	c.seen[t] = true
	c.sort(t.sort)
	switch {
	case t.isVar && !t.bound:
		if !strings.HasPrefix(t.op, "lit!") {
			c.vars[t.op] = t.sort
		} else {
			c.ops[t.op] = true
		}
	case !t.isVar && !t.isConst:
		c.ops[t.op] = true
	}
	for _, a := range t.args {
		c.add(a)
	}
	if q := quants[t]; q != nil {
		for _, v := range q.vars {
			c.sort(v.sort)
		}
		for _, p := range q.pats {
			for _, x := range p {
				c.add(x)
			}
		}
	}
}

func symTokens(s string) []string {
	return strings.FieldsFunc(s, func(r rune) bool { return r == ' ' || r == '(' || r == ')' || r == '\n' })
}

// close adds axioms of used symbols until nothing changes.
func (c *smtCtx) close() {
	doneFn := map[string]bool{}
	doneDecl := map[string]bool{}
	doneLemma := map[string]bool{}
	for changed := true; changed; {
		changed = false
		for _, op := range sortedKeys(c.ops) {
			if doneFn[op] {
				continue
			}
			doneFn[op] = true
			if d := c.e.specDef[op]; d != nil && !c.noFns[op] {
				for _, a := range d.ax {
					c.axTerms = append(c.axTerms, a)
					c.add(a)
					changed = true
				}
			}
		}
		for _, l := range c.e.S.lemmaList {
			if doneLemma[l.name] || len(l.auto) == 0 || (l.order >= c.lemmaMax && !l.isAxiom) {
				continue
			}
			t := c.e.autoTerms[l.name]
			if t == nil {
				continue
			}
			ok := false
			for _, p := range quants[t].pats {
				all := true
				for _, x := range p {
					x.walk(func(y *Term) bool {
						if !y.isVar && !y.isConst && !c.ops[y.op] {
							all = false
						}
						return all
					}, map[*Term]bool{})
				}
				if all {
					ok = true
				}
			}
			if !ok {
				continue
			}
			doneLemma[l.name] = true
			c.lemmas[l.name] = true
			c.axTerms = append(c.axTerms, t)
			c.add(t)
			changed = true
		}
		for _, k := range sortedKeys(c.e.decls) {
			if !strings.HasPrefix(k, "~") || doneDecl[k] {
				continue
			}
			txt := c.e.decls[k]
			if txt == "" {
				continue
			}
			use := false
			switch {
			case strings.HasPrefix(k, "~gk:"):
				_, use = c.vars["H0!"+smtName("K:"+k[4:])]
			case strings.HasPrefix(k, "~gr:"):
				use = c.ops[smtName("gref!"+k[4:])]
			case strings.HasPrefix(k, "~w:"):
				use = c.ops[k[3:]]
			case strings.HasPrefix(k, "~bits:"):
				use = c.ops[k[6:]]
			case k == "~bits0":
				use = c.ops["bit"] || c.ops["band"] || c.ops["bor"] || c.ops["bxor"]
			case strings.HasPrefix(k, "~ax:"):
				use = c.ops[smtName("box!"+k[4:])]
			case strings.HasPrefix(k, "~need:"):
			default:
				use = true
			}
			if !use {
				continue
			}
			doneDecl[k] = true
			changed = true
			c.extraText = append(c.extraText, txt)
			if strings.HasPrefix(k, "~gk:") {
				switch c.e.decls["~need:"+k] {
				case "M:uint8":
					c.vars["H0!"+smtName("M:uint8")] = arr(SSeq)
				case "M:string":
					c.vars["H0!"+smtName("M:string")] = arr(SSeqS)
					c.sorts[SSeqS] = true
				}
			}
			for _, tk := range symTokens(txt) {
				if _, ok := c.e.decls[tk]; ok {
					c.ops[tk] = true
				}
				if strings.HasPrefix(tk, "lit!") {
					c.ops[tk] = true
				}
				if tk == "ctr0" {
					c.vars["ctr0"] = SInt
				}
			}
		}
	}
}

func (c *smtCtx) header() string {
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	b.WriteString(basePrelude)
	c.sort(SSeq)
	b.WriteString(seqAxioms(SSeq))
	if c.sorts[SSeqF] {
		b.WriteString(seqAxioms(SSeqF))
	}
	if c.sorts[SSeqS] {
		b.WriteString(seqAxioms(SSeqS))
	}
	if c.sorts[SSeqB] {
		b.WriteString(seqAxioms(SSeqB))
	}
	if c.ops["dr"] || c.ops["dw"] || c.ops["enc"] || c.ops["validrune"] {
		b.WriteString(utf8Prelude)
	}
	if c.sorts[SFuel] {
		b.WriteString("(declare-sort Fuel 0)\n(declare-fun FS (Fuel) Fuel)\n")
	}
	b.WriteString(litDecls(func(n string) bool { return c.ops[n] }))
	for _, op := range sortedKeys(c.ops) {
		if d, ok := c.e.decls[op]; ok && !strings.HasPrefix(op, "~") {
			b.WriteString(d)
			b.WriteByte('\n')
		}
	}
	if c.ops["bit"] || c.ops["band"] || c.ops["bor"] {
		if _, ok := c.e.decls["bitwit"]; ok && !c.ops["bitwit"] {
			b.WriteString(c.e.decls["bitwit"] + "\n")
		}
	}
	for _, v := range sortedKeys(c.vars) {
		fmt.Fprintf(&b, "(declare-const %s %s)\n", v, c.vars[v])
	}
	for _, t := range c.extraText {
		b.WriteString(t)
		b.WriteByte('\n')
	}
	for _, t := range c.axTerms {
		fmt.Fprintf(&b, "(assert %s)\n", t)
	}
	// boxing is injective
	for _, s := range []Sort{SSeq, SSlice} {
		if c.ops[smtName("box!"+s)] && c.ops[smtName("unbox!"+s)] {
			fmt.Fprintf(&b, "(assert (forall ((x %s)) (! (= (%s (%s x)) x) :pattern ((%s x)))))\n", s, smtName("unbox!"+s), smtName("box!"+s), smtName("box!"+s))
		}
	}
	return b.String()
}

// extGoal strengthens provability of sequence equalities by extensionality.
func extGoal(t *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term, pos bool) *Term
	rec = func(t *Term, pos bool) *Term {
		if pos {
			if r, ok := memo[t]; ok {
				return r
			}
		}
		r := t
		switch t.op {
		case "and", "or":
			var as []*Term
			for _, a := range t.args {
				as = append(as, rec(a, pos))
			}
			if t.op == "and" {
				r = tAnd(as...)
			} else {
				r = tOr(as...)
			}
		case "not":
			r = tNot(rec(t.args[0], !pos))
		case "=>":
			r = tImp(rec(t.args[0], !pos), rec(t.args[1], pos))
		case "ite":
			if t.sort == SBool {
				r = tIte(t.args[0], rec(t.args[1], pos), rec(t.args[2], pos))
			}
		case "=":
			if pos && isSeqSort(t.args[0].sort) {
				r = tOr(t, mk("seqeq"+sfx(t.args[0].sort), SBool, t.args[0], t.args[1]))
			}
		case "forall":
			if q := quants[t]; q != nil && pos {
				r = tQuant("forall", q.vars, q.pats, rec(t.args[0], pos))
			}
		}
		if pos {
			memo[t] = r
		}
		return r
	}
	return rec(t, true)
}

// query for item k of ex with a set of live flags
func (e *Engine) query(ex *Exec, k int, live map[*Term]bool, goal *Term) string {
	c := &smtCtx{e: e, vars: map[string]Sort{}, ops: map[string]bool{}, sorts: map[Sort]bool{}, seen: map[*Term]bool{}, noFns: map[string]bool{}, lemmas: map[string]bool{}, lemmaMax: 1 << 30}
	if strings.HasPrefix(ex.name, "lemma ") {
		c.lemmaMax = ex.lemmaOrder
	}
	if strings.HasPrefix(ex.name, "spec ") {
		f := e.S.fns[ex.name[5:]]
		for _, g := range e.S.fnList {
			if f == g || e.sameSCC(f, g) {
				c.noFns[g.name] = true
			}
		}
		c.lemmaMax = 0
	}
	if ex.contract != nil && ex.contract.opts["hide"] != "" {
		// definitions the proof of this function does without
		for _, n := range strings.Split(ex.contract.opts["hide"], ",") {
			if e.S.fns[n] == nil {
				panic(fmt.Errorf("%s: option hide: no spec %s", ex.name, n))
			}
			c.noFns[n] = true
		}
	}
	ng := tNot(extGoal(goal))
	// assumptions, with definitions on demand
	defs := map[*Term]*item{}
	for _, it := range ex.items[:k] {
		if it.kind == "def" {
			defs[it.v] = it
		}
	}
	need := map[*Term]bool{}
	var visit func(t *Term)
	seen := map[*Term]bool{}
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if d := defs[t]; d != nil {
			need[t] = true
			visit(d.term)
		}
		for _, a := range t.args {
			visit(a)
		}
		if q := quants[t]; q != nil {
			for _, p := range q.pats {
				for _, x := range p {
					visit(x)
				}
			}
		}
	}
	visit(ng)
	for _, it := range ex.items[:k] {
		if it.kind == "assume" {
			visit(it.term)
		}
	}
	c.add(ng)
	for _, it := range ex.items[:k] {
		switch {
		case it.kind == "def" && need[it.v]:
			c.add(it.v)
			c.add(it.term)
		case it.kind == "assume":
			c.add(it.term)
		}
	}
	c.close()
	for n := range c.lemmas {
		ex.lemmaUse(n)
	}
	var b strings.Builder
	if k < len(ex.items) {
		fmt.Fprintf(&b, "; %s: %s\n", ex.items[k].name, strings.ReplaceAll(ex.items[k].descr, "\n", " "))
	}
	b.WriteString(c.header())
	nsub := 0
	for _, op := range sortedKeys(c.ops) {
		if !strings.HasPrefix(op, "subref!") {
			continue
		}
		// a nested struct is part of the object that holds it: it exists exactly when that does
		if nsub == 0 {
			b.WriteString("(declare-fun subinv (Int) Int)\n(declare-fun subtag (Int) Int)\n")
		}
		nsub++
		fmt.Fprintf(&b, "(assert (forall ((r Int)) (! (and (=> (< 0 r) (< 0 (%s r))) (= (subinv (%s r)) r) (= (subtag (%s r)) %d)) :pattern ((%s r)))))\n", op, op, op, nsub, op)
		for _, v := range sortedKeys(c.vars) {
			if v == "ctr0" || strings.HasPrefix(v, "ctr!") {
				fmt.Fprintf(&b, "(assert (forall ((r Int)) (! (= (< r %s) (< (%s r) %s)) :pattern ((%s r)))))\n", v, op, v, op)
			}
		}
	}
	for _, it := range ex.items[:k] {
		switch {
		case it.kind == "def" && need[it.v]:
			fmt.Fprintf(&b, "(assert (= %s %s))\n", it.v, it.term)
		case it.kind == "assume":
			fmt.Fprintf(&b, "(assert %s)\n", it.term)
		}
	}
	for f := range ex.flags {
		if _, ok := c.vars[f.op]; ok {
			if live[f] {
				fmt.Fprintf(&b, "(assert %s)\n", f)
			} else {
				fmt.Fprintf(&b, "(assert (not %s))\n", f)
			}
		}
	}
	fmt.Fprintf(&b, "(assert %s)\n(check-sat)\n", ng)
	return b.String()
}

var lemmaMu sync.Mutex

func (ex *Exec) lemmaUse(n string) {
	lemmaMu.Lock()
	defer lemmaMu.Unlock()
	if ex.autoUsed == nil {
		ex.autoUsed = map[string]bool{}
	}
	ex.autoUsed[n] = true
}

// outcome of a verification unit
type outcome struct {
	ex      *Exec
	proved  int
	total   int
	failed  []*failure
	dropped []string
	kept    []string
	byKind  map[string]int
	secs    float64
	vacuous bool
}

type failure struct {
	name, descr, pos, status, out string
}

var flagMu sync.Mutex

func (e *Engine) solveUnit(s *Solver, ex *Exec) *outcome {
	t0 := time.Now()
	o := &outcome{ex: ex, byKind: map[string]int{}}
	live := map[*Term]bool{}
	for f := range ex.flags {
		live[f] = true
	}
	kindOf := func(n string) string {
		i := strings.LastIndex(n, "/")
		n = n[i+1:]
		if j := strings.IndexByte(n, '#'); j >= 0 {
			n = n[:j]
		}
		return n
	}
	type gi struct {
		k  int
		it *item
	}
	var flagged, plain, term []gi
	for k, it := range ex.items {
		if it.kind != "goal" {
			continue
		}
		switch {
		case it.flag != nil:
			flagged = append(flagged, gi{k, it})
		case it.term2 != "":
			term = append(term, gi{k, it})
		default:
			plain = append(plain, gi{k, it})
		}
	}
	// Houdini
	cache := map[string]bool{}
	keyOf := func(g gi) string {
		var b strings.Builder
		fmt.Fprintf(&b, "%d:", g.k)
		for _, it := range ex.items[:g.k] {
			if it.kind == "assume" && it.note == "invariant" {
				for f := range ex.flags {
					if live[f] && mentions(it.term, f) {
						b.WriteString(f.op)
						b.WriteByte(',')
					}
				}
			}
		}
		return b.String()
	}
	for len(flagged) > 0 {
		type jr struct {
			g   gi
			ok  bool
			key string
		}
		var wg sync.WaitGroup
		res := make([]jr, len(flagged))
		for i, g := range flagged {
			if !live[g.it.flag] {
				res[i] = jr{g, true, ""}
				continue
			}
			key := keyOf(g)
			if ok, has := cache[key]; has {
				res[i] = jr{g, ok, key}
				continue
			}
			if g.it.term == tTrue {
				res[i] = jr{g, true, key}
				continue
			}
			q := e.query(ex, g.k, live, g.it.term)
			wg.Add(1)
			go func(i int, g gi) {
				defer wg.Done()
				slow := s.fast
				if f := ex.flags[g.it.flag]; f.auto && !strings.Contains(f.src, "the arrays of package variables") {
					slow = 0
				}
				r := s.check(q, s.fast, slow)
				if r.status == "error" && e.debug {
					fmt.Fprintln(os.Stderr, g.it.name, r.out)
				}
				res[i] = jr{g, r.status == "unsat", key}
			}(i, g)
		}
		wait(&wg)
		changed := false
		for _, r := range res {
			if r.key != "" {
				cache[r.key] = r.ok
			}
			if !r.ok && live[r.g.it.flag] {
				live[r.g.it.flag] = false
				changed = true
				o.dropped = append(o.dropped, ex.flags[r.g.it.flag].src)
				if e.debug {
					fmt.Fprintf(os.Stderr, "  dropped %s: %s\n", r.g.it.name, r.g.it.descr)
				}
			}
		}
		if !changed {
			break
		}
	}
	for _, g := range flagged {
		if live[g.it.flag] {
			o.proved++
			o.total++
			o.byKind[kindOf(g.it.name)]++
		}
	}
	// plain goals
	var wg sync.WaitGroup
	res := make([]result, len(plain))
	for i, g := range plain {
		if g.it.term == tTrue {
			res[i] = result{status: "unsat", by: "simplifier"}
			continue
		}
		if k := kindOf(g.it.name); g.it.term == tFalse && k != "panic" {
			res[i] = result{status: "sat"}
			continue
		}
		q := e.query(ex, g.k, live, g.it.term)
		var parts []string
		for _, d := range ex.paths(g.k, g.it.term) {
			parts = append(parts, e.query(ex, g.k, live, tImp(d, g.it.term)))
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			if len(parts) == 0 {
				res[i] = s.check(q, s.fast, s.slow)
				return
			}
			if res[i] = s.check(q, s.fast, 0); res[i].status == "unsat" || res[i].status == "error" {
				return
			}
			// path by path
			ch := make(chan result, len(parts))
			for _, p := range parts {
				p := p
				go func() { ch <- s.check(p, s.fast, s.slow) }()
			}
			bad := res[i]
			n := 0
			for range parts {
				if r := <-ch; r.status == "unsat" {
					n++
				} else {
					bad = r
				}
			}
			if n == len(parts) {
				res[i] = result{status: "unsat", by: "paths"}
				return
			}
			res[i] = bad
		}(i)
	}
	// termination groups
	tres := make([]result, len(term))
	for i, g := range term {
		if g.it.term == tTrue {
			tres[i] = result{status: "unsat"}
			continue
		}
		q := e.query(ex, g.k, live, g.it.term)
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			tres[i] = s.check(q, s.fast, 0)
		}(i)
	}
	// vacuity
	vac := result{status: "sat"}
	if ex.outReach != nil && ex.outReach != tFalse {
		q := e.query(ex, len(ex.items), live, tNot(ex.outReach))
		wg.Add(1)
		go func() {
			defer wg.Done()
			vac = s.check(q, 2, 0)
		}()
	}
	wait(&wg)
	for i, g := range plain {
		o.total++
		o.byKind[kindOf(g.it.name)]++
		if res[i].status == "unsat" {
			o.proved++
		} else {
			o.failed = append(o.failed, &failure{g.it.name, g.it.descr, g.it.pos, res[i].status, res[i].out})
		}
	}
	groups := map[string]map[string]bool{}
	var gorder []string
	descr := map[string]*item{}
	for i, g := range term {
		id := g.it.term2
		j := strings.LastIndexByte(id, '|')
		gr := id[:j]
		if groups[gr] == nil {
			groups[gr] = map[string]bool{}
			gorder = append(gorder, gr)
			descr[gr] = g.it
		}
		if _, ok := groups[gr][id]; !ok {
			groups[gr][id] = true
		}
		if tres[i].status != "unsat" {
			groups[gr][id] = false
		}
	}
	for _, gr := range gorder {
		ok := false
		for _, v := range groups[gr] {
			ok = ok || v
		}
		o.total++
		o.byKind["terminates"]++
		if ok {
			o.proved++
		} else {
			o.failed = append(o.failed, &failure{ex.name + "/terminates", gr + " terminates", descr[gr].pos, "unknown", ""})
		}
	}
	if vac.status == "unsat" {
		o.vacuous = true
		// (an implementation of an interface method may be excluded by the precondition)
	}
	if o.vacuous && (ex.contract == nil || !ex.contract.iface) {
		o.failed = append(o.failed, &failure{ex.name + "/vacuous", "the contract is satisfiable and the function can return", "", "unsat", "the assumptions are contradictory"})
	}
	for f, c := range ex.flags {
		if live[f] {
			o.kept = append(o.kept, c.src)
		}
	}
	sortStrings(o.kept)
	o.secs = time.Since(t0).Seconds()
	return o
}

// paths: the ways in which the place of an obligation is reached, if it joins several
func (ex *Exec) paths(k int, t *Term) []*Term {
	defs := map[*Term]*Term{}
	for _, it := range ex.items[:k] {
		if it.kind == "def" && it.v != nil {
			defs[it.v] = it.term
		}
	}
	if t.op != "=>" {
		return nil
	}
	var out []*Term
	var open func(r *Term, depth int)
	open = func(r *Term, depth int) {
		d := defs[r]
		if d == nil || d.op != "or" || depth > 2 || len(out)+len(d.args) > 40 {
			out = append(out, r)
			return
		}
		for _, a := range d.args {
			open(a, depth+1)
		}
	}
	ante := []*Term{t.args[0]}
	if t.args[0].op == "and" {
		ante = t.args[0].args
	}
	for _, a := range ante {
		if d := defs[a]; d != nil && d.op == "or" {
			open(a, 0)
			return out
		}
	}
	return nil
}

func mentions(t, f *Term) bool {
	found := false
	t.walk(func(x *Term) bool {
		if x == f {
			found = true
		}
		return !found
	}, map[*Term]bool{})
	return found
}
