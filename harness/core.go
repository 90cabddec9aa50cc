// Command verifharness is the bounded companion of the contract checks: it runs the real code of
// /repo on generated cases and compares with an executable oracle written from the property text.
// It searches for a concrete failing input when the verifier rejects an obligation, and it is the
// labelled bounded stand-in for functions the verifier does not reach.
// It is compiled into /repo's module by an overlay; /repo itself is not changed.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// T is handed to every case.
type T struct {
	input  strings.Builder
	fails  []string
	triv   bool
	key    uint64
	haskey bool
}

func (t *T) Input(format string, args ...interface{}) {
	fmt.Fprintf(&t.input, format, args...)
	t.input.WriteByte('\n')
}
func (t *T) Fail(format string, args ...interface{}) {
	if len(t.fails) < 5 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 3000 {
			s = s[:3000] + "…"
		}
		t.fails = append(t.fails, s)
	}
}
func (t *T) Failed() bool { return len(t.fails) > 0 }
func (t *T) Trivial()     { t.triv = true }

// Family is one way of making cases: fn(r) for a random one, or fn(r, i) for i < N when N > 0
// (an enumeration that is always run completely).
type Family struct {
	Name   string
	Weight int // share of the random cases
	N      int // enumerated completely when > 0
	Run    func(t *T, r *rand.Rand, i int)
	What   string // how cases are made
}

var props = map[string][]*Family{}

func register(id string, fs ...*Family) { props[id] = append(props[id], fs...) }

type failure struct {
	Family string   `json:"family"`
	Case   int64    `json:"case"`
	Input  string   `json:"input"`
	Fails  []string `json:"fails"`
}

type result struct {
	Evaluations int64            `json:"evaluations"`
	Distinct    int64            `json:"distinct_nontrivial"`
	Samples     []string         `json:"samples"`
	Failures    []failure        `json:"failures"`
	Families    map[string]int64 `json:"families"`
	Rule        string           `json:"rule"`
	Shim        bool             `json:"shim"`
	Wall        float64          `json:"wall_s"`
}

type job struct {
	f *Family
	i int64
}

func runCase(f *Family, i int64, seed int64, t *T) (crashed bool) {
	defer func() {
		if e := recover(); e != nil {
			t.Fail("panic: %v\n%s", e, trimStack(debug.Stack()))
		}
	}()
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", f.Name, i, seed)
	r := rand.New(rand.NewSource(int64(h.Sum64())))
	f.Run(t, r, int(i))
	return false
}

func trimStack(b []byte) string {
	ls := strings.Split(string(b), "\n")
	var out []string
	for _, l := range ls {
		if strings.Contains(l, "helium") || strings.Contains(l, "strcursor") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 14 {
			break
		}
	}
	return strings.Join(out, "\n")
}

var (
	memLimit = uint64(6 << 30)
)

func main() {
	prop := flag.String("prop", "", "")
	seed := flag.Int64("seed", 1, "")
	cases := flag.Int64("cases", 20000, "random cases")
	budget := flag.Float64("budget", 8, "seconds for the random cases")
	out := flag.String("out", "", "")
	crumbs := flag.String("crumbs", "", "directory for breadcrumbs")
	replay := flag.String("case", "", "family:case to replay")
	maxfail := flag.Int("maxfail", 3, "")
	workers := flag.Int("j", 8, "")
	hang := flag.Float64("hang", 15, "")
	flag.Parse()
	debug.SetMaxStack(64 << 20)
	fams := props[*prop]
	if *replay != "" {
		k := strings.LastIndex(*replay, ":")
		n, _ := strconv.ParseInt((*replay)[k+1:], 10, 64)
		for _, f := range fams {
			if f.Name == (*replay)[:k] {
				t := &T{}
				runCase(f, n, *seed, t)
				fmt.Println(t.input.String())
				for _, s := range t.fails {
					fmt.Println("FAIL:", s)
				}
				if t.Failed() {
					os.Exit(1)
				}
				fmt.Println("ok")
				return
			}
		}
		fmt.Println("no such case")
		os.Exit(2)
	}
	start := time.Now()
	res := result{Families: map[string]int64{}, Shim: haveShim}
	var rules []string
	for _, f := range fams {
		rules = append(rules, f.Name+": "+f.What)
	}
	sort.Strings(rules)
	res.Rule = strings.Join(rules, "; ")
	var mu sync.Mutex
	distinct := map[uint64]struct{}{}
	var stop int32
	jobs := make(chan job, 256)
	flush := func() {
		res.Distinct = int64(len(distinct))
		res.Wall = time.Since(start).Seconds()
		b, _ := json.MarshalIndent(&res, "", " ")
		if *out != "" {
			os.WriteFile(*out, b, 0644)
		} else {
			fmt.Println(string(b))
		}
	}
	type slot struct {
		mu    sync.Mutex
		j     job
		since time.Time
		t     *T
	}
	slots := make([]*slot, *workers)
	var wg sync.WaitGroup
	for w := 0; w < *workers; w++ {
		s := &slot{}
		slots[w] = s
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			var crumb *os.File
			if *crumbs != "" {
				crumb, _ = os.Create(filepath.Join(*crumbs, fmt.Sprintf("w%d", w)))
				defer func() { crumb.Truncate(0); crumb.Close() }()
			}
			for j := range jobs {
				if atomic.LoadInt32(&stop) != 0 {
					continue
				}
				t := &T{}
				s.mu.Lock()
				s.j, s.since, s.t = j, time.Now(), t
				s.mu.Unlock()
				if crumb != nil {
					crumb.WriteAt([]byte(fmt.Sprintf("%-60s\n", fmt.Sprintf("%s:%d", j.f.Name, j.i))), 0)
				}
				runCase(j.f, j.i, *seed, t)
				s.mu.Lock()
				s.since = time.Time{}
				s.mu.Unlock()
				in := t.input.String()
				h := fnv.New64a()
				h.Write([]byte(j.f.Name))
				h.Write([]byte(in))
				mu.Lock()
				res.Evaluations++
				res.Families[j.f.Name]++
				if !t.triv {
					distinct[h.Sum64()] = struct{}{}
				}
				if len(res.Samples) < 6 && !t.triv && res.Families[j.f.Name] <= 2 && in != "" {
					smp := in
					if len(smp) > 1200 {
						smp = smp[:1200] + "…"
					}
					res.Samples = append(res.Samples, j.f.Name+": "+smp)
				}
				if t.Failed() {
					res.Failures = append(res.Failures, failure{j.f.Name, j.i, in, t.fails})
					if len(res.Failures) >= *maxfail {
						atomic.StoreInt32(&stop, 1)
					}
				}
				mu.Unlock()
			}
		}(w)
	}
	// watchdog: a case that does not end, or that eats the memory, is a failure and ends the run
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			for _, s := range slots {
				s.mu.Lock()
				since, j := s.since, s.j
				s.mu.Unlock()
				if since.IsZero() {
					continue
				}
				d := time.Since(since).Seconds()
				if d > *hang || (ms.HeapAlloc > memLimit && d > 1) {
					mu.Lock()
					t2 := &T{}
					// the input is written before the code under test is called; read what is there
					in := s.t.input.String()
					_ = t2
					msg := fmt.Sprintf("the call did not return within %.0f s", *hang)
					if ms.HeapAlloc > memLimit {
						msg = fmt.Sprintf("the call did not return and the heap grew to %d MB", ms.HeapAlloc>>20)
					}
					res.Failures = append(res.Failures, failure{j.f.Name, j.i, in, []string{msg}})
					flush()
					os.Exit(0)
				}
			}
		}
	}()
	for _, f := range fams {
		for i := 0; i < f.N; i++ {
			jobs <- job{f, int64(i)}
		}
	}
	var wheel []*Family
	for _, f := range fams {
		if f.N > 0 {
			continue
		}
		w := f.Weight
		if w == 0 {
			w = 1
		}
		for k := 0; k < w; k++ {
			wheel = append(wheel, f)
		}
	}
	if len(wheel) > 0 {
		t0 := time.Now()
		for k := int64(0); k < *cases; k++ {
			if k%32 == 0 && (time.Since(t0).Seconds() > *budget || atomic.LoadInt32(&stop) != 0) {
				break
			}
			jobs <- job{wheel[k%int64(len(wheel))], k}
		}
	}
	close(jobs)
	wg.Wait()
	mu.Lock()
	flush()
	mu.Unlock()
}
