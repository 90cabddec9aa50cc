package main

import (
	"math/rand"

	"github.com/lestrrat-go/helium"
)

var optNames = []string{"ParseRecover", "ParseNoEnt", "ParseDTDLoad", "ParseDTDAttr", "ParseDTDValid", "ParseNoError", "ParseNoWarning", "ParsePedantic", "ParseNoBlanks", "ParseXInclude", "ParseNoNet", "ParseNoDict", "ParseNsClean", "ParseNoCDATA", "ParseNoXIncNode", "ParseCompact", "ParseNoBaseFix", "ParseHuge", "ParseIgnoreEnc", "ParseBigLines"}
var optVals = []helium.ParseOption{helium.ParseRecover, helium.ParseNoEnt, helium.ParseDTDLoad, helium.ParseDTDAttr, helium.ParseDTDValid, helium.ParseNoError, helium.ParseNoWarning, helium.ParsePedantic, helium.ParseNoBlanks, helium.ParseXInclude, helium.ParseNoNet, helium.ParseNoDict, helium.ParseNsClean, helium.ParseNoCDATA, helium.ParseNoXIncNode, helium.ParseCompact, helium.ParseNoBaseFix, helium.ParseHuge, helium.ParseIgnoreEnc, helium.ParseBigLines}
var lsNames = []string{"DetectIDs", "CompleteAttrs", "SkipIDs"}
var lsVals = []helium.LoadSubsetOption{helium.DetectIDs, helium.CompleteAttrs, helium.SkipIDs}

type optSet interface {
	set(i int)
	is(i int) bool
}
type po struct{ v helium.ParseOption }

func (p *po) set(i int)     { p.v.Set(optVals[i]) }
func (p *po) is(i int) bool { return p.v.IsSet(optVals[i]) }

type lo struct{ v helium.LoadSubsetOption }

func (p *lo) set(i int)     { p.v.Set(lsVals[i]) }
func (p *lo) is(i int) bool { return p.v.IsSet(lsVals[i]) }

func c22Seq(t *T, o optSet, names []string, seq []int) {
	on := map[int]bool{}
	check := func() bool {
		for rep := 0; rep < 2; rep++ {
			for i := range names {
				if o.is(i) != on[i] {
					t.Fail("%s tests as %v, want %v", names[i], o.is(i), on[i])
					return false
				}
			}
		}
		return true
	}
	if !check() {
		return
	}
	for _, i := range seq {
		t.Input("set %s", names[i])
		o.set(i)
		on[i] = true
		if !check() {
			return
		}
	}
}

func init() {
	n := len(optVals)
	register("C22",
		&Family{Name: "pairs", N: n*n + 9, What: "every ordered pair of options, each option tested after each step (enumerated)", Run: func(t *T, r *rand.Rand, i int) {
			if i < n*n {
				c22Seq(t, &po{}, optNames, []int{i / n, i % n})
			} else {
				i -= n * n
				c22Seq(t, &lo{}, lsNames, []int{i / 3, i % 3})
			}
		}},
		&Family{Name: "sequences", What: "random sequences of set options", Run: func(t *T, r *rand.Rand, i int) {
			var seq []int
			for k := r.Intn(2 * n); k >= 0; k-- {
				seq = append(seq, r.Intn(n))
			}
			c22Seq(t, &po{}, optNames, seq)
		}},
	)
}
