package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type hole struct {
	name string
	src  string
	get  func(get func(ssa.Value) Val, st *State) Val
	typ  types.Type
}

// localHoles: values a hole of an invariant may stand for
func (ex *Exec) localHoles(fr *Frame, l *loopInfo, phis []*ssa.Phi) (all []hole, byName map[string]hole) {
	byName = map[string]hole{}
	addV := func(name string, v ssa.Value, isPhi bool) {
		h := hole{name: name, src: name, typ: v.Type(), get: func(get func(ssa.Value) Val, st *State) Val {
			x := get(v)
			x.typ = v.Type()
			return x
		}}
		all = append(all, h)
		byName[name] = h
	}
	addA := func(name string, a ssa.Value, T types.Type) {
		hT := T
		if isStruct(T) {
			hT = types.NewPointer(T) // a struct variable is known by its address
		}
		h := hole{name: name, src: name, typ: hT, get: func(get func(ssa.Value) Val, st *State) Val {
			p := get(a)
			if p.virt != nil {
				return *p.virt
			}
			if isStruct(T) {
				return Val{t: p.t, typ: types.NewPointer(T)}
			}
			if p.addr != nil {
				return ex.load(st, p.addr)
			}
			return ex.load(st, ex.addrOf(p, T))
		}}
		all = append(all, h)
		byName[name] = h
	}
	// values defined outside the loop, named by debug information
	type nv struct {
		name string
		v    ssa.Value
	}
	var named []nv
	seen := map[string]bool{}
	inCell := map[string]bool{} // variables that live in memory: their name means the cell
	for _, b := range fr.rpo {
		if l.body[b] || !b.Dominates(l.header) {
			continue
		}
		// what an enclosing loop carries, unless it is assigned again before this loop
		if hi := fr.heads[b]; hi != nil && b != l.header {
			for _, in := range b.Instrs {
				if p, ok := in.(*ssa.Phi); ok {
					if _, ok := fr.regs[p]; ok {
						named = append(named, nv{phiName(p), p})
					}
				}
			}
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.DebugRef:
				if in.Object() == nil || in.IsAddr {
					continue
				}
				if _, ok := in.Object().(*types.Var); !ok {
					continue
				}
				if _, ok := fr.regs[in.X]; ok {
					named = append(named, nv{in.Object().Name(), in.X})
				}
			case *ssa.Alloc:
				if in.Comment != "" {
					if _, ok := fr.regs[in]; ok {
						addA(in.Comment, in, in.Type().(*types.Pointer).Elem())
						inCell[in.Comment] = true
					}
				}
			}
		}
	}
	// the unnamed operand of a range or index expression
	isNamed := map[ssa.Value]bool{}
	for _, x := range named {
		isNamed[x.v] = true
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			var x ssa.Value
			switch in := in.(type) {
			case *ssa.IndexAddr:
				x = in.X
			case *ssa.Lookup:
				x = in.X
			}
			vi, ok := x.(ssa.Instruction)
			if !ok || isNamed[x] || l.body[vi.Block()] || !vi.Block().Dominates(l.header) {
				continue
			}
			if _, ok := x.(*ssa.Alloc); ok {
				continue
			}
			if _, ok := fr.regs[x]; ok {
				isNamed[x] = true
				addV("operand:"+x.Name(), x, false)
			}
		}
	}
	last := map[string]ssa.Value{}
	for _, x := range named {
		last[x.name] = x.v
	}
	for _, x := range named {
		if last[x.name] == x.v && !seen[x.name] && !inCell[x.name] {
			seen[x.name] = true
			addV(x.name, x.v, false)
		}
	}
	for _, p := range fr.fn.Params {
		if !seen[p.Name()] {
			if _, ok := fr.regs[p]; ok {
				addV(p.Name(), p, false)
			}
		}
	}
	for _, fv := range fr.fn.FreeVars {
		if pt, ok := fv.Type().(*types.Pointer); ok {
			if _, ok := fr.regs[fv]; ok {
				addA(fv.Name(), fv, pt.Elem())
			}
		}
	}
	// loop-carried values last: they shadow
	for _, p := range phis {
		p := p
		addV(phiName(p), p, true)
		if p.Comment == "rangeindex" {
			// the number of elements that have been visited
			h := hole{name: "rangeindex+1", src: "rangeindex+1", typ: p.Type(), get: func(get func(ssa.Value) Val, st *State) Val {
				x := get(p)
				x.t = tAdd(x.t, tInt(1))
				x.typ = p.Type()
				return x
			}}
			all = append(all, h)
			byName[h.name] = h
		}
	}
	// the position of a range over a string
	for _, in := range l.header.Instrs {
		nx, ok := in.(*ssa.Next)
		if !ok || !nx.IsString {
			continue
		}
		if _, ok := fr.regs[nx.Iter]; !ok {
			continue
		}
		h := hole{name: "iterpos", src: "iterpos", typ: tyInt, get: func(get func(ssa.Value) Val, st *State) Val {
			return Val{t: ex.hload(st, "C:$iter", SInt, ex.val(fr, nx.Iter).tup[1].t), typ: tyInt}
		}}
		all = append(all, h)
		byName[h.name] = h
	}
	// values carried by enclosing loops
	for b, hi := range fr.heads {
		if b == l.header || hi == nil {
			continue
		}
		for p := range hi.phis {
			if _, dup := byName[phiName(p)]; !dup && p.Block().Dominates(l.header) {
				addV(phiName(p), p, true)
			}
		}
	}
	// one value per name, phis preferred
	uniq := map[string]int{}
	var out []hole
	for i := len(all) - 1; i >= 0; i-- {
		if _, ok := uniq[all[i].name]; ok {
			continue
		}
		uniq[all[i].name] = 1
		out = append(out, all[i])
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out, byName
}

func holeFits(e *Engine, h hole, ty string) bool {
	if ty == "" {
		return true
	}
	defer func() { recover() }()
	T := e.specTyp(ty)
	hs := sortOf(h.typ)
	ts := sortOf(T)
	if ts == SInt && hs == SInt {
		// integers and pointers are not confused
		_, hp := under(h.typ).(*types.Pointer)
		_, tp := under(T).(*types.Pointer)
		if _, ok := T.(specType); ok {
			return true
		}
		if hp || tp {
			return hp && tp && types.Identical(h.typ, T)
		}
		return true
	}
	if isSeqSort(ts) && hs == SSlice {
		return true
	}
	if n, ok := T.(*types.Named); ok && ts == SIface && isIface(n) {
		return types.Identical(n, h.typ)
	}
	return hs == ts
}

func (ex *Exec) loopCandidates(fr *Frame, l *loopInfo, phis []*ssa.Phi) (cands []*invCand, meas []*measCand) {
	all, byName := ex.localHoles(fr, l, phis)
	hi := fr.heads[l.header]
	mkEnv := func(get func(ssa.Value) Val, st *State) *Env {
		en := &Env{ex: ex, st: st, old: ex.st0, vars: map[string]Val{}}
		for k, v := range ex.env0 {
			en.vars[k] = v
		}
		if fr.spec != nil && fr.spec != ex.contract {
			// an inlined function with its own invariants
			for i, p := range fr.spec.params {
				if i < len(fr.args) {
					v := fr.args[i]
					if p.ty != "" {
						v.typ = ex.e.specTyp(p.ty)
					}
					en.vars[p.name] = v
				}
			}
			en.old = fr.entrySt
		}
		en.look = func(name string) (Val, bool) {
			h, ok := byName[name]
			if !ok {
				return Val{}, false
			}
			return h.get(get, st), true
		}
		return en
	}
	entryGet := func(v ssa.Value) Val {
		if p, ok := v.(*ssa.Phi); ok && p.Block() == l.header {
			return hi.entryVals[p]
		}
		return ex.val(fr, v)
	}
	preEnv := mkEnv(entryGet, hi.entrySt)
	specs := []*Contract{}
	if fr.spec != nil {
		specs = append(specs, fr.spec)
	}
	if ex.contract != nil && ex.contract != fr.spec {
		specs = append(specs, ex.contract)
	}
	for _, sp := range specs {
		for _, ls := range sp.loops {
			for i := range ls.clauses {
				cl := ls.clauses[i]
				if cl.kind != "invariant" && cl.kind != "decreases" {
					continue
				}
				for _, asg := range ex.assignments(cl.vars, all, byName) {
					asg := asg
					src := cl.src
					if len(cl.vars) > 0 {
						src += " with"
						for j, v := range cl.vars {
							src += fmt.Sprintf(" %s=%s", v.name, asg[j].name)
						}
					}
					ev := func(get func(ssa.Value) Val, st *State) *Term {
						en := mkEnv(get, st)
						pe := *preEnv
						pe.vars = map[string]Val{}
						for k, v := range preEnv.vars {
							pe.vars[k] = v
						}
						for j, v := range cl.vars {
							x := asg[j].get(get, st)
							if v.ty != "" {
								if T := ex.e.specTyp(v.ty); !isSeqSort(sortOf(T)) && sortOf(T) != SSlice {
									x.typ = T
								}
							}
							en.vars[v.name] = x
							pe.vars[v.name] = asg[j].get(entryGet, hi.entrySt)
						}
						en.pre = &pe
						// pre(x): names keep their loop-entry meaning
						return ex.evalLoopClause(en, &pe, cl.e)
					}
					if cl.kind == "invariant" {
						cands = append(cands, &invCand{eval: ev, src: src, user: true})
					} else {
						meas = append(meas, &measCand{eval: ev, src: src})
					}
				}
			}
		}
	}
	// automatic candidates
	isRange := false
	for b := range l.body {
		for _, in := range b.Instrs {
			nx, ok := in.(*ssa.Next)
			if !ok {
				continue
			}
			if b != l.header {
				continue
			}
			isRange = true
			if nx.IsString {
				it := ex.val(fr, nx.Iter)
				r := it.tup[1].t
				s := it.tup[0].t
				cands = append(cands, &invCand{src: "0 <= string iterator <= len", eval: func(get func(ssa.Value) Val, st *State) *Term {
					i := ex.hload(st, "C:$iter", SInt, r)
					return tAnd(tCmp("<=", tInt(0), i), tCmp("<=", i, seqLen(s)))
				}})
				meas = append(meas, &measCand{src: "len - string iterator", eval: func(get func(ssa.Value) Val, st *State) *Term {
					return tSub(seqLen(s), ex.hload(st, "C:$iter", SInt, r))
				}})
			} else {
				ex.e.assum["a range over a map ends"] = true
				meas = append(meas, &measCand{src: "map range", eval: nil})
			}
		}
	}
	_ = isRange
	for _, p := range phis {
		p := p
		switch sortOf(p.Type()) {
		case SInt:
			if _, ok := under(p.Type()).(*types.Basic); !ok {
				continue
			}
			ev := hi.entryVals[p]
			if ev.t == nil {
				continue
			}
			up, down := false, false
			for i, e := range p.Edges {
				if !l.backs[p.Block().Preds[i]] {
					continue
				}
				if b, ok := e.(*ssa.BinOp); ok {
					if b.Op == token.ADD {
						up = true
					}
					if b.Op == token.SUB {
						down = true
					}
				} else if e != p {
					up, down = true, true
				}
			}
			if up {
				cands = append(cands, &invCand{src: fmt.Sprintf("%s >= its initial value", phiName(p)), eval: func(get func(ssa.Value) Val, st *State) *Term {
					return tCmp(">=", get(p).t, ev.t)
				}})
			}
			if down {
				cands = append(cands, &invCand{src: fmt.Sprintf("%s <= its initial value", phiName(p)), eval: func(get func(ssa.Value) Val, st *State) *Term {
					return tCmp("<=", get(p).t, ev.t)
				}})
				cands = append(cands, &invCand{src: fmt.Sprintf("%s >= 0", phiName(p)), eval: func(get func(ssa.Value) Val, st *State) *Term {
					return tCmp(">=", get(p).t, tInt(0))
				}})
				meas = append(meas, &measCand{src: phiName(p), eval: func(get func(ssa.Value) Val, st *State) *Term { return get(p).t }})
			}
		case SSeq:
			meas = append(meas, &measCand{src: "len(" + phiName(p) + ")", eval: func(get func(ssa.Value) Val, st *State) *Term { return seqLen(get(p).t) }})
		case SSlice:
			meas = append(meas, &measCand{src: "len(" + phiName(p) + ")", eval: func(get func(ssa.Value) Val, st *State) *Term { return slLen(get(p).t) }})
			ev := hi.entryVals[p]
			if ev.t == nil {
				continue
			}
			c0 := hi.entrySt.ctr
			cands = append(cands, &invCand{src: "array of " + phiName(p) + " is the initial one or new", eval: func(get func(ssa.Value) Val, st *State) *Term {
				a := slArr(get(p).t)
				return tOr(tEq(a, slArr(ev.t)), tCmp("<=", c0, a), tEq(a, tInt(0)))
			}})
			cands = append(cands, &invCand{src: "array of " + phiName(p) + " is new", eval: func(get func(ssa.Value) Val, st *State) *Term {
				a := slArr(get(p).t)
				return tOr(tCmp("<=", mkVar("ctr0", SInt), a), tEq(a, tInt(0)))
			}})
		}
	}
	// conditions that compare a loop-carried integer with a loop-invariant bound
	for b := range l.body {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
			default:
				continue
			}
			if s := sortOf(bo.X.Type()); s != SInt {
				continue
			}
			if _, ok := under(bo.X.Type()).(*types.Basic); !ok {
				continue
			}
			for _, pr := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
				pv, off := stripAdd(pr[0])
				p, ok := pv.(*ssa.Phi)
				if !ok || p.Block() != l.header {
					continue
				}
				bound, ok := ex.invariantExpr(fr, l, pr[1])
				if !ok {
					continue
				}
				_ = off
				cands = append(cands, &invCand{src: fmt.Sprintf("%s <= bound", phiName(p)), eval: func(get func(ssa.Value) Val, st *State) *Term {
					return tCmp("<=", get(p).t, bound(get, st))
				}})
				cands = append(cands, &invCand{src: fmt.Sprintf("%s < bound or bound <= 0", phiName(p)), eval: func(get func(ssa.Value) Val, st *State) *Term {
					bd := bound(get, st)
					return tOr(tCmp("<", get(p).t, bd), tCmp("<=", bd, tInt(0)))
				}})
				meas = append(meas, &measCand{src: "bound - " + phiName(p), eval: func(get func(ssa.Value) Val, st *State) *Term {
					return tSub(bound(get, st), get(p).t)
				}})
				meas = append(meas, &measCand{src: "bound - " + phiName(p) + " + 1", eval: func(get func(ssa.Value) Val, st *State) *Term {
					return tAdd(tSub(bound(get, st), get(p).t), tInt(1))
				}})
			}
		}
	}
	// heaps havocked as a whole: what the contract does not list stays
	if ex.contract != nil {
		locs, ok := ex.tryLocs()
		if ok {
			for _, h := range sortedKeys(hi.st.h) {
				h := h
				t := hi.st.h[h]
				if t == hi.entrySt.h[h] || t.op == "store" || len(t.args) > 0 {
					continue
				}
				if !hi.whole[h] {
					continue
				}
				var refs []*Term
				all := false
				for _, lc := range locs {
					if lc.heap == h {
						if lc.ref == nil {
							all = true
						}
						refs = append(refs, lc.ref)
					}
				}
				srt := t.sort
				if all {
					if strings.HasPrefix(h, "M:") {
						cands = append(cands, &invCand{src: "the arrays of package variables in " + h + " are as at the entry of the function", eval: func(get func(ssa.Value) Val, st *State) *Term {
							return globalsKept(ex.get(st, h, srt), ex.get(ex.st0, h, srt))
						}})
					}
					continue
				}
				for _, base := range []struct {
					ctr *Term
					st  *State
					s   string
				}{{mkVar("ctr0", SInt), ex.st0, "entry of the function"}, {hi.entrySt.ctr, hi.entrySt, "entry of the loop"}} {
					base, refs := base, refs
					if base.st == hi.entrySt {
						refs = nil
					}
					cands = append(cands, &invCand{src: "unlisted locations of " + h + " are as at the " + base.s, eval: func(get func(ssa.Value) Val, st *State) *Term {
						q := mkBound("fq", SInt)
						cs := []*Term{tCmp("<", tInt(0), q), tCmp("<", q, base.ctr)}
						for _, r := range refs {
							cs = append(cs, tNot(tEq(q, r)))
						}
						now := ex.get(st, h, srt)
						return tQuant("forall", []*Term{q}, [][]*Term{{mk("select", elemSort(srt), now, q)}}, tImp(tAnd(cs...), tEq(tSelect(now, q), tSelect(ex.get(base.st, h, srt), q))))
					}})
					if srt == arr(SSeq) || srt == arr(SSeqF) || srt == arr(SSeqS) || srt == arr(SSeqB) {
						// all but the arrays of loop-carried slices
						var ex0 []*Term
						for _, p := range phis {
							if sortOf(p.Type()) == SSlice && hi.entryVals[p].t != nil {
								ex0 = append(ex0, slArr(hi.entryVals[p].t))
							}
						}
						if len(ex0) > 0 {
							cands = append(cands, &invCand{src: "other arrays of " + h + " are as at the " + base.s, eval: func(get func(ssa.Value) Val, st *State) *Term {
								q := mkBound("fq", SInt)
								cs := []*Term{tCmp("<", tInt(0), q), tCmp("<", q, base.ctr)}
								for _, r := range append(append([]*Term{}, refs...), ex0...) {
									cs = append(cs, tNot(tEq(q, r)))
								}
								now := ex.get(st, h, srt)
								return tQuant("forall", []*Term{q}, [][]*Term{{mk("select", elemSort(srt), now, q)}}, tImp(tAnd(cs...), tEq(tSelect(now, q), tSelect(ex.get(base.st, h, srt), q))))
							}})
						}
					}
				}
			}
		}
	}
	return
}

func (ex *Exec) evalLoopClause(en, pe *Env, e Expr) *Term {
	v := en.eval(e)
	return ex.term(v)
}

func (ex *Exec) tryLocs() (locs []modLoc, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
	en := &Env{ex: ex, st: ex.st0, vars: ex.env0}
	return ex.modLocs(ex.contract, en), true
}

func stripAdd(v ssa.Value) (ssa.Value, int64) {
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		if c, ok := b.Y.(*ssa.Const); ok {
			n := c.Int64()
			if b.Op == token.SUB {
				n = -n
			}
			return b.X, n
		}
	}
	return v, 0
}

// invariantExpr: an expression over values defined outside the loop, or the length of such (or of a field read in the loop is not)
func (ex *Exec) invariantExpr(fr *Frame, l *loopInfo, v ssa.Value) (func(get func(ssa.Value) Val, st *State) *Term, bool) {
	if c, ok := v.(*ssa.Const); ok {
		t := ex.constVal(c).t
		return func(func(ssa.Value) Val, *State) *Term { return t }, true
	}
	in, isInstr := v.(ssa.Instruction)
	if !isInstr || !l.body[in.Block()] {
		return func(get func(ssa.Value) Val, st *State) *Term { return get(v).t }, true
	}
	switch x := v.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			a := x.Call.Args[0]
			if ai, ok := a.(ssa.Instruction); !ok || !l.body[ai.Block()] || isHeaderPhi(a, l) {
				return func(get func(ssa.Value) Val, st *State) *Term {
					t := get(a).t
					if t.sort == SSlice {
						return slLen(t)
					}
					return seqLen(t)
				}, true
			}
			// len of a field of a loop-invariant object
			if u, ok := a.(*ssa.UnOp); ok && u.Op == token.MUL {
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					if bi, ok := fa.X.(ssa.Instruction); !ok || !l.body[bi.Block()] {
						T := fa.X.Type().Underlying().(*types.Pointer).Elem()
						return func(get func(ssa.Value) Val, st *State) *Term {
							fv := ex.loadField(st, T, fa.Field, ex.term(get(fa.X)))
							if fv.t.sort == SSlice {
								return slLen(fv.t)
							}
							return seqLen(fv.t)
						}, true
					}
				}
			}
		}
	}
	return nil, false
}

func isHeaderPhi(v ssa.Value, l *loopInfo) bool {
	p, ok := v.(*ssa.Phi)
	return ok && p.Block() == l.header
}

// assignments of the holes of a template
func (ex *Exec) assignments(vars []Param, all []hole, byName map[string]hole) [][]hole {
	if len(vars) == 0 {
		return [][]hole{nil}
	}
	named := make([]hole, len(vars))
	ok := true
	for i, v := range vars {
		h, found := byName[v.name]
		if !found || !holeFits(ex.e, h, v.ty) {
			ok = false
			break
		}
		named[i] = h
	}
	if ok && !ex.enum {
		return [][]hole{named}
	}
	var out [][]hole
	if ok {
		out = append(out, named)
	}
	var rec func(i int, cur []hole)
	rec = func(i int, cur []hole) {
		if len(out) > 40 {
			return
		}
		if i == len(vars) {
			out = append(out, append([]hole(nil), cur...))
			return
		}
		for _, h := range all {
			if !holeFits(ex.e, h, vars[i].ty) {
				continue
			}
			dup := false
			for _, c := range cur {
				if c.name == h.name {
					dup = true
				}
			}
			if dup {
				continue
			}
			rec(i+1, append(cur, h))
		}
	}
	rec(0, nil)
	return out
}
