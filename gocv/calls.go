package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) call(fr *Frame, cc *ssa.CallCommon, at ssa.Instruction, st *State, reach *Term) ([]Val, *Term) {
	var args []Val
	for _, a := range cc.Args {
		args = append(args, ex.val(fr, a))
	}
	var fnv Val
	if cc.IsInvoke() {
		fnv = ex.val(fr, cc.Value)
	} else if _, ok := cc.Value.(*ssa.Builtin); !ok {
		fnv = ex.val(fr, cc.Value)
	}
	return ex.callWith(fr, cc, fnv, args, st, reach)
}

func (ex *Exec) callWith(fr *Frame, cc *ssa.CallCommon, fnv Val, args []Val, st *State, reach *Term) ([]Val, *Term) {
	pos := ex.curPos
	defer func() { ex.curPos = pos }()
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		return ex.builtin(b.Name(), cc, args, st, reach), reach
	}
	if cc.IsInvoke() {
		return ex.invoke(cc, fnv, args, st, reach)
	}
	if fnv.clo != nil {
		return ex.callFn(fnv.clo.fn, args, fnv.clo.bind, st, reach)
	}
	if fnv.alts != nil {
		var conds []*Term
		var sts []*State
		var rets [][]Val
		for _, a := range fnv.alts {
			s := st.clone()
			vs, nr := ex.callFn(a.v.clo.fn, args, a.v.clo.bind, s, ex.define("altcall", tAnd(reach, a.cond)))
			conds = append(conds, nr)
			sts = append(sts, s)
			rets = append(rets, vs)
		}
		out := ex.mergeStates(conds, sts)
		out.defers = st.defers
		*st = *out
		var vals []Val
		for i := range rets[0] {
			var vs []Val
			for _, r := range rets {
				vs = append(vs, r[i])
			}
			vals = append(vals, ex.mergeVals("aret", conds, vs))
		}
		return vals, ex.define("r!alt", tOr(conds...))
	}
	// a function value that is not known statically
	name := ""
	if n, ok := fnv.typ.(*types.Named); ok {
		name = shortPkg(n.Obj().Pkg().Path()) + "." + n.Obj().Name()
	}
	if p, ok := cc.Value.(*ssa.Parameter); ok && ex.contract != nil {
		if o := ex.contract.opts["cb_"+p.Name()]; o != "" {
			name = o
		}
		if o := ex.contract.opts["cb"]; o != "" && ex.e.S.contracts[name] == nil {
			name = o
		}
	}
	if ex.contract != nil && ex.e.S.contracts[name] == nil {
		if o := ex.contract.opts["cb"]; o != "" {
			name = o
		}
	}
	if !strings.Contains(name, ".") {
		name = "helium." + name
	}
	if c := ex.e.S.contracts[name]; c != nil && c.typ != "" {
		ft := ex.term(fnv)
		ex.goal(reach, tNot(tEq(ft, tInt(0))), "nil", "call of a nil function value")
		vs := append([]Val{{t: ft, typ: specType{SInt}}}, args...)
		return ex.applyContract(c, vs, cc.Signature().Results(), st, reach)
	}
	if cell, ok := ex.cellFn(cc, fr); ok {
		return ex.callFn(cell.clo.fn, args, cell.clo.bind, st, reach)
	}
	unsup("call of an unknown function value (%s)", cc.Value.Type())
	return nil, nil
}

// a closure stored once into a local cell (recursive local functions)
func (ex *Exec) cellFn(cc *ssa.CallCommon, fr *Frame) (Val, bool) {
	u, ok := cc.Value.(*ssa.UnOp)
	if !ok {
		return Val{}, false
	}
	a := ex.val(fr, u.X)
	if a.addr == nil || a.addr.kind != "cell" {
		return Val{}, false
	}
	v, ok := ex.cellClosures()[a.addr.ref]
	return v, ok
}

func (ex *Exec) callFn(fn *ssa.Function, args, bind []Val, st *State, reach *Term) ([]Val, *Term) {
	name := funcName(fn)
	if fn.Synthetic != "" && fn.Object() != nil && len(fn.FreeVars) == 0 {
		name = funcName(fn)
	}
	if c := ex.e.S.contracts[name]; c != nil && c.opts["inline"] == "" && len(bind) == 0 && fn.Parent() == nil && !isWrapper(fn) {
		return ex.applyContract(c, args, fn.Signature.Results(), st, reach)
	}
	if vs, nr, ok := ex.extern(name, fn, args, st, reach); ok {
		return vs, nr
	}
	if fn.Blocks == nil {
		unsup("call of %s, which has neither a contract nor a body here", name)
	}
	if fn.Pkg != nil && ex.e.P.pkgs[fn.Pkg.Pkg.Path()] == nil && !isWrapper(fn) {
		unsup("call of %s without a contract", name)
	}
	var spec *Contract
	if c := ex.e.S.contracts[name]; c != nil {
		spec = c
	}
	ex.inlined[name] = true
	saved := ex.curReach
	vals, out, nr := ex.execFunc(fn, args, bind, st, reach, spec)
	ex.curReach = saved
	defers := st.defers
	*st = *out
	st.defers = defers
	return vals, nr
}

func isWrapper(fn *ssa.Function) bool {
	return strings.HasPrefix(fn.Synthetic, "wrapper") || strings.HasPrefix(fn.Synthetic, "bound") || strings.HasPrefix(fn.Synthetic, "thunk")
}

// ---------- interface calls

func (ex *Exec) invoke(cc *ssa.CallCommon, recv Val, args []Val, st *State, reach *Term) ([]Val, *Term) {
	T := cc.Value.Type()
	ex.goal(reach, tNot(tEq(iTag(recv.t), tInt(0))), "nil", "method "+cc.Method.Name()+" called on a nil interface")
	name := ""
	if n, ok := T.(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			name = shortPkg(n.Obj().Pkg().Path()) + "." + n.Obj().Name()
		} else {
			name = "builtin." + n.Obj().Name()
		}
	}
	mname := cc.Method.Name()
	// interface-level contract: the static interface, or the one that declares the method
	cands := []string{name + "." + mname}
	if o := objName(cc.Method); o != cands[0] {
		cands = append(cands, o)
	}
	for _, k := range cands {
		if c := ex.e.S.contracts[k]; c != nil && c.iface {
			rv := recv
			rv.typ = T
			return ex.applyContract(c, append([]Val{rv}, args...), cc.Signature().Results(), st, reach)
		}
	}
	if tv, ok := iTag(recv.t).intVal(); ok && ex.e.tagTy[int(tv)] != nil {
		return ex.callMethod(ex.e.tagTy[int(tv)], cc.Method, recv, args, st, reach)
	}
	impls := ex.e.implementers(T)
	if len(impls) == 0 {
		unsup("call of interface method %s.%s without a contract", tkey(T), mname)
	}
	if !ex.e.isClosed(T) {
		ex.e.assum["interface "+tkey(T)+": only the types of this module implement it"] = true
		var alts []*Term
		for _, t := range impls {
			alts = append(alts, tEq(iTag(recv.t), ex.e.tag(t)))
		}
		ex.assume(reach, tOr(alts...), "closed world")
	}
	groups := ex.e.implGroups(impls, cc.Method)
	if len(groups) == 1 {
		return ex.callMethod(groups[0].typs[0], cc.Method, recv, args, st, reach)
	}
	var conds []*Term
	var sts []*State
	var rets [][]Val
	for _, g := range groups {
		var alts []*Term
		for _, t := range g.typs {
			alts = append(alts, tEq(iTag(recv.t), ex.e.tag(t)))
		}
		c := ex.define("dyncall", tAnd(reach, tOr(alts...)))
		if c == tFalse {
			continue
		}
		if ex.infeasible(c) {
			continue
		}
		s := st.clone()
		vs, nr := ex.callMethod(g.typs[0], cc.Method, recv, args, s, c)
		conds = append(conds, nr)
		sts = append(sts, s)
		rets = append(rets, vs)
	}
	out := ex.mergeStates(conds, sts)
	out.defers = st.defers
	*st = *out
	var vals []Val
	for i := range rets[0] {
		var vs []Val
		for _, r := range rets {
			vs = append(vs, r[i])
		}
		vals = append(vals, ex.mergeVals("dret", conds, vs))
	}
	return vals, ex.define("r!dyn", tOr(conds...))
}

func (ex *Exec) infeasible(c *Term) bool { return false }

// firstPath: the method is promoted only through embedded structs at offset 0
func firstPath(t types.Type, sel *types.Selection) bool {
	idx := sel.Index()
	cur := t
	for _, i := range idx[:len(idx)-1] {
		if p, ok := under(cur).(*types.Pointer); ok {
			cur = p.Elem()
		}
		s, ok := under(cur).(*types.Struct)
		if !ok || i != 0 {
			return false
		}
		cur = s.Field(i).Type()
		if isPtr(cur) {
			return false
		}
	}
	return true
}

// callMethod calls method m of the dynamic type T on the interface value recv.
func (ex *Exec) callMethod(T types.Type, m *types.Func, recv Val, args []Val, st *State, reach *Term) ([]Val, *Term) {
	sel := ex.e.P.prog.MethodSets.MethodSet(T).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		unsup("type %s lacks method %s", T, m.Name())
	}
	obj := sel.Obj().(*types.Func)
	if _, ok := T.(*types.Pointer); ok && firstPath(T, sel) {
		if rp, ok := obj.Type().(*types.Signature).Recv().Type().(*types.Pointer); ok {
			fn := ex.e.P.prog.FuncValue(obj)
			if fn != nil {
				return ex.callFn(fn, append([]Val{{t: iVal(recv.t), typ: rp}}, args...), nil, st, reach)
			}
		}
	}
	fn := ex.e.P.prog.MethodValue(sel)
	if fn == nil {
		unsup("no method value for %s.%s", T, m.Name())
	}
	return ex.callFn(fn, append([]Val{ex.fromIface(recv.t, T)}, args...), nil, st, reach)
}

// ---------- contracts

func (ex *Exec) contractEnv(c *Contract, args []Val, st *State) *Env {
	en := &Env{ex: ex, st: st, vars: map[string]Val{}}
	for i, p := range c.params {
		if i < len(args) {
			v := args[i]
			if p.ty != "" {
				T := ex.e.specTyp(p.ty)
				if !isStruct(T) {
					if v.t == nil && v.clo == nil && (v.addr == nil || v.addr.kind != "cell") {
						unsup("argument %s of %s is not a scalar", p.name, c.name)
					}
					if v.t != nil && v.st == nil {
						if v.t.sort == SIface && !isIface(T) && sortOf(T) == SInt {
							v.t = iVal(v.t)
						}
					}
					v.typ = T
				}
			}
			en.vars[p.name] = v
		}
	}
	return en
}

type modLoc struct {
	heap string
	sort Sort
	ref  *Term // nil = everything
	typ  types.Type
}

// modLocs evaluates a modifies list in a state.
func (ex *Exec) modLocs(c *Contract, en *Env) []modLoc {
	var out []modLoc
	var add func(e Expr)
	add = func(e Expr) {
		switch e := e.(type) {
		case *EField:
			if id, ok := e.x.(*EIdent); ok {
				if _, known := en.lookup(id.name); !known {
					out = append(out, ex.globalLoc(id.name, e.f)...)
					return
				}
			}
			x := en.eval(e.x)
			out = append(out, ex.fieldLoc(en, x, e.f)...)
		case *EIdent:
			if set, ok := ex.e.S.modsets[e.name]; ok {
				for _, m := range set {
					add(m)
				}
				return
			}
			out = append(out, ex.globalLoc(ex.e.curPkg, e.name)...)
		case *EUn:
			p := en.eval(e.x)
			T := under(p.typ).(*types.Pointer).Elem()
			if isStruct(T) {
				out = append(out, ex.objLocs(T, p.t)...)
				return
			}
			a := ex.addrOf(p, T)
			if a.kind == "global" {
				out = append(out, modLoc{a.heap, a.hsort, tInt(0), nil})
				return
			}
			out = append(out, modLoc{a.heap, arr(a.hsort), a.ref, nil})
		case *ECond:
			// conditional location: nothing when the condition is false
			n := len(out)
			add(e.a)
			cnd := en.boolT(e.c)
			for i := n; i < len(out); i++ {
				if out[i].ref == nil {
					evalFail("conditional modifies of a whole heap")
				}
				out[i].ref = tIte(cnd, out[i].ref, tInt(-1))
			}
		case *ECall:
			switch e.fn {
			case "all":
				f := e.args[0].(*EField)
				T := ex.e.specTyp(exprDotted(f.x))
				st := under(T).(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == f.f {
						out = append(out, modLoc{structFieldHeap(T, i), arr(sortOf(st.Field(i).Type())), nil, nil})
						return
					}
				}
				evalFail("no field %s", f.f)
			case "allof":
				// every object of the type
				for _, l := range ex.objLocs(ex.e.specTyp(exprDotted(e.args[0])), tInt(0)) {
					out = append(out, modLoc{l.heap, l.sort, nil, nil})
				}
			case "allmap":
				mh := ex.mapHeaps(under(ex.e.specTyp(e.args[0].(*EStr).v)).(*types.Map))
				out = append(out, modLoc{mh.dom, arr(mh.domS), nil, nil}, modLoc{mh.ln, arr(SInt), nil, nil})
				if !mh.set {
					out = append(out, modLoc{mh.val, arr(mh.valS), nil, nil})
				}
			case "allghost":
				h, s := ex.ghostHeap(e.args[0].(*EIdent).name)
				out = append(out, modLoc{h, arr(s), nil, nil})
			case "allmem":
				el := ex.e.specTyp(exprDotted(e.args[0]))
				if id, ok := e.args[0].(*EIdent); ok && id.name == "byte" {
					el = types.Typ[types.Uint8]
				}
				out = append(out, modLoc{memHeap(el), arr(seqOf(sortOf(el))), nil, nil})
			case "mem":
				v := en.eval(e.args[0])
				el := under(v.typ).(*types.Slice).Elem()
				out = append(out, modLoc{memHeap(el), arr(seqOf(sortOf(el))), slArr(v.t), nil})
			case "map":
				v := en.eval(e.args[0])
				mh := ex.mapHeaps(under(v.typ).(*types.Map))
				out = append(out, modLoc{mh.dom, arr(mh.domS), v.t, nil}, modLoc{mh.ln, arr(SInt), v.t, nil})
				if !mh.set {
					out = append(out, modLoc{mh.val, arr(mh.valS), v.t, nil})
				}
			case "obj":
				v := en.eval(e.args[0])
				T := under(v.typ).(*types.Pointer).Elem()
				out = append(out, ex.objLocs(T, v.t)...)
			default:
				if _, ok := ex.e.S.ghosts[e.fn]; ok {
					h, s := ex.ghostHeap(e.fn)
					out = append(out, modLoc{h, arr(s), en.refOf(en.eval(e.args[0])), nil})
					return
				}
				evalFail("modifies %s", e.fn)
			}
		default:
			evalFail("modifies location %T", e)
		}
	}
	for _, m := range c.mods {
		add(m)
	}
	return out
}

func exprDotted(e Expr) string {
	switch e := e.(type) {
	case *EIdent:
		return e.name
	case *EField:
		return exprDotted(e.x) + "." + e.f
	}
	evalFail("type name expected")
	return ""
}

func (ex *Exec) globalLoc(pk, name string) []modLoc {
	for path, p := range ex.e.P.pkgs {
		if shortPkg(path) == pk {
			if g, ok := p.Members[name].(*ssa.Global); ok {
				a := ex.globalAddr(g)
				if a.addr != nil {
					return []modLoc{{a.addr.heap, a.addr.hsort, tInt(0), nil}}
				}
				return ex.objLocs(g.Type().(*types.Pointer).Elem(), a.t)
			}
		}
	}
	evalFail("no variable %s.%s", pk, name)
	return nil
}

func (ex *Exec) objLocs(T types.Type, ref *Term) []modLoc {
	var out []modLoc
	st := under(T).(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if isStruct(ft) {
			out = append(out, ex.objLocs(ft, subRef2(ex.e, T, i, ref))...)
			continue
		}
		if isArray(ft) {
			continue
		}
		out = append(out, modLoc{structFieldHeap(T, i), arr(sortOf(ft)), ref, ft})
	}
	return out
}

func (ex *Exec) fieldLoc(en *Env, x Val, f string) []modLoc {
	T := x.typ
	if isIface(T) {
		n, ok := T.(*types.Named)
		if !ok {
			evalFail("modifies field %s of interface", f)
		}
		b, ok := ex.e.S.bases[shortPkg(n.Obj().Pkg().Path())+"."+n.Obj().Name()]
		if !ok {
			evalFail("modifies field %s of interface", f)
		}
		return ex.fieldLoc(en, Val{t: iVal(x.t), typ: types.NewPointer(ex.e.lookupType(b))}, f)
	}
	var pkg *types.Package
	if n := namedOf(T); n != nil {
		pkg = n.Obj().Pkg()
	}
	_, idx, _ := types.LookupFieldOrMethod(T, true, pkg, f)
	if len(idx) == 0 {
		evalFail("no field %s", f)
	}
	ref := ex.term(x)
	cur := T
	for k, i := range idx {
		if p, ok := under(cur).(*types.Pointer); ok {
			cur = p.Elem()
		}
		ft := under(cur).(*types.Struct).Field(i).Type()
		if k == len(idx)-1 {
			if isStruct(ft) {
				return ex.objLocs(ft, subRef2(ex.e, cur, i, ref))
			}
			return []modLoc{{structFieldHeap(cur, i), arr(sortOf(ft)), ref, ft}}
		}
		if isStruct(ft) {
			ref = subRef2(ex.e, cur, i, ref)
		} else {
			ref = ex.hload(en.st, structFieldHeap(cur, i), sortOf(ft), ref)
		}
		cur = ft
	}
	return nil
}

// applyContract: assert the precondition, havoc what may change, assume the postcondition.
func (ex *Exec) applyContract(c *Contract, args []Val, rt *types.Tuple, st *State, reach *Term) (vals []Val, nr *Term) {
	defer func() {
		if r := recover(); r != nil {
			if ee, ok := r.(evalError); ok {
				unsup("contract of %s (%s): %s", c.name, c.pos, ee.msg)
			}
			panic(r)
		}
	}()
	ex.called[c.name] = true
	c.used = true
	if c.trusted {
		ex.e.trust[c.name] = true
	}
	if n := c.opts["panics"]; n != "" {
		ex.goal(reach, tFalse, "panic", c.name+" is not called")
	}
	savePkg := ex.e.curPkg
	pk := c.name[:strings.Index(c.name, ".")]
	setPkg := func() { ex.e.curPkg = pk }
	setPkg()
	defer func() { ex.e.curPkg = savePkg }()
	pre := st.clone()
	en := ex.contractEnv(c, args, pre)
	for _, cl := range c.clauses {
		if cl.kind == "requires" {
			d := "precondition of " + c.name + ": " + cl.src
			ex.goal(reach, en.boolT(cl.e), "pre", d)
		}
	}
	// recursion
	if ex.contract != nil && ex.e.sameGroup(ex.contract, c) && c.opts["partial"] != "" {
		ex.e.assum["recursion of "+c.name+" ends (partial correctness): "+c.why] = true
	} else if ex.contract != nil && ex.e.sameGroup(ex.contract, c) {
		var ms []*Term
		for _, cl := range c.clauses {
			if cl.kind == "decreases" {
				ms = append(ms, en.intT(cl.e))
			}
		}
		if len(ms) == 0 || len(ms) != len(ex.measure0) {
			ex.goal(reach, tFalse, "terminates", "recursion of "+c.name+" has no measure")
		} else {
			// lexicographic; every component is bounded below
			less := tFalse
			var low []*Term
			for i := len(ms) - 1; i >= 0; i-- {
				low = append(low, tCmp("<=", tInt(0), ms[i]))
				less = tOr(tCmp("<", ms[i], ex.measure0[i]), tAnd(tEq(ms[i], ex.measure0[i]), less))
			}
			ex.goal(reach, tAnd(append(low, less)...), "terminates", "recursive call of "+c.name+" decreases the measure")
		}
	}
	if c.modAll {
		unsup("modifies * of %s", c.name)
	}
	var havocked []Val
	for _, l := range ex.modLocs(c, en) {
		if l.ref == nil {
			old := ex.get(st, l.heap, l.sort)
			nw := ex.fresh("H!"+l.heap, l.sort)
			if strings.HasPrefix(l.heap, "M:") {
				ex.assume(tTrue, globalsKept(nw, old), "package variables")
			}
			ex.set(st, l.heap, nw, nil)
			continue
		}
		if !strings.HasPrefix(l.sort, "(Array Int") || strings.HasPrefix(l.heap, "V:") {
			ex.set(st, l.heap, ex.fresh("H!"+l.heap, l.sort), tInt(0))
			continue
		}
		v := ex.fresh("m!"+l.heap, elemSort(l.sort))
		if l.typ != nil {
			havocked = append(havocked, Val{t: v, typ: l.typ})
		}
		old := ex.get(st, l.heap, l.sort)
		nw := tStore(old, l.ref, v)
		if l.ref.op == "ite" {
			nw = tIte(l.ref.args[0], tStore(old, l.ref.args[1], v), old)
			if l.ref.args[2] != tInt(-1) {
				nw = tStore(old, l.ref, v)
			}
		}
		ex.set(st, l.heap, nw, l.ref)
	}
	if !c.pure && c.opts["noalloc"] == "" {
		n := ex.fresh("ctr", SInt)
		ex.assume(tTrue, tCmp("<=", st.ctr, n), "ctr")
		if ex.allocFacts && (c.opts["nonodes"] != "" || c.trusted && c.opts["nodes"] == "") {
			// nothing that is allocated here is an object of a closed-world interface
			q := mkBound("hq", SInt)
			d := mk("dyn", SInt, q)
			ex.assume(tTrue, tQuant("forall", []*Term{q}, [][]*Term{{d}}, tImp(tAnd(tCmp("<=", st.ctr, q), tCmp("<", q, n)), ex.notClosed(q))), "no nodes")
		}
		st.ctr = n
		for _, l := range ex.wlog {
			l.allocs = true
		}
	}
	for _, v := range havocked {
		ex.fact(reach, v, st)
	}
	post := ex.contractEnv(c, args, st)
	post.old = pre
	for i := 0; i < rt.Len(); i++ {
		T := rt.At(i).Type()
		nm := "res"
		if i < len(c.results) {
			nm = c.results[i].name
		}
		v := ex.havocVal(lastPart(c.name)+"."+nm, T)
		if c.opts["nofacts"] == "" {
			ex.factsDeep(reach, v, st)
		}
		vals = append(vals, v)
		if i < len(c.results) {
			vv := v
			if c.results[i].ty != "" {
				RT := ex.e.specTyp(c.results[i].ty)
				if !isStruct(RT) {
					vv.typ = RT
				}
			}
			post.vars[nm] = vv
		}
	}
	for _, cl := range c.clauses {
		if cl.kind == "ensures" {
			ex.assume(reach, post.boolT(cl.e), "post "+c.name)
		}
	}
	return vals, reach
}

func lastPart(s string) string { return s[strings.LastIndex(s, ".")+1:] }

// sameGroup: calls between the two functions can be recursive
func (e *Engine) sameGroup(a, b *Contract) bool {
	if b.trusted {
		return false
	}
	if a == b {
		return true
	}
	ga, gb := a.opts["group"], b.opts["group"]
	return ga != "" && ga == gb
}

// ---------- verification of one function

func (e *Engine) verifyFunc(c *Contract) (ex *Exec) {
	fn := e.P.funcs[c.name]
	var tys []types.Type
	if fn != nil {
		for _, p := range fn.Params {
			tys = append(tys, p.Type())
		}
	}
	var sig *types.Signature
	if fn != nil {
		sig = fn.Signature
	}
	return e.verifyBody(c, c.name, fn, sig, func(ex *Exec, args []Val, st *State) ([]Val, *State, *Term) {
		return ex.execFunc(fn, args, nil, st, tTrue, c)
	}, func(ex *Exec, st *State) (args []Val) {
		for i, p := range fn.Params {
			nm := p.Name()
			if i < len(c.params) {
				nm = c.params[i].name
			}
			v := ex.havocVal("arg."+nm, p.Type())
			ex.factsDeep(tTrue, v, st)
			args = append(args, v)
		}
		return args
	})
}

type implGroup struct {
	fn   *types.Func
	typs []types.Type
}

// implGroups: the implementers of an interface, grouped by the function that is finally called.
func (e *Engine) implGroups(impls []types.Type, m *types.Func) []*implGroup {
	var groups []*implGroup
	byKey := map[string]*implGroup{}
	for _, t := range impls {
		sel := e.P.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
		if sel == nil {
			continue
		}
		f := sel.Obj().(*types.Func)
		k := objName(f)
		_, isP := t.(*types.Pointer)
		if !firstPath(t, sel) || !isP {
			k += "|" + tkey(t)
		}
		g := byKey[k]
		if g == nil {
			g = &implGroup{fn: f}
			byKey[k] = g
			groups = append(groups, g)
		}
		g.typs = append(g.typs, t)
	}
	sort.SliceStable(groups, func(i, j int) bool { return objName(groups[i].fn) < objName(groups[j].fn) })
	return groups
}

// verifyIface: every implementation of an interface method keeps the contract of the method.
func (e *Engine) verifyIface(c *Contract) (out []*Exec) {
	i := strings.LastIndex(c.name, ".")
	bad := func(msg string) []*Exec {
		ex := newExec(e, c.name)
		ex.contract = c
		ex.goal(tTrue, tFalse, "missing", msg)
		return []*Exec{ex}
	}
	T := e.lookupType(c.name[:i])
	if T == nil || !isIface(T) {
		return bad("interface " + c.name[:i] + " is not in the source")
	}
	var m *types.Func
	it := under(T).(*types.Interface)
	for k := 0; k < it.NumMethods(); k++ {
		if it.Method(k).Name() == c.name[i+1:] {
			m = it.Method(k)
		}
	}
	if m == nil {
		return bad("interface method " + c.name + " is not in the source")
	}
	impls := e.implementers(T)
	if len(impls) == 0 {
		return bad("interface " + c.name[:i] + " has no implementation")
	}
	sig := m.Type().(*types.Signature)
	for _, g := range e.implGroups(impls, m) {
		g := g
		name := c.name + " of "
		for k, t := range g.typs {
			if k > 0 {
				name += ","
			}
			name += strings.TrimPrefix(tkey(t), "*")
		}
		out = append(out, e.verifyBody(c, name, nil, sig, func(ex *Exec, args []Val, st *State) ([]Val, *State, *Term) {
			st = st.clone()
			vals, r := ex.callMethod(g.typs[0], m, args[0], args[1:], st, tTrue)
			return vals, st, r
		}, func(ex *Exec, st *State) []Val {
			recv := ex.havocVal("arg.recv", T)
			ex.factsDeep(tTrue, recv, st)
			var alts []*Term
			for _, t := range g.typs {
				alts = append(alts, tEq(iTag(recv.t), e.tag(t)))
			}
			ex.assume(tTrue, tOr(alts...), "dynamic type")
			args := []Val{recv}
			for k := 0; k < sig.Params().Len(); k++ {
				v := ex.havocVal("arg."+sig.Params().At(k).Name(), sig.Params().At(k).Type())
				ex.factsDeep(tTrue, v, st)
				args = append(args, v)
			}
			return args
		}))
	}
	return out
}

func (e *Engine) verifyBody(c *Contract, unit string, fn *ssa.Function, sig *types.Signature, body func(*Exec, []Val, *State) ([]Val, *State, *Term), mkArgs func(*Exec, *State) []Val) (ex *Exec) {
	ex = newExec(e, unit)
	ex.contract = c
	ex.nodeFacts = c.opts["heapfacts"] != ""
	ex.allocFacts = ex.nodeFacts || c.opts["nonodes"] != ""
	ex.enum = e.enumNext
	e.curPkg = c.name[:strings.Index(c.name, ".")]
	defer func() {
		if r := recover(); r != nil {
			msg := ""
			switch r := r.(type) {
			case unsupported:
				msg = r.msg
			case evalError:
				msg = r.msg
			default:
				if e.debug {
					panic(r)
				}
				msg = fmt.Sprint(r)
			}
			ex.dry = 0
			ex.items = nil
			ex.goal(tTrue, tFalse, "unsupported", fmt.Sprintf("%s: outside the verifier's reach: %s", ex.posStr(), msg))
		}
	}()
	if sig == nil {
		ex.goal(tTrue, tFalse, "missing", "function "+c.name+" is not in the source")
		return ex
	}
	st := &State{h: map[string]*Term{}, ctr: mkVar("ctr0", SInt)}
	ex.st0 = st.clone()
	ex.assume(tTrue, tCmp("<", tInt(1000000), st.ctr), "ctr0")
	args := mkArgs(ex, st)
	en := ex.contractEnv(c, args, st)
	ex.env0 = en.vars
	for _, cl := range c.clauses {
		switch cl.kind {
		case "requires":
			ex.assume(tTrue, en.boolT(cl.e), "requires")
		case "decreases":
			ex.measure0 = append(ex.measure0, en.intT(cl.e))
		}
	}
	if fn != nil {
		ex.curPos = fn.Pos()
	}
	for _, cl := range c.clauses {
		if cl.kind == "use" {
			// lemma instances that only mention parameters hold at entry
			if t, ok := ex.tryEval(func() *Term { return ex.lemmaInst(cl.use, en) }); ok {
				ex.assume(tTrue, t, "lemma")
			}
		}
	}
	vals, out, reach := body(ex, args, st)
	if fn != nil {
		ex.curPos = fn.Pos()
	}
	e.curPkg = c.name[:strings.Index(c.name, ".")]
	ex.outReach = reach
	post := ex.contractEnv(c, args, out)
	post.old = ex.st0
	for i, v := range vals {
		if i < len(c.results) {
			if c.results[i].ty != "" && v.st == nil {
				v.typ = e.specTyp(c.results[i].ty)
			} else {
				v.typ = sig.Results().At(i).Type()
			}
			post.vars[c.results[i].name] = v
			ex.factsDeep(reach, Val{t: v.t, typ: sig.Results().At(i).Type(), st: v.st}, out)
		}
	}
	for _, cl := range c.clauses {
		if cl.kind == "use" {
			ex.assume(reach, ex.lemmaInst(cl.use, post), "lemma")
		}
		if cl.kind == "assert" {
			ex.goalConj(reach, post.boolT(cl.e), "assert", cl.src)
		}
	}
	for _, cl := range c.clauses {
		if cl.kind == "ensures" {
			l := cl.src
			if cl.label != "" {
				l = cl.label + ": " + l
			}
			ex.goalConj(reach, post.boolT(cl.e), "post", l)
		}
	}
	// frame
	if c.pure {
		c.mods = nil
	}
	locs := ex.modLocs(c, en)
	for _, h := range sortedKeys(out.h) {
		t := out.h[h]
		old := mkVar("H0!"+smtName(h), t.sort)
		if t == old {
			continue
		}
		var refs []*Term
		whole := false
		for _, l := range locs {
			if l.heap == h {
				if l.ref == nil {
					whole = true
				} else {
					refs = append(refs, l.ref)
				}
			}
		}
		if whole {
			if strings.HasPrefix(h, "M:") {
				ex.goal(reach, globalsKept(t, old), "frame", "the memory of package variables is not changed")
			}
			continue
		}
		if strings.HasPrefix(h, "V:") {
			if len(refs) == 0 {
				ex.goal(reach, tEq(t, old), "frame", "package variable "+h[2:]+" is not changed")
			}
			continue
		}
		if strings.HasPrefix(h, "C:$iter") {
			continue
		}
		q := ex.fresh("q", SInt)
		cs := []*Term{tCmp("<", tInt(0), q), tCmp("<", q, mkVar("ctr0", SInt))}
		for _, r := range refs {
			cs = append(cs, tNot(tEq(q, r)))
		}
		ex.goal(reach, tImp(tAnd(cs...), tEq(tSelect(t, q), tSelect(old, q))), "frame", "only the listed locations of "+h+" change")
	}
	if c.opts["nonodes"] != "" {
		ex.goal(reach, ex.noNodesIn(ex.fresh("q", SInt), out.ctr), "frame", "no node is allocated")
	}
	if c.pure || c.opts["noalloc"] != "" {
		ex.goal(reach, tEq(out.ctr, mkVar("ctr0", SInt)), "frame", "nothing is allocated")
	}
	return ex
}

// globalsKept: the arrays of package variables (below 1000000) are the same
func globalsKept(t, old *Term) *Term {
	q := mkBound("gq", SInt)
	return tQuant("forall", []*Term{q}, [][]*Term{{mk("select", elemSort(t.sort), t, q)}, {mk("select", elemSort(old.sort), old, q)}}, tImp(tAnd(tCmp("<", tInt(0), q), tCmp("<", q, tInt(1000000))), tEq(tSelect(t, q), tSelect(old, q))))
}

// goalConj splits a conjunction into separate obligations
func (ex *Exec) goalConj(reach, t *Term, kind, descr string) {
	if t.op == "and" && len(t.args) <= 24 {
		for _, a := range t.args {
			ex.goalConj(reach, a, kind, descr)
		}
		return
	}
	if t.op == "=>" && t.args[1].op == "and" && len(t.args[1].args) <= 24 {
		for _, a := range t.args[1].args {
			ex.goalConj(tAnd(reach, t.args[0]), a, kind, descr)
		}
		return
	}
	ex.goal(reach, t, kind, descr)
}

// ---------- lemmas

func (ex *Exec) lemmaInst(u *ECall, en *Env) *Term {
	l := ex.e.S.lemmas[u.fn]
	if l == nil {
		evalFail("unknown lemma %s", u.fn)
	}
	ex.usedLemmas = append(ex.usedLemmas, l.name)
	if len(u.args) != len(l.params) {
		evalFail("lemma %s takes %d arguments", l.name, len(l.params))
	}
	n := &Env{ex: ex, st: en.st, old: en.old, vars: map[string]Val{}, fuel: en.fuel}
	for i, p := range l.params {
		n.vars[p.name] = en.coerce(en.eval(u.args[i]), p.ty)
	}
	return n.lemmaBody(l)
}

func (n *Env) lemmaBody(l *Lemma) *Term {
	var req, ens []*Term
	for _, cl := range l.clauses {
		t := n.boolT(cl.e)
		if cl.kind == "requires" {
			req = append(req, t)
		} else {
			ens = append(ens, t)
		}
	}
	return tImp(tAnd(req...), tAnd(ens...))
}

// verifyLemma generates the obligations of a lemma.
func (e *Engine) verifyLemma(l *Lemma) (ex *Exec) {
	ex = newExec(e, "lemma "+l.name)
	ex.lemmaOrder = l.order
	e.curPkg = "helium"
	defer func() {
		if r := recover(); r != nil {
			msg := ""
			switch r := r.(type) {
			case unsupported:
				msg = r.msg
			case evalError:
				msg = r.msg
			default:
				panic(r)
			}
			ex.items = nil
			ex.goal(tTrue, tFalse, "unsupported", l.pos+": "+msg)
		}
	}()
	if l.isAxiom {
		e.assum["axiom "+l.name+": "+l.why] = true
		return ex
	}
	st := &State{h: map[string]*Term{}, ctr: mkVar("ctr0", SInt)}
	en := &Env{ex: ex, st: st, vars: map[string]Val{}}
	for _, p := range l.params {
		T := e.specTyp(p.ty)
		en.vars[p.name] = Val{t: ex.fresh("l!"+p.name, sortOf(T)), typ: T}
	}
	for _, cl := range l.clauses {
		if cl.kind == "requires" {
			ex.assume(tTrue, en.boolT(cl.e), "requires")
		}
	}
	var m0 *Term
	if l.dec != nil {
		m0 = en.intT(l.dec)
	}
	ih := func(n *Env) *Term {
		if m0 == nil {
			evalFail("induction without decreases")
		}
		m := n.intT(l.dec)
		return tImp(tAnd(tCmp("<=", tInt(0), m), tCmp("<", m, m0)), n.lemmaBody(l))
	}
	for _, c := range l.inducts {
		if c.fn != l.name && c.fn != "self" {
			evalFail("induct must name the lemma itself")
		}
		n := &Env{ex: ex, st: st, vars: map[string]Val{}}
		for i, p := range l.params {
			n.vars[p.name] = en.coerce(en.eval(c.args[i]), p.ty)
		}
		ex.assume(tTrue, ih(n), "induction")
	}
	if m0 != nil && len(l.inducts) == 0 && len(l.auto) > 0 {
		n := &Env{ex: ex, st: st, vars: map[string]Val{}}
		var bs []*Term
		for _, p := range l.params {
			T := e.specTyp(p.ty)
			b := mkBound("ih!"+p.name, sortOf(T))
			bs = append(bs, b)
			n.vars[p.name] = Val{t: b, typ: T}
		}
		var pats [][]*Term
		for _, ps := range l.auto {
			var ts []*Term
			for _, x := range ps {
				ts = append(ts, ex.term(n.eval(x)))
			}
			pats = append(pats, ts)
		}
		ex.assume(tTrue, tQuant("forall", bs, pats, ih(n)), "induction")
	}
	for _, u := range l.uses {
		if ul := e.S.lemmas[u.fn]; ul == nil || ul.order >= l.order {
			evalFail("lemma %s must be declared before %s", u.fn, l.name)
		}
		ex.assume(tTrue, ex.lemmaInst(u, en), "lemma")
	}
	for _, a := range l.asserts {
		ex.goal(tTrue, en.boolT(a), "assert", l.pos)
	}
	conds := []*Term{tTrue}
	for _, c := range l.cases {
		t := en.boolT(c)
		var n []*Term
		for _, x := range conds {
			n = append(n, tAnd(x, t), tAnd(x, tNot(t)))
		}
		conds = n
	}
	for _, cl := range l.clauses {
		if cl.kind == "ensures" {
			for _, c := range conds {
				ex.goalConj(c, en.boolT(cl.e), "lemma", cl.src)
			}
		}
	}
	return ex
}

// autoLemma is the quantified form of a lemma with triggers.
func (e *Engine) autoLemma(l *Lemma) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			if ee, ok := r.(evalError); ok {
				err = fmt.Errorf("%s: lemma %s: %s", l.pos, l.name, ee.msg)
				return
			}
			panic(r)
		}
	}()
	e.curPkg = "helium"
	ex := newExec(e, "auto "+l.name)
	st := &State{h: map[string]*Term{}, ctr: mkVar("ctr0", SInt), collect: &collector{heaps: map[string]Sort{}}}
	n := &Env{ex: ex, st: st, vars: map[string]Val{}}
	var bs []*Term
	for _, p := range l.params {
		T := e.specTyp(p.ty)
		b := mkBound("al!"+p.name, sortOf(T))
		bs = append(bs, b)
		n.vars[p.name] = Val{t: b, typ: T}
	}
	body := n.lemmaBody(l)
	var pats [][]*Term
	for _, ps := range l.auto {
		var ts []*Term
		for _, x := range ps {
			ts = append(ts, ex.term(n.eval(x)))
		}
		pats = append(pats, ts)
	}
	for _, h := range sortedKeys(st.collect.heaps) {
		bs = append(bs, ex.get(st, h, st.collect.heaps[h]))
	}
	return tQuant("forall", bs, pats, body), nil
}
