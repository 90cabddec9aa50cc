package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type evalError struct{ msg string }

func (e evalError) Error() string { return e.msg }
func evalFail(f string, a ...interface{}) Val {
	panic(evalError{fmt.Sprintf(f, a...)})
}

// Env is the environment of a specification expression.
type Env struct {
	ex    *Exec
	vars  map[string]Val
	st    *State
	old   *State
	pre   *Env // loop entry
	look  func(name string) (Val, bool)
	fuel  *Term
	depth int
	cur   *SpecFn
}

func (en *Env) with(name string, v Val) *Env {
	n := *en
	n.vars = map[string]Val{}
	for k, x := range en.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}

func (e *Engine) specTyp(s string) types.Type {
	switch s {
	case "int", "rune", "byte", "ref":
		if s == "ref" {
			return specType{SInt}
		}
		return tyInt
	case "bool":
		return tyBool
	case "string", "seq":
		return tyString
	case "seqf":
		return tySeqF
	case "seqs":
		return tySeqS
	case "iface", "any":
		return tyIface
	case "error":
		return types.Universe.Lookup("error").Type()
	case "slice":
		return specType{SSlice}
	}
	if strings.HasPrefix(s, "*") {
		return types.NewPointer(e.specTyp(s[1:]))
	}
	if strings.HasPrefix(s, "[]") {
		if s == "[]byte" {
			return types.NewSlice(types.Typ[types.Uint8])
		}
		return types.NewSlice(e.specTyp(s[2:]))
	}
	if strings.HasPrefix(s, "map[") {
		i := strings.Index(s, "]")
		return types.NewMap(e.specTyp(s[4:i]), e.specTyp(s[i+1:]))
	}
	t := e.lookupType(s)
	if t == nil {
		evalFail("unknown type %q", s)
	}
	return t
}

func isSeqSort(s Sort) bool { return s == SSeq || s == SSeqF || s == SSeqS || s == SSeqB }

// asSeq: view slices as sequences
func (en *Env) asSeq(v Val) Val {
	if v.t != nil && isSeqSort(v.t.sort) {
		return v
	}
	if v.isNil {
		return Val{t: seqEmpty(SSeq), typ: tyString}
	}
	if v.t != nil && v.t.sort == SSlice {
		sl, ok := under(v.typ).(*types.Slice)
		if !ok {
			evalFail("no element type for slice")
		}
		var t *Term
		if isStruct(sl.Elem()) {
			evalFail("slice of structs has no sequence view")
		}
		t = en.ex.view(en.st, v.t, sl.Elem())
		ty := types.Type(tyString)
		switch t.sort {
		case SSeqF:
			ty = tySeqF
		case SSeqS:
			ty = tySeqS
		case SSeqB:
			ty = tySeqB
		}
		return Val{t: t, typ: ty}
	}
	evalFail("not a sequence: %v", v.typ)
	return Val{}
}

func (en *Env) isSeqLike(v Val) bool {
	return v.t != nil && (isSeqSort(v.t.sort) || v.t.sort == SSlice)
}

func (en *Env) boolT(e Expr) *Term {
	v := en.eval(e)
	if v.t == nil || v.t.sort != SBool {
		evalFail("not a boolean expression")
	}
	return v.t
}

func (en *Env) intT(e Expr) *Term {
	v := en.eval(e)
	if v.t == nil || v.t.sort != SInt {
		evalFail("not an integer expression")
	}
	return v.t
}

func (en *Env) lookup(name string) (Val, bool) {
	if v, ok := en.vars[name]; ok {
		return v, true
	}
	if en.look != nil {
		if v, ok := en.look(name); ok {
			return v, true
		}
	}
	switch name {
	case "true":
		return Val{t: tTrue, typ: tyBool}, true
	case "false":
		return Val{t: tFalse, typ: tyBool}, true
	case "nil":
		return Val{isNil: true}, true
	case "empty":
		return Val{t: seqEmpty(SSeq), typ: tyString}, true
	case "emptyf":
		return Val{t: seqEmpty(SSeqF), typ: tySeqF}, true
	case "emptys":
		return Val{t: seqEmpty(SSeqS), typ: tySeqS}, true
	}
	return en.pkgMember(en.ex.e.curPkg, name)
}

func (en *Env) pkgMember(pk, name string) (Val, bool) {
	e := en.ex.e
	if pk == "" {
		pk = "helium"
	}
	for path, p := range e.P.pkgs {
		if shortPkg(path) != pk {
			continue
		}
		switch m := p.Members[name].(type) {
		case *ssa.NamedConst:
			v := en.ex.constVal(m.Value)
			if _, ok := under(v.typ).(*types.Basic); ok && v.t.sort == SInt {
				return v, true
			}
			return v, true
		case *ssa.Global:
			a := en.ex.globalAddr(m)
			if a.addr == nil {
				return a, true
			}
			if strings.HasPrefix(a.addr.heap, "K:") {
				return Val{t: mkVar("H0!"+smtName(a.addr.heap), a.addr.hsort), typ: a.addr.typ}, true
			}
			return en.ex.load(en.st, a.addr), true
		}
	}
	// constants and variables of dependencies
	for _, p := range e.P.pkgs {
		for _, imp := range p.Pkg.Imports() {
			if shortPkg(imp.Path()) != pk {
				continue
			}
			switch o := imp.Scope().Lookup(name).(type) {
			case *types.Const:
				switch sortOf(o.Type()) {
				case SInt:
					n, _ := constant.Int64Val(constant.ToInt(o.Val()))
					return Val{t: tInt(n), typ: o.Type()}, true
				case SSeq:
					return Val{t: qLit(constant.StringVal(o.Val())), typ: o.Type()}, true
				}
			case *types.Var:
				if sp := e.P.prog.Package(imp); sp != nil {
					if g, ok := sp.Members[name].(*ssa.Global); ok {
						a := en.ex.globalAddr(g)
						if a.addr != nil && strings.HasPrefix(a.addr.heap, "K:") {
							return Val{t: mkVar("H0!"+smtName(a.addr.heap), a.addr.hsort), typ: a.addr.typ}, true
						}
						return a, true
					}
				}
			}
		}
	}
	return Val{}, false
}

func (en *Env) eval(e Expr) Val {
	ex := en.ex
	switch e := e.(type) {
	case *EInt:
		return Val{t: tInt(e.v), typ: tyInt}
	case *EStr:
		return Val{t: qLit(e.v), typ: tyString}
	case *EIdent:
		v, ok := en.lookup(e.name)
		if !ok {
			return evalFail("unknown name %s", e.name)
		}
		if v.addr != nil && v.t == nil {
			if v.addr.kind == "cell" {
				// a pointer value
				return v
			}
		}
		return v
	case *EUn:
		switch e.op {
		case "!":
			return Val{t: tNot(en.boolT(e.x)), typ: tyBool}
		case "-":
			return Val{t: tSub(tInt(0), en.intT(e.x)), typ: tyInt}
		case "*":
			p := en.eval(e.x)
			if p.addr != nil {
				return en.loaded(ex.load(en.st, p.addr))
			}
			pt, ok := under(p.typ).(*types.Pointer)
			if !ok {
				return evalFail("dereference of non-pointer")
			}
			if isStruct(pt.Elem()) {
				return ex.loadStruct(en.st, pt.Elem(), p.t)
			}
			return en.loaded(ex.load(en.st, ex.addrOf(p, pt.Elem())))
		}
	case *EBin:
		return en.bin(e)
	case *ECond:
		c := en.boolT(e.c)
		a, b := en.eval(e.a), en.eval(e.b)
		a, b = en.unify(a, b)
		if a.st != nil {
			return ex.mergeVals("spec", []*Term{c, tNot(c)}, []Val{a, b})
		}
		return Val{t: tIte(c, ex.term(a), ex.term(b)), typ: a.typ}
	case *ELet:
		return en.with(e.name, en.eval(e.e)).eval(e.b)
	case *EOld:
		if en.old == nil {
			return evalFail("old() is not available here")
		}
		n := *en
		n.st = en.old
		return n.eval(e.x)
	case *EIs:
		v := en.eval(e.x)
		T := ex.e.specTyp(e.ty)
		if isIface(T) {
			return Val{t: ex.implementsTerm(v.t, v.typ, T), typ: tyBool}
		}
		return Val{t: tEq(iTag(ex.term(v)), ex.e.tag(T)), typ: tyBool}
	case *ECast:
		v := en.eval(e.x)
		T := ex.e.specTyp(e.ty)
		if v.t != nil && v.t.sort == SIface && !isIface(T) {
			return ex.fromIface(v.t, T)
		}
		v.typ = T
		return v
	case *EField:
		if id, ok := e.x.(*EIdent); ok {
			if _, known := en.lookup(id.name); !known {
				if v, ok := en.pkgMember(id.name, e.f); ok {
					return v
				}
			}
		}
		return en.field(en.eval(e.x), e.f)
	case *EIndex:
		x := en.eval(e.x)
		if x.typ != nil {
			if mt, ok := under(x.typ).(*types.Map); ok {
				k := en.eval(e.i)
				mh := ex.mapHeaps(mt)
				dom := ex.hload(en.st, mh.dom, mh.domS, x.t)
				in := selectK(dom, ex.term(k), SBool)
				val := ex.hload(en.st, mh.val, mh.valS, x.t)
				z := ex.zero(mt.Elem())
				return Val{t: tIte(tAnd(tNot(tEq(x.t, tInt(0))), in), selectK(val, ex.term(k), sortOf(mt.Elem())), z.t), typ: mt.Elem()}
			}
			if sl, ok := under(x.typ).(*types.Slice); ok && x.t.sort == SSlice {
				i := en.intT(e.i)
				if isStruct(sl.Elem()) {
					r := ex.e.uf("elemref", SInt, slArr(x.t), tAdd(slOff(x.t), i))
					return Val{t: r, typ: types.NewPointer(sl.Elem())}
				}
				s := sortOf(sl.Elem())
				m := ex.hload(en.st, memHeap(sl.Elem()), seqOf(s), slArr(x.t))
				return Val{t: seqAt(m, tAdd(slOff(x.t), i)), typ: sl.Elem()}
			}
		}
		s := en.asSeq(x)
		t := seqAt(s.t, en.intT(e.i))
		return Val{t: t, typ: seqElemType(s.t.sort)}
	case *ESlice:
		x := en.eval(e.x)
		s := en.asSeq(x)
		lo, hi := tInt(0), seqLen(s.t)
		if e.lo != nil {
			lo = en.intT(e.lo)
		}
		if e.hi != nil {
			hi = en.intT(e.hi)
		}
		return Val{t: seqSub(s.t, lo, hi), typ: s.typ}
	case *EQuant:
		n := en
		var vs []*Term
		for _, p := range e.vars {
			T := ex.e.specTyp(p.ty)
			quantCnt++
			b := mkBound(fmt.Sprintf("%s?%d", p.name, quantCnt), sortOf(T))
			vs = append(vs, b)
			n = n.with(p.name, Val{t: b, typ: T})
		}
		body := n.boolT(e.body)
		var pats [][]*Term
		for _, ps := range e.pats {
			var ts []*Term
			for _, x := range ps {
				v := n.eval(x)
				if v.t != nil && v.t.sort == SSlice {
					v = n.asSeq(v)
				}
				ts = append(ts, ex.term(v))
			}
			pats = append(pats, ts)
		}
		return Val{t: tQuant(e.kind, vs, pats, body), typ: tyBool}
	case *ECall:
		return en.call(e)
	}
	return evalFail("cannot evaluate %T", e)
}

func seqElemType(s Sort) types.Type {
	switch s {
	case SSeq:
		return tyInt
	case SSeqF:
		return tyIface
	case SSeqB:
		return tyBool
	}
	return tyString
}

// loaded: a value read from the heap at entry is a proper value of its type.
func (en *Env) loaded(v Val) Val {
	ex := en.ex
	if v.t == nil || v.typ == nil || en.cur != nil || en.st == nil || en.st.collect != nil || ex.st0 == nil {
		return v
	}
	if v.t.op != "select" || !v.t.args[0].isVar || !strings.HasPrefix(v.t.args[0].op, "H0!") || ex.loadDone[v.t] {
		return v
	}
	closed := true
	v.t.walk(func(t *Term) bool {
		if t.bound || quants[t] != nil {
			closed = false
		}
		return closed
	}, map[*Term]bool{})
	if !closed {
		return v
	}
	if ex.dry == 0 {
		if ex.loadDone == nil {
			ex.loadDone = map[*Term]bool{}
		}
		ex.loadDone[v.t] = true
	}
	ex.fact(tTrue, v, ex.st0)
	return v
}

func (en *Env) unify(a, b Val) (Val, Val) {
	if a.isNil && b.isNil {
		return a, b
	}
	if a.isNil {
		return en.nilOf(b), b
	}
	if b.isNil {
		return a, en.nilOf(a)
	}
	if a.st != nil || b.st != nil {
		return a, b
	}
	if a.t != nil && b.t != nil && a.t.sort != b.t.sort {
		if en.isSeqLike(a) && en.isSeqLike(b) {
			return en.asSeq(a), en.asSeq(b)
		}
		// pointer vs interface
		if a.t.sort == SIface && b.t.sort == SInt && isPtr(b.typ) {
			return a, Val{t: en.ex.makeIface(b, b.typ), typ: a.typ}
		}
		if b.t.sort == SIface && a.t.sort == SInt && isPtr(a.typ) {
			return Val{t: en.ex.makeIface(a, a.typ), typ: b.typ}, b
		}
		evalFail("sorts differ: %s and %s", a.t.sort, b.t.sort)
	}
	return a, b
}

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := under(t).(*types.Pointer)
	return ok
}

func (en *Env) nilOf(v Val) Val {
	if v.t == nil && v.addr != nil {
		return Val{t: tInt(0), typ: v.typ}
	}
	switch v.t.sort {
	case SInt:
		return Val{t: tInt(0), typ: v.typ}
	case SIface:
		return Val{t: nilIface, typ: v.typ}
	case SSlice:
		return Val{t: nilSlice, typ: v.typ}
	}
	return Val{t: seqEmpty(v.t.sort), typ: v.typ}
}

func (en *Env) bin(e *EBin) Val {
	ex := en.ex
	switch e.op {
	case "&&":
		return Val{t: tAnd(en.boolT(e.l), en.boolT(e.r)), typ: tyBool}
	case "||":
		return Val{t: tOr(en.boolT(e.l), en.boolT(e.r)), typ: tyBool}
	case "==>":
		return Val{t: tImp(en.boolT(e.l), en.boolT(e.r)), typ: tyBool}
	case "<==>":
		return Val{t: tEq(en.boolT(e.l), en.boolT(e.r)), typ: tyBool}
	case "==", "!=":
		a, b := en.eval(e.l), en.eval(e.r)
		var t *Term
		switch {
		case a.isNil && b.isNil:
			t = tTrue
		case a.isNil || b.isNil:
			if a.isNil {
				a, b = b, a
			}
			if a.t != nil && a.t.sort == SSlice {
				t = tEq(slArr(a.t), tInt(0))
			} else if a.t != nil && a.t.sort == SIface {
				t = tEq(iTag(a.t), tInt(0))
			} else if a.clo != nil {
				t = tFalse
			} else if a.addr != nil && a.addr.kind != "cell" {
				t = tFalse
			} else {
				t = tEq(ex.term(a), tInt(0))
			}
		case (a.st != nil) != (b.st != nil) && (a.t != nil && a.t.sort == SIface || b.t != nil && b.t.sort == SIface):
			if a.st != nil {
				a, b = b, a
			}
			t = tEq(a.t, ex.makeIface(b, b.typ))
		case a.st != nil || b.st != nil:
			fa, fb := flatten(ex, a), flatten(ex, b)
			var cs []*Term
			for i := range fa {
				cs = append(cs, tEq(fa[i], fb[i]))
			}
			t = tAnd(cs...)
		default:
			a, b = en.unify(a, b)
			t = tEq(ex.term(a), ex.term(b))
		}
		if e.op == "!=" {
			t = tNot(t)
		}
		return Val{t: t, typ: tyBool}
	case "<", "<=", ">", ">=":
		return Val{t: tCmp(e.op, en.intT(e.l), en.intT(e.r)), typ: tyBool}
	case "++":
		a, b := en.asSeq(en.eval(e.l)), en.asSeq(en.eval(e.r))
		if a.t.sort != b.t.sort {
			evalFail("++ of different sequences")
		}
		return Val{t: seqCat(a.t, b.t), typ: a.typ}
	case "+":
		return Val{t: tAdd(en.intT(e.l), en.intT(e.r)), typ: tyInt}
	case "-":
		return Val{t: tSub(en.intT(e.l), en.intT(e.r)), typ: tyInt}
	case "*":
		return Val{t: tMul(en.intT(e.l), en.intT(e.r)), typ: tyInt}
	case "/":
		return Val{t: mk("div", SInt, en.intT(e.l), en.intT(e.r)), typ: tyInt}
	case "%":
		return Val{t: mk("mod", SInt, en.intT(e.l), en.intT(e.r)), typ: tyInt}
	}
	return evalFail("operator %s", e.op)
}

// field selects a field of a struct, a pointer, or an interface with a base struct.
func (en *Env) field(x Val, f string) Val {
	ex := en.ex
	if x.typ == nil {
		return evalFail("selecting .%s from an untyped value", f)
	}
	T := x.typ
	if isIface(T) {
		n, ok := T.(*types.Named)
		if !ok {
			return evalFail("field %s of interface", f)
		}
		b, ok := ex.e.S.bases[shortPkg(n.Obj().Pkg().Path())+"."+n.Obj().Name()]
		if !ok {
			return evalFail("field %s of interface %s without a base", f, tkey(T))
		}
		bt := ex.e.lookupType(b)
		return en.field(Val{t: iVal(x.t), typ: types.NewPointer(bt)}, f)
	}
	var pkg *types.Package
	if n := namedOf(T); n != nil {
		pkg = n.Obj().Pkg()
	}
	obj, idx, _ := types.LookupFieldOrMethod(T, true, pkg, f)
	if v, ok := obj.(*types.Var); !ok || v == nil {
		return evalFail("no field %s in %s", f, tkey(T))
	}
	for _, i := range idx {
		if p, ok := under(x.typ).(*types.Pointer); ok {
			x = en.loaded(ex.loadField(en.st, p.Elem(), i, ex.term(x)))
		} else if x.st != nil {
			x = x.st.field(i)
		} else {
			return evalFail("field %s", f)
		}
	}
	return x
}

func namedOf(T types.Type) *types.Named {
	if p, ok := under(T).(*types.Pointer); ok {
		if _, isN := T.(*types.Named); !isN {
			T = p.Elem()
		}
	}
	n, _ := T.(*types.Named)
	return n
}

func (en *Env) refOf(v Val) *Term {
	if v.t != nil {
		switch v.t.sort {
		case SInt:
			return v.t
		case SIface:
			return iVal(v.t)
		case SSlice:
			return slArr(v.t)
		}
	}
	return en.ex.term(v)
}

func (en *Env) call(e *ECall) Val {
	ex := en.ex
	arg := func(i int) Val {
		if i >= len(e.args) {
			evalFail("%s: missing argument", e.fn)
		}
		return en.eval(e.args[i])
	}
	switch e.fn {
	case "len":
		v := arg(0)
		if v.typ != nil {
			if mt, ok := under(v.typ).(*types.Map); ok {
				return Val{t: tIte(tEq(v.t, tInt(0)), tInt(0), ex.hload(en.st, ex.mapHeaps(mt).ln, SInt, v.t)), typ: tyInt}
			}
		}
		if v.t.sort == SSlice {
			return Val{t: slLen(v.t), typ: tyInt}
		}
		return Val{t: seqLen(v.t), typ: tyInt}
	case "cap":
		return Val{t: slCap(arg(0).t), typ: tyInt}
	case "off":
		return Val{t: slOff(arg(0).t), typ: tyInt}
	case "arr":
		return Val{t: slArr(arg(0).t), typ: specType{SInt}}
	case "view":
		return en.asSeq(arg(0))
	case "memof":
		v := arg(0)
		el := under(v.typ).(*types.Slice).Elem()
		return Val{t: ex.hload(en.st, memHeap(el), seqOf(sortOf(el)), slArr(v.t)), typ: tyString}
	case "ref":
		return Val{t: en.refOf(arg(0)), typ: specType{SInt}}
	case "unit":
		v := arg(0)
		t := seqUnit(ex.term(v))
		return Val{t: t, typ: seqTy(t.sort)}
	case "upd":
		s := en.asSeq(arg(0))
		return Val{t: seqUpd(s.t, arg(1).t, arg(2).t), typ: s.typ}
	case "enc":
		return Val{t: encTerm(arg(0).t), typ: tyString}
	case "dr":
		return Val{t: mk("dr", SInt, en.asSeq(arg(0)).t), typ: tyInt}
	case "dw":
		return Val{t: mk("dw", SInt, en.asSeq(arg(0)).t), typ: tyInt}
	case "validrune":
		return Val{t: mk("validrune", SBool, arg(0).t), typ: tyBool}
	case "fresh":
		r := en.refOf(arg(0))
		if en.old == nil {
			return evalFail("fresh without old")
		}
		return Val{t: tAnd(tCmp("<=", en.old.ctr, r), tCmp("<", r, en.st.ctr)), typ: tyBool}
	case "allocated":
		r := en.refOf(arg(0))
		return Val{t: tAnd(tCmp("<", tInt(0), r), tCmp("<", r, en.st.ctr)), typ: tyBool}
	case "isa":
		// an object that exists, of a dynamic type that implements the closed-world interface
		r := en.refOf(arg(0))
		lo, hi := ex.e.tagRange(ex.e.specTyp(e.args[1].(*EStr).v))
		d := mk("dyn", SInt, r)
		return Val{t: tAnd(tCmp("<", tInt(0), r), tCmp("<", r, en.st.ctr), tCmp("<=", tInt(lo), d), tCmp("<=", d, tInt(hi))), typ: tyBool}
	case "isdyn":
		lo, hi := ex.e.tagRange(ex.e.specTyp(e.args[1].(*EStr).v))
		d := mk("dyn", SInt, en.refOf(arg(0)))
		return Val{t: tAnd(tCmp("<=", tInt(lo), d), tCmp("<=", d, tInt(hi))), typ: tyBool}
	case "bound":
		return Val{t: en.st.ctr, typ: tyInt}
	case "dyn":
		return Val{t: mk("dyn", SInt, en.refOf(arg(0))), typ: tyInt}
	case "tag":
		v := arg(0)
		return Val{t: iTag(v.t), typ: tyInt}
	case "tagof":
		id, ok := e.args[0].(*EStr)
		if !ok {
			return evalFail("tagof needs a type string")
		}
		return Val{t: ex.e.tag(ex.e.specTyp(id.v)), typ: tyInt}
	case "mkiface":
		return Val{t: mkIface(arg(0).t, en.refOf(arg(1))), typ: tyIface}
	case "as":
		id := e.args[1].(*EStr)
		v := arg(0)
		T := ex.e.specTyp(id.v)
		if isIface(T) && v.t != nil && v.t.sort != SIface {
			return Val{t: ex.makeIface(v, v.typ), typ: T}
		}
		if !isIface(T) && v.t.sort == SIface {
			return Val{t: iVal(v.t), typ: T}
		}
		return Val{t: v.t, typ: T}
	case "in":
		m := arg(0)
		mt, ok := under(m.typ).(*types.Map)
		if !ok {
			return evalFail("in: not a map")
		}
		mh := ex.mapHeaps(mt)
		return Val{t: tAnd(tNot(tEq(m.t, tInt(0))), selectK(ex.hload(en.st, mh.dom, mh.domS, m.t), ex.term(arg(1)), SBool)), typ: tyBool}
	case "mdom", "mval":
		// the bare lookups, for triggers
		m := arg(0)
		mt, ok := under(m.typ).(*types.Map)
		if !ok {
			return evalFail("%s: not a map", e.fn)
		}
		mh := ex.mapHeaps(mt)
		if e.fn == "mdom" {
			return Val{t: selectK(ex.hload(en.st, mh.dom, mh.domS, m.t), ex.term(arg(1)), SBool), typ: tyBool}
		}
		return Val{t: selectK(ex.hload(en.st, mh.val, mh.valS, m.t), ex.term(arg(1)), sortOf(mt.Elem())), typ: mt.Elem()}
	case "bit":
		ex.declBits()
		return Val{t: mk("bit", SBool, arg(0).t, arg(1).t), typ: tyBool}
	case "bitwit":
		ex.declBits()
		return Val{t: mk("bitwit", SInt, arg(0).t), typ: tyInt}
	case "band", "bor", "bxor":
		return Val{t: ex.bits(e.fn, arg(0).t, arg(1).t), typ: tyInt}
	case "disjointconsts":
		// all package-level constants of an integer type: non-zero and pairwise without a common bit
		T := ex.e.specTyp(e.args[0].(*EStr).v)
		var cs []*Term
		n := T.(*types.Named)
		sc := n.Obj().Pkg().Scope()
		for _, nm := range sc.Names() {
			if c, ok := sc.Lookup(nm).(*types.Const); ok && types.Identical(c.Type(), T) {
				v, _ := constant.Int64Val(constant.ToInt(c.Val()))
				cs = append(cs, tInt(v))
			}
		}
		t := tBool(len(cs) > 0)
		for i, a := range cs {
			t = tAnd(t, tNot(tEq(a, tInt(0))))
			for _, b := range cs[:i] {
				t = tAnd(t, tEq(ex.bits("band", a, b), tInt(0)))
			}
		}
		return Val{t: t, typ: tyBool}
	case "closed":
		// the static function called through a function value
		return Val{t: tBool(arg(0).clo != nil), typ: tyBool}
	case "pre":
		if en.pre == nil {
			return evalFail("pre() outside a loop invariant")
		}
		n := *en.pre
		n.vars = en.vars
		for k, v := range en.pre.vars {
			if _, ok := n.vars[k]; !ok {
				n.vars[k] = v
			}
		}
		return n.eval(e.args[0])
	}
	if g, ok := ex.e.S.ghosts[e.fn]; ok {
		h, s := ex.ghostHeap(e.fn)
		r := en.refOf(arg(0))
		_ = g
		return Val{t: ex.hload(en.st, h, s, r), typ: sortTy(s)}
	}
	f := ex.e.S.fns[e.fn]
	if f == nil {
		return evalFail("unknown function %s", e.fn)
	}
	if len(e.args) != len(f.params) {
		return evalFail("%s takes %d arguments", e.fn, len(f.params))
	}
	var args []Val
	for i := range e.args {
		args = append(args, en.coerce(arg(i), f.params[i].ty))
	}
	if f.macro {
		if t := overLiteral(f.name, args); t != nil {
			return Val{t: t, typ: tyBool}
		}
		if en.depth > 40 {
			return evalFail("macro recursion in %s", f.name)
		}
		n := &Env{ex: ex, st: en.st, old: en.old, vars: map[string]Val{}, depth: en.depth + 1, fuel: en.fuel, cur: en.cur}
		for i, p := range f.params {
			n.vars[p.name] = args[i]
		}
		v := n.eval(f.body)
		return v
	}
	var ts []*Term
	for _, a := range args {
		ts = append(ts, ex.term(a))
	}
	return Val{t: en.apply(f, ts), typ: ex.e.specTyp(f.ret)}
}

// overLiteral: begins(t, p) and ascii(p) for a literal p, without the quantifier
func overLiteral(name string, args []Val) *Term {
	if name != "begins" && name != "ascii" {
		return nil
	}
	p := args[len(args)-1].t
	if p == nil {
		return nil
	}
	n, ok := seqLen(p).intVal()
	if !ok || n > 32 {
		return nil
	}
	cs := []*Term{}
	if name == "begins" {
		cs = append(cs, tCmp(">=", seqLen(args[0].t), tInt(n)))
	}
	for i := int64(0); i < n; i++ {
		c := seqAt(p, tInt(i))
		if _, ok := c.intVal(); !ok {
			return nil
		}
		if name == "begins" {
			cs = append(cs, tEq(seqAt(args[0].t, tInt(i)), c))
		} else {
			cs = append(cs, tCmp("<", tInt(0), c), tCmp("<", c, tInt(128)))
		}
	}
	return tAnd(cs...)
}

func seqTy(s Sort) types.Type {
	switch s {
	case SSeqF:
		return tySeqF
	case SSeqS:
		return tySeqS
	case SSeqB:
		return tySeqB
	}
	return tyString
}

func sortTy(s Sort) types.Type {
	switch s {
	case SInt:
		return tyInt
	case SBool:
		return tyBool
	case SSeq, SSeqF, SSeqS, SSeqB:
		return seqTy(s)
	case SIface:
		return tyIface
	}
	return specType{s}
}

// coerce an argument to the declared spec type
func (en *Env) coerce(v Val, ty string) Val {
	if ty == "" || ty == "any" {
		return v
	}
	T := en.ex.e.specTyp(ty)
	if _, ok := T.(specType); ok && ty == "ref" {
		return Val{t: en.refOf(v), typ: T}
	}
	if v.isNil {
		z := en.ex.zero(T)
		return z
	}
	if v.st != nil && isStruct(T) {
		return v
	}
	s := sortOf(T)
	if isSeqSort(s) && v.t != nil && v.t.sort == SSlice {
		return en.asSeq(v)
	}
	if v.t == nil {
		return v
	}
	if v.t.sort != s {
		if s == SIface && isPtr(v.typ) {
			return Val{t: en.ex.makeIface(v, v.typ), typ: T}
		}
		if s == SInt && isPtr(T) && v.t.sort == SIface && v.typ != nil && en.ex.e.isClosed(v.typ) {
			return Val{t: iVal(v.t), typ: T}
		}
		evalFail("argument of type %v where %s is expected", v.typ, ty)
	}
	if s == SIface && v.typ != nil && ty == "iface" {
		return v
	}
	return Val{t: v.t, typ: T, clo: v.clo, addr: v.addr}
}

// ---------- spec functions

const SFuel Sort = "Fuel"

var fuelZ = mkVar("FZ", SFuel)

func fuelS(t *Term) *Term { return mk("FS", SFuel, t) }

func (en *Env) apply(f *SpecFn, args []*Term) *Term {
	var all []*Term
	if f.rec {
		fu := en.fuel
		if fu == nil {
			fu = fuelS(fuelS(fuelZ))
		}
		all = append(all, fu)
	}
	if en.cur != nil {
		en.cur.callees[f.name] = true
	}
	for _, h := range f.heaps {
		all = append(all, en.ex.get(en.st, h, f.hsorts[h]))
	}
	all = append(all, args...)
	return en.ex.e.uf(f.name, sortOf(en.ex.e.specTyp(f.ret)), all...)
}

// prepare computes heap parameters, recursion and definitional axioms.
func (e *Engine) prepareSpecs() error {
	ex := newExec(e, "spec")
	e.curPkg = "helium"
	body := func(f *SpecFn, fuel *Term) (t *Term, st *State, params []*Term, err error) {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case evalError:
					err = fmt.Errorf("%s: spec %s: %s", f.pos, f.name, r.msg)
				case unsupported:
					err = fmt.Errorf("%s: spec %s: %s", f.pos, f.name, r.msg)
				default:
					panic(r)
				}
			}
		}()
		st = &State{h: map[string]*Term{}, ctr: mkVar("ctr0", SInt), collect: &collector{heaps: map[string]Sort{}}}
		en := &Env{ex: ex, st: st, vars: map[string]Val{}, fuel: fuel, cur: f}
		for _, p := range f.params {
			T := e.specTyp(p.ty)
			b := mkBound("a!"+p.name, sortOf(T))
			params = append(params, b)
			en.vars[p.name] = Val{t: b, typ: T}
		}
		v := en.coerce(en.eval(f.body), f.ret)
		t = ex.term(v)
		return
	}
	for _, f := range e.S.fnList {
		f.hsorts = map[string]Sort{}
		f.callees = map[string]bool{}
	}
	for round := 0; ; round++ {
		changed := false
		for _, f := range e.S.fnList {
			if f.macro || f.abs {
				continue
			}
			_, st, _, err := body(f, nil)
			if err != nil {
				return err
			}
			for h, s := range st.collect.heaps {
				if _, ok := f.hsorts[h]; !ok {
					f.hsorts[h] = s
					changed = true
				}
			}
			f.heaps = sortedKeys(f.hsorts)
		}
		// clear declarations made with incomplete heap lists
		for _, f := range e.S.fnList {
			delete(e.decls, f.name)
		}
		if !changed {
			break
		}
	}
	// recursion: reachability
	for _, f := range e.S.fnList {
		seen := map[string]bool{}
		var rec func(n string)
		rec = func(n string) {
			if seen[n] {
				return
			}
			seen[n] = true
			for c := range e.S.fns[n].callees {
				rec(c)
			}
		}
		for c := range f.callees {
			rec(c)
		}
		f.rec = seen[f.name]
	}
	e.specAx = map[string][]string{}
	e.specDef = map[string]*specDef{}
	for _, f := range e.S.fnList {
		if f.macro || f.abs {
			if f.abs {
				var ps []*Term
				for _, p := range f.params {
					ps = append(ps, mkBound("a!"+p.name, sortOf(e.specTyp(p.ty))))
				}
				e.uf(f.name, sortOf(e.specTyp(f.ret)), ps...)
			}
			continue
		}
		fu := mkBound("fu", SFuel)
		bf := fu
		if !f.rec {
			bf = nil
		}
		t, st, params, err := body(f, bf)
		if err != nil {
			return err
		}
		var vars []*Term
		var heads []*Term
		if f.rec {
			vars = append(vars, fu)
			heads = append(heads, fuelS(fu))
		}
		var hp []*Term
		for _, h := range f.heaps {
			b := ex.get(st, h, f.hsorts[h])
			hp = append(hp, b)
		}
		vars = append(vars, hp...)
		vars = append(vars, params...)
		heads = append(heads, hp...)
		heads = append(heads, params...)
		ret := sortOf(e.specTyp(f.ret))
		app := e.uf(f.name, ret, heads...)
		d := &specDef{f: f, body: t, params: params, heaps: hp, app: app, vars: vars}
		e.specDef[f.name] = d
		mkAx := func(rhs *Term) *Term {
			if len(vars) == 0 {
				return tEq(app, rhs)
			}
			return tQuant("forall", vars, [][]*Term{{app}}, tEq(app, rhs))
		}
		d.ax = append(d.ax, mkAx(t))
		if f.rec {
			low := append([]*Term{fu}, heads[1:]...)
			d.ax = append(d.ax, mkAx(e.uf(f.name, ret, low...)))
		}
	}
	return nil
}

type specDef struct {
	f      *SpecFn
	body   *Term
	params []*Term
	heaps  []*Term
	app    *Term
	vars   []*Term
	ax     []*Term
}

// specObligations: recursive definitions are well-founded.
func (e *Engine) specObligations(names map[string]bool) []*Exec {
	var out []*Exec
	for _, f := range e.S.fnList {
		d := e.specDef[f.name]
		if d == nil || !f.rec || names != nil && !names[f.name] {
			continue
		}
		ex := newExec(e, "spec "+f.name)
		if f.dec == nil {
			ex.goal(tTrue, tFalse, "wellfounded", "recursive spec function "+f.name+" has no measure")
			out = append(out, ex)
			continue
		}
		meas := func(g *SpecFn, hp, params []*Term) *Term {
			st := &State{h: map[string]*Term{}, ctr: mkVar("ctr0", SInt)}
			for i, h := range g.heaps {
				st.h[h] = hp[i]
			}
			en := &Env{ex: ex, st: st, vars: map[string]Val{}}
			for i, p := range g.params {
				en.vars[p.name] = Val{t: params[i], typ: e.specTyp(p.ty)}
			}
			return en.intT(g.dec)
		}
		// replace bound parameters by constants
		m := map[*Term]*Term{}
		conc := func(ts []*Term) []*Term {
			var o []*Term
			for _, t := range ts {
				c := ex.fresh("p!"+t.op, t.sort)
				m[t] = c
				o = append(o, c)
			}
			return o
		}
		hp := conc(d.heaps)
		ps := conc(d.params)
		m[mkBound("fu", SFuel)] = ex.fresh("fu", SFuel)
		body := subst(d.body, m)
		m0 := meas(f, hp, ps)
		seen := map[string]bool{}
		var walk func(t *Term, c *Term)
		walk = func(t *Term, c *Term) {
			k := fmt.Sprintf("%d/%d", t.id, c.id)
			if seen[k] {
				return
			}
			seen[k] = true
			if g := e.S.fns[t.op]; g != nil && g.rec && e.specDef[t.op] != nil && e.sameSCC(f, g) {
				a := t.args[1:]
				gm := meas(g, a[:len(g.heaps)], a[len(g.heaps):])
				ex.goal(c, tAnd(tCmp("<=", tInt(0), gm), tCmp("<", gm, m0)), "wellfounded", "recursive call of "+g.name+" in "+f.name+" decreases its measure")
			}
			switch t.op {
			case "ite":
				walk(t.args[0], c)
				walk(t.args[1], tAnd(c, t.args[0]))
				walk(t.args[2], tAnd(c, tNot(t.args[0])))
				return
			case "and":
				cc := c
				for _, a := range t.args {
					walk(a, cc)
					cc = tAnd(cc, a)
				}
				return
			case "or":
				cc := c
				for _, a := range t.args {
					walk(a, cc)
					cc = tAnd(cc, tNot(a))
				}
				return
			case "=>":
				walk(t.args[0], c)
				walk(t.args[1], tAnd(c, t.args[0]))
				return
			}
			if q := quants[t]; q != nil {
				qm := map[*Term]*Term{}
				for _, v := range q.vars {
					qm[v] = ex.fresh("q", v.sort)
				}
				walk(subst(t.args[0], qm), c)
				return
			}
			for _, a := range t.args {
				walk(a, c)
			}
		}
		walk(body, tTrue)
		out = append(out, ex)
	}
	return out
}

func (e *Engine) sameSCC(f, g *SpecFn) bool {
	if f == g {
		return true
	}
	return e.specReach(f, g) && e.specReach(g, f)
}

func (e *Engine) specReach(f, g *SpecFn) bool {
	seen := map[string]bool{}
	var rec func(n string) bool
	rec = func(n string) bool {
		if n == g.name && len(seen) > 0 {
			return true
		}
		if seen[n] {
			return false
		}
		seen[n] = true
		for c := range e.S.fns[n].callees {
			if rec(c) {
				return true
			}
		}
		return false
	}
	return rec(f.name)
}

func (ex *Exec) declBits() {
	b := mkVar("b?", SInt)
	ex.e.uf("bit", SBool, b, b)
	ex.e.bitAxioms("band")
}
