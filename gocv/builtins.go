package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) builtin(name string, cc *ssa.CallCommon, args []Val, st *State, reach *Term) []Val {
	switch name {
	case "len", "cap":
		T := cc.Args[0].Type()
		switch u := under(T).(type) {
		case *types.Basic:
			return []Val{{t: ex.define("len", seqLen(args[0].t)), typ: tyInt}}
		case *types.Slice:
			if name == "cap" {
				return []Val{{t: slCap(args[0].t), typ: tyInt}}
			}
			return []Val{{t: slLen(args[0].t), typ: tyInt}}
		case *types.Map:
			mh := ex.mapHeaps(u)
			l := ex.define("maplen", tIte(tEq(args[0].t, tInt(0)), tInt(0), ex.hload(st, mh.ln, SInt, args[0].t)))
			ex.assume(tTrue, tCmp("<=", tInt(0), l), "map len")
			return []Val{{t: l, typ: tyInt}}
		case *types.Array:
			return []Val{{t: tInt(u.Len()), typ: tyInt}}
		case *types.Pointer:
			return []Val{{t: tInt(under(u.Elem()).(*types.Array).Len()), typ: tyInt}}
		}
	case "append":
		return []Val{ex.appendOp(cc, args, st, reach)}
	case "copy":
		el := under(cc.Args[0].Type()).(*types.Slice).Elem()
		dst := args[0].t
		src := ex.viewOf(st, args[1], cc.Args[1].Type())
		n := ex.define("cp", tIte(tCmp("<=", slLen(dst), seqLen(src)), slLen(dst), seqLen(src)))
		h, s := memHeap(el), seqOf(sortOf(el))
		m := ex.hload(st, h, s, slArr(dst))
		nm := seqCat(seqSub(m, tInt(0), slOff(dst)), seqCat(seqSub(src, tInt(0), n), seqSub(m, tAdd(slOff(dst), n), seqLen(m))))
		ex.hstore(st, h, s, slArr(dst), ex.define("cpm", nm))
		return []Val{{t: n, typ: tyInt}}
	case "delete":
		mt := under(cc.Args[0].Type()).(*types.Map)
		mh := ex.mapHeaps(mt)
		m, k := args[0].t, ex.term(args[1])
		dom := ex.hload(st, mh.dom, mh.domS, m)
		was := ex.define("was", selectK(dom, k, SBool))
		ln := ex.hload(st, mh.ln, SInt, m)
		ex.hstore(st, mh.dom, mh.domS, m, mk("store", mh.domS, dom, k, tFalse))
		ex.hstore(st, mh.ln, SInt, m, tIte(was, tSub(ln, tInt(1)), ln))
		return nil
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		ex.nonNil(reach, ex.term(args[0]), "nil receiver")
		return []Val{args[0]}
	case "min", "max":
		a, b := args[0].t, args[1].t
		c := tCmp("<=", a, b)
		if name == "max" {
			c = tCmp("<=", b, a)
		}
		return []Val{{t: ex.define(name, tIte(c, a, b)), typ: args[0].typ}}
	}
	unsup("builtin %s", name)
	return nil
}

func (ex *Exec) viewOf(st *State, v Val, T types.Type) *Term {
	if sl, ok := under(T).(*types.Slice); ok {
		return ex.define("view", ex.view(st, v.t, sl.Elem()))
	}
	return v.t
}

func (ex *Exec) appendOp(cc *ssa.CallCommon, args []Val, st *State, reach *Term) Val {
	T := cc.Args[0].Type()
	el := under(T).(*types.Slice).Elem()
	a := args[0].t
	if len(args) < 2 {
		return args[0]
	}
	if isStruct(el) {
		unsup("append of structs")
	}
	es := sortOf(el)
	s := seqOf(es)
	h := memHeap(el)
	src := ex.viewOf(st, args[1], cc.Args[1].Type())
	var n2 *Term
	if _, ok := under(cc.Args[1].Type()).(*types.Slice); ok {
		n2 = slLen(args[1].t)
		// the view of a well-formed slice has its length
	} else {
		n2 = seqLen(src)
	}
	n1 := slLen(a)
	if v, ok := n2.intVal(); ok && v == 0 {
		return args[0]
	}
	tot := ex.define("n", tAdd(n1, n2))
	in := ex.define("inplace", tCmp("<=", tot, slCap(a)))
	m := ex.hload(st, h, s, slArr(a))
	inM := seqCat(seqSub(m, tInt(0), tAdd(slOff(a), n1)), seqCat(src, seqSub(m, tAdd(slOff(a), tot), seqLen(m))))
	r := ex.alloc(st, "arr")
	c2 := ex.fresh("cap", SInt)
	ex.assume(tTrue, tCmp("<=", tot, c2), "append")
	pad := ex.fresh("pad", s)
	ex.assume(tTrue, tEq(seqLen(pad), tSub(c2, tot)), "append")
	old := ex.define("view", ex.view(st, a, el))
	newM := seqCat(old, seqCat(src, pad))
	ref := ex.define("aref", tIte(in, slArr(a), r))
	nm := ex.define("amem", tIte(in, inM, newM))
	ex.aliases(ref, slArr(a), r)
	ex.hstore(st, h, s, ref, nm)
	res := mkSlice(ref, ex.define("aoff", tIte(in, slOff(a), tInt(0))), tot, ex.define("acap", tIte(in, slCap(a), c2)))
	// the contents of the result
	v := ex.view(st, res, el)
	ex.assume(tTrue, tImp(ex.sliceOK(a, m), tEq(v, seqCat(old, src))), "append")
	return Val{t: res, typ: T}
}

func (ex *Exec) sliceOK(a, m *Term) *Term {
	return tAnd(tCmp("<=", tInt(0), slOff(a)), tCmp("<=", tInt(0), slLen(a)), tCmp("<=", slLen(a), slCap(a)), tCmp("<=", tAdd(slOff(a), slCap(a)), seqLen(m)))
}

// aliases: ref is one of the given references (for the loop write log)
func (ex *Exec) aliases(ref *Term, alts ...*Term) {
	if ex.alias == nil {
		ex.alias = map[*Term][]*Term{}
	}
	ex.alias[ref] = alts
}

// ---------- library functions known to the engine

func (ex *Exec) newError(st *State, reach *Term) Val {
	r := ex.alloc(st, "err")
	t := mkIface(tInt(int64(ex.e.errTagN())), r)
	return Val{t: t, typ: types.Universe.Lookup("error").Type()}
}

func (ex *Exec) extern(name string, fn *ssa.Function, args []Val, st *State, reach *Term) ([]Val, *Term, bool) {
	switch name {
	case "errors.New", "fmt.Errorf", "errors.Errorf":
		ex.e.assum["library: errors.New and fmt.Errorf return a new non-nil error"] = true
		return []Val{ex.newError(st, reach)}, reach, true
	case "errors.Wrap", "errors.Wrapf":
		ex.e.assum["library: errors.Wrap returns nil for nil and a new non-nil error otherwise"] = true
		e := ex.newError(st, reach)
		t := tIte(tEq(iTag(args[0].t), tInt(0)), nilIface, e.t)
		return []Val{{t: ex.define("werr", t), typ: e.typ}}, reach, true
	case "utf8.DecodeRune", "utf8.DecodeRuneInString":
		s := ex.viewOf(st, args[0], fn.Signature.Params().At(0).Type())
		return []Val{{t: ex.define("dr", mk("dr", SInt, s)), typ: types.Typ[types.Int32]}, {t: ex.define("dw", mk("dw", SInt, s)), typ: tyInt}}, reach, true
	case "utf8.RuneLen":
		r := args[0].t
		return []Val{{t: ex.define("rl", tIte(mk("validrune", SBool, r), seqLen(encTerm(r)), tInt(-1))), typ: tyInt}}, reach, true
	case "utf8.ValidRune":
		return []Val{{t: mk("validrune", SBool, args[0].t), typ: tyBool}}, reach, true
	case "fmt.Sprintf":
		return []Val{{t: ex.sprintf(args, st, reach), typ: tyString}}, reach, true
	case "strconv.Itoa":
		return []Val{{t: ex.e.uf("itoa", SSeq, args[0].t), typ: tyString}}, reach, true
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
		if c := ex.e.S.contracts[name]; c != nil {
			return nil, nil, false
		}
	}
	return nil, nil, false
}

// sprintf models fmt.Sprintf for constant formats with the verbs %s %d %X %x %c,
// by the specification functions dec, hexU, hexL and enc where they are declared.
func (ex *Exec) sprintf(args []Val, st *State, reach *Term) *Term {
	r := ex.fresh("sprintf", SSeq)
	ex.e.assum["library: fmt.Sprintf formats %s, %d, %x, %X, %c as documented; for any other format its result is some string"] = true
	li := litByName[args[0].t.op]
	if li == nil || len(args) < 2 || args[1].t == nil {
		return r
	}
	var parts, conds []*Term
	lit := ""
	flush := func() {
		if lit != "" {
			parts = append(parts, qLit(lit))
		}
		lit = ""
	}
	n := 0
	f := li.val
	el := tyIface
	m := ex.hload(st, memHeap(el), seqOf(SIface), slArr(args[1].t))
	isInt := func(t *Term) *Term {
		var alts []*Term
		for _, b := range []types.BasicKind{types.Int, types.Int32, types.Uint8, types.Int64, types.Uint32} {
			alts = append(alts, tEq(iTag(t), ex.e.tag(types.Typ[b])))
		}
		return tOr(alts...)
	}
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += f[i : i+1]
			continue
		}
		i++
		if i >= len(f) {
			return r
		}
		if f[i] == '%' {
			lit += "%"
			continue
		}
		a := seqAt(m, tAdd(slOff(args[1].t), tInt(int64(n))))
		n++
		flush()
		fn := map[byte]string{'d': "dec", 'X': "hexU", 'x': "hexL", 'c': "enc"}[f[i]]
		switch {
		case f[i] == 's':
			conds = append(conds, tEq(iTag(a), ex.e.tag(types.Typ[types.String])))
			parts = append(parts, ex.unboxT(SSeq, iVal(a)))
		case fn == "enc":
			conds = append(conds, isInt(a))
			parts = append(parts, encTerm(iVal(a)))
		case fn != "" && ex.e.S.fns[fn] != nil:
			conds = append(conds, isInt(a), tCmp("<=", tInt(0), iVal(a)))
			en := &Env{ex: ex, st: st}
			parts = append(parts, en.apply(ex.e.S.fns[fn], []*Term{iVal(a)}))
		default:
			return r
		}
	}
	flush()
	t := seqEmpty(SSeq)
	for i := len(parts) - 1; i >= 0; i-- {
		t = seqCat(parts[i], t)
	}
	ex.assume(reach, tImp(tAnd(conds...), tEq(r, t)), "sprintf")
	return r
}

func constStr(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

var _ = strings.HasPrefix
