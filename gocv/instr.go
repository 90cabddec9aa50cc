package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) notNode(r *Term) {
	if ex.allocFacts {
		ex.assume(tTrue, tEq(mk("dyn", SInt, r), tInt(0)), "dyn")
	}
}

func (ex *Exec) nonNil(reach, p *Term, what string) {
	if ex.isAlloc(p) {
		return
	}
	if n, ok := p.intVal(); ok && n > 0 {
		return
	}
	if strings.HasPrefix(p.op, "gref!") {
		return
	}
	ex.goal(reach, tNot(tEq(p, tInt(0))), "nil", what)
}

func (ex *Exec) execBlock(fr *Frame, b *ssa.BasicBlock, st *State, reach *Term) {
	for _, in := range b.Instrs {
		if in.Pos() != token.NoPos {
			ex.curPos = in.Pos()
		}
		ex.curReach = reach
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.DebugRef:
			continue
		case *ssa.If:
			c := ex.val(fr, in.Cond).t
			t := ex.define("e", tAnd(reach, c))
			f := ex.define("e", tAnd(reach, tNot(c)))
			ex.addEdge(fr, b, b.Succs[0], t, st)
			ex.addEdge(fr, b, b.Succs[1], f, st)
			return
		case *ssa.Jump:
			ex.addEdge(fr, b, b.Succs[0], reach, st)
			return
		case *ssa.Return:
			var vs []Val
			for _, r := range in.Results {
				vs = append(vs, ex.val(fr, r))
			}
			fr.rets = append(fr.rets, retEdge{reach, st, vs})
			return
		case *ssa.Panic:
			ex.goal(reach, tFalse, "panic", "panic is unreachable")
			return
		default:
			reach = ex.instr(fr, in, st, reach)
			if reach == tFalse {
				return
			}
		}
	}
}

func (ex *Exec) instr(fr *Frame, in ssa.Instruction, st *State, reach *Term) *Term {
	set := func(v ssa.Value, x Val) {
		x.typ = v.Type()
		if x.t != nil && x.st == nil {
			x.t = ex.define(v.Name()+"."+fr.fn.Name(), x.t)
		}
		fr.regs[v] = x
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		if readOnlyCopy(in) != nil {
			return reach
		}
		T := in.Type().(*types.Pointer).Elem()
		r := ex.allocStruct(st, "obj", T)
		if isStruct(T) {
			ex.storeStruct(st, T, r, ex.zero(T))
			ex.initGhost(st, T, r)
			if ex.allocFacts && !in.Heap {
				ex.notNode(r) // a local copy: nothing points to it
			} else if ex.allocFacts || ex.e.isIfaceType(in.Type()) {
				ex.assume(reach, tEq(mk("dyn", SInt, r), ex.e.tag(in.Type())), "dyn")
			}
			fr.regs[in] = Val{t: r, typ: in.Type()}
		} else if at, ok := under(T).(*types.Array); ok {
			ex.notNode(r)
			ex.hstore(st, memHeap(at.Elem()), seqOf(sortOf(at.Elem())), r, ex.zero(T).t)
			fr.regs[in] = Val{t: r, typ: in.Type()}
		} else {
			ex.notNode(r)
			a := &Addr{kind: "cell", heap: cellHeap(T), hsort: sortOf(T), ref: r, typ: T}
			ex.hstore(st, a.heap, a.hsort, r, ex.zero(T).t)
			fr.regs[in] = Val{addr: a, typ: in.Type()}
		}
	case *ssa.FieldAddr:
		p := ex.val(fr, in.X)
		if p.virt != nil {
			f := p.virt.st.field(in.Field)
			fr.regs[in] = Val{virt: &f, typ: in.Type()}
			return reach
		}
		T := in.X.Type().Underlying().(*types.Pointer).Elem()
		ref := ex.term(p)
		ex.nonNil(reach, ref, "nil dereference of ."+under(T).(*types.Struct).Field(in.Field).Name())
		fr.regs[in] = ex.fieldAddr(T, in.Field, ref)
	case *ssa.Field:
		v := ex.val(fr, in.X)
		fr.regs[in] = v.st.field(in.Field)
		if v.st.field(in.Field).st == nil {
			ex.fact(reach, v.st.field(in.Field), st)
		}
	case *ssa.UnOp:
		x := ex.val(fr, in.X)
		switch in.Op {
		case token.MUL:
			if x.virt != nil {
				fr.regs[in] = *x.virt
				if x.virt.st == nil {
					ex.fact(reach, fr.regs[in], st)
				}
				return reach
			}
			T := in.X.Type().Underlying().(*types.Pointer).Elem()
			if isStruct(T) {
				ex.nonNil(reach, ex.term(x), "nil dereference")
				fr.regs[in] = ex.loadStruct(st, T, ex.term(x))
				return reach
			}
			if isArray(T) {
				ex.nonNil(reach, ex.term(x), "nil dereference")
				set(in, Val{t: ex.hload(st, memHeap(under(T).(*types.Array).Elem()), sortOf(T), x.t)})
				return reach
			}
			a := ex.addrOf(x, T)
			if a.kind == "cell" && x.addr == nil {
				ex.nonNil(reach, a.ref, "nil dereference")
			}
			if g, ok := in.X.(*ssa.Global); ok && a.kind == "global" && strings.HasPrefix(a.heap, "K:") {
				_ = g
				// immutable: always the initial constant
				ex.need(a.heap, a.hsort)
				fr.regs[in] = Val{t: mkVar("H0!"+smtName(a.heap), a.hsort), typ: in.Type()}
				return reach
			}
			set(in, ex.load(st, a))
			ex.fact(reach, fr.regs[in], st)
			if ia, ok := in.X.(*ssa.IndexAddr); ok && a.kind == "elem" {
				if sl, ok := under(ia.X.Type()).(*types.Slice); ok {
					// the same item seen as an item of the slice's contents (index goal holds)
					w := ex.view(st, ex.val(fr, ia.X).t, sl.Elem())
					ex.assume(reach, tEq(mk("at"+sfx(w.sort), a.hsort, w, ex.val(fr, ia.Index).t), fr.regs[in].t), "item")
				}
			}
		case token.NOT:
			set(in, Val{t: tNot(x.t)})
		case token.SUB:
			set(in, Val{t: ex.wrap(tSub(tInt(0), x.t), in.Type())})
		case token.XOR:
			set(in, Val{t: ex.e.uf("bvnot", SInt, x.t)})
		default:
			unsup("unop %s", in.Op)
		}
	case *ssa.BinOp:
		set(in, Val{t: ex.binop(reach, in.Op, ex.val(fr, in.X), ex.val(fr, in.Y), in.X.Type(), in.Type())})
	case *ssa.Store:
		if a, ok := in.Addr.(*ssa.Alloc); ok && readOnlyCopy(a) == in {
			v := ex.val(fr, in.Val)
			fr.regs[a] = Val{virt: &v, typ: a.Type()}
			return reach
		}
		p := ex.val(fr, in.Addr)
		T := in.Addr.Type().Underlying().(*types.Pointer).Elem()
		v := ex.val(fr, in.Val)
		if isStruct(T) {
			ex.nonNil(reach, ex.term(p), "nil dereference")
			ex.storeStruct(st, T, ex.term(p), v)
			return reach
		}
		if isArray(T) {
			ex.hstore(st, memHeap(under(T).(*types.Array).Elem()), sortOf(T), ex.term(p), ex.term(v))
			return reach
		}
		a := ex.addrOf(p, T)
		if a.kind == "cell" && p.addr == nil {
			ex.nonNil(reach, a.ref, "nil dereference")
		}
		if v.clo != nil && a.kind == "cell" {
			ex.cellClosures()[a.ref] = v
		}
		ex.store(st, a, v)
	case *ssa.ChangeType:
		v := ex.val(fr, in.X)
		v.typ = in.Type()
		fr.regs[in] = v
	case *ssa.ChangeInterface:
		v := ex.val(fr, in.X)
		v.typ = in.Type()
		fr.regs[in] = v
	case *ssa.Convert:
		set(in, ex.convert(reach, st, ex.val(fr, in.X), in.X.Type(), in.Type()))
	case *ssa.MakeInterface:
		v := ex.val(fr, in.X)
		if _, ok := under(in.X.Type()).(*types.Pointer); ok && ex.e.isIfaceType(in.X.Type()) {
			t := ex.term(v)
			if ex.e.isClosed(in.Type()) {
				ex.nonNil(reach, t, "nil pointer stored in an interface")
			}
			ex.fact(reach, Val{t: t, typ: in.X.Type()}, st)
		}
		set(in, Val{t: ex.makeIface(v, in.X.Type())})
	case *ssa.TypeAssert:
		ex.typeAssert(fr, in, st, reach, set)
	case *ssa.Extract:
		v := ex.val(fr, in.Tuple)
		fr.regs[in] = v.tup[in.Index]
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range in.Bindings {
			bs = append(bs, ex.val(fr, b))
		}
		fr.regs[in] = Val{clo: &Closure{fn: in.Fn.(*ssa.Function), bind: bs}, typ: in.Type()}
	case *ssa.MakeSlice:
		n := ex.val(fr, in.Len).t
		c := ex.val(fr, in.Cap).t
		ex.goal(reach, tAnd(tCmp("<=", tInt(0), n), tCmp("<=", n, c)), "makeslice", "slice length in range")
		el := under(in.Type()).(*types.Slice).Elem()
		r := ex.alloc(st, "arr")
		z := ex.zero(el).t
		s := seqOf(z.sort)
		ex.hstore(st, memHeap(el), s, r, mk("rep"+sfx(s), s, z, c))
		set(in, Val{t: mkSlice(r, tInt(0), n, c)})
	case *ssa.MakeMap:
		r := ex.alloc(st, "map")
		mt := under(in.Type()).(*types.Map)
		mh := ex.mapHeaps(mt)
		ex.hstore(st, mh.dom, mh.domS, r, mk("((as const "+mh.domS+") false)", mh.domS))
		ex.hstore(st, mh.ln, SInt, r, tInt(0))
		set(in, Val{t: r})
	case *ssa.Lookup:
		x := ex.val(fr, in.X)
		k := ex.val(fr, in.Index)
		if mt, ok := under(in.X.Type()).(*types.Map); ok {
			v, ok := ex.mapLookup(reach, st, mt, x.t, ex.term(k))
			if in.CommaOk {
				fr.regs[in] = Val{tup: []Val{v, {t: ex.define("ok", ok), typ: tyBool}}, typ: in.Type()}
			} else {
				fr.regs[in] = v
			}
			if v.st == nil {
				ex.fact(reach, v, st)
			}
			return reach
		}
		set(in, ex.strIndex(reach, x.t, k.t))
	case *ssa.MapUpdate:
		mt := under(in.Map.Type()).(*types.Map)
		m := ex.val(fr, in.Map).t
		ex.nonNil(reach, m, "assignment to entry in nil map")
		ex.mapStore(st, mt, m, ex.term(ex.val(fr, in.Key)), ex.val(fr, in.Value))
	case *ssa.IndexAddr:
		ex.indexAddr(fr, in, st, reach)
	case *ssa.Index:
		x := ex.val(fr, in.X)
		i := ex.val(fr, in.Index).t
		if _, ok := under(in.X.Type()).(*types.Basic); ok {
			set(in, ex.strIndex(reach, x.t, i))
			ex.fact(reach, fr.regs[in], st)
			return reach
		}
		ex.goal(reach, tAnd(tCmp("<=", tInt(0), i), tCmp("<", i, seqLen(x.t))), "index", "index in range")
		set(in, Val{t: seqAt(x.t, i)})
	case *ssa.Slice:
		ex.slice(fr, in, st, reach, set)
	case *ssa.Range:
		x := ex.val(fr, in.X)
		r := ex.alloc(st, "iter")
		ex.hstore(st, "C:$iter", SInt, r, tInt(0))
		fr.regs[in] = Val{tup: []Val{x, {t: r}}, typ: in.X.Type()}
	case *ssa.Next:
		ex.next(fr, in, st, reach)
	case *ssa.Call:
		vals, nr := ex.call(fr, &in.Call, in, st, reach)
		rt := in.Type()
		if tt, ok := rt.(*types.Tuple); ok {
			fr.regs[in] = Val{tup: vals, typ: tt}
		} else if len(vals) == 1 {
			v := vals[0]
			if v.typ == nil || v.t != nil {
				v.typ = rt
			}
			fr.regs[in] = v
		}
		return nr
	case *ssa.Defer:
		d := &deferred{reach: reach, call: &in.Call, at: in}
		for _, a := range in.Call.Args {
			d.args = append(d.args, ex.val(fr, a))
		}
		if !in.Call.IsInvoke() {
			if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
				d.fnv = ex.val(fr, in.Call.Value)
			}
		} else {
			d.fnv = ex.val(fr, in.Call.Value)
		}
		st.defers = append(st.defers, d)
	case *ssa.RunDefers:
		ds := st.defers
		st.defers = nil
		for i := len(ds) - 1; i >= 0; i-- {
			d := ds[i]
			pre := st.clone()
			c := tAnd(reach, d.reach)
			if d.reach == reach || d.reach == tTrue {
				c = reach
			}
			c = ex.define("dr", c)
			_, nr := ex.callWith(fr, d.call, d.fnv, d.args, st, c)
			_ = nr
			if c != reach {
				skip := ex.define("dr", tAnd(reach, tNot(d.reach)))
				m := ex.mergeStates([]*Term{c, skip}, []*State{st.clone(), pre})
				st.h = m.h
				st.ctr = m.ctr
			}
		}
	case *ssa.SliceToArrayPointer, *ssa.Select, *ssa.Go, *ssa.Send, *ssa.MakeChan:
		unsup("instruction %T", in)
	default:
		unsup("instruction %T", in)
	}
	return reach
}

var cellClo = map[*Term]Val{}

func (ex *Exec) cellClosures() map[*Term]Val { return cellClo }

func (ex *Exec) need(heap string, s Sort) {}

func (ex *Exec) fieldAddr(T types.Type, i int, ref *Term) Val {
	ft := under(T).(*types.Struct).Field(i).Type()
	if isStruct(ft) {
		return Val{t: subRef2(ex.e, T, i, ref), typ: types.NewPointer(ft)}
	}
	if isArray(ft) {
		unsup("address of array field")
	}
	return Val{addr: &Addr{kind: "field", heap: structFieldHeap(T, i), hsort: sortOf(ft), ref: ref, typ: ft}, typ: types.NewPointer(ft)}
}

func (ex *Exec) strIndex(reach *Term, s, i *Term) Val {
	ex.goal(reach, tAnd(tCmp("<=", tInt(0), i), tCmp("<", i, seqLen(s))), "index", "index in range")
	return Val{t: seqAt(s, i), typ: types.Typ[types.Uint8]}
}

func intRange(T types.Type) (lo, hi int64, ok bool) {
	b, is := under(T).(*types.Basic)
	if !is {
		return
	}
	switch b.Kind() {
	case types.Int8:
		return -128, 127, true
	case types.Uint8:
		return 0, 255, true
	case types.Int16:
		return -32768, 32767, true
	case types.Uint16:
		return 0, 65535, true
	case types.Int32:
		return -2147483648, 2147483647, true
	case types.Uint32:
		return 0, 4294967295, true
	}
	return
}

// wrapConv: the value of a conversion; exact between types of the same size
func (ex *Exec) wrapConv(t *Term, from, to types.Type) *Term {
	lo, hi, ok := intRange(to)
	if from == nil || !ok {
		return ex.wrap(t, to)
	}
	flo, fhi, fok := intRange(from)
	if !fok || fhi-flo != hi-lo || flo == lo {
		return ex.wrap(t, to)
	}
	m := hi - lo + 1
	t = ex.define("w", t)
	return tIte(tCmp("<", t, tInt(lo)), tAdd(t, tInt(m)), tIte(tCmp(">", t, tInt(hi)), tSub(t, tInt(m)), t))
}

// wrap: value of an arithmetic result in type T (exact inside the range)
func (ex *Exec) wrap(t *Term, T types.Type) *Term {
	lo, hi, ok := intRange(T)
	if !ok {
		return t
	}
	if n, is := t.intVal(); is && n >= lo && n <= hi {
		return t
	}
	t = ex.define("w", t)
	w := ex.e.uf("wrap!"+under(T).(*types.Basic).Name(), SInt, t)
	if _, ok := ex.e.decls["~w:"+w.op]; !ok {
		ex.e.decls["~w:"+w.op] = fmt.Sprintf("(assert (forall ((x Int)) (! (and (<= %s (%s x)) (<= (%s x) %d)) :pattern ((%s x)))))", tInt(lo), w.op, w.op, hi, w.op)
	}
	return tIte(tAnd(tCmp("<=", tInt(lo), t), tCmp("<=", t, tInt(hi))), t, w)
}

func (ex *Exec) binop(reach *Term, op token.Token, x, y Val, T, RT types.Type) *Term {
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		if isStruct(T) {
			var cs []*Term
			a, b := flatten(ex, x), flatten(ex, y)
			for i := range a {
				cs = append(cs, ex.eqTerm(a[i], b[i]))
			}
			r = tAnd(cs...)
		} else if x.clo != nil || y.clo != nil {
			// comparison of a known closure with nil
			r = tFalse
			if x.clo == nil && x.t != nil && y.clo == nil {
				r = tEq(x.t, y.t)
			}
		} else if sortOf(T) == SSlice {
			a, b := ex.term(x), ex.term(y)
			if b != nilSlice {
				a, b = b, a
			}
			r = tEq(slArr(a), tInt(0))
		} else {
			if x.addr != nil && y.addr == nil || y.addr != nil && x.addr == nil {
				// &x.f == nil
				r = tFalse
			} else {
				r = ex.eqTerm(ex.term(x), ex.term(y))
			}
		}
		if op == token.NEQ {
			return tNot(r)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if sortOf(T) == SSeq {
			o := map[token.Token]string{token.LSS: "str<", token.LEQ: "str<=", token.GTR: "str>", token.GEQ: "str>="}[op]
			return ex.e.uf(o, SBool, x.t, y.t)
		}
		o := map[token.Token]string{token.LSS: "<", token.LEQ: "<=", token.GTR: ">", token.GEQ: ">="}[op]
		return tCmp(o, x.t, y.t)
	}
	a, b := ex.term(x), ex.term(y)
	if sortOf(T) == SSeq && op == token.ADD {
		return seqCat(a, b)
	}
	av, aok := a.intVal()
	bv, bok := b.intVal()
	switch op {
	case token.ADD:
		return ex.wrap(tAdd(a, b), RT)
	case token.SUB:
		return ex.wrap(tSub(a, b), RT)
	case token.MUL:
		return ex.wrap(tMul(a, b), RT)
	case token.QUO:
		ex.goal(reach, tNot(tEq(b, tInt(0))), "div", "division by zero")
		// truncated division; SMT div is Euclidean
		if bok && bv > 0 {
			return tIte(tCmp("<=", tInt(0), a), mk("div", SInt, a, b), tSub(tInt(0), mk("div", SInt, tSub(tInt(0), a), b)))
		}
		return ex.e.uf("godiv", SInt, a, b)
	case token.REM:
		ex.goal(reach, tNot(tEq(b, tInt(0))), "div", "division by zero")
		if bok && bv > 0 {
			return tIte(tCmp("<=", tInt(0), a), mk("mod", SInt, a, b), tSub(tInt(0), mk("mod", SInt, tSub(tInt(0), a), b)))
		}
		return ex.e.uf("gorem", SInt, a, b)
	case token.AND:
		if aok && bok {
			return tInt(av & bv)
		}
		return ex.bits("band", a, b)
	case token.OR:
		if aok && bok {
			return tInt(av | bv)
		}
		return ex.bits("bor", a, b)
	case token.XOR:
		if aok && bok {
			return tInt(av ^ bv)
		}
		return ex.bits("bxor", a, b)
	case token.SHL:
		if aok && bok && bv < 62 {
			return tInt(av << uint(bv))
		}
		return ex.e.uf("shl", SInt, a, b)
	case token.SHR:
		if bok && bv < 62 {
			return mk("div", SInt, a, tInt(1<<uint(bv)))
		}
		return ex.e.uf("shr", SInt, a, b)
	case token.AND_NOT:
		return ex.e.uf("andnot", SInt, a, b)
	}
	unsup("binop %s", op)
	return nil
}

// bit operations: bit(x,i) characterises a 64-bit pattern
func (ex *Exec) bits(op string, a, b *Term) *Term {
	if av, ok := a.intVal(); ok {
		if bv, ok := b.intVal(); ok && av >= 0 && bv >= 0 {
			switch op {
			case "band":
				return tInt(av & bv)
			case "bor":
				return tInt(av | bv)
			case "bxor":
				return tInt(av ^ bv)
			}
		}
	}
	t := ex.e.uf(op, SInt, a, b)
	ex.e.uf("bit", SBool, a, b)
	ex.e.bitAxioms(op)
	return t
}

func (e *Engine) bitAxioms(op string) {
	def := map[string]string{
		"band": "(= (bit (band a b) i) (and (bit a i) (bit b i)))",
		"bor":  "(= (bit (bor a b) i) (or (bit a i) (bit b i)))",
		"bxor": "(= (bit (bxor a b) i) (xor (bit a i) (bit b i)))",
	}
	if _, ok := e.decls["~bits:"+op]; !ok {
		e.decls["~bits:"+op] = fmt.Sprintf("(assert (forall ((a Int)(b Int)(i Int)) (! %s :pattern ((bit (%s a b) i)) :pattern ((%s a b) (bit a i)) :pattern ((%s a b) (bit b i)))))\n(assert (forall ((a Int)(b Int)) (! (=> (not (= (%s a b) 0)) (bit (%s a b) (bitwit (%s a b)))) :pattern ((%s a b)))))", def[op], op, op, op, op, op, op, op)
		e.assum["bit patterns: &, | and ^ act on each bit, and x = 0 exactly if no bit of x is set"] = true
	}
	if _, ok := e.decls["~bits0"]; !ok {
		e.decls["bitwit"] = "(declare-fun bitwit (Int) Int)"
		e.decls["~bits0"] = `(assert (forall ((i Int)) (! (not (bit 0 i)) :pattern ((bit 0 i)))))
(assert (forall ((a Int)) (! (=> (not (= a 0)) (and (<= 0 (bitwit a)) (< (bitwit a) 64) (bit a (bitwit a)))) :pattern ((bitwit a)))))`
	}
}

// equality of scalars; strings compared with literals get the pointwise facts
func (ex *Exec) eqTerm(a, b *Term) *Term {
	if a.sort == SSeq {
		if lv, ok := litValQ(a); ok {
			a, b = b, a
			_ = lv
		}
		if v, ok := litValQ(b); ok {
			if av, ok := litValQ(a); ok {
				return tBool(av == v)
			}
			if v == "" {
				return tEq(seqLen(a), tInt(0))
			}
			eq := tEq(a, b)
			if len(v) <= 64 {
				a2 := ex.define("s", a)
				eq = tEq(a2, b)
				cs := []*Term{tEq(seqLen(a2), tInt(int64(len(v))))}
				for i := 0; i < len(v); i++ {
					cs = append(cs, tEq(seqAt(a2, tInt(int64(i))), tInt(int64(v[i]))))
				}
				if ex.curReach != nil {
					ex.assume(tTrue, tEq(eq, tAnd(cs...)), "literal")
				}
			}
			return eq
		}
	}
	return tEq(a, b)
}

func (ex *Exec) convert(reach *Term, st *State, v Val, from, to types.Type) Val {
	fs, ts := sortOf(from), sortOf(to)
	fu, tu := under(from), under(to)
	switch {
	case fs == SSeq && ts == SSeq:
		return v
	case fs == SSeq && ts == SSlice:
		el := tu.(*types.Slice).Elem()
		if b, ok := under(el).(*types.Basic); ok && b.Kind() == types.Uint8 {
			r := ex.alloc(st, "arr")
			ex.hstore(st, memHeap(el), SSeq, r, v.t)
			n := seqLen(v.t)
			return Val{t: mkSlice(r, tInt(0), n, n)}
		}
		r := ex.alloc(st, "arr")
		rs := ex.e.uf("runesOf", SSeq, v.t)
		ex.hstore(st, memHeap(el), SSeq, r, rs)
		return Val{t: mkSlice(r, tInt(0), seqLen(rs), seqLen(rs))}
	case fs == SSlice && ts == SSeq:
		el := fu.(*types.Slice).Elem()
		if b, ok := under(el).(*types.Basic); ok && b.Kind() == types.Uint8 {
			return Val{t: ex.view(st, v.t, el)}
		}
		return Val{t: ex.e.uf("ofRunes", SSeq, ex.view(st, v.t, el))}
	case fs == SInt && ts == SSeq:
		return Val{t: encTerm(v.t)}
	case fs == SInt && ts == SInt:
		if b, ok := fu.(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return Val{t: ex.e.uf("f2i", SInt, v.t)}
		}
		if b, ok := tu.(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return Val{t: ex.e.uf("i2f", SInt, v.t)}
		}
		if _, _, ok := intRange(to); ok {
			l1, h1, ok1 := intRange(from)
			l2, h2, _ := intRange(to)
			if ok1 && l1 >= l2 && h1 <= h2 {
				return v
			}
			return Val{t: ex.wrapConv(v.t, v.typ, to)}
		}
		if b, ok := tu.(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsUnsigned != 0 {
				return v
			}
			return Val{t: tIte(tCmp("<=", tInt(0), v.t), v.t, ex.e.uf("u64", SInt, v.t))}
		}
		return v
	}
	unsup("conversion %s -> %s", from, to)
	return Val{}
}

func encTerm(r *Term) *Term {
	if n, ok := r.intVal(); ok && n >= 0 && n < 0x110000 && !(n >= 0xd800 && n < 0xe000) {
		return qLit(string(rune(n)))
	}
	return mk("enc", SSeq, r)
}

func (ex *Exec) typeAssert(fr *Frame, in *ssa.TypeAssert, st *State, reach *Term, set func(ssa.Value, Val)) {
	x := ex.val(fr, in.X)
	var ok *Term
	var v Val
	if isIface(in.AssertedType) {
		ok = ex.implementsTerm(x.t, in.X.Type(), in.AssertedType)
		v = Val{t: x.t, typ: in.AssertedType}
	} else {
		ok = tEq(iTag(x.t), ex.e.tag(in.AssertedType))
		v = ex.fromIface(x.t, in.AssertedType)
	}
	if in.CommaOk {
		okd := ex.define("ok", ok)
		z := ex.zero(in.AssertedType)
		res := ex.mergeVals("ta", []*Term{okd, tNot(okd)}, []Val{v, z})
		res.typ = in.AssertedType
		fr.regs[in] = Val{tup: []Val{res, {t: okd, typ: tyBool}}, typ: in.Type()}
		if v.t != nil && v.st == nil {
			ex.fact(tAnd(reach, okd), v, st)
		}
		return
	}
	ex.goal(reach, ok, "typeassert", "type assertion to "+tkey(in.AssertedType)+" succeeds")
	v.typ = in.AssertedType
	if v.t != nil && v.st == nil {
		v.t = ex.define("ta", v.t)
		ex.fact(reach, v, st)
	}
	fr.regs[in] = v
}

func (ex *Exec) implementsTerm(x *Term, from, to types.Type) *Term {
	nn := tNot(tEq(iTag(x), tInt(0)))
	it := under(to).(*types.Interface)
	if it.NumMethods() == 0 || types.Implements(from, it) {
		return nn
	}
	if ex.e.isClosed(from) {
		var alts []*Term
		for _, t := range ex.e.implementers(from) {
			if types.Implements(t, it) {
				alts = append(alts, tEq(iTag(x), ex.e.tag(t)))
			}
		}
		return tOr(alts...)
	}
	return tAnd(nn, ex.e.uf("implements!"+tkey(to), SBool, iTag(x)))
}

func (ex *Exec) indexAddr(fr *Frame, in *ssa.IndexAddr, st *State, reach *Term) {
	x := ex.val(fr, in.X)
	i := ex.val(fr, in.Index).t
	switch u := under(in.X.Type()).(type) {
	case *types.Slice:
		ex.goal(reach, tAnd(tCmp("<=", tInt(0), i), tCmp("<", i, slLen(x.t))), "index", "index in range")
		if isStruct(u.Elem()) {
			r := ex.e.uf("elemref", SInt, slArr(x.t), tAdd(slOff(x.t), i))
			fr.regs[in] = Val{t: r, typ: in.Type()}
			return
		}
		fr.regs[in] = Val{addr: &Addr{kind: "elem", heap: memHeap(u.Elem()), hsort: sortOf(u.Elem()), ref: slArr(x.t), idx: ex.define("ix", tAdd(slOff(x.t), i)), typ: u.Elem()}, typ: in.Type()}
	case *types.Pointer:
		at := under(u.Elem()).(*types.Array)
		if n, ok := i.intVal(); !ok || n < 0 || n >= at.Len() {
			ex.goal(reach, tAnd(tCmp("<=", tInt(0), i), tCmp("<", i, tInt(at.Len()))), "index", "index in range")
		}
		fr.regs[in] = Val{addr: &Addr{kind: "elem", heap: memHeap(at.Elem()), hsort: sortOf(at.Elem()), ref: ex.term(x), idx: i, typ: at.Elem()}, typ: in.Type()}
	default:
		unsup("indexaddr %s", in.X.Type())
	}
}

func (ex *Exec) slice(fr *Frame, in *ssa.Slice, st *State, reach *Term, set func(ssa.Value, Val)) {
	x := ex.val(fr, in.X)
	var lo, hi, mx *Term
	if in.Low != nil {
		lo = ex.val(fr, in.Low).t
	} else {
		lo = tInt(0)
	}
	if in.High != nil {
		hi = ex.val(fr, in.High).t
	}
	if in.Max != nil {
		mx = ex.val(fr, in.Max).t
	}
	switch u := under(in.X.Type()).(type) {
	case *types.Basic:
		if hi == nil {
			hi = seqLen(x.t)
		}
		ex.goal(reach, tAnd(tCmp("<=", tInt(0), lo), tCmp("<=", lo, hi), tCmp("<=", hi, seqLen(x.t))), "slice", "slice bounds in range")
		set(in, Val{t: seqSub(x.t, lo, hi)})
	case *types.Slice:
		if hi == nil {
			hi = slLen(x.t)
		}
		if mx == nil {
			mx = slCap(x.t)
		} else {
			ex.goal(reach, tAnd(tCmp("<=", hi, mx), tCmp("<=", mx, slCap(x.t))), "slice", "slice bounds in range")
		}
		ex.goal(reach, tAnd(tCmp("<=", tInt(0), lo), tCmp("<=", lo, hi), tCmp("<=", hi, slCap(x.t))), "slice", "slice bounds in range")
		nv := Val{t: mkSlice(slArr(x.t), tAdd(slOff(x.t), lo), tSub(hi, lo), tSub(mx, lo))}
		set(in, nv)
		if !isStruct(u.Elem()) && sortOf(u.Elem()) == SInt {
			// a consequence of the axioms about sub-sequences; naming the terms lets the solver use it
			ex.assume(tAnd(reach, tCmp("<=", hi, slLen(x.t))), tEq(ex.view(st, nv.t, u.Elem()), seqSub(ex.view(st, x.t, u.Elem()), lo, hi)), "slice")
		}
	case *types.Pointer:
		at := under(u.Elem()).(*types.Array)
		n := tInt(at.Len())
		if hi == nil {
			hi = n
		}
		ex.goal(reach, tAnd(tCmp("<=", tInt(0), lo), tCmp("<=", lo, hi), tCmp("<=", hi, n)), "slice", "slice bounds in range")
		set(in, Val{t: mkSlice(ex.term(x), lo, tSub(hi, lo), tSub(n, lo))})
	default:
		unsup("slice of %s", in.X.Type())
	}
}

func (ex *Exec) next(fr *Frame, in *ssa.Next, st *State, reach *Term) {
	it := ex.val(fr, in.Iter)
	r := it.tup[1].t
	if in.IsString {
		s := it.tup[0].t
		i := ex.define("it", ex.hload(st, "C:$iter", SInt, r))
		ok := ex.define("ok", tCmp("<", i, seqLen(s)))
		ex.assume(reach, tCmp("<=", tInt(0), i), "iter")
		rest := seqSub(s, i, seqLen(s))
		rv := ex.define("rn", mk("dr", SInt, rest))
		w := ex.define("rw", mk("dw", SInt, rest))
		ex.hstore(st, "C:$iter", SInt, r, tIte(ok, tAdd(i, w), i))
		fr.regs[in] = Val{tup: []Val{{t: ok, typ: tyBool}, {t: i, typ: tyInt}, {t: rv, typ: types.Typ[types.Int32]}}, typ: in.Type()}
		return
	}
	mt := under(it.typ).(*types.Map)
	mh := ex.mapHeaps(mt)
	ok := ex.fresh("ok", SBool)
	k := ex.havocVal("k", mt.Key())
	dom := ex.hload(st, mh.dom, mh.domS, it.tup[0].t)
	ex.assume(tAnd(reach, ok), mk("select", SBool, dom, ex.term(k)), "range")
	ex.assume(tAnd(reach, ok), tNot(tEq(it.tup[0].t, tInt(0))), "range")
	ex.fact(reach, k, st)
	v, _ := ex.mapLookup(tAnd(reach, ok), st, mt, it.tup[0].t, ex.term(k))
	if v.st == nil {
		ex.fact(reach, v, st)
	}
	// iterations left: a range over a map terminates
	c := ex.define("it", ex.hload(st, "C:$iter", SInt, r))
	ex.hstore(st, "C:$iter", SInt, r, tAdd(c, tInt(1)))
	fr.regs[in] = Val{tup: []Val{{t: ok, typ: tyBool}, k, v}, typ: in.Type()}
}

// ---------- maps

type mapHeapNames struct {
	dom, val, ln string
	domS, valS   Sort
	ks           Sort
	set          bool
}

func (ex *Exec) mapHeaps(mt *types.Map) mapHeapNames {
	k := tkey(mt)
	ks := sortOf(mt.Key())
	m := mapHeapNames{dom: "MD:" + k, val: "MV:" + k, ln: "ML:" + k, ks: ks}
	m.domS = fmt.Sprintf("(Array %s Bool)", ks)
	if isStruct(mt.Elem()) {
		m.set = true
		return m
	}
	m.valS = fmt.Sprintf("(Array %s %s)", ks, sortOf(mt.Elem()))
	return m
}

func (ex *Exec) mapLookup(reach *Term, st *State, mt *types.Map, m, k *Term) (Val, *Term) {
	mh := ex.mapHeaps(mt)
	dom := ex.hload(st, mh.dom, mh.domS, m)
	in := ex.define("in", tAnd(tNot(tEq(m, tInt(0))), selectK(dom, k, SBool)))
	z := ex.zero(mt.Elem())
	if mh.set {
		return z, in
	}
	vs := sortOf(mt.Elem())
	val := ex.hload(st, mh.val, mh.valS, m)
	return Val{t: ex.define("mv", tIte(in, selectK(val, k, vs), z.t)), typ: mt.Elem()}, in
}

func selectK(a, k *Term, s Sort) *Term {
	for a.op == "store" && a.args[1] == k {
		return a.args[2]
	}
	if strings.HasPrefix(a.op, "((as const") && s == SBool {
		return tFalse
	}
	return mk("select", s, a, k)
}

func (ex *Exec) mapStore(st *State, mt *types.Map, m, k *Term, v Val) {
	mh := ex.mapHeaps(mt)
	dom := ex.hload(st, mh.dom, mh.domS, m)
	was := ex.define("was", selectK(dom, k, SBool))
	ln := ex.hload(st, mh.ln, SInt, m)
	ex.assume(tTrue, tCmp("<=", tInt(0), ln), "map len")
	ex.hstore(st, mh.dom, mh.domS, m, mk("store", mh.domS, dom, k, tTrue))
	if !mh.set {
		val := ex.hload(st, mh.val, mh.valS, m)
		ex.hstore(st, mh.val, mh.valS, m, mk("store", mh.valS, val, k, ex.term(v)))
	}
	ex.hstore(st, mh.ln, SInt, m, tIte(was, ln, tAdd(ln, tInt(1))))
}

// ghost state of freshly allocated library objects
func (ex *Exec) initGhost(st *State, T types.Type, r *Term) {
	switch tkey(T) {
	case "bytes.Buffer":
		h, s := ex.ghostHeap("wout")
		ex.hstore(st, h, s, r, seqEmpty(SSeq))
		h, s = ex.ghostHeap("wok")
		ex.hstore(st, h, s, r, tTrue)
	}
}

// readOnlyCopy: the store that fills a local copy of a struct parameter of which only the fields are read, nil if it is used otherwise
func readOnlyCopy(a *ssa.Alloc) *ssa.Store {
	if a.Heap || !isStruct(a.Type().(*types.Pointer).Elem()) || a.Parent() == nil || a.Block() != a.Parent().Blocks[0] {
		return nil
	}
	var fill *ssa.Store
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != a || r.Val == ssa.Value(a) || fill != nil || r.Block() != a.Block() {
				return nil
			}
			if _, ok := r.Val.(*ssa.Parameter); !ok {
				return nil
			}
			fill = r
		case *ssa.FieldAddr:
			if !onlyRead(r) {
				return nil
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return nil
		}
	}
	return fill
}

func onlyRead(f *ssa.FieldAddr) bool {
	for _, r := range *f.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.FieldAddr:
			if !onlyRead(r) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}
