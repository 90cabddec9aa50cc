package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type item struct {
	kind  string // def assume goal
	term  *Term  // assume: formula; goal: formula (already guarded)
	v     *Term  // def: variable
	name  string
	descr string
	pos   string
	flag  *Term  // candidate flag (invariant goals), or nil
	term2 string // termination group
	note  string
	axm   string // name of an assumption counted as trusted
}

type Engine struct {
	P              *Program
	S              *Specs
	decls          map[string]string // uninterpreted function declarations
	tags           map[string]int
	tagTy          map[int]types.Type
	immut          map[*ssa.Global]bool
	impls          map[string][]types.Type
	boxes          map[string]bool
	trust          map[string]bool // trusted contracts used
	assum          map[string]bool // other assumptions used
	debug          bool
	usedIfaceTypes map[string]types.Type
	curPkg         string
	autoTerms      map[string]*Term
	enumNext       bool
	specAx         map[string][]string
	specDef        map[string]*specDef
	closedH        map[string]types.Type
	ranges         map[string][2]int
}

type Exec struct {
	suffix     string
	e          *Engine
	name       string // verification unit
	items      []*item
	cnt        map[string]int
	dry        int
	wlog       []*writeLog
	curFn      *ssa.Function
	contract   *Contract
	env0       map[string]Val
	st0        *State
	stack      []*ssa.Function
	flags      map[*Term]*candidate
	goalN      map[string]int
	inlined    map[string]bool
	called     map[string]bool // contracts applied
	measure0   []*Term
	termGroups map[string]bool
	loopCnt    int
	allocs     map[*Term]int
	curPos     token.Pos
	curReach   *Term
	feasCache  map[*Term]bool
	outReach   *Term
	usedLemmas []string
	lemmaOrder int
	autoUsed   map[string]bool
	enum       bool
	alias      map[*Term][]*Term
	loadDone   map[*Term]bool
	nodeFacts  bool // option heapfacts: dynamic types of all objects, types of all fields
	allocFacts bool // dynamic types of the objects that are allocated
	heapDone   map[string]bool
}

type candidate struct {
	flag *Term
	src  string
	auto bool
}

type writeLog struct {
	heaps  map[string]map[*Term]bool // heap -> refs (nil key = whole)
	sorts  map[string]Sort
	allocs bool
	mark   int
}

var unitRuns = map[string]int{}

func newExec(e *Engine, name string) *Exec {
	unitRuns[name]++
	suffix := "!" + hash36(name, 4)
	if unitRuns[name] > 1 {
		suffix += fmt.Sprint(unitRuns[name])
	}
	return &Exec{e: e, name: name, suffix: suffix, cnt: map[string]int{}, flags: map[*Term]*candidate{}, goalN: map[string]int{}, inlined: map[string]bool{}, called: map[string]bool{}, termGroups: map[string]bool{}, heapDone: map[string]bool{}, allocs: map[*Term]int{}}
}

func (e *Engine) uf(name string, ret Sort, args ...*Term) *Term {
	n := smtName(name)
	if _, ok := e.decls[n]; !ok {
		var ss []string
		for _, a := range args {
			ss = append(ss, a.sort)
		}
		e.decls[n] = fmt.Sprintf("(declare-fun %s (%s) %s)", n, strings.Join(ss, " "), ret)
	}
	return mk(n, ret, args...)
}

// tagRange: the implementers of a closed-world interface have adjacent tags
func (e *Engine) tagRange(T types.Type) (int64, int64) {
	e.initTags()
	r := e.ranges[tkey(T)]
	return int64(r[0]), int64(r[1])
}

func (e *Engine) initTags() {
	if e.ranges != nil {
		return
	}
	e.ranges = map[string][2]int{}
	next := 100
	for _, b := range sortedKeys(e.S.bases) {
		n := e.lookupType(b)
		if n == nil {
			continue
		}
		var ts []types.Type
		for _, t := range e.implementers(n) {
			if _, ok := t.(*types.Pointer); ok {
				ts = append(ts, t)
			}
		}
		sort.Slice(ts, func(i, j int) bool { return tkey(ts[i]) < tkey(ts[j]) })
		lo := next
		for _, t := range ts {
			if _, dup := e.tags[tkey(t)]; dup {
				panic(unsupported{"type " + tkey(t) + " implements two closed-world interfaces"})
			}
			e.tags[tkey(t)] = next
			e.tagTy[next] = t
			next++
		}
		e.ranges[tkey(n)] = [2]int{lo, next - 1}
	}
}

func (e *Engine) tag(t types.Type) *Term {
	e.initTags()
	k := tkey(t)
	if n, ok := e.tags[k]; ok {
		return tInt(int64(n))
	}
	h, _ := strconv.ParseInt(hash36(k, 5), 36, 64)
	n := int(h) + 1000
	for e.tagTy[n] != nil {
		n++
	}
	e.tags[k] = n
	e.tagTy[n] = t
	return tInt(int64(n))
}

// fresh symbols carry the name of their unit, so terms of different units never clash
func (ex *Exec) fresh(name string, s Sort) *Term {
	name = smtName(name)
	ex.cnt[name]++
	return mkVar(fmt.Sprintf("%s!%d%s", name, ex.cnt[name], ex.suffix), s)
}

func small(t *Term) bool {
	if len(t.args) == 0 {
		return true
	}
	switch t.op {
	case "mk-slice", "mk-iface", "slen", "sarr", "soff", "scap", "itag", "ival":
		for _, a := range t.args {
			if !small(a) {
				return false
			}
		}
		return true
	case "+", "-", "len", "unit":
		for _, a := range t.args {
			if len(a.args) != 0 {
				return false
			}
		}
		return true
	}
	return false
}

func (ex *Exec) define(name string, t *Term) *Term {
	if small(t) {
		return t
	}
	if t.op == "mk-slice" || t.op == "mk-iface" {
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = ex.define(name, a)
		}
		return rebuild(t, args)
	}
	v := ex.fresh(name, t.sort)
	ex.items = append(ex.items, &item{kind: "def", v: v, term: t})
	return v
}

func (ex *Exec) assume(reach, t *Term, note string) {
	f := tImp(reach, t)
	if f == tTrue {
		return
	}
	ex.items = append(ex.items, &item{kind: "assume", term: f, note: note})
}

func (ex *Exec) posStr() string {
	if ex.curPos == token.NoPos {
		return ""
	}
	p := ex.e.P.prog.Fset.Position(ex.curPos)
	f := p.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

// goal emits an obligation and then assumes it.
func (ex *Exec) goal(reach, t *Term, kind, descr string) *item {
	if ex.dry > 0 {
		ex.assume(reach, t, "")
		return nil
	}
	f := tImp(reach, t)
	ex.goalN[kind]++
	it := &item{kind: "goal", term: f, name: fmt.Sprintf("%s/%s#%d", ex.name, kind, ex.goalN[kind]), descr: descr, pos: ex.posStr()}
	ex.items = append(ex.items, it)
	if f != tTrue {
		ex.items = append(ex.items, &item{kind: "assume", term: f, note: "goal"})
	}
	return it
}

// ---------- state

func (ex *Exec) get(st *State, heap string, s Sort) *Term {
	if t, ok := st.h[heap]; ok {
		if st.collect != nil {
			st.collect.heaps[heap] = s
		}
		return t
	}
	if st.collect != nil {
		st.collect.heaps[heap] = s
		t := mkBound("hp!"+smtName(heap), s)
		st.h[heap] = t
		return t
	}
	v := mkVar("H0!"+smtName(heap), s)
	if ex.nodeFacts && ex.dry == 0 && !ex.heapDone[heap] && ex.st0 != nil {
		ex.heapDone[heap] = true
		ex.heapFact(v, heap, ex.st0, tInt(1000000))
	}
	return v
}

// heapFact: every allocated object's field holds a proper value of its type.
func (ex *Exec) heapFact(h *Term, heap string, st *State, _ *Term) {
	T := ex.e.closedHeaps()[heap]
	if T == nil {
		return
	}
	q := mkBound("hq", SInt)
	l := tSelect(h, q)
	f := ex.typeFacts(l, T, st)
	if f == tTrue {
		return
	}
	ex.assume(tTrue, tQuant("forall", []*Term{q}, [][]*Term{{l}}, tImp(tAnd(tCmp("<", tInt(0), q), tCmp("<", q, st.ctr)), f)), "heap types")
}

func (ex *Exec) noNodes() bool {
	return ex.allocFacts && ex.contract != nil && ex.contract.opts["nonodes"] != ""
}

// noNodesIn: q is not a node that was allocated after the start of the function
func (ex *Exec) noNodesIn(q, ctr *Term) *Term {
	return tImp(tAnd(tCmp("<=", mkVar("ctr0", SInt), q), tCmp("<", q, ctr)), ex.notClosed(q))
}

func (ex *Exec) notClosed(q *Term) *Term {
	ex.e.initTags()
	d := mk("dyn", SInt, q)
	var no []*Term
	for _, k := range sortedKeys(ex.e.ranges) {
		r := ex.e.ranges[k]
		no = append(no, tNot(tAnd(tCmp("<=", tInt(int64(r[0])), d), tCmp("<=", d, tInt(int64(r[1]))))))
	}
	return tAnd(no...)
}

// closedHeaps: the fields of structs that hold pointers or closed-world interfaces
func (e *Engine) closedHeaps() map[string]types.Type {
	if e.closedH == nil {
		e.closedH = map[string]types.Type{}
		for _, n := range e.P.named {
			st, ok := under(n).(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				ft := st.Field(i).Type()
				_, sl := under(ft).(*types.Slice)
				if sl || isIface(ft) && e.isClosed(ft) || isPtr(ft) && e.isIfaceType(ft) {
					e.closedH[structFieldHeap(n, i)] = ft
				}
			}
		}
	}
	return e.closedH
}

func (ex *Exec) set(st *State, heap string, t *Term, ref *Term) {
	if len(t.args) > 0 {
		t = ex.define("H!"+heap, t)
	}
	st.h[heap] = t
	for _, l := range ex.wlog {
		if l.heaps[heap] == nil {
			l.heaps[heap] = map[*Term]bool{}
		}
		l.heaps[heap][ref] = true
		l.sorts[heap] = t.sort
	}
}

func (ex *Exec) hstore(st *State, heap string, s Sort, ref, v *Term) {
	h := ex.get(st, heap, arr(s))
	ex.set(st, heap, tStore(h, ref, v), ref)
}

func (ex *Exec) hload(st *State, heap string, s Sort, ref *Term) *Term {
	return tSelect(ex.get(st, heap, arr(s)), ref)
}

func (ex *Exec) alloc(st *State, name string) *Term {
	r := ex.fresh("new!"+name, SInt)
	ex.items = append(ex.items, &item{kind: "def", v: r, term: st.ctr})
	st.ctr = ex.define("ctr", tAdd(st.ctr, tInt(1)))
	ex.allocs[r] = 1
	if ex.contract != nil && ex.contract.opts["owns"] != "" {
		// own marks, for good, the objects this function allocates
		ex.assume(tTrue, mk("own", SBool, r), "own")
	}
	for _, l := range ex.wlog {
		l.allocs = true
	}
	if ex.allocFacts && name != "obj" {
		ex.assume(tTrue, tEq(mk("dyn", SInt, r), tInt(0)), "dyn")
	}
	return r
}

// allocStruct: a new object of a struct type, with room for the structs nested in it
func (ex *Exec) allocStruct(st *State, name string, T types.Type) *Term {
	r := ex.alloc(st, name)
	if nests(T) {
		c := ex.fresh("ctr", SInt)
		ex.assume(tTrue, tCmp("<", st.ctr, c), "nested")
		if ex.allocFacts {
			q := mkBound("hq", SInt)
			ex.assume(tTrue, tQuant("forall", []*Term{q}, [][]*Term{{mk("dyn", SInt, q)}}, tImp(tAnd(tCmp("<", r, q), tCmp("<", q, c)), ex.notClosed(q))), "nested")
		}
		st.ctr = c
	}
	return r
}

// nests: T has a struct field that does not share the identity of T
func nests(T types.Type) bool {
	s, ok := under(T).(*types.Struct)
	for i := 0; ok && i < s.NumFields(); i++ {
		if ft := s.Field(i).Type(); isStruct(ft) && (i > 0 || nests(ft)) {
			return true
		}
	}
	return false
}

func (ex *Exec) isAlloc(ref *Term) bool {
	if ref == nil {
		return false
	}
	if ex.allocs[ref] > 0 {
		return true
	}
	if strings.HasPrefix(ref.op, "subref!") {
		return ex.isAlloc(ref.args[0])
	}
	return false
}

// typeFacts: what every value of type T satisfies in state st
func (ex *Exec) typeFacts(t *Term, T types.Type, st *State) *Term {
	switch u := under(T).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Uint8:
			return tAnd(tCmp("<=", tInt(0), t), tCmp("<=", t, tInt(255)))
		case types.Int32:
			return tAnd(tCmp("<=", tInt(-2147483648), t), tCmp("<=", t, tInt(2147483647)))
		case types.Uint, types.Uint64, types.Uintptr:
			return tCmp("<=", tInt(0), t)
		case types.Uint16:
			return tAnd(tCmp("<=", tInt(0), t), tCmp("<=", t, tInt(65535)))
		case types.Uint32:
			return tAnd(tCmp("<=", tInt(0), t), tCmp("<=", t, tInt(4294967295)))
		case types.Int64, types.Int:
			return tTrue
		}
	case *types.Pointer, *types.Map:
		f := tAnd(tCmp("<=", tInt(0), t), tCmp("<", t, st.ctr))
		if p, ok := u.(*types.Pointer); ok {
			if _, ok := p.Elem().(*types.Named); ok && ex.e.isIfaceType(T) {
				f = tAnd(f, tImp(tNot(tEq(t, tInt(0))), tEq(mk("dyn", SInt, t), ex.e.tag(T))))
			}
		}
		return f
	case *types.Slice:
		nz := tAnd(tCmp("<=", tInt(0), slOff(t)), tCmp("<=", tInt(0), slLen(t)), tCmp("<=", slLen(t), slCap(t)),
			tCmp("<=", tInt(0), slArr(t)), tCmp("<", slArr(t), st.ctr), tImp(tEq(slArr(t), tInt(0)), tEq(slCap(t), tInt(0))))
		if isStruct(u.Elem()) || isArray(u.Elem()) {
			return nz
		}
		es := sortOf(u.Elem())
		if es == SSlice || es == SBool {
			return nz
		}
		m := ex.hload(st, memHeap(u.Elem()), seqOf(es), slArr(t))
		return tAnd(nz, tCmp("<=", tAdd(slOff(t), slCap(t)), seqLen(m)))
	case *types.Interface:
		f := tAnd(tCmp("<=", tInt(0), iTag(t)), tImp(tEq(iTag(t), tInt(0)), tEq(iVal(t), tInt(0))))
		if tags := ex.e.closedTags(T); tags != nil {
			lo, hi := ex.e.tagRange(T)
			nn := tAnd(tCmp("<=", tInt(lo), iTag(t)), tCmp("<=", iTag(t), tInt(hi)), tCmp("<", tInt(0), iVal(t)), tCmp("<", iVal(t), st.ctr), tEq(mk("dyn", SInt, iVal(t)), iTag(t)))
			return tOr(tAnd(tEq(iTag(t), tInt(0)), tEq(iVal(t), tInt(0))), nn)
		}
		return f
	}
	return tTrue
}

// closed-world interfaces: every implementer in the program is a pointer to a struct
func (e *Engine) implementers(T types.Type) []types.Type {
	k := tkey(T)
	if r, ok := e.impls[k]; ok {
		return r
	}
	var out []types.Type
	it, ok := under(T).(*types.Interface)
	if ok && it.NumMethods() > 0 {
		if n, ok := T.(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			for _, n := range e.P.named {
				if isIface(n) {
					continue
				}
				if types.Implements(n, it) {
					out = append(out, n)
				} else if types.Implements(types.NewPointer(n), it) {
					out = append(out, types.NewPointer(n))
				}
			}
		}
	}
	e.impls[k] = out
	return out
}

func (e *Engine) isClosed(T types.Type) bool {
	n, ok := T.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	_, ok = e.S.bases[shortPkg(n.Obj().Pkg().Path())+"."+n.Obj().Name()]
	return ok
}

func (e *Engine) closedTags(T types.Type) []*Term {
	if !e.isClosed(T) {
		return nil
	}
	var out []*Term
	for _, t := range e.implementers(T) {
		if _, ok := t.(*types.Pointer); !ok {
			continue
		}
		out = append(out, e.tag(t))
	}
	return out
}

// isIfaceType: *T is put into a closed-world interface somewhere (dyn is meaningful)
func (e *Engine) isIfaceType(T types.Type) bool {
	k := tkey(T)
	if e.usedIfaceTypes == nil {
		e.usedIfaceTypes = map[string]types.Type{}
		for b := range e.S.bases {
			if n := e.lookupType(b); n != nil {
				for _, t := range e.implementers(n) {
					e.usedIfaceTypes[tkey(t)] = t
				}
			}
		}
	}
	_, ok := e.usedIfaceTypes[k]
	return ok
}

func (e *Engine) lookupType(name string) types.Type {
	i := strings.LastIndex(name, ".")
	pk, tn := "helium", name
	if i >= 0 {
		pk, tn = name[:i], name[i+1:]
	}
	for path, p := range e.P.pkgs {
		if shortPkg(path) == pk {
			if o := p.Pkg.Scope().Lookup(tn); o != nil {
				if t, ok := o.(*types.TypeName); ok {
					return t.Type()
				}
			}
		}
	}
	// imported packages
	for _, p := range e.P.pkgs {
		for _, imp := range p.Pkg.Imports() {
			if shortPkg(imp.Path()) == pk {
				if o := imp.Scope().Lookup(tn); o != nil {
					if t, ok := o.(*types.TypeName); ok {
						return t.Type()
					}
				}
			}
		}
	}
	return nil
}

func (ex *Exec) fact(reach *Term, v Val, st *State) {
	if v.t == nil || v.typ == nil {
		return
	}
	if _, ok := v.typ.(specType); ok {
		return
	}
	if f := ex.typeFacts(v.t, v.typ, st); f != tTrue {
		ex.assume(reach, f, "type")
	}
}

// ---------- zero values

func (ex *Exec) zero(T types.Type) Val {
	switch u := under(T).(type) {
	case *types.Struct:
		sv := &StructVal{}
		for i := 0; i < u.NumFields(); i++ {
			sv.fields = append(sv.fields, ex.zero(u.Field(i).Type()))
		}
		return Val{st: sv, typ: T}
	case *types.Array:
		es := sortOf(u.Elem())
		return Val{t: mk("rep"+sfx(seqOf(es)), seqOf(es), ex.zero(u.Elem()).t, tInt(u.Len())), typ: T}
	case *types.Tuple:
		var tv []Val
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, ex.zero(u.At(i).Type()))
		}
		return Val{tup: tv, typ: T}
	}
	if _, ok := T.(*types.Tuple); ok {
		return Val{}
	}
	switch sortOf(T) {
	case SInt:
		return Val{t: tInt(0), typ: T}
	case SBool:
		return Val{t: tFalse, typ: T}
	case SSeq:
		return Val{t: seqEmpty(SSeq), typ: T}
	case SIface:
		return Val{t: nilIface, typ: T}
	case SSlice:
		return Val{t: nilSlice, typ: T}
	}
	unsup("zero of %s", T)
	return Val{}
}

// ---------- memory

func (ex *Exec) loadField(st *State, T types.Type, i int, ref *Term) Val {
	s := under(T).(*types.Struct)
	ft := s.Field(i).Type()
	if isStruct(ft) {
		return ex.loadStruct(st, ft, subRef2(ex.e, T, i, ref))
	}
	if isArray(ft) {
		unsup("array field %s.%s", tkey(T), s.Field(i).Name())
	}
	return Val{t: ex.hload(st, structFieldHeap(T, i), sortOf(ft), ref), typ: ft}
}

func subRef2(e *Engine, T types.Type, i int, ref *Term) *Term {
	r := subRef(T, i, ref)
	if r != ref {
		if _, ok := e.decls[r.op]; !ok {
			e.decls[r.op] = fmt.Sprintf("(declare-fun %s (Int) Int)", r.op)
		}
	}
	return r
}

func (ex *Exec) loadStruct(st *State, T types.Type, ref *Term) Val {
	s := under(T).(*types.Struct)
	snap := st.clone()
	sv := &StructVal{fields: make([]Val, s.NumFields())}
	for i := range sv.fields {
		sv.fields[i].none = true
	}
	if st.collect != nil {
		snap = st
	}
	sv.lazy = func(i int) Val { return ex.loadField(snap, T, i, ref) }
	return Val{st: sv, typ: T, t: ref}
}

func (ex *Exec) storeStruct(st *State, T types.Type, ref *Term, v Val) {
	s := under(T).(*types.Struct)
	// read all first
	fs := make([]Val, s.NumFields())
	for i := range fs {
		fs[i] = v.st.field(i)
		if fs[i].st != nil {
			ex.force(fs[i])
		}
	}
	for i := range fs {
		ex.storeField(st, T, i, ref, fs[i])
	}
}

func (ex *Exec) force(v Val) {
	for i := range v.st.fields {
		f := v.st.field(i)
		if f.st != nil {
			ex.force(f)
		}
	}
}

func (ex *Exec) storeField(st *State, T types.Type, i int, ref *Term, v Val) {
	s := under(T).(*types.Struct)
	ft := s.Field(i).Type()
	if isStruct(ft) {
		ex.storeStruct(st, ft, subRef2(ex.e, T, i, ref), v)
		return
	}
	if isArray(ft) {
		unsup("array field store")
	}
	ex.hstore(st, structFieldHeap(T, i), sortOf(ft), ref, ex.term(v))
}

func (ex *Exec) load(st *State, a *Addr) Val {
	switch a.kind {
	case "field", "cell":
		return Val{t: ex.hload(st, a.heap, a.hsort, a.ref), typ: a.typ}
	case "elem":
		m := ex.hload(st, a.heap, seqOf(a.hsort), a.ref)
		return Val{t: seqAt(m, a.idx), typ: a.typ}
	case "global":
		return Val{t: ex.get(st, a.heap, a.hsort), typ: a.typ}
	}
	panic("addr kind")
}

func (ex *Exec) store(st *State, a *Addr, v Val) {
	t := ex.term(v)
	switch a.kind {
	case "field", "cell":
		ex.hstore(st, a.heap, a.hsort, a.ref, t)
	case "elem":
		m := ex.hload(st, a.heap, seqOf(a.hsort), a.ref)
		ex.hstore(st, a.heap, seqOf(a.hsort), a.ref, seqUpd(m, a.idx, t))
	case "global":
		ex.set(st, a.heap, t, tInt(0))
	}
}

// term of a scalar value
func (ex *Exec) term(v Val) *Term {
	if v.t != nil {
		return v.t
	}
	if v.clo != nil {
		return ex.e.uf("closure!"+v.clo.fn.String(), SInt)
	}
	if v.addr != nil && v.addr.kind == "cell" {
		return v.addr.ref
	}
	if v.addr != nil {
		unsup("address of %s escapes", v.addr.heap)
	}
	if v.isNil {
		return tInt(0)
	}
	unsup("no scalar term for value of type %v", v.typ)
	return nil
}

// addrOf: the address designated by a pointer value to type T
func (ex *Exec) addrOf(p Val, T types.Type) *Addr {
	if p.addr != nil {
		return p.addr
	}
	return &Addr{kind: "cell", heap: cellHeap(T), hsort: sortOf(T), ref: p.t, typ: T}
}

func (ex *Exec) view(st *State, sl *Term, elem types.Type) *Term {
	es := sortOf(elem)
	m := ex.hload(st, memHeap(elem), seqOf(es), slArr(sl))
	return seqSub(m, slOff(sl), tAdd(slOff(sl), slLen(sl)))
}

func (ex *Exec) ghostHeap(name string) (string, Sort) {
	return "G:" + name, ex.e.S.ghosts[name]
}

// ---------- boxing

func (ex *Exec) makeIface(v Val, T types.Type) *Term {
	tag := ex.e.tag(T)
	switch under(T).(type) {
	case *types.Pointer:
		return mkIface(tag, ex.term(v))
	case *types.Struct:
		return mkIface(tag, ex.box(T, v))
	}
	s := sortOf(T)
	switch s {
	case SInt:
		return mkIface(tag, ex.term(v))
	case SBool:
		return mkIface(tag, tIte(v.t, tInt(1), tInt(0)))
	case SSeq, SSlice:
		return mkIface(tag, ex.boxT(s, v.t))
	}
	unsup("boxing %s", T)
	return nil
}

func (ex *Exec) boxT(s Sort, t *Term) *Term {
	b := ex.e.uf("box!"+s, SInt, t)
	if !ex.e.boxes[s] {
		ex.e.boxes[s] = true
		ex.e.uf("unbox!"+s, s, b)
	}
	return b
}

func (ex *Exec) unboxT(s Sort, t *Term) *Term {
	if t.op == smtName("box!"+s) {
		return t.args[0]
	}
	if !ex.e.boxes[s] {
		ex.boxT(s, mkBound("bx", s))
	}
	return ex.e.uf("unbox!"+s, s, t)
}

func flatten(ex *Exec, v Val) []*Term {
	if v.st != nil {
		var out []*Term
		for i := range v.st.fields {
			out = append(out, flatten(ex, v.st.field(i))...)
		}
		return out
	}
	return []*Term{ex.term(v)}
}

func (ex *Exec) box(T types.Type, v Val) *Term {
	ts := flatten(ex, v)
	k := tkey(T)
	if len(ts) == 0 {
		return ex.e.uf("box!"+k, SInt)
	}
	b := ex.e.uf("box!"+k, SInt, ts...)
	if !ex.e.boxes["st:"+k] {
		ex.e.boxes["st:"+k] = true
		for i, t := range ts {
			ex.e.uf(fmt.Sprintf("unbox!%s!%d", k, i), t.sort, b)
		}
		// axiom
		var vs, names []string
		for i, t := range ts {
			vs = append(vs, fmt.Sprintf("(x%d %s)", i, t.sort))
			names = append(names, fmt.Sprintf("x%d", i))
		}
		app := fmt.Sprintf("(%s %s)", smtName("box!"+k), strings.Join(names, " "))
		var cj []string
		for i := range ts {
			cj = append(cj, fmt.Sprintf("(= (%s %s) x%d)", smtName(fmt.Sprintf("unbox!%s!%d", k, i)), app, i))
		}
		ex.e.decls["~ax:"+k] = fmt.Sprintf("(assert (forall (%s) (! (and %s) :pattern (%s))))", strings.Join(vs, " "), strings.Join(cj, " "), app)
	}
	return b
}

func (ex *Exec) unbox(T types.Type, b *Term) Val {
	z := ex.zero(T)
	if len(flatten(ex, z)) > 0 && !ex.e.boxes["st:"+tkey(T)] {
		ex.box(T, z)
	}
	n := 0
	k := tkey(T)
	var rec func(z Val) Val
	rec = func(z Val) Val {
		if z.st != nil {
			sv := &StructVal{}
			for i := range z.st.fields {
				sv.fields = append(sv.fields, rec(z.st.field(i)))
			}
			return Val{st: sv, typ: z.typ}
		}
		var t *Term
		if b.op == smtName("box!"+k) {
			t = b.args[n]
		} else {
			t = ex.e.uf(fmt.Sprintf("unbox!%s!%d", k, n), z.t.sort, b)
		}
		n++
		return Val{t: t, typ: z.typ}
	}
	return rec(z)
}

// unwrap an interface value known to hold T
func (ex *Exec) fromIface(t *Term, T types.Type) Val {
	switch under(T).(type) {
	case *types.Pointer:
		return Val{t: iVal(t), typ: T}
	case *types.Struct:
		return ex.unbox(T, iVal(t))
	}
	s := sortOf(T)
	switch s {
	case SInt:
		return Val{t: iVal(t), typ: T}
	case SBool:
		return Val{t: tEq(iVal(t), tInt(1)), typ: T}
	case SSeq, SSlice:
		return Val{t: ex.unboxT(s, iVal(t)), typ: T}
	}
	unsup("unboxing %s", T)
	return Val{}
}

// ---------- merging

func (ex *Exec) mergeVals(name string, conds []*Term, vals []Val) Val {
	first := vals[0]
	same := true
	for _, v := range vals[1:] {
		if !sameVal(first, v) {
			same = false
		}
	}
	if same {
		return first
	}
	if first.tup != nil {
		out := Val{typ: first.typ}
		for i := range first.tup {
			var sub []Val
			for _, v := range vals {
				sub = append(sub, v.tup[i])
			}
			out.tup = append(out.tup, ex.mergeVals(name, conds, sub))
		}
		return out
	}
	if first.st != nil {
		out := Val{typ: first.typ, st: &StructVal{}}
		for i := range first.st.fields {
			var sub []Val
			for _, v := range vals {
				if v.st == nil {
					unsup("merging struct with non-struct")
				}
				sub = append(sub, v.st.field(i))
			}
			out.st.fields = append(out.st.fields, ex.mergeVals(name, conds, sub))
		}
		return out
	}
	var t *Term
	for i := len(vals) - 1; i >= 0; i-- {
		if vals[i].addr != nil && vals[i].addr.kind != "cell" {
			unsup("merging addresses")
		}
		x := ex.term(vals[i])
		if t == nil {
			t = x
		} else {
			t = tIte(conds[i], x, t)
		}
	}
	out := Val{t: ex.define(name, t), typ: first.typ}
	for i, v := range vals {
		switch {
		case v.clo != nil:
			out.alts = append(out.alts, funcAlt{conds[i], v})
		case v.alts != nil:
			for _, a := range v.alts {
				out.alts = append(out.alts, funcAlt{tAnd(conds[i], a.cond), a.v})
			}
		default:
			out.alts = nil
			return out
		}
	}
	return out
}

func sameVal(a, b Val) bool {
	if a.t != nil || b.t != nil {
		if a.st != nil || b.st != nil {
			return a.st == b.st
		}
		return a.t == b.t
	}
	if a.addr != nil && b.addr != nil {
		return *a.addr == *b.addr
	}
	if a.clo != nil && b.clo != nil {
		if a.clo.fn != b.clo.fn || len(a.clo.bind) != len(b.clo.bind) {
			return false
		}
		for i := range a.clo.bind {
			if !sameVal(a.clo.bind[i], b.clo.bind[i]) {
				return false
			}
		}
		return true
	}
	if a.st != nil && b.st != nil {
		if a.st == b.st {
			return true
		}
		for i := range a.st.fields {
			if !sameVal(a.st.field(i), b.st.field(i)) {
				return false
			}
		}
		return true
	}
	if a.tup != nil && b.tup != nil && len(a.tup) == len(b.tup) {
		for i := range a.tup {
			if !sameVal(a.tup[i], b.tup[i]) {
				return false
			}
		}
		return true
	}
	return a.isNil && b.isNil
}

func (ex *Exec) mergeStates(conds []*Term, sts []*State) *State {
	if len(sts) == 1 {
		return sts[0].clone()
	}
	out := sts[0].clone()
	keys := map[string]Sort{}
	for _, s := range sts {
		for k, t := range s.h {
			keys[k] = t.sort
		}
	}
	for _, k := range sortedKeys(keys) {
		srt := keys[k]
		same := true
		f := ex.get(sts[0], k, srt)
		for _, s := range sts[1:] {
			if ex.get(s, k, srt) != f {
				same = false
			}
		}
		if same {
			out.h[k] = f
			continue
		}
		var t *Term
		for i := len(sts) - 1; i >= 0; i-- {
			x := ex.get(sts[i], k, srt)
			if t == nil {
				t = x
			} else {
				t = tIte(conds[i], x, t)
			}
		}
		m := ex.define("H!"+k, t)
		out.h[k] = m
		if strings.HasPrefix(k, "M:") && m != t {
			// (implied by the definition; lets facts about the parts be used for the whole)
			q := mkBound("mq", SInt)
			var u *Term
			for i := len(sts) - 1; i >= 0; i-- {
				x := tSelect(ex.get(sts[i], k, srt), q)
				if u == nil {
					u = x
				} else {
					u = tIte(conds[i], x, u)
				}
			}
			sel := mk("select", elemSort(srt), m, q)
			ex.assume(tTrue, tQuant("forall", []*Term{q}, [][]*Term{{sel}}, tImp(tAnd(tCmp("<", tInt(0), q), tCmp("<", q, tInt(1000000))), mk("=", SBool, sel, u))), "merged memory")
		}
	}
	var c *Term
	for i := len(sts) - 1; i >= 0; i-- {
		if c == nil {
			c = sts[i].ctr
		} else {
			c = tIte(conds[i], sts[i].ctr, c)
		}
	}
	out.ctr = ex.define("ctr", c)
	// deferred calls
	seen := map[*deferred]bool{}
	out.defers = nil
	for _, s := range sts {
		for _, d := range s.defers {
			if !seen[d] {
				seen[d] = true
				out.defers = append(out.defers, d)
			}
		}
	}
	return out
}

// ---------- functions

type edge struct {
	from *ssa.BasicBlock
	cond *Term
	st   *State
}

type retEdge struct {
	cond *Term
	st   *State
	vals []Val
}

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	ord    int
	backs  map[*ssa.BasicBlock]bool
}

type Frame struct {
	fn    *ssa.Function
	regs  map[ssa.Value]Val
	in    map[*ssa.BasicBlock][]edge
	rets  []retEdge
	loops map[*ssa.BasicBlock]*loopInfo
	rpo   []*ssa.BasicBlock
	spec  *Contract
	bind  []Val
	args  []Val
	// header state per active loop
	heads   map[*ssa.BasicBlock]*headInfo
	names   map[string]ssa.Value
	only    map[*ssa.BasicBlock]bool // restrict execution to these blocks
	entrySt *State
}

type headInfo struct {
	st        *State
	phis      map[*ssa.Phi]Val
	cands     []*invCand
	meas      []*measCand
	reach     *Term
	entryVals map[*ssa.Phi]Val
	entrySt   *State
	whole     map[string]bool
}

type invCand struct {
	flag *Term
	eval func(get func(ssa.Value) Val, st *State) *Term
	src  string
	user bool
}
type measCand struct {
	m0   *Term
	eval func(get func(ssa.Value) Val, st *State) *Term
	src  string
	id   string
}

func analyzeLoops(fn *ssa.Function) (rpo []*ssa.BasicBlock, loops map[*ssa.BasicBlock]*loopInfo) {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		rpo = append(rpo, post[i])
	}
	loops = map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := loops[s]
				if l == nil {
					l = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}, backs: map[*ssa.BasicBlock]bool{}}
					loops[s] = l
				}
				l.backs[b] = true
				var work []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					work = append(work, b)
				}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					for _, p := range x.Preds {
						if seen[p] && !l.body[p] {
							l.body[p] = true
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	// RPO that keeps loops contiguous is not needed; ordinals follow RPO of headers
	n := 0
	for _, b := range rpo {
		if l := loops[b]; l != nil {
			n++
			l.ord = n
		}
	}
	return
}

// topological order where every block of a loop comes before blocks after the loop
// that depend on it: plain RPO on the acyclic part is sufficient.

func (ex *Exec) execFunc(fn *ssa.Function, args, bind []Val, st *State, reach *Term, spec *Contract) ([]Val, *State, *Term) {
	if fn.Blocks == nil {
		unsup("no body for %s", fn)
	}
	for _, f := range ex.stack {
		if f == fn {
			unsup("recursive call of %s without a contract", funcName(fn))
		}
	}
	if len(ex.stack) > 14 {
		unsup("inlining too deep at %s", funcName(fn))
	}
	ex.stack = append(ex.stack, fn)
	saveFn := ex.curFn
	ex.curFn = fn
	defer func() { ex.stack = ex.stack[:len(ex.stack)-1]; ex.curFn = saveFn }()

	fr := &Frame{fn: fn, regs: map[ssa.Value]Val{}, in: map[*ssa.BasicBlock][]edge{}, heads: map[*ssa.BasicBlock]*headInfo{}, spec: spec, bind: bind, args: args}
	fr.rpo, fr.loops = analyzeLoops(fn)
	for i, p := range fn.Params {
		if i < len(args) {
			fr.regs[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		fr.regs[fv] = bind[i]
	}
	saved := st.defers
	st = st.clone()
	st.defers = nil
	fr.entrySt = st.clone()
	fr.in[fn.Blocks[0]] = []edge{{nil, reach, st}}
	ex.runBlocks(fr, fr.rpo)
	// merge returns
	if len(fr.rets) == 0 {
		// never returns normally
		st2 := st.clone()
		st2.defers = saved
		var zs []Val
		rs := fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			zs = append(zs, ex.zero(rs.At(i).Type()))
		}
		return zs, st2, tFalse
	}
	var conds []*Term
	var sts []*State
	for _, r := range fr.rets {
		conds = append(conds, r.cond)
		sts = append(sts, r.st)
	}
	out := ex.mergeStates(conds, sts)
	out.defers = saved
	var vals []Val
	for i := range fr.rets[0].vals {
		var vs []Val
		for _, r := range fr.rets {
			vs = append(vs, r.vals[i])
		}
		vals = append(vals, ex.mergeVals("ret!"+fn.Name(), conds, vs))
	}
	return vals, out, ex.define("r!"+fn.Name(), tOr(conds...))
}

func (ex *Exec) runBlocks(fr *Frame, blocks []*ssa.BasicBlock) {
	for _, b := range blocks {
		if fr.only != nil && !fr.only[b] {
			continue
		}
		edges := fr.in[b]
		if len(edges) == 0 {
			continue
		}
		var conds []*Term
		var sts []*State
		for _, e := range edges {
			conds = append(conds, e.cond)
			sts = append(sts, e.st)
		}
		reach := ex.define(fmt.Sprintf("r!%s.%d", fr.fn.Name(), b.Index), tOr(conds...))
		st := ex.mergeStates(conds, sts)
		// phis
		phiIn := map[*ssa.Phi]Val{}
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				break
			}
			var vs []Val
			for _, e := range edges {
				vs = append(vs, ex.val(fr, phi.Edges[predIndex(b, e.from)]))
			}
			phiIn[phi] = ex.mergeVals(phiName(phi), conds, vs)
		}
		for p, v := range phiIn {
			fr.regs[p] = v
		}
		if l := fr.loops[b]; l != nil {
			st = ex.enterLoop(fr, l, phiIn, st, reach)
		}
		ex.execBlock(fr, b, st, reach)
	}
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func predIndex(b, from *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == from {
			return i
		}
	}
	panic("pred")
}

// addEdge records control flow from b to succ.
func (ex *Exec) addEdge(fr *Frame, b, succ *ssa.BasicBlock, cond *Term, st *State) {
	if cond == tFalse {
		return
	}
	if l := fr.loops[succ]; l != nil && l.backs[b] {
		ex.backEdge(fr, l, b, cond, st)
		return
	}
	if fr.only != nil && !fr.only[succ] {
		return
	}
	// two edges from the same block to the same successor: merge conditions
	for i, e := range fr.in[succ] {
		if e.from == b {
			fr.in[succ][i].cond = tOr(e.cond, cond)
			return
		}
	}
	fr.in[succ] = append(fr.in[succ], edge{b, cond, st})
}

func copyRegs(m map[ssa.Value]Val) map[ssa.Value]Val {
	n := make(map[ssa.Value]Val, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

// enterLoop cuts the loop at its header.
func (ex *Exec) enterLoop(fr *Frame, l *loopInfo, phiIn map[*ssa.Phi]Val, st *State, reach *Term) *State {
	ex.loopCnt++
	h := l.header
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	havocPhis := func() map[*ssa.Phi]Val {
		m := map[*ssa.Phi]Val{}
		for _, p := range phis {
			v := phiIn[p]
			if v.addr != nil || v.clo != nil || v.alts != nil {
				// must be loop invariant
				m[p] = v
				continue
			}
			m[p] = ex.havocVal(phiName(p), p.Type())
		}
		return m
	}
	// 1. dry runs: which heaps does the body write?
	dryRun := func(s *State) *writeLog {
		mark := len(ex.items)
		regs := fr.regs
		in := fr.in
		rets := fr.rets
		only := fr.only
		heads := fr.heads
		fr.regs = copyRegs(regs)
		fr.in = map[*ssa.BasicBlock][]edge{}
		fr.only = map[*ssa.BasicBlock]bool{}
		for b := range l.body {
			if only == nil || only[b] {
				fr.only[b] = true
			}
		}
		fr.heads = map[*ssa.BasicBlock]*headInfo{}
		for p, v := range havocPhis() {
			fr.regs[p] = v
		}
		log := &writeLog{heaps: map[string]map[*Term]bool{}, sorts: map[string]Sort{}, mark: termCnt}
		ex.wlog = append(ex.wlog, log)
		ex.dry++
		fr.heads[h] = &headInfo{}
		var rest []*ssa.BasicBlock
		for _, b := range fr.rpo {
			if b != h && fr.only[b] {
				rest = append(rest, b)
			}
		}
		ex.execBlock(fr, h, s.clone(), reach)
		ex.runBlocks(fr, rest)
		ex.dry--
		ex.wlog = ex.wlog[:len(ex.wlog)-1]
		fr.regs, fr.in, fr.rets, fr.only, fr.heads = regs, in, rets, only, heads
		ex.items = ex.items[:mark]
		return log
	}
	log := dryRun(st)
	var hs *State
	for iter := 0; ; iter++ {
		hs = st.clone()
		for k := range log.heaps {
			hs.h[k] = ex.fresh("L!"+k, log.sorts[k])
		}
		if log.allocs {
			hs.ctr = ex.fresh("ctr", SInt)
		}
		n0 := termCnt
		log2 := dryRun(hs)
		log2.mark = n0
		grew := false
		for k := range log2.heaps {
			if log.heaps[k] == nil {
				log.heaps[k] = map[*Term]bool{}
				log.sorts[k] = log2.sorts[k]
				grew = true
			}
		}
		if log2.allocs && !log.allocs {
			log.allocs = true
			grew = true
		}
		if !grew || iter > 4 {
			log.heaps = log2.heaps
			log.mark = n0
			break
		}
	}
	// 2. havoc
	out := st.clone()
	if log.allocs {
		c := ex.fresh("ctr", SInt)
		ex.assume(tTrue, tCmp("<=", st.ctr, c), "ctr")
		out.ctr = c
	}
	whole := map[string]bool{}
	for _, k := range sortedKeys(log.heaps) {
		srt := log.sorts[k]
		old := ex.get(st, k, srt)
		if !strings.HasPrefix(srt, "(Array Int") || strings.HasPrefix(k, "V:") {
			out.h[k] = ex.fresh("L!"+k, srt)
			continue
		}
		inv := true
		var refs []*Term
		freshOnly := false
		logged := map[*Term]bool{}
		var addRef func(r *Term)
		addRef = func(r *Term) {
			if al, ok := ex.alias[r]; ok && !ex.loopInvariant(r, hs, st, log.mark) {
				for _, a := range al {
					addRef(a)
				}
				return
			}
			logged[r] = true
		}
		for r := range log.heaps[k] {
			addRef(r)
		}
		for r := range logged {
			switch {
			case r == nil:
				inv = false
			case ex.loopInvariant(r, hs, st, log.mark):
				refs = append(refs, r)
			case ex.freshIn(r, log.mark):
				freshOnly = true
			default:
				inv = false
			}
		}
		sort.Slice(refs, func(i, j int) bool { return refs[i].id < refs[j].id })
		var t *Term
		if inv && !freshOnly {
			t = old
			for _, r := range refs {
				t = tStore(t, r, ex.fresh("L!"+k, elemSort(srt)))
			}
			t = ex.define("L!"+k, t)
		} else {
			t = ex.fresh("L!"+k, srt)
			whole[k] = true
			if inv {
				// only loop-invariant locations and objects allocated in the loop change
				q := mkBound("qr", SInt)
				cs := []*Term{tCmp("<", q, st.ctr)}
				for _, r := range refs {
					cs = append(cs, tNot(tEq(q, r)))
				}
				body := tImp(tAnd(cs...), tEq(tSelect(t, q), tSelect(old, q)))
				ex.assume(tTrue, tQuant("forall", []*Term{q}, [][]*Term{{tSelect(t, q)}}, body), "loop frame")
			}
		}
		out.h[k] = t
		if ex.nodeFacts && whole[k] {
			ex.heapFact(t, k, out, nil)
		}
	}
	if log.allocs && ex.noNodes() {
		ex.goal(reach, ex.noNodesIn(ex.fresh("q", SInt), st.ctr), "frame", "no node is allocated before the loop")
		q := mkBound("hq", SInt)
		ex.assume(tTrue, tQuant("forall", []*Term{q}, [][]*Term{{mk("dyn", SInt, q)}}, ex.noNodesIn(q, out.ctr)), "no nodes")
	}
	hp := havocPhis()
	for p, v := range hp {
		fr.regs[p] = v
		if v.st == nil {
			ex.fact(reach, v, out)
		}
	}
	if ex.dry > 0 {
		fr.heads[h] = &headInfo{}
		return out
	}
	hi := &headInfo{st: out, phis: hp, reach: reach, entryVals: phiIn, entrySt: st, whole: whole}
	fr.heads[h] = hi
	ex.curPos = h.Instrs[0].Pos()
	for _, in := range h.Instrs {
		if in.Pos() != token.NoPos {
			ex.curPos = in.Pos()
			break
		}
	}
	hi.cands, hi.meas = ex.loopCandidates(fr, l, phis)
	entryGet := func(v ssa.Value) Val {
		if p, ok := v.(*ssa.Phi); ok && p.Block() == h {
			return phiIn[p]
		}
		return ex.val(fr, v)
	}
	headGet := func(v ssa.Value) Val { return ex.val(fr, v) }
	var keep []*invCand
	for _, c := range hi.cands {
		te, ok := ex.tryEval(func() *Term { return c.eval(entryGet, st) })
		if !ok {
			continue
		}
		th, ok := ex.tryEval(func() *Term { return c.eval(headGet, out) })
		if !ok {
			continue
		}
		c.flag = ex.fresh("inv!"+fr.fn.Name(), SBool)
		ex.flags[c.flag] = &candidate{flag: c.flag, auto: !c.user || ex.enum, src: fmt.Sprintf("%s loop %d: %s", funcName(fr.fn), l.ord, c.src)}
		ex.flagGoal(reach, te, c.flag, "inv-entry", fmt.Sprintf("loop %d of %s: %s", l.ord, funcName(fr.fn), c.src))
		ex.assume(tAnd(reach, c.flag), th, "invariant")
		keep = append(keep, c)
	}
	hi.cands = keep
	var km []*measCand
	for i, m := range hi.meas {
		if m.eval == nil {
			km = append(km, m)
			continue
		}
		t, ok := ex.tryEval(func() *Term { return m.eval(headGet, out) })
		if !ok {
			continue
		}
		m.m0 = ex.define("meas", t)
		m.id = fmt.Sprintf("%s loop %d(%d)|%d", funcName(fr.fn), l.ord, ex.loopCnt, i)
		km = append(km, m)
	}
	hi.meas = km
	return out
}

func (ex *Exec) tryEval(f func() *Term) (t *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if ee, is := r.(evalError); is {
				if ex.e.debug {
					fmt.Fprintln(os.Stderr, "  [skip invariant]", ee.msg)
				}
				ok = false
				return
			}
			panic(r)
		}
	}()
	return f(), true
}

func (ex *Exec) flagGoal(reach, t *Term, flag *Term, kind, descr string) {
	it := &item{kind: "goal", term: tImp(reach, t), descr: descr, pos: ex.posStr(), flag: flag}
	ex.goalN[kind]++
	it.name = fmt.Sprintf("%s/%s#%d", ex.name, kind, ex.goalN[kind])
	ex.items = append(ex.items, it)
}

func (ex *Exec) loopInvariant(r *Term, hs, st *State, mark int) bool {
	// the term mentions no symbol created after the loop head
	ok := true
	r.walk(func(t *Term) bool {
		if t.isVar && !t.bound && t.id > mark {
			ok = false
		}
		return ok
	}, map[*Term]bool{})
	if !ok {
		return false
	}
	for k := range hs.h {
		if hs.h[k] != st.h[k] {
			v := hs.h[k]
			r.walk(func(t *Term) bool {
				if t == v {
					ok = false
				}
				return ok
			}, map[*Term]bool{})
		}
	}
	r.walk(func(t *Term) bool {
		if t == hs.ctr && hs.ctr != st.ctr {
			ok = false
		}
		return ok
	}, map[*Term]bool{})
	return ok
}

func (ex *Exec) freshIn(r *Term, mark int) bool { return r.id > mark && ex.isAlloc(r) }

func (ex *Exec) havocVal(name string, T types.Type) Val {
	if isStruct(T) {
		s := under(T).(*types.Struct)
		sv := &StructVal{}
		for i := 0; i < s.NumFields(); i++ {
			sv.fields = append(sv.fields, ex.havocVal(name+"."+s.Field(i).Name(), s.Field(i).Type()))
		}
		return Val{st: sv, typ: T}
	}
	if tt, ok := T.(*types.Tuple); ok {
		out := Val{typ: T}
		for i := 0; i < tt.Len(); i++ {
			out.tup = append(out.tup, ex.havocVal(name, tt.At(i).Type()))
		}
		return out
	}
	return Val{t: ex.fresh(name, sortOf(T)), typ: T}
}

func (ex *Exec) factsDeep(reach *Term, v Val, st *State) {
	if v.st != nil {
		for i := range v.st.fields {
			if !v.st.fields[i].none {
				ex.factsDeep(reach, v.st.fields[i], st)
			}
		}
		return
	}
	for _, x := range v.tup {
		ex.factsDeep(reach, x, st)
	}
	ex.fact(reach, v, st)
}

func (ex *Exec) backEdge(fr *Frame, l *loopInfo, b *ssa.BasicBlock, cond *Term, st *State) {
	hi := fr.heads[l.header]
	if ex.dry > 0 || hi == nil || hi.reach == nil {
		return
	}
	idx := predIndex(l.header, b)
	get := func(v ssa.Value) Val {
		if p, ok := v.(*ssa.Phi); ok && p.Block() == l.header {
			return ex.val(fr, p.Edges[idx])
		}
		return ex.val(fr, v)
	}
	for p, v := range hi.phis {
		if v.addr != nil || v.clo != nil || v.alts != nil {
			if !sameVal(v, ex.val(fr, p.Edges[idx])) {
				unsup("loop-carried address or closure in %s", fr.fn)
			}
		}
	}
	if hi.st.ctr != st.ctr && ex.noNodes() {
		ex.goal(cond, ex.noNodesIn(ex.fresh("q", SInt), st.ctr), "frame", "no node is allocated in the loop")
	}
	for _, c := range hi.cands {
		t, ok := ex.tryEval(func() *Term { return c.eval(get, st) })
		if !ok {
			t = tFalse
		}
		ex.flagGoal(cond, t, c.flag, "inv-keep", fmt.Sprintf("loop %d of %s: %s", l.ord, funcName(fr.fn), c.src))
	}
	group := fmt.Sprintf("%s loop %d(%d)", funcName(fr.fn), l.ord, len(fr.heads))
	if len(hi.meas) == 0 {
		ex.goal(cond, tFalse, "terminates", fmt.Sprintf("loop %d of %s terminates (no measure)", l.ord, funcName(fr.fn)))
		return
	}
	for _, m := range hi.meas {
		if m.eval == nil {
			return
		}
	}
	for _, m := range hi.meas {
		t, ok := ex.tryEval(func() *Term { return m.eval(get, st) })
		if !ok {
			t = m.m0
		}
		it := &item{kind: "goal", term: tImp(cond, tAnd(tCmp("<=", tInt(0), m.m0), tCmp("<", t, m.m0))), descr: fmt.Sprintf("loop %d of %s decreases %s", l.ord, funcName(fr.fn), m.src), pos: ex.posStr(), term2: m.id}
		ex.goalN["terminates"]++
		it.name = fmt.Sprintf("%s/terminates#%d", ex.name, ex.goalN["terminates"])
		ex.items = append(ex.items, it)
	}
	_ = group
}

// ---------- values

func (ex *Exec) val(fr *Frame, v ssa.Value) Val {
	if x, ok := fr.regs[v]; ok {
		return x
	}
	switch v := v.(type) {
	case *ssa.Const:
		return ex.constVal(v)
	case *ssa.Global:
		return ex.globalAddr(v)
	case *ssa.Function:
		return Val{clo: &Closure{fn: v}, typ: v.Type()}
	case *ssa.Builtin:
		return Val{typ: v.Type()}
	}
	unsup("value %s (%T) not available in %s", v.Name(), v, fr.fn)
	return Val{}
}

func (ex *Exec) constVal(c *ssa.Const) Val {
	T := c.Type()
	if c.Value == nil {
		return ex.zero(T)
	}
	switch sortOf(T) {
	case SBool:
		return Val{t: tBool(constant.BoolVal(c.Value)), typ: T}
	case SSeq:
		return Val{t: qLit(constant.StringVal(c.Value)), typ: T}
	case SInt:
		if b, ok := under(T).(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return Val{t: ex.e.uf("float!"+c.Value.ExactString(), SInt), typ: T}
		}
		if n, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return Val{t: tInt(n), typ: T}
		}
		return Val{t: ex.e.uf("bigconst!"+c.Value.ExactString(), SInt), typ: T}
	}
	unsup("constant %s", c)
	return Val{}
}

func (ex *Exec) globalAddr(g *ssa.Global) Val {
	T := g.Type().(*types.Pointer).Elem()
	name := shortPkg(g.Pkg.Pkg.Path()) + "." + g.Name()
	if isStruct(T) {
		r := ex.e.uf("gref!"+name, SInt)
		ex.e.decls["~gr:"+name] = fmt.Sprintf("(assert (and (< 0 %s) (< %s ctr0)))", r.op, r.op)
		return Val{t: r, typ: g.Type()}
	}
	if isArray(T) {
		r := ex.e.uf("gref!"+name, SInt)
		ex.e.decls["~gr:"+name] = fmt.Sprintf("(assert (and (< 0 %s) (< %s ctr0)))", r.op, r.op)
		return Val{t: r, typ: g.Type()}
	}
	if ex.e.immutable(g) {
		// never assigned outside package initialisation
		a := &Addr{kind: "global", heap: "K:" + name, hsort: sortOf(T), typ: T}
		ex.e.globalFacts(g, name, T)
		return Val{addr: a, typ: g.Type()}
	}
	return Val{addr: &Addr{kind: "global", heap: "V:" + name, hsort: sortOf(T), typ: T}, typ: g.Type()}
}

// immutable: no store to g outside init functions, and its address does not escape
func (e *Engine) immutable(g *ssa.Global) bool {
	if r, ok := e.immut[g]; ok {
		return r
	}
	ok := true
	if e.P.pkgs[g.Pkg.Pkg.Path()] == nil {
		e.immut[g] = true // variable of a dependency
		e.assum["package variable "+g.RelString(nil)+" of a dependency is never reassigned"] = true
		return true
	}
	var check func(fn *ssa.Function)
	check = func(fn *ssa.Function) {
		isInit := fn.Name() == "init" && fn.Synthetic != ""
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != g {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
					case *ssa.DebugRef:
					case *ssa.Store:
						if x.Addr == g && isInit {
							continue
						}
						ok = false
					default:
						ok = false
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			check(a)
		}
	}
	for _, f := range e.P.funcs {
		check(f)
	}
	for _, p := range e.P.pkgs {
		if f := p.Func("init"); f != nil {
			check(f)
		}
	}
	e.immut[g] = ok
	return ok
}

// globalFacts derives facts on an immutable global from its initialiser.
func (e *Engine) globalFacts(g *ssa.Global, name string, T types.Type) {
	key := "~gk:" + name
	if _, ok := e.decls[key]; ok {
		return
	}
	c := "H0!" + smtName("K:"+name)
	e.decls[key] = ""
	if e.P.pkgs[g.Pkg.Pkg.Path()] == nil {
		if tkey(T) == "error" {
			e.decls[key] = fmt.Sprintf("(assert (and (> (itag %s) 0) (= (ival %s) %d)))", c, c, -1000-len(e.decls))
			e.assum["error variable "+name+" of a dependency is not nil"] = true
		}
		return
	}
	init := g.Pkg.Func("init")
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || st.Addr != g {
				continue
			}
			switch v := st.Val.(type) {
			case *ssa.Call:
				if f := v.Call.StaticCallee(); f != nil {
					n := funcName(f)
					if n == "errors.New" || n == "fmt.Errorf" {
						// distinct non-nil error object: identity is the (negative) number of the variable
						e.decls[key] = fmt.Sprintf("(assert (= %s (mk-iface %d (- %d))))", c, e.errTagN(), 1000+e.gIndex(name))
						return
					}
				}
			case *ssa.Convert:
				if cst, ok := v.X.(*ssa.Const); ok && sortOf(T) == SSlice {
					e.sliceGlobal(key, c, constant.StringVal(cst.Value), T, name)
					return
				}
			case *ssa.Slice:
				// composite literal of strings
				if ss, ok := e.litStrings(v, init); ok {
					e.stringsGlobal(key, c, ss, name)
					return
				}
				// composite literal of bytes
				if s, ok := e.litBytes(v, init); ok && sortOf(T) == SSlice {
					e.sliceGlobal(key, c, s, T, name)
					return
				}
			case *ssa.Const:
				if v.Value != nil {
					switch sortOf(T) {
					case SSeq:
						e.decls[key] = fmt.Sprintf("(assert (= %s %s))", c, qLit(constant.StringVal(v.Value)))
						e.decls["~use:"+name] = ""
						e.glits(key, qLit(constant.StringVal(v.Value)))
						return
					case SInt:
						if n, ok := constant.Int64Val(constant.ToInt(v.Value)); ok {
							e.decls[key] = fmt.Sprintf("(assert (= %s %s))", c, tInt(n))
							return
						}
					}
				}
			}
		}
	}
}

var globalLits = map[string][]*Term{}

func (e *Engine) glits(key string, t *Term) { globalLits[key] = append(globalLits[key], t) }

var gIdx = map[string]int{}

func (e *Engine) gIndex(name string) int {
	if n, ok := gIdx[name]; ok {
		return n
	}
	h, _ := strconv.ParseInt(hash36(name, 3), 36, 64)
	n := int(h) + 1
	for used := true; used; {
		used = false
		for _, m := range gIdx {
			if m == n {
				used = true
				n++
				break
			}
		}
	}
	gIdx[name] = n
	return gIdx[name]
}

// immutable byte-slice globals: contents fixed (the array is never written: checked by noByteWrites)
func (e *Engine) sliceGlobal(key, c, s string, T types.Type, name string) {
	l := qLit(s)
	n := len(s)
	e.glits(key, l)
	// array reference: a small distinct number
	e.decls[key] = fmt.Sprintf("(assert (= %s (mk-slice %d 0 %d %d)))\n(assert (= (select H0!%s %d) %s))", c, e.gIndex(name), n, n, smtName("M:uint8"), e.gIndex(name), l)
	e.decls["~need:"+key] = "M:uint8"
	e.assum["the bytes of package variable "+name+" are never modified"] = true
}

// immutable slices of strings
func (e *Engine) stringsGlobal(key, c string, ss []string, name string) {
	n, i := len(ss), e.gIndex(name)
	h := smtName("M:string")
	txt := fmt.Sprintf("(assert (= %s (mk-slice %d 0 %d %d)))\n(assert (= (lenS (select H0!%s %d)) %d))", c, i, n, n, h, i, n)
	for k, x := range ss {
		l := qLit(x)
		e.glits(key, l)
		txt += fmt.Sprintf("\n(assert (= (atS (select H0!%s %d) %d) %s))", h, i, k, l)
	}
	e.decls[key] = txt
	e.decls["~need:"+key] = "M:string"
	e.assum["the strings of package variable "+name+" are never modified"] = true
}

// litStrings: a composite literal of constant strings
func (e *Engine) litStrings(sl *ssa.Slice, init *ssa.Function) ([]string, bool) {
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	at, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok || elemKey(at.Elem()) != "string" {
		return nil, false
	}
	out := make([]string, at.Len())
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok || ia.X != al {
				continue
			}
			ic, ok1 := ia.Index.(*ssa.Const)
			vc, ok2 := st.Val.(*ssa.Const)
			if !ok1 || !ok2 {
				return nil, false
			}
			n, _ := constant.Int64Val(ic.Value)
			out[n] = constant.StringVal(vc.Value)
		}
	}
	return out, true
}

func (e *Engine) litBytes(sl *ssa.Slice, init *ssa.Function) (string, bool) {
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return "", false
	}
	at, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok || elemKey(at.Elem()) != "byte" && elemKey(at.Elem()) != "uint8" {
		return "", false
	}
	buf := make([]byte, at.Len())
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok || ia.X != al {
				continue
			}
			ic, ok1 := ia.Index.(*ssa.Const)
			vc, ok2 := st.Val.(*ssa.Const)
			if !ok1 || !ok2 {
				return "", false
			}
			n, _ := constant.Int64Val(ic.Value)
			x, _ := constant.Int64Val(constant.ToInt(vc.Value))
			buf[n] = byte(x)
		}
	}
	return string(buf), true
}

var errType = types.NewNamed(types.NewTypeName(token.NoPos, nil, "errorString", nil), types.NewStruct(nil, nil), nil)

func (e *Engine) errTagN() int {
	v, _ := e.tag(types.NewPointer(errType)).intVal()
	return int(v)
}
