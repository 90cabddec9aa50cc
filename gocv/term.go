package main

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strconv"
	"strings"
)

// Sorts are SMT-LIB sort strings.
type Sort = string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SSeq   Sort = "Seq_"  // sequences of Int (strings, byte slices, rune sequences, ref sequences)
	SSeqF  Sort = "SeqF_" // sequences of interface values
	SSeqS  Sort = "SeqS_" // sequences of strings
	SSeqB  Sort = "SeqB_" // sequences of truth values
	SSlice Sort = "Slice"
	SIface Sort = "Iface"
)

func arr(v Sort) Sort { return "(Array Int " + v + ")" }

// Term is a hash-consed SMT term.
type Term struct {
	op   string
	args []*Term
	sort Sort
	id   int
	// variable terms: op is the name, isVar true
	isVar   bool
	isConst bool // literal
	key     string
	bound   bool // quantified variable
}

var termTab = map[string]*Term{}
var termCnt int

func mk(op string, sort Sort, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(sort)
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termCnt++
	t := &Term{op: op, args: args, sort: sort, id: termCnt}
	termTab[k] = t
	return t
}

func mkVar(name string, sort Sort) *Term {
	t := mk(name, sort)
	t.isVar = true
	return t
}

func mkBound(name string, sort Sort) *Term {
	t := mk(name, sort)
	t.isVar = true
	t.bound = true
	return t
}

func tInt(n int64) *Term {
	var t *Term
	if n < 0 {
		t = mk(fmt.Sprintf("(- %d)", -n), SInt)
	} else {
		t = mk(strconv.FormatInt(n, 10), SInt)
	}
	t.isConst = true
	return t
}

func (t *Term) intVal() (int64, bool) {
	if !t.isConst || t.sort != SInt {
		return 0, false
	}
	if strings.HasPrefix(t.op, "(- ") {
		n, err := strconv.ParseInt(strings.TrimSuffix(t.op[3:], ")"), 10, 64)
		return -n, err == nil
	}
	n, err := strconv.ParseInt(t.op, 10, 64)
	return n, err == nil
}

var tTrue, tFalse *Term

func init() {
	tTrue = mk("true", SBool)
	tTrue.isConst = true
	tFalse = mk("false", SBool)
	tFalse.isConst = true
}

func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func tNot(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.op == "not":
		return a.args[0]
	}
	return mk("not", SBool, a)
}

func tAnd(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a == tTrue || seen[a] {
			continue
		}
		if a == tFalse {
			return tFalse
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if a.op == "not" && seen[a.args[0]] {
			return tFalse
		}
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return mk("and", SBool, out...)
}

func tOr(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a == tFalse || seen[a] {
			continue
		}
		if a == tTrue {
			return tTrue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if a.op == "not" && seen[a.args[0]] {
			return tTrue
		}
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return out[0]
	}
	return mk("or", SBool, out...)
}

func tImp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue {
		return tTrue
	}
	if b == tFalse {
		return tNot(a)
	}
	if a == b {
		return tTrue
	}
	if b.op == "=>" {
		return tImp(tAnd(a, b.args[0]), b.args[1])
	}
	return mk("=>", SBool, a, b)
}

func distinctConst(a, b *Term) bool {
	return a.isConst && b.isConst && a != b
}

func tEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("sort mismatch in =: %s:%s vs %s:%s", a, a.sort, b, b.sort))
	}
	if distinctConst(a, b) && (a.sort == SInt || a.sort == SBool) {
		return tFalse
	}
	if a.sort == SBool {
		switch {
		case a == tTrue:
			return b
		case b == tTrue:
			return a
		case a == tFalse:
			return tNot(b)
		case b == tFalse:
			return tNot(a)
		}
	}
	if a.op == "mk-iface" && b.op == "mk-iface" {
		return tAnd(tEq(a.args[0], b.args[0]), tEq(a.args[1], b.args[1]))
	}
	if b.op == "ite" && a.op != "ite" {
		a, b = b, a
	}
	// ite(c, k1, k2) = k  with constants
	if a.op == "ite" && b.isConst && (a.args[1].isConst || a.args[2].isConst) {
		return tOr(tAnd(a.args[0], tEq(a.args[1], b)), tAnd(tNot(a.args[0]), tEq(a.args[2], b)))
	}
	if cmpTerm(a, b, 6) > 0 {
		a, b = b, a
	}
	return mk("=", SBool, a, b)
}

// cmpTerm is an order of terms that does not depend on the order in which they were made.
func cmpTerm(a, b *Term, depth int) int {
	if a == b {
		return 0
	}
	if a.isConst != b.isConst {
		if a.isConst {
			return -1
		}
		return 1
	}
	if len(a.args) != len(b.args) {
		return len(a.args) - len(b.args)
	}
	if c := strings.Compare(a.op, b.op); c != 0 {
		return c
	}
	if depth > 0 {
		for i := range a.args {
			if c := cmpTerm(a.args[i], b.args[i], depth-1); c != 0 {
				return c
			}
		}
	}
	return 0
}

func tIte(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("sort mismatch in ite: %s:%s vs %s:%s", a, a.sort, b, b.sort))
	}
	if a.sort == SBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return tNot(c)
		}
		if a == tTrue {
			return tOr(c, b)
		}
		if b == tFalse {
			return tAnd(c, a)
		}
		if a == tFalse {
			return tAnd(tNot(c), b)
		}
		if b == tTrue {
			return tOr(tNot(c), a)
		}
	}
	return mk("ite", a.sort, c, a, b)
}

func tAdd(a, b *Term) *Term {
	x, okx := a.intVal()
	y, oky := b.intVal()
	switch {
	case okx && oky:
		return tInt(x + y)
	case okx && x == 0:
		return b
	case oky && y == 0:
		return a
	}
	// (x - c) + c etc.
	if oky && (a.op == "+" || a.op == "-") && len(a.args) == 2 {
		if z, ok := a.args[1].intVal(); ok {
			if a.op == "+" {
				return tAdd(a.args[0], tInt(z+y))
			}
			return tAdd(a.args[0], tInt(y-z))
		}
	}
	if a.op == "-" && a.args[1] == b {
		return a.args[0]
	}
	if oky && y < 0 {
		return mk("-", SInt, a, tInt(-y))
	}
	return mk("+", SInt, a, b)
}

func tSub(a, b *Term) *Term {
	x, okx := a.intVal()
	y, oky := b.intVal()
	switch {
	case okx && oky:
		return tInt(x - y)
	case oky:
		return tAdd(a, tInt(-y))
	case a == b:
		return tInt(0)
	}
	if a.op == "+" && a.args[0] == b {
		return a.args[1]
	}
	if a.op == "+" && a.args[1] == b {
		return a.args[0]
	}
	return mk("-", SInt, a, b)
}

func tMul(a, b *Term) *Term {
	x, okx := a.intVal()
	y, oky := b.intVal()
	if okx && oky {
		return tInt(x * y)
	}
	return mk("*", SInt, a, b)
}

func tCmp(op string, a, b *Term) *Term {
	x, okx := a.intVal()
	y, oky := b.intVal()
	if okx && oky {
		switch op {
		case "<":
			return tBool(x < y)
		case "<=":
			return tBool(x <= y)
		case ">":
			return tBool(x > y)
		case ">=":
			return tBool(x >= y)
		}
	}
	switch op {
	case ">":
		return tCmp("<", b, a)
	case ">=":
		return tCmp("<=", b, a)
	}
	if a == b {
		return tBool(op == "<=")
	}
	return mk(op, SBool, a, b)
}

func elemSort(a Sort) Sort {
	if strings.HasPrefix(a, "(Array Int ") {
		return a[len("(Array Int ") : len(a)-1]
	}
	panic("not an array sort: " + a)
}

func tSelect(a, i *Term) *Term {
	for a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if distinctConst(a.args[1], i) {
			a = a.args[0]
			continue
		}
		break
	}
	return mk("select", elemSort(a.sort), a, i)
}

func tStore(a, i, v *Term) *Term {
	if elemSort(a.sort) != v.sort {
		panic(fmt.Sprintf("store sort mismatch %s <- %s (%s)", a.sort, v.sort, v))
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	return mk("store", a.sort, a, i, v)
}

// ---- interface values
func mkIface(tag, val *Term) *Term {
	if tag.op == "itag" && val.op == "ival" && tag.args[0] == val.args[0] {
		return tag.args[0]
	}
	return mk("mk-iface", SIface, tag, val)
}
func iTag(t *Term) *Term {
	if t.op == "mk-iface" {
		return t.args[0]
	}
	if t.op == "ite" {
		return tIte(t.args[0], iTag(t.args[1]), iTag(t.args[2]))
	}
	return mk("itag", SInt, t)
}
func iVal(t *Term) *Term {
	if t.op == "mk-iface" {
		return t.args[1]
	}
	if t.op == "ite" {
		return tIte(t.args[0], iVal(t.args[1]), iVal(t.args[2]))
	}
	return mk("ival", SInt, t)
}

var nilIface = mkIface(tInt(0), tInt(0))

// ---- slices
func mkSlice(a, off, ln, cp *Term) *Term { return mk("mk-slice", SSlice, a, off, ln, cp) }
func slAcc(op string, i int, t *Term) *Term {
	if t.op == "mk-slice" {
		return t.args[i]
	}
	if t.op == "ite" && (t.args[1].op == "mk-slice" || t.args[2].op == "mk-slice") {
		return tIte(t.args[0], slAcc(op, i, t.args[1]), slAcc(op, i, t.args[2]))
	}
	return mk(op, SInt, t)
}
func slArr(t *Term) *Term { return slAcc("sarr", 0, t) }
func slOff(t *Term) *Term { return slAcc("soff", 1, t) }
func slLen(t *Term) *Term { return slAcc("slen", 2, t) }
func slCap(t *Term) *Term { return slAcc("scap", 3, t) }

var nilSlice = mkSlice(tInt(0), tInt(0), tInt(0), tInt(0))

// ---- sequences
func seqElem(s Sort) Sort {
	switch s {
	case SSeq:
		return SInt
	case SSeqF:
		return SIface
	case SSeqS:
		return SSeq
	case SSeqB:
		return SBool
	}
	panic("not a sequence sort " + s)
}
func seqOf(e Sort) Sort {
	switch e {
	case SInt:
		return SSeq
	case SIface:
		return SSeqF
	case SSeq:
		return SSeqS
	case SBool:
		return SSeqB
	}
	panic("no sequence sort for " + e)
}
func sfx(s Sort) string {
	switch s {
	case SSeq:
		return ""
	case SSeqF:
		return "F"
	case SSeqS:
		return "S"
	case SSeqB:
		return "B"
	}
	panic("not a sequence sort " + s)
}

// literals
type litInfo struct {
	name string
	val  string
}

var lits = map[string]*litInfo{}

func qLit(s string) *Term {
	if s == "" {
		return seqEmpty(SSeq)
	}
	li, ok := lits[s]
	if !ok {
		li = &litInfo{name: "lit!" + hash36(s, 7), val: s}
		lits[s] = li
		litByName[li.name] = li
	}
	t := mk(li.name, SSeq)
	t.isVar = true
	return t
}

var litByName = map[string]*litInfo{}

func litVal(t *Term) (string, bool) {
	if t == seqEmpty(SSeq) {
		return "", true
	}
	if t.isVar && strings.HasPrefix(t.op, "lit!") {
		if l := litByName[t.op]; l != nil {
			return l.val, true
		}
	}
	return "", false
}

func seqEmpty(s Sort) *Term { return mk("emp"+sfx(s), s) }
func seqLen(t *Term) *Term {
	if t.op == "emp"+sfx(t.sort) {
		return tInt(0)
	}
	if t.op == "unit"+sfx(t.sort) {
		return tInt(1)
	}
	if v, ok := litValQ(t); ok {
		return tInt(int64(len(v)))
	}
	return mk("len"+sfx(t.sort), SInt, t)
}
func litValQ(t *Term) (string, bool) {
	if t.sort != SSeq {
		return "", false
	}
	return litVal(t)
}
func seqAt(t, i *Term) *Term {
	if v, ok := litValQ(t); ok {
		if n, ok2 := i.intVal(); ok2 && n >= 0 && n < int64(len(v)) {
			return tInt(int64(v[n]))
		}
	}
	if t.op == "unit"+sfx(t.sort) {
		if n, ok := i.intVal(); ok && n == 0 {
			return t.args[0]
		}
	}
	return mk("at"+sfx(t.sort), seqElem(t.sort), t, i)
}
func seqCat(a, b *Term) *Term {
	e := seqEmpty(a.sort)
	if a == e {
		return b
	}
	if b == e {
		return a
	}
	// right-assoc normal form
	if a.op == "cat"+sfx(a.sort) {
		return seqCat(a.args[0], seqCat(a.args[1], b))
	}
	// merge literal prefixes
	if x, ok := litValQ(a); ok {
		if y, ok := litValQ(b); ok {
			return qLit(x + y)
		}
		if b.op == "cat" {
			if y, ok := litValQ(b.args[0]); ok {
				return seqCat(qLit(x+y), b.args[1])
			}
		}
	}
	// adjacent subs
	if a.op == "sub"+sfx(a.sort) {
		if b.op == a.op && a.args[0] == b.args[0] && a.args[2] == b.args[1] && false {
			return seqSub(a.args[0], a.args[1], b.args[2])
		}
	}
	return mk("cat"+sfx(a.sort), a.sort, a, b)
}
func seqUnit(x *Term) *Term {
	s := seqOf(x.sort)
	if s == SSeq {
		if n, ok := x.intVal(); ok && n >= 0 && n < 128 {
			return qLit(string([]byte{byte(n)}))
		}
	}
	return mk("unit"+sfx(s), s, x)
}
func seqSub(s, i, j *Term) *Term {
	if i == j {
		return seqEmpty(s.sort)
	}
	if n, ok := i.intVal(); ok && n == 0 && j == seqLen(s) {
		return s
	}
	if v, ok := litValQ(s); ok {
		a, ok1 := i.intVal()
		b, ok2 := j.intVal()
		if ok1 && ok2 && 0 <= a && a <= b && b <= int64(len(v)) {
			return qLit(v[a:b])
		}
	}
	return mk("sub"+sfx(s.sort), s.sort, s, i, j)
}
func seqUpd(s, i, v *Term) *Term { return mk("upd"+sfx(s.sort), s.sort, s, i, v) }

// ---- printing
func (t *Term) String() string {
	var b strings.Builder
	t.write(&b)
	return b.String()
}

func (t *Term) write(b *strings.Builder) {
	if len(t.args) == 0 {
		b.WriteString(t.op)
		return
	}
	if t.op == "forall" || t.op == "exists" {
		// args: body, pattern terms...; vars in key
		writeQuant(t, b)
		return
	}
	b.WriteByte('(')
	b.WriteString(t.op)
	for _, a := range t.args {
		b.WriteByte(' ')
		a.write(b)
	}
	b.WriteByte(')')
}

type quantInfo struct {
	vars []*Term
	pats [][]*Term
}

var quants = map[*Term]*quantInfo{}
var quantCnt int

func tQuant(kind string, vars []*Term, pats [][]*Term, body *Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	if len(vars) == 0 {
		return body
	}
	args := []*Term{body}
	args = append(args, vars...)
	t := mk(kind, SBool, args...)
	if q, ok := quants[t]; !ok || len(q.pats) == 0 {
		quants[t] = &quantInfo{vars: vars, pats: pats}
	}
	return t
}

// patternOK: solvers accept no connectives within patterns
func patternOK(t *Term) bool {
	switch t.op {
	case "ite", "and", "or", "not", "=>", "=", "<=", "<", ">=", ">", "forall", "exists":
		return false
	}
	for _, a := range t.args {
		if !patternOK(a) {
			return false
		}
	}
	return true
}

func writeQuant(t *Term, b *strings.Builder) {
	q := quants[t]
	b.WriteByte('(')
	b.WriteString(t.op)
	b.WriteString(" (")
	for _, v := range q.vars {
		fmt.Fprintf(b, "(%s %s)", v.op, v.sort)
	}
	b.WriteString(") ")
	var pats [][]*Term
	for _, p := range q.pats {
		ok := true
		for _, x := range p {
			ok = ok && patternOK(x)
		}
		if ok {
			pats = append(pats, p)
		}
	}
	if len(pats) > 0 {
		b.WriteString("(! ")
	}
	t.args[0].write(b)
	for _, p := range pats {
		b.WriteString(" :pattern (")
		for i, x := range p {
			if i > 0 {
				b.WriteByte(' ')
			}
			x.write(b)
		}
		b.WriteString(")")
	}
	if len(pats) > 0 {
		b.WriteString(")")
	}
	b.WriteByte(')')
}

// free (non-bound) symbols
func (t *Term) walk(f func(*Term) bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if !f(t) {
		return
	}
	for _, a := range t.args {
		a.walk(f, seen)
	}
	if q := quants[t]; q != nil {
		for _, p := range q.pats {
			for _, x := range p {
				x.walk(f, seen)
			}
		}
	}
}

// subst replaces variables.
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if q := quants[t]; q != nil {
			var pats [][]*Term
			for _, p := range q.pats {
				var np []*Term
				for _, x := range p {
					np = append(np, rec(x))
				}
				pats = append(pats, np)
			}
			r = tQuant(t.op, q.vars, pats, rec(t.args[0]))
		} else {
			args := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				args[i] = rec(a)
				if args[i] != a {
					ch = true
				}
			}
			if !ch {
				r = t
			} else {
				r = rebuild(t, args)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "not":
		return tNot(args[0])
	case "and":
		return tAnd(args...)
	case "or":
		return tOr(args...)
	case "=>":
		return tImp(args[0], args[1])
	case "=":
		return tEq(args[0], args[1])
	case "ite":
		return tIte(args[0], args[1], args[2])
	case "select":
		return tSelect(args[0], args[1])
	case "store":
		return tStore(args[0], args[1], args[2])
	case "itag":
		return iTag(args[0])
	case "ival":
		return iVal(args[0])
	case "mk-iface":
		return mkIface(args[0], args[1])
	case "sarr":
		return slArr(args[0])
	case "soff":
		return slOff(args[0])
	case "slen":
		return slLen(args[0])
	case "scap":
		return slCap(args[0])
	case "+":
		if len(args) == 2 {
			return tAdd(args[0], args[1])
		}
	case "-":
		if len(args) == 2 {
			return tSub(args[0], args[1])
		}
	case "<", "<=":
		return tCmp(t.op, args[0], args[1])
	}
	return mk(t.op, t.sort, args...)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func hash36(s string, n int) string {
	h := fnv.New64a()
	h.Write([]byte(s))
	x := strconv.FormatUint(h.Sum64(), 36)
	for len(x) < n {
		x += "0"
	}
	return x[len(x)-n:]
}
