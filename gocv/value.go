package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic value: a scalar SMT term, or a structured value.
type Val struct {
	t     *Term
	typ   types.Type
	st    *StructVal
	tup   []Val
	addr  *Addr
	clo   *Closure
	alts  []funcAlt // a choice among statically known functions
	isNil bool      // untyped nil in specs
	none  bool
	virt  *Val // the address of a read-only local copy: what it holds
}

type StructVal struct {
	fields []Val
	lazy   func(i int) Val
}

func (s *StructVal) field(i int) Val {
	if s.fields[i].none && s.lazy != nil {
		s.fields[i] = s.lazy(i)
	}
	return s.fields[i]
}

// Addr is a symbolic address that has not been turned into a term.
type Addr struct {
	kind  string // field elem global cell
	heap  string
	hsort Sort // sort of the value stored
	ref   *Term
	idx   *Term // elem: absolute index
	typ   types.Type
}

type funcAlt struct {
	cond *Term
	v    Val
}

type Closure struct {
	fn   *ssa.Function
	bind []Val
}

type unsupported struct{ msg string }

func (u unsupported) Error() string { return u.msg }
func unsup(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

func under(t types.Type) types.Type { return t.Underlying() }

func isStruct(t types.Type) bool { _, ok := under(t).(*types.Struct); return ok }
func isArray(t types.Type) bool  { _, ok := under(t).(*types.Array); return ok }
func isIface(t types.Type) bool  { _, ok := under(t).(*types.Interface); return ok }

func sortOf(t types.Type) Sort {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SSeq
		case u.Info()&types.IsInteger != 0, u.Info()&types.IsFloat != 0:
			return SInt
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return SInt
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt
	case *types.Interface:
		return SIface
	case *types.Slice:
		return SSlice
	case *types.Array:
		return seqOf(sortOf(u.Elem()))
	}
	if st, ok := t.(specType); ok {
		return st.s
	}
	unsup("no sort for type %s", t)
	return ""
}

// specType lets spec-only sorts travel as types.Type.
type specType struct{ s Sort }

func (s specType) Underlying() types.Type { return s }
func (s specType) String() string         { return "spec:" + s.s }

var (
	tyInt    = types.Typ[types.Int]
	tyBool   = types.Typ[types.Bool]
	tyString = types.Typ[types.String]
	tySeqF   = specType{SSeqF}
	tySeqS   = specType{SSeqS}
	tySeqB   = specType{SSeqB}
	tyIface  = types.NewInterfaceType(nil, nil)
)

var tkeys = map[types.Type]string{}
var reByte = regexp.MustCompile(`(^|[^.\w])byte\b`)
var reRune = regexp.MustCompile(`(^|[^.\w])rune\b`)

func tkey(t types.Type) string {
	if k, ok := tkeys[t]; ok {
		return k
	}
	k := types.TypeString(t, func(p *types.Package) string { return shortPkg(p.Path()) })
	k = strings.ReplaceAll(k, "interface{}", "any")
	k = reByte.ReplaceAllString(k, "${1}uint8")
	k = reRune.ReplaceAllString(k, "${1}int32")
	tkeys[t] = k
	return k
}

func structFieldHeap(t types.Type, i int) string {
	st := under(t).(*types.Struct)
	return "F:" + tkey(t) + "." + st.Field(i).Name()
}
func cellHeap(t types.Type) string { return "C:" + tkey(t) }
func elemKey(t types.Type) string {
	switch u := under(t).(type) {
	case *types.Basic:
		return types.Typ[u.Kind()].Name()
	}
	return tkey(t)
}
func memHeap(elem types.Type) string { return "M:" + elemKey(elem) }

// subRef is the identity of an embedded / nested struct field.
func subRef(t types.Type, i int, ref *Term) *Term {
	if i == 0 {
		return ref
	}
	st := under(t).(*types.Struct)
	return mk("subref!"+smtName(tkey(t)+"."+st.Field(i).Name()), SInt, ref)
}

func smtName(s string) string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '_', c == '.', c == '!', c == '-', c == '$', c == '@', c == '/':
			b.WriteRune(c)
		case c == '*':
			b.WriteString("ptr.")
		case c == '[':
			b.WriteString("<")
		case c == ']':
			b.WriteString(">")
		case c == ':':
			b.WriteString("!")
		default:
			b.WriteString("_")
		}
	}
	return b.String()
}

// State is the symbolic heap.
type State struct {
	h       map[string]*Term
	ctr     *Term
	defers  []*deferred
	collect *collector
}

type collector struct {
	heaps map[string]Sort
}

type deferred struct {
	reach *Term
	call  *ssa.CallCommon
	fnv   Val
	args  []Val
	at    ssa.Instruction
}

func (s *State) clone() *State {
	n := &State{h: make(map[string]*Term, len(s.h)), ctr: s.ctr, collect: s.collect}
	for k, v := range s.h {
		n.h[k] = v
	}
	n.defers = append([]*deferred(nil), s.defers...)
	return n
}
