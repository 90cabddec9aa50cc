package main

import (
	"io"

	"github.com/lestrrat-go/helium"
)

type nsLike interface {
	Push(p, u string)
	Pop(n ...int)
	Len() int
	Lookup(p string) string
	Declared(p string, n int) bool
}
type nodeLike interface {
	Push(*helium.Element)
	Pop() *helium.Element
	PeekOne() *helium.Element
	Len() int
}
type inputLike interface {
	Push(interface{})
	Pop() interface{}
	PeekOne() interface{}
	Len() int
}

// nil when the harness was built without the shim
var (
	shimEscape        func(s []byte, attr, nl bool) (string, error)
	shimEscapeTo      func(w io.Writer, s []byte, attr, nl bool) error
	shimQuoted        func(s string) (string, error)
	shimEntityContent func(s string) (string, error)
	shimIsChar        func(rune) bool
	shimIsBlank       func(rune) bool
	shimIsNameStart   func(rune) bool
	shimIsName        func(rune) bool
	newShimNs         func() nsLike
	newShimNode       func() nodeLike
	newShimInput      func() inputLike
)
