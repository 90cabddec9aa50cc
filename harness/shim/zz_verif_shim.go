package helium

import "io"

// Exported views of unexported functions for the harness; compiled in by an overlay only.
// The harness is built without this file (and the cases that need it) when it does not compile.

func VerifEscapeText(w io.Writer, s []byte, nl bool) error { return escapeText(w, s, nl) }
func VerifEscapeAttr(w io.Writer, s []byte) error          { return escapeAttrValue(w, s) }
func VerifQuoted(w io.Writer, s string) error              { return dumpQuotedString(w, s) }
func VerifEntityContent(w io.Writer, s string) error       { return dumpEntityContent(w, s) }
func VerifIsChar(r rune) bool                              { return isChar(r) }
func VerifIsBlank(r rune) bool                             { return isBlankCh(r) }
func VerifIsNameStart(r rune) bool                         { return isNameStartChar(r) }
func VerifIsName(r rune) bool                              { return isNameChar(r) }

type VerifNsStack struct{ s nsStack }

func (v *VerifNsStack) Push(p, u string)                  { v.s.Push(p, u) }
func (v *VerifNsStack) Pop(n ...int)                      { v.s.Pop(n...) }
func (v *VerifNsStack) Len() int                          { return v.s.Len() }
func (v *VerifNsStack) Lookup(p string) string            { return v.s.Lookup(p) }
func (v *VerifNsStack) Declared(p string, n int) bool     { return v.s.Declared(p, n) }

type VerifNodeStack struct{ s nodeStack }

func (v *VerifNodeStack) Push(e *Element)   { v.s.Push(e) }
func (v *VerifNodeStack) Pop() *Element     { return v.s.Pop() }
func (v *VerifNodeStack) PeekOne() *Element { return v.s.PeekOne() }
func (v *VerifNodeStack) Len() int          { return v.s.Len() }

type VerifInputStack struct{ s inputStack }

func (v *VerifInputStack) Push(e interface{})   { v.s.Push(e) }
func (v *VerifInputStack) Pop() interface{}     { return v.s.Pop() }
func (v *VerifInputStack) PeekOne() interface{} { return v.s.PeekOne() }
func (v *VerifInputStack) Len() int             { return v.s.Len() }
