//go:build verifshim

package main

import (
	"bytes"
	"io"

	"github.com/lestrrat-go/helium"
)

const haveShim = true

func init() {
	shimEscape = func(s []byte, attr, nl bool) (string, error) {
		var b bytes.Buffer
		var err error
		if attr {
			err = helium.VerifEscapeAttr(&b, s)
		} else {
			err = helium.VerifEscapeText(&b, s, nl)
		}
		return b.String(), err
	}
	shimEscapeTo = func(w io.Writer, s []byte, attr, nl bool) error {
		if attr {
			return helium.VerifEscapeAttr(w, s)
		}
		return helium.VerifEscapeText(w, s, nl)
	}
	shimQuoted = func(s string) (string, error) {
		var b bytes.Buffer
		err := helium.VerifQuoted(&b, s)
		return b.String(), err
	}
	shimEntityContent = func(s string) (string, error) {
		var b bytes.Buffer
		err := helium.VerifEntityContent(&b, s)
		return b.String(), err
	}
	shimIsChar = helium.VerifIsChar
	shimIsBlank = helium.VerifIsBlank
	shimIsNameStart = helium.VerifIsNameStart
	shimIsName = helium.VerifIsName
	newShimNs = func() nsLike { return &helium.VerifNsStack{} }
	newShimNode = func() nodeLike { return &helium.VerifNodeStack{} }
	newShimInput = func() inputLike { return &helium.VerifInputStack{} }
}
