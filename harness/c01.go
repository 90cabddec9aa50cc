package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"unicode/utf8"

	"github.com/lestrrat-go/helium"
)

// what the serialiser must write for s
func escOracle(s []byte, attr, nl bool) string {
	var b strings.Builder
	for len(s) > 0 {
		r, w := utf8.DecodeRune(s)
		switch {
		case r == '&':
			b.WriteString("&amp;")
		case r == '<':
			b.WriteString("&lt;")
		case r == '>':
			b.WriteString("&gt;")
		case r == '\r':
			b.WriteString("&#13;")
		case r == '\n' && nl:
			b.WriteString("&#10;")
		case r == '\t' && attr:
			b.WriteString("&#9;")
		case r == '"' && attr:
			b.WriteString("&#34;")
		case r == '\t' || r == '\n' || r >= 0x20 && r < 0x80:
			b.WriteRune(r)
		case r == utf8.RuneError && w == 1 || !xmlChar(r):
			b.WriteRune(0xFFFD)
		case r < 0xE0:
			fmt.Fprintf(&b, "&#x%X;", r)
		default:
			b.Write(s[:w])
		}
		s = s[w:]
	}
	return b.String()
}

// decode the references of a serialised text or attribute value
func unescape(s string) (string, error) {
	var b strings.Builder
	for i := 0; i < len(s); {
		if s[i] != '&' {
			b.WriteByte(s[i])
			i++
			continue
		}
		k := strings.IndexByte(s[i:], ';')
		if k < 0 {
			return "", fmt.Errorf("'&' without ';'")
		}
		ref := s[i+1 : i+k]
		switch {
		case ref == "amp":
			b.WriteByte('&')
		case ref == "lt":
			b.WriteByte('<')
		case ref == "gt":
			b.WriteByte('>')
		case ref == "quot":
			b.WriteByte('"')
		case ref == "apos":
			b.WriteByte('\'')
		case strings.HasPrefix(ref, "#x"):
			var v int
			if _, err := fmt.Sscanf(ref[2:], "%x", &v); err != nil {
				return "", err
			}
			b.WriteRune(rune(v))
		case strings.HasPrefix(ref, "#"):
			var v int
			if _, err := fmt.Sscanf(ref[1:], "%d", &v); err != nil {
				return "", err
			}
			b.WriteRune(rune(v))
		default:
			return "", fmt.Errorf("reference %q", ref)
		}
		i += k + 1
	}
	return b.String(), nil
}

// what the text reads back as
func sanitized(s []byte) string {
	var b strings.Builder
	for len(s) > 0 {
		r, w := utf8.DecodeRune(s)
		if r == utf8.RuneError || !xmlChar(r) {
			r = 0xFFFD
		}
		b.WriteRune(r)
		s = s[w:]
	}
	return b.String()
}

func checkEscaped(t *T, what, out string, in []byte, attr bool) {
	bad := "<>"
	if attr {
		bad += "\"\n\t"
	}
	if i := strings.IndexAny(out, bad+"\r"); i >= 0 {
		t.Fail("%s: %q is written as %q, with a raw %q", what, in, out, out[i])
	}
	dec, err := unescape(out)
	if err != nil {
		t.Fail("%s: %q is written as %q: %v", what, in, out, err)
		return
	}
	if dec != sanitized(in) {
		t.Fail("%s: %q is written as %q, which reads back as %q", what, in, out, dec)
	}
}

func dumpNode(n helium.Node) (string, error) {
	var b bytes.Buffer
	err := (&helium.Dumper{}).DumpNode(&b, n)
	return b.String(), err
}

func c01Check(t *T, s []byte) {
	t.Input("text %q", s)
	doc := helium.CreateDocument()
	txt, err := doc.CreateText(s)
	if err != nil {
		t.Fail("CreateText: %v", err)
		return
	}
	out, err := dumpNode(txt)
	if err != nil {
		t.Fail("dump of text: %v", err)
	}
	checkEscaped(t, "text", out, s, false)
	e, _ := doc.CreateElement("a")
	if err := e.SetAttribute("k", ""); err != nil {
		t.Fail("SetAttribute: %v", err)
		return
	}
	at := e.Attributes()[0]
	txt2, _ := doc.CreateText(s)
	if err := at.AddChild(txt2); err != nil {
		t.Fail("adding text to an attribute: %v", err)
		return
	}
	out, err = dumpNode(e)
	if err != nil {
		t.Fail("dump of element: %v", err)
	}
	if !strings.HasPrefix(out, `<a k="`) || !strings.HasSuffix(out, `"/>`) || len(out) < 9 {
		t.Fail("an element with attribute k=%q is written as %q", s, out)
	} else {
		checkEscaped(t, "attribute", out[6:len(out)-3], s, true)
	}
	if shimEscape != nil {
		for _, m := range []struct{ attr, nl bool }{{false, false}, {false, true}, {true, true}} {
			got, err := shimEscape(s, m.attr, m.nl)
			if err != nil {
				t.Fail("escape: %v", err)
			}
			checkEscaped(t, "escape", got, s, m.attr)
		}
	}
}

// a writer that fails after n bytes
type failWriter struct {
	n   int
	buf bytes.Buffer
	err error
	// with once, only one write fails; after counts what is written later
	once, over bool
	after      int
}

var errWrite = errors.New("write failed")

func (f *failWriter) Write(b []byte) (int, error) {
	if f.over {
		f.after += len(b)
		return len(b), nil
	}
	if f.buf.Len()+len(b) > f.n {
		f.over = f.once
		k := f.n - f.buf.Len()
		f.buf.Write(b[:k])
		return k, errWrite
	}
	f.buf.Write(b)
	return len(b), nil
}

func init() {
	register("C01",
		&Family{Name: "codepoints", N: 0x110000/512 + 1, What: "every code point and, in front of and behind it, an ordinary character (enumerated)", Run: func(t *T, r *rand.Rand, i int) {
			var s []byte
			for c := i * 512; c < (i+1)*512 && c <= 0x110000; c++ {
				var buf [4]byte
				var n int
				if c >= 0xD800 && c <= 0xDFFF || c > 0x10FFFF {
					buf = [4]byte{byte(0xE0 | c>>12), byte(0x80 | c>>6&0x3f), byte(0x80 | c&0x3f)}
					n = 3
				} else {
					n = utf8.EncodeRune(buf[:], rune(c))
				}
				s = append(s, buf[:n]...)
				if c%7 == 0 {
					s = append(s, 'x')
				}
			}
			c01Check(t, s)
		}},
		&Family{Name: "random", Weight: 3, What: "random byte strings of up to 24 units: markup characters, white space, forbidden and undecodable bytes, all planes", Run: func(t *T, r *rand.Rand, i int) {
			c01Check(t, randBytes(r, 24))
		}},
		&Family{Name: "writefail", Weight: 1, What: "the writer fails after k bytes; the error must come back and the bytes before it be a prefix", Run: func(t *T, r *rand.Rand, i int) {
			s := randBytes(r, 12)
			doc := helium.CreateDocument()
			txt, _ := doc.CreateText(s)
			full, _ := dumpNode(txt)
			if len(full) == 0 {
				t.Trivial()
				return
			}
			k := r.Intn(len(full))
			t.Input("text %q, the writer fails after %d bytes", s, k)
			w := &failWriter{n: k, once: r.Intn(2) == 0}
			err := (&helium.Dumper{}).DumpNode(w, txt)
			if err != errWrite {
				t.Fail("the write error was not returned, got %v", err)
			}
			if got := w.buf.String(); got != full[:k] {
				t.Fail("wrote %q before the error, want %q", got, full[:k])
			}
			if w.after > 0 {
				t.Fail("writing went on after the error")
			}
			e, _ := doc.CreateElement("a")
			e.SetAttribute("k", "")
			txt2, _ := doc.CreateText(s)
			e.Attributes()[0].AddChild(txt2)
			full, _ = dumpNode(e)
			k = 6 + r.Intn(len(full)-8)
			t.Input("attribute %q, the writer fails after %d bytes", s, k)
			w = &failWriter{n: k, once: r.Intn(2) == 0}
			if err := (&helium.Dumper{}).DumpNode(w, e); err != errWrite {
				t.Fail("attribute: the write error was not returned, got %v", err)
			}
			if w.after > 0 {
				t.Fail("attribute: writing went on after the error")
			}
			if shimEscapeTo != nil {
				attr, nl := r.Intn(2) == 0, r.Intn(2) == 0
				full, _ := shimEscape(s, attr, nl)
				if len(full) == 0 {
					return
				}
				k = r.Intn(len(full))
				t.Input("escape %q (attribute %v, newlines %v), the writer fails after %d bytes", s, attr, nl, k)
				w = &failWriter{n: k, once: r.Intn(2) == 0}
				if err := shimEscapeTo(w, s, attr, nl); err != errWrite {
					t.Fail("escape: the write error was not returned, got %v", err)
				}
				if w.after > 0 {
					t.Fail("escape: writing went on after the error")
				}
			}
		}},
	)
}
