package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"unicode/utf8"

	"github.com/lestrrat-go/helium"
)

// the end of the ranges and their neighbours
func boundaries() []rune {
	var out []rune
	add := func(rs [][2]rune) {
		for _, x := range rs {
			for d := rune(-2); d <= 2; d++ {
				for _, e := range x {
					if c := e + d; c >= 0 && c <= 0x10FFFF && (c < 0xD800 || c > 0xDFFF) {
						out = append(out, c)
					}
				}
			}
		}
	}
	add(nameStartRanges)
	add(nameExtraRanges)
	add([][2]rune{{9, 10}, {13, 13}, {0x20, 0xD7FF}, {0xE000, 0xFFFD}, {0x10000, 0x10FFFF}})
	for c := rune(0); c < 0x300; c++ {
		out = append(out, c)
	}
	return out
}

const markup = "<>&\"'/=!?%;#[]()|,*+ \t\r\n"

func c10Char(t *T, c rune) {
	if c == 0xFFFD {
		return // known finding: see the probe
	}
	s := string(c)
	// in content
	switch c {
	case '<', '&':
	default:
		_, rec, err := parseRec("<a>x" + s + "y</a>")
		if xmlChar(c) {
			want := s
			if c == '\r' {
				want = "\n"
			}
			if err != nil {
				t.Fail("U+%04X in content is rejected: %v", c, err)
			} else if got := strings.Join(filterEv(merge(rec.ev), "text"), ""); got != "text x"+want+"y" {
				t.Fail("U+%04X in content arrives as %q", c, got)
			}
		} else if err == nil {
			t.Fail("U+%04X in content is accepted", c)
		}
	}
	// as the first and as a later character of a name
	check := func(what, src, name string, ok bool) {
		_, rec, err := parseRec(src)
		if ok {
			if err != nil {
				t.Fail("U+%04X %s is rejected: %v", c, what, err)
				return
			}
			got := filterEv(rec.ev, "pi")
			if len(got) != 1 || got[0] != "pi "+name+"|d" {
				t.Fail("U+%04X %s: the name arrives as %q", c, what, got)
			}
		} else if err == nil {
			got := filterEv(rec.ev, "pi")
			if len(got) == 1 && strings.HasPrefix(got[0], "pi "+name+"|") {
				t.Fail("U+%04X %s is accepted", c, what)
			}
			if !xmlSpace(c) && c != '?' {
				t.Fail("U+%04X %s: accepted as %q", c, what, got)
			}
		}
	}
	if c != ':' {
		check("as the first character of a name", "<?"+s+"b d?><a/>", s+"b", nameStart(c))
		check("in a name", "<?b"+s+"c d?><a/>", "b"+s+"c", nameChar(c))
		ok := nameStart(c)
		_, _, err := parseRec("<" + s + "/>")
		if ok != (err == nil) {
			t.Fail("U+%04X as an element name: error %v", c, err)
		}
		if !strings.ContainsRune(markup, c) {
			_, rec, err := parseRec("<b" + s + " c" + s + "='1'/>")
			if nameChar(c) != (err == nil) {
				t.Fail("U+%04X in an element name: error %v", c, err)
			} else if err == nil && filterEv(rec.ev, "start")[0] != evStart("", "b"+s, "", nil, []string{"c" + s + "=1"}) {
				t.Fail("U+%04X in names: %q", c, rec.ev)
			}
			// a name token may begin with any name character
			_, rec, err = parseRec("<!DOCTYPE a [<!ATTLIST a b (" + s + "x|y) #IMPLIED>]><a/>")
			if nameChar(c) != (err == nil) {
				t.Fail("U+%04X as the first character of a name token: error %v", c, err)
			} else if err == nil && filterEv(rec.ev, "attdecl")[0] != fmt.Sprintf("attdecl a b 9 3 %q %q", "", []string{s + "x", "y"}) {
				t.Fail("U+%04X in a name token: %q", c, rec.ev)
			}
		}
	}
	// white space between attributes
	if !strings.ContainsRune("/>", c) && !nameChar(c) {
		_, _, err := parseRec("<a b='1'" + s + "c='2'/>")
		if xmlSpace(c) != (err == nil) {
			t.Fail("U+%04X as white space: error %v", c, err)
		}
	}
}

func init() {
	bs := boundaries()
	register("C10",
		&Family{Name: "classes", N: 0x110000 / 4096, What: "every code point against the character classes (enumerated; needs the shim)", Run: func(t *T, r *rand.Rand, i int) {
			t.Input("code points from %#x", i*4096)
			if shimIsChar == nil {
				t.Trivial()
				return
			}
			for c := rune(i * 4096); c < rune((i+1)*4096); c++ {
				if shimIsChar(c) != (xmlChar(c) && c != 0xFFFD) && c != 0xFFFD {
					t.Fail("character U+%04X: %v", c, shimIsChar(c))
				}
				if shimIsBlank(c) != xmlSpace(c) {
					t.Fail("white space U+%04X: %v", c, shimIsBlank(c))
				}
				if shimIsNameStart(c) != nameStart(c) && c != 0xFFFD && c != ':' {
					t.Fail("name start U+%04X: %v", c, shimIsNameStart(c))
				}
				if shimIsName(c) != nameChar(c) && c != 0xFFFD && c != ':' {
					t.Fail("name character U+%04X: %v", c, shimIsName(c))
				}
			}
		}},
		&Family{Name: "boundaries", N: len(bs), What: "the ends of all ranges, their neighbours and everything below U+0300, in content, in names, in name tokens and as white space, through the parser (enumerated)", Run: func(t *T, r *rand.Rand, i int) {
			t.Input("U+%04X", bs[i])
			c10Char(t, bs[i])
		}},
		&Family{Name: "random", Weight: 3, What: "random code points through the parser", Run: func(t *T, r *rand.Rand, i int) {
			var c rune
			switch r.Intn(4) {
			case 0:
				c = rune(r.Intn(0x3100))
			case 1:
				c = rune(0xE000 + r.Intn(0x2000))
			case 2:
				c = rune(r.Intn(0x110000))
			default:
				c = rune(0x2000 + r.Intn(0x1200))
			}
			if c >= 0xD800 && c <= 0xDFFF {
				t.Trivial()
				return
			}
			t.Input("U+%04X", c)
			c10Char(t, c)
		}},
		&Family{Name: "names", Weight: 3, What: "random names in every place, followed by the shortest thing that may follow", Run: func(t *T, r *rand.Rand, i int) {
			n, p, k := randNCName(r), randNCName(r), randNCName(r)
			if p == "xmlns" || n == k {
				t.Trivial()
				return
			}
			src := "<!DOCTYPE " + p + ":" + n + "[<!ELEMENT " + n + "(" + k + "|" + n + ")><!ENTITY " + k + "'v'><!ATTLIST " + n + " " + k + " NMTOKEN'1'>]><?" + k + "?><" + p + ":" + n + " xmlns:" + p + "='u' " + p + ":" + k + "='1' " + k + "='2'>&" + k + ";</" + p + ":" + n + ">"
			// white space is required in some of those places
			src = strings.Replace(src, "<!ELEMENT "+n+"(", "<!ELEMENT "+n+" (", 1)
			src = strings.Replace(src, "<!ENTITY "+k+"'", "<!ENTITY "+k+" '", 1)
			src = strings.Replace(src, "NMTOKEN'", "NMTOKEN '", 1)
			t.Input("%s", src)
			_, rec, err := parseRec(src)
			if err != nil {
				t.Fail("rejected: %v", err)
				return
			}
			want := []string{"startdoc", "doctype " + p + ":" + n, "elementdecl " + n + " 4 (" + k + "|" + n + ")", fmt.Sprintf("entitydecl %s 1 \"\" \"\" \"v\"", k), fmt.Sprintf("attdecl %s %s 7 1 \"1\" %q", n, k, []string(nil)), "pi " + k + "|",
				evStart(p, n, "u", [][2]string{{p, "u"}}, []string{p + ":" + k + "=1", k + "=2"}), "text v", "ref " + k, "end " + p + ":" + n + " {u}", "enddoc"}
			if s := diffEvents(merge(rec.ev), want); s != "" {
				t.Fail("%s", s)
			}
		}})
	register("known", &Family{Name: "u-fffd-content", N: 1, What: "U+FFFD in content", Run: func(t *T, r *rand.Rand, i int) {
		if _, err := helium.Parse([]byte("<a>\uFFFD</a>")); err != nil {
			t.Fail("U+FFFD in content is rejected: %v", err)
		}
	}}, &Family{Name: "u-fffd-name", N: 1, What: "U+FFFD in a name", Run: func(t *T, r *rand.Rand, i int) {
		if _, err := helium.Parse([]byte("<a\uFFFD/>")); err != nil {
			t.Fail("U+FFFD in a name is rejected: %v", err)
		}
	}})
	_ = bytes.MinRead
	_ = utf8.RuneError
}
