package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/lestrrat-go/helium"
)

var c18Toks = []string{"<a>", "</a>", "<a/>", "<b x='1'>", "</b>", "<b", "x=", "'", "\"", "/>", ">", "<", "&", "&#", "&#x", "41", ";", "&lt;", "&e;", "&f;", "%p;", "<!--", "-->", "--", "<?", "?>", "<?p d?>", "<?xml version=\"1.0\"?>", "<![CDATA[", "]]>", "]", "<!DOCTYPE a [", "]>", "<!ELEMENT a ", "(b,c)", "(", "|", ",", "?", "*", "+", ")", "#PCDATA", "EMPTY", "ANY", "<!ATTLIST a ", "x CDATA ", "#IMPLIED", "#REQUIRED", "#FIXED ", "NOTATION ", "ENTITIES", "NMTOKENS ", "ID ", "<!ENTITY e ", "<!ENTITY % p ", "\"v\"", "'w&e;'", "SYSTEM ", "PUBLIC ", "NDATA ", "<!NOTATION n ", "xmlns=", "xmlns:p='u'", "p:", "p:a", "xml:", "\ufffd", "\x00", "\xff", "\x01", " ", "\n", "\r", "\r\n", "\t", "é", "漢", "\ufeff", "A", "z", "<!", "<!E", "<!X", "<!EX", "encoding=", "standalone='yes'", "version=", "(a|b)", "'d'", "=", "x", "a", "xml", "XML"}
var c18Skels = []string{"<!DOCTYPE a [@]><a>@</a>", "<a>@</a>", "@", "<a @>@</a>", "<!DOCTYPE a [<!ELEMENT a @><!ATTLIST a @><!ENTITY e '@'>]><a @>@</a>", "<?xml version='1.0' @?><a/>", "<!DOCTYPE a [<!ATTLIST a x @>]><a>&e;</a>", "<a x='@' y=\"@\"/>", "<a><!--@--><?p @?><![CDATA[@]]></a>", "<!DOCTYPE a [<!ENTITY e '@'><!ENTITY f '@'>]><a x='&e;@'>&e;@</a>", "<!DOCTYPE @ @><a/>", "<!DOCTYPE a [<!ELEMENT a (@)@>@]>@<a/>@"}

func c18Tokens(r *rand.Rand) string {
	s := c18Skels[r.Intn(len(c18Skels))]
	var sb strings.Builder
	for _, c := range s {
		if c != '@' {
			sb.WriteRune(c)
			continue
		}
		for n := r.Intn(6); n > 0; n-- {
			sb.WriteString(c18Toks[r.Intn(len(c18Toks))])
			if r.Intn(3) == 0 {
				sb.WriteString(" ")
			}
		}
	}
	return sb.String()
}

// c18One: the call returns a document or an error, and what the tree builder made can be written
func c18One(t *T, src string) {
	t.Input("%q", src)
	doc, rec, err := parseRec(src)
	if (doc == nil) == (err == nil) {
		t.Fail("document: %v, error: %v", doc != nil, err)
		return
	}
	if err != nil {
		return
	}
	if msg := linkErrors(doc); msg != "" {
		t.Fail("%s", msg)
	}
	if _, err := doc.XMLString(); err != nil {
		t.Fail("the document cannot be written: %v", err)
	}
	if n := len(rec.ev); n == 0 || rec.ev[n-1] != "enddoc" {
		t.Fail("a document, but the last event is %q", rec.ev)
	}
	// without a handler of ours, and through the other entry point
	doc, err = helium.Parse([]byte(src))
	if doc == nil || err != nil {
		t.Fail("Parse gives %v %v", doc != nil, err)
	}
}

func c18Mutate(r *rand.Rand, s string) string {
	b := []byte(s)
	for k := 1 + r.Intn(4); k > 0; k-- {
		if len(b) == 0 {
			b = append(b, '<')
		}
		i, j := r.Intn(len(b)), r.Intn(len(b))
		if i > j {
			i, j = j, i
		}
		if j-i > 40 && r.Intn(4) > 0 {
			j = i + r.Intn(40)
		}
		switch r.Intn(8) {
		case 0:
			b = append(append([]byte{}, b[:i]...), b[j:]...)
		case 1:
			b = append(append(append([]byte{}, b[:j]...), b[i:j]...), b[j:]...)
		case 2:
			b[i] ^= 1 << uint(r.Intn(8))
		case 3:
			b[i] = byte(r.Intn(256))
		case 4:
			b = b[:j]
		case 5:
			x := c18Toks[r.Intn(len(c18Toks))]
			b = append(append(append([]byte{}, b[:i]...), x...), b[i:]...)
		case 6:
			b[i], b[j] = b[j], b[i]
		case 7:
			b = append(append([]byte{}, b[:i]...), b[i+1:]...)
		}
	}
	return string(b)
}

// c18Handler: an error of the handler at any event ends the parse and is the result
func c18Handler(t *T, r *rand.Rand) {
	g := genDoc(r, gOpts{dtd: true, ents: true, ns: true, attrs: true})
	_, full, err := parseRec(g.surf)
	if err != nil || full.n == 0 {
		t.Trivial()
		return
	}
	for k := 0; k < 6; k++ {
		rec := newRecorder()
		rec.failAt, rec.failErr = 1+r.Intn(full.n), errHandler
		if k == 0 {
			rec.failAt = 1 + k
		}
		if k == 1 {
			rec.failAt = full.n
		}
		p := helium.NewParser()
		p.SetSAXHandler(rec)
		doc, err := p.Parse([]byte(g.surf))
		what := full.ev[rec.failAt-1]
		t.Input("event %d (%s) fails in\n%s", rec.failAt, what, g.surf)
		if err == nil || doc != nil {
			t.Fail("the error of the handler at event %q is lost: document %v, error %v", what, doc != nil, err)
			return
		}
		if !strings.Contains(err.Error(), errHandler.Error()) {
			t.Fail("the error of the handler at event %q is reported as: %v", what, err)
		}
		if rec.n != rec.failAt {
			t.Fail("after the error at event %q there are more events: %q", what, rec.ev[rec.failAt:])
		}
	}
}

func c18Deep(t *T, i int) {
	n := 20000
	mk := func(a, m, b string, close bool) string {
		s := strings.Repeat(a, n) + m
		if close {
			s += strings.Repeat(b, n)
		}
		return s
	}
	srcs := []string{
		mk("<a>", "", "</a>", true), mk("<a>", "", "</a>", false),
		"<!DOCTYPE a [<!ELEMENT a " + mk("(", "b", ")", true) + ">]><a/>",
		"<!DOCTYPE a [<!ELEMENT a " + mk("(", "b", ")", false),
		"<!DOCTYPE a [<!ELEMENT a (b" + strings.Repeat("|b", n) + ")>]><a/>",
		"<!DOCTYPE a [<!ELEMENT a (#PCDATA" + strings.Repeat("|b", n) + ")*>]><a/>",
		"<a" + func() string {
			var b strings.Builder
			for k := 0; k < 3000; k++ {
				fmt.Fprintf(&b, " a%d='1'", k)
			}
			return b.String()
		}() + "/>",
		"<a>" + strings.Repeat("<b/>", n) + "</a>", "<a>" + strings.Repeat("<!---->", n) + "</a>", "<a>" + strings.Repeat("&amp;", n) + "</a>", "<a>" + strings.Repeat("&#65;", n) + "</a>",
		strings.Repeat("<?p?>", n) + "<a/>", strings.Repeat("<!---->", n), "<a b='" + strings.Repeat("&lt;", n) + "'/>",
		"<!DOCTYPE a [" + strings.Repeat("<!ENTITY e 'x'>", n) + "]><a>&e;</a>",
		"<!DOCTYPE a [" + func() string {
			var b strings.Builder
			for k := 0; k < 2000; k++ {
				fmt.Fprintf(&b, "<!ENTITY e%d '&e%d;'>", k, k+1)
			}
			return b.String()
		}() + "<!ENTITY e2000 'x'>]><a>&e0;</a>",
		"<!DOCTYPE a [" + func() string {
			var b strings.Builder
			for k := 0; k < 2000; k++ {
				fmt.Fprintf(&b, "<!ENTITY e%d '&e%d;'>", k, k+1)
			}
			return b.String()
		}() + "<!ENTITY e2000 'x'>]><a b='&e0;'/>",
		"<!DOCTYPE a [<!ENTITY e '&e;'>]><a>&e;</a>", "<!DOCTYPE a [<!ENTITY e '&f;'><!ENTITY f '<b>&e;</b>'>]><a>&e;</a>", "<!DOCTYPE a [<!ENTITY e '<b x=\"&e;\"/>'>]><a>&e;</a>",
		"<!DOCTYPE a [<!ENTITY % e '&#37;e;'>%e;]><a/>", "<!DOCTYPE a [<!ATTLIST a b CDATA '&e;'><!ENTITY e '&e;'>]><a/>", "<!DOCTYPE a [<!ENTITY e '" + strings.Repeat("&#38;#38;", 2000) + "'>]><a>&e;</a>",
		"<!DOCTYPE a [<!ELEMENT a " + strings.Repeat("(", 600000) + "b", "<!DOCTYPE a [<!ELEMENT a " + strings.Repeat("(b,", 400000), strings.Repeat("<a>", 600000), strings.Repeat("<a b='1'>", 300000),
		strings.Repeat(" ", 5000), "<a>" + strings.Repeat(" ", 5000) + "</a>", "<a" + strings.Repeat(" ", 5000) + "/>", "<" + strings.Repeat("a", 5000) + "/>", strings.Repeat("<", n), strings.Repeat("&", n), strings.Repeat("[", n), "<!DOCTYPE a " + strings.Repeat("[", n), "<!DOCTYPE a [" + strings.Repeat("%p;", n),
	}
	if i >= len(srcs) {
		t.Trivial()
		return
	}
	s := srcs[i]
	if len(s) > 200 {
		t.Input("case %d: %q… (%d bytes)", i, s[:200], len(s))
	} else {
		t.Input("case %d: %q", i, s)
	}
	doc, _, err := parseRec(s)
	if (doc == nil) == (err == nil) {
		t.Fail("document: %v, error: %v", doc != nil, err)
	}
}

func init() {
	opts := gOpts{dtd: true, ents: true, ns: true, attrs: true, maxDepth: 3, maxKids: 3}
	register("C18",
		&Family{Name: "tokens", Weight: 5, What: "skeletons filled with random tokens", Run: func(t *T, r *rand.Rand, i int) { c18One(t, c18Tokens(r)) }},
		&Family{Name: "mutants", Weight: 3, What: "random documents with bytes and pieces changed, cut and inserted", Run: func(t *T, r *rand.Rand, i int) {
			c18One(t, c18Mutate(r, genDoc(r, opts).surf))
		}},
		&Family{Name: "bytes", Weight: 1, What: "random bytes, also behind a byte-order mark or a declaration", Run: func(t *T, r *rand.Rand, i int) {
			pre := pick(r, "", "", "\ufeff", "\xfe\xff", "\xff\xfe", "\x00\x00\x00<", "<\x00\x00\x00", "\x00<\x00?", "<\x00?\x00", "<?xml version='1.0' encoding='iso-8859-1'?>", "<?xml version='1.0' encoding='euc-jp'?>", "<?xml version='1.0' encoding='iso-2022-jp'?>", "<?xml version='1.0' encoding='", "Lo\xa7\x94")
			c18One(t, pre+string(randBytes(r, 40)))
		}},
		&Family{Name: "handler", Weight: 3, What: "the handler fails at a random event of a random document", Run: func(t *T, r *rand.Rand, i int) { c18Handler(t, r) }},
		&Family{Name: "large", N: 40, What: "with the stack limited to 64 MB: very deep, wide, long and self-referential inputs (enumerated)", Run: func(t *T, r *rand.Rand, i int) { c18Deep(t, i) }},
		&Family{Name: "short", N: 400, What: "all prefixes of a few documents, and all inputs of up to two special bytes (enumerated)", Run: func(t *T, r *rand.Rand, i int) {
			full := "<?xml version='1.0' encoding='UTF-8' standalone='yes'?><!DOCTYPE a [<!ELEMENT a (b,(c|d)*)><!ATTLIST a b CDATA #IMPLIED c (x|y) 'x'><!ENTITY e 'v'><!--c--><?p d?>]><a b='&e;' xmlns:p='u'><p:b>&e;&#65;</p:b><![CDATA[x]]></a>"
			if i < len(full) {
				c18One(t, full[:i])
				return
			}
			sp := "<>&'\"/!?[]-=%;#:x \n\x00\xff\xef\xfe"
			i -= len(full)
			if i < len(sp) {
				for _, c := range []byte(sp) {
					c18One(t, string([]byte{sp[i], c}))
				}
				c18One(t, sp[i:i+1])
			}
		}})
}
