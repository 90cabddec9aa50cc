package main

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode/utf8"
)

const c14Kinds = "text cdata comment pi"

// a piece with overlapping terminators; the handler must receive exactly want
func c14Piece(r *rand.Rand) (src, ev string, ok bool) {
	// characters likely to meet the delimiters
	toks := []string{"-", "-", "]", "]", "?", ">", "<", "&", "x", "é", " ", "\n", "\r\n", "\r", "\t", "!", "--", "]]", "]]>", "?>", "<!--", "<![CDATA[", "&amp;", "日", "\U0001F600", ";", "&#65;", "]]&gt;", "xml"}
	var s string
	for k := r.Intn(9); k > 0; k-- {
		s += toks[r.Intn(len(toks))]
	}
	if r.Intn(150) == 0 {
		s += strings.Repeat(pick(r, "a", "é", "-x", "] ", "? "), 500+r.Intn(4000))
	}
	nl := func(s string) string {
		return strings.Replace(strings.Replace(s, "\r\n", "\n", -1), "\r", "\n", -1)
	}
	switch r.Intn(3) {
	case 0:
		// the comment ends at the first "--", which must be followed by '>'
		i := strings.Index(s+"-->", "--")
		if (s + "-->")[i+2] == '>' {
			s = s[:i]
		}
		src = "<!--" + s + "-->"
		return src, "comment " + nl(s), i == len(s)
	case 1:
		tgt := pick(r, "p", "xm", "php", "a.b", "xmlx", "t")
		i := strings.Index(s+"?>", "?>")
		if i < len(s) {
			s = s[:i]
		}
		d := strings.TrimLeft(s, " \t\r\n")
		if d == "" {
			s = ""
		}
		src = "<?" + tgt + " " + s + "?>"
		return src, "pi " + tgt + "|" + nl(d), true
	default:
		i := strings.Index(s+"]]>", "]]>")
		if i < len(s) {
			s = s[:i]
		}
		src = "<![CDATA[" + s + "]]>"
		ev = "cdata " + nl(s)
		if s == "" {
			ev = ""
		}
		return src, ev, true
	}
}

func c14Pieces(t *T, r *rand.Rand) {
	var b strings.Builder
	b.WriteString("<a>")
	var want []string
	all := true
	for k := 1 + r.Intn(4); k > 0; k-- {
		s, e, ok := c14Piece(r)
		b.WriteString(s)
		all = all && ok
		if e != "" {
			want = append(want, e)
		}
		if r.Intn(2) == 0 {
			x := pick(r, "x", " ", "]", "-->", "?>", "]]", ">", "--", "é")
			if !strings.HasSuffix(b.String(), "]") || x != ">" {
				b.WriteString(x)
				want = append(want, "text "+x)
			}
		}
	}
	b.WriteString("</a>")
	t.Input("%q", b.String())
	_, rec, err := parseRec(b.String())
	if !all {
		if err == nil {
			t.Fail("'--' in a comment is accepted: %q", merge(rec.ev))
		}
		return
	}
	if err != nil {
		t.Fail("rejected: %v", err)
		return
	}
	if s := diffEvents(filterEv(merge(rec.ev), c14Kinds), merge(want)); s != "" {
		t.Fail("%s", s)
	}
}

// c14Text: character data against direct decoding
func c14Text(t *T, r *rand.Rand) {
	var src, want strings.Builder
	for k := r.Intn(12); k > 0; k-- {
		c := [][2]string{{"x", "x"}, {"]", "]"}, {"]]", "]]"}, {">", ">"}, {"&gt;", ">"}, {"&amp;", "&"}, {"&#x3c;", "<"}, {"\r\n", "\n"}, {"\n", "\n"}, {"\r", "\n"}, {"&#13;", "\r"}, {"&#10;", "\n"}, {" ", " "}, {"\t", "\t"}, {"é", "é"}, {"日本", "日本"}, {"\U0001F600", "\U0001F600"}, {"--", "--"}, {"?>", "?>"}, {"\"'", "\"'"}, {"%p;", "%p;"}, {";", ";"}, {"&#38;amp;", "&amp;"}}[r.Intn(23)]
		if strings.HasPrefix(c[0], "\n") && strings.HasSuffix(src.String(), "\r") {
			continue
		}
		src.WriteString(c[0])
		want.WriteString(c[1])
	}
	if r.Intn(150) == 0 {
		x := strings.Repeat(pick(r, "a", "é", "\n", " "), 1000+r.Intn(4000))
		src.WriteString("z" + x)
		want.WriteString("z" + x)
	}
	s := "<a>" + src.String() + "</a>"
	t.Input("%q", s)
	bad := strings.Contains(src.String(), "]]>")
	_, rec, err := parseRec(s)
	if bad {
		if err == nil {
			t.Fail("']]>' in text is accepted")
		}
		return
	}
	if err != nil {
		t.Fail("rejected: %v", err)
		return
	}
	if got := evText(rec); got != want.String() {
		t.Fail("the text is %q, want %q", got, want.String())
	}
}

// a document cut off anywhere is rejected, and what was delivered is the beginning of the whole
func c14Cut(t *T, r *rand.Rand) {
	g := genDoc(r, gOpts{attrs: true, maxDepth: 2, maxKids: 3, dtd: r.Intn(3) == 0, ents: true})
	if len(g.post) > 0 {
		g.post = nil
	}
	_, full, err := parseRec(g.surf)
	if err != nil {
		t.Trivial()
		return
	}
	// the end of the document element
	end := len(g.surf)
	for _, n := range g.post {
		end -= len(n.surf)
	}
	fe := filterEv(merge(full.ev), c14Kinds)
	cuts := []int{}
	for k := 0; k < 6; k++ {
		cuts = append(cuts, r.Intn(end))
	}
	for _, c := range cuts {
		s := g.surf[:c]
		doc, rec, err := parseRec(s)
		t.Input("%q", s)
		if err == nil {
			if strings.Contains(g.surf[c:], "</") || rec.ev[len(rec.ev)-1] != "enddoc" {
				t.Fail("a document cut off after %d bytes is accepted", c)
			}
			continue
		}
		if doc != nil {
			t.Fail("an error and a document")
		}
		ce := filterEv(merge(rec.ev), c14Kinds)
		for i, e := range ce {
			if i >= len(fe) {
				t.Fail("cut off after %d bytes: more is delivered than for the whole: %q", c, e)
				break
			}
			if e != fe[i] {
				if i == len(ce)-1 && strings.HasPrefix(e, "text ") && strings.HasPrefix(fe[i], e) {
					continue
				}
				// inside a broken character the rest is undefined
				if !utf8.ValidString(s) && i == len(ce)-1 && strings.HasPrefix(e, "text ") {
					continue
				}
				t.Fail("cut off after %d bytes: delivers %q, the whole delivers %q", c, e, fe[i])
				break
			}
		}
	}
}

func c14Forbidden(t *T, r *rand.Rand) {
	bad := []string{"\x00", "\x01", "\x08", "\x0b", "\x0c", "\x0e", "\x1f", "\ufffe", "\uffff", "\xed\xa0\x80", "\xff", "\xc3(", "\xe6\x97"}
	x := bad[r.Intn(len(bad))]
	pre, post := randPlain(r), randPlain(r)
	for _, f := range []string{"<a>%s</a>", "<a><!--%s--></a>", "<a><?p %s?></a>", "<a><![CDATA[%s]]></a>", "<!--%s--><a/>", "<?p %s?><a/>", "<a/><!--%s-->", "<a b='%s'/>", "<!DOCTYPE a [<!--%s-->]><a/>", "<!DOCTYPE a [<?p %s?>]><a/>"} {
		if r.Intn(3) > 0 {
			continue
		}
		s := fmt.Sprintf(f, pre+x+post)
		t.Input("%q", s)
		_, rec, err := parseRec(s)
		if err == nil {
			t.Fail("a forbidden character is accepted in %q: %q", s, merge(rec.ev))
		} else {
			for _, e := range filterEv(rec.ev, "comment pi cdata") {
				t.Fail("%q: delivered although it is not complete: %q", s, e)
			}
		}
	}
}

func randPlain(r *rand.Rand) string {
	s := ""
	for k := r.Intn(5); k > 0; k-- {
		s += pick(r, "x", "é", " ", "\n", "ab")
	}
	return s
}

var c14Bad = []string{
	"<a><!-- x -- y --></a>", "<a><!-- x ---></a>", "<a><!----->x</a>", "<a><!--></a>", "<a><!---></a>", "<a><!-- --!></a>", "<a><!- x --></a>", "<a><!-- x ->", "<a><!--", "<a><!-", "<a><!", "<!-- -- --><a/>", "<a/><!-- -- -->", "<!DOCTYPE a [<!-- -- -->]><a/>", "<!DOCTYPE a [<!-- x ]><a/>",
	"<a><?xml x?></a>", "<a><?XML x?></a>", "<a><?Xml?></a>", "<a><?xMl  ?></a>", "<a/><?xml version='1.0'?>", "<!DOCTYPE a [<?xml v?>]><a/>", "<a><? p?></a>", "<a><??></a>", "<a><?p", "<a><?p x", "<a><?p x?</a>", "<a><?p x></a>", "<a><?1?></a>", "<a><?p:?></a", "<a><?p!x?></a>", "<a><?p\"x\"?></a>",
	"<a>]]></a>", "<a>x]]>y</a>", "<a>]]]></a>", "<a><![CDATA[x]]</a>", "<a><![CDATA[x]></a>", "<a><![CDATA[", "<a><![CDATA[]]", "<a><![CDATA x]]></a>", "<a><![cdata[x]]></a>", "<![CDATA[x]]><a/>", "<a/><![CDATA[x]]>", "<a><![CDATA[x]] ></a>", "<a><! [CDATA[x]]></a>",
	"x<a/>", "<a/>x", "&#65;<a/>", "<a/>&#65;", "<a>x", "<a>x&</a>", "<a>x<</a>", "<a>x&;</a>", "<a>x& y</a>", "<a>&amp</a>",
}

func init() {
	register("C14",
		docFamily("docs", 2, "random documents; text, CDATA, comment and instruction events are compared", gOpts{dtd: true, ents: true, attrs: true, ns: true, exotic: true}, aspects{events: c14Kinds, must: true}),
		&Family{Name: "pieces", Weight: 3, What: "comments, instructions and CDATA sections whose text overlaps the delimiters, some very long", Run: func(t *T, r *rand.Rand, i int) { c14Pieces(t, r) }},
		&Family{Name: "text", Weight: 2, What: "character data with references, line breaks and ']]>'", Run: func(t *T, r *rand.Rand, i int) { c14Text(t, r) }},
		&Family{Name: "cut", Weight: 1, What: "random documents cut off at random bytes: rejected, and what is delivered is the beginning of what the whole delivers", Run: func(t *T, r *rand.Rand, i int) { c14Cut(t, r) }},
		&Family{Name: "forbidden", Weight: 1, What: "forbidden characters and broken UTF-8 inside every construct", Run: func(t *T, r *rand.Rand, i int) { c14Forbidden(t, r) }},
		&Family{Name: "malformed", N: len(c14Bad), What: "fixed malformed constructs (enumerated)", Run: func(t *T, r *rand.Rand, i int) {
			t.Input("%q", c14Bad[i])
			rec := mustReject(t, "a malformed construct", c14Bad[i])
			for _, e := range filterEv(rec.ev, "comment pi cdata") {
				if e != "comment " || !strings.Contains(c14Bad[i], "<!---->") {
					t.Fail("delivered although it is malformed: %q", e)
				}
			}
		}},
	)
}
