package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// normOracle: XML 1.0 3.3.3 on the literal (no general entities except the predefined ones)
func normOracle(lit string, cdata bool) (string, bool) {
	lit = strings.Replace(lit, "\r\n", "\n", -1)
	var b strings.Builder
	for i := 0; i < len(lit); {
		c := lit[i]
		switch {
		case c == '\n' || c == '\r' || c == '\t' || c == ' ':
			b.WriteByte(' ')
			i++
		case c == '<':
			return "", false
		case c == '&':
			j := strings.IndexByte(lit[i:], ';')
			if j < 0 {
				return "", false
			}
			body := lit[i+1 : i+j]
			i += j + 1
			if strings.HasPrefix(body, "#") {
				x, ok := refValue(body[1:], true)
				if !ok {
					return "", false
				}
				b.WriteRune(x)
				continue
			}
			x, ok := map[string]string{"lt": "<", "gt": ">", "amp": "&", "quot": `"`, "apos": "'"}[body]
			if !ok {
				return "", false
			}
			b.WriteString(x)
		default:
			b.WriteByte(c)
			i++
		}
	}
	s := b.String()
	if !cdata {
		s = collapse(s)
	}
	return s, true
}

var c13Toks = []string{" ", " ", "  ", "\n", "\t", "\r\n", "\r", "\n\n", "a", "b", "é", "-", ".", "&#32;", "&#x20;", "&#9;", "&#10;", "&#xD;", "&#97;", "&lt;", "&gt;", "&amp;", "&quot;", "&apos;", "&#38;", "&#60;", "日", "x y", ">", "]]>", "%", ";", "#"}

func c13Literal(t *T, r *rand.Rand) {
	var lit string
	for k := r.Intn(10); k > 0; k-- {
		lit += c13Toks[r.Intn(len(c13Toks))]
	}
	lit = strings.Replace(lit, "\r\n\n", "\r\n", -1)
	types := []string{"", "CDATA", "ID", "IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN", "NMTOKENS", "(a|b)"}
	typ := types[r.Intn(len(types))]
	q := pick(r, "'", `"`)
	decl, pre := "", pick(r, "", "", "p:")
	if typ != "" {
		decl = "<!ATTLIST " + pre + "a " + pre + "b " + typ + " #IMPLIED>"
		if r.Intn(3) == 0 {
			decl += "<!ATTLIST " + pre + "a " + pre + "b CDATA #IMPLIED " + pre + "c NMTOKEN #IMPLIED>" // the first one binds
		}
		if r.Intn(3) == 0 { // declarations of others
			decl = "<!ATTLIST x " + pre + "b NMTOKENS #IMPLIED><!ATTLIST " + pre + "a bb NMTOKENS #IMPLIED>" + decl
		}
	}
	ns := ""
	if pre != "" {
		ns = " xmlns:p='u'"
	}
	want, ok := normOracle(lit, typ == "" || typ == "CDATA")
	if !ok {
		t.Trivial()
		return
	}
	src := "<!DOCTYPE a [" + decl + "]><" + pre + "a" + ns + " " + pre + "b=" + q + lit + q + "/>"
	deflt := typ != "" && typ[0] != '(' && r.Intn(3) == 0
	if deflt {
		decl = strings.Replace(decl, "a "+pre+"b "+typ+" #IMPLIED", "a "+pre+"b "+typ+pick(r, " ", " #FIXED ")+q+lit+q, 1)
		src = "<!DOCTYPE a [" + decl + "]><" + pre + "a" + ns + "/>"
		if pre != "" && r.Intn(2) == 0 {
			// a declaration of another prefix must not matter
			src = strings.Replace(src, "]><p:", "<!ATTLIST a "+pre+"b NMTOKEN 'other'><!ATTLIST "+pre+"a b NMTOKEN 'plain'>]><p:", 1)
		}
	}
	t.Input("%q", src)
	doc, rec, err := parseRec(src)
	if err != nil {
		t.Fail("rejected: %v", err)
		return
	}
	if got := attrOf(doc, pre+"b"); got != want && !deflt {
		t.Fail("the value in the tree is %q, want %q", got, want)
	}
	w := pre + "b=" + strings.Replace(want, "&", "&#38;", -1)
	if deflt {
		w = pre + "b=" + want + " (default)"
	}
	st := filterEv(rec.ev, "start")
	if len(st) != 1 || !strings.Contains(st[0], fmt.Sprintf("%q", w)) {
		t.Fail("the handler receives %q, want %q", st, w)
	}
}

// c13Defaults: which attributes an element has, in the handler and in the tree
func c13Defaults(t *T, r *rand.Rand) {
	type def struct{ name, typ, def, val string }
	first := map[string]def{}
	var decl strings.Builder
	els := []string{"a", "b", "p:a"}
	names := []string{"k", "l", "p:k", "p:l", "m"}
	for i := r.Intn(8); i > 0; i-- {
		e, n := els[r.Intn(3)], names[r.Intn(5)]
		d := def{n, pick(r, "CDATA", "NMTOKENS"), pick(r, "", "#FIXED", "#IMPLIED", "#REQUIRED"), fmt.Sprint("v", i)}
		if _, ok := first[e+" "+n]; !ok {
			first[e+" "+n] = d
		}
		v := ""
		if d.def == "" || d.def == "#FIXED" {
			v = " '" + d.val + "'"
		}
		fmt.Fprintf(&decl, "<!ATTLIST %s %s %s %s%s>", e, n, d.typ, d.def, v)
		if r.Intn(4) == 0 {
			fmt.Fprintf(&decl, "<!ELEMENT %s ANY>", fmt.Sprint("z", i))
		}
	}
	if r.Intn(3) == 0 {
		decl.WriteString("<!ELEMENT a ANY>")
	}
	e := els[r.Intn(3)]
	src := "<!DOCTYPE a [" + decl.String() + "]><" + e + " xmlns:p='u'"
	var want []string
	given := map[string]bool{}
	for _, n := range names {
		if r.Intn(3) == 0 {
			src += " " + n + "='given'"
			given[n] = true
			want = append(want, n+"=given")
		}
	}
	for _, n := range names {
		if d, ok := first[e+" "+n]; ok && !given[n] && (d.def == "" || d.def == "#FIXED") {
			want = append(want, n+"="+d.val+" (default)")
		}
	}
	src += "/>"
	t.Input("%s", src)
	doc, rec, err := parseRec(src)
	if err != nil {
		t.Fail("rejected: %v", err)
		return
	}
	p, l := "", e
	if strings.HasPrefix(e, "p:") {
		p, l = "p", e[2:]
	}
	u := ""
	if p != "" {
		u = "u"
	}
	ws := evStart(p, l, u, [][2]string{{"p", "u"}}, want)
	if st := filterEv(rec.ev, "start"); len(st) != 1 || st[0] != ws {
		t.Fail("the handler receives %q, want %q", st, ws)
	}
	for _, w := range want {
		w = strings.TrimSuffix(w, " (default)")
		i := strings.IndexByte(w, '=')
		if strings.HasSuffix(w, "=given") {
			if got := attrOf(doc, w[:i]); got != w[i+1:] {
				t.Fail("in the tree %s is %q", w[:i], got)
			}
		} else if got := attrOf(doc, w[:i]); got != w[i+1:] && got != "(no such attribute)" {
			t.Fail("in the tree %s is %q", w[:i], got)
		}
	}
}

func init() {
	register("C13",
		docFamily("docs", 2, "random documents with declared attributes; the start events and the tree are compared", gOpts{dtd: true, ents: true, attrs: true, ns: true}, aspects{events: "start", tree: true, must: true}),
		&Family{Name: "literal", Weight: 3, What: "random literals (blanks, line breaks, references) as value or default of an attribute of every type, against the algorithm of XML 1.0 3.3.3", Run: func(t *T, r *rand.Rand, i int) { c13Literal(t, r) }},
		&Family{Name: "defaults", Weight: 2, What: "random declarations of several elements and attributes, some given: the attributes of the element are the given ones and the first declared defaults", Run: func(t *T, r *rand.Rand, i int) { c13Defaults(t, r) }},
	)
}
