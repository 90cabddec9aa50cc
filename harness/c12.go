package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/lestrrat-go/helium"
)

// entities whose text is text and references only
type egraph struct {
	names []string
	parts map[string][]string // "t:text" or "r:name"
}

func (g *egraph) expand(n string, open map[string]bool) (string, bool) {
	switch n {
	case "lt":
		return "<", true
	case "gt":
		return ">", true
	case "amp":
		return "&", true
	case "quot":
		return `"`, true
	case "apos":
		return "'", true
	}
	ps, ok := g.parts[n]
	if !ok || open[n] {
		return "", false
	}
	open[n] = true
	defer delete(open, n)
	s := ""
	for _, p := range ps {
		if p[0] == 't' {
			s += p[2:]
			continue
		}
		x, ok := g.expand(p[2:], open)
		if !ok {
			return "", false
		}
		s += x
	}
	return s, true
}

func c12Graph(t *T, r *rand.Rand) {
	g := &egraph{parts: map[string][]string{}}
	n := 1 + r.Intn(5)
	all := []string{"lt", "amp", "gt", "quot", "apos"}
	for i := 0; i < n; i++ {
		g.names = append(g.names, fmt.Sprintf("e%d", i))
	}
	cyc := r.Intn(3) == 0
	undecl := r.Intn(4) == 0
	var decls []string
	for i, nm := range g.names {
		var ps []string
		for k := r.Intn(4); k > 0; k-- {
			switch r.Intn(4) {
			case 0:
				ps = append(ps, "t:"+pick(r, "x", "yz", "1 2", "é"))
			case 1:
				ps = append(ps, "r:"+all[r.Intn(len(all))])
			default:
				if undecl && r.Intn(4) == 0 {
					ps = append(ps, "r:nope")
				} else if cyc {
					ps = append(ps, "r:"+g.names[r.Intn(n)])
				} else if i+1 < n {
					ps = append(ps, "r:"+g.names[i+1+r.Intn(n-i-1)])
				}
			}
		}
		g.parts[nm] = ps
		lit := ""
		for _, p := range ps {
			if p[0] == 't' {
				lit += p[2:]
			} else {
				lit += "&" + p[2:] + ";"
			}
		}
		decls = append(decls, "<!ENTITY "+nm+" '"+lit+"'>")
		if r.Intn(4) == 0 { // a parameter entity of the same name
			decls = append(decls, "<!ENTITY % "+nm+" 'PE'>")
		}
	}
	r.Shuffle(len(decls), func(i, j int) { decls[i], decls[j] = decls[j], decls[i] })
	for _, nm := range g.names {
		if r.Intn(4) == 0 { // later declarations have no effect
			decls = append(decls, "<!ENTITY "+nm+" 'later'>")
		}
	}
	ref := g.names[r.Intn(n)]
	if r.Intn(10) == 0 {
		ref = "nope"
	}
	want, ok := g.expand(ref, map[string]bool{})
	place := r.Intn(3)
	src := "<!DOCTYPE a [" + strings.Join(decls, "") + "]>"
	switch place {
	case 0:
		src += "<a>[&" + ref + ";]</a>"
	case 1:
		src += "<a b='[&" + ref + ";]'/>"
	case 2:
		src = "<!DOCTYPE a [" + strings.Join(decls, "") + "<!ATTLIST a b CDATA '[&" + ref + ";]'>]><a/>"
	}
	t.Input("%s", src)
	// a literal '<' reached by name in an attribute value is fine (&lt; is predefined)
	doc, rec, err := parseRec(src)
	if !ok {
		if err == nil {
			t.Fail("a reference that cannot be resolved is accepted: %q", merge(rec.ev))
		}
		return
	}
	if err != nil {
		t.Fail("rejected: %v", err)
		return
	}
	want = "[" + want + "]"
	if place == 0 {
		if got := evText(rec); got != want {
			t.Fail("the handler receives %q, want %q", got, want)
		}
		return
	}
	if place == 2 {
		if st := filterEv(rec.ev, "start"); len(st) != 1 || !strings.Contains(st[0], fmt.Sprintf("%q", "b="+want+" (default)")) {
			t.Fail("the handler receives %q, want the default value %q", st, want)
		}
	} else if got := attrOf(doc, "b"); got != want {
		t.Fail("the attribute value is %q, want %q", got, want)
	}
}

// evText: the character data the handler receives
func evText(rec *recorder) string {
	return strings.TrimPrefix(strings.Join(filterEv(merge(filterEv(rec.ev, "text")), "text"), ""), "text ")
}

// replacement texts that are not well formed by themselves
var badTexts = []string{"<b>", "</b>", "<b></c>", "x</a><a>y", "<b", "<b x=", "<b x='1", "<!--", "<!-- -", "<![CDATA[", "<![CDATA[x]]", "<?p", "<?p x", "<b/><c>", "<", "<1/>", "<b x='1' x='2'/>", "<b></b", "x]]>y", "&#38;", "&#38;#", "&#38;x", "&#38;nope;", "<b>&#38;nope;</b>", "<b>]]></b>", "<q:b/>", "<?xml version=\"1.0\"?>", "<!DOCTYPE a>", "<b><c></b></c>"}

func c12Bad(t *T, r *rand.Rand, i int) {
	lit := strings.Replace(badTexts[i%len(badTexts)], "'", "&#39;", -1)
	if i >= len(badTexts) {
		// the raw markup characters by reference: the same replacement text
		lit = strings.Replace(lit, "<", "&#60;", -1)
	}
	var b strings.Builder
	b.WriteString("<!DOCTYPE a [<!ENTITY e '" + lit + "'><!ENTITY f '[&e;]'>]>")
	for _, c := range []string{"<a>&e;</a>", "<a>x&f;y</a>", "<a><b>&e;</b></a>", "<a>&e;&e;</a>"} {
		src := b.String() + c
		t.Input("%s", src)
		if _, rec, err := parseRec(src); err == nil {
			t.Fail("an entity whose text is not well formed is accepted: %q", merge(rec.ev))
		}
	}
}

func c12API(t *T, r *rand.Rand) {
	doc := helium.CreateDocument()
	dtd, err := doc.CreateInternalSubset("a", "", "")
	if err != nil {
		t.Fail("%v", err)
		return
	}
	first := map[string]*helium.Entity{}
	names := []string{"a", "b", "lt", "amp", "c:d"}
	for k := r.Intn(10); k >= 0; k-- {
		n, typ := names[r.Intn(len(names))], 1+r.Intn(5)
		val := fmt.Sprint("v", k)
		t.Input("AddEntity(%s,%d,%s)", n, typ, val)
		var e *helium.Entity
		if r.Intn(2) == 0 {
			e, err = dtd.AddEntity(n, helium.EntityType(typ), "p", "s", val)
		} else {
			e, err = doc.AddEntity(n, helium.EntityType(typ), "p", "s", val)
		}
		if err != nil {
			t.Fail("%v", err)
			return
		}
		key := fmt.Sprint(typ >= 4, n)
		if first[key] == nil {
			first[key] = e
		}
		if string(e.Content()) != val || e.Name() != n || e.EntityType() != typ {
			t.Fail("AddEntity gives %s %d %q", e.Name(), e.EntityType(), e.Content())
		}
		for _, m := range names {
			g, ok := doc.GetEntity(m)
			w := first[fmt.Sprint(false, m)]
			if ok != (w != nil) || ok && g != w {
				t.Fail("GetEntity(%s): %v, want the first declaration", m, ok)
			}
			g, ok = doc.GetParameterEntity(m)
			w = first[fmt.Sprint(true, m)]
			if ok != (w != nil) || ok && g != w {
				t.Fail("GetParameterEntity(%s): %v, want the first declaration", m, ok)
			}
		}
	}
}

func init() {
	register("C12",
		docFamily("docs", 3, "random documents with internal entities, references in content, in attribute values and in entities; the events and the tree are compared", gOpts{dtd: true, ents: true, attrs: true, ns: true}, aspects{events: "text ref entitydecl start end", tree: true, must: true}),
		&Family{Name: "graphs", Weight: 3, What: "random reference graphs (cycles, undeclared names, redeclarations, parameter entities of the same name), one reference in content, an attribute value or a default value, against direct expansion", Run: func(t *T, r *rand.Rand, i int) { c12Graph(t, r) }},
		&Family{Name: "unbalanced", N: 2 * len(badTexts), What: "replacement texts that are not well formed by themselves, referenced directly and through another entity (enumerated)", Run: c12Bad},
		&Family{Name: "chains", N: 60, What: "chains of up to 15 entities (30 from values), each referring to the next, from content, an attribute value, a namespace declaration and a default value (enumerated)", Run: func(t *T, r *rand.Rand, i int) {
			n := 1 + i/2
			var ds []string
			for k := 0; k < n; k++ {
				ds = append(ds, fmt.Sprintf("<!ENTITY e%d '[&e%d;]'>", k, k+1))
			}
			ds = append(ds, fmt.Sprintf("<!ENTITY e%d 'x'>", n))
			if i%2 == 1 {
				for a, b := 0, len(ds)-1; a < b; a, b = a+1, b-1 {
					ds[a], ds[b] = ds[b], ds[a]
				}
			}
			want := strings.Repeat("[", n) + "x" + strings.Repeat("]", n)
			src := "<!DOCTYPE a [" + strings.Join(ds, "") + "<!ATTLIST a c CDATA '&e0;'>]><a b='&e0;'>"
			if n <= 15 { // the depth of entities is bounded
				src += "&e0;"
			} else {
				src += want
			}
			src += "<c xmlns:p='&e0;'/></a>"
			t.Input("%s", src)
			doc, rec, err := parseRec(src)
			if err != nil {
				t.Fail("rejected: %v", err)
				return
			}
			if got := evText(rec); got != want {
				t.Fail("the handler receives %q, want %q", got, want)
			}
			if got := attrOf(doc, "b"); got != want {
				t.Fail("the attribute value is %q, want %q", got, want)
			}
			var uri string
			helium.Walk(doc, func(n helium.Node) error {
				if e, ok := n.(*helium.Element); ok && e.Name() == "c" {
					for _, d := range e.Namespaces() {
						uri = d.URI()
					}
				}
				return nil
			})
			if uri != want {
				t.Fail("the namespace name is %q, want %q", uri, want)
			}
			if st := filterEv(rec.ev, "start"); len(st) != 2 || !strings.Contains(st[0], fmt.Sprintf("%q", "c="+want+" (default)")) {
				t.Fail("the handler receives %q, want the default value %q", st, want)
			}
		}},
		&Family{Name: "api", Weight: 1, What: "random histories of AddEntity against a first-declaration-wins model", Run: func(t *T, r *rand.Rand, i int) { c12API(t, r) }},
		&Family{Name: "predefined", N: 5, What: "the predefined entities, also when declared again (enumerated)", Run: func(t *T, r *rand.Rand, i int) {
			n := []string{"lt", "gt", "amp", "quot", "apos"}[i]
			c := []string{"<", ">", "&", `"`, "'"}[i]
			for _, d := range []string{"", "<!DOCTYPE a>", "<!DOCTYPE a [<!ENTITY " + n + " \"" + map[string]string{"<": "&#38;#60;", "&": "&#38;#38;", ">": "&#62;", `"`: "&#34;", "'": "&#39;"}[c] + "\">]>", "<!DOCTYPE a [<!ENTITY e '&" + n + ";'>]>"} {
				ref := "&" + n + ";"
				if strings.Contains(d, "ENTITY e") {
					ref = "&e;"
				}
				src := d + "<a b='" + ref + "'>x" + ref + "y</a>"
				t.Input("%s", src)
				doc, rec, err := parseRec(src)
				if err != nil {
					t.Fail("%q rejected: %v", src, err)
					continue
				}
				if got := evText(rec); got != "x"+c+"y" {
					t.Fail("%q: content %q", src, got)
				}
				if got := attrOf(doc, "b"); got != c {
					t.Fail("%q: attribute %q", src, got)
				}
			}
			// declared with another value: an error, or still the character
			src := "<!DOCTYPE a [<!ENTITY " + n + " 'other'>]><a b='&" + n + ";'>x&" + n + ";y</a>"
			if doc, rec, err := parseRec(src); err == nil && (evText(rec) != "x"+c+"y" || attrOf(doc, "b") != c) {
				t.Fail("%q: %q %q", src, evText(rec), attrOf(doc, "b"))
			}
		}},
	)
	register("known", &Family{Name: "pe-between-declarations", N: 1, What: "declarations in a parameter entity", Run: func(t *T, r *rand.Rand, i int) {
		doc, err := helium.Parse([]byte("<!DOCTYPE a [<!ENTITY % p '<!ENTITY e \"x\">'>%p;]><a/>"))
		if err != nil {
			t.Fail("rejected: %v", err)
		} else if _, ok := doc.GetEntity("e"); !ok {
			t.Fail("the declaration in %%p; is not read")
		}
	}})
}
