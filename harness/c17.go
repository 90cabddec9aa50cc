package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"unsafe"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/sax"
)

func splitName(s string) (prefix, local string) {
	if i := strings.IndexByte(s, ':'); i >= 0 {
		return s[:i], s[i+1:]
	}
	return "", s
}

// c17Lookups: every declaration of the document is found under its name, as its first declaration said
func c17Lookups(t *T, g *gDoc, doc *helium.Document) {
	if g.dtd == nil {
		return
	}
	dtd := doc.IntSubset()
	if dtd == nil {
		t.Fail("no internal subset")
		return
	}
	type key struct{ kind, name string }
	want := map[key]string{}
	val := map[key]*gEnt{}
	names := map[string]bool{}
	elems := map[string]bool{}
	for _, x := range g.dtd.decls {
		switch x.kind {
		case "element":
			s := canonDecls(x, map[string]bool{})[0]
			if x.model != nil {
				s = strings.Replace(s, "MODEL", modelString(x.model), 1)
			}
			want[key{"element", x.name}] = s
			names[x.name], elems[x.name] = true, true
		case "attlist":
			elems[x.name] = true
			for _, a := range x.defs {
				k := key{"attribute", x.name + " " + a.name()}
				if _, ok := want[k]; !ok {
					y := *x
					y.defs = []*gAttDef{a}
					want[k] = canonDecls(&y, map[string]bool{})[0]
				}
				names[a.name()] = true
			}
		case "entity":
			k := key{"entity", x.ent.name}
			if x.ent.pe {
				k.kind = "pe"
			}
			if _, ok := want[k]; !ok {
				want[k] = canonDecls(x, nil)[0]
				val[k] = x.ent
			}
			names[x.ent.name] = true
		}
	}
	names["nothing"] = true
	check := func(k key, n helium.Node, ok bool) {
		w, declared := want[k]
		if ok != declared {
			t.Fail("lookup of %s %s: found is %v", k.kind, k.name, ok)
			return
		}
		if !ok {
			return
		}
		s, err := dumpNode(n)
		if err != nil || normDecls(s) != w {
			t.Fail("lookup of %s %s gives %q (%v), declared %q", k.kind, k.name, normDecls(s), err, w)
		}
		if e := val[k]; e != nil {
			x := n.(*helium.Entity)
			kind := 1
			if e.pe {
				kind = 4
			}
			if string(x.Content()) != e.value || x.EntityType() != kind || x.Name() != e.name {
				t.Fail("%s %s: kind %d value %q, declared %q", k.kind, k.name, x.EntityType(), x.Content(), e.value)
			}
		}
	}
	for n := range names {
		p, l := splitName(n)
		e, ok := dtd.LookupElement(l, p)
		check(key{"element", n}, e, ok)
		e, ok = dtd.GetElementDesc(n)
		check(key{"element", n}, e, ok)
		en, ok := dtd.LookupEntity(n)
		check(key{"entity", n}, en, ok)
		en, ok = dtd.LookupParameterEntity(n)
		check(key{"pe", n}, en, ok)
		en, ok = doc.GetEntity(n)
		check(key{"entity", n}, en, ok)
		en, ok = doc.GetParameterEntity(n)
		check(key{"pe", n}, en, ok)
		for el := range elems {
			a, ok := dtd.LookupAttribute(l, p, el)
			check(key{"attribute", el + " " + n}, a, ok)
		}
	}
}

// c17Redeclare: a second element declaration is an error
func c17Redeclare(t *T, r *rand.Rand) {
	n := []string{"a", "b", "p:a", "q:a", "p:b"}
	decl := func(x string) string {
		return "<!ELEMENT " + x + " " + pick(r, "EMPTY", "ANY", "(#PCDATA)", "(x,y)", "(z|w)*") + ">"
	}
	var b strings.Builder
	b.WriteString("<!DOCTYPE a [")
	seen := map[string]bool{}
	twice := false
	for k := 1 + r.Intn(5); k > 0; k-- {
		x := n[r.Intn(len(n))]
		twice = twice || seen[x]
		seen[x] = true
		b.WriteString(decl(x))
		if r.Intn(3) == 0 {
			b.WriteString("<!ATTLIST " + n[r.Intn(len(n))] + " k CDATA #IMPLIED>")
		}
	}
	b.WriteString("]><a/>")
	t.Input("%s", b.String())
	_, _, err := parseRec(b.String())
	if twice != (err != nil) {
		t.Fail("an element declared twice: %v, error: %v", twice, err)
	}
}

type modelHandler struct {
	*helium.TreeBuilder
	got []*helium.ElementContent
}

func (h *modelHandler) ElementDecl(c sax.Context, name string, typ int, content sax.ElementContent) error {
	if x, ok := content.(*helium.ElementContent); ok && x != nil {
		h.got = append(h.got, x)
	}
	return h.TreeBuilder.ElementDecl(c, name, typ, content)
}

// scribble changes every field of a content model in place
func scribble(c *helium.ElementContent, depth int) bool {
	if c == nil || depth > 50 {
		return true
	}
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == reflect.TypeOf(c) {
			if v.Type().Field(i).Name == "parent" {
				continue
			}
			sub := *(**helium.ElementContent)(unsafe.Pointer(f.UnsafeAddr()))
			scribble(sub, depth+1)
		}
	}
	for i := 0; i < v.NumField(); i++ {
		f := reflect.NewAt(v.Field(i).Type(), unsafe.Pointer(v.Field(i).UnsafeAddr())).Elem()
		switch f.Kind() {
		case reflect.String:
			f.SetString("scribbled")
		case reflect.Ptr:
			f.Set(reflect.Zero(f.Type()))
		case reflect.Int:
			f.SetInt(1)
		}
	}
	return true
}

func c17Copy(t *T, r *rand.Rand) {
	g := &gGen{r: r, o: gOpts{simple: true}}
	m := g.genModel(3)
	if m.sep == 0 {
		m = &gModel{sep: ',', kids: []*gModel{m}}
	}
	src := "<!DOCTYPE a [<!ELEMENT a " + m.String() + ">]><a/>"
	t.Input("%s", src)
	h := &modelHandler{TreeBuilder: helium.NewTreeBuilder()}
	p := helium.NewParser()
	p.SetSAXHandler(h)
	doc, err := p.Parse([]byte(src))
	if err != nil || len(h.got) != 1 {
		t.Trivial()
		return
	}
	decl, ok := doc.IntSubset().LookupElement("a", "")
	if !ok {
		t.Fail("not found")
		return
	}
	before, _ := dumpNode(decl)
	doc2 := helium.CreateDocument()
	dtd2, _ := doc2.CreateInternalSubset("a", "", "")
	d2, err := dtd2.AddElementDecl("a", helium.ElementElementType, h.got[0])
	if err != nil {
		t.Fail("AddElementDecl: %v", err)
		return
	}
	if s, _ := dumpNode(d2); s != before {
		t.Fail("the copy is %q, the original %q", s, before)
	}
	scribble(h.got[0], 0)
	if s, _ := dumpNode(decl); s != before {
		t.Fail("changing the model handed in by the parser changes the declaration: %q, was %q", s, before)
	}
	if s, _ := dumpNode(d2); s != before {
		t.Fail("changing the model handed in changes the declaration: %q, was %q", s, before)
	}
}

// c17API: histories of AddElementDecl
func c17API(t *T, r *rand.Rand) {
	doc := helium.CreateDocument()
	dtd, _ := doc.CreateInternalSubset("a", "", "")
	type rec struct {
		decl *helium.ElementDecl
		s    string
	}
	have := map[string]rec{}
	names := []string{"a", "b", "p:a", "p:b", "a:p"}
	for k := 1 + r.Intn(8); k > 0; k-- {
		n := names[r.Intn(len(names))]
		typ := r.Intn(7) - 1
		var c *helium.ElementContent
		if r.Intn(2) == 0 {
			c, _ = doc.CreateElementContent("x", helium.ElementContentElement)
		}
		t.Input("AddElementDecl(%s, %d, content %v)", n, typ, c != nil)
		d, err := dtd.AddElementDecl(n, helium.ElementTypeVal(typ), c)
		valid := (typ == 1 || typ == 2) && c == nil || (typ == 3 || typ == 4) && c != nil
		_, dup := have[n]
		if (err == nil) != (valid && !dup) {
			t.Fail("error %v, valid %v, declared before %v", err, valid, dup)
			return
		}
		if err == nil {
			s, derr := dumpNode(d)
			w := "<!ELEMENT " + n + " " + map[int]string{1: "EMPTY", 2: "ANY", 3: "(x)", 4: "(x)"}[typ] + ">\n"
			if derr != nil || s != w {
				t.Fail("written as %q (%v), want %q", s, derr, w)
			}
			have[n] = rec{d, s}
		}
		for _, m := range names {
			p, l := splitName(m)
			g, ok := dtd.LookupElement(l, p)
			w, declared := have[m]
			if ok != declared || ok && g != w.decl {
				t.Fail("lookup of %s: %v", m, ok)
			} else if ok {
				if s, _ := dumpNode(g); s != w.s {
					t.Fail("%s has changed to %q", m, s)
				}
			}
		}
	}
}

func init() {
	register("C17",
		&Family{Name: "docs", Weight: 4, What: "random DTDs with redeclarations: every name is looked up in every table and compared with its first declaration; the declaration events are compared", Run: func(t *T, r *rand.Rand, i int) {
			g := genDoc(r, dtdOpts)
			if g.dtd == nil {
				t.Trivial()
			}
			doc, _ := checkDoc(t, g, aspects{events: "elementdecl attdecl entitydecl", must: true})
			if doc != nil {
				c17Lookups(t, g, doc)
			}
		}},
		&Family{Name: "redeclare", Weight: 1, What: "random element declarations; a second one of the same name is an error", Run: func(t *T, r *rand.Rand, i int) { c17Redeclare(t, r) }},
		&Family{Name: "copy", Weight: 1, What: "the content model handed to AddElementDecl is overwritten afterwards", Run: func(t *T, r *rand.Rand, i int) { c17Copy(t, r) }},
		&Family{Name: "api", Weight: 1, What: "random histories of AddElementDecl against a first-declaration-wins model", Run: func(t *T, r *rand.Rand, i int) { c17API(t, r) }},
	)
	_ = fmt.Sprint
}
