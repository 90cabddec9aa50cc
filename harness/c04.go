package main

import (
	"math/rand"
	"strings"

	"github.com/lestrrat-go/helium"
)

// decls serialises the declarations of a document's internal subset one by one
func decls(doc *helium.Document) []string {
	var out []string
	dtd := doc.IntSubset()
	if dtd == nil {
		return nil
	}
	for c := dtd.FirstChild(); c != nil; c = c.NextSibling() {
		s, err := dumpNode(c)
		if err != nil {
			s = "error: " + err.Error()
		}
		out = append(out, normDecls(s))
	}
	return out
}

// wantDecls: the serialised declarations the document should have
func (d *gDoc) wantDecls() []string {
	var out []string
	if d.dtd == nil {
		return nil
	}
	seen := map[string]bool{}
	for _, x := range d.dtd.decls {
		if x.node != nil {
			var b strings.Builder
			d.canonNode(&b, x.node)
			out = append(out, b.String())
		}
		for _, s := range canonDecls(x, seen) {
			if x.model != nil {
				s = strings.Replace(s, "MODEL", modelString(x.model), 1)
			}
			out = append(out, s)
		}
	}
	return out
}

func cmpLists(t *T, what string, got, want []string) {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "(nothing)", "(nothing)"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			t.Fail("%s %d is %q, want %q", what, i, g, w)
			return
		}
	}
}

var dtdOpts = gOpts{dtd: true, ents: true, attrs: true, maxDepth: 1, maxKids: 1}

func init() {
	register("C04",
		&Family{Name: "roundtrip", Weight: 3, What: "the declarations of random DTDs are read, written, compared with the declared parts, read again (same events) and written again", Run: func(t *T, r *rand.Rand, i int) {
			g := genDoc(r, dtdOpts)
			if g.dtd == nil || len(g.dtd.decls) == 0 {
				t.Trivial()
			}
			t.Input("%s", g.surf)
			doc, _, err := parseRec(g.surf)
			if err != nil {
				t.Trivial()
				return
			}
			d1 := decls(doc)
			cmpLists(t, "declaration", d1, g.wantDecls())
			out, err := doc.XMLString()
			if err != nil {
				t.Fail("serialising: %v", err)
				return
			}
			doc2, _, err := parseRec(out)
			if err != nil {
				t.Fail("the serialised form %q is rejected: %v", out, err)
				return
			}
			cmpLists(t, "declaration read again", decls(doc2), d1)
		}},
		&Family{Name: "api", Weight: 1, What: "entities of every kind added by the interface, and unknown kinds", Run: func(t *T, r *rand.Rand, i int) {
			doc := helium.CreateDocument()
			dtd, _ := doc.CreateInternalSubset(simpleName(r), pick(r, "", "-//pub"), pick(r, "", "sys"))
			name, pub, sys, val := simpleName(r), pick(r, "", "-//P"), pick(r, "s.xml", "http://x/y"), pick(r, "gif", "text", "a\"b", "")
			typ := r.Intn(9) - 1
			t.Input("AddEntity(%q, %d, %q, %q, %q)", name, typ, pub, sys, val)
			ent, err := dtd.AddEntity(name, helium.EntityType(typ), pub, sys, val)
			if (err == nil) != (typ >= 1 && typ <= 5) {
				t.Fail("kind %d: error %v", typ, err)
				return
			}
			if err != nil {
				return
			}
			want := "<!ENTITY "
			if typ == 4 || typ == 5 {
				want += "% "
			}
			want += name
			if typ == 1 || typ == 4 {
				want += " " + quoteOracle(val)
			} else {
				if pub != "" {
					want += " PUBLIC " + quoteOracle(pub) + " " + quoteOracle(sys)
				} else {
					want += " SYSTEM " + quoteOracle(sys)
				}
				if typ == 3 && val != "" {
					want += " NDATA " + val
				}
			}
			want += ">\n"
			got, err := dumpNode(ent)
			if err != nil || got != want {
				t.Fail("written as %q (%v), want %q", got, err, want)
			}
			got, err = dumpNode(dtd)
			if err != nil || !strings.Contains(got, want) {
				t.Fail("the DTD is written as %q (%v), without %q", got, err, want)
			}
		}},
		&Family{Name: "predefined", N: 1, What: "a declaration of a kind that cannot be declared is an error", Run: func(t *T, r *rand.Rand, i int) {
			for _, e := range []*helium.Entity{helium.EntityLT, helium.EntityGT, helium.EntityAmpersand, helium.EntityApostrophe, helium.EntityQuote} {
				t.Input("%s", e.Name())
				if out, err := dumpNode(e); err == nil {
					t.Fail("the predefined entity %s is written as %q", e.Name(), out)
				}
			}
		}},
	)
}
