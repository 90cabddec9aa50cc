package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/lestrrat-go/helium"
)

var quoteAlphabet = []string{`"`, `'`, `"`, `'`, "%", "a", "&", " ", ";", "é", "<", ">", "&quot;", "%p;", "&#37;"}

func randLiteral(r *rand.Rand, max int) string {
	var b strings.Builder
	for i := r.Intn(max + 1); i > 0; i-- {
		b.WriteString(quoteAlphabet[r.Intn(len(quoteAlphabet))])
	}
	return b.String()
}

// checkQuoted: out is s in one pair of quotes that do not occur inside, and only double quotes are replaced,
// and only when both kinds occur
func checkQuoted(t *T, what, out, s string) {
	if len(out) < 2 || out[0] != out[len(out)-1] || out[0] != '"' && out[0] != '\'' {
		t.Fail("%s: %q is written as %q", what, s, out)
		return
	}
	in := out[1 : len(out)-1]
	if strings.IndexByte(in, out[0]) >= 0 {
		t.Fail("%s: %q is written as %q, with the quote inside", what, s, out)
	}
	want := s
	if strings.Contains(s, `"`) && strings.Contains(s, "'") {
		want = strings.Replace(s, `"`, "&quot;", -1)
	}
	if in != want {
		t.Fail("%s: %q is written as %q, want %q inside", what, s, out, want)
	}
}

// checkEntityContent: as checkQuoted, and every percent sign is a reference
func checkEntityContent(t *T, what, out, s string) {
	if !strings.Contains(s, "%") {
		checkQuoted(t, what, out, s)
		return
	}
	if len(out) < 2 || out[0] != out[len(out)-1] || out[0] != '"' && out[0] != '\'' {
		t.Fail("%s: %q is written as %q", what, s, out)
		return
	}
	in := out[1 : len(out)-1]
	if strings.IndexByte(in, out[0]) >= 0 || strings.Contains(in, "%") {
		t.Fail("%s: %q is written as %q", what, s, out)
	}
	back := strings.Replace(in, "&#x25;", "%", -1)
	back = strings.Replace(back, "&#37;", "%", -1)
	ref := strings.Replace(s, "&#37;", "%", -1)
	ref2 := strings.Replace(ref, `"`, "&quot;", -1)
	if back != ref && back != ref2 {
		t.Fail("%s: %q is written as %q", what, s, out)
	}
}

func c02Case(t *T, s string, r *rand.Rand) {
	if shimQuoted != nil {
		out, err := shimQuoted(s)
		if err != nil {
			t.Fail("quoting: %v", err)
		}
		checkQuoted(t, "quoted string", out, s)
		out, err = shimEntityContent(s)
		if err != nil {
			t.Fail("entity content: %v", err)
		}
		checkEntityContent(t, "entity value", out, s)
	}
	doc := helium.CreateDocument()
	dtd, err := doc.CreateInternalSubset("d", "", s)
	if err != nil {
		t.Fail("%v", err)
		return
	}
	cut := func(what, out, pre, post string) (string, bool) {
		if !strings.HasPrefix(out, pre) || !strings.HasSuffix(out, post) || len(out) < len(pre)+len(post) {
			t.Fail("%s of %q is written as %q", what, s, out)
			return "", false
		}
		return out[len(pre) : len(out)-len(post)], true
	}
	if s != "" {
		out, _ := dumpNode(dtd)
		if x, ok := cut("DTD", strings.Replace(out, "  SYSTEM", " SYSTEM", 1), "<!DOCTYPE d SYSTEM ", " >"); ok {
			checkQuoted(t, "system identifier", x, s)
		}
		d2, _ := helium.CreateDocument().CreateInternalSubset("d", s, "sys")
		out, _ = dumpNode(d2)
		if x, ok := cut("DTD", strings.Replace(out, "  PUBLIC", " PUBLIC", 1), "<!DOCTYPE d PUBLIC ", ` "sys" >`); ok {
			checkQuoted(t, "public identifier", x, s)
		}
		d3, _ := helium.CreateDocument().CreateInternalSubset("d", "pub", s)
		out, _ = dumpNode(d3)
		if x, ok := cut("DTD", strings.Replace(out, "  PUBLIC", " PUBLIC", 1), `<!DOCTYPE d PUBLIC "pub" `, ` >`); ok {
			checkQuoted(t, "system identifier", x, s)
		}
	}
	for _, k := range []struct {
		typ       helium.EntityType
		pub, sys  string
		val       string
		pre, post string
		entity    bool
	}{
		{helium.InternalGeneralEntity, "", "", s, "<!ENTITY n ", ">\n", true},
		{helium.InternalParameterEntity, "", "", s, "<!ENTITY % n ", ">\n", true},
		{helium.ExternalGeneralParsedEntity, "", s, "", "<!ENTITY n SYSTEM ", ">\n", false},
		{helium.ExternalGeneralParsedEntity, "p", s, "", `<!ENTITY n PUBLIC "p" `, ">\n", false},
		{helium.ExternalGeneralParsedEntity, s, "q", "", `<!ENTITY n PUBLIC `, " \"q\">\n", false},
		{helium.ExternalParameterEntity, "", s, "", "<!ENTITY % n SYSTEM ", ">\n", false},
		{helium.ExternalParameterEntity, "p", s, "", `<!ENTITY % n PUBLIC "p" `, ">\n", false},
		{helium.ExternalParameterEntity, s, "q", "", `<!ENTITY % n PUBLIC `, " \"q\">\n", false},
		{helium.ExternalGeneralUnparsedEntity, "", s, "gif", "<!ENTITY n SYSTEM ", " NDATA gif>\n", false},
		{helium.ExternalGeneralUnparsedEntity, s, "q", "gif", "<!ENTITY n PUBLIC ", " \"q\" NDATA gif>\n", false},
	} {
		if s == "" && !k.entity && (k.pub == s && k.pre == "<!ENTITY n PUBLIC " || strings.HasSuffix(k.pre, "PUBLIC ")) {
			continue // an empty public identifier means there is none
		}
		ent, err := dtd.AddEntity("n", k.typ, k.pub, k.sys, k.val)
		if err != nil {
			t.Fail("AddEntity: %v", err)
			continue
		}
		out, err := dumpNode(ent)
		if err != nil {
			t.Fail("dump: %v", err)
			continue
		}
		if x, ok := cut("entity", out, k.pre, k.post); ok {
			if k.entity {
				checkEntityContent(t, fmt.Sprintf("value of entity type %d", k.typ), x, s)
			} else {
				checkQuoted(t, fmt.Sprintf("identifier of entity type %d", k.typ), x, s)
			}
		}
	}
}

func init() {
	var enum []string
	var rec func(p string, n int)
	rec = func(p string, n int) {
		enum = append(enum, p)
		if n == 0 {
			return
		}
		for _, c := range []string{`"`, "'", "%", "a", "&"} {
			rec(p+c, n-1)
		}
	}
	rec("", 5)
	register("C02",
		&Family{Name: "literals", N: len(enum), What: "every string of up to 5 of \" ' % a & in every place a literal is written (enumerated)", Run: func(t *T, r *rand.Rand, i int) {
			t.Input("literal %q", enum[i])
			c02Case(t, enum[i], r)
		}},
		&Family{Name: "random", Weight: 2, What: "random literals of up to 40 units: quotes, percent signs, references, markup characters", Run: func(t *T, r *rand.Rand, i int) {
			s := randLiteral(r, 40)
			t.Input("literal %q", s)
			c02Case(t, s, r)
		}},
		&Family{Name: "defaults", Weight: 1, What: "default values in a parsed document type declaration, serialised", Run: func(t *T, r *rand.Rand, i int) {
			s := strings.NewReplacer("%p;", "%", "<", "-").Replace(randLiteral(r, 20))
			surf := strings.NewReplacer("&quot;", "&quot;", "&#37;", "&#37;", "&", "&amp;", `"`, "&#34;").Replace(s)
			t.Input("default value %q written as %q", s, surf)
			doc, _, err := parseRec(`<!DOCTYPE a [<!ATTLIST a b CDATA "` + surf + `">]><a/>`)
			if err != nil {
				t.Trivial()
				return
			}
			out, err := doc.XMLString()
			if err != nil {
				t.Fail("serialising: %v", err)
				return
			}
			pre, post := "<?xml version=\"1.0\"?>\n<!DOCTYPE a [\n<!ATTLIST a b CDATA ", ">\n]>\n<a/>\n"
			if !strings.HasPrefix(out, pre) || !strings.HasSuffix(out, post) {
				t.Fail("serialised as %q", out)
				return
			}
			lit := out[len(pre) : len(out)-len(post)]
			val := strings.NewReplacer("&quot;", `"`, "&#37;", "%").Replace(s)
			checkQuoted(t, "default value", lit, strings.Replace(val, "&", "&#38;", -1))
		}},
	)
}
