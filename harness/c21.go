package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"strings"
)

// ---- an independent reader for the contentspec of an element declaration (XML 1.0, 3.2)

type specReader struct {
	s string
	i int
}

func (p *specReader) ws() bool {
	j := p.i
	for p.i < len(p.s) && strings.IndexByte(" \t\n\r", p.s[p.i]) >= 0 {
		p.i++
	}
	return p.i > j
}
func (p *specReader) lit(x string) bool {
	if strings.HasPrefix(p.s[p.i:], x) {
		p.i += len(x)
		return true
	}
	return false
}
func (p *specReader) nameTok() (string, bool) {
	j := p.i
	for k, c := range p.s[p.i:] {
		if k == 0 && !nameStart(c) || !nameChar(c) {
			break
		}
		p.i = j + k + len(string(c))
	}
	n := p.s[j:p.i]
	return n, n != ""
}
func (p *specReader) occ() string {
	if p.i < len(p.s) && strings.IndexByte("?*+", p.s[p.i]) >= 0 {
		p.i++
		return p.s[p.i-1 : p.i]
	}
	return ""
}

// cp: a name or a group, the group's '(' included
func (p *specReader) cp() (*gModel, bool) {
	if p.lit("(") {
		m := &gModel{}
		for {
			p.ws()
			k, ok := p.cp()
			if !ok {
				return nil, false
			}
			m.kids = append(m.kids, k)
			p.ws()
			if p.lit(")") {
				break
			}
			if p.i >= len(p.s) {
				return nil, false
			}
			c := p.s[p.i]
			if c != ',' && c != '|' || m.sep != 0 && m.sep != c {
				return nil, false
			}
			m.sep = c
			p.i++
		}
		if m.sep == 0 {
			m.sep = ','
		}
		m.occ = p.occ()
		return m, true
	}
	n, ok := p.nameTok()
	if !ok {
		return nil, false
	}
	return &gModel{name: n, occ: p.occ()}, true
}

// contentSpec reads the rest of "<!ELEMENT n S": kind (1 EMPTY, 2 ANY, 3 mixed, 4 children) and model
func contentSpec(s string) (int, *gModel, bool) {
	p := &specReader{s: s}
	kind := 0
	var m *gModel
	switch {
	case p.lit("EMPTY"):
		kind = 1
	case p.lit("ANY"):
		kind = 2
	case len(s) > 0 && s[0] == '(':
		q := &specReader{s: s, i: 1}
		q.ws()
		if !q.lit("#PCDATA") {
			var ok bool
			if m, ok = p.cp(); !ok || m.sep == 0 {
				return 0, nil, false
			}
			kind = 4
			break
		}
		kind = 3
		m = &gModel{sep: '|', kids: []*gModel{{name: "#PCDATA"}}}
		for {
			q.ws()
			if q.lit(")") {
				break
			}
			if !q.lit("|") {
				return 0, nil, false
			}
			q.ws()
			n, ok := q.nameTok()
			if !ok {
				return 0, nil, false
			}
			m.kids = append(m.kids, &gModel{name: n})
		}
		if q.lit("*") {
			m.occ = "*"
		} else if len(m.kids) > 1 {
			return 0, nil, false
		}
		p.i = q.i
	default:
		return 0, nil, false
	}
	p.ws()
	return kind, m, p.i == len(s)
}

// names with a colon at an end, or several, are not qualified names
var reNoQName = regexp.MustCompile(`(^|[^\pL\pN_.\-:]):|:[^\pL_]|:$|:[^\s()|,?*+]*:`)

func c21Check(t *T, name, spec string) {
	src := "<!DOCTYPE a [<!ELEMENT " + name + " " + spec + ">]><a/>"
	t.Input("%s", src)
	if strings.Contains(spec, ">") || reNoQName.MatchString(spec) {
		t.Trivial()
		return
	}
	kind, m, ok := contentSpec(strings.TrimLeft(spec, " \t\r\n"))
	doc, rec, err := parseRec(src)
	ev := filterEv(rec.ev, "elementdecl")
	if !ok {
		if err == nil {
			t.Fail("the declaration is not well formed and is accepted: %q", ev)
		}
		if len(ev) > 0 {
			t.Fail("a declaration that is not well formed is delivered: %q", ev)
		}
		return
	}
	if err != nil {
		t.Fail("a well-formed declaration is rejected: %v", err)
		return
	}
	c := "nil"
	if m != nil {
		c = modelString(m)
	}
	want := fmt.Sprintf("elementdecl %s %d %s", name, kind, c)
	if len(ev) != 1 || ev[0] != want {
		t.Fail("the handler receives %q, want %q", ev, want)
	}
	// the recorded declaration says the same
	d, ok2 := doc.IntSubset().LookupElement(localOf(name), prefixOf(name))
	if !ok2 {
		t.Fail("the declaration is not recorded")
		return
	}
	s, err := dumpNode(d)
	if err != nil {
		t.Fail("serialising: %v", err)
		return
	}
	cs := map[int]string{1: "EMPTY", 2: "ANY"}[kind]
	if m != nil {
		cs = modelString(m)
	}
	if want := "<!ELEMENT " + name + " " + cs + ">\n"; normDecls(s) != want {
		t.Fail("serialised as %q, want %q", normDecls(s), want)
	}
}
func localOf(n string) string  { _, l := splitName(n); return l }
func prefixOf(n string) string { p, _ := splitName(n); return p }

func c21Tokens(t *T, r *rand.Rand) {
	toks := []string{"(", "(", "(", ")", ")", ")", ",", "|", "|", "?", "*", "+", "a", "b", "c", "p:x", " ", "\n", "#PCDATA", "1", "EMPTY", "ANY"}
	var b strings.Builder
	if r.Intn(8) > 0 {
		b.WriteString("(")
		if r.Intn(3) == 0 {
			b.WriteString(pick(r, "", " ") + "#PCDATA")
		}
	}
	for n := r.Intn(12); n > 0; n-- {
		b.WriteString(toks[r.Intn(len(toks))])
	}
	s := b.String()
	if r.Intn(2) == 0 {
		if d := strings.Count(s, "(") - strings.Count(s, ")"); d > 0 {
			s += strings.Repeat(")", d) + pick(r, "", "*", "?", "+")
		}
	}
	c21Check(t, pick(r, "a", "b", "q:r"), s)
}

func writeModel(r *rand.Rand, m *gModel) string {
	ws := func() string { return pick(r, "", "", "", " ", "\t", "\n ", "  ") }
	if m.sep == 0 {
		return m.name + m.occ
	}
	var b strings.Builder
	b.WriteString("(" + ws())
	for i, k := range m.kids {
		if i > 0 {
			b.WriteString(ws() + string(m.sep) + ws())
		}
		b.WriteString(writeModel(r, k))
	}
	b.WriteString(ws() + ")" + m.occ)
	return b.String()
}

func c21Model(r *rand.Rand) string {
	g := &gGen{r: r}
	if r.Intn(4) == 0 {
		s := "( #PCDATA"
		n := r.Intn(5)
		for i := 0; i < n; i++ {
			s += pick(r, "|", " | ") + g.modelName()
		}
		if n > 0 || r.Intn(2) == 0 {
			return s + ")*"
		}
		return s + ")"
	}
	m := g.genModel(1 + r.Intn(5))
	if m.sep == 0 {
		m = &gModel{sep: ',', kids: []*gModel{m}, occ: pick(r, "", "?", "*", "+")}
	}
	if r.Intn(6) == 0 { // deep
		for i := r.Intn(60); i > 0; i-- {
			k := []*gModel{m}
			if r.Intn(2) == 0 {
				k = append(k, &gModel{name: "z", occ: pick(r, "", "?", "*", "+")})
			}
			if r.Intn(3) == 0 {
				k = append([]*gModel{{name: "y"}}, k...)
			}
			m = &gModel{sep: []byte{',', '|'}[r.Intn(2)], kids: k, occ: pick(r, "", "?", "*", "+")}
		}
	}
	return writeModel(r, m)
}

func c21Mutant(t *T, r *rand.Rand) {
	s := []rune(c21Model(r))
	for n := 1 + r.Intn(2); n > 0 && len(s) > 0; n-- {
		i := r.Intn(len(s))
		c := []rune("()|,?*+ ab#")[r.Intn(11)]
		switch r.Intn(3) {
		case 0:
			s = append(s[:i], s[i+1:]...)
		case 1:
			s[i] = c
		default:
			s = append(s[:i], append([]rune{c}, s[i:]...)...)
		}
	}
	c21Check(t, "a", string(s))
}

func init() {
	register("C21",
		&Family{Name: "models", Weight: 3, What: "random content models (groups to depth 60, every separator and mark, blanks anywhere): the event and the recorded declaration against the model", Run: func(t *T, r *rand.Rand, i int) {
			c21Check(t, pick(r, "a", "b", "q:r"), c21Model(r))
		}},
		&Family{Name: "mutants", Weight: 3, What: "models with one or two characters changed, against an independent reader of the grammar: accepted exactly if well formed", Run: func(t *T, r *rand.Rand, i int) { c21Mutant(t, r) }},
		&Family{Name: "tokens", Weight: 3, What: "random strings of content-model tokens, against the same reader", Run: func(t *T, r *rand.Rand, i int) { c21Tokens(t, r) }},
		docFamily("docs", 1, "random documents with element declarations; their events are compared", gOpts{dtd: true, decl: true}, aspects{events: "elementdecl", must: true}),
	)
}
