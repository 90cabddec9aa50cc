package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

// An abstract document: what it means, and (in the surf fields) one way of writing it.

type gKind int

const (
	gElem gKind = iota
	gText
	gCData
	gComment
	gPI
	gRef
)

type gAttr struct {
	prefix, local string
	typ           string // declared type, "" when not declared
	surf          string // between the quotes
	quote         string
	sax           string // value the handler receives
	val           string // the value
	dump          string // how the serialiser writes it
}

func (a *gAttr) name() string { return qname(a.prefix, a.local) }

func qname(p, l string) string {
	if p == "" {
		return l
	}
	return p + ":" + l
}

type gNode struct {
	kind          gKind
	prefix, local string
	ns            [][2]string
	attrs         []*gAttr
	kids          []*gNode
	text          string // meaning of text, CDATA, comment; data of a PI; name of a reference
	target        string
	surf          string // surface of text
	empty         bool   // written as an empty tag when there are no children
	open, close_  string // surface of the tags, filled by write
}

type gEnt struct {
	name    string
	pe      bool
	literal string
	quote   string
	value   string   // replacement text
	kids    []*gNode // what it stands for in content
	attrOK  bool     // no '<' in it, directly or indirectly
	attrVal string   // what it stands for in an attribute value
}

type gAttDef struct {
	prefix, local string
	typ           string
	enum          []string
	def           string // "", "#REQUIRED", "#IMPLIED", "#FIXED"
	surf, quote   string
	sax, val      string
	dump          string
}

func (d *gAttDef) name() string { return qname(d.prefix, d.local) }

type gDecl struct {
	kind  string // element attlist entity comment pi
	name  string // element name
	ctype string // EMPTY ANY mixed children
	model *gModel
	defs  []*gAttDef
	ent   *gEnt
	node  *gNode
}

type gDTD struct {
	name  string
	decls []*gDecl
	subs  bool // has an internal subset
}

type gDoc struct {
	xmldecl    bool
	version    string
	encoding   string
	standalone string // "", yes, no
	pre, mid   []*gNode
	dtd        *gDTD
	root       *gNode
	post       []*gNode

	surf string
	// results of interpreting it
	events []string
	ents   map[string]*gEnt
	canon  string
}

// ---- content models

type gModel struct {
	name string // leaf
	sep  byte   // ',' or '|' for a group
	kids []*gModel
	occ  string // "", ?, *, +
}

func (m *gModel) String() string {
	if m.sep == 0 {
		return m.name + m.occ
	}
	var p []string
	for _, k := range m.kids {
		p = append(p, k.String())
	}
	return "(" + strings.Join(p, string(m.sep)) + ")" + m.occ
}

func combineOcc(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	if a == b {
		return a
	}
	return "*"
}

// norm: one normal form for models that mean the same: groups of one member are dropped, a group that
// is the last member of a group of the same kind is spliced in, and marks made redundant by an
// enclosing '*' or '+' on a choice are dropped.
func (m *gModel) norm() *gModel {
	if m.sep == 0 {
		return &gModel{name: m.name, occ: m.occ}
	}
	r := &gModel{sep: m.sep, occ: m.occ}
	for _, k := range m.kids {
		r.kids = append(r.kids, k.norm())
	}
	if len(r.kids) == 1 {
		k := r.kids[0]
		k.occ = combineOcc(k.occ, r.occ)
		return k.norm1()
	}
	return r.norm1()
}

func (m *gModel) norm1() *gModel {
	if m.sep == '|' && (m.occ == "*" || m.occ == "+") {
		for _, k := range m.kids {
			if k.occ == "?" || k.occ == "*" {
				m.occ = "*"
			}
		}
		if m.occ == "*" {
			for i, k := range m.kids {
				if k.occ == "?" || k.occ == "*" {
					k.occ = ""
					m.kids[i] = k
				}
			}
		}
	}
	for m.sep != 0 {
		l := m.kids[len(m.kids)-1]
		if l.sep != m.sep || l.occ != "" {
			break
		}
		m.kids = append(append([]*gModel{}, m.kids[:len(m.kids)-1]...), l.kids...)
		return m.norm1()
	}
	return m
}

// modelString: the normal form, always in parentheses
func modelString(m *gModel) string {
	n := m.norm()
	if n.sep == 0 {
		return "(" + n.String() + ")"
	}
	return n.String()
}

// readModel reads a serialised model
func readModel(s string) (*gModel, error) {
	p := &modelReader{s: s}
	m, err := p.item()
	if err != nil {
		return nil, err
	}
	p.ws()
	if p.i != len(p.s) {
		return nil, fmt.Errorf("trailing %q", p.s[p.i:])
	}
	return m, nil
}

type modelReader struct {
	s string
	i int
}

func (p *modelReader) ws() {
	for p.i < len(p.s) && strings.IndexByte(" \t\n\r", p.s[p.i]) >= 0 {
		p.i++
	}
}
func (p *modelReader) item() (*gModel, error) {
	p.ws()
	if p.i >= len(p.s) {
		return nil, fmt.Errorf("unexpected end")
	}
	m := &gModel{}
	if p.s[p.i] == '(' {
		p.i++
		for {
			k, err := p.item()
			if err != nil {
				return nil, err
			}
			m.kids = append(m.kids, k)
			p.ws()
			if p.i >= len(p.s) {
				return nil, fmt.Errorf("unclosed group")
			}
			c := p.s[p.i]
			p.i++
			if c == ')' {
				break
			}
			if c != ',' && c != '|' || m.sep != 0 && m.sep != c {
				return nil, fmt.Errorf("unexpected %q", c)
			}
			m.sep = c
		}
		if m.sep == 0 {
			m.sep = ','
		}
	} else {
		j := p.i
		for p.i < len(p.s) && strings.IndexByte(" \t\n\r,|()?*+", p.s[p.i]) < 0 {
			p.i++
		}
		if j == p.i {
			return nil, fmt.Errorf("name expected at %q", p.s[j:])
		}
		m.name = p.s[j:p.i]
	}
	if p.i < len(p.s) && strings.IndexByte("?*+", p.s[p.i]) >= 0 {
		m.occ = p.s[p.i : p.i+1]
		p.i++
	}
	return m, nil
}

// ---- generation

type gOpts struct {
	dtd, ents, ns, attrs, decl bool
	simple                     bool // ASCII names only
	text                       func(r *rand.Rand, n int) string
	maxDepth, maxKids          int
	exotic                     bool // all planes in text
	noMisc                     bool
}

type gGen struct {
	r      *rand.Rand
	o      gOpts
	ents   []*gEnt
	byName map[string]*gEnt
	atts   map[string][]*gAttDef // first declarations by element
	model  map[string]bool
	budget int
}

func (g *gGen) name() string {
	if g.o.simple || g.r.Intn(3) > 0 {
		return simpleName(g.r)
	}
	return randNCName(g.r)
}

func (g *gGen) ws(min int) string {
	n := min
	if g.r.Intn(3) == 0 {
		n += g.r.Intn(3)
	}
	if g.r.Intn(150) == 0 {
		n += 60 + g.r.Intn(80)
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString([]string{" ", " ", " ", "\n", "\t", "\r\n", "\r"}[g.r.Intn(7)])
	}
	return b.String()
}

func (g *gGen) rune_() rune {
	for {
		c := randRune(g.r)
		if !g.o.exotic && c > 0x7f && g.r.Intn(3) > 0 {
			continue
		}
		return c
	}
}

// a piece of character data: surface and meaning
func (g *gGen) charData(n int) (surf, text string) {
	var s, t strings.Builder
	for i := 0; i < n; i++ {
		c := g.rune_()
		switch g.r.Intn(10) {
		case 0: // by reference
			k := g.rune_()
			s.WriteString(g.charRef(k))
			t.WriteRune(k)
			continue
		case 1:
			x := [][2]string{{"&lt;", "<"}, {"&gt;", ">"}, {"&amp;", "&"}, {"&quot;", `"`}, {"&apos;", "'"}}[g.r.Intn(5)]
			s.WriteString(x[0])
			t.WriteString(x[1])
			continue
		}
		switch c {
		case '<', '&':
			s.WriteString(g.charRef(c))
			t.WriteRune(c)
		case '\n', '\r':
			x := []string{"\n", "\r\n", "\r"}[g.r.Intn(3)]
			if x == "\n" && strings.HasSuffix(s.String(), "\r") {
				x = "\r\n"
			}
			s.WriteString(x)
			t.WriteByte('\n')
		case '>':
			if strings.HasSuffix(s.String(), "]]") {
				s.WriteString("&gt;")
			} else {
				s.WriteByte('>')
			}
			t.WriteByte('>')
		default:
			s.WriteRune(c)
			t.WriteRune(c)
		}
	}
	return s.String(), t.String()
}

func (g *gGen) charRef(c rune) string {
	z := strings.Repeat("0", []int{0, 0, 0, 1, 12}[g.r.Intn(5)])
	switch g.r.Intn(3) {
	case 0:
		return fmt.Sprintf("&#%s%d;", z, c)
	case 1:
		return fmt.Sprintf("&#x%s%x;", z, c)
	}
	return fmt.Sprintf("&#x%s%X;", z, c)
}

func collapse(s string) string {
	return strings.Join(strings.FieldsFunc(s, func(r rune) bool { return r == ' ' }), " ")
}

// an attribute value. For a tokenised type no entities and no character references to white space.
func (g *gGen) attrValue(cdata bool, allowEnt bool) (surf, quote, sax, val, dump string) {
	quote = []string{`"`, `'`}[g.r.Intn(2)]
	var s, v, d, x strings.Builder
	put := func(c rune) {
		v.WriteRune(c)
		if c == '&' {
			x.WriteString("&#38;")
		} else {
			x.WriteRune(c)
		}
		d.WriteString(escOracle([]byte(string(c)), true, true))
	}
	n := g.r.Intn(6)
	if g.r.Intn(40) == 0 {
		n = 60 + g.r.Intn(60)
	}
	for i := 0; i < n; i++ {
		if !cdata {
			if g.r.Intn(3) == 0 {
				s.WriteString([]string{" ", "  ", "\n", "\t", "\r\n"}[g.r.Intn(5)])
				v.WriteString(" ")
				x.WriteString(" ")
			} else {
				c := rune("abc.-12"[g.r.Intn(7)])
				s.WriteRune(c)
				v.WriteRune(c)
				x.WriteRune(c)
			}
			continue
		}
		c := g.rune_()
		switch g.r.Intn(8) {
		case 0:
			s.WriteString(g.charRef(c))
			put(c)
			continue
		case 1:
			z := [][2]string{{"&lt;", "<"}, {"&gt;", ">"}, {"&amp;", "&"}, {"&quot;", `"`}, {"&apos;", "'"}}[g.r.Intn(5)]
			s.WriteString(z[0])
			put(rune(z[1][0]))
			continue
		case 2:
			var ok []*gEnt
			for _, e := range g.ents {
				if e.attrOK {
					ok = append(ok, e)
				}
			}
			if allowEnt && len(ok) > 0 {
				e := ok[g.r.Intn(len(ok))]
				s.WriteString("&" + e.name + ";")
				v.WriteString(e.attrVal)
				x.WriteString("&" + e.name + ";")
				d.WriteString("&" + e.name + ";")
				continue
			}
		}
		switch {
		case c == '<' || c == '&' || string(c) == quote:
			s.WriteString(g.charRef(c))
			put(c)
		case c == '\n' || c == '\r' || c == '\t':
			y := []string{"\n", "\r\n", "\r", "\t"}[g.r.Intn(4)]
			if y == "\n" && strings.HasSuffix(s.String(), "\r") {
				y = "\t"
			}
			s.WriteString(y)
			put(' ')
		default:
			s.WriteRune(c)
			put(c)
		}
	}
	surf, sax, val, dump = s.String(), x.String(), v.String(), d.String()
	if !cdata {
		sax, val = collapse(sax), collapse(val)
		dump = val
	}
	return
}

func (g *gGen) comment() *gNode {
	s, t := "", ""
	n := g.r.Intn(10)
	for i := 0; i < n; i++ {
		c := g.rune_()
		switch {
		case c == '-' && (strings.HasSuffix(t, "-") || i == n-1):
			continue
		case c == '\n' || c == '\r':
			s += "\r\n"
			t += "\n"
		default:
			s += string(c)
			t += string(c)
		}
	}
	if strings.HasSuffix(t, "-") {
		s += "x"
		t += "x"
	}
	return &gNode{kind: gComment, text: t, surf: "<!--" + s + "-->"}
}

func (g *gGen) pi() *gNode {
	tgt := g.name()
	s, t := "", ""
	for i := g.r.Intn(8); i > 0; i-- {
		c := g.rune_()
		switch {
		case c == '>' && strings.HasSuffix(t, "?"):
			continue
		case t == "" && xmlSpace(c):
			continue
		case c == '\n' || c == '\r':
			s += "\r\n"
			t += "\n"
		default:
			s += string(c)
			t += string(c)
		}
	}
	for strings.HasSuffix(s, "?") && g.r.Intn(2) == 0 {
		s, t = s[:len(s)-1], t[:len(t)-1]
	}
	sp := ""
	if s != "" {
		sp = g.ws(1)
	} else if g.r.Intn(2) == 0 {
		sp = g.ws(0)
	}
	return &gNode{kind: gPI, target: tgt, text: t, surf: "<?" + tgt + sp + s + "?>"}
}

func (g *gGen) misc() []*gNode {
	if g.o.noMisc {
		return nil
	}
	var out []*gNode
	for g.r.Intn(3) == 0 {
		if g.r.Intn(2) == 0 {
			out = append(out, g.comment())
		} else {
			out = append(out, g.pi())
		}
	}
	return out
}

var gURIs = []string{"u", "urn:x", "http://example.com/a", "http://example.com/b?c=1&d=2", "v", "http://example.com/\u00e9"}

type nsEnv []([2]string)

func (e nsEnv) lookup(p string) (string, bool) {
	if p == "xml" {
		return "http://www.w3.org/XML/1998/namespace", true
	}
	for i := len(e) - 1; i >= 0; i-- {
		if e[i][0] == p {
			return e[i][1], true
		}
	}
	return "", false
}

func (g *gGen) element(depth int, env nsEnv, inEnt bool) *gNode {
	g.budget--
	n := &gNode{kind: gElem, local: g.name(), empty: g.r.Intn(2) == 0}
	if g.o.ns {
		seen := map[string]bool{}
		for g.r.Intn(3) == 0 {
			p := []string{"", "p", "q", "r"}[g.r.Intn(4)]
			if g.r.Intn(8) == 0 {
				p = g.name()
			}
			if seen[p] || p == "xmlns" || p == "xml" {
				continue
			}
			seen[p] = true
			u := gURIs[g.r.Intn(len(gURIs))]
			if p == "" && g.r.Intn(4) == 0 {
				u = ""
			}
			n.ns = append(n.ns, [2]string{p, u})
		}
		env = append(append(nsEnv{}, env...), n.ns...)
		var ps []string
		have := map[string]bool{}
		for _, d := range env {
			if d[0] != "" && !have[d[0]] {
				have[d[0]] = true
				ps = append(ps, d[0])
			}
		}
		if len(ps) > 0 && g.r.Intn(2) == 0 {
			n.prefix = ps[g.r.Intn(len(ps))]
		}
		ps = append(ps, "xml")
		if g.o.attrs {
			g.attributes(n, ps)
		}
	} else if g.o.attrs {
		g.attributes(n, nil)
	}
	if depth <= 0 || g.budget < 0 {
		return n
	}
	k := g.r.Intn(g.o.maxKids + 1)
	if g.r.Intn(4) == 0 {
		k = 0
	}
	n.kids = g.content(depth-1, k, env, inEnt)
	return n
}

func (g *gGen) attributes(n *gNode, ps []string) {
	seen := map[string]bool{}
	m := g.r.Intn(4)
	if g.r.Intn(60) == 0 {
		m = 20
	}
	for i := 0; i < m; i++ {
		a := &gAttr{local: g.name()}
		if len(ps) > 0 && g.r.Intn(3) == 0 {
			a.prefix = ps[g.r.Intn(len(ps))]
		}
		g.addAttr(n, a, seen)
	}
	// declared ones
	for _, d := range g.atts[qname(n.prefix, n.local)] {
		if g.r.Intn(2) == 0 {
			g.addAttr(n, &gAttr{prefix: d.prefix, local: d.local}, seen)
		}
	}
}

func (g *gGen) addAttr(n *gNode, a *gAttr, seen map[string]bool) {
	if seen[a.name()] || a.local == "xmlns" || a.prefix == "" && strings.HasPrefix(strings.ToLower(a.local), "xml") {
		return
	}
	seen[a.name()] = true
	for _, d := range g.atts[qname(n.prefix, n.local)] {
		if d.name() == a.name() {
			a.typ = d.typ
		}
	}
	a.surf, a.quote, a.sax, a.val, a.dump = g.attrValue(a.typ == "" || a.typ == "CDATA", true)
	n.attrs = append(n.attrs, a)
}

func (g *gGen) content(depth, k int, env nsEnv, inEnt bool) []*gNode {
	var out []*gNode
	for i := 0; i < k; i++ {
		switch g.r.Intn(10) {
		case 0, 1, 2:
			if g.budget > 0 {
				out = append(out, g.element(depth, env, inEnt))
			}
		case 3:
			out = append(out, g.comment())
		case 4:
			out = append(out, g.pi())
		case 5:
			m := g.r.Intn(6)
			s, t := "", ""
			for j := 0; j < m; j++ {
				c := g.rune_()
				if c == '\n' || c == '\r' {
					s += "\r\n"
					t += "\n"
				} else if c == '>' && strings.HasSuffix(t, "]]") {
					continue
				} else {
					s += string(c)
					t += string(c)
				}
			}
			out = append(out, &gNode{kind: gCData, text: t, surf: "<![CDATA[" + s + "]]>"})
		case 6:
			if len(g.ents) > 0 {
				e := g.ents[g.r.Intn(len(g.ents))]
				out = append(out, &gNode{kind: gRef, text: e.name, surf: "&" + e.name + ";"})
				break
			}
			fallthrough
		default:
			if len(out) > 0 && out[len(out)-1].kind == gText {
				continue
			}
			m := 1 + g.r.Intn(6)
			if g.r.Intn(50) == 0 {
				m = 100 + g.r.Intn(200)
			}
			s, t := g.charData(m)
			if g.r.Intn(4) == 0 {
				s = strings.Repeat(" ", 1+g.r.Intn(2)) + "\n"
				t = s
			}
			out = append(out, &gNode{kind: gText, text: t, surf: s})
		}
	}
	return out
}

// entity: an internal general entity whose text is balanced
func (g *gGen) entity() *gEnt {
	e := &gEnt{name: "e" + fmt.Sprint(len(g.ents)) + g.name(), quote: []string{`"`, `'`}[g.r.Intn(2)], attrOK: true}
	other := `'`
	if e.quote == other {
		other = `"`
	}
	var lit, val, av strings.Builder
	addText := func(t string) {
		if n := len(e.kids); n > 0 && e.kids[n-1].kind == gText {
			e.kids[n-1].text += t
		} else {
			e.kids = append(e.kids, &gNode{kind: gText, text: t})
		}
		av.WriteString(t)
	}
	for i := g.r.Intn(5); i > 0; i-- {
		switch g.r.Intn(8) {
		case 0:
			c := rune('!' + g.r.Intn(90))
			if strings.ContainsRune("<&%\"'>", c) {
				c = 'k'
			}
			lit.WriteString(g.charRef(c))
			val.WriteRune(c)
			addText(string(c))
		case 1:
			c := []rune("<>&x\u00e9")[g.r.Intn(5)]
			ref := g.charRef(c)
			lit.WriteString("&#38;" + ref[1:])
			val.WriteString(ref)
			addText(string(c))
		case 2:
			z := [][2]string{{"&lt;", "<"}, {"&gt;", ">"}, {"&amp;", "&"}, {"&quot;", `"`}, {"&apos;", "'"}}[g.r.Intn(5)]
			lit.WriteString(z[0])
			val.WriteString(z[0])
			addText(z[1])
		case 3:
			if len(g.ents) == 0 {
				continue
			}
			f := g.ents[g.r.Intn(len(g.ents))]
			if len(f.value) > 60 {
				continue
			}
			lit.WriteString("&" + f.name + ";")
			val.WriteString("&" + f.name + ";")
			e.kids = append(e.kids, &gNode{kind: gRef, text: f.name})
			av.WriteString(f.attrVal)
			e.attrOK = e.attrOK && f.attrOK
		case 4:
			if g.r.Intn(2) == 0 {
				continue
			}
			el := &gNode{kind: gElem, local: simpleName(g.r)}
			s := "<" + el.local
			if g.o.attrs && g.r.Intn(2) == 0 {
				a := &gAttr{local: "zz", surf: "v1", quote: other, sax: "v1", val: "v1", dump: "v1"}
				el.attrs = append(el.attrs, a)
				s += " zz=" + other + "v1" + other
			}
			if g.o.ns && g.r.Intn(3) == 0 {
				el.ns = append(el.ns, [2]string{"", "inner"})
				s += " xmlns=" + other + "inner" + other
			}
			if g.r.Intn(2) == 0 {
				s += "/>"
			} else {
				el.kids = []*gNode{{kind: gText, text: "in"}}
				s += ">in</" + el.local + ">"
			}
			if strings.HasPrefix(s, "<") && g.r.Intn(4) == 0 {
				lit.WriteString("&#60;" + s[1:])
			} else {
				lit.WriteString(s)
			}
			val.WriteString(s)
			e.kids = append(e.kids, el)
			e.attrOK = false
		default:
			t := []string{"x", "yz", " ", "é", "日", other, "]", ">", "]]"}[g.r.Intn(9)]
			if t == ">" && strings.HasSuffix(val.String(), "]]") {
				continue
			}
			lit.WriteString(t)
			val.WriteString(t)
			addText(t)
		}
	}
	e.literal, e.value, e.attrVal = lit.String(), val.String(), av.String()
	return e
}

func (g *gGen) genModel(depth int) *gModel {
	m := &gModel{occ: []string{"", "", "?", "*", "+"}[g.r.Intn(5)]}
	if depth <= 0 || g.r.Intn(3) > 0 {
		m.name = g.modelName()
		return m
	}
	m.sep = []byte{',', '|'}[g.r.Intn(2)]
	for i := 1 + g.r.Intn(3); i > 0; i-- {
		m.kids = append(m.kids, g.genModel(depth-1))
	}
	return m
}
func (g *gGen) modelName() string {
	if g.r.Intn(4) == 0 {
		return simpleName(g.r) + ":" + simpleName(g.r)
	}
	return g.name()
}

var gAttTypes = []string{"CDATA", "ID", "IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN", "NMTOKENS"}

func (g *gGen) attDef(elem string) *gAttDef {
	d := &gAttDef{local: g.name(), typ: "CDATA", def: []string{"", "#REQUIRED", "#IMPLIED", "#FIXED"}[g.r.Intn(4)]}
	if g.r.Intn(4) == 0 {
		d.prefix = []string{"p", "q"}[g.r.Intn(2)]
	}
	switch g.r.Intn(4) {
	case 0:
		d.typ = gAttTypes[g.r.Intn(len(gAttTypes))]
	case 1:
		d.typ = "enum"
		for i := 1 + g.r.Intn(3); i > 0; i-- {
			d.enum = append(d.enum, fmt.Sprintf("t%d%s", i, []string{"", ".x", "-y", "é", ":z"}[g.r.Intn(5)]))
		}
	}
	if g.r.Intn(4) == 0 && d.typ == "CDATA" {
		d.typ = gAttTypes[g.r.Intn(len(gAttTypes))]
	}
	if d.def == "" || d.def == "#FIXED" {
		cdata := d.typ == "CDATA"
		d.surf, d.quote, d.sax, d.val, _ = g.attrValue(cdata, true)
		if d.typ == "enum" {
			d.surf = d.enum[g.r.Intn(len(d.enum))]
			d.sax, d.val = d.surf, d.surf
		}
		v := strings.NewReplacer("<", "&lt;", "\t", "&#9;", "\n", "&#10;", "\r", "&#13;").Replace(d.sax)
		d.dump = quoteOracle(v)
	}
	return d
}

// quoteOracle: one pair of quotes that do not occur inside
func quoteOracle(s string) string {
	if !strings.Contains(s, `"`) {
		return `"` + s + `"`
	}
	if !strings.Contains(s, "'") {
		return "'" + s + "'"
	}
	return `"` + strings.Replace(s, `"`, "&quot;", -1) + `"`
}

func (g *gGen) genDTD(root string) *gDTD {
	d := &gDTD{name: root, subs: true}
	if g.r.Intn(12) == 0 {
		d.subs = false
		return d
	}
	elems := map[string]bool{}
	for i := g.r.Intn(9); i > 0; i-- {
		switch k := g.r.Intn(10); {
		case k < 3 && g.o.ents:
			if g.r.Intn(5) == 0 && len(g.ents) > 0 { // a second declaration, without effect
				f := g.ents[g.r.Intn(len(g.ents))]
				d.decls = append(d.decls, &gDecl{kind: "entity", ent: &gEnt{name: f.name, literal: "other", value: "other", quote: `"`}})
				continue
			}
			if g.r.Intn(5) == 0 {
				n := g.name()
				v := pick(g.r, "pe text", "<!ELEMENT z EMPTY>", "a'b", "&amp;", "")
				d.decls = append(d.decls, &gDecl{kind: "entity", ent: &gEnt{name: n, pe: true, literal: v, value: v, quote: `"`}})
				continue
			}
			e := g.entity()
			g.ents = append(g.ents, e)
			d.decls = append(d.decls, &gDecl{kind: "entity", ent: e})
		case k < 5:
			n := g.name()
			if g.r.Intn(3) == 0 {
				n = root
			} else if g.r.Intn(4) == 0 {
				n = pick(g.r, "p", "q") + ":" + n
			}
			if elems[n] {
				continue
			}
			elems[n] = true
			x := &gDecl{kind: "element", name: n, ctype: pick(g.r, "EMPTY", "ANY", "mixed", "children", "children")}
			switch x.ctype {
			case "mixed":
				x.model = &gModel{sep: '|', kids: []*gModel{{name: "#PCDATA"}}}
				for j := g.r.Intn(4); j > 0; j-- {
					x.model.kids = append(x.model.kids, &gModel{name: g.modelName()})
				}
				if len(x.model.kids) > 1 || g.r.Intn(2) == 0 {
					x.model.occ = "*"
				}
			case "children":
				x.model = g.genModel(3)
				if x.model.sep == 0 {
					x.model = &gModel{sep: ',', kids: []*gModel{x.model}, occ: pick(g.r, "", "?", "*", "+")}
				}
			}
			d.decls = append(d.decls, x)
		case k < 8 && g.o.attrs:
			n := g.name()
			if g.r.Intn(2) == 0 {
				n = root
			} else if g.r.Intn(4) == 0 {
				n = pick(g.r, "p", "q") + ":" + n
			}
			x := &gDecl{kind: "attlist", name: n}
			for j := g.r.Intn(4); j > 0; j-- {
				a := g.attDef(n)
				if a.local == "xmlns" || a.prefix == "" && strings.HasPrefix(strings.ToLower(a.local), "xml") {
					continue
				}
				x.defs = append(x.defs, a)
				first := true
				for _, b := range g.atts[n] {
					if b.name() == a.name() {
						first = false
					}
				}
				if first {
					g.atts[n] = append(g.atts[n], a)
				}
			}
			d.decls = append(d.decls, x)
		case k == 8:
			d.decls = append(d.decls, &gDecl{kind: "comment", node: g.comment()})
		default:
			d.decls = append(d.decls, &gDecl{kind: "pi", node: g.pi()})
		}
	}
	return d
}

func genDoc(r *rand.Rand, o gOpts) *gDoc {
	if o.maxDepth == 0 {
		o.maxDepth = 4
	}
	if o.maxKids == 0 {
		o.maxKids = 4
	}
	g := &gGen{r: r, o: o, atts: map[string][]*gAttDef{}, budget: 30}
	d := &gDoc{version: "1.0"}
	if o.decl || r.Intn(3) == 0 {
		d.xmldecl = r.Intn(4) > 0
		if r.Intn(2) == 0 {
			d.encoding = pick(r, "UTF-8", "utf-8", "Utf-8", "utf8")
		}
		d.standalone = pick(r, "", "", "yes", "no")
	}
	d.pre = g.misc()
	rootName := g.name()
	if o.dtd && r.Intn(6) > 0 {
		d.dtd = g.genDTD(rootName)
		d.mid = g.misc()
	}
	d.root = g.element(o.maxDepth, nil, false)
	if r.Intn(2) == 0 && d.root.prefix == "" {
		d.root.local = rootName
		// the declared attributes of that name apply
		if o.attrs {
			d.root.attrs = nil
			g.attributes(d.root, nil)
		}
	}
	d.post = g.misc()
	d.ents = map[string]*gEnt{}
	for _, e := range g.ents {
		d.ents[e.name] = e
	}
	d.surf = g.write(d)
	d.interpret(g)
	return d
}

// ---- writing

func (g *gGen) writeNode(b *strings.Builder, n *gNode) {
	if n.kind != gElem {
		b.WriteString(n.surf)
		return
	}
	name := qname(n.prefix, n.local)
	var parts []string
	i, j := 0, 0
	for i < len(n.ns) || j < len(n.attrs) {
		if i < len(n.ns) && (j >= len(n.attrs) || g.r.Intn(2) == 0) {
			qc := []string{`"`, `'`}[g.r.Intn(2)]
			u := strings.Replace(n.ns[i][1], "&", pick(g.r, "&amp;", "&#38;", "&#x26;"), -1)
			nm := "xmlns"
			if n.ns[i][0] != "" {
				nm += ":" + n.ns[i][0]
			}
			parts = append(parts, nm+g.ws(0)+"="+g.ws(0)+qc+u+qc)
			i++
		} else {
			a := n.attrs[j]
			parts = append(parts, a.name()+g.ws(0)+"="+g.ws(0)+a.quote+a.surf+a.quote)
			j++
		}
	}
	b.WriteString("<" + name)
	for _, p := range parts {
		b.WriteString(g.ws(1) + p)
	}
	b.WriteString(g.ws(0))
	if len(n.kids) == 0 && n.empty {
		b.WriteString("/>")
		return
	}
	b.WriteString(">")
	for _, k := range n.kids {
		g.writeNode(b, k)
	}
	b.WriteString("</" + name + g.ws(0) + ">")
}

func (g *gGen) writeModel(m *gModel) string {
	if m.sep == 0 {
		return m.name + m.occ
	}
	var p []string
	for _, k := range m.kids {
		p = append(p, g.ws(0)+g.writeModel(k)+g.ws(0))
	}
	return "(" + strings.Join(p, string(m.sep)) + ")" + m.occ
}

func (g *gGen) write(d *gDoc) string {
	var b strings.Builder
	if d.xmldecl {
		q1 := []string{`"`, `'`}[g.r.Intn(2)]
		sp := func() string { return []string{" ", " ", "  ", "\n", "\t"}[g.r.Intn(5)] }
		eq := func() string { return []string{"=", "=", " = ", "= "}[g.r.Intn(4)] }
		b.WriteString("<?xml" + sp() + "version" + eq() + q1 + d.version + q1)
		if d.encoding != "" {
			b.WriteString(sp() + "encoding" + eq() + q1 + d.encoding + q1)
		}
		if d.standalone != "" {
			b.WriteString(sp() + "standalone" + eq() + q1 + d.standalone + q1)
		}
		b.WriteString([]string{"", " "}[g.r.Intn(2)] + "?>")
		b.WriteString(g.ws(0))
	}
	miscs := func(ns []*gNode) {
		for _, n := range ns {
			b.WriteString(n.surf + g.ws(0))
		}
	}
	miscs(d.pre)
	if t := d.dtd; t != nil {
		b.WriteString("<!DOCTYPE" + g.ws(1) + t.name)
		if t.subs {
			b.WriteString(g.ws(0) + "[")
			for _, x := range t.decls {
				b.WriteString(g.ws(0))
				switch x.kind {
				case "comment", "pi":
					b.WriteString(x.node.surf)
				case "element":
					b.WriteString("<!ELEMENT" + g.ws(1) + x.name + g.ws(1))
					if x.model == nil {
						b.WriteString(x.ctype)
					} else {
						b.WriteString(g.writeModel(x.model))
					}
					b.WriteString(g.ws(0) + ">")
				case "attlist":
					b.WriteString("<!ATTLIST" + g.ws(1) + x.name)
					for _, a := range x.defs {
						b.WriteString(g.ws(1) + a.name() + g.ws(1))
						if a.typ == "enum" {
							var p []string
							for _, v := range a.enum {
								p = append(p, g.ws(0)+v+g.ws(0))
							}
							b.WriteString("(" + strings.Join(p, "|") + ")")
						} else {
							b.WriteString(a.typ)
						}
						if a.def != "" {
							b.WriteString(g.ws(1) + a.def)
						}
						if a.def == "" || a.def == "#FIXED" {
							b.WriteString(g.ws(1) + a.quote + a.surf + a.quote)
						}
					}
					b.WriteString(g.ws(0) + ">")
				case "entity":
					b.WriteString("<!ENTITY" + g.ws(1))
					if x.ent.pe {
						b.WriteString("%" + g.ws(1))
					}
					b.WriteString(x.ent.name + g.ws(1) + x.ent.quote + x.ent.literal + x.ent.quote + g.ws(0) + ">")
				}
			}
			b.WriteString(g.ws(0) + "]")
		}
		b.WriteString(g.ws(0) + ">" + g.ws(0))
	}
	miscs(d.mid)
	g.writeNode(&b, d.root)
	b.WriteString(g.ws(0))
	miscs(d.post)
	return b.String()
}

// ---- what the document means: the events and the canonical form

func evStart(prefix, local, uri string, ns [][2]string, attrs []string) string {
	var spec, def []string
	for _, a := range attrs {
		if strings.HasSuffix(a, " (default)") {
			def = append(def, a)
		} else {
			spec = append(spec, a)
		}
	}
	sort.Strings(def) // in no particular order
	attrs = append(spec, def...)
	return fmt.Sprintf("start %s {%s} ns%q attrs%q", qname(prefix, local), uri, ns, attrs)
}

const gTypCodes = "CDATA ID IDREF IDREFS ENTITY ENTITIES NMTOKEN NMTOKENS enum"

func typCode(s string) int {
	for i, x := range strings.Fields(gTypCodes) {
		if x == s {
			return i + 1
		}
	}
	return 0
}
func defCode(s string) int {
	return map[string]int{"": 1, "#REQUIRED": 2, "#IMPLIED": 3, "#FIXED": 4}[s]
}

func (d *gDoc) nodeEvents(out *[]string, n *gNode, env nsEnv, defaults map[string][]*gAttDef) {
	switch n.kind {
	case gText:
		if n.text != "" {
			*out = append(*out, "text "+n.text)
		}
	case gCData:
		if n.text != "" {
			*out = append(*out, "cdata "+n.text)
		}
	case gComment:
		*out = append(*out, "comment "+n.text)
	case gPI:
		*out = append(*out, "pi "+n.target+"|"+n.text)
	case gRef:
		for _, k := range d.ents[n.text].kids {
			d.nodeEvents(out, k, env, defaults)
		}
		*out = append(*out, "ref "+n.text)
	case gElem:
		env = append(append(nsEnv{}, env...), n.ns...)
		uri, _ := env.lookup(n.prefix)
		var as []string
		have := map[string]bool{}
		for _, a := range n.attrs {
			as = append(as, a.name()+"="+a.sax)
			have[a.name()] = true
		}
		var ds []string
		for _, a := range defaults[qname(n.prefix, n.local)] {
			if !have[a.name()] && (a.def == "" || a.def == "#FIXED") {
				ds = append(ds, a.name()+"="+a.val+" (default)")
			}
		}
		sort.Strings(ds)
		*out = append(*out, evStart(n.prefix, n.local, uri, n.ns, append(as, ds...)))
		for _, k := range n.kids {
			d.nodeEvents(out, k, env, defaults)
		}
		*out = append(*out, fmt.Sprintf("end %s {%s}", qname(n.prefix, n.local), uri))
	}
}

func (d *gDoc) canonNode(b *strings.Builder, n *gNode) {
	switch n.kind {
	case gText, gCData:
		b.WriteString(escOracle([]byte(n.text), false, false))
	case gComment:
		b.WriteString("<!--" + n.text + "-->")
	case gPI:
		b.WriteString("<?" + n.target)
		if n.text != "" {
			b.WriteString(" " + n.text)
		}
		b.WriteString("?>")
	case gRef:
		b.WriteString("&" + n.text + ";")
	case gElem:
		name := qname(n.prefix, n.local)
		b.WriteString("<" + name)
		for _, x := range n.ns {
			if x[0] == "" {
				b.WriteString(" xmlns")
			} else {
				b.WriteString(" xmlns:" + x[0])
			}
			b.WriteString(`="` + escOracle([]byte(x[1]), true, true) + `"`)
		}
		for _, a := range n.attrs {
			b.WriteString(" " + a.name() + `="` + a.dump + `"`)
		}
		var in strings.Builder
		kids := false
		for _, k := range n.kids {
			if !((k.kind == gText || k.kind == gCData) && k.text == "") {
				kids = true
			}
			d.canonNode(&in, k)
		}
		if !kids {
			b.WriteString("/>")
			return
		}
		b.WriteString(">" + in.String() + "</" + name + ">")
	}
}

// canonDecls: how a declaration is written out; an attribute declared before is left out
func canonDecls(x *gDecl, seen map[string]bool) []string {
	switch x.kind {
	case "element":
		if x.model == nil {
			return []string{"<!ELEMENT " + x.name + " " + x.ctype + ">\n"}
		}
		return []string{"<!ELEMENT " + x.name + " MODEL>\n"}
	case "attlist":
		var out []string
		for _, a := range x.defs {
			k := x.name + " " + a.name()
			if seen[k] {
				continue
			}
			seen[k] = true
			s := "<!ATTLIST " + k
			if a.typ == "enum" {
				s += " (" + strings.Join(a.enum, " | ") + ")"
			} else {
				s += " " + a.typ
			}
			if a.def != "" {
				s += " " + a.def
			}
			if a.def == "" || a.def == "#FIXED" {
				s += " " + a.dump
			}
			out = append(out, s+">\n")
		}
		return out
	case "entity":
		s := "<!ENTITY "
		if x.ent.pe {
			s += "% "
		}
		return []string{s + x.ent.name + " " + quoteOracle(x.ent.literal) + ">\n"}
	}
	return nil
}

func (d *gDoc) interpret(g *gGen) {
	ev := &d.events
	add := func(f string, a ...interface{}) { *ev = append(*ev, fmt.Sprintf(f, a...)) }
	var b strings.Builder
	b.WriteString(`<?xml version="1.0"`)
	if d.xmldecl {
		if d.encoding != "" {
			b.WriteString(` encoding="` + d.encoding + `"`)
		}
		if d.standalone != "" {
			b.WriteString(` standalone="` + d.standalone + `"`)
		}
	}
	b.WriteString("?>\n")
	add("startdoc")
	misc := func(ns []*gNode) {
		for _, n := range ns {
			d.nodeEvents(ev, n, nil, nil)
			d.canonNode(&b, n)
			b.WriteString("\n")
		}
	}
	misc(d.pre)
	if t := d.dtd; t != nil {
		add("doctype %s", t.name)
		seen := map[string]bool{}
		b.WriteString("<!DOCTYPE " + t.name + " ")
		if len(t.decls) > 0 {
			var in strings.Builder
			for _, x := range t.decls {
				switch x.kind {
				case "comment", "pi":
					d.nodeEvents(ev, x.node, nil, nil)
					d.canonNode(&in, x.node)
				case "element":
					c := map[string]int{"EMPTY": 1, "ANY": 2, "mixed": 3, "children": 4}[x.ctype]
					m := "nil"
					if x.model != nil {
						m = modelString(x.model)
					}
					add("elementdecl %s %d %s", x.name, c, m)
				case "attlist":
					for _, a := range x.defs {
						v := a.sax
						add("attdecl %s %s %d %d %q %q", x.name, a.name(), typCode(a.typ), defCode(a.def), v, a.enum)
					}
				case "entity":
					c := 1
					if x.ent.pe {
						c = 4
					}
					add("entitydecl %s %d %q %q %q", x.ent.name, c, "", "", x.ent.value)
				}
				for _, s := range canonDecls(x, seen) {
					if x.model != nil {
						s = strings.Replace(s, "MODEL", modelString(x.model), 1)
					}
					in.WriteString(s)
				}
			}
			if in.Len() > 0 {
				b.WriteString("[\n" + in.String() + "]")
			}
		}
		b.WriteString(">\n")
	}
	misc(d.mid)
	d.nodeEvents(ev, d.root, nil, g.atts)
	d.canonNode(&b, d.root)
	b.WriteString("\n")
	misc(d.post)
	add("enddoc")
	d.canon = b.String()
}
