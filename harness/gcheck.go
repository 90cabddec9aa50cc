package main

import (
	"errors"
	"fmt"
	"math/rand"
	"regexp"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/sax"
)

// recorder notes every event and passes it on to the tree builder
type recorder struct {
	*helium.TreeBuilder
	ev      []string
	n       int
	failAt  int // fail at this event (1-based), 0 for never
	failErr error
	bufs    [][]byte
}

var errHandler = errors.New("handler says no")

func newRecorder() *recorder { return &recorder{TreeBuilder: helium.NewTreeBuilder()} }

func (r *recorder) note(f string, a ...interface{}) error {
	r.n++
	r.ev = append(r.ev, fmt.Sprintf(f, a...))
	if r.n == r.failAt {
		return r.failErr
	}
	return nil
}
func first(a, b error) error {
	if a != nil {
		return a
	}
	return b
}
func (r *recorder) StartDocument(c sax.Context) error {
	if e := r.note("startdoc"); e != nil {
		return e
	}
	return r.TreeBuilder.StartDocument(c)
}
func (r *recorder) EndDocument(c sax.Context) error {
	return first(r.note("enddoc"), r.TreeBuilder.EndDocument(c))
}
func (r *recorder) StartElementNS(c sax.Context, l, p, u string, ns []sax.Namespace, at []sax.Attribute) error {
	var nn [][2]string
	for _, n := range ns {
		nn = append(nn, [2]string{n.Prefix(), n.URI()})
	}
	var as []string
	for _, a := range at {
		s := a.Name() + "=" + a.Value()
		if a.IsDefault() {
			s += " (default)"
		}
		if qname(a.Prefix(), a.LocalName()) != a.Name() {
			s += " (name " + qname(a.Prefix(), a.LocalName()) + ")"
		}
		as = append(as, s)
	}
	if e := r.note("%s", evStart(p, l, u, nn, as)); e != nil {
		return e
	}
	return r.TreeBuilder.StartElementNS(c, l, p, u, ns, at)
}
func (r *recorder) EndElementNS(c sax.Context, l, p, u string) error {
	if e := r.note("end %s {%s}", qname(p, l), u); e != nil {
		return e
	}
	return r.TreeBuilder.EndElementNS(c, l, p, u)
}
func (r *recorder) Characters(c sax.Context, b []byte) error {
	if e := r.note("text %s", b); e != nil {
		return e
	}
	return r.TreeBuilder.Characters(c, b)
}
func (r *recorder) IgnorableWhitespace(c sax.Context, b []byte) error {
	if e := r.note("text %s", b); e != nil {
		return e
	}
	return r.TreeBuilder.IgnorableWhitespace(c, b)
}
func (r *recorder) CDataBlock(c sax.Context, b []byte) error {
	if e := r.note("cdata %s", b); e != nil {
		return e
	}
	return r.TreeBuilder.CDataBlock(c, b)
}
func (r *recorder) Comment(c sax.Context, b []byte) error {
	if e := r.note("comment %s", b); e != nil {
		return e
	}
	return r.TreeBuilder.Comment(c, b)
}
func (r *recorder) ProcessingInstruction(c sax.Context, t, d string) error {
	if e := r.note("pi %s|%s", t, d); e != nil {
		return e
	}
	return r.TreeBuilder.ProcessingInstruction(c, t, d)
}
func (r *recorder) Reference(c sax.Context, n string) error {
	if e := r.note("ref %s", n); e != nil {
		return e
	}
	return r.TreeBuilder.Reference(c, n)
}
func (r *recorder) InternalSubset(c sax.Context, n, e, u string) error {
	s := "doctype " + n
	if e != "" || u != "" {
		s += fmt.Sprintf(" %q %q", e, u)
	}
	if e := r.note("%s", s); e != nil {
		return e
	}
	return r.TreeBuilder.InternalSubset(c, n, e, u)
}
func (r *recorder) ElementDecl(c sax.Context, name string, typ int, content sax.ElementContent) error {
	if e := r.note("elementdecl %s %d %s", name, typ, contentString(typ, content)); e != nil {
		return e
	}
	return r.TreeBuilder.ElementDecl(c, name, typ, content)
}
func (r *recorder) AttributeDecl(c sax.Context, elem, full string, typ, def int, v string, tree sax.Enumeration) error {
	var en []string
	if x, ok := tree.(helium.Enumeration); ok {
		en = []string(x)
	}
	if e := r.note("attdecl %s %s %d %d %q %q", elem, full, typ, def, v, en); e != nil {
		return e
	}
	return r.TreeBuilder.AttributeDecl(c, elem, full, typ, def, v, tree)
}
func (r *recorder) EntityDecl(c sax.Context, name string, typ int, pub, sys, content string) error {
	if e := r.note("entitydecl %s %d %q %q %q", name, typ, pub, sys, content); e != nil {
		return e
	}
	return r.TreeBuilder.EntityDecl(c, name, typ, pub, sys, content)
}

// contentString writes a content model by putting it into a declaration of its own
func contentString(typ int, content sax.ElementContent) string {
	c, ok := content.(*helium.ElementContent)
	if !ok {
		return fmt.Sprintf("%T", content)
	}
	if c == nil {
		return "nil"
	}
	doc := helium.CreateDocument()
	dtd, err := doc.CreateInternalSubset("x", "", "")
	if err != nil {
		return err.Error()
	}
	decl, err := dtd.AddElementDecl("x", helium.ElementTypeVal(typ), c)
	if err != nil {
		return err.Error()
	}
	s, err := dumpNode(decl)
	if err != nil {
		return err.Error()
	}
	return normDecls(s)[len("<!ELEMENT x ") : len(normDecls(s))-2]
}

var reElem = regexp.MustCompile(`<!ELEMENT (\S+) (\([^\n]*)>\n`)

// normDecls brings the content models of serialised declarations into the normal form
func normDecls(s string) string {
	return reElem.ReplaceAllStringFunc(s, func(l string) string {
		m := reElem.FindStringSubmatch(l)
		x, err := readModel(m[2])
		if err != nil {
			return l + " [" + err.Error() + "]"
		}
		return "<!ELEMENT " + m[1] + " " + modelString(x) + ">\n"
	})
}

// merge joins consecutive text events
func merge(ev []string) []string {
	var out []string
	for _, e := range ev {
		if strings.HasPrefix(e, "text ") {
			if e == "text " {
				continue
			}
			if n := len(out); n > 0 && strings.HasPrefix(out[n-1], "text ") {
				out[n-1] += e[5:]
				continue
			}
		}
		out = append(out, e)
	}
	return out
}

func kindOf(e string) string { return strings.SplitN(e, " ", 2)[0] }

func diffEvents(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "(nothing)", "(nothing)"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			return fmt.Sprintf("event %d is %q, want %q", i, g, w)
		}
	}
	return ""
}

func filterEv(ev []string, kinds string) []string {
	if kinds == "" {
		return ev
	}
	var out []string
	for _, e := range ev {
		for _, k := range strings.Fields(kinds) {
			if kindOf(e) == k {
				out = append(out, e)
			}
		}
	}
	return out
}

func parseRec(src string) (*helium.Document, *recorder, error) {
	rec := newRecorder()
	p := helium.NewParser()
	p.SetSAXHandler(rec)
	doc, err := p.Parse([]byte(src))
	return doc, rec, err
}

type aspects struct {
	events string // kinds of events compared, "-" for none, "" for all
	canon  bool   // the serialised form
	tree   bool   // attribute values and structure of the tree
	must   bool   // not being accepted is a failure
}

// checkDoc parses a generated document and compares what the property is about
func checkDoc(t *T, g *gDoc, a aspects) (*helium.Document, *recorder) {
	t.Input("%s", g.surf)
	doc, rec, err := parseRec(g.surf)
	if err != nil {
		if a.must {
			t.Fail("a well-formed document is rejected: %v", err)
		} else {
			t.Trivial()
		}
		return nil, nil
	}
	if doc == nil {
		t.Fail("neither a document nor an error")
		return nil, nil
	}
	if a.events != "-" {
		if s := diffEvents(filterEv(merge(rec.ev), a.events), filterEv(merge(g.events), a.events)); s != "" {
			t.Fail("%s", s)
		}
	}
	if a.canon {
		out, err := doc.XMLString()
		if err != nil {
			t.Fail("serialising: %v", err)
		} else if normDecls(out) != g.canon {
			t.Fail("serialised as\n%q\nwant\n%q", normDecls(out), g.canon)
		} else {
			reparse(t, out)
		}
	}
	if a.tree {
		checkTree(t, g, doc)
	}
	return doc, rec
}

// reparse: the serialised form is accepted, gives the same events again, and serialises to itself
func reparse(t *T, out string) {
	doc, rec, err := parseRec(out)
	if err != nil {
		t.Fail("the serialised form %q is rejected: %v", out, err)
		return
	}
	out2, err := doc.XMLString()
	if err != nil {
		t.Fail("serialising again: %v", err)
	} else if out2 != out {
		t.Fail("serialising again gives\n%q\ninstead of\n%q", out2, out)
	}
	_ = rec
}

// checkTree compares the tree with the document
func checkTree(t *T, g *gDoc, doc *helium.Document) {
	var want []*gNode
	want = append(want, g.pre...)
	if g.dtd != nil {
		want = append(want, nil)
	}
	want = append(append(append(want, g.mid...), g.root), g.post...)
	cmpKids(t, "", doc, want)
	if msg := linkErrors(doc); msg != "" {
		t.Fail("%s", msg)
	}
}

// flat: what the children become in the tree
func flatKids(ns []*gNode) []*gNode {
	var out []*gNode
	for _, n := range ns {
		if n != nil && (n.kind == gText || n.kind == gCData) {
			if n.text == "" {
				continue
			}
			if k := len(out); k > 0 && out[k-1] != nil && out[k-1].kind == gText {
				out[k-1] = &gNode{kind: gText, text: out[k-1].text + n.text}
				continue
			}
			out = append(out, &gNode{kind: gText, text: n.text})
			continue
		}
		out = append(out, n)
	}
	return out
}

func cmpKids(t *T, path string, p helium.Node, ns []*gNode) {
	want := flatKids(ns)
	i := 0
	for c := p.FirstChild(); c != nil; c = c.NextSibling() {
		if i >= len(want) {
			t.Fail("%s: more children than %d", path, len(want))
			return
		}
		w := want[i]
		here := fmt.Sprintf("%s/%d", path, i)
		i++
		if w == nil {
			if c.Type() != helium.DTDNode {
				t.Fail("%s: %v, want the DTD", here, c.Type())
			}
			continue
		}
		switch w.kind {
		case gText:
			if c.Type() != helium.TextNode || string(c.Content()) != w.text {
				t.Fail("%s: %v %q, want text %q", here, c.Type(), c.Content(), w.text)
			}
		case gComment:
			if c.Type() != helium.CommentNode || string(c.Content()) != w.text {
				t.Fail("%s: %v %q, want comment %q", here, c.Type(), c.Content(), w.text)
			}
		case gPI:
			if c.Type() != helium.ProcessingInstructionNode {
				t.Fail("%s: %v, want an instruction", here, c.Type())
			}
		case gRef:
			if c.Type() != helium.EntityRefNode || c.Name() != w.text {
				t.Fail("%s: %v %q, want a reference to %s", here, c.Type(), c.Name(), w.text)
			}
		case gElem:
			e, ok := c.(*helium.Element)
			if !ok {
				t.Fail("%s: %v, want an element", here, c.Type())
				continue
			}
			if e.LocalName() != w.local || e.Prefix() != w.prefix {
				t.Fail("%s: element %s, want %s", here, e.Name(), qname(w.prefix, w.local))
			}
			var got, exp []string
			for _, a := range e.Attributes() {
				got = append(got, a.Name()+"="+a.Value())
			}
			for _, a := range w.attrs {
				exp = append(exp, a.name()+"="+a.val)
			}
			if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", exp) {
				t.Fail("%s: attributes %q, want %q", here, got, exp)
			}
			var gn, wn []string
			for _, n := range e.Namespaces() {
				gn = append(gn, n.Prefix()+"="+n.URI())
			}
			for _, n := range w.ns {
				wn = append(wn, n[0]+"="+n[1])
			}
			if fmt.Sprintf("%q", gn) != fmt.Sprintf("%q", wn) {
				t.Fail("%s: declarations %q, want %q", here, gn, wn)
			}
			cmpKids(t, here, c, w.kids)
		}
	}
	if i != len(want) {
		t.Fail("%s: %d children, want %d", path, i, len(want))
	}
}

// linkErrors checks the links of a tree through the public interface ("" when they are fine)
func linkErrors(n helium.Node) string {
	if n.Type() == helium.EntityRefNode {
		return "" // refers to the entity, which lives in the DTD
	}
	var prev helium.Node
	count := 0
	for c := n.FirstChild(); c != nil; c = c.NextSibling() {
		count++
		if count > 1000000 {
			return "the children of " + n.Name() + " form a cycle"
		}
		if c.Parent() != n {
			return fmt.Sprintf("a child of %q does not name it as its parent", n.Name())
		}
		if isNilNode(c.PrevSibling()) != (prev == nil) || prev != nil && c.PrevSibling() != prev {
			return fmt.Sprintf("a child of %q has the wrong previous sibling", n.Name())
		}
		if s := linkErrors(c); s != "" {
			return s
		}
		prev = c
	}
	if l := n.LastChild(); isNilNode(l) != (prev == nil) || prev != nil && l != prev {
		return fmt.Sprintf("the last child of %q is not the end of its chain", n.Name())
	}
	return ""
}

func isNilNode(n helium.Node) bool { return n == nil }

// acceptErr: src must be rejected
func mustReject(t *T, what, src string) *recorder {
	doc, rec, err := parseRec(src)
	if err == nil {
		t.Fail("%s is accepted: %q", what, src)
	}
	if err != nil && doc != nil {
		t.Fail("%s: both a document and an error", what)
	}
	return rec
}

func docFamily(name string, w int, what string, o gOpts, a aspects) *Family {
	return &Family{Name: name, Weight: w, What: what, Run: func(t *T, r *rand.Rand, i int) {
		checkDoc(t, genDoc(r, o), a)
	}}
}

// attrOf: the value of an attribute of the document element
func attrOf(doc *helium.Document, name string) string {
	for c := doc.FirstChild(); c != nil; c = c.NextSibling() {
		if e, ok := c.(*helium.Element); ok {
			for _, a := range e.Attributes() {
				if a.Name() == name {
					return a.Value()
				}
			}
		}
	}
	return "(no such attribute)"
}
