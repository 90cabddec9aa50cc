package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"strings"

	"github.com/lestrrat-go/helium"
)

// A model of the tree: what the links and contents should be after a history of edits.
type mNode struct {
	id     int
	n      helium.Node
	kind   string // doc elem text comment pi ref
	name   string
	text   []byte
	parent *mNode
	kids   []*mNode
	chain  *mChain // for detached siblings without a parent
	attrs  [][2]string
	ns     [][2]string
}

// nodes without a parent that are siblings of each other
type mChain struct{ ns []*mNode }

func (m *mNode) String() string { return fmt.Sprintf("#%d(%s %s)", m.id, m.kind, m.name) }

func (m *mNode) list() []*mNode {
	if m.parent != nil {
		return m.parent.kids
	}
	if m.chain != nil {
		return m.chain.ns
	}
	return []*mNode{m}
}

func (m *mNode) detached() bool {
	return m.parent == nil && (m.chain == nil || len(m.chain.ns) == 1) && m.kind != "doc"
}

func (m *mNode) root() *mNode {
	for m.parent != nil {
		m = m.parent
	}
	return m
}

type mTree struct {
	doc   *helium.Document
	nodes []*mNode
	r     *rand.Rand
	t     *T
	bufs  [][]byte // the caller's buffers
}

func newMTree(t *T, r *rand.Rand) *mTree {
	m := &mTree{doc: helium.CreateDocument(), r: r, t: t}
	m.nodes = []*mNode{{id: 0, n: m.doc, kind: "doc"}}
	return m
}

func (m *mTree) buf() []byte {
	b := randBytes(m.r, 6)
	// spare capacity, so that appending in place would be seen
	c := make([]byte, len(b), len(b)+m.r.Intn(8))
	copy(c, b)
	m.bufs = append(m.bufs, c)
	return c
}

func (m *mTree) clobber() {
	for _, b := range m.bufs {
		b = b[:cap(b)]
		for i := range b {
			b[i] = '#'
		}
	}
	m.bufs = nil
}

func (m *mTree) create() *mNode {
	x := &mNode{id: len(m.nodes)}
	var err error
	switch k := m.r.Intn(10); {
	case k < 4:
		x.kind, x.name = "elem", simpleName(m.r)
		x.n, err = m.doc.CreateElement(x.name)
	case k < 7:
		b := m.buf()
		x.kind, x.text = "text", append([]byte{}, b...)
		x.n, err = m.doc.CreateText(b)
	case k < 8:
		b := m.buf()
		x.kind, x.text = "comment", append([]byte{}, b...)
		x.n, err = m.doc.CreateComment(b)
	case k < 9:
		x.kind, x.name = "pi", simpleName(m.r)
		x.text = []byte("d")
		x.n, err = m.doc.CreatePI(x.name, "d")
	default:
		x.kind, x.name = "ref", "e"+simpleName(m.r)
		x.n, err = m.doc.CreateReference(x.name)
	}
	if err != nil {
		m.t.Fail("creating a %s: %v", x.kind, err)
	}
	m.nodes = append(m.nodes, x)
	m.t.Input("%v = create %q", x, x.text)
	return x
}

func (m *mTree) some(f func(*mNode) bool) *mNode {
	var c []*mNode
	for _, x := range m.nodes {
		if f(x) {
			c = append(c, x)
		}
	}
	if len(c) == 0 {
		return nil
	}
	if m.r.Intn(3) == 0 { // favour recent ones
		return c[len(c)-1]
	}
	return c[m.r.Intn(len(c))]
}

func contains(root, x *mNode) bool {
	for ; x != nil; x = x.parent {
		if x == root {
			return true
		}
	}
	return false
}

// step performs one random edit on the real tree and on the model
func (m *mTree) step() {
	if len(m.nodes) < 3 || m.r.Intn(3) == 0 && len(m.nodes) < 40 {
		m.create()
		return
	}
	det := m.some(func(x *mNode) bool { return x.detached() })
	if det == nil {
		m.create()
		return
	}
	switch m.r.Intn(8) {
	case 0, 1, 2: // append a child
		p := m.some(func(x *mNode) bool { return !contains(det, x) && x != det })
		if p == nil {
			return
		}
		m.t.Input("%v.AddChild(%v)", p, det)
		err := p.n.AddChild(det.n)
		m.modelAddChild(p, det, err)
	case 3, 4: // append a sibling
		s := m.some(func(x *mNode) bool { return x != det && !contains(det, x) })
		if s == nil {
			return
		}
		m.t.Input("%v.AddSibling(%v)", s, det)
		err := s.n.AddSibling(det.n)
		switch {
		case s.kind == "doc":
			if err == nil {
				m.t.Fail("a document got a sibling")
			}
			return
		case err != nil:
			m.t.Fail("AddSibling: %v", err)
			return
		case s.kind == "text" && det.kind == "text":
			s.text = append(s.text, det.text...)
			return
		}
		m.link(s, det)
	case 5: // replace
		o := m.some(func(x *mNode) bool { return x != det && x.kind != "doc" && !contains(det, x) })
		if o == nil {
			return
		}
		m.t.Input("%v.Replace(%v)", o, det)
		o.n.Replace(det.n)
		l := append([]*mNode{}, o.list()...)
		for i := range l {
			if l[i] == o {
				l[i] = det
			}
		}
		det.parent = o.parent
		if o.parent != nil {
			o.parent.kids = l
		} else {
			ch := &mChain{l}
			for _, x := range l {
				x.chain = ch
			}
		}
		o.parent, o.chain = nil, nil
	case 6: // document element
		d := m.nodes[0]
		if m.r.Intn(3) > 0 || det.kind != "elem" {
			return
		}
		m.t.Input("SetDocumentElement(%v)", det)
		if err := m.doc.SetDocumentElement(det.n); err != nil {
			m.t.Fail("SetDocumentElement: %v", err)
			return
		}
		for i, k := range d.kids {
			if k.kind == "elem" {
				k.parent = nil
				d.kids[i] = det
				det.parent = d
				return
			}
		}
		m.modelAddChild(d, det, nil)
	case 7: // content
		p := m.some(func(x *mNode) bool { return x.kind != "pi" && x.kind != "ref" && x.kind != "doc" })
		if p == nil {
			return
		}
		b := m.buf()
		s := append([]byte{}, b...)
		m.t.Input("%v.AddContent(%q)", p, s)
		if err := p.n.AddContent(b); err != nil {
			m.t.Fail("AddContent: %v", err)
			return
		}
		switch p.kind {
		case "text", "comment":
			p.text = append(p.text, s...)
		default:
			if k := len(p.kids); k > 0 && p.kids[k-1].kind == "text" {
				p.kids[k-1].text = append(p.kids[k-1].text, s...)
			} else {
				x := &mNode{id: len(m.nodes), kind: "text", text: s, parent: p, n: p.n.LastChild()}
				if x.n == nil || x.n.Type() != helium.TextNode {
					m.t.Fail("AddContent did not append a text node")
					return
				}
				for _, y := range m.nodes {
					if y.n == x.n {
						m.t.Fail("AddContent put its text into another node")
						return
					}
				}
				m.nodes = append(m.nodes, x)
				p.kids = append(p.kids, x)
			}
		}
	}
	if m.r.Intn(2) == 0 {
		m.clobber()
	}
}

func (m *mTree) link(s, x *mNode) {
	if s.parent != nil {
		x.parent, x.chain = s.parent, nil
		s.parent.kids = append(s.parent.kids, x)
		return
	}
	if s.chain == nil {
		s.chain = &mChain{[]*mNode{s}}
	}
	s.chain.ns = append(s.chain.ns, x)
	x.chain = s.chain
}

func (m *mTree) modelAddChild(p, x *mNode, err error) {
	switch {
	case p.kind == "text" || p.kind == "comment":
		if p.kind != x.kind {
			if err == nil {
				m.t.Fail("a %s got a %s as a child", p.kind, x.kind)
			}
			return
		}
		if err != nil {
			m.t.Fail("adding a %s to a %s: %v", x.kind, p.kind, err)
			return
		}
		p.text = append(p.text, x.text...)
		return
	case err != nil:
		m.t.Fail("AddChild: %v", err)
		return
	}
	if k := len(p.kids); k > 0 && p.kids[k-1].kind == "text" && x.kind == "text" {
		p.kids[k-1].text = append(p.kids[k-1].text, x.text...)
		return
	}
	p.kids = append(p.kids, x)
	x.parent, x.chain = p, nil
}

func (m *mTree) nodeOf(x *mNode) helium.Node {
	if x == nil {
		return nil
	}
	return x.n
}

// checkLinks compares all links with the model
func (m *mTree) checkLinks() {
	eq := func(what string, x *mNode, got helium.Node, want *mNode) {
		w := m.nodeOf(want)
		if got != w {
			m.t.Fail("%s of %v is wrong: got %s, want %v", what, x, m.nameOf(got), want)
		}
	}
	for _, x := range m.nodes {
		var fst, lst, prev, next *mNode
		if len(x.kids) > 0 {
			fst, lst = x.kids[0], x.kids[len(x.kids)-1]
		}
		l := x.list()
		for i := range l {
			if l[i] == x {
				if i > 0 {
					prev = l[i-1]
				}
				if i+1 < len(l) {
					next = l[i+1]
				}
			}
		}
		eq("first child", x, x.n.FirstChild(), fst)
		eq("last child", x, x.n.LastChild(), lst)
		eq("parent", x, x.n.Parent(), x.parent)
		eq("next sibling", x, x.n.NextSibling(), next)
		eq("previous sibling", x, x.n.PrevSibling(), prev)
		if m.t.Failed() {
			return
		}
	}
}

func (m *mTree) nameOf(n helium.Node) string {
	if n == nil {
		return "nil"
	}
	for _, x := range m.nodes {
		if x.n == n {
			return x.String()
		}
	}
	return fmt.Sprintf("a node not in the history (%T)", n)
}

func (m *mTree) content(x *mNode) []byte {
	switch x.kind {
	case "text", "comment":
		return x.text
	case "pi":
		if len(x.kids) == 0 {
			return nil
		}
	}
	var b []byte
	for _, k := range x.kids {
		b = append(b, m.content(k)...)
	}
	return b
}

func (m *mTree) hasRefKids(x *mNode) bool {
	if x.kind == "ref" && len(x.kids) > 0 {
		return true
	}
	for _, k := range x.kids {
		if m.hasRefKids(k) {
			return true
		}
	}
	return false
}

func (m *mTree) checkContent() {
	for _, x := range m.nodes {
		if m.hasRefKids(x) {
			continue
		}
		if got, want := x.n.Content(), m.content(x); !bytes.Equal(got, want) {
			m.t.Fail("the content of %v is %q, want %q", x, got, want)
			return
		}
	}
}

func (m *mTree) preorder(x *mNode, out []*mNode) []*mNode {
	out = append(out, x)
	for _, k := range x.kids {
		out = m.preorder(k, out)
	}
	return out
}

var errWalk = errors.New("stop")

func (m *mTree) checkWalk() {
	x := m.nodes[m.r.Intn(len(m.nodes))]
	want := m.preorder(x, nil)
	stop := -1
	if m.r.Intn(2) == 0 {
		stop = m.r.Intn(len(want))
	}
	m.t.Input("Walk(%v), error at visit %d", x, stop)
	var got []helium.Node
	err := helium.Walk(x.n, func(n helium.Node) error {
		got = append(got, n)
		if len(got)-1 == stop {
			return errWalk
		}
		if len(got) > len(want)+5 {
			return errors.New("too many visits")
		}
		return nil
	})
	if stop >= 0 {
		want = want[:stop+1]
		if err != errWalk {
			m.t.Fail("the error of the function was not returned, got %v", err)
		}
	} else if err != nil {
		m.t.Fail("Walk returned %v", err)
	}
	for i := 0; i < len(got) || i < len(want); i++ {
		if i >= len(got) || i >= len(want) || got[i] != want[i].n {
			g, w := "nothing", "nothing"
			if i < len(got) {
				g = m.nameOf(got[i])
			}
			if i < len(want) {
				w = want[i].String()
			}
			m.t.Fail("visit %d is of %s, want %s", i, g, w)
			return
		}
	}
}

func history(n int, check func(m *mTree), every bool) func(t *T, r *rand.Rand, i int) {
	return func(t *T, r *rand.Rand, i int) {
		m := newMTree(t, r)
		for k := 2 + r.Intn(n); k > 0 && !t.Failed(); k-- {
			m.step()
			if every {
				check(m)
			}
		}
		if !t.Failed() {
			check(m)
		}
	}
}

// attributes: histories of setting attributes and namespaces
func attrHistory(t *T, r *rand.Rand, i int) {
	doc := helium.CreateDocument()
	type mEl struct {
		e     *helium.Element
		attrs [][2]string
		ns    [][2]string
	}
	var els []*mEl
	for k := 1 + r.Intn(2); k >= 0; k-- {
		e, _ := doc.CreateElement(simpleName(r))
		els = append(els, &mEl{e: e})
	}
	for k := r.Intn(14); k >= 0; k-- {
		m := els[r.Intn(len(els))]
		if r.Intn(4) == 0 {
			p, u := pick(r, "", "p", "q"), pick(r, "u", "v")
			t.Input("SetNamespace(%q, %q)", p, u)
			if err := m.e.SetNamespace(p, u); err != nil {
				t.Fail("SetNamespace: %v", err)
			}
			m.ns = append(m.ns, [2]string{p, u})
		} else {
			n := pick(r, "p:", "", "", "") + simpleName(r)
			v := strings.Replace(randText(r, 4), "&", "and", -1)
			t.Input("element %s: SetAttribute(%q, %q)", m.e.Name(), n, v)
			dup := false
			for _, a := range m.attrs {
				if a[0] == n {
					dup = true
				}
			}
			err := m.e.SetAttribute(n, v)
			if dup {
				if err != helium.ErrDuplicateAttribute {
					t.Fail("setting attribute %q again: error %v", n, err)
				}
			} else {
				if err != nil {
					t.Fail("SetAttribute: %v", err)
				}
				m.attrs = append(m.attrs, [2]string{n, v})
			}
		}
		for _, m := range els {
			var got [][2]string
			var prev helium.Node
			as := m.e.Attributes()
			for j, a := range as {
				got = append(got, [2]string{a.Name(), a.Value()})
				if a.Parent() != helium.Node(m.e) {
					t.Fail("attribute %q does not belong to its element", a.Name())
				}
				if a.PrevSibling() != prev {
					t.Fail("attribute %q has the wrong previous one", a.Name())
				}
				if j+1 < len(as) && a.NextAttribute() != as[j+1] || j+1 == len(as) && a.NextAttribute() != nil {
					t.Fail("attribute %q has the wrong next one", a.Name())
				}
				if s := linkErrors(a); s != "" {
					t.Fail("attribute %q: %s", a.Name(), s)
				}
				prev = a
			}
			if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", m.attrs) {
				t.Fail("the attributes are %q, want %q", got, m.attrs)
			}
			var gn [][2]string
			for _, n := range m.e.Namespaces() {
				gn = append(gn, [2]string{n.Prefix(), n.URI()})
			}
			if fmt.Sprintf("%q", gn) != fmt.Sprintf("%q", m.ns) {
				t.Fail("the declarations are %q, want %q", gn, m.ns)
			}
		}
		if t.Failed() {
			return
		}
	}
}

func init() {
	register("C05",
		&Family{Name: "history", Weight: 4, What: "random histories of up to 40 edits with detached nodes; all links are compared with a model after every edit", Run: history(40, (*mTree).checkLinks, true)},
		&Family{Name: "short", Weight: 2, What: "random histories of up to 8 edits", Run: history(8, (*mTree).checkLinks, true)},
		docFamily("parsed", 1, "the links of the trees of random documents", gOpts{dtd: true, ents: true, ns: true, attrs: true}, aspects{events: "-", tree: true}))
	register("C06",
		&Family{Name: "history", Weight: 4, What: "random histories of edits and added content, the caller's buffers being overwritten in between; all contents are compared with a model", Run: history(30, (*mTree).checkContent, true)},
		docFamily("parsed", 1, "the contents of the trees of random documents", gOpts{attrs: true, exotic: true, maxKids: 7}, aspects{events: "-", tree: true}))
	register("C07",
		&Family{Name: "history", Weight: 4, What: "random histories of SetAttribute and SetNamespace, compared with a model after every step", Run: attrHistory},
		docFamily("parsed", 1, "the attributes of the trees of random documents", gOpts{attrs: true, ns: true, exotic: true}, aspects{events: "-", tree: true}))
	register("C08",
		&Family{Name: "history", Weight: 4, What: "random trees are walked from a random node, with and without an error at a random visit", Run: history(40, (*mTree).checkWalk, false)},
		&Family{Name: "parsed", Weight: 2, What: "the trees of random documents with entities are walked, with and without an error at a random visit", Run: func(t *T, r *rand.Rand, i int) {
			g := genDoc(r, gOpts{dtd: true, ents: true, ns: true, attrs: true})
			src := g.surf
			t.Input("%s", src)
			doc, _, err := parseRec(src)
			if err != nil {
				return // other checks decide that
			}
			var want []helium.Node
			var pre func(helium.Node)
			pre = func(n helium.Node) {
				want = append(want, n)
				if n.Type() == helium.EntityRefNode {
					return // refers to the entity, which lives in the DTD
				}
				for c := n.FirstChild(); c != nil; c = c.NextSibling() {
					pre(c)
				}
			}
			pre(doc)
			stop := -1
			if r.Intn(2) == 0 {
				stop = r.Intn(len(want))
			}
			var got []helium.Node
			err = helium.Walk(doc, func(n helium.Node) error {
				got = append(got, n)
				if len(got)-1 == stop || len(got) > len(want) {
					return errWalk
				}
				return nil
			})
			if stop >= 0 {
				want = want[:stop+1]
			}
			if (err == errWalk) != (stop >= 0) || err != nil && err != errWalk {
				t.Fail("the result is %v", err)
			}
			for k := 0; k < len(got) || k < len(want); k++ {
				if k >= len(got) || k >= len(want) || got[k] != want[k] {
					t.Fail("visit %d is not of the node expected there (%d visits, want %d)", k, len(got), len(want))
					return
				}
			}
		}},
		&Family{Name: "nil", N: 1, What: "the nil node", Run: func(t *T, r *rand.Rand, i int) {
			t.Input("Walk(nil)")
			called := false
			if err := helium.Walk(nil, func(helium.Node) error { called = true; return nil }); err == nil {
				t.Fail("no error for a nil node")
			}
			if called {
				t.Fail("the function was called for a nil node")
			}
		}})
}
