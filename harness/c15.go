package main

import (
	"fmt"
	"math/rand"
	"strings"
)

type tagTok struct {
	s    string
	kind byte // s start, e end, m empty tag, t other
	name string
}

// tagTree: a random element with simple content as a list of tokens
func tagTree(r *rand.Rand, depth int, names []string) []tagTok {
	n := names[r.Intn(len(names))]
	at := pick(r, "", "", " x='1'", " y = \"a>b\"", "\n", " z='/'", " w='&lt;/a>'")
	if depth <= 0 && r.Intn(2) == 0 {
		return []tagTok{{"<" + n + at + "/>", 'm', n}}
	}
	out := []tagTok{{"<" + n + at + ">", 's', n}}
	if depth > 0 {
		for k := r.Intn(4); k > 0; k-- {
			switch r.Intn(4) {
			case 0:
				out = append(out, tagTok{pick(r, "x", " ", "<!--</a>-->", "<?p </a>?>", "<![CDATA[</a>]]>", "&lt;/a>"), 't', ""})
			default:
				out = append(out, tagTree(r, depth-1, names)...)
			}
		}
	}
	return append(out, tagTok{"</" + n + pick(r, "", "", " ", "\n") + ">", 'e', n})
}

func tagEvents(ts []tagTok) []string {
	var out []string
	for _, t := range ts {
		if t.kind == 's' || t.kind == 'm' {
			out = append(out, "start "+t.name)
		}
		if t.kind == 'e' || t.kind == 'm' {
			out = append(out, "end "+t.name)
		}
	}
	return out
}

func shortEv(ev []string) []string {
	var out []string
	for _, e := range filterEv(ev, "start end") {
		f := strings.SplitN(e, " ", 3)
		out = append(out, f[0]+" "+f[1])
	}
	return out
}

// balanced: the tags match, one document element, nothing but white space, comments and instructions outside
func balancedToks(ts []tagTok) bool {
	var st []string
	roots := 0
	for _, t := range ts {
		switch t.kind {
		case 's':
			if len(st) == 0 {
				roots++
			}
			st = append(st, t.name)
		case 'm':
			if len(st) == 0 {
				roots++
			}
		case 'e':
			if len(st) == 0 || st[len(st)-1] != t.name {
				return false
			}
			st = st[:len(st)-1]
		default:
			if len(st) == 0 && !(t.s == " " || strings.HasPrefix(t.s, "<!--") || strings.HasPrefix(t.s, "<?")) {
				return false
			}
		}
	}
	return len(st) == 0 && roots == 1
}

func c15Tags(t *T, r *rand.Rand) {
	names := []string{"a", "b", "ab", "abc", "a.", "é", "a-b"}
	if r.Intn(3) == 0 {
		names = []string{"a", "aa"}
	}
	ts := tagTree(r, 1+r.Intn(4), names)
	if r.Intn(4) > 0 {
		for k := 1 + r.Intn(2); k > 0; k-- {
			i, j := r.Intn(len(ts)), r.Intn(len(ts))
			switch r.Intn(6) {
			case 0: // drop
				ts = append(append([]tagTok{}, ts[:i]...), ts[i+1:]...)
			case 1: // swap
				ts[i], ts[j] = ts[j], ts[i]
			case 2: // double
				ts = append(append(append([]tagTok{}, ts[:i]...), ts[i]), ts[i:]...)
			case 3: // another name
				n := names[r.Intn(len(names))]
				switch ts[i].kind {
				case 'e':
					ts[i] = tagTok{"</" + n + ">", 'e', n}
				case 's':
					ts[i] = tagTok{"<" + n + ">", 's', n}
				}
			case 4: // a second element
				ts = append(ts, tagTree(r, 1, names)...)
			case 5:
				n := names[r.Intn(len(names))]
				x := []tagTok{{"</" + n + ">", 'e', n}, {"<" + n + ">", 's', n}, {"x", 't', ""}, {"<!--c-->", 't', ""}, {" ", 't', ""}}[r.Intn(5)]
				ts = append(append(append([]tagTok{}, ts[:i]...), x), ts[i:]...)
			}
			if len(ts) == 0 {
				ts = append(ts, tagTok{" ", 't', ""})
			}
		}
	}
	var b strings.Builder
	for _, x := range ts {
		b.WriteString(x.s)
	}
	src := b.String()
	t.Input("%s", src)
	doc, rec, err := parseRec(src)
	if !balancedToks(ts) {
		if err == nil || doc != nil {
			t.Fail("accepted although the tags do not match: %q", shortEv(rec.ev))
		}
		// what was delivered is a proper beginning
		var st []string
		for _, e := range shortEv(rec.ev) {
			f := strings.SplitN(e, " ", 2)
			if f[0] == "start" {
				st = append(st, f[1])
			} else if len(st) == 0 || st[len(st)-1] != f[1] {
				t.Fail("the delivered end %q does not match", e)
				break
			} else {
				st = st[:len(st)-1]
			}
		}
		return
	}
	if strings.HasPrefix(src, " ") && false {
		return
	}
	if err != nil {
		t.Fail("rejected: %v", err)
		return
	}
	if s := diffEvents(shortEv(rec.ev), tagEvents(ts)); s != "" {
		t.Fail("%s", s)
	}
	if msg := linkErrors(doc); msg != "" {
		t.Fail("%s", msg)
	}
}

// elements inside entities
func c15Entities(t *T, r *rand.Rand) {
	names := []string{"a", "b", "c"}
	ts := tagTree(r, 2, names)
	// cut a piece of the tokens out into an entity
	i := r.Intn(len(ts))
	j := i + r.Intn(len(ts)-i+1)
	piece := ts[i:j]
	var lit, b strings.Builder
	depth, ok := 0, true
	var st []string
	for _, x := range piece {
		lit.WriteString(x.s)
		switch x.kind {
		case 's':
			depth++
			st = append(st, x.name)
		case 'e':
			depth--
			if depth < 0 {
				ok = false
				depth = 0
			}
		}
	}
	ok = ok && depth == 0
	// in the document element
	b.WriteString("<!DOCTYPE r [<!ENTITY e \"" + strings.NewReplacer(`"`, "&#34;", "&lt;", "&#38;lt;").Replace(lit.String()) + "\">]><r>")
	for _, x := range ts[:i] {
		b.WriteString(x.s)
	}
	b.WriteString("&e;")
	for _, x := range ts[j:] {
		b.WriteString(x.s)
	}
	b.WriteString("</r>")
	src := b.String()
	t.Input("%s", src)
	_, rec, err := parseRec(src)
	if !ok {
		if err == nil {
			t.Fail("accepted although the entity is not balanced: %q", shortEv(rec.ev))
		}
		return
	}
	if err != nil {
		t.Fail("rejected: %v", err)
		return
	}
	want := append(append([]string{"start r"}, tagEvents(ts)...), "end r")
	if s := diffEvents(shortEv(rec.ev), want); s != "" {
		t.Fail("%s", s)
	}
}

var c15Bad = []string{"", " ", "<!--c-->", "<?p?>", "<a", "<a ", "<a>", "<a></", "<a></a", "<a></a ", "<a/", "<a/ >", "<a / >", "< a/>", "<a>< /a>", "<a></ a>", "<a></a x='1'>", "<a></a/>", "<a><b></a></b>", "<a></b>", "<a></A>", "<A></a>", "</a>", "</a><a>", "<a/><b/>", "<a/><a/>", "<a></a><a></a>", "<a/></a>", "<a></a></a>", "x<a/>", "<a/>x", "<a></a>&#32;", "<a/>&lt;", "&lt;<a/>", "<a><![CDATA[</a>]]>", "<a><!--</a>-->", "<a></ab>", "<ab></a>", "<p:a xmlns:p='u'></a>", "<a xmlns:p='u'></p:a>", "<p:a xmlns:p='u' xmlns:q='u'></q:a>", "<p:a xmlns:p='u'></p:b>", "<p:a xmlns:p='u'></p:>", "<p:a xmlns:p='u'></pa>", "<a>&e;</a>", "<!DOCTYPE a><!DOCTYPE a><a/>", "<a><!DOCTYPE a></a>", "<a/><!DOCTYPE a>", "<a b></a>", "<a b=></a>", "<a b=1></a>", "<a b='1></a>", "<a b='1\"></a>", "<a b='1'c='2'/>", "<a b='<'/>", "<a b='1' b='2'/>", "<a =''/>", "<a/b='1'>", "<a <b/>></a>", "<></>", "<a><></></a>", "<a//>", "<a>\x00</a>"}

func init() {
	register("C15",
		docFamily("docs", 2, "random documents; the start and end events and the tree are compared", gOpts{dtd: true, ents: true, attrs: true, ns: true}, aspects{events: "start end", tree: true, must: true}),
		&Family{Name: "tags", Weight: 4, What: "random nestings with dropped, swapped, doubled, renamed and added tags, against a stack of names", Run: func(t *T, r *rand.Rand, i int) { c15Tags(t, r) }},
		&Family{Name: "entities", Weight: 2, What: "a piece of the tags moved into an entity: accepted exactly if the piece is balanced by itself", Run: func(t *T, r *rand.Rand, i int) { c15Entities(t, r) }},
		&Family{Name: "malformed", N: len(c15Bad), What: "fixed malformed documents (enumerated)", Run: func(t *T, r *rand.Rand, i int) {
			t.Input("%q", c15Bad[i])
			mustReject(t, "a malformed document", c15Bad[i])
		}},
		&Family{Name: "deep", N: 4, What: "deep nestings (enumerated)", Run: func(t *T, r *rand.Rand, i int) {
			n := []int{10, 100, 200, 255}[i]
			var a, b strings.Builder
			for k := 0; k < n; k++ {
				fmt.Fprintf(&a, "<e%d>", k%7)
				b.WriteString(fmt.Sprintf("</e%d>", (n-1-k)%7))
			}
			t.Input("%d levels", n)
			_, rec, err := parseRec(a.String() + b.String())
			if err != nil {
				t.Fail("rejected: %v", err)
			} else if len(filterEv(rec.ev, "start")) != n || len(filterEv(rec.ev, "end")) != n {
				t.Fail("%d starts, %d ends", len(filterEv(rec.ev, "start")), len(filterEv(rec.ev, "end")))
			}
			mustReject(t, "one end tag too few", a.String()+b.String()[:strings.LastIndex(b.String(), "<")])
			mustReject(t, "one end tag too many", a.String()+b.String()+"</e0>")
		}},
	)
}
