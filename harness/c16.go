package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// c16Scopes: elements with declarations, any prefixes (undeclared ones too), against an environment
func c16Scopes(t *T, r *rand.Rand) {
	var want []string
	ok := true
	var b strings.Builder
	bad := r.Intn(3) == 0
	var el func(depth int, env nsEnv)
	el = func(depth int, env nsEnv) {
		ps := []string{"", "p", "q", "r", "p2"}
		var ns [][2]string
		seen := map[string]bool{}
		attrs := ""
		for k := r.Intn(4); k > 0; k-- {
			p := ps[r.Intn(len(ps))]
			u := pick(r, "u", "v", "w", "http://x/y", "u&amp;v")
			if p == "" && r.Intn(3) == 0 {
				u = ""
			}
			if seen[p] {
				if !bad || r.Intn(4) > 0 {
					continue
				}
				ok = false
			}
			seen[p] = true
			if p != "" && bad && r.Intn(15) == 0 {
				u = "" // a prefix cannot be undeclared
				ok = false
			}
			n := "xmlns"
			if p != "" {
				n += ":" + p
			}
			attrs += " " + n + "=" + pick(r, "'"+u+"'", `"`+u+`"`)
			ns = append(ns, [2]string{p, strings.Replace(u, "&amp;", "&", -1)})
		}
		if bad && r.Intn(30) == 0 {
			attrs += pick(r, " xmlns:xml='u'", " xmlns:xmlns='u'", " xmlns='http://www.w3.org/XML/1998/namespace'", " xmlns:z='http://www.w3.org/XML/1998/namespace'", " xmlns='http://www.w3.org/2000/xmlns/'", " xmlns:z='http://www.w3.org/2000/xmlns/'")
			ok = false
		}
		env = append(append(nsEnv{}, env...), ns...)
		var cand []string
		for _, p := range ps {
			if _, have := env.lookup(p); have || p == "" {
				cand = append(cand, p)
			}
		}
		if r.Intn(8) == 0 {
			cand = append(cand, "xml")
		}
		p := cand[r.Intn(len(cand))]
		if bad && r.Intn(4) == 0 {
			p = ps[r.Intn(len(ps))]
			if _, have := env.lookup(p); !have && p != "" {
				ok = false
			}
		}
		u, _ := env.lookup(p)
		name := qname(p, "e")
		if ok {
			want = append(want, evStart(p, "e", u, ns, nil))
		}
		if depth <= 0 || r.Intn(4) == 0 {
			b.WriteString("<" + name + attrs + "/>")
		} else {
			b.WriteString("<" + name + attrs + ">")
			for k := r.Intn(4); k > 0; k-- {
				el(depth-1, env)
			}
			b.WriteString("</" + name + ">")
		}
		if ok {
			want = append(want, fmt.Sprintf("end %s {%s}", name, u))
		}
	}
	el(4, nil)
	src := b.String()
	t.Input("%s", src)
	_, rec, err := parseRec(src)
	if !ok {
		if err == nil {
			t.Fail("accepted: %q", rec.ev)
		}
		return
	}
	if err != nil {
		t.Fail("rejected: %v", err)
		return
	}
	if s := diffEvents(filterEv(rec.ev, "start end"), want); s != "" {
		t.Fail("%s", s)
	}
}

var c16Cases = []struct {
	src  string
	want string // the start events, "" for an error
}{
	{"<p:a/>", ""}, {"<a><p:b/></a>", ""}, {"<a><b xmlns:p='u'/><p:c/></a>", ""}, {"<a><b xmlns:p='u'></b><p:c/></a>", ""},
	{"<a xmlns='u' xmlns='u'/>", ""}, {"<a xmlns:p='u' xmlns:p='v'/>", ""}, {"<a xmlns:p=''/>", ""}, {"<a xmlns:xmlns='u'/>", ""},
	{"<a xmlns:xmlns='http://www.w3.org/2000/xmlns/'/>", ""}, {"<a xmlns:xml='u'/>", ""}, {"<a xmlns:p='http://www.w3.org/XML/1998/namespace'/>", ""},
	{"<a xmlns='http://www.w3.org/XML/1998/namespace'/>", ""}, {"<a xmlns='http://www.w3.org/2000/xmlns/'/>", ""}, {"<a xmlns:p='http://www.w3.org/2000/xmlns/'/>", ""},
	{"<xmlns:a/>", ""}, {"<a xmlns:p='u'><p:b xmlns:p='v'/><p:c/></a>", "a{} p:b{v} p:c{u}"},
	{"<a xmlns='u'><b xmlns=''><c/></b><d/></a>", "a{u} b{} c{} d{u}"}, {"<a xmlns='u'><b xmlns='v'/><c/></a>", "a{u} b{v} c{u}"},
	{"<a xmlns='u'><b xmlns=''/><c/></a>", "a{u} b{} c{u}"}, {"<p:a xmlns:p='u' xmlns='v'><b/></p:a>", "p:a{u} b{v}"},
	{"<a xmlns:p='u'><b xmlns:q='v'><p:c/><q:c/></b></a>", "a{} b{} p:c{u} q:c{v}"}, {"<xml:a/>", "xml:a{http://www.w3.org/XML/1998/namespace}"},
	{"<a xmlns:xml='http://www.w3.org/XML/1998/namespace'/>", "a{}"}, {"<p:a xmlns:p='u'><p:b xmlns:p='v'><p:c xmlns:p='w'/><p:d/></p:b><p:e/></p:a>", "p:a{u} p:b{v} p:c{w} p:d{v} p:e{u}"},
	{"<a xmlns='u' xmlns:p='u' xmlns:q='v'><p:b/><q:c xmlns='w'><d/></q:c><e/></a>", "a{u} p:b{u} q:c{v} d{w} e{u}"},
	{"<!DOCTYPE a [<!ENTITY e '<p:b/>'>]><a xmlns:p='u'>&e;</a>", "a{} p:b{u}"},
	{"<!DOCTYPE a [<!ENTITY e '<p:b/>'>]><a><c xmlns:p='u'/>&e;</a>", ""},
	{"<!DOCTYPE a [<!ENTITY e \"<b xmlns='v' xmlns:q='w'><q:c/></b>\">]><a xmlns='u'>&e;<d/></a>", "a{u} b{v} q:c{w} d{u}"},
	{"<!DOCTYPE a [<!ENTITY e \"<b xmlns:q='w'/>\">]><a xmlns='u'>&e;<q:d/></a>", ""},
}

func init() {
	register("C16",
		docFamily("docs", 2, "random documents with declarations; the start and end events and the tree are compared", gOpts{dtd: true, ents: true, attrs: true, ns: true}, aspects{events: "start end", tree: true, must: true}),
		&Family{Name: "scopes", Weight: 4, What: "random nestings of declarations and prefixes, some undeclared, doubled or reserved, against an environment", Run: func(t *T, r *rand.Rand, i int) { c16Scopes(t, r) }},
		&Family{Name: "cases", N: len(c16Cases), What: "fixed cases (enumerated)", Run: func(t *T, r *rand.Rand, i int) {
			c := c16Cases[i]
			t.Input("%s", c.src)
			_, rec, err := parseRec(c.src)
			if c.want == "" {
				if err == nil {
					t.Fail("accepted: %q", rec.ev)
				}
				return
			}
			if err != nil {
				t.Fail("rejected: %v", err)
				return
			}
			var got []string
			for _, e := range filterEv(rec.ev, "start") {
				f := strings.SplitN(e, " ", 4)
				got = append(got, f[1]+f[2])
			}
			if g := strings.Join(got, " "); g != c.want {
				t.Fail("%s, want %s", g, c.want)
			}
		}},
	)
}
