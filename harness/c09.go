package main

import (
	"fmt"
	"math/rand"
	"reflect"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/internal/stack"
	"github.com/lestrrat-go/helium/internal/stack/nsstack"
)

type keyItem struct {
	k string
	n int
}

func (k keyItem) Key() string { return k.k }

func depth(r *rand.Rand) int {
	if r.Intn(3) == 0 {
		return 20 + r.Intn(120)
	}
	return 4 + r.Intn(30)
}

func popN(r *rand.Rand, l int) int {
	switch r.Intn(6) {
	case 0:
		return l
	case 1:
		return l + r.Intn(4)
	case 2:
		return 0
	default:
		if l == 0 {
			return 1
		}
		return 1 + r.Intn(l)
	}
}

func c09Simple(t *T, r *rand.Rand, _ int) {
	var s stack.SimpleStack
	var m []interface{}
	bias := 1 + r.Intn(3)
	for k, n := 0, depth(r); k < n; k++ {
		switch c := r.Intn(4 + bias); {
		case c >= 3:
			var v interface{} = k
			if r.Intn(5) == 0 {
				v = fmt.Sprint("s", k)
			}
			t.Input("push %v", v)
			s.Push(v)
			m = append(m, v)
		case c == 0:
			t.Input("pop")
			s.Pop()
			if len(m) > 0 {
				m = m[:len(m)-1]
			}
		case c == 1:
			j := popN(r, len(m))
			t.Input("pop %d", j)
			s.Pop(j)
			if j > len(m) {
				j = len(m)
			}
			m = m[:len(m)-j]
		}
		m = append([]interface{}(nil), m...)
		if s.Len() != len(m) {
			t.Fail("size %d, want %d", s.Len(), len(m))
			return
		}
		j := r.Intn(len(m) + 2)
		p := s.Peek(j)
		w := m
		if j < len(m) {
			w = m[len(m)-j:]
		}
		if len(p) != len(w) {
			t.Fail("Peek(%d) gives %v, want %v", j, p, w)
			return
		}
		for x := range w {
			if p[x] != w[x] {
				t.Fail("Peek(%d) gives %v, want %v", j, p, w)
				return
			}
		}
		for x := range m {
			if s[x] != m[x] {
				t.Fail("the stack is %v, want %v", s, m)
				return
			}
		}
	}
	for len(m) > 0 {
		if got := s.Peek(1); len(got) != 1 || got[0] != m[len(m)-1] {
			t.Fail("top is %v, want %v", got, m[len(m)-1])
			return
		}
		s.Pop()
		m = m[:len(m)-1]
	}
	if s.Len() != 0 {
		t.Fail("not empty at the end")
	}
}

func c09Unique(t *T, r *rand.Rand, _ int) {
	var s stack.UniqueStack
	var m []keyItem
	bias := 1 + r.Intn(3)
	dups := r.Intn(2) == 0
	for k, n := 0, depth(r); k < n; k++ {
		switch c := r.Intn(4 + bias); {
		case c >= 3:
			v := keyItem{fmt.Sprint("k", r.Intn(n)), k}
			if r.Intn(12) == 0 {
				v.k = ""
			}
			have := false
			for _, x := range m {
				if x.k == v.k {
					have = true
				}
			}
			if have && dups {
				// hidden items come about by appending, as the parser's namespace stack does
				t.Input("append %v", v)
				s = append(s, v)
				m = append(m, v)
				break
			}
			t.Input("push %v", v)
			err := s.Push(v)
			if (err != nil) != have {
				t.Fail("pushing a key that is present: %v, error %v", have, err)
				return
			}
			if !have {
				m = append(m, v)
			}
		case c == 0:
			t.Input("pop")
			s.Pop()
			if len(m) > 0 {
				m = m[:len(m)-1]
			}
		case c == 1:
			j := popN(r, len(m))
			t.Input("pop %d", j)
			s.Pop(j)
			if j > len(m) {
				j = len(m)
			}
			m = m[:len(m)-j]
		}
		if s.Len() != len(m) {
			t.Fail("size %d, want %d", s.Len(), len(m))
			return
		}
		key := fmt.Sprint("k", r.Intn(n))
		if len(m) > 0 && r.Intn(2) == 0 {
			key = m[r.Intn(len(m))].k
		}
		var want stack.LookupItem = stack.NilItem
		for _, x := range m {
			if x.k == key {
				want = x
			}
		}
		if got := s.Lookup(key); got != want {
			t.Fail("Lookup(%q) gives %v, want %v", key, got, want)
			return
		}
		j := r.Intn(len(m) + 2)
		p := s.Peek(j)
		w := m
		if j < len(m) {
			w = m[len(m)-j:]
		}
		if len(p) != len(w) {
			t.Fail("Peek(%d) gives %v, want %v", j, p, w)
			return
		}
		for x := range w {
			if p[x] != stack.LookupItem(w[x]) {
				t.Fail("Peek(%d) gives %v, want %v", j, p, w)
				return
			}
		}
		for x := range m {
			if s[x] != stack.LookupItem(m[x]) {
				t.Fail("the stack is %v, want %v", s, m)
				return
			}
		}
	}
}

type nsm struct{ p, u string }

func c09Ns(t *T, r *rand.Rand, _ int) {
	var push func(p, u string)
	var pop func(...int)
	var lookup func(string) string
	var length func() int
	var declared func(string, int) bool
	unique := newShimNs == nil || r.Intn(2) == 0
	if unique {
		s := nsstack.New()
		// (a method value of a value receiver would keep the state of this moment)
		push = s.Push
		pop = func(n ...int) { s.Pop(n...) }
		lookup = func(k string) string { return s.Lookup(k) }
		length = func() int { return s.Len() }
		t.Input("nsstack")
	} else {
		s := newShimNs()
		push, pop, lookup, length, declared = s.Push, s.Pop, s.Lookup, s.Len, s.Declared
		t.Input("parser's namespace stack")
	}
	var m []nsm
	bias := 1 + r.Intn(3)
	for k, n := 0, depth(r); k < n; k++ {
		switch c := r.Intn(4 + bias); {
		case c >= 3:
			v := nsm{fmt.Sprint("p", r.Intn(n)), fmt.Sprint("u", k)}
			if r.Intn(6) == 0 {
				v.p = ""
			}
			if r.Intn(9) == 0 {
				v.u = ""
			}
			have := false
			for _, x := range m {
				have = have || x.p == v.p
			}
			if have && unique {
				break
			}
			t.Input("push %v", v)
			push(v.p, v.u)
			m = append(m, v)
		case c == 0:
			t.Input("pop")
			pop()
			if len(m) > 0 {
				m = m[:len(m)-1]
			}
		case c == 1:
			j := popN(r, len(m))
			t.Input("pop %d", j)
			pop(j)
			if j > len(m) {
				j = len(m)
			}
			m = m[:len(m)-j]
		}
		if length() != len(m) {
			t.Fail("size %d, want %d", length(), len(m))
			return
		}
		key := fmt.Sprint("p", r.Intn(n))
		if len(m) > 0 && r.Intn(2) == 0 {
			key = m[r.Intn(len(m))].p
		}
		want := ""
		for _, x := range m {
			if x.p == key {
				want = x.u
			}
		}
		if got := lookup(key); got != want {
			t.Fail("Lookup(%q) gives %q, want %q", key, got, want)
			return
		}
		if declared != nil {
			j := r.Intn(len(m) + 2)
			w := false
			for x := len(m) - 1; x >= 0 && x >= len(m)-j; x-- {
				w = w || m[x].p == key
			}
			if got := declared(key, j); got != w {
				t.Fail("Declared(%q, %d) gives %v, want %v", key, j, got, w)
				return
			}
		}
	}
}

func c09Wrap(t *T, r *rand.Rand, _ int) {
	if newShimNode == nil {
		t.Trivial()
		return
	}
	doc := helium.CreateDocument()
	ns, is := newShimNode(), newShimInput()
	var nm []*helium.Element
	var im []interface{}
	for k, n := 0, depth(r); k < n; k++ {
		if r.Intn(5) < 3 {
			e, _ := doc.CreateElement(fmt.Sprint("e", k))
			var it interface{} = fmt.Sprint("in", k)
			if r.Intn(2) == 0 {
				it = k
			}
			t.Input("push %d", k)
			ns.Push(e)
			is.Push(it)
			nm, im = append(nm, e), append(im, it)
		} else {
			t.Input("pop")
			var we *helium.Element
			var wi interface{}
			if len(nm) > 0 {
				we, nm = nm[len(nm)-1], nm[:len(nm)-1]
				wi, im = im[len(im)-1], im[:len(im)-1]
			}
			if got := ns.Pop(); got != we {
				t.Fail("node stack pops %v, want %v", got, we)
				return
			}
			if got := is.Pop(); !reflect.DeepEqual(got, wi) {
				t.Fail("input stack pops %v, want %v", got, wi)
				return
			}
		}
		if ns.Len() != len(nm) || is.Len() != len(im) {
			t.Fail("sizes %d, %d, want %d", ns.Len(), is.Len(), len(nm))
			return
		}
		var we *helium.Element
		var wi interface{}
		if len(nm) > 0 {
			we, wi = nm[len(nm)-1], im[len(im)-1]
		}
		if ns.PeekOne() != we || is.PeekOne() != wi {
			t.Fail("PeekOne gives %v, %v, want %v, %v", ns.PeekOne(), is.PeekOne(), we, wi)
			return
		}
	}
}

func init() {
	register("C09",
		&Family{Name: "simple", Run: c09Simple, What: "random histories of up to 140 pushes, pops and peeks on the simple stack against a list"},
		&Family{Name: "unique", Run: c09Unique, What: "the same with look-ups on the stack with keys, hidden items included"},
		&Family{Name: "ns", Run: c09Ns, What: "the namespace stacks"},
		&Family{Name: "wrappers", Run: c09Wrap, What: "the element and input stacks of the parser"},
	)
}
