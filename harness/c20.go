package main

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/sax"
)

type markEnt struct{ n int }

func (m *markEnt) Name() string    { return fmt.Sprint("ent", m.n) }
func (m *markEnt) SetOrig(string)  {}
func (m *markEnt) EntityType() int { return m.n }
func (m *markEnt) Content() []byte { return nil }
func (m *markEnt) Checked() bool   { return false }
func (m *markEnt) MarkChecked()    {}

// a distinguishable value of a type
func marker(r *rand.Rand, ty reflect.Type, k int) reflect.Value {
	switch ty.Kind() {
	case reflect.String:
		return reflect.ValueOf(fmt.Sprintf("s%d-%d", k, r.Intn(1000)))
	case reflect.Int:
		return reflect.ValueOf(k*1000 + r.Intn(1000)).Convert(ty)
	case reflect.Bool:
		return reflect.ValueOf(r.Intn(2) == 0)
	case reflect.Interface:
		if ty.Name() == "Entity" {
			if r.Intn(4) == 0 {
				return reflect.Zero(ty)
			}
			return reflect.ValueOf(&markEnt{k*1000 + r.Intn(1000)})
		}
		if ty.Name() == "error" {
			if r.Intn(3) == 0 {
				return reflect.Zero(ty)
			}
			return reflect.ValueOf(fmt.Errorf("e%d-%d", k, r.Intn(1000)))
		}
		if r.Intn(6) == 0 {
			return reflect.Zero(ty)
		}
		if ty.NumMethod() == 0 {
			p := new(int)
			*p = k*1000 + r.Intn(1000)
			return reflect.ValueOf(p)
		}
		return reflect.Zero(ty)
	case reflect.Slice:
		if ty.Elem().Kind() == reflect.Uint8 {
			return reflect.ValueOf([]byte(fmt.Sprintf("b%d-%d", k, r.Intn(1000))))
		}
		n := r.Intn(4)
		s := reflect.MakeSlice(ty, n, n+1)
		for i := 0; i < n; i++ {
			v := marker(r, ty.Elem(), k*10+i)
			if v.IsValid() && v.Kind() != reflect.Interface {
				s.Index(i).Set(v)
			}
		}
		return s
	}
	return reflect.Zero(ty)
}

func sameVal(a, b reflect.Value) bool {
	if a.Kind() == reflect.Slice {
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !reflect.DeepEqual(a.Index(i).Interface(), b.Index(i).Interface()) {
				return false
			}
		}
		return true
	}
	return a.Interface() == b.Interface()
}

func c20Run(t *T, r *rand.Rand, i int) {
	it := reflect.TypeOf((*sax.SAX2Handler)(nil)).Elem()
	nm := it.NumMethod()
	m := it.Method(i % nm)
	mode := i / nm % 4 // 0: only its own, 1: all, 2: all but its own, 3: random others, own registered or not
	h := sax.New()
	hv := reflect.ValueOf(h).Elem()
	type call struct {
		field string
		args  []reflect.Value
	}
	var calls []call
	var results []reflect.Value
	own := false
	var reg []string
	for f := 0; f < hv.NumField(); f++ {
		f := f
		name := hv.Type().Field(f).Name
		ev := strings.TrimSuffix(name, "Handler")
		isOwn := ev == m.Name
		on := mode == 1 || mode == 0 && isOwn || mode == 2 && !isOwn || mode == 3 && r.Intn(2) == 0
		if !on {
			continue
		}
		own = own || isOwn
		reg = append(reg, ev)
		fty := hv.Field(f).Type()
		var out []reflect.Value
		for o := 0; o < fty.NumOut(); o++ {
			v := marker(r, fty.Out(o), 50+o)
			if !v.IsValid() {
				v = reflect.Zero(fty.Out(o))
			}
			vv := reflect.New(fty.Out(o)).Elem()
			vv.Set(v)
			out = append(out, vv)
		}
		if isOwn {
			results = out
		}
		hv.Field(f).Set(reflect.MakeFunc(fty, func(args []reflect.Value) []reflect.Value {
			calls = append(calls, call{name, args})
			return out
		}))
	}
	t.Input("event %s, registered %v", m.Name, reg)
	var args []reflect.Value
	for a := 0; a < m.Type.NumIn(); a++ {
		ty := m.Type.In(a)
		v := marker(r, ty, a+1)
		vv := reflect.New(ty).Elem()
		vv.Set(v)
		args = append(args, vv)
	}
	mv := reflect.ValueOf(sax.SAX2Handler(h)).MethodByName(m.Name)
	var got []reflect.Value
	if m.Type.IsVariadic() {
		got = mv.CallSlice(args)
	} else {
		got = mv.Call(args)
	}
	if own {
		if len(calls) != 1 || calls[0].field != m.Name+"Handler" {
			t.Fail("calls made: %v", calls)
			return
		}
		for k, a := range calls[0].args {
			if !sameVal(a, args[k]) {
				t.Fail("argument %d arrived as %v, was %v", k, a.Interface(), args[k].Interface())
			}
		}
		for k, o := range got {
			if !sameVal(o, results[k]) {
				t.Fail("result %d is %v, the handler returned %v", k, o.Interface(), results[k].Interface())
			}
		}
		return
	}
	if len(calls) != 0 {
		t.Fail("no handler for the event, but called %v", calls)
	}
	last := got[len(got)-1].Interface()
	if last != sax.ErrHandlerUnspecified {
		t.Fail("no handler: error %v, want 'unspecified'", last)
	}
	for k, o := range got[:len(got)-1] {
		if !o.IsZero() {
			t.Fail("no handler: result %d is %v", k, o.Interface())
		}
	}
}

// the parser: events that have no handler are successes
func c20Parse(t *T, r *rand.Rand, i int) {
	src := `<?xml version="1.0"?><!--c--><!DOCTYPE r [<!ELEMENT r (#PCDATA|x)*><!ATTLIST r k CDATA "v"><!ENTITY e "E"><!--d--><?p d?>]><r z="1"> <x/>t&amp;<![CDATA[c]]><?p q?></r><!--e-->`
	h := sax.New()
	hv := reflect.ValueOf(h).Elem()
	boom := errors.New("boom")
	var reg []string
	count := map[string]int{}
	failAt := -1
	if i%2 == 1 {
		failAt = r.Intn(hv.NumField())
	}
	failName := ""
	for f := 0; f < hv.NumField(); f++ {
		name := strings.TrimSuffix(hv.Type().Field(f).Name, "Handler")
		if name == "GetEntity" || name == "GetParameterEntity" || name == "Error" {
			continue
		}
		if f != failAt && r.Intn(3) == 0 {
			continue
		}
		reg = append(reg, name)
		fty := hv.Field(f).Type()
		fail := f == failAt && fty.NumOut() == 1
		if fail {
			failName = name
		}
		hv.Field(f).Set(reflect.MakeFunc(fty, func(args []reflect.Value) []reflect.Value {
			count[name]++
			var out []reflect.Value
			for o := 0; o < fty.NumOut(); o++ {
				out = append(out, reflect.Zero(fty.Out(o)))
			}
			if fail {
				out[len(out)-1] = reflect.ValueOf(boom)
			}
			return out
		}))
	}
	t.Input("handlers %v, failing %q, document %s", reg, failName, src)
	p := helium.NewParser()
	p.SetSAXHandler(h)
	_, err := p.Parse([]byte(src))
	want := map[string]int{"StartDocument": 1, "EndDocument": 1, "Comment": 3, "ProcessingInstruction": 2, "ElementDecl": 1, "AttributeDecl": 1, "EntityDecl": 1, "StartElementNS": 2, "EndElementNS": 2, "CDataBlock": 1}
	if failName != "" && count[failName] > 0 {
		if err == nil {
			t.Fail("the error of the %s handler was not reported", failName)
		}
		if count[failName] != 1 {
			t.Fail("%s was called again after its error", failName)
		}
		return
	}
	if err != nil {
		t.Fail("parse: %v", err)
		return
	}
	for _, n := range reg {
		if w, ok := want[n]; ok && count[n] != w {
			t.Fail("%s was called %d times, want %d", n, count[n], w)
		}
	}
}

func init() {
	nm := reflect.TypeOf((*sax.SAX2Handler)(nil)).Elem().NumMethod()
	register("C20",
		&Family{Name: "dispatch", N: nm * 40, Run: c20Run, What: "every event with its own handler only, all handlers, all but its own, and random sets of handlers; marker arguments and results (25 events x 40)"},
		&Family{Name: "parse", Run: c20Parse, What: "a document parsed with a random set of handlers, one of them possibly failing"},
	)
}
