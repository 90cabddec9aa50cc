package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"
)

// refValue: the character the reference body (between "&#" and ";") denotes
func refValue(body string, term bool) (rune, bool) {
	if !term {
		return 0, false
	}
	base, digits := 10, body
	if strings.HasPrefix(body, "x") {
		base, digits = 16, body[1:]
	}
	if digits == "" {
		return 0, false
	}
	for _, c := range digits {
		if !(c >= '0' && c <= '9' || base == 16 && (c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F')) {
			return 0, false
		}
	}
	v, ok := new(big.Int).SetString(digits, base)
	if !ok || v.Cmp(big.NewInt(0x10FFFF)) > 0 {
		return 0, false
	}
	c := rune(v.Int64())
	return c, xmlChar(c)
}

func c11Check(t *T, body string, term bool) {
	ref := "&#" + body
	if term {
		ref += ";"
	}
	c, ok := refValue(body, term)
	t.Input("%q", ref)
	for _, p := range []struct {
		what, src string
		val       func(ev []string) string
	}{
		{"content", "<a>x" + ref + "y</a>", func(ev []string) string {
			return strings.TrimPrefix(strings.Join(filterEv(merge(ev), "text"), "||"), "text ")
		}},
		{"attribute value", "<a b='x" + ref + "y'/>", nil},
		{"default value", "<!DOCTYPE a [<!ATTLIST a b CDATA 'x" + ref + "y'>]><a/>", nil},
		{"entity value", "<!DOCTYPE a [<!ENTITY e 'x" + ref + "y'>]><a/>", func(ev []string) string {
			e := filterEv(ev, "entitydecl")
			if len(e) != 1 {
				return "?"
			}
			var s string
			fmt.Sscanf(strings.TrimPrefix(e[0], `entitydecl e 1 "" "" `), "%q", &s)
			return s
		}},
		{"text of an entity", "<!DOCTYPE a [<!ENTITY e 'x&#38;#" + strings.TrimPrefix(ref, "&#") + "y'>]><a>&e;</a>", func(ev []string) string {
			return strings.TrimPrefix(strings.Join(filterEv(merge(ev), "text"), "||"), "text ")
		}},
	} {
		if p.what == "text of an entity" && c == '\r' {
			continue
		}
		doc, rec, err := parseRec(p.src)
		if ok != (err == nil) {
			if p.what == "default value" && c == '<' {
				continue
			}
			t.Fail("%s in %s: error %v", ref, p.what, err)
			continue
		}
		if !ok {
			continue
		}
		got := ""
		if p.val != nil {
			got = p.val(rec.ev)
		} else if p.what == "attribute value" {
			got = attrOf(doc, "b")
		} else {
			e := filterEv(rec.ev, "attdecl")
			s := strings.TrimPrefix(e[0], "attdecl a b 1 1 ")
			fmt.Sscanf(s, "%q", &got)
			got = strings.Replace(got, "&#38;", "&", 1)
		}
		if want := "x" + string(c) + "y"; got != want {
			t.Fail("%s in %s gives %q, want %q", ref, p.what, got, want)
		}
	}
}

func init() {
	fixed := []struct {
		b    string
		term bool
	}{}
	for _, b := range []string{"", "x", "X41", "0", "x0", "00", "1", "8", "9", "10", "13", "31", "32", "x1f", "x20", "xD7FF", "xD800", "xDFFF", "xE000", "xFFFE", "xFFFF", "x10000", "x10FFFF", "x110000", "55295", "55296", "57343", "57344", "65534", "65535", "65536", "1114111", "1114112",
		"4294967361", "x100000041", "18446744073709551681", "x10000000000000041", "x" + strings.Repeat("0", 400) + "41", strings.Repeat("0", 400) + "65", strings.Repeat("9", 400), "x" + strings.Repeat("F", 400), "2147483713", "x80000041", "-65", "+65", " 65", "65 ", "6 5", "6_5", "0x41", "x 41", "xx41", "x4G", "6a", "x-41", "٣", "x４1", "65x", "xg", "38", "60", "x26", "x3c", "37", "34", "39",
		"4294967296", "4294967305", "8589934657", "x80000000", "xFFFFFFFF", "2147483648", "1114112000065"} {
		fixed = append(fixed, struct {
			b    string
			term bool
		}{b, true}, struct {
			b    string
			term bool
		}{b, false})
	}
	register("C11",
		&Family{Name: "fixed", N: len(fixed), What: "boundary values, overflowing ones, malformed forms (enumerated), each in content, attribute, default and entity values and in the text of an entity", Run: func(t *T, r *rand.Rand, i int) {
			c11Check(t, fixed[i].b, fixed[i].term)
		}},
		&Family{Name: "random", Weight: 3, What: "random references: all planes, up to 30 leading zeros, up to 40 digits, odd characters", Run: func(t *T, r *rand.Rand, i int) {
			var b string
			c := r.Intn(0x118000)
			if r.Intn(3) == 0 {
				c = r.Intn(0x300)
			}
			z := strings.Repeat("0", []int{0, 0, 1, 8, 30}[r.Intn(5)])
			switch r.Intn(3) {
			case 0:
				b = z + fmt.Sprint(c)
			case 1:
				b = "x" + z + fmt.Sprintf("%x", c)
			default:
				b = "x" + z + fmt.Sprintf("%X", c)
			}
			switch r.Intn(8) {
			case 0: // multiples of 2^32 and 2^64 on top
				v := new(big.Int).Lsh(big.NewInt(int64(1+r.Intn(3))), []uint{31, 32, 63, 64}[r.Intn(4)])
				v.Add(v, big.NewInt(int64(c)))
				b = v.String()
				if r.Intn(2) == 0 {
					b = "x" + v.Text(16)
				}
			case 1:
				k := r.Intn(len(b) + 1)
				b = b[:k] + pick(r, "a", "G", "x", "-", "+", " ", ".", "_", "é", "０", "&") + b[k:]
			case 2:
				b = strings.Repeat(string("123456789"[r.Intn(9)]), 1+r.Intn(40))
			}
			c11Check(t, b, r.Intn(15) > 0)
		}})
}
