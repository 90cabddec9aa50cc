package main

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode/utf8"
)

// ---- the definitions of XML 1.0 (fifth edition), written independently of the code under test

func xmlChar(r rune) bool {
	return r == 9 || r == 10 || r == 13 || r >= 0x20 && r <= 0xD7FF || r >= 0xE000 && r <= 0xFFFD || r >= 0x10000 && r <= 0x10FFFF
}
func xmlSpace(r rune) bool { return r == ' ' || r == '\t' || r == '\n' || r == '\r' }

var nameStartRanges = [][2]rune{{':', ':'}, {'A', 'Z'}, {'_', '_'}, {'a', 'z'}, {0xC0, 0xD6}, {0xD8, 0xF6}, {0xF8, 0x2FF}, {0x370, 0x37D}, {0x37F, 0x1FFF}, {0x200C, 0x200D}, {0x2070, 0x218F}, {0x2C00, 0x2FEF}, {0x3001, 0xD7FF}, {0xF900, 0xFDCF}, {0xFDF0, 0xFFFD}, {0x10000, 0xEFFFF}}
var nameExtraRanges = [][2]rune{{'-', '-'}, {'.', '.'}, {'0', '9'}, {0xB7, 0xB7}, {0x300, 0x36F}, {0x203F, 0x2040}}

func inRanges(r rune, rs [][2]rune) bool {
	for _, x := range rs {
		if r >= x[0] && r <= x[1] {
			return true
		}
	}
	return false
}
func nameStart(r rune) bool { return inRanges(r, nameStartRanges) }
func nameChar(r rune) bool  { return nameStart(r) || inRanges(r, nameExtraRanges) }

// ---- random pieces

func pick(r *rand.Rand, xs ...string) string { return xs[r.Intn(len(xs))] }

func randRune(r *rand.Rand) rune {
	for {
		var c rune
		switch r.Intn(12) {
		case 0:
			c = []rune("<>&\"'%;#]-?=/!")[r.Intn(14)]
		case 1:
			c = []rune("\t\n\r ")[r.Intn(4)]
		case 2:
			c = rune(0x80 + r.Intn(0x180))
		case 3:
			c = rune(0x300 + r.Intn(0x3000))
		case 4:
			c = []rune{0x7f, 0x80, 0x85, 0x9f, 0xa0, 0xd7, 0xdf, 0xe0, 0xff, 0x100, 0x7ff, 0x800, 0x2028, 0xd7ff, 0xe000, 0xfffc, 0x10000, 0x10ffff, 0x1f600, 0x3000}[r.Intn(20)]
		case 5:
			c = rune(0x10000 + r.Intn(0x100000))
		default:
			c = rune(0x20 + r.Intn(0x5f))
		}
		if xmlChar(c) && c != 0xFFFD {
			return c
		}
	}
}

func randText(r *rand.Rand, max int) string {
	n := r.Intn(max + 1)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(randRune(r))
	}
	return b.String()
}

// any bytes: valid characters, forbidden ones, broken UTF-8
func randBytes(r *rand.Rand, max int) []byte {
	n := r.Intn(max + 1)
	var b []byte
	for i := 0; i < n; i++ {
		switch r.Intn(8) {
		case 0:
			b = append(b, byte(r.Intn(256)))
		case 1:
			b = append(b, byte(r.Intn(32)))
		case 2:
			b = append(b, []string{"\xed\xa0\x80", "\xef\xbf\xbd", "\xef\xbf\xbe", "\xef\xbf\xbf", "\xc0\x80", "\xf4\x90\x80\x80", "\xe2\x82", "\xf0\x9f\x98", "\x00", "\u0085", "\u0080", "\u009f", "\u00ff", "\u00e0", "\u00df"}[r.Intn(15)]...)
		default:
			b = utf8.AppendRune(b, randRune(r))
		}
	}
	return b
}

var nameHeads = []rune("abcxyzABZ_éßΩЖ日本ʰⰀ\U00010400")
var nameTails = []rune("abcxyz019-._é·日\u0301\u203fΩ")

// a name without a colon
func randNCName(r *rand.Rand) string {
	n := r.Intn(5)
	if r.Intn(30) == 0 {
		n = 20 + r.Intn(60)
	}
	b := []rune{nameHeads[r.Intn(len(nameHeads))]}
	for i := 0; i < n; i++ {
		b = append(b, nameTails[r.Intn(len(nameTails))])
	}
	s := string(b)
	if strings.HasPrefix(strings.ToLower(s), "xml") {
		return "n" + s
	}
	return s
}

func simpleName(r *rand.Rand) string {
	return string([]rune{'a', 'b', 'c', 'd', 'a', 'b', 'A', 'B'}[r.Intn(8)]) + []string{"", "", "1", "x", ".y", "-z"}[r.Intn(6)]
}

func q(s string) string { return fmt.Sprintf("%q", s) }
