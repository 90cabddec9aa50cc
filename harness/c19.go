package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/encoding"
	enc "golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/encoding/korean"
	"golang.org/x/text/encoding/simplifiedchinese"
	"golang.org/x/text/encoding/traditionalchinese"
	"golang.org/x/text/encoding/unicode"
)

// the encodings that are supported, by their usual names (written without looking at the table of the code)
var c19Names = map[string]enc.Encoding{
	"utf8": unicode.UTF8, "utf-8": unicode.UTF8,
	"euc-jp": japanese.EUCJP, "shift_jis": japanese.ShiftJIS, "shift-jis": japanese.ShiftJIS, "cp932": japanese.ShiftJIS, "iso-2022-jp": japanese.ISO2022JP,
	"big5": traditionalchinese.Big5, "euc-kr": korean.EUCKR, "hz-gb2312": simplifiedchinese.HZGB2312,
	"cp437": charmap.CodePage437, "cp866": charmap.CodePage866,
	"iso-8859-1": charmap.ISO8859_1, "iso-8859-2": charmap.ISO8859_2, "iso-8859-3": charmap.ISO8859_3, "iso-8859-4": charmap.ISO8859_4,
	"iso-8859-5": charmap.ISO8859_5, "iso-8859-6": charmap.ISO8859_6, "iso-8859-7": charmap.ISO8859_7, "iso-8859-8": charmap.ISO8859_8,
	"iso-8859-10": charmap.ISO8859_10, "iso-8859-13": charmap.ISO8859_13, "iso-8859-14": charmap.ISO8859_14, "iso-8859-15": charmap.ISO8859_15, "iso-8859-16": charmap.ISO8859_16,
	"koi8-r": charmap.KOI8R, "koi8r": charmap.KOI8R, "koi8-u": charmap.KOI8U, "koi8u": charmap.KOI8U,
	"macintosh": charmap.Macintosh, "macintoshcyrillic": charmap.MacintoshCyrillic, "x-mac-cyrillic": charmap.MacintoshCyrillic,
	"windows-1250": charmap.Windows1250, "windows-1251": charmap.Windows1251, "windows-1252": charmap.Windows1252, "windows-1253": charmap.Windows1253,
	"windows-1254": charmap.Windows1254, "windows-1255": charmap.Windows1255, "windows-1256": charmap.Windows1256, "windows-1257": charmap.Windows1257,
	"windows-1258": charmap.Windows1258, "windows-874": charmap.Windows874, "windows1252": charmap.Windows1252, "windows1251": charmap.Windows1251,
	"x-user-defined": charmap.XUserDefined,
}
var c19List []string

// c19Runes: characters that survive being written in the encoding
var c19Runes = map[string][]rune{}

func c19Init() {
	r := rand.New(rand.NewSource(7))
	for n := range c19Names {
		c19List = append(c19List, n)
	}
	sortStrings(c19List)
	for _, n := range c19List {
		e := c19Names[n]
		var rs []rune
		ok := func(c rune) bool {
			if !xmlChar(c) || c < 0x20 || c == 0xFFFD {
				return false
			}
			b, err := e.NewEncoder().Bytes([]byte("x" + string(c) + "y"))
			if err != nil {
				return false
			}
			d, err := e.NewDecoder().Bytes(b)
			return err == nil && string(d) == "x"+string(c)+"y"
		}
		for c := rune(0x80); c < 0x600; c++ {
			if ok(c) {
				rs = append(rs, c)
			}
		}
		for k := 0; k < 3000; k++ {
			c := rune(0x2000 + r.Intn(0xD000))
			if ok(c) {
				rs = append(rs, c)
			}
		}
		for c := rune(0x3041); c < 0x3060; c++ {
			if ok(c) {
				rs = append(rs, c)
			}
		}
		if len(rs) == 0 {
			rs = []rune{'e'}
		}
		c19Runes[n] = rs
	}
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func randCase(r *rand.Rand, s string) string {
	k := r.Intn(3)
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' && (k == 0 || k == 1 && r.Intn(2) == 0) {
			b[i] = c - 32
		}
	}
	return string(b)
}

func c19Load(t *T, r *rand.Rand) {
	if r.Intn(3) == 0 {
		n := c19List[r.Intn(len(c19List))]
		b := []byte(n)
		switch r.Intn(3) {
		case 0:
			i := r.Intn(len(b))
			b = append(b[:i], b[i+1:]...)
		case 1:
			b = append(b, "x90 "[r.Intn(4)])
		default:
			b[r.Intn(len(b))] = "xq7-"[r.Intn(4)]
		}
		n = pick(r, "utf-16", "ucs-4", "utf-7", "x", "", "iso-8859-99", "windows", "ascii7", "utf_8", "utf", string(b), string(b), string(b), string(b))
		t.Input("%q", n)
		got := encoding.Load(n)
		if w, ok := c19Names[n]; ok {
			if got != w {
				t.Fail("Load(%q) is %v", n, got)
			}
			return
		}
		// either a different spelling of a supported encoding, or nothing
		if got != nil {
			switch n {
			case "jis", "shiftjis", "windows1250", "windows1253", "windows1254", "windows1255", "windows1256", "windows1257", "windows1258", "windows874", "xuserdefined", "x-userdefined", "xuser-defined", "koir8u":
			default:
				t.Fail("Load(%q) is %v", n, got)
			}
			return
		}
		if reEncName.MatchString(n) && len(n) < 30 {
			if _, err := helium.Parse([]byte("<?xml version='1.0' encoding='" + n + "'?><a/>")); err == nil {
				t.Fail("a document in an unknown encoding is accepted")
			}
		}
		return
	}
	n := c19List[r.Intn(len(c19List))]
	s := randCase(r, n)
	t.Input("%q", s)
	if got := encoding.Load(s); got != c19Names[n] {
		t.Fail("Load(%q) is %v, want %v", s, got, c19Names[n])
	}
}

var reEncName = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9._-]*$`)

func c19Encoded(t *T, r *rand.Rand) {
	n := c19List[r.Intn(len(c19List))]
	e := c19Names[n]
	rs := c19Runes[n]
	text := func(k int) string {
		var b strings.Builder
		for i := r.Intn(k + 1); i > 0; i-- {
			switch r.Intn(5) {
			case 0:
				b.WriteRune([]rune("abc ~\\\n_0{}$")[r.Intn(12)])
			default:
				b.WriteRune(rs[r.Intn(len(rs))])
			}
		}
		return b.String()
	}
	withRefs := func(k int) string {
		s := text(k)
		// (the HZ encoder of x/text loses its state at a character it cannot encode)
		if r.Intn(3) == 0 && n != "hz-gb2312" {
			s += fmt.Sprintf("&#x%X;", randRune(r)) + text(3)
		}
		return s
	}
	big := 6
	if r.Intn(10) == 0 {
		big = 3000
	}
	body := pick(r, "", "<!--"+text(5)+" -->", "<?p "+strings.TrimLeft(text(4), " \n")+"?>") +
		"<a x=\"" + withRefs(5) + "\">" + withRefs(big) + pick(r, "", "<![CDATA["+text(5)+"]]>", "<b y='"+text(4)+"'/>"+text(3), "<?q?>"+text(9)) + "</a>" + pick(r, "", "\n", "<!--"+text(2)+"-->")
	name := randCase(r, n)
	q := pick(r, "'", "\"")
	decl := func(n string) string {
		return "<?xml version=" + q + "1.0" + q + " encoding=" + q + n + q + "?>"
	}
	b, err := e.NewEncoder().Bytes([]byte(body))
	if err != nil {
		t.Trivial()
		return
	}
	if d, err := e.NewDecoder().Bytes(b); err != nil || string(d) != body {
		t.Trivial()
		return
	}
	src := decl(name) + string(b)
	if e == unicode.UTF8 && r.Intn(2) == 0 {
		src = "\xef\xbb\xbf" + pick(r, src, body)
	}
	t.Input("%s %q\n%q", name, body, src)
	doc, rec, err := parseRec(src)
	udoc, urec, uerr := parseRec(decl("utf-8") + body)
	if uerr != nil {
		t.Fail("the document in UTF-8 is rejected: %v", uerr)
		return
	}
	if err != nil {
		t.Fail("rejected in %s: %v", name, err)
		return
	}
	if s := diffEvents(merge(rec.ev), merge(urec.ev)); s != "" {
		t.Fail("in %s: %s (that in UTF-8)", name, s)
		return
	}
	if strings.Contains(src, "encoding=") && doc.Encoding() != name {
		t.Fail("the encoding is reported as %q", doc.Encoding())
	}
	out, err := doc.XMLString()
	if err != nil {
		t.Fail("serialising: %v", err)
		return
	}
	if strings.Contains(src, "encoding=") {
		uout, _ := udoc.XMLString()
		d, err := e.NewDecoder().Bytes([]byte(out))
		want := strings.Replace(uout, "encoding=\"utf-8\"", "encoding=\""+name+"\"", 1)
		if err != nil || unrefs(string(d)) != unrefs(want) {
			t.Fail("serialised as %q, which is %q, want %q", out, d, want)
			return
		}
	}
	_, rec2, err := parseRec(out)
	if err != nil {
		t.Fail("the serialised form %q is rejected: %v", out, err)
		return
	}
	if s := diffEvents(noCData(rec2.ev), noCData(rec.ev)); s != "" {
		t.Fail("serialised and read again: %s", s)
	}
}

// noCData: CDATA sections are written as text
func noCData(ev []string) []string {
	var out []string
	for _, e := range ev {
		if strings.HasPrefix(e, "cdata ") {
			e = "text " + e[6:]
		}
		out = append(out, e)
	}
	return merge(out)
}

var reRef = regexp.MustCompile(`&#(x[0-9A-Fa-f]+|[0-9]+);`)

// unrefs writes every character reference to a character outside ASCII in one form
func unrefs(s string) string {
	s = reRef.ReplaceAllStringFunc(s, func(m string) string {
		var c rune
		if m[2] == 'x' {
			fmt.Sscanf(m[3:], "%x", &c)
		} else {
			fmt.Sscanf(m[2:], "%d", &c)
		}
		if c < 0x80 {
			return m
		}
		return string(c)
	})
	return s
}

var reXMLDecl = regexp.MustCompile(`^<\?xml[ \t\r\n]+version[ \t\r\n]*=[ \t\r\n]*('1\.[0-9]+'|"1\.[0-9]+")([ \t\r\n]+encoding[ \t\r\n]*=[ \t\r\n]*('[A-Za-z][A-Za-z0-9._-]*'|"[A-Za-z][A-Za-z0-9._-]*"))?([ \t\r\n]+standalone[ \t\r\n]*=[ \t\r\n]*('yes'|'no'|"yes"|"no"))?[ \t\r\n]*\?>`)

func c19Decl(t *T, r *rand.Rand) {
	ws := func(min int) string {
		s := ""
		for i := 0; i < min || r.Intn(4) == 0; i++ {
			s += pick(r, " ", " ", "\t", "\n", "\r")
			if i > 6 {
				break
			}
		}
		return s
	}
	qt := func(s string) string { q := pick(r, "'", "\""); return q + s + q }
	eq := func() string { return ws(0) + "=" + ws(0) }
	ver := "1." + pick(r, "0", "0", "1", "9", "10", "007")
	parts := []string{"<?xml", ws(1), "version", eq(), qt(ver)}
	en := ""
	if r.Intn(2) == 0 {
		en = randCase(r, pick(r, "utf-8", "utf8", "iso-8859-1"))
		parts = append(parts, ws(1), "encoding", eq(), qt(en))
	}
	sa := ""
	if r.Intn(2) == 0 {
		sa = pick(r, "yes", "no")
		parts = append(parts, ws(1), "standalone", eq(), qt(sa))
	}
	parts = append(parts, ws(0), "?>")
	if r.Intn(2) == 0 {
		// damage it
		for k := 1 + r.Intn(2); k > 0; k-- {
			i := 1 + r.Intn(len(parts)-1)
			switch r.Intn(6) {
			case 0:
				parts[i] = ""
			case 1:
				j := 1 + r.Intn(len(parts)-1)
				parts[i], parts[j] = parts[j], parts[i]
			case 2:
				parts[i] += parts[i]
			case 3:
				parts[i] = pick(r, "'1.0'", "\"yes\"", "'no\"", "'UTF 8'", "'é'", "'-utf'", "''", "1.0", "'1.'", "'.1'", "'1'", "'Yes'", "?", ">", " ", "=", "encoding", "standalone", "version", "'1.0a'", "'yess'", "'8859'", "'utf-8,'")
			case 4:
				b := []byte(parts[i])
				if len(b) > 0 {
					j := r.Intn(len(b))
					b = append(b[:j], b[j+1:]...)
				}
				parts[i] = string(b)
			default:
				b := parts[i]
				j := r.Intn(len(b) + 1)
				parts[i] = b[:j] + pick(r, "x", " ", "'", "0", "?", "-", "A", "=") + b[j:]
			}
		}
	}
	d := strings.Join(parts, "")
	pre := ""
	if r.Intn(4) == 0 {
		pre = "\xef\xbb\xbf"
	}
	src := pre + d + "<a/>"
	t.Input("%q", src)
	m := reXMLDecl.FindStringSubmatch(d + "<a/>")
	doc, _, err := parseRec(src)
	if m == nil || m[0] != strings.TrimRight(d, " \t\r\n") {
		if !strings.HasPrefix(d, "<?xml") || len(d) > 5 && nameChar([]rune(d[5:])[0]) {
			t.Trivial()
			return
		}
		if reLoose.MatchString(d) {
			t.Trivial()
			return
		}
		if err == nil {
			out, _ := doc.XMLString()
			t.Fail("a malformed declaration is accepted, and written as %q", out)
		}
		return
	}
	ver, en, sa = strings.Trim(m[1], "'\""), strings.Trim(m[3], "'\""), strings.Trim(m[5], "'\"")
	if c19Names[strings.ToLower(en)] == nil && en != "" {
		if err == nil {
			t.Fail("a document in an unknown encoding is accepted")
		}
		return
	}
	if err != nil {
		t.Fail("a correct declaration is rejected: %v", err)
		return
	}
	if doc.Version() != ver {
		t.Fail("the version is reported as %q, want %q", doc.Version(), ver)
	}
	wantE := en
	if wantE == "" {
		wantE = "utf8"
	}
	if doc.Encoding() != wantE {
		t.Fail("the encoding is reported as %q, want %q", doc.Encoding(), wantE)
	}
	switch s := doc.Standalone(); sa {
	case "yes":
		if s != helium.StandaloneExplicitYes {
			t.Fail("standalone is reported as %d", s)
		}
	case "no":
		if s != helium.StandaloneExplicitNo {
			t.Fail("standalone is reported as %d", s)
		}
	default:
		if s == helium.StandaloneExplicitNo || s == helium.StandaloneExplicitYes {
			t.Fail("standalone is reported as %d", s)
		}
	}
	want := "<?xml version=\"" + ver + "\""
	if en != "" {
		want += " encoding=\"" + en + "\""
	}
	if sa != "" {
		want += " standalone=\"" + sa + "\""
	}
	want += "?>\n<a/>\n"
	if out, err := doc.XMLString(); err != nil || out != want {
		t.Fail("serialised as %q (%v), want %q", out, err, want)
	}
}

// other major versions are let through by the parser, on purpose
var reLoose = regexp.MustCompile(`version[ \t\r\n]*=[ \t\r\n]*['"][02-9]\.[0-9]`)

func init() {
	c19Init()
	register("C19",
		&Family{Name: "decl", Weight: 4, What: "XML declarations, correct and damaged, after an optional byte-order mark: accepted exactly if correct; version, encoding and standalone reported and written", Run: func(t *T, r *rand.Rand, i int) { c19Decl(t, r) }},
		&Family{Name: "encoded", Weight: 4, What: "a random document written in each supported encoding (names in random case): same events as in UTF-8, same when serialised and read again", Run: func(t *T, r *rand.Rand, i int) { c19Encoded(t, r) }},
		&Family{Name: "names", Weight: 2, What: "names of encodings in random case and altered names, against an independent table", Run: func(t *T, r *rand.Rand, i int) { c19Load(t, r) }},
		docFamily("docs", 1, "random documents with an XML declaration", gOpts{decl: true}, aspects{events: "startdoc enddoc", canon: true, must: true}),
	)
}
