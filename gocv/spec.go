package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"unicode"
)

// ---------- AST

type Expr interface{}

type EIdent struct{ name string }
type EInt struct{ v int64 }
type EStr struct{ v string }
type EBin struct {
	op   string
	l, r Expr
}
type EUn struct {
	op string
	x  Expr
}
type ECall struct {
	fn   string
	args []Expr
}
type EIndex struct{ x, i Expr }
type ESlice struct{ x, lo, hi Expr }
type EField struct {
	x Expr
	f string
}
type ECast struct {
	x  Expr
	ty string
}
type EIs struct {
	x  Expr
	ty string
}
type EQuant struct {
	kind string
	vars []Param
	pats [][]Expr
	body Expr
}
type ECond struct{ c, a, b Expr }
type EOld struct{ x Expr }
type ELet struct {
	name string
	e, b Expr
}

type Param struct {
	name string
	ty   string
}

type Clause struct {
	kind  string // requires ensures modifies use invariant decreases
	label string
	vars  []Param // holes of an invariant
	e     Expr
	src   string
	pos   string
	use   *ECall
}

type LoopSpec struct {
	ord     int // 0 = any loop
	clauses []Clause
}

type Contract struct {
	name    string
	pos     string
	params  []Param
	results []Param
	trusted bool
	iface   bool
	pure    bool
	why     string
	clauses []Clause
	loops   []LoopSpec
	mods    []Expr
	modAll  bool
	used    bool
	opts    map[string]string
	typ     string // for functype contracts
}

type SpecFn struct {
	name    string
	pos     string
	params  []Param
	ret     string
	body    Expr
	macro   bool
	abs     bool // uninterpreted
	dec     Expr
	heaps   []string
	hsorts  map[string]Sort
	scc     int
	rec     bool
	axioms  []string
	callees map[string]bool
}

type Lemma struct {
	name    string
	pos     string
	params  []Param
	clauses []Clause // requires, ensures
	dec     Expr
	inducts []*ECall
	uses    []*ECall
	asserts []Expr
	cases   []Expr
	auto    [][]Expr
	isAxiom bool
	why     string
	order   int
	state   bool
}

type PropSpec struct {
	id     string
	funcs  []string
	lemmas []string
}

type Specs struct {
	contracts map[string]*Contract
	fns       map[string]*SpecFn
	lemmas    map[string]*Lemma
	lemmaList []*Lemma
	fnList    []*SpecFn
	ghosts    map[string]Sort
	bases     map[string]string
	modsets   map[string][]Expr
	props     map[string]*PropSpec
	pkg       string
}

// ---------- lexer

type tok struct {
	k    string // id int str chr op eof
	s    string
	line int
	bol  bool
	col  int
}

func lex(src string, file string) ([]tok, error) {
	var out []tok
	line := 1
	bol := true
	col := 0
	rs := []rune(src)
	ops := []string{"==>", "<==>", "::", "++", "&&", "||", "==", "!=", "<=", ">="}
	for i := 0; i < len(rs); {
		c := rs[i]
		switch {
		case c == '\n':
			line++
			bol = true
			col = 0
			i++
			continue
		case c == ' ' || c == '\t' || c == '\r':
			i++
			col++
			continue
		case c == '/' && i+1 < len(rs) && rs[i+1] == '/':
			for i < len(rs) && rs[i] != '\n' {
				i++
			}
			continue
		case unicode.IsLetter(c) || c == '_':
			j := i
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_') {
				j++
			}
			out = append(out, tok{"id", string(rs[i:j]), line, bol, col})
			i = j
		case unicode.IsDigit(c):
			j := i
			for j < len(rs) && (unicode.IsDigit(rs[j]) || unicode.IsLetter(rs[j])) {
				j++
			}
			out = append(out, tok{"int", string(rs[i:j]), line, bol, col})
			i = j
		case c == '"':
			j := i + 1
			for j < len(rs) && rs[j] != '"' {
				if rs[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(string(rs[i : j+1]))
			if err != nil {
				return nil, fmt.Errorf("%s:%d: bad string", file, line)
			}
			out = append(out, tok{"str", s, line, bol, col})
			i = j + 1
		case c == '`':
			j := i + 1
			for rs[j] != '`' {
				j++
			}
			out = append(out, tok{"str", string(rs[i+1 : j]), line, bol, col})
			i = j + 1
		case c == '\'':
			j := i + 1
			for rs[j] != '\'' {
				if rs[j] == '\\' {
					j++
				}
				j++
			}
			s, _, _, err := strconv.UnquoteChar(string(rs[i+1:j]), '\'')
			if err != nil {
				return nil, fmt.Errorf("%s:%d: bad char", file, line)
			}
			out = append(out, tok{"int", strconv.Itoa(int(s)), line, bol, col})
			i = j + 1
		default:
			m := ""
			for _, o := range ops {
				if strings.HasPrefix(string(rs[i:min(i+4, len(rs))]), o) && len(o) > len(m) {
					m = o
				}
			}
			if m == "" {
				m = string(c)
			}
			out = append(out, tok{"op", m, line, bol, col})
			i += len([]rune(m))
		}
		bol = false
		col++
	}
	out = append(out, tok{"eof", "", line, true, 0})
	return out, nil
}

type parser struct {
	file string
	toks []tok
	p    int
	sp   *Specs
}

func (p *parser) peek() tok { return p.toks[p.p] }
func (p *parser) next() tok { t := p.toks[p.p]; p.p++; return t }
func (p *parser) fail(f string, a ...interface{}) {
	panic(fmt.Errorf("%s:%d: %s", p.file, p.peek().line, fmt.Sprintf(f, a...)))
}
func (p *parser) isOp(s string) bool { t := p.peek(); return t.k == "op" && t.s == s }
func (p *parser) isId(s string) bool { t := p.peek(); return t.k == "id" && t.s == s }
func (p *parser) accept(s string) bool {
	t := p.peek()
	if (t.k == "op" || t.k == "id") && t.s == s {
		p.p++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q, found %q", s, p.peek().s)
	}
}
func (p *parser) ident() string {
	t := p.next()
	if t.k != "id" {
		p.p--
		p.fail("expected identifier, found %q", t.s)
	}
	return t.s
}
func (p *parser) pos() string { return fmt.Sprintf("%s:%d", filepath.Base(p.file), p.peek().line) }

func (p *parser) dotted() string {
	s := p.ident()
	for p.isOp(".") {
		p.next()
		s += "." + p.ident()
	}
	return s
}

// type: [*] [ '[]' ] dotted
func (p *parser) typ() string {
	s := ""
	for {
		if p.accept("*") {
			s += "*"
		} else if p.isOp("[") && p.toks[p.p+1].s == "]" {
			p.next()
			p.next()
			s += "[]"
		} else {
			break
		}
	}
	if p.isId("map") {
		p.next()
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return s + "map[" + k + "]" + p.typ()
	}
	return s + p.dotted()
}

func (p *parser) params() []Param {
	var out []Param
	p.expect("(")
	for !p.isOp(")") {
		n := p.ident()
		ty := ""
		if !p.isOp(",") && !p.isOp(")") {
			ty = p.typ()
		}
		out = append(out, Param{n, ty})
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	return out
}

// ---------- expressions

var topKw = map[string]bool{"package": true, "macro": true, "spec": true, "lemma": true, "axiom": true, "ghost": true, "trusted": true, "func": true, "iface": true, "functype": true, "property": true, "base": true, "modset": true}
var clauseKw = map[string]bool{"requires": true, "ensures": true, "modifies": true, "pure": true, "loop": true, "invariant": true, "decreases": true, "use": true, "induct": true, "auto": true, "assert": true, "case": true, "why": true, "option": true}

func (p *parser) expr() Expr { return p.cond() }

func (p *parser) cond() Expr {
	if p.isId("forall") || p.isId("exists") {
		k := p.next().s
		var vs []Param
		for {
			n := p.ident()
			ty := p.typ()
			vs = append(vs, Param{n, ty})
			if !p.accept(",") {
				break
			}
		}
		var pats [][]Expr
		for p.accept("{") {
			var ps []Expr
			for {
				ps = append(ps, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			pats = append(pats, ps)
		}
		p.expect("::")
		return &EQuant{k, vs, pats, p.cond()}
	}
	if p.isId("let") {
		p.next()
		n := p.ident()
		p.expect("=")
		e := p.cond()
		p.expect("in")
		return &ELet{n, e, p.cond()}
	}
	c := p.imp()
	if p.accept("?") {
		a := p.cond()
		p.expect(":")
		b := p.cond()
		return &ECond{c, a, b}
	}
	return c
}

func (p *parser) imp() Expr {
	l := p.or()
	if p.accept("==>") {
		if p.isId("forall") || p.isId("exists") || p.isId("let") {
			return &EBin{"==>", l, p.cond()}
		}
		return &EBin{"==>", l, p.imp()}
	}
	if p.accept("<==>") {
		return &EBin{"<==>", l, p.imp()}
	}
	return l
}
func (p *parser) or() Expr {
	l := p.and()
	for p.accept("||") {
		l = &EBin{"||", l, p.and()}
	}
	return l
}
func (p *parser) and() Expr {
	l := p.cmp()
	for p.accept("&&") {
		if p.isId("forall") || p.isId("exists") {
			l = &EBin{"&&", l, p.cond()}
			continue
		}
		l = &EBin{"&&", l, p.cmp()}
	}
	return l
}
func (p *parser) cmp() Expr {
	l := p.add()
	var res Expr
	for {
		t := p.peek()
		if t.k == "op" && (t.s == "==" || t.s == "!=" || t.s == "<" || t.s == "<=" || t.s == ">" || t.s == ">=") {
			p.next()
			r := p.add()
			c := &EBin{t.s, l, r}
			if res == nil {
				res = c
			} else {
				res = &EBin{"&&", res, c}
			}
			l = r
			continue
		}
		if p.isId("in") && false {
			continue
		}
		break
	}
	if res != nil {
		return res
	}
	return l
}
func (p *parser) add() Expr {
	l := p.mul()
	for {
		t := p.peek()
		if t.k == "op" && (t.s == "+" || t.s == "-" || t.s == "++") {
			p.next()
			l = &EBin{t.s, l, p.mul()}
			continue
		}
		return l
	}
}
func (p *parser) mul() Expr {
	l := p.unary()
	for {
		t := p.peek()
		if t.k == "op" && (t.s == "*" || t.s == "/" || t.s == "%") && !t.bol {
			p.next()
			l = &EBin{t.s, l, p.unary()}
			continue
		}
		return l
	}
}
func (p *parser) unary() Expr {
	if p.accept("!") {
		return &EUn{"!", p.unary()}
	}
	if p.accept("-") {
		return &EUn{"-", p.unary()}
	}
	if p.isOp("*") {
		p.next()
		return &EUn{"*", p.unary()}
	}
	return p.postfix()
}
func (p *parser) postfix() Expr {
	x := p.primary()
	for {
		switch {
		case p.isOp("."):
			p.next()
			if p.accept("(") {
				ty := p.typ()
				p.expect(")")
				x = &ECast{x, ty}
				continue
			}
			x = &EField{x, p.ident()}
		case p.isOp("["):
			p.next()
			if p.accept(":") {
				hi := p.expr()
				p.expect("]")
				x = &ESlice{x, nil, hi}
				continue
			}
			i := p.expr()
			if p.accept(":") {
				if p.accept("]") {
					x = &ESlice{x, i, nil}
					continue
				}
				hi := p.expr()
				p.expect("]")
				x = &ESlice{x, i, hi}
				continue
			}
			p.expect("]")
			x = &EIndex{x, i}
		default:
			return x
		}
	}
}
func (p *parser) primary() Expr {
	t := p.next()
	switch t.k {
	case "int":
		n, err := strconv.ParseInt(t.s, 0, 64)
		if err != nil {
			p.fail("bad int %q", t.s)
		}
		return &EInt{n}
	case "str":
		return &EStr{t.s}
	case "op":
		if t.s == "(" {
			e := p.expr()
			p.expect(")")
			return e
		}
	case "id":
		if t.s == "old" && p.isOp("(") {
			p.next()
			e := p.expr()
			p.expect(")")
			return &EOld{e}
		}
		if t.s == "is" && p.isOp("(") {
			p.next()
			e := p.expr()
			p.expect(",")
			ty := p.typ()
			p.expect(")")
			return &EIs{e, ty}
		}
		if p.isOp("(") {
			p.next()
			var args []Expr
			for !p.isOp(")") {
				args = append(args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			return &ECall{t.s, args}
		}
		return &EIdent{t.s}
	}
	p.p--
	p.fail("unexpected %q in expression", t.s)
	return nil
}

// ---------- declarations

func (p *parser) srcFrom(start int) string {
	var b strings.Builder
	for i := start; i < p.p; i++ {
		t := p.toks[i]
		if i > start && (t.k != "op" || p.toks[i-1].k != "op") && t.s != "(" && t.s != ")" && t.s != "," && t.s != "." && t.s != "[" && t.s != "]" && p.toks[i-1].s != "(" && p.toks[i-1].s != "." && p.toks[i-1].s != "[" {
			b.WriteByte(' ')
		}
		if t.k == "str" {
			b.WriteString(strconv.Quote(t.s))
		} else {
			b.WriteString(t.s)
		}
	}
	return b.String()
}

func (p *parser) call() *ECall {
	n := p.ident()
	p.expect("(")
	var args []Expr
	for !p.isOp(")") {
		args = append(args, p.expr())
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	return &ECall{n, args}
}

func (p *parser) clause(kind string) Clause {
	c := Clause{kind: kind, pos: p.pos()}
	if p.accept("@") {
		t := p.next()
		c.label = t.s
		for p.isOp("-") || p.isOp(".") {
			p.next()
			c.label += "." + p.next().s
		}
		p.expect(":")
	}
	if kind == "invariant" || kind == "decreases" {
		if p.isOp("[") {
			p.next()
			for !p.isOp("]") {
				n := p.ident()
				ty := p.typ()
				c.vars = append(c.vars, Param{n, ty})
				if !p.accept(",") {
					break
				}
			}
			p.expect("]")
		}
	}
	st := p.p
	c.e = p.expr()
	c.src = p.srcFrom(st)
	return c
}

func (p *parser) parseFile() {
	for {
		t := p.peek()
		if t.k == "eof" {
			return
		}
		if t.k != "id" || !topKw[t.s] {
			p.fail("expected a declaration, found %q", t.s)
		}
		p.next()
		switch t.s {
		case "package":
			p.sp.pkg = p.ident()
		case "base":
			i := p.dotted()
			p.sp.bases[i] = p.dotted()
		case "modset":
			n := p.ident()
			p.expect("=")
			for {
				p.sp.modsets[n] = append(p.sp.modsets[n], p.expr())
				if !p.accept(",") {
					break
				}
			}
		case "ghost":
			n := p.ident()
			ty := p.typ()
			p.sp.ghosts[n] = specSort(ty)
		case "macro", "spec":
			f := &SpecFn{macro: t.s == "macro", pos: p.pos()}
			f.name = p.ident()
			f.params = p.params()
			f.ret = p.typ()
			if p.accept("decreases") {
				f.dec = p.expr()
			}
			if p.accept("=") {
				f.body = p.expr()
			} else {
				f.abs = true
			}
			if p.sp.fns[f.name] != nil {
				p.fail("duplicate spec %s", f.name)
			}
			p.sp.fns[f.name] = f
			p.sp.fnList = append(p.sp.fnList, f)
		case "lemma", "axiom":
			l := &Lemma{isAxiom: t.s == "axiom", pos: p.pos()}
			l.name = p.ident()
			if p.accept("!") {
				l.state = true
			}
			l.params = p.params()
			p.lemmaBody(l)
			l.order = len(p.sp.lemmaList)
			p.sp.lemmas[l.name] = l
			p.sp.lemmaList = append(p.sp.lemmaList, l)
		case "trusted":
			p.expect("func")
			p.contract(true, false, false)
		case "func":
			p.contract(false, false, false)
		case "iface":
			p.contract(p.accept("trusted"), true, false)
		case "functype":
			p.contract(true, false, true)
		case "property":
			ps := &PropSpec{id: p.ident()}
			if old := p.sp.props[ps.id]; old != nil {
				ps = old
			}
			for {
				if p.accept("funcs") {
					for {
						ps.funcs = append(ps.funcs, p.dotted())
						if !p.accept(",") {
							break
						}
					}
				} else if p.accept("lemmas") {
					for {
						ps.lemmas = append(ps.lemmas, p.ident())
						if !p.accept(",") {
							break
						}
					}
				} else {
					break
				}
			}
			p.sp.props[ps.id] = ps
		}
	}
}

func (p *parser) lemmaBody(l *Lemma) {
	for {
		t := p.peek()
		if t.k != "id" || !clauseKw[t.s] {
			return
		}
		p.next()
		switch t.s {
		case "requires", "ensures":
			l.clauses = append(l.clauses, p.clause(t.s))
		case "decreases":
			l.dec = p.expr()
		case "induct":
			l.inducts = append(l.inducts, p.call())
		case "use":
			l.uses = append(l.uses, p.call())
		case "assert":
			l.asserts = append(l.asserts, p.expr())
		case "case":
			l.cases = append(l.cases, p.expr())
		case "why":
			l.why = p.next().s
		case "auto":
			p.expect("{")
			var ps []Expr
			for {
				ps = append(ps, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			l.auto = append(l.auto, ps)
		default:
			p.fail("unexpected %q in lemma", t.s)
		}
	}
}

func (p *parser) contract(trusted, iface, ftype bool) {
	c := &Contract{trusted: trusted, iface: iface, pos: p.pos(), opts: map[string]string{}}
	c.name = p.dotted()
	if ftype {
		c.typ = c.name
	}
	if !strings.Contains(c.name, ".") {
		c.name = p.sp.pkg + "." + c.name
	}
	c.params = p.params()
	if p.isOp("(") {
		c.results = p.params()
	}
	var loop *LoopSpec
	flush := func() {
		if loop != nil {
			c.loops = append(c.loops, *loop)
			loop = nil
		}
	}
	for {
		t := p.peek()
		if t.k != "id" || !clauseKw[t.s] {
			break
		}
		p.next()
		switch t.s {
		case "requires", "ensures":
			flush()
			c.clauses = append(c.clauses, p.clause(t.s))
		case "invariant", "decreases":
			cl := p.clause(t.s)
			if loop != nil {
				loop.clauses = append(loop.clauses, cl)
			} else {
				c.clauses = append(c.clauses, cl)
			}
		case "use":
			cl := Clause{kind: "use", pos: p.pos()}
			cl.use = p.call()
			if loop != nil {
				loop.clauses = append(loop.clauses, cl)
			} else {
				c.clauses = append(c.clauses, cl)
			}
		case "assert":
			c.clauses = append(c.clauses, p.clause("assert"))
		case "modifies":
			flush()
			if p.isOp("*") && p.toks[p.p+1].bol {
				p.next()
				c.modAll = true
				break
			}
			for {
				c.mods = append(c.mods, p.expr())
				if !p.accept(",") {
					break
				}
			}
		case "pure":
			flush()
			c.pure = true
		case "why":
			c.why = p.next().s
		case "option":
			k := p.ident()
			v := "1"
			if p.accept("=") {
				v = p.next().s
				for p.accept(",") {
					v += "," + p.next().s
				}
			}
			c.opts[k] = v
		case "loop":
			flush()
			loop = &LoopSpec{}
			if p.peek().k == "int" {
				n, _ := strconv.Atoi(p.next().s)
				loop.ord = n
			}
		default:
			p.fail("unexpected clause %q", t.s)
		}
	}
	flush()
	if p.sp.contracts[c.name] != nil {
		p.fail("duplicate contract %s", c.name)
	}
	p.sp.contracts[c.name] = c
}

func specSort(ty string) Sort {
	switch ty {
	case "int", "ref", "rune", "byte":
		return SInt
	case "bool":
		return SBool
	case "seq", "string":
		return SSeq
	case "seqf":
		return SSeqF
	case "seqs":
		return SSeqS
	case "iface":
		return SIface
	case "slice":
		return SSlice
	}
	panic(fmt.Errorf("unknown spec sort %q", ty))
}

func loadSpecs(dir string) (sp *Specs, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	sp = &Specs{contracts: map[string]*Contract{}, fns: map[string]*SpecFn{}, lemmas: map[string]*Lemma{}, ghosts: map[string]Sort{}, bases: map[string]string{}, modsets: map[string][]Expr{}, props: map[string]*PropSpec{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gcv"))
	sortStrings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		toks, err := lex(string(b), f)
		if err != nil {
			return nil, err
		}
		p := &parser{file: f, toks: toks, sp: sp}
		p.parseFile()
	}
	return sp, nil
}
