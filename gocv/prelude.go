package main

import (
	"fmt"
	"strings"
)

// The background theory: sequences, interface values, slices, UTF-8.
// Every axiom below is counted and listed in the evidence as trusted.

func seqAxioms(s Sort) string {
	x := sfx(s)
	e := seqElem(s)
	r := strings.NewReplacer("@S", s, "@E", e, "@", x)
	t := r.Replace(`
(declare-sort @S 0)
(declare-fun len@ (@S) Int)
(declare-fun at@ (@S Int) @E)
(declare-fun cat@ (@S @S) @S)
(declare-fun sub@ (@S Int Int) @S)
(declare-fun upd@ (@S Int @E) @S)
(declare-fun unit@ (@E) @S)
(declare-fun rep@ (@E Int) @S)
(declare-const emp@ @S)
(declare-fun seqeq@ (@S @S) Bool)
(assert (! (forall ((s @S)) (! (>= (len@ s) 0) :pattern ((len@ s)))) :named ax_len_nonneg@))
(assert (! (= (len@ emp@) 0) :named ax_len_emp@))
(assert (! (forall ((s @S)) (! (=> (= (len@ s) 0) (= s emp@)) :pattern ((len@ s)))) :named ax_len0@))
(assert (! (forall ((e @E)) (! (= (len@ (unit@ e)) 1) :pattern ((unit@ e)))) :named ax_len_unit@))
(assert (! (forall ((e @E)) (! (= (at@ (unit@ e) 0) e) :pattern ((unit@ e)))) :named ax_at_unit@))
(assert (! (forall ((a @S)(b @S)) (! (= (len@ (cat@ a b)) (+ (len@ a) (len@ b))) :pattern ((cat@ a b)))) :named ax_len_cat@))
(assert (! (forall ((a @S)(b @S)(i Int)) (! (=> (and (<= 0 i) (< i (+ (len@ a) (len@ b)))) (= (at@ (cat@ a b) i) (ite (< i (len@ a)) (at@ a i) (at@ b (- i (len@ a)))))) :pattern ((at@ (cat@ a b) i)))) :named ax_at_cat@))
(assert (! (forall ((s @S)(i Int)(j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (len@ s))) (= (len@ (sub@ s i j)) (- j i))) :pattern ((sub@ s i j)))) :named ax_len_sub@))
(assert (! (forall ((s @S)(i Int)(j Int)(k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (len@ s)) (<= 0 k) (< k (- j i))) (= (at@ (sub@ s i j) k) (at@ s (+ i k)))) :pattern ((at@ (sub@ s i j) k)))) :named ax_at_sub@))
(assert (! (forall ((s @S)(i Int)(j Int)) (! (=> (and (= i 0) (= j (len@ s))) (= (sub@ s i j) s)) :pattern ((sub@ s i j)))) :named ax_sub_full@))
(assert (! (forall ((s @S)(i Int)(j Int)) (! (=> (= i j) (= (sub@ s i j) emp@)) :pattern ((sub@ s i j)))) :named ax_sub_nil@))
(assert (! (forall ((s @S)(i Int)(j Int)(k Int)(l Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (len@ s)) (<= 0 k) (<= k l) (<= l (- j i)) (not (and (= i 0) (= j (len@ s)))) (not (and (= k 0) (= l (- j i))))) (= (sub@ (sub@ s i j) k l) (sub@ s (+ i k) (+ i l)))) :pattern ((sub@ (sub@ s i j) k l)))) :named ax_sub_sub@))
(assert (! (forall ((a @S)(b @S)(c @S)) (! (= (cat@ (cat@ a b) c) (cat@ a (cat@ b c))) :pattern ((cat@ (cat@ a b) c)))) :named ax_cat_assoc@))
(assert (! (forall ((a @S)) (! (= (cat@ emp@ a) a) :pattern ((cat@ emp@ a)))) :named ax_cat_empl@))
(assert (! (forall ((a @S)) (! (= (cat@ a emp@) a) :pattern ((cat@ a emp@)))) :named ax_cat_empr@))
(assert (! (forall ((s @S)(i Int)(j Int)(k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j k) (<= k (len@ s))) (= (cat@ (sub@ s i j) (sub@ s j k)) (sub@ s i k))) :pattern ((cat@ (sub@ s i j) (sub@ s j k))))) :named ax_sub_adj@))
(assert (! (forall ((s @S)(i Int)(j Int)(k Int)(x @S)) (! (=> (and (<= 0 i) (<= i j) (<= j k) (<= k (len@ s))) (= (cat@ (sub@ s i j) (cat@ (sub@ s j k) x)) (cat@ (sub@ s i k) x))) :pattern ((cat@ (sub@ s i j) (cat@ (sub@ s j k) x))))) :named ax_sub_adj2@))
(assert (! (forall ((a @S)(b @S)(i Int)(j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (+ (len@ a) (len@ b)))) (= (sub@ (cat@ a b) i j) (ite (<= j (len@ a)) (sub@ a i j) (ite (>= i (len@ a)) (sub@ b (- i (len@ a)) (- j (len@ a))) (cat@ (sub@ a i (len@ a)) (sub@ b 0 (- j (len@ a)))))))) :pattern ((sub@ (cat@ a b) i j)))) :named ax_sub_cat@))
(assert (! (forall ((s @S)(i Int)(e @E)) (! (=> (and (<= 0 i) (< i (len@ s))) (= (len@ (upd@ s i e)) (len@ s))) :pattern ((upd@ s i e)))) :named ax_len_upd@))
(assert (! (forall ((s @S)(i Int)(e @E)(k Int)) (! (=> (and (<= 0 i) (< i (len@ s)) (<= 0 k) (< k (len@ s))) (= (at@ (upd@ s i e) k) (ite (= k i) e (at@ s k)))) :pattern ((at@ (upd@ s i e) k)))) :named ax_at_upd@))
(assert (! (forall ((s @S)(i Int)(e @E)(j Int)(k Int)) (! (=> (and (<= 0 i) (< i (len@ s)) (<= 0 j) (<= j k) (<= k (len@ s)) (or (< i j) (>= i k))) (= (sub@ (upd@ s i e) j k) (sub@ s j k))) :pattern ((sub@ (upd@ s i e) j k)))) :named ax_sub_upd@))
(assert (! (forall ((s @S)(i Int)(e @E)(j Int)(k Int)) (! (=> (and (<= 0 j) (<= j i) (< i k) (<= k (len@ s))) (= (sub@ (upd@ s i e) j k) (upd@ (sub@ s j k) (- i j) e))) :pattern ((sub@ (upd@ s i e) j k)))) :named ax_sub_upd_in@))
(assert (! (forall ((a @S)(b @S)) (! (= (seqeq@ a b) (and (= (len@ a) (len@ b)) (forall ((i Int)) (! (=> (and (<= 0 i) (< i (len@ a))) (= (at@ a i) (at@ b i))) :pattern ((at@ a i)) :pattern ((at@ b i)))))) :pattern ((seqeq@ a b)))) :named ax_seqeq@))
(assert (! (forall ((a @S)(b @S)) (! (=> (seqeq@ a b) (= a b)) :pattern ((seqeq@ a b)))) :named ax_ext@))
(assert (! (forall ((s @S)(i Int)(j Int)) (! (=> (and (<= 0 i) (= j (+ i 1)) (<= j (len@ s))) (= (sub@ s i j) (unit@ (at@ s i)))) :pattern ((sub@ s i j)))) :named ax_sub_one@))
(assert (! (forall ((e @E)(n Int)) (! (=> (>= n 0) (= (len@ (rep@ e n)) n)) :pattern ((rep@ e n)))) :named ax_len_rep@))
(assert (! (forall ((e @E)(n Int)(i Int)) (! (=> (and (<= 0 i) (< i n)) (= (at@ (rep@ e n) i) e)) :pattern ((at@ (rep@ e n) i)))) :named ax_at_rep@))
`)
	return t
}

const basePrelude = `
(declare-datatypes ((Iface 0)) (((mk-iface (itag Int) (ival Int)))))
(declare-datatypes ((Slice 0)) (((mk-slice (sarr Int) (soff Int) (slen Int) (scap Int)))))
(declare-fun dyn (Int) Int)
`

const utf8Prelude = `
(declare-fun dr (Seq_) Int)
(declare-fun dw (Seq_) Int)
(declare-fun enc (Int) Seq_)
(define-fun validrune ((r Int)) Bool (and (<= 0 r) (<= r 1114111) (not (and (<= 55296 r) (<= r 57343)))))
(assert (! (forall ((s Seq_)) (! (=> (> (len s) 0) (and (<= 1 (dw s)) (<= (dw s) 4) (<= (dw s) (len s)) (validrune (dr s)))) :pattern ((dw s)) :pattern ((dr s)))) :named ax_utf8_width))
(assert (! (forall ((s Seq_)) (! (=> (and (> (len s) 0) (< (at s 0) 128) (<= 0 (at s 0))) (and (= (dw s) 1) (= (dr s) (at s 0)))) :pattern ((dw s)) :pattern ((dr s)))) :named ax_utf8_ascii))
(assert (! (forall ((s Seq_)) (! (=> (and (> (len s) 0) (>= (at s 0) 128)) (>= (dr s) 128)) :pattern ((dr s)))) :named ax_utf8_nonascii))
(assert (! (forall ((s Seq_)) (! (=> (and (> (len s) 0) (<= 0 (at s 0))) (or (< (dr s) 128) (>= (at s 0) 128))) :pattern ((dr s)))) :named ax_utf8_nonascii2))
(assert (! (forall ((s Seq_)) (! (=> (= (len s) 0) (and (= (dr s) 65533) (= (dw s) 0))) :pattern ((dw s)) :pattern ((dr s)))) :named ax_utf8_empty))
(assert (! (forall ((s Seq_)) (! (=> (and (> (len s) 0) (not (and (= (dr s) 65533) (= (dw s) 1)))) (and (= (sub s 0 (dw s)) (enc (dr s))) (= (dw s) (len (enc (dr s)))))) :pattern ((dw s)) :pattern ((dr s)))) :named ax_utf8_valid))
(assert (! (forall ((r Int)) (! (=> (and (<= 0 r) (< r 128)) (= (enc r) (unit r))) :pattern ((enc r)))) :named ax_enc_ascii))
(assert (! (forall ((r Int)) (! (=> (validrune r) (and (<= 1 (len (enc r))) (<= (len (enc r)) 4))) :pattern ((enc r)))) :named ax_enc_len))
(assert (! (forall ((r Int)) (! (=> (and (validrune r) (>= r 128)) (and (>= (len (enc r)) 2) (>= (at (enc r) 0) 128))) :pattern ((enc r)))) :named ax_enc_nonascii))
(assert (! (forall ((r Int)(k Int)) (! (=> (and (validrune r) (>= r 128) (<= 0 k) (< k (len (enc r)))) (and (<= 128 (at (enc r) k)) (<= (at (enc r) k) 255))) :pattern ((at (enc r) k)))) :named ax_enc_nonascii_all))
(assert (! (forall ((r Int)) (! (=> (not (validrune r)) (= (enc r) (enc 65533))) :pattern ((enc r)))) :named ax_enc_invalid))
(assert (! (forall ((r Int)(x Seq_)) (! (=> (validrune r) (and (= (dr (cat (enc r) x)) r) (= (dw (cat (enc r) x)) (len (enc r))))) :pattern ((cat (enc r) x)))) :named ax_dec_enc))
(assert (! (forall ((r Int)) (! (=> (validrune r) (and (= (dr (enc r)) r) (= (dw (enc r)) (len (enc r))))) :pattern ((enc r)))) :named ax_dec_enc0))
`

func litDecls(used func(string) bool) string {
	var b strings.Builder
	var names []string
	byName := map[string]*litInfo{}
	for _, l := range lits {
		byName[l.name] = l
		names = append(names, l.name)
	}
	sortStrings(names)
	for _, n := range names {
		l := byName[n]
		if !used(n) {
			continue
		}
		fmt.Fprintf(&b, "(declare-const %s Seq_)\n(assert (= (len %s) %d))\n", n, n, len(l.val))
		for i := 0; i < len(l.val); i++ {
			fmt.Fprintf(&b, "(assert (= (at %s %d) %d))\n", n, i, l.val[i])
		}
		if len(l.val) == 1 {
			fmt.Fprintf(&b, "(assert (= %s (unit %d)))\n", n, l.val[0])
		}
	}
	return b.String()
}
