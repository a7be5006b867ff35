package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// String operations: uninterpreted functions with a few axioms (abstract
// mode) or the SMT string theory.

func (u *Unit) ss() Sort { return u.ctx.strSort() }

func (u *Unit) strLen(s T) T {
	if u.ctx.theory {
		return app(SInt, "str.len", s)
	}
	return app(SInt, "strlen", s)
}
func (u *Unit) strCat(a, b T) T {
	if u.ctx.theory {
		if a.S == `""` {
			return b
		}
		if b.S == `""` {
			return a
		}
		return app("String", "str.++", a, b)
	}
	if a.S == "lit_empty" {
		return b
	}
	if b.S == "lit_empty" {
		return a
	}
	if strings.HasPrefix(a.S, "lit_") && strings.HasPrefix(b.S, "lit_") {
		x, ok1 := u.ctx.litText(a)
		y, ok2 := u.ctx.litText(b)
		if ok1 && ok2 {
			return u.ctx.strLit(x + y)
		}
	}
	return app("Str", "strcat", a, b)
}
func (u *Unit) strLt(a, b T) T {
	if u.ctx.theory {
		return app(SBool, "str.<", a, b)
	}
	return app(SBool, "strlt", a, b)
}
func (u *Unit) strAt(s, i T) T {
	if u.ctx.theory {
		return app(SInt, "str.to_code", app("String", "str.at", s, i))
	}
	return app(SInt, "strat", s, i)
}
func (u *Unit) substr(s, lo, hi T) T {
	if u.ctx.theory {
		ln := app(SInt, "-", hi, lo)
		if lo.S == "0" {
			ln = hi
		}
		return app("String", "str.substr", s, lo, ln)
	}
	u.ctx.axiomOnce("substrlen", "(assert (forall ((s Str)(a Int)(b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (strlen s))) (= (strlen (substr s a b)) (- b a))) :pattern ((substr s a b)))))")
	return app("Str", "substr", s, lo, hi)
}

func (u *Unit) itoa(n T) T {
	if u.ctx.theory {
		return mkIte(app(SBool, ">=", n, intT(0)), app("String", "str.from_int", n), u.strCat(T{`"-"`, "String"}, app("String", "str.from_int", app(SInt, "-", n))))
	}
	t := u.ctx.uf("strconv.Itoa", u.ss(), n)
	u.ctx.fun("strconv.Atoi.ok", []Sort{"Str"}, SBool)
	u.ctx.fun("strconv.Atoi", []Sort{"Str"}, SInt)
	u.ctx.axiomOnce("itoa", "(assert (forall ((n Int)) (! (and (strconv.Atoi.ok (strconv.Itoa n)) (= (strconv.Atoi (strconv.Itoa n)) n) (> (strlen (strconv.Itoa n)) 0)) :pattern ((strconv.Itoa n)))))")
	return t
}

// pureLib models a side-effect-free library function of scalar arguments.
// ok=false when the function is not known.
func (u *Unit) pureLib(key string, a []T) (T, bool) {
	s := u.ss()
	th := u.ctx.theory
	uf := func(res Sort) (T, bool) { return u.ctx.uf(key, res, a...), true }
	switch key {
	case "strings.HasPrefix":
		if th {
			return app(SBool, "str.prefixof", a[1], a[0]), true
		}
		u.ctx.fun("strings.HasPrefix", []Sort{s, s}, SBool)
		u.ctx.axiomOnce("hasprefix", "(assert (forall ((s Str)(t Str)) (! (strings.HasPrefix (strcat s t) s) :pattern ((strcat s t)))))\n(assert (forall ((s Str)) (! (strings.HasPrefix s lit_empty) :pattern ((strings.HasPrefix s lit_empty)))))\n(assert (forall ((s Str)(t Str)) (! (=> (strings.HasPrefix s t) (<= (strlen t) (strlen s))) :pattern ((strings.HasPrefix s t)))))")
		return uf(SBool)
	case "strings.HasSuffix":
		if th {
			return app(SBool, "str.suffixof", a[1], a[0]), true
		}
		return uf(SBool)
	case "strings.Contains":
		if th {
			return app(SBool, "str.contains", a[0], a[1]), true
		}
		return uf(SBool)
	case "strings.Index":
		if th {
			return app(SInt, "str.indexof", a[0], a[1], intT(0)), true
		}
		return uf(SInt)
	case "strings.ReplaceAll":
		if th {
			return app("String", "str.replace_all", a[0], a[1], a[2]), true
		}
		return uf(s)
	case "strings.EqualFold", "strings.ContainsAny", "strings.ContainsRune":
		return uf(SBool)
	case "strings.LastIndex":
		t := u.ctx.uf(key, SInt, a...)
		if !th {
			u.ctx.axiomOnce("lastindex", "(assert (forall ((s Str)(t Str)) (! (and (>= (strings.LastIndex s t) (- 1)) (=> (>= (strings.LastIndex s t) 0) (<= (+ (strings.LastIndex s t) (strlen t)) (strlen s)))) :pattern ((strings.LastIndex s t)))))")
		}
		return t, true
	case "strings.Count":
		return uf(SInt)
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.Title":
		if key == "strings.ToLower" && !th {
			u.ctx.fun("strings.ToLower", []Sort{s}, s)
			u.ctx.axiomOnce("lower", "(assert (forall ((s Str)) (! (= (strings.ToLower (strings.ToLower s)) (strings.ToLower s)) :pattern ((strings.ToLower s)))))")
		}
		return uf(s)
	case "strings.TrimLeft", "strings.TrimRight", "strings.Trim", "strings.Repeat", "strings.Replace", "strings.ToValidUTF8":
		return uf(s)
	case "strings.TrimPrefix":
		if th {
			return mkIte(app(SBool, "str.prefixof", a[1], a[0]), app("String", "str.substr", a[0], app(SInt, "str.len", a[1]), app(SInt, "str.len", a[0])), a[0]), true
		}
		if u.con != nil && u.con.Strs {
			u.strFacts()
			u.pureLib("strings.HasPrefix", a)
			u.ctx.fun("strings.TrimPrefix", []Sort{s, s}, s)
			u.ctx.axiomOnce("trimprefix", `(assert (forall ((s Str)(t Str)) (! (= (strings.TrimPrefix (strcat s t) s) t) :pattern ((strings.TrimPrefix (strcat s t) s)))))
(assert (forall ((s Str)(t Str)) (! (= (strings.TrimPrefix s t) (ite (strings.HasPrefix s t) (substr s (strlen t) (strlen s)) s)) :pattern ((strings.TrimPrefix s t)))))
(assert (forall ((s Str)(t Str)) (! (=> (strings.HasPrefix s t) (= s (strcat t (strings.TrimPrefix s t)))) :pattern ((strings.TrimPrefix s t)))))`)
		}
		return uf(s)
	case "strings.TrimSuffix":
		if th {
			return mkIte(app(SBool, "str.suffixof", a[1], a[0]), app("String", "str.substr", a[0], intT(0), app(SInt, "-", app(SInt, "str.len", a[0]), app(SInt, "str.len", a[1]))), a[0]), true
		}
		return uf(s)
	case "strconv.Itoa":
		return u.itoa(a[0]), true
	case "strconv.Quote", "url.QueryEscape", "url.PathEscape":
		return uf(s)
	case "filepath.ToSlash", "filepath.FromSlash":
		u.assumed["filepath.ToSlash/FromSlash are the identity (slash-separated host paths)"] = true
		return a[0], true
	case "filepath.Clean", "filepath.Base", "filepath.Dir", "filepath.Ext", "path.Clean", "path.Base", "path.Dir", "path.Ext":
		k := "path." + key[strings.Index(key, ".")+1:]
		return u.ctx.uf(k, s, a...), true
	case "filepath.IsAbs", "path.IsAbs":
		return u.ctx.uf("path.IsAbs", SBool, a...), true
	case "utf8.RuneCountInString":
		return uf(SInt)
	case "utf8.ValidString":
		return uf(SBool)
	case "time.Time.String":
		return uf(s)
	case "time.Time.Equal", "time.Time.Before", "time.Time.After", "time.Time.IsZero":
		return uf(SBool)
	case "unicode.IsLetter", "unicode.IsDigit", "unicode.IsSpace", "unicode.IsUpper":
		return uf(SBool)
	case "math.Ceil", "math.Floor":
		return u.ctx.uf(key, SFloat, a...), true
	case "unicode.ToLower", "unicode.ToUpper":
		return uf(SInt)
	}
	return T{}, false
}

func (u *Unit) joinPath(a []T) T {
	return u.ctx.uf(fmt.Sprintf("path.Join%d", len(a)), u.ss(), a...)
}

// strings.Split as two logic functions.
func (u *Unit) splitLen(s, sep T) T {
	t := u.ctx.uf("splitlen", SInt, s, sep)
	u.ctx.axiomOnce("splitlen", fmt.Sprintf("(assert (forall ((s %s)(p %s)) (! (=> (not (= p %s)) (>= (splitlen s p) 1)) :pattern ((splitlen s p)))))", u.ss(), u.ss(), u.ctx.strLit("").S))
	return t
}
func (u *Unit) splitRow(s, sep T) T { return u.ctx.uf("splitrow", arr(SInt, u.ss()), s, sep) }

// ---- multiset abstraction of slices ----

func (u *Unit) bagN(es Sort, row, off, n T) T {
	b := "bag_" + sanitize(string(es))
	rs := arr(SInt, es)
	bs := arr(es, SInt)
	u.ctx.fun(b, []Sort{rs, SInt, SInt}, bs)
	u.sidx(intT(0), intT(0))
	r := strings.NewReplacer("$B", b, "$R", string(rs), "$E", string(es), "$S", string(bs))
	u.ctx.axiomOnce(b, r.Replace(`(assert (forall ((a $R)(o Int)(n Int)) (! (=> (<= n 0) (= ($B a o n) ((as const $S) 0))) :pattern (($B a o n)))))
(assert (forall ((a $R)(o Int)(n Int)(x $E)) (! (>= (select ($B a o n) x) 0) :pattern ((select ($B a o n) x)))))
(assert (forall ((a $R)(o Int)(n Int)(k Int)(v $E)) (! (=> (or (< k o) (>= k (+ o n))) (= ($B (store a k v) o n) ($B a o n))) :pattern (($B (store a k v) o n)))))
(declare-fun $Bw ($R Int Int $E) Int)`))
	u.ctx.axiomOnce(b+"_wit", "\x07"+r.Replace(`(assert (forall ((a $R)(o Int)(n Int)(x $E)) (! (=> (> (select ($B a o n) x) 0) (and (<= 0 ($Bw a o n x)) (< ($Bw a o n x) n) (= (select a (sidx o ($Bw a o n x))) x))) :pattern ((select ($B a o n) x)))))
(assert (forall ((a $R)(o Int)(n Int)(j Int)) (! (=> (and (<= 0 j) (< j n)) (>= (select ($B a o n) (select a (sidx o j))) 1)) :pattern (($B a o n) (select a (sidx o j))))))`))
	if u.con.BagIndex {
		u.ctx.axiomOnce(b+"_index", onlyAt(u.con.BagIndexAt)+r.Replace(`(assert (forall ((a $R)(o Int)(n Int)(k Int)) (! (=> (and (<= o k) (< k (+ o n))) (>= (select ($B a o n) (select a k)) 1)) :pattern (($B a o n) (select a k)))))`))
	}
	if u.con.BagPairs {
		u.ctx.axiomOnce(b+"_pairs", onlyAt(u.con.BagPairsAt)+r.Replace(`(assert (forall ((a $R)(o Int)(n Int)(j Int)(k Int)) (! (=> (and (<= 0 j) (< j k) (< k n) (= (select a (sidx o j)) (select a (sidx o k)))) (>= (select ($B a o n) (select a (sidx o j))) 2)) :pattern (($B a o n) (select a (sidx o j)) (select a (sidx o k))))))
(declare-fun $Bp ($R Int Int $E) Int)
(declare-fun $Bq ($R Int Int $E) Int)
(assert (forall ((a $R)(o Int)(n Int)(x $E)) (! (=> (>= (select ($B a o n) x) 2) (and (<= 0 ($Bp a o n x)) (< ($Bp a o n x) ($Bq a o n x)) (< ($Bq a o n x) n) (= (select a (sidx o ($Bp a o n x))) x) (= (select a (sidx o ($Bq a o n x))) x))) :pattern ((select ($B a o n) x)))))`))
	}
	return app(bs, b, row, off, n)
}

func (u *Unit) bagOf(st *State, s T, et types.Type) T {
	row := sel(u.hget(st, u.elemHeap(et)), sliceRef(s))
	return u.bagN(u.sortOf(et), row, sliceOff(s), sliceLen(s))
}

func bagAdd(b, x T, n int) T {
	return sto(b, x, app(SInt, "+", sel(b, x), intT(int64(n))))
}

// bagFacts: reading s[i] extends the prefix multiset by one element.
func (u *Unit) bagFacts(st *State, s, i T, et types.Type) {
	if !u.con.Bags {
		return
	}
	es := u.sortOf(et)
	row := sel(u.hget(st, u.elemHeap(et)), sliceRef(s))
	off := sliceOff(s)
	el := sel(row, u.sidx(off, i))
	b0 := u.bagN(es, row, off, i)
	b1 := u.bagN(es, row, off, app(SInt, "+", i, intT(1)))
	u.assume(st, mkImp(app(SBool, ">=", i, intT(0)), mkEq(b1, bagAdd(b0, el, 1))))
}

// onlyAt marks lines that only the goals of the given loops get.
func onlyAt(at string) string {
	if strings.TrimSpace(at) == "" {
		return ""
	}
	return "\x08" + strings.Join(strings.Fields(at), " ") + "\x08"
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// conv converts between integers and floats.
func (u *Unit) conv(v T, ts Sort) T {
	if v.Sort == SInt && ts == SFloat || v.Sort == SFloat && ts == SInt {
		u.ctx.fun("conv_Int_"+string(SFloat), []Sort{SInt}, SFloat)
		u.ctx.fun("conv_"+string(SFloat)+"_Int", []Sort{SFloat}, SInt)
		u.ctx.fun("fdiv", []Sort{SFloat, SFloat}, SFloat)
		u.ctx.fun("math.Ceil", []Sort{SFloat}, SFloat)
		u.ctx.axiomOnce("ceil", strings.ReplaceAll("(assert (forall ((a Int)(b Int)) (! (=> (and (<= 0 a) (< 0 b)) (and (<= 0 (conv_F_Int (math.Ceil (fdiv (conv_Int_F a) (conv_Int_F b))))) (<= a (* (conv_F_Int (math.Ceil (fdiv (conv_Int_F a) (conv_Int_F b)))) b)) (< (* (- (conv_F_Int (math.Ceil (fdiv (conv_Int_F a) (conv_Int_F b)))) 1) b) a))) :pattern ((math.Ceil (fdiv (conv_Int_F a) (conv_Int_F b)))))))", "_F", "_"+string(SFloat)))
		u.assumed["math.Ceil(float64(a)/float64(b)) is the exact ceiling (lengths below 2^53)"] = true
	}
	return u.ctx.uf("conv_"+string(v.Sort)+"_"+string(ts), ts, v)
}

// strFacts declares the text theory: single characters, concatenation is
// associative, texts of rows and joined lists.
func (u *Unit) strFacts() {
	if u.ctx.theory {
		return
	}
	u.ctx.fun("rchr", []Sort{SInt}, "Str")
	u.ctx.fun("hexof", []Sort{"Str"}, "Str")
	u.ctx.axiomOnce("strfacts", `(assert (forall ((a Str)(b Str)(c Str)) (! (= (strcat a (strcat b c)) (strcat (strcat a b) c)) :pattern ((strcat a (strcat b c))))))
(assert (forall ((c Int)) (! (=> (and (<= 0 c) (< c 256)) (and (= (strlen (chr c)) 1) (= (strat (chr c) 0) c) (= (ascii (chr c)) (< c 128)))) :pattern ((chr c)))))
(assert (forall ((c Int)) (! (and (=> (and (<= 0 c) (< c 128)) (= (rchr c) (chr c))) (>= (strlen (rchr c)) 1) (<= (strlen (rchr c)) 4)) :pattern ((rchr c)))))
(assert (forall ((s Str)(t Str)) (! (= (ascii (strcat s t)) (and (ascii s) (ascii t))) :pattern ((ascii (strcat s t))))))
(assert (forall ((s Str)(a Int)(b Int)) (! (=> (and (ascii s) (<= 0 a) (<= a b) (<= b (strlen s))) (ascii (substr s a b))) :pattern ((ascii (substr s a b))))))
(assert (forall ((s Str)) (! (and (= (strlen (hexof s)) (* 2 (strlen s))) (ascii (hexof s))) :pattern ((hexof s)))))
(assert (forall ((s Str)(t Str)(i Int)) (! (=> (and (<= 0 i) (< i (+ (strlen s) (strlen t)))) (= (strat (strcat s t) i) (ite (< i (strlen s)) (strat s i) (strat t (- i (strlen s)))))) :pattern ((strat (strcat s t) i)))))
(assert (forall ((s Str)(i Int)) (! (and (<= 0 (strat s i)) (< (strat s i) 256)) :pattern ((strat s i)))))
(assert (forall ((s Str)(i Int)) (! (=> (and (ascii s) (<= 0 i) (< i (strlen s))) (< (strat s i) 128)) :pattern ((ascii s) (strat s i)))))
`)
	jr := "strings.JoinRow"
	u.ctx.fun(jr, []Sort{arr(SInt, "Str"), SInt, SInt, "Str"}, "Str")
	u.ctx.axiomOnce("joinrow", `(assert (forall ((a (Array Int Str))(o Int)(n Int)(p Str)) (! (=> (<= n 0) (= (strings.JoinRow a o n p) lit_empty)) :pattern ((strings.JoinRow a o n p)))))`)
}

func (u *Unit) chr(c T) T {
	u.strFacts()
	return u.ctx.uf("chr", u.ss(), c)
}
func (u *Unit) rchr(c T) T {
	u.strFacts()
	return u.ctx.uf("rchr", u.ss(), c)
}
func (u *Unit) ascii(s T) T {
	u.strFacts()
	return u.ctx.uf("ascii", SBool, s)
}
func (u *Unit) hexOf(s T) T {
	if u.con.Strs {
		u.strFacts()
	}
	u.assumed["%x and hex.EncodeToString give two lower-case hex digits per byte"] = true
	return u.ctx.uf("hexof", u.ss(), s)
}

// rowText: the string of the bytes or runes row[off..off+n).
func (u *Unit) rowText(et types.Type, row, off, n T) T {
	k := typeStr(et)
	f := "bytes2str_" + k
	t := u.ctx.uf(f, u.ss(), row, off, n)
	if !u.con.Strs || u.ctx.theory {
		return t
	}
	u.strFacts()
	u.strRowAxioms(et)
	return t
}

func (u *Unit) strRowAxioms(et types.Type) {
	k := typeStr(et)
	f, g, l := "bytes2str_"+k, "str2row_"+k, "str2len_"+k
	u.ctx.fun(f, []Sort{arr(SInt, SInt), SInt, SInt}, "Str")
	u.ctx.fun(g, []Sort{"Str"}, arr(SInt, SInt))
	u.ctx.fun(l, []Sort{"Str"}, SInt)
	u.sidx(intT(0), intT(0))
	cond, rng := "(and (<= 0 i) (< i (strlen s)))", "(and (<= 0 a) (<= 0 n) (<= (+ a n) (strlen s)))"
	lim := "256"
	if !isByte(et) {
		cond = "(and (ascii s) " + cond + ")"
		rng = "(and (ascii s) " + rng + ")"
		lim = "128"
	}
	r := strings.NewReplacer("$F", f, "$G", g, "$L", l, "$C", cond, "$R", rng, "$M", lim)
	u.ctx.axiomOnce("strrow_"+k, r.Replace(`(assert (forall ((s Str)(i Int)) (! (=> $C (= (select ($G s) (sidx 0 i)) (strat s i))) :pattern ((select ($G s) (sidx 0 i))))))
(assert (forall ((s Str)(a Int)(n Int)) (! (=> $R (= ($F ($G s) a n) (substr s a (+ a n)))) :pattern (($F ($G s) a n)))))
(assert (forall ((a (Array Int Int))(o Int)(n Int)) (! (=> (<= n 0) (= ($F a o n) lit_empty)) :pattern (($F a o n)))))`))
	if isByte(et) {
		u.ctx.axiomOnce("strlen_"+k, r.Replace(`(assert (forall ((a (Array Int Int))(o Int)(n Int)) (! (=> (>= n 0) (= (strlen ($F a o n)) n)) :pattern (($F a o n)))))`))
	} else {
		u.ctx.axiomOnce("strlen_"+k, r.Replace(`(assert (forall ((s Str)) (! (and (<= 0 ($L s)) (<= ($L s) (strlen s)) (=> (ascii s) (= ($L s) (strlen s)))) :pattern (($L s)))))
(assert (forall ((s Str)) (! (>= (strlen ($F ($G s) 0 ($L s))) (strlen s)) :pattern (($F ($G s) 0 ($L s))))))
(assert (forall ((s Str)(i Int)) (! (=> (and (ascii s) (<= 0 i) (< i (strlen s))) (< (select ($G s) i) 128)) :pattern ((select ($G s) i)))))
(assert (forall ((a (Array Int Int))(o Int)(n Int)) (! (=> (and (<= 0 n) (forall ((j Int)) (! (=> (and (<= 0 j) (< j n)) (and (<= 0 (select a (sidx o j))) (< (select a (sidx o j)) 128))) :pattern ((select a (sidx o j)))))) (and (ascii ($F a o n)) (= (strlen ($F a o n)) n) (forall ((k Int)) (! (=> (and (<= 0 k) (< k n)) (= (strat ($F a o n) k) (select a (sidx o k)))) :pattern ((strat ($F a o n) k)))))) :pattern (($F a o n)))))
(assert (forall ((a (Array Int Int))(o Int)(n Int)(i Int)(j Int)(x Int)(y Int)) (! (=> (and (= x (select a j)) (= y (select a i)) (<= o i) (< i (+ o n)) (<= o j) (< j (+ o n))) (= (strlen ($F (store (store a i x) j y) o n)) (strlen ($F a o n)))) :pattern (($F (store (store a i x) j y) o n)))))`))
	}
}

// strRow: the bytes or runes of a string.
func (u *Unit) strRow(v T, et types.Type) (T, T) {
	k := typeStr(et)
	row := u.ctx.uf("str2row_"+k, arr(SInt, SInt), v)
	n := u.ctx.uf("str2len_"+k, SInt, v)
	if u.con.Strs && !u.ctx.theory {
		u.strFacts()
		u.strRowAxioms(et)
	}
	return row, n
}

// appendFacts: how append changes the text of a byte slice and the joined
// text of a list.
func (u *Unit) appendFacts(st *State, et types.Type, row0, off, n0, row1, off1, n1 T, elems []T, static bool, t T, H T) {
	if u.ctx.theory {
		return
	}
	b, ok := et.Underlying().(*types.Basic)
	switch {
	case ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int32):
		old := u.rowText(et, row0, off, n0)
		cur := u.rowText(et, row1, off1, n1)
		u.assume(st, mkEq(u.rowText(et, row1, off1, n0), old))
		if static {
			acc := old
			for _, e := range elems {
				ch := u.rchr(e)
				if isByte(et) {
					ch = u.chr(e)
				}
				acc = u.strCat(acc, ch)
			}
			u.assume(st, mkEq(cur, acc))
		} else {
			src := u.rowText(et, sel(H, sliceRef(t)), sliceOff(t), sliceLen(t))
			u.assume(st, mkEq(cur, u.strCat(old, src)))
		}
	case ok && b.Info()&types.IsString != 0:
		u.strFacts()
		j := func(r, o, n, sep string) string { return "(strings.JoinRow " + r + " " + o + " " + n + " " + sep + ")" }
		u.assume(st, T{fmt.Sprintf("(forall ((p Str)) (! (= %s %s) :pattern (%s) :pattern (%s)))", j(row1.S, off1.S, n0.S, "p"), j(row0.S, off.S, n0.S, "p"), j(row1.S, off1.S, n0.S, "p"), j(row0.S, off.S, n0.S, "p")), SBool})
		if !static {
			return
		}
		prev := j(row1.S, off1.S, n0.S, "p")
		n := n0
		for i, e := range elems {
			nn := app(SInt, "+", n0, intT(int64(i+1)))
			nx := j(row1.S, off1.S, nn.S, "p")
			ex := fmt.Sprintf("(ite (= %s 0) %s (strcat (strcat %s p) %s))", n.S, e.S, prev, e.S)
			pats := fmt.Sprintf(":pattern (%s)", nx)
			if i == len(elems)-1 {
				pats += fmt.Sprintf(" :pattern (%s)", j(row1.S, off1.S, n1.S, "p"))
				u.assume(st, mkEq(n1, nn))
			}
			u.assume(st, T{fmt.Sprintf("(forall ((p Str)) (! (= %s %s) %s))", j(row1.S, off1.S, nn.S, "p"), ex, pats), SBool})
			prev, n = nx, nn
		}
	}
}

// builder models strings.Builder as its text.
func (u *Unit) builder(fr *Frame, st *State, key string, fn *ssa.Function, args []Val, p token.Pos) Val {
	pt := fn.Signature.Recv().Type().(*types.Pointer).Elem()
	so := u.sortOf(pt)
	u.ctx.fun("sb_text", []Sort{so}, u.ss())
	u.ctx.fun("sb_make", []Sort{u.ss()}, so)
	u.ctx.axiomOnce("builder", fmt.Sprintf("(assert (forall ((s %s)) (! (= (sb_text (sb_make s)) s) :pattern ((sb_make s)))))\n(assert (= (sb_text %s) %s))", u.ss(), u.zero(pt).S, u.ctx.strLit("").S))
	cur := u.ctx.define("sbt", app(u.ss(), "sb_text", term(u.load(fr, st, args[0], pt, p))))
	set := func(t T) { u.store(fr, st, args[0], app(so, "sb_make", t), pt, p) }
	ok := T{"(mk-iface 0 0)", SIface}
	switch key[strings.LastIndex(key, ".")+1:] {
	case "WriteString":
		set(u.strCat(cur, term(args[1])))
		return Tup{u.strLen(term(args[1])), ok}
	case "WriteRune":
		set(u.strCat(cur, u.rchr(term(args[1]))))
		return Tup{u.strLen(u.rchr(term(args[1]))), ok}
	case "WriteByte":
		set(u.strCat(cur, u.chr(term(args[1]))))
		return ok
	case "Len":
		return u.strLen(cur)
	case "Reset":
		set(u.ctx.strLit(""))
		return nil
	case "Grow":
		u.safety(fr, st, "negative-grow", p, app(SBool, ">=", term(args[1]), intT(0)))
		return nil
	}
	return cur
}
