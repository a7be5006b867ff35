package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// newErr: some non-nil error.
func (u *Unit) newErr(st *State) T {
	e := u.ctx.fresh("err", SIface)
	u.assume(st, app(SBool, ">", ifTag(e), intT(0)))
	return e
}

// errFacts: errors.Is over the error variables of packages (globerr), which wrap nothing.
func (u *Unit) errFacts() {
	u.ctx.fun("errors.Is", []Sort{SIface, SIface}, SBool)
	u.ctx.fun("globerr", []Sort{SIface}, SBool)
	u.ctx.fun("errors.Cause", []Sort{SIface}, SIface)
	u.ctx.axiomOnce("errfacts", `(assert (forall ((e Iface)) (! (=> (> (itag e) 0) (errors.Is e e)) :pattern ((errors.Is e e)))))
(assert (forall ((e Iface)(x Iface)) (! (=> (and (globerr e) (errors.Is e x)) (= x e)) :pattern ((globerr e) (errors.Is e x)))))
(assert (forall ((e Iface)(x Iface)) (! (=> (globerr x) (= (errors.Is (errors.Cause e) x) (errors.Is e x))) :pattern ((errors.Is (errors.Cause e) x)))))
(assert (forall ((e Iface)(x Iface)) (! (=> (errors.Is e x) (> (itag e) 0)) :pattern ((errors.Is e x)))))`)
}

// lib models library functions called from the code under verification.
func (u *Unit) lib(fr *Frame, st *State, key string, fn *ssa.Function, c *ssa.CallCommon, args []Val, p token.Pos) (Val, bool) {
	if fn.Pkg != nil && u.P.isModule(fn.Pkg.Pkg) {
		return nil, false
	}
	strSlice := types.NewSlice(types.Typ[types.String])
	switch key {
	case "errors.New", "errors.NewPlain", "fmt.Errorf", "errors.Errorf", "errors.NewWithDetails":
		e := u.newErr(st)
		if len(c.Args) > 0 {
			k, isConst := c.Args[0].(*ssa.Const)
			// only Errorf gives %w a meaning
			if key == "errors.New" || key == "errors.NewPlain" || isConst && !strings.Contains(constStr(k), "%w") {
				u.errFacts()
				u.assume(st, T{fmt.Sprintf("(not (globerr %s))", e.S), SBool})
				u.assume(st, T{fmt.Sprintf("(forall ((x Iface)) (! (=> (errors.Is %s x) (= x %s)) :pattern ((errors.Is %s x))))", e.S, e.S, e.S), SBool})
			}
		}
		return e, true
	case "errors.Wrap", "errors.Wrapf", "errors.WithStack", "errors.WithMessage", "errors.WithMessagef", "errors.WithDetails", "errors.WrapIf", "errors.WrapIff", "errors.WithStackDepth":
		a := term(args[0])
		if a.S == "(mk-iface 0 0)" {
			return a, true
		}
		e := u.ctx.fresh("err", SIface)
		u.assume(st, mkEq(app(SBool, ">", ifTag(e), intT(0)), app(SBool, ">", ifTag(a), intT(0))))
		u.assume(st, app(SBool, ">=", ifTag(e), intT(0)))
		u.assume(st, mkImp(mkEq(ifTag(e), intT(0)), mkEq(e, T{"(mk-iface 0 0)", SIface})))
		u.errFacts()
		u.assume(st, T{fmt.Sprintf("(=> (> (itag %s) 0) (not (globerr %s)))", e.S, e.S), SBool})
		u.assume(st, T{fmt.Sprintf("(forall ((x Iface)) (! (=> (globerr x) (= (errors.Is %s x) (errors.Is %s x))) :pattern ((errors.Is %s x))))", e.S, a.S, e.S), SBool})
		return e, true
	case "errors.Combine", "errors.Append":
		e := u.ctx.fresh("err", SIface)
		vs, _, ok := u.varargs(fr, st, c.Args[0])
		u.assume(st, app(SBool, ">=", ifTag(e), intT(0)))
		if ok {
			var any []T
			for _, v := range vs {
				any = append(any, app(SBool, ">", ifTag(term(v)), intT(0)))
			}
			u.assume(st, mkEq(app(SBool, ">", ifTag(e), intT(0)), mkOr(any...)))
		} else if c.Args[0].Type() != nil {
			if sl, isS := c.Args[0].Type().Underlying().(*types.Slice); isS {
				l := term(args[0])
				row := sel(u.hget(st, u.elemHeap(sl.Elem())), sliceRef(l))
				at := sel(row, u.sidx(sliceOff(l), T{"k", SInt}))
				u.assume(st, T{fmt.Sprintf("(=> (= (itag %s) 0) (forall ((k Int)) (! (=> (and (<= 0 k) (< k %s)) (= (itag %s) 0)) :pattern (%s))))", e.S, sliceLen(l).S, at.S, at.S), SBool})
				at0 := sel(row, u.sidx(sliceOff(l), intT(0)))
				u.assume(st, mkImp(mkAnd(mkEq(ifTag(e), intT(0)), app(SBool, ">", sliceLen(l), intT(0))), mkEq(ifTag(at0), intT(0))))
				w := u.ctx.fresh("errk", SInt)
				atw := sel(row, u.sidx(sliceOff(l), w))
				u.assume(st, mkImp(app(SBool, ">", ifTag(e), intT(0)), mkAnd(app(SBool, "<=", intT(0), w), app(SBool, "<", w, sliceLen(l)), mkNot(mkEq(ifTag(atw), intT(0))))))
				u.assume(st, mkImp(mkEq(ifTag(e), intT(0)), mkEq(e, T{"(mk-iface 0 0)", SIface})))
			}
		}
		return e, true
	case "errors.Is":
		a, b := term(args[0]), term(args[1])
		u.errFacts()
		t := u.ctx.uf("errors.Is", SBool, a, b)
		u.assume(st, mkImp(mkEq(ifTag(a), intT(0)), mkNot(t)))
		return t, true
	case "errors.Cause", "errors.Unwrap":
		u.errFacts()
		return u.ctx.uf(key, SIface, term(args[0])), true
	case "hex.EncodeToString":
		return u.hexOf(u.bytesToStr(st, term(args[0]), types.Typ[types.Byte])), true
	case "strings.(*Builder).WriteString", "strings.(*Builder).WriteByte", "strings.(*Builder).WriteRune", "strings.(*Builder).String", "strings.(*Builder).Len", "strings.(*Builder).Grow", "strings.(*Builder).Reset":
		return u.builder(fr, st, key, fn, args, p), true
	case "sync.(*Mutex).Lock", "sync.(*Mutex).Unlock", "sync.(*RWMutex).Lock", "sync.(*RWMutex).Unlock":
		return u.mutex(fr, st, key, fn, args, p), true
	case "fmt.Sprintf":
		return u.sprintf(fr, st, c, args), true
	case "fmt.Sprint":
		return u.ctx.fresh("sprint", u.ss()), true
	case "fmt.Print", "fmt.Printf", "fmt.Println", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint":
		return u.freshOf(st, fn.Signature.Results(), "pr"), true
	case "strconv.Atoi":
		s := term(args[0])
		u.itoa(intT(0))
		ok := u.ctx.uf("strconv.Atoi.ok", SBool, s)
		n := u.ctx.uf("strconv.Atoi", SInt, s)
		e := u.ctx.fresh("err", SIface)
		u.assume(st, mkEq(ok, mkEq(ifTag(e), intT(0))))
		u.assume(st, app(SBool, ">=", ifTag(e), intT(0)))
		u.assume(st, mkImp(ok, mkEq(e, T{"(mk-iface 0 0)", SIface})))
		return Tup{u.ctx.define("atoi", mkIte(ok, n, u.ctx.fresh("junk", SInt))), e}, true
	case "filepath.Join", "path.Join":
		vs, _, ok := u.varargs(fr, st, c.Args[0])
		if ok {
			var ts []T
			for _, v := range vs {
				ts = append(ts, term(v))
			}
			return u.joinPath(ts), true
		}
		s := term(args[0])
		row := sel(u.hget(st, u.elemHeap(types.Typ[types.String])), sliceRef(s))
		return u.ctx.uf("path.JoinRow", u.ss(), row, sliceOff(s), sliceLen(s)), true
	case "strings.Join":
		vs, _, ok := u.varargs(fr, st, c.Args[0])
		sep := term(args[1])
		if ok {
			if len(vs) == 0 {
				return u.ctx.strLit(""), true
			}
			acc := term(vs[0])
			for _, v := range vs[1:] {
				acc = u.strCat(u.strCat(acc, sep), term(v))
			}
			return acc, true
		}
		s := term(args[0])
		row := sel(u.hget(st, u.elemHeap(types.Typ[types.String])), sliceRef(s))
		return u.joinRow(row, sliceOff(s), sliceLen(s), sep), true
	case "strings.Split":
		s, sep := term(args[0]), term(args[1])
		r := u.newRef(st, "new_split")
		h := u.elemHeap(types.Typ[types.String])
		u.hset(st, h, r, sto(u.hget(st, h), r, u.splitRow(s, sep)))
		n := u.splitLen(s, sep)
		u.assume(st, mkImp(mkNot(mkEq(sep, u.ctx.strLit(""))), app(SBool, ">=", n, intT(1))))
		return u.ctx.define("split", app(SSlice, "mk-slice", r, intT(0), n, n)), true
	case "strings.Fields":
		return u.freshOf(st, strSlice, "fields"), true
	case "slices.Contains":
		s, x := term(args[0]), term(args[1])
		if vs, _, ok := u.varargsLit(fr, st, c.Args[0]); ok {
			var any []T
			for _, v := range vs {
				any = append(any, mkEq(term(v), x))
			}
			return mkOr(any...), true
		}
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		b := u.bagOf(st, s, et)
		return u.ctx.define("contains", app(SBool, ">", sel(b, x), intT(0))), true
	case "slices.Sort", "sort.Strings", "sort.Ints", "slices.SortFunc", "sort.Slice", "slices.SortStableFunc", "sort.SliceStable":
		return u.sortSlice(fr, st, key, c, args)
	case "slices.Compact":
		return u.compactSlice(fr, st, c, args)
	case "slices.BinarySearch":
		s, x := term(args[0]), term(args[1])
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		i := u.ctx.fresh("bs", SInt)
		u.assume(st, mkAnd(app(SBool, "<=", intT(0), i), app(SBool, "<=", i, sliceLen(s))))
		found := u.ctx.fresh("found", SBool)
		b := u.bagOf(st, s, et)
		row := sel(u.hget(st, u.elemHeap(et)), sliceRef(s))
		// found is exact on sorted input only
		u.assume(st, mkImp(u.sortedRow(row, sliceOff(s), sliceLen(s)), mkEq(found, app(SBool, ">", sel(b, x), intT(0)))))
		u.assume(st, mkImp(found, app(SBool, ">", sel(b, x), intT(0))))
		u.assume(st, mkImp(u.sortedRow(row, sliceOff(s), sliceLen(s)), u.splitPoint(row, sliceOff(s), sliceLen(s), i, x)))
		return Tup{i, found}, true
	case "time.Now":
		return u.freshOf(st, fn.Signature.Results().At(0).Type(), "now"), true
	}
	if strings.HasPrefix(key, "regexp.(*Regexp).") {
		return u.regexpModel(fr, st, key, args, fn)
	}
	if key == "regexp.MustCompile" || key == "regexp.Compile" {
		pat := term(args[0])
		r := u.ctx.fresh("re", SInt)
		u.assume(st, app(SBool, ">", r, intT(0)))
		id := u.ctx.uf("repat", u.ss(), r)
		u.assume(st, mkEq(id, pat))
		if k, ok := c.Args[0].(*ssa.Const); ok {
			u.reOf[r.S] = constStr(k)
		}
		if key == "regexp.Compile" {
			e := u.ctx.fresh("err", SIface)
			u.assume(st, app(SBool, ">=", ifTag(e), intT(0)))
			u.assume(st, mkEq(mkEq(ifTag(e), intT(0)), u.ctx.uf("re_valid", SBool, pat)))
			u.errFacts()
			u.assume(st, mkNot(T{"(globerr " + e.S + ")", SBool}))
			return Tup{r, e}, true
		}
		return r, true
	}
	// scalar pure functions
	var ts []T
	scalar := true
	for _, a := range args {
		t, ok := a.(T)
		if !ok || t.Sort == SSlice {
			scalar = false
			break
		}
		ts = append(ts, t)
	}
	if scalar && fn.Signature.Results().Len() == 1 {
		if t, ok := u.pureLib(key, ts); ok {
			return u.ctx.define("lib", t), true
		}
	}
	return nil, false
}

func (u *Unit) joinRow(row, off, n, sep T) T {
	if u.con.Strs {
		u.strFacts()
	}
	t := u.ctx.uf("strings.JoinRow", u.ss(), row, off, n, sep)
	return t
}

// varargsLit: a slice literal []T{a, b, c} used directly as an argument.
func (u *Unit) varargsLit(fr *Frame, st *State, v ssa.Value) ([]Val, []types.Type, bool) {
	// NaiveForm stores composite literals through a "complit" cell
	if un, ok := v.(*ssa.UnOp); ok && un.Op == token.MUL {
		if al, ok := un.X.(*ssa.Alloc); ok && al.Comment == "complit" {
			var src ssa.Value
			n := 0
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == al {
					src = s.Val
					n++
				}
			}
			if n == 1 {
				return u.varargs(fr, st, src)
			}
		}
	}
	return u.varargs(fr, st, v)
}

func (u *Unit) sprintf(fr *Frame, st *State, c *ssa.CallCommon, args []Val) T {
	vs, tys, ok := u.varargs(fr, st, c.Args[1])
	if !ok {
		// the caller's argument list: uninterpreted in format and list
		l, isT := args[1].(T)
		if !isT {
			return u.ctx.fresh("sprintf", u.ss())
		}
		return u.sprintfList(st, term(args[0]), l)
	}
	k, isC := c.Args[0].(*ssa.Const)
	if !isC {
		// dynamic format: uninterpreted in format and arguments
		ts := []T{term(args[0])}
		name := "sprintf"
		for i, v := range vs {
			t, ok := v.(T)
			if !ok {
				return u.ctx.fresh("sprintf", u.ss())
			}
			_ = i
			ts = append(ts, t)
			name += "_" + string(t.Sort)
		}
		return u.ctx.uf(name, u.ss(), ts...)
	}
	return u.format(st, constStr(k), vs, tys)
}

func (u *Unit) sprintfList(st *State, f, l T) T {
	et := types.NewInterfaceType(nil, nil)
	u.assumed["fmt.Sprintf of a passed-on argument list is a function of the format and the list"] = true
	return u.ctx.uf("sprintf_list", u.ss(), f, sel(u.hget(st, u.elemHeap(et)), sliceRef(l)), sliceOff(l), sliceLen(l))
}

func (u *Unit) format(st *State, f string, vs []Val, tys []types.Type) T {
	acc := u.ctx.strLit("")
	lit := ""
	flush := func() {
		if lit != "" {
			acc = u.strCat(acc, u.ctx.strLit(lit))
			lit = ""
		}
	}
	vi := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			break
		}
		verb := f[i+1 : j+1]
		i = j
		if verb == "%" {
			lit += "%"
			continue
		}
		flush()
		if vi >= len(vs) {
			acc = u.strCat(acc, u.ctx.fresh("fmtbad", u.ss()))
			continue
		}
		v := vs[vi]
		ty := tys[vi]
		vi++
		t, ok := v.(T)
		var piece T
		switch {
		case !ok:
			piece = u.ctx.fresh("fmt", u.ss())
		case (verb == "s" || verb == "v") && isString(ty) && !hasMethods(ty):
			piece = t
		case verb == "x" && t.Sort == SSlice && st != nil && isByte(ty.Underlying().(*types.Slice).Elem()):
			piece = u.hexOf(u.bytesToStr(st, t, types.Typ[types.Byte]))
		case (verb == "d" || verb == "v") && t.Sort == SInt && isInt(ty):
			piece = u.itoa(t)
		case t.Sort == SSlice:
			// the text depends on the elements, not on the slice header alone
			et, isB := ty.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic)
			if st == nil || !isB {
				piece = u.ctx.fresh("fmt", u.ss())
				break
			}
			row := sel(u.hget(st, u.elemHeap(et)), sliceRef(t))
			piece = u.ctx.uf("fmt_"+verb+"_row_"+sanitize(string(row.Sort)), u.ss(), row, sliceOff(t), sliceLen(t))
			if verb == "U" && u.con.Strs && !u.ctx.theory {
				// [U+0041 U+0042]: no slash, no period
				piece = u.ctx.define("fmtU", piece)
				u.assume(st, T{fmt.Sprintf("(forall ((k Int)) (! (=> (and (<= 0 k) (< k (strlen %s))) (and (not (= (strat %s k) 47)) (not (= (strat %s k) 46)))) :pattern ((strat %s k))))", piece.S, piece.S, piece.S, piece.S), SBool})
			}
		default:
			piece = u.ctx.uf("fmt_"+verb+"_"+string(t.Sort), u.ss(), t)
		}
		acc = u.strCat(acc, piece)
	}
	flush()
	return u.ctx.define("fmt", acc)
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func hasMethods(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		n := ms.At(i).Obj().Name()
		if n == "String" || n == "Error" || n == "Format" {
			return true
		}
	}
	return false
}

func (u *Unit) sortedRow(row, off, n T) T {
	_, es, _ := splitArr(row.Sort)
	u.sidx(intT(0), intT(0))
	name := "sorted_" + sanitize(string(es))
	u.ctx.fun(name, []Sort{row.Sort, SInt, SInt}, SBool)
	le := "(not (strlt (select a (sidx o j)) (select a (sidx o i))))"
	if es == SInt {
		le = "(<= (select a (sidx o i)) (select a (sidx o j)))"
	} else if u.ctx.theory {
		le = "(str.<= (select a (sidx o i)) (select a (sidx o j)))"
	} else if es != "Str" {
		le = "true"
	}
	u.ctx.axiomOnce(name, fmt.Sprintf("(assert (forall ((a %s)(o Int)(n Int)(i Int)(j Int)) (! (=> (and (%s a o n) (<= 0 i) (<= i j) (< j n)) %s) :pattern ((%s a o n) (select a (sidx o i)) (select a (sidx o j))))))\n(assert (forall ((a %s)(o Int)(n Int)) (! (=> (<= n 1) (%s a o n)) :pattern ((%s a o n)))))", row.Sort, name, le, name, row.Sort, name, name))
	if u.con.BagIndex && le != "true" {
		abs := strings.NewReplacer("(sidx o i)", "i", "(sidx o j)", "j").Replace(le)
		wit := strings.NewReplacer("(sidx o i)", "("+name+"_w1 a o n)", "(sidx o j)", "("+name+"_w2 a o n)").Replace(le)
		u.ctx.axiomOnce(name+"_index", onlyAt(u.con.BagIndexAt)+fmt.Sprintf("(assert (forall ((a %s)(o Int)(n Int)(i Int)(j Int)) (! (=> (and (%s a o n) (<= o i) (<= i j) (< j (+ o n))) %s) :pattern ((%s a o n) (select a i) (select a j)))))\n(declare-fun %s_w1 (%s Int Int) Int)\n(declare-fun %s_w2 (%s Int Int) Int)\n(assert (forall ((a %s)(o Int)(n Int)) (! (or (%s a o n) (and (<= o (%s_w1 a o n)) (< (%s_w1 a o n) (%s_w2 a o n)) (< (%s_w2 a o n) (+ o n)) (not %s))) :pattern ((%s a o n)))))",
			row.Sort, name, abs, name, name, row.Sort, name, row.Sort, row.Sort, name, name, name, name, name, wit, name))
	}
	return app(SBool, name, row, off, n)
}

func (u *Unit) splitPoint(row, off, n, i, x T) T {
	es := x.Sort
	lt := func(a, b string) string {
		if es == SInt {
			return fmt.Sprintf("(< %s %s)", a, b)
		}
		if u.ctx.theory {
			return fmt.Sprintf("(str.< %s %s)", a, b)
		}
		return fmt.Sprintf("(strlt %s %s)", a, b)
	}
	if es != SInt && es != u.ss() {
		return tTrue
	}
	if u.con.BagIndex {
		e := fmt.Sprintf("(select %s j)", row.S)
		lo, hi := off.S, fmt.Sprintf("(+ %s %s)", off.S, n.S)
		return T{fmt.Sprintf("(forall ((j Int)) (! (and (=> (and (<= %s j) (< j (+ %s %s))) %s) (=> (and (<= (+ %s %s) j) (< j %s)) (not %s))) :pattern (%s)))", lo, off.S, i.S, lt(e, x.S), off.S, i.S, hi, lt(e, x.S), e), SBool}
	}
	e := fmt.Sprintf("(select %s (sidx %s j))", row.S, off.S)
	return T{fmt.Sprintf("(forall ((j Int)) (! (and (=> (and (<= 0 j) (< j %s)) %s) (=> (and (<= %s j) (< j %s)) (not %s))) :pattern (%s)))", i.S, lt(e, x.S), i.S, n.S, lt(e, x.S), e), SBool}
}

func (u *Unit) sortSlice(fr *Frame, st *State, key string, c *ssa.CallCommon, args []Val) (Val, bool) {
	a := args[0]
	if oi, ok := a.(OIface); ok {
		a = oi.inner
	}
	var sl T
	var stp types.Type = c.Args[0].Type()
	if t, ok := a.(T); ok {
		sl = t
		if t.Sort == SIface {
			mi, ok := c.Args[0].(*ssa.MakeInterface)
			if !ok {
				return nil, false
			}
			sl = term(u.eval(fr, st, mi.X))
			stp = mi.X.Type()
		}
	} else {
		return nil, false
	}
	et := stp.Underlying().(*types.Slice).Elem()
	es := u.sortOf(et)
	h := u.elemHeap(et)
	H := u.hget(st, h)
	row := sel(H, sliceRef(sl))
	nr := u.ctx.fresh("row", arr(SInt, es))
	off, n := sliceOff(sl), sliceLen(sl)
	u.assume(st, T{fmt.Sprintf("(forall ((j Int)) (! (=> (or (< j %s) (>= j (+ %s %s))) (= (select %s j) (select %s j))) :pattern ((select %s j))))", off.S, off.S, n.S, nr.S, row.S, nr.S), SBool})
	u.assume(st, mkEq(u.bagN(es, nr, off, n), u.bagN(es, row, off, n)))
	if key == "slices.Sort" || key == "sort.Strings" || key == "sort.Ints" {
		u.assume(st, u.sortedRow(nr, off, n))
	}
	u.hset(st, h, sliceRef(sl), sto(H, sliceRef(sl), nr))
	if w := u.closed(u.heaps[h], u.hget(st, h), st.alloc); w.S != "true" {
		u.assume(st, w)
	}
	return nil, true
}

// compactSlice: the elements of the result, which shares the memory of the
// argument, are those of the argument; sorted arguments lose all repetitions.
func (u *Unit) compactSlice(fr *Frame, st *State, c *ssa.CallCommon, args []Val) (Val, bool) {
	sl, ok := args[0].(T)
	if !ok || sl.Sort != SSlice {
		return nil, false
	}
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	es := u.sortOf(et)
	h := u.elemHeap(et)
	H := u.hget(st, h)
	row := sel(H, sliceRef(sl))
	nr := u.ctx.fresh("row", arr(SInt, es))
	off, n := sliceOff(sl), sliceLen(sl)
	m := u.ctx.fresh("clen", SInt)
	u.assume(st, mkAnd(app(SBool, "<=", intT(0), m), app(SBool, "<=", m, n)))
	u.assume(st, mkImp(app(SBool, "<", intT(0), n), app(SBool, "<", intT(0), m)))
	u.assume(st, T{fmt.Sprintf("(forall ((j Int)) (! (=> (or (< j %s) (>= j (+ %s %s))) (= (select %s j) (select %s j))) :pattern ((select %s j))))", off.S, off.S, n.S, nr.S, row.S, nr.S), SBool})
	nb, ob := u.bagN(es, nr, off, m), u.bagN(es, row, off, n)
	srt := u.sortedRow(row, off, n)
	u.assume(st, T{fmt.Sprintf("(forall ((x %s)) (! (and (= (< 0 (select %s x)) (< 0 (select %s x))) (=> %s (<= (select %s x) 1))) :pattern ((select %s x)) :pattern ((select %s x))))", es, nb.S, ob.S, srt.S, nb.S, nb.S, ob.S), SBool})
	u.assume(st, mkImp(srt, u.sortedRow(nr, off, m)))
	u.hset(st, h, sliceRef(sl), sto(H, sliceRef(sl), nr))
	if w := u.closed(u.heaps[h], u.hget(st, h), st.alloc); w.S != "true" {
		u.assume(st, w)
	}
	return app(SSlice, "mk-slice", sliceRef(sl), off, m, sliceCap(sl)), true
}

func (u *Unit) regexpModel(fr *Frame, st *State, key string, args []Val, fn *ssa.Function) (Val, bool) {
	re := term(args[0])
	// pattern term
	pat := u.rePat(re)
	switch strings.TrimPrefix(key, "regexp.(*Regexp).") {
	case "MatchString":
		if p, ok := u.reOf[re.S]; ok {
			u.matchFacts(p)
		}
		return u.ctx.uf("re_match", SBool, pat, term(args[1])), true
	case "ReplaceAllStringFunc":
		if f, ok := args[2].(*Clo); ok && len(f.binds) == 0 {
			return u.ctx.uf("re_replacefunc", u.ss(), pat, term(args[1]), u.ctx.strLit(funcKey(f.fn))), true
		}
	case "FindStringSubmatch":
		s := term(args[1])
		m := u.ctx.uf("re_match", SBool, pat, s)
		r := u.newRef(st, "new_match")
		h := u.elemHeap(types.Typ[types.String])
		row := u.ctx.uf("re_groups", arr(SInt, u.ss()), pat, s)
		u.hset(st, h, r, sto(u.hget(st, h), r, row))
		n := u.ctx.uf("re_ngroups", SInt, pat)
		if p, ok := u.reOf[re.S]; ok {
			u.assume(st, mkEq(n, intT(int64(1+countGroups(p)))))
		} else {
			u.assume(st, app(SBool, ">=", n, intT(1)))
		}
		res := mkIte(m, app(SSlice, "mk-slice", r, intT(0), n, n), T{"(mk-slice 0 0 0 0)", SSlice})
		return u.ctx.define("match", res), true
	case "ReplaceAllString":
		return u.ctx.uf("re_replace", u.ss(), pat, term(args[1]), term(args[2])), true
	case "FindString":
		return u.ctx.uf("re_find", u.ss(), pat, term(args[1])), true
	}
	return nil, false
}

// matchFacts: what a constant pattern says about a few constant texts, computed with Go's regexp.
func (u *Unit) matchFacts(p string) {
	if u.con == nil || !u.con.Strs || u.ctx.theory {
		return
	}
	re, err := regexp.Compile(p)
	if err != nil {
		return
	}
	pat := u.ctx.strLit(p)
	for _, s := range []string{"", ".", "..", "/", "a", "~"} {
		m := u.ctx.uf("re_match", SBool, pat, u.ctx.strLit(s))
		if !re.MatchString(s) {
			m = mkNot(m)
		}
		u.ctx.axiomOnce("match:"+p+":"+s, "(assert "+m.S+")")
	}
}

// lockOf: the value of a mutex is its zero value (unlocked) or the constant for locked.
func (u *Unit) lockedConst(t types.Type) T {
	s := u.sortOf(t)
	n := "mutex_locked_" + sanitize(string(s))
	if !u.ctx.sorts[n] {
		u.ctx.sorts[n] = true
		u.ctx.pre = append(u.ctx.pre, fmt.Sprintf("(declare-const %s %s)", n, s), fmt.Sprintf("(assert (not (= %s %s)))", n, u.zero(t).S))
	}
	return T{n, s}
}

// mutex models Lock and Unlock as seen by one goroutine: locking a mutex it holds already never returns,
// unlocking one it does not hold panics. While it waits, whatever the mutex protects may change.
func (u *Unit) mutex(fr *Frame, st *State, key string, fn *ssa.Function, args []Val, p token.Pos) Val {
	mt := fn.Signature.Recv().Type().(*types.Pointer).Elem()
	old := term(u.load(fr, st, args[0], mt, p))
	if strings.HasSuffix(key, ".Lock") {
		u.safety(fr, st, "lock-held", p, mkEq(old, u.zero(mt)))
		u.store(fr, st, args[0], u.lockedConst(mt), mt, p)
		for _, pr := range u.con.Protects {
			if a, ok := u.C.Ghosts[pr.Ghost]; ok {
				env := u.ensEnv(st, u.entrySt)
				s, _ := env.parseType(a)
				h := u.ghostHeap(pr.Ghost, s)
				u.hset(st, h, T{}, u.ctx.fresh("H_"+h, u.hget(st, h).Sort))
			}
		}
		return nil
	}
	u.safety(fr, st, "unlock-unheld", p, mkNot(mkEq(old, u.zero(mt))))
	u.store(fr, st, args[0], u.zero(mt), mt, p)
	return nil
}

// guards: a callee that uses protected state is called with the mutex held.
func (u *Unit) guards(st *State, con *Contract, p token.Pos) {
	for _, pr := range u.con.Protects {
		if !strings.HasPrefix(con.Key, pr.Callee) {
			continue
		}
		t, err := u.ensEnv(st, u.entrySt).evalBool(&Expr{Op: "call", Args: []*Expr{{Op: "id", S: "locked"}, pr.E}})
		if err != nil {
			panic(unsupported("protects: " + err.Error()))
		}
		u.obligation(st, "guard", "guard:"+con.Key, u.pos(p), t)
	}
}

func (u *Unit) rePat(re T) T {
	if p, ok := u.reOf[re.S]; ok {
		return u.ctx.strLit(p)
	}
	return u.ctx.uf("repat", u.ss(), re)
}

func countGroups(p string) int {
	n := 0
	for i := 0; i < len(p); i++ {
		if p[i] == '\\' {
			i++
			continue
		}
		if p[i] == '(' && !(i+1 < len(p) && p[i+1] == '?') {
			n++
		}
	}
	return n
}

// libMethod models calls through dependency interfaces.
func (u *Unit) libMethod(fr *Frame, st *State, mkey string, c *ssa.CallCommon, recv Val, args []Val, p token.Pos) (Val, bool) {
	switch mkey {
	case "error.Error":
		return u.ctx.uf("error.Error", u.ss(), term(recv)), true
	case "fs.DirEntry.Name", "fs.FileInfo.Name", "fs.DirEntry.IsDir", "fs.FileInfo.IsDir", "fs.FileInfo.Size":
		return u.ctx.uf(mkey, u.sortOf(c.Signature().Results().At(0).Type()), term(recv)), true
	}
	return nil, false
}
