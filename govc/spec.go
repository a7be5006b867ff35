package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SV is a specification-level value: a symbolic value with its Go type (nil
// for purely logical values such as sets and bags).
type SV struct {
	val Val
	typ types.Type
}

type Env struct {
	u     *Unit
	st    *State
	old   *State
	entry *State
	vars  map[string]SV
	fr    *Frame
	loop  *loopCtx
	con   *Contract
	pkg   string
	qn    *int
	bound map[string]bool // SMT symbols bound by enclosing quantifiers
}

func (e *Env) with(name string, v SV) *Env {
	n := *e
	n.vars = make(map[string]SV, len(e.vars)+1)
	for k, x := range e.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}
func (e *Env) at(st *State) *Env {
	n := *e
	n.st = st
	return &n
}

func (e *Env) evalTerm(x *Expr) (t T, err error) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				err = se
				return
			}
			if se, ok := r.(unsup); ok {
				err = se
				return
			}
			panic(r)
		}
	}()
	return e.term(x), nil
}

func (e *Env) evalBool(x *Expr) (t T, err error) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				err = se
				return
			}
			if se, ok := r.(unsup); ok {
				err = se
				return
			}
			panic(r)
		}
	}()
	e.u.ctx.noDefine++
	defer func() { e.u.ctx.noDefine-- }()
	t = e.term(x)
	if t.Sort != SBool {
		return t, specErr("not a boolean: " + x.String())
	}
	return t, nil
}

type specErr string

func (s specErr) Error() string { return string(s) }

func sfail(f string, a ...any) { panic(specErr(fmt.Sprintf(f, a...))) }

func (x *Expr) String() string {
	switch x.Op {
	case "id", "int":
		return x.S
	case "str":
		return fmt.Sprintf("%q", x.S)
	case "bin":
		return "(" + x.Args[0].String() + " " + x.S + " " + x.Args[1].String() + ")"
	case "un":
		return x.S + x.Args[0].String()
	case "field":
		return x.Args[0].String() + "." + x.S
	case "index":
		return x.Args[0].String() + "[" + x.Args[1].String() + "]"
	case "call":
		var as []string
		for _, a := range x.Args[1:] {
			as = append(as, a.String())
		}
		return x.Args[0].String() + "(" + strings.Join(as, ", ") + ")"
	}
	return x.Op + " ..."
}

func (e *Env) term(x *Expr) T {
	v := e.eval(x)
	return e.svTerm(v, x)
}
func (e *Env) svTerm(v SV, x *Expr) T {
	switch y := v.val.(type) {
	case T:
		return y
	case OIface:
		return y.t
	case *LV:
		if y.kind == 'c' && len(y.path) == 0 {
			break
		}
	}
	sfail("no term for %s (%T)", x.String(), v.val)
	return T{}
}

// parseType resolves a type written in a contract.
func (e *Env) parseType(s string) (Sort, types.Type) {
	u := e.u
	switch s {
	case "int", "ref":
		return SInt, types.Typ[types.Int]
	case "string":
		return u.ss(), types.Typ[types.String]
	case "bool":
		return SBool, types.Typ[types.Bool]
	case "error":
		return SIface, types.Universe.Lookup("error").Type()
	case "strset":
		return arr(u.ss(), SBool), nil
	case "strbag":
		return arr(u.ss(), SInt), nil
	case "strmap":
		return arr(u.ss(), u.ss()), nil
	case "strrow":
		return arr(SInt, u.ss()), nil
	case "ifacerow":
		return arr(SInt, SIface), nil
	case "ifacestr":
		return arr(SIface, u.ss()), nil
	case "any":
		return SIface, types.NewInterfaceType(nil, nil)
	case "trace", "event":
		n := "Trace"
		if s == "event" {
			n = "Event"
		}
		if !u.ctx.sorts[n] {
			u.ctx.sorts[n] = true
			u.ctx.pre = append(u.ctx.pre, "(declare-sort "+n+" 0)")
		}
		return Sort(n), nil
	}
	t := u.goType(s, e.pkgName())
	if t == nil {
		sfail("unknown type %q", s)
	}
	return u.sortOf(t), t
}

func (e *Env) pkgName() string {
	if e.pkg != "" {
		return e.pkg
	}
	if e.con != nil {
		return e.con.Pkg
	}
	return ""
}

// goType parses a Go type expression in the scope of package pkg; package
// qualified names use the package name.
func (u *Unit) goType(s string, pkg string) types.Type {
	s = strings.TrimSpace(s)
	switch {
	case strings.HasPrefix(s, "*"):
		if t := u.goType(s[1:], pkg); t != nil {
			return types.NewPointer(t)
		}
		return nil
	case strings.HasPrefix(s, "[]"):
		if t := u.goType(s[2:], pkg); t != nil {
			return types.NewSlice(t)
		}
		return nil
	case strings.HasPrefix(s, "map["):
		d := 0
		for i := 3; i < len(s); i++ {
			if s[i] == '[' {
				d++
			}
			if s[i] == ']' {
				d--
				if d == 0 {
					k, v := u.goType(s[4:i], pkg), u.goType(s[i+1:], pkg)
					if k == nil || v == nil {
						return nil
					}
					return types.NewMap(k, v)
				}
			}
		}
		return nil
	}
	if o := types.Universe.Lookup(s); o != nil {
		return o.Type()
	}
	if strings.Contains(s, ".") {
		return u.P.lookupType(s)
	}
	return u.P.lookupType(pkg + "." + s)
}

func (e *Env) lookup(name string) (SV, bool) {
	if v, ok := e.vars[name]; ok {
		return v, true
	}
	u := e.u
	for fr := e.fr; fr != nil; fr = fr.parent {
		as := fr.names[name]
		if n, ok := u.renames[name]; ok && len(as) == 0 {
			as = fr.names[n]
		}
		for i := len(as) - 1; i >= 0; i-- {
			a := as[i]
			pt := a.Type().(*types.Pointer).Elem()
			if v, ok := e.st.cells[fr.cellName(a)]; ok {
				return SV{v, pt}, true
			}
			if r, ok := fr.regs[a]; ok {
				if t, ok := r.(T); ok && t.Sort == SInt {
					if _, isS := pt.Underlying().(*types.Struct); isS {
						return SV{t, types.NewPointer(pt)}, true
					}
				}
			}
		}
		for i, f := range fr.fn.FreeVars {
			if f.Name() == name && i < len(fr.free) {
				if l, ok := fr.free[i].(*LV); ok && l.kind == 'c' && len(l.path) == 0 {
					if v, ok := e.st.cells[l.cell]; ok {
						return SV{v, l.typ}, true
					}
				}
				if t, ok := fr.free[i].(T); ok {
					return SV{t, f.Type()}, true
				}
			}
		}
	}
	if e.loop != nil || e.fr != nil {
		if v, ok := u.params[name]; ok {
			return v, true
		}
	}
	switch name {
	case "true":
		return SV{tTrue, types.Typ[types.Bool]}, true
	case "false":
		return SV{tFalse, types.Typ[types.Bool]}, true
	case "nil":
		return SV{T{"nil", "Nil"}, types.Typ[types.UntypedNil]}, true
	}
	if s, ok := u.C.Ghosts[name]; ok {
		return SV{u.hget(e.st, u.ghostHeap(name, u.ghostSort(s))), nil}, true
	}
	if o := u.P.lookupObj(e.pkgName(), name); o != nil {
		if v, ok := e.objVal(o); ok {
			return v, true
		}
	}
	return SV{}, false
}

func (e *Env) objVal(o types.Object) (SV, bool) {
	u := e.u
	switch c := o.(type) {
	case *types.Const:
		switch c.Val().Kind() {
		case constant.String:
			return SV{u.ctx.strLit(constant.StringVal(c.Val())), c.Type()}, true
		case constant.Bool:
			if constant.BoolVal(c.Val()) {
				return SV{tTrue, c.Type()}, true
			}
			return SV{tFalse, c.Type()}, true
		case constant.Int:
			s := c.Val().ExactString()
			if strings.HasPrefix(s, "-") {
				s = "(- " + s[1:] + ")"
			}
			return SV{T{s, SInt}, c.Type()}, true
		}
	case *types.Var:
		key := "G:" + o.Pkg().Name() + "." + o.Name()
		if v, ok := e.st.cells[key]; ok {
			return SV{v, o.Type()}, true
		}
		return SV{u.globalInit(e.st, &LV{kind: 'c', cell: key, root: o.Type(), typ: o.Type()}), o.Type()}, true
	}
	return SV{}, false
}

func (u *Unit) ghostSort(s string) Sort {
	e := &Env{u: u, con: u.con}
	so, _ := e.parseType(s)
	return so
}

func refOf(v T) T {
	switch v.Sort {
	case SSlice:
		return sliceRef(v)
	case SIface:
		return ifPay(v)
	}
	return v
}

func (e *Env) eval(x *Expr) SV {
	u := e.u
	switch x.Op {
	case "id":
		v, ok := e.lookup(x.S)
		if !ok {
			sfail("unknown name %s", x.S)
		}
		return v
	case "int":
		return SV{T{x.S, SInt}, types.Typ[types.Int]}
	case "str":
		return SV{u.ctx.strLit(x.S), types.Typ[types.String]}
	case "un":
		a := e.term(x.Args[0])
		if x.S == "!" {
			return SV{mkNot(a), types.Typ[types.Bool]}
		}
		return SV{app(SInt, "-", a), types.Typ[types.Int]}
	case "bin":
		return e.bin(x)
	case "forall", "exists":
		return e.quant(x)
	case "field":
		return e.field(x)
	case "index":
		return e.index(x)
	case "call":
		return e.call(x)
	}
	sfail("bad expression")
	return SV{}
}

func (e *Env) quant(x *Expr) SV {
	u := e.u
	env := e
	var bs []string
	defer func(d int) { u.qdepth = d }(u.qdepth)
	for _, b := range x.Binders {
		so, ty := e.parseType(b.Type)
		// names by nesting depth, so that equal formulas are equal terms
		u.qdepth++
		n := fmt.Sprintf("q_%s!%d", b.Name, u.qdepth)
		env = env.with(b.Name, SV{T{n, so}, ty})
		bs = append(bs, fmt.Sprintf("(%s %s)", n, so))
	}
	body := env.term(x.Args[0])
	var pats []string
	for _, tr := range x.Trigs {
		var ts []string
		for _, t := range tr {
			o := env.trigTerm(t).S
			p := patTerms(o, bs)
			if len(p) == 1 && p[0] == o {
				ts = append(ts, o)
			} else if len(p) > 0 {
				ts = append(ts, "\x01"+o+"\x02"+strings.Join(p, " ")+"\x03")
			}
		}
		if len(ts) == 0 {
			continue
		}
		pats = append(pats, ":pattern ("+strings.Join(ts, " ")+")")
	}
	b := body.S
	if len(pats) > 0 {
		b = "(! " + b + " " + strings.Join(pats, " ") + ")"
	}
	if b == "true" || b == "false" {
		return SV{T{b, SBool}, types.Typ[types.Bool]}
	}
	return SV{T{"(" + x.Op + " (" + strings.Join(bs, " ") + ") " + b + ")", SBool}, types.Typ[types.Bool]}
}

// patTerms turns a term into legal pattern terms: connectives, arithmetic and
// if-then-else are replaced by the subterms that cover the bound variables.
func patTerms(s string, binders []string) []string {
	var cand []string
	var rec func(s string)
	rec = func(s string) {
		h, args := sexpr(s)
		if len(args) == 0 {
			return
		}
		switch h {
		case "ite", "and", "or", "not", "=", "=>", "+", "-", "*", "<", ">", "<=", ">=", "distinct":
			for _, a := range args {
				rec(a)
			}
		default:
			cand = append(cand, s)
		}
	}
	rec(s)
	if len(cand) == 1 && cand[0] == s {
		return cand
	}
	var vars []string
	for _, b := range binders {
		v := b[1:strings.IndexByte(b, ' ')]
		if hasSym(s, v) {
			vars = append(vars, v)
		}
	}
	covered := map[string]bool{}
	var res []string
	for len(covered) < len(vars) {
		best, bn := -1, 0
		for i, c := range cand {
			n := 0
			for _, v := range vars {
				if !covered[v] && hasSym(c, v) {
					n++
				}
			}
			if n > bn {
				best, bn = i, n
			}
		}
		if best < 0 {
			return nil
		}
		for _, v := range vars {
			if hasSym(cand[best], v) {
				covered[v] = true
			}
		}
		res = append(res, cand[best])
	}
	return res
}

func hasSym(s, v string) bool {
	for i := 0; ; {
		j := strings.Index(s[i:], v)
		if j < 0 {
			return false
		}
		j += i
		k := j + len(v)
		if (j == 0 || s[j-1] == ' ' || s[j-1] == '(') && (k == len(s) || s[k] == ' ' || s[k] == ')') {
			return true
		}
		i = k
	}
}

// sexpr splits "(f a b)" into head and arguments; atoms have no arguments.
func sexpr(s string) (string, []string) {
	if len(s) < 2 || s[0] != '(' {
		return s, nil
	}
	var parts []string
	d, st := 0, -1
	str := false
	for i := 1; i < len(s)-1; i++ {
		c := s[i]
		if str {
			if c == '"' {
				str = false
			}
			continue
		}
		switch {
		case c == '"':
			str = true
			if st < 0 {
				st = i
			}
		case c == '(':
			if d == 0 && st < 0 {
				st = i
			}
			d++
		case c == ')':
			d--
		case c == ' ' && d == 0:
			if st >= 0 {
				parts = append(parts, s[st:i])
				st = -1
			}
		default:
			if st < 0 {
				st = i
			}
		}
	}
	if st >= 0 {
		parts = append(parts, s[st:len(s)-1])
	}
	if len(parts) == 0 {
		return s, nil
	}
	return parts[0], parts[1:]
}

// trigTerm: `k in m` inside a trigger is the raw membership term.
func (e *Env) trigTerm(x *Expr) T {
	return e.term(x)
}

func isNilT(t T) bool { return t.Sort == "Nil" }

func (e *Env) nilCmp(a T) T {
	switch a.Sort {
	case SSlice:
		return mkEq(sliceRef(a), intT(0))
	case SIface:
		return mkEq(ifTag(a), intT(0))
	case SInt:
		return mkEq(a, intT(0))
	}
	sfail("comparison of %s with nil", a.Sort)
	return T{}
}

func (e *Env) bin(x *Expr) SV {
	u := e.u
	bt := types.Typ[types.Bool]
	switch x.S {
	case "&&", "||", "==>", "<==>":
		a, b := e.term(x.Args[0]), e.term(x.Args[1])
		if a.Sort != SBool || b.Sort != SBool {
			sfail("boolean operands expected in %s", x.String())
		}
		switch x.S {
		case "&&":
			return SV{mkAnd(a, b), bt}
		case "||":
			return SV{mkOr(a, b), bt}
		case "==>":
			return SV{mkImp(a, b), bt}
		}
		return SV{mkEq(a, b), bt}
	case "in":
		k := e.term(x.Args[0])
		c := e.eval(x.Args[1])
		ct := e.svTerm(c, x.Args[1])
		if c.typ != nil {
			switch m := c.typ.Underlying().(type) {
			case *types.Map:
				return SV{sel(sel(u.hget(e.st, u.mapDom(m)), ct), k), bt}
			case *types.Slice:
				return SV{app(SBool, ">", sel(u.bagOf(e.st, ct, m.Elem()), k), intT(0)), bt}
			}
		}
		if _, v, ok := splitArr(ct.Sort); ok {
			if v == SInt {
				return SV{app(SBool, ">", sel(ct, k), intT(0)), bt}
			}
			return SV{sel(ct, k), bt}
		}
		sfail("bad operand of in: %s", x.String())
	}
	av, bv := e.eval(x.Args[0]), e.eval(x.Args[1])
	a, b := e.svTermNil(av, x.Args[0]), e.svTermNil(bv, x.Args[1])
	switch x.S {
	case "==", "!=":
		var t T
		if isNilT(b) {
			t = e.nilCmp(a)
		} else if isNilT(a) {
			t = e.nilCmp(b)
		} else {
			if a.Sort != b.Sort {
				sfail("sorts differ in %s: %s / %s", x.String(), a.Sort, b.Sort)
			}
			t = mkEq(a, b)
		}
		if x.S == "!=" {
			t = mkNot(t)
		}
		return SV{t, bt}
	case "<", "<=", ">", ">=":
		if a.Sort == u.ss() {
			switch x.S {
			case "<":
				return SV{u.strLt(a, b), bt}
			case ">":
				return SV{u.strLt(b, a), bt}
			case "<=":
				return SV{mkNot(u.strLt(b, a)), bt}
			}
			return SV{mkNot(u.strLt(a, b)), bt}
		}
		return SV{app(SBool, x.S, a, b), bt}
	case "+":
		if a.Sort == u.ss() {
			return SV{u.strCat(a, b), types.Typ[types.String]}
		}
		if _, v, ok := splitArr(a.Sort); ok && v == SInt {
			return SV{u.bagPlus(a, b), nil}
		}
		return SV{app(SInt, "+", a, b), types.Typ[types.Int]}
	case "-", "*":
		return SV{app(SInt, x.S, a, b), types.Typ[types.Int]}
	case "/":
		return SV{u.goDiv(a, b), types.Typ[types.Int]}
	case "%":
		return SV{app(SInt, "-", a, app(SInt, "*", b, u.goDiv(a, b))), types.Typ[types.Int]}
	}
	sfail("operator %s", x.S)
	return SV{}
}

func (e *Env) svTermNil(v SV, x *Expr) T {
	switch v.val.(type) {
	case *Clo, *LV:
		return intT(1)
	}
	return e.svTerm(v, x)
}

func (e *Env) tryLookup(x *Expr) bool {
	if x.Op != "id" {
		return true
	}
	_, ok := e.lookup(x.S)
	return ok
}

func (e *Env) field(x *Expr) SV {
	u := e.u
	if x.Args[0].Op == "id" && !e.tryLookup(x.Args[0]) {
		o := u.P.lookupObj(x.Args[0].S, x.S)
		if o != nil {
			if v, ok := e.objVal(o); ok {
				return v
			}
		}
		sfail("unknown %s", x.String())
	}
	b := e.eval(x.Args[0])
	return e.fieldOf(b, x.S, x)
}

func (e *Env) fieldOf(b SV, name string, x *Expr) SV {
	u := e.u
	if b.typ == nil {
		sfail("field of untyped value: %s", x.String())
	}
	pkg := u.pkgOf(b.typ)
	o, path, _ := types.LookupFieldOrMethod(b.typ, true, pkg, name)
	if _, ok := o.(*types.Var); !ok {
		sfail("no field %s in %s", name, b.typ)
	}
	cur := b
	for _, i := range path {
		switch t := cur.typ.Underlying().(type) {
		case *types.Pointer:
			s := t.Elem()
			st := s.Underlying().(*types.Struct)
			switch v := cur.val.(type) {
			case T:
				si := u.structOf(s)
				if si.opaque {
					sfail("field of opaque struct %s", s)
				}
				cur = SV{sel(u.hget(e.st, u.fieldHeap(s, i)), v), st.Field(i).Type()}
			case *LV:
				rv := u.loadRoot(e.st, v)
				for _, sp := range v.path {
					rv = u.stepGet(rv, sp)
				}
				cur = SV{u.stepGet(rv, step{field: i, st: s}), st.Field(i).Type()}
			default:
				sfail("field through %T", cur.val)
			}
		case *types.Struct:
			v := e.svTerm(cur, x)
			cur = SV{u.stepGet(v, step{field: i, st: cur.typ}), t.Field(i).Type()}
		default:
			sfail("field of %s", cur.typ)
		}
	}
	return cur
}

// hasField: t is a struct or a pointer to one with a direct field of this name and type
func (e *Env) hasField(t types.Type, name string, ft types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || e.u.structOf(t).opaque {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name && types.Identical(s.Field(i).Type(), ft) {
			return true
		}
	}
	return false
}

func (u *Unit) pkgOf(t types.Type) *types.Package {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

func (e *Env) index(x *Expr) SV {
	u := e.u
	b := e.eval(x.Args[0])
	bt := e.svTerm(b, x.Args[0])
	k := e.term(x.Args[1])
	if b.typ != nil {
		switch t := b.typ.Underlying().(type) {
		case *types.Map:
			return SV{sel(sel(u.hget(e.st, u.mapVal(t)), bt), k), t.Elem()}
		case *types.Slice:
			return SV{sel(sel(u.hget(e.st, u.elemHeap(t.Elem())), sliceRef(bt)), u.sidx(sliceOff(bt), k)), t.Elem()}
		case *types.Basic:
			return SV{u.strAt(bt, k), types.Typ[types.Int]}
		}
	}
	if _, _, ok := splitArr(bt.Sort); ok {
		return SV{sel(bt, k), nil}
	}
	sfail("index of %s", x.Args[0].String())
	return SV{}
}

func (e *Env) litArg(x *Expr) string {
	if x.Op == "str" {
		return x.S
	}
	if x.Op == "id" {
		return x.S
	}
	sfail("literal argument expected")
	return ""
}

func (e *Env) call(x *Expr) SV {
	u := e.u
	bt := types.Typ[types.Bool]
	it := types.Typ[types.Int]
	f := x.Args[0]
	args := x.Args[1:]
	if f.Op == "field" && f.Args[0].Op == "id" {
		key := f.Args[0].S + "." + f.S
		var ts []T
		for _, a := range args {
			ts = append(ts, e.term(a))
		}
		if con := u.C.lookup(key); con != nil && con.Pure {
			return e.pureCall(con, key, ts)
		}
		switch key {
		case "strings.Split":
		case "errors.Is":
			u.errFacts()
			return SV{u.ctx.uf("errors.Is", SBool, ts...), bt}
		case "filepath.Join", "path.Join":
			return SV{u.joinPath(ts), types.Typ[types.String]}
		default:
			if t, ok := u.pureLib(key, ts); ok {
				var ty types.Type
				switch t.Sort {
				case SBool:
					ty = bt
				case SInt:
					ty = it
				default:
					ty = types.Typ[types.String]
				}
				return SV{t, ty}
			}
		}
		sfail("unknown function %s", key)
	}
	if f.Op != "id" {
		sfail("cannot call %s", f.String())
	}
	need := func(n int) {
		if len(args) != n {
			sfail("%s takes %d arguments", f.S, n)
		}
	}
	if m, ok := u.C.Macros[f.S]; ok {
		if len(m.Params) != len(args) {
			sfail("macro %s takes %d arguments", f.S, len(m.Params))
		}
		env := &Env{u: u, st: e.st, old: e.old, entry: e.entry, con: e.con, vars: map[string]SV{}, pkg: m.Pkg, loop: e.loop}
		for i, p := range m.Params {
			env.vars[p] = e.eval(args[i])
		}
		return env.eval(m.E)
	}
	if lg, ok := u.C.Logics[f.S]; ok {
		need(len(lg.Args))
		var ss []Sort
		var ts []T
		for i, a := range args {
			so, _ := e.parseType(lg.Args[i])
			ss = append(ss, so)
			sv := e.eval(a)
			t := e.svTerm(sv, a)
			if so == SIface && t.Sort != so && a.Op == "str" {
				t = app(SIface, "mk-iface", intT(int64(u.tag(sv.typ))), u.box(t, tTrue))
			}
			if t.Sort != so {
				sfail("argument %d of %s has sort %s, want %s", i+1, f.S, t.Sort, so)
			}
			ts = append(ts, t)
		}
		rs, rt := e.parseType(lg.Res)
		u.ctx.fun("lg_"+lg.Name, ss, rs)
		u.useLogic(lg.Name)
		return SV{app(rs, "lg_"+lg.Name, ts...), rt}
	}
	switch f.S {
	case "old":
		need(1)
		if e.old == nil {
			sfail("old without pre-state")
		}
		n := e.at(e.old)
		n.fr, n.loop = nil, nil
		if e.fr != nil {
			// parameter values on entry
			for k, v := range u.params {
				if _, bound := n.vars[k]; !bound {
					n = n.with(k, v)
				}
			}
			// other locals keep their current value
			n.fr = nil
			return n.evalMixed(args[0], e)
		}
		return n.eval(args[0])
	case "entry":
		need(1)
		if e.entry == nil {
			sfail("entry outside a loop invariant")
		}
		return e.at(e.entry).eval(args[0])
	case "len":
		need(1)
		v := e.eval(args[0])
		t := e.svTerm(v, args[0])
		if t.Sort == SSlice {
			return SV{sliceLen(t), it}
		}
		if t.Sort == u.ss() {
			return SV{u.strLen(t), it}
		}
		if v.typ != nil {
			if m, ok := v.typ.Underlying().(*types.Map); ok {
				return SV{u.card(sel(u.hget(e.st, u.mapDom(m)), t)), it}
			}
		}
		sfail("len of %s", args[0].String())
	case "card":
		need(1)
		return SV{u.card(e.term(args[0])), it}
	case "dom":
		need(1)
		v := e.eval(args[0])
		if v.typ != nil {
			if m, ok := v.typ.Underlying().(*types.Map); ok {
				return SV{sel(u.hget(e.st, u.mapDom(m)), e.svTerm(v, args[0])), nil}
			}
		}
		sfail("dom of non-map %s", args[0].String())
	case "vals":
		need(1)
		v := e.eval(args[0])
		if v.typ != nil {
			if m, ok := v.typ.Underlying().(*types.Map); ok {
				return SV{sel(u.hget(e.st, u.mapVal(m)), e.svTerm(v, args[0])), nil}
			}
		}
		sfail("vals of non-map %s", args[0].String())
	case "row":
		need(1)
		v := e.eval(args[0])
		if v.typ != nil {
			if m, ok := v.typ.Underlying().(*types.Slice); ok {
				return SV{sel(u.hget(e.st, u.elemHeap(m.Elem())), sliceRef(e.svTerm(v, args[0]))), nil}
			}
		}
		sfail("row of non-slice")
	case "bag":
		need(1)
		v := e.eval(args[0])
		t := e.svTerm(v, args[0])
		if v.typ != nil {
			if m, ok := v.typ.Underlying().(*types.Slice); ok {
				return SV{u.bagOf(e.st, t, m.Elem()), nil}
			}
		}
		sfail("bag of non-slice %s", args[0].String())
	case "bagn":
		need(2)
		v := e.eval(args[0])
		t := e.svTerm(v, args[0])
		n := e.term(args[1])
		if v.typ != nil {
			if m, ok := v.typ.Underlying().(*types.Slice); ok {
				row := sel(u.hget(e.st, u.elemHeap(m.Elem())), sliceRef(t))
				return SV{u.bagN(u.sortOf(m.Elem()), row, sliceOff(t), n), nil}
			}
		}
		sfail("bagn of non-slice")
	case "upd":
		need(3)
		return SV{sto(e.term(args[0]), e.term(args[1]), e.term(args[2])), nil}
	case "emptyset":
		so := u.ss()
		if len(args) == 1 {
			so, _ = e.parseType(e.litArg(args[0]))
		}
		return SV{constArr(arr(so, SBool), tFalse), nil}
	case "emptybag":
		so := u.ss()
		if len(args) == 1 {
			so, _ = e.parseType(e.litArg(args[0]))
		}
		return SV{constArr(arr(so, SInt), intT(0)), nil}
	case "ref":
		need(1)
		return SV{refOf(e.term(args[0])), it}
	case "off":
		need(1)
		return SV{sliceOff(e.term(args[0])), it}
	case "fresh":
		need(1)
		r := refOf(e.term(args[0]))
		return SV{mkAnd(app(SBool, ">=", r, e.old.alloc), app(SBool, "<", r, e.st.alloc)), bt}
	case "allocated":
		need(1)
		r := refOf(e.term(args[0]))
		return SV{mkAnd(app(SBool, "<=", intT(0), r), app(SBool, "<", r, e.st.alloc)), bt}
	case "oldalloc":
		need(1)
		r := refOf(e.term(args[0]))
		return SV{mkAnd(app(SBool, "<=", intT(0), r), app(SBool, "<", r, e.old.alloc)), bt}
	case "wasalloc": // allocated at loop entry
		need(1)
		r := refOf(e.term(args[0]))
		return SV{mkAnd(app(SBool, "<=", intT(0), r), app(SBool, "<", r, e.entry.alloc)), bt}
	case "outerkey": // the key of the enclosing map range
		lc := e.loop
		if lc == nil {
			sfail("%s outside a loop", f.S)
		}
		for lc = lc.parent; lc != nil && lc.visited == ""; {
			lc = lc.parent
		}
		if lc == nil {
			sfail("no enclosing map range")
		}
		v, ok := e.st.cells[lc.visited+"#key"]
		if !ok {
			sfail("no key")
		}
		return SV{v, lc.iter.mt.Key()}
	case "visited", "idx", "outervisited", "outeridx":
		lc := e.loop
		if lc == nil {
			sfail("%s outside a loop", f.S)
		}
		nm := f.S
		if strings.HasPrefix(nm, "outer") {
			lc = lc.parent
			nm = nm[5:]
			for lc != nil && (nm == "visited" && lc.visited == "" || nm == "idx" && lc.idxCell == "") {
				lc = lc.parent
			}
			if lc == nil {
				sfail("no enclosing range loop")
			}
		}
		if nm == "visited" {
			v, ok := e.st.cells[lc.visited]
			if !ok {
				sfail("loop is not a map range")
			}
			return SV{v, nil}
		}
		v, ok := e.st.cells[lc.idxCell]
		if !ok {
			sfail("loop is not a slice range")
		}
		if lc.count != nil {
			return SV{v, it}
		}
		return SV{app(SInt, "+", term(v), intT(1)), it}
	case "ranged": // the collection iterated by this loop (slice)
		lc := e.loop
		if lc == nil {
			sfail("ranged outside a loop")
		}
		v := u.rangedSlice(lc)
		if v == nil {
			sfail("loop does not range over a slice")
		}
		return *v
	case "ite":
		need(3)
		c := e.term(args[0])
		a, b := e.eval(args[1]), e.eval(args[2])
		return SV{mkIte(c, e.svTerm(a, args[1]), e.svTerm(b, args[2])), a.typ}
	case "let":
		need(3)
		v := e.eval(args[1])
		return e.with(e.litArg(args[0]), v).eval(args[2])
	case "splitlen":
		need(2)
		return SV{u.splitLen(e.term(args[0]), e.term(args[1])), it}
	case "splitat":
		need(3)
		return SV{sel(u.splitRow(e.term(args[0]), e.term(args[1])), u.sidx(intT(0), e.term(args[2]))), types.Typ[types.String]}
	case "sorted":
		need(1)
		v := e.eval(args[0])
		t := e.svTerm(v, args[0])
		m, ok := v.typ.Underlying().(*types.Slice)
		if !ok {
			sfail("sorted of non-slice")
		}
		return SV{u.sortedRow(sel(u.hget(e.st, u.elemHeap(m.Elem())), sliceRef(t)), sliceOff(t), sliceLen(t)), bt}
	case "locked": // the mutex is held by this goroutine
		need(1)
		v := e.eval(args[0])
		return SV{mkNot(mkEq(e.svTerm(v, args[0]), u.zero(v.typ))), bt}
	case "refunc": // refunc(pattern, s, "pkg.f"): ReplaceAllStringFunc with that function
		need(3)
		return SV{u.ctx.uf("re_replacefunc", u.ss(), e.term(args[0]), e.term(args[1]), e.term(args[2])), types.Typ[types.String]}
	case "rereplace":
		need(3)
		return SV{u.ctx.uf("re_replace", u.ss(), e.term(args[0]), e.term(args[1]), e.term(args[2])), types.Typ[types.String]}
	case "match":
		need(2)
		return SV{u.ctx.uf("re_match", SBool, e.term(args[0]), e.term(args[1])), bt}
	case "revalid": // revalid(pattern): the pattern compiles
		need(1)
		return SV{u.ctx.uf("re_valid", SBool, e.term(args[0])), bt}
	case "ngroups": // ngroups(pattern): number of groups of a pattern including the whole match
		need(1)
		return SV{u.ctx.uf("re_ngroups", SInt, e.term(args[0])), it}
	case "group":
		need(3)
		return SV{sel(u.ctx.uf("re_groups", arr(SInt, u.ss()), e.term(args[0]), e.term(args[1])), u.sidx(intT(0), e.term(args[2]))), types.Typ[types.String]}
	case "atoiok":
		need(1)
		u.itoa(intT(0))
		return SV{u.ctx.uf("strconv.Atoi.ok", SBool, e.term(args[0])), bt}
	case "atoi":
		need(1)
		u.itoa(intT(0))
		return SV{u.ctx.uf("strconv.Atoi", SInt, e.term(args[0])), it}
	case "fmtf": // fmtf("%s-%d", a, b): value of fmt.Sprintf with these arguments
		var vs []Val
		var ts []types.Type
		for _, a := range args[1:] {
			v := e.eval(a)
			vs = append(vs, v.val)
			ts = append(ts, v.typ)
		}
		return SV{u.formatPure(args[0].S, vs, ts), types.Typ[types.String]}
	case "dynfmt": // dynfmt(format, a): fmt.Sprintf with a computed format
		var ts []T
		name := "sprintf"
		ts = append(ts, e.term(args[0]))
		for _, a := range args[1:] {
			t := e.term(a)
			ts = append(ts, t)
			name += "_" + string(t.Sort)
		}
		return SV{u.ctx.uf(name, u.ss(), ts...), types.Typ[types.String]}
	case "fmtlist": // fmtlist(format, a): fmt.Sprintf(format, a...)
		need(2)
		return SV{u.sprintfList(e.st, e.term(args[0]), e.term(args[1])), types.Typ[types.String]}
	case "typeis":
		need(2)
		_, t := e.parseType(e.litArg(args[1]))
		return SV{mkEq(ifTag(e.term(args[0])), intT(int64(u.tag(t)))), bt}
	case "as":
		need(2)
		so, t := e.parseType(e.litArg(args[1]))
		return SV{u.unbox(ifPay(e.term(args[0])), so), t}
	case "anyfield": // anyfield(x, "Field", "type"): the field of the struct (or pointer to one) in x
		need(3)
		so, t := e.parseType(e.litArg(args[2]))
		x, nm := e.term(args[0]), e.litArg(args[1])
		r := u.ctx.uf("anyfield_"+nm+"_"+string(so), so, ifPay(x))
		for n := 1; n <= len(u.tags); n++ {
			for k, m := range u.tags {
				if m != n {
					continue
				}
				tt := u.tagTypes[k]
				if e.hasField(tt, nm, t) {
					b := SV{u.unbox(ifPay(x), u.sortOf(tt)), tt}
					r = mkIte(mkEq(ifTag(x), intT(int64(n))), e.svTerm(e.fieldOf(b, nm, args[0]), args[0]), r)
				}
			}
		}
		return SV{r, t}
	case "bytes2str":
		need(1)
		v := e.eval(args[0])
		m := v.typ.Underlying().(*types.Slice)
		return SV{u.bytesToStr(e.st, e.svTerm(v, args[0]), m.Elem()), types.Typ[types.String]}
	case "join", "joinn": // join(list, sep), joinn(list, n, sep)
		v := e.eval(args[0])
		m, ok := v.typ.Underlying().(*types.Slice)
		if !ok {
			sfail("%s of non-slice", f.S)
		}
		t := e.svTerm(v, args[0])
		n := sliceLen(t)
		if f.S == "joinn" {
			need(3)
			n = e.term(args[1])
		} else {
			need(2)
		}
		return SV{u.joinRow(sel(u.hget(e.st, u.elemHeap(m.Elem())), sliceRef(t)), sliceOff(t), n, e.term(args[len(args)-1])), types.Typ[types.String]}
	case "chr":
		need(1)
		return SV{u.chr(e.term(args[0])), types.Typ[types.String]}
	case "ascii":
		need(1)
		return SV{u.ascii(e.term(args[0])), bt}
	case "hexof":
		need(1)
		return SV{u.hexOf(e.term(args[0])), types.Typ[types.String]}
	case "implements": // implements(x, "pkg.Iface"): the dynamic type of x has the methods of the interface
		need(2)
		t := e.term(args[0])
		return SV{mkAnd(mkNot(mkEq(ifTag(t), intT(0))), u.ctx.uf("implements_"+e.litArg(args[1]), SBool, ifTag(t))), bt}
	case "sbtext": // what was written to a strings.Builder
		need(1)
		t := e.term(args[0])
		u := e.u
		if t.Sort == SInt {
			_, sb := e.parseType("strings.Builder")
			if sb == nil {
				sfail("strings.Builder is not known here")
			}
			t = sel(u.hget(e.st, u.boxHeap(sb)), t)
		}
		u.ctx.fun("sb_text", []Sort{t.Sort}, u.ss())
		return SV{app(u.ss(), "sb_text", t), types.Typ[types.String]}
	case "runesof": // the runes of a text: runesof(s, i)
		need(2)
		r, _ := u.strRow(e.term(args[0]), types.Typ[types.Rune])
		return SV{sel(r, u.sidx(intT(0), e.term(args[1]))), it}
	case "strat":
		need(2)
		return SV{u.strAt(e.term(args[0]), e.term(args[1])), it}
	case "substr":
		need(3)
		return SV{u.substr(e.term(args[0]), e.term(args[1]), e.term(args[2])), types.Typ[types.String]}
	case "libf": // libf("time.Time.String", x): value of a modelled library function or method
		var ts []T
		for _, a := range args[1:] {
			ts = append(ts, e.term(a))
		}
		t, ok := u.pureLib(e.litArg(args[0]), ts)
		if !ok {
			sfail("no model of %s", e.litArg(args[0]))
		}
		switch t.Sort {
		case SBool:
			return SV{t, bt}
		case SInt:
			return SV{t, it}
		}
		return SV{t, types.Typ[types.String]}
	case "libm": // libm("fs.DirEntry.Name", recv): result of a modelled interface method
		key := args[0].S
		t := e.term(args[1])
		so, ty := u.ss(), types.Type(types.Typ[types.String])
		if strings.HasSuffix(key, "IsDir") {
			so, ty = SBool, bt
		}
		if strings.HasSuffix(key, "Size") {
			so, ty = SInt, it
		}
		return SV{u.ctx.uf(key, so, t), ty}
	}
	key := e.pkgName() + "." + f.S
	if con := u.C.lookup(key); con != nil && con.Pure {
		var ts []T
		for _, a := range args {
			ts = append(ts, e.term(a))
		}
		return e.pureCall(con, key, ts)
	}
	sfail("unknown function %s", f.S)
	return SV{}
}

func (e *Env) pureCall(con *Contract, key string, ts []T) SV {
	u := e.u
	fn := u.P.funcs[key]
	if fn == nil {
		sfail("no function %s", key)
	}
	rt := fn.Signature.Results().At(0).Type()
	return SV{u.ctx.uf(fmt.Sprintf("pure_%s_0", key), u.sortOf(rt), ts...), rt}
}

// evalMixed evaluates x in the old state, with locals resolved in env cur.
func (n *Env) evalMixed(x *Expr, cur *Env) SV {
	m := n
	// bind local names that occur free in x and are not parameters
	var walk func(*Expr)
	walk = func(y *Expr) {
		if y.Op == "id" {
			if _, ok := m.vars[y.S]; !ok {
				if v, ok := cur.lookup(y.S); ok {
					if _, g := cur.u.C.Ghosts[y.S]; !g {
						m = m.with(y.S, v)
					}
				}
			}
		}
		for _, a := range y.Args {
			walk(a)
		}
		for _, tr := range y.Trigs {
			for _, a := range tr {
				walk(a)
			}
		}
	}
	walk(x)
	// bound variables inside x shadow anyway
	return m.eval(x)
}

func (u *Unit) useLogic(name string) {
	if u.logicUsed[name] {
		return
	}
	u.logicUsed[name] = true
}

// emitAxioms adds the axioms whose logic symbols are in use.
func (u *Unit) emitAxioms() {
	done := map[string]bool{}
	for round := 0; round < 5; round++ {
		n := len(done)
		for _, a := range u.C.Axioms {
			if done[a.Name] {
				continue
			}
			uses := contains(u.con.Uses, a.Name)
			var walk func(*Expr)
			walk = func(y *Expr) {
				if y.Op == "id" && u.logicUsed[y.S] {
					uses = true
				}
				for _, b := range y.Args {
					walk(b)
				}
				for _, tr := range y.Trigs {
					for _, b := range tr {
						walk(b)
					}
				}
			}
			walk(a.E)
			if !uses {
				continue
			}
			done[a.Name] = true
			env := &Env{u: u, st: u.entrySt, old: u.entrySt, vars: map[string]SV{}, con: u.con, pkg: a.Pkg}
			t, err := env.evalBool(a.E)
			if err != nil {
				panic(unsupported("axiom " + a.Name + ": " + err.Error()))
			}
			u.ctx.pre = append(u.ctx.pre, "(assert "+t.S+")")
			u.assumed["axiom "+a.Name+": "+a.Src] = true
		}
		if len(done) == n {
			break
		}
	}
}

func (u *Unit) rangedSlice(lc *loopCtx) *SV {
	if lc.count != nil {
		if t, ok := lc.entry.cells[lc.fr.cellName(lc.countX)].(T); ok {
			return &SV{t, lc.countX.Type().(*types.Pointer).Elem()}
		}
		return nil
	}
	// header: rangeindex+1 < len; body reads IndexAddr(x, idx)
	for b := range lc.info.blocks {
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			// the index is a load of the rangeindex cell or the increment
			ok = false
			switch ix := ia.Index.(type) {
			case *ssa.UnOp:
				if a, isA := ix.X.(*ssa.Alloc); isA && ix.Op == token.MUL && a.Comment == "rangeindex" && lc.fr.cellName(a) == lc.idxCell {
					ok = true
				}
			case *ssa.BinOp:
				if y, isU := ix.X.(*ssa.UnOp); isU {
					if a, isA := y.X.(*ssa.Alloc); isA && a.Comment == "rangeindex" && lc.fr.cellName(a) == lc.idxCell {
						ok = true
					}
				}
			}
			if !ok {
				continue
			}
			if v, has := lc.fr.regs[ia.X]; has {
				if t, isT := v.(T); isT && t.Sort == SSlice {
					return &SV{t, ia.X.Type()}
				}
			}
		}
	}
	return nil
}

func (u *Unit) formatPure(f string, vs []Val, tys []types.Type) T {
	return u.format(nil, f, vs, tys)
}

// evalInv evaluates a loop invariant in state st.
func (u *Unit) evalInv(c *loopCtx, inv *Invariant, st *State) (T, error) {
	if inv.freshCell != "" {
		v, ok := st.cells[inv.freshCell].(T)
		if !ok {
			return T{}, specErr("no cell " + inv.freshCell)
		}
		if inv.sepCell != "" {
			o, ok := st.cells[inv.sepCell].(T)
			if !ok {
				return T{}, specErr("no cell " + inv.sepCell)
			}
			return mkOr(mkEq(sliceRef(v), intT(0)), mkNot(mkEq(sliceRef(v), sliceRef(o)))), nil
		}
		return mkOr(mkEq(sliceRef(v), intT(0)), app(SBool, ">=", sliceRef(v), u.alloc0)), nil
	}
	if inv.frame != "" {
		return u.frameTerm(inv.frame, st)
	}
	if inv.idxIn {
		i, ok := st.cells[c.idxCell].(T)
		x := u.rangedSlice(c)
		if !ok || x == nil {
			return T{}, specErr("no counter")
		}
		return mkAnd(app(SBool, "<=", intT(0), i), app(SBool, "<=", i, sliceLen(term(x.val)))), nil
	}
	env := &Env{u: u, st: st, old: u.entrySt, entry: c.entry, vars: map[string]SV{}, fr: c.fr, loop: c, con: u.con}
	return env.evalBool(inv.E)
}

// frameTerm: heap h in st agrees with its entry value outside the unit's
// modifies set, for every reference allocated on entry.
func (u *Unit) frameTerm(h string, st *State) (T, error) {
	cur := u.hget(st, h)
	h0 := u.initHeaps[h]
	if cur.S == h0.S {
		return tTrue, nil
	}
	fp, err := u.unitFootprint()
	if err != nil {
		return T{}, err
	}
	m := fp[h]
	info := u.heaps[h]
	if info.kind == 'g' {
		if m != nil {
			return tTrue, nil
		}
		return mkEq(cur, h0), nil
	}
	r := T{"r", SInt}
	cond := app(SBool, "<", r, u.alloc0)
	if m != nil {
		if m.all {
			return tTrue, nil
		}
		cond = mkAnd(cond, mkNot(m.pred(r)))
	}
	return T{fmt.Sprintf("(forall ((r Int)) (! (=> %s (= (select %s r) (select %s r))) :pattern ((select %s r))))", cond.S, cur.S, h0.S, cur.S), SBool}, nil
}

type foot struct {
	all   bool
	refs  []T
	preds []func(T) T
}

func (f *foot) pred(r T) T {
	var ts []T
	for _, x := range f.refs {
		ts = append(ts, mkEq(r, x))
	}
	for _, p := range f.preds {
		ts = append(ts, p(r))
	}
	return mkOr(ts...)
}

func (u *Unit) unitFootprint() (map[string]*foot, error) {
	if u.fp == nil {
		env := &Env{u: u, st: u.entrySt, old: u.entrySt, vars: u.params, con: u.con}
		fp, err := u.footprint(u.con, env)
		if err != nil {
			return nil, err
		}
		u.fp = fp
	}
	return u.fp, nil
}

// footprint evaluates the modifies clauses of con in env.
func (u *Unit) footprint(con *Contract, env *Env) (out map[string]*foot, err error) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				err = se
				return
			}
			if se, ok := r.(unsup); ok {
				err = se
				return
			}
			panic(r)
		}
	}()
	u.ctx.noDefine++
	defer func() { u.ctx.noDefine-- }()
	out = map[string]*foot{}
	get := func(h string) *foot {
		if out[h] == nil {
			out[h] = &foot{}
		}
		return out[h]
	}
	for _, m := range con.Modifies {
		x := m.E
		switch {
		case x.Op == "id" && u.C.Ghosts[x.S] != "":
			get(u.ghostHeap(x.S, u.ghostSort(u.C.Ghosts[x.S]))).all = true
		case x.Op == "field":
			b := env.eval(x.Args[0])
			pt, ok := b.typ.Underlying().(*types.Pointer)
			if !ok {
				sfail("modifies %s: not a pointer", m.Src)
			}
			o, path, _ := types.LookupFieldOrMethod(b.typ, true, u.pkgOf(b.typ), x.S)
			if o == nil {
				sfail("modifies %s: no such field", m.Src)
			}
			cur := b
			for n, i := range path {
				pt2, ok := cur.typ.Underlying().(*types.Pointer)
				if !ok {
					// embedded by value: the whole embedded struct cell
					break
				}
				s := pt2.Elem()
				if n == len(path)-1 {
					f := get(u.fieldHeap(s, i))
					f.refs = append(f.refs, env.svTerm(cur, x))
					break
				}
				ft := s.Underlying().(*types.Struct).Field(i).Type()
				if _, isP := ft.Underlying().(*types.Pointer); !isP {
					f := get(u.fieldHeap(s, i))
					f.refs = append(f.refs, env.svTerm(cur, x))
					break
				}
				cur = SV{sel(u.hget(env.st, u.fieldHeap(s, i)), env.svTerm(cur, x)), ft}
			}
			_ = pt
		case x.Op == "call" && x.Args[0].Op == "id":
			args := x.Args[1:]
			switch x.Args[0].S {
			case "map":
				v := env.eval(args[0])
				mt, ok := v.typ.Underlying().(*types.Map)
				if !ok {
					sfail("modifies %s: not a map", m.Src)
				}
				t := env.svTerm(v, args[0])
				for _, h := range []string{u.mapDom(mt), u.mapVal(mt)} {
					f := get(h)
					f.refs = append(f.refs, t)
				}
			case "elems":
				v := env.eval(args[0])
				s, ok := v.typ.Underlying().(*types.Slice)
				if !ok {
					sfail("modifies %s: not a slice", m.Src)
				}
				f := get(u.elemHeap(s.Elem()))
				f.refs = append(f.refs, sliceRef(env.svTerm(v, args[0])))
			case "box":
				v := env.eval(args[0])
				p := v.typ.Underlying().(*types.Pointer)
				f := get(u.boxHeap(p.Elem()))
				f.refs = append(f.refs, env.svTerm(v, args[0]))
			case "struct":
				v := env.eval(args[0])
				p, ok := v.typ.Underlying().(*types.Pointer)
				if !ok {
					sfail("modifies %s: not a pointer", m.Src)
				}
				s := p.Elem().Underlying().(*types.Struct)
				for i := 0; i < s.NumFields(); i++ {
					f := get(u.fieldHeap(p.Elem(), i))
					f.refs = append(f.refs, env.svTerm(v, args[0]))
				}
			case "allmaps":
				_, t := env.parseType(env.litArg(args[0]))
				mt := t.Underlying().(*types.Map)
				get(u.mapDom(mt)).all = true
				get(u.mapVal(mt)).all = true
			case "allboxes":
				_, t := env.parseType(env.litArg(args[0]))
				get(u.boxHeap(t)).all = true
			case "allelems":
				_, t := env.parseType(env.litArg(args[0]))
				get(u.elemHeap(t)).all = true
			case "allfields": // allfields("Type", "field")
				_, t := env.parseType(env.litArg(args[0]))
				s := t.Underlying().(*types.Struct)
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == args[1].S {
						get(u.fieldHeap(t, i)).all = true
					}
				}
			case "maps_where", "elems_where", "vals_where":
				_, t := env.parseType(env.litArg(args[0]))
				var hs []string
				switch x.Args[0].S {
				case "maps_where":
					mt := t.Underlying().(*types.Map)
					hs = []string{u.mapDom(mt), u.mapVal(mt)}
				case "elems_where":
					hs = []string{u.elemHeap(t)}
				}
				name := env.litArg(args[1])
				body := args[2]
				for _, h := range hs {
					f := get(h)
					f.preds = append(f.preds, func(r T) T {
						return env.with(name, SV{r, types.Typ[types.Int]}).term(body)
					})
				}
			case "field_where": // field_where("Type","field", r, pred)
				_, t := env.parseType(env.litArg(args[0]))
				s := t.Underlying().(*types.Struct)
				name := env.litArg(args[2])
				body := args[3]
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == args[1].S {
						f := get(u.fieldHeap(t, i))
						f.preds = append(f.preds, func(r T) T {
							return env.with(name, SV{r, types.Typ[types.Int]}).term(body)
						})
					}
				}
			default:
				sfail("modifies %s", m.Src)
			}
		default:
			sfail("modifies %s", m.Src)
		}
	}
	return out, nil
}
