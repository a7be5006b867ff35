package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func constStr(k *ssa.Const) string {
	if k.Value != nil && k.Value.Kind() == constant.String {
		return constant.StringVal(k.Value)
	}
	return ""
}

// sortOf maps a Go type to an SMT sort, declaring datatypes as needed.
func (u *Unit) sortOf(t types.Type) Sort {
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			return SBool
		case x.Info()&types.IsInteger != 0:
			return SInt
		case x.Info()&types.IsString != 0:
			return u.ctx.strSort()
		case x.Info()&types.IsFloat != 0, x.Info()&types.IsComplex != 0:
			return SFloat
		case x.Kind() == types.UntypedNil, x.Kind() == types.UnsafePointer:
			return SRef
		}
		return SInt
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SRef
	case *types.Slice:
		return SSlice
	case *types.Interface:
		return SIface
	case *types.Array:
		return arr(SInt, u.sortOf(x.Elem()))
	case *types.Struct:
		return u.structSort(t)
	case *types.Tuple:
		return SInt
	}
	panic(unsupported("sort of type " + t.String()))
}

type structInfo struct {
	sort   Sort
	ctor   string
	fields []string
	sorts  []Sort
	ftypes []types.Type
	opaque bool
}

func (u *Unit) structKey(t types.Type) string { return typeStr(t) }

func (u *Unit) structOf(t types.Type) *structInfo {
	key := u.structKey(t)
	if s, ok := u.structs[key]; ok {
		return s
	}
	st := t.Underlying().(*types.Struct)
	name := "S_" + sanitize(key)
	if len(name) > 60 {
		name = fmt.Sprintf("S_anon%d", len(u.structs))
	}
	si := &structInfo{sort: Sort(name), ctor: "mk_" + name}
	u.structs[key] = si
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && !u.P.isModule(n.Obj().Pkg()) {
		// struct of a dependency held by value: opaque when it has
		// unexported fields
		for i := 0; i < st.NumFields(); i++ {
			if !st.Field(i).Exported() {
				si.opaque = true
			}
		}
	}
	if si.opaque {
		u.ctx.pre = append(u.ctx.pre, fmt.Sprintf("(declare-sort %s 0)", name), fmt.Sprintf("(declare-const zero_%s %s)", name, name))
		return si
	}
	var fs []string
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		fn := fmt.Sprintf("%s_%d_%s", name, i, sanitize(f.Name()))
		fsrt := u.sortOf(f.Type())
		si.fields = append(si.fields, fn)
		si.sorts = append(si.sorts, fsrt)
		si.ftypes = append(si.ftypes, f.Type())
		fs = append(fs, fmt.Sprintf("(%s %s)", fn, fsrt))
	}
	u.ctx.pre = append(u.ctx.pre, fmt.Sprintf("(declare-datatypes ((%s 0)) (((%s %s))))", name, si.ctor, strings.Join(fs, " ")))
	return si
}
func (u *Unit) structSort(t types.Type) Sort { return u.structOf(t).sort }

func (u *Unit) zero(t types.Type) T {
	switch x := t.Underlying().(type) {
	case *types.Slice:
		return T{"(mk-slice 0 0 0 0)", SSlice}
	case *types.Interface:
		return T{"(mk-iface 0 0)", SIface}
	case *types.Array:
		return u.ctx.carr(u.sortOf(t), u.zero(x.Elem()))
	case *types.Struct:
		si := u.structOf(t)
		if si.opaque {
			return T{"zero_" + string(si.sort), si.sort}
		}
		var fs []T
		for _, ft := range si.ftypes {
			fs = append(fs, u.zero(ft))
		}
		return app(si.sort, si.ctor, fs...)
	}
	s := u.sortOf(t)
	switch s {
	case SBool:
		return tFalse
	case SInt:
		return intT(0)
	case SFloat:
		u.ctx.fun("float_zero", nil, SFloat)
		return T{"float_zero", SFloat}
	}
	return u.ctx.strLit("")
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isRefType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

// wf is the typing assumption for a value of Go type t under allocation
// counter alloc.
func (u *Unit) wf(v T, t types.Type, alloc T) T {
	switch x := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return mkAnd(app(SBool, "<=", intT(0), v), app(SBool, "<", v, alloc))
	case *types.Slice:
		ref, off, ln, cp := sliceRef(v), sliceOff(v), sliceLen(v), sliceCap(v)
		return mkAnd(app(SBool, "<=", intT(0), ref), app(SBool, "<", ref, alloc), app(SBool, "<=", intT(0), off),
			app(SBool, "<=", intT(0), ln), app(SBool, "<=", ln, cp), mkImp(mkEq(ref, intT(0)), mkEq(cp, intT(0))))
	case *types.Basic:
		if isUnsigned(t) {
			lo := app(SBool, "<=", intT(0), v)
			if x.Kind() == types.Uint8 {
				return mkAnd(lo, app(SBool, "<=", v, intT(255)))
			}
			return lo
		}
	case *types.Struct:
		si := u.structOf(t)
		if si.opaque {
			return tTrue
		}
		var cs []T
		for i, ft := range si.ftypes {
			cs = append(cs, u.wf(app(si.sorts[i], si.fields[i], v), ft, alloc))
		}
		return mkAnd(cs...)
	case *types.Interface:
		return mkAnd(app(SBool, "<=", intT(0), ifTag(v)))
	}
	return tTrue
}

func sliceRef(v T) T { return sliceSel(v, 0, "sref") }
func sliceOff(v T) T { return sliceSel(v, 1, "soff") }
func sliceLen(v T) T { return sliceSel(v, 2, "slen") }
func sliceCap(v T) T { return sliceSel(v, 3, "scap") }

func sliceSel(v T, i int, f string) T {
	if strings.HasPrefix(v.S, "(mk-slice ") {
		if as := sexpArgs(v.S); len(as) == 4 {
			return T{as[i], SInt}
		}
	}
	return app(SInt, f, v)
}

func ifTag(v T) T {
	if strings.HasPrefix(v.S, "(mk-iface ") {
		if as := sexpArgs(v.S); len(as) == 2 {
			return T{as[0], SInt}
		}
	}
	return app(SInt, "itag", v)
}
func ifPay(v T) T {
	if strings.HasPrefix(v.S, "(mk-iface ") {
		if as := sexpArgs(v.S); len(as) == 2 {
			return T{as[1], SInt}
		}
	}
	return app(SInt, "ipay", v)
}

// sexpArgs splits "(f a b c)" into [a b c].
func sexpArgs(s string) []string {
	if len(s) < 2 || s[0] != '(' {
		return nil
	}
	body := s[1 : len(s)-1]
	var out []string
	depth, start := 0, 0
	inq := false
	for i := 0; i < len(body); i++ {
		ch := body[i]
		if inq {
			if ch == '"' {
				inq = false
			}
			continue
		}
		switch ch {
		case '"':
			inq = true
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				if i > start {
					out = append(out, body[start:i])
				}
				start = i + 1
			}
		}
	}
	if start < len(body) {
		out = append(out, body[start:])
	}
	if len(out) == 0 {
		return nil
	}
	return out[1:]
}

// ---- heaps ----

type heapInfo struct {
	name string
	kind byte // 'f' field, 'b' box, 'e' elems, 'd' map dom, 'v' map val, 'g' ghost
	sort Sort
	elem types.Type // field/box/elem/map value type
	key  Sort       // map key sort
}

func (u *Unit) heap(info heapInfo) string {
	if _, ok := u.heaps[info.name]; ok {
		return info.name
	}
	u.heaps[info.name] = info
	n := "H0_" + sanitize(info.name)
	u.ctx.pre = append(u.ctx.pre, fmt.Sprintf("(declare-const %s %s)", n, info.sort))
	t := T{n, info.sort}
	u.initHeaps[info.name] = t
	if c := u.closed(info, t, u.alloc0); c.S != "true" {
		u.ctx.pre = append(u.ctx.pre, "(assert "+c.S+")")
	}
	return info.name
}

// closed: every allocated location of the heap holds a well-formed value.
func (u *Unit) closed(info heapInfo, h T, alloc T) T {
	switch info.kind {
	case 'f', 'b':
		r := T{"r", SInt}
		v := sel(h, r)
		w := u.wf(v, info.elem, alloc)
		if w.S == "true" {
			return tTrue
		}
		return T{fmt.Sprintf("(forall ((r Int)) (! (=> (< r %s) %s) :pattern ((select %s r))))", alloc.S, w.S, h.S), SBool}
	case 'e':
		r := T{"r", SInt}
		j := T{"j", SInt}
		v := sel(sel(h, r), j)
		w := u.wf(v, info.elem, alloc)
		if w.S == "true" {
			return tTrue
		}
		return T{fmt.Sprintf("(forall ((r Int)(j Int)) (! (=> (< r %s) %s) :pattern ((select (select %s r) j))))", alloc.S, w.S, h.S), SBool}
	case 'v':
		r := T{"r", SInt}
		k := T{"k", info.key}
		v := sel(sel(h, r), k)
		w := u.wf(v, info.elem, alloc)
		if w.S == "true" {
			return tTrue
		}
		return T{fmt.Sprintf("(forall ((r Int)(k %s)) (! (=> (< r %s) %s) :pattern ((select (select %s r) k))))", info.key, alloc.S, w.S, h.S), SBool}
	case 'd':
		r := T{"r", SInt}
		fin := T{fmt.Sprintf("(forall ((r Int)) (! (>= %s 0) :pattern (%s)))", u.card(sel(h, r)).S, u.card(sel(h, r)).S), SBool}
		return mkAnd(mkEq(sel(h, intT(0)), constArr(arr(info.key, SBool), tFalse)), fin)
	}
	return tTrue
}

func (u *Unit) fieldHeap(structT types.Type, i int) string {
	st := structT.Underlying().(*types.Struct)
	f := st.Field(i)
	return u.heap(heapInfo{name: "F_" + u.structKey(structT) + "." + f.Name(), kind: 'f', sort: arr(SInt, u.sortOf(f.Type())), elem: f.Type()})
}
func (u *Unit) boxHeap(t types.Type) string {
	return u.heap(heapInfo{name: "B_" + typeStr(t), kind: 'b', sort: arr(SInt, u.sortOf(t)), elem: t})
}
func (u *Unit) elemHeap(t types.Type) string {
	return u.heap(heapInfo{name: "E_" + typeStr(t), kind: 'e', sort: arr(SInt, arr(SInt, u.sortOf(t))), elem: t})
}
func (u *Unit) mapDom(m *types.Map) string {
	return u.heap(heapInfo{name: "MD_" + typeStr(m), kind: 'd', sort: arr(SInt, arr(u.sortOf(m.Key()), SBool)), key: u.sortOf(m.Key())})
}
func (u *Unit) mapVal(m *types.Map) string {
	return u.heap(heapInfo{name: "MV_" + typeStr(m), kind: 'v', sort: arr(SInt, arr(u.sortOf(m.Key()), u.sortOf(m.Elem()))), key: u.sortOf(m.Key()), elem: m.Elem()})
}
func (u *Unit) ghostHeap(name string, s Sort) string {
	return u.heap(heapInfo{name: "G_" + name, kind: 'g', sort: s})
}

func (u *Unit) tag(t types.Type) int {
	k := typeStr(t)
	if n, ok := u.tags[k]; ok {
		return n
	}
	n := len(u.tags) + 1
	u.tags[k] = n
	u.tagTypes[k] = t
	return n
}

func (u *Unit) box(v T, pc T) T {
	if v.Sort == SInt {
		return v
	}
	b := u.ctx.uf("box_"+string(v.Sort), SInt, v)
	un := u.ctx.uf("unbox_"+string(v.Sort), v.Sort, b)
	u.ctx.assume(tTrue, mkEq(un, v))
	return b
}
func (u *Unit) unbox(p T, s Sort) T {
	if s == SInt {
		return p
	}
	return u.ctx.uf("unbox_"+string(s), s, p)
}
