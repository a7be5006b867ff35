package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// globalLit: a package variable whose initialiser is a slice or map literal of constants, which is
// never assigned again, and of which every use reads (range, index, lookup, len): its contents are
// the literal's at every moment.
//
// Maps of pointers to structs count too when the struct type is immutable: no field of a value of that
// type is written anywhere except in the function that has just allocated it.
type globalLit struct {
	keys, vals []constant.Value
	structs    []map[string]constant.Value // instead of vals
	kt, vt     types.Type
}

func (P *Program) findGlobalLits(fns map[*ssa.Function]bool) {
	P.globalLits = map[string]*globalLit{}
	for _, p := range P.pkgs {
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, s := range gd.Specs {
					vs := s.(*ast.ValueSpec)
					if len(vs.Names) != len(vs.Values) {
						continue
					}
					for i, n := range vs.Names {
						cl, ok := vs.Values[i].(*ast.CompositeLit)
						if !ok || n.Name == "_" {
							continue
						}
						if g := litOf(p.TypesInfo, cl); g != nil {
							P.globalLits[p.Types.Name()+"."+n.Name] = g
						}
					}
				}
			}
		}
	}
	if len(P.globalLits) == 0 {
		return
	}
	mutable := mutableStructs(fns)
	for k, g := range P.globalLits {
		if g.structs != nil && mutable[types.TypeString(g.vt.(*types.Pointer).Elem(), nil)] {
			delete(P.globalLits, k)
		}
	}
	var rands [8]*ssa.Value
	for fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(rands[:0]) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg == nil {
						continue
					}
					gk := globalKey(g)
					if P.globalLits[gk] == nil {
						continue
					}
					if _, ok := in.(*ssa.DebugRef); ok {
						continue
					}
					if st, ok := in.(*ssa.Store); ok && st.Addr == *op && fn.Synthetic == "package initializer" {
						continue
					}
					if ld, ok := in.(*ssa.UnOp); ok && ld.Op == token.MUL && onlyRead(ld, map[ssa.Value]bool{}) {
						continue
					}
					delete(P.globalLits, gk)
				}
			}
		}
	}
}

// mutableStructs: the struct types with a field or value that is written (or whose address is passed on)
// other than in the function that allocated the value.
func mutableStructs(fns map[*ssa.Function]bool) map[string]bool {
	res := map[string]bool{}
	name := func(t types.Type) string {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			return types.TypeString(p.Elem(), nil)
		}
		return ""
	}
	for fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if _, ok := x.Addr.(*ssa.Alloc); !ok {
						if _, ok := x.Addr.(*ssa.Global); !ok {
							res[name(x.Addr.Type())] = true
						}
					}
				case *ssa.FieldAddr:
					if _, ok := x.X.(*ssa.Alloc); ok {
						continue
					}
					for _, r := range *x.Referrers() {
						switch y := r.(type) {
						case *ssa.DebugRef:
						case *ssa.UnOp:
							if y.Op != token.MUL {
								res[name(x.X.Type())] = true
							}
						default:
							res[name(x.X.Type())] = true
						}
					}
				}
			}
		}
	}
	return res
}

func onlyRead(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef, *ssa.Range:
		case *ssa.Store:
			// kept in a local variable that is only read
			a, ok := x.Addr.(*ssa.Alloc)
			if !ok || a.Heap {
				return false
			}
			for _, q := range *a.Referrers() {
				switch y := q.(type) {
				case *ssa.DebugRef:
				case *ssa.Store:
					if y.Addr != ssa.Value(a) {
						return false
					}
				case *ssa.UnOp:
					if y.Op != token.MUL || !onlyRead(y, seen) {
						return false
					}
				default:
					return false
				}
			}
		case *ssa.Phi:
			if !onlyRead(x, seen) {
				return false
			}
		case *ssa.Lookup:
			if x.X != v {
				return false
			}
		case *ssa.IndexAddr:
			if x.X != v {
				return false
			}
			for _, q := range *x.Referrers() {
				switch y := q.(type) {
				case *ssa.DebugRef:
				case *ssa.UnOp:
					if y.Op != token.MUL {
						return false
					}
				default:
					return false
				}
			}
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" && b.Name() != "cap" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func litOf(info *types.Info, cl *ast.CompositeLit) *globalLit {
	t := info.Types[cl].Type
	if t == nil {
		return nil
	}
	g := &globalLit{}
	basic := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&(types.IsInteger|types.IsString) != 0
	}
	switch x := t.Underlying().(type) {
	case *types.Slice:
		g.vt = x.Elem()
		if !basic(g.vt) {
			return nil
		}
		for _, e := range cl.Elts {
			if _, ok := e.(*ast.KeyValueExpr); ok {
				return nil
			}
			c := info.Types[e].Value
			if c == nil {
				return nil
			}
			g.vals = append(g.vals, c)
		}
	case *types.Map:
		g.kt, g.vt = x.Key(), x.Elem()
		if !basic(g.kt) {
			return nil
		}
		if ptr, ok := g.vt.(*types.Pointer); ok {
			if _, ok := ptr.Elem().Underlying().(*types.Struct); ok {
				return structLit(info, cl, g)
			}
		}
		if !basic(g.vt) {
			return nil
		}
		for _, e := range cl.Elts {
			kv, ok := e.(*ast.KeyValueExpr)
			if !ok {
				return nil
			}
			k, v := info.Types[kv.Key].Value, info.Types[kv.Value].Value
			if k == nil || v == nil {
				return nil
			}
			g.keys, g.vals = append(g.keys, k), append(g.vals, v)
		}
	default:
		return nil
	}
	if len(g.vals) > 64 {
		return nil
	}
	return g
}

func structLit(info *types.Info, cl *ast.CompositeLit, g *globalLit) *globalLit {
	for _, e := range cl.Elts {
		kv, ok := e.(*ast.KeyValueExpr)
		if !ok {
			return nil
		}
		k := info.Types[kv.Key].Value
		v := kv.Value
		if a, ok := v.(*ast.UnaryExpr); ok && a.Op == token.AND {
			v = a.X
		}
		in, ok := v.(*ast.CompositeLit)
		if !ok || k == nil {
			return nil
		}
		fs := map[string]constant.Value{}
		for _, f := range in.Elts {
			fkv, ok := f.(*ast.KeyValueExpr)
			if !ok {
				return nil
			}
			n, ok := fkv.Key.(*ast.Ident)
			if !ok {
				return nil
			}
			fs[n.Name] = info.Types[fkv.Value].Value // nil if not constant
		}
		g.keys, g.structs = append(g.keys, k), append(g.structs, fs)
	}
	if len(g.keys) == 0 || len(g.keys) > 400 {
		return nil
	}
	return g
}

// globalFacts: the contents of a constant package variable that was just loaded.
func (u *Unit) globalFacts(st *State, a *LV, v Val) {
	g := u.P.globalLits[a.cell[2:]]
	if g == nil {
		return
	}
	t, ok := v.(T)
	if !ok {
		return
	}
	u.assumed["package variable "+a.cell[2:]+" keeps its literal (every use was checked to only read it)"] = true
	switch x := a.root.Underlying().(type) {
	case *types.Slice:
		row := sel(u.hget(st, u.elemHeap(x.Elem())), sliceRef(t))
		fs := []T{mkEq(sliceLen(t), intT(int64(len(g.vals)))), app(SBool, ">", sliceRef(t), intT(0))}
		for i, c := range g.vals {
			fs = append(fs, mkEq(sel(row, u.sidx(sliceOff(t), intT(int64(i)))), term(u.constVal(ssa.NewConst(c, g.vt)))))
		}
		u.assume(st, mkAnd(fs...))
	case *types.Map:
		dom := sel(u.hget(st, u.mapDom(x)), t)
		val := sel(u.hget(st, u.mapVal(x)), t)
		fs := []T{app(SBool, ">", t, intT(0))}
		var eqs []string
		if g.structs != nil {
			u.structFacts(st, g, t, x)
			return
		}
		for i := range g.keys {
			k := term(u.constVal(ssa.NewConst(g.keys[i], g.kt)))
			fs = append(fs, sel(dom, k), mkEq(sel(val, k), term(u.constVal(ssa.NewConst(g.vals[i], g.vt)))))
			eqs = append(eqs, "(= k "+k.S+")")
		}
		is := "false"
		if len(eqs) > 0 {
			is = "(or " + strings.Join(eqs, " ") + ")"
		}
		dk := sel(dom, T{"k", u.sortOf(g.kt)})
		fs = append(fs, T{fmt.Sprintf("(forall ((k %s)) (! (= %s %s) :pattern (%s)))", u.sortOf(g.kt), dk.S, is, dk.S), SBool})
		u.assume(st, mkAnd(fs...))
	}
}

// structFacts: the contents of a constant map of pointers to immutable structs. A field that is the same
// for all entries, or equal to the key, is stated once for all keys.
func (u *Unit) structFacts(st *State, g *globalLit, t T, x *types.Map) {
	dom := sel(u.hget(st, u.mapDom(x)), t)
	val := sel(u.hget(st, u.mapVal(x)), t)
	pt := g.vt.(*types.Pointer).Elem()
	str := pt.Underlying().(*types.Struct)
	si := u.structOf(pt)
	if si.opaque {
		return
	}
	fs := []T{app(SBool, ">", t, intT(0))}
	ks := make([]T, len(g.keys))
	var eqs []string
	for i := range g.keys {
		ks[i] = term(u.constVal(ssa.NewConst(g.keys[i], g.kt)))
		fs = append(fs, sel(dom, ks[i]))
		eqs = append(eqs, "(= k "+ks[i].S+")")
	}
	qk := T{"k", u.sortOf(g.kt)}
	dk, vk := sel(dom, qk), sel(val, qk)
	all := func(body string) {
		fs = append(fs, T{fmt.Sprintf("(forall ((k %s)) (! %s :pattern (%s) :pattern (%s)))", qk.Sort, body, dk.S, vk.S), SBool})
	}
	all(fmt.Sprintf("(= %s (or %s))", dk.S, strings.Join(eqs, " ")))
	all(fmt.Sprintf("(=> %s (and (> %s 0) (< %s %s)))", dk.S, vk.S, vk.S, u.alloc0.S))
	for i := 0; i < str.NumFields(); i++ {
		f := str.Field(i)
		if b, ok := f.Type().Underlying().(*types.Basic); !ok || b.Info()&(types.IsInteger|types.IsString|types.IsBoolean) == 0 {
			continue
		}
		zero := constant.MakeString("")
		switch b := f.Type().Underlying().(*types.Basic); {
		case b.Info()&types.IsInteger != 0:
			zero = constant.MakeInt64(0)
		case b.Info()&types.IsBoolean != 0:
			zero = constant.MakeBool(false)
		}
		same, iskey, known := true, true, true
		vs := make([]constant.Value, len(g.keys))
		for j := range g.keys {
			v, given := g.structs[j][f.Name()]
			if !given {
				v = zero
			}
			vs[j] = v
			if v == nil {
				known = false
				break
			}
			same = same && constant.Compare(v, token.EQL, vs[0])
			iskey = iskey && v.Kind() == g.keys[j].Kind() && constant.Compare(v, token.EQL, g.keys[j])
		}
		if !known {
			continue
		}
		h := u.hget(st, u.fieldHeap(pt, i))
		switch {
		case same:
			all(fmt.Sprintf("(=> %s %s)", dk.S, mkEq(sel(h, vk), term(u.constVal(ssa.NewConst(vs[0], f.Type())))).S))
		case iskey:
			all(fmt.Sprintf("(=> %s %s)", dk.S, mkEq(sel(h, vk), qk).S))
		default:
			for j := range vs {
				fs = append(fs, mkEq(sel(h, sel(val, ks[j])), term(u.constVal(ssa.NewConst(vs[j], f.Type())))))
			}
		}
	}
	u.assume(st, mkAnd(fs...))
}
