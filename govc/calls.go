package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (u *Unit) call(fr *Frame, st *State, c *ssa.CallCommon, p token.Pos, at ssa.Value, key string) Val {
	fnv := u.eval(fr, st, c.Value)
	var args []Val
	for _, a := range c.Args {
		args = append(args, u.eval(fr, st, a))
	}
	return u.callWith(fr, st, c, fnv, args, p, at, key)
}

func (u *Unit) freshOf(st *State, t types.Type, base string) Val {
	if tp, ok := t.(*types.Tuple); ok {
		if tp.Len() == 0 {
			return nil
		}
		if tp.Len() == 1 {
			return u.freshOf(st, tp.At(0).Type(), base)
		}
		var out Tup
		for i := 0; i < tp.Len(); i++ {
			out = append(out, u.freshOf(st, tp.At(i).Type(), base))
		}
		return out
	}
	v := u.ctx.fresh(base, u.sortOf(t))
	if w := u.wf(v, t, st.alloc); w.S != "true" {
		u.assume(st, w)
	}
	return v
}

func (u *Unit) callWith(fr *Frame, st *State, c *ssa.CallCommon, fnv Val, args []Val, p token.Pos, at ssa.Value, key string) Val {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return u.builtin(fr, st, b, c, args, p)
	}
	if c.IsInvoke() {
		return u.invoke(fr, st, c, fnv, args, p, key)
	}
	var fn *ssa.Function
	var free []Val
	if clo, ok := fnv.(*Clo); ok {
		fn, free = clo.fn, clo.binds
	}
	if fn == nil {
		// call of an unknown function value
		return u.unknownCall(fr, st, "func value "+c.Value.Name(), c.Signature(), args, p, c)
	}
	return u.callFn(fr, st, fn, free, args, p, c, key)
}

func (u *Unit) invoke(fr *Frame, st *State, c *ssa.CallCommon, recv Val, args []Val, p token.Pos, key string) Val {
	it := c.Value.Type()
	mkey := typeStr(it) + "." + c.Method.Name()
	// devirtualise when the dynamic type is syntactically known
	if t, ok := recv.(T); ok && strings.HasPrefix(t.S, "(mk-iface ") {
		as := sexpArgs(t.S)
		for k, n := range u.tags {
			if fmt.Sprint(n) == as[0] {
				if ct := u.tagTypes[k]; ct != nil {
					if m := u.P.prog.LookupMethod(ct, c.Method.Pkg(), c.Method.Name()); m != nil {
						rv := u.unbox(T{as[1], SInt}, u.sortOf(ct))
						return u.callFn(fr, st, m, nil, append([]Val{rv}, args...), p, c, key)
					}
				}
			}
		}
	}
	if con := u.C.lookup(mkey); con != nil {
		if t, ok := recv.(T); ok && con.Trusted {
			u.safety(fr, st, "nil-deref", p, mkNot(mkEq(ifTag(t), intT(0))))
		}
		if con.inlineBy != nil {
			return u.inlineDispatch(fr, st, con, c, recv, args, p, key)
		}
		return u.applyContract(fr, st, con, c.Signature(), append([]Val{recv}, args...), p)
	}
	// a method of an embedded interface
	if sg, ok := c.Method.Type().(*types.Signature); ok && sg.Recv() != nil {
		if con := u.C.lookup(typeStr(sg.Recv().Type()) + "." + c.Method.Name()); con != nil {
			return u.applyContract(fr, st, con, c.Signature(), append([]Val{recv}, args...), p)
		}
	}
	if v, ok := u.libMethod(fr, st, mkey, c, recv, args, p); ok {
		return v
	}
	if t, ok := recv.(T); ok && u.P.isModuleType(it) {
		u.safety(fr, st, "nil-deref", p, mkNot(mkEq(ifTag(t), intT(0))))
	}
	return u.unknownCall(fr, st, mkey, c.Signature(), append([]Val{recv}, args...), p, c)
}

// inlineDispatch runs the code of the method a dispatch names.
func (u *Unit) inlineDispatch(fr *Frame, st *State, con *Contract, c *ssa.CallCommon, recv Val, args []Val, p token.Pos, key string) Val {
	fn := u.P.funcs[con.dispatch]
	if fn == nil {
		panic(unsupported("no code of " + con.dispatch))
	}
	env := &Env{u: u, st: st, old: st, vars: map[string]SV{}, con: con}
	u.bindParams(env, con, c.Signature(), append([]Val{recv}, args...))
	t, err := env.evalBool(con.Requires[0].E)
	if err != nil {
		panic(unsupported("dispatch " + con.Key + ": " + err.Error()))
	}
	u.nOblCall[con.Key]++
	u.obligation(st, "requires", fmt.Sprintf("call:%s#%d:requires:dispatch", con.Key, u.nOblCall[con.Key]), u.pos(p), t)
	u.assume(st, t)
	base := env.eval(con.inlineBy)
	return u.inline(fr, st, fn, nil, append([]Val{base.val}, args...), p, key)
}

func (P *Program) isModuleType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && P.isModule(n.Obj().Pkg())
}

// unknownCall: results are arbitrary values of their types; memory visible to
// the unit is assumed unchanged (recorded), except locals whose address is
// passed.
func (u *Unit) unknownCall(fr *Frame, st *State, what string, sig *types.Signature, args []Val, p token.Pos, c *ssa.CallCommon) Val {
	if u.C.NoCall[what] != "" {
		panic(unsupported("call of " + what + ": " + u.C.NoCall[what]))
	}
	if !quietPkg(what) {
		u.assumed["unverified callee, results arbitrary, no effect on modelled memory: "+what] = true
	}
	for _, a := range args {
		u.havocPointee(fr, st, a)
	}
	res := u.freshOf(st, sig.Results(), "r_"+lastName(what))
	if tp, ok := res.(Tup); ok && len(tp) > 1 && types.TypeString(sig.Results().At(len(tp)-1).Type(), nil) == "error" {
		// the Go convention: a pointer or interface returned with a nil error is usable
		if e, ok := tp[len(tp)-1].(T); ok {
			for i := 0; i < len(tp)-1; i++ {
				v, ok := tp[i].(T)
				if !ok {
					continue
				}
				switch sig.Results().At(i).Type().Underlying().(type) {
				case *types.Pointer:
					u.assume(st, mkImp(mkEq(ifTag(e), intT(0)), mkNot(mkEq(v, intT(0)))))
					u.assumed["external functions return a usable pointer/interface when their error is nil"] = true
				case *types.Interface:
					u.assume(st, mkImp(mkEq(ifTag(e), intT(0)), mkNot(mkEq(ifTag(v), intT(0)))))
					u.assumed["external functions return a usable pointer/interface when their error is nil"] = true
				}
			}
		}
	}
	return res
}

func quietPkg(s string) bool {
	return strings.HasPrefix(s, "zLogger.") || strings.HasPrefix(s, "zerolog.") || strings.Contains(s, "zerolog.")
}

func lastName(s string) string {
	i := strings.LastIndex(s, ".")
	return s[i+1:]
}

func (u *Unit) havocPointee(fr *Frame, st *State, a Val) {
	switch x := a.(type) {
	case OIface:
		u.havocPointee(fr, st, x.inner)
	case *LV:
		v := u.freshOf(st, x.typ, "hv")
		u.store(fr, st, x, v, x.typ, token.NoPos)
	case *Clo:
		for _, b := range x.binds {
			if l, ok := b.(*LV); ok {
				_ = l
				panic(unsupported("closure with captured variables passed to unmodelled function"))
			}
		}
	}
}

func (u *Unit) callFn(fr *Frame, st *State, fn *ssa.Function, free []Val, args []Val, p token.Pos, c *ssa.CallCommon, ckey string) Val {
	key := funcKey(fn)
	if con := u.C.lookup(key); con != nil && !con.Inline {
		return u.applyContract(fr, st, con, fn.Signature, args, p)
	}
	if sh := u.P.funcs[shims[key]]; sh != nil {
		if u.P.mentionsSkip() {
			panic(unsupported("fs.SkipDir"))
		}
		u.assumed["library function by its code in govc's shim: "+key] = true
		return u.inline(fr, st, sh, nil, args, p, ckey)
	}
	if v, ok := u.lib(fr, st, key, fn, c, args, p); ok {
		return v
	}
	if len(fn.Blocks) == 0 || (fn.Pkg != nil && !u.P.isModule(fn.Pkg.Pkg) && fn.Origin() == nil) {
		if fn.Synthetic != "" && len(fn.Blocks) > 0 {
			return u.inline(fr, st, fn, free, args, p, ckey)
		}
		return u.unknownCall(fr, st, key, fn.Signature, args, p, c)
	}
	return u.inline(fr, st, fn, free, args, p, ckey)
}

func (u *Unit) inline(fr *Frame, st *State, fn *ssa.Function, free []Val, args []Val, p token.Pos, ckey string) Val {
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			panic(unsupported("recursive call of " + funcKey(fn)))
		}
	}
	if fr.depth > 12 {
		panic(unsupported("inlining too deep at " + funcKey(fn)))
	}
	if u.P.keyOf[fn] != "" && fn.Synthetic == "" {
		u.inlined[funcKey(fn)] = true
	}
	nf, err := u.newFrame(fn, args, free, fr, ckey)
	if err != nil {
		panic(err)
	}
	u.execBlocks(nf, nil, fn.Blocks[0], []edge{{nil, st.clone()}}, nil, u.curLoop(fr))
	if len(nf.rets) == 0 {
		// never returns
		st.pc = tFalse
		return u.zeroResults(fn.Signature.Results())
	}
	ns, vals := u.mergeRets(nf)
	*st = *ns
	switch len(vals) {
	case 0:
		return nil
	case 1:
		return vals[0]
	}
	return Tup(vals)
}

func (u *Unit) curLoop(fr *Frame) *loopCtx { return fr.cur }

func (u *Unit) zeroResults(t *types.Tuple) Val {
	switch t.Len() {
	case 0:
		return nil
	case 1:
		return u.zero(t.At(0).Type())
	}
	var out Tup
	for i := 0; i < t.Len(); i++ {
		out = append(out, u.zero(t.At(i).Type()))
	}
	return out
}

func (u *Unit) mergeRets(nf *Frame) (*State, []Val) {
	n := len(nf.rets[0].vals)
	var es []edge
	for i, r := range nf.rets {
		for j, v := range r.vals {
			r.st.cells[fmt.Sprintf("%s:$ret%d", nf.id, j)] = v
		}
		_ = i
		es = append(es, edge{nil, r.st})
	}
	ns := u.mergeStates(es)
	var vals []Val
	for j := 0; j < n; j++ {
		k := fmt.Sprintf("%s:$ret%d", nf.id, j)
		vals = append(vals, ns.cells[k])
		delete(ns.cells, k)
	}
	// locals of the callee are dead
	for k := range ns.cells {
		if strings.HasPrefix(k, nf.id+":") || strings.HasPrefix(k, nf.id+"/") {
			if !u.keepCells(nf, k, vals) {
				delete(ns.cells, k)
			}
		}
	}
	return ns, vals
}

// keepCells: cells that may still be referenced through returned pointers or
// closures.
func (u *Unit) keepCells(nf *Frame, k string, vals []Val) bool {
	for _, v := range vals {
		switch x := v.(type) {
		case *LV:
			if x.kind == 'c' {
				return true
			}
		case *Clo:
			return true
		case OIface:
			return true
		}
	}
	return false
}

// ---------- contracts at call sites ----------

func (u *Unit) applyContract(fr *Frame, st *State, con *Contract, sig *types.Signature, args []Val, p token.Pos) Val {
	if con.dispatch != "" {
		u.usedCon[con.dispatch] = true
	} else {
		u.usedCon[con.Key] = true
	}
	env := &Env{u: u, st: st, old: st, vars: map[string]SV{}, con: con}
	u.bindParams(env, con, sig, args)
	for k, v := range args {
		if clo, ok := v.(*Clo); ok && len(clo.binds) > 0 {
			_ = k
			panic(unsupported("closure passed to contract function " + con.Key))
		}
	}
	pre := st.clone()
	env.st, env.old = pre, pre
	u.nOblCall[con.Key]++
	site := fmt.Sprintf("call:%s#%d", con.Key, u.nOblCall[con.Key])
	for i, r := range con.Requires {
		t, err := env.evalBool(r.E)
		if err != nil {
			panic(unsupported("requires of " + con.Key + ": " + err.Error()))
		}
		l := r.Label
		if l == "" {
			l = fmt.Sprint(i + 1)
		}
		u.obligation(st, "requires", site+":requires:"+l, u.pos(p), t)
		u.assume(st, t)
	}
	u.guards(st, con, p)
	if con.Pure {
		var ts []T
		for _, a := range args {
			ts = append(ts, term(a))
		}
		var out Tup
		for i := 0; i < sig.Results().Len(); i++ {
			rt := sig.Results().At(i).Type()
			v := u.ctx.uf(fmt.Sprintf("pure_%s_%d", con.Key, i), u.sortOf(rt), ts...)
			if w := u.wf(v, rt, st.alloc); w.S != "true" {
				u.assume(st, w)
			}
			out = append(out, v)
		}
		return u.finishContract(st, pre, con, sig, env, out)
	}
	// havoc the modifies footprint
	if con.Allocates() {
		na := u.ctx.fresh("alloc", SInt)
		u.ctx.assume(tTrue, app(SBool, ">=", na, st.alloc))
		st.alloc = na
		for _, w := range u.wstack {
			w.alloc = true
		}
	}
	mod, err := u.footprint(con, env)
	if err != nil {
		panic(unsupported("modifies of " + con.Key + ": " + err.Error()))
	}
	for _, h := range sortedKeys(mod) {
		m := mod[h]
		info := u.heaps[h]
		old := u.hget(st, h)
		nh := u.ctx.fresh("H_"+h, old.Sort)
		if info.kind == 'g' || m.all {
			u.hset(st, h, T{}, nh)
		} else {
			r := T{"r", SInt}
			keep := mkAnd(app(SBool, "<", r, pre.alloc), mkNot(m.pred(r)))
			u.ctx.assume(tTrue, T{fmt.Sprintf("(forall ((r Int)) (! (=> %s (= (select %s r) (select %s r))) :pattern ((select %s r))))", keep.S, nh.S, old.S, nh.S), SBool})
			ref := T{}
			if len(m.refs) == 1 && len(m.preds) == 0 {
				ref = m.refs[0]
			}
			u.hset(st, h, ref, nh)
			if len(m.refs) > 1 && len(m.preds) == 0 {
				for _, w := range u.wstack {
					delete(w.wild, h)
					if w.refs[h] == nil {
						w.refs[h] = map[string]T{}
					}
					for _, rf := range m.refs {
						w.refs[h][rf.S] = rf
					}
				}
			}
		}
		if c := u.closed(info, nh, st.alloc); c.S != "true" {
			u.ctx.assume(tTrue, c)
		}
	}
	var out Tup
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, u.freshOf(st, sig.Results().At(i).Type(), "r_"+lastName(con.Key)))
	}
	return u.finishContract(st, pre, con, sig, env, out)
}

func (u *Unit) finishContract(st, pre *State, con *Contract, sig *types.Signature, env *Env, out Tup) Val {
	env.st, env.old = st, pre
	u.bindResults(env, con, sig, out)
	for _, e := range con.Ensures {
		t, err := env.evalBool(e.E)
		if err != nil {
			panic(unsupported("ensures of " + con.Key + ": " + err.Error()))
		}
		u.assume(st, t)
	}
	if con.Trusted && con.dispatch == "" {
		u.assumed["assumed contract: "+con.Key] = true
	}
	switch len(out) {
	case 0:
		return nil
	case 1:
		return out[0]
	}
	return out
}

func (u *Unit) bindParams(env *Env, con *Contract, sig *types.Signature, args []Val) {
	var ts []types.Type
	var names []string
	if sig.Recv() != nil {
		ts = append(ts, sig.Recv().Type())
		names = append(names, sig.Recv().Name())
	} else if len(args) == sig.Params().Len()+1 {
		ts = append(ts, con.recvType(u))
		names = append(names, "recv")
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
		names = append(names, sig.Params().At(i).Name())
	}
	for i := range args {
		if i >= len(ts) {
			break
		}
		n := names[i]
		if i < len(con.ParamNames) {
			n = con.ParamNames[i]
		}
		env.vars[n] = SV{val: args[i], typ: ts[i]}
	}
}

func (u *Unit) bindResults(env *Env, con *Contract, sig *types.Signature, out []Val) {
	for i := 0; i < sig.Results().Len() && i < len(out); i++ {
		rt := sig.Results().At(i).Type()
		n := sig.Results().At(i).Name()
		if i < len(con.ResultNames) {
			n = con.ResultNames[i]
		}
		if n != "" && n != "_" {
			env.vars[n] = SV{val: out[i], typ: rt}
		}
		env.vars[fmt.Sprintf("result%d", i)] = SV{val: out[i], typ: rt}
		if i == 0 {
			env.vars["result"] = SV{val: out[i], typ: rt}
		}
		if i == sig.Results().Len()-1 && types.TypeString(rt, nil) == "error" {
			if _, ok := env.vars["err"]; !ok {
				env.vars["err"] = SV{val: out[i], typ: rt}
			}
		}
	}
}

// ---------- builtins ----------

func (u *Unit) builtin(fr *Frame, st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, p token.Pos) Val {
	switch b.Name() {
	case "len", "cap":
		v := term(args[0])
		switch t := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			if b.Name() == "cap" {
				return sliceCap(v)
			}
			return sliceLen(v)
		case *types.Map:
			d := u.ctx.define("dom", sel(u.hget(st, u.mapDom(t)), v))
			u.assume(st, app(SBool, ">=", u.card(d), intT(0)))
			return u.ctx.define("len", u.card(d))
		case *types.Basic:
			n := u.ctx.define("n", u.strLen(v))
			return n
		case *types.Pointer:
			return intT(t.Elem().Underlying().(*types.Array).Len())
		case *types.Array:
			return intT(t.Len())
		}
	case "append":
		return u.appendSlice(fr, st, c, args)
	case "copy":
		return u.copySlice(fr, st, c, args)
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		u.mapDelete(st, mt, term(args[0]), term(args[1]))
		return nil
	case "ssa:deferstack":
		return T{"0", SInt}
	case "ssa:wrapnilchk":
		return args[0]
	case "print", "println", "close":
		return nil
	case "recover":
		return T{"(mk-iface 0 0)", SIface}
	case "min", "max":
		a := term(args[0])
		for _, x := range args[1:] {
			y := term(x)
			if b.Name() == "min" {
				a = mkIte(app(SBool, "<=", a, y), a, y)
			} else {
				a = mkIte(app(SBool, ">=", a, y), a, y)
			}
		}
		return a
	}
	panic(unsupported("builtin " + b.Name()))
}

// varargs returns the values of a syntactic variadic argument list.
func (u *Unit) varargs(fr *Frame, st *State, v ssa.Value) ([]Val, []types.Type, bool) {
	if k, ok := v.(*ssa.Const); ok && k.Value == nil {
		return nil, nil, true
	}
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return nil, nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, nil, false
	}
	at, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil, nil, false
	}
	if al.Comment != "varargs" && al.Comment != "slicelit" {
		return nil, nil, false
	}
	vals := make([]Val, at.Len())
	ts := make([]types.Type, at.Len())
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, nil, false
		}
		for _, rr := range *ia.Referrers() {
			if s, ok := rr.(*ssa.Store); ok {
				i := k.Int64()
				vals[i] = u.eval(fr, st, s.Val)
				ts[i] = s.Val.Type()
				if mi, ok := s.Val.(*ssa.MakeInterface); ok {
					vals[i] = u.eval(fr, st, mi.X)
					ts[i] = mi.X.Type()
				}
			}
		}
	}
	for _, x := range vals {
		if x == nil {
			return nil, nil, false
		}
	}
	return vals, ts, true
}

func (u *Unit) appendSlice(fr *Frame, st *State, c *ssa.CallCommon, args []Val) Val {
	s := term(args[0])
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	es := u.sortOf(et)
	h := u.elemHeap(et)
	H := u.hget(st, h)
	if isString(c.Args[1].Type()) {
		if !u.con.Strs {
			return u.freshOf(st, c.Args[0].Type(), "appstr")
		}
		args = []Val{args[0], u.strToBytes(st, term(args[1]), et)}
		H = u.hget(st, h)
	}
	n0 := sliceLen(s)
	row0 := sel(H, sliceRef(s))
	var elems []T
	static := false
	if vs, _, ok := u.varargsRaw(fr, st, c.Args[1]); ok {
		static = true
		for _, v := range vs {
			elems = append(elems, term(v))
		}
		if len(elems) == 0 {
			return s
		}
	}
	t := term(args[1])
	tn := sliceLen(t)
	if static {
		tn = intT(int64(len(elems)))
	}
	inplace := u.ctx.define("inpl", app(SBool, "<=", app(SInt, "+", n0, tn), sliceCap(s)))
	if sliceCap(s).S == "0" && static {
		inplace = tFalse
	}
	nr := u.newRef(st, "new_append")
	ncap := u.ctx.fresh("cap", SInt)
	nlen := u.ctx.define("len", app(SInt, "+", n0, tn))
	u.assume(st, app(SBool, ">=", ncap, nlen))
	// fresh backing array: copy of the prefix
	cp := u.ctx.fresh("row", arr(SInt, es))
	u.sidx(intT(0), intT(0))
	off := sliceOff(s)
	if n0.S != "0" {
		u.assume(st, T{fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= 0 j) (< j %s)) (= (select %s (sidx 0 j)) (select %s (sidx %s j)))) :pattern ((select %s (sidx 0 j)))))", n0.S, cp.S, row0.S, off.S, cp.S), SBool})
		u.assume(st, T{fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= 0 j) (< j %s)) (= (select %s (sidx 0 j)) (select %s (sidx %s j)))) :pattern ((select %s (sidx %s j)))))", n0.S, cp.S, row0.S, off.S, row0.S, off.S), SBool})
	}
	rref := u.ctx.define("aref", mkIte(inplace, sliceRef(s), nr))
	roff := u.ctx.define("aoff", mkIte(inplace, off, intT(0)))
	rcap := u.ctx.define("acap", mkIte(inplace, sliceCap(s), ncap))
	var rowA, rowB T
	if static {
		rowA, rowB = row0, cp
		for i, e := range elems {
			ix := n0
			if i > 0 {
				ix = app(SInt, "+", n0, intT(int64(i)))
			}
			rowA = sto(rowA, u.sidx(off, ix), e)
			rowB = sto(rowB, u.sidx(intT(0), ix), e)
		}
	} else {
		src := sel(H, sliceRef(t))
		rowA = u.ctx.fresh("row", arr(SInt, es))
		rowB = u.ctx.fresh("row", arr(SInt, es))
		for _, ro := range []struct {
			r, o, base T
		}{{rowA, off, row0}, {rowB, intT(0), cp}} {
			lo := app(SInt, "+", ro.o, n0)
			u.assume(st, T{fmt.Sprintf("(forall ((j Int)) (! (= (select %s j) (ite (and (<= %s j) (< j (+ %s %s))) (select %s (sidx %s (- j %s))) (select %s j))) :pattern ((select %s j))))", ro.r.S, lo.S, lo.S, tn.S, src.S, sliceOff(t).S, lo.S, ro.base.S, ro.r.S), SBool})
		}
	}
	var res T
	newRow := u.ctx.fresh("row", arr(SInt, es))
	u.assume(st, mkEq(newRow, mkIte(inplace, rowA, rowB)))
	if n0.S != "0" {
		u.assume(st, T{fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= 0 j) (< j %s)) (= (select %s (sidx %s j)) (select %s (sidx %s j)))) :pattern ((select %s (sidx %s j))) :pattern ((select %s (sidx %s j)))))", n0.S, newRow.S, roff.S, row0.S, off.S, newRow.S, roff.S, row0.S, off.S), SBool})
	}
	if static {
		for i, e := range elems {
			ix := n0
			if i > 0 {
				ix = app(SInt, "+", n0, intT(int64(i)))
			}
			u.assume(st, mkEq(sel(newRow, u.sidx(roff, ix)), e))
		}
	}
	if u.con.BagIndex && u.con.BagIndexAt == "" {
		u.assume(st, T{fmt.Sprintf("(forall ((k Int)) (! (=> (and (<= %s k) (< k (+ %s %s))) (= (select %s (+ %s (- k %s))) (select %s k))) :pattern ((select %s k))))", off.S, off.S, n0.S, newRow.S, roff.S, off.S, row0.S, row0.S), SBool})
		u.assume(st, T{fmt.Sprintf("(forall ((k Int)) (! (=> (and (<= %s k) (< k (+ %s %s))) (= (select %s k) (select %s (+ %s (- k %s))))) :pattern ((select %s k))))", roff.S, roff.S, n0.S, newRow.S, row0.S, off.S, roff.S, newRow.S), SBool})
	}
	if static || true {
		// appending nothing to a nil slice yields nil: covered by inplace
		u.hset2(st, h, rref, sto(H, rref, newRow), inplace, sliceRef(s), nr)
		res = u.ctx.define("app", app(SSlice, "mk-slice", rref, roff, nlen, rcap))
	}
	if u.con.Bags {
		b0 := u.bagN(es, row0, off, n0)
		b1 := u.bagN(es, newRow, roff, nlen)
		if static {
			b := b0
			for _, e := range elems {
				b = bagAdd(b, e, 1)
			}
			u.assume(st, mkEq(b1, b))
		} else {
			bt := u.bagN(es, sel(H, sliceRef(t)), sliceOff(t), tn)
			u.assume(st, mkEq(b1, u.bagPlus(b0, bt)))
		}
		// the old prefix is unchanged in the new row
		u.assume(st, mkEq(u.bagN(es, newRow, roff, n0), b0))
	}
	if u.con.Strs {
		u.appendFacts(st, et, row0, off, n0, newRow, roff, nlen, elems, static, t, H)
	}
	return res
}

// hset2 is hset where the written reference is one of two known terms.
func (u *Unit) hset2(st *State, name string, ref, v, cond, r1, r2 T) {
	st.heaps[name] = u.ctx.define("h", v)
	for _, w := range u.wstack {
		w.heaps[name] = true
		if w.refs[name] == nil {
			w.refs[name] = map[string]T{}
		}
		if cond.S != "false" {
			w.refs[name][r1.S] = r1
		}
		if cond.S != "true" {
			w.refs[name][r2.S] = r2
		}
	}
}

func (u *Unit) bagPlus(a, b T) T {
	k, _, _ := splitArr(a.Sort)
	n := "bagplus_" + sanitize(string(k))
	u.ctx.fun(n, []Sort{a.Sort, a.Sort}, a.Sort)
	u.ctx.axiomOnce(n, fmt.Sprintf("(assert (forall ((a %s)(b %s)(x %s)) (! (= (select (%s a b) x) (+ (select a x) (select b x))) :pattern ((select (%s a b) x)))))\n(assert (forall ((a %s)(b %s)(x %s)) (! (= (select (%s a b) x) (+ (select a x) (select b x))) :pattern ((%s a b) (select a x)))))\n(assert (forall ((a %s)(b %s)(x %s)) (! (= (select (%s a b) x) (+ (select a x) (select b x))) :pattern ((%s a b) (select b x)))))", a.Sort, a.Sort, k, n, n, a.Sort, a.Sort, k, n, n, a.Sort, a.Sort, k, n, n))
	return app(a.Sort, n, a, b)
}

func (u *Unit) varargsRaw(fr *Frame, st *State, v ssa.Value) ([]Val, []types.Type, bool) {
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return nil, nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || al.Comment != "varargs" {
		return nil, nil, false
	}
	at := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
	vals := make([]Val, at.Len())
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, nil, false
		}
		for _, rr := range *ia.Referrers() {
			if s, ok := rr.(*ssa.Store); ok {
				vals[k.Int64()] = u.eval(fr, st, s.Val)
			}
		}
	}
	for _, x := range vals {
		if x == nil {
			return nil, nil, false
		}
	}
	return vals, nil, true
}

func (u *Unit) copySlice(fr *Frame, st *State, c *ssa.CallCommon, args []Val) Val {
	d := term(args[0])
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	h := u.elemHeap(et)
	H := u.hget(st, h)
	es := u.sortOf(et)
	rowD := sel(H, sliceRef(d))
	nr := u.ctx.fresh("row", arr(SInt, es))
	if isString(c.Args[1].Type()) {
		u.hset(st, h, sliceRef(d), sto(H, sliceRef(d), nr))
		return u.ctx.fresh("n", SInt)
	}
	s := term(args[1])
	rowS := sel(H, sliceRef(s))
	n := u.ctx.define("n", mkIte(app(SBool, "<=", sliceLen(d), sliceLen(s)), sliceLen(d), sliceLen(s)))
	u.sidx(intT(0), intT(0))
	u.assume(st, T{fmt.Sprintf("(forall ((j Int)) (! (= (select %s j) (ite (and (<= %s j) (< j (+ %s %s))) (select %s (+ %s (- j %s))) (select %s j))) :pattern ((select %s j))))", nr.S, sliceOff(d).S, sliceOff(d).S, n.S, rowS.S, sliceOff(s).S, sliceOff(d).S, rowD.S, nr.S), SBool})
	u.assume(st, T{fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= 0 j) (< j %s)) (= (select %s (sidx %s j)) (select %s (sidx %s j)))) :pattern ((select %s (sidx %s j)))))", n.S, nr.S, sliceOff(d).S, rowS.S, sliceOff(s).S, rowS.S, sliceOff(s).S), SBool})
	u.hset(st, h, sliceRef(d), sto(H, sliceRef(d), nr))
	if u.con.BagIndex && u.con.BagIndexAt == "" {
		u.assume(st, T{fmt.Sprintf("(forall ((k Int)) (! (=> (and (<= %s k) (< k (+ %s %s))) (= (select %s (+ %s (- k %s))) (select %s k))) :pattern ((select %s k))))", sliceOff(s).S, sliceOff(s).S, n.S, nr.S, sliceOff(d).S, sliceOff(s).S, rowS.S, rowS.S), SBool})
		u.assume(st, T{fmt.Sprintf("(forall ((k Int)) (! (=> (or (< k %s) (>= k (+ %s %s))) (= (select %s k) (select %s k))) :pattern ((select %s k))))", sliceOff(d).S, sliceOff(d).S, n.S, nr.S, rowD.S, rowD.S), SBool})
	}
	if u.con.Bags {
		u.assume(st, mkEq(u.bagN(es, nr, sliceOff(d), n), u.bagN(es, rowS, sliceOff(s), n)))
	}
	return n
}
