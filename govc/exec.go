package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

// LV is a pointer value known symbolically: a root location plus a path.
type LV struct {
	kind byte // 'c' cell, 'f' field heap, 'e' element, 'b' box, 'm' none
	cell string
	heap string
	ref  T
	idx  T
	root types.Type // Go type stored at the root
	path []step
	typ  types.Type // pointee
}
type step struct {
	field int // datatype field (>=0)
	idx   T   // or array index when field<0
	st    types.Type
}

type Clo struct {
	fn    *ssa.Function
	binds []Val
}
type OIface struct { // interface holding a non-term value
	inner Val
	t     T
}
type Tup []Val
type Iter struct {
	kind  byte // 'm' map, 's' string
	m     T    // map ref
	mt    *types.Map
	dom0  T
	cell  string // ghost visited cell
	str   T
	posC  string
	entry *State
}
type Poison struct{ why string }

type State struct {
	pc    T
	heaps map[string]T
	cells map[string]Val
	alloc T
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, alloc: s.alloc, heaps: make(map[string]T, len(s.heaps)), cells: make(map[string]Val, len(s.cells))}
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	return n
}

type writeSet struct {
	cells map[string]bool
	heaps map[string]bool
	refs  map[string]map[string]T // heap -> ref terms
	wild  map[string]bool         // heap written at unknown refs
	alloc bool
}

func newWrites() *writeSet {
	return &writeSet{cells: map[string]bool{}, heaps: map[string]bool{}, refs: map[string]map[string]T{}, wild: map[string]bool{}}
}
func (w *writeSet) merge(o *writeSet) {
	for k := range o.cells {
		w.cells[k] = true
	}
	for k := range o.heaps {
		w.heaps[k] = true
	}
	for k, m := range o.refs {
		if w.refs[k] == nil {
			w.refs[k] = map[string]T{}
		}
		for s, t := range m {
			w.refs[k][s] = t
		}
	}
	for k := range o.wild {
		w.wild[k] = true
	}
	w.alloc = w.alloc || o.alloc
}

type Unit struct {
	families            bool // some invariant is about a code
	renames             map[string]string
	nfailed             atomic.Int64 // failed obligations so far
	P                   *Program
	C                   *Contracts
	ctx                 *Ctx
	fn                  *ssa.Function
	con                 *Contract
	obls                []*Obligation
	structs             map[string]*structInfo
	heaps               map[string]heapInfo
	initHeaps           map[string]T
	alloc0              T
	tags                map[string]int
	assumed             map[string]bool // unverified callee assumptions used
	inlined             map[string]bool
	rootLoops, inlLoops int
	usedCon             map[string]bool
	dry                 int
	wstack              []*writeSet
	nScope              int
	loopOrd             map[string]int
	loopKids            map[int][]int
	qdepth              int
	loopCache           map[string]*writeSet
	nOblName            map[string]int
	entrySt             *State
	params              map[string]SV
	reOf                map[string]string // term -> regexp pattern
	errGlobals          []string          // error variables made in the package initialiser: pairwise different
	fmtOf               map[string][]T
	nframe              int
	dropInv             map[string]bool // invariants dropped by Houdini
	usePool             bool
	globals             map[string]bool
	strPieces           map[string][]T
	loopsSeen           []string
	mergeN              int
	pcs                 map[string]pcInfo
	cellTypes           map[string]types.Type
	nOblCall            map[string]int
	tagTypes            map[string]types.Type
	logicUsed           map[string]bool
	fp                  map[string]*foot
}

type Frame struct {
	u      *Unit
	fn     *ssa.Function
	id     string
	regs   map[ssa.Value]Val
	params []Val
	free   []Val
	defers []deferred
	parent *Frame
	depth  int
	ncall  int
	loops  map[*ssa.BasicBlock]*loopInfo
	order  []*ssa.BasicBlock
	rets   []retPoint
	names  map[string][]*ssa.Alloc
	cur    *loopCtx // the loop being executed
}
type deferred struct {
	pc   T
	call *ssa.CallCommon
	fnv  Val
	args []Val
	pos  token.Pos
}
type retPoint struct {
	st   *State
	vals []Val
}

func (u *Unit) hget(st *State, name string) T {
	if t, ok := st.heaps[name]; ok {
		return t
	}
	return u.initHeaps[name]
}

func (u *Unit) hset(st *State, name string, ref T, v T) {
	st.heaps[name] = u.ctx.define("h", v)
	for _, w := range u.wstack {
		w.heaps[name] = true
		if ref.S == "" {
			w.wild[name] = true
		} else {
			if w.refs[name] == nil {
				w.refs[name] = map[string]T{}
			}
			w.refs[name][ref.S] = ref
		}
	}
}
func (u *Unit) cset(st *State, name string, v Val) {
	if t, ok := v.(T); ok {
		v = u.ctx.define("v", t)
	}
	st.cells[name] = v
	for _, w := range u.wstack {
		w.cells[name] = true
	}
}

func (u *Unit) assume(st *State, t T) { u.ctx.assume(st.pc, t) }

func (u *Unit) newRef(st *State, base string) T {
	r := u.ctx.fresh(base, SInt)
	u.ctx.assume(tTrue, app(SBool, ">=", r, st.alloc))
	na := u.ctx.fresh("alloc", SInt)
	u.ctx.assume(tTrue, app(SBool, ">", na, r))
	st.alloc = na
	for _, w := range u.wstack {
		w.alloc = true
	}
	return r
}

func (u *Unit) obligation(st *State, kind, name, pos string, goal T) {
	if u.dry > 0 {
		return
	}
	full := name
	u.nOblName[full]++
	if n := u.nOblName[full]; n > 1 {
		full = fmt.Sprintf("%s~%d", full, n)
	}
	o := &Obligation{Func: u.con.Key, Name: full, Kind: kind, Pos: pos, Upto: len(u.ctx.lines), Goal: mkImp(st.pc, goal), Expect: "unsat", pc: st.pc.S, scope: u.ctx.scope}
	u.obls = append(u.obls, o)
}

func (u *Unit) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	pp := u.P.prog.Fset.Position(p)
	f := pp.Filename
	if i := strings.Index(f, "/pkg/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, pp.Line)
}

// safety: the condition must hold, otherwise the real code panics here.
func (u *Unit) safety(fr *Frame, st *State, what string, p token.Pos, cond T) {
	if cond.S == "true" {
		return
	}
	if u.con.NoPanic {
		u.obligation(st, "safety", "nopanic:"+what, u.pos(p), cond)
	}
	u.assume(st, cond)
}

func term(v Val) T {
	switch x := v.(type) {
	case T:
		return x
	case OIface:
		return x.t
	case *Clo:
		return T{"1", SInt}
	case *LV:
		panic(unsupported("address of a local or interior location escapes (" + string(x.kind) + " " + x.cell + x.heap + ")"))
	case Poison:
		panic(unsupported("poisoned value: " + x.why))
	case nil:
		panic(unsupported("missing value"))
	}
	panic(unsupported(fmt.Sprintf("no term for %T", v)))
}

// ---------- load / store ----------

func (u *Unit) loadRoot(st *State, l *LV) T {
	switch l.kind {
	case 'c':
		v, ok := st.cells[l.cell]
		if !ok {
			panic(unsupported("load of undefined cell " + l.cell))
		}
		return term(v)
	case 'f', 'b':
		return sel(u.hget(st, l.heap), l.ref)
	case 'e':
		return sel(sel(u.hget(st, l.heap), l.ref), l.idx)
	}
	panic(unsupported("load"))
}

func (u *Unit) stepGet(v T, s step) T {
	if s.field >= 0 {
		si := u.structOf(s.st)
		if si.opaque {
			return u.ctx.uf("fld_"+string(si.sort)+"_"+fmt.Sprint(s.field), u.sortOf(s.st.Underlying().(*types.Struct).Field(s.field).Type()), v)
		}
		if strings.HasPrefix(v.S, "("+si.ctor+" ") {
			if as := sexpArgs(v.S); len(as) == len(si.fields) {
				return T{as[s.field], si.sorts[s.field]}
			}
		}
		return app(si.sorts[s.field], si.fields[s.field], v)
	}
	return sel(v, s.idx)
}
func (u *Unit) stepSet(v T, path []step, nv T) T {
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	inner := u.stepSet(u.stepGet(v, s), path[1:], nv)
	if s.field >= 0 {
		si := u.structOf(s.st)
		if si.opaque {
			panic(unsupported("store into opaque struct " + string(si.sort)))
		}
		var fs []T
		for i := range si.fields {
			if i == s.field {
				fs = append(fs, inner)
			} else {
				fs = append(fs, u.stepGet(v, step{field: i, st: s.st}))
			}
		}
		return app(si.sort, si.ctor, fs...)
	}
	return sto(v, s.idx, inner)
}

func (u *Unit) load(fr *Frame, st *State, addr Val, pt types.Type, p token.Pos) Val {
	switch a := addr.(type) {
	case *LV:
		if a.kind == 'c' && len(a.path) == 0 {
			v, ok := st.cells[a.cell]
			if !ok {
				if !strings.HasPrefix(a.cell, "G:") {
					panic(unsupported("load of undefined cell " + a.cell))
				}
				v = u.globalInit(st, a)
			}
			if strings.HasPrefix(a.cell, "G:") {
				u.globalFacts(st, a, v)
			}
			return v
		}
		if a.kind == 'c' && strings.HasPrefix(a.cell, "G:") {
			if _, ok := st.cells[a.cell]; !ok {
				u.globalInit(st, a)
			}
		}
		v := u.loadRoot(st, a)
		for _, s := range a.path {
			v = u.stepGet(v, s)
		}
		v = u.ctx.define("ld", v)
		if w := u.wf(v, a.typ, st.alloc); a.kind != 'c' && w.S != "true" {
			u.assume(st, w)
		}
		return v
	case T:
		u.safety(fr, st, "nil-deref", p, mkNot(mkEq(a, intT(0))))
		switch x := pt.Underlying().(type) {
		case *types.Struct:
			si := u.structOf(pt)
			if si.opaque {
				return sel(u.hget(st, u.boxHeap(pt)), a)
			}
			var fs []T
			for i := range si.fields {
				fs = append(fs, sel(u.hget(st, u.fieldHeap(pt, i)), a))
			}
			_ = x
			return u.ctx.define("ld", app(si.sort, si.ctor, fs...))
		case *types.Array:
			return sel(u.hget(st, u.elemHeap(x.Elem())), a)
		}
		v := u.ctx.define("ld", sel(u.hget(st, u.boxHeap(pt)), a))
		if w := u.wf(v, pt, st.alloc); w.S != "true" {
			u.assume(st, w)
		}
		return v
	}
	panic(unsupported(fmt.Sprintf("load through %T", addr)))
}

func (u *Unit) globalInit(st *State, a *LV) Val {
	n := "glob_" + sanitize(a.cell[2:])
	s := u.sortOf(a.root)
	if !u.globals[n] {
		u.globals[n] = true
		u.ctx.pre = append(u.ctx.pre, fmt.Sprintf("(declare-const %s %s)", n, s))
		t := T{n, s}
		if w := u.wf(t, a.root, u.alloc0); w.S != "true" {
			u.ctx.pre = append(u.ctx.pre, "(assert "+w.S+")")
		}
		if s == SIface && types.TypeString(a.root, nil) == "error" {
			u.ctx.pre = append(u.ctx.pre, fmt.Sprintf("(assert (> (itag %s) 0))", n))
			u.assumed["global error variables are non-nil"] = true
			u.errFacts()
			u.ctx.pre = append(u.ctx.pre, fmt.Sprintf("(assert (globerr %s))", n))
			if k := a.cell[2:]; u.P.globalErr[k] {
				for _, o := range u.errGlobals {
					u.ctx.pre = append(u.ctx.pre, fmt.Sprintf("(assert (not (= %s %s)))", o, n))
				}
				u.errGlobals = append(u.errGlobals, n)
			}
		}
		if pat, ok := u.P.globalRe[a.cell[2:]]; ok {
			u.reOf[n] = pat
			u.ctx.pre = append(u.ctx.pre, fmt.Sprintf("(assert (> %s 0))", n))
		}
	}
	t := T{n, s}
	st.cells[a.cell] = t
	return t
}

func (u *Unit) store(fr *Frame, st *State, addr Val, v Val, pt types.Type, p token.Pos) {
	switch a := addr.(type) {
	case *LV:
		if a.kind == 'c' && len(a.path) == 0 {
			u.cset(st, a.cell, v)
			return
		}
		var nv T
		nv = term(v)
		if len(a.path) > 0 {
			nv = u.stepSet(u.loadRoot(st, a), a.path, nv)
		}
		switch a.kind {
		case 'c':
			u.cset(st, a.cell, nv)
		case 'f', 'b':
			u.hset(st, a.heap, a.ref, sto(u.hget(st, a.heap), a.ref, nv))
		case 'e':
			h := u.hget(st, a.heap)
			nrow := sto(sel(h, a.ref), a.idx, nv)
			if u.con.BagIndex && u.con.BagIndexAt == "" {
				old := sel(h, a.ref)
				nrow = u.ctx.define("row", nrow)
				u.assume(st, T{fmt.Sprintf("(forall ((k Int)) (! (=> (distinct k %s) (= (select %s k) (select %s k))) :pattern ((select %s k))))", a.idx.S, nrow.S, old.S, old.S), SBool})
				u.assume(st, mkEq(sel(nrow, a.idx), nv))
			}
			u.hset(st, a.heap, a.ref, sto(h, a.ref, nrow))
		}
		return
	case T:
		u.safety(fr, st, "nil-deref", p, mkNot(mkEq(a, intT(0))))
		switch x := pt.Underlying().(type) {
		case *types.Struct:
			si := u.structOf(pt)
			nv := term(v)
			if si.opaque {
				h := u.boxHeap(pt)
				u.hset(st, h, a, sto(u.hget(st, h), a, nv))
				return
			}
			for i := range si.fields {
				h := u.fieldHeap(pt, i)
				u.hset(st, h, a, sto(u.hget(st, h), a, u.stepGet(nv, step{field: i, st: pt})))
			}
			_ = x
			return
		case *types.Array:
			h := u.elemHeap(x.Elem())
			u.hset(st, h, a, sto(u.hget(st, h), a, term(v)))
			return
		}
		h := u.boxHeap(pt)
		u.hset(st, h, a, sto(u.hget(st, h), a, term(v)))
		return
	}
	panic(unsupported(fmt.Sprintf("store through %T", addr)))
}

// ---------- CFG ----------

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func analyse(fn *ssa.Function) ([]*ssa.BasicBlock, map[*ssa.BasicBlock]*loopInfo, error) {
	loops := map[*ssa.BasicBlock]*loopInfo{}
	back := map[[2]*ssa.BasicBlock]bool{}
	reach := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	state := map[*ssa.BasicBlock]int{}
	var bad error
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		state[b] = 1
		reach[b] = true
		for _, s := range b.Succs {
			switch state[s] {
			case 0:
				dfs(s)
			case 1:
				if !s.Dominates(b) {
					bad = unsupported("irreducible control flow")
				}
				back[[2]*ssa.BasicBlock{b, s}] = true
			}
		}
		state[b] = 2
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	if bad != nil {
		return nil, nil, bad
	}
	for e := range back {
		h := e[1]
		l := loops[h]
		if l == nil {
			l = &loopInfo{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
			loops[h] = l
		}
		stack := []*ssa.BasicBlock{e[0]}
		for len(stack) > 0 {
			b := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if l.blocks[b] {
				continue
			}
			l.blocks[b] = true
			for _, p := range b.Preds {
				if reach[p] {
					stack = append(stack, p)
				}
			}
		}
	}
	var order []*ssa.BasicBlock
	for i := len(post) - 1; i >= 0; i-- {
		order = append(order, post[i])
	}
	return order, loops, nil
}

func (u *Unit) newFrame(fn *ssa.Function, params []Val, free []Val, parent *Frame, callKey string) (*Frame, error) {
	order, loops, err := analyse(fn)
	if err != nil {
		return nil, err
	}
	fr := &Frame{u: u, fn: fn, regs: map[ssa.Value]Val{}, params: params, free: free, parent: parent, loops: loops, order: order, names: map[string][]*ssa.Alloc{}}
	if parent != nil {
		fr.depth = parent.depth + 1
		fr.id = parent.id + "/" + callKey
	} else {
		fr.id = callKey
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && a.Comment != "" {
				fr.names[a.Comment] = append(fr.names[a.Comment], a)
			}
		}
	}
	return fr, nil
}

type edge struct {
	from *ssa.BasicBlock
	st   *State
}

type loopCtx struct {
	fr      *Frame
	info    *loopInfo
	ord     int
	entry   *State // state at loop entry (before havoc)
	invs    []*Invariant
	headSt  *State
	parent  *loopCtx
	visited string // cell name
	idxCell string
	iter    *Iter
	count   *ssa.BinOp // `i < len(x)` of a counting loop: idxCell is i
	countX  *ssa.Alloc // ... and the variable x
}

// execBlocks executes the blocks in `within` (nil: all) starting with the
// given incoming edges of the start block.
func (u *Unit) execBlocks(fr *Frame, within map[*ssa.BasicBlock]bool, start *ssa.BasicBlock, startIn []edge, dryHeader *ssa.BasicBlock, lc *loopCtx) {
	in := map[*ssa.BasicBlock][]edge{}
	in[start] = startIn
	active := map[*ssa.BasicBlock]*loopCtx{}
	for _, b := range fr.order {
		if within != nil && !within[b] {
			continue
		}
		es := in[b]
		if len(es) == 0 {
			continue
		}
		st := u.mergeStates(es)
		if l := fr.loops[b]; l != nil && b != dryHeader {
			// enclosing loop ctx
			var par *loopCtx = lc
			for h, c := range active {
				if fr.loops[h].blocks[b] {
					if par == nil || par.fr != fr || len(fr.loops[h].blocks) < len(par.info.blocks) || !par.info.blocks[b] {
						par = c
					}
				}
			}
			c := u.enterLoop(fr, l, st, par)
			active[b] = c
			st = c.headSt.clone()
		}
		cur := lc
		for h, c := range active {
			if fr.loops[h].blocks[b] && (cur == nil || cur.fr != fr || cur.info == nil || !cur.info.blocks[b] || len(fr.loops[h].blocks) < len(cur.info.blocks)) {
				cur = c
			}
		}
		fr.cur = cur
		outs := u.execBlock(fr, b, st, es)
		for i, s := range b.Succs {
			if i >= len(outs) || outs[i] == nil {
				continue
			}
			if within != nil && !within[s] {
				continue
			}
			if s == dryHeader {
				continue
			}
			if c := active[s]; c != nil && fr.loops[s].blocks[b] {
				u.checkInvariants(c, outs[i], "preserved")
				continue
			}
			in[s] = append(in[s], edge{b, outs[i]})
		}
	}
}

func (u *Unit) mergeStates(es []edge) *State {
	if len(es) == 1 {
		return es[0].st.clone()
	}
	var pcs []T
	for _, e := range es {
		pcs = append(pcs, e.st.pc)
	}
	n := &State{heaps: map[string]T{}, cells: map[string]Val{}}
	n.pc = u.pcOr(pcs)
	mergeT := func(get func(*State) (T, bool)) (T, bool) {
		var acc T
		set := false
		for i := len(es) - 1; i >= 0; i-- {
			v, ok := get(es[i].st)
			if !ok {
				continue
			}
			if !set {
				acc, set = v, true
				continue
			}
			if v.S != acc.S {
				acc = mkIte(es[i].st.pc, v, acc)
			}
		}
		return acc, set
	}
	hk := map[string]bool{}
	for _, e := range es {
		for k := range e.st.heaps {
			hk[k] = true
		}
	}
	for _, k := range sortedKeys(hk) {
		t, _ := mergeT(func(s *State) (T, bool) { return u.hget(s, k), true })
		n.heaps[k] = u.ctx.define("mh", t)
	}
	al, _ := mergeT(func(s *State) (T, bool) { return s.alloc, true })
	n.alloc = u.ctx.define("alloc", al)
	ck := map[string]bool{}
	for _, e := range es {
		for k := range e.st.cells {
			ck[k] = true
		}
	}
	for _, k := range sortedKeys(ck) {
		var vals []Val
		allT := true
		for _, e := range es {
			if v, ok := e.st.cells[k]; ok {
				vals = append(vals, v)
				if _, ok := v.(T); !ok {
					allT = false
				}
			}
		}
		if allT {
			t, _ := mergeT(func(s *State) (T, bool) {
				v, ok := s.cells[k]
				if !ok {
					return T{}, false
				}
				return v.(T), true
			})
			n.cells[k] = u.ctx.define("m", t)
			continue
		}
		same := true
		for _, v := range vals[1:] {
			if !sameVal(v, vals[0]) {
				same = false
			}
		}
		if same {
			n.cells[k] = vals[0]
			continue
		}
		// mixed interface terms can still be merged as terms
		ok := true
		for _, v := range vals {
			switch v.(type) {
			case T, OIface:
			default:
				ok = false
			}
		}
		if ok {
			t, _ := mergeT(func(s *State) (T, bool) {
				v, ok := s.cells[k]
				if !ok {
					return T{}, false
				}
				return term(v), true
			})
			n.cells[k] = u.ctx.define("m", t)
			continue
		}
		n.cells[k] = Poison{"cell " + k + " merges different pointers"}
	}
	return n
}

type pcInfo struct {
	parent string
	cond   string
	anc    map[string]bool
	disj   []string // alternatives of a join
}

func (u *Unit) pcAnd(p, c T) T {
	if c.S == "true" {
		return p
	}
	if c.S == "false" {
		return tFalse
	}
	u.ctx.n++
	n := fmt.Sprintf("pc!%d", u.ctx.n)
	u.ctx.emit(fmt.Sprintf("(define-fun %s () Bool %s)", n, mkAnd(p, c).S))
	anc := map[string]bool{n: true}
	if pi, ok := u.pcs[p.S]; ok {
		for k := range pi.anc {
			anc[k] = true
		}
	}
	anc[p.S] = true
	u.pcs[n] = pcInfo{p.S, c.S, anc, nil}
	return T{n, SBool}
}

func (u *Unit) pcOr(ts []T) T {
	// (or (and p c) (and p (not c))) = p, repeatedly
	for {
		changed := false
		for i := 0; i < len(ts) && !changed; i++ {
			for j := i + 1; j < len(ts) && !changed; j++ {
				a, ok1 := u.pcs[ts[i].S]
				b, ok2 := u.pcs[ts[j].S]
				if ts[i].S == ts[j].S {
					ts = append(append([]T{}, ts[:j]...), ts[j+1:]...)
					changed = true
				} else if ok1 && ok2 && a.parent == b.parent && a.parent != "" && mkNot(T{a.cond, SBool}).S == b.cond || ok1 && ok2 && a.parent == b.parent && a.parent != "" && mkNot(T{b.cond, SBool}).S == a.cond {
					nt := append([]T{}, ts[:i]...)
					nt = append(nt, T{a.parent, SBool})
					nt = append(nt, ts[i+1:j]...)
					nt = append(nt, ts[j+1:]...)
					ts = nt
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	if len(ts) == 1 {
		return ts[0]
	}
	o := mkOr(ts...)
	if o.S == "true" || o.S == "false" {
		return o
	}
	u.ctx.n++
	n := fmt.Sprintf("pc!%d", u.ctx.n)
	u.ctx.emit(fmt.Sprintf("(define-fun %s () Bool %s)", n, o.S))
	anc := map[string]bool{}
	for i, t := range ts {
		cur := map[string]bool{t.S: true}
		if pi, ok := u.pcs[t.S]; ok {
			cur = pi.anc
		}
		if i == 0 {
			for k := range cur {
				anc[k] = true
			}
		} else {
			for k := range anc {
				if !cur[k] {
					delete(anc, k)
				}
			}
		}
	}
	anc[n] = true
	var dj []string
	for _, t := range ts {
		dj = append(dj, t.S)
	}
	u.pcs[n] = pcInfo{"", "", anc, dj}
	return T{n, SBool}
}

func (u *Unit) impliedBy(a, b T) bool {
	if a.S == "true" || a.S == b.S {
		return true
	}
	pi, ok := u.pcs[b.S]
	return ok && pi.anc[a.S]
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case T:
		y, ok := b.(T)
		return ok && x.S == y.S
	case *LV:
		y, ok := b.(*LV)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.kind != y.kind || x.cell != y.cell || x.heap != y.heap || x.ref.S != y.ref.S || x.idx.S != y.idx.S || len(x.path) != len(y.path) {
			return false
		}
		for i := range x.path {
			if x.path[i].field != y.path[i].field || x.path[i].idx.S != y.path[i].idx.S {
				return false
			}
		}
		return true
	case *Clo:
		y, ok := b.(*Clo)
		if !ok || x.fn != y.fn || len(x.binds) != len(y.binds) {
			return false
		}
		for i := range x.binds {
			if !sameVal(x.binds[i], y.binds[i]) {
				return false
			}
		}
		return true
	case OIface:
		y, ok := b.(OIface)
		return ok && x.t.S == y.t.S
	case *Iter:
		return a == b
	case Tup:
		y, ok := b.(Tup)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case Poison:
		_, ok := b.(Poison)
		return ok
	}
	return false
}

// ---------- loops ----------

// dryRun determines what a loop body writes.
func (u *Unit) dryRun(fr *Frame, l *loopInfo, st *State, par *loopCtx) *writeSet {
	w := newWrites()
	ctxLen, ctxN := len(u.ctx.lines), u.ctx.n
	savedOrd := len(u.loopsSeen)
	nc := fr.ncall
	u.dry++
	u.wstack = append(u.wstack, w)
	ndef := len(fr.defers)
	nret := len(fr.rets)
	func() {
		defer func() {
			u.wstack = u.wstack[:len(u.wstack)-1]
			u.dry--
		}()
		u.execBlocks(fr, l.blocks, l.header, []edge{{nil, st.clone()}}, l.header, &loopCtx{fr: fr, info: l, parent: par, entry: st})
	}()
	if len(fr.defers) > ndef {
		panic(unsupported("defer inside a loop"))
	}
	fr.defers = fr.defers[:ndef]
	fr.rets = fr.rets[:nret]
	fr.ncall = nc
	_ = savedOrd
	u.ctx.lines = u.ctx.lines[:ctxLen]
	_ = ctxN // the counter keeps growing: names stay unique
	return w
}

func (u *Unit) havocVal(base string, v Val, t types.Type) Val {
	switch x := v.(type) {
	case T:
		return u.ctx.fresh(base, x.Sort)
	case OIface:
		return u.ctx.fresh(base, x.t.Sort)
	}
	return v
}

func (u *Unit) havocWrites(st *State, w *writeSet, mark int, allocEntry T) {
	for _, k := range sortedKeys(w.cells) {
		v, ok := st.cells[k]
		if !ok {
			continue
		}
		switch v.(type) {
		case T, OIface:
			nv := u.ctx.fresh("c_"+cellBase(k), term(v).Sort)
			st.cells[k] = nv
		default:
			st.cells[k] = Poison{"pointer cell " + k + " assigned in loop"}
		}
	}
	if w.alloc {
		na := u.ctx.fresh("alloc", SInt)
		u.ctx.assume(tTrue, app(SBool, ">=", na, st.alloc))
		st.alloc = na
	}
	for _, h := range sortedKeys(w.heaps) {
		old := u.hget(st, h)
		nh := u.ctx.fresh("H_"+h, old.Sort)
		info := u.heaps[h]
		if info.kind == 'g' {
			st.heaps[h] = nh
			continue
		}
		st.heaps[h] = nh
		if c := u.closed(info, nh, st.alloc); c.S != "true" {
			u.ctx.assume(tTrue, c)
		}
		if !w.wild[h] {
			var ne []T
			r := T{"r", SInt}
			ok := true
			for _, s := range sortedKeys(w.refs[h]) {
				ref := w.refs[h][s]
				if maxSym(s) >= mark {
					if u.isAllocSym(s) {
						continue
					}
					ok = false
					break
				}
				ne = append(ne, mkNot(mkEq(r, ref)))
			}
			if ok {
				cond := mkAnd(append([]T{app(SBool, "<", r, allocEntry)}, ne...)...)
				u.ctx.assume(tTrue, T{fmt.Sprintf("(forall ((r Int)) (! (=> %s (= (select %s r) (select %s r))) :pattern ((select %s r))))", cond.S, nh.S, old.S, nh.S), SBool})
			}
		}
	}
}

func cellBase(k string) string {
	i := strings.LastIndex(k, ":")
	return k[i+1:]
}

// maxSym: largest fresh-symbol number mentioned in a term.
func maxSym(s string) int {
	best := -1
	for i := 0; i < len(s); i++ {
		if s[i] == '!' {
			n, j := 0, i+1
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				n = n*10 + int(s[j]-'0')
				j++
			}
			if j > i+1 && n > best {
				best = n
			}
			i = j - 1
		}
	}
	return best
}

func (u *Unit) isAllocSym(s string) bool {
	return strings.HasPrefix(s, "new_") && !strings.ContainsAny(s, "( ")
}

func (u *Unit) enterLoop(fr *Frame, l *loopInfo, st *State, par *loopCtx) *loopCtx {
	key := fmt.Sprintf("%s#%d", fr.id, l.header.Index)
	w := u.loopCache[key]
	if w == nil {
		// first pass: which cells and heaps; second pass from the havocked
		// state: which references
		w = u.dryRun(fr, l, st, par)
		for round := 0; round < 3; round++ {
			st2 := st.clone()
			ctxLen := len(u.ctx.lines)
			mark := u.ctx.n + 1
			coarse := newWrites()
			coarse.merge(w)
			u.havocWrites(st2, coarse, mark, st.alloc)
			w2 := u.dryRun(fr, l, st2, par)
			u.ctx.lines = u.ctx.lines[:ctxLen]
			// references that mention symbols created after mark vary per
			// iteration
			grew := false
			for k := range w2.cells {
				if !w.cells[k] {
					grew = true
				}
			}
			for k := range w2.heaps {
				if !w.heaps[k] {
					grew = true
				}
			}
			nw := newWrites()
			nw.cells, nw.heaps, nw.alloc = w2.cells, w2.heaps, w2.alloc || w.alloc
			for k := range w.cells {
				nw.cells[k] = true
			}
			for k := range w.heaps {
				nw.heaps[k] = true
			}
			for k := range w2.wild {
				nw.wild[k] = true
			}
			for h, m := range w2.refs {
				nw.refs[h] = map[string]T{}
				for s, t := range m {
					if maxSym(s) >= mark {
						if !u.isAllocSym(s) {
							nw.wild[h] = true
						}
						continue
					}
					nw.refs[h][s] = t
				}
			}
			w = nw
			if !grew {
				break
			}
		}
		if u.dry == 0 {
			u.loopCache[key] = w
		}
	}
	for _, pw := range u.wstack {
		// the enclosing dry run sees these writes through the body too
		_ = pw
	}
	c := &loopCtx{fr: fr, info: l, entry: st, parent: par}
	if u.dry == 0 {
		if n, ok := u.loopOrd[key]; ok {
			c.ord = n
		} else {
			c.ord = u.loopNumber(fr, l)
			u.loopOrd[key] = c.ord
		}
		pn := 0
		if par != nil {
			pn = par.ord
		}
		if u.loopKids == nil {
			u.loopKids = map[int][]int{}
		}
		if !slices.Contains(u.loopKids[pn], c.ord) {
			u.loopKids[pn] = append(u.loopKids[pn], c.ord)
		}
	}
	// ghost names
	for _, in := range l.header.Instrs {
		switch x := in.(type) {
		case *ssa.Next:
			if it, ok := fr.regs[x.Iter].(*Iter); ok {
				c.visited = it.cell
				c.iter = it
				if it.kind == 's' {
					c.idxCell = it.posC
				}
			}
		case *ssa.Store:
			if a, ok := x.Addr.(*ssa.Alloc); ok && a.Comment == "rangeindex" {
				c.idxCell = fr.cellName(a)
			}
		}
	}
	if c.idxCell == "" && c.iter == nil {
		u.countingLoop(c, w)
	}
	if u.dry == 0 {
		c.invs = u.con.invariantsFor(u, c)
		u.checkInvariants(c, st, "entry")
	}
	h := st.clone()
	mark := u.ctx.n + 1
	u.havocWrites(h, w, mark, st.alloc)
	for _, k := range sortedKeys(w.cells) {
		// typing of havocked cells
		if v, ok := h.cells[k].(T); ok {
			if gt := u.cellTypes[k]; gt != nil {
				if wf := u.wf(v, gt, h.alloc); wf.S != "true" {
					u.assume(h, wf)
				}
			}
		}
	}
	// built-in facts about range ghosts
	if c.idxCell != "" && c.count == nil {
		if v, ok := h.cells[c.idxCell].(T); ok {
			u.assume(h, app(SBool, ">=", v, intT(-1)))
			if n := u.rangeLen(fr, l); n.S != "" {
				u.assume(h, app(SBool, "<", v, app(SInt, "+", n, intT(0))))
				// index never exceeds length-1 at the header (before increment)
				u.assume(h, mkOr(app(SBool, "<", v, n), mkEq(n, intT(0))))
			}
		}
	}
	// keys visited so far were in the map when the range began, unless the
	// loop writes the map itself
	if it := c.iter; it != nil && it.kind == 'm' {
		dh := u.mapDom(it.mt)
		if !w.wild[dh] {
			var ne []T
			ok := true
			for _, s := range sortedKeys(w.refs[dh]) {
				if maxSym(s) >= mark && u.isAllocSym(s) {
					continue
				}
				if maxSym(s) >= mark {
					ok = false
				}
				ne = append(ne, mkNot(mkEq(it.m, w.refs[dh][s])))
			}
			if ok {
				ks := u.sortOf(it.mt.Key())
				vis := term(h.cells[it.cell])
				u.assume(h, mkImp(mkAnd(ne...), T{fmt.Sprintf("(forall ((k %s)) (! (=> (select %s k) (select %s k)) :pattern ((select %s k)) :pattern ((select %s k))))", ks, vis.S, it.dom0.S, vis.S, it.dom0.S), SBool}))
			}
		}
	}
	if u.dry == 0 {
		for _, inv := range c.invs {
			t, err := u.evalInv(c, inv, h)
			if err != nil {
				continue
			}
			u.ctx.label = fmt.Sprintf("loop%d", c.ord)
			u.ctx.fam = family(inv.Label)
			if inv.frame != "" {
				u.ctx.label = "frame"
			}
			u.assume(h, t)
			u.ctx.label, u.ctx.fam = "", ""
		}
		// reachability of the loop body given the invariants (vacuity)
		u.obls = append(u.obls, &Obligation{Func: u.con.Key, Name: fmt.Sprintf("vacuity:loop%d", c.ord), Kind: "vacuity", Upto: len(u.ctx.lines), Goal: mkNot(h.pc), Expect: "notunsat"})
	}
	c.headSt = h
	return c
}

// countingLoop recognises `for i := ...; i < len(x); ...` over a slice variable
// x which the loop does not assign: idx() is i there, and ranged() is x. That
// i stays within the slice is an invariant which is checked.
func (u *Unit) countingLoop(c *loopCtx, w *writeSet) {
	local := func(v ssa.Value) *ssa.Alloc {
		if l, ok := v.(*ssa.UnOp); ok && l.Op == token.MUL {
			if a, ok := l.X.(*ssa.Alloc); ok {
				return a
			}
		}
		return nil
	}
	for _, in := range c.info.header.Instrs {
		b, ok := in.(*ssa.BinOp)
		if !ok {
			continue
		}
		i, n := b.X, b.Y
		switch b.Op {
		case token.LSS, token.NEQ:
		case token.GTR:
			i, n = n, i
		default:
			continue
		}
		cl, ok := n.(*ssa.Call)
		if !ok {
			continue
		}
		if f, ok := cl.Call.Value.(*ssa.Builtin); !ok || f.Name() != "len" {
			continue
		}
		ia, xa := local(i), local(cl.Call.Args[0])
		if ia == nil || xa == nil {
			continue
		}
		if _, ok := cl.Call.Args[0].Type().Underlying().(*types.Slice); !ok {
			continue
		}
		in, xn := c.fr.cellName(ia), c.fr.cellName(xa)
		if t, ok := c.entry.cells[in].(T); !ok || t.Sort != SInt || !w.cells[in] {
			continue
		}
		if t, ok := c.entry.cells[xn].(T); !ok || t.Sort != SSlice || w.cells[xn] {
			continue
		}
		c.idxCell, c.count, c.countX = in, b, xa
		return
	}
}

// loopNumber numbers the loops of the verified function in source order
// (1, 2, ...); loops of inlined helpers follow in the order they are met.
func (u *Unit) loopNumber(fr *Frame, l *loopInfo) int {
	if fr.parent == nil && fr.fn == u.fn {
		n := 1
		for _, o := range fr.loops {
			if o.header.Index < l.header.Index {
				n++
			}
		}
		return n
	}
	u.inlLoops++
	return u.rootLoops + u.inlLoops
}

// rangeLen: the length bound of a range-over-slice loop header
// (t52 = rangeindex+1; t53 = t52 < len).
func (u *Unit) rangeLen(fr *Frame, l *loopInfo) T {
	for _, in := range l.header.Instrs {
		if b, ok := in.(*ssa.BinOp); ok && b.Op == token.LSS {
			if v, ok := fr.regs[b.Y]; ok {
				if t, ok := v.(T); ok {
					return t
				}
			}
			if k, ok := b.Y.(*ssa.Const); ok {
				return u.constVal(k).(T)
			}
		}
	}
	return T{}
}

// nearLoops: the loop, the loops around it, the loops directly inside it (when
// the invariant is to be preserved) and the loop left last (at entry).
func (u *Unit) nearLoops(c *loopCtx, when string) map[string]bool {
	near := map[string]bool{}
	lab := func(n int) string { return fmt.Sprintf("loop%d", n) }
	p := 0
	for x := c; x != nil; x = x.parent {
		near[lab(x.ord)] = true
	}
	if c != nil {
		if when == "preserved" {
			for _, k := range u.loopKids[c.ord] {
				near[lab(k)] = true
			}
			return near
		}
		if c.parent != nil {
			p = c.parent.ord
		}
	}
	n := 0
	ks := u.loopKids[p]
	for j := len(ks) - 1; j >= 0 && n < 2; j-- {
		if c == nil || ks[j] != c.ord {
			near[lab(ks[j])] = true
			n++
			if c != nil {
				break
			}
		}
	}
	return near
}

var codeRegexp = regexp.MustCompile(`^[a-z][0-9]{3}`)
var famRegexp = regexp.MustCompile(`^[a-z]+`)

// family: what an invariant is about, by its label: a code (with a mark) or
// the letters the label begins with.
func family(label string) string {
	if s := codeRegexp.FindString(label); s != "" {
		return "!" + s
	}
	if strings.HasPrefix(label, "auto_") || strings.HasPrefix(label, "frame_") {
		return ""
	}
	return famRegexp.FindString(label)
}

func (u *Unit) checkInvariants(c *loopCtx, st *State, when string) {
	if u.dry > 0 {
		return
	}
	u.nScope++
	u.ctx.scope = fmt.Sprintf("s%d", u.nScope)
	defer func() { u.ctx.scope = "" }()
	for _, inv := range c.invs {
		u.ctx.scope = ""
		t, err := u.evalInv(c, inv, st)
		u.ctx.scope = fmt.Sprintf("s%d", u.nScope)
		if err != nil {
			// not resolvable in this state: the invariant is unusable
			u.obligation(st, "invariant-"+when, fmt.Sprintf("inv:loop%d:%s:%s", c.ord, inv.Label, when), "unresolved: "+err.Error(), tFalse)
			continue
		}
		n0 := len(u.obls)
		u.obligation(st, "invariant-"+when, fmt.Sprintf("inv:loop%d:%s:%s", c.ord, inv.Label, when), inv.Src, t)
		if when == "preserved" {
			for _, o := range u.obls[n0:] {
				o.loop = fmt.Sprintf("loop%d", c.ord)
			}
		}
		for _, o := range u.obls[n0:] {
			o.near = u.nearLoops(c, when)
			o.own = fmt.Sprint(c.ord)
			o.fam = family(inv.Label)
		}
		// once asserted, usable for later conjuncts
		if when == "preserved" || when == "entry" {
			u.ctx.fam = family(inv.Label)
			u.assume(st, t)
			u.ctx.fam = ""
		}
	}
}

func (fr *Frame) cellName(a *ssa.Alloc) string {
	return fr.id + ":" + a.Name() + ":" + a.Comment
}

// ---------- blocks ----------

func (u *Unit) execBlock(fr *Frame, b *ssa.BasicBlock, st *State, es []edge) []*State {
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			for _, l := range fr.loops {
				if l.header == b {
					panic(unsupported("phi at loop header"))
				}
			}
			var acc T
			var accV Val
			set := false
			allT := true
			type pv struct {
				pc T
				v  Val
			}
			var pvs []pv
			for _, e := range es {
				for i, p := range b.Preds {
					if p == e.from {
						v := u.eval(fr, st, x.Edges[i])
						pvs = append(pvs, pv{e.st.pc, v})
						if _, ok := v.(T); !ok {
							allT = false
						}
						break
					}
				}
			}
			if len(pvs) == 0 {
				panic(unsupported("phi at loop header"))
			}
			if allT {
				for i := len(pvs) - 1; i >= 0; i-- {
					if !set {
						acc, set = pvs[i].v.(T), true
					} else {
						acc = mkIte(pvs[i].pc, pvs[i].v.(T), acc)
					}
				}
				accV = u.ctx.define("phi", acc)
			} else {
				accV = pvs[0].v
				for _, p := range pvs[1:] {
					if !sameVal(p.v, accV) {
						accV = Poison{"phi of pointers"}
					}
				}
			}
			fr.regs[x] = accV
		case *ssa.If:
			c := term(u.eval(fr, st, x.Cond))
			c = u.ctx.define("c", c)
			t, f := st.clone(), st.clone()
			t.pc = u.pcAnd(st.pc, c)
			f.pc = u.pcAnd(st.pc, mkNot(c))
			outs := []*State{t, f}
			if t.pc.S == "false" {
				outs[0] = nil
			}
			if f.pc.S == "false" {
				outs[1] = nil
			}
			return outs
		case *ssa.Jump:
			return []*State{st}
		case *ssa.Return:
			var vs []Val
			for _, r := range x.Results {
				vs = append(vs, u.eval(fr, st, r))
			}
			fr.rets = append(fr.rets, retPoint{st, vs})
			return nil
		case *ssa.Panic:
			if u.con.NoPanic {
				u.obligation(st, "safety", "nopanic:panic", u.pos(x.Pos()), tFalse)
			}
			return nil
		default:
			u.execInstr(fr, st, in)
			if st.pc.S == "false" {
				return nil
			}
		}
	}
	return nil
}

func (u *Unit) constVal(k *ssa.Const) Val {
	if k.Value == nil {
		return u.zero(k.Type())
	}
	switch k.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(k.Value) {
			return tTrue
		}
		return tFalse
	case constant.String:
		return u.ctx.strLit(constant.StringVal(k.Value))
	case constant.Int:
		if u.sortOf(k.Type()) == SFloat {
			return u.ctx.uf("float_"+k.Value.ExactString(), SFloat)
		}
		s := k.Value.ExactString()
		if strings.HasPrefix(s, "-") {
			return T{"(- " + s[1:] + ")", SInt}
		}
		return T{s, SInt}
	}
	return u.ctx.uf("const_"+k.Value.ExactString(), u.sortOf(k.Type()))
}

func (u *Unit) eval(fr *Frame, st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return u.constVal(x)
	case *ssa.Global:
		pt := x.Type().(*types.Pointer).Elem()
		return &LV{kind: 'c', cell: "G:" + globalKey(x), root: pt, typ: pt}
	case *ssa.Function:
		return &Clo{fn: x}
	case *ssa.Parameter:
		for i, p := range fr.fn.Params {
			if p == x {
				return fr.params[i]
			}
		}
	case *ssa.FreeVar:
		for i, p := range fr.fn.FreeVars {
			if p == x {
				return fr.free[i]
			}
		}
	case *ssa.Builtin:
		return x
	}
	r, ok := fr.regs[v]
	if !ok {
		panic(unsupported("value not computed: " + v.Name() + " in " + fr.fn.String()))
	}
	return r
}

func (u *Unit) sidx(off, i T) T {
	u.ctx.fun("sidx", []Sort{SInt, SInt}, SInt)
	u.ctx.axiomOnce("sidx", "(assert (forall ((o Int)(i Int)) (! (= (sidx o i) (+ o i)) :pattern ((sidx o i)))))")
	return app(SInt, "sidx", off, i)
}

func (u *Unit) execInstr(fr *Frame, st *State, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		pt := x.Type().(*types.Pointer).Elem()
		fr.regs[x] = u.alloc(fr, st, x, pt)
	case *ssa.Store:
		u.store(fr, st, u.eval(fr, st, x.Addr), u.eval(fr, st, x.Val), x.Addr.Type().Underlying().(*types.Pointer).Elem(), x.Pos())
	case *ssa.UnOp:
		fr.regs[x] = u.unop(fr, st, x)
	case *ssa.BinOp:
		fr.regs[x] = u.binop(fr, st, x)
	case *ssa.FieldAddr:
		fr.regs[x] = u.fieldAddr(fr, st, u.eval(fr, st, x.X), x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field, x.Pos())
	case *ssa.Field:
		v := term(u.eval(fr, st, x.X))
		fr.regs[x] = u.ctx.define("f", u.stepGet(v, step{field: x.Field, st: x.X.Type()}))
	case *ssa.IndexAddr:
		fr.regs[x] = u.indexAddr(fr, st, x)
	case *ssa.Index:
		base := term(u.eval(fr, st, x.X))
		idx := term(u.eval(fr, st, x.Index))
		if isString(x.X.Type()) {
			u.safety(fr, st, "index", x.Pos(), mkAnd(app(SBool, "<=", intT(0), idx), app(SBool, "<", idx, u.strLen(base))))
			fr.regs[x] = u.strAt(base, idx)
		} else {
			n := x.X.Type().Underlying().(*types.Array).Len()
			u.safety(fr, st, "index", x.Pos(), mkAnd(app(SBool, "<=", intT(0), idx), app(SBool, "<", idx, intT(n))))
			fr.regs[x] = sel(base, idx)
		}
	case *ssa.Lookup:
		base := term(u.eval(fr, st, x.X))
		idx := term(u.eval(fr, st, x.Index))
		if isString(x.X.Type()) {
			u.safety(fr, st, "index", x.Pos(), mkAnd(app(SBool, "<=", intT(0), idx), app(SBool, "<", idx, u.strLen(base))))
			fr.regs[x] = u.strAt(base, idx)
			return
		}
		mt := x.X.Type().Underlying().(*types.Map)
		dom := sel(u.hget(st, u.mapDom(mt)), base)
		has := u.ctx.define("has", sel(dom, idx))
		val := u.ctx.define("mv", mkIte(has, sel(sel(u.hget(st, u.mapVal(mt)), base), idx), u.zero(mt.Elem())))
		if w := u.wf(val, mt.Elem(), st.alloc); w.S != "true" {
			u.assume(st, w)
		}
		if x.CommaOk {
			fr.regs[x] = Tup{val, has}
		} else {
			fr.regs[x] = val
		}
	case *ssa.MapUpdate:
		m := term(u.eval(fr, st, x.Map))
		k := term(u.eval(fr, st, x.Key))
		v := term(u.eval(fr, st, x.Value))
		u.safety(fr, st, "nil-map", x.Pos(), mkNot(mkEq(m, intT(0))))
		u.mapSet(st, x.Map.Type().Underlying().(*types.Map), m, k, v)
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		fr.regs[x] = u.newMap(st, mt)
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		ln := term(u.eval(fr, st, x.Len))
		cp := term(u.eval(fr, st, x.Cap))
		u.safety(fr, st, "makeslice", x.Pos(), mkAnd(app(SBool, "<=", intT(0), ln), app(SBool, "<=", ln, cp)))
		r := u.newRef(st, "new_slice")
		h := u.elemHeap(et)
		u.hset(st, h, r, sto(u.hget(st, h), r, u.ctx.carr(arr(SInt, u.sortOf(et)), u.zero(et))))
		fr.regs[x] = app(SSlice, "mk-slice", r, intT(0), ln, cp)
	case *ssa.Slice:
		fr.regs[x] = u.slice(fr, st, x)
	case *ssa.Call:
		fr.ncall++
		fr.regs[x] = u.call(fr, st, &x.Call, x.Pos(), x, fmt.Sprintf("%s.%d", x.Name(), x.Block().Index))
	case *ssa.Defer:
		d := deferred{pc: st.pc, call: &x.Call, pos: x.Pos()}
		if x.Call.IsInvoke() {
			d.fnv = u.eval(fr, st, x.Call.Value)
		} else {
			d.fnv = u.eval(fr, st, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, u.eval(fr, st, a))
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		u.runDefers(fr, st)
	case *ssa.Extract:
		t, ok := fr.regs[x.Tuple].(Tup)
		if !ok {
			panic(unsupported("extract from non-tuple"))
		}
		fr.regs[x] = t[x.Index]
	case *ssa.Range:
		fr.regs[x] = u.rangeInit(fr, st, x)
	case *ssa.Next:
		fr.regs[x] = u.next(fr, st, x)
	case *ssa.TypeAssert:
		fr.regs[x] = u.typeAssert(fr, st, x)
	case *ssa.MakeInterface:
		v := u.eval(fr, st, x.X)
		fr.regs[x] = u.makeInterface(st, v, x.X.Type())
	case *ssa.ChangeInterface, *ssa.ChangeType:
		ops := in.Operands(nil)
		fr.regs[in.(ssa.Value)] = u.eval(fr, st, *ops[0])
	case *ssa.Convert:
		fr.regs[x] = u.convert(fr, st, x)
	case *ssa.MultiConvert:
		panic(unsupported("multiconvert"))
	case *ssa.MakeClosure:
		c := &Clo{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.binds = append(c.binds, u.eval(fr, st, b))
		}
		fr.regs[x] = c
	case *ssa.MakeChan:
		fr.regs[x] = u.newRef(st, "chan")
	case *ssa.Send:
	case *ssa.Select:
		// any ready case may be chosen; what is received is arbitrary
		tt := x.Type().(*types.Tuple)
		idx := term(u.freshOf(st, types.NewTuple(types.NewVar(token.NoPos, nil, "", types.Typ[types.Int])), "select"))
		lo := 0
		if !x.Blocking {
			lo = -1
		}
		u.assume(st, mkAnd(app(SBool, "<=", intT(int64(lo)), idx), app(SBool, "<", idx, intT(int64(len(x.States))))))
		out := Tup{idx}
		for i := 1; i < tt.Len(); i++ {
			v := u.freshOf(st, types.NewTuple(types.NewVar(token.NoPos, nil, "", tt.At(i).Type())), "recv")
			if i >= 2 {
				u.received(fr, st, v, term(out[1]), tt.At(i).Type())
			}
			out = append(out, v)
		}
		fr.regs[x] = out
	case *ssa.Go:
		u.goStmt(fr, st, x)
	default:
		panic(unsupported(fmt.Sprintf("instruction %T (%s) in %s", in, in.String(), fr.fn.Name())))
	}
}

func recvTuple(x *ssa.UnOp) *types.Tuple {
	if t, ok := x.Type().(*types.Tuple); ok {
		return t
	}
	return types.NewTuple(types.NewVar(token.NoPos, nil, "", x.Type()))
}

// received: an error received from a channel is not nil if every error this
// function and its closures send is checked before.
func (u *Unit) received(fr *Frame, st *State, v Val, ok T, t types.Type) {
	e, is := v.(T)
	if !is || types.TypeString(t, nil) != "error" {
		return
	}
	u.assume(st, mkImp(mkNot(ok), mkEq(ifTag(e), intT(0))))
	root := fr.fn
	for root.Parent() != nil {
		root = root.Parent()
	}
	if sendsErrors(root) {
		u.assume(st, mkImp(ok, mkNot(mkEq(ifTag(e), intT(0)))))
	}
}

// sendsErrors: every error sent in fn is known to be an error
func sendsErrors(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Send)
			if !ok || types.TypeString(s.X.Type(), nil) != "error" {
				continue
			}
			found := false
			for d := b; d != nil && !found; d = d.Idom() {
				for _, p := range d.Preds {
					if len(d.Preds) != 1 || len(p.Instrs) == 0 {
						continue
					}
					c, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
					if !ok || p.Succs[0] != d {
						continue
					}
					if bo, ok := c.Cond.(*ssa.BinOp); ok && bo.Op == token.NEQ && (sameValue(bo.X, s.X) && isNilConst(bo.Y) || sameValue(bo.Y, s.X) && isNilConst(bo.X)) {
						found = true
					}
				}
			}
			if !found {
				return false
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		if !sendsErrors(a) {
			return false
		}
	}
	return true
}

// sameValue: a and b are the same value, or read the same variable, which is
// set once and nowhere else.
func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	la, ok1 := a.(*ssa.UnOp)
	lb, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || la.Op != token.MUL || lb.Op != token.MUL || la.X != lb.X {
		return false
	}
	v, ok := la.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	stores := 0
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != ssa.Value(v) {
				return false
			}
			stores++
		case *ssa.UnOp:
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return stores <= 1
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// goStmt: a goroutine without effect on the modelled state may run at any
// time; what it sends over channels is arbitrary to the receiver.
func (u *Unit) goStmt(fr *Frame, st *State, x *ssa.Go) {
	var fn *ssa.Function
	switch v := x.Call.Value.(type) {
	case *ssa.Function:
		fn = v
	case *ssa.MakeClosure:
		fn = v.Fn.(*ssa.Function)
	}
	if fn == nil || x.Call.IsInvoke() {
		panic(unsupported("goroutine of a computed function"))
	}
	if why := u.effects(fn, map[*ssa.Function]bool{}); why != "" {
		panic(unsupported("goroutine with effect: " + why))
	}
	u.assumed["goroutine "+fn.String()+": its steps have no effect on the modelled state (its callees' contracts modify nothing), values received from channels are arbitrary"] = true
}

// effects returns what in fn may change the modelled state ("" if nothing)
func (u *Unit) effects(fn *ssa.Function, seen map[*ssa.Function]bool) string {
	if seen[fn] {
		return ""
	}
	seen[fn] = true
	local := map[ssa.Value]bool{}
	var isLocal func(v ssa.Value) bool
	isLocal = func(v ssa.Value) bool {
		switch a := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			return isLocal(a.X)
		case *ssa.IndexAddr:
			return isLocal(a.X)
		}
		return local[v]
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !isLocal(x.Addr) {
					return "store in " + fn.String()
				}
			case *ssa.MapUpdate:
				return "map update in " + fn.String()
			case ssa.CallInstruction:
				c := x.Common()
				if c.IsInvoke() {
					mkey := typeStr(c.Value.Type()) + "." + c.Method.Name()
					if con := u.C.lookup(mkey); con != nil {
						u.usedCon[mkey] = true
						if len(con.Modifies) > 0 {
							return mkey + " modifies state"
						}
					}
					continue
				}
				switch f := c.Value.(type) {
				case *ssa.Builtin:
					if f.Name() == "delete" || f.Name() == "copy" || f.Name() == "append" {
						return f.Name() + " in " + fn.String()
					}
				case *ssa.Function:
					if con := u.C.lookup(funcKey(f)); con != nil && !con.Inline {
						u.usedCon[funcKey(f)] = true
						if len(con.Modifies) > 0 {
							return funcKey(f) + " modifies state"
						}
						continue
					}
					if len(f.Blocks) > 0 && f.Pkg != nil && u.P.isModule(f.Pkg.Pkg) {
						if why := u.effects(f, seen); why != "" {
							return why
						}
					}
				case *ssa.MakeClosure:
					if why := u.effects(f.Fn.(*ssa.Function), seen); why != "" {
						return why
					}
				default:
					return "call of a computed function in " + fn.String()
				}
			}
		}
	}
	return ""
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (u *Unit) alloc(fr *Frame, st *State, x *ssa.Alloc, pt types.Type) Val {
	switch y := pt.Underlying().(type) {
	case *types.Struct:
		if x.Heap {
			si := u.structOf(pt)
			r := u.newRef(st, "new_"+strings.TrimPrefix(string(si.sort), "S_"))
			if si.opaque {
				h := u.boxHeap(pt)
				u.hset(st, h, r, sto(u.hget(st, h), r, u.zero(pt)))
				return r
			}
			for i := range si.fields {
				h := u.fieldHeap(pt, i)
				u.hset(st, h, r, sto(u.hget(st, h), r, u.zero(si.ftypes[i])))
			}
			return r
		}
	case *types.Array:
		r := u.newRef(st, "new_array")
		h := u.elemHeap(y.Elem())
		u.hset(st, h, r, sto(u.hget(st, h), r, u.ctx.carr(arr(SInt, u.sortOf(y.Elem())), u.zero(y.Elem()))))
		return r
	}
	c := fr.cellName(x)
	if typeStr(pt) == "$ssa.deferStack" || strings.Contains(pt.String(), "deferStack") {
		st.cells[c] = T{"0", SInt}
		return &LV{kind: 'c', cell: c, root: pt, typ: pt}
	}
	u.cellTypes[c] = pt
	u.cset(st, c, u.zero(pt))
	return &LV{kind: 'c', cell: c, root: pt, typ: pt}
}

func (u *Unit) fieldAddr(fr *Frame, st *State, base Val, structT types.Type, field int, p token.Pos) Val {
	ft := structT.Underlying().(*types.Struct).Field(field).Type()
	switch b := base.(type) {
	case *LV:
		n := *b
		n.path = append(append([]step{}, b.path...), step{field: field, st: structT})
		n.typ = ft
		return &n
	case T:
		u.safety(fr, st, "nil-deref", p, mkNot(mkEq(b, intT(0))))
		si := u.structOf(structT)
		if si.opaque {
			h := u.fieldHeap(structT, field)
			return &LV{kind: 'f', heap: h, ref: b, root: ft, typ: ft}
		}
		return &LV{kind: 'f', heap: u.fieldHeap(structT, field), ref: b, root: ft, typ: ft}
	}
	panic(unsupported(fmt.Sprintf("field address of %T", base)))
}

func (u *Unit) indexAddr(fr *Frame, st *State, x *ssa.IndexAddr) Val {
	idx := term(u.eval(fr, st, x.Index))
	base := u.eval(fr, st, x.X)
	switch t := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s := term(base)
		u.safety(fr, st, "index", x.Pos(), mkAnd(app(SBool, "<=", intT(0), idx), app(SBool, "<", idx, sliceLen(s))))
		h := u.elemHeap(t.Elem())
		u.bagFacts(st, s, idx, t.Elem())
		return &LV{kind: 'e', heap: h, ref: sliceRef(s), idx: u.sidx(sliceOff(s), idx), root: t.Elem(), typ: t.Elem()}
	case *types.Pointer:
		at := t.Elem().Underlying().(*types.Array)
		u.safety(fr, st, "index", x.Pos(), mkAnd(app(SBool, "<=", intT(0), idx), app(SBool, "<", idx, intT(at.Len()))))
		switch b := base.(type) {
		case T:
			return &LV{kind: 'e', heap: u.elemHeap(at.Elem()), ref: b, idx: u.sidx(intT(0), idx), root: at.Elem(), typ: at.Elem()}
		case *LV:
			n := *b
			n.path = append(append([]step{}, b.path...), step{field: -1, idx: idx, st: at})
			n.typ = at.Elem()
			return &n
		}
	}
	panic(unsupported("index address"))
}

func (u *Unit) newMap(st *State, mt *types.Map) T {
	r := u.newRef(st, "new_map")
	d := u.mapDom(mt)
	u.mapVal(mt)
	ks := u.sortOf(mt.Key())
	u.hset(st, d, r, sto(u.hget(st, d), r, constArr(arr(ks, SBool), tFalse)))
	return r
}

func (u *Unit) mapSet(st *State, mt *types.Map, m, k, v T) {
	d, vv := u.mapDom(mt), u.mapVal(mt)
	hd, hv := u.hget(st, d), u.hget(st, vv)
	od := sel(hd, m)
	if u.cardUsed(od.Sort) {
		u.assume(st, app(SBool, ">=", u.card(od), intT(0)))
		u.assume(st, mkEq(u.card(sto(od, k, tTrue)), mkIte(sel(od, k), u.card(od), app(SInt, "+", u.card(od), intT(1)))))
	}
	u.hset(st, d, m, sto(hd, m, sto(sel(hd, m), k, tTrue)))
	u.hset(st, vv, m, sto(hv, m, sto(sel(hv, m), k, v)))
}

func (u *Unit) mapDelete(st *State, mt *types.Map, m, k T) {
	d := u.mapDom(mt)
	hd := u.hget(st, d)
	od := sel(hd, m)
	u.assume(st, app(SBool, ">=", u.card(od), intT(0)))
	u.assume(st, mkEq(u.card(sto(od, k, tFalse)), mkIte(sel(od, k), app(SInt, "-", u.card(od), intT(1)), u.card(od))))
	u.hset(st, d, m, sto(hd, m, sto(sel(hd, m), k, tFalse)))
}

func (u *Unit) cardUsed(s Sort) bool { return true }

// card: number of keys of a map domain (finite in every reachable state).
func (u *Unit) card(dom T) T {
	k, _, _ := splitArr(dom.Sort)
	n := "card_" + sanitize(string(k))
	u.ctx.fun(n, []Sort{dom.Sort}, SInt)
	u.ctx.axiomOnce(n, fmt.Sprintf("(assert (= (%s ((as const %s) false)) 0))\n(assert (forall ((d %s)(k %s)) (! (=> (select d k) (not (= (%s d) 0))) :pattern ((%s d) (select d k)))))", n, dom.Sort, dom.Sort, k, n, n))
	// emptiness witness and the finite-subset lemma
	u.ctx.fun("cardwit_"+sanitize(string(k)), []Sort{dom.Sort}, k)
	u.ctx.axiomOnce(n+"w", fmt.Sprintf("(assert (forall ((d %s)) (! (=> (> (%s d) 0) (select d (cardwit_%s d))) :pattern ((%s d)))))", dom.Sort, n, sanitize(string(k)), n))
	u.ctx.fun("subwit_"+sanitize(string(k)), []Sort{dom.Sort, dom.Sort}, k)
	sw := "subwit_" + sanitize(string(k))
	u.ctx.axiomOnce(n+"s", fmt.Sprintf("\x07(assert (forall ((a %s)(b %s)) (! (or (= a b) (< (%s a) 0) (< (%s b) 0) (not (= (%s a) (%s b))) (and (select a (%s a b)) (not (select b (%s a b))))) :pattern ((%s a) (%s b)))))", dom.Sort, dom.Sort, n, n, n, n, sw, sw, n, n))
	return app(SInt, n, dom)
}

func (u *Unit) slice(fr *Frame, st *State, x *ssa.Slice) Val {
	base := u.eval(fr, st, x.X)
	get := func(v ssa.Value) (T, bool) {
		if v == nil {
			return T{}, false
		}
		return term(u.eval(fr, st, v)), true
	}
	lo, hasLo := get(x.Low)
	hi, hasHi := get(x.High)
	if !hasLo {
		lo = intT(0)
	}
	switch t := x.X.Type().Underlying().(type) {
	case *types.Basic:
		s := term(base)
		n := u.strLen(s)
		if !hasHi {
			hi = n
		}
		u.safety(fr, st, "slice-bounds", x.Pos(), mkAnd(app(SBool, "<=", intT(0), lo), app(SBool, "<=", lo, hi), app(SBool, "<=", hi, n)))
		return u.ctx.define("sub", u.substr(s, lo, hi))
	case *types.Pointer:
		at := t.Elem().Underlying().(*types.Array)
		b := term(base)
		n := intT(at.Len())
		if !hasHi {
			hi = n
		}
		u.safety(fr, st, "slice-bounds", x.Pos(), mkAnd(app(SBool, "<=", intT(0), lo), app(SBool, "<=", lo, hi), app(SBool, "<=", hi, n)))
		if lo.S == "0" {
			return app(SSlice, "mk-slice", b, intT(0), hi, n)
		}
		return u.ctx.define("sl", app(SSlice, "mk-slice", b, lo, app(SInt, "-", hi, lo), app(SInt, "-", n, lo)))
	case *types.Slice:
		s := term(base)
		if !hasHi {
			hi = sliceLen(s)
		}
		cp := sliceCap(s)
		if x.Max != nil {
			cp, _ = get(x.Max)
		}
		u.safety(fr, st, "slice-bounds", x.Pos(), mkAnd(app(SBool, "<=", intT(0), lo), app(SBool, "<=", lo, hi), app(SBool, "<=", hi, cp)))
		off := sliceOff(s)
		if lo.S != "0" {
			off = app(SInt, "+", off, lo)
		}
		ln, c2 := hi, cp
		if lo.S != "0" {
			ln, c2 = app(SInt, "-", hi, lo), app(SInt, "-", cp, lo)
		}
		return u.ctx.define("sl", app(SSlice, "mk-slice", sliceRef(s), off, ln, c2))
	}
	panic(unsupported("slice of " + x.X.Type().String()))
}

func (u *Unit) unop(fr *Frame, st *State, x *ssa.UnOp) Val {
	switch x.Op {
	case token.MUL:
		return u.load(fr, st, u.eval(fr, st, x.X), x.X.Type().Underlying().(*types.Pointer).Elem(), x.Pos())
	case token.NOT:
		return mkNot(term(u.eval(fr, st, x.X)))
	case token.SUB:
		v := term(u.eval(fr, st, x.X))
		if v.Sort == SInt {
			return app(SInt, "-", v)
		}
		return u.ctx.uf("fneg", v.Sort, v)
	}
	if x.Op == token.ARROW {
		v := u.freshOf(st, recvTuple(x), "recv")
		if tp, ok := v.(Tup); ok {
			u.received(fr, st, tp[0], term(tp[1]), x.Type().(*types.Tuple).At(0).Type())
		}
		return v
	}
	panic(unsupported("unary " + x.Op.String()))
}

func (u *Unit) binop(fr *Frame, st *State, x *ssa.BinOp) Val {
	av, bv := u.eval(fr, st, x.X), u.eval(fr, st, x.Y)
	// pointer comparisons with known addresses
	if x.Op == token.EQL || x.Op == token.NEQ {
		if _, ok := av.(*LV); ok {
			if t, ok := bv.(T); ok && t.S == "0" {
				if x.Op == token.EQL {
					return tFalse
				}
				return tTrue
			}
		}
		if _, ok := av.(*Clo); ok {
			if x.Op == token.EQL {
				return tFalse
			}
			return tTrue
		}
	}
	a, b := term(av), term(bv)
	isStr := isString(x.X.Type())
	cmp := func(op string) Val {
		if isStr {
			switch op {
			case "<":
				return u.strLt(a, b)
			case ">":
				return u.strLt(b, a)
			case "<=":
				return mkNot(u.strLt(b, a))
			case ">=":
				return mkNot(u.strLt(a, b))
			}
		}
		if a.Sort != SInt {
			return u.ctx.uf("fcmp_"+op, SBool, a, b)
		}
		return app(SBool, op, a, b)
	}
	switch x.Op {
	case token.EQL, token.NEQ:
		var e T
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			// comparison with nil only
			e = mkEq(sliceRef(a), sliceRef(b))
		} else if a.Sort == SIface && b.Sort == SIface {
			if b.S == "(mk-iface 0 0)" {
				e = mkEq(ifTag(a), intT(0))
			} else if a.S == "(mk-iface 0 0)" {
				e = mkEq(ifTag(b), intT(0))
			} else {
				e = mkEq(a, b)
			}
		} else if a.Sort != b.Sort {
			panic(unsupported("comparison of different sorts"))
		} else {
			e = mkEq(a, b)
		}
		if x.Op == token.NEQ {
			return mkNot(e)
		}
		return e
	case token.LSS:
		return cmp("<")
	case token.GTR:
		return cmp(">")
	case token.LEQ:
		return cmp("<=")
	case token.GEQ:
		return cmp(">=")
	case token.ADD:
		if isStr {
			return u.ctx.define("cat", u.strCat(a, b))
		}
		if a.Sort == SInt {
			return app(SInt, "+", a, b)
		}
	case token.SUB:
		if a.Sort == SInt {
			return app(SInt, "-", a, b)
		}
	case token.MUL:
		if a.Sort == SInt {
			return app(SInt, "*", a, b)
		}
	case token.QUO:
		if a.Sort == SInt {
			u.safety(fr, st, "div-by-zero", x.Pos(), mkNot(mkEq(b, intT(0))))
			u.divFacts(st, a, b)
			return u.goDiv(a, b)
		}
	case token.REM:
		if a.Sort == SInt {
			u.safety(fr, st, "div-by-zero", x.Pos(), mkNot(mkEq(b, intT(0))))
			u.divFacts(st, a, b)
			return app(SInt, "-", a, app(SInt, "*", b, u.goDiv(a, b)))
		}
	}
	if a.Sort == SFloat && x.Op == token.QUO {
		return u.ctx.uf("fdiv", SFloat, a, b)
	}
	if a.Sort == SInt || a.Sort == SFloat {
		return u.ctx.uf("op_"+opName(x.Op), a.Sort, a, b)
	}
	panic(unsupported("binary " + x.Op.String()))
}

func opName(t token.Token) string {
	switch t {
	case token.AND:
		return "and"
	case token.OR:
		return "or"
	case token.XOR:
		return "xor"
	case token.SHL:
		return "shl"
	case token.SHR:
		return "shr"
	case token.AND_NOT:
		return "andnot"
	}
	return fmt.Sprintf("tok%d", int(t))
}

// goDiv: truncated division.
// divFacts: the quotient by a divisor that is not a constant.
func (u *Unit) divFacts(st *State, a, b T) {
	if _, err := strconv.Atoi(b.S); err == nil {
		return
	}
	q := app(SInt, "div", a, b)
	m := app(SInt, "*", b, q)
	u.assume(st, mkImp(mkAnd(app(SBool, ">=", a, intT(0)), app(SBool, ">", b, intT(0))),
		mkAnd(app(SBool, "<=", m, a), app(SBool, "<", a, app(SInt, "+", m, b)), app(SBool, "<=", intT(0), q), app(SBool, "<=", q, a))))
}

func (u *Unit) goDiv(a, b T) T {
	return mkIte(app(SBool, ">=", a, intT(0)), app(SInt, "div", a, b), app(SInt, "-", app(SInt, "div", app(SInt, "-", a), b)))
}

func (u *Unit) convert(fr *Frame, st *State, x *ssa.Convert) Val {
	v := term(u.eval(fr, st, x.X))
	from, to := x.X.Type(), x.Type()
	fs, ts := u.sortOf(from), u.sortOf(to)
	if isString(to) && isString(from) {
		return v
	}
	if isString(to) && fs == SInt {
		if u.con.Strs {
			return u.rchr(v)
		}
		return u.ctx.uf("rune2str", ts, v)
	}
	if isString(to) && fs == SSlice {
		et := from.Underlying().(*types.Slice).Elem()
		return u.bytesToStr(st, v, et)
	}
	if isString(from) && ts == SSlice {
		et := to.Underlying().(*types.Slice).Elem()
		return u.strToBytes(st, v, et)
	}
	if fs == ts {
		return v // machine integers are treated as mathematical integers
	}
	return u.conv(v, ts)
}

func (u *Unit) bytesToStr(st *State, v T, et types.Type) T {
	row := sel(u.hget(st, u.elemHeap(et)), sliceRef(v))
	return u.ctx.define("bs", u.rowText(et, row, sliceOff(v), sliceLen(v)))
}

func (u *Unit) strToBytes(st *State, v T, et types.Type) T {
	r := u.newRef(st, "new_bytes")
	h := u.elemHeap(et)
	row, n := u.strRow(v, et)
	if isByte(et) {
		u.assume(st, mkEq(n, u.strLen(v)))
	}
	u.assume(st, app(SBool, ">=", n, intT(0)))
	u.hset(st, h, r, sto(u.hget(st, h), r, row))
	// round trip
	if isByte(et) {
		u.assume(st, mkEq(u.rowText(et, row, intT(0), n), v))
	} else if u.con.Strs && !u.ctx.theory {
		u.assume(st, mkImp(u.ascii(v), mkEq(u.rowText(et, row, intT(0), n), v)))
	}
	return u.ctx.define("b", app(SSlice, "mk-slice", r, intT(0), n, n))
}

func (u *Unit) makeInterface(st *State, v Val, t types.Type) Val {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	tag := intT(int64(u.tag(t)))
	switch x := v.(type) {
	case T:
		return app(SIface, "mk-iface", tag, u.box(x, st.pc))
	}
	p := u.ctx.fresh("ifp", SInt)
	return OIface{v, app(SIface, "mk-iface", tag, p)}
}

func (u *Unit) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert) Val {
	v := u.eval(fr, st, x.X)
	if oi, ok := v.(OIface); ok {
		// statically known dynamic type is not tracked for these
		v = oi.t
	}
	t := term(v)
	var ok T
	var res T
	if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		ok = mkAnd(mkNot(mkEq(ifTag(t), intT(0))), u.ctx.uf("implements_"+typeStr(x.AssertedType), SBool, ifTag(t)))
		res = t
		if x.CommaOk {
			res = mkIte(ok, t, T{"(mk-iface 0 0)", SIface})
		}
	} else {
		ok = mkEq(ifTag(t), intT(int64(u.tag(x.AssertedType))))
		res = u.unbox(ifPay(t), u.sortOf(x.AssertedType))
		if x.CommaOk {
			res = mkIte(ok, res, u.zero(x.AssertedType))
		}
	}
	res = u.ctx.define("ta", res)
	okd := u.ctx.define("ok", ok)
	if w := u.wf(res, x.AssertedType, st.alloc); w.S != "true" {
		u.assume(st, w)
	}
	if x.CommaOk {
		return Tup{res, okd}
	}
	u.safety(fr, st, "type-assert", x.Pos(), okd)
	return res
}

// ---------- range ----------

func (u *Unit) rangeInit(fr *Frame, st *State, x *ssa.Range) Val {
	cell := fr.id + ":" + x.Name() + ":visited"
	if isString(x.X.Type()) {
		s := term(u.eval(fr, st, x.X))
		it := &Iter{kind: 's', str: s, posC: fr.id + ":" + x.Name() + ":pos"}
		u.cset(st, it.posC, intT(0))
		return it
	}
	m := term(u.eval(fr, st, x.X))
	mt := x.X.Type().Underlying().(*types.Map)
	ks := u.sortOf(mt.Key())
	u.cset(st, cell, constArr(arr(ks, SBool), tFalse))
	u.cset(st, cell+"#key", u.ctx.fresh("key0", u.sortOf(mt.Key())))
	return &Iter{kind: 'm', m: m, mt: mt, dom0: u.ctx.define("dom0", sel(u.hget(st, u.mapDom(mt)), m)), cell: cell}
}

func (u *Unit) next(fr *Frame, st *State, x *ssa.Next) Val {
	it, ok := u.eval(fr, st, x.Iter).(*Iter)
	if !ok {
		panic(unsupported("next on unknown iterator"))
	}
	if it.kind == 's' {
		pos := term(st.cells[it.posC])
		n := u.strLen(it.str)
		okb := u.ctx.define("ok", app(SBool, "<", pos, n))
		r := u.ctx.uf("runeat", SInt, it.str, pos)
		w := u.ctx.uf("runewidth", SInt, it.str, pos)
		u.assume(st, mkImp(okb, mkAnd(app(SBool, ">=", w, intT(1)), app(SBool, "<=", w, intT(4)), app(SBool, "<=", app(SInt, "+", pos, w), n), app(SBool, ">=", r, intT(0)))))
		u.cset(st, it.posC, mkIte(okb, app(SInt, "+", pos, w), pos))
		return Tup{okb, pos, r}
	}
	vis := term(st.cells[it.cell])
	dom := sel(u.hget(st, u.mapDom(it.mt)), it.m)
	okb := u.ctx.fresh("more", SBool)
	ks := u.sortOf(it.mt.Key())
	k := u.ctx.fresh("key", ks)
	v := u.ctx.define("val", sel(sel(u.hget(st, u.mapVal(it.mt)), it.m), k))
	u.assume(st, mkImp(okb, mkAnd(sel(dom, k), mkNot(sel(vis, k)))))
	same := dom.S == it.dom0.S
	bd := sel(dom, T{"k", ks})
	if !same {
		bd = mkAnd(bd, sel(it.dom0, T{"k", ks}))
	}
	u.assume(st, mkImp(mkNot(okb), T{fmt.Sprintf("(forall ((k %s)) (! (=> %s (select %s k)) :pattern ((select %s k)) :pattern ((select %s k))))", ks, bd.S, vis.S, dom.S, vis.S), SBool}))
	if w := u.wf(v, it.mt.Elem(), st.alloc); w.S != "true" {
		u.assume(st, mkImp(okb, w))
	}
	u.assume(st, u.wf(k, it.mt.Key(), st.alloc))
	u.cset(st, it.cell, mkIte(okb, sto(vis, k, tTrue), vis))
	u.cset(st, it.cell+"#key", k)
	return Tup{okb, k, v}
}

func (u *Unit) runDefers(fr *Frame, st *State) {
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		if u.pcDisjoint(d.pc.S, st.pc.S) {
			continue // not registered on this path
		}
		// run under d.pc: split on whether the defer was registered
		if u.impliedBy(d.pc, st.pc) {
			u.callWith(fr, st, d.call, d.fnv, d.args, d.pos, nil, fmt.Sprintf("defer%d", i))
			continue
		}
		a, b := st.clone(), st.clone()
		a.pc = u.pcAnd(st.pc, d.pc)
		b.pc = u.pcAnd(st.pc, mkNot(d.pc))
		u.callWith(fr, a, d.call, d.fnv, d.args, d.pos, nil, fmt.Sprintf("defer%d", i))
		m := u.mergeStates([]edge{{nil, a}, {nil, b}})
		*st = *m
	}
}

var _ = sort.Strings

// pcDisjoint: the two path conditions cannot hold together, because they took
// different sides of one branch.
func (u *Unit) pcDisjoint(g, p string) bool {
	gi, ok1 := u.pcs[g]
	pi, ok2 := u.pcs[p]
	if !ok1 || !ok2 {
		return false
	}
	for a := range gi.anc {
		ai := u.pcs[a]
		if ai.parent == "" {
			continue
		}
		for b := range pi.anc {
			bi := u.pcs[b]
			if bi.parent == ai.parent && (mkNot(T{ai.cond, SBool}).S == bi.cond || mkNot(T{bi.cond, SBool}).S == ai.cond) {
				return true
			}
		}
	}
	return false
}

// lastJoin is the most recent join among the ancestors of a path condition.
func (u *Unit) lastJoin(p string) []string {
	best, bn := "", -1
	for a := range u.pcs[p].anc {
		if len(u.pcs[a].disj) > 1 {
			if n := maxSym(a); n > bn {
				best, bn = a, n
			}
		}
	}
	return u.pcs[best].disj
}
