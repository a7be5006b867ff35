package main

import (
	"context"
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type UnitResult struct {
	Func      string         `json:"func"`
	File      string         `json:"file"`
	Props     []string       `json:"props"`
	Status    string         `json:"status"` // verified, failed, unsupported, missing
	Why       string         `json:"why,omitempty"`
	Obls      []OblResult    `json:"obligations"`
	Assumed   []string       `json:"assumed"`
	Inlined   []string       `json:"inlined"`
	UsedCon   []string       `json:"contracts_used"`
	Warnings  []string       `json:"warnings,omitempty"`
	Secs      float64        `json:"secs"`
	SolverSec float64        `json:"solver_secs"`
	Pass      string         `json:"pass"`
	Loops     int            `json:"loops"`
	NoPanic   bool           `json:"nopanic"`
	PerSolver map[string]int `json:"per_solver"`
	Dropped   []string       `json:"dropped_invariants,omitempty"`
}
type OblResult struct {
	Name   string  `json:"name"`
	Kind   string  `json:"kind"`
	Pos    string  `json:"pos,omitempty"`
	Status string  `json:"status"`
	Solver string  `json:"solver,omitempty"`
	Secs   float64 `json:"secs"`
	Reason string  `json:"reason,omitempty"`
	Script string  `json:"script,omitempty"`
}

func (P *Program) newUnit(C *Contracts, con *Contract, drop map[string]bool, pool bool) *Unit {
	u := &Unit{P: P, C: C, con: con, ctx: newCtx(con.Theory, con.Strs),
		structs: map[string]*structInfo{}, heaps: map[string]heapInfo{}, initHeaps: map[string]T{},
		tags: map[string]int{}, tagTypes: map[string]types.Type{}, assumed: map[string]bool{}, inlined: map[string]bool{}, usedCon: map[string]bool{},
		loopOrd: map[string]int{}, loopCache: map[string]*writeSet{}, nOblName: map[string]int{}, nOblCall: map[string]int{},
		params: map[string]SV{}, reOf: map[string]string{}, fmtOf: map[string][]T{}, globals: map[string]bool{},
		strPieces: map[string][]T{}, pcs: map[string]pcInfo{}, cellTypes: map[string]types.Type{}, logicUsed: map[string]bool{},
		dropInv: drop, usePool: pool}
	if u.dropInv == nil {
		u.dropInv = map[string]bool{}
	}
	if fn := P.funcs[con.Key]; fn != nil {
		u.renames = renamesOf(con.Key, fn)
	}
	u.ctx.pre = append(u.ctx.pre, "(declare-const alloc0 Int)", "(assert (> alloc0 0))")
	u.alloc0 = T{"alloc0", SInt}
	u.ctx.irrelevant = u.pcDisjoint
	for _, invs := range con.Loops {
		for _, inv := range invs {
			if codeRegexp.MatchString(inv.Label) {
				u.families = true
			}
		}
	}
	return u
}

// generate builds the verification conditions of one function.
func (u *Unit) generate(fn *ssa.Function) (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsup:
				err = x
			case specErr:
				err = x
			default:
				if os.Getenv("GOVC_DEBUG") != "" {
					debug.PrintStack()
				}
				err = fmt.Errorf("internal: %v", r)
			}
		}
	}()
	u.fn = fn
	con := u.con
	st := &State{pc: tTrue, heaps: map[string]T{}, cells: map[string]Val{}, alloc: u.alloc0}
	var params []Val
	for i, p := range fn.Params {
		t := u.ctx.fresh("p_"+p.Name(), u.sortOf(p.Type()))
		u.ctx.assume(tTrue, u.wf(t, p.Type(), u.alloc0))
		n := p.Name()
		if i < len(con.ParamNames) {
			n = con.ParamNames[i]
		}
		if i == 0 && fn.Signature.Recv() != nil {
			if _, isP := p.Type().Underlying().(*types.Pointer); isP {
				u.ctx.assume(tTrue, mkNot(mkEq(t, intT(0))))
			}
			u.params["recv"] = SV{t, p.Type()}
		}
		params = append(params, t)
		u.params[n] = SV{t, p.Type()}
	}
	var free []Val
	for _, f := range fn.FreeVars {
		pt := f.Type().(*types.Pointer).Elem()
		if _, isS := pt.Underlying().(*types.Struct); isS {
			t := u.ctx.fresh("fv_"+f.Name(), SInt)
			u.ctx.assume(tTrue, mkAnd(app(SBool, "<", intT(0), t), app(SBool, "<", t, u.alloc0)))
			free = append(free, t)
			u.params[f.Name()] = SV{t, f.Type()}
			continue
		}
		v := u.ctx.fresh("fv_"+f.Name(), u.sortOf(pt))
		u.ctx.assume(tTrue, u.wf(v, pt, u.alloc0))
		c := "FV:" + f.Name()
		st.cells[c] = v
		u.cellTypes[c] = pt
		free = append(free, &LV{kind: 'c', cell: c, root: pt, typ: pt})
	}
	entry := st.clone()
	u.entrySt = entry
	env := u.ensEnv(entry, entry)
	for _, r := range con.Requires {
		t, e := env.evalBool(r.E)
		if e != nil {
			return fmt.Errorf("requires %s: %w", r.Src, e)
		}
		u.ctx.label = "req"
		u.ctx.assume(tTrue, t)
		u.ctx.label = ""
	}
	for k, v := range entry.cells {
		if _, ok := st.cells[k]; !ok {
			st.cells[k] = v // globals touched by the precondition
		}
	}
	fr, err := u.newFrame(fn, params, free, nil, "f")
	if err != nil {
		return err
	}
	u.rootLoops = len(fr.loops)
	u.execBlocks(fr, nil, fn.Blocks[0], []edge{{nil, st}}, nil, nil)
	if len(fr.rets) == 0 {
		return unsupported("function never returns")
	}
	ns, vals := u.mergeRets(fr)
	u.ctx.comment("exit")
	// vacuity: the function can return
	u.obls = append(u.obls, &Obligation{Func: con.Key, Name: "vacuity:exit", Kind: "vacuity", Upto: len(u.ctx.lines), Goal: mkNot(ns.pc), Expect: "notunsat"})
	ee := u.ensEnv(ns, entry)
	u.bindResults(ee, con, fn.Signature, vals)
	for _, g := range con.Sets {
		t, er := ee.evalTerm(g.E)
		if er != nil {
			return fmt.Errorf("sets %s: %w", g.Ghost, er)
		}
		h := u.ghostHeap(g.Ghost, u.ghostSort(u.C.Ghosts[g.Ghost]))
		u.hget(ns, h)
		u.hset(ns, h, T{}, t)
	}
	for _, e := range con.Ensures {
		t, er := ee.evalBool(e.E)
		if er != nil {
			return fmt.Errorf("ensures %s: %w", e.Label, er)
		}
		n0 := len(u.obls)
		u.obligation(ns, "ensures", "ensures:"+e.Label, e.Src, t)
		for _, o := range u.obls[n0:] {
			o.near = u.nearLoops(nil, "")
			o.own = "exit"
			o.fam = family(e.Label)
		}
	}
	// frame
	fp, er := u.unitFootprint()
	if er != nil {
		return er
	}
	for _, h := range sortedKeys(u.heaps) {
		cur := u.hget(ns, h)
		h0 := u.initHeaps[h]
		if cur.S == h0.S {
			continue
		}
		m := fp[h]
		info := u.heaps[h]
		if info.kind == 'g' {
			if m == nil {
				u.obligation(ns, "frame", "frame:"+h, "", mkEq(cur, h0))
			}
			continue
		}
		if m != nil && m.all {
			continue
		}
		r := u.ctx.fresh("fr", SInt)
		cond := mkAnd(app(SBool, "<=", intT(0), r), app(SBool, "<", r, u.alloc0))
		if m != nil {
			cond = mkAnd(cond, mkNot(m.pred(r)))
		}
		u.obligation(ns, "frame", "frame:"+h, "", mkImp(cond, mkEq(sel(cur, r), sel(h0, r))))
	}
	for k := range ns.cells {
		if strings.HasPrefix(k, "G:") {
			if v0, ok := entry.cells[k]; ok && !sameVal(v0, ns.cells[k]) || !ok && u.isGlobalChanged(k, ns.cells[k]) {
				u.assumed["writes package variable "+k[2:]+" (not framed)"] = true
			}
		}
	}
	u.emitAxioms()
	return nil
}

func (u *Unit) isGlobalChanged(k string, v Val) bool {
	t, ok := v.(T)
	return !ok || t.S != "glob_"+sanitize(k[2:])
}

func (u *Unit) ensEnv(st, old *State) *Env {
	e := &Env{u: u, st: st, old: old, vars: map[string]SV{}, con: u.con}
	for k, v := range u.params {
		e.vars[k] = v
	}
	if u.fn != nil && len(u.fn.FreeVars) > 0 {
		e.fr = &Frame{u: u, fn: u.fn, names: map[string][]*ssa.Alloc{}}
		for _, f := range u.fn.FreeVars {
			pt := f.Type().(*types.Pointer).Elem()
			if _, isS := pt.Underlying().(*types.Struct); isS {
				e.fr.free = append(e.fr.free, u.params[f.Name()].val)
				continue
			}
			e.fr.free = append(e.fr.free, &LV{kind: 'c', cell: "FV:" + f.Name(), root: pt, typ: pt})
		}
	}
	return e
}

var solveSem = make(chan struct{}, 8)

type solveCfg struct {
	fast, slow int     // ms
	budget     float64 // seconds per function
	dir        string
	keep       bool
	ctx        context.Context // done: no more solving
	effort     float64         // solver seconds for one obligation
}

// conjuncts splits (=> pc (and a b ...)) into pc and the conjuncts.
func conjuncts(s string) (string, []string) {
	pc := "true"
	if h, a := sexpr(s); h == "=>" && len(a) == 2 {
		pc, s = a[0], a[1]
	}
	var res []string
	var rec func(pre, s string)
	rec = func(pre, s string) {
		h, a := sexpr(s)
		switch {
		case h == "and":
			for _, x := range a {
				rec(pre, x)
			}
		case h == "=>" && len(a) == 2:
			if pre != "" {
				rec("(and "+pre+" "+a[0]+")", a[1])
			} else {
				rec(a[0], a[1])
			}
		case pre != "":
			res = append(res, "(=> "+pre+" "+s+")")
		default:
			res = append(res, s)
		}
	}
	rec("", s)
	return pc, res
}

type attempt struct {
	be backend
	v  variant
	ms int
}

// solve decides one obligation with the portfolio of back ends: stages of
// concurrent attempts, the first "unsat" wins.
func (u *Unit) solve(o *Obligation, cfg solveCfg) {
	if o.Goal.S == "true" {
		o.Status, o.Solver = "discharged", "syntactic"
		return
	}
	var mu sync.Mutex
	root := o
	for root.whole != nil {
		root = root.whole
	}
	exhausted := func() bool {
		if cfg.ctx.Err() != nil {
			o.Status, o.Reason = "failed", "stopped"
			return true
		}
		if root.spent.Load() > int64(cfg.effort*1000) {
			o.Status, o.Reason = "failed", "effort limit reached; "+o.Reason
			return true
		}
		return false
	}
	try := func(ctx context.Context, a attempt) string {
		select {
		case solveSem <- struct{}{}:
		case <-ctx.Done():
			return "cancelled"
		}
		defer func() { <-solveSem }()
		if ctx.Err() != nil {
			return "cancelled"
		}
		out, secs := runBackend(ctx, a.be, u.ctx.script(o, a.v, false, a.be.cvc), cfg.dir, fmt.Sprintf("%s_%s_%d", o.Func, o.Name, a.v), a.ms)
		mu.Lock()
		o.Secs += secs
		mu.Unlock()
		root.spent.Add(int64(secs * 1000))
		if ctx.Err() != nil {
			return "cancelled"
		}
		return firstVerdict(out)
	}
	if o.Expect == "notunsat" {
		v := try(cfg.ctx, attempt{backends[0], varConst, 1000})
		o.Status = "discharged"
		o.Solver = backends[0].name
		if v == "unsat" {
			o.Status = "failed"
			o.Reason = "vacuous: contradictory assumptions"
		}
		return
	}
	z3, zn, cv := backends[0], backends[1], backends[2]
	f, sl := cfg.fast, cfg.slow
	stages := [][]attempt{
		{{z3, varConst, f}},
		{{z3, varMacro, f}, {zn, varConst, f}, {z3, varLocal, f}, {zn, varMacro, f}, {z3, varNear, f}, {cv, varLocal, f}, {cv, varNear, f}},
		{{z3, varConst, sl}, {z3, varMacro, sl}, {zn, varConst, sl}, {cv, varConst, sl}, {z3, varSeed, sl}, {z3, varLocal, sl}, {zn, varLocal, sl}, {z3, varNear, sl}},
	}
	if u.families {
		stages[0][0].v = varLean
		stages[1] = append([]attempt{{z3, varFam, f}, {cv, varFam, f}, {cv, varLean, f}, {z3, varConst, f}}, stages[1]...)
		stages[2] = append([]attempt{{z3, varFam, sl}, {zn, varFam, sl}}, stages[2]...)
	}
	if strings.Contains(o.Name, ":auto_") {
		stages = stages[:2]
	}
	if u.ctx.theory {
		stages = [][]attempt{{{cv, varConst, f}, {z3, varConst, f}}, {{zn, varConst, f}}, {{cv, varConst, sl}, {z3, varConst, sl}, {zn, varConst, sl}}}
	}
	// a conjunction that resists is proved conjunct by conjunct
	if pc, gs := conjuncts(o.Goal.S); len(gs) > 1 && !o.part {
		v := ""
		if stages[0][0].ms > 0 {
			a := stages[0][0]
			a.ms = 1000
			v = try(cfg.ctx, a)
		}
		if v == "unsat" {
			o.Status, o.Solver = "discharged", z3.name
			return
		}
		for n, g := range gs {
			p := &Obligation{Func: o.Func, Name: fmt.Sprintf("%s.%d", o.Name, n), Upto: o.Upto, Goal: T{"(=> " + pc + " " + g + ")", SBool}, Kind: o.Kind, part: true, pc: o.pc, scope: o.scope, loop: o.loop, near: o.near, own: o.own, fam: o.fam, extra: o.extra, whole: o}
			if pc == "true" {
				p.Goal.S = g
			}
			u.solve(p, cfg)
			o.Secs += p.Secs
			if p.Status != "discharged" {
				o.Status = "failed"
				o.Reason = fmt.Sprintf("conjunct %d: %s", n+1, p.Reason)
				o.Goal, o.part = p.Goal, true
				return
			}
			o.Solver = p.Solver
		}
		o.Status = "discharged"
		return
	}
	var reasons []string
	for sn, stage := range stages {
		if stage[0].ms <= 0 {
			continue
		}
		if exhausted() {
			return
		}
		if sn == 2 && !u.usePool && u.nfailed.Load() >= 12 {
			break // the function is not going to verify
		}
		if sn == 2 && !u.ctx.theory && len(o.extra) < 2 {
			// case distinction over the paths that joined last
			p := o.pc
			if len(o.extra) > 0 {
				p = o.extra[len(o.extra)-1]
			}
			if dj := u.lastJoin(p); len(dj) > 1 && len(dj) <= 4 {
				all := true
				for n, d := range dj {
					q := &Obligation{Func: o.Func, Name: fmt.Sprintf("%s_case%d", o.Name, n), Upto: o.Upto, Goal: T{"(=> " + d + " " + o.Goal.S + ")", SBool}, Kind: o.Kind, part: true, pc: o.pc, scope: o.scope, loop: o.loop, near: o.near, own: o.own, fam: o.fam, extra: append(append([]string{}, o.extra...), d), whole: o}
					u.solve(q, cfg)
					o.Secs += q.Secs
					if q.Status != "discharged" {
						all = false
						o.Reason = fmt.Sprintf("case %s: %s", d, q.Reason)
						break
					}
					o.Solver = q.Solver
				}
				if all {
					o.Status = "discharged"
				} else {
					o.Status, o.Solver = "failed", ""
				}
				return
			}
		}
		ctx, cancel := context.WithCancel(cfg.ctx)
		var wg sync.WaitGroup
		verdicts := make([]string, len(stage))
		for i, a := range stage {
			wg.Add(1)
			go func(i int, a attempt) {
				defer wg.Done()
				if a.v == varNear && o.near == nil {
					return
				}
				verdicts[i] = try(ctx, a)
				if verdicts[i] == "unsat" {
					mu.Lock()
					if o.Solver == "" {
						o.Solver = a.be.name
					}
					mu.Unlock()
					cancel()
				}
			}(i, a)
		}
		wg.Wait()
		cancel()
		if o.Solver != "" {
			o.Status = "discharged"
			return
		}
		for i, a := range stage {
			reasons = append(reasons, fmt.Sprintf("%s/%d(%dms): %s", a.be.name, a.v, a.ms, verdicts[i]))
			if verdicts[i] == "sat" && u.ctx.theory {
				o.Status, o.Reason = "failed", strings.Join(reasons, "; ")
				return
			}
		}
	}
	o.Status = "failed"
	o.Reason = strings.Join(reasons, "; ")
}

func (u *Unit) solveAll(cfg solveCfg) {
	var wg sync.WaitGroup
	for _, o := range u.obls {
		if o.Status != "" {
			continue
		}
		wg.Add(1)
		go func(o *Obligation) {
			defer wg.Done()
			u.solve(o, cfg)
			if o.Status == "failed" && o.Kind != "vacuity" && !strings.Contains(o.Name, ":auto_") {
				u.nfailed.Add(1)
			}
		}(o)
	}
	wg.Wait()
}

// retry gives the few obligations that are still open, once the load has gone,
// a longer time limit: a verdict must not depend on how busy the machine was.
func (u *Unit) retry(cfg solveCfg) {
	var open []*Obligation
	for _, o := range u.obls {
		if o.Status == "failed" && o.Kind != "vacuity" && !strings.Contains(o.Name, ":auto_") {
			open = append(open, o)
		}
	}
	if len(open) == 0 || len(open) > 4 {
		return
	}
	ctx, cancel := context.WithTimeout(cfg.ctx, 200*time.Second)
	defer cancel()
	cfg.ctx, cfg.effort = ctx, cfg.effort*3
	cfg.fast, cfg.slow = cfg.slow, cfg.slow*3
	for _, o := range open {
		if o.Reason == "stopped" {
			return
		}
		o.Status, o.Solver = "", ""
		o.spent.Store(0)
		u.solve(o, cfg)
		if o.Status == "failed" {
			return
		}
	}
}

// verify runs one function through the verifier. When the direct proof fails
// because of loop annotations (the loops may have been rewritten), the loop
// annotations are treated as a pool of candidate invariants and weakened to
// the inductive subset (Houdini) before the postconditions are judged.
func verify(P *Program, C *Contracts, con *Contract, cfg solveCfg) *UnitResult {
	t0 := time.Now()
	res := &UnitResult{Func: con.Key, File: con.File, Props: con.Props, NoPanic: con.NoPanic, PerSolver: map[string]int{}}
	fn := P.funcs[con.Key]
	if fn == nil || len(fn.Blocks) == 0 {
		res.Status, res.Why = "missing", "no such function in the current source"
		return res
	}
	if con.Timeout > 0 {
		cfg.slow = con.Timeout * 1000
	}
	var dropped map[string]bool
	pool := false
	directTries := 0
	stopped := false
	var u, direct *Unit
	var directDropped map[string]bool
	for attempt := 0; attempt < 14; attempt++ {
		u = P.newUnit(C, con, dropped, pool)
		if err := u.generate(fn); err != nil {
			res.Status, res.Why = "unsupported", err.Error()
			if _, ok := err.(unsup); !ok && !pool && strings.HasPrefix(err.Error(), "internal") {
				res.Status = "unsupported"
			}
			res.Secs = time.Since(t0).Seconds()
			return res
		}
		c := cfg
		if pool {
			c.slow = cfg.slow / 4
		}
		u.solveAll(c)
		if !pool {
			u.retry(c)
			direct, directDropped = u, dropped
		}
		if cfg.ctx.Err() != nil {
			stopped = true
			if direct == nil || len(direct.obls) == 0 {
				break
			}
			if pool {
				u, dropped, pool = direct, directDropped, false
			}
			break
		}
		for _, o := range u.obls {
			res.SolverSec += o.Secs
		}
		var failInv, failOther []string
		for _, o := range u.obls {
			if o.Status == "failed" && o.Kind != "vacuity" {
				if strings.HasPrefix(o.Kind, "invariant") {
					failInv = append(failInv, o.Name)
				} else {
					failOther = append(failOther, o.Name)
				}
			}
		}
		if len(failInv) == 0 && len(failOther) == 0 || noHoudini {
			break
		}
		if time.Since(t0).Seconds() > cfg.budget {
			break
		}
		autoOnly := len(failInv) > 0
		for _, n := range failInv {
			if !strings.Contains(n, ":auto_") {
				autoOnly = false
			}
		}
		if len(failInv) == 0 {
			if !pool && len(con.Loops) > 0 && len(u.loopOrd) > 0 && poolUseful(con, u) {
				pool = true
				dropped = map[string]bool{}
				continue
			}
			break
		}
		if !pool && !autoOnly {
			if directTries++; directTries == 1 {
				pool = true
				nd := map[string]bool{}
				for k := range dropped {
					if strings.Contains(k, ":auto_") {
						nd[k] = true
					}
				}
				dropped = nd
				continue
			}
		}
		if dropped == nil {
			dropped = map[string]bool{}
		}
		nd := map[string]bool{}
		for k := range dropped {
			nd[k] = true
		}
		for _, n := range failInv {
			// inv:loopN:label:when(~k)
			ps := strings.Split(n, ":")
			nd[ps[1]+":"+ps[2]] = true
		}
		dropped = nd
	}
	res.Loops = len(u.loopOrd)
	if pool {
		res.Pass = "houdini"
		res.Dropped = sortedKeys(dropped)
	} else {
		res.Pass = "direct"
	}
	res.Status = "verified"
	for _, o := range u.obls {
		r := OblResult{Name: o.Name, Kind: o.Kind, Pos: o.Pos, Status: o.Status, Solver: o.Solver, Secs: round3(o.Secs), Reason: o.Reason}
		if o.Kind == "vacuity" {
			if o.Status == "failed" {
				if o.Name == "vacuity:exit" {
					res.Status = "failed"
				} else {
					res.Warnings = append(res.Warnings, o.Name+" "+o.Reason)
				}
			}
			if o.Name != "vacuity:exit" {
				continue
			}
		} else if o.Status != "discharged" {
			res.Status = "failed"
		}
		if o.Status == "discharged" && o.Kind != "vacuity" {
			res.PerSolver[o.Solver]++
		}
		res.Obls = append(res.Obls, r)
	}
	if stopped && res.Status == "failed" {
		for _, o := range u.obls {
			if o.Status == "failed" && o.Reason == "stopped" {
				res.Status, res.Why = "timeout", "stopped before every obligation was tried"
			}
		}
	}
	res.Assumed = sortedKeys(u.assumed)
	res.Inlined = sortedKeys(u.inlined)
	res.UsedCon = sortedKeys(u.usedCon)
	res.Secs = time.Since(t0).Seconds()
	if dumpDir != "" {
		for _, o := range u.obls {
			if o.Status == "failed" || dumpAll {
				f := fmt.Sprintf("%s/%s_%s.smt2", dumpDir, sanitize(con.Key), sanitize(o.Name))
				_ = os.WriteFile(f, []byte(u.ctx.script(o, varConst, false, false)), 0o644)
				_ = os.WriteFile(strings.TrimSuffix(f, ".smt2")+"_local.smt2", []byte(u.ctx.script(o, varLocal, false, false)), 0o644)
				_ = os.WriteFile(strings.TrimSuffix(f, ".smt2")+"_near.smt2", []byte(u.ctx.script(o, varNear, false, false)), 0o644)
				_ = os.WriteFile(strings.TrimSuffix(f, ".smt2")+"_fam.smt2", []byte(u.ctx.script(o, varFam, false, false)), 0o644)
			}
		}
	}
	return res
}

// poolUseful: the loop structure no longer matches the annotations.
func poolUseful(con *Contract, u *Unit) bool {
	for _, k := range u.loopOrd {
		if _, ok := con.Loops[k]; !ok {
			return true
		}
	}
	for k := range con.Loops {
		found := false
		for _, n := range u.loopOrd {
			if n == k {
				found = true
			}
		}
		if !found {
			return true
		}
	}
	return false
}

func round3(f float64) float64 { return float64(int(f*1000+0.5)) / 1000 }

var noHoudini bool
var dumpDir string
var dumpAll bool
