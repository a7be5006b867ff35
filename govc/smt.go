package main

// SMT layer: sorts, the logical context of one verification unit, and the
// solver driver.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Sort string

const (
	SBool  Sort = "Bool"
	SInt   Sort = "Int"
	SRef   Sort = "Int"
	SSlice Sort = "Slice"
	SIface Sort = "Iface"
	SFloat Sort = "FloatU"
)

// T is an SMT term with its sort.
type T struct {
	S    string
	Sort Sort
}

func arr(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// splitArr returns the index and element sort of an array sort.
func splitArr(s Sort) (Sort, Sort, bool) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		return "", "", false
	}
	body := str[7 : len(str)-1]
	depth := 0
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(body[:i]), Sort(body[i+1:]), true
			}
		}
	}
	return "", "", false
}

func app(sort Sort, f string, args ...T) T {
	if len(args) == 0 {
		return T{f, sort}
	}
	var b strings.Builder
	b.WriteByte('(')
	b.WriteString(f)
	for _, a := range args {
		b.WriteByte(' ')
		b.WriteString(a.S)
	}
	b.WriteByte(')')
	return T{b.String(), sort}
}

var tTrue = T{"true", SBool}
var tFalse = T{"false", SBool}

func mkAnd(ts ...T) T {
	var out []T
	for _, t := range ts {
		if t.S == "true" {
			continue
		}
		if t.S == "false" {
			return tFalse
		}
		out = append(out, t)
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return app(SBool, "and", out...)
}
func mkOr(ts ...T) T {
	var out []T
	for _, t := range ts {
		if t.S == "false" {
			continue
		}
		if t.S == "true" {
			return tTrue
		}
		out = append(out, t)
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return app(SBool, "or", out...)
}
func mkNot(t T) T {
	switch t.S {
	case "true":
		return tFalse
	case "false":
		return tTrue
	}
	if strings.HasPrefix(t.S, "(not ") {
		return T{t.S[5 : len(t.S)-1], SBool}
	}
	return app(SBool, "not", t)
}
func mkImp(a, b T) T {
	if a.S == "true" {
		return b
	}
	if a.S == "false" || b.S == "true" {
		return tTrue
	}
	if b.S == "false" {
		return mkNot(a)
	}
	return app(SBool, "=>", a, b)
}
func mkEq(a, b T) T {
	if a.S == b.S {
		return tTrue
	}
	return app(SBool, "=", a, b)
}
func mkIte(c, a, b T) T {
	if c.S == "true" {
		return a
	}
	if c.S == "false" {
		return b
	}
	if a.S == b.S {
		return a
	}
	return app(a.Sort, "ite", c, a, b)
}
func sel(a, k T) T {
	_, v, ok := splitArr(a.Sort)
	if !ok {
		panic(unsupported("select on non-array sort " + string(a.Sort) + " term " + a.S))
	}
	return app(v, "select", a, k)
}
func sto(a, k, v T) T { return app(a.Sort, "store", a, k, v) }
func intT(n int64) T {
	if n < 0 {
		return T{fmt.Sprintf("(- %d)", -n), SInt}
	}
	return T{fmt.Sprintf("%d", n), SInt}
}
func constArr(s Sort, v T) T { return T{"((as const " + string(s) + ") " + v.S + ")", s} }

// carr is constArr for element terms that are not values (cvc5 accepts only
// values under "as const").
func (c *Ctx) carr(s Sort, v T) T {
	if v.S == "true" || v.S == "false" || v.S[0] >= '0' && v.S[0] <= '9' || v.S[0] == '"' || strings.HasPrefix(v.S, "((as const") || strings.HasPrefix(v.S, "(mk-slice ") || strings.HasPrefix(v.S, "(mk-iface ") {
		return constArr(s, v)
	}
	n := "carr_" + sanitize(string(s))
	c.fun(n, []Sort{v.Sort}, s)
	k, _, _ := splitArr(s)
	c.axiomOnce(n, fmt.Sprintf("(assert (forall ((v %s)(k %s)) (! (= (select (%s v) k) v) :pattern ((select (%s v) k)))))", v.Sort, k, n, n))
	return app(s, n, v)
}

type unsup struct{ msg string }

func (u unsup) Error() string      { return u.msg }
func unsupported(msg string) error { return unsup{msg} }

// Obligation is one verification condition: ctx lines [0,upto) entail goal.
type Obligation struct {
	Func   string
	Name   string // stable name
	Kind   string // ensures, requires, invariant-entry, invariant-preserved, frame, safety, vacuity
	Pos    string
	Upto   int
	Goal   T
	Expect string // "unsat" normally; for vacuity checks "notunsat"
	Status string // discharged, failed, unknown, timeout
	Solver string
	Secs   float64
	Model  string
	Reason string
	part   bool
	pc     string
	scope  string
	loop   string
	fam    string          // the code it is about
	own    string          // number of the loop whose invariant it is, or exit
	near   map[string]bool // the loops whose facts the goal most likely needs
	extra  []string        // further path conditions of a case
	whole  *Obligation     // the obligation this is a part of
	spent  atomic.Int64    // solver milliseconds, parts included
}

// Ctx accumulates declarations, definitions and assumptions.
type Ctx struct {
	fam        string                      // of the invariant being emitted
	label      string                      // where the assumptions being emitted come from
	scope      string                      // of the assumptions being emitted
	irrelevant func(guard, pc string) bool // the guard is false whenever pc holds

	lines  []string
	n      int
	sorts  map[string]bool
	funs   map[string]bool
	pre    []string // preamble declarations (order-independent: emitted first)
	lits   map[string]string
	theory bool // true: SMT strings theory
	strs   bool // text facts in use
	strlen map[string]int

	noDefine int // >0 while evaluating specifications
}

func newCtx(theory, strs bool) *Ctx {
	c := &Ctx{sorts: map[string]bool{}, funs: map[string]bool{}, lits: map[string]string{}, theory: theory, strs: strs && !theory, strlen: map[string]int{}}
	c.pre = append(c.pre,
		"(declare-datatypes ((Slice 0)) (((mk-slice (sref Int) (soff Int) (slen Int) (scap Int)))))",
		"(declare-datatypes ((Iface 0)) (((mk-iface (itag Int) (ipay Int)))))",
		"(declare-sort FloatU 0)",
	)
	if !theory {
		c.pre = append(c.pre, "(declare-sort Str 0)", "(declare-fun strlen (Str) Int)",
			"(declare-fun strcat (Str Str) Str)", "(declare-fun strat (Str Int) Int)",
			"(declare-fun strlt (Str Str) Bool)",
			"(declare-fun substr (Str Int Int) Str)",
			"(assert (forall ((s Str)) (! (>= (strlen s) 0) :pattern ((strlen s)))))",
			"(assert (forall ((s Str)(t Str)) (! (= (strlen (strcat s t)) (+ (strlen s) (strlen t))) :pattern ((strcat s t)))))",
			"(assert (forall ((s Str)(t Str)) (! (=> (and (strlt s t) (strlt t s)) false) :pattern ((strlt s t)(strlt t s)))))",
			"(assert (forall ((s Str)(t Str)) (! (or (= s t) (strlt s t) (strlt t s)) :pattern ((strlt s t)))))",
			"(assert (forall ((s Str)) (! (not (strlt s s)) :pattern ((strlt s s)))))",
		)
		if c.strs {
			c.pre = append(c.pre, "(declare-fun ascii (Str) Bool)", "(declare-fun chr (Int) Str)")
			c.funs["ascii"], c.funs["chr"] = true, true
		}
		c.strLit("")
		c.pre = append(c.pre, "(assert (forall ((s Str)) (! (= (= (strlen s) 0) (= s lit_empty)) :pattern ((strlen s)))))",
			"(assert (forall ((s Str)) (! (= (strcat s lit_empty) s) :pattern ((strcat s lit_empty)))))",
			"(assert (forall ((s Str)) (! (= (strcat lit_empty s) s) :pattern ((strcat lit_empty s)))))")
	}
	return c
}

func (c *Ctx) strSort() Sort {
	if c.theory {
		return "String"
	}
	return "Str"
}

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		ch := s[i]
		switch {
		case ch == '"':
			b.WriteString("\"\"")
		case ch < 32 || ch > 126 || ch == '\\':
			fmt.Fprintf(&b, "\\u{%x}", ch)
		default:
			b.WriteByte(ch)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// litText: the text of a string literal term.
func (c *Ctx) litText(t T) (string, bool) {
	for s, n := range c.lits {
		if n == t.S {
			return s, true
		}
	}
	return "", false
}

func (c *Ctx) strLit(s string) T {
	if c.theory {
		return T{smtStr(s), "String"}
	}
	if n, ok := c.lits[s]; ok {
		return T{n, "Str"}
	}
	n := "lit_empty"
	if s != "" {
		clean := strings.Map(func(r rune) rune {
			if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' {
				return r
			}
			return -1
		}, s)
		if len(clean) > 20 {
			clean = clean[:20]
		}
		n = fmt.Sprintf("lit_%d_%s", len(c.lits), clean)
	}
	c.lits[s] = n
	c.pre = append(c.pre, fmt.Sprintf("(declare-const %s Str)", n), fmt.Sprintf("(assert (= (strlen %s) %d))", n, len(s)))
	if c.strs {
		asc := "(ascii " + n + ")"
		for i := 0; i < len(s); i++ {
			if s[i] >= 128 {
				asc = "(not (ascii " + n + "))"
				break
			}
		}
		c.pre = append(c.pre, "(assert "+asc+")")
		if len(s) == 1 {
			c.pre = append(c.pre, fmt.Sprintf("(assert (= %s (chr %d)))", n, s[0]))
		}
	}
	if len(s) <= 4 || c.strs && len(s) <= 10 {
		for i := 0; i < len(s); i++ {
			c.pre = append(c.pre, fmt.Sprintf("(assert (= (strat %s %d) %d))", n, i, s[i]))
		}
	}
	return T{n, "Str"}
}

func (c *Ctx) emit(s string) { c.lines = append(c.lines, s) }
func (c *Ctx) comment(s string) {
	c.lines = append(c.lines, "; "+strings.ReplaceAll(s, "\n", " "))
}
func (c *Ctx) fresh(base string, s Sort) T {
	c.n++
	n := fmt.Sprintf("%s!%d", sanitize(base), c.n)
	c.emit(fmt.Sprintf("(declare-const %s %s)", n, s))
	return T{n, s}
}
func (c *Ctx) define(base string, t T) T {
	if c.noDefine > 0 || len(t.S) < 24 || !strings.ContainsAny(t.S, "(") {
		return t
	}
	c.n++
	n := fmt.Sprintf("%s!%d", sanitize(base), c.n)
	if t.Sort == SBool {
		c.emit(fmt.Sprintf("(define-fun %s () %s %s)", n, t.Sort, t.S))
	} else {
		// a constant rather than a macro: macros are expanded into quantifier
		// patterns, where connectives are not allowed
		c.emit(fmt.Sprintf("(define-const %s\x00%s\x00%s)", n, t.Sort, t.S))
	}
	return T{n, t.Sort}
}
func (c *Ctx) assume(pc, t T) {
	f := mkImp(pc, t)
	if f.S == "true" {
		return
	}
	tag := ""
	if pc.S != "true" || c.scope != "" || c.label != "" || c.fam != "" {
		tag = "\x05" + pc.S + "\x05" + c.scope + "\x05" + c.label + "\x06" + c.fam + "\x05"
	}
	if c.label != "" {
		if g, cs := conjuncts(f.S); len(cs) > 1 {
			for _, x := range cs {
				if g != "true" {
					x = "(=> " + g + " " + x + ")"
				}
				c.emit(tag + "(assert " + x + ")")
			}
			return
		}
	}
	c.emit(tag + "(assert " + f.S + ")")
}

// fun declares an uninterpreted function once (in the preamble).
func (c *Ctx) fun(name string, args []Sort, res Sort) {
	if c.funs[name] {
		return
	}
	c.funs[name] = true
	var as []string
	for _, a := range args {
		as = append(as, string(a))
	}
	c.pre = append(c.pre, fmt.Sprintf("(declare-fun %s (%s) %s)", name, strings.Join(as, " "), res))
}
func (c *Ctx) axiomOnce(key, text string) {
	if c.funs["axiom:"+key] {
		return
	}
	c.funs["axiom:"+key] = true
	c.pre = append(c.pre, text)
}
func (c *Ctx) uf(name string, res Sort, args ...T) T {
	var ss []Sort
	for _, a := range args {
		ss = append(ss, a.Sort)
	}
	n := sanitize(name)
	c.fun(n, ss, res)
	return app(res, n, args...)
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '!' || r == '.' || r == '-':
			b.WriteRune(r)
		case r == '*':
			b.WriteString("P.")
		case r == '[':
			b.WriteString("L.")
		case r == ']':
			b.WriteString("R.")
		default:
			b.WriteByte('_')
		}
	}
	out := b.String()
	if out == "" {
		return "x"
	}
	if out[0] >= '0' && out[0] <= '9' || out[0] == '-' || out[0] == '.' {
		out = "n" + out
	}
	return out
}

// variant of a script: names for intermediate terms as constants or macros,
// trigger terms decomposed or left to the solver, another random seed.
type variant int

const (
	varConst variant = iota
	varMacro
	varSeed
	varNear  // only facts of the near loops
	varFam   // without the invariants about something else
	varLean  // and without index facts of bags
	varLocal // without index facts of bags and without the many-variable facts of other loops and the precondition
)

// lineTag splits the guard and the scope off a line.
func lineTag(l string) (guard, scope, label, line string) {
	if len(l) > 0 && l[0] == 5 {
		p := strings.SplitN(l[1:], "\x05", 4)
		return p[0], p[1], p[2], p[3]
	}
	return "", "", "", l
}

var multiBinder = regexp.MustCompile(`\(forall \(\(\S+ [^()]*\) ?\(`)

func renderLine(l string, v variant) string {
	if strings.HasPrefix(l, "(define-const ") {
		// (define-const NAME\x00SORT\x00TERM)
		p := strings.SplitN(l[len("(define-const "):len(l)-1], "\x00", 3)
		if v == varMacro {
			l = "(define-fun " + p[0] + " () " + p[1] + " " + p[2] + ")"
		} else {
			l = "(declare-const " + p[0] + " " + p[1] + ")\n(assert (= " + p[0] + " " + p[2] + "))"
		}
	}
	for {
		i := strings.Index(l, "\x01")
		if i < 0 {
			return l
		}
		j := strings.Index(l[i:], "\x02") + i
		k := strings.Index(l[j:], "\x03") + j
		if v == varMacro {
			l = l[:i] + l[i+1:j] + l[k+1:]
		} else {
			l = l[:i] + l[j+1:k] + l[k+1:]
		}
	}
}

func (c *Ctx) script(o *Obligation, v variant, models bool, cvc bool) string {
	var b strings.Builder
	if cvc {
		b.WriteString("(set-logic ALL)\n")
	}
	if models {
		b.WriteString("(set-option :produce-models true)\n")
	}
	if !cvc {
		b.WriteString("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.array.extensional true)\n")
		if v == varSeed {
			b.WriteString("(set-option :smt.random_seed 11)\n")
		}
		if v == varSeed || v == varLocal {
			b.WriteString("(set-option :smt.phase_selection 0)\n")
		}
		if c.theory {
			b.Reset()
		}
	}
	for _, l := range c.pre {
		if strings.HasPrefix(l, "\x08") {
			at, rest, _ := strings.Cut(l[1:], "\x08")
			if !slices.Contains(strings.Fields(at), o.own) {
				continue
			}
			l = rest
		}
		if strings.HasPrefix(l, "\x07") {
			if v == varLocal || v == varNear || v == varLean {
				continue
			}
			l = l[1:]
		}
		b.WriteString(renderLine(l, v))
		b.WriteByte('\n')
	}
	if !c.theory {
		var names []string
		for _, n := range c.lits {
			names = append(names, n)
		}
		if len(names) > 1 {
			b.WriteString("(assert (distinct " + strings.Join(names, " ") + "))\n")
		}
	}
	for _, l := range c.lines[:o.Upto] {
		if l != "" && l[0] == 5 {
			g, sc, lab, rest := lineTag(l)
			lab, fam, _ := strings.Cut(lab, "\x06")
			if (v == varFam || v == varLean) && fam != "" && fam != o.fam && (fam[0] == '!' && strings.HasPrefix(o.fam, "!") || strings.Contains(rest, "(exists (") || multiBinder.MatchString(rest)) {
				continue
			}
			if v == varNear && strings.HasPrefix(lab, "loop") && !o.near[lab] && (strings.Contains(rest, "(exists (") || multiBinder.MatchString(rest)) {
				continue
			}
			if v == varLocal && (lab == "frame" && strings.Contains(rest, "(exists (") || lab != "" && lab != o.loop && multiBinder.MatchString(rest)) {
				continue
			}
			if sc != "" && sc != o.scope || c.irrelevant(g, o.pc) {
				continue
			}
			skip := false
			for _, x := range o.extra {
				if c.irrelevant(g, x) {
					skip = true
				}
			}
			if skip {
				continue
			}
			l = rest
		}
		b.WriteString(renderLine(l, v))
		b.WriteByte('\n')
	}
	b.WriteString("; goal\n(assert (not " + renderLine(o.Goal.S, v) + "))\n(check-sat)\n")
	return b.String()
}

type Solver struct {
	TimeoutMs int
	Dir       string // where scripts are kept
	mu        sync.Mutex
	Calls     int
	Secs      float64
	PerCall   map[string]int
}

type backend struct {
	name string
	cmd  func(file string, ms int) []string
	cvc  bool
}

var backends = []backend{
	{"z3-4.8.12", func(f string, ms int) []string { return []string{"z3", fmt.Sprintf("-t:%d", ms), f} }, false},
	{"z3-new", func(f string, ms int) []string { return []string{"z3-new", fmt.Sprintf("-t:%d", ms), f} }, false},
	{"cvc5", func(f string, ms int) []string {
		return []string{"cvc5", fmt.Sprintf("--tlimit=%d", ms), "--strings-exp", f}
	}, true},
}

func runBackend(pctx context.Context, be backend, script string, dir, tag string, ms int) (string, float64) {
	h := sha256.Sum256([]byte(script))
	f := filepath.Join(dir, fmt.Sprintf("%s_%x_%s.smt2", sanitize(tag), h[:4], be.name))
	if len(filepath.Base(f)) > 200 {
		f = filepath.Join(dir, fmt.Sprintf("q_%x_%s.smt2", h[:8], be.name))
	}
	_ = os.WriteFile(f, []byte(script), 0o644)
	ctx, cancel := context.WithTimeout(pctx, time.Duration(ms+2000)*time.Millisecond)
	defer cancel()
	args := be.cmd(f, ms)
	cmd := exec.CommandContext(ctx, args[0], args[1:]...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t := time.Now()
	_ = cmd.Run()
	secs := time.Since(t).Seconds()
	res := strings.TrimSpace(out.String())
	if !keepScripts {
		_ = os.Remove(f)
	}
	return res, secs
}

var keepScripts = false

func firstVerdict(out string) string {
	for _, l := range strings.Split(out, "\n") {
		l = strings.TrimSpace(l)
		switch l {
		case "unsat", "sat", "unknown", "timeout":
			return l
		}
		if strings.HasPrefix(l, "(error") {
			return "error: " + l
		}
	}
	if out == "" {
		return "timeout"
	}
	return "error: " + out
}
