package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type Clause struct {
	Label string
	Src   string
	E     *Expr
}
type Invariant struct {
	freshCell string
	sepCell   string
	auto      bool
	idxIn     bool // the counter of the loop is within the slice
	Label     string
	Src       string
	E         *Expr
	frame     string // auto frame: heap name
}
type ModClause struct {
	Src string
	E   *Expr
}
type Set struct {
	Ghost string
	E     *Expr
}
type Contract struct {
	Key         string
	Pkg         string
	ParamNames  []string
	ResultNames []string
	Props       []string
	Requires    []*Clause
	Ensures     []*Clause
	Modifies    []*ModClause
	Loops       map[int][]*Invariant
	NoPanic     bool
	Trusted     bool
	Pure        bool
	Inline      bool
	Theory      bool
	Strs        bool // facts about the text of byte slices and joined lists
	Bags        bool
	BagPairs    bool
	BagPairsAt  string // the loops (numbers, "exit") whose goals get the pair facts; empty: all goals
	BagIndexAt  string
	BagIndex    bool
	Uses        []string
	Defaults    []string
	File        string
	Note        string
	Timeout     int
	autoFrame   map[string]bool
	inlineBy    *Expr  // the receiver of the method whose code stands in for the call
	dispatch    string // the method whose contract this is, of an interface method
	noAlloc     bool
	Sets        []*Set     // ghost state that records calls of the function: set by definition at its exit
	Protects    []*Protect // state only used with a mutex held
}

// Protect: "protects sl.mutex ghost callee-prefix"
type Protect struct {
	E             *Expr
	Ghost, Callee string
}

func (c *Contract) Allocates() bool { return !c.noAlloc }

type Macro struct {
	Name   string
	Params []string
	E      *Expr
	Pkg    string
}
type Logic struct {
	Name string
	Args []string
	Res  string
}
type Axiom struct {
	Name string
	Src  string
	E    *Expr
	Pkg  string
	Raw  string
	For  []string // logic symbols that trigger inclusion
}
type Contracts struct {
	Funcs  map[string]*Contract
	Macros map[string]*Macro
	Logics map[string]*Logic
	Axioms []*Axiom
	Ghosts map[string]string
	NoCall map[string]string
	Order  []string
	disp   []*Dispatch
}

// Dispatch: "dispatch Iface.Method = (*Base).Method of T1 T2": a value of the
// interface is one of *T1, *T2, which embed *Base, so a call of the interface
// method runs the method of Base.
type Dispatch struct {
	Pkg, Iface, Method, Base string
	Types                    []string
	Inline                   bool // the method's code stands in for the call
}

func subst(e *Expr, name string, by *Expr) *Expr {
	if e == nil {
		return nil
	}
	if e.Op == "id" && e.S == name {
		return by
	}
	n := *e
	for _, b := range e.Binders {
		if b.Name == name {
			return e
		}
	}
	n.Args = nil
	for _, a := range e.Args {
		n.Args = append(n.Args, subst(a, name, by))
	}
	n.Trigs = nil
	for _, t := range e.Trigs {
		var nt []*Expr
		for _, a := range t {
			nt = append(nt, subst(a, name, by))
		}
		n.Trigs = append(n.Trigs, nt)
	}
	return &n
}

// copyFor is the contract with another key, whose receiver "recv" stands for
// a value with the original's receiver at by.
func (base *Contract) copyFor(key string, by *Expr) *Contract {
	rn := base.ParamNames[0]
	c := &Contract{Key: key, Pkg: base.Pkg, ResultNames: base.ResultNames, Loops: map[int][]*Invariant{}, File: base.File, Bags: true, noAlloc: base.noAlloc}
	c.ParamNames = append([]string{"recv"}, base.ParamNames[1:]...)
	for _, r := range base.Requires {
		c.Requires = append(c.Requires, &Clause{r.Label, r.Src, subst(r.E, rn, by)})
	}
	for _, r := range base.Ensures {
		c.Ensures = append(c.Ensures, &Clause{r.Label, r.Src, subst(r.E, rn, by)})
	}
	for _, r := range base.Modifies {
		c.Modifies = append(c.Modifies, &ModClause{r.Src, subst(r.E, rn, by)})
	}
	return c
}

// resolveDispatch gives interface methods the contracts of the methods they
// run, if every type listed does run that method (else the call stays one of
// an unverified callee).
func (cs *Contracts) resolveDispatch(P *Program) error {
	for _, d := range cs.disp {
		base := cs.Funcs[fmt.Sprintf("%s.(*%s).%s", d.Pkg, d.Base, d.Method)]
		if d.Inline {
			base = &Contract{Key: fmt.Sprintf("%s.(*%s).%s", d.Pkg, d.Base, d.Method), Pkg: d.Pkg, ParamNames: []string{"recv"}, File: "dispatch"}
		}
		if base == nil {
			return fmt.Errorf("dispatch %s.%s: no contract of %s", d.Iface, d.Method, d.Base)
		}
		ok := true
		for _, t := range d.Types {
			ty := P.lookupType(d.Pkg + "." + t)
			if ty == nil {
				ok = false
				break
			}
			o, _, _ := types.LookupFieldOrMethod(types.NewPointer(ty), true, P.typesPkg(d.Pkg), d.Method)
			f, isf := o.(*types.Func)
			if !isf {
				ok = false
				break
			}
			r := f.Type().(*types.Signature).Recv().Type()
			pt, isp := r.(*types.Pointer)
			if !isp {
				ok = false
				break
			}
			switch types.TypeString(pt.Elem(), func(*types.Package) string { return "" }) {
			case d.Base:
			case t:
				if d.Inline {
					ok = false
					break
				}
				// the type has a method of its own: it has to meet the same contract
				key := fmt.Sprintf("%s.(*%s).%s", d.Pkg, t, d.Method)
				if cs.Funcs[key] == nil {
					by, _ := parseExpr("recv." + d.Base)
					nn, _ := parseExpr("recv != nil")
					c := base.copyFor(key, by)
					c.Requires = append([]*Clause{{"recv", "recv != nil", nn}}, c.Requires...)
					c.Props, c.NoPanic, c.Uses, c.Strs = base.Props, base.NoPanic, base.Uses, base.Strs
					cs.Funcs[key] = c
					cs.Order = append(cs.Order, key)
				}
			default:
				ok = false
			}
		}
		if !ok {
			continue
		}
		sel, typ := "", ""
		for i := len(d.Types) - 1; i >= 0; i-- {
			as := fmt.Sprintf("as(recv, \"*%s\")", d.Types[i])
			if d.Types[i] != d.Base {
				as += "." + d.Base
			}
			if sel == "" {
				sel = as
			} else {
				sel = fmt.Sprintf("ite(typeis(recv, \"*%s\"), %s, %s)", d.Types[i], as, sel)
			}
			if typ != "" {
				typ += " || "
			}
			typ += fmt.Sprintf("typeis(recv, \"*%s\") && as(recv, \"*%s\") != nil", d.Types[i], d.Types[i])
		}
		by, err := parseExpr(sel)
		if err != nil {
			return err
		}
		is, err := parseExpr(typ)
		if err != nil {
			return err
		}
		c := base.copyFor(fmt.Sprintf("%s.%s.%s", d.Pkg, d.Iface, d.Method), by)
		c.Trusted, c.dispatch = true, base.Key
		if d.Inline {
			c.inlineBy = by
		}
		c.Requires = append([]*Clause{{"dispatch", typ, is}}, c.Requires...)
		if cs.Funcs[c.Key] != nil {
			return fmt.Errorf("duplicate contract %s", c.Key)
		}
		cs.Funcs[c.Key] = c
		cs.Order = append(cs.Order, c.Key)
	}
	return nil
}

func (cs *Contracts) lookup(key string) *Contract { return cs.Funcs[key] }

func (c *Contract) recvType(u *Unit) types.Type {
	// interface method contracts: pkg.Iface.Method
	parts := strings.Split(c.Key, ".")
	if len(parts) == 3 {
		if t := u.P.lookupType(parts[0] + "." + parts[1]); t != nil {
			return t
		}
	}
	return types.NewInterfaceType(nil, nil)
}

var keywords = map[string]bool{"package": true, "def": true, "logic": true, "axiom": true, "ghost": true, "func": true, "trusted": true, "prop": true, "requires": true, "ensures": true, "modifies": true, "loop": true, "invariant": true, "pure": true, "nopanic": true, "theory": true, "bags": true, "note": true, "nocall": true, "inline": true, "timeout": true, "use": true, "strings": true, "smt": true, "noalloc": true, "protects": true, "sets": true, "dispatch": true}

func loadContracts(dir string) (*Contracts, error) {
	cs := &Contracts{Funcs: map[string]*Contract{}, Macros: map[string]*Macro{}, Logics: map[string]*Logic{}, Ghosts: map[string]string{}, NoCall: map[string]string{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	for _, f := range files {
		if err := cs.loadFile(f); err != nil {
			return nil, fmt.Errorf("%s: %w", f, err)
		}
	}
	return cs, nil
}

func (cs *Contracts) loadFile(file string) error {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	// logical lines
	var lines []string
	for _, l := range strings.Split(string(data), "\n") {
		if i := strings.Index(l, "//"); i >= 0 && (i == 0 || l[i-1] == ' ' || l[i-1] == '\t') {
			l = l[:i]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		w := t
		if i := strings.IndexAny(t, " \t(:"); i >= 0 {
			w = t[:i]
		}
		if keywords[w] || len(lines) == 0 {
			lines = append(lines, t)
		} else {
			lines[len(lines)-1] += " " + t
		}
	}
	pkg := ""
	var cur *Contract
	loop := 0
	for _, l := range lines {
		w, rest := l, ""
		if i := strings.IndexAny(l, " \t"); i >= 0 {
			w, rest = l[:i], strings.TrimSpace(l[i:])
		}
		bad := func(e error) error { return fmt.Errorf("%q: %w", l, e) }
		switch w {
		case "package":
			pkg = rest
		case "ghost":
			ps := strings.SplitN(rest, ":", 2)
			cs.Ghosts[strings.TrimSpace(ps[0])] = strings.TrimSpace(ps[1])
		case "nocall":
			ps := strings.SplitN(rest, " ", 2)
			cs.NoCall[ps[0]] = "not modelled"
		case "def":
			i := strings.Index(rest, "=")
			// first '=' not part of '=='
			head := rest[:i]
			body := rest[i+1:]
			o, c := strings.Index(head, "("), strings.LastIndex(head, ")")
			if o < 0 {
				return bad(fmt.Errorf("def needs parameters"))
			}
			m := &Macro{Name: strings.TrimSpace(head[:o]), Pkg: pkg}
			for _, p := range strings.Split(head[o+1:c], ",") {
				if p = strings.TrimSpace(p); p != "" {
					m.Params = append(m.Params, strings.Fields(p)[0])
				}
			}
			if m.E, err = parseExpr(body); err != nil {
				return bad(err)
			}
			cs.Macros[m.Name] = m
		case "logic":
			o, c := strings.Index(rest, "("), strings.LastIndex(rest, ")")
			lg := &Logic{Name: strings.TrimSpace(rest[:o]), Res: strings.TrimSpace(rest[c+1:])}
			for _, p := range strings.Split(rest[o+1:c], ",") {
				if p = strings.TrimSpace(p); p != "" {
					lg.Args = append(lg.Args, p)
				}
			}
			cs.Logics[lg.Name] = lg
		case "dispatch":
			lhs, rhs, ok := strings.Cut(rest, "=")
			f := strings.Fields(rhs)
			ip := strings.Split(strings.TrimSpace(lhs), ".")
			if !ok || len(ip) != 2 || len(f) < 3 || f[1] != "of" {
				return bad(fmt.Errorf("dispatch IFACE.METHOD = BASE of TYPE..."))
			}
			inl := f[len(f)-1] == "inline"
			if inl {
				f = f[:len(f)-1]
			}
			cs.disp = append(cs.disp, &Dispatch{pkg, ip[0], ip[1], f[0], f[2:], inl})
		case "axiom":
			lab, src := splitLabel(rest)
			a := &Axiom{Name: lab, Src: src, Pkg: pkg}
			if a.E, err = parseExpr(src); err != nil {
				return bad(err)
			}
			cs.Axioms = append(cs.Axioms, a)
		case "func", "trusted", "pure":
			trusted := w != "func"
			pure := w == "pure"
			if strings.HasPrefix(rest, "func ") {
				rest = strings.TrimSpace(rest[5:])
			}
			if cur != nil && w == "pure" && rest == "" {
				cur.Pure = true
				continue
			}
			cur = &Contract{Pkg: pkg, Loops: map[int][]*Invariant{}, Trusted: trusted, Pure: pure, File: filepath.Base(file), Bags: true}
			if err := cur.parseHead(rest); err != nil {
				return bad(err)
			}
			if _, dup := cs.Funcs[cur.Key]; dup {
				return bad(fmt.Errorf("duplicate contract %s", cur.Key))
			}
			cs.Funcs[cur.Key] = cur
			cs.Order = append(cs.Order, cur.Key)
			loop = 0
		default:
			if cur == nil {
				return bad(fmt.Errorf("clause outside func"))
			}
			switch w {
			case "prop":
				cur.Props = strings.Fields(strings.ReplaceAll(rest, ",", " "))
			case "requires", "ensures":
				lab, src := splitLabel(rest)
				e, err := parseExpr(src)
				if err != nil {
					return bad(err)
				}
				cl := &Clause{lab, src, e}
				if w == "requires" {
					cur.Requires = append(cur.Requires, cl)
				} else {
					if lab == "" {
						cl.Label = fmt.Sprint(len(cur.Ensures) + 1)
					}
					cur.Ensures = append(cur.Ensures, cl)
				}
			case "modifies":
				e, err := parseExpr(rest)
				if err != nil {
					return bad(err)
				}
				cur.Modifies = append(cur.Modifies, &ModClause{rest, e})
			case "loop":
				loop, err = strconv.Atoi(strings.TrimSuffix(rest, ":"))
				if err != nil {
					return bad(err)
				}
			case "invariant":
				lab, src := splitLabel(rest)
				e, err := parseExpr(src)
				if err != nil {
					return bad(err)
				}
				if lab == "" {
					lab = fmt.Sprint(len(cur.Loops[loop]) + 1)
				}
				cur.Loops[loop] = append(cur.Loops[loop], &Invariant{Label: lab, Src: src, E: e})
			case "protects":
				f := strings.Fields(rest)
				if len(f) != 3 {
					return bad(fmt.Errorf("protects MUTEX GHOST CALLEE"))
				}
				e, err := parseExpr(f[0])
				if err != nil {
					return bad(err)
				}
				cur.Protects = append(cur.Protects, &Protect{e, f[1], f[2]})
			case "sets":
				g, src, ok := strings.Cut(rest, " = ")
				if !ok {
					return bad(fmt.Errorf("sets GHOST = EXPR"))
				}
				g = strings.TrimSpace(g)
				e, err := parseExpr(src)
				if err != nil {
					return bad(err)
				}
				cl, err := parseExpr(g + " == (" + src + ")")
				if err != nil {
					return bad(err)
				}
				gm, err := parseExpr(g)
				if err != nil {
					return bad(err)
				}
				cur.Sets = append(cur.Sets, &Set{g, e})
				cur.Ensures = append(cur.Ensures, &Clause{"sets-" + g, rest, cl})
				cur.Modifies = append(cur.Modifies, &ModClause{g, gm})
			case "use":
				cur.Uses = append(cur.Uses, strings.Fields(strings.ReplaceAll(rest, ",", " "))...)
			case "nopanic":
				cur.NoPanic = true
			case "theory":
				cur.Theory = true
			case "strings":
				cur.Strs = true
			case "bags":
				kind, at, _ := strings.Cut(rest, "@")
				kind = strings.TrimSpace(kind)
				cur.Bags = rest != "off"
				switch kind {
				case "pairs":
					cur.BagPairs, cur.BagPairsAt = true, at
				case "index":
					cur.BagIndex, cur.BagIndexAt = true, at
				}
			case "inline":
				cur.Inline = true
			case "noalloc":
				cur.noAlloc = true
			case "timeout":
				cur.Timeout, _ = strconv.Atoi(rest)
			case "note":
				cur.Note = rest
			default:
				return bad(fmt.Errorf("unknown clause"))
			}
		}
	}
	return nil
}

func splitLabel(s string) (string, string) {
	// label: expr   (label is an identifier followed by ':' not '::')
	i := 0
	for i < len(s) && (s[i] == '_' || s[i] == '-' || s[i] >= 'a' && s[i] <= 'z' || s[i] >= 'A' && s[i] <= 'Z' || s[i] >= '0' && s[i] <= '9') {
		i++
	}
	if i > 0 && i < len(s) && s[i] == ':' && (i+1 >= len(s) || s[i+1] != ':') {
		return s[:i], strings.TrimSpace(s[i+1:])
	}
	return "", s
}

// parseHead: "(*T).Method(a, b) (r, err)" or "Name(a, b) (r)" or
// "pkg.Iface.Method(recv, a)".
func (c *Contract) parseHead(s string) error {
	s = strings.TrimSpace(s)
	recv := ""
	rest := s
	name := ""
	if strings.HasPrefix(s, "(") {
		i := strings.Index(s, ")")
		r := strings.Fields(s[1:i])
		t := r[len(r)-1]
		if len(r) == 2 {
			recv = r[0]
		} else {
			recv = "recv"
		}
		rest = s[i+1:]
		if !strings.HasPrefix(rest, ".") {
			return fmt.Errorf("bad receiver")
		}
		rest = rest[1:]
		j := strings.IndexByte(rest, '(')
		if j < 0 {
			j = len(rest)
		}
		name = rest[:j]
		rest = rest[j:]
		if k := strings.IndexByte(t, '.'); k > 0 && strings.HasPrefix(t, "*") {
			// a type of another package
			c.Key = fmt.Sprintf("%s.(*%s).%s", t[1:k], t[k+1:], name)
		} else if strings.HasPrefix(t, "*") {
			c.Key = fmt.Sprintf("%s.(%s).%s", c.Pkg, t, name)
		} else {
			c.Key = fmt.Sprintf("%s.%s.%s", c.Pkg, t, name)
		}
	} else {
		j := strings.IndexByte(rest, '(')
		if j < 0 {
			j = len(rest)
		}
		name = strings.TrimSpace(rest[:j])
		rest = rest[j:]
		if strings.Count(name, ".") >= 1 {
			c.Key = name
		} else {
			c.Key = c.Pkg + "." + name
		}
	}
	c.Key = strings.TrimSpace(c.Key)
	if recv != "" {
		c.ParamNames = append(c.ParamNames, recv)
	}
	groups := []string{}
	for strings.Contains(rest, "(") {
		o, cl := strings.Index(rest, "("), strings.Index(rest, ")")
		groups = append(groups, rest[o+1:cl])
		rest = rest[cl+1:]
	}
	if len(groups) > 0 {
		for _, p := range strings.Split(groups[0], ",") {
			if p = strings.TrimSpace(p); p != "" {
				c.ParamNames = append(c.ParamNames, strings.Fields(p)[0])
			}
		}
	}
	if len(groups) > 1 {
		for _, p := range strings.Split(groups[1], ",") {
			if p = strings.TrimSpace(p); p != "" {
				c.ResultNames = append(c.ResultNames, strings.Fields(p)[0])
			}
		}
	}
	return nil
}

func (c *Contract) invariantsFor(u *Unit, lc *loopCtx) []*Invariant {
	var out []*Invariant
	// automatic: the function's own frame holds throughout
	for _, h := range sortedKeys(u.loopCache[fmt.Sprintf("%s#%d", lc.fr.id, lc.info.header.Index)].heaps) {
		if u.heaps[h].kind == 'g' {
			continue
		}
		inv := &Invariant{Label: "frame_" + h, Src: "frame of " + h, frame: h}
		if !u.dropInv[fmt.Sprintf("loop%d:%s", lc.ord, inv.Label)] {
			out = append(out, inv)
		}
	}
	// automatic candidates: slices built up by the loop stay private
	w := u.loopCache[fmt.Sprintf("%s#%d", lc.fr.id, lc.info.header.Index)]
	for _, k := range sortedKeys(w.cells) {
		if t, ok := lc.entry.cells[k].(T); !ok || t.Sort != SSlice || strings.HasPrefix(k, "G:") {
			continue
		}
		inv := &Invariant{Label: "auto_fresh_" + sanitize(k), Src: "slice " + cellBase(k) + " is nil or allocated here", freshCell: k, auto: true}
		if !u.dropInv[fmt.Sprintf("loop%d:%s", lc.ord, inv.Label)] {
			out = append(out, inv)
		}
	}
	if lc.count != nil {
		inv := &Invariant{Label: "auto_count", Src: "the counter is within the slice", idxIn: true, auto: true}
		if !u.dropInv[fmt.Sprintf("loop%d:%s", lc.ord, inv.Label)] {
			out = append(out, inv)
		}
	}
	// ... and distinct slice variables keep distinct backing arrays
	cells := sortedKeys(lc.entry.cells)
	for _, k := range cells {
		if t, ok := lc.entry.cells[k].(T); !ok || t.Sort != SSlice || !w.cells[k] || u.cellTypes[k] == nil || cellBase(k) == "complit" {
			continue
		}
		for _, o := range cells {
			t, ok := lc.entry.cells[o].(T)
			if !ok || t.Sort != SSlice || o == k || cellBase(o) == "complit" || strings.HasPrefix(o, "G:") || u.cellTypes[o] == nil || !types.Identical(u.cellTypes[k].Underlying(), u.cellTypes[o].Underlying()) || w.cells[o] && o < k {
				continue
			}
			inv := &Invariant{Label: "auto_sep_" + sanitize(k) + "_" + sanitize(cellBase(o)), Src: "slices " + cellBase(k) + " and " + cellBase(o) + " do not share memory", freshCell: k, sepCell: o, auto: true}
			if !u.dropInv[fmt.Sprintf("loop%d:%s", lc.ord, inv.Label)] {
				out = append(out, inv)
			}
		}
	}
	src := c.Loops[lc.ord]
	if u.usePool {
		src = nil
		var ords []int
		for k := range c.Loops {
			ords = append(ords, k)
		}
		sort.Ints(ords)
		for _, k := range ords {
			for _, i := range c.Loops[k] {
				n := *i
				n.Label = fmt.Sprintf("p%d_%s", k, i.Label)
				src = append(src, &n)
			}
		}
	}
	for _, i := range src {
		if u.dropInv[fmt.Sprintf("loop%d:%s", lc.ord, i.Label)] {
			continue
		}
		out = append(out, i)
	}
	return out
}
