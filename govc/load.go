package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog  *ssa.Program
	pkgs  []*packages.Package
	spkgs []*ssa.Package
	funcs map[string]*ssa.Function // by key
	keyOf map[*ssa.Function]string
	mod   string
	// global regexps: variable key -> pattern, when the initialiser is
	// regexp.MustCompile of a constant
	globalRe map[string]string
	// globals written outside init
	globalWritten map[string]bool
	globalLits    map[string]*globalLit
	// error variables set once, to an error made for them
	globalErr map[string]bool
}

// shimSrc stands for library functions which call back: fs.WalkDir calls its
// callback for a sequence of entries which depends on the file system alone,
// and ends with the first error. (Callbacks which return fs.SkipDir or
// fs.SkipAll are not covered: mentionsSkip refuses code which mentions them.)
const shimSrc = `package ocfl

import "io/fs"

func govcWalk(fsys fs.FS, root string) int            { return 0 }
func govcWalkLen(w int) int                           { return 0 }
func govcWalkPath(w int, k int) string                { return "" }
func govcWalkEntry(w int, k int) fs.DirEntry          { return nil }
func govcWalkErr(w int, k int) error                  { return nil }
func govcWalkDir(fsys fs.FS, root string, fn fs.WalkDirFunc) error {
	w := govcWalk(fsys, root)
	for k := 0; k < govcWalkLen(w); k++ {
		if err := fn(govcWalkPath(w, k), govcWalkEntry(w, k), govcWalkErr(w, k)); err != nil {
			return err
		}
	}
	return nil
}
`

// shims: library function -> function of shimSrc
var shims = map[string]string{"fs.WalkDir": "ocfl.govcWalkDir"}

// mentionsSkip: the program uses fs.SkipDir or fs.SkipAll
func (P *Program) mentionsSkip() bool {
	for _, p := range P.pkgs {
		for _, o := range p.TypesInfo.Uses {
			if o.Pkg() != nil && (o.Name() == "SkipDir" || o.Name() == "SkipAll") && (o.Pkg().Path() == "io/fs" || o.Pkg().Path() == "path/filepath") {
				return true
			}
		}
	}
	return false
}

func loadProgram(dir string, patterns []string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Env: os.Environ()}
	if d, err := filepath.Abs(filepath.Join(dir, "pkg", "ocfl")); err == nil {
		if _, err := os.Stat(d); err == nil {
			cfg.Overlay = map[string][]byte{filepath.Join(d, "zz_govc_shims.go"): []byte(shimSrc)}
		}
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.NaiveForm|ssa.GlobalDebug|ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, pkgs: pkgs, spkgs: spkgs, funcs: map[string]*ssa.Function{}, keyOf: map[*ssa.Function]string{}, globalRe: map[string]string{}, globalWritten: map[string]bool{}, globalErr: map[string]bool{}}
	all := ssautil.AllFunctions(prog)
	P.findGlobalLits(all)
	for fn := range all {
		k := funcKey(fn)
		P.keyOf[fn] = k
		// of a generic function an instance is verified (all instances in use
		// here are over strings, which have the same verification conditions)
		if o := fn.Origin(); o != nil && o != fn && len(fn.Blocks) > 0 {
			if cur := P.funcs[k]; cur == nil || cur.Origin() == nil || cur.Origin() == cur || fn.Name() > cur.Name() {
				P.funcs[k] = fn
			}
			continue
		}
		if cur := P.funcs[k]; cur != nil && cur.Origin() != nil && cur.Origin() != cur {
			continue
		}
		if fn.Synthetic != "" && fn.Synthetic != "package initializer" {
			if _, dup := P.funcs[k]; dup {
				continue
			}
		}
		if len(fn.Blocks) > 0 || P.funcs[k] == nil {
			P.funcs[k] = fn
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				gk := globalKey(g)
				if fn.Synthetic == "package initializer" || fn.Name() == "init" {
					if c, ok := st.Val.(*ssa.Call); ok {
						if sc := c.Call.StaticCallee(); sc != nil && sc.String() == "regexp.MustCompile" {
							if k, ok := c.Call.Args[0].(*ssa.Const); ok {
								P.globalRe[gk] = constStr(k)
							}
						}
						if sc := c.Call.StaticCallee(); sc != nil && fn.Synthetic == "package initializer" {
							switch sc.String() {
							case "errors.New", "emperror.dev/errors.New", "emperror.dev/errors.NewPlain", "fmt.Errorf", "emperror.dev/errors.Errorf":
								P.globalErr[gk] = true
							}
						}
					}
				} else {
					P.globalWritten[gk] = true
				}
			}
		}
	}
	for gk := range P.globalWritten {
		delete(P.globalRe, gk)
		delete(P.globalErr, gk)
	}
	return P, nil
}

func globalKey(g *ssa.Global) string {
	return pkgShort(g.Pkg.Pkg) + "." + g.Name()
}

func pkgShort(p *types.Package) string {
	if p == nil {
		return ""
	}
	return p.Name()
}

func typeQual(p *types.Package) string { return p.Name() }

// typeStr names a type, with one name for the types that are identical (byte and uint8, rune and
// int32, any and interface{}).
func typeStr(t types.Type) string {
	s := types.TypeString(t, typeQual)
	if strings.Contains(s, "uint8") || strings.Contains(s, "int32") || strings.Contains(s, "interface{}") {
		s = canonRe.ReplaceAllStringFunc(s, func(w string) string {
			switch w {
			case "uint8":
				return "byte"
			case "int32":
				return "rune"
			}
			return "any"
		})
	}
	return s
}

var canonRe = regexp.MustCompile(`\buint8\b|\bint32\b|interface\{\}`)

// funcKey gives a stable key: pkg.Func, pkg.(*T).Method, pkg.T.Method,
// parent$1 for closures.
func funcKey(fn *ssa.Function) string {
	if fn == nil {
		return "<nil>"
	}
	if fn.Parent() != nil {
		return funcKey(fn.Parent()) + "$" + strings.TrimPrefix(fn.Name(), fn.Parent().Name()+"$")
	}
	if fn.Signature.Recv() != nil {
		rt := fn.Signature.Recv().Type()
		if p, ok := rt.(*types.Pointer); ok {
			return fmt.Sprintf("%s.(*%s).%s", recvPkg(p.Elem()), recvName(p.Elem()), fn.Name())
		}
		return fmt.Sprintf("%s.%s.%s", recvPkg(rt), recvName(rt), fn.Name())
	}
	if o := fn.Origin(); o != nil && o != fn {
		return funcKey(o)
	}
	if fn.Pkg != nil {
		return pkgShort(fn.Pkg.Pkg) + "." + fn.Name()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return pkgShort(fn.Object().Pkg()) + "." + fn.Name()
	}
	return fn.Name()
}

func recvPkg(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Name()
	}
	return ""
}
func recvName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return typeStr(t)
}

func (P *Program) typesPkg(name string) *types.Package {
	for _, p := range P.pkgs {
		if p.Types.Name() == name {
			return p.Types
		}
	}
	return nil
}

func (P *Program) isModule(p *types.Package) bool {
	if p == nil {
		return false
	}
	return strings.HasPrefix(p.Path(), "github.com/je4/gocfl/")
}

func (P *Program) lookupType(name string) types.Type {
	// name: pkg.Type
	i := strings.LastIndex(name, ".")
	if i < 0 {
		return nil
	}
	pk, tn := name[:i], name[i+1:]
	for _, p := range P.pkgs {
		if p.Types.Name() == pk {
			if o := p.Types.Scope().Lookup(tn); o != nil {
				return o.Type()
			}
		}
	}
	// dependencies
	var found types.Type
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] || found != nil {
			return
		}
		seen[p] = true
		if p.Name() == pk {
			if o := p.Scope().Lookup(tn); o != nil {
				if _, ok := o.(*types.TypeName); ok {
					found = o.Type()
					return
				}
			}
		}
		for _, q := range p.Imports() {
			visit(q)
		}
	}
	for _, p := range P.pkgs {
		visit(p.Types)
	}
	return found
}

func (P *Program) lookupObj(pkgname, name string) types.Object {
	for _, p := range P.pkgs {
		if p.Types.Name() == pkgname {
			if o := p.Types.Scope().Lookup(name); o != nil {
				return o
			}
		}
	}
	var found types.Object
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] || found != nil {
			return
		}
		seen[p] = true
		if p.Name() == pkgname {
			if o := p.Scope().Lookup(name); o != nil {
				found = o
				return
			}
		}
		for _, q := range p.Imports() {
			visit(q)
		}
	}
	for _, p := range P.pkgs {
		visit(p.Types)
	}
	return found
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
