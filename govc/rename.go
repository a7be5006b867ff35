package main

import (
	"encoding/json"
	"os"
	"path/filepath"

	"golang.org/x/tools/go/ssa"
)

// The contracts name local variables of the functions. contracts/locals.json holds the names and
// types the variables had when the contracts were written; when a variable got another name since,
// the contract still finds it: the variables that are gone and those that are new are matched by
// type and order. (A wrong match can only make a proof fail or an annotation useless: annotations
// are proved, not trusted.)

type localVar struct{ Name, Type string }

func localsOf(fn *ssa.Function) []localVar {
	var out []localVar
	seen := map[localVar]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		add := func(a *ssa.Alloc) {
			if a.Comment == "" || !isIdent(a.Comment) {
				return
			}
			l := localVar{a.Comment, typeStr(a.Type())}
			if !seen[l] {
				seen[l] = true
				out = append(out, l)
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok {
					add(a)
				}
			}
		}
		for _, g := range f.AnonFuncs {
			visit(g)
		}
	}
	visit(fn)
	return out
}

func isIdent(s string) bool {
	for i, c := range s {
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return s != ""
}

var recordedLocals map[string][]localVar

func loadLocals(dir string) {
	recordedLocals = map[string][]localVar{}
	if b, err := os.ReadFile(filepath.Join(dir, "locals.json")); err == nil {
		json.Unmarshal(b, &recordedLocals)
	}
}

func writeLocals(dir string, P *Program, C *Contracts) error {
	out := map[string][]localVar{}
	for k := range C.Funcs {
		if fn := P.funcs[k]; fn != nil && len(fn.Blocks) > 0 {
			out[k] = localsOf(fn)
		}
	}
	b, err := json.MarshalIndent(out, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, "locals.json"), append(b, '\n'), 0644)
}

func renamesOf(key string, fn *ssa.Function) map[string]string {
	rec := recordedLocals[key]
	if rec == nil {
		return nil
	}
	cur := localsOf(fn)
	has := func(l []localVar, name string) bool {
		for _, x := range l {
			if x.Name == name {
				return true
			}
		}
		return false
	}
	gone, added := map[string][]string{}, map[string][]string{}
	for _, l := range rec {
		if !has(cur, l.Name) {
			gone[l.Type] = append(gone[l.Type], l.Name)
		}
	}
	for _, l := range cur {
		if !has(rec, l.Name) {
			added[l.Type] = append(added[l.Type], l.Name)
		}
	}
	out := map[string]string{}
	for t, g := range gone {
		a := added[t]
		for i, n := range g {
			if i < len(a) {
				out[n] = a[i]
			}
		}
	}
	return out
}
