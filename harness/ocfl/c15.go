package PKG

import (
	"fmt"
	"strings"
	"testing"
)

func TestVerifC15(t *testing.T) {
	v := vNew(t, "all codes of both catalogues, unknown and empty codes in all versions; random histories of up to 40 reported errors and warnings, derived descriptions and contexts, and compactions")
	// codes of the OCFL specification
	base := map[string]bool{"E000": true}
	for n := 1; n <= 102; n++ {
		if n != 65 {
			base[fmt.Sprintf("E%03d", n)] = true
		}
	}
	for n := 1; n <= 15; n++ {
		if n != 6 {
			base[fmt.Sprintf("W%03d", n)] = true
		}
	}
	only11 := []string{"E103", "E104", "E105", "E106", "E107", "E108", "E110", "E111", "E112", "W000", "W016"}
	known := func(ver OCFLVersion, c string) bool {
		if ver == "1.1" {
			for _, o := range only11 {
				if o == c {
					return true
				}
			}
			return base[c] && c != "E068" && c != "E086"
		}
		return base[c]
	}
	codes := []string{"", "W", "E", "x", "E109", "E065", "W006", "W017", "E999", "e001", "E01"}
	for c := range base {
		codes = append(codes, c)
	}
	codes = append(codes, only11...)
	expect := func(ver OCFLVersion, c string) string {
		switch {
		case known(ver, c):
			return c
		case ver != "1.1" && c == "E104":
			return "E001"
		case strings.HasPrefix(c, "W"):
			return "W000"
		}
		return "E000"
	}
	for _, ver := range []OCFLVersion{"1.0", "1.1", "2.0", "", "x"} {
		for _, c := range codes {
			v.check([]string{string(ver), c}, func() (string, string) {
				e := GetValidationError(ver, ValidationErrorCode(c))
				if e == nil {
					return "nil", "no error for the code"
				}
				if string(e.Code) != expect(ver, c) {
					return "code", fmt.Sprintf("reported as %s, expected %s", e.Code, expect(ver, c))
				}
				if known(ver, c) {
					w := OCFLVersion("1.0")
					cat := OCFLValidationError1_0
					if ver == "1.1" {
						w = "1.1"
						cat = OCFLValidationError1_1
					}
					if e.Version != w || e.Description == "" || e.Description != cat[e.Code].Description {
						return "text", fmt.Sprintf("version %q, text %q", e.Version, e.Description)
					}
				}
				if !strings.Contains(e.Error(), string(e.Code)) || !strings.HasSuffix(e.DetailString(), string(e.Code)) {
					return "message", e.Error()
				}
				return "", ""
			})
		}
	}
	type flat struct{ code, desc, desc2, ctx, ver string }
	fl := func(e *ValidationError) flat {
		return flat{string(e.Code), e.Description, e.Description2, e.Context, string(e.Version)}
	}
	for v.more() {
		r := v.rng
		var script []string
		n := 1 + r.Intn(40)
		ctx := vCtx()
		other := vCtx()
		var exp []flat
		v.check(fmt.Sprintf("history %d", v.res.Evaluations), func() (string, string) {
			for k := 0; k < n; k++ {
				ver := []OCFLVersion{"1.0", "1.1"}[r.Intn(2)]
				e := GetValidationError(ver, ValidationErrorCode(codes[r.Intn(len(codes))]))
				before := fl(e)
				d := e
				w := before
				for j := r.Intn(3); j > 0; j-- {
					p := fl(d)
					if r.Intn(2) == 0 {
						x := []string{"a", "b %", " c "}[r.Intn(3)]
						nd := (*ValidationError)(nil)
						if r.Intn(2) == 0 {
							x = "constant"
							nd = d.AppendDescription("constant")
						} else {
							nd = d.AppendDescription("%s", x)
						}
						w.desc2 = strings.TrimSpace(w.desc2 + " " + x)
						if fl(d) != p {
							return "shared", "AppendDescription changed the error it was called on"
						}
						d = nd
					} else {
						x := []string{"storage root 'x'", "object 'y'", "z"}[r.Intn(3)]
						nd := (*ValidationError)(nil)
						if r.Intn(2) == 0 {
							x = "object"
							nd = d.AppendContext("object")
						} else {
							nd = d.AppendContext("%s", x)
						}
						w.ctx = strings.TrimSpace(w.ctx + " " + x)
						if fl(d) != p {
							return "shared", "AppendContext changed the error it was called on"
						}
						d = nd
					}
					if fl(d) != w {
						return "derived", fmt.Sprintf("%v, expected %v", fl(d), w)
					}
				}
				if fl(e) != before {
					return "catalogue", "a catalogue entry was changed"
				}
				script = append(script, string(d.Code))
				var err error
				if r.Intn(2) == 0 {
					err = addValidationErrors(ctx, d)
				} else {
					err = addValidationWarnings(ctx, d)
				}
				if err != nil {
					return "add", err.Error()
				}
				exp = append(exp, w)
				st, err := GetValidationStatus(ctx)
				if err != nil {
					return "status", err.Error()
				}
				if len(st.Errors) != len(exp) {
					return "count", fmt.Sprintf("%d findings kept of %d (%v)", len(st.Errors), len(exp), script)
				}
				for j := range exp {
					if fl(st.Errors[j]) != exp[j] {
						return "changed", fmt.Sprintf("finding %d is %v, was %v", j, fl(st.Errors[j]), exp[j])
					}
				}
				if r.Intn(20) == 0 {
					st.Compact()
					type triple struct{ c, d, x string }
					have, want := map[triple]int{}, map[triple]int{}
					orig := map[flat]bool{}
					for _, e := range exp {
						want[triple{e.code, e.desc2, e.ctx}]++
						orig[e] = true
					}
					exp = exp[:0]
					for _, e := range st.Errors {
						f := fl(e)
						have[triple{f.code, f.desc2, f.ctx}]++
						if !orig[f] {
							return "compact", fmt.Sprintf("invented %v", f)
						}
						exp = append(exp, f)
					}
					for k := range want {
						if have[k] == 0 {
							return "compact", fmt.Sprintf("lost %v", k)
						}
					}
					for k, n := range have {
						if n > 1 {
							return "compact", fmt.Sprintf("kept %v %d times", k, n)
						}
					}
				}
			}
			if st, _ := GetValidationStatus(other); len(st.Errors) != 0 {
				return "leak", "findings of another context"
			}
			return "", ""
		})
	}
}
