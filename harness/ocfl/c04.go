package PKG

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"slices"
	"sort"
	"strings"
	"testing"
)

// raw inventory documents: everything a JSON file may contain

var vWeird = []string{"", "/", "//", "a", "a/", "/a", "a/b", "a//b", "a/.", "a/..", "./a", "../a", ".", "..", "a/b/c", "a-b", "a.b", "b", "a/b/", "a b", "ab", "A", "a/bc", "a!", "a!/b", "ä", "ä/b", "a/../b", "...", "a/...", "v1/content/a", "v1/content/a/b", "v1/content/a-b"}
var vDigs = []string{"aa", "AA", "bb", "Bb", "cc", "CC", "dd", "ee", "", "12"}

func vWeirdPath(r *rand.Rand) string {
	if r.Intn(3) == 0 {
		return vWeird[r.Intn(len(vWeird))]
	}
	s := vWeird[3:]
	good := []string{"a", "b", "c", "a/b", "a/c", "b/c", "a-b", "c/d/e", "c/d", "x", "y", "z/z", "a/b/c", "ab", "a!", "a/b!"}
	if r.Intn(8) == 0 {
		return s[r.Intn(len(s))]
	}
	return good[r.Intn(len(good))]
}

func vPathMap(r *rand.Rand, n int) map[string][]string {
	m := map[string][]string{}
	for k := r.Intn(n); k > 0; k-- {
		d := vDigs[r.Intn(len(vDigs))]
		if r.Intn(2) == 0 {
			d = fmt.Sprintf("%02x", r.Intn(8))
		}
		for j := r.Intn(3); j >= 0; j-- {
			m[d] = append(m[d], vWeirdPath(r))
		}
		if r.Intn(12) == 0 {
			m[d] = []string{}
		}
	}
	return m
}

func vElems(p string) []string { return strings.Split(strings.TrimPrefix(p, "/"), "/") }
func vDotElem(p string) bool {
	for _, e := range vElems(p) {
		if e == "" || e == "." || e == ".." {
			return true
		}
	}
	return false
}

// vConflict: some path occurs twice or is a folder of another one
func vConflict(ps []string) bool {
	for i, p := range ps {
		for j, q := range ps {
			if i != j && (p == q || strings.HasPrefix(q, p+"/")) {
				return true
			}
		}
	}
	return false
}

func vRawDoc(r *rand.Rand) map[string]any {
	doc := map[string]any{"id": "info:x", "type": string(InventorySpec1_1), "digestAlgorithm": "sha512", "head": "v1"}
	nv := 1 + r.Intn(3)
	vs := map[string]any{}
	for k := 1; k <= nv; k++ {
		vs[vVName(k, 0)] = map[string]any{"created": "2020-01-01T00:00:00Z", "message": "m", "user": vUser("n", "mailto:a@b"), "state": vPathMap(r, 5)}
		doc["head"] = vVName(k, 0)
	}
	doc["versions"] = vs
	m := vPathMap(r, 6)
	// mostly the digests of the states
	for _, x := range vs {
		for d := range x.(map[string]any)["state"].(map[string][]string) {
			if r.Intn(6) > 0 && m[d] == nil {
				m[d] = []string{vWeirdPath(r)}
			}
		}
	}
	doc["manifest"] = m
	if r.Intn(2) == 0 {
		fx := map[string]any{}
		for _, a := range []string{"md5", "sha1"} {
			if r.Intn(2) == 0 {
				fx[a] = vPathMap(r, 5)
			}
		}
		doc["fixity"] = fx
	}
	return doc
}

func vJSON(x any) string {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func vFlat(m map[string][]string) []string {
	var r []string
	for _, ps := range m {
		r = append(r, ps...)
	}
	sort.Strings(r)
	return r
}

func vDiffCodes(got map[string]int, want map[string]bool, codes []string) (string, string) {
	for _, c := range codes {
		if (got[c] > 0) != want[c] {
			return c, fmt.Sprintf("%s reported: %v, expected: %v (all codes %v)", c, got[c] > 0, want[c], got)
		}
	}
	return "", ""
}

// TestVerifC04: manifest and fixity rules.
func TestVerifC04(t *testing.T) {
	v := vNew(t, "random inventory documents whose manifest, fixity and state contain paths from a pool of legal and illegal ones (empty, slashes, dot elements, conflicts) and digests in mixed case; the reported codes are compared with a direct reading of E096, E097, E099, E100, E101 and E107")
	for v.more() {
		doc := vRawDoc(v.rng)
		js := vJSON(doc)
		v.check(js, func() (string, string) {
			m := doc["manifest"].(map[string][]string)
			want := map[string]bool{}
			used := map[string]bool{}
			for _, x := range doc["versions"].(map[string]any) {
				for d := range x.(map[string]any)["state"].(map[string][]string) {
					used[d] = true
				}
			}
			path := func(p string) {
				if p == "" {
					want["E099"] = true
					return
				}
				if strings.HasPrefix(p, "/") || strings.HasSuffix(p, "/") {
					want["E100"] = true
				}
				if vDotElem(p) {
					want["E099"] = true
				}
			}
			low := map[string]bool{}
			for d, ps := range m {
				if !used[d] {
					want["E107"] = true
				}
				if low[strings.ToLower(d)] {
					want["E096"] = true
				}
				low[strings.ToLower(d)] = true
				for _, p := range ps {
					path(p)
				}
			}
			if vConflict(vFlat(m)) {
				want["E101"] = true
			}
			// E096 is also reported for state digests in other case
			for d := range used {
				if _, ok := m[d]; !ok && low[strings.ToLower(d)] {
					want["E096"] = true
				}
			}
			if fx, ok := doc["fixity"].(map[string]any); ok {
				for _, x := range fx {
					low := map[string]bool{}
					for d, ps := range x.(map[string][]string) {
						if low[strings.ToLower(d)] {
							want["E097"] = true
						}
						low[strings.ToLower(d)] = true
						for _, p := range ps {
							path(p)
						}
					}
				}
			}
			ctx := vCtx()
			inv, err := vLoadBytes(ctx, []byte(js), Version1_1)
			if err != nil {
				return "load", err.Error()
			}
			if err := inv.Finalize(false); err != nil {
				return "error", err.Error()
			}
			return vDiffCodes(vCodes(ctx), want, []string{"E096", "E097", "E099", "E100", "E101", "E107"})
		})
	}
}

// TestVerifC05: version rules.
func TestVerifC05(t *testing.T) {
	v := vNew(t, "random inventory documents with 0-4 versions (gaps, odd names, padding), any head, missing or null keys and states with legal and illegal paths; the reported codes are compared with a direct reading of E008, E010, E040, E050, E051, E052, E053, E095 and E096, and no document may crash the check")
	names := []string{"v1", "v2", "v3", "v4", "v10", "v01", "v02", "v03", "v1", "v2", "v3"}
	odd := []string{"1", "x", "v", "v0", "V1", "v1a", "v-1", "vv1", "", "v1.5", "v99999999999999999999"}
	for v.more() {
		r := v.rng
		doc := vRawDoc(r)
		m := doc["manifest"].(map[string][]string)
		vs := map[string]any{}
		strange := r.Intn(3) == 0
		mk := func() any {
			ver := map[string]any{"created": "2020-01-01T00:00:00Z", "message": "m", "user": vUser("n", "mailto:a@b"), "state": vPathMap(r, 5)}
			st := ver["state"].(map[string][]string)
			if r.Intn(2) == 0 { // mostly legal
				st = map[string][]string{}
				for d := range m {
					if r.Intn(2) == 0 {
						st[d] = []string{vWeirdPath(r)}
					}
				}
				ver["state"] = st
			}
			for d := range st {
				if _, ok := m[d]; !ok && r.Intn(8) > 0 {
					m[d] = []string{"v1/content/" + d}
				}
			}
			if strange && r.Intn(3) == 0 {
				for _, k := range []string{"created", "message", "user", "state"} {
					switch r.Intn(6) {
					case 0:
						delete(ver, k)
					case 1:
						ver[k] = nil
					case 2:
						ver[k] = []any{5, "x", map[string]any{}, []string{"a"}, map[string]any{"name": nil}, map[string]any{"name": 3}}[r.Intn(6)]
					}
				}
				if r.Intn(10) == 0 {
					return nil
				}
			}
			return ver
		}
		seq := r.Intn(2) == 0
		pad := []int{0, 0, 1, 2}[r.Intn(4)]
		for k, n := 1, r.Intn(5); k <= n; k++ {
			name := vVName(k, pad)
			if !seq {
				name = names[r.Intn(len(names))]
				if strange && r.Intn(4) == 0 {
					name = odd[r.Intn(len(odd))]
				}
			}
			vs[name] = mk()
		}
		doc["versions"] = vs
		doc["head"] = []any{"v1", "v2", "v3", "", "v7", "v01"}[r.Intn(6)]
		if r.Intn(2) == 0 {
			for n := range vs {
				doc["head"] = n
			}
		}
		if strange {
			switch r.Intn(12) {
			case 0:
				doc["head"] = nil
			case 1:
				doc["head"] = 5
			case 2:
				delete(doc, "head")
			case 3:
				delete(doc, "manifest")
			case 4:
				delete(doc, "versions")
			case 5:
				doc["versions"] = nil
			case 6:
				doc["manifest"] = []any{nil, "x", map[string]any{"aa": nil}}[r.Intn(3)]
			}
		}
		js := vJSON(doc)
		v.check(js, func() (string, string) {
			ctx := vCtx()
			inv, err := vLoadBytes(ctx, []byte(js), Version1_1)
			if err != nil {
				return "", ""
			}
			if err := inv.Finalize(false); err != nil {
				return "error", err.Error()
			}
			got := vCodes(ctx)
			if strange {
				if len(vs) == 0 && got["E008"] == 0 {
					return "E008", "no versions, E008 not reported"
				}
				return "", ""
			}
			want := map[string]bool{}
			if len(vs) == 0 {
				want["E008"] = true
			}
			var nums []int
			high, highName := 0, ""
			for n, x := range vs {
				k := 0
				fmt.Sscanf(strings.TrimLeft(n, "v0"), "%d", &k)
				nums = append(nums, k)
				if k > high {
					high, highName = k, n
				}
				st := x.(map[string]any)["state"].(map[string][]string)
				for d, ps := range st {
					if _, ok := m[d]; !ok {
						low := false
						for md := range m {
							if strings.EqualFold(md, d) {
								low = true
							}
						}
						if low {
							want["E096"] = true
						} else {
							want["E050"] = true
						}
					}
					for _, p := range ps {
						if p == "" {
							want["E051"] = true
							continue
						}
						if strings.HasPrefix(p, "/") || strings.HasSuffix(p, "/") {
							want["E053"] = true
						}
						if vDotElem(p) {
							want["E052"] = true
						}
					}
				}
				if vConflict(vFlat(st)) {
					want["E095"] = true
				}
			}
			low := map[string]int{}
			for d := range m {
				low[strings.ToLower(d)]++
				if low[strings.ToLower(d)] > 1 {
					want["E096"] = true
				}
			}
			slices.Sort(nums)
			dup := false
			for k, n := range nums {
				if n != k+1 {
					want["E010"] = true
				}
				if k > 0 && nums[k-1] == n {
					dup = true
				}
			}
			codes := []string{"E008", "E010", "E050", "E051", "E052", "E053", "E095", "E096"}
			if !dup {
				codes = append(codes, "E040")
				head, _ := doc["head"].(string)
				want["E040"] = head != "" && head != highName
			}
			return vDiffCodes(got, want, codes)
		})
	}
}
