package PKG

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"github.com/je4/utils/v2/pkg/checksum"
)

func vClone(d *vInv) *vInv {
	b, _ := json.Marshal(d)
	c := &vInv{}
	_ = json.Unmarshal(b, c)
	return c
}

// TestVerifC07: equality of inventories and versions.
func TestVerifC07(t *testing.T) {
	v := vNew(t, "random inventories and copies of them with 0-2 random single differences (any field, digest, path, version, metadata, fixity), list orders shuffled; IsEqual and EqualState/EqualMeta compared in both directions with the direct reading")
	for v.more() {
		r := v.rng
		a := vRandInv(r, 1+r.Intn(3), 0, false)
		b := vClone(a)
		keys := func(m map[string][]string) []string {
			var k []string
			for x := range m {
				k = append(k, x)
			}
			return k
		}
		mutMap := func(m map[string][]string) {
			ks := keys(m)
			switch k := r.Intn(6); {
			case k == 0 || len(ks) == 0:
				m["ffff"+fmt.Sprint(r.Intn(3))] = []string{"new"}
			case k == 1:
				delete(m, ks[r.Intn(len(ks))])
			case k == 2:
				d := ks[r.Intn(len(ks))]
				m[d] = append(m[d], "new path")
			case k == 3:
				d := ks[r.Intn(len(ks))]
				if len(m[d]) > 0 {
					m[d] = m[d][1:]
				}
			case k == 4:
				d := ks[r.Intn(len(ks))]
				m["ee"+d] = m[d]
				delete(m, d)
			case k == 5: // exchange the content of two digests
				d, e := ks[r.Intn(len(ks))], ks[r.Intn(len(ks))]
				m[d], m[e] = m[e], m[d]
			}
		}
		desc := []string{}
		for k := []int{0, 1, 1, 1, 2}[r.Intn(5)]; k > 0; k-- {
			switch n := r.Intn(14); n {
			case 0:
				b.Type = string(InventorySpec1_0)
				desc = append(desc, "type")
			case 1:
				b.Head = "v9"
			case 2:
				b.ContentDirectory = "data"
			case 3, 4, 5:
				mutMap(b.Manifest)
				desc = append(desc, "manifest")
			case 6, 7, 8, 9:
				for n := range b.Versions {
					mutMap(b.Versions[n].State)
					break
				}
				desc = append(desc, "state")
			case 10:
				for n := range b.Versions {
					switch r.Intn(6) {
					case 3:
						b.Versions[n].Created = strings.Replace(b.Versions[n].Created, "T10:00:00Z", []string{"T12:00:00+02:00", "T10:00:00.5Z", "T10:00:01Z", "T09:00:00-01:00"}[r.Intn(4)], 1)
					case 4:
						if m, ok := b.Versions[n].Message.(string); ok {
							b.Versions[n].Message = []string{strings.ToUpper(m) + "A", m + " ", " " + m, ""}[r.Intn(4)]
						}
					case 5:
						b.Versions[n].User = []any{vUser("n ", "mailto:a@b"), vUser("N", "mailto:a@b"), vUser("n", "mailto:A@b"), vUser("n", "mailto:a@c"), vUser("", "mailto:a@b"), vUser("n", "")}[r.Intn(6)]
					case 0:
						b.Versions[n].Message = "other"
					case 1:
						b.Versions[n].User = vUser("other", "mailto:a@b")
					case 2:
						b.Versions[n].Created = "2021-01-01T00:00:00Z"
					}
					break
				}
			case 11:
				if r.Intn(2) == 0 {
					b.Versions["v9"] = b.Versions["v1"]
				} else {
					delete(b.Versions, "v1")
				}
			case 12:
				if b.Fixity == nil {
					b.Fixity = map[checksum.DigestAlgorithm]map[string][]string{"md5": {"aa": {"x"}}}
				} else if r.Intn(2) == 0 {
					b.Fixity["sha1"] = map[string][]string{"aa": {"x"}}
				} else {
					mutMap(b.Fixity["md5"])
				}
			case 13:
				if r.Intn(2) == 0 {
					b.Id = "other"
				} else {
					b.DigestAlgorithm = checksum.DigestSHA256
				}
			}
		}
		v.check(fmt.Sprintf("a=%s b=%s", vDocString(a), vDocString(b)), func() (string, string) {
			load := func(d *vInv) Inventory {
				inv, err := vLoad(vCtx(), d, Version1_1)
				if err != nil {
					panic(err)
				}
				if err := inv.Finalize(false); err != nil {
					panic(err)
				}
				return inv
			}
			ia, ib := load(a), load(b)
			want := a.Id == b.Id && a.Type == b.Type && a.DigestAlgorithm == b.DigestAlgorithm && a.Head == b.Head && a.ContentDirectory == b.ContentDirectory && vSame(a, b, "", false, false) == "" && len(a.Versions) == len(b.Versions)
			vers := true
			for n, x := range a.Versions {
				y := b.Versions[n]
				if y == nil {
					vers = false
					continue
				}
				va, vb := ia.GetVersions()[n], ib.GetVersions()[n]
				ws := vCanon(x.State) == vCanon(y.State)
				if va.EqualState(vb) != ws || vb.EqualState(va) != ws {
					return "state", fmt.Sprintf("EqualState of %s is %v/%v, expected %v: %v %v", n, va.EqualState(vb), vb.EqualState(va), ws, x.State, y.State)
				}
				wm := vMeta(x) == vMeta(y)
				if va.EqualMeta(vb) != wm || vb.EqualMeta(va) != wm {
					return "meta", fmt.Sprintf("EqualMeta of %s is not %v", n, wm)
				}
				if !ws || !wm {
					vers = false
				}
				if va.EqualState(nil) || va.EqualMeta(nil) {
					return "nil", "equal to nothing"
				}
			}
			if !vers {
				want = false
			}
			// a digest without any path makes a manifest differ, but not a state
			if !want && a.Id == b.Id && a.Type == b.Type && a.DigestAlgorithm == b.DigestAlgorithm && a.Head == b.Head && a.ContentDirectory == b.ContentDirectory && vers && len(a.Versions) == len(b.Versions) && vCanonLists(a.Manifest) == vCanonLists(b.Manifest) && vCanonFixity(a.Fixity) == vCanonFixity(b.Fixity) {
				return "", ""
			}
			// likewise fixity blocks without entries
			if vCanonFixity(a.Fixity) == vCanonFixity(b.Fixity) && fmt.Sprint(a.Fixity) != fmt.Sprint(b.Fixity) {
				return "", ""
			}
			if g, h := ia.IsEqual(ib), ib.IsEqual(ia); g != want || h != want {
				return "inventory", fmt.Sprintf("IsEqual is %v/%v, expected %v (%s)", g, h, want, vSame(a, b, "", false, false))
			}
			if !ia.IsEqual(ia) {
				return "reflexive", "not equal to itself"
			}
			return "", ""
		})
	}
}
