package PKG

import (
	"fmt"
	"slices"
	"testing"
)

// TestVerifC06: version lists and comparison.
func TestVerifC06(t *testing.T) {
	v := vNew(t, "random sets of 1-15 distinct version numbers (gaps included), unpadded or zero padded; list order, comparison of all pairs and of unknown names, and the last version (through Clean) compared with numeric order; every set is queried 3 times for map order")
	for v.more() {
		r := v.rng
		pad := []int{0, 0, 1, 2, 3, 5}[r.Intn(6)]
		max := 30
		if r.Intn(5) == 0 {
			max = 2000
		}
		if pad == 1 {
			max = 9
		} else if pad == 2 {
			max = 90
		}
		set := map[int]bool{}
		for k := 1 + r.Intn(15); k > 0; k-- {
			set[1+r.Intn(max)] = true
		}
		var nums []int
		for k := range set {
			nums = append(nums, k)
		}
		slices.Sort(nums)
		v.check(fmt.Sprint(nums, "padding ", pad), func() (string, string) {
			doc := &vInv{Id: "x", Type: string(InventorySpec1_1), DigestAlgorithm: "sha512", Manifest: map[string][]string{}, Versions: map[string]*vVersion{}}
			var want []string
			for _, n := range nums {
				want = append(want, vVName(n, pad))
				doc.Versions[vVName(n, pad)] = &vVersion{Created: "2020-01-01T00:00:00Z", Message: "m", State: vState{}, User: vUser("a", "b")}
			}
			doc.Head = want[len(want)-1]
			inv, err := vLoad(vCtx(), doc, Version1_1)
			if err != nil {
				return "load", err.Error()
			}
			if err := inv.Finalize(false); err != nil {
				return "finalize", err.Error()
			}
			for k := 0; k < 3; k++ {
				if got := inv.GetVersionStrings(); !slices.Equal(got, want) {
					return "list", fmt.Sprintf("%v, expected %v", got, want)
				}
			}
			if g := inv.GetVersions(); len(g) != len(want) {
				return "versions", "GetVersions incomplete"
			}
			for a, x := range want {
				for b, y := range want {
					if inv.VersionLessOrEqual(x, y) != (nums[a] <= nums[b]) {
						return "compare", fmt.Sprintf("%s <= %s is %v", x, y, inv.VersionLessOrEqual(x, y))
					}
				}
				for _, u := range []string{"", "v0", "v5000", "x", vVName(nums[a], pad+1)} {
					if slices.Contains(want, u) {
						continue
					}
					if inv.VersionLessOrEqual(x, u) || inv.VersionLessOrEqual(u, x) {
						return "unknown", fmt.Sprintf("comparison of %s with unknown %q is true", x, u)
					}
				}
			}
			if len(want) > 1 {
				// drop the head: the last remaining version becomes head
				if err := inv.Clean(); err != nil {
					return "last", err.Error()
				}
				if doc.Head != "v1" && inv.GetHead() != want[len(want)-2] {
					return "last", fmt.Sprintf("last version %s, expected %s", inv.GetHead(), want[len(want)-2])
				}
			}
			return "", ""
		})
	}
}
