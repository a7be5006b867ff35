package PKG

import (
	"fmt"
	"slices"
	"testing"

	"github.com/je4/utils/v2/pkg/checksum"
)

func TestVerifC21(t *testing.T) {
	v := vNew(t, "random fixity blocks (0-4 algorithms, shared and repeated paths, empty lists) and lookups of listed and unlisted paths; each answer compared with the recorded digests, repeated 3 times for map order")
	algs := []checksum.DigestAlgorithm{checksum.DigestSHA512, checksum.DigestMD5, checksum.DigestSHA1, checksum.DigestSHA256}
	for v.more() {
		r := v.rng
		f := Fixity{}
		uniq := r.Intn(2) == 0
		for _, a := range algs {
			if r.Intn(3) == 0 {
				continue
			}
			f[a] = map[string][]string{}
			seen := map[string]bool{}
			for k := r.Intn(8); k > 0; k-- {
				p, d := vPathPool[r.Intn(len(vPathPool))], vDigest(r, 5)
				if uniq && seen[p] {
					continue
				}
				seen[p] = true
				f[a][d] = append(f[a][d], p)
			}
			if r.Intn(5) == 0 {
				f[a][vDigest(r, 20)] = []string{}
			}
		}
		if r.Intn(30) == 0 {
			f = nil
		}
		p := vPathPool[r.Intn(len(vPathPool))]
		if r.Intn(10) == 0 {
			p = ""
		}
		v.check(fmt.Sprintf("%v lookup=%q", f, p), func() (string, string) {
			for k := 0; k < 3; k++ {
				res := f.Checksums(p)
				if res == nil {
					return "nil", "no map returned"
				}
				for _, a := range algs {
					var rec []string
					for d, ps := range f[a] {
						if slices.Contains(ps, p) {
							rec = append(rec, d)
						}
					}
					got, ok := res[a]
					if ok != (len(rec) > 0) {
						return "presence", fmt.Sprintf("%s: answer present %v, recorded digests %v", a, ok, rec)
					}
					if ok && !slices.Contains(rec, got) {
						return "value", fmt.Sprintf("%s: %s not recorded (%v)", a, got, rec)
					}
				}
				for a := range res {
					if f[a] == nil {
						return "presence", "algorithm not recorded: " + string(a)
					}
				}
			}
			return "", ""
		})
	}
}
