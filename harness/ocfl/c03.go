package PKG

import (
	"fmt"
	"slices"
	"strings"
	"testing"

	"github.com/je4/utils/v2/pkg/checksum"
)

// TestVerifC03: CheckFiles against the direct reading.
func TestVerifC03(t *testing.T) {
	v := vNew(t, "random manifests and fixity blocks (mixed case digests, duplicate paths, several algorithms) against measured tables derived from them by random loss, alteration and addition; compared with the direct reading of E092/E093")
	algs := []checksum.DigestAlgorithm{checksum.DigestSHA512, checksum.DigestMD5, checksum.DigestSHA1, checksum.DigestSHA256}
	up := func(s string) string {
		if v.rng.Intn(4) == 0 {
			return strings.ToUpper(s)
		}
		return s
	}
	for v.more() {
		r := v.rng
		doc := &vInv{Id: "x", Type: string(InventorySpec1_1), DigestAlgorithm: checksum.DigestSHA512, Head: "v1", Manifest: map[string][]string{}, Versions: map[string]*vVersion{}, Fixity: map[checksum.DigestAlgorithm]map[string][]string{}}
		files := map[checksum.DigestAlgorithm]map[string][]string{}
		for _, a := range algs[:1+r.Intn(len(algs))] {
			files[a] = map[string][]string{}
		}
		nf := r.Intn(6)
		for f := 0; f < nf; f++ {
			p := "v1/content/" + vPathPool[r.Intn(len(vPathPool))]
			for _, a := range algs {
				d := vDigest(r, 16)
				if a == checksum.DigestSHA512 {
					if r.Intn(10) > 0 {
						doc.Manifest[up(d)] = append(doc.Manifest[up(d)], p)
					}
				} else if r.Intn(2) == 0 {
					if _, ok := files[a]; ok || r.Intn(8) == 0 {
						if doc.Fixity[a] == nil {
							doc.Fixity[a] = map[string][]string{}
						}
						k := up(d)
						doc.Fixity[a][k] = append(doc.Fixity[a][k], p)
					}
				}
				if r.Intn(8) == 0 {
					d = vDigest(r, 16)
				}
				if m, ok := files[a]; ok && r.Intn(10) > 0 {
					m[d] = append(m[d], p)
				}
			}
		}
		if r.Intn(10) == 0 {
			files = map[checksum.DigestAlgorithm]map[string][]string{}
		}
		if r.Intn(15) == 0 {
			delete(files, checksum.DigestSHA512)
		}
		if len(doc.Fixity) == 0 || r.Intn(3) == 0 {
			doc.Fixity = nil
		}
		v.check(fmt.Sprintf("%s files=%v", vDocString(doc), files), func() (string, string) {
			ctx := vCtx()
			inv, err := vLoad(ctx, doc, Version1_1)
			if err != nil {
				return "load", err.Error()
			}
			wantErr := false
			if _, ok := files[checksum.DigestSHA512]; !ok && len(files) > 0 {
				wantErr = true
			}
			e92, e93 := false, false
			if !wantErr {
				for d, ps := range doc.Manifest {
					if _, ok := files[checksum.DigestSHA512][strings.ToLower(d)]; !ok {
						e92 = true
					}
					for _, p := range ps {
						if !slices.Contains(files[checksum.DigestSHA512][strings.ToLower(d)], p) {
							e92 = true
						}
					}
				}
				for a, m := range doc.Fixity {
					if _, ok := files[a]; !ok && len(files) > 0 {
						wantErr = true
					}
					for d, ps := range m {
						if _, ok := files[a][strings.ToLower(d)]; !ok {
							e93 = true
						}
						for _, p := range ps {
							if !slices.Contains(files[a][strings.ToLower(d)], p) {
								e93 = true
							}
						}
					}
				}
			}
			before := vDocString(vSnap(inv))
			err = inv.CheckFiles(files)
			codes := vCodes(ctx)
			if (err != nil) != wantErr {
				return "unmeasured", fmt.Sprintf("error %v, expected error %v", err, wantErr)
			}
			if g := codes["E092"] > 0; g != e92 && !(wantErr && !g) {
				return "E092", fmt.Sprintf("E092 reported %v, expected %v", g, e92)
			}
			if g := codes["E093"] > 0; !wantErr && g != e93 {
				return "E093", fmt.Sprintf("E093 reported %v, expected %v", g, e93)
			}
			for c := range codes {
				if c != "E092" && c != "E093" {
					return "other", "unexpected code " + c
				}
			}
			if vDocString(vSnap(inv)) != before {
				return "frame", "CheckFiles changed the inventory"
			}
			return "", ""
		})
	}
}
