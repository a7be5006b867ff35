package PKG

import (
	"fmt"
	"strings"
	"testing"
)

func TestVerifC24(t *testing.T) {
	v := vNew(t, "random relative paths of 1-6 segments (dots, spaces, unicode, long names) and content directories; prefix, suffix and injectivity against earlier paths")
	segs := []string{"a", "b", "...", "a..b", ".a", "a.", "content", "v1", " ", "ä", "x y", "data", strings.Repeat("l", 300), "-", "~", "\\", "%2e", "\x80", "A"}
	for v.more() {
		r := v.rng
		mk := func() string {
			var s []string
			for k := 1 + r.Intn(6); k > 0; k-- {
				s = append(s, segs[r.Intn(len(segs))])
			}
			return strings.Join(s, "/")
		}
		p, q := mk(), mk()
		cd := []string{"", "content", "data", "c d", "ä"}[r.Intn(5)]
		ver := vVName(1+r.Intn(20), r.Intn(4))
		v.check([]string{p, q, cd, ver}, func() (string, string) {
			doc := vRandInv(r, 1, 0, false)
			doc.ContentDirectory = cd
			doc.Versions[ver] = doc.Versions["v1"]
			doc.Head = ver
			inv, err := vLoad(vCtx(), doc, Version1_1)
			if err != nil {
				return "load", err.Error()
			}
			wcd := cd
			if cd == "" {
				wcd = "content"
			}
			if inv.GetContentDir() != wcd || inv.GetRealContentDir() != cd {
				return "contentdir", fmt.Sprintf("%q %q", inv.GetContentDir(), inv.GetRealContentDir())
			}
			a, b := inv.BuildManifestName(p), inv.BuildManifestNameVersion(p, ver)
			if a != ver+"/"+wcd+"/"+p {
				return "path", fmt.Sprintf("%q, expected %q", a, ver+"/"+wcd+"/"+p)
			}
			if a != b {
				return "path", "BuildManifestName differs from BuildManifestNameVersion of head"
			}
			if o := inv.BuildManifestNameVersion(p, "v77"); o != "v77/"+wcd+"/"+p {
				return "path", "other version: " + o
			}
			if c := inv.BuildManifestName(q); (c == a) != (p == q) {
				return "injective", fmt.Sprintf("%q and %q map to %q and %q", p, q, a, c)
			}
			return "", ""
		})
	}
}
