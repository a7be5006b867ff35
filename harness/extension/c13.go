package PKG

import (
	"errors"
	"fmt"
	"path"
	"strings"
	"testing"

	"github.com/je4/gocfl/v2/pkg/ocfl"
)

func TestVerifC13(t *testing.T) {
	v := vNew(t, "random area tables (1-4 areas whose folders are prefixes of each other), paths without dot segments, explicit and default areas; prefixing, round trip, refusal of other areas' paths")
	folders := []string{"data", "data2", "data/sub", "d", "metadata", "a b", "ä", "data-", "content"}
	names := []string{"content", "metadata", "data", "x", "y"}
	segs := []string{"a", "b.txt", "data", "data2", "sub", "content", "...", "a..b", " ", "ö", "-"}
	for v.more() {
		r := v.rng
		paths := map[string]ContentSubPathEntry{}
		for n := 1 + r.Intn(4); n > 0; n-- {
			paths[names[r.Intn(len(names))]] = ContentSubPathEntry{Path: folders[r.Intn(len(folders))], Description: "d"}
		}
		var s []string
		for n := 1 + r.Intn(4); n > 0; n-- {
			s = append(s, segs[r.Intn(len(segs))])
		}
		orig := strings.Join(s, "/")
		def := ""
		if r.Intn(2) == 0 {
			def = names[r.Intn(len(names))]
		}
		area := append(names, "", "full", "zzz")[r.Intn(len(names)+3)]
		v.check([]any{fmt.Sprint(paths), orig, def, area}, func() (string, string) {
			l, err := NewContentSubPath(&ContentSubPathConfig{ExtensionConfig: vCfg(ContentSubPathName), Paths: paths})
			if err != nil {
				return "create", err.Error()
			}
			params := map[string]string{}
			eff := area
			if def != "" {
				params["ext-"+ContentSubPathName+"-area"] = def
			}
			if err := l.SetParams(params); err != nil {
				return "params", err.Error()
			}
			if eff == "" {
				eff = def
				if eff == "" {
					eff = "content"
				}
			}
			sp, err1 := l.BuildObjectStatePath(nil, orig, area)
			mp, err2 := l.BuildObjectManifestPath(nil, orig, area)
			e, ok := paths[eff]
			if eff == "full" {
				ep, err3 := l.BuildObjectExtractPath(nil, orig, area)
				if err1 != nil || err2 != nil || err3 != nil || sp != orig || mp != orig || ep != orig {
					return "full", fmt.Sprintf("%q %q %q %v %v %v", sp, mp, ep, err1, err2, err3)
				}
				return "", ""
			}
			ap, err4 := l.GetAreaPath(nil, area)
			if _, known := paths[area]; known != (err4 == nil) || known && ap != paths[area].Path {
				return "areapath", fmt.Sprintf("%q %v", ap, err4)
			}
			if !ok {
				_, err3 := l.BuildObjectExtractPath(nil, orig, area)
				if err1 == nil || err2 == nil || err3 == nil {
					return "unknown area", fmt.Sprintf("%v %v %v", err1, err2, err3)
				}
				return "", ""
			}
			want := path.Join(e.Path, orig)
			if err1 != nil || err2 != nil || sp != want || mp != want {
				return "prefix", fmt.Sprintf("%q %q, expected %q (%v %v)", sp, mp, want, err1, err2)
			}
			back, err := l.BuildObjectExtractPath(nil, sp, area)
			if err != nil || back != orig {
				return "roundtrip", fmt.Sprintf("%q back to %q (%v), expected %q", sp, back, err, orig)
			}
			for n, o := range paths {
				p, err := l.BuildObjectExtractPath(nil, sp, n)
				inside := strings.HasPrefix(sp, o.Path+"/")
				if inside != (err == nil) {
					return "leak", fmt.Sprintf("%q for area %s (%s): %q %v", sp, n, o.Path, p, err)
				}
				if inside && p != strings.TrimPrefix(sp, o.Path+"/") {
					return "leak", fmt.Sprintf("%q for area %s (%s): %q", sp, n, o.Path, p)
				}
				if !inside && !errors.Is(err, ocfl.ExtensionObjectExtractPathWrongAreaError) {
					return "error kind", err.Error()
				}
				for _, x := range []string{o.Path, o.Path + "x", o.Path + "2/" + orig, orig} {
					in := strings.HasPrefix(x, o.Path+"/")
					if _, err := l.BuildObjectExtractPath(nil, x, n); in != (err == nil) {
						return "leak", fmt.Sprintf("%q for area %s (%s): %v", x, n, o.Path, err)
					}
				}
			}
			return "", ""
		})
	}
}
