package PKG

import (
	"fmt"
	"strings"
	"sync"
	"testing"
	"unicode/utf8"

	"github.com/je4/gocfl/v2/pkg/ocfl"
	"github.com/je4/utils/v2/pkg/checksum"
)

func TestVerifC12(t *testing.T) {
	v := vNew(t, "fixed and random ids x valid configurations (both encodings, limits from 1 up, replacement strings, fallback algorithm, folder and tuples); segments, limits, fallback digest, determinism in 4 concurrent calls")
	k := 0
	for v.more() {
		r := v.rng
		id := vId(r)
		if k < 6*len(vFixedIds) {
			id = vFixedIds[k/6]
		}
		k++
		alg := vAlgs[r.Intn(4)]
		cfg := DirectCleanConfig{ExtensionConfig: vCfg(DirectCleanName), UTFEncode: r.Intn(2) == 0,
			MaxPathSegmentLen: []int{1, 2, 3, 7, 8, 16, 40, 127, 0}[r.Intn(9)], MaxPathnameLen: []int{1, 5, 20, 60, 100, 200, 32000, 0}[r.Intn(8)],
			ReplacementString: []string{"", "_", "-", "__", "x", "ä"}[r.Intn(6)], WhitespaceReplacementString: []string{"", " ", "_", "-"}[r.Intn(4)],
			FallbackDigestAlgorithm: checksum.DigestAlgorithm(alg), FallbackFolder: []string{"", "f", "fallback", "a/b"}[r.Intn(4)],
			NumberOfFallbackTuples: r.Intn(4), FallbackTupleSize: r.Intn(4)}
		if r.Intn(10) == 0 {
			cfg.NumberOfFallbackTuples = 30 + r.Intn(120)
			cfg.FallbackTupleSize = 1
		}
		seg, max := cfg.MaxPathSegmentLen, cfg.MaxPathnameLen
		if seg == 0 {
			seg = 127
		}
		if max == 0 {
			max = 32000
		}
		// valid configurations only
		if cfg.FallbackTupleSize > seg {
			cfg.FallbackTupleSize = seg
		}
		if seg < 8 && cfg.FallbackFolder != "a/b" {
			cfg.FallbackFolder = "f"
		}
		folder := cfg.FallbackFolder
		if folder == "" {
			folder = "fallback"
		}
		show := cfg
		show.ExtensionConfig = nil
		v.check([]any{id, fmt.Sprintf("%+v", show)}, func() (string, string) {
			ext, err := NewDirectClean(&cfg)
			if err != nil {
				return "create", err.Error()
			}
			l := ext.(*DirectClean)
			p, err := l.BuildStorageRootPath(nil, id)
			q, err2 := l.BuildObjectManifestPath(nil, id, "")
			if (err == nil) != (err2 == nil) || err == nil && p != q {
				return "deterministic", fmt.Sprintf("%q (%v), then %q (%v)", p, err, q, err2)
			}
			if k%8 == 0 {
				var wg sync.WaitGroup
				res := make([]string, 4)
				for i := range res {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for j := 0; j < 3; j++ {
							x, e := l.BuildStorageRootPath(nil, id)
							_, _ = l.BuildStorageRootPath(nil, id+strings.Repeat("z", 130+i))
							if e != nil {
								x = "error"
							}
							if j > 0 && x != res[i] {
								x = "changed: " + x
							}
							res[i] = x
						}
					}()
				}
				wg.Wait()
				for _, x := range res {
					if err == nil && x != p || err != nil && x != "error" {
						return "concurrent", fmt.Sprintf("%q alone, %q concurrently", p, x)
					}
				}
			}
			if err != nil {
				// an error needs a reason: the fallback path itself does not fit
				d := vHex(alg, "")
				n := len(folder) + 1 + len(d) + (len(d)-1)/seg + cfg.NumberOfFallbackTuples*(cfg.FallbackTupleSize+1)
				if n <= max && !(cfg.NumberOfFallbackTuples > 0 && cfg.NumberOfFallbackTuples-1+cfg.FallbackTupleSize > len(d)) {
					return "error", "error although the fallback path fits: " + err.Error()
				}
				return "", ""
			}
			if len(p) > max {
				return "length", fmt.Sprintf("%q is longer than %d", p, max)
			}
			for _, s := range strings.Split(p, "/") {
				if s == "" || s == "." || s == ".." {
					return "segment", fmt.Sprintf("%q has segment %q", p, s)
				}
				if len(s) > seg {
					return "segment length", fmt.Sprintf("%q has segment %q, longer than %d", p, s, seg)
				}
			}
			// names of letters and digits within the limits are kept
			plain := utf8.ValidString(id)
			for _, s := range strings.Split(id, "/") {
				if s == "" || len(s) > seg || strings.Trim(s, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") != "" {
					plain = false
				}
			}
			if plain && len(id) <= max && p != id {
				return "plain", fmt.Sprintf("%q became %q", id, p)
			}
			// too long: digest below the fallback folder
			long := strings.HasPrefix(p, folder+"/") && !strings.HasPrefix(id, folder)
			for _, s := range strings.Split(id, "/") {
				if len(s) > seg && strings.Trim(s, "abcdefghijklmnopqrstuvwxyz0123456789") == "" {
					long = true
				}
			}
			if plain && len(id) > max {
				long = true
			}
			if long {
				if !strings.HasPrefix(p, folder+"/") {
					return "fallback", fmt.Sprintf("%q is not in the fallback folder", p)
				}
				parts := strings.Split(strings.TrimPrefix(p, folder+"/"), "/")
				if cfg.FallbackTupleSize > 0 {
					if len(parts) < cfg.NumberOfFallbackTuples {
						return "fallback", fmt.Sprintf("%q has too few parts", p)
					}
					parts = parts[cfg.NumberOfFallbackTuples:]
				}
				d := strings.Join(parts, "")
				clean := strings.ToValidUTF8(id, cfg.ReplacementString)
				if len(d) != len(vHex(alg, "")) || strings.Trim(d, "0123456789abcdef") != "" {
					return "fallback", fmt.Sprintf("%q does not end with a digest", p)
				}
				if plain && d != vHex(alg, id) {
					return "fallback", fmt.Sprintf("%q is not the digest of %q", d, clean)
				}
			}
			return "", ""
		})
	}
	_ = ocfl.ExtensionConfig{}
}
