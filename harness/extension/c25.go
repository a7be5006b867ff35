package PKG

import (
	"fmt"
	"strings"
	"testing"
)

func TestVerifC25(t *testing.T) {
	v := vNew(t, "fixed and random ids (every byte value alone and in context) x segment lengths 1-12; encoding and cutting compared with an independent implementation, injectivity over all ids of the run")
	seen := map[string]string{}
	enc := func(s string) string {
		r := ""
		for i := 0; i < len(s); i++ {
			c := s[i]
			if c < 0x21 || c > 0x7e || strings.IndexByte("\"*+,<=>?\\^|", c) >= 0 {
				r += fmt.Sprintf("^%02x", c)
			} else if c == '/' {
				r += "="
			} else if c == ':' {
				r += "+"
			} else if c == '.' {
				r += ","
			} else {
				r += string(rune(c))
			}
		}
		return r
	}
	k := 0
	for v.more() {
		r := v.rng
		id := vId(r)
		n := 1 + r.Intn(4)
		if r.Intn(4) == 0 {
			n = 1 + r.Intn(12)
		}
		if k < 256 {
			id = string([]byte{byte(k)})
		} else if k < 512 {
			id = "a" + string([]byte{byte(k)}) + "b"
		} else if k < 512+len(vFixedIds) {
			id = vFixedIds[k-512]
		}
		k++
		v.check([]any{id, n}, func() (string, string) {
			l, err := NewStorageLayoutPairTree(&StorageLayoutPairTreeConfig{ExtensionConfig: vCfg(StorageLayoutPairTreeName), ShortyLength: n, DigestAlgorithm: "sha512"})
			if err != nil {
				return "create", err.Error()
			}
			p, err := l.BuildStorageRootPath(nil, id)
			if err != nil {
				return "error", err.Error()
			}
			e := enc(id)
			var segs []string
			for i := 0; i < len(e); i += n {
				j := i + n
				if j > len(e) {
					j = len(e)
				}
				segs = append(segs, e[i:j])
			}
			if want := strings.Join(segs, "/"); p != want {
				return "path", fmt.Sprintf("%q, expected %q", p, want)
			}
			key := fmt.Sprintf("%d %s", n, p)
			if o, ok := seen[key]; ok && o != id {
				return "injective", fmt.Sprintf("%q and %q both map to %q", o, id, p)
			}
			seen[key] = id
			return "", ""
		})
	}
	for _, n := range []int{0, -1} {
		v.check(n, func() (string, string) {
			if _, err := NewStorageLayoutPairTree(&StorageLayoutPairTreeConfig{ExtensionConfig: vCfg(StorageLayoutPairTreeName), ShortyLength: n, DigestAlgorithm: "sha512"}); err == nil {
				return "create", "invalid segment length accepted"
			}
			return "", ""
		})
	}
}
