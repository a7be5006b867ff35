package PKG

import (
	"fmt"
	"strings"
	"testing"
)

type vOmit struct {
	Layout, Delim, Pad string
	Size, Num          int
	Reverse            bool
	Id                 string
}

func vASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func TestVerifC11(t *testing.T) {
	v := vNew(t, "fixed and random ids x layout 0002/0006/0007 x delimiters (1 to 3 bytes, none, overlapping) x padding side x reversal x tuples; expected path computed independently (reversal compared for ASCII ids)")
	delims := []string{":", "/", "a", "aa", "::", "", "info:", "edu/", "é", "0", ".", "ab"}
	k := 0
	for v.more() {
		r := v.rng
		c := vOmit{Layout: []string{"0002", "0006", "0007", "0007", "0007"}[r.Intn(5)], Delim: delims[r.Intn(len(delims))], Pad: []string{"left", "right", "", "none"}[r.Intn(4)], Size: 1 + r.Intn(5), Num: 1 + r.Intn(5), Reverse: r.Intn(2) == 0, Id: vId(r)}
		switch r.Intn(6) {
		case 0:
			c.Id += c.Delim + vId(r)
		case 1:
			c.Id += c.Delim
		case 2:
			c.Id = strings.Repeat(c.Delim, r.Intn(4)) + vPieces[r.Intn(5)]
		case 3:
			c.Id = []string{"", "aaa", "aaaa", "baaa", "a:b:c", "::", "namespace:12887296", "urn:uuid:6e8bc430-9c3a-11d9-9669-0800200c9a66", "abc123xyz"}[r.Intn(9)]
		}
		if k < 6*len(vFixedIds) {
			c.Id = vFixedIds[k/6]
			k++
		}
		v.check(c, func() (string, string) {
			var got string
			var err error
			switch c.Layout {
			case "0002":
				l, e := NewStorageLayoutFlatDirect(&StorageLayoutFlatDirectConfig{ExtensionConfig: vCfg(StorageLayoutFlatDirectName)})
				if e != nil {
					return "create", e.Error()
				}
				got, err = l.BuildStorageRootPath(nil, c.Id)
			case "0006":
				l, e := NewFlatOmitPrefixStorageLayout(&FlatOmitPrefixStorageLayoutConfig{ExtensionConfig: vCfg(FlatOmitPrefixStorageLayoutName), Delimiter: c.Delim})
				if e != nil {
					return "create", e.Error()
				}
				got, err = l.BuildStorageRootPath(nil, c.Id)
			case "0007":
				l, e := NewNTupleOmitPrefixStorageLayout(&NTupleOmitPrefixStorageLayoutConfig{ExtensionConfig: vCfg(NTupleOmitPrefixStorageLayoutName), Delimiter: c.Delim, TupleSize: c.Size, NumberOfTuples: c.Num, ZeroPadding: c.Pad, ReverseObjectRoot: c.Reverse})
				if e != nil {
					return "create", e.Error()
				}
				got, err = l.BuildStorageRootPath(nil, c.Id)
			}
			if c.Layout == "0002" {
				if err != nil || got != c.Id {
					return "flat", fmt.Sprintf("%q, %v", got, err)
				}
				return "", ""
			}
			// last occurrence, by hand
			rest := c.Id
			if c.Delim != "" {
				for i := len(c.Id) - len(c.Delim); i >= 0; i-- {
					if c.Id[i:i+len(c.Delim)] == c.Delim {
						rest = c.Id[i+len(c.Delim):]
						if rest == "" {
							if err == nil {
								return "delimiter at end", fmt.Sprintf("path %q instead of an error", got)
							}
							return "", ""
						}
						break
					}
				}
			}
			if err != nil {
				return "error", err.Error()
			}
			if c.Layout == "0006" {
				if got != rest {
					return "omit", fmt.Sprintf("%q, expected %q", got, rest)
				}
				return "", ""
			}
			if c.Reverse && !vASCII(rest) {
				return "", "" // no crash is all that is required
			}
			b := rest
			for len(b) < c.Size*c.Num {
				if c.Pad == "right" {
					b += "0"
				} else {
					b = "0" + b
				}
			}
			if c.Reverse {
				x := []byte(b)
				for i := range x {
					x[i] = b[len(b)-1-i]
				}
				b = string(x)
			}
			want := ""
			for i := 0; i < c.Num; i++ {
				want += b[i*c.Size:(i+1)*c.Size] + "/"
			}
			want += rest
			if got != want {
				return "tuples", fmt.Sprintf("%q, expected %q", got, want)
			}
			return "", ""
		})
	}
	// invalid tuples are refused when the layout is created
	for _, n := range [][2]int{{0, 1}, {1, 0}, {-1, 3}, {3, -1}} {
		v.check(n, func() (string, string) {
			if _, err := NewNTupleOmitPrefixStorageLayout(&NTupleOmitPrefixStorageLayoutConfig{ExtensionConfig: vCfg(NTupleOmitPrefixStorageLayoutName), Delimiter: ":", TupleSize: n[0], NumberOfTuples: n[1]}); err == nil {
				return "create", "invalid tuples accepted"
			}
			return "", ""
		})
	}
}
