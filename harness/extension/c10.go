package PKG

import (
	"fmt"
	"strings"
	"testing"
)

func vEsc(s string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		if strings.IndexByte("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_", s[i]) >= 0 {
			r += s[i : i+1]
		} else {
			r += fmt.Sprintf("%%%02x", s[i])
		}
	}
	return r
}

type vTuple struct {
	Layout string
	Alg    string
	Size   int
	Num    int
	Short  bool
	Id     string
}

func TestVerifC10(t *testing.T) {
	v := vNew(t, "fixed ids and random ids (all bytes, lengths around 100) x layout 0003/0004 x digest algorithm x tuple size and number 0-32; expected path computed with the crypto packages")
	k := 0
	for v.more() {
		r := v.rng
		c := vTuple{Layout: []string{"0003", "0004"}[r.Intn(2)], Alg: vAlgs[r.Intn(4)], Size: r.Intn(6), Num: r.Intn(6), Short: r.Intn(2) == 0, Id: vId(r)}
		switch r.Intn(8) {
		case 0:
			c.Size = r.Intn(33)
		case 1:
			c.Num = r.Intn(33)
		case 2:
			c.Size, c.Num = r.Intn(33), r.Intn(33)
		}
		if k < 4*len(vFixedIds) {
			c.Id = vFixedIds[k/4]
			k++
		}
		v.check(c, func() (string, string) {
			build := func() (func(string) (string, error), error) {
				if c.Layout == "0003" {
					l, err := NewStorageLayoutHashAndIdNTuple(&StorageLayoutHashAndIdNTupleConfig{ExtensionConfig: vCfg(StorageLayoutHashAndIdNTupleName), DigestAlgorithm: c.Alg, TupleSize: c.Size, NumberOfTuples: c.Num})
					if err != nil {
						return nil, err
					}
					return func(s string) (string, error) { return l.BuildStorageRootPath(nil, s) }, nil
				}
				l, err := NewStorageLayoutHashedNTuple(&StorageLayoutHashedNTupleConfig{ExtensionConfig: vCfg(StorageLayoutHashedNTupleName), DigestAlgorithm: c.Alg, TupleSize: c.Size, NumberOfTuples: c.Num, ShortObjectRoot: c.Short})
				if err != nil {
					return nil, err
				}
				return func(s string) (string, error) { return l.BuildStorageRootPath(nil, s) }, nil
			}
			f, err := build()
			if err != nil {
				return "create", err.Error()
			}
			size, num := c.Size, c.Num
			if size == 0 || num == 0 {
				size, num = 0, 0
			}
			want := func(id string) (string, bool) {
				d := vHex(c.Alg, id)
				if len(d) < size*num {
					return "", false
				}
				var parts []string
				for i := 0; i < num; i++ {
					parts = append(parts, d[i*size:(i+1)*size])
				}
				if c.Layout == "0003" {
					e := vEsc(id)
					if len(e) > 100 {
						e = e[:100] + "-" + d
					}
					parts = append(parts, e)
				} else if c.Short {
					parts = append(parts, d[size*num:])
				} else {
					parts = append(parts, d)
				}
				return strings.Join(parts, "/"), true
			}
			for _, id := range []string{c.Id, c.Id + "x", "other", c.Id} {
				got, err := f(id)
				w, ok := want(id)
				if ok != (err == nil) {
					return "error", fmt.Sprintf("id %q: error %v, expected path %q", id, err, w)
				}
				if ok && got != w {
					return "path", fmt.Sprintf("id %q: got %q, expected %q", id, got, w)
				}
			}
			return "", ""
		})
	}
}
