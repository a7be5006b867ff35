package PKG

import (
	"fmt"
	"slices"
	"testing"

	"github.com/je4/utils/v2/pkg/checksum"
)

// TestVerifC08: lookups after random histories.
func TestVerifC08(t *testing.T) {
	v := vNew(t, "random histories (loaded inventory, 0-3 new versions with edits, deletes and re-adds, optional zero padding); AlreadyExists and GetDuplicates of every known path and digest compared with the head state and manifest; the update decision through AddFile")
	for v.more() {
		r := v.rng
		pad := 0
		if r.Intn(3) == 0 {
			pad = 1 + r.Intn(3)
		}
		doc := vRandInv(r, 1+r.Intn(3), pad, false)
		nr := r.Intn(4)
		var steps [][]vStep
		for k := 0; k < nr; k++ {
			steps = append(steps, vRandSteps(v, 1+r.Intn(5)))
		}
		v.check(fmt.Sprintf("%s steps=%+v", vDocString(doc), steps), func() (string, string) {
			inv, err := vLoad(vCtx(), doc, Version1_1)
			if err != nil {
				return "load", err.Error()
			}
			if err := inv.Finalize(false); err != nil {
				return "finalize", err.Error()
			}
			test := func() (string, string) {
				d := vSnap(inv)
				st := d.Versions[d.Head].State
				digs := map[string]bool{"": true, "unknown": true}
				for _, x := range d.Versions {
					for dg := range x.State {
						digs[dg] = true
					}
				}
				for dg := range d.Manifest {
					digs[dg] = true
				}
				for dg := range digs {
					for _, p := range append([]string{""}, vPathPool...) {
						want := dg != "" && slices.Contains(st[dg], p)
						got, err := inv.AlreadyExists(p, dg)
						if err != nil {
							return "error", fmt.Sprintf("AlreadyExists(%q,%q): %v", p, dg, err)
						}
						if got != want {
							return "exists", fmt.Sprintf("AlreadyExists(%q,%q)=%v, head %s has %v", p, dg, got, d.Head, st)
						}
						if u, ok := inv.(interface {
							IsUpdate(string, string) (bool, error)
						}); ok {
							other := false
							for e, ps := range st {
								if e != dg && slices.Contains(ps, p) {
									other = true
								}
							}
							got, err := u.IsUpdate(p, dg)
							if err != nil || got != (dg != "" && other && !want) {
								return "update", fmt.Sprintf("IsUpdate(%q,%q)=%v %v, head %s has %v", p, dg, got, err, d.Head, st)
							}
						}
					}
					dups := inv.GetDuplicates(dg)
					if dg == "" {
						if len(dups) != 0 {
							return "duplicates", "empty digest has duplicates"
						}
					} else if !slices.Equal(dups, d.Manifest[dg]) {
						return "duplicates", fmt.Sprintf("GetDuplicates(%q)=%v, manifest %v", dg, dups, d.Manifest[dg])
					}
				}
				return "", ""
			}
			if k, m := test(); m != "" {
				return k, m
			}
			for _, ss := range steps {
				if err := inv.NewVersion("m", "u", "a"); err != nil {
					return "", ""
				}
				if k, m := test(); m != "" {
					return k, m
				}
				for _, s := range ss {
					if err := vApply(inv, s); err != nil {
						return "edit", fmt.Sprintf("%+v: %v", s, err)
					}
				}
				if k, m := test(); m != "" {
					return k, m
				}
			}
			return "", ""
		})
	}
}

// TestVerifC09: AddFile.
func TestVerifC09(t *testing.T) {
	v := vNew(t, "random well-formed histories followed by a sequence of AddFile calls with 1-3 logical paths, new or existing content, upper and lower case digests and several fixity algorithms; state, manifest, fixity and history compared with the direct reading after every call")
	algs := []checksum.DigestAlgorithm{checksum.DigestMD5, checksum.DigestSHA1, checksum.DigestSHA256}
	for v.more() {
		r := v.rng
		pad := 0
		if r.Intn(3) == 0 {
			pad = 2
		}
		doc := vRandInv(r, 1+r.Intn(3), pad, false)
		if r.Intn(4) == 0 {
			doc.DigestAlgorithm = checksum.DigestSHA256
		}
		type call struct {
			Paths    []string
			Manifest string
			Sums     map[checksum.DigestAlgorithm]string
		}
		var calls []call
		for k := 1 + r.Intn(4); k > 0; k-- {
			c := call{Sums: map[checksum.DigestAlgorithm]string{}}
			for j := r.Intn(3); j >= 0; j-- {
				c.Paths = append(c.Paths, vPathPool[r.Intn(len(vPathPool))])
			}
			c.Manifest = fmt.Sprintf("v%d/content/%s.%d", 1+r.Intn(3), c.Paths[0], r.Intn(4))
			d := vDigest(r, 10)
			if r.Intn(3) == 0 {
				d = fmt.Sprintf("%X", d)
			}
			if r.Intn(12) > 0 {
				c.Sums[doc.DigestAlgorithm] = d
			}
			for _, a := range algs {
				if a != doc.DigestAlgorithm && r.Intn(2) == 0 {
					c.Sums[a] = vDigest(r, 6)
				}
			}
			calls = append(calls, c)
		}
		newv := r.Intn(3) > 0
		v.check(fmt.Sprintf("%s newversion=%v calls=%+v", vDocString(doc), newv, calls), func() (string, string) {
			inv, err := vLoad(vCtx(), doc, Version1_1)
			if err != nil {
				return "load", err.Error()
			}
			if err := inv.Finalize(false); err != nil {
				return "finalize", err.Error()
			}
			if newv {
				if err := inv.NewVersion("m", "u", "a"); err != nil {
					return "newversion", err.Error()
				}
			}
			for n, c := range calls {
				before := vSnap(inv)
				mod := inv.IsModified()
				sums := map[checksum.DigestAlgorithm]string{}
				for a, s := range c.Sums {
					sums[a] = s
				}
				err := inv.AddFile(append([]string{}, c.Paths...), c.Manifest, sums)
				after := vSnap(inv)
				d, ok := c.Sums[doc.DigestAlgorithm]
				if !ok {
					if err == nil {
						return "nodigest", "missing object digest accepted"
					}
					if vDocString(before) != vDocString(after) || inv.IsModified() != mod {
						return "nodigest", "refused call changed the inventory"
					}
					continue
				}
				if err != nil {
					return "error", fmt.Sprintf("call %d: %v", n, err)
				}
				if fmt.Sprint(sums) != fmt.Sprint(c.Sums) {
					return "argument", "digest table of the caller changed"
				}
				d = vLower(d)
				st := vCopyState(before.Versions[before.Head].State)
				man := vCopyState(before.Manifest)
				fix := map[checksum.DigestAlgorithm]map[string][]string{}
				for a, m := range before.Fixity {
					fix[a] = vCopyState(m)
				}
				for _, p := range c.Paths {
					if !slices.Contains(st[d], p) {
						st, _ = vDelPath(st, p)
						st[d] = append(st[d], p)
					}
				}
				if !slices.Contains(man[d], c.Manifest) {
					man[d] = append(man[d], c.Manifest)
				}
				for a, s := range c.Sums {
					if a == doc.DigestAlgorithm {
						continue
					}
					if fix[a] == nil {
						fix[a] = map[string][]string{}
					}
					if !slices.Contains(fix[a][s], c.Manifest) {
						fix[a][s] = append(fix[a][s], c.Manifest)
					}
				}
				if m := vSame(before, after, before.Head, true, true); m != "" || after.Head != before.Head {
					return "frame", fmt.Sprintf("call %d: %s", n, m)
				}
				if g, w := vCanon(after.Versions[after.Head].State), vCanon(st); g != w {
					return "state", fmt.Sprintf("call %d: state %s, expected %s", n, g, w)
				}
				if g, w := vCanon(after.Manifest), vCanon(man); g != w {
					return "manifest", fmt.Sprintf("call %d: manifest %s, expected %s", n, g, w)
				}
				if g, w := vCanonFixity(after.Fixity), vCanonFixity(fix); g != w {
					return "fixity", fmt.Sprintf("call %d: fixity %s, expected %s", n, g, w)
				}
				if _, ok := after.Fixity[doc.DigestAlgorithm]; ok && before.Fixity[doc.DigestAlgorithm] == nil {
					return "fixity", "object algorithm in fixity"
				}
				changed := vCanon(before.Versions[before.Head].State) != vCanon(after.Versions[after.Head].State) || vCanon(before.Manifest) != vCanon(after.Manifest) || vCanonFixity(before.Fixity) != vCanonFixity(after.Fixity)
				if changed && !inv.IsModified() {
					return "modified", fmt.Sprintf("call %d changed the inventory, but it is not modified", n)
				}
			}
			if m := vAliasFree(inv, inv.GetHead()); m != "" {
				return "alias", m
			}
			return "", ""
		})
	}
}

func vLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}
