package PKG

import (
	"fmt"
	"slices"
	"strings"
	"testing"
)

type vEdit struct {
	Op   string
	A, B string
	List []string
}

func vDelPath(s map[string][]string, p string) (map[string][]string, bool) {
	r, f := map[string][]string{}, false
	for d, ps := range s {
		for _, q := range ps {
			if q == p {
				f = true
			} else {
				r[d] = append(r[d], q)
			}
		}
	}
	return r, f
}

// TestVerifC01: random edit sequences against the path->digest reading.
func TestVerifC01(t *testing.T) {
	v := vNew(t, "random inventory histories (1-4 versions, optional zero padding, duplicate and shared entries) with random edit sequences; a case is one edit sequence, compared after every edit with the multiset of (path,digest) entries; non-trivial = distinct (inventory, edits)")
	for v.more() {
		r := v.rng
		pad := 0
		if r.Intn(3) == 0 {
			pad = 1 + r.Intn(3)
		}
		doc := vRandInv(r, 1+r.Intn(4), pad, true)
		var edits []vEdit
		for k := 1 + r.Intn(5); k > 0; k-- {
			p, q := vPathPool[r.Intn(len(vPathPool))], vPathPool[r.Intn(len(vPathPool))]
			switch r.Intn(5) {
			case 0, 1:
				edits = append(edits, vEdit{Op: "delete", A: p})
			case 2:
				edits = append(edits, vEdit{Op: "rename", A: p, B: q})
			case 3:
				edits = append(edits, vEdit{Op: "copy", A: p, B: vDigest(r, 7)})
			case 4:
				var ex []string
				for _, x := range vPathPool {
					if r.Intn(2) == 0 {
						ex = append(ex, x)
					}
				}
				slices.Sort(ex)
				edits = append(edits, vEdit{Op: "echo", A: []string{"", "data", "data/", "a", "zzz"}[r.Intn(5)], List: ex})
			}
		}
		v.check(fmt.Sprintf("%s edits=%+v", vDocString(doc), edits), func() (string, string) {
			inv, err := vLoad(vCtx(), doc, Version1_1)
			if err != nil {
				return "load", err.Error()
			}
			if err := inv.Finalize(true); err != nil {
				return "finalize", err.Error()
			}
			for n, e := range edits {
				before := vSnap(inv)
				mod := inv.IsModified()
				want := vCopyState(before.Versions[before.Head].State)
				changed, wantErr := false, false
				var err error
				switch e.Op {
				case "delete":
					want, changed = vDelPath(want, e.A)
					err = inv.DeleteFile(e.A)
				case "rename":
					for _, ps := range want {
						for k, q := range ps {
							if q == e.A {
								ps[k] = e.B
								changed = true
							}
						}
					}
					err = inv.RenameFile(e.A, e.B)
				case "copy":
					if _, ok := before.Manifest[e.B]; !ok {
						wantErr = true
					} else if !slices.Contains(want[e.B], e.A) {
						want, _ = vDelPath(want, e.A)
						want[e.B] = append(want[e.B], e.A)
						changed = true
					}
					err = inv.CopyFile(e.A, e.B)
				case "echo":
					for d, ps := range want {
						var keep []string
						for _, q := range ps {
							if strings.HasPrefix(q, e.A) && !slices.Contains(e.List, q) {
								changed = true
							} else {
								keep = append(keep, q)
							}
						}
						want[d] = keep
					}
					err = inv.echoDelete(append([]string{}, e.List...), e.A)
				}
				if (err != nil) != wantErr {
					return "edit-error", fmt.Sprintf("edit %d %+v: error %v, expected error %v", n, e, err, wantErr)
				}
				after := vSnap(inv)
				if after.Head != before.Head {
					return "head", "head moved"
				}
				if m := vSame(before, after, before.Head, false, false); m != "" {
					return "frame", fmt.Sprintf("edit %d %+v: %s", n, e, m)
				}
				if g, w := vCanon(after.Versions[after.Head].State), vCanon(want); g != w {
					return "state", fmt.Sprintf("edit %d %+v: state is %s, expected %s", n, e, g, w)
				}
				if inv.IsModified() != (mod || changed) {
					return "modified", fmt.Sprintf("edit %d %+v: modified=%v, expected %v", n, e, inv.IsModified(), mod || changed)
				}
			}
			// the lists of the edited state do not share memory with others
			hs := inv.GetVersions()
			for vn, ver := range hs {
				if vn == inv.GetHead() {
					continue
				}
				_ = ver
			}
			before := vSnap(inv)
			for _, ps := range hs[inv.GetHead()].State.State {
				for k := range ps {
					ps[k] = "@@overwritten"
				}
				_ = append(ps, "@@appended")
			}
			after := vSnap(inv)
			if m := vSame(before, after, before.Head, false, false); m != "" {
				return "alias", "overwriting entries of the edited state changed something else: " + m
			}
			return "", ""
		})
	}
}
