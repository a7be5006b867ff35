package PKG

import (
	"fmt"
	"strings"
	"testing"

	"github.com/je4/utils/v2/pkg/checksum"
)

type vStep struct {
	Op   string
	A, B string
}

func vRandSteps(v *vRun, n int) []vStep {
	r := v.rng
	var steps []vStep
	for ; n > 0; n-- {
		p, q := vPathPool[r.Intn(len(vPathPool))], vPathPool[r.Intn(len(vPathPool))]
		switch r.Intn(5) {
		case 0:
			steps = append(steps, vStep{"delete", p, ""})
		case 1:
			steps = append(steps, vStep{"rename", p, q})
		case 2:
			steps = append(steps, vStep{"copy", p, vDigest(r, 6)})
		default:
			steps = append(steps, vStep{"add", p, vDigest(r, 9)})
		}
	}
	return steps
}

func vApply(inv Inventory, s vStep) error {
	switch s.Op {
	case "delete":
		return inv.DeleteFile(s.A)
	case "rename":
		return inv.RenameFile(s.A, s.B)
	case "copy":
		_ = inv.CopyFile(s.A, s.B)
		return nil
	case "add":
		return inv.AddFile([]string{s.A}, inv.BuildManifestName(s.A+"."+s.B), map[checksum.DigestAlgorithm]string{inv.GetDigestAlgorithm(): s.B, checksum.DigestMD5: "aa" + s.B})
	}
	return nil
}

// the state lists of the version share no memory with any other version, the
// manifest or fixity
func vAliasFree(inv Inventory, ver string) string {
	before := vSnap(inv)
	for _, ps := range inv.GetVersions()[ver].State.State {
		for k := range ps {
			ps[k] = "@@overwritten"
		}
		_ = append(ps, "@@appended")
		if cap(ps) > len(ps) {
			_ = append(ps, "@@appended", "@@appended2")
		}
	}
	inv.GetVersions()[ver].State.State["@@key"] = []string{"x"}
	after := vSnap(inv)
	if m := vSame(before, after, ver, false, false); m != "" {
		return "changing entries of version " + ver + " changed something else: " + m
	}
	return ""
}

// TestVerifC02: histories of NewVersion / edits / Clean.
func TestVerifC02(t *testing.T) {
	v := vNew(t, "random inventories (0-12 versions, unpadded or zero padded) followed by up to 3 rounds of NewVersion and edits or Clean; compared with the expected version name, metadata, state copy and unchanged history; memory sharing tested by overwriting")
	for v.more() {
		r := v.rng
		pad := 0
		if r.Intn(3) == 0 {
			pad = 1 + r.Intn(3)
		}
		nv := []int{0, 1, 1, 2, 3, 8, 9, 10, 11, 12}[r.Intn(10)]
		if pad == 1 && nv > 9 {
			nv = 9
		}
		if nv == 0 {
			pad = 0
		}
		doc := vRandInv(r, nv, pad, false)
		if nv == 0 {
			doc.Head = ""
		}
		type round struct {
			Msg, User, Addr string
			Steps           []vStep
			Clean           bool
		}
		var rounds []round
		for k := 1 + r.Intn(3); k > 0; k-- {
			rounds = append(rounds, round{Msg: []string{"", "msg", "ä\"<x>\n"}[r.Intn(3)], User: "u" + fmt.Sprint(r.Intn(3)), Addr: []string{"", "mailto:x@y"}[r.Intn(2)], Steps: vRandSteps(v, r.Intn(5)), Clean: r.Intn(3) == 0})
		}
		v.check(fmt.Sprintf("%s rounds=%+v", vDocString(doc), rounds), func() (string, string) {
			inv, err := vLoad(vCtx(), doc, Version1_1)
			if err != nil {
				return "load", err.Error()
			}
			if err := inv.Finalize(nv == 0); err != nil {
				return "finalize", err.Error()
			}
			n := nv
			for k, rd := range rounds {
				before := vSnap(inv)
				err := inv.NewVersion(rd.Msg, rd.User, rd.Addr)
				full := pad > 0 && len(vVName(n+1, pad)) != len(vVName(n, pad))
				if full {
					if err == nil {
						return "padding-full", fmt.Sprintf("round %d: no error although %s is the last name of the padding, head is %s", k, before.Head, inv.GetHead())
					}
					if m := vSame(before, vSnap(inv), "", false, false); m != "" || inv.GetHead() != before.Head {
						return "padding-full", "refused new version changed the inventory: " + m
					}
					return "", ""
				}
				if err != nil {
					return "newversion", fmt.Sprintf("round %d: %v", k, err)
				}
				n++
				after := vSnap(inv)
				want := vVName(n, pad)
				if after.Head != want || inv.GetHead() != want {
					return "head", fmt.Sprintf("round %d: head %s, expected %s", k, after.Head, want)
				}
				if m := vSame(before, after, want, false, false); m != "" {
					return "history", fmt.Sprintf("round %d: NewVersion: %s", k, m)
				}
				if len(after.Versions) != len(before.Versions)+1 || after.Versions[want] == nil {
					return "versions", "new version missing"
				}
				prev := map[string][]string{}
				if before.Head != "" {
					prev = before.Versions[before.Head].State
				}
				if g, w := vCanonLists(after.Versions[want].State), vCanonLists(prev); g != w {
					return "copy", fmt.Sprintf("round %d: state %s, expected %s", k, g, w)
				}
				nvv := inv.GetVersions()[want]
				if nvv.Message.string != rd.Msg || nvv.User.Name.string != rd.User || nvv.User.Address.string != rd.Addr || nvv.Created == nil || nvv.Created.IsZero() {
					return "meta", fmt.Sprintf("round %d: message/user not recorded: %+v %+v %+v", k, nvv.Message, nvv.User, nvv.Created)
				}
				if !inv.IsWriteable() {
					return "writeable", "new version not writeable"
				}
				hist := vSnap(inv)
				if rd.Clean && !inv.IsModified() {
					if err := inv.Clean(); err != nil {
						return "clean", err.Error()
					}
					c := vSnap(inv)
					if n == 1 {
						if c.Head != want || c.Versions[want] == nil {
							return "clean", "first version removed"
						}
					} else {
						if c.Head != before.Head {
							return "clean", fmt.Sprintf("head %s after clean, expected %s", c.Head, before.Head)
						}
						if m := vSame(before, c, "", false, false); m != "" {
							return "clean", m
						}
						n--
					}
					continue
				}
				for _, s := range rd.Steps {
					if err := vApply(inv, s); err != nil {
						return "edit", fmt.Sprintf("%+v: %v", s, err)
					}
					now := vSnap(inv)
					if m := vSame(hist, now, want, true, true); m != "" {
						return "history", fmt.Sprintf("round %d: %+v: %s", k, s, m)
					}
					for d, ps := range hist.Manifest {
						for _, p := range ps {
							if !strings.Contains(strings.Join(now.Manifest[d], "\x00")+"\x00", p) {
								return "history", "manifest entry lost"
							}
						}
					}
				}
				if rd.Clean && inv.IsModified() {
					b := vSnap(inv)
					if err := inv.Clean(); err != nil {
						return "clean", err.Error()
					}
					if m := vSame(b, vSnap(inv), "", false, false); m != "" || inv.GetHead() != b.Head {
						return "clean", "modified version cleaned: " + m
					}
				}
			}
			if inv.GetHead() != "" {
				if m := vAliasFree(inv, inv.GetHead()); m != "" {
					return "alias", m
				}
			}
			return "", ""
		})
	}
}
