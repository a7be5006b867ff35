package PKG

import (
	"crypto/sha256"
	"crypto/sha512"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"strings"
	"testing"

	"github.com/je4/utils/v2/pkg/checksum"
)

// vReadFault fails reading the named files.
type vReadFault struct {
	*vMemFS
	fail map[string]error
}

func (f *vReadFault) Open(name string) (fs.File, error) {
	if err := f.fail[name]; err != nil {
		return nil, err
	}
	return f.vMemFS.Open(name)
}
func (f *vReadFault) ReadFile(name string) ([]byte, error) {
	if err := f.fail[name]; err != nil {
		return nil, err
	}
	return f.vMemFS.ReadFile(name)
}
func (f *vReadFault) Stat(name string) (fs.FileInfo, error) {
	if err := f.fail[name]; err != nil {
		return nil, err
	}
	return f.vMemFS.Stat(name)
}

func vHex(alg checksum.DigestAlgorithm, b []byte) string {
	if alg == checksum.DigestSHA256 {
		return fmt.Sprintf("%x", sha256.Sum256(b))
	}
	return fmt.Sprintf("%x", sha512.Sum512(b))
}

type vC16 struct {
	Alg           string
	Version, Root bool
	Fail          int
	Side          string
	Folder        string
	Inv           string
}

func TestVerifC16(t *testing.T) {
	v := vNew(t, "store: random inventories, both digest algorithms, root and version folder as requested, a failure of every single create, write and close; load: well-formed, malformed, missing and unreadable sidecars in several spellings, inventories missing or unreadable with plain and wrapped errors")
	plain := errors.New("read fault")
	for v.more() {
		alg := []checksum.DigestAlgorithm{checksum.DigestSHA512, checksum.DigestSHA256}[v.rng.Intn(2)]
		nv := 1 + v.rng.Intn(3)
		d := vRandInv(v.rng, nv, 0, false)
		d.DigestAlgorithm = alg
		ctx := vCtx()
		inv, err := vLoad(ctx, d, Version1_1)
		if err != nil {
			t.Fatal(err)
		}
		if err := inv.Finalize(false); err != nil {
			t.Fatal(err)
		}
		if err := inv.NewVersion("m", "n", "a"); err != nil {
			t.Fatal(err)
		}
		head := inv.GetHead()
		version, root := v.rng.Intn(3) > 0, v.rng.Intn(3) > 0
		for fail := 0; fail < 20; fail++ {
			m := vNewMem()
			m.files["inventory.json"], m.files["inventory.json."+string(alg)], m.files["other"] = []byte("old"), []byte("oldsum"), []byte("x")
			m.files[head+"/inventory.json"], m.files[head+"/inventory.json."+string(alg)] = []byte("old"), []byte("oldsum")
			m.mkall(head)
			m.failAt = fail
			obj := &ObjectBase{ctx: ctx, fsys: m.fs(), i: inv, logger: vLogger(), version: Version1_1}
			want, _ := json.MarshalIndent(inv, "", "   ")
			v.check(vC16{Alg: string(alg), Version: version, Root: root, Fail: fail, Folder: head}, func() (string, string) {
				err := obj.StoreInventory(version, root)
				if m.hit != "" {
					if err == nil {
						return "lost-fault", "failure of '" + m.hit + "' not reported"
					}
				} else if err != nil {
					return "error", err.Error()
				}
				for name, b := range m.list() {
					touched := version && strings.HasPrefix(name, head+"/") || root && strings.HasPrefix(name, "inventory.json")
					if !touched {
						if old := map[string]string{"inventory.json": "old", "other": "x", head + "/inventory.json": "old"}; b != "oldsum" && b != old[name] {
							return "frame", "'" + name + "' was written: " + b
						}
						continue
					}
					if m.hit != "" {
						continue
					}
					folder := strings.TrimSuffix(name[:strings.Index(name, "inventory.json")], "/")
					json0 := m.files[strings.TrimPrefix(folder+"/inventory.json", "/")]
					switch {
					case strings.HasSuffix(name, "/inventory.json") || name == "inventory.json":
						var x, y any
						if json.Unmarshal([]byte(b), &x) != nil || json.Unmarshal(want, &y) != nil || fmt.Sprint(x) != fmt.Sprint(y) {
							return "content", "'" + name + "' is not the inventory: " + b
						}
					case strings.HasSuffix(name, "/inventory.json."+string(alg)) || name == "inventory.json."+string(alg):
						if b != vHex(alg, json0)+" inventory.json" {
							return "sidecar", "'" + name + "' is not the sidecar: " + b
						}
					default:
						return "name", "unexpected file '" + name + "'"
					}
				}
				return "", ""
			})
			if fail > 0 && m.hit == "" {
				break
			}
		}
		// loading
		d.DigestAlgorithm = alg
		b, _ := json.Marshal(d)
		sum := vHex(alg, b)
		wrong := []byte(sum)
		k := v.rng.Intn(len(wrong))
		wrong[k] = map[bool]byte{true: '1', false: '0'}[wrong[k] == '0']
		sides := map[string]string{
			sum + " inventory.json":                              "",
			sum + "\tinventory.json\n":                           "",
			strings.ToUpper(sum) + "  inventory.json":            "",
			" " + sum + " inventory.json \r\n":                   "",
			string(wrong) + " inventory.json":                    "E060",
			sum[:len(sum)-1] + " inventory.json":                 "E060",
			sum + "00 inventory.json":                            "E060",
			"0 inventory.json":                                   "E060",
			sum:                                                  "E061",
			"":                                                   "E061",
			"inventory.json":                                     "E061",
			sum + "inventory.json":                               "E061",
			sum + " inventoryXjson":                              "E061",
			sum + " inventory.json.bak":                          "E061",
			sum + " v1/inventory.json":                           "E061",
			"x" + sum + " inventory.json":                        "E061",
			sum + " inventory.json\n" + sum + " inventory.json":  "E061",
			sum + " other inventory.json":                        "E061",
			sum[:8] + "g" + sum[9:] + " inventory.json":          "E061",
			"\x00missing":                                        "E058",
			"\x00missing-wrapped":                                "E058",
			"\x00unreadable":                                     "E060",
			"\x00unreadable-wrapped":                             "E060",
		}
		for side, want := range sides {
			folder := []string{".", "v1"}[v.rng.Intn(2)]
			name := "inventory.json"
			if folder != "." {
				name = folder + "/inventory.json"
			}
			m := vNewMem()
			m.mkall("v1")
			m.files[name] = b
			f := &vReadFault{m.fs(), map[string]error{}}
			sc := name + "." + string(alg)
			switch side {
			case "\x00missing":
			case "\x00missing-wrapped":
				f.fail[sc] = fmt.Errorf("wrapped: %w", fs.ErrNotExist)
			case "\x00unreadable":
				f.fail[sc] = plain
			case "\x00unreadable-wrapped":
				f.fail[sc] = fmt.Errorf("wrapped: %w", fs.ErrPermission)
			default:
				m.files[sc] = []byte(side)
			}
			c := vCtx()
			obj := &ObjectBase{ctx: c, fsys: f, logger: vLogger(), version: Version1_1}
			v.check(vC16{Alg: string(alg), Side: strings.ReplaceAll(side, sum, "<sum>"), Folder: folder}, func() (string, string) {
				got, err := obj.LoadInventory(folder)
				if err != nil {
					return "load", err.Error()
				}
				if got == nil || got.GetID() != d.Id || vVerNames(got) != vDocNames(d) {
					return "loaded", "the loaded inventory is not the stored one"
				}
				codes := vCodes(c)
				for _, code := range []string{"E058", "E060", "E061"} {
					if (codes[code] > 0) != (code == want) {
						return code, fmt.Sprintf("%s reported %d times, expected only '%s'", code, codes[code], want)
					}
				}
				return "", ""
			})
		}
		for _, how := range []string{"missing", "missing-wrapped", "unreadable", "unreadable-wrapped", "no-json", "no-type"} {
			m := vNewMem()
			f := &vReadFault{m.fs(), map[string]error{}}
			switch how {
			case "missing":
			case "missing-wrapped":
				f.fail["inventory.json"] = fmt.Errorf("wrapped: %w", fs.ErrNotExist)
			case "unreadable":
				m.files["inventory.json"] = b
				f.fail["inventory.json"] = plain
			case "unreadable-wrapped":
				m.files["inventory.json"] = b
				f.fail["inventory.json"] = &fs.PathError{Op: "open", Path: "inventory.json", Err: fs.ErrPermission}
			case "no-json":
				m.files["inventory.json"] = b[:len(b)-1]
			case "no-type":
				m.files["inventory.json"] = []byte("{}")
			}
			obj := &ObjectBase{ctx: vCtx(), fsys: f, logger: vLogger(), version: Version1_1}
			v.check(vC16{Inv: how}, func() (string, string) {
				if got, err := obj.LoadInventory("."); err == nil {
					return "empty-inventory", fmt.Sprintf("no error, inventory '%v'", got.GetID())
				} else if strings.HasPrefix(how, "missing") != errors.Is(err, fs.ErrNotExist) {
					return "kind", "a missing inventory is not told from an unreadable one: " + err.Error()
				}
				return "", ""
			})
		}
	}
}

func vVerNames(inv Inventory) string {
	s := vSnap(inv)
	return vDocNames(s)
}
func vDocNames(d *vInv) string {
	n := 0
	for _, x := range d.Versions {
		n += len(x.State)
	}
	return fmt.Sprint(len(d.Versions), len(d.Manifest), n)
}
