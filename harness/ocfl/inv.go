package PKG

import (
	"context"
	"encoding/json"
	"fmt"
	"io/fs"
	"math/rand"
	"sort"
	"strings"

	"github.com/je4/utils/v2/pkg/checksum"
	"github.com/je4/utils/v2/pkg/zLogger"
	"github.com/rs/zerolog"
)

// executable reading of the inventory properties: everything goes through the
// Inventory interface and its JSON form.

type vObj struct {
	Object
	version OCFLVersion
}

func (o *vObj) GetVersion() OCFLVersion { return o.version }
func (o *vObj) GetFS() fs.FS            { return nil }
func (o *vObj) GetID() string           { return "vobj" }

func vLogger() zLogger.ZLogger {
	l := zerolog.Nop()
	return &l
}

type vState map[string][]string
type vVersion struct {
	Created string `json:"created,omitempty"`
	Message any    `json:"message,omitempty"`
	State   vState `json:"state"`
	User    any    `json:"user,omitempty"`
}
type vInv struct {
	Id               string                                           `json:"id"`
	Type             string                                           `json:"type"`
	DigestAlgorithm  checksum.DigestAlgorithm                         `json:"digestAlgorithm"`
	Head             string                                           `json:"head"`
	ContentDirectory string                                           `json:"contentDirectory,omitempty"`
	Manifest         map[string][]string                              `json:"manifest"`
	Versions         map[string]*vVersion                             `json:"versions"`
	Fixity           map[checksum.DigestAlgorithm]map[string][]string `json:"fixity,omitempty"`
}

func vUser(name, addr string) any { return map[string]string{"name": name, "address": addr} }

// vLoad builds the real inventory from the document.
func vLoad(ctx context.Context, d *vInv, ver OCFLVersion) (Inventory, error) {
	b, err := json.Marshal(d)
	if err != nil {
		return nil, err
	}
	return vLoadBytes(ctx, b, ver)
}
func vLoadBytes(ctx context.Context, b []byte, ver OCFLVersion) (Inventory, error) {
	inv, err := newInventory(ctx, &vObj{version: ver}, "folder", ver, vLogger())
	if err != nil {
		return nil, err
	}
	if err := json.Unmarshal(b, inv); err != nil {
		return nil, err
	}
	return inv, nil
}

func vSnap(inv Inventory) *vInv {
	b, err := json.Marshal(inv)
	if err != nil {
		panic(fmt.Sprintf("inventory cannot be marshalled: %v", err))
	}
	d := &vInv{}
	if err := json.Unmarshal(b, d); err != nil {
		panic(err)
	}
	return d
}

func vCodes(ctx context.Context) map[string]int {
	st, err := GetValidationStatus(ctx)
	if err != nil {
		panic(err)
	}
	r := map[string]int{}
	for _, e := range st.Errors {
		r[string(e.Code)]++
	}
	return r
}

// canonical form of a state: sorted "path\x00digest" entries, with multiplicity
func vCanon(s map[string][]string) string {
	var xs []string
	for d, ps := range s {
		for _, p := range ps {
			xs = append(xs, fmt.Sprintf("%q@%q", p, d))
		}
	}
	sort.Strings(xs)
	return strings.Join(xs, ",")
}
func vCanonLists(s map[string][]string) string {
	var xs []string
	for d, ps := range s {
		c := append([]string{}, ps...)
		sort.Strings(c)
		xs = append(xs, fmt.Sprintf("%q:%q", d, c))
	}
	sort.Strings(xs)
	return strings.Join(xs, ",")
}
func vCanonFixity(f map[checksum.DigestAlgorithm]map[string][]string) string {
	m := map[string][]string{}
	for a, x := range f {
		for d, ps := range x {
			m[string(a)+"|"+d] = ps
		}
	}
	return vCanon(m)
}
func vMeta(v *vVersion) string { return fmt.Sprintf("%v|%v|%v", v.Created, v.Message, v.User) }
func vCopyState(s map[string][]string) map[string][]string {
	r := map[string][]string{}
	for d, ps := range s {
		r[d] = append([]string{}, ps...)
	}
	return r
}

var vPathPool = []string{"a", "b", "a/b", "data/x", "data2/x", "data/x.txt", "A", "ä/ö", "x y", "z", "datax", "data/sub/deep.txt", "b/a", "a.b", "-"}

func vDigest(r *rand.Rand, n int) string {
	const hexd = "0123456789abcdef"
	k := r.Intn(n)
	return strings.Repeat(string(hexd[k%16]), 8) + fmt.Sprintf("%02x", k)
}

func vVName(n, pad int) string {
	if pad <= 0 {
		return fmt.Sprintf("v%d", n)
	}
	return fmt.Sprintf("v0%0*d", pad, n)
}

// vRandInv makes a consistent inventory with nv versions, the last one is head.
func vRandInv(r *rand.Rand, nv, pad int, dups bool) *vInv {
	d := &vInv{Id: "info:x/" + fmt.Sprint(r.Intn(5)), Type: string(InventorySpec1_1), DigestAlgorithm: checksum.DigestSHA512, Manifest: map[string][]string{}, Versions: map[string]*vVersion{}}
	cur := map[string]string{}
	for v := 1; v <= nv; v++ {
		for k := r.Intn(5); k >= 0; k-- {
			p := vPathPool[r.Intn(len(vPathPool))]
			if r.Intn(4) == 0 {
				delete(cur, p)
			} else {
				cur[p] = vDigest(r, 6)
			}
		}
		st := vState{}
		for p, dg := range cur {
			st[dg] = append(st[dg], p)
			if _, ok := d.Manifest[dg]; !ok {
				d.Manifest[dg] = []string{vVName(v, pad) + "/content/" + p}
			}
		}
		for _, ps := range st {
			sort.Strings(ps)
			if r.Intn(2) == 0 {
				r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
			}
		}
		if dups && r.Intn(3) == 0 {
			for dg, ps := range st {
				st[dg] = append(ps, ps[r.Intn(len(ps))])
				break
			}
		}
		if r.Intn(6) == 0 {
			dg := vDigest(r, 6)
			if _, ok := st[dg]; !ok {
				st[dg] = []string{}
				d.Manifest[dg] = []string{vVName(v, pad) + "/content/empty"}
			}
		}
		d.Versions[vVName(v, pad)] = &vVersion{Created: fmt.Sprintf("2020-01-%02dT10:00:00Z", v), Message: fmt.Sprintf("m%d", v), State: st, User: vUser("n", "mailto:a@b")}
		d.Head = vVName(v, pad)
	}
	if r.Intn(2) == 0 {
		d.Fixity = map[checksum.DigestAlgorithm]map[string][]string{checksum.DigestMD5: {}}
		for _, ps := range d.Manifest {
			for _, p := range ps {
				if r.Intn(2) == 0 {
					k := vDigest(r, 8)
					d.Fixity[checksum.DigestMD5][k] = append(d.Fixity[checksum.DigestMD5][k], p)
				}
			}
		}
	}
	return d
}

// vSame compares everything of two snapshots except the parts named.
func vSame(a, b *vInv, exceptState string, exceptManifest, exceptFixity bool) string {
	if a.Id != b.Id || a.Type != b.Type || a.DigestAlgorithm != b.DigestAlgorithm || a.ContentDirectory != b.ContentDirectory {
		return "header changed"
	}
	if !exceptManifest && vCanonLists(a.Manifest) != vCanonLists(b.Manifest) {
		return fmt.Sprintf("manifest changed: %v -> %v", a.Manifest, b.Manifest)
	}
	if !exceptFixity && vCanonFixity(a.Fixity) != vCanonFixity(b.Fixity) {
		return fmt.Sprintf("fixity changed: %v -> %v", a.Fixity, b.Fixity)
	}
	for v, x := range a.Versions {
		y := b.Versions[v]
		if y == nil {
			if v == exceptState {
				continue
			}
			return "version " + v + " disappeared"
		}
		if vMeta(x) != vMeta(y) {
			return fmt.Sprintf("metadata of %s changed: %s -> %s", v, vMeta(x), vMeta(y))
		}
		if v != exceptState && vCanonLists(x.State) != vCanonLists(y.State) {
			return fmt.Sprintf("state of %s changed: %v -> %v", v, x.State, y.State)
		}
	}
	for v := range b.Versions {
		if a.Versions[v] == nil && v != exceptState {
			return "version " + v + " appeared"
		}
	}
	return ""
}

func vCtx() context.Context { return NewContextValidation(context.Background()) }

func vDocString(d *vInv) string {
	b, _ := json.Marshal(d)
	return string(b)
}
