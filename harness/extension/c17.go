package PKG

import (
	"encoding/json"
	"fmt"
	"path"
	"regexp"
	"strings"
	"testing"

)

// expected files of one object: nil and true means an error is expected
func (w *vWorld) expectExtract(s vState, area string) (map[string]string, bool) {
	if w.kind != 2 || area == "full" {
		return s.clone(), false
	}
	if area == "" {
		area = "content"
	}
	p, ok := w.paths[area]
	if !ok {
		return nil, true
	}
	r := map[string]string{}
	for f, c := range s {
		if strings.HasPrefix(f, p+"/") {
			r[f[len(p)+1:]] = c
		}
	}
	return r, false
}

func (ob *vObject) at(version string) (vState, bool) {
	if version == "" || version == "latest" {
		return ob.versions[len(ob.versions)-1], true
	}
	for i, s := range ob.versions {
		if version == fmt.Sprintf("v%d", i+1) {
			return s, true
		}
	}
	return nil, false
}

func TestVerifC17(t *testing.T) {
	v := vNew(t, "one to three objects with up to three versions in a storage root, extracted by object, by id, by folder or all at once: every version argument, area (also unknown ones), with and without manifest, digests in upper case, changed, truncated or missing content files, and every failing operation on the target")
	for v.more() {
		w, err := vNewWorld(v.rng)
		if err != nil {
			t.Fatal(err)
		}
		if v.rng.Intn(2) == 0 {
			w.kind = 2
		}
		nobj := 1 + v.rng.Intn(3)
		nver := 1 + v.rng.Intn(3)
		version := []string{"", "latest", "v1", "v2", "v3", "v4", "1", "v01", "V1", "head"}[v.rng.Intn(10)]
		area := []string{"", "full", "content", "metadata", "other", "nope"}[v.rng.Intn(6)]
		manifest := v.rng.Intn(2) == 0
		mode := v.rng.Intn(4)
		corrupt := 0
		if v.rng.Intn(3) == 0 {
			corrupt = 1 + v.rng.Intn(3)
		}
		upper := v.rng.Intn(6) == 0
		fault := 0
		if v.rng.Intn(3) == 0 {
			fault = 1 + v.rng.Intn(12)
		}
		var objs []*vObject
		var perr string
		if err := w.createRoot(); err != nil {
			t.Fatal(err)
		}
		if _, err := w.loadRoot(); err != nil {
			t.Fatal(err)
		}
		w.root.SetDigest(w.alg)
		folder := map[string]string{}
		perm := v.rng.Perm(len(vIds))
		for i := 0; i < nobj; i++ {
			id := vIds[perm[i]]
			o, err := w.history(id, nver)
			if err != nil {
				perr = fmt.Sprint(id, err)
				continue
			}
			objs = append(objs, o)
			folder[id] = path.Dir(w.find(id))
		}
		if len(objs) == 0 {
			_ = perr
			continue
		}
		var states []string
		for _, o := range objs {
			for i, s := range o.versions {
				states = append(states, fmt.Sprintf("%s v%d %s", o.id, i+1, s))
			}
		}
		sel := objs[v.rng.Intn(len(objs))]
		v.check(struct {
			L                       string
			Kind                    int
			Objects                 []string
			Selected, Version, Area string
			Manifest                bool
			Mode, Corrupt           int
			Upper                   bool
			Fault                   int
		}{w.layout, w.kind, states, sel.id, version, area, manifest, mode, corrupt, upper, fault}, func() (string, string) {
			if upper {
				for _, o := range objs {
					if err := w.upper(folder[o.id]); err != nil {
						return "upper", err.Error()
					}
				}
			}
			bad := "" // content which is not intact any more
			if corrupt > 0 {
				s, _ := sel.at([]string{"", "v1"}[v.rng.Intn(2)])
				var names []string
				for f := range s {
					names = append(names, f)
				}
				if len(names) == 0 {
					return "", ""
				}
				bad = s[names[v.rng.Intn(len(names))]]
				if corrupt == 2 && bad == "" {
					corrupt = 1
				}
				for f, c := range w.m.files {
					if strings.HasPrefix(f, folder[sel.id]+"/") && strings.Contains(f, "/content/") && string(c) == bad {
						switch corrupt {
						case 1:
							w.m.files[f] = append(append([]byte{}, c...), 'x')
						case 2:
							w.m.files[f] = c[:len(c)-1]
						case 3:
							delete(w.m.files, f)
						}
					}
				}
			}
			w.loadRoot()
			target := vNewMem()
			target.failAt = fault
			var parts []*vObject
			var err error
			base := map[string]string{}
			switch mode {
			case 0:
				o, lerr := w.root.LoadObjectByID(sel.id)
				if lerr != nil {
					return "load", lerr.Error()
				}
				parts, err = []*vObject{sel}, o.Extract(target.fs(), version, manifest, area)
			case 1:
				parts, err = []*vObject{sel}, w.root.Extract(target.fs(), "", sel.id, version, manifest, area)
			case 2:
				parts, err = []*vObject{sel}, w.root.Extract(target.fs(), folder[sel.id], "", version, manifest, area)
			case 3:
				for _, o := range objs {
					target.mkall(folder[o.id])
					base[o.id] = folder[o.id]
				}
				target.n = 0
				parts, err = objs, w.root.Extract(target.fs(), "", "", version, manifest, area)
			}
			want := map[string]string{}
			mustFail, mayFail := "", false
			manifests := map[string]bool{}
			for _, o := range parts {
				s, ok := o.at(version)
				if !ok {
					mustFail = "unknown version"
					continue
				}
				f, bad2 := w.expectExtract(s, area)
				if bad2 {
					if len(s) > 0 {
						mustFail = "unknown area"
					} else {
						mayFail = true
					}
					continue
				}
				for n, c := range f {
					if corrupt > 0 && o == sel && c == bad {
						mustFail = "content file " + n
					}
					want[path.Join(base[o.id], n)] = c
				}
				manifests[path.Join(base[o.id], "manifest."+string(w.alg))] = manifest
			}
			if target.hit != "" {
				mustFail = "failing " + target.hit
			}
			if mustFail != "" || mayFail {
				if err == nil && mustFail != "" {
					return "no-error", fmt.Sprintf("extraction did not report: %s", mustFail)
				}
				return "", ""
			}
			if err != nil {
				return "error", fmt.Sprintf("extraction failed: %v", err)
			}
			if target.open != 0 {
				return "open", "a file was not closed"
			}
			got := target.list()
			for name, on := range manifests {
				m, ok := got[name]
				if ok != on {
					return "manifest", fmt.Sprintf("manifest %s: %v", name, ok)
				}
				if !on {
					continue
				}
				delete(got, name)
				lines := map[string]string{}
				n := 0
				for _, l := range strings.Split(m, "\n") {
					if l == "" {
						continue
					}
					n++
					d, f, _ := strings.Cut(l, " ")
					lines[path.Join(path.Dir(name), strings.TrimPrefix(strings.TrimPrefix(f, " "), "*"))] = strings.ToLower(d)
				}
				k := 0
				for f, c := range want {
					if len(parts) > 1 && !strings.HasPrefix(f, path.Dir(name)+"/") {
						continue
					}
					k++
					if lines[f] != vHex(string(w.alg), c) {
						return "manifest", fmt.Sprintf("%s has %q for %s", name, lines[f], f)
					}
				}
				if k != n {
					return "manifest", fmt.Sprintf("%s has %d lines for %d files", name, n, k)
				}
			}
			if d := vDiff(want, got); d != "" {
				return "files", "extracted files differ from the version: " + d
			}
			return "", ""
		})
	}
}

// find: the root inventory of an object
func (w *vWorld) find(id string) string {
	for f, b := range w.m.files {
		if path.Base(f) == "inventory.json" && !regexp.MustCompile(`/v[0-9]+/inventory.json$`).MatchString(f) {
			var d struct{ Id string }
			if json.Unmarshal(b, &d) == nil && d.Id == id {
				return f
			}
		}
	}
	return ""
}

// upper rewrites the digests of an object's inventories in upper case
func (w *vWorld) upper(folder string) error {
	for f := range w.m.files {
		if !strings.HasPrefix(f, folder+"/") || path.Base(f) != "inventory.json" {
			continue
		}
		var d map[string]any
		if err := json.Unmarshal(w.m.files[f], &d); err != nil {
			return err
		}
		up := func(k any) any {
			r := map[string]any{}
			for a, b := range k.(map[string]any) {
				r[strings.ToUpper(a)] = b
			}
			return r
		}
		d["manifest"] = up(d["manifest"])
		for _, x := range d["versions"].(map[string]any) {
			x := x.(map[string]any)
			x["state"] = up(x["state"])
		}
		b, err := json.Marshal(d)
		if err != nil {
			return err
		}
		w.m.files[f] = b
		w.m.files[f+"."+string(w.alg)] = []byte(vHex(string(w.alg), string(b)) + " inventory.json\n")
	}
	return nil
}

