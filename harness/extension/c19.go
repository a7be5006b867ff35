package PKG

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path"
	"sort"
	"strings"
	"testing"
)

// quiet: the checks print to stdout
func vQuiet(f func()) {
	old := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
		defer func() { os.Stdout = old; null.Close() }()
	}
	f()
}

var _ io.Reader

// mutation of an object: returns what was done and which codes may be reported
func (w *vWorld) mutate(folder string, nver int) (string, bool) {
	r := w.r
	var content, all []string
	for f := range w.m.files {
		if strings.HasPrefix(f, folder+"/") {
			all = append(all, f)
			if strings.Contains(f[len(folder):], "/content/") {
				content = append(content, f)
			}
		}
	}
	sort.Strings(content)
	sort.Strings(all)
	put := func(f, c string) string {
		w.m.files[f] = []byte(c)
		w.m.mkall(path.Dir(f))
		return "added " + f
	}
	v := fmt.Sprintf("v%d", 1+r.Intn(nver))
	other := "sha256"
	if string(w.alg) == other {
		other = "sha512"
	}
	decl := "0=ocfl_object_" + string(w.ver)
	pick := r.Intn(12)
	if len(content) == 0 && pick < 5 {
		pick = 5
	}
	switch pick {
	case 0: // content file nobody lists
		f := content[r.Intn(len(content))]
		c := string(w.m.files[f])
		if r.Intn(2) == 0 {
			c = "stray"
		}
		i := strings.LastIndex(f, "/content/")
		return put(f[:i]+"/content/"+[]string{"stray", "b/stray.txt", "a.txt.bak", ".hidden", "inventory.json"}[r.Intn(5)], c), true
	case 1:
		f := content[r.Intn(len(content))]
		delete(w.m.files, f)
		return "deleted " + f, true
	case 2: // change
		f := content[r.Intn(len(content))]
		c := string(w.m.files[f])
		n := c
		for n == c {
			switch r.Intn(4) {
			case 0:
				n = c + "x"
			case 1:
				if len(c) > 0 {
					n = c[:len(c)-1]
				}
			case 2:
				if len(c) > 0 {
					b := []byte(c)
					b[r.Intn(len(b))] ^= 1 << r.Intn(8)
					n = string(b)
				}
			case 3: // content of another file
				n = string(w.m.files[content[r.Intn(len(content))]])
				if n == c {
					n = c + " "
				}
			}
		}
		w.m.files[f] = []byte(n)
		return fmt.Sprintf("changed %s to %q", f, n), true
	case 3: // rename a content file
		f := content[r.Intn(len(content))]
		w.m.files[f+"2"] = w.m.files[f]
		delete(w.m.files, f)
		return "renamed " + f, true
	case 4: // swap two different contents
		f, g := content[r.Intn(len(content))], content[r.Intn(len(content))]
		if string(w.m.files[f]) == string(w.m.files[g]) {
			return "", false
		}
		w.m.files[f], w.m.files[g] = w.m.files[g], w.m.files[f]
		return "swapped " + f + " and " + g, true
	case 5: // stray file in the object root
		n := []string{"stray.txt", "inventory.json." + other, "inventory.json.md5", "inventoryXjson", "inventory.json~", "0=ocfl_1.0", decl + ".bak", "inventory.json." + string(w.alg) + ".old", "content", "INVENTORY.JSON", "logs.txt"}[r.Intn(11)]
		return put(folder+"/"+n, "x"), true
	case 6: // stray folder in the object root
		n := []string{"stray", "v99", "v0", "content", "Logs", "v01", "v1x"}[r.Intn(7)]
		return put(folder+"/"+n+"/f", "x"), true
	case 7: // stray file in a version folder
		n := []string{"stray.txt", "inventory.json." + other, "inventory.json.md5", "inventory-json", decl, "0=ocfl_1.0", ".keep", "content.txt"}[r.Intn(8)]
		return put(folder+"/"+v+"/"+n, "x"), true
	case 8: // a missing version folder
		for _, f := range all {
			if strings.HasPrefix(f, folder+"/"+v+"/") {
				delete(w.m.files, f)
			}
		}
		for d := range w.m.dirs {
			if d == folder+"/"+v || strings.HasPrefix(d, folder+"/"+v+"/") {
				delete(w.m.dirs, d)
			}
		}
		return "removed folder " + v, true
	case 9, 10: // an altered version inventory, with a matching sidecar
		f := folder + "/" + v + "/inventory.json"
		if r.Intn(5) == 0 {
			f = folder + "/inventory.json"
		}
		var d map[string]any
		if err := json.Unmarshal(w.m.files[f], &d); err != nil {
			return "", false
		}
		what := ""
		vs := d["versions"].(map[string]any)
		sv := fmt.Sprintf("v%d", 1+r.Intn(len(vs)))
		st := vs[sv].(map[string]any)["state"].(map[string]any)
		var ds []string
		for k := range st {
			ds = append(ds, k)
		}
		sort.Strings(ds)
		var ms []string
		man := d["manifest"].(map[string]any)
		for k := range man {
			ms = append(ms, k)
		}
		sort.Strings(ms)
		switch r.Intn(5) {
		case 0:
			what = "id"
			d["id"] = d["id"].(string) + "x"
		case 1: // a logical path less or other
			if len(ds) == 0 {
				return "", false
			}
			k := ds[r.Intn(len(ds))]
			l, _ := st[k].([]any)
			if len(l) == 0 {
				return "", false
			}
			what = "state " + sv + " rename"
			st[k] = append(append([]any{}, l[1:]...), "another/path")
		case 2: // two digests exchanged
			if len(ds) < 2 {
				return "", false
			}
			a, b := ds[0], ds[1+r.Intn(len(ds)-1)]
			if fmt.Sprint(st[a]) == fmt.Sprint(st[b]) {
				return "", false
			}
			st[a], st[b] = st[b], st[a]
			what = fmt.Sprintf("state %s exchange %v %v", sv, st[a], st[b])
		case 3: // manifest entry for a file which is not there
			if len(ms) == 0 {
				return "", false
			}
			k := ms[r.Intn(len(ms))]
			man[k] = append(append([]any{}, man[k].([]any)...), "v1/content/not/there")
			what = "manifest +"
		case 4: // manifest entry missing
			if len(ms) == 0 {
				return "", false
			}
			delete(man, ms[r.Intn(len(ms))])
			what = "manifest -"
		}
		b, err := json.Marshal(d)
		if err != nil {
			panic(err)
		}
		w.m.files[f] = b
		w.m.files[f+"."+string(w.alg)] = []byte(vHex(string(w.alg), string(b)) + " inventory.json\n")
		return f + ": " + what, true
	default: // altered or missing inventory or sidecar
		f := folder + "/" + []string{"", v + "/"}[r.Intn(2)] + "inventory.json"
		switch r.Intn(3) {
		case 0:
			w.m.files[f] = append(w.m.files[f], ' ')
			return "blank in " + f, true
		case 1:
			delete(w.m.files, f+"."+string(w.alg))
			return "removed sidecar of " + f, true
		default:
			if nver == 0 || f == folder+"/inventory.json" {
				delete(w.m.files, f)
				return "removed " + f, true
			}
			delete(w.m.files, f) // the sidecar is a stray file now
			return "removed " + f, true
		}
	}
}

func TestVerifC19(t *testing.T) {
	v := vNew(t, "objects with up to four versions of random updates, checked as written and after one or two changes (stray, missing, renamed, exchanged or altered content; stray files and folders in object root and version folders; missing version folders; altered inventories with matching sidecar; missing or altered inventories and sidecars); and objects without some version inventories")
	for v.more() {
		w, err := vNewWorld(v.rng)
		if err != nil {
			t.Fatal(err)
		}
		nver := 1 + v.rng.Intn(4)
		if err := w.createRoot(); err != nil {
			t.Fatal(err)
		}
		if _, err := w.loadRoot(); err != nil {
			t.Fatal(err)
		}
		w.root.SetDigest(w.alg)
		perm := v.rng.Perm(len(vIds))
		ob, err := w.history(vIds[perm[0]], nver)
		if err != nil {
			continue
		}
		folder := path.Dir(w.find(ob.id))
		second := v.rng.Intn(3) == 0
		if second {
			if _, err := w.history(vIds[perm[1]], 1); err != nil {
				continue
			}
		}
		mode := v.rng.Intn(3)
		var states []string
		for i, s := range ob.versions {
			states = append(states, fmt.Sprintf("v%d %s", i+1, s))
		}
		clean := w.m.clone()
		mut := v.rng.Intn(5)
		dropped := ""
		done := ""
		ok := true
		switch mut {
		case 0:
		case 1: // inventories of older versions are optional
			for i := 1; i < nver; i++ {
				if v.rng.Intn(2) == 0 {
					d := fmt.Sprintf("%s/v%d/inventory.json", folder, i)
					delete(w.m.files, d)
					delete(w.m.files, d+"."+string(w.alg))
					dropped += fmt.Sprintf("v%d ", i)
				}
			}
		case 2:
			for i := 1; i < nver; i++ {
				if v.rng.Intn(2) == 0 {
					d := fmt.Sprintf("%s/v%d/inventory.json", folder, i)
					delete(w.m.files, d)
					delete(w.m.files, d+"."+string(w.alg))
					dropped += fmt.Sprintf("v%d ", i)
				}
			}
			fallthrough
		default:
			if dropped != "" {
				// changes of an inventory which is missing are none
				for i := 0; i < 20; i++ {
					c := w.m.clone()
					done, ok = w.mutate(folder, nver)
					gone := false
					for f := range w.m.files {
						if _, had := c.files[f]; !had && strings.Contains(f, "inventory.json") {
							gone = true
						}
					}
					if ok && !gone && (vDiff(c.list(), w.m.list()) != "" || len(c.dirs) != len(w.m.dirs)) {
						break
					}
					w.m.files, w.m.dirs = c.files, c.dirs
					ok = false
				}
			} else {
				done, ok = w.mutate(folder, nver)
			}
		}
		if !ok {
			continue
		}
		if done != "" && vDiff(clean.list(), w.m.list()) == "" && len(clean.dirs) == len(w.m.dirs) {
			continue
		}
		v.check(struct {
			L, V, Alg string
			Kind      int
			Object    []string
			Change    string
			Dropped   string
			Mode      int
		}{w.layout, string(w.ver), string(w.alg), w.kind, states, done, dropped, mode}, func() (key string, msg string) {
			vQuiet(func() {
				var err error
				if _, lerr := w.loadRoot(); lerr != nil {
					key, msg = "root-load", lerr.Error()
					return
				}
				switch mode {
				case 0:
					err = w.root.CheckObjectByFolder(folder)
				case 1:
					if o, lerr := w.root.LoadObjectByFolder(folder); lerr != nil {
						err = lerr
					} else {
						err = o.Check()
					}
				case 2:
					err = w.root.Check()
				}
				codes := w.codes()
				if done == "" {
					if err != nil {
						key, msg = "clean-error", "object as written: "+err.Error()
					} else if len(codes) > 0 {
						key, msg = "clean-codes", "object as written: "+strings.Join(codes, "; ")
					}
					return
				}
				if err == nil && len(codes) == 0 {
					key, msg = "unnoticed", "not reported: "+done
				}
			})
			return
		})
	}
}
