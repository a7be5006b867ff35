package PKG

import (
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strings"
	"testing"

	"github.com/je4/gocfl/v2/pkg/ocfl"
	"github.com/rs/zerolog"
)

func vDiff(a, b map[string]string) string {
	var r []string
	for k, v := range b {
		if w, ok := a[k]; !ok {
			r = append(r, "+"+k)
		} else if v != w {
			r = append(r, "~"+k)
		}
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			r = append(r, "-"+k)
		}
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

func TestVerifC20(t *testing.T) {
	v := vNew(t, "storage roots with six layouts and two versions, created in empty and non-empty folders; sequences of up to four object creations with existing and new ids, at places which hold files already; reload of root and objects, existence and listing after every step; every failing operation of a creation")
	l := zerolog.Nop()
	for v.more() {
		w, err := vNewWorld(v.rng)
		if err != nil {
			t.Fatal(err)
		}
		stray := v.rng.Intn(4) == 0
		if stray {
			switch v.rng.Intn(7) {
			case 3:
				w.m.files[".hidden"] = []byte("1")
			case 4:
				w.m.mkall("extensions")
			case 5:
				w.m.files["ocfl_layout.json"] = []byte("{}")
			case 6:
				w.m.files["extensions/initial/config.json"] = []byte("{}")
				w.m.mkall("extensions/initial")
			case 0:
				w.m.files["x"] = []byte("1")
			case 1:
				w.m.mkall("somedir")
			case 2:
				w.m.files["0=ocfl_1.0"] = []byte("ocfl_1.0\n")
			}
		}
		n := 1 + v.rng.Intn(4)
		var ids []string
		for i := 0; i < n; i++ {
			ids = append(ids, vIds[v.rng.Intn(len(vIds))])
		}
		v.check(struct {
			L, V  string
			Kind  int
			Ids   []string
			Stray bool
			Style int
		}{w.layout, string(w.ver), w.kind, ids, stray, w.m.style}, func() (string, string) {
			before := w.m.list()
			err := w.createRoot()
			if stray {
				if d := vDiff(before, w.m.list()); err == nil || d != "" {
					return "root-nonempty", fmt.Sprintf("storage root created in a non-empty folder: %v, %s", err, d)
				}
				return "", ""
			}
			if err != nil {
				return "root-create", err.Error()
			}
			if c := string(w.m.files["0=ocfl_"+string(w.ver)]); c != "ocfl_"+string(w.ver)+"\n" {
				return "root-declaration", fmt.Sprintf("%q", c)
			}
			for f := range w.m.files {
				if strings.HasPrefix(f, "0=") && f != "0=ocfl_"+string(w.ver) {
					return "root-declaration", f
				}
			}
			if w.m.open != 0 {
				return "open", "a file was not closed"
			}
			if _, err := w.loadRoot(); err != nil {
				return "root-load", err.Error()
			}
			if w.root.GetVersion() != w.ver {
				return "root-version", string(w.root.GetVersion())
			}
			if c := w.codes(); len(c) > 0 {
				return "root-codes", strings.Join(c, "; ")
			}
			w.root.SetDigest(w.alg)
			folder := map[string]string{} // id -> folder
			mgr, err := w.manager(w.layout)
			if err != nil {
				return "manager", err.Error()
			}
			for _, id := range vIds {
				f, err := mgr.BuildStorageRootPath(w.root, id)
				if err == nil && fs.ValidPath(f) {
					folder[id] = path.Clean(f)
				}
			}
			created := map[string]string{} // folder -> id
			for step, id := range ids {
				f, ok := folder[id]
				if !ok {
					continue
				}
				occupied := false
				if step > 0 && v.rng.Intn(4) == 0 && created[f] == "" {
					occupied = true
					switch v.rng.Intn(6) {
					case 3:
						w.m.files[f+"/.keep"] = nil
						w.m.mkall(f)
					case 4:
						w.m.mkall(f + "/extensions")
					case 5:
						w.m.files[f+"/inventory.json"] = []byte("{}")
						w.m.mkall(f)
					case 0:
						w.m.files[f+"/stray"] = []byte("s")
						w.m.mkall(f)
					case 1:
						w.m.mkall(f + "/sub")
					case 2:
						w.m.files[f+"/0=ocfl_object_1.0"] = []byte("ocfl_object_1.0\n")
						w.m.mkall(f)
					}
				}
				had, err := w.root.ObjectExists(id)
				if err != nil {
					return "exists", err.Error()
				}
				if want := created[f] != "" || occupied; had != want {
					return "exists", fmt.Sprintf("ObjectExists(%q) = %v before creation", id, had)
				}
				before := w.m.list()
				if v.rng.Intn(2) == 0 {
					if _, err := w.loadRoot(); err != nil {
						return "root-load", err.Error()
					}
				}
				om, err := w.objManager(false)
				if err != nil {
					return "manager", err.Error()
				}
				_, isNew := created[f]
				isNew = !isNew
				if !isNew || occupied {
					_, err := w.root.CreateObject(id, w.ver, w.alg, w.fixity, om)
					if d := vDiff(before, w.m.list()); err == nil || d != "" {
						return "object-nonempty", fmt.Sprintf("object %q created in a non-empty place: %v, %s", id, err, d)
					}
					if occupied {
						for k := range w.m.files {
							if k == f || strings.HasPrefix(k, f+"/") {
								delete(w.m.files, k)
							}
						}
						for k := range w.m.dirs {
							if strings.HasPrefix(k, f+"/") || k == f {
								delete(w.m.dirs, k)
							}
						}
					}
					continue
				}
				if _, err := w.history(id, 1); err != nil {
					return "object-create", err.Error()
				}
				created[f] = id
				decl := 0
				for k := range w.m.files {
					if strings.HasPrefix(k, f+"/0=") {
						decl++
					}
				}
				if c := string(w.m.files[f+"/0=ocfl_object_"+string(w.ver)]); c != "ocfl_object_"+string(w.ver)+"\n" || decl != 1 {
					return "object-declaration", fmt.Sprintf("%q", c)
				}
				for _, x := range vIds {
					if _, ok := folder[x]; !ok {
						continue
					}
					ex, err := w.root.ObjectExists(x)
					if err != nil {
						return "exists", fmt.Sprintf("%q: %v", x, err)
					}
					if _, want := created[folder[x]]; ex != want {
						return "exists", fmt.Sprintf("ObjectExists(%q) = %v after creating %v", x, ex, created)
					}
				}
				if _, err := w.loadRoot(); err != nil {
					return "root-load", err.Error()
				}
				o, err := w.root.LoadObjectByID(id)
				if err != nil {
					return "object-load", err.Error()
				}
				if o.GetID() != id {
					return "object-id", fmt.Sprintf("%q loaded as %q", id, o.GetID())
				}
				if string(o.GetVersion()) != string(w.ver) {
					return "object-version", string(o.GetVersion())
				}
				got, err := w.root.GetObjectFolders()
				if err != nil {
					return "folders", err.Error()
				}
				var want []string
				for f := range created {
					want = append(want, f)
				}
				sort.Strings(want)
				sort.Strings(got)
				if strings.Join(got, "\n") != strings.Join(want, "\n") {
					return "folders", fmt.Sprintf("object folders %q, want %q", got, want)
				}
			}
			return "", ""
		})
		if stray {
			continue
		}
		// every failing operation of a creation is reported
		m0 := vNewMem()
		m0.style = w.m.style
		for fail := 1; fail < 60; fail++ {
			w.m = m0.clone()
			w.m.failAt = fail
			w.ctx = ocfl.NewContextValidation(w.ctx)
			hit := ""
			v.check(struct {
				L    string
				Fail int
			}{w.layout, fail}, func() (string, string) {
				mgr, err := w.manager(w.layout)
				if err != nil {
					return "manager", err.Error()
				}
				defer func() {
					if r := recover(); r != nil {
						hit = w.m.hit
						if e, ok := r.(error); !ok || hit == "" || !strings.HasPrefix(hit, "mkdir extensions/") {
							panic(r)
						} else {
							_ = e
						}
					}
				}()
				_, err = ocfl.CreateStorageRoot(w.ctx, w.m.fs(), w.ver, w.fac, mgr, w.alg, &l)
				hit = w.m.hit
				if hit != "" && err == nil {
					return "root-fault", "no error although this failed: " + hit
				}
				return "", ""
			})
			if hit == "" {
				break
			}
		}
		// a folder that cannot be read is not taken for an empty one
		w.m = vNewMem()
		v.check("unreadable", func() (string, string) {
			if err := w.createRoot(); err != nil {
				return "root-create", err.Error()
			}
			om, err := w.objManager(false)
			if err != nil {
				return "manager", err.Error()
			}
			bad := &vNoDir{vMemFS: w.m.fs()}
			l := zerolog.Nop()
			mgr, err := w.manager(w.layout)
			if err != nil {
				return "manager", err.Error()
			}
			before := w.m.list()
			if _, err := ocfl.CreateStorageRoot(w.ctx, bad, w.ver, w.fac, mgr, w.alg, &l); err == nil {
				return "root-unreadable", "storage root created in an unreadable folder"
			}
			if d := vDiff(before, w.m.list()); d != "" {
				return "root-unreadable", d
			}
			_ = om
			return "", ""
		})
	}
}

// vNoDir cannot list directories.
type vNoDir struct{ *vMemFS }

func (f *vNoDir) ReadDir(string) ([]fs.DirEntry, error) { return nil, fs.ErrPermission }
