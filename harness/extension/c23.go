package PKG

import (
	"fmt"
	"io/fs"
	"path"
	"strings"
	"testing"
	"testing/fstest"
	"time"

	"github.com/je4/gocfl/v2/pkg/ocfl"
)

// rootInv: the root inventory and its sidecar
func vRootInv(m *vMem, folder string) string {
	var r []string
	for n, b := range m.files {
		if path.Dir(n) == folder && strings.HasPrefix(path.Base(n), "inventory.json") {
			r = append(r, n+"="+string(b))
		}
	}
	if len(r) == 2 && r[0] > r[1] {
		r[0], r[1] = r[1], r[0]
	}
	return strings.Join(r, "\n")
}

func (w *vWorld) folder(id string) (string, error) {
	mgr, err := w.manager(w.layout)
	if err != nil {
		return "", err
	}
	return mgr.BuildStorageRootPath(w.root, id)
}

// a reader file system whose n-th read fails
type vC23 struct {
	Layout, Id string
	Kind       int
	N          int
	Plan       string
	Fail, Hook int
	NewVer     int
}

func TestVerifC23(t *testing.T) {
	v := vNew(t, "objects with up to two versions in six layouts and three extension sets; one further update (adding, overwriting, deleting, echo, areas, with and without duplicate check, with an extension in every hook and extensions requesting automatic versions) in which every single mutating file system operation and every single hook call fails in turn; updates without modification; unreadable sources")
	for v.more() {
		w, err := vNewWorld(v.rng)
		if err != nil {
			t.Fatal(err)
		}
		id := vIds[v.rng.Intn(2)]
		n := v.rng.Intn(3)
		var snap *vMem
		var cur vState
		var folder string
		setup := func() (string, string) {
			if err := w.createRoot(); err != nil {
				return "setup", err.Error()
			}
			folder, err = w.folder(id)
			if err != nil {
				return "setup", err.Error()
			}
			folder = path.Clean(folder)
			cur = vState{}
			if n > 0 {
				ob, err := w.history(id, n)
				if err != nil {
					return "setup", err.Error()
				}
				cur = ob.versions[n-1]
			}
			w.m.mkall(folder)
			w.m.mkall(folder + "/extensions/" + vHookName)
			if n == 0 {
				w.m = vDrop(w.m, folder)
			}
			snap = w.m.clone()
			return "", ""
		}
		v.check(vC23{Layout: w.layout, Id: id, Kind: w.kind, N: n}, setup)
		if snap == nil {
			continue
		}
		open := func(hook *vHook) (ocfl.Object, error) {
			w.hook = hook
			if _, err := w.loadRoot(); err != nil {
				return nil, err
			}
			if n > 0 {
				o, err := w.root.LoadObjectByID(id)
				if err != nil {
					return nil, err
				}
				if hook != nil {
					if err := o.GetExtensionManager().Add(hook); err != nil {
						return nil, err
					}
					o.GetExtensionManager().Finalize()
				}
				return o, nil
			}
			mgr, err := w.objManager(hook != nil)
			if err != nil {
				return nil, err
			}
			return w.root.CreateObject(id, w.ver, w.alg, w.fixity, mgr)
		}
		// an update which changes nothing writes nothing
		if n > 0 {
			w.m = snap.clone()
			v.check(vC23{Layout: w.layout, Id: id, Kind: w.kind, N: n, Plan: "same"}, func() (string, string) {
				o, err := open(nil)
				if err != nil {
					return "open", err.Error()
				}
				before := w.m.list()
				p := &vPlan{Dup: true, Echo: v.rng.Intn(2) == 0}
				src := map[string]string{}
				pre := w.logical("", "")
				for f, c := range cur {
					if strings.HasPrefix(f, pre) {
						src[strings.TrimPrefix(f, pre)] = c
					}
				}
				if len(src) == 0 {
					p.Echo = false
				}
				p.Areas, p.Src = []string{""}, []map[string]string{src}
				if err := w.run(o, cur, p); err != nil {
					return "unmodified", err.Error()
				}
				if err := o.Close(); err != nil {
					return "unmodified", err.Error()
				}
				if d := vDiff(before, w.m.list()); d != "" {
					return "unmodified", fmt.Sprintf("an update without modification (%+v) changed %s", p, d)
				}
				return "", ""
			})
		}
		var p *vPlan
		for {
			p = w.plan()
			if next := w.apply(cur, p); !vConflict(next) && !vSame(next, cur) {
				break
			}
		}
		newVer := 0
		if v.rng.Intn(4) == 0 {
			newVer = 1 + v.rng.Intn(2)
		}
		// one run of the update with the given faults
		try := func(fail, hookFail int) (hit string, key, msg string) {
			w.m = snap.clone()
			hook := &vHook{newVer: newVer}
			o, err := open(hook)
			if err != nil {
				return "", "open", err.Error()
			}
			root := vRootInv(w.m, folder)
			w.m.n, w.m.failAt, hook.n, hook.failAt = 0, fail, 0, hookFail
			hook.newVer = newVer
			done := make(chan error, 1)
			go func() {
				defer func() {
					if r := recover(); r != nil {
						done <- fmt.Errorf("PANIC: %v", r)
					}
				}()
				done <- w.run(o, cur, p)
			}()
			select {
			case err = <-done:
			case <-time.After(20 * time.Second):
				return "x", "hang", "the update did not return"
			}
			hit = w.m.hit + hook.hit
			if err != nil && strings.HasPrefix(err.Error(), "PANIC") {
				return hit, "panic", err.Error()
			}
			if hit != "" && err == nil {
				return hit, "swallowed", "no error although this failed: " + hit
			}
			if hit == "" && err != nil {
				return hit, "error", err.Error()
			}
			if vRootInv(w.m, folder) != root {
				return hit, "root-touched", "the root inventory was changed before closing the object"
			}
			if err != nil {
				return hit, "", ""
			}
			// content and version inventory are there before closing
			i := o.GetInventory()
			if w.m.files[folder+"/"+i.GetHead()+"/inventory.json"] == nil {
				return hit, "version-inventory", "no inventory in the version folder after EndUpdate"
			}
			for _, ps := range i.GetManifest() {
				for _, f := range ps {
					if w.m.files[folder+"/"+f] == nil {
						return hit, "content", "no content file " + f
					}
				}
			}
			w.m.ops = nil
			err = o.Close()
			hit = w.m.hit + hook.hit
			if hit != "" && err == nil {
				return hit, "swallowed", "no error although this failed: " + hit
			}
			if hit == "" {
				if err != nil {
					return hit, "error", err.Error()
				}
				if vRootInv(w.m, folder) == root {
					return hit, "root-kept", "the root inventory was not written"
				}
				if string(w.m.files[folder+"/inventory.json"]) != string(w.m.files[folder+"/"+i.GetHead()+"/inventory.json"]) {
					return hit, "root-differs", "root inventory and head inventory differ"
				}
				if w.m.open != 0 {
					return hit, "open", "a file was not closed"
				}
			}
			return hit, "", ""
		}
		c := vC23{Layout: w.layout, Id: id, Kind: w.kind, N: n, Plan: fmt.Sprintf("%+v", *p), NewVer: newVer}
		for fail := 0; fail < 200; fail++ {
			c.Fail, c.Hook = fail, 0
			var hit string
			v.check(c, func() (string, string) {
				h, key, msg := try(fail, 0)
				hit = h
				return key, msg
			})
			if hit == "" && fail > 0 {
				break
			}
		}
		for fail := 1; fail < 200; fail++ {
			c.Fail, c.Hook = 0, fail
			var hit string
			v.check(c, func() (string, string) {
				h, key, msg := try(0, fail)
				hit = h
				return key, msg
			})
			if hit == "" {
				break
			}
		}
		// a path which the extensions cannot map is an error, not a crash
		w.m = snap.clone()
		v.check(vC23{Layout: w.layout, Id: id, Kind: w.kind, N: n, Plan: "area"}, func() (string, string) {
			o, err := open(&vHook{})
			if err != nil {
				return "open", err.Error()
			}
			if _, err := o.StartUpdate(nil, "m", "u", "a", false); err != nil {
				return "start", err.Error()
			}
			area := ""
			if w.kind == 2 {
				area = "nowhere"
			}
			bad := &vBadFS{fstest.MapFS{"d/x": &fstest.MapFile{Data: []byte("1")}}}
			if err := o.AddFolder(bad, nil, true, ""); err == nil {
				return "unreadable-source", "no error although the source folder is unreadable"
			}
			if err := o.AddFolder(fstest.MapFS{}, nil, true, ""); err != nil {
				return "empty-source", err.Error()
			}
			if _, err := o.AddReader(vNop{strings.NewReader("abc")}, []string{"f"}, area, false, false); (err == nil) != (area == "") {
				return "reader", fmt.Sprintf("AddReader in area %q: %v", area, err)
			}
			// names which point outside of the content folder
			before := w.m.clone()
			content := folder + "/" + o.GetInventory().GetHead() + "/" + o.GetInventory().GetContentDir() + "/"
			for _, name := range []string{"../../inventory.json", "../x", "../../../inventory.json", "../inventory.json", "a/../../../inventory.json", "../../extensions/x"} {
				_, err1 := o.AddReader(vNop{strings.NewReader("abc" + name)}, []string{name}, "", true, false)
				err2 := o.AddData([]byte("def"+name), name, false, "", true, false)
				for k, b := range w.m.files {
					if strings.HasPrefix(k, content) {
						continue
					}
					if old, ok := before.files[k]; !ok || string(old) != string(b) {
						return "outside", fmt.Sprintf("adding a file as %q wrote %s (%v, %v)", name, k, err1, err2)
					}
				}
			}
			// a source that cannot be rewound
			if err := o.AddFolder(&vNoSeek{fstest.MapFS{"noseek/x": &fstest.MapFile{Data: []byte("1")}}}, nil, true, ""); err == nil {
				return "unseekable-source", "no error although the source cannot be read again"
			}
			return "", ""
		})
	}
}

// vNoSeek has files which fail to seek
type vNoSeek struct{ fstest.MapFS }
type vNoSeekFile struct{ fs.File }

func (vNoSeekFile) Seek(int64, int) (int64, error) { return 0, vErrFault }

func (f *vNoSeek) Open(name string) (fs.File, error) {
	x, err := f.MapFS.Open(name)
	if err != nil || !strings.HasSuffix(name, "/x") {
		return x, err
	}
	return vNoSeekFile{x}, nil
}

type vNop struct{ *strings.Reader }

func (vNop) Close() error { return nil }

// vBadFS cannot list the folder d
type vBadFS struct{ fstest.MapFS }

func (f *vBadFS) ReadDir(name string) ([]fs.DirEntry, error) {
	if name == "d" {
		return nil, vErrFault
	}
	return f.MapFS.ReadDir(name)
}

// vDrop removes a folder
func vDrop(m *vMem, folder string) *vMem {
	c := m.clone()
	for k := range c.files {
		if strings.HasPrefix(k, folder+"/") {
			delete(c.files, k)
		}
	}
	for k := range c.dirs {
		if k == folder || strings.HasPrefix(k, folder+"/") {
			delete(c.dirs, k)
		}
	}
	return c
}
