package PKG

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"strings"
	"testing"

	"github.com/je4/gocfl/v2/pkg/ocfl"
	"github.com/je4/utils/v2/pkg/checksum"
)

// vBase is a recording extension; the hooks are added by embedding.
type vBase struct {
	name string
	log  *[]string
	fail map[string]bool
	fsys fs.FS
}

func (e *vBase) rec(hook string, args ...any) error {
	*e.log = append(*e.log, fmt.Sprintf("%s %s%q", e.name, hook, fmt.Sprint(args...)))
	if e.fail[hook] {
		return fmt.Errorf("err-%s-%s", e.name, hook)
	}
	return nil
}
func (e *vBase) GetName() string                  { return e.name }
func (e *vBase) SetFS(f fs.FS, create bool)       { e.fsys = f }
func (e *vBase) GetFS() fs.FS                     { return e.fsys }
func (e *vBase) SetParams(map[string]string) error { return e.rec("SetParams") }
func (e *vBase) WriteConfig() error               { return e.rec("WriteConfig") }
func (e *vBase) GetConfig() any                   { return e.name }
func (e *vBase) IsRegistered() bool               { return true }
func (e *vBase) Terminate() error                 { return e.rec("Terminate") }

type vRootPath struct{ *vBase }

func (e *vRootPath) WriteLayout(fs.FS) error { return e.rec("WriteLayout") }
func (e *vRootPath) BuildStorageRootPath(s ocfl.StorageRoot, id string) (string, error) {
	return e.name + "(" + id + ")", e.rec("BuildStorageRootPath", id)
}

type vPaths struct{ *vBase }

func (e *vPaths) BuildObjectManifestPath(o ocfl.Object, p, a string) (string, error) {
	return e.name + "(" + p + ")", e.rec("BuildObjectManifestPath", p, a)
}
func (e *vPaths) BuildObjectExtractPath(o ocfl.Object, p, a string) (string, error) {
	return e.name + "(" + p + ")", e.rec("BuildObjectExtractPath", p, a)
}
func (e *vPaths) BuildObjectStatePath(o ocfl.Object, p, a string) (string, error) {
	return e.name + "(" + p + ")", e.rec("BuildObjectStatePath", p, a)
}

type vChange struct{ *vBase }

func (e *vChange) AddFileBefore(o ocfl.Object, f fs.FS, s, d, a string, dir bool) error {
	return e.rec("AddFileBefore", s, d, a, dir)
}
func (e *vChange) UpdateFileBefore(o ocfl.Object, f fs.FS, s, d, a string, dir bool) error {
	return e.rec("UpdateFileBefore", s, d, a, dir)
}
func (e *vChange) DeleteFileBefore(o ocfl.Object, d, a string) error {
	return e.rec("DeleteFileBefore", d, a)
}
func (e *vChange) AddFileAfter(o ocfl.Object, f fs.FS, s []string, i, d, a string, dir bool) error {
	return e.rec("AddFileAfter", s, i, d, a, dir)
}
func (e *vChange) UpdateFileAfter(o ocfl.Object, f fs.FS, s, d, a string, dir bool) error {
	return e.rec("UpdateFileAfter", s, d, a, dir)
}
func (e *vChange) DeleteFileAfter(o ocfl.Object, d, a string) error {
	return e.rec("DeleteFileAfter", d, a)
}

type vObjChange struct{ *vBase }

func (e *vObjChange) UpdateObjectBefore(o ocfl.Object) error { return e.rec("UpdateObjectBefore") }
func (e *vObjChange) UpdateObjectAfter(o ocfl.Object) error  { return e.rec("UpdateObjectAfter") }

type vMisc struct{ *vBase }

func (e *vMisc) GetFixityDigests() []checksum.DigestAlgorithm {
	_ = e.rec("GetFixityDigests")
	return []checksum.DigestAlgorithm{checksum.DigestAlgorithm("alg-" + e.name), "md5"}
}
func (e *vMisc) GetMetadata(o ocfl.Object) (map[string]any, error) {
	return map[string]any{"": e.name, "k": e.name}, e.rec("GetMetadata")
}
func (e *vMisc) GetAreaPath(o ocfl.Object, a string) (string, error) {
	if a == "a"+e.name {
		return "path-" + e.name, e.rec("GetAreaPath", a)
	}
	return "", e.rec("GetAreaPath", a)
}
func (e *vMisc) StreamObject(o ocfl.Object, r io.Reader, s []string, d string) error {
	b, err := io.ReadAll(r)
	if err != nil {
		return err
	}
	if string(b) != "stream data" {
		return fmt.Errorf("wrong data %q", b)
	}
	return nil
}
func (e *vMisc) NeedNewVersion(o ocfl.Object) (bool, error) {
	return e.fail["need"], e.rec("NeedNewVersion")
}
func (e *vMisc) DoNewVersion(o ocfl.Object) error { return e.rec("DoNewVersion") }

type vAll struct {
	*vBase
	vRootPathI
	vPathsI
	vChangeI
	vObjChangeI
	vMiscI
}
type vRootPathI = interface {
	WriteLayout(fs.FS) error
	BuildStorageRootPath(s ocfl.StorageRoot, id string) (string, error)
}
type vPathsI = interface {
	BuildObjectManifestPath(o ocfl.Object, p, a string) (string, error)
	BuildObjectExtractPath(o ocfl.Object, p, a string) (string, error)
	BuildObjectStatePath(o ocfl.Object, p, a string) (string, error)
}
type vChangeI = interface {
	AddFileBefore(o ocfl.Object, f fs.FS, s, d, a string, dir bool) error
	UpdateFileBefore(o ocfl.Object, f fs.FS, s, d, a string, dir bool) error
	DeleteFileBefore(o ocfl.Object, d, a string) error
	AddFileAfter(o ocfl.Object, f fs.FS, s []string, i, d, a string, dir bool) error
	UpdateFileAfter(o ocfl.Object, f fs.FS, s, d, a string, dir bool) error
	DeleteFileAfter(o ocfl.Object, d, a string) error
}
type vObjChangeI = interface {
	UpdateObjectBefore(o ocfl.Object) error
	UpdateObjectAfter(o ocfl.Object) error
}
type vMiscI = interface {
	GetFixityDigests() []checksum.DigestAlgorithm
	GetMetadata(o ocfl.Object) (map[string]any, error)
	GetAreaPath(o ocfl.Object, a string) (string, error)
	StreamObject(o ocfl.Object, r io.Reader, s []string, d string) error
	NeedNewVersion(o ocfl.Object) (bool, error)
	DoNewVersion(o ocfl.Object) error
}

var vHooks = []string{ocfl.ExtensionStorageRootPathName, ocfl.ExtensionObjectContentPathName, ocfl.ExtensionObjectExtractPathName, ocfl.ExtensionObjectExternalPathName, ocfl.ExtensionContentChangeName, ocfl.ExtensionObjectChangeName, ocfl.ExtensionFixityDigestName, ocfl.ExtensionMetadataName, ocfl.ExtensionAreaName, ocfl.ExtensionNewVersionName}

func TestVerifC14(t *testing.T) {
	v := vNew(t, "2-16 recording extensions providing all or some hooks, random disjoint exclusion groups and sort orders per hook, random failing hooks; order, exactly-once delivery, arguments, path composition and error reporting of every dispatcher")
	for v.more() {
		r := v.rng
		n := 2 + r.Intn(5)
		if r.Intn(5) == 0 {
			n = 12 + r.Intn(5)
		}
		var log []string
		cfg := &ocfl.ExtensionManagerConfig{ExtensionConfig: vCfg(GOCFLExtensionManagerName), Sort: map[string][]string{}, Exclusion: map[string][][]string{}}
		var names []string
		for i := 0; i < n; i++ {
			names = append(names, fmt.Sprintf("e%02d", i))
		}
		names = append(names, "absent1", "absent2")
		for _, h := range vHooks {
			p := r.Perm(len(names))
			if r.Intn(2) == 0 {
				for _, i := range p[:r.Intn(len(p))] {
					cfg.Sort[h] = append(cfg.Sort[h], names[i])
				}
			}
			if r.Intn(2) == 0 {
				q := r.Perm(len(names))
				for k := r.Intn(3); k > 0 && len(q) > 0; k-- {
					g := 1 + r.Intn(min(4, len(q)))
					var grp []string
					for _, i := range q[:g] {
						grp = append(grp, names[i])
					}
					q = q[g:]
					cfg.Exclusion[h] = append(cfg.Exclusion[h], grp)
				}
			}
		}
		kinds := make([]int, n)
		fails := make([]map[string]bool, n)
		for i := range kinds {
			kinds[i] = r.Intn(8)
			fails[i] = map[string]bool{}
			if r.Intn(4) == 0 {
				for _, h := range []string{"SetParams", "WriteConfig", "Terminate", "WriteLayout", "BuildStorageRootPath", "BuildObjectManifestPath", "BuildObjectExtractPath", "BuildObjectStatePath", "AddFileBefore", "UpdateFileBefore", "DeleteFileBefore", "AddFileAfter", "UpdateFileAfter", "DeleteFileAfter", "UpdateObjectBefore", "UpdateObjectAfter", "GetMetadata", "GetAreaPath", "NeedNewVersion", "DoNewVersion", "need"} {
					fails[i][h] = r.Intn(4) == 0
				}
			}
		}
		v.check([]any{kinds, cfg.Sort, cfg.Exclusion, fmt.Sprint(fails)}, func() (string, string) {
			m, err := NewGOCFLExtensionManager(cfg)
			if err != nil {
				return "create", err.Error()
			}
			provides := map[string][]string{}
			var order []string
			bases := map[string]*vBase{}
			for _, i := range r.Perm(n) {
				b := &vBase{name: names[i], log: &log, fail: fails[i]}
				bases[b.name] = b
				order = append(order, b.name)
				var e ocfl.Extension
				var hooks []string
				switch kinds[i] {
				case 0:
					e, hooks = &vRootPath{b}, vHooks[:1]
				case 1:
					e, hooks = &vPaths{b}, vHooks[1:4]
				case 2:
					e, hooks = &vChange{b}, vHooks[4:5]
				case 3:
					e, hooks = &vObjChange{b}, vHooks[5:6]
				case 4:
					e, hooks = &vMisc{b}, vHooks[6:]
				default:
					e, hooks = &vAll{b, &vRootPath{b}, &vPaths{b}, &vChange{b}, &vObjChange{b}, &vMisc{b}}, vHooks
				}
				if err := m.Add(e); err != nil {
					return "add", err.Error()
				}
				for _, h := range hooks {
					provides[h] = append(provides[h], b.name)
				}
			}
			m.Finalize()
			var exts []string
			for _, e := range m.GetExtensions() {
				exts = append(exts, e.GetName())
			}
			if strings.Join(exts, " ") != strings.Join(order, " ") {
				return "extensions", fmt.Sprintf("%v instead of %v", exts, order)
			}
			index := func(l []string, s string) int {
				for i, x := range l {
					if x == s {
						return i
					}
				}
				return -1
			}
			// run a dispatcher, look at who was called with what
			var bad string
			failing := func(names []string, hook string) []string {
				var f []string
				for _, x := range names {
					if bases[x].fail[hook] {
						f = append(f, "err-"+x+"-"+hook)
					}
				}
				return f
			}
			called := func(hook string) (names, args []string) {
				for _, l := range log {
					f := strings.SplitN(l, " ", 2)
					if strings.HasPrefix(f[1], hook+"\"") {
						names = append(names, f[0])
						args = append(args, f[1][len(hook):])
					} else {
						bad = "unexpected call " + l + " in " + hook
					}
				}
				return
			}
			checkList := func(group, hook string, names []string, stopped bool) {
				want := map[string]bool{}
				for _, x := range provides[group] {
					want[x] = true
				}
				for _, g := range cfg.Exclusion[group] {
					found := false
					for _, x := range g {
						if want[x] {
							if found {
								delete(want, x)
							}
							found = true
						}
					}
				}
				seen := map[string]bool{}
				for _, x := range names {
					if seen[x] {
						bad = hook + " reached " + x + " twice"
					}
					seen[x] = true
					if !want[x] {
						bad = hook + " reached " + x + " which does not provide it or is excluded"
					}
				}
				if !stopped && len(seen) != len(want) {
					bad = fmt.Sprintf("%s reached %v, expected %v", hook, names, want)
				}
				var inOrder []string
				for _, x := range names {
					if index(cfg.Sort[group], x) >= 0 {
						inOrder = append(inOrder, x)
					}
				}
				for i := 1; i < len(inOrder); i++ {
					if index(cfg.Sort[group], inOrder[i-1]) > index(cfg.Sort[group], inOrder[i]) {
						bad = fmt.Sprintf("%s ran in order %v, configured %v", hook, names, cfg.Sort[group])
					}
				}
			}
			checkErr := func(hook string, names []string, err error) {
				f := failing(names, hook)
				if (err != nil) != (len(f) > 0) {
					bad = fmt.Sprintf("%s: failing %v, reported %v", hook, f, err)
				}
				if err != nil {
					all := err.Error()
					for _, e := range vFlatten(err) {
						all += "\n" + e.Error()
					}
					for _, x := range f {
						if !strings.Contains(all, x) {
							bad = fmt.Sprintf("%s: %s is missing in %v", hook, x, all)
						}
					}
				}
			}
			notify := func(group, hook, args string, f func() error) {
				log = nil
				err := f()
				names, as := called(hook)
				checkList(group, hook, names, false)
				checkErr(hook, names, err)
				for _, a := range as {
					if a != args {
						bad = fmt.Sprintf("%s got %s instead of %s", hook, a, args)
					}
				}
			}
			q := func(a ...any) string { return fmt.Sprintf("%q", fmt.Sprint(a...)) }
			cc := ocfl.ExtensionContentChangeName
			notify(cc, "AddFileBefore", q("s", "d", "a", true), func() error { return m.AddFileBefore(nil, nil, "s", "d", "a", true) })
			notify(cc, "UpdateFileBefore", q("s", "d", "a", false), func() error { return m.UpdateFileBefore(nil, nil, "s", "d", "a", false) })
			notify(cc, "DeleteFileBefore", q("d", "a"), func() error { return m.DeleteFileBefore(nil, "d", "a") })
			notify(cc, "AddFileAfter", q([]string{"s", "t"}, "i", "d", "a", true), func() error { return m.AddFileAfter(nil, nil, []string{"s", "t"}, "i", "d", "a", true) })
			notify(cc, "UpdateFileAfter", q("s", "d", "a", true), func() error { return m.UpdateFileAfter(nil, nil, "s", "d", "a", true) })
			notify(cc, "DeleteFileAfter", q("d", "a"), func() error { return m.DeleteFileAfter(nil, "d", "a") })
			notify(ocfl.ExtensionObjectChangeName, "UpdateObjectBefore", q(), func() error { return m.UpdateObjectBefore(nil) })
			notify(ocfl.ExtensionObjectChangeName, "UpdateObjectAfter", q(), func() error { return m.UpdateObjectAfter(nil) })
			if bad != "" {
				return "notify", bad
			}
			// path mappings: composed left to right, failing ones skipped and reported
			pathHook := func(group, hook string, stop bool, f func(string) (string, error)) {
				log = nil
				got, err := f("x")
				names, _ := called(hook)
				checkList(group, hook, names, stop && err != nil)
				checkErr(hook, names, err)
				want := "x"
				for _, x := range names {
					if !bases[x].fail[hook] {
						want = x + "(" + want + ")"
					}
				}
				if stop && err != nil {
					return
				}
				if got != want {
					bad = fmt.Sprintf("%s gave %s instead of %s", hook, got, want)
				}
			}
			pathHook(ocfl.ExtensionStorageRootPathName, "BuildStorageRootPath", false, func(s string) (string, error) { return m.BuildStorageRootPath(nil, s) })
			pathHook(ocfl.ExtensionObjectContentPathName, "BuildObjectManifestPath", false, func(s string) (string, error) { return m.BuildObjectManifestPath(nil, s, "ar") })
			pathHook(ocfl.ExtensionObjectExternalPathName, "BuildObjectStatePath", false, func(s string) (string, error) { return m.BuildObjectStatePath(nil, s, "ar") })
			pathHook(ocfl.ExtensionObjectExtractPathName, "BuildObjectExtractPath", true, func(s string) (string, error) { return m.BuildObjectExtractPath(nil, s, "ar") })
			if bad != "" {
				return "path", bad
			}
			// queries
			log = nil
			dig := m.GetFixityDigests()
			names, _ := called("GetFixityDigests")
			checkList(ocfl.ExtensionFixityDigestName, "GetFixityDigests", names, false)
			want := map[checksum.DigestAlgorithm]bool{}
			for _, x := range names {
				want["md5"], want[checksum.DigestAlgorithm("alg-"+x)] = true, true
			}
			if len(dig) != len(want) {
				return "fixity", fmt.Sprintf("%v instead of %v", dig, want)
			}
			for _, d := range dig {
				if !want[d] {
					return "fixity", fmt.Sprintf("%v instead of %v", dig, want)
				}
			}
			log = nil
			meta, err := m.GetMetadata(nil)
			names, _ = called("GetMetadata")
			checkList(ocfl.ExtensionMetadataName, "GetMetadata", names, err != nil)
			checkErr("GetMetadata", names, err)
			if err == nil {
				for _, k := range []string{"", "k"} {
					mm, _ := meta[k].(map[string]any)
					if len(mm) != len(names) {
						return "metadata", fmt.Sprintf("%v for %v", meta, names)
					}
					for _, x := range names {
						if mm[x] != x {
							return "metadata", fmt.Sprintf("%v for %v", meta, names)
						}
					}
				}
			}
			log = nil
			err = m.DoNewVersion(nil)
			names, _ = called("DoNewVersion")
			checkList(ocfl.ExtensionNewVersionName, "DoNewVersion", names, err != nil)
			checkErr("DoNewVersion", names, err)
			nv := append([]string{}, names...)
			log = nil
			need, err2 := m.NeedNewVersion(nil)
			names, _ = called("NeedNewVersion")
			checkErr("NeedNewVersion", names, err2)
			if err == nil && err2 == nil {
				any := false
				for _, x := range nv {
					any = any || bases[x].fail["need"]
				}
				if need != any {
					return "newversion", fmt.Sprintf("need %v, expected %v", need, any)
				}
			}
			log = nil
			for _, x := range append(nv, "zz") {
				log = nil
				p, err := m.GetAreaPath(nil, "a"+x)
				names, _ := called("GetAreaPath")
				f := failing(names, "GetAreaPath")
				if p == "" && len(f) > 0 && err == nil {
					return "area", fmt.Sprintf("errors %v are lost", f)
				}
				if p != "" && p != "path-"+x {
					return "area", fmt.Sprintf("%q for %s", p, x)
				}
			}
			if len(provides[ocfl.ExtensionMetadataName]) > 0 {
				if err := m.StreamObject(nil, strings.NewReader("stream data"), []string{"f"}, "d"); err != nil {
					return "stream", err.Error()
				}
			}
			// life cycle of all extensions
			log = nil
			checkAll := func(hook string, f func() error, stop bool) {
				log = nil
				err := f()
				names, _ := called(hook)
				checkErr(hook, names, err)
				if !(stop && err != nil) && strings.Join(names, " ") != strings.Join(order, " ") {
					bad = fmt.Sprintf("%s reached %v instead of %v", hook, names, order)
				}
			}
			checkAll("SetParams", func() error { return m.SetParams(map[string]string{}) }, true)
			checkAll("Terminate", m.Terminate, false)
			if bad != "" {
				return "query", bad
			}
			return "", ""
		})
	}
}

// vFlatten lists all errors below a combined error.
func vFlatten(err error) []error {
	r := []error{err}
	if x, ok := err.(interface{ Errors() []error }); ok {
		for _, e := range x.Errors() {
			r = append(r, vFlatten(e)...)
		}
	}
	if x, ok := err.(interface{ Unwrap() []error }); ok {
		for _, e := range x.Unwrap() {
			r = append(r, vFlatten(e)...)
		}
	}
	if u := errors.Unwrap(err); u != nil {
		r = append(r, vFlatten(u)...)
	}
	return r
}
