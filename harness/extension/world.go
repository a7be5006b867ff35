package PKG

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"sort"
	"strings"
	"testing/fstest"
	"time"

	"github.com/je4/gocfl/v2/pkg/ocfl"
	"github.com/je4/utils/v2/pkg/checksum"
	"github.com/rs/zerolog"
)

// vHook is an extension which takes part in every hook and fails at the n-th call.
type vHook struct {
	n, failAt int
	hit       string
	streamed  map[string][]byte
	short     bool // stop reading early
	newVer    int  // how often a new version is requested
	fsys      fs.FS
}

const vHookName = "NNNN-hook"

var vErrHook = errors.New("injected hook failure")

func (h *vHook) call(s string) error {
	h.n++
	if h.n == h.failAt {
		h.hit = s
		return vErrHook
	}
	return nil
}
func (h *vHook) GetName() string                   { return vHookName }
func (h *vHook) SetFS(f fs.FS, create bool)        { h.fsys = f }
func (h *vHook) GetFS() fs.FS                      { return h.fsys }
func (h *vHook) SetParams(map[string]string) error { return nil }
func (h *vHook) WriteConfig() error                { return nil }
func (h *vHook) GetConfig() any                    { return vCfg(vHookName) }
func (h *vHook) IsRegistered() bool                { return true }
func (h *vHook) Terminate() error                  { return nil }
func (h *vHook) AddFileBefore(ocfl.Object, fs.FS, string, string, string, bool) error {
	return h.call("AddFileBefore")
}
func (h *vHook) UpdateFileBefore(ocfl.Object, fs.FS, string, string, string, bool) error {
	return h.call("UpdateFileBefore")
}
func (h *vHook) DeleteFileBefore(ocfl.Object, string, string) error {
	return h.call("DeleteFileBefore")
}
func (h *vHook) AddFileAfter(ocfl.Object, fs.FS, []string, string, string, string, bool) error {
	return h.call("AddFileAfter")
}
func (h *vHook) UpdateFileAfter(ocfl.Object, fs.FS, string, string, string, bool) error {
	return h.call("UpdateFileAfter")
}
func (h *vHook) DeleteFileAfter(ocfl.Object, string, string) error { return h.call("DeleteFileAfter") }
func (h *vHook) UpdateObjectBefore(ocfl.Object) error              { return h.call("UpdateObjectBefore") }
func (h *vHook) UpdateObjectAfter(ocfl.Object) error               { return h.call("UpdateObjectAfter") }
func (h *vHook) NeedNewVersion(ocfl.Object) (bool, error) {
	if err := h.call("NeedNewVersion"); err != nil {
		return false, err
	}
	h.newVer--
	return h.newVer >= 0, nil
}
func (h *vHook) DoNewVersion(o ocfl.Object) error {
	if err := h.call("DoNewVersion"); err != nil {
		return err
	}
	return o.AddData([]byte(fmt.Sprintf("generated %d", h.newVer)), fmt.Sprintf("gen%d.txt", h.newVer), false, "full", true, false)
}
func (h *vHook) StreamObject(_ ocfl.Object, r io.Reader, state []string, dest string) error {
	if h.streamed == nil {
		h.streamed = map[string][]byte{}
	}
	b, err := io.ReadAll(r)
	if err != nil {
		return err
	}
	h.streamed[dest] = b
	if h.n+1 == h.failAt {
		time.Sleep(3 * time.Millisecond)
	}
	return h.call("StreamObject")
}

// vWorld: a storage root in memory and everything needed to use it.
type vWorld struct {
	r      *rand.Rand
	m      *vMem
	ctx    context.Context
	fac    *ocfl.ExtensionFactory
	root   ocfl.StorageRoot
	hook   *vHook
	layout string
	ver    ocfl.OCFLVersion
	alg    checksum.DigestAlgorithm
	kind   int // object extensions
	paths  map[string]string
	fixity []checksum.DigestAlgorithm
}

var vLayouts = []string{
	`{"extensionName":"0002-flat-direct-storage-layout"}`,
	`{"extensionName":"0003-hash-and-id-n-tuple-storage-layout","digestAlgorithm":"sha256","tupleSize":2,"numberOfTuples":2}`,
	`{"extensionName":"0004-hashed-n-tuple-storage-layout","digestAlgorithm":"sha256","tupleSize":3,"numberOfTuples":3,"shortObjectRoot":false}`,
	`{"extensionName":"0007-n-tuple-omit-prefix-storage-layout","delimiter":":","tupleSize":4,"numberOfTuples":2,"zeroPadding":"left","reverseObjectRoot":true}`,
	`{"extensionName":"NNNN-pairtree-storage-layout","uriBase":"","storeDir":"","shortyLength":2,"digestAlgorithm":"sha256"}`,
	`{"extensionName":"NNNN-direct-clean-path-layout","maxPathnameLen":32000,"maxPathSegmentLen":127,"replacementString":"_","whitespaceReplacementString":" ","utfEncode":true,"fallbackDigestAlgorithm":"sha512","fallbackFolder":"fallback","numberOfFallbackTuples":0,"fallbackTupleSize":0}`,
}

func vName(cfg string) string {
	var c ocfl.ExtensionConfig
	if err := json.Unmarshal([]byte(cfg), &c); err != nil {
		panic(err)
	}
	return c.ExtensionName
}

// vManager: an extension manager as the command line builds it, from a folder
// of configurations.
func (w *vWorld) manager(cfgs ...string) (ocfl.ExtensionManager, error) {
	m := vNewMem()
	mgr := `{"extensionName":"NNNN-gocfl-extension-manager","sort":{},"exclusion":{}}`
	if w.r.Intn(2) == 0 {
		mgr = `{"extensionName":"NNNN-gocfl-extension-manager","sort":{"StorageRootPath":["NNNN-direct-clean-path-layout"]},"exclusion":{"StorageRootPath":[["NNNN-direct-clean-path-layout","0004-hashed-n-tuple-storage-layout"]]}}`
	}
	for _, c := range append(cfgs, `{"extensionName":"initial","extension":"NNNN-gocfl-extension-manager"}`, mgr) {
		m.mkall(vName(c))
		m.files[vName(c)+"/config.json"] = []byte(c)
	}
	return w.fac.LoadExtensions(m.fs(), nil)
}

func vNewWorld(r *rand.Rand) (*vWorld, error) {
	l := zerolog.Nop()
	w := &vWorld{r: r, m: vNewMem(), hook: &vHook{}}
	w.m.style = r.Intn(2)
	w.ctx = ocfl.NewContextValidation(context.Background())
	var err error
	if w.fac, err = ocfl.NewExtensionFactory(map[string]string{}, &l); err != nil {
		return nil, err
	}
	for _, k := range vExtKinds() {
		k := k
		w.fac.AddCreator(k.name, func(f fs.FS) (ocfl.Extension, error) { return k.load(f) })
	}
	w.fac.AddCreator(InitialName, func(f fs.FS) (ocfl.Extension, error) { return NewInitialFS(f) })
	w.fac.AddCreator(GOCFLExtensionManagerName, func(f fs.FS) (ocfl.Extension, error) { return NewGOCFLExtensionManagerFS(f) })
	w.fac.AddCreator(vHookName, func(f fs.FS) (ocfl.Extension, error) { return w.hook, nil })
	w.layout = vLayouts[r.Intn(len(vLayouts))]
	w.ver = []ocfl.OCFLVersion{ocfl.Version1_0, ocfl.Version1_1}[r.Intn(2)]
	w.alg = []checksum.DigestAlgorithm{checksum.DigestSHA512, checksum.DigestSHA256}[r.Intn(2)]
	w.kind = r.Intn(3)
	w.paths = map[string]string{"content": "data", "metadata": "metadata", "other": "data2"}
	for i := 0; i < r.Intn(3); i++ {
		w.fixity = append(w.fixity, []checksum.DigestAlgorithm{checksum.DigestMD5, checksum.DigestSHA1, checksum.DigestSHA256}[(i+int(r.Int31n(2)))%3])
	}
	return w, nil
}

func (w *vWorld) createRoot() error {
	mgr, err := w.manager(w.layout)
	if err != nil {
		return err
	}
	l := zerolog.Nop()
	w.root, err = ocfl.CreateStorageRoot(w.ctx, w.m.fs(), w.ver, w.fac, mgr, w.alg, &l)
	return err
}

func (w *vWorld) loadRoot() (ocfl.StorageRoot, error) {
	l := zerolog.Nop()
	w.ctx = ocfl.NewContextValidation(context.Background())
	root, err := ocfl.LoadStorageRoot(w.ctx, w.m.fs(), w.fac, &l)
	if err != nil {
		return nil, err
	}
	w.root = root
	return root, nil
}

// errors in the validation context
func (w *vWorld) codes() []string {
	st, err := ocfl.GetValidationStatus(w.ctx)
	if err != nil {
		panic(err)
	}
	var r []string
	for _, e := range st.Errors {
		if strings.HasPrefix(string(e.Code), "E") {
			r = append(r, fmt.Sprintf("%s %s %v", e.Code, e.Description2, e.Context))
		}
	}
	sort.Strings(r)
	return r
}

func (w *vWorld) objManager(withHook bool) (ocfl.ExtensionManager, error) {
	cfgs := []string{`{"extensionName":"0001-digest-algorithms"}`}
	switch w.kind {
	case 1:
		cfgs = append(cfgs, `{"extensionName":"NNNN-direct-clean-path-layout","maxPathnameLen":32000,"maxPathSegmentLen":127,"replacementString":"_","whitespaceReplacementString":" ","utfEncode":true,"fallbackDigestAlgorithm":"sha512","fallbackFolder":"fallback","numberOfFallbackTuples":0,"fallbackTupleSize":0}`)
	case 2:
		b, _ := json.Marshal(map[string]any{"extensionName": ContentSubPathName, "subPath": map[string]any{
			"content": map[string]string{"path": w.paths["content"], "description": "c"}, "metadata": map[string]string{"path": w.paths["metadata"], "description": "m"}, "other": map[string]string{"path": w.paths["other"], "description": "o"}}})
		cfgs = append(cfgs, string(b))
	}
	if withHook {
		cfgs = append(cfgs, `{"extensionName":"`+vHookName+`"}`)
	}
	return w.manager(cfgs...)
}

// vState: logical path -> content
type vState map[string]string

func (s vState) clone() vState {
	c := vState{}
	for k, v := range s {
		c[k] = v
	}
	return c
}
func (s vState) String() string {
	var k []string
	for n := range s {
		k = append(k, n)
	}
	sort.Strings(k)
	var b bytes.Buffer
	for _, n := range k {
		fmt.Fprintf(&b, "%q=%q ", n, s[n])
	}
	return b.String()
}

type vObject struct {
	id       string
	versions []vState // state of v1, v2, ...
}

var vFiles = []string{"a.txt", "b/c.txt", "b/d e.bin", "é.txt", "data/a.txt", "README", "x", "b2/c.txt", "b/c/d/e", "metadata"}
var vContents = []string{"", "one", "two", "three\n", "\x00\xff", "one ", "content"}

func vSource(r *rand.Rand, n int) fstest.MapFS {
	s := fstest.MapFS{}
	for ; n > 0; n-- {
		f := vFiles[r.Intn(len(vFiles))]
		ok := true
		for g := range s {
			if strings.HasPrefix(g, f+"/") || strings.HasPrefix(f, g+"/") {
				ok = false
			}
		}
		if ok {
			s[f] = &fstest.MapFile{Data: []byte(vContents[r.Intn(len(vContents))])}
		}
	}
	return s
}

// logical path of a source file
func (w *vWorld) logical(f, area string) string {
	if w.kind == 2 && area != "full" {
		if area == "" {
			area = "content"
		}
		return w.paths[area] + "/" + f
	}
	return f
}

var errStop = errors.New("stop")

// one update of an open object. Returns the new state (nil: nothing changed).
type vPlan struct {
	Areas  []string
	Src    []map[string]string
	Dup    bool
	Echo   bool
	Delete []string
}

func (w *vWorld) plan() *vPlan {
	p := &vPlan{Dup: w.r.Intn(3) > 0, Echo: w.r.Intn(3) == 0}
	areas := []string{""}
	if w.kind == 2 {
		for _, a := range []string{"metadata", "other"} {
			if w.r.Intn(2) == 0 {
				areas = append(areas, a)
			}
		}
	}
	for _, a := range areas {
		src := map[string]string{}
		for k, v := range vSource(w.r, w.r.Intn(5)) {
			src[k] = string(v.Data)
		}
		p.Areas, p.Src = append(p.Areas, a), append(p.Src, src)
	}
	if w.r.Intn(4) == 0 {
		p.Delete = append(p.Delete, vFiles[w.r.Intn(len(vFiles))])
	}
	return p
}

// conflict: a logical path would be a folder of another one
func vConflict(s vState) bool {
	for a := range s {
		for b := range s {
			if strings.HasPrefix(b, a+"/") {
				return true
			}
		}
	}
	return false
}

// expected state after the plan
func (w *vWorld) apply(s vState, p *vPlan) vState {
	n := s.clone()
	given := map[string]bool{}
	for i, a := range p.Areas {
		for f, c := range p.Src[i] {
			n[w.logical(f, a)] = c
			given[w.logical(f, a)] = true
		}
	}
	for _, d := range p.Delete {
		delete(n, w.logical(d, ""))
	}
	if p.Echo {
		prefix := w.logical("", "")
		for f := range n {
			if !given[f] && strings.HasPrefix(f, prefix) {
				delete(n, f)
			}
		}
	}
	return n
}

// run executes the plan on an open object up to and including EndUpdate.
func (w *vWorld) run(o ocfl.Object, s vState, p *vPlan) error {
	vfs, err := o.StartUpdate(nil, "msg", "user", "mailto:u@x", p.Echo)
	if err != nil {
		return err
	}
	cur := s.clone()
	for i, a := range p.Areas {
		src := fstest.MapFS{}
		for f, c := range p.Src[i] {
			src[f] = &fstest.MapFile{Data: []byte(c)}
			cur[w.logical(f, a)] = c
		}
		if err := o.AddFolder(src, vfs, p.Dup, a); err != nil {
			return err
		}
	}
	for _, d := range p.Delete {
		l := w.logical(d, "")
		if c, ok := cur[l]; ok {
			if err := o.DeleteFile(l, vHex(string(w.alg), c)); err != nil {
				return err
			}
		}
	}
	return o.EndUpdate()
}

func vSame(a, b vState) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if x, ok := b[k]; !ok || x != v {
			return false
		}
	}
	return true
}

// history builds an object with n versions and returns its states. The state
// of a content-subpath object contains its README.md.
func (w *vWorld) history(id string, n int) (*vObject, error) {
	mgr, err := w.objManager(false)
	if err != nil {
		return nil, err
	}
	o, err := w.root.CreateObject(id, w.ver, w.alg, w.fixity, mgr)
	if err != nil {
		return nil, fmt.Errorf("create: %w", err)
	}
	ob := &vObject{id: id}
	cur := vState{}
	for i := 0; i < n; i++ {
		if i > 0 {
			if o, err = w.root.LoadObjectByID(id); err != nil {
				return nil, fmt.Errorf("load: %w", err)
			}
		}
		var p *vPlan
		var next vState
		for {
			p = w.plan()
			next = w.apply(cur, p)
			if !vConflict(next) && !vSame(next, cur) {
				break
			}
		}
		if err := w.run(o, cur, p); err != nil {
			return nil, fmt.Errorf("update %+v: %w", p, err)
		}
		if err := o.Close(); err != nil {
			return nil, fmt.Errorf("close: %w", err)
		}
		if w.kind == 2 {
			b, err := w.readme(o)
			if err != nil {
				return nil, err
			}
			next["README.md"] = b
		}
		ob.versions = append(ob.versions, next)
		cur = next.clone()
		delete(cur, "README.md")
		if w.kind == 2 {
			cur["README.md"] = next["README.md"]
		}
	}
	return ob, nil
}

// readme: the generated README.md of the head version, read from the content
func (w *vWorld) readme(o ocfl.Object) (string, error) {
	i := o.GetInventory()
	v := i.GetVersions()[i.GetHead()]
	for d, fs := range v.State.State {
		for _, f := range fs {
			if f == "README.md" {
				ps := i.GetManifest()[d]
				if len(ps) == 0 {
					return "", errors.New("README.md without content")
				}
				b, err := o.GetFS().(*vMemFS).ReadFile(ps[0])
				return string(b), err
			}
		}
	}
	return "", errors.New("no README.md")
}

var vIds = []string{"urn:a", "object-01", "x:y:z", "info/abc", "é", "object-02", "info:x/extensions/abc", "a/.b/c", "d/e/0=f"}
