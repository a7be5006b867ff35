package PKG

import (
	"fmt"
	"io/fs"
	"regexp"
	"strings"
	"testing"

	"github.com/rs/zerolog"
)

// a manager and an initial extension which do nothing
type vMgr struct{ ExtensionManager }

func (vMgr) GetName() string                        { return DefaultExtensionManagerName }
func (vMgr) SetParams(map[string]string) error      { return nil }
func (vMgr) Add(Extension) error                    { return nil }
func (vMgr) Finalize()                              {}
func (vMgr) SetInitial(ExtensionInitial)            {}
func (vMgr) SetFS(fs.FS, bool)                      {}
func (vMgr) IsRegistered() bool                     { return true }

type vInitial struct {
	ExtensionInitial
	n string
}

func (i *vInitial) GetName() string                   { return "initial" }
func (i *vInitial) SetParams(map[string]string) error { return nil }
func (i *vInitial) SetExtension(n string)             { i.n = n }
func (i *vInitial) GetExtension() string              { return i.n }

func vFactory() *ExtensionFactory {
	l := zerolog.Nop()
	f, _ := NewExtensionFactory(nil, &l)
	f.AddCreator(DefaultExtensionManagerName, func(fs.FS) (Extension, error) { return vMgr{}, nil })
	f.AddCreator(DefaultExtensionInitialName, func(fs.FS) (Extension, error) { return &vInitial{}, nil })
	return f
}

type vEntry struct {
	Name, Content string
	Dir, Broken   bool
}

func TestVerifC18(t *testing.T) {
	v := vNew(t, "directories of 0..4 entries whose names are root and object declarations of all versions and names similar to them, as files, directories and unreadable files, with matching and non-matching contents, through getVersion, validVersion, GetObjectVersion, StorageRootBase.Load and LoadStorageRoot")
	names := []string{"0=ocfl_1.0", "0=ocfl_1.1", "0=ocfl_2.0", "0=ocfl_10.25", "0=ocfl_object_1.0", "0=ocfl_object_1.1", "0=ocfl_object_2.0",
		"x0=ocfl_1.0", "0=ocfl_1.0.bak", "0=ocfl_1.1~", "0=ocfl_1", "0=ocfl_1.", "0=ocfl_.1", "0=ocfl_1x0", "0=OCFL_1.0", "0=ocfl_1.0\n", " 0=ocfl_1.1", "0=ocfl_object_1.0.txt", "copy of 0=ocfl_object_1.1", "0=ocfl_object_", "0=ocfl_object_1.0 ", "00=ocfl_1.0", "0=ocfl_1.00", "inventory.json", "ocfl_1.0", "0=ocfl_ocfl_1.0", "0=ocfl_object_1.0\r"}
	for v.more() {
		var ents []vEntry
		used := map[string]bool{}
		for n := v.rng.Intn(4); n > 0; n-- {
			e := vEntry{Name: names[v.rng.Intn(len(names))]}
			if v.rng.Intn(2) == 0 {
				e.Name = names[v.rng.Intn(7)]
			}
			if used[e.Name] {
				continue
			}
			used[e.Name] = true
			base := strings.TrimPrefix(e.Name, "0=")
			e.Content = []string{base + "\n", base + "\n", base + "\r\n", base, base + " \n", base + "\n\n", "", "\n", e.Name + "\n", "ocfl_1.0\n", "ocfl_object_1.1\n", " " + base + "\n", strings.ToUpper(base) + "\n"}[v.rng.Intn(13)]
			e.Dir, e.Broken = v.rng.Intn(6) == 0, v.rng.Intn(12) == 0
			ents = append(ents, e)
		}
		folder := []string{".", "obj", "a/b"}[v.rng.Intn(3)]
		m := vNewMem()
		m.mkall(folder)
		m.mkall("extensions")
		ff := &vReadFault{m.fs(), map[string]error{}}
		for _, e := range ents {
			p := folder + "/" + e.Name
			if folder == "." {
				p = e.Name
			}
			if e.Dir {
				m.mkall(p)
				continue
			}
			m.files[p] = []byte(e.Content)
			if e.Broken {
				ff.fail[folder+"/"+e.Name] = vErrFault
				ff.fail[e.Name] = vErrFault
			}
		}
		for _, prefix := range []string{"ocfl_", "ocfl_object_"} {
			v.check(struct {
				E []vEntry
				P string
				F string
			}{ents, prefix, folder}, func() (string, string) {
				re := regexp.MustCompile(`^0=` + prefix + `([0-9]+)[.]([0-9]+)$`)
				nd, readable := 0, true
				var ver string
				ok, anyBad := false, false
				for _, e := range ents {
					if e.Dir || !re.MatchString(e.Name) {
						continue
					}
					nd++
					ver = strings.TrimPrefix(e.Name, "0="+prefix)
					txt := prefix + ver
					ok = e.Content == txt+"\n" || e.Content == txt+"\r\n"
					if !ok {
						anyBad = true
					}
					if e.Broken {
						readable = false
					}
				}
				got, err := getVersion(vCtx(), ff, folder, prefix)
				switch {
				case nd == 0 && (err != errVersionNone || got != ""):
					return "none", fmt.Sprintf("no declaration: %q, %v", got, err)
				case nd > 1 && err == nil:
					return "multiple", fmt.Sprintf("several declarations: %q", got)
				case nd > 1 && readable && !anyBad && err != errVersionMultiple:
					return "multiple", fmt.Sprintf("several declarations: %q, %v", got, err)
				case nd == 1 && !readable && (err == nil || err == errVersionNone || err == errVersionMultiple || err == errInvalidContent):
					return "unreadable", fmt.Sprintf("unreadable declaration: %q, %v", got, err)
				case nd == 1 && readable && ok && (err != nil || string(got) != ver):
					return "version", fmt.Sprintf("declaration of %q: %q, %v", ver, got, err)
				case nd == 1 && readable && !ok && err != errInvalidContent:
					return "content", fmt.Sprintf("wrong content: %q, %v", got, err)
				}
				for _, w := range []OCFLVersion{"", Version1_0, Version1_1, Version2_0, OCFLVersion(ver)} {
					want := nd == 1 && readable && ok && string(w) == ver
					if g := validVersion(vCtx(), ff, w, folder, prefix); g != want {
						return "valid", fmt.Sprintf("validVersion(%q) = %v", w, g)
					}
				}
				if prefix == "ocfl_object_" {
					sub := &vReadFault{&vMemFS{m, folder}, ff.fail}
					ctx := vCtx()
					got, err := GetObjectVersion(ctx, sub)
					codes := vCodes(ctx)
					switch {
					case nd == 0 && (err != nil || got != "" || !(codes["E003"]>0) || len(codes) != 1):
						return "object-none", fmt.Sprintf("no declaration: %q, %v, %v", got, err, codes)
					case nd > 1 && err == nil:
						return "object-multiple", fmt.Sprintf("several declarations: %q", got)
					case nd == 1 && !readable && err == nil:
						return "object-unreadable", fmt.Sprintf("unreadable declaration: %q", got)
					case nd == 1 && readable && (err != nil || string(got) != ver || (codes["E007"]>0) == ok || (codes["E003"]>0)):
						return "object-version", fmt.Sprintf("declaration of %q (%v): %q, %v, %v", ver, ok, got, err, codes)
					}
				} else if folder == "." {
					l := zerolog.Nop()
					ctx := vCtx()
					root, err := NewStorageRootBase(ctx, ff, Version1_1, vFactory(), nil, &l)
					if err != nil {
						return "root", err.Error()
					}
					err = root.Load()
					codes := vCodes(ctx)
					if nd > 0 && !readable && nd == 1 {
						if err == nil {
							return "root-unreadable", "unreadable declaration: no error"
						}
						return "", ""
					}
					if !readable {
						return "", ""
					}
					if err != nil {
						return "root-err", err.Error()
					}
					switch {
					case nd == 0 && (!(codes["E003"]>0) || !(codes["E004"]>0) || !(codes["E005"]>0) || len(codes) != 3 || root.GetVersion() != Version1_0):
						return "root-none", fmt.Sprintf("no declaration: %q, %v", root.GetVersion(), codes)
					case nd > 1 && !(codes["E003"]>0) && !(codes["E006"]>0):
						return "root-multiple", fmt.Sprintf("several declarations: %q, %v", root.GetVersion(), codes)
					case nd == 1 && ok && (len(codes) != 0 || string(root.GetVersion()) != ver):
						return "root-version", fmt.Sprintf("declaration of %q: %q, %v", ver, root.GetVersion(), codes)
					case nd == 1 && !ok && (!(codes["E006"]>0) || len(codes) != 1):
						return "root-content", fmt.Sprintf("wrong content: %q, %v", root.GetVersion(), codes)
					}
					r2, err := LoadStorageRoot(vCtx(), ff, vFactory(), &l)
					known := ver == "1.0" || ver == "1.1" || ver == "2.0"
					if nd == 1 && ok && known && (err != nil || string(r2.GetVersion()) != ver) {
						return "loadroot", fmt.Sprintf("declaration of %q: %v", ver, err)
					}
					if nd == 1 && (!ok || !known) && err == nil {
						return "loadroot", fmt.Sprintf("storage root loaded: %q", r2.GetVersion())
					}
				}
				return "", ""
			})
		}
	}
}
