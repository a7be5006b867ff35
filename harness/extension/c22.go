package PKG

import (
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"math/rand"
	"reflect"
	"testing"

	"github.com/je4/gocfl/v2/pkg/ocfl"
	"github.com/je4/utils/v2/pkg/checksum"
	"github.com/rs/zerolog"
)

type vExtKind struct {
	name   string
	create func(r *rand.Rand) (ocfl.Extension, error)
	load   func(fsys fs.FS) (ocfl.Extension, error)
}

func vStr(r *rand.Rand) string {
	if r.Intn(3) == 0 {
		return vOdd(r)
	}
	return []string{"", "a", "data", ":", "é", "x y", "<>&", "\"", "/", "right", "left"}[r.Intn(11)]
}

// vOdd: text a careless normalisation would change (blanks, case, escapes, separators at either end)
func vOdd(r *rand.Rand) string {
	b := []string{" ", "\t", "\n", "A", "b", "0", "-", "_", ".", "..", "/", "\\", "%20", "+", "=", "\u2028", "e\u0301", "ß", "😀", ":", ",", "'"}
	s := ""
	for n := 1 + r.Intn(3); n > 0; n-- {
		s += b[r.Intn(len(b))]
	}
	return s
}
func vStr1(r *rand.Rand) string {
	if r.Intn(3) == 0 {
		return vOdd(r)
	}
	return []string{"a", "data", ":", "é", "x y", "<>&", "\"", "a/b"}[r.Intn(8)]
}
func vWrapE[E ocfl.Extension](e E, err error) (ocfl.Extension, error) {
	if err != nil {
		return nil, err
	}
	return e, nil
}

func vExtKinds() []vExtKind {
	l := zerolog.Nop()
	return []vExtKind{
		{DigestAlgorithmsName, func(r *rand.Rand) (ocfl.Extension, error) {
			return vWrapE(NewDigestAlgorithms(&DigestAlgorithmsConfig{ExtensionConfig: vCfg(DigestAlgorithmsName)}))
		}, func(f fs.FS) (ocfl.Extension, error) { return vWrapE(NewDigestAlgorithmsFS(f)) }},
		{StorageLayoutFlatDirectName, func(r *rand.Rand) (ocfl.Extension, error) {
			return vWrapE(NewStorageLayoutFlatDirect(&StorageLayoutFlatDirectConfig{ExtensionConfig: vCfg(StorageLayoutFlatDirectName)}))
		}, func(f fs.FS) (ocfl.Extension, error) { return vWrapE(NewStorageLayoutFlatDirectFS(f)) }},
		{StorageLayoutHashAndIdNTupleName, func(r *rand.Rand) (ocfl.Extension, error) {
			return vWrapE(NewStorageLayoutHashAndIdNTuple(&StorageLayoutHashAndIdNTupleConfig{ExtensionConfig: vCfg(StorageLayoutHashAndIdNTupleName), DigestAlgorithm: vAlgs[r.Intn(4)], TupleSize: r.Intn(6), NumberOfTuples: r.Intn(6)}))
		}, func(f fs.FS) (ocfl.Extension, error) { return vWrapE(NewStorageLayoutHashAndIdNTupleFS(f)) }},
		{StorageLayoutHashedNTupleName, func(r *rand.Rand) (ocfl.Extension, error) {
			return vWrapE(NewStorageLayoutHashedNTuple(&StorageLayoutHashedNTupleConfig{ExtensionConfig: vCfg(StorageLayoutHashedNTupleName), DigestAlgorithm: vAlgs[r.Intn(4)], TupleSize: r.Intn(6), NumberOfTuples: r.Intn(6), ShortObjectRoot: r.Intn(2) == 0}))
		}, func(f fs.FS) (ocfl.Extension, error) { return vWrapE(NewStorageLayoutHashedNTupleFS(f)) }},
		{FlatOmitPrefixStorageLayoutName, func(r *rand.Rand) (ocfl.Extension, error) {
			return vWrapE(NewFlatOmitPrefixStorageLayout(&FlatOmitPrefixStorageLayoutConfig{ExtensionConfig: vCfg(FlatOmitPrefixStorageLayoutName), Delimiter: vStr(r)}))
		}, func(f fs.FS) (ocfl.Extension, error) { return vWrapE(NewFlatOmitPrefixStorageLayoutFS(f)) }},
		{NTupleOmitPrefixStorageLayoutName, func(r *rand.Rand) (ocfl.Extension, error) {
			return vWrapE(NewNTupleOmitPrefixStorageLayout(&NTupleOmitPrefixStorageLayoutConfig{ExtensionConfig: vCfg(NTupleOmitPrefixStorageLayoutName), Delimiter: vStr(r), TupleSize: 1 + r.Intn(5), NumberOfTuples: 1 + r.Intn(5), ZeroPadding: vStr(r), ReverseObjectRoot: r.Intn(2) == 0}))
		}, func(f fs.FS) (ocfl.Extension, error) { return vWrapE(NewNTupleOmitPrefixStorageLayoutFS(f)) }},
		{StorageLayoutPairTreeName, func(r *rand.Rand) (ocfl.Extension, error) {
			return vWrapE(NewStorageLayoutPairTree(&StorageLayoutPairTreeConfig{ExtensionConfig: vCfg(StorageLayoutPairTreeName), UriBase: vStr(r), StoreDir: vStr(r), ShortyLength: 1 + r.Intn(5), DigestAlgorithm: vAlgs[r.Intn(4)]}))
		}, func(f fs.FS) (ocfl.Extension, error) { return vWrapE(NewStorageLayoutPairTreeFS(f)) }},
		{DirectCleanName, func(r *rand.Rand) (ocfl.Extension, error) {
			return NewDirectClean(&DirectCleanConfig{ExtensionConfig: vCfg(DirectCleanName), MaxPathnameLen: r.Intn(3) * 100, MaxPathSegmentLen: r.Intn(3) * 20, ReplacementString: vStr(r), WhitespaceReplacementString: vStr(r), UTFEncode: r.Intn(2) == 0, FallbackDigestAlgorithm: checksum.DigestAlgorithm(vAlgs[r.Intn(4)]), FallbackFolder: vStr(r), NumberOfFallbackTuples: r.Intn(4), FallbackTupleSize: r.Intn(4)})
		}, NewDirectCleanFS},
		{PathDirectName, func(r *rand.Rand) (ocfl.Extension, error) {
			return vWrapE(NewPathDirect(&PathDirectConfig{Config: &Config{ExtensionName: PathDirectName}}))
		}, NewPathDirectFS},
		{ContentSubPathName, func(r *rand.Rand) (ocfl.Extension, error) {
			p := map[string]ContentSubPathEntry{}
			for n := r.Intn(4); n > 0; n-- {
				p[vStr(r)] = ContentSubPathEntry{Path: vStr1(r), Description: vStr(r)}
			}
			return vWrapE(NewContentSubPath(&ContentSubPathConfig{ExtensionConfig: vCfg(ContentSubPathName), Paths: p}))
		}, func(f fs.FS) (ocfl.Extension, error) { return vWrapE(NewContentSubPathFS(f)) }},
		{InitialName, func(r *rand.Rand) (ocfl.Extension, error) {
			e, err := NewInitial(&InitialConfig{ExtensionConfig: vCfg(InitialName), Extension: vStr(r)})
			if err == nil && r.Intn(2) == 0 {
				n := vStr1(r)
				e.SetExtension(n)
				if e.GetExtension() != n {
					return nil, errors.New("SetExtension did not set the extension")
				}
			}
			return vWrapE(e, err)
		}, func(f fs.FS) (ocfl.Extension, error) { return vWrapE(NewInitialFS(f)) }},
		{FilesystemName, func(r *rand.Rand) (ocfl.Extension, error) {
			return vWrapE(NewFilesystem(&FilesystemConfig{ExtensionConfig: vCfg(FilesystemName), Folders: vStr(r), StorageType: vStr(r), StorageName: vStr(r), Compress: vStr(r)}))
		}, func(f fs.FS) (ocfl.Extension, error) { return vWrapE(NewFilesystemFS(f, &l)) }},
		{MigrationName, func(r *rand.Rand) (ocfl.Extension, error) {
			return vWrapE(NewMigration(&MigrationConfig{ExtensionConfig: vCfg(MigrationName), StorageType: vStr(r), StorageName: vStr(r), Compress: vStr(r)}, nil))
		}, func(f fs.FS) (ocfl.Extension, error) { return vWrapE(NewMigrationFS(f, nil, &l)) }},
		{METSName, func(r *rand.Rand) (ocfl.Extension, error) {
			return vWrapE(NewMets(&MetsConfig{ExtensionConfig: vCfg(METSName), StorageType: vStr(r), StorageName: vStr(r), PrimaryDescriptiveMetadata: vStr1(r), MetsFile: vStr1(r), PremisFile: vStr1(r)}, &l))
		}, func(f fs.FS) (ocfl.Extension, error) { return vWrapE(NewMetsFS(f, &l)) }},
		{GOCFLExtensionManagerName, func(r *rand.Rand) (ocfl.Extension, error) {
			c := &ocfl.ExtensionManagerConfig{ExtensionConfig: vCfg(GOCFLExtensionManagerName), Sort: map[string][]string{}, Exclusion: map[string][][]string{}}
			for n := r.Intn(3); n >= 0; n-- {
				c.Sort[vStr(r)] = []string{vStr(r), vStr(r)}
			}
			for n := r.Intn(3); n > 0; n-- {
				c.Exclusion[vStr(r)] = [][]string{{vStr(r)}, {vStr(r), vStr(r)}}
			}
			return vWrapE(NewGOCFLExtensionManager(c))
		}, func(f fs.FS) (ocfl.Extension, error) { return vWrapE(NewGOCFLExtensionManagerFS(f)) }},
	}
}

func vJSON(x any) string {
	b, err := json.Marshal(x)
	if err != nil {
		return "error: " + err.Error()
	}
	return string(b)
}

func TestVerifC22(t *testing.T) {
	v := vNew(t, "15 kinds of extensions x random configurations: WriteConfig to memory, create again, compare configuration and the mapping of 6 ids; WriteLayout names the layout; a second WriteConfig over a longer file")
	kinds := vExtKinds()
	for n := 0; v.more(); n++ {
		r := v.rng
		k := kinds[n%len(kinds)]
		e, err := k.create(r)
		in := []any{k.name}
		if err == nil {
			in = append(in, vJSON(e.GetConfig()))
		}
		v.check(in, func() (string, string) {
			if err != nil {
				return "create", err.Error()
			}
			m := vNewMem()
			if err := m.fs().MkDir("ext"); err != nil {
				return "harness", err.Error()
			}
			sub, _ := m.fs().Sub("ext")
			mgr, isMgr := e.(*GOCFLExtensionManager)
			if isMgr {
				i, _ := NewInitial(&InitialConfig{ExtensionConfig: vCfg(InitialName), Extension: GOCFLExtensionManagerName})
				mgr.SetInitial(i)
				_ = m.fs().MkDir("ext/" + GOCFLExtensionManagerName)
				_ = m.fs().MkDir("ext/" + InitialName)
			}
			e.SetFS(sub, true)
			before := vJSON(e.GetConfig())
			if err := e.WriteConfig(); err != nil {
				return "write", err.Error()
			}
			if isMgr {
				sub, _ = m.fs().Sub("ext/" + GOCFLExtensionManagerName)
			}
			if m.open != 0 {
				return "write", "a file was not closed"
			}
			f, err := k.load(sub)
			if err != nil {
				return "load", fmt.Sprintf("%v: %v", err, m.list())
			}
			if after := vJSON(f.GetConfig()); after != before || f.GetName() != k.name {
				return "config", fmt.Sprintf("wrote %s, loaded %s", before, after)
			}
			if !reflect.DeepEqual(e.GetConfig(), f.GetConfig()) && k.name != PathDirectName {
				// json is the same: only unexported or defaulted parts may differ
				if vJSON(e.GetConfig()) != vJSON(f.GetConfig()) {
					return "config", "differs"
				}
			}
			for i := 0; i < 6; i++ {
				id := vId(r)
				if a, ok := e.(ocfl.ExtensionStorageRootPath); ok {
					b := f.(ocfl.ExtensionStorageRootPath)
					p, e1 := a.BuildStorageRootPath(nil, id)
					q, e2 := b.BuildStorageRootPath(nil, id)
					if p != q || (e1 == nil) != (e2 == nil) {
						return "mapping", fmt.Sprintf("id %q: %q (%v) before, %q (%v) after reload", id, p, e1, q, e2)
					}
				}
				if a, ok := e.(ocfl.ExtensionObjectContentPath); ok {
					b := f.(ocfl.ExtensionObjectContentPath)
					p, e1 := a.BuildObjectManifestPath(nil, id, "data")
					q, e2 := b.BuildObjectManifestPath(nil, id, "data")
					if p != q || (e1 == nil) != (e2 == nil) {
						return "mapping", fmt.Sprintf("path %q: %q (%v) before, %q (%v) after reload", id, p, e1, q, e2)
					}
				}
			}
			if a, ok := e.(ocfl.ExtensionStorageRootPath); ok && !isMgr {
				lm := vNewMem()
				if err := a.WriteLayout(lm.fs()); err != nil {
					return "layout", err.Error()
				}
				var l struct {
					Extension   string `json:"extension"`
					Description string `json:"description"`
				}
				if err := json.Unmarshal(lm.files["ocfl_layout.json"], &l); err != nil || l.Extension != k.name || l.Description == "" {
					return "layout", fmt.Sprintf("%s (%v) for %s", lm.files["ocfl_layout.json"], err, k.name)
				}
				mg, _ := NewGOCFLExtensionManager(&ocfl.ExtensionManagerConfig{ExtensionConfig: vCfg(GOCFLExtensionManagerName)})
				if err := mg.Add(e); err != nil {
					return "layout", err.Error()
				}
				mg.Finalize()
				lm2 := vNewMem()
				if err := mg.WriteLayout(lm2.fs()); err != nil {
					return "layout", err.Error()
				}
				if string(lm2.files["ocfl_layout.json"]) != string(lm.files["ocfl_layout.json"]) {
					return "layout", "the manager names another layout"
				}
			}
			// every failed operation is reported
			ops := 3
			if !isMgr {
				for i := 1; i <= ops; i++ {
					fm := vNewMem()
					_ = fm.fs().MkDir("ext")
					fm.n = 0
					fsub, _ := fm.fs().Sub("ext")
					fm.failAt = i
					e.SetFS(fsub, true)
					err := e.WriteConfig()
					if fm.hit != "" && err == nil && fm.hit[:5] != "close" {
						return "fault", "no error although this failed: " + fm.hit
					}
				}
			}
			return "", ""
		})
	}
}
