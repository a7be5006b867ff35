package extension

// ---------- C10: percent encoding and hashed layouts ----------

def unreserved(c) = 97 <= c && c <= 122 || 65 <= c && c <= 90 || 48 <= c && c <= 57 || c == 45 || c == 95

logic escn(string, int) string
axiom esc-0: forall s string :: {escn(s, 0)} escn(s, 0) == ""
axiom esc-1: forall s string, k int :: {escn(s, k), s[k]} 0 <= k && k < len(s) ==> escn(s, k+1) == ite(unreserved(s[k]), escn(s, k) + chr(s[k]), escn(s, k) + "%" + fmtf("%02x", s[k]))
axiom hex2-ascii: forall c int :: {fmtf("%02x", c)} 0 <= c && c < 256 ==> len(fmtf("%02x", c)) == 2 && ascii(fmtf("%02x", c))

func escape(str) (result)
prop C10
strings
use hex2-ascii
nopanic
ensures encoded: result == escn(str, len(str))
ensures ascii: ascii(result)
loop 1
invariant sep: ref(result) != ref(ranged()) && row(ranged()) == entry(row(ranged()))
invariant prefix: bytes2str(result) == escn(str, idx())
invariant ascii: ascii(escn(str, idx()))

// the text a hash has received so far
ghost hashbuf: ifacestr
logic hashsum(any, string) string
trusted hash.Hash.Reset(h)
modifies hashbuf
ensures reset: hashbuf == upd(old(hashbuf), h, "")
trusted hash.Hash.Write(h, p) (n, err)
modifies hashbuf
ensures written: err == nil && hashbuf == upd(old(hashbuf), h, old(hashbuf)[h] + bytes2str(p))
trusted hash.Hash.Sum(h, b) (result)
strings
ensures sum: b == nil ==> fresh(result) && bytes2str(result) == hashsum(h, hashbuf[h])

def hexid(sl, id) = hexof(hashsum(sl.hash, id))
logic tup(string, int, int) string
axiom tup-0: forall d string, s int :: {tup(d, s, 0)} tup(d, s, 0) == ""
axiom tup-1: forall d string, s int, k int, j int :: {tup(d, s, k), tup(d, s, j)} 0 <= k && j == k + 1 ==> tup(d, s, j) == tup(d, s, k) + substr(d, k * s, j * s) + "/"

func (sl *StorageLayoutHashedNTuple).BuildStorageRootPath(storageRoot, id) (result, err)
prop C10
strings
use tup-0, tup-1
nopanic
requires sl != nil && sl.StorageLayoutHashedNTupleConfig != nil && sl.hash != nil
requires 0 <= sl.TupleSize && 0 <= sl.NumberOfTuples && sl.TupleSize <= 32 && sl.NumberOfTuples <= 32
modifies hashbuf
ensures short-is-error: (err == nil) == (len(hexid(sl, id)) >= sl.TupleSize * sl.NumberOfTuples)
ensures path: err == nil && !sl.ShortObjectRoot ==> result == tup(hexid(sl, id), sl.TupleSize, sl.NumberOfTuples) + hexid(sl, id)
ensures short-path: err == nil && sl.ShortObjectRoot ==> result == tup(hexid(sl, id), sl.TupleSize, sl.NumberOfTuples) + substr(hexid(sl, id), sl.NumberOfTuples * sl.TupleSize, len(hexid(sl, id)))
loop 1
invariant i: 0 <= i && i <= sl.NumberOfTuples && len(dirparts) == i
invariant joined: ite(i == 0, "", join(dirparts, "/") + "/") == tup(digest, sl.TupleSize, i)

def escid(id) = escn(id, len(id))
def cut100(p, d) = ite(len(p) > 100, substr(p, 0, 100) + "-" + d, p)

func (sl *StorageLayoutHashAndIdNTuple).BuildStorageRootPath(storageRoot, id) (result, err)
prop C10
strings
use tup-0, tup-1
nopanic
requires sl != nil && sl.StorageLayoutHashAndIdNTupleConfig != nil && sl.hash != nil
requires 0 <= sl.TupleSize && 0 <= sl.NumberOfTuples && sl.TupleSize <= 32 && sl.NumberOfTuples <= 32
modifies hashbuf
ensures short-is-error: (err == nil) == (len(hexid(sl, id)) >= sl.TupleSize * sl.NumberOfTuples)
ensures path: err == nil ==> result == tup(hexid(sl, id), sl.TupleSize, sl.NumberOfTuples) + cut100(escid(id), hexid(sl, id))
loop 1
invariant i: 0 <= i && i <= sl.NumberOfTuples && len(dirparts) == i
invariant joined: ite(i == 0, "", join(dirparts, "/") + "/") == tup(digest, sl.TupleSize, i)

// ---------- C11: flat and prefix omitting layouts ----------

func (sl *StorageLayoutFlatDirect).BuildStorageRootPath(storageRoot, id) (result, err)
prop C11
nopanic
ensures id: err == nil && result == id

def omits(sl, id) = sl.Delimiter != "" && strings.LastIndex(id, sl.Delimiter) >= 0
def atend(sl, id) = omits(sl, id) && strings.LastIndex(id, sl.Delimiter) + len(sl.Delimiter) == len(id)
def omit(sl, id) = ite(omits(sl, id), substr(id, strings.LastIndex(id, sl.Delimiter) + len(sl.Delimiter), len(id)), id)

func (sl *FlatOmitPrefixStorageLayout).BuildStorageRootPath(storageRoot, id) (result, err)
prop C11
strings
nopanic
requires sl != nil && sl.FlatOmitPrefixStorageLayoutConfig != nil
ensures at-end: (err != nil) == atend(sl, id)
ensures path: err == nil ==> result == omit(sl, id)

logic rev(string) string
axiom rev-unique: forall s string, t string :: {rev(s), len(t)} ascii(s) && len(t) == len(s) && (forall k int :: {t[k]} 0 <= k && k < len(s) ==> t[k] == s[len(s)-1-k]) ==> t == rev(s)
logic zeros(int) string
axiom zeros-0: forall k int :: {zeros(k)} k <= 0 ==> zeros(k) == ""
axiom zeros-1: forall k int, j int :: {zeros(k), zeros(j)} 0 <= k && j == k + 1 ==> zeros(j) == zeros(k) + "0"

func reverse(s) (result)
prop C11
strings
nopanic
ensures longer: len(result) >= len(s)
ensures reversed: ascii(s) ==> result == rev(s)
loop 1
invariant ij: 0 <= i && j == len(rns) - 1 - i && i <= len(rns)
invariant len: len(bytes2str(rns)) >= len(s)
invariant outer: ascii(s) ==> forall k int :: {rns[k]} 0 <= k && k < i ==> rns[k] == s[len(s)-1-k]
invariant outer2: ascii(s) ==> forall k int :: {rns[k]} j < k && k < len(rns) ==> rns[k] == s[len(s)-1-k]
invariant inner: ascii(s) ==> forall k int :: {rns[k]} i <= k && k <= j ==> rns[k] == s[k]

def padded(sl, s) = ite(sl.ZeroPadding == "right", s + zeros(sl.TupleSize * sl.NumberOfTuples - len(s)), zeros(sl.TupleSize * sl.NumberOfTuples - len(s)) + s)

func (sl *NTupleOmitPrefixStorageLayout).BuildStorageRootPath(storageRoot, id) (result, err)
prop C11
strings
use tup-0, tup-1, zeros-0, zeros-1
nopanic
requires sl != nil && sl.NTupleOmitPrefixStorageLayoutConfig != nil && sl.TupleSize >= 1 && sl.NumberOfTuples >= 1
ensures at-end: (err != nil) == atend(sl, old(id))
ensures path: err == nil && !sl.ReverseObjectRoot ==> result == tup(padded(sl, omit(sl, old(id))), sl.TupleSize, sl.NumberOfTuples) + omit(sl, old(id))
ensures reversed-path: err == nil && sl.ReverseObjectRoot && ascii(omit(sl, old(id))) ==> result == tup(rev(padded(sl, omit(sl, old(id)))), sl.TupleSize, sl.NumberOfTuples) + omit(sl, old(id))
loop 1
invariant i: 0 <= i && (i == 0 || i <= targetLength - l)
invariant text: sbtext(str) == ite(sl.ZeroPadding == "right", id, "") + zeros(i)
invariant zeros: len(zeros(i)) == i && ascii(zeros(i))
loop 2
invariant target: len(base) >= targetLength
invariant base: base == padded(sl, id) && !sl.ReverseObjectRoot || sl.ReverseObjectRoot && (ascii(id) ==> base == rev(padded(sl, id)))
invariant i: 0 <= i && i <= sl.NumberOfTuples && len(pathComponents) == i
invariant joined: ite(i == 0, "", join(pathComponents, "/") + "/") == tup(base, sl.TupleSize, i)

// ---------- C25: pair tree ----------

def ptrare(c) = c == 34 || c == 42 || c == 43 || c == 44 || c == 60 || c == 61 || c == 62 || c == 63 || c == 92 || c == 94 || c == 124
def ptplain(c) = 33 <= c && c <= 126 && !ptrare(c)
def ptconv(c) = ite(c == 47, 61, ite(c == 58, 43, ite(c == 46, 44, c)))
logic pt1(string, int) string
axiom pt1-0: forall s string :: {pt1(s, 0)} pt1(s, 0) == ""
axiom pt1-1: forall s string, k int :: {pt1(s, k), s[k]} 0 <= k && k < len(s) ==> pt1(s, k+1) == ite(ptplain(s[k]), pt1(s, k) + chr(s[k]), pt1(s, k) + "^" + fmtf("%02x", s[k]))
logic pt2(string, int) string
axiom pt2-0: forall s string :: {pt2(s, 0)} pt2(s, 0) == ""
axiom pt2-1: forall s string, k int :: {pt2(s, k), s[k]} 0 <= k && k < len(s) ==> pt2(s, k+1) == pt2(s, k) + chr(ptconv(s[k]))
def ptenc(s) = pt2(pt1(s, len(s)), len(pt1(s, len(s))))

func (sl *StorageLayoutPairTree).idEncode(str) (res)
prop C25
strings
use hex2-ascii
nopanic
ensures encoded: res == ptenc(old(str))
loop 1
invariant sep: ref(result) != ref(ranged()) && row(ranged()) == entry(row(ranged()))
invariant prefix: bytes2str(result) == pt1(old(str), idx())
invariant ascii: ascii(bytes2str(result))
loop 2
invariant visible: isVisible == (33 <= c && c <= 126)
invariant notyet: forall k int :: {ranged()[k]} 0 <= k && k < idx() ==> c != ranged()[k]
loop 3
invariant sep: ref(result) != ref(ranged()) && row(ranged()) == entry(row(ranged()))
invariant prefix: bytes2str(result) == pt2(str, idx())
loop 4
invariant none: !doConvert && forall k int :: {k in visited()} k in visited() ==> k != c

logic segs(string, int, int) string
axiom segs-0: forall s string, n int :: {segs(s, n, 0)} segs(s, n, 0) == ""
axiom segs-1: forall s string, n int, k int, j int :: {segs(s, n, k), segs(s, n, j)} 0 <= k && j == k + 1 ==> segs(s, n, j) == segs(s, n, k) + ite(k == 0, "", "/") + substr(s, k * n, ite(j * n >= len(s), len(s), j * n))
logic cdiv(int, int) int
axiom cdiv: forall a int, b int, m int :: {cdiv(a, b), m * b} a >= 0 && b >= 1 && m * b >= a && (m - 1) * b < a ==> m == cdiv(a, b)

func (sl *StorageLayoutPairTree).BuildStorageRootPath(storageRoot, id) (result, err)
prop C25
strings
use segs-0, segs-1, cdiv
nopanic
requires sl != nil && sl.StorageLayoutPairTreeConfig != nil && sl.ShortyLength >= 1
ensures segments: err == nil && result == segs(ptenc(old(id)), sl.ShortyLength, cdiv(len(ptenc(old(id))), sl.ShortyLength))
loop 1
invariant i: 0 <= i && (i == 0 || i <= numParts) && len(dirparts) == i
invariant parts: numParts == cdiv(len(id), sl.ShortyLength)
invariant joined: join(dirparts, "/") == segs(id, sl.ShortyLength, i)

// ---------- C13: areas ----------

// relclean(p): p is a non-empty relative path without empty, '.' and '..' segments
logic relclean(string) bool
axiom relclean-first: forall p string :: {relclean(p)} relclean(p) ==> len(p) > 0 && p[0] != 47
axiom clean-relative: forall a string :: {filepath.Clean(a)} (a == "" ==> filepath.Clean(a) == ".") && (len(a) > 0 && a[0] != 47 ==> len(filepath.Clean(a)) > 0 && filepath.Clean(a)[0] != 47)
axiom join-clean: forall a string, p string :: {filepath.Join(a, p)} relclean(p) && (len(a) == 0 || a[0] != 47) ==> filepath.Join(a, p) == ite(filepath.Clean(a) == ".", p, filepath.Clean(a) + "/" + p)
axiom trimleft: forall s string :: {strings.TrimLeft(s, "/")} len(s) > 0 && s[0] != 47 ==> strings.TrimLeft(s, "/") == s

def areaof(sl, area) = ite(area == "", sl.area, area)
def knownarea(sl, a) = a == "full" || a in sl.Paths
def intoarea(sl, a, p) = ite(a == "full", p, filepath.Join(sl.Paths[a].Path, p))
def areafolder(sl, a) = strings.TrimLeft(filepath.Clean(sl.Paths[a].Path), "/")
def noprefix(sl, a) = areafolder(sl, a) == "" || areafolder(sl, a) == "."
def inarea(sl, a, p) = noprefix(sl, a) || strings.HasPrefix(strings.TrimLeft(p, "/"), areafolder(sl, a) + "/")

func (sl *ContentSubPath).BuildObjectManifestPath(object, originalPath, area) (result, err)
prop C13
nopanic
requires sl != nil && sl.ContentSubPathConfig != nil
ensures known: (err == nil) == knownarea(sl, areaof(sl, old(area)))
ensures into: err == nil ==> result == intoarea(sl, areaof(sl, old(area)), originalPath)

func (sl *ContentSubPath).BuildObjectStatePath(object, originalPath, area) (result, err)
prop C13
nopanic
requires sl != nil && sl.ContentSubPathConfig != nil
ensures known: (err == nil) == knownarea(sl, areaof(sl, old(area)))
ensures into: err == nil ==> result == intoarea(sl, areaof(sl, old(area)), originalPath)

func (sl *ContentSubPath).BuildObjectExtractPath(object, originalPath, area) (result, err)
prop C13
strings
use clean-relative, trimleft
nopanic
requires sl != nil && sl.ContentSubPathConfig != nil
ensures known: err == nil ==> knownarea(sl, areaof(sl, old(area)))
ensures full: areaof(sl, old(area)) == "full" ==> err == nil && result == old(originalPath)
ensures outside: knownarea(sl, areaof(sl, old(area))) && areaof(sl, old(area)) != "full" ==> (err == nil) == inarea(sl, areaof(sl, old(area)), old(originalPath))
ensures outside-is-wrong-area: err != nil && knownarea(sl, areaof(sl, old(area))) ==> errors.Is(err, ocfl.ExtensionObjectExtractPathWrongAreaError)
ensures unknown-is-other-error: !knownarea(sl, areaof(sl, old(area))) ==> !errors.Is(err, ocfl.ExtensionObjectExtractPathWrongAreaError)
ensures below: err == nil && areaof(sl, old(area)) != "full" && !noprefix(sl, areaof(sl, old(area))) ==> strings.TrimLeft(old(originalPath), "/") == areafolder(sl, areaof(sl, old(area))) + "/" + result
ensures inverse: forall p string :: {filepath.Join(sl.Paths[areaof(sl, old(area))].Path, p)} relclean(p) && knownarea(sl, areaof(sl, old(area))) && areaof(sl, old(area)) != "full" && (sl.Paths[areaof(sl, old(area))].Path == "" || sl.Paths[areaof(sl, old(area))].Path[0] != 47) && old(originalPath) == intoarea(sl, areaof(sl, old(area)), p) ==> err == nil && result == p

func (sl *ContentSubPath).GetAreaPath(object, area) (result, err)
prop C13
nopanic
requires sl != nil && sl.ContentSubPathConfig != nil
ensures known: (err == nil) == (area in sl.Paths)
ensures path: err == nil ==> result == sl.Paths[area].Path

func (sl *ContentSubPath).SetParams(params) (err)
prop C13
nopanic
requires sl != nil
modifies sl.area
ensures default: err == nil && sl.area == ite("ext-NNNN-content-subpath-area" in params && params["ext-NNNN-content-subpath-area"] != "", params["ext-NNNN-content-subpath-area"], "content")

// ---------- C14: the extension manager ----------

// What the extensions have been told so far is an opaque trace: telling x the event e turns t into
// did(t, x, e), and x answers with errof(t, x, e) and so on. The answers may depend on everything
// told before.
ghost tr: trace
logic did(trace, any, event) trace
logic errof(trace, any, event) error
logic pathof(trace, any, event) string
logic yesof(trace, any, event) bool

logic evAddBefore(any, any, string, string, string, bool) event
logic evUpdateBefore(any, any, string, string, string, bool) event
logic evDeleteBefore(any, string, string) event
logic evAddAfter(any, any, strrow, int, int, string, string, string, bool) event
logic evUpdateAfter(any, any, string, string, string, bool) event
logic evDeleteAfter(any, string, string) event
logic evObjectBefore(any) event
logic evObjectAfter(any) event
logic evNeedVersion(any) event
logic evDoVersion(any) event
logic evParams(int) event
logic evTerminate(int) event
logic evMetadata(any) event
logic evRootPath(any, string) event
logic evManifestPath(any, string, string) event
logic evStatePath(any, string, string) event
logic evExtractPath(any, string, string) event
logic evArea(any, string) event
logic evLayout(any) event

def told(x, e) = tr == did(old(tr), x, e)
def answers(x, e, err) = tr == did(old(tr), x, e) && err == errof(old(tr), x, e)

trusted ocfl.ExtensionContentChange.AddFileBefore(x, object, sourceFS, source, dest, area, isDir) (err)
modifies tr
ensures told: answers(x, evAddBefore(object, sourceFS, source, dest, area, isDir), err)
trusted ocfl.ExtensionContentChange.UpdateFileBefore(x, object, sourceFS, source, dest, area, isDir) (err)
modifies tr
ensures told: answers(x, evUpdateBefore(object, sourceFS, source, dest, area, isDir), err)
trusted ocfl.ExtensionContentChange.DeleteFileBefore(x, object, dest, area) (err)
modifies tr
ensures told: answers(x, evDeleteBefore(object, dest, area), err)
trusted ocfl.ExtensionContentChange.AddFileAfter(x, object, sourceFS, source, internalPath, digest, area, isDir) (err)
modifies tr
ensures told: answers(x, evAddAfter(object, sourceFS, row(source), off(source), len(source), internalPath, digest, area, isDir), err)
trusted ocfl.ExtensionContentChange.UpdateFileAfter(x, object, sourceFS, source, dest, area, isDir) (err)
modifies tr
ensures told: answers(x, evUpdateAfter(object, sourceFS, source, dest, area, isDir), err)
trusted ocfl.ExtensionContentChange.DeleteFileAfter(x, object, dest, area) (err)
modifies tr
ensures told: answers(x, evDeleteAfter(object, dest, area), err)
trusted ocfl.ExtensionObjectChange.UpdateObjectBefore(x, object) (err)
modifies tr
ensures told: answers(x, evObjectBefore(object), err)
trusted ocfl.ExtensionObjectChange.UpdateObjectAfter(x, object) (err)
modifies tr
ensures told: answers(x, evObjectAfter(object), err)

// all the extensions of a list are told the same event, one after the other
logic run(trace, ifacerow, int, int, event) trace
axiom run-0: forall t trace, r ifacerow, o int, e event :: {run(t, r, o, 0, e)} run(t, r, o, 0, e) == t
axiom run-1: forall t trace, r ifacerow, o int, k int, j int, e event :: {run(t, r, o, k, e), run(t, r, o, j, e)} 0 <= k && j == k + 1 ==> run(t, r, o, j, e) == did(run(t, r, o, k, e), r[o+k], e)
logic runok(trace, ifacerow, int, int, event) bool
axiom runok-0: forall t trace, r ifacerow, o int, e event :: {runok(t, r, o, 0, e)} runok(t, r, o, 0, e)
axiom runok-1: forall t trace, r ifacerow, o int, k int, j int, e event :: {runok(t, r, o, k, e), runok(t, r, o, j, e)} 0 <= k && j == k + 1 ==> runok(t, r, o, j, e) == (runok(t, r, o, k, e) && errof(run(t, r, o, k, e), r[o+k], e) == nil)

def runs(l, n, e) = run(old(tr), row(l), off(l), n, e)
def runsok(l, n, e) = runok(old(tr), row(l), off(l), n, e)
def alltold(l, e) = tr == runs(l, len(l), e)
def reported(l, e, err) = (err == nil) == runsok(l, len(l), e)

// nothing but extensions is registered (established by Add, kept by Finalize)
def noneNil(l) = forall k int :: {l[k]} 0 <= k && k < len(l) ==> l[k] != nil

func (manager *GOCFLExtensionManager).AddFileBefore(object, sourceFS, source, dest, area, isDir) (err)
prop C14
nopanic
requires manager != nil
requires registered: noneNil(manager.contentChange)
modifies tr
ensures told: alltold(manager.contentChange, evAddBefore(object, sourceFS, source, dest, area, isDir))
ensures reported: reported(manager.contentChange, evAddBefore(object, sourceFS, source, dest, area, isDir), err)
loop 1
invariant told: tr == runs(ranged(), idx(), evAddBefore(object, sourceFS, source, dest, area, isDir))
invariant ok: runsok(ranged(), idx(), evAddBefore(object, sourceFS, source, dest, area, isDir)) == (len(errs) == 0)
invariant errs: forall k int :: {errs[k]} 0 <= k && k < len(errs) ==> errs[k] != nil

func (manager *GOCFLExtensionManager).UpdateFileBefore(object, sourceFS, source, dest, area, isDir) (err)
prop C14
nopanic
requires manager != nil
requires registered: noneNil(manager.contentChange)
modifies tr
ensures told: alltold(manager.contentChange, evUpdateBefore(object, sourceFS, source, dest, area, isDir))
ensures reported: reported(manager.contentChange, evUpdateBefore(object, sourceFS, source, dest, area, isDir), err)
loop 1
invariant told: tr == runs(ranged(), idx(), evUpdateBefore(object, sourceFS, source, dest, area, isDir))
invariant ok: runsok(ranged(), idx(), evUpdateBefore(object, sourceFS, source, dest, area, isDir)) == (len(errs) == 0)
invariant errs: forall k int :: {errs[k]} 0 <= k && k < len(errs) ==> errs[k] != nil

func (manager *GOCFLExtensionManager).DeleteFileBefore(object, dest, area) (err)
prop C14
nopanic
requires manager != nil
requires registered: noneNil(manager.contentChange)
modifies tr
ensures told: alltold(manager.contentChange, evDeleteBefore(object, dest, area))
ensures reported: reported(manager.contentChange, evDeleteBefore(object, dest, area), err)
loop 1
invariant told: tr == runs(ranged(), idx(), evDeleteBefore(object, dest, area))
invariant ok: runsok(ranged(), idx(), evDeleteBefore(object, dest, area)) == (len(errs) == 0)
invariant errs: forall k int :: {errs[k]} 0 <= k && k < len(errs) ==> errs[k] != nil

func (manager *GOCFLExtensionManager).AddFileAfter(object, sourceFS, source, internalPath, digest, area, isDir) (err)
prop C14
nopanic
requires manager != nil
requires registered: noneNil(manager.contentChange)
modifies tr
ensures told: alltold(manager.contentChange, evAddAfter(object, sourceFS, row(source), off(source), len(source), internalPath, digest, area, isDir))
ensures reported: reported(manager.contentChange, evAddAfter(object, sourceFS, row(source), off(source), len(source), internalPath, digest, area, isDir), err)
loop 1
invariant told: tr == runs(ranged(), idx(), evAddAfter(object, sourceFS, row(source), off(source), len(source), internalPath, digest, area, isDir))
invariant ok: runsok(ranged(), idx(), evAddAfter(object, sourceFS, row(source), off(source), len(source), internalPath, digest, area, isDir)) == (len(errs) == 0)
invariant errs: forall k int :: {errs[k]} 0 <= k && k < len(errs) ==> errs[k] != nil

func (manager *GOCFLExtensionManager).UpdateFileAfter(object, sourceFS, source, dest, area, isDir) (err)
prop C14
nopanic
requires manager != nil
requires registered: noneNil(manager.contentChange)
modifies tr
ensures told: alltold(manager.contentChange, evUpdateAfter(object, sourceFS, source, dest, area, isDir))
ensures reported: reported(manager.contentChange, evUpdateAfter(object, sourceFS, source, dest, area, isDir), err)
loop 1
invariant told: tr == runs(ranged(), idx(), evUpdateAfter(object, sourceFS, source, dest, area, isDir))
invariant ok: runsok(ranged(), idx(), evUpdateAfter(object, sourceFS, source, dest, area, isDir)) == (len(errs) == 0)
invariant errs: forall k int :: {errs[k]} 0 <= k && k < len(errs) ==> errs[k] != nil

func (manager *GOCFLExtensionManager).DeleteFileAfter(object, dest, area) (err)
prop C14
nopanic
requires manager != nil
requires registered: noneNil(manager.contentChange)
modifies tr
ensures told: alltold(manager.contentChange, evDeleteAfter(object, dest, area))
ensures reported: reported(manager.contentChange, evDeleteAfter(object, dest, area), err)
loop 1
invariant told: tr == runs(ranged(), idx(), evDeleteAfter(object, dest, area))
invariant ok: runsok(ranged(), idx(), evDeleteAfter(object, dest, area)) == (len(errs) == 0)
invariant errs: forall k int :: {errs[k]} 0 <= k && k < len(errs) ==> errs[k] != nil

func (manager *GOCFLExtensionManager).UpdateObjectBefore(object) (err)
prop C14
nopanic
requires manager != nil
requires registered: noneNil(manager.objectChange)
modifies tr
ensures told: alltold(manager.objectChange, evObjectBefore(object))
ensures reported: reported(manager.objectChange, evObjectBefore(object), err)
loop 1
invariant told: tr == runs(ranged(), idx(), evObjectBefore(object))
invariant ok: runsok(ranged(), idx(), evObjectBefore(object)) == (len(errs) == 0)
invariant errs: forall k int :: {errs[k]} 0 <= k && k < len(errs) ==> errs[k] != nil

func (manager *GOCFLExtensionManager).UpdateObjectAfter(object) (err)
prop C14
nopanic
requires manager != nil
requires registered: noneNil(manager.objectChange)
modifies tr
ensures told: alltold(manager.objectChange, evObjectAfter(object))
ensures reported: reported(manager.objectChange, evObjectAfter(object), err)
loop 1
invariant told: tr == runs(ranged(), idx(), evObjectAfter(object))
invariant ok: runsok(ranged(), idx(), evObjectAfter(object)) == (len(errs) == 0)
invariant errs: forall k int :: {errs[k]} 0 <= k && k < len(errs) ==> errs[k] != nil

// path mappings are composed from left to right; an extension that fails or answers with the empty
// path is passed over
def evpath(kind, o, p, area) = ite(kind == 0, evRootPath(o, p), ite(kind == 1, evManifestPath(o, p, area), evStatePath(o, p, area)))
logic foldt(trace, ifacerow, int, int, int, any, string, string) trace
logic foldp(trace, ifacerow, int, int, int, any, string, string) string
logic foldok(trace, ifacerow, int, int, int, any, string, string) bool
axiom fold-0: forall t trace, r ifacerow, o int, kind int, x any, p string, a string :: {foldt(t, r, o, 0, kind, x, p, a)} foldt(t, r, o, 0, kind, x, p, a) == t && foldp(t, r, o, 0, kind, x, p, a) == p && foldok(t, r, o, 0, kind, x, p, a)
axiom fold-1: forall t trace, r ifacerow, o int, k int, j int, kind int, x any, p string, a string :: {foldt(t, r, o, k, kind, x, p, a), foldt(t, r, o, j, kind, x, p, a)} 0 <= k && j == k + 1 ==> let(e, evpath(kind, x, foldp(t, r, o, k, kind, x, p, a), a), let(s, foldt(t, r, o, k, kind, x, p, a), foldt(t, r, o, j, kind, x, p, a) == did(s, r[o+k], e) && foldp(t, r, o, j, kind, x, p, a) == ite(errof(s, r[o+k], e) == nil && pathof(s, r[o+k], e) != "", pathof(s, r[o+k], e), foldp(t, r, o, k, kind, x, p, a)) && foldok(t, r, o, j, kind, x, p, a) == (foldok(t, r, o, k, kind, x, p, a) && errof(s, r[o+k], e) == nil)))

def maps(x, e, result, err) = tr == did(old(tr), x, e) && err == errof(old(tr), x, e) && result == pathof(old(tr), x, e)
trusted ocfl.ExtensionStorageRootPath.BuildStorageRootPath(x, storageRoot, id) (result, err)
modifies tr
ensures told: maps(x, evRootPath(storageRoot, id), result, err)
trusted ocfl.ExtensionObjectContentPath.BuildObjectManifestPath(x, object, originalPath, area) (result, err)
modifies tr
ensures told: maps(x, evManifestPath(object, originalPath, area), result, err)
trusted ocfl.ExtensionObjectStatePath.BuildObjectStatePath(x, object, originalPath, area) (result, err)
modifies tr
ensures told: maps(x, evStatePath(object, originalPath, area), result, err)
trusted ocfl.ExtensionObjectExtractPath.BuildObjectExtractPath(x, object, originalPath, area) (result, err)
modifies tr
ensures told: maps(x, evExtractPath(object, originalPath, area), result, err)

func (manager *GOCFLExtensionManager).BuildStorageRootPath(storageRoot, id) (result, err)
prop C14
nopanic
requires manager != nil
requires registered: noneNil(manager.storageRootPath)
modifies tr
ensures told: tr == foldt(old(tr), row(manager.storageRootPath), off(manager.storageRootPath), len(manager.storageRootPath), 0, storageRoot, old(id), "")
ensures composed: result == foldp(old(tr), row(manager.storageRootPath), off(manager.storageRootPath), len(manager.storageRootPath), 0, storageRoot, old(id), "")
ensures reported: (err == nil) == foldok(old(tr), row(manager.storageRootPath), off(manager.storageRootPath), len(manager.storageRootPath), 0, storageRoot, old(id), "")
loop 1
invariant told: tr == foldt(old(tr), row(ranged()), off(ranged()), idx(), 0, storageRoot, old(id), "")
invariant composed: id == foldp(old(tr), row(ranged()), off(ranged()), idx(), 0, storageRoot, old(id), "")
invariant ok: foldok(old(tr), row(ranged()), off(ranged()), idx(), 0, storageRoot, old(id), "") == (len(errs) == 0)
invariant errs: forall k int :: {errs[k]} 0 <= k && k < len(errs) ==> errs[k] != nil

func (manager *GOCFLExtensionManager).BuildObjectManifestPath(object, originalPath, area) (result, err)
prop C14
nopanic
requires manager != nil
requires registered: noneNil(manager.objectContentPath)
modifies tr
ensures told: tr == foldt(old(tr), row(manager.objectContentPath), off(manager.objectContentPath), len(manager.objectContentPath), 1, object, old(originalPath), area)
ensures composed: result == foldp(old(tr), row(manager.objectContentPath), off(manager.objectContentPath), len(manager.objectContentPath), 1, object, old(originalPath), area)
ensures reported: (err == nil) == foldok(old(tr), row(manager.objectContentPath), off(manager.objectContentPath), len(manager.objectContentPath), 1, object, old(originalPath), area)
loop 1
invariant told: tr == foldt(old(tr), row(ranged()), off(ranged()), idx(), 1, object, old(originalPath), area)
invariant composed: originalPath == foldp(old(tr), row(ranged()), off(ranged()), idx(), 1, object, old(originalPath), area)
invariant ok: foldok(old(tr), row(ranged()), off(ranged()), idx(), 1, object, old(originalPath), area) == (len(errs) == 0)
invariant errs: forall k int :: {errs[k]} 0 <= k && k < len(errs) ==> errs[k] != nil

func (manager *GOCFLExtensionManager).BuildObjectStatePath(object, originalPath, area) (result, err)
prop C14
nopanic
requires manager != nil
requires registered: noneNil(manager.objectExternalPath)
modifies tr
ensures told: tr == foldt(old(tr), row(manager.objectExternalPath), off(manager.objectExternalPath), len(manager.objectExternalPath), 2, object, old(originalPath), area)
ensures composed: result == foldp(old(tr), row(manager.objectExternalPath), off(manager.objectExternalPath), len(manager.objectExternalPath), 2, object, old(originalPath), area)
ensures reported: (err == nil) == foldok(old(tr), row(manager.objectExternalPath), off(manager.objectExternalPath), len(manager.objectExternalPath), 2, object, old(originalPath), area)
loop 1
invariant told: tr == foldt(old(tr), row(ranged()), off(ranged()), idx(), 2, object, old(originalPath), area)
invariant composed: originalPath == foldp(old(tr), row(ranged()), off(ranged()), idx(), 2, object, old(originalPath), area)
invariant ok: foldok(old(tr), row(ranged()), off(ranged()), idx(), 2, object, old(originalPath), area) == (len(errs) == 0)
invariant errs: forall k int :: {errs[k]} 0 <= k && k < len(errs) ==> errs[k] != nil

logic extname(any) string
trusted ocfl.Extension.GetName(x) (result)
ensures name: result == extname(x)
trusted ocfl.Extension.SetParams(x, params) (err)
modifies tr
ensures told: answers(x, evParams(params), err)
trusted ocfl.Extension.Terminate(x) (err)
modifies tr
ensures told: answers(x, evTerminate(0), err)
trusted ocfl.ExtensionNewVersion.DoNewVersion(x, object) (err)
modifies tr
ensures told: answers(x, evDoVersion(object), err)
trusted ocfl.ExtensionNewVersion.NeedNewVersion(x, object) (need, err)
modifies tr
ensures told: answers(x, evNeedVersion(object), err) && need == yesof(old(tr), x, evNeedVersion(object))
trusted ocfl.ExtensionArea.GetAreaPath(x, object, area) (path, err)
modifies tr
ensures told: maps(x, evArea(object, area), path, err)
trusted ocfl.ExtensionStorageRootPath.WriteLayout(x, fsys) (err)
modifies tr
ensures told: answers(x, evLayout(fsys), err)

// an event told in order up to the first error
logic strun(trace, ifacerow, int, int, event) trace
logic stok(trace, ifacerow, int, int, event) bool
axiom st-0: forall t trace, r ifacerow, o int, e event :: {strun(t, r, o, 0, e)} strun(t, r, o, 0, e) == t && stok(t, r, o, 0, e)
def ststep(t, r, o, k, j, e) = strun(t, r, o, j, e) == ite(stok(t, r, o, k, e), did(strun(t, r, o, k, e), r[o+k], e), strun(t, r, o, k, e)) && stok(t, r, o, j, e) == (stok(t, r, o, k, e) && errof(strun(t, r, o, k, e), r[o+k], e) == nil)
axiom st-1: forall t trace, r ifacerow, o int, k int, j int, e event :: {strun(t, r, o, k, e), strun(t, r, o, j, e)} 0 <= k && j == k + 1 ==> ststep(t, r, o, k, j, e)
axiom st-2: forall t trace, r ifacerow, o int, k int, e event, y any :: {did(strun(t, r, o, k, e), y, e)} 0 <= k ==> ststep(t, r, o, k, k+1, e)
axiom st-stays: forall t trace, r ifacerow, o int, k int, n int, e event :: {stok(t, r, o, k, e), strun(t, r, o, n, e)} 0 <= k && k <= n && !stok(t, r, o, k, e) ==> !stok(t, r, o, n, e) && strun(t, r, o, n, e) == strun(t, r, o, k, e)

func (manager *GOCFLExtensionManager).SetParams(params) (err)
prop C14
nopanic
requires manager != nil
requires registered: noneNil(manager.extensions)
modifies tr
ensures told: tr == strun(old(tr), row(manager.extensions), off(manager.extensions), len(manager.extensions), evParams(params))
ensures reported: (err == nil) == stok(old(tr), row(manager.extensions), off(manager.extensions), len(manager.extensions), evParams(params))
loop 1
invariant told: tr == strun(old(tr), row(ranged()), off(ranged()), idx(), evParams(params))
invariant ok: stok(old(tr), row(ranged()), off(ranged()), idx(), evParams(params))

func (manager *GOCFLExtensionManager).DoNewVersion(object) (err)
prop C14
nopanic
requires manager != nil
requires registered: noneNil(manager.newVersion)
modifies tr
ensures told: tr == strun(old(tr), row(manager.newVersion), off(manager.newVersion), len(manager.newVersion), evDoVersion(object))
ensures reported: (err == nil) == stok(old(tr), row(manager.newVersion), off(manager.newVersion), len(manager.newVersion), evDoVersion(object))
loop 1
invariant told: tr == strun(old(tr), row(ranged()), off(ranged()), idx(), evDoVersion(object))
invariant ok: stok(old(tr), row(ranged()), off(ranged()), idx(), evDoVersion(object))

func (manager *GOCFLExtensionManager).StoreRootLayout(fsys) (err)
prop C14
nopanic
requires manager != nil
requires registered: noneNil(manager.storageRootPath)
modifies tr
ensures told: tr == strun(old(tr), row(manager.storageRootPath), off(manager.storageRootPath), len(manager.storageRootPath), evLayout(fsys))
ensures reported: (err == nil) == stok(old(tr), row(manager.storageRootPath), off(manager.storageRootPath), len(manager.storageRootPath), evLayout(fsys))
loop 1
invariant told: tr == strun(old(tr), row(ranged()), off(ranged()), idx(), evLayout(fsys))
invariant ok: stok(old(tr), row(ranged()), off(ranged()), idx(), evLayout(fsys))

func (manager *GOCFLExtensionManager).Terminate() (err)
prop C14
nopanic
requires manager != nil
requires registered: noneNil(manager.extensions)
modifies tr
ensures told: alltold(manager.extensions, evTerminate(0))
ensures reported: reported(manager.extensions, evTerminate(0), err)
loop 1
invariant told: tr == runs(ranged(), idx(), evTerminate(0))
invariant ok: runsok(ranged(), idx(), evTerminate(0)) == (len(errs) == 0)
invariant errs: forall k int :: {errs[k]} 0 <= k && k < len(errs) ==> errs[k] != nil

// the version decision stops at the first yes and at the first error
logic ndrun(trace, ifacerow, int, int, event) trace
logic ndgo(trace, ifacerow, int, int, event) bool
logic ndyes(trace, ifacerow, int, int, event) bool
logic nderr(trace, ifacerow, int, int, event) bool
axiom nd-0: forall t trace, r ifacerow, o int, e event :: {ndrun(t, r, o, 0, e)} ndrun(t, r, o, 0, e) == t && ndgo(t, r, o, 0, e) && !ndyes(t, r, o, 0, e) && !nderr(t, r, o, 0, e)
def ndstep(t, r, o, k, j, e) = let(s, ndrun(t, r, o, k, e), ite(ndgo(t, r, o, k, e), ndrun(t, r, o, j, e) == did(s, r[o+k], e) && nderr(t, r, o, j, e) == (errof(s, r[o+k], e) != nil) && ndyes(t, r, o, j, e) == (errof(s, r[o+k], e) == nil && yesof(s, r[o+k], e)) && ndgo(t, r, o, j, e) == (errof(s, r[o+k], e) == nil && !yesof(s, r[o+k], e)), ndrun(t, r, o, j, e) == s && !ndgo(t, r, o, j, e) && ndyes(t, r, o, j, e) == ndyes(t, r, o, k, e) && nderr(t, r, o, j, e) == nderr(t, r, o, k, e)))
axiom nd-1: forall t trace, r ifacerow, o int, k int, j int, e event :: {ndrun(t, r, o, k, e), ndrun(t, r, o, j, e)} 0 <= k && j == k + 1 ==> ndstep(t, r, o, k, j, e)
axiom nd-2: forall t trace, r ifacerow, o int, k int, e event, y any :: {did(ndrun(t, r, o, k, e), y, e)} 0 <= k ==> ndstep(t, r, o, k, k+1, e)
axiom nd-stays: forall t trace, r ifacerow, o int, k int, n int, e event :: {ndgo(t, r, o, k, e), ndrun(t, r, o, n, e)} 0 <= k && k <= n && !ndgo(t, r, o, k, e) ==> !ndgo(t, r, o, n, e) && ndrun(t, r, o, n, e) == ndrun(t, r, o, k, e) && ndyes(t, r, o, n, e) == ndyes(t, r, o, k, e) && nderr(t, r, o, n, e) == nderr(t, r, o, k, e)

func (manager *GOCFLExtensionManager).NeedNewVersion(object) (need, err)
prop C14
nopanic
requires manager != nil
requires registered: noneNil(manager.newVersion)
modifies tr
ensures told: tr == ndrun(old(tr), row(manager.newVersion), off(manager.newVersion), len(manager.newVersion), evNeedVersion(object))
ensures reported: (err != nil) == nderr(old(tr), row(manager.newVersion), off(manager.newVersion), len(manager.newVersion), evNeedVersion(object))
ensures decision: need == ndyes(old(tr), row(manager.newVersion), off(manager.newVersion), len(manager.newVersion), evNeedVersion(object))
loop 1
invariant told: tr == ndrun(old(tr), row(ranged()), off(ranged()), idx(), evNeedVersion(object))
invariant go: ndgo(old(tr), row(ranged()), off(ranged()), idx(), evNeedVersion(object))
invariant no: !ndyes(old(tr), row(ranged()), off(ranged()), idx(), evNeedVersion(object)) && !nderr(old(tr), row(ranged()), off(ranged()), idx(), evNeedVersion(object))

// an area lookup stops at the first extension that answers with a path
logic arrun(trace, ifacerow, int, int, event) trace
logic argo(trace, ifacerow, int, int, event) bool
logic arpath(trace, ifacerow, int, int, event) string
logic arok(trace, ifacerow, int, int, event) bool
axiom ar-0: forall t trace, r ifacerow, o int, e event :: {arrun(t, r, o, 0, e)} arrun(t, r, o, 0, e) == t && argo(t, r, o, 0, e) && arpath(t, r, o, 0, e) == "" && arok(t, r, o, 0, e)
def arstep(t, r, o, k, j, e) = let(s, arrun(t, r, o, k, e), ite(argo(t, r, o, k, e), arrun(t, r, o, j, e) == did(s, r[o+k], e) && arpath(t, r, o, j, e) == pathof(s, r[o+k], e) && argo(t, r, o, j, e) == (pathof(s, r[o+k], e) == "") && arok(t, r, o, j, e) == (arok(t, r, o, k, e) && errof(s, r[o+k], e) == nil), arrun(t, r, o, j, e) == s && !argo(t, r, o, j, e) && arpath(t, r, o, j, e) == arpath(t, r, o, k, e)))
axiom ar-1: forall t trace, r ifacerow, o int, k int, j int, e event :: {arrun(t, r, o, k, e), arrun(t, r, o, j, e)} 0 <= k && j == k + 1 ==> arstep(t, r, o, k, j, e)
axiom ar-2: forall t trace, r ifacerow, o int, k int, e event, y any :: {did(arrun(t, r, o, k, e), y, e)} 0 <= k ==> arstep(t, r, o, k, k+1, e)
axiom ar-stays: forall t trace, r ifacerow, o int, k int, n int, e event :: {argo(t, r, o, k, e), arrun(t, r, o, n, e)} 0 <= k && k <= n && !argo(t, r, o, k, e) ==> !argo(t, r, o, n, e) && arrun(t, r, o, n, e) == arrun(t, r, o, k, e) && arpath(t, r, o, n, e) == arpath(t, r, o, k, e)

func (manager *GOCFLExtensionManager).GetAreaPath(object, area) (result, err)
prop C14
nopanic
requires manager != nil
requires registered: noneNil(manager.area)
modifies tr
ensures told: tr == arrun(old(tr), row(manager.area), off(manager.area), len(manager.area), evArea(object, area))
ensures found: !argo(old(tr), row(manager.area), off(manager.area), len(manager.area), evArea(object, area)) ==> err == nil && result == arpath(old(tr), row(manager.area), off(manager.area), len(manager.area), evArea(object, area))
ensures not-found: argo(old(tr), row(manager.area), off(manager.area), len(manager.area), evArea(object, area)) ==> result == "" && (err == nil) == arok(old(tr), row(manager.area), off(manager.area), len(manager.area), evArea(object, area))
loop 1
invariant told: tr == arrun(old(tr), row(ranged()), off(ranged()), idx(), evArea(object, area))
invariant go: argo(old(tr), row(ranged()), off(ranged()), idx(), evArea(object, area))
invariant ok: arok(old(tr), row(ranged()), off(ranged()), idx(), evArea(object, area)) == (len(errs) == 0)
invariant errs: forall k int :: {errs[k]} 0 <= k && k < len(errs) ==> errs[k] != nil

// extraction composes from left to right up to the first error
logic extt(trace, ifacerow, int, int, any, string, string) trace
logic extp(trace, ifacerow, int, int, any, string, string) string
logic extok(trace, ifacerow, int, int, any, string, string) bool
axiom ex-0: forall t trace, r ifacerow, o int, x any, p string, a string :: {extt(t, r, o, 0, x, p, a)} extt(t, r, o, 0, x, p, a) == t && extp(t, r, o, 0, x, p, a) == p && extok(t, r, o, 0, x, p, a)
def exstep(t, r, o, k, j, x, p, a) = let(s, extt(t, r, o, k, x, p, a), let(e, evExtractPath(x, extp(t, r, o, k, x, p, a), a), ite(extok(t, r, o, k, x, p, a), extt(t, r, o, j, x, p, a) == did(s, r[o+k], e) && extp(t, r, o, j, x, p, a) == pathof(s, r[o+k], e) && extok(t, r, o, j, x, p, a) == (errof(s, r[o+k], e) == nil), extt(t, r, o, j, x, p, a) == s && !extok(t, r, o, j, x, p, a))))
axiom ex-1: forall t trace, r ifacerow, o int, k int, j int, x any, p string, a string :: {extt(t, r, o, k, x, p, a), extt(t, r, o, j, x, p, a)} 0 <= k && j == k + 1 ==> exstep(t, r, o, k, j, x, p, a)
axiom ex-2: forall t trace, r ifacerow, o int, k int, e event, y any, x any, p string, a string :: {did(extt(t, r, o, k, x, p, a), y, e)} 0 <= k ==> exstep(t, r, o, k, k+1, x, p, a)
axiom ex-stays: forall t trace, r ifacerow, o int, k int, n int, x any, p string, a string :: {extok(t, r, o, k, x, p, a), extt(t, r, o, n, x, p, a)} 0 <= k && k <= n && !extok(t, r, o, k, x, p, a) ==> !extok(t, r, o, n, x, p, a) && extt(t, r, o, n, x, p, a) == extt(t, r, o, k, x, p, a)

func (manager *GOCFLExtensionManager).BuildObjectExtractPath(object, originalPath, area) (result, err)
prop C14
nopanic
requires manager != nil
requires registered: noneNil(manager.objectExtractPath)
modifies tr
ensures told: tr == extt(old(tr), row(manager.objectExtractPath), off(manager.objectExtractPath), len(manager.objectExtractPath), object, old(originalPath), area)
ensures reported: (err == nil) == extok(old(tr), row(manager.objectExtractPath), off(manager.objectExtractPath), len(manager.objectExtractPath), object, old(originalPath), area)
ensures composed: err == nil ==> result == extp(old(tr), row(manager.objectExtractPath), off(manager.objectExtractPath), len(manager.objectExtractPath), object, old(originalPath), area)
loop 1
invariant told: tr == extt(old(tr), row(ranged()), off(ranged()), idx(), object, old(originalPath), area)
invariant composed: originalPath == extp(old(tr), row(ranged()), off(ranged()), idx(), object, old(originalPath), area)
invariant ok: extok(old(tr), row(ranged()), off(ranged()), idx(), object, old(originalPath), area)

// the metadata of all the extensions by heading and extension name
logic hasmeta(trace, any, event, string) bool
logic metaval(trace, any, event, string) any
trusted ocfl.ExtensionMetadata.GetMetadata(x, object) (m, err)
modifies tr
ensures told: answers(x, evMetadata(object), err)
ensures new: m == nil || fresh(m)
ensures keys: forall h string :: {h in m} (h in m) == hasmeta(old(tr), x, evMetadata(object), h)
ensures values: forall h string :: {m[h]} h in m ==> m[h] == metaval(old(tr), x, evMetadata(object), h)
logic mh(trace, ifacerow, int, int, event, string, string) bool
logic mv(trace, ifacerow, int, int, event, string, string) any
axiom mh-0: forall t trace, r ifacerow, o int, e event, h string, n string :: {mh(t, r, o, 0, e, h, n)} !mh(t, r, o, 0, e, h, n)
axiom mh-1: forall t trace, r ifacerow, o int, k int, j int, e event, h string, n string :: {mh(t, r, o, j, e, h, n), strun(t, r, o, k, e)} 0 <= k && j == k + 1 ==> mh(t, r, o, j, e, h, n) == (mh(t, r, o, k, e, h, n) || n == extname(r[o+k]) && hasmeta(strun(t, r, o, k, e), r[o+k], e, h))
axiom mv-1: forall t trace, r ifacerow, o int, k int, j int, e event, h string, n string :: {mv(t, r, o, j, e, h, n), strun(t, r, o, k, e)} 0 <= k && j == k + 1 ==> mv(t, r, o, j, e, h, n) == ite(n == extname(r[o+k]) && hasmeta(strun(t, r, o, k, e), r[o+k], e, h), metaval(strun(t, r, o, k, e), r[o+k], e, h), mv(t, r, o, k, e, h, n))

def mdrow(manager) = row(manager.metadata)
def mdoff(manager) = off(manager.metadata)

func (manager *GOCFLExtensionManager).GetMetadata(object) (res, err)
prop C14
nopanic
requires manager != nil
requires registered: noneNil(manager.metadata)
modifies tr
ensures told: tr == strun(old(tr), row(manager.metadata), off(manager.metadata), len(manager.metadata), evMetadata(object))
ensures reported: (err == nil) == stok(old(tr), row(manager.metadata), off(manager.metadata), len(manager.metadata), evMetadata(object))
ensures complete: err == nil ==> forall h string, n string :: {mh(old(tr), row(manager.metadata), off(manager.metadata), len(manager.metadata), evMetadata(object), h, n)} mh(old(tr), row(manager.metadata), off(manager.metadata), len(manager.metadata), evMetadata(object), h, n) ==> h in res && n in as(res[h], "map[string]any") && as(res[h], "map[string]any")[n] == mv(old(tr), row(manager.metadata), off(manager.metadata), len(manager.metadata), evMetadata(object), h, n)
ensures sound: err == nil ==> forall h string, n string :: {n in as(res[h], "map[string]any")} h in res && n in as(res[h], "map[string]any") ==> mh(old(tr), row(manager.metadata), off(manager.metadata), len(manager.metadata), evMetadata(object), h, n)
loop 1
invariant told: tr == strun(old(tr), row(ranged()), off(ranged()), idx(), evMetadata(object))
invariant ok: stok(old(tr), row(ranged()), off(ranged()), idx(), evMetadata(object))
invariant own: forall h string :: {metaResult[h]} h in metaResult ==> fresh(metaResult[h]) && metaResult[h] != nil
invariant distinct: forall h string, g string :: {metaResult[h], metaResult[g]} h in metaResult && g in metaResult && metaResult[h] == metaResult[g] ==> h == g
invariant complete: forall h string, n string :: {mh(old(tr), row(ranged()), off(ranged()), idx(), evMetadata(object), h, n)} mh(old(tr), row(ranged()), off(ranged()), idx(), evMetadata(object), h, n) ==> h in metaResult && n in metaResult[h] && metaResult[h][n] == mv(old(tr), row(ranged()), off(ranged()), idx(), evMetadata(object), h, n)
invariant sound: forall h string, n string :: {n in metaResult[h]} h in metaResult && n in metaResult[h] ==> mh(old(tr), row(ranged()), off(ranged()), idx(), evMetadata(object), h, n)
loop 2
invariant own: forall h string :: {metaResult[h]} h in metaResult ==> fresh(metaResult[h]) && metaResult[h] != nil && metaResult[h] != meta
invariant distinct: forall h string, g string :: {metaResult[h], metaResult[g]} h in metaResult && g in metaResult && metaResult[h] == metaResult[g] ==> h == g
invariant new: forall h string :: {h in visited()} h in visited() ==> h in metaResult && extname(ext) in metaResult[h] && metaResult[h][extname(ext)] == meta[h]
invariant old: forall h string, n string :: {n in metaResult[h]} h in metaResult && n in metaResult[h] && !(h in visited() && n == extname(ext)) ==> entry(h in metaResult) && entry(n in metaResult[h])
invariant meta: forall h string :: {h in meta} (h in meta) == entry(h in meta)
invariant metaval: forall h string :: {meta[h]} meta[h] == entry(meta[h])
invariant visited: forall h string :: {h in visited()} h in visited() ==> h in meta
invariant same: forall h string :: {metaResult[h]} entry(h in metaResult) ==> h in metaResult && metaResult[h] == entry(metaResult[h])
invariant kept: forall h string, n string :: {entry(n in metaResult[h])} entry(h in metaResult) && entry(n in metaResult[h]) ==> h in metaResult && n in metaResult[h]
invariant oldval: forall h string, n string :: {metaResult[h][n]} !(h in visited() && n == extname(ext)) && h in metaResult && n in metaResult[h] ==> metaResult[h][n] == entry(metaResult[h][n])
loop 3
invariant done: forall h string :: {h in result} h in result == (h in visited())
invariant vals: forall h string :: {result[h]} h in visited() ==> typeis(result[h], "map[string]any") && as(result[h], "map[string]any") == metaResult[h]

def refused(ext) = extname(ext) == "NNNN-gocfl-extension-manager"
func (manager *GOCFLExtensionManager).Add(ext) (err)
prop C14
nopanic
requires manager != nil && ext != nil
modifies manager.extensions
modifies elems(manager.extensions)
modifies manager.storageRootPath
modifies elems(manager.storageRootPath)
modifies manager.objectContentPath
modifies elems(manager.objectContentPath)
modifies manager.contentChange
modifies elems(manager.contentChange)
modifies manager.objectChange
modifies elems(manager.objectChange)
modifies manager.fixityDigest
modifies elems(manager.fixityDigest)
modifies manager.objectExternalPath
modifies elems(manager.objectExternalPath)
modifies manager.objectExtractPath
modifies elems(manager.objectExtractPath)
modifies manager.metadata
modifies elems(manager.metadata)
modifies manager.area
modifies elems(manager.area)
modifies manager.stream
modifies elems(manager.stream)
modifies manager.newVersion
modifies elems(manager.newVersion)
ensures refused: (err != nil) == refused(ext)
ensures listed: len(manager.extensions) == len(old(manager.extensions)) + ite(refused(ext), 0, 1) && (!refused(ext) ==> manager.extensions[len(old(manager.extensions))] == ext) && forall k int :: {manager.extensions[k]} 0 <= k && k < len(old(manager.extensions)) ==> manager.extensions[k] == old(manager.extensions[k])
ensures storageRootPath: len(manager.storageRootPath) == len(old(manager.storageRootPath)) + ite((!refused(ext) && implements(ext, "ocfl.ExtensionStorageRootPath")), 1, 0) && ((!refused(ext) && implements(ext, "ocfl.ExtensionStorageRootPath")) ==> manager.storageRootPath[len(old(manager.storageRootPath))] == ext) && forall k int :: {manager.storageRootPath[k]} 0 <= k && k < len(old(manager.storageRootPath)) ==> manager.storageRootPath[k] == old(manager.storageRootPath[k])
ensures objectContentPath: len(manager.objectContentPath) == len(old(manager.objectContentPath)) + ite((!refused(ext) && implements(ext, "ocfl.ExtensionObjectContentPath")), 1, 0) && ((!refused(ext) && implements(ext, "ocfl.ExtensionObjectContentPath")) ==> manager.objectContentPath[len(old(manager.objectContentPath))] == ext) && forall k int :: {manager.objectContentPath[k]} 0 <= k && k < len(old(manager.objectContentPath)) ==> manager.objectContentPath[k] == old(manager.objectContentPath[k])
ensures contentChange: len(manager.contentChange) == len(old(manager.contentChange)) + ite((!refused(ext) && implements(ext, "ocfl.ExtensionContentChange")), 1, 0) && ((!refused(ext) && implements(ext, "ocfl.ExtensionContentChange")) ==> manager.contentChange[len(old(manager.contentChange))] == ext) && forall k int :: {manager.contentChange[k]} 0 <= k && k < len(old(manager.contentChange)) ==> manager.contentChange[k] == old(manager.contentChange[k])
ensures objectChange: len(manager.objectChange) == len(old(manager.objectChange)) + ite((!refused(ext) && implements(ext, "ocfl.ExtensionObjectChange")), 1, 0) && ((!refused(ext) && implements(ext, "ocfl.ExtensionObjectChange")) ==> manager.objectChange[len(old(manager.objectChange))] == ext) && forall k int :: {manager.objectChange[k]} 0 <= k && k < len(old(manager.objectChange)) ==> manager.objectChange[k] == old(manager.objectChange[k])
ensures fixityDigest: len(manager.fixityDigest) == len(old(manager.fixityDigest)) + ite((!refused(ext) && implements(ext, "ocfl.ExtensionFixityDigest")), 1, 0) && ((!refused(ext) && implements(ext, "ocfl.ExtensionFixityDigest")) ==> manager.fixityDigest[len(old(manager.fixityDigest))] == ext) && forall k int :: {manager.fixityDigest[k]} 0 <= k && k < len(old(manager.fixityDigest)) ==> manager.fixityDigest[k] == old(manager.fixityDigest[k])
ensures objectExternalPath: len(manager.objectExternalPath) == len(old(manager.objectExternalPath)) + ite((!refused(ext) && implements(ext, "ocfl.ExtensionObjectStatePath")), 1, 0) && ((!refused(ext) && implements(ext, "ocfl.ExtensionObjectStatePath")) ==> manager.objectExternalPath[len(old(manager.objectExternalPath))] == ext) && forall k int :: {manager.objectExternalPath[k]} 0 <= k && k < len(old(manager.objectExternalPath)) ==> manager.objectExternalPath[k] == old(manager.objectExternalPath[k])
ensures objectExtractPath: len(manager.objectExtractPath) == len(old(manager.objectExtractPath)) + ite((!refused(ext) && implements(ext, "ocfl.ExtensionObjectExtractPath")), 1, 0) && ((!refused(ext) && implements(ext, "ocfl.ExtensionObjectExtractPath")) ==> manager.objectExtractPath[len(old(manager.objectExtractPath))] == ext) && forall k int :: {manager.objectExtractPath[k]} 0 <= k && k < len(old(manager.objectExtractPath)) ==> manager.objectExtractPath[k] == old(manager.objectExtractPath[k])
ensures metadata: len(manager.metadata) == len(old(manager.metadata)) + ite((!refused(ext) && implements(ext, "ocfl.ExtensionMetadata")), 1, 0) && ((!refused(ext) && implements(ext, "ocfl.ExtensionMetadata")) ==> manager.metadata[len(old(manager.metadata))] == ext) && forall k int :: {manager.metadata[k]} 0 <= k && k < len(old(manager.metadata)) ==> manager.metadata[k] == old(manager.metadata[k])
ensures area: len(manager.area) == len(old(manager.area)) + ite((!refused(ext) && implements(ext, "ocfl.ExtensionArea")), 1, 0) && ((!refused(ext) && implements(ext, "ocfl.ExtensionArea")) ==> manager.area[len(old(manager.area))] == ext) && forall k int :: {manager.area[k]} 0 <= k && k < len(old(manager.area)) ==> manager.area[k] == old(manager.area[k])
ensures stream: len(manager.stream) == len(old(manager.stream)) + ite((!refused(ext) && implements(ext, "ocfl.ExtensionStream")), 1, 0) && ((!refused(ext) && implements(ext, "ocfl.ExtensionStream")) ==> manager.stream[len(old(manager.stream))] == ext) && forall k int :: {manager.stream[k]} 0 <= k && k < len(old(manager.stream)) ==> manager.stream[k] == old(manager.stream[k])
ensures newVersion: len(manager.newVersion) == len(old(manager.newVersion)) + ite((!refused(ext) && implements(ext, "ocfl.ExtensionNewVersion")), 1, 0) && ((!refused(ext) && implements(ext, "ocfl.ExtensionNewVersion")) ==> manager.newVersion[len(old(manager.newVersion))] == ext) && forall k int :: {manager.newVersion[k]} 0 <= k && k < len(old(manager.newVersion)) ==> manager.newVersion[k] == old(manager.newVersion[k])

logic extconfig(any) any
trusted ocfl.Extension.GetConfig(x) (result)
ensures config: result == extconfig(x)
func (manager *GOCFLExtensionManager).GetConfigName(extName) (result, err)
prop C14
nopanic
requires manager != nil
requires registered: noneNil(manager.extensions)
ensures active: (err == nil) == exists k int :: {manager.extensions[k]} 0 <= k && k < len(manager.extensions) && extname(manager.extensions[k]) == extName
ensures config: err == nil ==> exists k int :: {manager.extensions[k]} 0 <= k && k < len(manager.extensions) && extname(manager.extensions[k]) == extName && result == extconfig(manager.extensions[k])
loop 1
invariant not-yet: forall k int :: {ranged()[k]} 0 <= k && k < idx() ==> extname(ranged()[k]) != extName

// ---------- C12: clean paths ----------

// ns(s): s has no slash
logic ns(string) bool
axiom ns-def: forall s string :: {ns(s)} ns(s) == (forall k int :: {s[k]} 0 <= k && k < len(s) ==> s[k] != 47)
axiom ns-cat: forall a string, b string :: {a + b} ns(a) && ns(b) ==> ns(a + b)
axiom ns-sub: forall s string, i int, j int :: {substr(s, i, j)} ns(s) && 0 <= i && i <= j && j <= len(s) ==> ns(substr(s, i, j))
axiom ns-split: forall s string, i int :: {splitat(s, "/", i)} ns(splitat(s, "/", i))
axiom ns-trim: forall s string, c string :: {strings.Trim(s, c)} ns(s) ==> ns(strings.Trim(s, c))
axiom ns-replace: forall p string, s string, r string :: {rereplace(p, s, r)} ns(s) && ns(r) ==> ns(rereplace(p, s, r))
axiom replace-nonempty: forall p string, s string, r string :: {rereplace(p, s, r)} s != "" && r != "" && r[0] != 36 ==> rereplace(p, s, r) != ""
// encodeUTFCode returns non-empty text without a slash (its contract), so replacing matches by it keeps both
axiom refunc-utf: forall p string, s string :: {refunc(p, s, "extension.encodeUTFCode")} s != "" && ns(s) ==> refunc(p, s, "extension.encodeUTFCode") != "" && ns(refunc(p, s, "extension.encodeUTFCode"))

func encodeUTFCode(s) (result)
prop C12
strings
use ns-def, ns-trim
nopanic
ensures no-slash: ns(result)
ensures escape: len(result) >= 2 && result[0] == 61 && result[1] == 117

// elem(s, k): s is a path element of at most k bytes; goodp(p, k): p is a path of such elements
def elem(s, k) = ns(s) && s != "" && s != "." && s != ".." && len(s) <= k
logic goodp(string, int) bool
axiom goodp-elem: forall s string, k int :: {goodp(s, k)} elem(s, k) ==> goodp(s, k)
axiom goodp-join: forall a string, b string, k int :: {goodp(a + "/" + b, k)} goodp(a, k) && goodp(b, k) ==> goodp(a + "/" + b, k)
axiom hex-relclean: forall x string, i int, j int :: {substr(hexof(x), i, j)} 0 <= i && i < j && j <= len(hexof(x)) ==> relclean(substr(hexof(x), i, j))
axiom relclean-join: forall a string, b string :: {a + "/" + b} relclean(a) && relclean(b) ==> relclean(a + "/" + b)
axiom goodp-clean: forall s string, k int :: {goodp(s, k)} goodp(s, k) ==> relclean(s)
axiom clean-relclean: forall s string :: {filepath.Clean(s)} relclean(s) ==> filepath.Clean(s) == s && s != "."

logic fbt(string, int, int, string, int) string
axiom fbt-0: forall d string, n int, s int, b string :: {fbt(d, n, s, b, 0)} fbt(d, n, s, b, 0) == b
axiom fbt-1: forall d string, n int, s int, b string, i int, j int :: {fbt(d, n, s, b, i), fbt(d, n, s, b, j)} 0 <= i && j == i + 1 ==> fbt(d, n, s, b, j) == filepath.Join(substr(d, n - j, n - j + s), fbt(d, n, s, b, i))
axiom sum-nonempty: forall h any, s string :: {hashsum(h, s)} len(hashsum(h, s)) > 0
axiom hex-elem: forall x string, i int, j int, k int :: {goodp(substr(hexof(x), i, j), k)} 0 <= i && i < j && j <= len(hexof(x)) && j - i <= k ==> goodp(substr(hexof(x), i, j), k)

def cdv(a, b) = ite(a - b * (a / b) > 0, a / b + 1, a / b)
def dchunks(sl, d) = segs(d, sl.MaxPathSegmentLen, cdv(len(d), sl.MaxPathSegmentLen))
def fbpath(sl, d) = sl.FallbackFolder + "/" + fbt(d, sl.NumberOfFallbackTuples, sl.FallbackTupleSize, dchunks(sl, d), sl.NumberOfFallbackTuples)
def validdc(sl) = sl.MaxPathSegmentLen >= 1 && sl.MaxPathnameLen >= 1 && goodp(sl.FallbackFolder, sl.MaxPathSegmentLen) && 0 <= sl.FallbackTupleSize && sl.FallbackTupleSize <= sl.MaxPathSegmentLen && 0 <= sl.NumberOfFallbackTuples && ns(sl.ReplacementString) && ns(sl.WhitespaceReplacementString)

func (sl *DirectClean).fallback(fname) (result, err)
prop C12
strings
use segs-0, segs-1, fbt-0, fbt-1, ns-def, sum-nonempty, hex-elem, join-clean, clean-relclean, clean-relative, trimleft, relclean-first, goodp-join, goodp-clean, goodp-elem, hex-relclean, relclean-join
protects sl.hashMutex hashbuf hash.Hash
nopanic
requires sl != nil && sl.DirectCleanConfig != nil && sl.hash != nil && validdc(sl)
requires !locked(sl.hashMutex)
modifies hashbuf
ensures limit: err == nil ==> len(result) <= sl.MaxPathnameLen
ensures good: err == nil ==> goodp(result, sl.MaxPathSegmentLen)
ensures path: err == nil ==> result == fbpath(sl, hexof(hashsum(sl.hash, fname)))
loop 1
invariant i: 0 <= i && (i == 0 || i <= parts)
invariant parts: (parts - 1) * sl.MaxPathSegmentLen < len(digestString) && parts * sl.MaxPathSegmentLen >= len(digestString) && parts >= 1
invariant digest: digestString == hexof(hashsum(sl.hash, fname)) && len(digestString) > 0
invariant chunks: result == segs(digestString, sl.MaxPathSegmentLen, i)
invariant good: i > 0 ==> goodp(result, sl.MaxPathSegmentLen)
loop 2
invariant i: 0 <= i && i <= sl.NumberOfFallbackTuples
invariant tuples: result == fbt(digestString, sl.NumberOfFallbackTuples, sl.FallbackTupleSize, dchunks(sl, digestString), i)
invariant good: goodp(result, sl.MaxPathSegmentLen)

axiom join-good: forall a string, k int :: {goodp(a, k)} goodp(a, k) ==> a != ""

func (sl *DirectClean).build(fname) (result, err)
prop C12
strings
use ns-def, ns-cat, ns-sub, ns-split, ns-replace, replace-nonempty, refunc-utf, goodp-elem, goodp-join, join-good
nopanic
requires sl != nil && sl.DirectCleanConfig != nil && sl.hash != nil && validdc(sl)
requires !locked(sl.hashMutex)
modifies hashbuf
ensures limit: err == nil ==> len(result) <= sl.MaxPathnameLen
ensures good: err == nil ==> goodp(result, sl.MaxPathSegmentLen)
loop 1
invariant names: ref(result) != ref(names) && row(names) == entry(row(names))
invariant good: len(result) > 0 ==> goodp(join(result, "/"), sl.MaxPathSegmentLen)

func (sl *DirectClean).BuildStorageRootPath(storageRoot, id) (result, err)
prop C12
strings
nopanic
requires sl != nil && sl.DirectCleanConfig != nil && sl.hash != nil && validdc(sl)
requires !locked(sl.hashMutex)
modifies hashbuf
ensures limit: err == nil ==> len(result) <= sl.MaxPathnameLen
ensures good: err == nil ==> goodp(result, sl.MaxPathSegmentLen)

func (sl *DirectClean).BuildObjectManifestPath(object, originalPath, area) (result, err)
prop C12
strings
nopanic
requires sl != nil && sl.DirectCleanConfig != nil && sl.hash != nil && validdc(sl)
requires !locked(sl.hashMutex)
modifies hashbuf
ensures limit: err == nil ==> len(result) <= sl.MaxPathnameLen
ensures good: err == nil ==> goodp(result, sl.MaxPathSegmentLen)
