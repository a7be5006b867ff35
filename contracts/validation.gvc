package ocfl

// the codes reported so far (calls of addValidationError)
ghost codes: strset

// (addValidationError and addValidationWarning: reporting.gvc)
ghost warns: strset

// file p is not measured with digest d (up to hex case) of algorithm a
def has(f, a, d) = a in f && strings.ToLower(d) in f[a]
def badentry(m, f, a, d) = d in m && (!has(f, a, d) || (exists p string :: bag(m[d])[p] > 0 && !(bag(f[a][strings.ToLower(d)])[p] > 0)))

func (i *InventoryBase).CheckFiles(fileManifest) (err)
  prop C03 C19
  requires man: i.Manifest != nil
  requires lower: forall a string, d string :: {d in fileManifest[a]} a in fileManifest && d in fileManifest[a] ==> strings.ToLower(d) == d
  requires ctx: allocated(stat(i.ctx))
  modifies stat(i.ctx).Errors
  modifies allelems("*ValidationError")
  modifies codes
  ensures err: err != nil <==> (len(fileManifest) > 0 && (!(i.DigestAlgorithm in fileManifest) || (exists a string :: a in i.Fixity && !(a in fileManifest))))
  ensures missing: err == nil ==> ("E092" in codes <==> ("E092" in old(codes) || (exists d string :: badentry(i.Manifest.Manifest, fileManifest, i.DigestAlgorithm, d))))
  ensures fixity: err == nil ==> ("E093" in codes <==> ("E093" in old(codes) || (exists a string, d string :: a in i.Fixity && badentry(i.Fixity[a], fileManifest, a, d))))
  ensures others: forall c string :: {codes[c]} c in old(codes) ==> c in codes
  ensures only: forall c string :: {codes[c]} c in codes && c != "E092" && c != "E093" ==> c in old(codes)
  loop 1
  invariant others: forall c string :: {codes[c]} c != "E092" ==> codes[c] == old(codes[c])
  invariant bad: "E092" in codes <==> ("E092" in old(codes) || (exists d string :: d in visited() && badentry(i.Manifest.Manifest, fileManifest, i.DigestAlgorithm, d)))
  loop 2
  invariant others: forall c string :: {codes[c]} c != "E092" ==> codes[c] == old(codes[c])
  invariant bad: "E092" in codes <==> ("E092" in entry(codes) || (exists p string :: bagn(files, idx())[p] > 0 && !(bag(csFilenames)[p] > 0)))
  loop 3
  invariant others: forall c string :: {codes[c]} c != "E093" ==> codes[c] == entry(codes[c])
  invariant known: len(fileManifest) > 0 ==> (forall a string :: {a in visited()} a in visited() ==> a in fileManifest)
  invariant bad: "E093" in codes <==> ("E093" in old(codes) || (exists a string, d string :: a in visited() && badentry(i.Fixity[a], fileManifest, a, d)))
  loop 4
  invariant others: forall c string :: {codes[c]} c != "E093" ==> codes[c] == entry(codes[c])
  invariant bad: "E093" in codes <==> ("E093" in entry(codes) || (exists d string :: d in visited() && badentry(fixity, fileManifest, digestAlg, d)))
  loop 5
  invariant others: forall c string :: {codes[c]} c != "E093" ==> codes[c] == entry(codes[c])
  invariant bad: "E093" in codes <==> ("E093" in entry(codes) || (exists p string :: bagn(files, idx())[p] > 0 && !(bag(csFilenames)[p] > 0)))

// the part of path p before position c is another path of the list
def cut(p, b, c) = 0 <= c && c < len(p) && p[c] == 47 && b[substr(p, 0, c)] > 0

func conflictingPaths(paths) (res)
  prop C04 C05
  ensures none: len(res) == 0 <==> ((forall p string :: {bag(paths)[p]} bag(paths)[p] <= 1) && (forall p string, c int :: {substr(p, 0, c)} bag(paths)[p] > 0 ==> !cut(p, bag(paths), c)))
  ensures only: forall p string :: {bag(res)[p]} bag(res)[p] > 0 ==> bag(paths)[p] > 0
  loop 1
  invariant same: bag(paths) == old(bag(paths))
  invariant known: forall p string :: {p in known} (p in known <==> bagn(paths, idx())[p] > 0) && (p in known ==> known[p])
  invariant dup: len(result) == 0 <==> (forall p string :: {bagn(paths, idx())[p]} bagn(paths, idx())[p] <= 1)
  invariant only: forall p string :: {bag(result)[p]} bag(result)[p] > 0 ==> bag(paths)[p] > 0
  loop 2
  invariant same: bag(paths) == old(bag(paths))
  invariant dup: len(result) == 0 <==> ((forall p string :: {bag(paths)[p]} bag(paths)[p] <= 1) && (forall p string, c int :: {substr(p, 0, c)} bagn(paths, idx())[p] > 0 ==> !cut(p, bag(paths), c)))
  invariant only: forall p string :: {bag(result)[p]} bag(result)[p] > 0 ==> bag(paths)[p] > 0
  loop 3
  invariant same: bag(paths) == old(bag(paths)) && pos >= 0
  invariant dup: len(result) == 0 <==> (entry(len(result)) == 0 && (forall c int :: {substr(path, 0, c)} c < pos ==> !cut(path, bag(paths), c)))
  invariant only: forall p string :: {bag(result)[p]} bag(result)[p] > 0 ==> bag(paths)[p] > 0

func sliceInsertSorted(data, v) (res)
  bags index
  prop C04
  modifies elems(data)
  requires sorted: sorted(data)
  ensures new: bag(res)[v] > 0
  ensures kept: forall x string :: {bag(res)[x]} old(bag(data)[x]) > 0 ==> bag(res)[x] > 0
  ensures only: forall x string :: {bag(res)[x]} bag(res)[x] > 0 ==> x == v || old(bag(data)[x]) > 0
  ensures sorted: sorted(res)
  ensures len: len(res) == len(data) + 1
  ensures own: fresh(res) || ref(res) == ref(data)

def path2(p) = ite(p[0] == 47, substr(p, 1, len(p)), p)
def dot(s) = s == "" || s == "." || s == ".."
logic badelem(string) bool
axiom badelem-def: forall p string :: {badelem(p)} badelem(p) <==> (exists k int :: 0 <= k && k < splitlen(path2(p), "/") && dot(splitat(path2(p), "/", k)))
def slashed(p) = p != "" && (p[0] == 47 || p[len(p) - 1] == 47)
def illegal(p) = p == "" || badelem(p)
def wfstates(i) = i.Versions != nil && i.Manifest != nil && (forall v string :: {i.Versions.Versions[v]} v in i.Versions.Versions ==> i.Versions.Versions[v] != nil && i.Versions.Versions[v].State != nil)
def used(i, d) = exists v string :: v in i.Versions.Versions && d in i.Versions.Versions[v].State.State

func (i *InventoryBase).checkManifest() (err)
  nopanic
  prop C04
  requires wf: wfstates(i)
  requires ctx: allocated(stat(i.ctx))
  modifies stat(i.ctx).Errors
  modifies allelems("*ValidationError")
  modifies codes
  ensures noerr: err == nil
  ensures e100: "E100" in codes <==> ("E100" in old(codes) || (exists d string, p string :: cnt(mf(i), d, p) > 0 && slashed(p)))
  ensures e099: "E099" in codes <==> ("E099" in old(codes) || (exists d string, p string :: cnt(mf(i), d, p) > 0 && illegal(p)))
  ensures e107: "E107" in codes <==> ("E107" in old(codes) || (exists d string :: d in mf(i) && !used(i, d)))
  ensures e096: "E096" in codes <==> ("E096" in old(codes) || (exists d string, e string :: d in mf(i) && e in mf(i) && d != e && strings.ToLower(d) == strings.ToLower(e)))
  ensures e101: "E101" in codes <==> ("E101" in old(codes) || !((forall d string, p string :: {bag(mf(i)[d])[p]} d in mf(i) ==> bag(mf(i)[d])[p] <= 1) && (forall d string, e string, p string :: {bag(mf(i)[d])[p], bag(mf(i)[e])[p]} d in mf(i) && e in mf(i) && d != e ==> bag(mf(i)[d])[p] == 0 || bag(mf(i)[e])[p] == 0) && (forall d string, p string, c int, e string :: {bag(mf(i)[d])[p], bag(mf(i)[e])[substr(p, 0, c)]} d in mf(i) && e in mf(i) && bag(mf(i)[d])[p] > 0 && 0 <= c && c < len(p) && p[c] == 47 ==> bag(mf(i)[e])[substr(p, 0, c)] == 0)))
  ensures only: forall c string :: {codes[c]} c != "E100" && c != "E099" && c != "E107" && c != "E096" && c != "E101" ==> codes[c] == old(codes[c])
  loop 1
  invariant vd: forall d string :: {bag(versionDigests)[d]} bag(versionDigests)[d] > 0 <==> (exists v string :: v in visited() && d in i.Versions.Versions[v].State.State)
  loop 2
  invariant vd: forall d string :: {bag(versionDigests)[d]} bag(versionDigests)[d] > 0 <==> (entry(bag(versionDigests)[d]) > 0 || d in visited())
  loop 3
  invariant own1: ref(digests) == entry(ref(digests)) || !wasalloc(digests)
  invariant own2: ref(allPaths) == entry(ref(allPaths)) || !wasalloc(allPaths)
  invariant own3: ref(allPaths) == 0 || ref(allPaths) != ref(digests)
  invariant vd: forall d string :: {bag(versionDigests)[d]} bag(versionDigests)[d] > 0 <==> used(i, d)
  invariant lower: sorted(digests) && (forall l string :: {bag(digests)[l]} bag(digests)[l] > 0 <==> (exists d string :: d in visited() && strings.ToLower(d) == l))
  invariant all: forall p string :: {bag(allPaths)[p]} bag(allPaths)[p] > 0 <==> (exists d string :: d in visited() && bag(mf(i)[d])[p] > 0)
  invariant o1: forall d string, p string :: {bag(mf(i)[d])[p]} d in visited() && bag(mf(i)[d])[p] > 1 ==> bag(allPaths)[p] > 1
  invariant o2: forall d string, e string, p string :: {bag(mf(i)[d])[p], bag(mf(i)[e])[p]} d in visited() && e in visited() && d != e && bag(mf(i)[d])[p] > 0 && bag(mf(i)[e])[p] > 0 ==> bag(allPaths)[p] > 1
  invariant o3: forall p string :: {bag(allPaths)[p]} bag(allPaths)[p] > 1 ==> (exists d string :: d in visited() && bag(mf(i)[d])[p] > 1) || (exists d string, e string :: d in visited() && e in visited() && d != e && bag(mf(i)[d])[p] > 0 && bag(mf(i)[e])[p] > 0)
  invariant e100: "E100" in codes <==> ("E100" in old(codes) || (exists d string, p string :: d in visited() && bag(mf(i)[d])[p] > 0 && slashed(p)))
  invariant e099: "E099" in codes <==> ("E099" in old(codes) || (exists d string, p string :: d in visited() && bag(mf(i)[d])[p] > 0 && illegal(p)))
  invariant e107: "E107" in codes <==> ("E107" in old(codes) || (exists d string :: d in visited() && !used(i, d)))
  invariant e096: "E096" in codes <==> ("E096" in old(codes) || (exists d string, e string :: d in visited() && e in visited() && d != e && strings.ToLower(d) == strings.ToLower(e)))
  invariant only: forall c string :: {codes[c]} c != "E100" && c != "E099" && c != "E107" && c != "E096" ==> codes[c] == old(codes[c])
  loop 4
  invariant own2: ref(allPaths) == entry(ref(allPaths)) || !wasalloc(allPaths)
  invariant keep: bag(versionDigests) == entry(bag(versionDigests)) && bag(digests) == entry(bag(digests)) && sorted(digests)
  invariant keep2: forall d string :: {mf(i)[d]} bag(mf(i)[d]) == entry(bag(mf(i)[d]))
  invariant all: forall p string :: {bag(allPaths)[p]} bag(allPaths)[p] == entry(bag(allPaths)[p]) + bagn(paths, idx())[p]
  invariant e100: "E100" in codes <==> ("E100" in entry(codes) || (exists p string :: bagn(paths, idx())[p] > 0 && slashed(p)))
  invariant e099: "E099" in codes <==> ("E099" in entry(codes) || (exists p string :: bagn(paths, idx())[p] > 0 && illegal(p)))
  invariant only: forall c string :: {codes[c]} c != "E100" && c != "E099" ==> codes[c] == entry(codes[c])
  loop 5
  invariant e099: "E099" in codes <==> ("E099" in entry(codes) || (exists k int :: 0 <= k && k < idx() && dot(elements[k])))
  invariant only: forall c string :: {codes[c]} c != "E099" ==> codes[c] == entry(codes[c])
  loop 6
  invariant l0: forall p string :: {bag(allPaths)[p]} bag(allPaths)[p] > 0 <==> (exists d string :: d in mf(i) && bag(mf(i)[d])[p] > 0)
  invariant l1: (forall p string :: {bag(allPaths)[p]} bag(allPaths)[p] <= 1) <==> ((forall d string, p string :: {bag(mf(i)[d])[p]} d in mf(i) ==> bag(mf(i)[d])[p] <= 1) && (forall d string, e string, p string :: {bag(mf(i)[d])[p], bag(mf(i)[e])[p]} d in mf(i) && e in mf(i) && d != e ==> bag(mf(i)[d])[p] == 0 || bag(mf(i)[e])[p] == 0))
  invariant l2: (forall p string, c int :: {substr(p, 0, c)} bag(allPaths)[p] > 0 ==> !cut(p, bag(allPaths), c)) <==> (forall d string, p string, c int, e string :: {bag(mf(i)[d])[p], bag(mf(i)[e])[substr(p, 0, c)]} d in mf(i) && e in mf(i) && bag(mf(i)[d])[p] > 0 && 0 <= c && c < len(p) && p[c] == 47 ==> bag(mf(i)[e])[substr(p, 0, c)] == 0)
  invariant once: len(ranged()) == 0 <==> ((forall d string, p string :: {bag(mf(i)[d])[p]} d in mf(i) ==> bag(mf(i)[d])[p] <= 1) && (forall d string, e string, p string :: {bag(mf(i)[d])[p], bag(mf(i)[e])[p]} d in mf(i) && e in mf(i) && d != e ==> bag(mf(i)[d])[p] == 0 || bag(mf(i)[e])[p] == 0) && (forall d string, p string, c int, e string :: {bag(mf(i)[d])[p], bag(mf(i)[e])[substr(p, 0, c)]} d in mf(i) && e in mf(i) && bag(mf(i)[d])[p] > 0 && 0 <= c && c < len(p) && p[c] == 47 ==> bag(mf(i)[e])[substr(p, 0, c)] == 0))
  invariant e101: "E101" in codes <==> ("E101" in entry(codes) || idx() > 0)
  invariant only: forall c string :: {codes[c]} c != "E101" ==> codes[c] == entry(codes[c])

func (i *InventoryBase).checkFixity() (err)
  nopanic
  prop C04
  requires ctx: allocated(stat(i.ctx))
  modifies stat(i.ctx).Errors
  modifies allelems("*ValidationError")
  modifies codes
  ensures noerr: err == nil
  ensures e100: "E100" in codes <==> ("E100" in old(codes) || (exists a string, d string, p string :: a in i.Fixity && cnt(i.Fixity[a], d, p) > 0 && slashed(p)))
  ensures e099: "E099" in codes <==> ("E099" in old(codes) || (exists a string, d string, p string :: a in i.Fixity && cnt(i.Fixity[a], d, p) > 0 && illegal(p)))
  ensures e097: "E097" in codes <==> ("E097" in old(codes) || (exists a string, d string, e string :: a in i.Fixity && d in i.Fixity[a] && e in i.Fixity[a] && d != e && strings.ToLower(d) == strings.ToLower(e)))
  ensures only: forall c string :: {codes[c]} c != "E100" && c != "E099" && c != "E097" ==> codes[c] == old(codes[c])
  loop 1
  invariant e100a: "E100" in codes && !("E100" in old(codes)) ==> (exists a string, d string, p string :: a in visited() && cnt(i.Fixity[a], d, p) > 0 && slashed(p))
  invariant e100b: forall a string, d string, p string :: {cnt(i.Fixity[a], d, p)} a in visited() && cnt(i.Fixity[a], d, p) > 0 && slashed(p) ==> "E100" in codes
  invariant e100c: "E100" in old(codes) ==> "E100" in codes
  invariant e099a: "E099" in codes && !("E099" in old(codes)) ==> (exists a string, d string, p string :: a in visited() && cnt(i.Fixity[a], d, p) > 0 && illegal(p))
  invariant e099b: forall a string, d string, p string :: {cnt(i.Fixity[a], d, p)} a in visited() && cnt(i.Fixity[a], d, p) > 0 && illegal(p) ==> "E099" in codes
  invariant e099c: "E099" in old(codes) ==> "E099" in codes
  invariant e097: "E097" in codes <==> ("E097" in old(codes) || (exists a string, d string, e string :: a in visited() && d in i.Fixity[a] && e in i.Fixity[a] && d != e && strings.ToLower(d) == strings.ToLower(e)))
  invariant only: forall c string :: {codes[c]} c != "E100" && c != "E099" && c != "E097" ==> codes[c] == old(codes[c])
  loop 2
  invariant own1: ref(digests) == entry(ref(digests)) || !wasalloc(digests)
  invariant lower: sorted(digests) && (forall l string :: {bag(digests)[l]} bag(digests)[l] > 0 <==> (exists d string :: d in visited() && strings.ToLower(d) == l))
  invariant e100a: "E100" in codes && !("E100" in entry(codes)) ==> (exists d string, p string :: d in visited() && bag(digestMap[d])[p] > 0 && slashed(p))
  invariant e100b: forall d string, p string :: {bag(digestMap[d])[p]} d in visited() && bag(digestMap[d])[p] > 0 && slashed(p) ==> "E100" in codes
  invariant e100c: "E100" in entry(codes) ==> "E100" in codes
  invariant e099a: "E099" in codes && !("E099" in entry(codes)) ==> (exists d string, p string :: d in visited() && bag(digestMap[d])[p] > 0 && illegal(p))
  invariant e099b: forall d string, p string :: {bag(digestMap[d])[p]} d in visited() && bag(digestMap[d])[p] > 0 && illegal(p) ==> "E099" in codes
  invariant e099c: "E099" in entry(codes) ==> "E099" in codes
  invariant e097: "E097" in codes <==> ("E097" in entry(codes) || (exists d string, e string :: d in visited() && e in visited() && d != e && strings.ToLower(d) == strings.ToLower(e)))
  invariant only: forall c string :: {codes[c]} c != "E100" && c != "E099" && c != "E097" ==> codes[c] == entry(codes[c])
  loop 3
  invariant e100: "E100" in codes <==> ("E100" in entry(codes) || (exists p string :: bagn(paths, idx())[p] > 0 && slashed(p)))
  invariant e099: "E099" in codes <==> ("E099" in entry(codes) || (exists p string :: bagn(paths, idx())[p] > 0 && illegal(p)))
  invariant only: forall c string :: {codes[c]} c != "E100" && c != "E099" ==> codes[c] == entry(codes[c])
  loop 4
  invariant e099: "E099" in codes <==> ("E099" in entry(codes) || (exists k int :: 0 <= k && k < idx() && dot(elements[k])))
  invariant only: forall c string :: {codes[c]} c != "E099" ==> codes[c] == entry(codes[c])

def vst(i, v) = i.Versions.Versions[v].State.State
def missing(i, d) = !(d in mf(i)) && (forall e string :: {e in mf(i)} e in mf(i) ==> strings.ToLower(e) != strings.ToLower(d))
def othercase(i, d) = !(d in mf(i)) && (exists e string :: e in mf(i) && strings.ToLower(e) == strings.ToLower(d))
def vparse(v) = atoiok(strings.TrimLeft(v, "v0"))
def vval(v) = atoi(strings.TrimLeft(v, "v0"))
def wffull(w) = w != nil && w.Created != nil && w.Message != nil && w.State != nil && w.User != nil && w.User.Name != nil && w.User.Address != nil
def wfversions(i) = i.Head != nil && i.Versions != nil && i.Manifest != nil && i.versionValue != nil && (forall v string :: {i.Versions.Versions[v]} v in i.Versions.Versions ==> wffull(i.Versions.Versions[v]))
def wfvalues(i) = forall v string :: {v in i.Versions.Versions} {v in i.versionValue} v in i.Versions.Versions ==> (v in i.versionValue <==> vparse(v)) && (v in i.versionValue && vval(v) >= 0 ==> i.versionValue[v] == vval(v))
def vplain(i) = allvok(i.Versions.Versions) && vinj(i.Versions.Versions) && (forall v string :: {v in i.Versions.Versions} v in i.Versions.Versions ==> vnum(v) > 0)
def good(i, v) = v in i.Versions.Versions && v in i.versionValue
def nodup(m) = (forall d string, p string :: {bag(m[d])[p]} d in m ==> bag(m[d])[p] <= 1) && (forall d string, e string, p string :: {bag(m[d])[p], bag(m[e])[p]} d in m && e in m && d != e ==> bag(m[d])[p] == 0 || bag(m[e])[p] == 0)
def nocut(m) = forall d string, p string, c int, e string :: {bag(m[d])[p], bag(m[e])[substr(p, 0, c)]} d in m && e in m && bag(m[d])[p] > 0 && 0 <= c && c < len(p) && p[c] == 47 ==> bag(m[e])[substr(p, 0, c)] == 0

def distinct(i) = forall v string, w string :: {i.versionValue[v], i.versionValue[w]} good(i, v) && good(i, w) && v != w ==> i.versionValue[v] != i.versionValue[w]
def gapless(i) = forall v string :: {i.versionValue[v]} good(i, v) ==> i.versionValue[v] >= 1 && (i.versionValue[v] > 1 ==> (exists w string :: good(i, w) && i.versionValue[w] == i.versionValue[v] - 1))
def e040(i) = i.Head.string != "" && (!(i.Head.string in i.Versions.Versions) || (exists v string :: v in i.Versions.Versions && vnum(v) > vnum(i.Head.string)))

axiom vtrim2: forall s string :: {strings.TrimLeft(s, "v0")} vok(s) && vnum(s) > 0 ==> atoiok(strings.TrimLeft(s, "v0")) && atoi(strings.TrimLeft(s, "v0")) == vnum(s)

// codes checkVersions never reports
def inert(a, b) = a["E017"] == b["E017"] && a["E025"] == b["E025"] && a["E036"] == b["E036"] && a["E058"] == b["E058"] && a["E060"] == b["E060"] && a["E061"] == b["E061"]

func (i *InventoryBase).checkVersions() (err)
  nopanic
  bags pairs @6
  prop C05
  use vtrim2 vempty
  requires wf: wfversions(i)
  requires val: wfvalues(i)
  requires ctx: allocated(stat(i.ctx))
  modifies stat(i.ctx).Errors
  modifies allelems("*ValidationError")
  modifies codes
  modifies warns
  modifies i.paddingLength
  ensures noerr: err == nil
  ensures e008: "E008" in codes <==> ("E008" in old(codes) || len(i.Versions.Versions) == 0)
  ensures e050: "E050" in codes <==> ("E050" in old(codes) || old((exists v string, d string :: good(i, v) && d in vst(i, v) && missing(i, d)) || (exists v string :: good(i, v) && i.Versions.Versions[v].State.err != nil)))
  ensures e096: "E096" in codes <==> ("E096" in old(codes) || old((exists v string, d string :: good(i, v) && d in vst(i, v) && othercase(i, d))))
  ensures e051: "E051" in codes <==> ("E051" in old(codes) || old((exists v string, d string :: good(i, v) && cnt(vst(i, v), d, "") > 0)))
  ensures e052: "E052" in codes <==> ("E052" in old(codes) || old((exists v string, d string, p string :: good(i, v) && cnt(vst(i, v), d, p) > 0 && p != "" && badelem(p))))
  ensures e053: "E053" in codes <==> ("E053" in old(codes) || old((exists v string, d string, p string :: good(i, v) && cnt(vst(i, v), d, p) > 0 && slashed(p))))
  ensures e095: "E095" in codes <==> ("E095" in old(codes) || (exists v string :: v in i.Versions.Versions && old(!(nodup(vst(i, v)) && nocut(vst(i, v))))))
  ensures e040: vplain(i) ==> ("E040" in codes <==> ("E040" in old(codes) || e040(i)))
  ensures e010: "E010" in codes <==> ("E010" in old(codes) || !(distinct(i) && gapless(i)))
  ensures only: forall c string :: {codes[c]} c in old(codes) ==> c in codes
  ensures inert: inert(codes, old(codes))
  loop 1
  invariant md: forall d string :: {bag(manifestDigests)[d]} bag(manifestDigests)[d] > 0 <==> d in visited()
  invariant ml: forall l string :: {bag(manifestDigestsLower)[l]} bag(manifestDigestsLower)[l] > 0 <==> (exists d string :: d in visited() && strings.ToLower(d) == l)
  loop 2
  invariant keep: forall c string :: {codes[c]} c in entry(codes) ==> c in codes
  invariant same: forall c string :: {codes[c]} c == "E008" || c == "E010" || c == "E040" || c == "E095" ==> codes[c] == entry(codes[c])
  invariant inert: inert(codes, entry(codes))
  invariant val: forall n int :: {bag(versions)[n]} bag(versions)[n] > 0 ==> (exists v string :: v in visited() && v in i.versionValue && i.versionValue[v] == n)
  invariant val1: forall v string :: {v in visited()} {i.versionValue[v]} v in visited() && v in i.versionValue ==> bag(versions)[i.versionValue[v]] > 0
  invariant val2: forall v string, w string :: {i.versionValue[v], i.versionValue[w]} v in visited() && w in visited() && v in i.versionValue && w in i.versionValue && v != w && i.versionValue[v] == i.versionValue[w] ==> bag(versions)[i.versionValue[v]] > 1
  invariant val3: forall n int :: {bag(versions)[n]} bag(versions)[n] > 1 ==> (exists v string, w string :: v in visited() && w in visited() && v in i.versionValue && w in i.versionValue && v != w && i.versionValue[v] == n && i.versionValue[w] == n)
  invariant e050a: "E050" in codes && !("E050" in old(codes)) ==> (exists v string, d string :: v in visited() && v in i.versionValue && d in vst(i, v) && missing(i, d)) || (exists v string :: v in visited() && v in i.versionValue && i.Versions.Versions[v].State.err != nil)
  invariant e050b: forall v string, d string :: {d in vst(i, v)} v in visited() && v in i.versionValue && d in vst(i, v) && missing(i, d) ==> "E050" in codes
  invariant e050c: forall v string :: {i.Versions.Versions[v]} v in visited() && v in i.versionValue && i.Versions.Versions[v].State.err != nil ==> "E050" in codes
  invariant e096a: "E096" in codes && !("E096" in old(codes)) ==> (exists v string, d string :: v in visited() && v in i.versionValue && d in vst(i, v) && othercase(i, d))
  invariant e096b: forall v string, d string :: {d in vst(i, v)} v in visited() && v in i.versionValue && d in vst(i, v) && othercase(i, d) ==> "E096" in codes
  invariant e051a: "E051" in codes && !("E051" in old(codes)) ==> (exists v string, d string :: v in visited() && v in i.versionValue && cnt(vst(i, v), d, "") > 0)
  invariant e051b: forall v string, d string :: {cnt(vst(i, v), d, "")} v in visited() && v in i.versionValue && cnt(vst(i, v), d, "") > 0 ==> "E051" in codes
  invariant e052a: "E052" in codes && !("E052" in old(codes)) ==> (exists v string, d string, p string :: v in visited() && v in i.versionValue && cnt(vst(i, v), d, p) > 0 && p != "" && badelem(p))
  invariant e052b: forall v string, d string, p string :: {cnt(vst(i, v), d, p)} v in visited() && v in i.versionValue && cnt(vst(i, v), d, p) > 0 && p != "" && badelem(p) ==> "E052" in codes
  invariant e053a: "E053" in codes && !("E053" in old(codes)) ==> (exists v string, d string, p string :: v in visited() && v in i.versionValue && cnt(vst(i, v), d, p) > 0 && slashed(p))
  invariant e053b: forall v string, d string, p string :: {cnt(vst(i, v), d, p)} v in visited() && v in i.versionValue && cnt(vst(i, v), d, p) > 0 && slashed(p) ==> "E053" in codes
  loop 3
  invariant keep: forall c string :: {codes[c]} c in entry(codes) ==> c in codes
  invariant same: forall c string :: {codes[c]} c == "E008" || c == "E010" || c == "E040" || c == "E095" ==> codes[c] == entry(codes[c])
  invariant inert: inert(codes, entry(codes))
  invariant e050a: "E050" in codes && !("E050" in entry(codes)) ==> (exists d string :: d in visited() && missing(i, d))
  invariant e050b: forall d string :: {d in visited()} d in visited() && missing(i, d) ==> "E050" in codes
  invariant e096a: "E096" in codes && !("E096" in entry(codes)) ==> (exists d string :: d in visited() && othercase(i, d))
  invariant e096b: forall d string :: {d in visited()} d in visited() && othercase(i, d) ==> "E096" in codes
  invariant e051a: "E051" in codes && !("E051" in entry(codes)) ==> (exists d string :: d in visited() && bag(version.State.State[d])[""] > 0)
  invariant e051b: forall d string :: {d in visited()} d in visited() && bag(version.State.State[d])[""] > 0 ==> "E051" in codes
  invariant e052a: "E052" in codes && !("E052" in entry(codes)) ==> (exists d string, p string :: d in visited() && bag(version.State.State[d])[p] > 0 && p != "" && badelem(p))
  invariant e052b: forall d string, p string :: {bag(version.State.State[d])[p]} d in visited() && bag(version.State.State[d])[p] > 0 && p != "" && badelem(p) ==> "E052" in codes
  invariant e053a: "E053" in codes && !("E053" in entry(codes)) ==> (exists d string, p string :: d in visited() && bag(version.State.State[d])[p] > 0 && slashed(p))
  invariant e053b: forall d string, p string :: {bag(version.State.State[d])[p]} d in visited() && bag(version.State.State[d])[p] > 0 && slashed(p) ==> "E053" in codes
  loop 4
  invariant others: forall c string :: {codes[c]} c != "E051" && c != "E052" && c != "E053" ==> codes[c] == entry(codes[c])
  invariant e051: "E051" in codes <==> ("E051" in entry(codes) || bagn(paths, idx())[""] > 0)
  invariant e052: "E052" in codes <==> ("E052" in entry(codes) || (exists p string :: bagn(paths, idx())[p] > 0 && p != "" && badelem(p)))
  invariant e053: "E053" in codes <==> ("E053" in entry(codes) || (exists p string :: bagn(paths, idx())[p] > 0 && slashed(p)))
  loop 5
  invariant e052: "E052" in codes <==> ("E052" in entry(codes) || (exists k int :: 0 <= k && k < idx() && dot(elements[k])))
  invariant others: forall c string :: {codes[c]} c != "E052" ==> codes[c] == entry(codes[c])
  loop 6
  invariant e050: "E050" in codes <==> ("E050" in old(codes) || old((exists v string, d string :: good(i, v) && d in vst(i, v) && missing(i, d)) || (exists v string :: good(i, v) && i.Versions.Versions[v].State.err != nil)))
  invariant e096: "E096" in codes <==> ("E096" in old(codes) || old((exists v string, d string :: good(i, v) && d in vst(i, v) && othercase(i, d))))
  invariant e051: "E051" in codes <==> ("E051" in old(codes) || old((exists v string, d string :: good(i, v) && cnt(vst(i, v), d, "") > 0)))
  invariant e052: "E052" in codes <==> ("E052" in old(codes) || old((exists v string, d string, p string :: good(i, v) && cnt(vst(i, v), d, p) > 0 && p != "" && badelem(p))))
  invariant e053: "E053" in codes <==> ("E053" in old(codes) || old((exists v string, d string, p string :: good(i, v) && cnt(vst(i, v), d, p) > 0 && slashed(p))))
  invariant same: codes == entry(codes)
  invariant m1: forall j int :: {versions[j]} 0 <= j && j < len(versions) ==> (exists v string :: good(i, v) && i.versionValue[v] == versions[j])
  invariant m2: forall v string :: {i.versionValue[v]} good(i, v) ==> (exists j int :: 0 <= j && j < len(versions) && versions[j] == i.versionValue[v])
  invariant m3: distinct(i) ==> (forall a int, b int :: {versions[a], versions[b]} 0 <= a && a < b && b < len(versions) ==> versions[a] < versions[b])
  invariant m5: distinct(i) ==> (forall k int :: {versions[k]} 0 < k && k < len(versions) ==> versions[k - 1] < versions[k])
  invariant m4: !distinct(i) ==> (exists a int, b int :: 0 <= a && a < b && b < len(versions) && versions[a] == versions[b])
  invariant seq: forall k int :: {versions[k]} 0 <= k && k < idx() ==> versions[k] == k + 1
  invariant seq2: forall k int :: {versions[k]} 0 < k && k < idx() ==> versions[k - 1] == versions[k] - 1
  loop 7
  invariant inert: inert(codes, old(codes))
  invariant e010: "E010" in codes <==> ("E010" in old(codes) || !(distinct(i) && gapless(i)))
  invariant keep: forall c string :: {codes[c]} c in old(codes) ==> c in codes
  invariant valn: vplain(i) ==> (forall v string :: {v in i.Versions.Versions} v in i.Versions.Versions ==> v in i.versionValue && i.versionValue[v] == vnum(v))
  invariant mem: vplain(i) ==> (forall j int :: {ranged()[j]} 0 <= j && j < len(ranged()) ==> ranged()[j] in i.Versions.Versions)
  invariant cnt: vplain(i) ==> (forall v string :: {v in i.Versions.Versions} v in i.Versions.Versions ==> bag(ranged())[v] > 0)
  invariant has: vplain(i) ==> (forall v string :: {v in i.Versions.Versions} v in i.Versions.Versions ==> (exists j int :: 0 <= j && j < len(ranged()) && ranged()[j] == v))
  invariant ord: vplain(i) ==> (forall a int, b int :: {ranged()[a], ranged()[b]} 0 <= a && a < b && b < len(ranged()) ==> vnum(ranged()[a]) < vnum(ranged()[b]))
  invariant recent: ite(idx() == 0, recentVersion == "", vplain(i) ==> recentVersion == ranged()[idx() - 1])
  loop 8
  invariant e040: vplain(i) ==> ("E040" in codes <==> ("E040" in old(codes) || e040(i)))
  invariant others: forall c string :: {codes[c]} c != "E095" ==> codes[c] == entry(codes[c])
  invariant e095a: "E095" in codes && !("E095" in old(codes)) ==> (exists v string :: v in visited() && old(!(nodup(vst(i, v)) && nocut(vst(i, v)))))
  invariant e095b: forall v string :: {v in visited()} v in visited() && old(!(nodup(vst(i, v)) && nocut(vst(i, v)))) ==> "E095" in codes
  invariant e095c: "E095" in old(codes) ==> "E095" in codes
  loop 9
  invariant all: forall p string :: {bag(logPaths)[p]} bag(logPaths)[p] > 0 <==> (exists d string :: d in visited() && old(bag(version.State.State[d])[p]) > 0)
  invariant o1: forall d string, p string :: {old(bag(version.State.State[d])[p])} d in visited() && old(bag(version.State.State[d])[p]) > 1 ==> bag(logPaths)[p] > 1
  invariant o2: forall d string, e string, p string :: {old(bag(version.State.State[d])[p]), old(bag(version.State.State[e])[p])} d in visited() && e in visited() && d != e && old(bag(version.State.State[d])[p]) > 0 && old(bag(version.State.State[e])[p]) > 0 ==> bag(logPaths)[p] > 1
  invariant o3: forall p string :: {bag(logPaths)[p]} bag(logPaths)[p] > 1 ==> (exists d string :: d in visited() && old(bag(version.State.State[d])[p]) > 1) || (exists d string, e string :: d in visited() && e in visited() && d != e && old(bag(version.State.State[d])[p]) > 0 && old(bag(version.State.State[e])[p]) > 0)
  loop 10
  invariant l0: forall p string :: {bag(logPaths)[p]} bag(logPaths)[p] > 0 <==> (exists d string :: d in version.State.State && old(bag(version.State.State[d])[p]) > 0)
  invariant l1a: old(nodup(version.State.State)) ==> (forall p string :: {bag(logPaths)[p]} bag(logPaths)[p] <= 1)
  invariant l1b: (forall p string :: {bag(logPaths)[p]} bag(logPaths)[p] <= 1) ==> (forall d string, p string :: {old(bag(version.State.State[d])[p])} d in version.State.State ==> old(bag(version.State.State[d])[p]) <= 1)
  invariant l1c: (forall p string :: {bag(logPaths)[p]} bag(logPaths)[p] <= 1) ==> old(nodup(version.State.State))
  invariant l2: (forall p string, c int :: {substr(p, 0, c)} bag(logPaths)[p] > 0 ==> !cut(p, bag(logPaths), c)) <==> old(nocut(version.State.State))
  invariant once: len(ranged()) == 0 <==> old(nodup(version.State.State)) && old(nocut(version.State.State))
  invariant e095: "E095" in codes <==> ("E095" in entry(codes) || idx() > 0)
  invariant others: forall c string :: {codes[c]} c != "E095" ==> codes[c] == entry(codes[c])

// what checkVersions needs
func (i *InventoryBase).check() (err)
  nopanic
  prop C05
  requires wf: i != nil && wfversions(i) && wfstates(i)
  requires val: wfvalues(i)
  requires ctx: allocated(stat(i.ctx))
  modifies stat(i.ctx).Errors
  modifies allelems("*ValidationError")
  modifies codes
  modifies warns
  modifies i.paddingLength
  ensures noerr: err == nil
  ensures e036: "E036" in codes <==> ("E036" in old(codes) || i.Id == "" || (i.Head.err == nil && i.Head.string == "") || i.Type == "" || i.DigestAlgorithm == "")
  ensures e025: "E025" in codes <==> ("E025" in old(codes) || (i.DigestAlgorithm != "sha512" && i.DigestAlgorithm != "sha256"))
  ensures e017: "E017" in codes <==> ("E017" in old(codes) || i.ContentDirectory == "." || i.ContentDirectory == ".." || (i.ContentDirectory != "" && strings.Contains(i.ContentDirectory, "/")))
  ensures e008: "E008" in codes <==> ("E008" in old(codes) || len(i.Versions.Versions) == 0)
  ensures e010: "E010" in codes <==> ("E010" in old(codes) || !(distinct(i) && gapless(i)))
  ensures e040: vplain(i) && i.Head.err == nil ==> ("E040" in codes <==> ("E040" in old(codes) || e040(i)))
  ensures rest: codes["E058"] == old(codes["E058"]) && codes["E060"] == old(codes["E060"]) && codes["E061"] == old(codes["E061"])

def itsversion(i, r) = r != 0 && i.Versions != nil && (exists v string :: {i.Versions.Versions[v]} v in i.Versions.Versions && i.Versions.Versions[v] == r)
def itsuser(i, r) = r != 0 && i.Versions != nil && (exists v string :: {i.Versions.Versions[v]} v in i.Versions.Versions && i.Versions.Versions[v] != nil && i.Versions.Versions[v].User == r)
func (i *InventoryBase).Finalize(inCreation) (err)
  nopanic
  prop C05
  requires i: i != nil && allocated(stat(i.ctx))
  modifies stat(i.ctx).Errors
  modifies allelems("*ValidationError")
  modifies elems_where("checksum.DigestAlgorithm", r, r != 0 && r == ref(i.fixityDigestAlgorithms))
  modifies codes
  modifies warns
  modifies i.paddingLength
  modifies i.Manifest
  modifies i.Versions
  modifies i.Head
  modifies i.versionValue
  modifies i.fixityDigestAlgorithms
  modifies maps_where("map[string]*Version", r, r != 0 && i.Versions != nil && r == i.Versions.Versions)
  modifies field_where("Version", "Created", r, itsversion(i, r))
  modifies field_where("Version", "User", r, itsversion(i, r))
  modifies field_where("Version", "Message", r, itsversion(i, r))
  modifies field_where("Version", "State", r, itsversion(i, r))
  modifies field_where("OCFLUser", "User", r, itsuser(i, r))
  ensures noerr: err == nil
  ensures wf: wfversions(i) && wfstates(i)
  ensures val: wfvalues(i)
  ensures vers: ite(old(i.Versions) != nil, i.Versions == old(i.Versions), fresh(i.Versions) && fresh(i.Versions.Versions))
  ensures orig: forall v string :: {i.Versions.Versions[v]} v in i.Versions.Versions ==> fresh(i.Versions.Versions[v]) && fresh(i.Versions.Versions[v].User) || (old(i.Versions) != nil && old(v in i.Versions.Versions) && i.Versions.Versions[v] == old(i.Versions.Versions[v]) && (fresh(i.Versions.Versions[v].User) || i.Versions.Versions[v].User == old(i.Versions.Versions[v].User)))
  ensures algs: fresh(i.fixityDigestAlgorithms) || ref(i.fixityDigestAlgorithms) == old(ref(i.fixityDigestAlgorithms))
  ensures rest: codes["E058"] == old(codes["E058"]) && codes["E060"] == old(codes["E060"]) && codes["E061"] == old(codes["E061"])
  loop 1
  invariant fver: i.Versions != nil && (i.Versions == old(i.Versions) || fresh(i.Versions)) && i.Versions.Versions == entry(i.Versions.Versions)
  invariant old1: old(i.Versions) != nil ==> i.Versions == old(i.Versions) && ref(i.Versions.Versions) == old(ref(i.Versions.Versions))
  invariant orig: forall v string :: {i.Versions.Versions[v]} v in i.Versions.Versions ==> (v in visited() && fresh(i.Versions.Versions[v])) || (old(i.Versions) != nil && old(v in i.Versions.Versions) && i.Versions.Versions[v] == old(i.Versions.Versions[v]))
  invariant userf: forall v string :: {i.Versions.Versions[v]} v in visited() && fresh(i.Versions.Versions[v]) ==> fresh(i.Versions.Versions[v].User)
  invariant user: forall v string :: {i.Versions.Versions[v]} v in i.Versions.Versions && i.Versions.Versions[v] != nil && !fresh(i.Versions.Versions[v]) ==> fresh(i.Versions.Versions[v].User) || i.Versions.Versions[v].User == old(i.Versions.Versions[v].User)
  invariant keys: forall v string :: {v in i.Versions.Versions} v in i.Versions.Versions ==> entry(v in i.Versions.Versions)
  invariant shape: forall v string :: {i.Versions.Versions[v]} v in visited() ==> wffull(i.Versions.Versions[v])
  invariant vala: forall v string :: {v in i.versionValue} v in i.versionValue ==> v in visited() && vparse(v)
  invariant valb: forall v string :: {v in visited()} v in visited() && vparse(v) ==> v in i.versionValue
  invariant valc: forall v string :: {i.versionValue[v]} v in visited() && v in i.versionValue && vval(v) >= 0 ==> i.versionValue[v] == vval(v)
  invariant rest: codes["E058"] == old(codes["E058"]) && codes["E060"] == old(codes["E060"]) && codes["E061"] == old(codes["E061"])
  loop 2
  invariant algs: fresh(i.fixityDigestAlgorithms) || ref(i.fixityDigestAlgorithms) == old(ref(i.fixityDigestAlgorithms))
