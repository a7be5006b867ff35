package ocfl

// state of the version named by the head of the inventory
def hd(i) = i.Versions.Versions[i.Head.string]
def hstate(i) = i.Versions.Versions[i.Head.string].State.State
def cnt(m, d, p) = ite(d in m, bag(m[d])[p], 0)
def wfHead(i) = i.Head != nil && i.Versions != nil && i.Head.string in i.Versions.Versions && hd(i) != nil && hd(i).State != nil
// the lists of a map of lists do not share memory
def sep(m) = forall d string, e string :: {ref(m[d]), ref(m[e])} d in m && e in m && d != e ==> ref(m[d]) != ref(m[e])
def ren(b, src, dst, p) = ite(p == dst, b[dst] + ite(src == dst, 0, b[src]), ite(p == src, 0, b[p]))
def freshvals(m) = forall d string :: {ref(m[d])} d in m ==> fresh(m[d])

func (i *InventoryBase).DeleteFile(stateFilename) (err)
  prop C01
  requires wf: wfHead(i)
  modifies hd(i).State.State
  modifies i.modified
  ensures noerr: err == nil
  ensures wf: wfHead(i)
  ensures fresh: fresh(hstate(i))
  ensures sep: sep(hstate(i)) && freshvals(hstate(i)) && allocd(hstate(i))
  ensures state: forall d string, p string :: {cnt(hstate(i), d, p)} cnt(hstate(i), d, p) == ite(p == stateFilename, 0, old(cnt(hstate(i), d, p)))
  ensures modified: i.modified <==> (old(i.modified) || (exists d string :: old(cnt(hstate(i), d, stateFilename)) > 0))
  loop 1
  invariant fresh: fresh(newState) && sep(newState) && freshvals(newState)
  invariant dom: forall d string :: {d in newState} d in newState <==> d in visited()
  invariant content: forall d string, p string :: {bag(newState[d])[p]} d in visited() ==> bag(newState[d])[p] == ite(p == stateFilename, 0, old(bag(hstate(i)[d])[p]))
  invariant found: found <==> (exists d string :: d in visited() && old(bag(hstate(i)[d])[stateFilename]) > 0)
  loop 2
  invariant fresh: fresh(newState) && sep(newState) && freshvals(newState)
  invariant dom: forall d string :: {d in newState} d in newState <==> (d in outervisited())
  invariant content: forall d string, p string :: {bag(newState[d])[p]} d in outervisited() && d != key ==> bag(newState[d])[p] == ite(p == stateFilename, 0, old(bag(hstate(i)[d])[p]))
  invariant cur: forall p string :: {bag(newState[key])[p]} bag(newState[key])[p] == ite(p == stateFilename, 0, bagn(state, idx())[p])
  invariant found: found <==> ((exists d string :: d in outervisited() && d != key && old(bag(hstate(i)[d])[stateFilename]) > 0) || bagn(state, idx())[stateFilename] > 0)

func (i *InventoryBase).RenameFile(stateSource, stateDest) (err)
  prop C01
  requires wf: wfHead(i)
  modifies hd(i).State.State
  modifies i.modified
  ensures noerr: err == nil
  ensures wf: wfHead(i)
  ensures fresh: fresh(hstate(i))
  ensures sep: sep(hstate(i)) && freshvals(hstate(i)) && allocd(hstate(i))
  ensures state: forall d string, p string :: {cnt(hstate(i), d, p)} cnt(hstate(i), d, p) == ite(p == stateDest, old(cnt(hstate(i), d, stateDest)) + ite(stateSource == stateDest, 0, old(cnt(hstate(i), d, stateSource))), ite(p == stateSource, 0, old(cnt(hstate(i), d, p))))
  ensures modified: i.modified <==> (old(i.modified) || (exists d string :: old(cnt(hstate(i), d, stateSource)) > 0))
  loop 1
  invariant fresh: fresh(newState) && sep(newState) && freshvals(newState)
  invariant dom: forall d string :: {d in newState} d in newState <==> d in visited()
  invariant content: forall d string, p string :: {bag(newState[d])[p]} d in visited() ==> bag(newState[d])[p] == ren(old(bag(hstate(i)[d])), stateSource, stateDest, p)
  invariant found: found <==> (exists d string :: d in visited() && old(bag(hstate(i)[d])[stateSource]) > 0)
  loop 2
  invariant fresh: fresh(newState) && sep(newState) && freshvals(newState)
  invariant dom: forall d string :: {d in newState} d in newState <==> (d in outervisited())
  invariant content: forall d string, p string :: {bag(newState[d])[p]} d in outervisited() && d != key ==> bag(newState[d])[p] == ren(old(bag(hstate(i)[d])), stateSource, stateDest, p)
  invariant cur: forall p string :: {bag(newState[key])[p]} bag(newState[key])[p] == ren(bagn(state, idx()), stateSource, stateDest, p)
  invariant found: found <==> ((exists d string :: d in outervisited() && d != key && old(bag(hstate(i)[d])[stateSource]) > 0) || bagn(state, idx())[stateSource] > 0)

func (i *InventoryBase).CopyFile(dest, digest) (err)
  prop C01
  requires wf: wfHead(i)
  requires man: i.Manifest != nil
  modifies hd(i).State.State
  modifies i.modified
  ensures err: err == nil <==> digest in old(dom(i.Manifest.Manifest))
  ensures unchanged: err != nil ==> (i.modified <==> old(i.modified)) && (forall d string, p string :: {cnt(hstate(i), d, p)} cnt(hstate(i), d, p) == old(cnt(hstate(i), d, p)))
  ensures wf: wfHead(i)
  ensures state: err == nil ==> (forall d string, p string :: {cnt(hstate(i), d, p)} cnt(hstate(i), d, p) == ite(p == dest && old(cnt(hstate(i), digest, dest)) == 0, ite(d == digest, 1, 0), old(cnt(hstate(i), d, p))))
  ensures modified: err == nil ==> (i.modified <==> (old(i.modified) || old(cnt(hstate(i), digest, dest)) == 0))
  ensures private: err == nil && old(cnt(hstate(i), digest, dest)) == 0 ==> fresh(hstate(i)) && sep(hstate(i)) && freshvals(hstate(i))
  ensures own: hstate(i) == old(hstate(i)) || fresh(hstate(i)) && sep(hstate(i)) && freshvals(hstate(i)) && allocd(hstate(i))

func (i *InventoryBase).AlreadyExists(stateFilename, checksum) (dup, err)
  prop C08
  requires head: i.Head != nil && i.Versions != nil
  requires wfv: i.Head.string in i.Versions.Versions ==> hd(i) != nil && hd(i).State != nil
  ensures noerr: err == nil
  ensures dup: dup <==> (checksum != "" && i.Head.string in i.Versions.Versions && cnt(hstate(i), checksum, stateFilename) > 0)

func (i *InventoryBase).IsUpdate(virtualFilename, checksum) (upd, err)
  prop C08
  requires head: i.Head != nil && i.Versions != nil
  requires wfv: i.Head.string in i.Versions.Versions ==> hd(i) != nil && hd(i).State != nil
  ensures noerr: err == nil
  ensures upd: upd <==> (checksum != "" && i.Head.string in i.Versions.Versions && cnt(hstate(i), checksum, virtualFilename) == 0 && (exists d string :: cnt(hstate(i), d, virtualFilename) > 0))
  loop 1
  invariant none: forall d string :: {d in visited()} d in visited() ==> bag(version.State.State[d])[virtualFilename] == 0

func (i *InventoryBase).GetDuplicates(checksum) (files)
  prop C08
  requires man: i.Manifest != nil
  ensures dup: checksum != "" && checksum in i.Manifest.Manifest ==> files == i.Manifest.Manifest[checksum]
  ensures none: !(checksum != "" && checksum in i.Manifest.Manifest) ==> len(files) == 0
  loop 1
  invariant none: !(checksum in visited())

func (i *InventoryBase).echoDelete(existing, pathPrefix) (err)
  prop C01
  requires head: i.Head != nil && i.Versions != nil
  requires wf: i.Head.string in i.Versions.Versions ==> wfHead(i)
  requires sorted: sorted(existing)
  modifies hd(i).State.State
  modifies i.modified
  ensures err: err == nil <==> i.Head.string in i.Versions.Versions
  ensures state: err == nil ==> (forall d string, p string :: {cnt(hstate(i), d, p)} cnt(hstate(i), d, p) == ite(strings.HasPrefix(p, pathPrefix) && !(p in existing), 0, old(cnt(hstate(i), d, p))))
  ensures modified: err == nil ==> (i.modified <==> (old(i.modified) || (exists d string, p string :: old(cnt(hstate(i), d, p)) > 0 && strings.HasPrefix(p, pathPrefix) && !(p in existing))))
  ensures own: err == nil && hstate(i) != old(hstate(i)) ==> fresh(hstate(i)) && sep(hstate(i)) && freshvals(hstate(i)) && allocd(hstate(i))
  loop 1
  invariant all: forall d string, p string :: {old(bag(hstate(i)[d])[p])} d in visited() && old(bag(hstate(i)[d])[p]) > 0 ==> bag(statefiles)[p] > 0
  invariant only: forall p string :: {bag(statefiles)[p]} bag(statefiles)[p] > 0 ==> (exists d string :: old(cnt(hstate(i), d, p)) > 0)
  loop 2
  invariant cur: forall p string :: {bag(statefiles)[p]} bag(statefiles)[p] == entry(bag(statefiles)[p]) + bagn(state, idx())[p]
  loop 3
  invariant ex: sorted(existing) && bag(existing) == old(bag(existing)) && bag(statefiles) == entry(bag(statefiles))
  invariant del: forall p string :: {bag(deleteFiles)[p]} bag(deleteFiles)[p] == ite(strings.HasPrefix(p, pathPrefix) && !(old(bag(existing))[p] > 0), bagn(statefiles, idx())[p], 0)
  loop 4
  invariant wf: wfHead(i) && i.Head == old(i.Head) && i.Versions == old(i.Versions) && hd(i) == old(hd(i)) && i.Head.string == old(i.Head.string)
  invariant same: bag(deleteFiles) == entry(bag(deleteFiles)) && bag(existing) == old(bag(existing))
  invariant own: hstate(i) != old(hstate(i)) ==> fresh(hstate(i)) && sep(hstate(i)) && freshvals(hstate(i))
  invariant state: forall d string, p string :: {cnt(hstate(i), d, p)} cnt(hstate(i), d, p) == ite(bagn(deleteFiles, idx())[p] > 0, 0, old(cnt(hstate(i), d, p)))
  invariant modified: i.modified <==> (old(i.modified) || (exists d string, p string :: old(cnt(hstate(i), d, p)) > 0 && bagn(deleteFiles, idx())[p] > 0))

func copyMapStringSlice(dest, src) ()
  prop C02
  modifies map(dest)
  requires dest: dest != nil && dest != src && len(dest) == 0
  ensures dom: dom(dest) == dom(src)
  ensures content: forall k string :: {bag(dest[k])} k in src ==> bag(dest[k]) == bag(src[k]) && len(dest[k]) == len(src[k])
  ensures private: sep(dest) && freshvals(dest)
  loop 1
  invariant dom: forall k string :: {k in dest} k in dest <==> k in visited()
  invariant content: forall k string :: {bag(dest[k])} k in visited() ==> bag(dest[k]) == old(bag(src[k])) && len(dest[k]) == old(len(src[k]))
  invariant private: sep(dest) && freshvals(dest)

// number of a version name
def vok(v) = match("^v(\\d+)$", v) && atoiok(group("^v(\\d+)$", v, 1))
def vnum(v) = atoi(group("^v(\\d+)$", v, 1))
def allvok(m) = forall v string :: {v in m} v in m ==> vok(v)
def vinj(m) = forall v string, w string :: {v in m, w in m} v in m && w in m && v != w ==> vnum(v) != vnum(w)

func (i *InventoryBase).GetVersionStrings() (res)
  bags pairs
  prop C06 C02 C05
  requires ver: i.Versions != nil
  ensures bad: !allvok(i.Versions.Versions) ==> len(res) == 0
  ensures own: ref(res) == 0 || fresh(res)
  ensures members: allvok(i.Versions.Versions) && vinj(i.Versions.Versions) ==> (forall v string :: {bag(res)[v]} bag(res)[v] == ite(v in i.Versions.Versions, 1, 0))
  ensures order: allvok(i.Versions.Versions) && vinj(i.Versions.Versions) ==> (forall a int, b int :: {res[a], res[b]} 0 <= a && a < b && b < len(res) ==> vnum(res[a]) < vnum(res[b]))
  loop 1
  invariant ok: forall v string :: {v in visited()} v in visited() ==> vok(v)
  invariant known: forall n int :: {n in versionString} n in versionString ==> versionString[n] in visited() && vnum(versionString[n]) == n
  invariant all: forall v string :: {v in visited()} v in visited() ==> vnum(v) in versionString
  invariant only: forall n int :: {bag(versionsInt)[n]} bag(versionsInt)[n] > 0 ==> n in versionString
  invariant once: vinj(i.Versions.Versions) ==> (forall n int :: {bag(versionsInt)[n]} bag(versionsInt)[n] == ite(n in versionString, 1, 0))
  loop 2
  invariant elems: len(versions) == idx() && (forall j int :: {versions[j]} 0 <= j && j < idx() ==> versions[j] == versionString[versionsInt[j]])
  invariant known: forall j int :: {versionsInt[j]} 0 <= j && j < len(versionsInt) ==> versionsInt[j] in versionString && vnum(versionString[versionsInt[j]]) == versionsInt[j]
  invariant strict: vinj(i.Versions.Versions) ==> (forall a int, b int :: {versionsInt[a], versionsInt[b]} 0 <= a && a < b && b < len(versionsInt) ==> versionsInt[a] < versionsInt[b])
  invariant count: vinj(i.Versions.Versions) ==> (forall v string :: {bag(versions)[v]} bag(versions)[v] == ite(v in i.Versions.Versions, bagn(versionsInt, idx())[vnum(v)], 0))

func (i *InventoryBase).getLastVersion() (last)
  prop C06 C02
  requires ver: i.Versions != nil
  ensures empty: len(i.Versions.Versions) == 0 || !allvok(i.Versions.Versions) ==> last == ""
  ensures highest: len(i.Versions.Versions) > 0 && allvok(i.Versions.Versions) ==> last in i.Versions.Versions && (forall v string :: {v in i.Versions.Versions} v in i.Versions.Versions ==> vnum(v) <= vnum(last))
  loop 1
  invariant ok: forall v string :: {v in visited()} v in visited() ==> vok(v)
  invariant known: forall n int :: {n in versionString} n in versionString ==> versionString[n] in visited() && vnum(versionString[n]) == n
  invariant all: forall v string :: {v in visited()} v in visited() ==> bag(versions)[vnum(v)] > 0
  invariant only: forall n int :: {bag(versions)[n]} bag(versions)[n] > 0 ==> n in versionString

func (i *InventoryBase).VersionLessOrEqual(v1, v2) (le)
  prop C06
  requires vv: i.versionValue != nil
  ensures le: le <==> (v1 in i.versionValue && v2 in i.versionValue && i.versionValue[v1] <= i.versionValue[v2])

// facts about version names (strconv, strings and regexp on these fixed patterns)
axiom vname1: forall n int :: {strconv.Itoa(n)} n >= 0 ==> vok("v" + strconv.Itoa(n)) && vnum("v" + strconv.Itoa(n)) == n
axiom vempty: !vok("") && !vok("latest")
axiom vname2: forall p int, n int :: {dynfmt(fmtf("v0%%0%dd", p), n)} 0 < p && p <= 1000000 && n >= 0 ==> vok(dynfmt(fmtf("v0%%0%dd", p), n)) && vnum(dynfmt(fmtf("v0%%0%dd", p), n)) == n
axiom vtrim: forall s string :: {strings.TrimLeft(strings.ToLower(s), "v0")} vok(s) && vnum(s) > 0 ==> atoiok(strings.TrimLeft(strings.ToLower(s), "v0")) && atoi(strings.TrimLeft(strings.ToLower(s), "v0")) == vnum(s)

func (i *InventoryBase).NewVersion(msg, UserName, UserAddress) (err)
  use vname1 vname2 vtrim vone
  requires pad: i.paddingLength <= 1000000
  prop C02
  requires wf: i.Head != nil && i.Versions != nil && i.Versions.Versions != nil
  requires head: i.Head.string != "" ==> wfHead(i) && vok(i.Head.string) && vnum(i.Head.string) > 0
  modifies i.Head.string
  modifies i.Head.err
  modifies map(i.Versions.Versions)
  modifies i.writeable
  ensures same: err != nil ==> i.Head.string == old(i.Head.string) && dom(i.Versions.Versions) == old(dom(i.Versions.Versions)) && vals(i.Versions.Versions) == old(vals(i.Versions.Versions))
  ensures wf: err == nil ==> wfHead(i) && i.writeable
  ensures dom: err == nil ==> dom(i.Versions.Versions) == upd(old(dom(i.Versions.Versions)), i.Head.string, true)
  ensures others: err == nil ==> (forall v string :: {i.Versions.Versions[v]} v != i.Head.string ==> i.Versions.Versions[v] == old(i.Versions.Versions[v]))
  ensures name: err == nil && i.paddingLength <= 0 ==> i.Head.string == ite(old(i.Head.string) == "", "v1", fmtf("v%d", old(vnum(i.Head.string)) + 1))
  ensures number: err == nil && old(i.Head.string) != "" ==> vok(i.Head.string) && vnum(i.Head.string) == old(vnum(i.Head.string)) + 1
  ensures padded: err == nil && i.paddingLength > 0 ==> i.Head.string == dynfmt(fmtf("v0%%0%dd", i.paddingLength), ite(old(i.Head.string) == "", 1, old(vnum(i.Head.string)) + 1))
  ensures padlen: err == nil && i.paddingLength > 0 && old(i.Head.string) != "" ==> len(i.Head.string) == old(len(i.Head.string))
  ensures fresh: err == nil ==> fresh(hd(i)) && fresh(hd(i).State) && fresh(hstate(i)) && sep(hstate(i)) && freshvals(hstate(i)) && allocd(hstate(i))
  ensures empty: err == nil && old(i.Head.string) == "" ==> len(hstate(i)) == 0
  ensures copy: err == nil && old(i.Head.string) != "" ==> dom(hstate(i)) == old(dom(hstate(i))) && (forall d string :: {bag(hstate(i)[d])} d in old(dom(hstate(i))) ==> bag(hstate(i)[d]) == old(bag(hstate(i)[d])))
  ensures meta: err == nil ==> hd(i).Message != nil && hd(i).Message.string == msg && hd(i).User != nil && hd(i).User.Name.string == UserName && hd(i).User.Address.string == UserAddress && hd(i).Created != nil
  ensures accepted: err == nil || (i.paddingLength > 0 && old(i.Head.string) != "")
  ensures vname: err == nil ==> vok(i.Head.string) && vnum(i.Head.string) > 0

func (i *InventoryBase).Clean() (err)
  use vempty
  prop C02
  requires wf: i.Head != nil && i.Versions != nil && i.Versions.Versions != nil
  modifies i.Head.string
  modifies i.Head.err
  modifies map(i.Versions.Versions)
  ensures kept: old(i.modified) || old(i.Head.string) == "v1" ==> err == nil && i.Head.string == old(i.Head.string) && dom(i.Versions.Versions) == old(dom(i.Versions.Versions))
  ensures removed: !(old(i.modified) || old(i.Head.string) == "v1") ==> dom(i.Versions.Versions) == upd(old(dom(i.Versions.Versions)), old(i.Head.string), false)
  ensures rest: forall v string :: {i.Versions.Versions[v]} v in i.Versions.Versions ==> i.Versions.Versions[v] == old(i.Versions.Versions[v])
  ensures head: err == nil && !(old(i.modified) || old(i.Head.string) == "v1") ==> i.Head.string in i.Versions.Versions && (forall v string :: {v in i.Versions.Versions} v in i.Versions.Versions ==> vnum(v) <= vnum(i.Head.string))
  ensures ok: allvok(i.Versions.Versions) && len(i.Versions.Versions) > 0 ==> err == nil

// two maps of lists, and a list, do not share memory
def lists0(m, n) = forall d string, e string :: {ref(m[d]), ref(n[e])} d in m && e in n ==> ref(m[d]) != ref(n[e]) || ref(m[d]) == 0
def sep0(m) = forall d string, e string :: {ref(m[d]), ref(m[e])} d in m && e in m && d != e ==> ref(m[d]) != ref(m[e]) || ref(m[d]) == 0
def off0(m, s) = forall d string :: {ref(m[d])} d in m ==> ref(m[d]) != ref(s) || ref(s) == 0
def mf(i) = i.Manifest.Manifest
def fcnt(i, a, d, p) = ite(a in i.Fixity && d in i.Fixity[a], bag(i.Fixity[a][d])[p], 0)
def uniq(m) = forall p string, d string, e string :: {bag(m[d])[p], bag(m[e])[p]} d in m && e in m && bag(m[d])[p] > 0 && bag(m[e])[p] > 0 ==> d == e
// the maps and lists an inventory is made of do not share memory
def invsep(i) = hstate(i) != mf(i) && hstate(i) != nil && mf(i) != nil
  && sep0(hstate(i)) && sep0(mf(i)) && lists0(hstate(i), mf(i))
  && (forall a string :: {i.Fixity[a]} a in i.Fixity ==> i.Fixity[a] != nil && i.Fixity[a] != hstate(i) && i.Fixity[a] != mf(i) && sep0(i.Fixity[a]) && lists0(i.Fixity[a], hstate(i)) && lists0(i.Fixity[a], mf(i)))
  && (forall a string, b string :: {i.Fixity[a], i.Fixity[b]} a in i.Fixity && b in i.Fixity && a != b ==> i.Fixity[a] != i.Fixity[b] && lists0(i.Fixity[a], i.Fixity[b]))
def sameRows(i) = dom(hstate(i)) == old(dom(hstate(i))) && vals(hstate(i)) == old(vals(hstate(i))) && dom(mf(i)) == old(dom(mf(i))) && vals(mf(i)) == old(vals(mf(i))) && (forall d string :: {mf(i)[d]} d in mf(i) ==> bag(mf(i)[d]) == old(bag(mf(i)[d]))) && (forall d string :: {hstate(i)[d]} d in hstate(i) ==> bag(hstate(i)[d]) == old(bag(hstate(i)[d])))
def listof(m, r) = (exists d string :: d in m && ref(m[d]) == r)

func (i *InventoryBase).AddFile(stateFilenames, manifestFilename, checksums) (err)
  prop C09
  requires wf: wfHead(i) && i.Manifest != nil
  requires sep: invsep(i)
  requires args: off0(hstate(i), stateFilenames) && off0(mf(i), stateFilenames) && (forall a string :: {i.Fixity[a]} a in i.Fixity ==> off0(i.Fixity[a], stateFilenames))
  requires uniq: uniq(hstate(i))
  requires digest: i.DigestAlgorithm in checksums ==> strings.ToLower(checksums[i.DigestAlgorithm]) != ""
  modifies hd(i).State.State
  modifies i.modified
  modifies i.Fixity
  modifies map(i.Fixity)
  modifies maps_where("map[string][]string", r, r == hstate(i) || r == mf(i) || (exists a string :: a in i.Fixity && i.Fixity[a] == r))
  modifies elems_where("string", r, listof(hstate(i), r) || listof(mf(i), r) || (exists a string :: a in i.Fixity && listof(i.Fixity[a], r)))
  ensures err: err == nil <==> i.DigestAlgorithm in checksums
  ensures wf: wfHead(i)
  ensures refused: err != nil ==> (i.modified <==> old(i.modified)) && i.Fixity == old(i.Fixity) && (forall d string, p string :: {cnt(hstate(i), d, p)} cnt(hstate(i), d, p) == old(cnt(hstate(i), d, p)) && cnt(mf(i), d, p) == old(cnt(mf(i), d, p)))
  ensures state: err == nil ==> (forall d string, p string :: {cnt(hstate(i), d, p)} cnt(hstate(i), d, p) == ite(p in stateFilenames && old(cnt(hstate(i), strings.ToLower(checksums[i.DigestAlgorithm]), p)) == 0, ite(d == strings.ToLower(checksums[i.DigestAlgorithm]), 1, 0), old(cnt(hstate(i), d, p))))
  ensures manifest: err == nil ==> (forall d string, p string :: {cnt(mf(i), d, p)} cnt(mf(i), d, p) == ite(d == strings.ToLower(checksums[i.DigestAlgorithm]) && p == manifestFilename && p != "" && len(stateFilenames) > 0 && old(cnt(mf(i), d, p)) == 0, 1, old(cnt(mf(i), d, p))))
  ensures fixity: err == nil ==> (forall a string, d string, p string :: {fcnt(i, a, d, p)} fcnt(i, a, d, p) == ite(a in checksums && a != i.DigestAlgorithm && d == checksums[a] && p == manifestFilename && old(fcnt(i, a, d, p)) == 0, 1, old(fcnt(i, a, d, p))))
  ensures sep: invsep(i)
  ensures uniq: uniq(hstate(i))
  ensures kept: kept(i)
  ensures alloc: allocd(hstate(i))
  ensures modified: old(i.modified) ==> i.modified
  ensures args: row(stateFilenames) == old(row(stateFilenames))
  loop 1
  invariant modified: old(i.modified) ==> i.modified
  invariant args: row(stateFilenames) == old(row(stateFilenames)) && (forall a string :: {i.Fixity[a]} a in i.Fixity ==> off0(i.Fixity[a], stateFilenames))
  invariant stat: sameRows(i)
  invariant own: (i.Fixity == old(i.Fixity) || fresh(i.Fixity)) && (forall a string :: {i.Fixity[a]} a in i.Fixity ==> fresh(i.Fixity[a]) || (a in old(dom(i.Fixity)) && i.Fixity[a] == old(i.Fixity[a])))
  invariant ownl: forall a string, d string :: {i.Fixity[a][d]} a in i.Fixity && d in i.Fixity[a] ==> ref(i.Fixity[a][d]) == 0 || fresh(i.Fixity[a][d]) || (a in old(dom(i.Fixity)) && d in old(dom(i.Fixity[a])) && ref(i.Fixity[a][d]) == old(ref(i.Fixity[a][d])))
  invariant fix: forall a string, d string, p string :: {fcnt(i, a, d, p)} fcnt(i, a, d, p) == ite(a in visited() && a != i.DigestAlgorithm && d == checksums[a] && p == manifestFilename && old(fcnt(i, a, d, p)) == 0, 1, old(fcnt(i, a, d, p)))
  invariant sep: invsep(i)
  loop 2
  invariant wf: wfHead(i)
  invariant modified: old(i.modified) ==> i.modified
  invariant fixm: forall a string :: {i.Fixity[a]} a in i.Fixity ==> dom(i.Fixity[a]) == entry(dom(i.Fixity[a])) && vals(i.Fixity[a]) == entry(vals(i.Fixity[a]))
  invariant fix: forall a string, d string :: {i.Fixity[a][d]} a in i.Fixity && d in i.Fixity[a] ==> bag(i.Fixity[a][d]) == entry(bag(i.Fixity[a][d]))
  invariant ownm: forall d string :: {mf(i)[d]} d in mf(i) ==> ref(mf(i)[d]) == 0 || (allocated(mf(i)[d]) && !wasalloc(mf(i)[d])) || (d in entry(dom(mf(i))) && ref(mf(i)[d]) == entry(ref(mf(i)[d])))
  invariant owns: (hstate(i) == entry(hstate(i)) || (allocated(hstate(i)) && !wasalloc(hstate(i)))) && (forall d string :: {hstate(i)[d]} d in hstate(i) ==> ref(hstate(i)[d]) == 0 || (allocated(hstate(i)[d]) && !wasalloc(hstate(i)[d])) || (d in entry(dom(hstate(i))) && ref(hstate(i)[d]) == entry(ref(hstate(i)[d]))))
  invariant sep: hstate(i) != mf(i) && hstate(i) != nil && mf(i) != nil && sep0(hstate(i)) && sep0(mf(i)) && lists0(hstate(i), mf(i))
  invariant args: off0(hstate(i), stateFilenames) && off0(mf(i), stateFilenames) && bag(stateFilenames) == old(bag(stateFilenames)) && row(stateFilenames) == old(row(stateFilenames))
  invariant man: idx() > 0 ==> (forall d string, p string :: {cnt(mf(i), d, p)} cnt(mf(i), d, p) == ite(d == digest && p == manifestFilename && p != "" && old(cnt(mf(i), d, p)) == 0, 1, old(cnt(mf(i), d, p))))
  invariant man0: idx() == 0 ==> (forall d string, p string :: {cnt(mf(i), d, p)} cnt(mf(i), d, p) == old(cnt(mf(i), d, p)))
  invariant other: forall d string, p string :: {cnt(hstate(i), d, p)} bagn(stateFilenames, idx())[p] == 0 || old(cnt(hstate(i), digest, p)) > 0 ==> cnt(hstate(i), d, p) == old(cnt(hstate(i), d, p))
  invariant here: forall p string :: {cnt(hstate(i), digest, p)} bagn(stateFilenames, idx())[p] > 0 && old(cnt(hstate(i), digest, p)) == 0 ==> cnt(hstate(i), digest, p) == 1
  invariant gone: forall d string, p string :: {cnt(hstate(i), d, p)} bagn(stateFilenames, idx())[p] > 0 && old(cnt(hstate(i), digest, p)) == 0 && d != digest ==> cnt(hstate(i), d, p) == 0