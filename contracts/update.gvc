package ocfl

// ---------- building a new version of an object ----------
// what a reader will deliver from now on, and the text of a file to be added
ghost unread: ifacestr
logic filetext(any) string

// an inventory which is ready for changes of its head version
def allocd(m) = allocated(m) && (forall d string :: {m[d]} d in m ==> allocated(m[d]))
def staged(i) = wfHead(i) && allocd(hstate(i)) && i.Manifest != nil && invsep(i) && uniq(hstate(i)) && vok(i.Head.string) && vnum(i.Head.string) > 0
// every list of the inventory was there before, under the same digest, or is new
def keptlist(r, was, oldr) = r == 0 || was && r == oldr
def kept(i) = (forall d string :: {hstate(i)[d]} d in hstate(i) ==> fresh(hstate(i)[d]) || keptlist(ref(hstate(i)[d]), d in old(dom(hstate(i))), old(ref(hstate(i)[d]))))
  && (forall d string :: {mf(i)[d]} d in mf(i) ==> fresh(mf(i)[d]) || keptlist(ref(mf(i)[d]), d in old(dom(mf(i))), old(ref(mf(i)[d]))))
  && (forall a string, d string :: {i.Fixity[a][d]} a in i.Fixity && d in i.Fixity[a] ==> fresh(i.Fixity[a][d]) || keptlist(ref(i.Fixity[a][d]), a in old(dom(i.Fixity)) && d in old(dom(i.Fixity[a])), old(ref(i.Fixity[a][d]))))
// a list shares no memory with the inventory
def private(i, s) = off0(hstate(i), s) && off0(mf(i), s) && (forall a string :: {i.Fixity[a]} a in i.Fixity ==> off0(i.Fixity[a], s))
// the list of files seen during the update shares no memory with the inventory
def filesok(object) = private(invbase(object.i), object.updateFiles) && allocated(object.updateFiles)
def filesown(object) = fresh(object.updateFiles) || ref(object.updateFiles) == old(ref(object.updateFiles))
def rootkept(object) = disk[rootinv(object)] == old(disk[rootinv(object)]) && disk[rootcar(object)] == old(disk[rootcar(object)])
def upob(object) = object != nil && allocated(invbase(object.i)) && object.fsys != nil && isinv(object.i) && object.logger != nil && object.extensionManager != nil && object.storageRoot != nil
// an inventory which may get a further version
def startable(i) = i.Head != nil && i.Versions != nil && i.Versions.Versions != nil && i.Manifest != nil && mf(i) != nil && sep0(mf(i))
  && (forall a string :: {i.Fixity[a]} a in i.Fixity ==> i.Fixity[a] != nil && i.Fixity[a] != mf(i) && sep0(i.Fixity[a]) && lists0(i.Fixity[a], mf(i)))
  && (forall a string, b string :: {i.Fixity[a], i.Fixity[b]} a in i.Fixity && b in i.Fixity && a != b ==> i.Fixity[a] != i.Fixity[b] && lists0(i.Fixity[a], i.Fixity[b]))
  && i.paddingLength <= 1000000 && (i.Head.string != "" ==> wfHead(i) && uniq(hstate(i)) && vok(i.Head.string) && vnum(i.Head.string) > 0)

axiom vone: vok("v1") && vnum("v1") == 1
axiom extinv: forall n string :: {"extensions/" + n} "extensions/" + n != "inventory.json"
axiom extcar: forall n string, a string :: {"extensions/" + n, "inventory.json." + a} "extensions/" + n != "inventory.json." + a
// no version name is the beginning of an inventory's name
axiom verinv: forall v string, n string :: {v + n} vok(v) ==> v + n != "inventory.json"
axiom vercar: forall v string, n string, a string :: {v + n, "inventory.json." + a} vok(v) ==> v + n != "inventory.json." + a

dispatch Inventory.NewVersion = InventoryBase of InventoryV1_0 InventoryV1_1
dispatch Inventory.Clean = InventoryBase of InventoryV1_0 InventoryV1_1
dispatch Inventory.AddFile = InventoryBase of InventoryV1_0 InventoryV1_1
dispatch Inventory.AlreadyExists = InventoryBase of InventoryV1_0 InventoryV1_1
dispatch Inventory.DeleteFile = InventoryBase of InventoryV1_0 InventoryV1_1
dispatch Inventory.RenameFile = InventoryBase of InventoryV1_0 InventoryV1_1
dispatch Inventory.CopyFile = InventoryBase of InventoryV1_0 InventoryV1_1
dispatch Inventory.GetDuplicates = InventoryBase of InventoryV1_0 InventoryV1_1
dispatch Inventory.echoDelete = InventoryBase of InventoryV1_0 InventoryV1_1
dispatch Inventory.BuildManifestName = InventoryBase of InventoryV1_0 InventoryV1_1
dispatch Inventory.GetContentDir = InventoryBase of InventoryV1_0 InventoryV1_1
dispatch Inventory.GetFixityDigestAlgorithm = InventoryBase of InventoryV1_0 InventoryV1_1
dispatch StorageRoot.setModified = StorageRootBase of StorageRootBase StorageRootV1_0 StorageRootV1_1 StorageRootV2_0

def contdir(i) = ite(i.ContentDirectory == "", "content", i.ContentDirectory)
func (i *InventoryBase).BuildManifestName(stateFilename) (path)
  prop C24 C23
  nopanic
  requires i: i != nil && i.Head != nil
  ensures path: path == filepath.ToSlash(filepath.Clean(filepath.Join(i.Head.string, contdir(i), stateFilename)))
func (i *InventoryBase).GetFixityDigestAlgorithm() (algs)
  prop C23
  nopanic
  noalloc
  requires i: i != nil
  ensures val: algs == i.fixityDigestAlgorithms
func (osr *StorageRootBase).setModified() ()
  prop C23
  nopanic
  requires osr: osr != nil
  modifies osr.modified
  ensures set: osr.modified

// the hooks of the extensions; they change an object through its methods only
trusted ocfl.ExtensionManager.UpdateObjectBefore(x, object) (err)
  modifies disk
  modifies fsstate
  modifies failed
  modifies wbuf
  modifies hashbuf
  modifies jsonsrc
  modifies jsontext
  modifies unread
  modifies allmaps("map[string][]string")
  modifies allelems("string")
  modifies allmaps("Fixity")
  modifies allfields("InventoryBase", "Fixity")
  modifies allfields("InventoryBase", "modified")
  modifies allfields("OCFLState", "State")
  modifies allfields("ObjectBase", "updateFiles")
  ensures fault: failed <==> old(failed) || err != nil
  ensures kept: isobj(object) && isinv(objbase(object).i) && old(staged(invbase(objbase(object).i))) ==> staged(invbase(objbase(object).i)) && kept(invbase(objbase(object).i))
  ensures root: isobj(object) && isinv(objbase(object).i) ==> rootkept(objbase(object))
  ensures modified: isobj(object) && isinv(objbase(object).i) && old(invbase(objbase(object).i).modified) ==> invbase(objbase(object).i).modified
  ensures files: isobj(object) && isinv(objbase(object).i) && old(staged(invbase(objbase(object).i)) && filesok(objbase(object))) ==> filesok(objbase(object)) && filesown(objbase(object))
trusted ocfl.ExtensionManager.UpdateObjectAfter(x, object) (err)
  modifies disk
  modifies fsstate
  modifies failed
  modifies wbuf
  modifies hashbuf
  modifies jsonsrc
  modifies jsontext
  modifies unread
  modifies allmaps("map[string][]string")
  modifies allelems("string")
  modifies allmaps("Fixity")
  modifies allfields("InventoryBase", "Fixity")
  modifies allfields("InventoryBase", "modified")
  modifies allfields("OCFLState", "State")
  modifies allfields("ObjectBase", "updateFiles")
  ensures fault: failed <==> old(failed) || err != nil
  ensures kept: isobj(object) && isinv(objbase(object).i) && old(staged(invbase(objbase(object).i))) ==> staged(invbase(objbase(object).i)) && kept(invbase(objbase(object).i))
  ensures root: isobj(object) && isinv(objbase(object).i) ==> rootkept(objbase(object))
  ensures modified: isobj(object) && isinv(objbase(object).i) && old(invbase(objbase(object).i).modified) ==> invbase(objbase(object).i).modified
  ensures files: isobj(object) && isinv(objbase(object).i) && old(staged(invbase(objbase(object).i)) && filesok(objbase(object))) ==> filesok(objbase(object)) && filesown(objbase(object))
trusted ocfl.ExtensionManager.AddFileBefore(x, object, sourceFS, source, dest, area, isDir) (err)
  modifies disk
  modifies fsstate
  modifies failed
  modifies wbuf
  modifies hashbuf
  modifies jsonsrc
  modifies jsontext
  modifies unread
  modifies allmaps("map[string][]string")
  modifies allelems("string")
  modifies allmaps("Fixity")
  modifies allfields("InventoryBase", "Fixity")
  modifies allfields("InventoryBase", "modified")
  modifies allfields("OCFLState", "State")
  modifies allfields("ObjectBase", "updateFiles")
  ensures fault: failed <==> old(failed) || err != nil
  ensures kept: isobj(object) && isinv(objbase(object).i) && old(staged(invbase(objbase(object).i))) ==> staged(invbase(objbase(object).i)) && kept(invbase(objbase(object).i))
  ensures root: isobj(object) && isinv(objbase(object).i) ==> rootkept(objbase(object))
  ensures modified: isobj(object) && isinv(objbase(object).i) && old(invbase(objbase(object).i).modified) ==> invbase(objbase(object).i).modified
  ensures files: isobj(object) && isinv(objbase(object).i) && old(staged(invbase(objbase(object).i)) && filesok(objbase(object))) ==> filesok(objbase(object)) && filesown(objbase(object))
trusted ocfl.ExtensionManager.AddFileAfter(x, object, sourceFS, source, internalPath, digest, area, isDir) (err)
  modifies disk
  modifies fsstate
  modifies failed
  modifies wbuf
  modifies hashbuf
  modifies jsonsrc
  modifies jsontext
  modifies unread
  modifies allmaps("map[string][]string")
  modifies allelems("string")
  modifies allmaps("Fixity")
  modifies allfields("InventoryBase", "Fixity")
  modifies allfields("InventoryBase", "modified")
  modifies allfields("OCFLState", "State")
  modifies allfields("ObjectBase", "updateFiles")
  ensures fault: failed <==> old(failed) || err != nil
  ensures kept: isobj(object) && isinv(objbase(object).i) && old(staged(invbase(objbase(object).i))) ==> staged(invbase(objbase(object).i)) && kept(invbase(objbase(object).i))
  ensures root: isobj(object) && isinv(objbase(object).i) ==> rootkept(objbase(object))
  ensures modified: isobj(object) && isinv(objbase(object).i) && old(invbase(objbase(object).i).modified) ==> invbase(objbase(object).i).modified
  ensures files: isobj(object) && isinv(objbase(object).i) && old(staged(invbase(objbase(object).i)) && filesok(objbase(object))) ==> filesok(objbase(object)) && filesown(objbase(object))
trusted ocfl.ExtensionManager.DoNewVersion(x, object) (err)
  modifies disk
  modifies fsstate
  modifies failed
  modifies wbuf
  modifies hashbuf
  modifies jsonsrc
  modifies jsontext
  modifies unread
  modifies allmaps("map[string][]string")
  modifies allelems("string")
  modifies allmaps("Fixity")
  modifies allfields("InventoryBase", "Fixity")
  modifies allfields("InventoryBase", "modified")
  modifies allfields("OCFLState", "State")
  modifies allfields("ObjectBase", "updateFiles")
  ensures fault: failed <==> old(failed) || err != nil
  ensures kept: isobj(object) && isinv(objbase(object).i) && old(staged(invbase(objbase(object).i))) ==> staged(invbase(objbase(object).i)) && kept(invbase(objbase(object).i))
  ensures root: isobj(object) && isinv(objbase(object).i) ==> rootkept(objbase(object))
  ensures modified: isobj(object) && isinv(objbase(object).i) && old(invbase(objbase(object).i).modified) ==> invbase(objbase(object).i).modified
  ensures files: isobj(object) && isinv(objbase(object).i) && old(staged(invbase(objbase(object).i)) && filesok(objbase(object))) ==> filesok(objbase(object)) && filesown(objbase(object))
trusted ocfl.ExtensionManager.NeedNewVersion(x, object) (need, err)
  modifies failed
  ensures fault: failed <==> old(failed) || err != nil
trusted ocfl.ExtensionManager.StreamObject(x, object, reader, stateFiles, dest) (err)
logic statepath(any, string, string) string
trusted ocfl.ExtensionManager.BuildObjectStatePath(x, object, originalPath, area) (path, err)
  modifies failed
  ensures fault: failed <==> old(failed) || err != nil
  ensures path: err == nil ==> path == statepath(x, originalPath, area)
trusted ocfl.ExtensionManager.BuildObjectManifestPath(x, object, originalPath, area) (path, err)
  modifies failed
  ensures fault: failed <==> old(failed) || err != nil

func (object *ObjectBase).StoreExtensions() (err)
  prop C23 C22
  nopanic
  requires obj: object != nil && object.logger != nil && object.extensionManager != nil
  modifies disk
  modifies fsstate
  modifies failed
  modifies wbuf
  ensures reported: failed && err == nil ==> old(failed)
  ensures keeps: keepsdecl() && keepsinv()

func (object *ObjectBase).StartUpdate(sourceFS, msg, UserName, UserAddress, echo) (versionFS, err)
  prop C23 C02
  strings
  use fkey-inj extinv extcar
  nopanic
  requires obj: upob(object)
  requires inv: startable(invbase(object.i))
  modifies disk
  modifies fsstate
  modifies failed
  modifies wbuf
  modifies hashbuf
  modifies jsonsrc
  modifies jsontext
  modifies unread
  modifies allmaps("map[string][]string")
  modifies allelems("string")
  modifies allmaps("Fixity")
  modifies allfields("InventoryBase", "Fixity")
  modifies allfields("InventoryBase", "modified")
  modifies allfields("OCFLState", "State")
  modifies allfields("ObjectBase", "updateFiles")
  modifies object.echo
  modifies invbase(object.i).Head.string
  modifies invbase(object.i).Head.err
  modifies map(invbase(object.i).Versions.Versions)
  modifies invbase(object.i).writeable
  ensures reported: failed && err == nil ==> old(failed)
  ensures echo: object.echo <==> echo
  ensures root: rootkept(object)
  ensures ready: err == nil ==> staged(invbase(object.i)) && invbase(object.i).writeable
  ensures modified: old(invbase(object.i).modified) ==> invbase(object.i).modified

func (object *ObjectBase).echoDelete() (err)
  prop C23 C01
  nopanic
  requires obj: upob(object) && staged(invbase(object.i)) && private(invbase(object.i), object.updateFiles)
  modifies failed
  modifies object.updateFiles
  modifies elems(object.updateFiles)
  modifies hd(invbase(object.i)).State.State
  modifies invbase(object.i).modified
  ensures reported: failed && err == nil ==> old(failed)
  ensures staged: staged(invbase(object.i))
  ensures modified: old(invbase(object.i).modified) ==> invbase(object.i).modified

func (object *ObjectBase).EndArea() (err)
  prop C23
  nopanic
  requires obj: upob(object) && staged(invbase(object.i)) && private(invbase(object.i), object.updateFiles)
  modifies failed
  modifies object.updateFiles
  modifies object.area
  modifies elems(object.updateFiles)
  modifies hd(invbase(object.i)).State.State
  modifies invbase(object.i).modified
  ensures reported: failed && err == nil ==> old(failed)
  ensures staged: staged(invbase(object.i))
  ensures modified: old(invbase(object.i).modified) ==> invbase(object.i).modified
  ensures area: err == nil ==> object.area == "" && len(object.updateFiles) == 0

func (object *ObjectBase).BeginArea(area) ()
  prop C23
  nopanic
  requires obj: object != nil
  modifies object.updateFiles
  modifies object.area
  ensures area: object.area == area && len(object.updateFiles) == 0

func (object *ObjectBase).EndUpdate() (err)
  prop C23
  strings
  use fkey-inj verinv vercar
  nopanic
  requires obj: upob(object)
  requires staged: invbase(object.i).writeable ==> staged(invbase(object.i)) && invbase(object.i).paddingLength <= 1000000
  requires private: invbase(object.i).writeable && object.echo ==> private(invbase(object.i), object.updateFiles)
  modifies disk
  modifies fsstate
  modifies failed
  modifies wbuf
  modifies hashbuf
  modifies jsonsrc
  modifies jsontext
  modifies unread
  modifies allmaps("map[string][]string")
  modifies allelems("string")
  modifies allmaps("Fixity")
  modifies allfields("InventoryBase", "Fixity")
  modifies allfields("InventoryBase", "modified")
  modifies allfields("OCFLState", "State")
  modifies allfields("ObjectBase", "updateFiles")
  modifies object.echo
  modifies invbase(object.i).Head.string
  modifies invbase(object.i).Head.err
  modifies map(invbase(object.i).Versions.Versions)
  modifies invbase(object.i).writeable
  ensures reported: failed && err == nil ==> old(failed)
  ensures readonly: !old(invbase(object.i).writeable) ==> err == nil && disk == old(disk) && fsstate == old(fsstate)
  ensures unmodified: !invbase(object.i).modified ==> disk == old(disk) && fsstate == old(fsstate)
  ensures root: rootkept(object)
  ensures modified: old(invbase(object.i).modified) ==> invbase(object.i).modified
  ensures stored: err == nil && old(invbase(object.i).writeable) && invbase(object.i).modified ==> jsonsrc == object.i && disk[verinv(object)] == jsontext && disk[vercar(object)] == sidecar(invalg(object.i), jsontext)

func (object *ObjectBase).Close() (err)
  prop C23
  strings
  use fkey-inj verinv vercar
  nopanic
  requires obj: upob(object) && isroot(object.storageRoot)
  requires staged: invbase(object.i).writeable && invbase(object.i).modified ==> staged(invbase(object.i))
  modifies disk
  modifies fsstate
  modifies failed
  modifies wbuf
  modifies hashbuf
  modifies jsonsrc
  modifies jsontext
  modifies allfields("StorageRootBase", "modified")
  modifies invbase(object.i).Head.string
  modifies invbase(object.i).Head.err
  modifies map(invbase(object.i).Versions.Versions)
  ensures reported: failed && err == nil ==> old(failed)
  ensures untouched: !(invbase(object.i).writeable && invbase(object.i).modified) ==> err == nil && disk == old(disk) && fsstate == old(fsstate)
  ensures stored: err == nil && invbase(object.i).writeable && invbase(object.i).modified ==> jsonsrc == object.i && disk[rootinv(object)] == jsontext && disk[rootcar(object)] == sidecar(invalg(object.i), jsontext)

// ---------- adding, deleting and renaming files ----------
trusted checksum.Copy(algs, src, dst) (result, err)
  modifies wbuf
  modifies fsstate
  modifies failed
  modifies unread
  ensures fault: failed <==> old(failed) || err != nil
  ensures read: unread == upd(old(unread), src, unread[src]) && (err == nil ==> unread[src] == "")
  ensures text: err == nil && len(dst) > 0 ==> wbuf[dst[0]] == old(wbuf)[dst[0]] + old(unread)[src]
  ensures sums: err == nil ==> fresh(result) && (forall a string :: {bag(algs)[a]} {a in result} a in result <==> bag(algs)[a] > 0) && (forall a string :: {result[a]} a in result ==> result[a] == hexof(digestof(a, old(unread)[src])))
trusted checksum.Checksum(src, alg) (sum, err)
  modifies unread
  modifies failed
  ensures fault: failed <==> old(failed) || err != nil
  ensures read: unread == upd(old(unread), src, "")
  ensures sum: err == nil ==> sum == hexof(digestof(alg, old(unread)[src]))
axiom hexlower: forall s string :: {hexof(s)} strings.ToLower(hexof(s)) == hexof(s)
axiom hexdigest: forall a string, s string :: {digestof(a, s)} hexof(digestof(a, s)) != ""

def confolder(i) = i.Head.string + "/" + contdir(i)
def inside(i, p) = p == confolder(i) || strings.HasPrefix(p, confolder(i) + "/")
axiom inside1: forall v string, c string :: {v + "/" + c} vok(v) ==> v + "/" + c != "inventory.json"
axiom inside2: forall v string, c string, a string :: {v + "/" + c, "inventory.json." + a} vok(v) ==> v + "/" + c != "inventory.json." + a
axiom inside3: forall v string, c string, p string :: {strings.HasPrefix(p, v + "/" + c + "/")} vok(v) && strings.HasPrefix(p, v + "/" + c + "/") ==> p != "inventory.json"
axiom inside4: forall v string, c string, p string, a string :: {strings.HasPrefix(p, v + "/" + c + "/"), "inventory.json." + a} vok(v) && strings.HasPrefix(p, v + "/" + c + "/") ==> p != "inventory.json." + a
func (object *ObjectBase).BuildNames(files, area) (names, err)
  prop C23 C24
  nopanic
  requires obj: upob(object) && invbase(object.i).Head != nil && len(files) > 0
  modifies failed
  ensures reported: failed && err == nil ==> old(failed)
  ensures names: err == nil ==> names != nil && fresh(names) && len(names.ExternalPaths) == len(files) && fresh(names.ExternalPaths)
  ensures paths: err == nil ==> (forall k int :: {names.ExternalPaths[k]} {files[k]} 0 <= k && k < len(files) ==> names.ExternalPaths[k] == statepath(object.extensionManager, files[k], area))
  ensures inside: err == nil ==> inside(invbase(object.i), names.ManifestPath)
  loop 1
  invariant paths: len(result.ExternalPaths) == idx() && fresh(result.ExternalPaths) && (forall k int :: {result.ExternalPaths[k]} 0 <= k && k < idx() ==> result.ExternalPaths[k] == statepath(object.extensionManager, files[k], area))
  invariant reported: failed ==> old(failed)

func (object *ObjectBase).addReader(r, versionFS, names, noExtensionHook) (digest, err)
  prop C23 C09
  use fkey-inj inside1 inside2 inside3 inside4 hexlower hexdigest
  nopanic
  requires obj: upob(object) && staged(invbase(object.i)) && names != nil && inside(invbase(object.i), names.ManifestPath)
  requires names: private(invbase(object.i), names.ExternalPaths)
  requires private: private(invbase(object.i), object.updateFiles) && allocated(object.updateFiles) && allocated(names.ExternalPaths)
  requires other: ref(object.updateFiles) != ref(names.ExternalPaths) || ref(object.updateFiles) == 0
  modifies disk
  modifies fsstate
  modifies failed
  modifies wbuf
  modifies unread
  modifies object.updateFiles
  modifies elems(object.updateFiles)
  modifies allelems("checksum.DigestAlgorithm")
  modifies hd(invbase(object.i)).State.State
  modifies invbase(object.i).modified
  modifies invbase(object.i).Fixity
  modifies allmaps("Fixity")
  modifies allmaps("map[string][]string")
  modifies allelems("string")
  ensures reported: failed && err == nil ==> old(failed)
  ensures root: rootkept(object)
  ensures stored: err == nil ==> disk[fkey(object.fsys, names.ManifestPath)] == old(unread)[r]
  ensures digest: err == nil ==> digest == hexof(digestof(invalg(object.i), old(unread)[r]))
  ensures names: row(names.ExternalPaths) == old(row(names.ExternalPaths))
  ensures listed: err == nil ==> (forall p string :: {p in names.ExternalPaths} p in names.ExternalPaths ==> cnt(hstate(invbase(object.i)), digest, p) > 0)
  ensures staged: staged(invbase(object.i))
  ensures files: filesok(object) && filesown(object)
  ensures modified: old(invbase(object.i).modified) ==> invbase(object.i).modified

func (object *ObjectBase).AddReader(r, files, area, noExtensionHook, isDir) (digest, err)
  bags index
  prop C23 C09
  nopanic
  requires obj: upob(object) && (invbase(object.i).writeable ==> staged(invbase(object.i)) && filesok(object))
  modifies disk
  modifies fsstate
  modifies failed
  modifies wbuf
  modifies hashbuf
  modifies jsonsrc
  modifies jsontext
  modifies unread
  modifies object.updateFiles
  modifies elems(object.updateFiles)
  modifies allelems("checksum.DigestAlgorithm")
  modifies hd(invbase(object.i)).State.State
  modifies invbase(object.i).modified
  modifies invbase(object.i).Fixity
  modifies allmaps("Fixity")
  modifies allmaps("map[string][]string")
  modifies allelems("string")
  modifies allfields("InventoryBase", "Fixity")
  modifies allfields("InventoryBase", "modified")
  modifies allfields("OCFLState", "State")
  modifies allfields("ObjectBase", "updateFiles")
  ensures reported: failed && err == nil ==> old(failed)
  ensures refused: !old(invbase(object.i).writeable) || len(files) == 0 ==> err != nil && disk == old(disk) && fsstate == old(fsstate)
  ensures root: rootkept(object)
  ensures digest: err == nil && noExtensionHook && !isDir ==> digest == hexof(digestof(invalg(object.i), old(unread)[r]))
  ensures listed: err == nil && noExtensionHook && !isDir ==> (forall k int :: {old(files[k])} 0 <= k && k < len(files) ==> cnt(hstate(invbase(object.i)), digest, statepath(object.extensionManager, old(files[k]), area)) > 0)
  ensures staged: old(invbase(object.i).writeable) ==> staged(invbase(object.i)) && filesok(object)
  ensures modified: old(invbase(object.i).modified) ==> invbase(object.i).modified

func (object *ObjectBase).AddData(data, path, checkDuplicate, area, noExtensionHook, isDir) (err)
  bags index
  prop C23 C08
  use hexdigest
  nopanic
  requires obj: upob(object) && (invbase(object.i).writeable ==> staged(invbase(object.i)) && filesok(object))
  modifies disk
  modifies fsstate
  modifies failed
  modifies wbuf
  modifies hashbuf
  modifies jsonsrc
  modifies jsontext
  modifies unread
  modifies object.updateFiles
  modifies elems(object.updateFiles)
  modifies allelems("checksum.DigestAlgorithm")
  modifies hd(invbase(object.i)).State.State
  modifies invbase(object.i).modified
  modifies invbase(object.i).Fixity
  modifies allmaps("Fixity")
  modifies allmaps("map[string][]string")
  modifies allelems("string")
  modifies allfields("InventoryBase", "Fixity")
  modifies allfields("InventoryBase", "modified")
  modifies allfields("OCFLState", "State")
  modifies allfields("ObjectBase", "updateFiles")
  ensures reported: failed && err == nil ==> old(failed)
  ensures refused: !old(invbase(object.i).writeable) ==> err != nil && disk == old(disk) && fsstate == old(fsstate)
  ensures root: rootkept(object)
  ensures listed: err == nil && noExtensionHook && !isDir ==> (exists d string :: {hstate(invbase(object.i))[d]} cnt(hstate(invbase(object.i)), d, statepath(object.extensionManager, path, area)) > 0)
  ensures staged: old(invbase(object.i).writeable) ==> staged(invbase(object.i)) && filesok(object)
  ensures modified: old(invbase(object.i).modified) ==> invbase(object.i).modified

func (object *ObjectBase).AddFile(fsys, versionFS, path, checkDuplicate, area, noExtensionHook, isDir) (err)
  bags index
  prop C23 C08
  use hexdigest
  nopanic
  requires obj: fsys != nil && upob(object) && (invbase(object.i).writeable ==> staged(invbase(object.i)) && filesok(object))
  modifies disk
  modifies fsstate
  modifies failed
  modifies wbuf
  modifies hashbuf
  modifies jsonsrc
  modifies jsontext
  modifies unread
  modifies object.updateFiles
  modifies elems(object.updateFiles)
  modifies allelems("checksum.DigestAlgorithm")
  modifies hd(invbase(object.i)).State.State
  modifies invbase(object.i).modified
  modifies invbase(object.i).Fixity
  modifies allmaps("Fixity")
  modifies allmaps("map[string][]string")
  modifies allelems("string")
  modifies allfields("InventoryBase", "Fixity")
  modifies allfields("InventoryBase", "modified")
  modifies allfields("OCFLState", "State")
  modifies allfields("ObjectBase", "updateFiles")
  ensures reported: failed && err == nil ==> old(failed)
  ensures refused: !old(invbase(object.i).writeable) ==> err != nil && disk == old(disk) && fsstate == old(fsstate)
  ensures root: rootkept(object)
  ensures listed: err == nil && noExtensionHook && !isDir ==> (exists d string :: {hstate(invbase(object.i))[d]} cnt(hstate(invbase(object.i)), d, statepath(object.extensionManager, filepath.ToSlash(path), area)) > 0)
  ensures staged: old(invbase(object.i).writeable) ==> staged(invbase(object.i)) && filesok(object)
  ensures modified: old(invbase(object.i).modified) ==> invbase(object.i).modified

func (object *ObjectBase).DeleteFile(virtualFilename, digest) (err)
  prop C23 C01
  nopanic
  requires obj: upob(object) && (invbase(object.i).writeable ==> staged(invbase(object.i)) && filesok(object))
  modifies hd(invbase(object.i)).State.State
  modifies invbase(object.i).modified
  ensures refused: err == nil <==> invbase(object.i).writeable
  ensures gone: err == nil && digest != "" && old(cnt(hstate(invbase(object.i)), digest, filepath.ToSlash(virtualFilename))) > 0 ==> (forall d string, p string :: {cnt(hstate(invbase(object.i)), d, p)} cnt(hstate(invbase(object.i)), d, p) == ite(p == filepath.ToSlash(virtualFilename), 0, old(cnt(hstate(invbase(object.i)), d, p))))
  ensures nothing: digest == "" || old(cnt(hstate(invbase(object.i)), digest, filepath.ToSlash(virtualFilename))) == 0 ==> hstate(invbase(object.i)) == old(hstate(invbase(object.i)))
  ensures staged: invbase(object.i).writeable ==> staged(invbase(object.i)) && filesok(object)
  ensures modified: old(invbase(object.i).modified) ==> invbase(object.i).modified

func (object *ObjectBase).RenameFile(virtualFilenameSource, virtualFilenameDest, digest) (err)
  prop C23 C01
  nopanic
  requires obj: upob(object) && (invbase(object.i).writeable ==> staged(invbase(object.i)) && filesok(object))
  modifies hd(invbase(object.i)).State.State
  modifies invbase(object.i).modified
  ensures refused: err == nil <==> invbase(object.i).writeable
  ensures moved: err == nil && digest != "" && old(cnt(hstate(invbase(object.i)), digest, filepath.ToSlash(virtualFilenameSource))) > 0 ==> (forall d string, p string :: {cnt(hstate(invbase(object.i)), d, p)} cnt(hstate(invbase(object.i)), d, p) == ite(p == virtualFilenameDest, old(cnt(hstate(invbase(object.i)), d, virtualFilenameDest)) + ite(filepath.ToSlash(virtualFilenameSource) == virtualFilenameDest, 0, old(cnt(hstate(invbase(object.i)), d, filepath.ToSlash(virtualFilenameSource)))), ite(p == filepath.ToSlash(virtualFilenameSource), 0, old(cnt(hstate(invbase(object.i)), d, p)))))
  ensures nothing: digest == "" || old(cnt(hstate(invbase(object.i)), digest, filepath.ToSlash(virtualFilenameSource))) == 0 ==> hstate(invbase(object.i)) == old(hstate(invbase(object.i)))
  ensures staged: invbase(object.i).writeable && (forall d string :: {d in old(dom(hstate(invbase(object.i))))} old(cnt(hstate(invbase(object.i)), d, virtualFilenameDest)) == 0) ==> staged(invbase(object.i)) && filesok(object)
  ensures modified: old(invbase(object.i).modified) ==> invbase(object.i).modified
