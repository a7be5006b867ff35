package ocfl

// ---------- extraction ----------
dispatch Inventory.IterateStateFiles = InventoryBase of InventoryV1_0 InventoryV1_1 inline
dispatch Inventory.GetStateFiles = InventoryBase of InventoryV1_0 InventoryV1_1

// where the extensions put a logical path of an area, if it belongs to the area
logic expath(any, string, string) string
logic exok(any, string, string) bool
logic exelse(any, string, string) bool
trusted ocfl.ExtensionManager.BuildObjectExtractPath(x, object, originalPath, area) (path, err)
  noalloc
  ensures ok: err == nil <==> exok(x, originalPath, area)
  ensures path: err == nil ==> path == expath(x, originalPath, area)
  ensures other: errors.Is(err, ocfl.ExtensionObjectExtractPathWrongAreaError) <==> exelse(x, originalPath, area)

func (i *InventoryBase).GetStateFiles(version, cs) (files, err)
  prop C17
  nopanic
  noalloc
  requires i: i != nil && i.Head != nil && i.Versions != nil
  requires wf: selver(i, version) in i.Versions.Versions ==> i.Versions.Versions[selver(i, version)] != nil && i.Versions.Versions[selver(i, version)].State != nil
  ensures err: err == nil <==> selver(i, version) in i.Versions.Versions && cs in i.Versions.Versions[selver(i, version)].State.State
  ensures files: err == nil ==> files == i.Versions.Versions[selver(i, version)].State.State[cs]

// the version that is meant
def selver(i, v) = ite(v == "latest" || v == "", i.Head.string, v)
def selstate(i, v) = i.Versions.Versions[selver(i, v)].State.State
def exinj(x, area) = forall p string, q string :: {expath(x, p, area), expath(x, q, area)} exok(x, p, area) && exok(x, q, area) && expath(x, p, area) == expath(x, q, area) ==> p == q
trusted io.WriteString(w, s) (n, err)
  modifies failed
  modifies wbuf
  modifies fsstate
  ensures ok: err == nil ==> wbuf == upd(old(wbuf), w, old(wbuf)[w] + s)
  ensures frame: wbuf == upd(old(wbuf), w, wbuf[w])
  ensures fault: failed <==> old(failed) || err != nil
axiom contains1: forall a string, b string, x string :: {strings.Contains(a + b, x)} strings.Contains(a, x) || strings.Contains(b, x) ==> strings.Contains(a + b, x)
axiom contains2: forall x string :: {strings.Contains(x, x)} strings.Contains(x, x)
// what the last extraction was asked for
ghost exversion: string
ghost exarea: string
ghost exmanifest: bool
ghost exfs: any
def vernorm(v) = ite(v == "", "latest", v)
def mline(object, area, d, p) = d + " " + expath(object.extensionManager, p, area) + "\n"
// the file is extracted with a content which has the recorded digest
def extracted(object, fsys, area, d, p) = exok(object.extensionManager, p, area) && strings.EqualFold(hexof(digestof(invalg(object.i), disk[fkey(fsys, expath(object.extensionManager, p, area))])), d)
def noman(object, area) = (forall p string :: {expath(object.extensionManager, p, area)} expath(object.extensionManager, p, area) != "manifest." + invalg(object.i))
func (object *ObjectBase).Extract(fsys, version, withManifest, area) (err)
  bags index @2
  prop C17
  nopanic
  use fkey-inj contains1 contains2
  requires obj: upob(object) && fsys != nil && invbase(object.i).Head != nil && invbase(object.i).Versions != nil && invbase(object.i).Manifest != nil
  requires wf: selver(invbase(object.i), version) in invbase(object.i).Versions.Versions ==> invbase(object.i).Versions.Versions[selver(invbase(object.i), version)] != nil && invbase(object.i).Versions.Versions[selver(invbase(object.i), version)].State != nil
  modifies disk
  modifies fsstate
  modifies failed
  modifies wbuf
  modifies unread
  sets exversion = vernorm(version)
  sets exarea = area
  sets exmanifest = withManifest
  sets exfs = fsys
  ensures reported: failed && err == nil ==> old(failed)
  ensures version: err == nil ==> selver(invbase(object.i), version) in invbase(object.i).Versions.Versions
  ensures content: err == nil ==> (forall d string :: {d in selstate(invbase(object.i), version)} d in selstate(invbase(object.i), version) ==> d in mf(invbase(object.i)) && len(mf(invbase(object.i))[d]) > 0)
  ensures complete: err == nil && exinj(object.extensionManager, area) && uniq(selstate(invbase(object.i), version)) && (withManifest ==> noman(object, area)) ==> (forall d string, p string :: {bag(selstate(invbase(object.i), version)[d])[p]} d in selstate(invbase(object.i), version) && bag(selstate(invbase(object.i), version)[d])[p] > 0 ==> exelse(object.extensionManager, p, area) || extracted(object, fsys, area, d, p))
  ensures listed: err == nil && withManifest ==> (forall d string, p string :: {bag(selstate(invbase(object.i), version)[d])[p]} d in selstate(invbase(object.i), version) && bag(selstate(invbase(object.i), version)[d])[p] > 0 ==> exelse(object.extensionManager, p, area) || strings.Contains(disk[fkey(fsys, "manifest." + invalg(object.i))], mline(object, area, d, p)))
  ensures only: forall k string :: {disk[k]} disk[k] == old(disk)[k] || withManifest && k == fkey(fsys, "manifest." + invalg(object.i)) || (exists p string :: {expath(object.extensionManager, p, area)} exok(object.extensionManager, p, area) && k == fkey(fsys, expath(object.extensionManager, p, area)))
  loop 1
  invariant reported: failed ==> old(failed)
  invariant content: forall d string :: {d in visited()} d in visited() ==> d in mf(invbase(object.i)) && len(mf(invbase(object.i))[d]) > 0
  invariant done: exinj(object.extensionManager, area) && uniq(selstate(invbase(object.i), version)) ==> (forall d string, p string :: {bag(selstate(invbase(object.i), version)[d])[p]} d in visited() && bag(selstate(invbase(object.i), version)[d])[p] > 0 ==> exelse(object.extensionManager, p, area) || extracted(object, fsys, area, d, p))
  invariant only: forall k string :: {disk[k]} disk[k] == old(disk)[k] || (exists p string :: {expath(object.extensionManager, p, area)} exok(object.extensionManager, p, area) && k == fkey(fsys, expath(object.extensionManager, p, area)))
  invariant listed: withManifest ==> (forall d string, p string :: {bag(selstate(invbase(object.i), version)[d])[p]} d in visited() && bag(selstate(invbase(object.i), version)[d])[p] > 0 ==> exelse(object.extensionManager, p, area) || strings.Contains(sbtext(manifest), mline(object, area, d, p)))
  loop 2
  invariant reported: failed ==> old(failed)
  invariant done: exinj(object.extensionManager, area) && uniq(selstate(invbase(object.i), version)) ==> (forall d string, p string :: {bag(selstate(invbase(object.i), version)[d])[p]} d in outervisited() && d != digest && bag(selstate(invbase(object.i), version)[d])[p] > 0 ==> exelse(object.extensionManager, p, area) || extracted(object, fsys, area, d, p))
  invariant cur: exinj(object.extensionManager, area) ==> (forall p string :: {bagn(ranged(), idx())[p]} bagn(ranged(), idx())[p] > 0 ==> exelse(object.extensionManager, p, area) || extracted(object, fsys, area, digest, p))
  invariant only: forall k string :: {disk[k]} disk[k] == old(disk)[k] || (exists p string :: {expath(object.extensionManager, p, area)} exok(object.extensionManager, p, area) && k == fkey(fsys, expath(object.extensionManager, p, area)))
  invariant listed: withManifest ==> (forall d string, p string :: {bag(selstate(invbase(object.i), version)[d])[p]} d in outervisited() && d != digest && bag(selstate(invbase(object.i), version)[d])[p] > 0 ==> exelse(object.extensionManager, p, area) || strings.Contains(sbtext(manifest), mline(object, area, d, p)))
  invariant lcur: withManifest ==> (forall p string :: {bagn(ranged(), idx())[p]} bagn(ranged(), idx())[p] > 0 ==> exelse(object.extensionManager, p, area) || strings.Contains(sbtext(manifest), mline(object, area, digest, p)))

dispatch Object.Extract = ObjectBase of ObjectBase ObjectV1_0 ObjectV1_1 ObjectV2_0
// the folders of a storage root which hold objects; the function is recursive
trusted (osr *StorageRootBase).GetObjectFolders() (folders, err)
func (osr *StorageRootBase).Extract(fsys, path, id, version, withManifest, area) (err)
  prop C17
  nopanic
  requires obj: osr != nil && osr.fsys != nil && fsys != nil && osr.extensionFactory != nil && osr.extensionManager != nil && osr.logger != nil && allocated(stat(osr.ctx))
  modifies allboxes("map[string]any")
  modifies allmaps("map[string]any")
  modifies allfields("InventoryBase", "Id")
  modifies allfields("InventoryBase", "Type")
  modifies allfields("InventoryBase", "DigestAlgorithm")
  modifies allfields("InventoryBase", "ContentDirectory")
  modifies allfields("InventoryBase", "Fixity")
  modifies allelems("checksum.DigestAlgorithm")
  modifies allfields("InventoryBase", "paddingLength")
  modifies allfields("InventoryBase", "versionValue")
  modifies allfields("InventoryBase", "fixityDigestAlgorithms")
  modifies allfields("InventoryBase", "Head")
  modifies allfields("InventoryBase", "Manifest")
  modifies allfields("InventoryBase", "Versions")
  modifies allmaps("map[string]*Version")
  modifies allfields("Version", "Created")
  modifies allfields("Version", "User")
  modifies allfields("Version", "Message")
  modifies allfields("Version", "State")
  modifies allfields("OCFLUser", "User")
  modifies allfields("ValidationStatus", "Errors")
  modifies allelems("*ValidationError")
  modifies hashbuf
  modifies codes
  modifies warns
  modifies disk
  modifies fsstate
  modifies failed
  modifies wbuf
  modifies unread
  modifies exversion
  modifies exarea
  modifies exmanifest
  modifies exfs
  ensures reported: failed && err == nil ==> old(failed)
  ensures undeclared: path != "" && old(forall j int :: {ent(osr.fsys, path, j)} !odecl(osr, path, j)) ==> err != nil
  ensures unmapped: path == "" && id != "" && !rootpathok(osr.extensionManager, id) ==> err != nil
  ensures asked: err == nil && (path != "" || id != "") ==> exversion == vernorm(version) && exarea == area && (exmanifest <==> withManifest) && exfs == fsys
  loop 1
  invariant reported: failed ==> old(failed)
