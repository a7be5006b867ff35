package ocfl

// ---------- validation of an object against its files ----------
dispatch Inventory.GetVersionStrings = InventoryBase of InventoryV1_0 InventoryV1_1
dispatch Inventory.GetVersions = InventoryBase of InventoryV1_0 InventoryV1_1 inline
dispatch Inventory.GetFixity = InventoryBase of InventoryV1_0 InventoryV1_1 inline
dispatch Inventory.GetRealContentDir = InventoryBase of InventoryV1_0 InventoryV1_1 inline
dispatch Inventory.GetSpec = InventoryBase of InventoryV1_0 InventoryV1_1 inline
dispatch Inventory.GetFilesFlat = InventoryBase of InventoryV1_0 InventoryV1_1
dispatch Inventory.VersionLessOrEqual = InventoryBase of InventoryV1_0 InventoryV1_1
dispatch Inventory.CheckFiles = InventoryBase of InventoryV1_0 InventoryV1_1

// p is listed in the digest table m
def listed(m, p) = exists d string :: {bag(m[d])[p]} d in m && bag(m[d])[p] > 0
def folderpart(p) = splitat(p, "/", 0)
func (i *InventoryBase).GetFiles() (files)
  bags index @2
  prop C19
  requires i: i != nil && i.Manifest != nil && i.Versions != nil && allocated(stat(i.ctx))
  modifies stat(i.ctx).Errors
  modifies allelems("*ValidationError")
  modifies codes
  ensures all: forall d string, p string :: {old(bag(mf(i)[d])[p])} old(d in mf(i) && bag(mf(i)[d])[p] > 0) ==> folderpart(p) in files && bag(files[folderpart(p)])[p] > 0
  ensures fresh: fresh(files) && allocd(files)
  ensures codes: forall c string :: {codes[c]} c != "E000" && c != "E023" ==> codes[c] == old(codes[c])
  ensures grown: forall c string :: {codes[c]} old(codes[c]) ==> codes[c]
  loop 1
  invariant keep: forall d string :: {bag(mf(i)[d])} {old(bag(mf(i)[d]))} d in mf(i) ==> bag(mf(i)[d]) == old(bag(mf(i)[d]))
  invariant own2: off0(result, versions) && allocated(versions) && (ref(versions) == 0 || fresh(versions))
  invariant own: allocd(result) && sep0(result) && (forall v string :: {ref(result[v])} v in result ==> ref(result[v]) == 0 || fresh(result[v]))
  invariant all: forall d string, p string :: {bag(mf(i)[d])[p]} d in visited() && bag(mf(i)[d])[p] > 0 ==> folderpart(p) in result && bag(result[folderpart(p)])[p] > 0
  invariant codes: forall c string :: {codes[c]} c != "E000" && c != "E023" ==> codes[c] == old(codes[c])
  invariant grown: forall c string :: {codes[c]} old(codes[c]) ==> codes[c]
  loop 2
  invariant cur0: outerkey() in mf(i) && ranged() == mf(i)[outerkey()]
  invariant curin: forall p string :: {bag(ranged())[p]} bag(ranged())[p] > 0 ==> old(listed(mf(i), p))
  invariant keep: forall d string :: {bag(mf(i)[d])} {old(bag(mf(i)[d]))} d in mf(i) ==> bag(mf(i)[d]) == old(bag(mf(i)[d]))
  invariant own2: off0(result, versions) && allocated(versions) && (ref(versions) == 0 || fresh(versions))
  invariant own: allocd(result) && sep0(result) && (forall v string :: {ref(result[v])} v in result ==> ref(result[v]) == 0 || fresh(result[v]))
  invariant all: forall d string, p string :: {bag(mf(i)[d])[p]} d in outervisited() && d != outerkey() && bag(mf(i)[d])[p] > 0 ==> folderpart(p) in result && bag(result[folderpart(p)])[p] > 0
  invariant cur: forall p string :: {bagn(ranged(), idx())[p]} bagn(ranged(), idx())[p] > 0 ==> folderpart(p) in result && bag(result[folderpart(p)])[p] > 0
  invariant codes: forall c string :: {codes[c]} c != "E000" && c != "E023" ==> codes[c] == old(codes[c])
  invariant grown: forall c string :: {codes[c]} old(codes[c]) ==> codes[c]

func (i *InventoryBase).GetFilesFlat() (files)
  bags index @2
  prop C19
  requires i: i != nil && i.Manifest != nil && i.Versions != nil && allocated(stat(i.ctx))
  modifies stat(i.ctx).Errors
  modifies allelems("*ValidationError")
  modifies codes
  ensures files: forall d string, p string :: {old(bag(mf(i)[d])[p])} old(d in mf(i) && bag(mf(i)[d])[p] > 0) ==> bag(files)[p] > 0
  ensures codes: forall c string :: {codes[c]} c != "E000" && c != "E023" ==> codes[c] == old(codes[c])
  ensures grown: forall c string :: {codes[c]} old(codes[c]) ==> codes[c]
  loop 1
  invariant src: forall d string, p string :: {old(bag(mf(i)[d])[p])} old(d in mf(i) && bag(mf(i)[d])[p] > 0) ==> folderpart(p) in filesV && bag(filesV[folderpart(p)])[p] > 0
  invariant keep: forall d string :: {bag(mf(i)[d])} {old(bag(mf(i)[d]))} d in mf(i) ==> bag(mf(i)[d]) == old(bag(mf(i)[d]))
  invariant keepv: forall v string :: {bag(filesV[v])} v in filesV ==> bag(filesV[v]) == entry(bag(filesV[v]))
  invariant own: allocd(filesV) && off0(filesV, result) && (ref(result) == 0 || fresh(result))
  invariant all: forall v string, p string :: {bag(filesV[v])[p]} v in visited() && bag(filesV[v])[p] > 0 ==> bag(result)[p] > 0
  loop 2
  invariant src: forall d string, p string :: {old(bag(mf(i)[d])[p])} old(d in mf(i) && bag(mf(i)[d])[p] > 0) ==> folderpart(p) in filesV && bag(filesV[folderpart(p)])[p] > 0
  invariant keep: forall d string :: {bag(mf(i)[d])} {old(bag(mf(i)[d]))} d in mf(i) ==> bag(mf(i)[d]) == old(bag(mf(i)[d]))
  invariant keepv: forall v string :: {bag(filesV[v])} v in filesV ==> bag(filesV[v]) == entry(bag(filesV[v]))
  invariant own: allocd(filesV) && off0(filesV, result) && (ref(result) == 0 || fresh(result))
  invariant cur0: outerkey() in filesV && ranged() == filesV[outerkey()]
  invariant all: forall v string, p string :: {bag(filesV[v])[p]} v in outervisited() && v != outerkey() && bag(filesV[v])[p] > 0 ==> bag(result)[p] > 0
  invariant cur: forall p string :: {bagn(ranged(), idx())[p]} bagn(ranged(), idx())[p] > 0 ==> bag(result)[p] > 0

def stray(fsys, v, k) = 0 <= k && k < ndir(fsys, v) && !direntisdir(ent(fsys, v, k))
def invfile(n) = match("^inventory\\.json(\\.[^.]+)?$", n)
func (object *ObjectBase).checkVersionFolder(version) (err)
  prop C19
  nopanic
  requires obj: object != nil && objinv(object) && allocated(stat(object.ctx))
  modifies stat(object.ctx).Errors
  modifies allelems("*ValidationError")
  modifies codes
  ensures err: err == nil <==> dirok(object.fsys, version)
  ensures e015: err == nil ==> ("E015" in codes <==> ("E015" in old(codes) || (exists k int :: {ent(object.fsys, version, k)} stray(object.fsys, version, k) && !invfile(direntname(ent(object.fsys, version, k))))))
  ensures others: forall c string :: {codes[c]} c != "E015" ==> codes[c] == old(codes[c])
  ensures grown: forall c string :: {codes[c]} old(codes[c]) ==> codes[c]
  loop 1
  invariant e015: "E015" in codes <==> ("E015" in old(codes) || (exists k int :: {ent(object.fsys, version, k)} k < idx() && stray(object.fsys, version, k) && !invfile(direntname(ent(object.fsys, version, k)))))
  invariant others: forall c string :: {codes[c]} c != "E015" ==> codes[c] == old(codes[c])
  invariant grown: forall c string :: {codes[c]} old(codes[c]) ==> codes[c]

func (object *ObjectBase).getVersionInventories() (invs, err)
  prop C19
  nopanic
  requires obj: object != nil && objinv(object) && isinv(object.i) && wfversions(invbase(object.i)) && object.logger != nil && allocated(stat(object.ctx))
  modifies allboxes("map[string]any")
  modifies allmaps("map[string]any")
  modifies allfields("ValidationStatus", "Errors")
  modifies allelems("*ValidationError")
  modifies field_where("InventoryBase", "Head", r, false)
  modifies field_where("InventoryBase", "Manifest", r, false)
  modifies field_where("InventoryBase", "Versions", r, false)
  modifies field_where("InventoryBase", "Fixity", r, false)
  modifies field_where("InventoryBase", "versionValue", r, false)
  modifies field_where("OCFLVersions", "Versions", r, false)
  modifies field_where("OCFLManifest", "Manifest", r, false)
  modifies field_where("OCFLState", "State", r, false)
  modifies field_where("Version", "Created", r, false)
  modifies field_where("Version", "User", r, false)
  modifies field_where("Version", "Message", r, false)
  modifies field_where("Version", "State", r, false)
  modifies field_where("OCFLUser", "User", r, false)
  modifies maps_where("map[string]*Version", r, false)
  modifies maps_where("map[string][]string", r, false)
  modifies hashbuf
  modifies codes
  modifies warns
  modifies object.versionInventories
  ensures cached: old(object.versionInventories) != nil ==> err == nil && invs == old(object.versionInventories) && codes == old(codes)
  ensures kept: err == nil ==> object.versionInventories == invs && invs != nil
  ensures wf: err == nil && old(object.versionInventories) == nil ==> (forall v string :: {invs[v]} v in invs ==> isinv(invs[v]) && wfversions(invbase(invs[v])) && wfstates(invbase(invs[v])) && invbase(invs[v]).ctx == object.ctx && readable(object.fsys, invname(v)))
  ensures all: err == nil && old(object.versionInventories) == nil && old(vplain(invbase(object.i))) ==> (forall v string :: {old(v in invbase(object.i).Versions.Versions)} old(v in invbase(object.i).Versions.Versions) ==> v in invs || gone(object.fsys, invname(v)))
  loop 1
  invariant old: isinv(object.i) && invbase(object.i) == old(invbase(object.i))
  invariant members: old(vplain(invbase(object.i))) ==> (forall v string :: {old(v in invbase(object.i).Versions.Versions)} old(v in invbase(object.i).Versions.Versions) ==> bag(ranged())[v] > 0)
  invariant wf: forall v string :: {versionInventories[v]} v in versionInventories ==> isinv(versionInventories[v]) && allocated(invbase(versionInventories[v])) && wfversions(invbase(versionInventories[v])) && wfstates(invbase(versionInventories[v])) && invbase(versionInventories[v]).ctx == object.ctx && readable(object.fsys, invname(v))
  invariant all: forall v string :: {bagn(ranged(), idx())[v]} bagn(ranged(), idx())[v] > 0 ==> v in versionInventories || gone(object.fsys, invname(v))
  invariant only: forall v string :: {v in versionInventories} v in versionInventories ==> bagn(ranged(), idx())[v] > 0

trusted (object *ObjectBase).checkFilesAndVersions() (err)
  modifies allboxes("map[string]any")
  modifies allmaps("map[string]any")
  modifies allfields("ValidationStatus", "Errors")
  modifies allelems("*ValidationError")
  modifies field_where("InventoryBase", "Head", r, false)
  modifies field_where("InventoryBase", "Manifest", r, false)
  modifies field_where("InventoryBase", "Versions", r, false)
  modifies field_where("InventoryBase", "Fixity", r, false)
  modifies field_where("InventoryBase", "versionValue", r, false)
  modifies field_where("OCFLVersions", "Versions", r, false)
  modifies field_where("OCFLManifest", "Manifest", r, false)
  modifies field_where("OCFLState", "State", r, false)
  modifies field_where("Version", "Created", r, false)
  modifies field_where("Version", "User", r, false)
  modifies field_where("Version", "Message", r, false)
  modifies field_where("Version", "State", r, false)
  modifies field_where("OCFLUser", "User", r, false)
  modifies maps_where("map[string]*Version", r, false)
  modifies maps_where("map[string][]string", r, false)
  modifies hashbuf
  modifies wbuf
  modifies fsstate
  modifies failed
  modifies unread
  modifies codes
  modifies warns
  modifies object.versionInventories
  ensures grown: forall c string :: {codes[c]} old(codes[c]) ==> codes[c]

// the files and folders which belong into the root of an object
def objectfile(object, n) = n == "inventory.json" || n == "inventory.json." + invalg(object.i) || n == "0=ocfl_object_" + object.version
def objectdir(object, n) = n in invbase(object.i).Versions.Versions || n == "logs" || n == "extensions"
func (object *ObjectBase).Check() (err)
  prop C19
  bags index @1
  nopanic
  requires obj: object != nil && isinv(object.i) && wfversions(invbase(object.i)) && invbase(object.i).Manifest != nil && object.logger != nil && allocated(stat(object.ctx))
  modifies allboxes("map[string]any")
  modifies allmaps("map[string]any")
  modifies allfields("ValidationStatus", "Errors")
  modifies allelems("*ValidationError")
  modifies field_where("InventoryBase", "Head", r, false)
  modifies field_where("InventoryBase", "Manifest", r, false)
  modifies field_where("InventoryBase", "Versions", r, false)
  modifies field_where("InventoryBase", "Fixity", r, false)
  modifies field_where("InventoryBase", "versionValue", r, false)
  modifies field_where("OCFLVersions", "Versions", r, false)
  modifies field_where("OCFLManifest", "Manifest", r, false)
  modifies field_where("OCFLState", "State", r, false)
  modifies field_where("Version", "Created", r, false)
  modifies field_where("Version", "User", r, false)
  modifies field_where("Version", "Message", r, false)
  modifies field_where("Version", "State", r, false)
  modifies field_where("OCFLUser", "User", r, false)
  modifies maps_where("map[string]*Version", r, false)
  modifies maps_where("map[string][]string", r, false)
  modifies hashbuf
  modifies wbuf
  modifies fsstate
  modifies failed
  modifies unread
  modifies codes
  modifies warns
  modifies object.versionInventories
  ensures grown: forall c string :: {codes[c]} old(codes[c]) ==> codes[c]
  ensures unreadable: !old(dirok(object.fsys, ".")) ==> err != nil
  ensures strayfile: err == nil ==> (forall k int :: {old(ent(object.fsys, ".", k))} old(0 <= k && k < ndir(object.fsys, ".") && !direntisdir(ent(object.fsys, ".", k)) && !objectfile(object, direntname(ent(object.fsys, ".", k)))) ==> "E001" in codes)
  ensures straydir: err == nil && old(vplain(invbase(object.i))) ==> (forall k int :: {old(ent(object.fsys, ".", k))} old(0 <= k && k < ndir(object.fsys, ".") && direntisdir(ent(object.fsys, ".", k)) && !objectdir(object, direntname(ent(object.fsys, ".", k)))) ==> "E001" in codes)
  ensures infolder: err == nil && old(vplain(invbase(object.i))) ==> (forall k int, j int :: {old(ent(object.fsys, ".", k)), old(ent(object.fsys, direntname(ent(object.fsys, ".", k)), j))} old(0 <= k && k < ndir(object.fsys, ".") && direntisdir(ent(object.fsys, ".", k)) && direntname(ent(object.fsys, ".", k)) in invbase(object.i).Versions.Versions && stray(object.fsys, direntname(ent(object.fsys, ".", k)), j) && !invfile(direntname(ent(object.fsys, direntname(ent(object.fsys, ".", k)), j)))) ==> "E015" in codes)
  loop 1
  invariant grown: forall c string :: {codes[c]} old(codes[c]) ==> codes[c]
  invariant members: old(vplain(invbase(object.i))) ==> (forall v string :: {bag(versions)[v]} bag(versions)[v] > 0 <==> old(v in invbase(object.i).Versions.Versions))
  invariant dirs: forall v string :: {bag(allowedDirs)[v]} bag(allowedDirs)[v] > 0 <==> bag(versions)[v] > 0 || v == "logs" || v == "extensions"
  invariant files: forall v string :: {bag(allowedFiles)[v]} bag(allowedFiles)[v] > 0 <==> objectfile(object, v)
  invariant strayfile: forall k int :: {ent(object.fsys, ".", k)} 0 <= k && k < idx() && !direntisdir(ent(object.fsys, ".", k)) && !objectfile(object, direntname(ent(object.fsys, ".", k))) ==> "E001" in codes
  invariant straydir: forall k int :: {ent(object.fsys, ".", k)} 0 <= k && k < idx() && direntisdir(ent(object.fsys, ".", k)) && bag(allowedDirs)[direntname(ent(object.fsys, ".", k))] == 0 ==> "E001" in codes
  invariant infolder: forall k int, j int :: {ent(object.fsys, ".", k), ent(object.fsys, direntname(ent(object.fsys, ".", k)), j)} 0 <= k && k < idx() && direntisdir(ent(object.fsys, ".", k)) && bag(versions)[direntname(ent(object.fsys, ".", k))] > 0 && stray(object.fsys, direntname(ent(object.fsys, ".", k)), j) && !invfile(direntname(ent(object.fsys, direntname(ent(object.fsys, ".", k)), j))) ==> "E015" in codes
