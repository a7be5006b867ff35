package ocfl

// ---------- file systems ----------
// disk: the content of every completely written file; fkey names a file of a file system
ghost disk: strmap
// changes whenever a file system may have changed
ghost fsstate: int
// whether a write, a create or a hook of an extension has failed
ghost failed: bool
// the text a writer has received since it was created
ghost wbuf: ifacestr
logic fkey(any, string) string
logic wkey(any) string
axiom fkey-inj: forall f any, a string, b string :: {fkey(f, a), fkey(f, b)} fkey(f, a) == fkey(f, b) ==> a == b

trusted writefs.Create(fsys, path) (w, err)
  modifies failed
  modifies wbuf
  modifies disk
  modifies fsstate
  ensures ok: err == nil ==> w != nil && wkey(w) == fkey(fsys, path) && wbuf == upd(old(wbuf), w, "")
  ensures failed: err != nil ==> wbuf == old(wbuf) && (w == nil || wkey(w) == fkey(fsys, path))
  ensures frame: disk == upd(old(disk), fkey(fsys, path), disk[fkey(fsys, path)])
  ensures fault: failed <==> old(failed) || err != nil
trusted writefs.FileWrite.Write(w, p) (n, err)
  modifies failed
  modifies wbuf
  modifies fsstate
  ensures ok: err == nil ==> wbuf == upd(old(wbuf), w, old(wbuf)[w] + bytes2str(p))
  ensures frame: wbuf == upd(old(wbuf), w, wbuf[w])
  ensures fault: failed <==> old(failed) || err != nil
trusted writefs.FileWrite.Close(w) (err)
  modifies failed
  modifies disk
  modifies fsstate
  ensures ok: err == nil ==> disk == upd(old(disk), wkey(w), wbuf[w])
  ensures frame: disk == upd(old(disk), wkey(w), disk[wkey(w)])
  ensures fault: failed <==> old(failed) || err != nil

// the last value turned into JSON, and the result
ghost jsonsrc: any
ghost jsontext: string
trusted json.MarshalIndent(v, prefix, indent) (result, err)
  modifies jsonsrc
  modifies jsontext
  ensures src: jsonsrc == v
  ensures text: err == nil ==> jsontext == bytes2str(result) && fresh(result)

logic digestof(string, string) string
trusted checksum.GetHash(alg) (h, err)
  modifies hashbuf
  ensures ok: err == nil ==> h != nil && hashbuf == upd(old(hashbuf), h, "") && (forall s string :: {hashsum(h, s)} hashsum(h, s) == digestof(alg, s))
  ensures failed: err != nil ==> hashbuf == old(hashbuf)

// the base of an inventory of any version
def invbase(x) = ite(typeis(x, "*InventoryV1_0"), as(x, "*InventoryV1_0").InventoryBase, as(x, "*InventoryV1_1").InventoryBase)
def isinv(x) = x != nil && (typeis(x, "*InventoryV1_0") && as(x, "*InventoryV1_0") != nil || typeis(x, "*InventoryV1_1") && as(x, "*InventoryV1_1") != nil) && invbase(x) != nil
def invalg(x) = invbase(x).DigestAlgorithm
def invhead(x) = invbase(x).Head.string
func (i *InventoryBase).GetID() (id)
  prop C16 C20
  nopanic
  noalloc
  requires i: i != nil
  ensures val: id == i.Id
func (i *InventoryBase).GetDigestAlgorithm() (alg)
  prop C16
  nopanic
  noalloc
  requires i: i != nil
  ensures val: alg == i.DigestAlgorithm
func (i *InventoryBase).GetHead() (head)
  prop C16
  nopanic
  noalloc
  requires i: i != nil && i.Head != nil
  ensures val: head == i.Head.string
func (i *InventoryBase).IsWriteable() (w)
  prop C16 C23
  nopanic
  noalloc
  requires i: i != nil
  ensures val: w == i.writeable
func (i *InventoryBase).IsModified() (m)
  prop C23
  nopanic
  noalloc
  requires i: i != nil
  ensures val: m == i.modified
func (i *InventoryBase).Init(id, digest, fixity) (err)
  prop C20
  nopanic
  requires i: i != nil
  modifies i.Id
  modifies i.DigestAlgorithm
  modifies i.fixityDigestAlgorithms
  ensures ok: err == nil && i.Id == id && i.DigestAlgorithm == digest && i.fixityDigestAlgorithms == fixity
dispatch Inventory.GetID = InventoryBase of InventoryV1_0 InventoryV1_1
dispatch Inventory.GetDigestAlgorithm = InventoryBase of InventoryV1_0 InventoryV1_1
dispatch Inventory.GetHead = InventoryBase of InventoryV1_0 InventoryV1_1
dispatch Inventory.IsWriteable = InventoryBase of InventoryV1_0 InventoryV1_1
dispatch Inventory.IsModified = InventoryBase of InventoryV1_0 InventoryV1_1
dispatch Inventory.Init = InventoryBase of InventoryV1_0 InventoryV1_1
dispatch Inventory.Finalize = InventoryBase of InventoryV1_0 InventoryV1_1

def sidecar(alg, text) = hexof(digestof(alg, text)) + " " + "inventory.json"
def rootinv(object) = fkey(object.fsys, "inventory.json")
def rootcar(object) = fkey(object.fsys, "inventory.json." + invalg(object.i))
def verinv(object) = fkey(object.fsys, invhead(object.i) + "/inventory.json")
def vercar(object) = fkey(object.fsys, invhead(object.i) + "/inventory.json." + invalg(object.i))

func (object *ObjectBase).StoreInventory(version, objectRoot) (err)
  prop C16 C23
  strings
  use fkey-inj
  nopanic
  requires obj: object != nil && isinv(object.i) && invbase(object.i).Head != nil && object.logger != nil
  modifies failed
  modifies disk
  modifies fsstate
  modifies wbuf
  modifies hashbuf
  modifies jsonsrc
  modifies jsontext
  ensures writeable: err == nil ==> object.fsys != nil && invbase(object.i).writeable
  ensures json: err == nil ==> jsonsrc == old(object.i)
  ensures root: err == nil && objectRoot ==> disk[rootinv(object)] == jsontext
  ensures root-sidecar: err == nil && objectRoot && (version ==> rootcar(object) != verinv(object) && rootcar(object) != vercar(object)) ==> disk[rootcar(object)] == sidecar(invalg(object.i), jsontext)
  ensures version: err == nil && version ==> disk[verinv(object)] == jsontext
  ensures version-sidecar: err == nil && version ==> disk[vercar(object)] == sidecar(invalg(object.i), jsontext)
  ensures others: forall k string :: {disk[k]} disk[k] == old(disk)[k] || (objectRoot && (k == rootinv(object) || k == rootcar(object))) || (version && (k == verinv(object) || k == vercar(object)))
  ensures reported: failed && err == nil ==> old(failed)

// ---------- loading an inventory ----------
// whether a file can be read, and whether it is missing
logic readableat(int, any, string) bool
logic goneat(int, any, string) bool
def readable(fsys, name) = readableat(fsstate, fsys, name)
def gone(fsys, name) = goneat(fsstate, fsys, name)
trusted fs.ReadFile(fsys, name) (data, err)
  ensures ok: err == nil <==> readable(fsys, name)
  ensures data: err == nil ==> fresh(data) && bytes2str(data) == disk[fkey(fsys, name)]
  ensures gone: err != nil ==> (errors.Is(err, fs.ErrNotExist) <==> gone(fsys, name))

// unmarshalling fills the value pointed to, here a map or an inventory
def decoded(v, r) = isinv(v) && r == invbase(v)
// what decoding makes is new
def newversion(x) = x == nil || fresh(x) && (x.Created == nil || fresh(x.Created)) && (x.Message == nil || fresh(x.Message)) && (x.User == nil || fresh(x.User) && (x.User.Name == nil || fresh(x.User.Name)) && (x.User.Address == nil || fresh(x.User.Address))) && (x.State == nil || fresh(x.State) && (ref(x.State.State) == 0 || fresh(x.State.State)))
def newparts(i) = (i.Head == nil || fresh(i.Head)) && (i.Manifest == nil || fresh(i.Manifest) && (ref(i.Manifest.Manifest) == 0 || fresh(i.Manifest.Manifest))) && (i.Versions == nil || fresh(i.Versions) && (ref(i.Versions.Versions) == 0 || fresh(i.Versions.Versions)) && (forall v string :: {i.Versions.Versions[v]} v in i.Versions.Versions ==> newversion(i.Versions.Versions[v])))
trusted json.Unmarshal(data, v) (err)
  modifies allboxes("map[string]any")
  modifies allmaps("map[string]any")
  modifies field_where("InventoryBase", "Id", r, decoded(v, r))
  modifies field_where("InventoryBase", "Type", r, decoded(v, r))
  modifies field_where("InventoryBase", "DigestAlgorithm", r, decoded(v, r))
  modifies field_where("InventoryBase", "Head", r, decoded(v, r))
  modifies field_where("InventoryBase", "ContentDirectory", r, decoded(v, r))
  modifies field_where("InventoryBase", "Manifest", r, decoded(v, r))
  modifies field_where("InventoryBase", "Versions", r, decoded(v, r))
  modifies field_where("InventoryBase", "Fixity", r, decoded(v, r))
  ensures new: isinv(v) ==> newparts(invbase(v))
  ensures kind: !errors.Is(err, fs.ErrNotExist)

func newInventory(ctx, object, folder, version, logger) (inv, err)
  prop C16
  ensures kind: err == nil
  ensures ok: err == nil ==> isinv(inv) && fresh(invbase(inv)) && invbase(inv).ctx == ctx && invbase(inv).Head != nil && (ref(invbase(inv).fixityDigestAlgorithms) == 0 || fresh(invbase(inv).fixityDigestAlgorithms))

// everything validation may fill in belongs to the inventory alone
def newinv(i) = fresh(i) && fresh(i.Versions) && (ref(i.Versions.Versions) == 0 || fresh(i.Versions.Versions)) && (forall v string :: {i.Versions.Versions[v]} v in i.Versions.Versions ==> fresh(i.Versions.Versions[v]) && fresh(i.Versions.Versions[v].User)) && (ref(i.fixityDigestAlgorithms) == 0 || fresh(i.fixityDigestAlgorithms))
func (object *ObjectBase).loadInventory(data, folder) (inv, err)
  prop C16
  nopanic
  requires obj: object != nil && allocated(stat(object.ctx))
  modifies allboxes("map[string]any")
  modifies allmaps("map[string]any")
  modifies allfields("ValidationStatus", "Errors")
  modifies allelems("*ValidationError")
  modifies codes
  modifies warns
  ensures ok: err == nil ==> isinv(inv) && fresh(invbase(inv)) && invbase(inv).Head != nil && invbase(inv).ctx == object.ctx
  ensures kind: !errors.Is(err, fs.ErrNotExist)
  ensures new: err == nil ==> newinv(invbase(inv))
  ensures wf: err == nil ==> wfversions(invbase(inv)) && wfstates(invbase(inv))
  ensures rest: codes["E058"] == old(codes["E058"]) && codes["E060"] == old(codes["E060"]) && codes["E061"] == old(codes["E061"])

def invname(folder) = filepath.ToSlash(filepath.Join(folder, "inventory.json"))
def carname(folder, i) = invname(folder) + "." + invalg(i)
def car(object, folder, i) = strings.TrimSpace(disk[fkey(object.fsys, carname(folder, i))])
def carok(s) = match("^([a-fA-F0-9]+)\\s+inventory\\.json$", s)
def cardigest(s) = group("^([a-fA-F0-9]+)\\s+inventory\\.json$", s, 1)

// hex digits have no other case than A-F
axiom fold-hex: forall s string, x string :: {strings.EqualFold(s, hexof(x))} strings.EqualFold(s, hexof(x)) <==> strings.ToLower(s) == hexof(x)
axiom fold-hex2: forall s string, x string :: {strings.EqualFold(hexof(x), s)} strings.EqualFold(hexof(x), s) <==> strings.ToLower(s) == hexof(x)

func (object *ObjectBase).LoadInventory(folder) (inv, err)
  prop C16
  strings
  use fold-hex fold-hex2
  nopanic
  requires obj: object != nil && objinv(object) && object.logger != nil && allocated(stat(object.ctx))
  modifies allboxes("map[string]any")
  modifies allmaps("map[string]any")
  modifies allfields("ValidationStatus", "Errors")
  modifies allelems("*ValidationError")
  modifies field_where("InventoryBase", "Head", r, false)
  modifies field_where("InventoryBase", "Manifest", r, false)
  modifies field_where("InventoryBase", "Versions", r, false)
  modifies field_where("InventoryBase", "Fixity", r, false)
  modifies field_where("InventoryBase", "versionValue", r, false)
  modifies field_where("OCFLVersions", "Versions", r, false)
  modifies field_where("OCFLManifest", "Manifest", r, false)
  modifies field_where("OCFLState", "State", r, false)
  modifies field_where("Version", "Created", r, false)
  modifies field_where("Version", "User", r, false)
  modifies field_where("Version", "Message", r, false)
  modifies field_where("Version", "State", r, false)
  modifies field_where("OCFLUser", "User", r, false)
  modifies maps_where("map[string]*Version", r, false)
  modifies maps_where("map[string][]string", r, false)
  modifies hashbuf
  modifies codes
  modifies warns
  ensures ok: err == nil ==> isinv(inv) && fresh(invbase(inv)) && invbase(inv).Head != nil && invbase(inv).ctx == object.ctx
  ensures isgone: errors.Is(err, fs.ErrNotExist) ==> gone(object.fsys, invname(folder)) && !readable(object.fsys, invname(folder))
  ensures new: err == nil ==> newinv(invbase(inv))
  ensures wf: err == nil ==> wfversions(invbase(inv)) && wfstates(invbase(inv))
  ensures unreadable: !readable(object.fsys, invname(folder)) ==> err != nil && inv == nil
  ensures missing: gone(object.fsys, invname(folder)) && !readable(object.fsys, invname(folder)) ==> errors.Is(err, fs.ErrNotExist)
  ensures e058: err == nil ==> ("E058" in codes <==> ("E058" in old(codes) || (!readable(object.fsys, carname(folder, inv)) && gone(object.fsys, carname(folder, inv)))))
  ensures e061: err == nil ==> ("E061" in codes <==> ("E061" in old(codes) || (readable(object.fsys, carname(folder, inv)) && !carok(car(object, folder, inv)))))
  ensures e060: err == nil ==> ("E060" in codes <==> ("E060" in old(codes) || (!readable(object.fsys, carname(folder, inv)) && !gone(object.fsys, carname(folder, inv))) || (readable(object.fsys, carname(folder, inv)) && carok(car(object, folder, inv)) && strings.ToLower(cardigest(car(object, folder, inv))) != hexof(digestof(invalg(inv), disk[fkey(object.fsys, invname(folder))])))))

// ---------- declarations ----------
// a listing depends on the state of all file systems, fsstate, which changes with every writing operation
logic dirokat(int, any, string) bool
logic dirgoneat(int, any, string) bool
logic ndirat(int, any, string) int
logic direntat(int, any, string, int) any
def dirok(fsys, name) = dirokat(fsstate, fsys, name)
def ndir(fsys, name) = ndirat(fsstate, fsys, name)
def dirent(fsys, name, k) = direntat(fsstate, fsys, name, k)
logic direntname(any) string
logic direntisdir(any) bool
trusted fs.ReadDir(fsys, name) (entries, err)
  ensures ok: err == nil <==> dirok(fsys, name)
  ensures gone: err != nil ==> entries == nil && (errors.Is(err, fs.ErrNotExist) <==> dirgoneat(fsstate, fsys, name))
  ensures len: err == nil ==> fresh(entries) && len(entries) == ndir(fsys, name)
  ensures entries: err == nil ==> forall k int :: {entries[k]} 0 <= k && k < len(entries) ==> entries[k] == dirent(fsys, name, k) && entries[k] != nil
trusted fs.DirEntry.Name(x) (name)
  noalloc
  ensures val: name == direntname(x)
trusted fs.DirEntry.IsDir(x) (dir)
  noalloc
  ensures val: dir == direntisdir(x)

def declpat(prefix) = "^0=" + prefix + "([0-9]+\\.[0-9]+)$"
def ent(fsys, folder, k) = dirent(fsys, folder, k)
def isdecl(fsys, folder, prefix, k) = 0 <= k && k < ndir(fsys, folder) && !direntisdir(ent(fsys, folder, k)) && match(declpat(prefix), direntname(ent(fsys, folder, k)))
def declver(fsys, folder, prefix, k) = group(declpat(prefix), direntname(ent(fsys, folder, k)), 1)
def declfile(fsys, folder, k) = folder + "/" + direntname(ent(fsys, folder, k))
def declbytes(fsys, folder, k) = disk[fkey(fsys, declfile(fsys, folder, k))]
def decltext(fsys, folder, prefix, k) = prefix + declver(fsys, folder, prefix, k)
def declok(fsys, folder, prefix, k) = declbytes(fsys, folder, k) == decltext(fsys, folder, prefix, k) + "\n" || declbytes(fsys, folder, k) == decltext(fsys, folder, prefix, k) + "\r\n"
axiom declgroup: forall p string, s string :: {match(declpat(p), s)} match(declpat(p), s) ==> group(declpat(p), s, 1) != ""
axiom declvalid: forall p string :: {"^0=" + p} p == "ocfl_" || p == "ocfl_object_" ==> revalid(declpat(p)) && ngroups(declpat(p)) == 2

func getVersion(ctx, fsys, folder, prefix) (version, err)
  prop C18
  use declgroup declvalid
  nopanic
  requires prefix: prefix == "ocfl_" || prefix == "ocfl_object_"
  ensures listed: err == nil || err == errVersionMultiple || err == errInvalidContent ==> dirok(fsys, folder)
  ensures found: err == nil ==> exists k int :: {ent(fsys, folder, k)} isdecl(fsys, folder, prefix, k) && version == declver(fsys, folder, prefix, k) && declok(fsys, folder, prefix, k)
  ensures single: err == nil ==> forall j int, k int :: {ent(fsys, folder, j), ent(fsys, folder, k)} isdecl(fsys, folder, prefix, j) && isdecl(fsys, folder, prefix, k) ==> j == k
  ensures complete: forall k int :: {ent(fsys, folder, k)} dirok(fsys, folder) && isdecl(fsys, folder, prefix, k) && readable(fsys, declfile(fsys, folder, k)) && declok(fsys, folder, prefix, k) && (forall j int :: {ent(fsys, folder, j)} isdecl(fsys, folder, prefix, j) ==> j == k) ==> err == nil
  ensures none: dirok(fsys, folder) && (forall j int :: {ent(fsys, folder, j)} !isdecl(fsys, folder, prefix, j)) ==> err == errVersionNone && version == ""
  ensures none-only: err == errVersionNone ==> dirok(fsys, folder) && (forall j int :: {ent(fsys, folder, j)} !isdecl(fsys, folder, prefix, j))
  ensures multiple-only: err == errVersionMultiple ==> exists j int, k int :: {ent(fsys, folder, j), ent(fsys, folder, k)} isdecl(fsys, folder, prefix, j) && isdecl(fsys, folder, prefix, k) && j != k
  ensures content-only: err == errInvalidContent ==> exists k int :: {ent(fsys, folder, k)} isdecl(fsys, folder, prefix, k) && !declok(fsys, folder, prefix, k)
  ensures wrong: forall k int :: {ent(fsys, folder, k)} dirok(fsys, folder) && isdecl(fsys, folder, prefix, k) && readable(fsys, declfile(fsys, folder, k)) && !declok(fsys, folder, prefix, k) && (forall j int :: {ent(fsys, folder, j)} isdecl(fsys, folder, prefix, j) ==> j == k) ==> err == errInvalidContent
  loop 1
    invariant seen-none: version == "" ==> forall j int :: {ent(fsys, folder, j)} 0 <= j && j < idx() ==> !isdecl(fsys, folder, prefix, j)
    invariant seen-one: version != "" ==> exists k int :: {ent(fsys, folder, k)} k < idx() && isdecl(fsys, folder, prefix, k) && version == declver(fsys, folder, prefix, k) && declok(fsys, folder, prefix, k) && (forall j int :: {ent(fsys, folder, j)} j < idx() && isdecl(fsys, folder, prefix, j) ==> j == k)

func validVersion(ctx, fsys, version, folder, prefix) (valid)
  prop C18
  requires prefix: prefix == "ocfl_" || prefix == "ocfl_object_"
  ensures valid: valid ==> exists k int :: {ent(fsys, folder, k)} isdecl(fsys, folder, prefix, k) && version == declver(fsys, folder, prefix, k) && declok(fsys, folder, prefix, k)

logic subokat(int, any, string) bool
logic subgoneat(int, any, string) bool
def below(sub, fsys, dir) = forall n string :: {fkey(sub, n)} fkey(sub, n) == fkey(fsys, dir + "/" + n)
trusted fs.Sub(fsys, dir) (sub, err)
  noalloc
  ensures ok: err == nil ==> sub != nil && below(sub, fsys, dir)
  ensures when: err == nil <==> subokat(fsstate, fsys, dir)
  ensures gone: err != nil ==> (errors.Is(err, fs.ErrNotExist) <==> subgoneat(fsstate, fsys, dir))
  ensures listing: err == nil ==> (dirok(sub, "") <==> dirok(fsys, dir)) && ndir(sub, "") == ndir(fsys, dir) && (dirgoneat(fsstate, sub, "") <==> dirgoneat(fsstate, fsys, dir))
trusted writefs.SubFSCreate(fsys, dir) (sub, err)
  modifies fsstate
  modifies failed
  ensures fault: failed <==> old(failed) || err != nil
  ensures ok: err == nil ==> sub != nil && below(sub, fsys, dir)
  ensures listing: err == nil && dirokat(old(fsstate), fsys, dir) ==> dirok(sub, ".") && ndir(sub, ".") == ndirat(old(fsstate), fsys, dir)
trusted (f *ExtensionFactory).CreateExtensions(fsys, validation) (manager, err)
  modifies warns
  modifies allfields("ValidationStatus", "Errors")
  modifies allelems("*ValidationError")
  ensures ok: err == nil ==> manager != nil

def rootdecl(osr, k) = isdecl(osr.fsys, ".", "ocfl_", k)
func (osr *StorageRootBase).Load() (err)
  prop C18
  nopanic
  requires obj: osr != nil && osr.logger != nil && osr.extensionFactory != nil && allocated(stat(osr.ctx))
  modifies osr.version
  modifies osr.extensionManager
  modifies warns
  modifies codes
  modifies allfields("ValidationStatus", "Errors")
  modifies allelems("*ValidationError")
  ensures readable: err == nil ==> dirok(osr.fsys, ".")
  ensures none: err == nil && (forall j int :: {ent(osr.fsys, ".", j)} !rootdecl(osr, j)) ==> osr.version == "1.0" && codes == upd(upd(upd(old(codes), "E003", true), "E004", true), "E005", true)
  ensures one: forall k int :: {ent(osr.fsys, ".", k)} err == nil && rootdecl(osr, k) && readable(osr.fsys, declfile(osr.fsys, ".", k)) && (forall j int :: {ent(osr.fsys, ".", j)} rootdecl(osr, j) ==> j == k) ==> ite(declok(osr.fsys, ".", "ocfl_", k), osr.version == declver(osr.fsys, ".", "ocfl_", k) && codes == old(codes), osr.version == "1.0" && codes == upd(old(codes), "E006", true))
  ensures several: forall j int, k int :: {ent(osr.fsys, ".", j), ent(osr.fsys, ".", k)} err == nil && j != k && rootdecl(osr, j) && rootdecl(osr, k) ==> osr.version == "1.0" && ("E003" in codes || "E006" in codes)

def silent(ctx) = len(stat(ctx).Errors) == old(len(stat(ctx).Errors))
def reportedcode(ctx, c) = len(stat(ctx).Errors) == old(len(stat(ctx).Errors)) + 1 && last(ctx) != nil && last(ctx).Code == codefor("1.0", c)
def objdecl(ofs, k) = isdecl(ofs, ".", "ocfl_object_", k)
def objbytes(ofs, k) = disk[fkey(ofs, direntname(ent(ofs, ".", k)))]
def objdeclok(ofs, k) = objbytes(ofs, k) == "ocfl_object_" + declver(ofs, ".", "ocfl_object_", k) + "\n" || objbytes(ofs, k) == "ocfl_object_" + declver(ofs, ".", "ocfl_object_", k) + "\r\n"
axiom objgroup: forall s string :: {match(declpat("ocfl_object_"), s)} match(declpat("ocfl_object_"), s) ==> group(declpat("ocfl_object_"), s, 1) != ""
func GetObjectVersion(ctx, ofs) (version, err)
  prop C18
  use objgroup
  nopanic
  requires ctx: allocated(stat(ctx))
  modifies stat(ctx).Errors
  modifies allelems("*ValidationError")
  ensures listed: err == nil || err == errVersionMultiple ==> dirok(ofs, ".")
  ensures none: dirok(ofs, ".") && (forall j int :: {ent(ofs, ".", j)} !objdecl(ofs, j)) ==> err == nil && version == "" && (known(ctx) ==> reportedcode(ctx, "E003"))
  ensures none-only: err == nil && version == "" ==> forall j int :: {ent(ofs, ".", j)} !objdecl(ofs, j)
  ensures found: err == nil && version != "" ==> exists k int :: {ent(ofs, ".", k)} objdecl(ofs, k) && version == declver(ofs, ".", "ocfl_object_", k) && (known(ctx) ==> ite(objdeclok(ofs, k), silent(ctx), reportedcode(ctx, "E007")))
  ensures single: err == nil ==> forall j int, k int :: {ent(ofs, ".", j), ent(ofs, ".", k)} objdecl(ofs, j) && objdecl(ofs, k) ==> j == k
  ensures complete: forall k int :: {ent(ofs, ".", k)} dirok(ofs, ".") && objdecl(ofs, k) && readable(ofs, direntname(ent(ofs, ".", k))) && (forall j int :: {ent(ofs, ".", j)} objdecl(ofs, j) ==> j == k) ==> err == nil
  ensures multiple-only: err == errVersionMultiple ==> exists j int, k int :: {ent(ofs, ".", j), ent(ofs, ".", k)} objdecl(ofs, j) && objdecl(ofs, k) && j != k
  loop 1
    invariant seen-none: version == "" ==> silent(ctx) && (forall j int :: {ent(ofs, ".", j)} 0 <= j && j < idx() ==> !objdecl(ofs, j))
    invariant seen-one: version != "" ==> exists k int :: {ent(ofs, ".", k)} k < idx() && objdecl(ofs, k) && version == declver(ofs, ".", "ocfl_object_", k) && (known(ctx) ==> ite(objdeclok(ofs, k), silent(ctx), reportedcode(ctx, "E007"))) && (forall j int :: {ent(ofs, ".", j)} j < idx() && objdecl(ofs, j) ==> j == k)

// ---------- creating objects and storage roots ----------
logic openableat(int, any, string) bool
trusted fs.FS.Open(x, name) (f, err)
  noalloc
  ensures ok: err == nil ==> f != nil
  ensures when: err == nil <==> openableat(fsstate, x, name)
trusted fs.File.Close(x) (err)
  noalloc
// extensions keep their configuration in the file system given to them
def nowrite(f) = forall k string :: {disk[k]} disk[k] == old(disk)[k] || (exists n string :: {fkey(f, n)} k == fkey(f, n))
trusted ocfl.ExtensionManager.SetFS(x, fsys, create) ()
  modifies disk
  modifies fsstate
  modifies wbuf
  ensures below: nowrite(fsys)
trusted ocfl.ExtensionManager.GetFixityDigests(x) (algs)
  ensures fresh: fresh(algs)
func (object *ObjectBase).CreateInventory(id, digest, fixity) (inv, err)
  prop C20
  nopanic
  requires obj: object != nil && allocated(stat(object.ctx))
  modifies allelems("checksum.DigestAlgorithm")
  modifies allfields("InventoryBase", "Id")
  modifies allfields("InventoryBase", "Type")
  modifies allfields("InventoryBase", "DigestAlgorithm")
  modifies allfields("InventoryBase", "Fixity")
  modifies allfields("InventoryBase", "paddingLength")
  modifies allfields("InventoryBase", "versionValue")
  modifies allfields("InventoryBase", "fixityDigestAlgorithms")
  modifies allfields("InventoryBase", "Head")
  modifies allfields("InventoryBase", "Manifest")
  modifies allfields("InventoryBase", "Versions")
  modifies allmaps("map[string]*Version")
  modifies allfields("Version", "Created")
  modifies allfields("Version", "User")
  modifies allfields("Version", "Message")
  modifies allfields("Version", "State")
  modifies allfields("OCFLUser", "User")
  modifies allfields("ValidationStatus", "Errors")
  modifies allelems("*ValidationError")
  modifies codes
  modifies warns
  ensures ok: err == nil ==> isinv(inv) && fresh(invbase(inv)) && invbase(inv).Id == id && invbase(inv).DigestAlgorithm == digest && invbase(inv).Head != nil
  ensures wf: err == nil ==> wfversions(invbase(inv)) && wfstates(invbase(inv)) && invbase(inv).ctx == object.ctx

axiom declext: forall s string, n string :: {"0=" + s, "extensions/" + n} "0=" + s != "extensions/" + n
def objdeclname(object) = "0=" + ("ocfl_object_" + object.version)
func (object *ObjectBase).Init(id, digest, fixity, extensionManager) (err)
  prop C20
  strings
  use fkey-inj declext
  nopanic
  requires obj: object != nil && object.fsys != nil && object.logger != nil && extensionManager != nil && allocated(stat(object.ctx))
  modifies failed
  modifies disk
  modifies fsstate
  modifies wbuf
  modifies object.extensionManager
  modifies object.i
  modifies allelems("checksum.DigestAlgorithm")
  modifies allfields("InventoryBase", "Id")
  modifies allfields("InventoryBase", "Type")
  modifies allfields("InventoryBase", "DigestAlgorithm")
  modifies allfields("InventoryBase", "Fixity")
  modifies allfields("InventoryBase", "paddingLength")
  modifies allfields("InventoryBase", "versionValue")
  modifies allfields("InventoryBase", "fixityDigestAlgorithms")
  modifies allfields("InventoryBase", "Head")
  modifies allfields("InventoryBase", "Manifest")
  modifies allfields("InventoryBase", "Versions")
  modifies allmaps("map[string]*Version")
  modifies allfields("Version", "Created")
  modifies allfields("Version", "User")
  modifies allfields("Version", "Message")
  modifies allfields("Version", "State")
  modifies allfields("OCFLUser", "User")
  modifies allfields("ValidationStatus", "Errors")
  modifies allelems("*ValidationError")
  modifies codes
  modifies warns
  ensures declared-before: openableat(old(fsstate), object.fsys, objdeclname(object)) ==> err != nil && disk == old(disk) && fsstate == old(fsstate)
  ensures occupied: dirokat(old(fsstate), object.fsys, ".") && ndirat(old(fsstate), object.fsys, ".") > 0 ==> err != nil && disk == old(disk) && fsstate == old(fsstate)
  ensures unreadable: !dirokat(old(fsstate), object.fsys, ".") && !dirgoneat(old(fsstate), object.fsys, ".") ==> err != nil && disk == old(disk) && fsstate == old(fsstate)
  ensures declared: err == nil ==> disk[fkey(object.fsys, objdeclname(object))] == "ocfl_object_" + object.version + "\n"
  ensures inventory: err == nil ==> isinv(object.i) && invbase(object.i).Id == id && invbase(object.i).DigestAlgorithm == digest && object.extensionManager == extensionManager
  ensures others: forall k string :: {disk[k]} disk[k] == old(disk)[k] || (exists n string :: {fkey(object.fsys, n)} k == fkey(object.fsys, n))
  ensures reported: failed && err == nil ==> old(failed)

// the base of an object of any version
def objbase(o) = ite(typeis(o, "*ObjectBase"), as(o, "*ObjectBase"), ite(typeis(o, "*ObjectV1_1"), as(o, "*ObjectV1_1").ObjectBase, ite(typeis(o, "*ObjectV2_0"), as(o, "*ObjectV2_0").ObjectBase, as(o, "*ObjectV1_0").ObjectBase)))
def isobj(o) = o != nil && ite(typeis(o, "*ObjectBase"), true, ite(typeis(o, "*ObjectV1_1"), as(o, "*ObjectV1_1") != nil, ite(typeis(o, "*ObjectV2_0"), as(o, "*ObjectV2_0") != nil, as(o, "*ObjectV1_0") != nil))) && (typeis(o, "*ObjectBase") || typeis(o, "*ObjectV1_1") || typeis(o, "*ObjectV2_0") || typeis(o, "*ObjectV1_0")) && objbase(o) != nil
def specversion(v) = ite(v == "1.1" || v == "2.0", v, "1.0")
func newObject(ctx, fsys, version, storageRoot, extensionManager, logger) (object, err)
  prop C18 C20
  nopanic
  requires ctx: allocated(stat(ctx))
  modifies stat(ctx).Errors
  modifies allelems("*ValidationError")
  ensures known: version != "" ==> err == nil
  ensures object: err == nil ==> isobj(object) && objbase(object).fsys == fsys && objbase(object).ctx == ctx && objbase(object).extensionManager == extensionManager && objbase(object).storageRoot == storageRoot && objbase(object).logger == logger && objbase(object).i == nil
  ensures fresh: err == nil ==> fresh(objbase(object))
  ensures version: version != "" ==> objbase(object).version == specversion(version)
  ensures found: version == "" && err == nil && (forall j int :: {ent(fsys, ".", j)} !objdecl(fsys, j)) ==> objbase(object).version == "1.0"
  ensures declared: forall k int :: {ent(fsys, ".", k)} version == "" && err == nil && objdecl(fsys, k) ==> objbase(object).version == specversion(declver(fsys, ".", "ocfl_object_", k))

logic rootpath(any, string) string
logic rootpathok(any, string) bool
trusted ocfl.ExtensionManager.BuildStorageRootPath(x, storageRoot, id) (path, err)
  ensures ok: err == nil <==> rootpathok(x, id)
  ensures path: err == nil ==> path == rootpath(x, id)

def folderof(osr, id) = rootpath(osr.extensionManager, id)
func (osr *StorageRootBase).ObjectExists(id) (there, err)
  prop C20
  nopanic
  requires obj: osr != nil && osr.extensionManager != nil
  ensures unmapped: !rootpathok(osr.extensionManager, id) ==> err != nil
  ensures nofolder: rootpathok(osr.extensionManager, id) && !subokat(fsstate, osr.fsys, folderof(osr, id)) && subgoneat(fsstate, osr.fsys, folderof(osr, id)) ==> err == nil && !there
  ensures missing: rootpathok(osr.extensionManager, id) && subokat(fsstate, osr.fsys, folderof(osr, id)) && !dirok(osr.fsys, folderof(osr, id)) && dirgoneat(fsstate, osr.fsys, folderof(osr, id)) ==> err == nil && !there
  ensures listed: rootpathok(osr.extensionManager, id) && subokat(fsstate, osr.fsys, folderof(osr, id)) && dirok(osr.fsys, folderof(osr, id)) ==> err == nil && (there <==> ndir(osr.fsys, folderof(osr, id)) > 0)
  ensures unknown: err != nil ==> !there

// the object's methods are those of its ObjectBase
dispatch Object.Init = ObjectBase of ObjectBase ObjectV1_0 ObjectV1_1 ObjectV2_0
func (object *ObjectBase).GetID() (id)
  prop C20
  nopanic
  noalloc
  requires obj: object != nil && objinv(object)
  ensures val: id == ite(object.i == nil, "", invbase(object.i).Id)
dispatch Object.GetID = ObjectBase of ObjectBase ObjectV1_0 ObjectV1_1 ObjectV2_0
def objid(o) = invbase(objbase(o).i).Id
func (osr *StorageRootBase).CreateObject(id, version, digest, fixity, manager) (object, err)
  prop C20
  strings
  nopanic
  requires obj: osr != nil && osr.extensionManager != nil && manager != nil && osr.fsys != nil && osr.logger != nil && allocated(stat(osr.ctx)) && version != ""
  modifies failed
  modifies disk
  modifies fsstate
  modifies wbuf
  modifies allelems("checksum.DigestAlgorithm")
  modifies allfields("InventoryBase", "Id")
  modifies allfields("InventoryBase", "Type")
  modifies allfields("InventoryBase", "DigestAlgorithm")
  modifies allfields("InventoryBase", "Fixity")
  modifies allfields("InventoryBase", "paddingLength")
  modifies allfields("InventoryBase", "versionValue")
  modifies allfields("InventoryBase", "fixityDigestAlgorithms")
  modifies allfields("InventoryBase", "Head")
  modifies allfields("InventoryBase", "Manifest")
  modifies allfields("InventoryBase", "Versions")
  modifies allmaps("map[string]*Version")
  modifies allfields("Version", "Created")
  modifies allfields("Version", "User")
  modifies allfields("Version", "Message")
  modifies allfields("Version", "State")
  modifies allfields("OCFLUser", "User")
  modifies allfields("ValidationStatus", "Errors")
  modifies allelems("*ValidationError")
  modifies codes
  modifies warns
  ensures unmapped: !rootpathok(osr.extensionManager, id) ==> err != nil && disk == old(disk) && fsstate == old(fsstate)
  ensures occupied: dirokat(old(fsstate), osr.fsys, folderof(osr, id)) && ndirat(old(fsstate), osr.fsys, folderof(osr, id)) > 0 ==> err != nil && disk == old(disk)
  ensures declared: err == nil ==> disk[fkey(osr.fsys, folderof(osr, id) + "/" + ("0=" + ("ocfl_object_" + specversion(version))))] == "ocfl_object_" + specversion(version) + "\n"
  ensures object: err == nil ==> isobj(object) && isinv(objbase(object).i) && objid(object) == id
  ensures others: forall k string :: {disk[k]} disk[k] == old(disk)[k] || (exists n string :: {fkey(osr.fsys, folderof(osr, id) + "/" + n)} k == fkey(osr.fsys, folderof(osr, id) + "/" + n))
  ensures reported: failed && err == nil ==> old(failed)

trusted writefs.WriteFile(fsys, name, data) (n, err)
  modifies failed
  modifies disk
  modifies fsstate
  modifies wbuf
  ensures ok: err == nil ==> disk[fkey(fsys, name)] == bytes2str(data)
  ensures frame: disk == upd(old(disk), fkey(fsys, name), disk[fkey(fsys, name)])
  ensures fault: failed <==> old(failed) || err != nil
trusted errorDetails.WithDetail(err, code) (result)
  ensures kept: err != nil ==> result != nil
// the documents compiled into the program
trusted embed.FS.ReadDir(f, name) (entries, err)
  ensures fresh: err == nil ==> fresh(entries)
  ensures entries: err == nil ==> forall k int :: {entries[k]} 0 <= k && k < len(entries) ==> entries[k] != nil && !strings.HasPrefix(direntname(entries[k]), "0=")
trusted embed.FS.ReadFile(f, name) (data, err)
  ensures fresh: err == nil ==> fresh(data)
// extensions write neither declarations nor inventories
def keepsdecl() = forall f any, v string :: {fkey(f, "0=" + v)} disk[fkey(f, "0=" + v)] == old(disk[fkey(f, "0=" + v)])
def keepsinv() = (forall f any :: {fkey(f, "inventory.json")} disk[fkey(f, "inventory.json")] == old(disk[fkey(f, "inventory.json")])) && (forall f any, a string :: {fkey(f, "inventory.json." + a)} disk[fkey(f, "inventory.json." + a)] == old(disk[fkey(f, "inventory.json." + a)]))
trusted ocfl.ExtensionManager.WriteConfig(x) (err)
  modifies failed
  modifies disk
  modifies fsstate
  modifies wbuf
  ensures keeps: keepsdecl() && keepsinv()
  ensures fault: failed <==> old(failed) || err != nil
trusted ocfl.ExtensionManager.StoreRootLayout(x, fsys) (err)
  modifies failed
  modifies disk
  modifies fsstate
  modifies wbuf
  ensures frame: disk == upd(old(disk), fkey(fsys, "ocfl_layout.json"), disk[fkey(fsys, "ocfl_layout.json")])
  ensures fault: failed <==> old(failed) || err != nil

axiom decldoc: forall s string :: {"0=" + s} strings.HasPrefix("0=" + s, "0=") && "0=" + s != "ocfl_layout.json"
def rootdeclname(osr) = "0=" + ("ocfl_" + osr.version)
func (osr *StorageRootBase).Init(version, digest, extensionManager) (err)
  prop C20
  strings
  use fkey-inj declext decldoc
  nopanic
  requires obj: osr != nil && osr.extensionManager != nil && osr.fsys != nil && osr.logger != nil && allocated(stat(osr.ctx))
  modifies failed
  modifies disk
  modifies fsstate
  modifies wbuf
  modifies osr.version
  modifies osr.digest
  modifies codes
  modifies stat(osr.ctx).Errors
  modifies elems(stat(osr.ctx).Errors)
  ensures occupied: dirokat(old(fsstate), osr.fsys, ".") && ndirat(old(fsstate), osr.fsys, ".") > 0 ==> err != nil && disk == old(disk) && fsstate == old(fsstate) && "E069" in codes
  ensures unreadable: !dirokat(old(fsstate), osr.fsys, ".") ==> err != nil && disk == old(disk) && fsstate == old(fsstate)
  ensures declared: err == nil ==> osr.version == version && disk[fkey(osr.fsys, rootdeclname(osr))] == "ocfl_" + version + "\n"
  ensures reported: failed && err == nil ==> old(failed)
  loop 1
    invariant declared: disk[fkey(osr.fsys, rootdeclname(osr))] == "ocfl_" + version + "\n"
    invariant reported: failed ==> old(failed)

// ---------- storage roots: creation, loading, listing ----------
// the base of a storage root of any version
def rootbase(o) = ite(typeis(o, "*StorageRootBase"), as(o, "*StorageRootBase"), ite(typeis(o, "*StorageRootV1_1"), as(o, "*StorageRootV1_1").StorageRootBase, ite(typeis(o, "*StorageRootV2_0"), as(o, "*StorageRootV2_0").StorageRootBase, as(o, "*StorageRootV1_0").StorageRootBase)))
def isroot(o) = o != nil && ite(typeis(o, "*StorageRootBase"), true, ite(typeis(o, "*StorageRootV1_1"), as(o, "*StorageRootV1_1") != nil, ite(typeis(o, "*StorageRootV2_0"), as(o, "*StorageRootV2_0") != nil, as(o, "*StorageRootV1_0") != nil))) && (typeis(o, "*StorageRootBase") || typeis(o, "*StorageRootV1_1") || typeis(o, "*StorageRootV2_0") || typeis(o, "*StorageRootV1_0")) && rootbase(o) != nil
func newStorageRoot(ctx, fsys, version, extensionFactory, extensionManager, logger) (root, err)
  prop C18 C20
  nopanic
  ensures known: err == nil <==> version == "1.0" || version == "1.1" || version == "2.0"
  ensures root: err == nil ==> isroot(root) && fresh(rootbase(root)) && rootbase(root).fsys == fsys && rootbase(root).ctx == ctx && rootbase(root).version == version && rootbase(root).extensionFactory == extensionFactory && rootbase(root).extensionManager == extensionManager && rootbase(root).logger == logger

// the methods of a storage root of any version are those of its base
dispatch StorageRoot.Init = StorageRootBase of StorageRootBase StorageRootV1_0 StorageRootV1_1 StorageRootV2_0
dispatch StorageRoot.Load = StorageRootBase of StorageRootBase StorageRootV1_0 StorageRootV1_1 StorageRootV2_0

func CreateStorageRoot(ctx, fsys, version, extensionFactory, extensionManager, digest, logger) (root, err)
  prop C20
  nopanic
  requires args: fsys != nil && extensionManager != nil && logger != nil && allocated(stat(ctx))
  modifies failed
  modifies disk
  modifies fsstate
  modifies wbuf
  modifies codes
  modifies stat(ctx).Errors
  modifies elems(stat(ctx).Errors)
  ensures unsupported: version != "1.0" && version != "1.1" && version != "2.0" ==> err != nil && disk == old(disk)
  ensures occupied: dirokat(old(fsstate), fsys, ".") && ndirat(old(fsstate), fsys, ".") > 0 ==> err != nil && disk == old(disk) && fsstate == old(fsstate)
  ensures unreadable: !dirokat(old(fsstate), fsys, ".") ==> err != nil && disk == old(disk) && fsstate == old(fsstate)
  ensures declared: err == nil ==> isroot(root) && rootbase(root).version == version && disk[fkey(fsys, "0=" + ("ocfl_" + version))] == "ocfl_" + version + "\n"
  ensures reported: failed && err == nil ==> old(failed)

def anydecl(fsys, k) = isdecl(fsys, ".", "ocfl_", k)
func LoadStorageRoot(ctx, fsys, extensionFactory, logger) (root, err)
  prop C20
  nopanic
  requires args: fsys != nil && extensionFactory != nil && logger != nil && allocated(stat(ctx))
  modifies warns
  modifies codes
  modifies allfields("ValidationStatus", "Errors")
  modifies allelems("*ValidationError")
  ensures root: err == nil ==> isroot(root) && rootbase(root).fsys == fsys
  ensures one: forall k int :: {ent(fsys, ".", k)} err == nil && anydecl(fsys, k) && readable(fsys, declfile(fsys, ".", k)) && (forall j int :: {ent(fsys, ".", j)} anydecl(fsys, j) ==> j == k) && declok(fsys, ".", "ocfl_", k) ==> rootbase(root).version == declver(fsys, ".", "ocfl_", k)
  ensures multiple: forall j int, k int :: {ent(fsys, ".", j), ent(fsys, ".", k)} j != k && anydecl(fsys, j) && anydecl(fsys, k) ==> err != nil

func LoadStorageRootRO(ctx, fsys, extensionFactory, logger) (root, err)
  prop C20
  nopanic
  requires args: fsys != nil && extensionFactory != nil && logger != nil && allocated(stat(ctx))
  modifies warns
  modifies codes
  modifies allfields("ValidationStatus", "Errors")
  modifies allelems("*ValidationError")
  ensures root: err == nil ==> isroot(root) && rootbase(root).fsys == fsys
  ensures one: forall k int :: {ent(fsys, ".", k)} err == nil && anydecl(fsys, k) && readable(fsys, declfile(fsys, ".", k)) && (forall j int :: {ent(fsys, ".", j)} anydecl(fsys, j) ==> j == k) && declok(fsys, ".", "ocfl_", k) ==> rootbase(root).version == declver(fsys, ".", "ocfl_", k)
  ensures multiple: forall j int, k int :: {ent(fsys, ".", j), ent(fsys, ".", k)} j != k && anydecl(fsys, j) && anydecl(fsys, k) ==> err != nil

def rootdir(osr, k) = 0 <= k && k < ndir(osr.fsys, "") && direntisdir(dirent(osr.fsys, "", k)) && direntname(dirent(osr.fsys, "", k)) != "." && direntname(dirent(osr.fsys, "", k)) != ".."
func (osr *StorageRootBase).GetFolders() (result, err)
  prop C20
  nopanic
  requires obj: osr != nil
  ensures readable: err == nil <==> dirok(osr.fsys, "")
  ensures complete: err == nil ==> forall k int :: {dirent(osr.fsys, "", k)} rootdir(osr, k) ==> exists i int :: {result[i]} 0 <= i && i < len(result) && result[i] == direntname(dirent(osr.fsys, "", k))
  ensures sound: err == nil ==> forall i int :: {result[i]} 0 <= i && i < len(result) ==> exists k int :: {dirent(osr.fsys, "", k)} rootdir(osr, k) && result[i] == direntname(dirent(osr.fsys, "", k))
  loop 1
    invariant complete: forall k int :: {dirent(osr.fsys, "", k)} k < idx() && rootdir(osr, k) ==> exists i int :: {result[i]} 0 <= i && i < len(result) && result[i] == direntname(dirent(osr.fsys, "", k))
    invariant sound: forall i int :: {result[i]} 0 <= i && i < len(result) ==> exists k int :: {dirent(osr.fsys, "", k)} k < idx() && rootdir(osr, k) && result[i] == direntname(dirent(osr.fsys, "", k))

func (osr *StorageRootBase).CreateExtensions(fsys, validation) (manager, err)
  prop C20
  nopanic
  requires obj: osr != nil && osr.extensionFactory != nil
  modifies warns
  modifies allfields("ValidationStatus", "Errors")
  modifies allelems("*ValidationError")
  ensures ok: err == nil ==> manager != nil
dispatch StorageRoot.CreateExtensions = StorageRootBase of StorageRootBase StorageRootV1_0 StorageRootV1_1 StorageRootV2_0

func (object *ObjectBase).Load() (err)
  prop C16 C20
  strings
  nopanic
  requires obj: object != nil && objinv(object) && object.logger != nil && allocated(stat(object.ctx)) && isroot(object.storageRoot) && rootbase(object.storageRoot).extensionFactory != nil
  modifies object.extensionManager
  modifies object.i
  modifies allboxes("map[string]any")
  modifies allmaps("map[string]any")
  modifies allfields("ValidationStatus", "Errors")
  modifies allelems("*ValidationError")
  modifies hashbuf
  modifies codes
  modifies warns
  ensures inventory: err == nil ==> isinv(object.i) && fresh(invbase(object.i)) && wfversions(invbase(object.i)) && wfstates(invbase(object.i)) && invbase(object.i).ctx == object.ctx
  ensures readable: err == nil ==> readable(object.fsys, invname("."))
  ensures manager: err == nil ==> object.extensionManager != nil
  ensures usable: err == nil ==> allocated(invbase(object.i))
dispatch Object.Load = ObjectBase of ObjectBase ObjectV1_0 ObjectV1_1 ObjectV2_0

def odecl(osr, folder, k) = isdecl(osr.fsys, folder, "ocfl_object_", k)
func (osr *StorageRootBase).LoadObjectByFolder(folder) (object, err)
  prop C18 C20
  use objgroup
  nopanic
  requires obj: osr != nil && osr.extensionFactory != nil && osr.logger != nil && allocated(stat(osr.ctx))
  modifies allboxes("map[string]any")
  modifies allmaps("map[string]any")
  modifies allfields("ValidationStatus", "Errors")
  modifies allelems("*ValidationError")
  modifies hashbuf
  modifies codes
  modifies warns
  ensures undeclared: (forall j int :: {ent(osr.fsys, folder, j)} !odecl(osr, folder, j)) ==> err != nil
  ensures several: forall j int, k int :: {ent(osr.fsys, folder, j), ent(osr.fsys, folder, k)} j != k && odecl(osr, folder, j) && odecl(osr, folder, k) ==> err != nil
  ensures object: err == nil ==> isobj(object) && isinv(objbase(object).i) && wfversions(invbase(objbase(object).i)) && below(objbase(object).fsys, osr.fsys, folder)
  ensures usable: err == nil ==> upob(objbase(object)) && wfstates(invbase(objbase(object).i)) && invbase(objbase(object).i).Head != nil
  ensures version: forall k int :: {ent(osr.fsys, folder, k)} err == nil && odecl(osr, folder, k) ==> objbase(object).version == specversion(declver(osr.fsys, folder, "ocfl_object_", k))

func (osr *StorageRootBase).LoadObjectByID(id) (object, err)
  prop C18 C20
  nopanic
  requires obj: osr != nil && osr.extensionFactory != nil && osr.extensionManager != nil && osr.logger != nil && allocated(stat(osr.ctx))
  modifies allboxes("map[string]any")
  modifies allmaps("map[string]any")
  modifies allfields("ValidationStatus", "Errors")
  modifies allelems("*ValidationError")
  modifies hashbuf
  modifies codes
  modifies warns
  ensures unmapped: !rootpathok(osr.extensionManager, id) ==> err != nil
  ensures object: err == nil ==> isobj(object) && isinv(objbase(object).i) && below(objbase(object).fsys, osr.fsys, folderof(osr, id))
  ensures usable: err == nil ==> upob(objbase(object)) && wfstates(invbase(objbase(object).i)) && invbase(objbase(object).i).Head != nil
