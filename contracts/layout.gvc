package extension

// ---------- C22: the name of the layout stored in ocfl_layout.json ----------

func (sl *StorageLayoutFlatDirect).WriteLayout(fsys) (err)
  prop C22
  nopanic
  requires recv: sl != nil
  modifies failed
  modifies jsonsrc
  modifies jsontext
  modifies wbuf
  modifies disk
  modifies fsstate
  ensures named: err == nil ==> anyfield(jsonsrc, "Extension", "string") == "0002-flat-direct-storage-layout" && anyfield(jsonsrc, "Description", "string") != ""
  ensures stored: err == nil ==> disk == upd(old(disk), fkey(fsys, "ocfl_layout.json"), jsontext)
  ensures frame: disk == upd(old(disk), fkey(fsys, "ocfl_layout.json"), disk[fkey(fsys, "ocfl_layout.json")])
  ensures reported: failed && err == nil ==> old(failed)

func (sl *StorageLayoutHashAndIdNTuple).WriteLayout(fsys) (err)
  prop C22
  nopanic
  requires recv: sl != nil
  modifies failed
  modifies jsonsrc
  modifies jsontext
  modifies wbuf
  modifies disk
  modifies fsstate
  ensures named: err == nil ==> anyfield(jsonsrc, "Extension", "string") == "0003-hash-and-id-n-tuple-storage-layout" && anyfield(jsonsrc, "Description", "string") != ""
  ensures stored: err == nil ==> disk == upd(old(disk), fkey(fsys, "ocfl_layout.json"), jsontext)
  ensures frame: disk == upd(old(disk), fkey(fsys, "ocfl_layout.json"), disk[fkey(fsys, "ocfl_layout.json")])
  ensures reported: failed && err == nil ==> old(failed)

func (sl *StorageLayoutHashedNTuple).WriteLayout(fsys) (err)
  prop C22
  nopanic
  requires recv: sl != nil
  modifies failed
  modifies jsonsrc
  modifies jsontext
  modifies wbuf
  modifies disk
  modifies fsstate
  ensures named: err == nil ==> anyfield(jsonsrc, "Extension", "string") == "0004-hashed-n-tuple-storage-layout" && anyfield(jsonsrc, "Description", "string") != ""
  ensures stored: err == nil ==> disk == upd(old(disk), fkey(fsys, "ocfl_layout.json"), jsontext)
  ensures frame: disk == upd(old(disk), fkey(fsys, "ocfl_layout.json"), disk[fkey(fsys, "ocfl_layout.json")])
  ensures reported: failed && err == nil ==> old(failed)

func (sl *FlatOmitPrefixStorageLayout).WriteLayout(fsys) (err)
  prop C22
  nopanic
  requires recv: sl != nil
  modifies failed
  modifies jsonsrc
  modifies jsontext
  modifies wbuf
  modifies disk
  modifies fsstate
  ensures named: err == nil ==> anyfield(jsonsrc, "Extension", "string") == "0006-flat-omit-prefix-storage-layout" && anyfield(jsonsrc, "Description", "string") != ""
  ensures stored: err == nil ==> disk == upd(old(disk), fkey(fsys, "ocfl_layout.json"), jsontext)
  ensures frame: disk == upd(old(disk), fkey(fsys, "ocfl_layout.json"), disk[fkey(fsys, "ocfl_layout.json")])
  ensures reported: failed && err == nil ==> old(failed)

func (sl *NTupleOmitPrefixStorageLayout).WriteLayout(fsys) (err)
  prop C22
  nopanic
  requires recv: sl != nil
  modifies failed
  modifies jsonsrc
  modifies jsontext
  modifies wbuf
  modifies disk
  modifies fsstate
  ensures named: err == nil ==> anyfield(jsonsrc, "Extension", "string") == "0007-n-tuple-omit-prefix-storage-layout" && anyfield(jsonsrc, "Description", "string") != ""
  ensures stored: err == nil ==> disk == upd(old(disk), fkey(fsys, "ocfl_layout.json"), jsontext)
  ensures frame: disk == upd(old(disk), fkey(fsys, "ocfl_layout.json"), disk[fkey(fsys, "ocfl_layout.json")])
  ensures reported: failed && err == nil ==> old(failed)

func (sl *DirectClean).WriteLayout(fsys) (err)
  prop C22
  nopanic
  requires recv: sl != nil
  modifies failed
  modifies jsonsrc
  modifies jsontext
  modifies wbuf
  modifies disk
  modifies fsstate
  ensures named: err == nil ==> anyfield(jsonsrc, "Extension", "string") == "NNNN-direct-clean-path-layout" && anyfield(jsonsrc, "Description", "string") != ""
  ensures stored: err == nil ==> disk == upd(old(disk), fkey(fsys, "ocfl_layout.json"), jsontext)
  ensures frame: disk == upd(old(disk), fkey(fsys, "ocfl_layout.json"), disk[fkey(fsys, "ocfl_layout.json")])
  ensures reported: failed && err == nil ==> old(failed)

func (sl *StorageLayoutPairTree).WriteLayout(fsys) (err)
  prop C22
  nopanic
  requires recv: sl != nil
  modifies failed
  modifies jsonsrc
  modifies jsontext
  modifies wbuf
  modifies disk
  modifies fsstate
  ensures named: err == nil ==> anyfield(jsonsrc, "Extension", "string") == "NNNN-pairtree-storage-layout" && anyfield(jsonsrc, "Description", "string") != ""
  ensures stored: err == nil ==> disk == upd(old(disk), fkey(fsys, "ocfl_layout.json"), jsontext)
  ensures frame: disk == upd(old(disk), fkey(fsys, "ocfl_layout.json"), disk[fkey(fsys, "ocfl_layout.json")])
  ensures reported: failed && err == nil ==> old(failed)

func (sl *PathDirect).WriteLayout(fsys) (err)
  prop C22
  nopanic
  requires recv: sl != nil
  modifies failed
  modifies jsonsrc
  modifies jsontext
  modifies wbuf
  modifies disk
  modifies fsstate
  ensures named: err == nil ==> anyfield(jsonsrc, "Extension", "string") == "NNNN-direct-path-layout" && anyfield(jsonsrc, "Description", "string") != ""
  ensures stored: err == nil ==> disk == upd(old(disk), fkey(fsys, "ocfl_layout.json"), jsontext)
  ensures frame: disk == upd(old(disk), fkey(fsys, "ocfl_layout.json"), disk[fkey(fsys, "ocfl_layout.json")])
  ensures reported: failed && err == nil ==> old(failed)

func (manager *GOCFLExtensionManager).WriteLayout(fsys) (err)
  prop C22 C14
  nopanic
  requires recv: manager != nil
  requires parts: forall k int :: 0 <= k && k < len(manager.storageRootPath) ==> manager.storageRootPath[k] != nil
  modifies tr
  modifies failed
  modifies jsonsrc
  modifies jsontext
  modifies wbuf
  modifies disk
  modifies fsstate
  ensures none: len(manager.storageRootPath) == 0 ==> err == nil && tr == old(tr) && disk == old(disk)
  ensures one: len(manager.storageRootPath) == 1 ==> answers(manager.storageRootPath[0], evLayout(fsys), err)
  ensures many: len(manager.storageRootPath) > 1 && err == nil ==> tr == old(tr) && anyfield(jsonsrc, "Extension", "string") == "NNNN-gocfl-extension-manager" && disk == upd(old(disk), fkey(fsys, "ocfl_layout.json"), jsontext)
  ensures reported: len(manager.storageRootPath) > 1 && failed && err == nil ==> old(failed)

logic evConfig() event
trusted ocfl.Extension.WriteConfig(x) (err)
  modifies tr
  modifies failed
  modifies jsonsrc
  modifies jsontext
  modifies wbuf
  modifies disk
  modifies fsstate
  ensures told: answers(x, evConfig(), err)
  ensures fault: failed && err == nil ==> old(failed)

func (manager *GOCFLExtensionManager).WriteConfig() (err)
  prop C22 C14
  requires recv: manager != nil && manager.ExtensionManagerConfig != nil && manager.initial != nil
  requires parts: forall k int :: 0 <= k && k < len(manager.extensions) ==> manager.extensions[k] != nil
  modifies tr
  modifies failed
  modifies jsonsrc
  modifies jsontext
  modifies wbuf
  modifies disk
  modifies fsstate
  modifies elems(manager.extensions)
  loop 1
  invariant quiet: failed ==> old(failed)
  ensures source: err == nil ==> typeis(jsonsrc, "*ocfl.ExtensionManagerConfig") && as(jsonsrc, "*ocfl.ExtensionManagerConfig") == manager.ExtensionManagerConfig
  ensures stored: err == nil ==> disk[fkey(manager.fsys, "config.json")] == jsontext
  ensures reported: failed && err == nil ==> old(failed)
