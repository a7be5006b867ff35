package extension

// ---------- C22: what is stored as configuration ----------
logic encwriter(int) any
trusted json.NewEncoder(w) (enc)
  ensures writer: enc != nil && encwriter(enc) == w
trusted (enc *json.Encoder).Encode(v) (err)
  modifies failed
  modifies jsonsrc
  modifies jsontext
  modifies wbuf
  modifies fsstate
  ensures source: err == nil ==> jsonsrc == v && wbuf == upd(old(wbuf), encwriter(enc), old(wbuf)[encwriter(enc)] + jsontext)
  ensures frame: wbuf == upd(old(wbuf), encwriter(enc), wbuf[encwriter(enc)])
  ensures fault: failed <==> old(failed) || err != nil

func (sl *DigestAlgorithms).WriteConfig() (err)
  prop C22
  nopanic
  requires recv: sl != nil && sl.DigestAlgorithmsConfig != nil && sl.ExtensionConfig != nil
  modifies failed
  modifies jsonsrc
  modifies jsontext
  modifies wbuf
  modifies disk
  modifies fsstate
  ensures source: err == nil ==> typeis(jsonsrc, "*ocfl.ExtensionConfig") && (as(jsonsrc, "*ocfl.ExtensionConfig") == sl.ExtensionConfig || as(jsonsrc, "*ocfl.ExtensionConfig").ExtensionName == sl.ExtensionConfig.ExtensionName) || typeis(jsonsrc, "*DigestAlgorithmsConfig") && (as(jsonsrc, "*DigestAlgorithmsConfig") == sl.DigestAlgorithmsConfig || as(jsonsrc, "*DigestAlgorithmsConfig").ExtensionConfig == sl.DigestAlgorithmsConfig.ExtensionConfig)
  ensures stored: err == nil ==> disk == upd(old(disk), fkey(sl.fsys, "config.json"), jsontext)
  ensures frame: disk == upd(old(disk), fkey(sl.fsys, "config.json"), disk[fkey(sl.fsys, "config.json")])
  ensures reported: failed && err == nil ==> old(failed)

func (sl *StorageLayoutFlatDirect).WriteConfig() (err)
  prop C22
  nopanic
  requires recv: sl != nil && sl.StorageLayoutFlatDirectConfig != nil && sl.ExtensionConfig != nil
  modifies failed
  modifies jsonsrc
  modifies jsontext
  modifies wbuf
  modifies disk
  modifies fsstate
  ensures source: err == nil ==> typeis(jsonsrc, "*ocfl.ExtensionConfig") && (as(jsonsrc, "*ocfl.ExtensionConfig") == sl.ExtensionConfig || as(jsonsrc, "*ocfl.ExtensionConfig").ExtensionName == sl.ExtensionConfig.ExtensionName) || typeis(jsonsrc, "*StorageLayoutFlatDirectConfig") && (as(jsonsrc, "*StorageLayoutFlatDirectConfig") == sl.StorageLayoutFlatDirectConfig || as(jsonsrc, "*StorageLayoutFlatDirectConfig").ExtensionConfig == sl.StorageLayoutFlatDirectConfig.ExtensionConfig)
  ensures stored: err == nil ==> disk == upd(old(disk), fkey(sl.fsys, "config.json"), jsontext)
  ensures frame: disk == upd(old(disk), fkey(sl.fsys, "config.json"), disk[fkey(sl.fsys, "config.json")])
  ensures reported: failed && err == nil ==> old(failed)

func (sl *StorageLayoutHashAndIdNTuple).WriteConfig() (err)
  prop C22
  nopanic
  requires recv: sl != nil && sl.StorageLayoutHashAndIdNTupleConfig != nil
  modifies failed
  modifies jsonsrc
  modifies jsontext
  modifies wbuf
  modifies disk
  modifies fsstate
  ensures source: err == nil ==> typeis(jsonsrc, "*StorageLayoutHashAndIdNTupleConfig") && (as(jsonsrc, "*StorageLayoutHashAndIdNTupleConfig") == sl.StorageLayoutHashAndIdNTupleConfig || as(jsonsrc, "*StorageLayoutHashAndIdNTupleConfig").ExtensionConfig == sl.StorageLayoutHashAndIdNTupleConfig.ExtensionConfig && as(jsonsrc, "*StorageLayoutHashAndIdNTupleConfig").DigestAlgorithm == sl.StorageLayoutHashAndIdNTupleConfig.DigestAlgorithm && as(jsonsrc, "*StorageLayoutHashAndIdNTupleConfig").TupleSize == sl.StorageLayoutHashAndIdNTupleConfig.TupleSize && as(jsonsrc, "*StorageLayoutHashAndIdNTupleConfig").NumberOfTuples == sl.StorageLayoutHashAndIdNTupleConfig.NumberOfTuples)
  ensures stored: err == nil ==> disk == upd(old(disk), fkey(sl.fsys, "config.json"), jsontext)
  ensures frame: disk == upd(old(disk), fkey(sl.fsys, "config.json"), disk[fkey(sl.fsys, "config.json")])
  ensures reported: failed && err == nil ==> old(failed)

func (sl *StorageLayoutHashedNTuple).WriteConfig() (err)
  prop C22
  nopanic
  requires recv: sl != nil && sl.StorageLayoutHashedNTupleConfig != nil
  modifies failed
  modifies jsonsrc
  modifies jsontext
  modifies wbuf
  modifies disk
  modifies fsstate
  ensures source: err == nil ==> typeis(jsonsrc, "*StorageLayoutHashedNTupleConfig") && (as(jsonsrc, "*StorageLayoutHashedNTupleConfig") == sl.StorageLayoutHashedNTupleConfig || as(jsonsrc, "*StorageLayoutHashedNTupleConfig").ExtensionConfig == sl.StorageLayoutHashedNTupleConfig.ExtensionConfig && as(jsonsrc, "*StorageLayoutHashedNTupleConfig").DigestAlgorithm == sl.StorageLayoutHashedNTupleConfig.DigestAlgorithm && as(jsonsrc, "*StorageLayoutHashedNTupleConfig").TupleSize == sl.StorageLayoutHashedNTupleConfig.TupleSize && as(jsonsrc, "*StorageLayoutHashedNTupleConfig").NumberOfTuples == sl.StorageLayoutHashedNTupleConfig.NumberOfTuples && as(jsonsrc, "*StorageLayoutHashedNTupleConfig").ShortObjectRoot == sl.StorageLayoutHashedNTupleConfig.ShortObjectRoot)
  ensures stored: err == nil ==> disk == upd(old(disk), fkey(sl.fsys, "config.json"), jsontext)
  ensures frame: disk == upd(old(disk), fkey(sl.fsys, "config.json"), disk[fkey(sl.fsys, "config.json")])
  ensures reported: failed && err == nil ==> old(failed)

func (sl *FlatOmitPrefixStorageLayout).WriteConfig() (err)
  prop C22
  nopanic
  requires recv: sl != nil && sl.FlatOmitPrefixStorageLayoutConfig != nil
  modifies failed
  modifies jsonsrc
  modifies jsontext
  modifies wbuf
  modifies disk
  modifies fsstate
  ensures source: err == nil ==> typeis(jsonsrc, "*FlatOmitPrefixStorageLayoutConfig") && (as(jsonsrc, "*FlatOmitPrefixStorageLayoutConfig") == sl.FlatOmitPrefixStorageLayoutConfig || as(jsonsrc, "*FlatOmitPrefixStorageLayoutConfig").ExtensionConfig == sl.FlatOmitPrefixStorageLayoutConfig.ExtensionConfig && as(jsonsrc, "*FlatOmitPrefixStorageLayoutConfig").Delimiter == sl.FlatOmitPrefixStorageLayoutConfig.Delimiter)
  ensures stored: err == nil ==> disk == upd(old(disk), fkey(sl.fsys, "config.json"), jsontext)
  ensures frame: disk == upd(old(disk), fkey(sl.fsys, "config.json"), disk[fkey(sl.fsys, "config.json")])
  ensures reported: failed && err == nil ==> old(failed)

func (sl *NTupleOmitPrefixStorageLayout).WriteConfig() (err)
  prop C22
  nopanic
  requires recv: sl != nil && sl.NTupleOmitPrefixStorageLayoutConfig != nil
  modifies failed
  modifies jsonsrc
  modifies jsontext
  modifies wbuf
  modifies disk
  modifies fsstate
  ensures source: err == nil ==> typeis(jsonsrc, "*NTupleOmitPrefixStorageLayoutConfig") && (as(jsonsrc, "*NTupleOmitPrefixStorageLayoutConfig") == sl.NTupleOmitPrefixStorageLayoutConfig || as(jsonsrc, "*NTupleOmitPrefixStorageLayoutConfig").ExtensionConfig == sl.NTupleOmitPrefixStorageLayoutConfig.ExtensionConfig && as(jsonsrc, "*NTupleOmitPrefixStorageLayoutConfig").Delimiter == sl.NTupleOmitPrefixStorageLayoutConfig.Delimiter && as(jsonsrc, "*NTupleOmitPrefixStorageLayoutConfig").TupleSize == sl.NTupleOmitPrefixStorageLayoutConfig.TupleSize && as(jsonsrc, "*NTupleOmitPrefixStorageLayoutConfig").NumberOfTuples == sl.NTupleOmitPrefixStorageLayoutConfig.NumberOfTuples && as(jsonsrc, "*NTupleOmitPrefixStorageLayoutConfig").ZeroPadding == sl.NTupleOmitPrefixStorageLayoutConfig.ZeroPadding && as(jsonsrc, "*NTupleOmitPrefixStorageLayoutConfig").ReverseObjectRoot == sl.NTupleOmitPrefixStorageLayoutConfig.ReverseObjectRoot)
  ensures stored: err == nil ==> disk == upd(old(disk), fkey(sl.fsys, "config.json"), jsontext)
  ensures frame: disk == upd(old(disk), fkey(sl.fsys, "config.json"), disk[fkey(sl.fsys, "config.json")])
  ensures reported: failed && err == nil ==> old(failed)

func (sl *ContentSubPath).WriteConfig() (err)
  prop C22
  nopanic
  requires recv: sl != nil && sl.ContentSubPathConfig != nil
  modifies failed
  modifies jsonsrc
  modifies jsontext
  modifies wbuf
  modifies disk
  modifies fsstate
  ensures source: err == nil ==> typeis(jsonsrc, "*ContentSubPathConfig") && (as(jsonsrc, "*ContentSubPathConfig") == sl.ContentSubPathConfig || as(jsonsrc, "*ContentSubPathConfig").ExtensionConfig == sl.ContentSubPathConfig.ExtensionConfig && as(jsonsrc, "*ContentSubPathConfig").Paths == sl.ContentSubPathConfig.Paths)
  ensures stored: err == nil ==> disk == upd(old(disk), fkey(sl.fsys, "config.json"), jsontext)
  ensures frame: disk == upd(old(disk), fkey(sl.fsys, "config.json"), disk[fkey(sl.fsys, "config.json")])
  ensures reported: failed && err == nil ==> old(failed)

func (sl *DirectClean).WriteConfig() (err)
  prop C22
  nopanic
  requires recv: sl != nil && sl.DirectCleanConfig != nil
  modifies failed
  modifies jsonsrc
  modifies jsontext
  modifies wbuf
  modifies disk
  modifies fsstate
  ensures source: err == nil ==> typeis(jsonsrc, "*DirectCleanConfig") && (as(jsonsrc, "*DirectCleanConfig") == sl.DirectCleanConfig || as(jsonsrc, "*DirectCleanConfig").ExtensionConfig == sl.DirectCleanConfig.ExtensionConfig && as(jsonsrc, "*DirectCleanConfig").MaxPathnameLen == sl.DirectCleanConfig.MaxPathnameLen && as(jsonsrc, "*DirectCleanConfig").MaxPathSegmentLen == sl.DirectCleanConfig.MaxPathSegmentLen && as(jsonsrc, "*DirectCleanConfig").ReplacementString == sl.DirectCleanConfig.ReplacementString && as(jsonsrc, "*DirectCleanConfig").WhitespaceReplacementString == sl.DirectCleanConfig.WhitespaceReplacementString && as(jsonsrc, "*DirectCleanConfig").UTFEncode == sl.DirectCleanConfig.UTFEncode && as(jsonsrc, "*DirectCleanConfig").FallbackDigestAlgorithm == sl.DirectCleanConfig.FallbackDigestAlgorithm && as(jsonsrc, "*DirectCleanConfig").FallbackFolder == sl.DirectCleanConfig.FallbackFolder && as(jsonsrc, "*DirectCleanConfig").NumberOfFallbackTuples == sl.DirectCleanConfig.NumberOfFallbackTuples && as(jsonsrc, "*DirectCleanConfig").FallbackTupleSize == sl.DirectCleanConfig.FallbackTupleSize && as(jsonsrc, "*DirectCleanConfig").MaxFilenameLen == sl.DirectCleanConfig.MaxFilenameLen && as(jsonsrc, "*DirectCleanConfig").FallbackSubFolders == sl.DirectCleanConfig.FallbackSubFolders)
  ensures stored: err == nil ==> disk == upd(old(disk), fkey(sl.fsys, "config.json"), jsontext)
  ensures frame: disk == upd(old(disk), fkey(sl.fsys, "config.json"), disk[fkey(sl.fsys, "config.json")])
  ensures reported: failed && err == nil ==> old(failed)

func (extFS *Filesystem).WriteConfig() (err)
  prop C22
  nopanic
  requires recv: extFS != nil && extFS.FilesystemConfig != nil
  modifies failed
  modifies jsonsrc
  modifies jsontext
  modifies wbuf
  modifies disk
  modifies fsstate
  ensures source: err == nil ==> typeis(jsonsrc, "*FilesystemConfig") && (as(jsonsrc, "*FilesystemConfig") == extFS.FilesystemConfig || as(jsonsrc, "*FilesystemConfig").ExtensionConfig == extFS.FilesystemConfig.ExtensionConfig && as(jsonsrc, "*FilesystemConfig").Folders == extFS.FilesystemConfig.Folders && as(jsonsrc, "*FilesystemConfig").StorageType == extFS.FilesystemConfig.StorageType && as(jsonsrc, "*FilesystemConfig").StorageName == extFS.FilesystemConfig.StorageName && as(jsonsrc, "*FilesystemConfig").Compress == extFS.FilesystemConfig.Compress)
  ensures stored: err == nil ==> disk == upd(old(disk), fkey(extFS.fsys, "config.json"), jsontext)
  ensures frame: disk == upd(old(disk), fkey(extFS.fsys, "config.json"), disk[fkey(extFS.fsys, "config.json")])
  ensures reported: failed && err == nil ==> old(failed)

func (sl *Indexer).WriteConfig() (err)
  prop C22
  nopanic
  requires recv: sl != nil && sl.IndexerConfig != nil
  modifies failed
  modifies jsonsrc
  modifies jsontext
  modifies wbuf
  modifies disk
  modifies fsstate
  ensures source: err == nil ==> typeis(jsonsrc, "*IndexerConfig") && (as(jsonsrc, "*IndexerConfig") == sl.IndexerConfig || as(jsonsrc, "*IndexerConfig").ExtensionConfig == sl.IndexerConfig.ExtensionConfig && as(jsonsrc, "*IndexerConfig").StorageType == sl.IndexerConfig.StorageType && as(jsonsrc, "*IndexerConfig").StorageName == sl.IndexerConfig.StorageName && as(jsonsrc, "*IndexerConfig").Actions == sl.IndexerConfig.Actions && as(jsonsrc, "*IndexerConfig").Compress == sl.IndexerConfig.Compress)
  ensures stored: err == nil ==> disk == upd(old(disk), fkey(sl.fsys, "config.json"), jsontext)
  ensures frame: disk == upd(old(disk), fkey(sl.fsys, "config.json"), disk[fkey(sl.fsys, "config.json")])
  ensures reported: failed && err == nil ==> old(failed)

func (sl *MetaFile).WriteConfig() (err)
  prop C22
  nopanic
  requires recv: sl != nil && sl.MetaFileConfig != nil && sl.MetaFileConfig != nil
  modifies failed
  modifies jsonsrc
  modifies jsontext
  modifies wbuf
  modifies disk
  modifies fsstate
  ensures source: err == nil ==> typeis(jsonsrc, "*MetaFileConfig") && (as(jsonsrc, "*MetaFileConfig") == sl.MetaFileConfig || as(jsonsrc, "*MetaFileConfig").ExtensionConfig == sl.MetaFileConfig.ExtensionConfig && as(jsonsrc, "*MetaFileConfig").StorageType == sl.MetaFileConfig.StorageType && as(jsonsrc, "*MetaFileConfig").StorageName == sl.MetaFileConfig.StorageName && as(jsonsrc, "*MetaFileConfig").MetaName == sl.MetaFileConfig.MetaName && as(jsonsrc, "*MetaFileConfig").MetaSchema == sl.MetaFileConfig.MetaSchema && as(jsonsrc, "*MetaFileConfig").MetaSchemaUrl == sl.MetaFileConfig.MetaSchemaUrl)
  ensures stored: err == nil ==> disk[fkey(sl.fsys, "config.json")] == jsontext
  ensures reported: failed && err == nil ==> old(failed)

func (me *Mets).WriteConfig() (err)
  prop C22
  nopanic
  requires recv: me != nil && me.MetsConfig != nil
  modifies failed
  modifies jsonsrc
  modifies jsontext
  modifies wbuf
  modifies disk
  modifies fsstate
  ensures source: err == nil ==> typeis(jsonsrc, "*MetsConfig") && (as(jsonsrc, "*MetsConfig") == me.MetsConfig || as(jsonsrc, "*MetsConfig").ExtensionConfig == me.MetsConfig.ExtensionConfig && as(jsonsrc, "*MetsConfig").StorageType == me.MetsConfig.StorageType && as(jsonsrc, "*MetsConfig").StorageName == me.MetsConfig.StorageName && as(jsonsrc, "*MetsConfig").PrimaryDescriptiveMetadata == me.MetsConfig.PrimaryDescriptiveMetadata && as(jsonsrc, "*MetsConfig").MetsFile == me.MetsConfig.MetsFile && as(jsonsrc, "*MetsConfig").PremisFile == me.MetsConfig.PremisFile)
  ensures stored: err == nil ==> disk == upd(old(disk), fkey(me.fsys, "config.json"), jsontext)
  ensures frame: disk == upd(old(disk), fkey(me.fsys, "config.json"), disk[fkey(me.fsys, "config.json")])
  ensures reported: failed && err == nil ==> old(failed)

func (sl *StorageLayoutPairTree).WriteConfig() (err)
  prop C22
  nopanic
  requires recv: sl != nil && sl.StorageLayoutPairTreeConfig != nil
  modifies failed
  modifies jsonsrc
  modifies jsontext
  modifies wbuf
  modifies disk
  modifies fsstate
  ensures source: err == nil ==> typeis(jsonsrc, "*StorageLayoutPairTreeConfig") && (as(jsonsrc, "*StorageLayoutPairTreeConfig") == sl.StorageLayoutPairTreeConfig || as(jsonsrc, "*StorageLayoutPairTreeConfig").ExtensionConfig == sl.StorageLayoutPairTreeConfig.ExtensionConfig && as(jsonsrc, "*StorageLayoutPairTreeConfig").UriBase == sl.StorageLayoutPairTreeConfig.UriBase && as(jsonsrc, "*StorageLayoutPairTreeConfig").StoreDir == sl.StorageLayoutPairTreeConfig.StoreDir && as(jsonsrc, "*StorageLayoutPairTreeConfig").ShortyLength == sl.StorageLayoutPairTreeConfig.ShortyLength && as(jsonsrc, "*StorageLayoutPairTreeConfig").DigestAlgorithm == sl.StorageLayoutPairTreeConfig.DigestAlgorithm)
  ensures stored: err == nil ==> disk == upd(old(disk), fkey(sl.fsys, "config.json"), jsontext)
  ensures frame: disk == upd(old(disk), fkey(sl.fsys, "config.json"), disk[fkey(sl.fsys, "config.json")])
  ensures reported: failed && err == nil ==> old(failed)

func (thumb *Thumbnail).WriteConfig() (err)
  prop C22
  nopanic
  requires recv: thumb != nil && thumb.ThumbnailConfig != nil
  modifies failed
  modifies jsonsrc
  modifies jsontext
  modifies wbuf
  modifies disk
  modifies fsstate
  ensures source: err == nil ==> typeis(jsonsrc, "*ThumbnailConfig") && (as(jsonsrc, "*ThumbnailConfig") == thumb.ThumbnailConfig || as(jsonsrc, "*ThumbnailConfig").ExtensionConfig == thumb.ThumbnailConfig.ExtensionConfig && as(jsonsrc, "*ThumbnailConfig").Compress == thumb.ThumbnailConfig.Compress && as(jsonsrc, "*ThumbnailConfig").ShortFilename == thumb.ThumbnailConfig.ShortFilename && as(jsonsrc, "*ThumbnailConfig").Ext == thumb.ThumbnailConfig.Ext && as(jsonsrc, "*ThumbnailConfig").Width == thumb.ThumbnailConfig.Width && as(jsonsrc, "*ThumbnailConfig").Height == thumb.ThumbnailConfig.Height && as(jsonsrc, "*ThumbnailConfig").SingleDirectory == thumb.ThumbnailConfig.SingleDirectory && as(jsonsrc, "*ThumbnailConfig").StorageType == thumb.ThumbnailConfig.StorageType && as(jsonsrc, "*ThumbnailConfig").StorageName == thumb.ThumbnailConfig.StorageName)
  ensures stored: err == nil ==> disk == upd(old(disk), fkey(thumb.fsys, "config.json"), jsontext)
  ensures frame: disk == upd(old(disk), fkey(thumb.fsys, "config.json"), disk[fkey(thumb.fsys, "config.json")])
  ensures reported: failed && err == nil ==> old(failed)

func (sl *Initial).WriteConfig() (err)
  prop C22
  nopanic
  requires recv: sl != nil && sl.InitialConfig != nil
  modifies failed
  modifies jsonsrc
  modifies jsontext
  modifies wbuf
  modifies disk
  modifies fsstate
  ensures source: err == nil ==> typeis(jsonsrc, "*InitialConfig") && (as(jsonsrc, "*InitialConfig") == sl.InitialConfig || as(jsonsrc, "*InitialConfig").ExtensionConfig == sl.InitialConfig.ExtensionConfig && as(jsonsrc, "*InitialConfig").Extension == sl.InitialConfig.Extension)
  ensures stored: err == nil ==> disk == upd(old(disk), fkey(sl.fsys, "config.json"), jsontext)
  ensures frame: disk == upd(old(disk), fkey(sl.fsys, "config.json"), disk[fkey(sl.fsys, "config.json")])
  ensures reported: failed && err == nil ==> old(failed)

func (sl *PathDirect).WriteConfig() (err)
  prop C22
  nopanic
  requires recv: sl != nil && sl.PathDirectConfig != nil && sl.PathDirectConfig != nil
  modifies failed
  modifies jsonsrc
  modifies jsontext
  modifies wbuf
  modifies disk
  modifies fsstate
  ensures source: err == nil ==> typeis(jsonsrc, "*PathDirectConfig") && (as(jsonsrc, "*PathDirectConfig") == sl.PathDirectConfig || as(jsonsrc, "*PathDirectConfig").Config == sl.PathDirectConfig.Config && as(jsonsrc, "*PathDirectConfig").fsys == sl.PathDirectConfig.fsys)
  ensures stored: err == nil ==> disk == upd(old(disk), fkey(sl.fsys, "config.json"), jsontext)
  ensures frame: disk == upd(old(disk), fkey(sl.fsys, "config.json"), disk[fkey(sl.fsys, "config.json")])
  ensures reported: failed && err == nil ==> old(failed)
