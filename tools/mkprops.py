#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one readable place)."""
import json,os
P=[]
O='pkg/ocfl/'; X='pkg/extension/'
def p(id,title,statement,over,qt,why,files,mech,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=' '.join(statement.split()),quantifier=dict(over=over,text=' '.join(qt.split())),why_tests_cant=' '.join(why.split()),
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
NOTEST="No test in the repository touches package ocfl; "
p('C01','Staging edits change exactly the named logical paths',
"""Deleting, renaming or copying a logical path in the version being built changes exactly the entries of that path (rename: all of its entries become the new path; copy: the path is afterwards listed once under the given digest and under no other, and a digest the manifest does not have is refused; delete: every entry disappears), and marks the inventory modified exactly when something changed.
Every other logical path keeps its digest and multiplicity, no other version, manifest entry or fixity entry changes, and the lists of the edited state share no memory with any earlier version.
Echo-mode deletion removes exactly the logical paths under the given prefix that were not supplied.""",
['inputs','histories'],"every inventory (any number of versions, digests, duplicate and shared paths), every path argument, every sequence of edits",
NOTEST+"a test fixes a handful of states; aliasing between versions and multiplicity of entries only show for particular combinations.",
[O+'inventorybase.go'],
[('InventoryBase.DeleteFile','rebuilds the head state without the path'),('InventoryBase.RenameFile','rebuilds the head state'),('InventoryBase.CopyFile','appends to the head state'),('InventoryBase.echoDelete','deletes unlisted paths below a prefix')],
[('Versions.Versions[head].State.State','digest -> logical paths of the version being built',O+'inventorytypes.go')])
p('C02','A new version is an exact copy of the previous one and history never changes',
"""Starting a new version advances the head to the next version number (or is refused without any change when the zero padding has no such number), whose state is initially equal to the previous head's state (or empty for the first version) and carries the given message and user.
The new state shares no memory with any earlier version, so no later edit can alter a previous version.
Discarding an unmodified version other than the first removes exactly it and moves the head back to the highest remaining version; a modified or first version is kept.""",
['inputs','histories'],"every inventory with any set of versions and padding, every message and user, every following edit sequence",
NOTEST+"independence of the copy from the original is a statement about every later history.",
[O+'inventorybase.go',O+'helper.go'],
[('InventoryBase.NewVersion','creates the next version'),('copyMapStringSlice','deep copy of a state'),('InventoryBase.Clean','drops an unmodified version'),('InventoryBase.getLastVersion','numeric maximum of the version names')])
p('C03','Digest comparison flags exactly the missing or wrong content files',
"""When the digests measured on disk (lower-case hex, per algorithm) are compared with an inventory, an error E092 is reported exactly when some manifest digest was not measured at all or some manifest entry names a file that was not measured with that digest, and E093 exactly when the same holds for a fixity entry.
Upper- or lower-case hex in the inventory makes no difference.
A digest algorithm missing from a non-empty table of measured digests is returned as a failure, never treated as a match; an empty table means that every recorded digest is missing.""",
['inputs'],"every inventory and every table of measured digests",
NOTEST+"'exactly when' ranges over all digest/file assignments, including files listed under several digests.",
[O+'inventorybase.go'],
[('InventoryBase.CheckFiles','compares manifest and fixity with the measured table')])
p('C04','Illegal manifest and fixity entries are always reported, legal ones never',
"""Checking an inventory reports E100 exactly when some manifest or fixity content path begins or ends with a slash, E099 exactly when some content path is empty or has, apart from one leading slash, an empty, '.' or '..' element, E107 exactly when a manifest digest is used by no version, E096 exactly when two manifest digests and E097 exactly when two digests of a fixity block are equal up to case.
It reports E101 exactly when a content path of the manifest is listed twice or is a directory prefix of another.
It terminates without a crash for every syntactically loadable inventory.""",
['inputs'],"every inventory: any manifest, fixity block and set of versions, including empty strings",
NOTEST+"the codes must be present iff some entry out of arbitrarily many is illegal.",
[O+'inventorybase.go'],
[('InventoryBase.checkManifest','path and digest rules of the manifest'),('InventoryBase.checkFixity','path and digest rules of fixity')])
p('C05','Version history rules are enforced for every inventory',
"""Checking an inventory reports E008 exactly for an empty version list, E010 exactly when the version numbers are not distinct and gapless from 1, E040 exactly when a non-empty head is not the highest version (when all version names are well formed, positive and distinct in number), and E050/E096 exactly when a state digest of a well-named version is not in the manifest (E096 if it is there in other case only).
It reports E051/E052/E053 exactly when a well-named version has an empty logical path, one with (apart from one leading slash) an empty, '.' or '..' element, or one that begins or ends with a slash, and E095 exactly when a logical path of a version is listed twice or is a directory prefix of another.
It terminates without a crash for every loadable inventory, including versions whose user, message, created or state key is missing.""",
['inputs'],"every loadable inventory with any versions, states and missing keys",
NOTEST+"the conditions range over all version sets and states.",
[O+'inventorybase.go'],
[('InventoryBase.checkVersions','per-version rules'),('InventoryBase.Finalize','fills defaults for missing keys')])
p('C06','Version order is numeric, total and independent of map order',
"""The list of version names is exactly the set of versions of the inventory in ascending numeric order, the last version is its numerically highest, and the version comparison agrees with that order (reflexive, total and transitive on known versions, false for unknown ones).
This holds for unpadded and zero-padded names alike, and the result does not depend on map iteration order.""",
['inputs','schedules'],"every set of well-formed version names, every map iteration order",
NOTEST+"map iteration order is random per run.",
[O+'inventorybase.go'],
[('InventoryBase.GetVersionStrings','sorted names'),('InventoryBase.getLastVersion','maximum'),('InventoryBase.VersionLessOrEqual','order used by the validator')])
p('C07','Inventories that differ are never judged equal',
"""Two inventories are judged equal exactly when they agree on id, spec type, head, digest algorithm, content directory, fixity, manifest (every digest with the same content paths), and for every version on state and metadata.
The state of a version is equal to another exactly when both assign the same logical paths to the same digests (hex case aside); a difference in a single digest, path or version is always noticed.""",
['inputs'],"every pair of inventories and every pair of versions",
NOTEST+"a missed component only shows for pairs that differ in that component alone.",
[O+'inventorybase.go',O+'inventorytypes.go'],
[('InventoryBase.isEqual','comparison root vs. version inventory (E064)'),('Version.EqualState','comparison of version states (E066)'),('Version.EqualMeta','comparison of metadata (W011)')])
p('C08','A file counts as already present only if the current version has it so',
"""A logical path with a digest is reported as already existing exactly when the version being built lists that path under that digest, and as an update exactly when it lists the path under another digest only; an empty digest is neither.
Content is reported as duplicate exactly when the manifest has its digest.
Zero-padded version names give the same answers as unpadded ones.""",
['inputs','histories'],"every inventory history (including delete and re-add), every path and digest",
NOTEST+"wrong answers lose data only after particular multi-version histories such as add, delete, re-add.",
[O+'inventorybase.go'],
[('InventoryBase.AlreadyExists','duplicate test before ingest'),('InventoryBase.IsUpdate','update test before ingest'),('InventoryBase.GetDuplicates','content dedup')])
p('C09','Every staged file is recorded with its content path and all its digests',
"""Adding files with measured digests to a version makes every given logical path appear in the version being built under exactly that (lower-cased) digest and no other, records the content path under that digest in the manifest, and records the content path under every further measured digest in fixity; the object's own algorithm is never put in fixity.
Every other logical path, manifest entry and fixity entry is left as it was, and earlier versions are untouched.
Adding to a version whose paths each have one digest keeps that so, and a missing object digest is refused without changing anything.""",
['inputs','histories'],"every inventory, list of logical paths, content path and digest table",
NOTEST+"the obligation covers all algorithms, all duplicates/updates and all earlier states.",
[O+'inventorybase.go'],
[('InventoryBase.AddFile','records state, manifest and fixity')])
p('C10','Hashed storage layouts place every id exactly as specified',
"""For every object id the hashed n-tuple layout and the hash-and-id n-tuple layout return the configured number of leading digest tuples of the configured size followed by the full digest, the digest remainder (short root), or the percent-encoded id (cut to 100 characters plus '-' and digest when longer), joined by slashes.
Percent-encoding writes every byte outside A-Z a-z 0-9 - _ as '%' and exactly two lower-case hex digits.
Tuple size and count are between 0 and 32.
A digest too short for the configured tuples is an error, never a crash or a shorter path.""",
['inputs','configurations'],"every id (any bytes) and every valid configuration of digest, tuple size and tuple count",
"TestHashedNTuple and TestHashAndIdNTuple sample a few ids from the specification; ids with control or non-ASCII bytes, long ids and the too-short digest are not reached.",
[X+'0003-hash-and-id-n-tuple-storage-layout.go',X+'0004-hashed-n-tuple-storage-layout.go'],
[('StorageLayoutHashAndIdNTuple.BuildStorageRootPath','0003 mapping'),('escape','percent encoding'),('StorageLayoutHashedNTuple.BuildStorageRootPath','0004 mapping')])
p('C11','Flat and prefix-omitting layouts place every id exactly as specified',
"""The flat direct layout returns the id itself; the prefix-omitting layouts drop everything up to and including the last occurrence of the delimiter and keep the id if there is none; the n-tuple variant then zero-pads (on the right if so configured, else on the left) up to tuple size times tuple count, reverses the bytes of ASCII ids if configured, and prepends the configured number of tuples of the configured size.
An id that ends with the delimiter is an error, and an empty delimiter omits nothing.
No id and no valid configuration (tuple size and count at least 1) makes the mapping crash.""",
['inputs','configurations'],"every id and every valid delimiter, tuple size/count, padding side and reversal",
"the three existing tests sample published examples only.",
[X+'0002-flat-direct-storage-layout.go',X+'0006-flat-omit-prefix-storage-layout.go',X+'0007-n-tuple-omit-prefix-storage-layout.go'],
[('StorageLayoutFlatDirect.BuildStorageRootPath','0002'),('FlatOmitPrefixStorageLayout.BuildStorageRootPath','0006'),('NTupleOmitPrefixStorageLayout.BuildStorageRootPath','0007'),('reverse','byte reversal')])
p('C12','Cleaned paths never escape and respect the configured limits',
"""For every input the clean-path layout returns either an error or a relative path without empty, '.' or '..' segments, in which every segment is at most the configured segment length and the whole at most the configured path length; too long inputs are replaced by a digest-based fallback path in the fallback folder, as are inputs of which nothing is left, while names of letters and digits within the limits are kept.
A valid configuration has positive limits, replacement strings without slash that are not only periods, a clean relative fallback folder within the limits and a tuple size of at most the segment limit.
The result depends only on input and configuration, also when called concurrently.""",
['inputs','configurations','schedules'],"every byte string and every valid configuration of replacement strings, encoding and limits",
"TestDirectClean* compare a few names; limits, dot-segments produced by later rules and concurrency are not reached.",
[X+'NNNN-direct-clean-path-layout.go',O+'helper.go'],
[('DirectClean.build','cleaning rules'),('DirectClean.fallback','digest fallback'),('CleanPath','generic cleaning')])
p('C13','Area mapping is invertible and areas never leak into each other',
"""Mapping a path into an area prefixes it with exactly that area's folder for logical and content paths alike; mapping it back for extraction returns the original path for the same area.
A path that lies outside the area's folder (at a path-element boundary) is refused with the wrong-area error, an unknown area is an error, and the full area maps every path to itself.
Paths are free of dot segments and area folders are relative.""",
['inputs','configurations'],"every path, every set of configured areas, including folders that are string prefixes of each other",
"no test covers the extension; prefix folders such as data/data2 are a corner the API invites.",
[X+'NNNN-content-subpath.go'],
[('ContentSubPath.BuildObjectManifestPath','content path'),('ContentSubPath.BuildObjectStatePath','logical path'),('ContentSubPath.BuildObjectExtractPath','inverse'),('ContentSubPath.GetAreaPath','area folder')])
p('C14','Extensions run exactly in configured order with only one per exclusion group',
"""After finalisation each hook list contains every registered extension that provides the hook, except that of each exclusion group for that hook only the first present in group order remains; extensions named in the sort order run in that order.
Every change notification (before and after adding, deleting, updating) reaches every extension in its list exactly once with the caller's arguments, even if another one fails; version decision, metadata, extraction and parameter calls do so up to the first error, and the version decision stops at the first yes.
Path mappings are composed left to right, an area lookup returns the path of the first extension that knows the area, and any error a called extension returns is reported to the caller.
Exclusion groups are disjoint.""",
['inputs','configurations'],"every set of extensions, every sort and exclusion configuration, every error pattern",
"no test covers the manager; orders with unnamed extensions and several groups multiply quickly.",
[X+'NNNN-gocfl-extension-manager.go'],
[('organize','exclusion then sort'),('excludeExtensions','keeps first of group'),('sortExtensions','order'),('GOCFLExtensionManager hooks','dispatch loops')])
p('C15','Every validation finding is kept and carries the right code',
"""A reported error or warning is appended to the status of its validation context and stays there: later reports and adding descriptions or contexts never remove, change or duplicate earlier ones, and compaction removes only exact duplicates.
Two findings count as duplicates when context, code and added description agree. A code known in the object's OCFL version is reported under that code with its catalogue text, one the version's mapping table names under the mapped code (which is itself known), and any other as E000 or W000; no lookup crashes or yields nothing.""",
['inputs','histories'],"every sequence of reports, every code and version string",
NOTEST+"codes are looked up in two catalogues plus two mapping tables; a missing mapping only shows for that code and version.",
[O+'validationerror.go',O+'validationerror1_0.go',O+'validationerror1_1.go'],
[('GetValidationError','catalogue lookup'),('addValidationErrors','append to status'),('ValidationStatus.Compact','deduplication'),('ValidationError.AppendDescription','copy with text')])
p('C16','An inventory on disk always matches its sidecar and is verified on load',
"""Storing an inventory writes the same bytes' digest and file name to the sidecar named after the object's digest algorithm, in the object root or the version folder as requested; any failed create, write or close is returned as an error.
Loading reports E060 exactly when the sidecar's digest differs (up to hex case) from that of the inventory bytes, E061 exactly when the sidecar is malformed and E058 when it is missing; an inventory that is missing or cannot be read is an error, never an empty inventory.""",
['inputs','fault_sequences'],"every inventory, every digest algorithm, every failure pattern of the target file system, every sidecar content",
NOTEST+"I/O failures at each step and malformed sidecars are not exercised at all.",
[O+'objectbase.go'],
[('ObjectBase.StoreInventory','writer'),('ObjectBase.LoadInventory','reader and verifier')])
p('C17','Extraction reproduces exactly the files of the selected version and area',
"""Extracting a version writes, for every logical path of that version inside the selected area and for nothing else, a file whose content is the recorded content of that path; 'latest' or no version means the head.
A content file whose digest differs from the recorded one, a digest without content and an unknown version are errors, and every extracted file is in the manifest when one was requested.""",
['inputs','histories'],"every object history, version argument, area and corruption of content files",
NOTEST+"omissions show only when areas and versions mix under one digest.",
[O+'objectbase.go',O+'inventorybase.go'],
[('ObjectBase.Extract','copy with digest check'),('InventoryBase.IterateStateFiles','files of a version'),('InventoryBase.GetStateFiles','files of a digest')])
p('C18','Conformance declarations are recognised exactly',
"""The version of a storage root or object is reported exactly when the folder contains one declaration file of that kind whose content is the file's name without '0=' plus a line end; no declaration, several declarations and wrong content are distinguished errors.
Files of other kinds and directories are ignored.""",
['inputs'],"every directory listing and file content",
NOTEST+"similar names, multiple declarations and directories are not sampled.",
[O+'helper.go',O+'storageroot.go',O+'object.go'],
[('getVersion','declaration parser'),('validVersion','comparison'),('newStorageRoot/newObject','version dispatch')])
p('C19','Validation finds every stray, missing or altered file of an object',
"""Checking an object reports an error for every content file that no manifest lists, every manifest entry without a file, every content file whose bytes changed, every unexpected file in object root or version folder, and every version inventory that contradicts the root inventory.
An object written by this software through any sequence of updates is reported without errors.""",
['inputs','histories'],"every object produced by any update history, every single-file corruption of it",
NOTEST+"neither validation nor update of whole objects is run by any test.",
[O+'objectbase.go'],
[('ObjectBase.Check','root listing'),('ObjectBase.checkFilesAndVersions','content audit'),('ObjectBase.createContentManifest','digest table')])
p('C20','Objects are created only where none exists and found where they were created',
"""Creating an object in a non-empty place is refused and changes nothing there; after creation the object exists under its id, is listed among the object folders and loads with the same id, and no other id's existence changes unless the layout maps it to the same folder.
A storage root is initialised only in an empty folder and declares exactly the requested version.""",
['inputs','histories'],"every sequence of creations, every id and layout",
NOTEST+"no test creates a storage root.",
[O+'storagerootbase.go',O+'objectbase.go',O+'storageroot.go'],
[('StorageRootBase.CreateObject','creation'),('StorageRootBase.ObjectExists','lookup'),('ObjectBase.Init','emptiness check'),('StorageRootBase.Init','root creation'),('StorageRootBase.GetObjectFolders','listing')])
p('C21','Fixity lookup returns exactly the recorded checksums of a file',
"""Looking up a content path in a fixity block yields, for every algorithm under which the path is recorded, a digest recorded for it, and no algorithm under which it is not recorded.
The answer does not depend on map order when the block records one digest per algorithm and path.""",
['inputs','schedules'],"every fixity block and path",
NOTEST+"only particular mixes of algorithms and files expose a missed or extra entry.",
[O+'fixity.go'],[('Fixity.Checksums','lookup')])
p('C22','Extension configuration survives a write and reload unchanged',
"""Writing an extension's configuration and creating the extension again from it yields the same configuration, so every id and path maps to the same place after a reload.
The layout file written to a storage root names the layout that is actually used.""",
['inputs','configurations'],"every extension with a stored configuration and every valid configuration",
"existing tests build layouts in memory and never write or reload a configuration.",
[X+f for f in ['0002-flat-direct-storage-layout.go','0003-hash-and-id-n-tuple-storage-layout.go','0004-hashed-n-tuple-storage-layout.go','0006-flat-omit-prefix-storage-layout.go','0007-n-tuple-omit-prefix-storage-layout.go','NNNN-pairtree-storage-layout.go','NNNN-direct-clean-path-layout.go','pathdirect.go','initial.go','NNNN-content-subpath.go']],
[('WriteConfig','serialises the configuration'),('WriteLayout','names the layout')])
p('C23','A failed update is reported and leaves the root inventory as it was',
"""Content and the version's own inventory are written before the root inventory is replaced, which happens only when the object is closed after a modification.
Any failure of a write, create or extension hook during an update is returned to the caller, and up to closing the object the root inventory and its sidecar are untouched.
An update without modification writes nothing.""",
['fault_sequences','histories'],"every update history, every single failing file system operation",
NOTEST+"no test injects a fault.",
[O+'objectbase.go'],
[('ObjectBase.EndUpdate','writes the version inventory'),('ObjectBase.Close','writes the root inventory'),('ObjectBase.addReader','writes content')])
p('C24','Content paths stay inside their version content folder',
"""The content path built for a version starts with the version name and the content directory, and every logical path that is relative and free of dot segments yields a content path below that folder which ends in the mapped path; different mapped paths give different content paths.
The content directory is the configured one or 'content'.""",
['inputs','configurations'],"every mapped path, version and content directory",
NOTEST+"path normalisation corner cases are unbounded.",
[O+'inventorybase.go'],
[('InventoryBase.BuildManifestNameVersion','path builder'),('InventoryBase.GetContentDir','content directory')])
p('C25','Pair-tree layout maps every id to a safe, injective path',
"""The pair-tree layout encodes every byte outside visible ASCII or in its reserved set as '^' plus exactly two hex digits, exchanges the three conversion characters, and cuts the result into segments of the configured length, the last possibly shorter, whose concatenation is the encoded id.
No id and no valid configuration makes the mapping crash.""",
['inputs','configurations'],"every id and positive segment length",
"TestPairTree* sample two ids and are not stable.",
[X+'NNNN-pairtree-storage-layout.go'],[('StorageLayoutPairTree.BuildStorageRootPath','mapping'),('StorageLayoutPairTree.idEncode','encoding')])
p('C26','Streaming ingest delivers every byte to every stream extension',
"""While a file is added, every stream extension receives exactly the file's bytes whatever the other extensions do and however the goroutines interleave; no error of an extension is lost and nothing deadlocks when an extension stops reading early.""",
['schedules','inputs'],"every number of stream extensions, every read pattern, every interleaving",
"no test runs the stream path; interleavings cannot be enumerated by tests.",
[X+'NNNN-gocfl-extension-manager.go',O+'objectbase.go'],[('GOCFLExtensionManager.StreamObject','fan-out'),('ObjectBase.addReader','pipe')])
p('C27','Command line operations perform exactly the library operation they name',
"""Every command resolves its options (file, flag, default) deterministically and performs the corresponding library operation on the given storage root, object and version, exiting with an error when the operation failed.""",
['inputs','configurations'],"every command line and configuration file",
"the command packages have no tests and do not build without an unavailable dependency.",
['gocfl/cmd/root.go','gocfl/cmd/add.go','gocfl/cmd/validate.go'],[('cobra commands','gocfl/cmd')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
print(len(P))
