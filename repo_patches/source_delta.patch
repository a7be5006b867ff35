From ba19c8b146139bd656749fbf0d6528e44159f09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 01/60] fix: look for existing and updated files in the version
 being built only

AlreadyExists and IsUpdate compared with the highest version which contained the
path at all. A file which was deleted and added again was dropped silently, and
zero padded versions ended in an error.
---
 pkg/ocfl/inventorybase.go | 92 +++++++--------------------------------
 1 file changed, 16 insertions(+), 76 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index a2e0784..0e48ff1 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -795,48 +795,15 @@ func (i *InventoryBase) AlreadyExists(stateFilename, checksum string) (bool, err
 		return false, nil
 	}
 
-	// first get checksum of last version of a file
-	css := map[string]string{}
-	for ver, version := range i.Versions.Versions {
-		for cs, filenames := range version.State.State {
-			found := false
-			for _, filename := range filenames {
-				if filename == stateFilename {
-					css[ver] = cs
-					found = true
-				}
-			}
-			if found {
-				break
-			}
-		}
-	}
-	if len(css) == 0 {
+	// only the version being built counts - a file of an older version may be deleted or changed meanwhile
+	version, ok := i.Versions.Versions[i.GetHead()]
+	if !ok {
 		i.logger.Debug().Msgf("'%s' - duplicate %v", stateFilename, false)
 		return false, nil
 	}
-	versions := []int{}
-
-	for ver := range css {
-		matches := vRegexp.FindStringSubmatch(ver)
-		if matches == nil {
-			return false, errors.New(fmt.Sprintf("invalid version in inventory - '%s'", ver))
-		}
-		versionInt, err := strconv.Atoi(matches[1])
-		if err != nil {
-			return false, errors.Wrapf(err, "cannot convert version number to int - '%s'", matches[1])
-		}
-		versions = append(versions, versionInt)
-	}
-	// sort versions ascending
-	sort.Ints(versions)
-	lastVersion := versions[len(versions)-1]
-	lastChecksum, ok := css[fmt.Sprintf("v%d", lastVersion)]
-	if !ok {
-		return false, errors.New(fmt.Sprintf("could not get checksum for v%d", lastVersion))
-	}
-	i.logger.Debug().Msgf("'%s' - duplicate %v", stateFilename, lastChecksum == checksum)
-	return lastChecksum == checksum, nil
+	dup := slices.Contains(version.State.State[checksum], stateFilename)
+	i.logger.Debug().Msgf("'%s' - duplicate %v", stateFilename, dup)
+	return dup, nil
 }
 
 func (i *InventoryBase) IsUpdate(virtualFilename, checksum string) (bool, error) {
@@ -846,48 +813,21 @@ func (i *InventoryBase) IsUpdate(virtualFilename, checksum string) (bool, error)
 		return false, nil
 	}
 
-	// first get checksum of last version of a file
-	css := map[string]string{}
-	for ver, version := range i.Versions.Versions {
-		for cs, filenames := range version.State.State {
-			found := false
-			for _, filename := range filenames {
-				if filename == virtualFilename {
-					css[ver] = cs
-					found = true
-				}
-			}
-			if found {
-				break
-			}
-		}
-	}
-	if len(css) == 0 {
+	// only the version being built counts - a file of an older version may be deleted or changed meanwhile
+	version, ok := i.Versions.Versions[i.GetHead()]
+	if !ok || slices.Contains(version.State.State[checksum], virtualFilename) {
 		i.logger.Debug().Msgf("'%s' - update %v", virtualFilename, false)
 		return false, nil
 	}
-	versions := []int{}
-
-	for ver := range css {
-		matches := vRegexp.FindStringSubmatch(ver)
-		if matches == nil {
-			return false, errors.New(fmt.Sprintf("invalid version in inventory - '%s'", ver))
-		}
-		versionInt, err := strconv.Atoi(matches[1])
-		if err != nil {
-			return false, errors.Wrapf(err, "cannot convert version number to int - '%s'", matches[1])
+	upd := false
+	for _, filenames := range version.State.State {
+		if slices.Contains(filenames, virtualFilename) {
+			upd = true
+			break
 		}
-		versions = append(versions, versionInt)
-	}
-	// sort versions ascending
-	sort.Ints(versions)
-	lastVersion := versions[len(versions)-1]
-	lastChecksum, ok := css[fmt.Sprintf("v%d", lastVersion)]
-	if !ok {
-		return false, errors.New(fmt.Sprintf("could not get checksum for v%d", lastVersion))
 	}
-	i.logger.Debug().Msgf("'%s' - update %v", virtualFilename, lastChecksum != checksum)
-	return lastChecksum != checksum, nil
+	i.logger.Debug().Msgf("'%s' - update %v", virtualFilename, upd)
+	return upd, nil
 }
 
 func (i *InventoryBase) echoDelete(existing []string, pathPrefix string) error {
-- 
2.43.0


From 12d4eacb3072c1ca73829cc433636ae2f9b313b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 02/60] fix: CopyFile removes the destination from its old
 digest

Updating a file with content which is already part of the object left the path
listed with its old and its new digest.
---
 pkg/ocfl/inventorybase.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 0e48ff1..d92950c 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -913,6 +913,10 @@ func (i *InventoryBase) CopyFile(dest string, digest string) error {
 	if slices.Contains(i.Versions.Versions[i.Head.string].State.State[digest], dest) {
 		return nil
 	}
+	// a logical path has one content only
+	if err := i.DeleteFile(dest); err != nil {
+		return errors.Wrapf(err, "cannot delete old version of '%s'", dest)
+	}
 	i.Versions.Versions[i.Head.string].State.State[digest] = append(i.Versions.Versions[i.Head.string].State.State[digest], dest)
 	i.modified = true
 	return nil
-- 
2.43.0


From 9b130d55d452fb81829c834298b58c38591bc2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 03/60] fix: AddFile lists a content path once in the manifest

The content path was appended for every logical path of the file.
---
 pkg/ocfl/inventorybase.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index d92950c..ee12e7d 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -963,7 +963,9 @@ func (i *InventoryBase) AddFile(stateFilenames []string, manifestFilename string
 			if _, ok := i.Manifest.Manifest[digest]; !ok {
 				i.Manifest.Manifest[digest] = []string{}
 			}
-			i.Manifest.Manifest[digest] = append(i.Manifest.Manifest[digest], manifestFilename)
+			if !slices.Contains(i.Manifest.Manifest[digest], manifestFilename) {
+				i.Manifest.Manifest[digest] = append(i.Manifest.Manifest[digest], manifestFilename)
+			}
 		}
 
 		if _, ok := i.Versions.Versions[i.Head.string].State.State[digest]; !ok {
-- 
2.43.0


From 2aa7bf105fa95a179027ff8226eee53a9dc92c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 04/60] fix: report empty paths instead of crashing on them

checkManifest, checkFixity and checkVersions indexed the path before testing
whether it is empty.
---
 pkg/ocfl/inventorybase.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index ee12e7d..04b1741 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -367,11 +367,12 @@ func (i *InventoryBase) checkManifest() error {
 		for _, path := range paths {
 			//allPaths = sliceInsertSorted(allPaths, path)
 			allPaths = append(allPaths, path)
-			if path[0] == '/' || path[len(path)-1] == '/' {
-				i.addValidationError(E100, "invalid path '%s' in manifest", path)
-			}
 			if path == "" {
 				i.addValidationError(E099, "empty path in manifest")
+				continue
+			}
+			if path[0] == '/' || path[len(path)-1] == '/' {
+				i.addValidationError(E100, "invalid path '%s' in manifest", path)
 			}
 			path2 := path
 			if path[0] == '/' {
@@ -413,11 +414,12 @@ func (i *InventoryBase) checkFixity() error {
 			}
 			// check content paths
 			for _, path := range paths {
-				if path[0] == '/' || path[len(path)-1] == '/' {
-					i.addValidationError(E100, "invalid path '%s' in fixity", path)
-				}
 				if path == "" {
 					i.addValidationError(E099, "empty path in fixity")
+					continue
+				}
+				if path[0] == '/' || path[len(path)-1] == '/' {
+					i.addValidationError(E100, "invalid path '%s' in fixity", path)
 				}
 				path2 := path
 				if path[0] == '/' {
@@ -531,11 +533,12 @@ func (i *InventoryBase) checkVersions() error {
 				}
 			}
 			for _, path := range paths {
-				if path[0] == '/' || path[len(path)-1] == '/' {
-					i.addValidationError(E053, "invalid path '%s' in state for version '%s'", path, ver)
-				}
 				if path == "" {
 					i.addValidationError(E051, "empty path in state for version '%s'", ver)
+					continue
+				}
+				if path[0] == '/' || path[len(path)-1] == '/' {
+					i.addValidationError(E053, "invalid path '%s' in state for version '%s'", path, ver)
 				}
 				path2 := path
 				if path[0] == '/' {
-- 
2.43.0


From 34c407b9fe57b8cc05722bbd1624087eb281ade3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 05/60] fix: report missing keys of a version instead of
 crashing on them

A version without created key, an empty version, a null head or an invalid
version name without state ended in a nil pointer dereference.
---
 pkg/ocfl/inventorybase.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 04b1741..7e76ab3 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -130,14 +130,21 @@ func (i *InventoryBase) Finalize(inCreation bool) (err error) {
 		i.Versions = &OCFLVersions{Versions: map[string]*Version{}}
 	}
 
+	if i.Head == nil {
+		i.Head = NewOCFLString("")
+	}
+
 	i.versionValue = map[string]uint{}
 	for ver, version := range i.Versions.Versions {
-		vInt, err := strconv.Atoi(strings.TrimLeft(ver, "v0"))
-		if err != nil {
-			i.addValidationError(E104, "invalid version format '%s'", ver)
-			continue
+		if version == nil {
+			i.addValidationError(E047, "version '%s' is empty", ver)
+			version = &Version{}
+			i.Versions.Versions[ver] = version
+		}
+		if version.Created == nil {
+			i.addValidationError(E048, "no created key in version '%s'", ver)
+			version.Created = &OCFLTime{}
 		}
-		i.versionValue[ver] = uint(vInt)
 		if version.User == nil {
 			i.addValidationWarning(W007, "no user key in version '%s'", ver)
 			version.User = NewOCFLUser("", "")
@@ -148,11 +155,18 @@ func (i *InventoryBase) Finalize(inCreation bool) (err error) {
 			version.Message = NewOCFLString("")
 		}
 		if version.State == nil {
+			i.addValidationError(E048, "no state key in version '%s'", ver)
 			version.State = &OCFLState{
 				State: map[string][]string{},
 				err:   nil,
 			}
 		}
+		vInt, err := strconv.Atoi(strings.TrimLeft(ver, "v0"))
+		if err != nil {
+			i.addValidationError(E104, "invalid version format '%s'", ver)
+			continue
+		}
+		i.versionValue[ver] = uint(vInt)
 	}
 	for alg := range i.Fixity {
 		if !slices.Contains(i.fixityDigestAlgorithms, alg) {
-- 
2.43.0


From 6bd62d8d6ff83700d6483b826fc0d6f766d287fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 06/60] fix: find all conflicting paths of manifest and state

The manifest check compared in the wrong direction and never matched, the state
check missed equal paths and folders which are not adjacent after sorting.
---
 pkg/ocfl/inventorybase.go | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 7e76ab3..c60d43c 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -354,6 +354,27 @@ func (i *InventoryBase) check() error {
 
 	return nil
 }
+
+// conflictingPaths returns the paths which are listed before or which have another path of the list as folder
+func conflictingPaths(paths []string) []string {
+	result := []string{}
+	known := map[string]bool{}
+	for _, path := range paths {
+		if known[path] {
+			result = append(result, path)
+		}
+		known[path] = true
+	}
+	for _, path := range paths {
+		for pos := 0; pos < len(path); pos++ {
+			if path[pos] == '/' && known[path[:pos]] {
+				result = append(result, path)
+			}
+		}
+	}
+	return result
+}
+
 func (i *InventoryBase) checkManifest() error {
 	i.logger.Debug().Msgf("[%s] checkManifest", i.GetID())
 	defer i.logger.Debug().Msgf("[%s] checkManifest done", i.GetID())
@@ -404,11 +425,8 @@ func (i *InventoryBase) checkManifest() error {
 	}
 	i.logger.Debug().Msgf("[%s] checkManifest prefix", i.GetID())
 	slices.Sort(allPaths)
-	for j := 0; j < len(allPaths)-1; j++ {
-		prefix := strings.TrimRight(allPaths[j+1], "/") + "/"
-		if strings.HasPrefix(allPaths[j], prefix) {
-			i.addValidationError(E101, "content path '%s' is prefix or equal to '%s' in manifest", allPaths[j], prefix)
-		}
+	for _, path := range conflictingPaths(allPaths) {
+		i.addValidationError(E101, "content path '%s' is listed twice or in conflict with another path in manifest", path)
 	}
 	return nil
 }
@@ -608,11 +626,8 @@ func (i *InventoryBase) checkVersions() error {
 			logPaths = append(logPaths, paths...)
 		}
 		slices.Sort(logPaths)
-		for j := 0; j < len(logPaths)-1; j++ {
-			prefix := strings.TrimSuffix(logPaths[j], "/") + "/"
-			if strings.HasPrefix(logPaths[j+1], prefix) {
-				i.addValidationError(E095, "logical path '%s' is prefix of '%s'", logPaths[j], logPaths[j+1])
-			}
+		for _, path := range conflictingPaths(logPaths) {
+			i.addValidationError(E095, "logical path '%s' is listed twice or in conflict with another path", path)
 		}
 	}
 
-- 
2.43.0


From 8457b396bd93ef087031884b9688de9ea738a6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 07/60] fix: find manifest digests which differ in case only

---
 pkg/ocfl/inventorybase.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index c60d43c..b8a0fba 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -390,14 +390,14 @@ func (i *InventoryBase) checkManifest() error {
 	allPaths := []string{}
 	for digest, paths := range i.Manifest.Manifest {
 		//		digest = strings.ToLower(digest)
-		if slices.Contains(digests, digest) {
+		if slices.Contains(digests, strings.ToLower(digest)) {
 			i.addValidationError(E096, "manifest digest '%s' is duplicate", digest)
 		} else {
-			digests = sliceInsertSorted(digests, digest)
+			digests = sliceInsertSorted(digests, strings.ToLower(digest))
 			//digests = append(digests, digest)
-			if !slices.Contains(versionDigests, digest) {
-				i.addValidationError(E107, "digest '%s' does not appear in any version", digest)
-			}
+		}
+		if !slices.Contains(versionDigests, digest) {
+			i.addValidationError(E107, "digest '%s' does not appear in any version", digest)
 		}
 		for _, path := range paths {
 			//allPaths = sliceInsertSorted(allPaths, path)
-- 
2.43.0


From 8969e43cdd12846ae37ceaae515e910d5b36e86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 08/60] fix: compare the digests of version states

EqualState looked at the set of logical paths only, so a state with other
content for a path was accepted as equal.
---
 pkg/ocfl/inventorytypes.go | 26 ++++++++++++++++++++++++++
 pkg/ocfl/objectbase.go     |  7 ++++++-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/inventorytypes.go b/pkg/ocfl/inventorytypes.go
index 2081e56..060e562 100644
--- a/pkg/ocfl/inventorytypes.go
+++ b/pkg/ocfl/inventorytypes.go
@@ -4,6 +4,7 @@ import (
 	"emperror.dev/errors"
 	"encoding/json"
 	"golang.org/x/exp/slices"
+	"strings"
 	"time"
 )
 
@@ -153,7 +154,32 @@ func (v *Version) EqualMeta(v2 *Version) bool {
 	}
 	return true
 }
+
+// stateContains reports whether all logical paths of state2 have the same digest in state
+func stateContains(state, state2 map[string][]string) bool {
+	lower := map[string][]string{}
+	for digest, paths := range state {
+		digest = strings.ToLower(digest)
+		lower[digest] = append(lower[digest], paths...)
+	}
+	for digest, paths := range state2 {
+		if !sliceContains(lower[strings.ToLower(digest)], paths) {
+			return false
+		}
+	}
+	return true
+}
+
+// EqualState reports whether both versions have the same logical paths with the same digests
 func (v *Version) EqualState(v2 *Version) bool {
+	if v2 == nil {
+		return false
+	}
+	return stateContains(v.State.State, v2.State.State) && stateContains(v2.State.State, v.State.State)
+}
+
+// equalLogicalPaths reports whether both versions have the same logical paths
+func (v *Version) equalLogicalPaths(v2 *Version) bool {
 	if v2 == nil {
 		return false
 	}
diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 9269f88..e3352b8 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1196,7 +1196,12 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 			if !ok {
 				object.addValidationError(E066, "version '%s' in version folder '%s' not in object root manifest", ver, verVer)
 			}
-			if !testV.EqualState(verVersion) {
+			equalState := testV.EqualState(verVersion)
+			if verInventory.GetDigestAlgorithm() != digestAlg {
+				// digests of different algorithms cannot be compared
+				equalState = testV.equalLogicalPaths(verVersion)
+			}
+			if !equalState {
 				object.addValidationError(E066, "version '%s' in version folder '%s' not equal to version in object root manifest", ver, verVer)
 			}
 			if !testV.EqualMeta(verVersion) {
-- 
2.43.0


From 0798ffe18e689f7ae28e9af4d8421c45b3d29976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 09/60] fix: do not compare a version which the root inventory
 does not have

---
 pkg/ocfl/objectbase.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index e3352b8..35b769a 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1195,6 +1195,7 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 			testV, ok := versions[verVer]
 			if !ok {
 				object.addValidationError(E066, "version '%s' in version folder '%s' not in object root manifest", ver, verVer)
+				continue
 			}
 			equalState := testV.EqualState(verVersion)
 			if verInventory.GetDigestAlgorithm() != digestAlg {
-- 
2.43.0


From 1a70489358f5f63dfaa321dcde0f714d4a88526d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 10/60] fix: find manifests with additional entries when
 comparing inventories

The number of digests was compared with itself.
---
 pkg/ocfl/inventorybase.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index b8a0fba..d892294 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -73,7 +73,7 @@ func (i *InventoryBase) isEqual(i2 *InventoryBase) bool {
 		return false
 	}
 	if i.Manifest != nil {
-		if len(i.Manifest.Manifest) != len(i.Manifest.Manifest) {
+		if len(i.Manifest.Manifest) != len(i2.Manifest.Manifest) {
 			return false
 		}
 		for key, vals := range i.Manifest.Manifest {
@@ -81,7 +81,7 @@ func (i *InventoryBase) isEqual(i2 *InventoryBase) bool {
 			if !ok {
 				return false
 			}
-			if !sliceContains(vals, vals2) || len(vals) != len(vals2) {
+			if !sliceContains(vals, vals2) || !sliceContains(vals2, vals) || len(vals) != len(vals2) {
 				return false
 			}
 		}
-- 
2.43.0


From ff32aea359ec90ce08fe727a96460827a80ebf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 11/60] fix: apply echo mode also if files were deleted only

EndUpdate returned before the deletion when nothing was added or changed.
---
 pkg/ocfl/objectbase.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 35b769a..9b17255 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -570,16 +570,16 @@ func (object *ObjectBase) EndUpdate() error {
 		object.logger.Warn().Msgf(fmt.Sprintf("object '%s' not writeable", object.GetID()))
 		return nil
 	}
-	if !(object.i.IsModified()) {
-		object.logger.Info().Msgf(fmt.Sprintf("object '%s' not modified", object.GetID()))
-		return nil
-	}
-
 	if object.echo {
 		if err := object.echoDelete(); err != nil {
 			return errors.Wrap(err, "cannot delete files")
 		}
 	}
+	if !(object.i.IsModified()) {
+		object.logger.Info().Msgf(fmt.Sprintf("object '%s' not modified", object.GetID()))
+		return nil
+	}
+
 	if err := object.extensionManager.UpdateObjectAfter(object); err != nil {
 		return errors.Wrapf(err, "cannot execute ext.UpdateObjectAfter()")
 	}
-- 
2.43.0


From d5fcc6015157eae16014fc6ecbb7f4ce9e3fbcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 12/60] fix: compare id, digest algorithm and fixity of
 inventories

The inventory of the latest version has to be the same as the root inventory.
---
 pkg/ocfl/inventorybase.go | 42 +++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index d892294..5662a9e 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -55,8 +55,27 @@ func newInventoryBase(ctx context.Context, object Object, folder string, objectT
 	return i, nil
 }
 
-func (i *InventoryBase) isEqual(i2 *InventoryBase) bool {
+// equalDigestPaths reports whether both maps list the same paths for the same digests
+func equalDigestPaths(m, m2 map[string][]string) bool {
+	if len(m) != len(m2) {
+		return false
+	}
+	for key, vals := range m {
+		vals2, ok := m2[key]
+		if !ok {
+			return false
+		}
+		if !sliceContains(vals, vals2) || !sliceContains(vals2, vals) || len(vals) != len(vals2) {
+			return false
+		}
+	}
+	return true
+}
 
+func (i *InventoryBase) isEqual(i2 *InventoryBase) bool {
+	if i.Id != i2.Id || i.DigestAlgorithm != i2.DigestAlgorithm {
+		return false
+	}
 	if !sliceContains(i.fixityDigestAlgorithms, i2.fixityDigestAlgorithms) || len(i.fixityDigestAlgorithms) != len(i2.fixityDigestAlgorithms) {
 		return false
 	}
@@ -73,17 +92,20 @@ func (i *InventoryBase) isEqual(i2 *InventoryBase) bool {
 		return false
 	}
 	if i.Manifest != nil {
-		if len(i.Manifest.Manifest) != len(i2.Manifest.Manifest) {
+		if !equalDigestPaths(i.Manifest.Manifest, i2.Manifest.Manifest) {
 			return false
 		}
-		for key, vals := range i.Manifest.Manifest {
-			vals2, ok := i2.Manifest.Manifest[key]
-			if !ok {
-				return false
-			}
-			if !sliceContains(vals, vals2) || !sliceContains(vals2, vals) || len(vals) != len(vals2) {
-				return false
-			}
+	}
+	if len(i.Fixity) != len(i2.Fixity) {
+		return false
+	}
+	for alg, digests := range i.Fixity {
+		digests2, ok := i2.Fixity[alg]
+		if !ok {
+			return false
+		}
+		if !equalDigestPaths(digests, digests2) {
+			return false
 		}
 	}
 	if (i.Versions == nil && i2.Versions != nil) || (i.Versions != nil && i2.Versions == nil) {
-- 
2.43.0


From b5ade8f96a2d6a558d648e6eeb0501451d257d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 13/60] fix: refuse a version number which does not fit the
 zero padding

The version after v09 was v010, which is not a valid name next to v09.
---
 pkg/ocfl/inventorybase.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 5662a9e..59800ea 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -787,7 +787,11 @@ func (i *InventoryBase) NewVersion(msg, UserName, UserAddress string) error {
 		if i.paddingLength <= 0 {
 			i.Head.string = fmt.Sprintf("v%d", v+1)
 		} else {
-			i.Head.string = fmt.Sprintf(fmt.Sprintf("v0%%0%dd", i.paddingLength), v+1)
+			head := fmt.Sprintf(fmt.Sprintf("v0%%0%dd", i.paddingLength), v+1)
+			if len(head) != len(i.Head.string) {
+				return errors.Errorf("no zero padded version after '%s'", i.Head.string)
+			}
+			i.Head.string = head
 		}
 	}
 	i.Versions.Versions[i.Head.string] = &Version{
-- 
2.43.0


From 83f44ab68b6416118fe706f22b3e110f6ab2c73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 14/60] fix: sort validation errors with a consistent order

A storage root error and an object error were both less than the other one, so
sorting was undefined and duplicates could survive the compaction.
---
 pkg/ocfl/validationerror.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/ocfl/validationerror.go b/pkg/ocfl/validationerror.go
index 492e269..188754f 100644
--- a/pkg/ocfl/validationerror.go
+++ b/pkg/ocfl/validationerror.go
@@ -158,9 +158,18 @@ func validationSort(E1, E2 *ValidationError) int {
 	sr1 := strings.HasPrefix(E1.Context, "storage root")
 	sr2 := strings.HasPrefix(E2.Context, "storage root")
 	if sr1 != sr2 {
-		return -1 // sr1 && !sr2
+		if sr1 {
+			return -1
+		}
+		return 1
+	}
+	if c := cmp.Compare(E1.Context, E2.Context); c != 0 {
+		return c
+	}
+	if c := cmp.Compare(E1.Code, E2.Code); c != 0 {
+		return c
 	}
-	return cmp.Compare(E1.Context+string(E1.Code)+E1.Description2, E2.Context+string(E2.Code)+E2.Description2)
+	return cmp.Compare(E1.Description2, E2.Description2)
 }
 
 // removes duplicate errors
-- 
2.43.0


From 5212f5e28f45543648e8fc4edcf92683a71b78e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 15/60] fix: keep version and context when a description is
 added to a validation error

---
 pkg/ocfl/validationerror.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ocfl/validationerror.go b/pkg/ocfl/validationerror.go
index 188754f..c79038b 100644
--- a/pkg/ocfl/validationerror.go
+++ b/pkg/ocfl/validationerror.go
@@ -233,6 +233,8 @@ func (ve *ValidationError) AppendDescription(format string, a ...any) *Validatio
 		Description:  ve.Description,
 		Ref:          ve.Ref,
 		Description2: strings.TrimSpace(ve.Description2 + " " + fmt.Sprintf(format, a...)),
+		Context:      ve.Context,
+		Version:      ve.Version,
 	}
 }
 
@@ -243,6 +245,7 @@ func (ve *ValidationError) AppendContext(format string, a ...any) *ValidationErr
 		Ref:          ve.Ref,
 		Description2: ve.Description2,
 		Context:      strings.TrimSpace(ve.Context + " " + fmt.Sprintf(format, a...)),
+		Version:      ve.Version,
 	}
 }
 
-- 
2.43.0


From 72315b379d7709136cee8deedd6199e858a9dd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 16/60] fix: an additional manifest entry is a modification

Adding an unchanged file without duplicate check wrote the content file of the new
version, but the inventory was not stored afterwards.
---
 pkg/ocfl/inventorybase.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 59800ea..84e5277 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -1023,6 +1023,7 @@ func (i *InventoryBase) AddFile(stateFilenames []string, manifestFilename string
 			}
 			if !slices.Contains(i.Manifest.Manifest[digest], manifestFilename) {
 				i.Manifest.Manifest[digest] = append(i.Manifest.Manifest[digest], manifestFilename)
+				i.modified = true
 			}
 		}
 
-- 
2.43.0


From 1f42adf9bd0c6018e435a269312c24eb247272e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 17/60] fix: report the files of the inventory if the object
 has no files at all

---
 pkg/ocfl/inventorybase.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 84e5277..9751344 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -660,10 +660,8 @@ func (i *InventoryBase) CheckFiles(fileManifest map[checksum.DigestAlgorithm]map
 	i.logger.Debug().Msgf("[%s] checkFiles", i.GetID())
 	defer i.logger.Debug().Msgf("[%s] checkFiles done", i.GetID())
 	csFiles, ok := fileManifest[i.GetDigestAlgorithm()]
-	if !ok {
-		if len(fileManifest) == 0 {
-			return nil
-		}
+	// without any file nothing is measured, and all files of the inventory are missing
+	if !ok && len(fileManifest) > 0 {
 		return errors.Errorf("checksum for '%s' not created", i.GetDigestAlgorithm())
 	}
 	for digest, files := range i.GetManifest() {
@@ -681,7 +679,7 @@ func (i *InventoryBase) CheckFiles(fileManifest map[checksum.DigestAlgorithm]map
 	//check fixity
 	for digestAlg, fixity := range i.GetFixity() {
 		csFiles, ok = fileManifest[digestAlg]
-		if !ok {
+		if !ok && len(fileManifest) > 0 {
 			return errors.Errorf("checksum for '%s' not created", digestAlg)
 		}
 		for digest, files := range fixity {
-- 
2.43.0


From 9dbacda002be98db3397af794b1b79cab5b99dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:05 +0000
Subject: [PATCH 18/60] fix: write the complete configuration of the storage
 layouts

---
 pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go | 2 +-
 pkg/extension/0004-hashed-n-tuple-storage-layout.go      | 2 +-
 pkg/extension/0006-flat-omit-prefix-storage-layout.go    | 2 +-
 pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go | 2 +-
 pkg/extension/NNNN-pairtree-storage-layout.go            | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
index 30f8dc5..e271cae 100644
--- a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
+++ b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
@@ -108,7 +108,7 @@ func (sl *StorageLayoutHashAndIdNTuple) WriteConfig() error {
 	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
+	if err := jenc.Encode(sl.StorageLayoutHashAndIdNTupleConfig); err != nil {
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
 	return nil
diff --git a/pkg/extension/0004-hashed-n-tuple-storage-layout.go b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
index 135b62d..9503d15 100644
--- a/pkg/extension/0004-hashed-n-tuple-storage-layout.go
+++ b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
@@ -107,7 +107,7 @@ func (sl *StorageLayoutHashedNTuple) WriteConfig() error {
 	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
+	if err := jenc.Encode(sl.StorageLayoutHashedNTupleConfig); err != nil {
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
 	return nil
diff --git a/pkg/extension/0006-flat-omit-prefix-storage-layout.go b/pkg/extension/0006-flat-omit-prefix-storage-layout.go
index 72b359e..090200c 100644
--- a/pkg/extension/0006-flat-omit-prefix-storage-layout.go
+++ b/pkg/extension/0006-flat-omit-prefix-storage-layout.go
@@ -88,7 +88,7 @@ func (sl *FlatOmitPrefixStorageLayout) WriteConfig() error {
 	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
+	if err := jenc.Encode(sl.FlatOmitPrefixStorageLayoutConfig); err != nil {
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
 	return nil
diff --git a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
index 108a854..d8cb674 100644
--- a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
+++ b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
@@ -108,7 +108,7 @@ func (sl *NTupleOmitPrefixStorageLayout) WriteConfig() error {
 	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
+	if err := jenc.Encode(sl.NTupleOmitPrefixStorageLayoutConfig); err != nil {
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
 	return nil
diff --git a/pkg/extension/NNNN-pairtree-storage-layout.go b/pkg/extension/NNNN-pairtree-storage-layout.go
index 611db44..587b86b 100644
--- a/pkg/extension/NNNN-pairtree-storage-layout.go
+++ b/pkg/extension/NNNN-pairtree-storage-layout.go
@@ -131,7 +131,7 @@ func (sl *StorageLayoutPairTree) WriteConfig() error {
 	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
-	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
+	if err := jenc.Encode(sl.StorageLayoutPairTreeConfig); err != nil {
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
 	return nil
-- 
2.43.0


From 464eb0c9e48b9582e409026de45952828d452d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:07 +0000
Subject: [PATCH 19/60] fix: ocfl_layout.json names the layout which is used

---
 pkg/extension/NNNN-direct-clean-path-layout.go | 2 +-
 pkg/extension/NNNN-pairtree-storage-layout.go  | 4 ++--
 pkg/extension/pathdirect.go                    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/extension/NNNN-direct-clean-path-layout.go b/pkg/extension/NNNN-direct-clean-path-layout.go
index 6df6262..635d0c5 100644
--- a/pkg/extension/NNNN-direct-clean-path-layout.go
+++ b/pkg/extension/NNNN-direct-clean-path-layout.go
@@ -183,7 +183,7 @@ func (sl *DirectClean) WriteLayout(fsys fs.FS) error {
 		Extension   string `json:"extension"`
 		Description string `json:"description"`
 	}{
-		Extension:   PathDirectName,
+		Extension:   DirectCleanName,
 		Description: DirectCleanDescription,
 	}); err != nil {
 		return errors.Wrapf(err, "cannot encode config to file")
diff --git a/pkg/extension/NNNN-pairtree-storage-layout.go b/pkg/extension/NNNN-pairtree-storage-layout.go
index 587b86b..793e4b3 100644
--- a/pkg/extension/NNNN-pairtree-storage-layout.go
+++ b/pkg/extension/NNNN-pairtree-storage-layout.go
@@ -62,8 +62,8 @@ func (sl *StorageLayoutPairTree) WriteLayout(fsys fs.FS) error {
 		Extension   string `json:"extension"`
 		Description string `json:"description"`
 	}{
-		Extension:   StorageLayoutFlatDirectName,
-		Description: StorageLayoutFlatDirectDescription,
+		Extension:   StorageLayoutPairTreeName,
+		Description: "pair-tree storage layout",
 	}); err != nil {
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
diff --git a/pkg/extension/pathdirect.go b/pkg/extension/pathdirect.go
index 4e245c5..6890580 100644
--- a/pkg/extension/pathdirect.go
+++ b/pkg/extension/pathdirect.go
@@ -84,7 +84,7 @@ func (sl *PathDirect) WriteLayout(fsys fs.FS) error {
 		Extension   string `json:"extension"`
 		Description string `json:"description"`
 	}{
-		Extension:   StorageLayoutFlatDirectName,
+		Extension:   PathDirectName,
 		Description: StorageLayoutFlatDirectDescription,
 	}); err != nil {
 		return errors.Wrapf(err, "cannot encode config to file")
-- 
2.43.0


From a47c409dea7f5e09b0e1ab72923341526c2f1d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:09 +0000
Subject: [PATCH 20/60] fix: percent-encode control characters with two hex
 digits

---
 pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
index e271cae..ab19d5a 100644
--- a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
+++ b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
@@ -130,7 +130,7 @@ func escape(str string) string {
 			continue
 		}
 		result = append(result, '%')
-		result = append(result, fmt.Sprintf("%x", c)...)
+		result = append(result, fmt.Sprintf("%02x", c)...)
 	}
 	return string(result)
 }
-- 
2.43.0


From 34f24a61d398be6146d384fba76797ded1e6bb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:12 +0000
Subject: [PATCH 21/60] fix: an id which ends with the delimiter is no empty
 storage path

---
 pkg/extension/0006-flat-omit-prefix-storage-layout.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/extension/0006-flat-omit-prefix-storage-layout.go b/pkg/extension/0006-flat-omit-prefix-storage-layout.go
index 090200c..42e3842 100644
--- a/pkg/extension/0006-flat-omit-prefix-storage-layout.go
+++ b/pkg/extension/0006-flat-omit-prefix-storage-layout.go
@@ -115,10 +115,16 @@ func (sl *FlatOmitPrefixStorageLayout) WriteLayout(fsys fs.FS) error {
 }
 
 func (sl *FlatOmitPrefixStorageLayout) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
+	if sl.Delimiter == "" {
+		return id, nil
+	}
 	last := strings.LastIndex(id, sl.Delimiter)
 	if last < 0 {
 		return id, nil
 	}
+	if last+len(sl.Delimiter) == len(id) {
+		return "", errors.Errorf("delimiter '%s' at the end of '%s'", sl.Delimiter, id)
+	}
 	return id[last+len(sl.Delimiter):], nil
 }
 
-- 
2.43.0


From 3acbb3589c0ef554eade4eeacc178f4f7bcae45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:14 +0000
Subject: [PATCH 22/60] fix: an id which ends with the delimiter is an error as
 documented

---
 pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
index d8cb674..5731310 100644
--- a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
+++ b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
@@ -141,6 +141,9 @@ func (sl *NTupleOmitPrefixStorageLayout) BuildStorageRootPath(storageRoot ocfl.S
 	if sl.Delimiter != "" {
 		last := strings.LastIndex(id, sl.Delimiter)
 		if last >= 0 {
+			if last+len(sl.Delimiter) == len(id) {
+				return "", errors.Errorf("delimiter '%s' at the end of '%s'", sl.Delimiter, id)
+			}
 			id = id[last+len(sl.Delimiter):]
 		}
 	}
-- 
2.43.0


From 5b182ee782c95a502ab9cd7cbc7f4aafd5830827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:17 +0000
Subject: [PATCH 23/60] fix: zero padding is on the left unless configured
 otherwise

---
 pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
index 5731310..f155ccf 100644
--- a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
+++ b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
@@ -165,7 +165,7 @@ func (sl *NTupleOmitPrefixStorageLayout) BuildStorageRootPath(storageRoot ocfl.S
 	for i := 0; i < targetLength-l; i++ {
 		str.WriteString("0")
 	}
-	if sl.ZeroPadding == "left" {
+	if sl.ZeroPadding != "right" {
 		str.WriteString(id)
 	}
 	base := str.String()
-- 
2.43.0


From e2ee30634b9afc34ec1be11494290695948a1b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:19 +0000
Subject: [PATCH 24/60] fix: reject tuple sizes which crash the n-tuple layout

---
 pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
index f155ccf..6f6883c 100644
--- a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
+++ b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
@@ -51,6 +51,9 @@ func NewNTupleOmitPrefixStorageLayout(config *NTupleOmitPrefixStorageLayoutConfi
 	if config.ExtensionName != sl.GetName() {
 		return nil, errors.New(fmt.Sprintf("invalid extension name'%s'for extension %s", config.ExtensionName, sl.GetName()))
 	}
+	if config.TupleSize < 1 || config.NumberOfTuples < 1 {
+		return nil, errors.Errorf("invalid tuples in extension %s: %v tuples of size %v", sl.GetName(), config.NumberOfTuples, config.TupleSize)
+	}
 	return sl, nil
 }
 
@@ -180,7 +183,7 @@ func (sl *NTupleOmitPrefixStorageLayout) BuildStorageRootPath(storageRoot ocfl.S
 		4) Starting at the leftmost character of the resulting id and working right, divide the id into numberOfTuples each containing tupleSize characters.
 	*/
 	var pathComponents = []string{}
-	for i := 0; i < targetLength/sl.TupleSize; i++ {
+	for i := 0; i < sl.NumberOfTuples; i++ {
 		pathComponents = append(pathComponents, base[i*sl.TupleSize:(i+1)*sl.TupleSize])
 	}
 	/*
-- 
2.43.0


From 9356c0a9cfb8499f6ebc38370c4131781b73ff45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:22 +0000
Subject: [PATCH 25/60] fix: pair-tree encoding is injective (reserved
 characters, two hex digits per byte)

---
 pkg/extension/NNNN-pairtree-storage-layout.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/extension/NNNN-pairtree-storage-layout.go b/pkg/extension/NNNN-pairtree-storage-layout.go
index 793e4b3..4d84230 100644
--- a/pkg/extension/NNNN-pairtree-storage-layout.go
+++ b/pkg/extension/NNNN-pairtree-storage-layout.go
@@ -20,7 +20,7 @@ const StorageLayoutPairTreeName = "NNNN-pairtree-storage-layout"
 	https://pythonhosted.org/Pairtree/pairtree.pairtree_client.PairtreeStorageClient-class.html
 */
 
-var rareChars = []rune{'"', '*', '+', 'c', '<', '=', '>', '?', '^', '|'}
+var rareChars = []byte{'"', '*', '+', ',', '<', '=', '>', '?', '\\', '^', '|'}
 
 var convert = map[rune]rune{
 	'/': '=',
@@ -154,7 +154,7 @@ func (sl *StorageLayoutPairTree) BuildStorageRootPath(storageRoot ocfl.StorageRo
 
 func (sl *StorageLayoutPairTree) idEncode(str string) string {
 	var result = []rune{}
-	for _, c := range []rune(str) {
+	for _, c := range []byte(str) {
 		isVisible := 0x21 <= c && c <= 0x7e
 		if isVisible {
 			for _, rare := range rareChars {
@@ -165,10 +165,10 @@ func (sl *StorageLayoutPairTree) idEncode(str string) string {
 			}
 		}
 		if isVisible {
-			result = append(result, c)
+			result = append(result, rune(c))
 		} else {
 			result = append(result, '^')
-			result = append(result, []rune(fmt.Sprintf("%x", c))...)
+			result = append(result, []rune(fmt.Sprintf("%02x", c))...)
 		}
 	}
 	str = string(result)
-- 
2.43.0


From 8e62c3ddcdb0e762a5f1c279c2ce3b42d72213a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:24 +0000
Subject: [PATCH 26/60] fix: a pair-tree without segment length would map every
 id to the storage root

---
 pkg/extension/NNNN-pairtree-storage-layout.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/extension/NNNN-pairtree-storage-layout.go b/pkg/extension/NNNN-pairtree-storage-layout.go
index 4d84230..a9f6018 100644
--- a/pkg/extension/NNNN-pairtree-storage-layout.go
+++ b/pkg/extension/NNNN-pairtree-storage-layout.go
@@ -108,6 +108,9 @@ func NewStorageLayoutPairTree(config *StorageLayoutPairTreeConfig) (*StorageLayo
 	if config.ExtensionName != sl.GetName() {
 		return nil, errors.New(fmt.Sprintf("invalid extension name'%s'for extension %s", config.ExtensionName, sl.GetName()))
 	}
+	if config.ShortyLength < 1 {
+		return nil, errors.Errorf("invalid shortyLength %v for extension %s", config.ShortyLength, sl.GetName())
+	}
 
 	return sl, nil
 }
-- 
2.43.0


From 02fa329af12611738dd250e823abf4d65fb27a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:26 +0000
Subject: [PATCH 27/60] fix: digest of the fallback path is read under the lock

---
 pkg/extension/NNNN-direct-clean-path-layout.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/extension/NNNN-direct-clean-path-layout.go b/pkg/extension/NNNN-direct-clean-path-layout.go
index 635d0c5..805c621 100644
--- a/pkg/extension/NNNN-direct-clean-path-layout.go
+++ b/pkg/extension/NNNN-direct-clean-path-layout.go
@@ -211,10 +211,9 @@ func (sl *DirectClean) fallback(fname string) (string, error) {
 		sl.hashMutex.Unlock()
 		return "", errors.Wrapf(err, "cannot hash path '%s'", fname)
 	}
-	sl.hashMutex.Unlock()
-
 	// get digest and encode it
 	digestString := hex.EncodeToString(sl.hash.Sum(nil))
+	sl.hashMutex.Unlock()
 
 	// check whether digest fits in filename length
 	parts := len(digestString) / sl.MaxPathSegmentLen
-- 
2.43.0


From 00e5d604e647a39c0d5c0935851ea817929c8d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:27 +0000
Subject: [PATCH 28/60] fix: too many fallback tuples are an error and no crash

---
 pkg/extension/NNNN-direct-clean-path-layout.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/extension/NNNN-direct-clean-path-layout.go b/pkg/extension/NNNN-direct-clean-path-layout.go
index 805c621..4a0f046 100644
--- a/pkg/extension/NNNN-direct-clean-path-layout.go
+++ b/pkg/extension/NNNN-direct-clean-path-layout.go
@@ -228,6 +228,9 @@ func (sl *DirectClean) fallback(fname string) (string, error) {
 	}
 
 	// add all necessary subfolders
+	if sl.NumberOfFallbackTuples > 0 && sl.NumberOfFallbackTuples-1+sl.FallbackTupleSize > len(digestString) {
+		return "", errors.Errorf("digest %s too short for %v tuples of %v chars", sl.FallbackDigestAlgorithm, sl.NumberOfFallbackTuples, sl.FallbackTupleSize)
+	}
 	for i := 0; i < sl.NumberOfFallbackTuples; i++ {
 		// paranoia, but safe
 		result = filepath.Join(string(([]rune(digestString))[sl.NumberOfFallbackTuples-i-1:sl.NumberOfFallbackTuples-i-1+sl.FallbackTupleSize]), result)
-- 
2.43.0


From 71b1d52676d6f590a8fbc94fa416639caa8a716a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:30 +0000
Subject: [PATCH 29/60] fix: cleaned paths are never empty and contain no dot
 segments

---
 pkg/extension/NNNN-direct-clean-path-layout.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/extension/NNNN-direct-clean-path-layout.go b/pkg/extension/NNNN-direct-clean-path-layout.go
index 4a0f046..7049735 100644
--- a/pkg/extension/NNNN-direct-clean-path-layout.go
+++ b/pkg/extension/NNNN-direct-clean-path-layout.go
@@ -266,6 +266,10 @@ func (sl *DirectClean) build(fname string) (string, error) {
 			if directCleanRulePeriods.MatchString(n) {
 				n = sl.ReplacementString + n[1:]
 			}
+			// no replacement for the periods
+			if n == "." || n == ".." {
+				return sl.fallback(fname)
+			}
 		}
 
 		lenN := len(n)
@@ -279,6 +283,11 @@ func (sl *DirectClean) build(fname string) (string, error) {
 		}
 	}
 
+	// nothing left
+	if len(result) == 0 {
+		return sl.fallback(fname)
+	}
+
 	fname = strings.Join(result, "/")
 
 	if len(fname) > sl.MaxPathnameLen {
-- 
2.43.0


From 141862b2f9b4f73ef04d21e9f615feb5c8d8150a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:33 +0000
Subject: [PATCH 30/60] fix: the folder of an area ends at a path element
 boundary

---
 pkg/extension/NNNN-content-subpath.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/extension/NNNN-content-subpath.go b/pkg/extension/NNNN-content-subpath.go
index 00387bc..e997116 100644
--- a/pkg/extension/NNNN-content-subpath.go
+++ b/pkg/extension/NNNN-content-subpath.go
@@ -189,17 +189,21 @@ func (sl *ContentSubPath) BuildObjectExtractPath(object ocfl.Object, originalPat
 		return "", errors.Errorf("invalid area '%s'", area)
 	}
 	originalPath = strings.TrimLeft(originalPath, "/")
-	if !strings.HasPrefix(originalPath, subpath.Path) {
+	// folder of the area as it is prepended by BuildObjectStatePath
+	folder := strings.TrimLeft(filepath.ToSlash(filepath.Clean(subpath.Path)), "/")
+	if folder == "" || folder == "." {
+		return originalPath, nil
+	}
+	if !strings.HasPrefix(originalPath, folder+"/") {
 		return "", errors.Wrapf(ocfl.ExtensionObjectExtractPathWrongAreaError, "'%s' does not belong to area '%s'", originalPath, area)
 	}
-	originalPath = strings.TrimLeft(strings.TrimPrefix(originalPath, subpath.Path), "/")
-	return originalPath, nil
+	return strings.TrimPrefix(originalPath, folder+"/"), nil
 }
 
 func (sl *ContentSubPath) GetAreaPath(object ocfl.Object, area string) (string, error) {
 	subpath, ok := sl.Paths[area]
 	if !ok {
-		return "", errors.Errorf("invalid area '%s'", sl.area)
+		return "", errors.Errorf("invalid area '%s'", area)
 	}
 	return subpath.Path, nil
 }
-- 
2.43.0


From 2dd7e064e2bb5f58bc384c8a131d38ebb2ab14dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:08 +0000
Subject: [PATCH 31/60] fix: SetExtension of the initial extension sets the
 manager name and not its own

---
 pkg/extension/initial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/extension/initial.go b/pkg/extension/initial.go
index 4bd7c64..638ed5b 100644
--- a/pkg/extension/initial.go
+++ b/pkg/extension/initial.go
@@ -77,7 +77,7 @@ func (sl *Initial) Terminate() error {
 }
 
 func (sl *Initial) SetExtension(ext string) {
-	sl.ExtensionName = ext
+	sl.InitialConfig.Extension = ext
 }
 
 func (sl *Initial) GetExtension() string {
-- 
2.43.0


From 70ed06b7e1b135cac250f4acc9f8ba3e63b1e966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:11 +0000
Subject: [PATCH 32/60] fix: no crash on an unknown extension if there is no
 validation

---
 pkg/ocfl/extensionFactory.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/extensionFactory.go b/pkg/ocfl/extensionFactory.go
index 8ecca6e..a0243f7 100644
--- a/pkg/ocfl/extensionFactory.go
+++ b/pkg/ocfl/extensionFactory.go
@@ -94,7 +94,9 @@ func (f *ExtensionFactory) CreateExtensions(fsys fs.FS, validation Validation) (
 		ext, err := f.Create(sub)
 		if err != nil {
 			//errs = append(errs, errors.Wrapf(err, "cannot create extension %s", file.Name()))
-			validation.addValidationWarning(W000, "extension %s not supported by gocfl %s", file.Name(), version.VERSION)
+			if validation != nil {
+				validation.addValidationWarning(W000, "extension %s not supported by gocfl %s", file.Name(), version.VERSION)
+			}
 		} else {
 			if !ext.IsRegistered() {
 				if validation != nil {
-- 
2.43.0


From b5046b5c3d3d9bd4400320fe640168cae08ab0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:04 +0000
Subject: [PATCH 33/60] fix: StoreInventory closed a nil writer when
 inventory.json could not be created

---
 pkg/ocfl/objectbase.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 9b17255..1acafb2 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -363,7 +363,6 @@ func (object *ObjectBase) StoreInventory(version bool, objectRoot bool) error {
 	if objectRoot {
 		iWriter, err := writefs.Create(object.fsys, iFileName)
 		if err != nil {
-			iWriter.Close()
 			return errors.Wrap(err, "cannot create inventory.json")
 		}
 		if _, err := iWriter.Write(jsonBytes); err != nil {
-- 
2.43.0


From 10d9882037a764d8e51a0e056b3a6eb87652e066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:07 +0000
Subject: [PATCH 34/60] fix: the digest of an inventory sidecar is compared
 regardless of hex case

---
 pkg/ocfl/objectbase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 1acafb2..0090fd1 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -325,7 +325,7 @@ func (object *ObjectBase) LoadInventory(folder string) (Inventory, error) {
 			h.Write(inventoryBytes)
 			sumBytes := h.Sum(nil)
 			inventoryDigestString := fmt.Sprintf("%x", sumBytes)
-			if digestString != inventoryDigestString {
+			if !strings.EqualFold(digestString, inventoryDigestString) {
 				object.addValidationError(E060, "'%s' != '%s'", digestString, inventoryDigestString)
 			}
 		}
-- 
2.43.0


From 65ca35615df4ad862221ca74a0805b19c811e55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:09 +0000
Subject: [PATCH 35/60] fix: a missing inventory sidecar was reported as E060
 instead of E058 on os filesystems

---
 pkg/ocfl/objectbase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 0090fd1..8ea6472 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -302,7 +302,7 @@ func (object *ObjectBase) LoadInventory(folder string) (Inventory, error) {
 	sidecarPath := fmt.Sprintf("%s.%s", filename, digest)
 	sidecarBytes, err := fs.ReadFile(object.fsys, sidecarPath)
 	if err != nil {
-		if errors.Cause(err) == fs.ErrNotExist {
+		if errors.Is(err, fs.ErrNotExist) {
 			object.addValidationError(E058, "sidecar '%v/%s' does not exist", object.fsys, sidecarPath)
 		} else {
 			object.addValidationError(E060, "cannot read sidecar '%v/%s': %v", object.fsys, sidecarPath, err.Error())
-- 
2.43.0


From 0fc03b8f93d8ad2f3d423ac42ed745a9aebb4276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:37 +0000
Subject: [PATCH 36/60] fix: a missing or unreadable inventory.json was loaded
 as an empty inventory on os filesystems

---
 pkg/ocfl/objectbase.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 8ea6472..fe1cb65 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -287,10 +287,10 @@ func (object *ObjectBase) LoadInventory(folder string) (Inventory, error) {
 	filename := filepath.ToSlash(filepath.Join(folder, "inventory.json"))
 	inventoryBytes, err := fs.ReadFile(object.fsys, filename)
 	if err != nil {
-		if errors.Cause(err) == fs.ErrNotExist {
+		if errors.Is(err, fs.ErrNotExist) {
 			return nil, err
 		}
-		return newInventory(object.ctx, object, folder, object.version, object.logger)
+		return nil, errors.Wrapf(err, "cannot read '%v/%s'", object.fsys, filename)
 	}
 	inventory, err := object.loadInventory(inventoryBytes, folder)
 	if err != nil {
@@ -1399,7 +1399,7 @@ func (object *ObjectBase) getVersionInventories() (map[string]Inventory, error)
 	for _, ver := range versionStrings {
 		vi, err := object.LoadInventory(ver)
 		if err != nil {
-			if errors.Cause(err) == fs.ErrNotExist {
+			if errors.Is(err, fs.ErrNotExist) {
 				object.addValidationWarning(W010, "no inventory for version '%s'", ver)
 				continue
 			}
-- 
2.43.0


From d07f3207b56f51329b3e21cea3d337acf99c5110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:43 +0000
Subject: [PATCH 37/60] fix: files whose name only contains a conformance
 declaration were taken for one

---
 pkg/ocfl/helper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index 5ebe2ad..3e26188 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -166,7 +166,7 @@ func GetErrorStacktrace(err error) errors.StackTrace {
 }
 
 func getVersion(ctx context.Context, fsys fs.FS, folder, prefix string) (version OCFLVersion, err error) {
-	rString := fmt.Sprintf("0=%s([0-9]+\\.[0-9]+)", prefix)
+	rString := fmt.Sprintf("^0=%s([0-9]+\\.[0-9]+)$", prefix)
 	r, err := regexp.Compile(rString)
 	if err != nil {
 		return "", errors.Wrapf(err, "cannot compile %s", rString)
-- 
2.43.0


From e07d97c46d60765e28327df4fac0d9335c0c1d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:44 +0000
Subject: [PATCH 38/60] fix: a version declaration with invalid content was
 accepted as valid

---
 pkg/ocfl/helper.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/ocfl/helper.go b/pkg/ocfl/helper.go
index 3e26188..d8449a5 100644
--- a/pkg/ocfl/helper.go
+++ b/pkg/ocfl/helper.go
@@ -204,8 +204,8 @@ func getVersion(ctx context.Context, fsys fs.FS, folder, prefix string) (version
 }
 
 func validVersion(ctx context.Context, fsys fs.FS, version OCFLVersion, folder, prefix string) bool {
-	v, _ := getVersion(ctx, fsys, folder, prefix)
-	return v == version
+	v, err := getVersion(ctx, fsys, folder, prefix)
+	return err == nil && v == version
 }
 
 // Contains reports whether vs is present in s
-- 
2.43.0


From bbda6a484924d5c62a544613a5c0b61645a64f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:48 +0000
Subject: [PATCH 39/60] fix: an inventory sidecar naming another file was
 accepted

---
 pkg/ocfl/objectbase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index fe1cb65..278ee9d 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -279,7 +279,7 @@ func (object *ObjectBase) loadInventory(data []byte, folder string) (Inventory,
 	return inventory, inventory.Finalize(false)
 }
 
-var inventorySideCarFormat = regexp.MustCompile(`^([a-fA-F0-9]+)\s+inventory.json$`)
+var inventorySideCarFormat = regexp.MustCompile(`^([a-fA-F0-9]+)\s+inventory\.json$`)
 
 // loadInventory loads inventory from existing Object
 func (object *ObjectBase) LoadInventory(folder string) (Inventory, error) {
-- 
2.43.0


From 9b1d71e554bda0075fbb0416729ac0a0d4370210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:09 +0000
Subject: [PATCH 40/60] fix: errors on closing a written extension
 configuration or layout file were ignored

---
 pkg/extension/0001-digest-algorithms.go                  | 4 ++--
 pkg/extension/0002-flat-direct-storage-layout.go         | 8 ++++----
 pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go | 8 ++++----
 pkg/extension/0004-hashed-n-tuple-storage-layout.go      | 8 ++++----
 pkg/extension/0006-flat-omit-prefix-storage-layout.go    | 8 ++++----
 pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go | 8 ++++----
 pkg/extension/NNNN-content-subpath.go                    | 4 ++--
 pkg/extension/NNNN-direct-clean-path-layout.go           | 8 ++++----
 pkg/extension/NNNN-filesystem.go                         | 4 ++--
 pkg/extension/NNNN-gocfl-extension-manager.go            | 9 ++++++---
 pkg/extension/NNNN-indexer.go                            | 4 ++--
 pkg/extension/NNNN-metafile.go                           | 4 ++--
 pkg/extension/NNNN-mets.go                               | 4 ++--
 pkg/extension/NNNN-pairtree-storage-layout.go            | 8 ++++----
 pkg/extension/NNNN-thumbnail.go                          | 4 ++--
 pkg/extension/initial.go                                 | 4 ++--
 pkg/extension/pathdirect.go                              | 8 ++++----
 17 files changed, 54 insertions(+), 51 deletions(-)

diff --git a/pkg/extension/0001-digest-algorithms.go b/pkg/extension/0001-digest-algorithms.go
index 5fbcd1b..c96b822 100644
--- a/pkg/extension/0001-digest-algorithms.go
+++ b/pkg/extension/0001-digest-algorithms.go
@@ -96,13 +96,13 @@ func (sl *DigestAlgorithms) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
-	return nil
+	return errors.Wrap(configWriter.Close(), "cannot close config.json")
 }
 
 // check interface satisfaction
diff --git a/pkg/extension/0002-flat-direct-storage-layout.go b/pkg/extension/0002-flat-direct-storage-layout.go
index bd6b470..ff32bea 100644
--- a/pkg/extension/0002-flat-direct-storage-layout.go
+++ b/pkg/extension/0002-flat-direct-storage-layout.go
@@ -83,13 +83,13 @@ func (sl *StorageLayoutFlatDirect) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.ExtensionConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
-	return nil
+	return errors.Wrap(configWriter.Close(), "cannot close config.json")
 }
 
 func (sl *StorageLayoutFlatDirect) WriteLayout(fsys fs.FS) error {
@@ -97,7 +97,6 @@ func (sl *StorageLayoutFlatDirect) WriteLayout(fsys fs.FS) error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open ocfl_layout.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(struct {
@@ -107,9 +106,10 @@ func (sl *StorageLayoutFlatDirect) WriteLayout(fsys fs.FS) error {
 		Extension:   StorageLayoutFlatDirectName,
 		Description: StorageLayoutFlatDirectDescription,
 	}); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
-	return nil
+	return errors.Wrap(configWriter.Close(), "cannot close ocfl_layout.json")
 }
 
 func (sl *StorageLayoutFlatDirect) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
diff --git a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
index ab19d5a..b362fa8 100644
--- a/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
+++ b/pkg/extension/0003-hash-and-id-n-tuple-storage-layout.go
@@ -105,13 +105,13 @@ func (sl *StorageLayoutHashAndIdNTuple) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.StorageLayoutHashAndIdNTupleConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
-	return nil
+	return errors.Wrap(configWriter.Close(), "cannot close config.json")
 }
 
 func shouldEscape(c rune) bool {
@@ -163,7 +163,6 @@ func (sl *StorageLayoutHashAndIdNTuple) WriteLayout(fsys fs.FS) error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open ocfl_layout.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(struct {
@@ -173,9 +172,10 @@ func (sl *StorageLayoutHashAndIdNTuple) WriteLayout(fsys fs.FS) error {
 		Extension:   StorageLayoutHashAndIdNTupleName,
 		Description: StorageLayoutHashAndIdNTupleDescription,
 	}); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
-	return nil
+	return errors.Wrap(configWriter.Close(), "cannot close ocfl_layout.json")
 }
 
 // check interface satisfaction
diff --git a/pkg/extension/0004-hashed-n-tuple-storage-layout.go b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
index 9503d15..c9562ed 100644
--- a/pkg/extension/0004-hashed-n-tuple-storage-layout.go
+++ b/pkg/extension/0004-hashed-n-tuple-storage-layout.go
@@ -104,13 +104,13 @@ func (sl *StorageLayoutHashedNTuple) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.StorageLayoutHashedNTupleConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
-	return nil
+	return errors.Wrap(configWriter.Close(), "cannot close config.json")
 }
 
 func (sl *StorageLayoutHashedNTuple) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
@@ -140,7 +140,6 @@ func (sl *StorageLayoutHashedNTuple) WriteLayout(fsys fs.FS) error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open ocfl_layout.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(struct {
@@ -150,9 +149,10 @@ func (sl *StorageLayoutHashedNTuple) WriteLayout(fsys fs.FS) error {
 		Extension:   StorageLayoutHashedNTupleName,
 		Description: StorageLayoutHashedNTupleDescription,
 	}); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
-	return nil
+	return errors.Wrap(configWriter.Close(), "cannot close ocfl_layout.json")
 }
 
 // check interface satisfaction
diff --git a/pkg/extension/0006-flat-omit-prefix-storage-layout.go b/pkg/extension/0006-flat-omit-prefix-storage-layout.go
index 42e3842..03d371f 100644
--- a/pkg/extension/0006-flat-omit-prefix-storage-layout.go
+++ b/pkg/extension/0006-flat-omit-prefix-storage-layout.go
@@ -85,13 +85,13 @@ func (sl *FlatOmitPrefixStorageLayout) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.FlatOmitPrefixStorageLayoutConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
-	return nil
+	return errors.Wrap(configWriter.Close(), "cannot close config.json")
 }
 
 func (sl *FlatOmitPrefixStorageLayout) WriteLayout(fsys fs.FS) error {
@@ -99,7 +99,6 @@ func (sl *FlatOmitPrefixStorageLayout) WriteLayout(fsys fs.FS) error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open ocfl_layout.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(struct {
@@ -109,9 +108,10 @@ func (sl *FlatOmitPrefixStorageLayout) WriteLayout(fsys fs.FS) error {
 		Extension:   FlatOmitPrefixStorageLayoutName,
 		Description: FlatOmitPrefixStorageLayoutDescription,
 	}); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
-	return nil
+	return errors.Wrap(configWriter.Close(), "cannot close ocfl_layout.json")
 }
 
 func (sl *FlatOmitPrefixStorageLayout) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
diff --git a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
index 6f6883c..8f9c04f 100644
--- a/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
+++ b/pkg/extension/0007-n-tuple-omit-prefix-storage-layout.go
@@ -108,13 +108,13 @@ func (sl *NTupleOmitPrefixStorageLayout) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.NTupleOmitPrefixStorageLayoutConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
-	return nil
+	return errors.Wrap(configWriter.Close(), "cannot close config.json")
 }
 
 func (sl *NTupleOmitPrefixStorageLayout) WriteLayout(fsys fs.FS) error {
@@ -122,7 +122,6 @@ func (sl *NTupleOmitPrefixStorageLayout) WriteLayout(fsys fs.FS) error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open ocfl_layout.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(struct {
@@ -132,9 +131,10 @@ func (sl *NTupleOmitPrefixStorageLayout) WriteLayout(fsys fs.FS) error {
 		Extension:   NTupleOmitPrefixStorageLayoutName,
 		Description: NTupleOmitPrefixStorageLayoutDescription,
 	}); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
-	return nil
+	return errors.Wrap(configWriter.Close(), "cannot close ocfl_layout.json")
 }
 
 func (sl *NTupleOmitPrefixStorageLayout) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
diff --git a/pkg/extension/NNNN-content-subpath.go b/pkg/extension/NNNN-content-subpath.go
index e997116..76fa805 100644
--- a/pkg/extension/NNNN-content-subpath.go
+++ b/pkg/extension/NNNN-content-subpath.go
@@ -113,14 +113,14 @@ func (sl *ContentSubPath) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.ContentSubPathConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
 
-	return nil
+	return errors.Wrap(configWriter.Close(), "cannot close config.json")
 }
 
 func (sl *ContentSubPath) BuildObjectManifestPath(object ocfl.Object, originalPath string, area string) (string, error) {
diff --git a/pkg/extension/NNNN-direct-clean-path-layout.go b/pkg/extension/NNNN-direct-clean-path-layout.go
index 7049735..e1070ac 100644
--- a/pkg/extension/NNNN-direct-clean-path-layout.go
+++ b/pkg/extension/NNNN-direct-clean-path-layout.go
@@ -162,13 +162,13 @@ func (sl *DirectClean) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.DirectCleanConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
-	return nil
+	return errors.Wrap(configWriter.Close(), "cannot close config.json")
 }
 
 func (sl *DirectClean) WriteLayout(fsys fs.FS) error {
@@ -176,7 +176,6 @@ func (sl *DirectClean) WriteLayout(fsys fs.FS) error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open ocfl_layout.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(struct {
@@ -186,9 +185,10 @@ func (sl *DirectClean) WriteLayout(fsys fs.FS) error {
 		Extension:   DirectCleanName,
 		Description: DirectCleanDescription,
 	}); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
-	return nil
+	return errors.Wrap(configWriter.Close(), "cannot close ocfl_layout.json")
 }
 
 // interface
diff --git a/pkg/extension/NNNN-filesystem.go b/pkg/extension/NNNN-filesystem.go
index f1db651..bfd8496 100644
--- a/pkg/extension/NNNN-filesystem.go
+++ b/pkg/extension/NNNN-filesystem.go
@@ -335,13 +335,13 @@ func (extFS *Filesystem) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(extFS.FilesystemConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
-	return nil
+	return errors.Wrap(configWriter.Close(), "cannot close config.json")
 
 }
 
diff --git a/pkg/extension/NNNN-gocfl-extension-manager.go b/pkg/extension/NNNN-gocfl-extension-manager.go
index fddb639..26fac04 100644
--- a/pkg/extension/NNNN-gocfl-extension-manager.go
+++ b/pkg/extension/NNNN-gocfl-extension-manager.go
@@ -299,12 +299,15 @@ func (manager *GOCFLExtensionManager) WriteConfig() error {
 		if err != nil {
 			return errors.Wrap(err, "cannot open config.json")
 		}
-		defer configWriter.Close()
 		jenc := json.NewEncoder(configWriter)
 		jenc.SetIndent("", "   ")
 		if err := jenc.Encode(manager.ExtensionManagerConfig); err != nil {
+			configWriter.Close()
 			return errors.Wrapf(err, "cannot encode config to file")
 		}
+		if err := configWriter.Close(); err != nil {
+			return errors.Wrap(err, "cannot close config.json")
+		}
 	}
 	return nil
 }
@@ -343,7 +346,6 @@ func (manager *GOCFLExtensionManager) WriteLayout(fsys fs.FS) error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open ocfl_layout.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(struct {
@@ -353,9 +355,10 @@ func (manager *GOCFLExtensionManager) WriteLayout(fsys fs.FS) error {
 		Extension:   GOCFLExtensionManagerName,
 		Description: GOCFLExtensionManagerDescription,
 	}); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
-	return nil
+	return errors.Wrap(configWriter.Close(), "cannot close ocfl_layout.json")
 }
 
 func (manager *GOCFLExtensionManager) SetParams(params map[string]string) error {
diff --git a/pkg/extension/NNNN-indexer.go b/pkg/extension/NNNN-indexer.go
index 856f2c6..b8b84aa 100644
--- a/pkg/extension/NNNN-indexer.go
+++ b/pkg/extension/NNNN-indexer.go
@@ -210,13 +210,13 @@ func (sl *Indexer) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.IndexerConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
-	return nil
+	return errors.Wrap(configWriter.Close(), "cannot close config.json")
 }
 
 func (sl *Indexer) UpdateObjectBefore(object ocfl.Object) error {
diff --git a/pkg/extension/NNNN-metafile.go b/pkg/extension/NNNN-metafile.go
index 32629f0..73dd221 100644
--- a/pkg/extension/NNNN-metafile.go
+++ b/pkg/extension/NNNN-metafile.go
@@ -162,14 +162,14 @@ func (sl *MetaFile) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.MetaFileConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
 
-	return nil
+	return errors.Wrap(configWriter.Close(), "cannot close config.json")
 }
 
 func toStringKeys(val interface{}) (interface{}, error) {
diff --git a/pkg/extension/NNNN-mets.go b/pkg/extension/NNNN-mets.go
index a98494b..0139a5c 100644
--- a/pkg/extension/NNNN-mets.go
+++ b/pkg/extension/NNNN-mets.go
@@ -159,14 +159,14 @@ func (me *Mets) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot create config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(me.MetsConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
 
-	return nil
+	return errors.Wrap(configWriter.Close(), "cannot close config.json")
 }
 
 func (me *Mets) UpdateObjectBefore(object ocfl.Object) error {
diff --git a/pkg/extension/NNNN-pairtree-storage-layout.go b/pkg/extension/NNNN-pairtree-storage-layout.go
index a9f6018..c9e8274 100644
--- a/pkg/extension/NNNN-pairtree-storage-layout.go
+++ b/pkg/extension/NNNN-pairtree-storage-layout.go
@@ -55,7 +55,6 @@ func (sl *StorageLayoutPairTree) WriteLayout(fsys fs.FS) error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open ocfl_layout.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(struct {
@@ -65,9 +64,10 @@ func (sl *StorageLayoutPairTree) WriteLayout(fsys fs.FS) error {
 		Extension:   StorageLayoutPairTreeName,
 		Description: "pair-tree storage layout",
 	}); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
-	return nil
+	return errors.Wrap(configWriter.Close(), "cannot close ocfl_layout.json")
 }
 
 func (sl *StorageLayoutPairTree) SetFS(fsys fs.FS, create bool) {
@@ -131,13 +131,13 @@ func (sl *StorageLayoutPairTree) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.StorageLayoutPairTreeConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
-	return nil
+	return errors.Wrap(configWriter.Close(), "cannot close config.json")
 }
 
 func (sl *StorageLayoutPairTree) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
diff --git a/pkg/extension/NNNN-thumbnail.go b/pkg/extension/NNNN-thumbnail.go
index b86a0c0..9986e67 100644
--- a/pkg/extension/NNNN-thumbnail.go
+++ b/pkg/extension/NNNN-thumbnail.go
@@ -168,13 +168,13 @@ func (thumb *Thumbnail) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(thumb.ThumbnailConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
-	return nil
+	return errors.Wrap(configWriter.Close(), "cannot close config.json")
 }
 
 func (thumb *Thumbnail) storeThumbnail(object ocfl.Object, head string, mFile io.ReadCloser) (target string, digest string, err error) {
diff --git a/pkg/extension/initial.go b/pkg/extension/initial.go
index 638ed5b..33eed19 100644
--- a/pkg/extension/initial.go
+++ b/pkg/extension/initial.go
@@ -118,14 +118,14 @@ func (sl *Initial) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.InitialConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
 
-	return nil
+	return errors.Wrap(configWriter.Close(), "cannot close config.json")
 }
 
 // check interface satisfaction
diff --git a/pkg/extension/pathdirect.go b/pkg/extension/pathdirect.go
index 6890580..d3a6eeb 100644
--- a/pkg/extension/pathdirect.go
+++ b/pkg/extension/pathdirect.go
@@ -77,7 +77,6 @@ func (sl *PathDirect) WriteLayout(fsys fs.FS) error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open ocfl_layout.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(struct {
@@ -87,9 +86,10 @@ func (sl *PathDirect) WriteLayout(fsys fs.FS) error {
 		Extension:   PathDirectName,
 		Description: StorageLayoutFlatDirectDescription,
 	}); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
-	return nil
+	return errors.Wrap(configWriter.Close(), "cannot close ocfl_layout.json")
 }
 
 func (sl *PathDirect) WriteConfig() error {
@@ -100,13 +100,13 @@ func (sl *PathDirect) WriteConfig() error {
 	if err != nil {
 		return errors.Wrap(err, "cannot open config.json")
 	}
-	defer configWriter.Close()
 	jenc := json.NewEncoder(configWriter)
 	jenc.SetIndent("", "   ")
 	if err := jenc.Encode(sl.PathDirectConfig); err != nil {
+		configWriter.Close()
 		return errors.Wrapf(err, "cannot encode config to file")
 	}
-	return nil
+	return errors.Wrap(configWriter.Close(), "cannot close config.json")
 }
 
 func (sl *PathDirect) BuildStorageRootPath(storageRoot ocfl.StorageRoot, id string) (string, error) {
-- 
2.43.0


From 01847c82cd706323c28d9871339fa0c8c31668fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:12 +0000
Subject: [PATCH 41/60] fix: an extension manager without sort order and
 exclusions was not written, so the storage root or object could not be loaded
 again

---
 pkg/extension/NNNN-gocfl-extension-manager.go | 26 +++++++++----------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/pkg/extension/NNNN-gocfl-extension-manager.go b/pkg/extension/NNNN-gocfl-extension-manager.go
index 26fac04..3276b84 100644
--- a/pkg/extension/NNNN-gocfl-extension-manager.go
+++ b/pkg/extension/NNNN-gocfl-extension-manager.go
@@ -294,20 +294,18 @@ func (manager *GOCFLExtensionManager) WriteConfig() error {
 		}
 	}
 
-	if len(manager.Exclusion) != 0 || len(manager.Sort) != 0 {
-		configWriter, err := writefs.Create(manager.fsys, "config.json")
-		if err != nil {
-			return errors.Wrap(err, "cannot open config.json")
-		}
-		jenc := json.NewEncoder(configWriter)
-		jenc.SetIndent("", "   ")
-		if err := jenc.Encode(manager.ExtensionManagerConfig); err != nil {
-			configWriter.Close()
-			return errors.Wrapf(err, "cannot encode config to file")
-		}
-		if err := configWriter.Close(); err != nil {
-			return errors.Wrap(err, "cannot close config.json")
-		}
+	configWriter, err := writefs.Create(manager.fsys, "config.json")
+	if err != nil {
+		return errors.Wrap(err, "cannot open config.json")
+	}
+	jenc := json.NewEncoder(configWriter)
+	jenc.SetIndent("", "   ")
+	if err := jenc.Encode(manager.ExtensionManagerConfig); err != nil {
+		configWriter.Close()
+		return errors.Wrapf(err, "cannot encode config to file")
+	}
+	if err := configWriter.Close(); err != nil {
+		return errors.Wrap(err, "cannot close config.json")
 	}
 	return nil
 }
-- 
2.43.0


From 6b8c35d93c2568ed6a8b50e5b61258bfdba2db73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:15 +0000
Subject: [PATCH 42/60] fix: a storage root was created without its extension
 configurations if their folder could not be created

---
 pkg/ocfl/storagerootbase.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 988c00e..a87e3b8 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -130,11 +130,12 @@ func (osr *StorageRootBase) Init(version OCFLVersion, digest checksum.DigestAlgo
 	}
 
 	subfs, err := writefs.SubFSCreate(osr.fsys, "extensions")
-	if err == nil {
-		osr.extensionManager.SetFS(subfs, true)
-		if err := osr.extensionManager.WriteConfig(); err != nil {
-			return errors.Wrap(err, "cannot store extension configs")
-		}
+	if err != nil {
+		return errors.Wrapf(err, "cannot create subfs of %v for folder '%s'", osr.fsys, "extensions")
+	}
+	osr.extensionManager.SetFS(subfs, true)
+	if err := osr.extensionManager.WriteConfig(); err != nil {
+		return errors.Wrap(err, "cannot store extension configs")
 	}
 	if err := osr.extensionManager.StoreRootLayout(osr.fsys); err != nil {
 		return errors.Wrap(err, "cannot store ocfl layout")
-- 
2.43.0


From 61f42503b2fb4b39df1e9efa4041675b9957618f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:19 +0000
Subject: [PATCH 43/60] fix: an object was created in an arbitrary folder if
 its id could not be mapped

---
 pkg/ocfl/storagerootbase.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index a87e3b8..cf88f13 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -391,6 +391,9 @@ func (osr *StorageRootBase) LoadObjectByID(id string) (object Object, err error)
 
 func (osr *StorageRootBase) CreateObject(id string, version OCFLVersion, digest checksum.DigestAlgorithm, fixity []checksum.DigestAlgorithm, manager ExtensionManager) (Object, error) {
 	folder, err := osr.extensionManager.BuildStorageRootPath(osr, id)
+	if err != nil {
+		return nil, errors.Wrapf(err, "cannot create folder from id '%s'", id)
+	}
 	subfs, err := writefs.SubFSCreate(osr.fsys, folder)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot create sub fs of %v for '%s'", osr.fsys, folder)
-- 
2.43.0


From af172ec4b73622f7edf2bb6b139d6174228e2e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:23 +0000
Subject: [PATCH 44/60] fix: ObjectExists failed for a missing object on file
 systems which wrap their errors

---
 pkg/ocfl/storagerootbase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index cf88f13..4e80d10 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -272,7 +272,7 @@ func (osr *StorageRootBase) ObjectExists(id string) (bool, error) {
 	}
 	dirs, err := fs.ReadDir(subFS, "")
 	if err != nil {
-		if err == fs.ErrNotExist {
+		if errors.Is(err, fs.ErrNotExist) {
 			return false, nil
 		}
 		return false, errors.Wrapf(err, "cannot read content of %s", folder)
-- 
2.43.0


From 9de2df75e77242dbb3eba669df7bb930ab40ce2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:28 +0000
Subject: [PATCH 45/60] fix: an object could not be created in a missing folder
 on file systems which wrap their errors

---
 pkg/ocfl/objectbase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 278ee9d..e32ba55 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -440,7 +440,7 @@ func (object *ObjectBase) Init(id string, digest checksum.DigestAlgorithm, fixit
 		return fmt.Errorf("cannot create object '%s'. '%v/%s' already exists", id, object.fsys, objectConformanceDeclarationFile)
 	}
 	cnt, err := fs.ReadDir(object.fsys, ".")
-	if err != nil && err != fs.ErrNotExist {
+	if err != nil && !errors.Is(err, fs.ErrNotExist) {
 		return errors.Wrapf(err, "cannot read '%v/%s'", object.fsys, ".")
 	}
 	if len(cnt) > 0 {
-- 
2.43.0


From 7b2759f99436dbc6ab80f1026d9dc4cf054ba629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:32 +0000
Subject: [PATCH 46/60] fix: an error on creating the inventory of a new object
 was ignored

---
 pkg/ocfl/objectbase.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index e32ba55..35b6732 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -477,6 +477,9 @@ func (object *ObjectBase) Init(id string, digest checksum.DigestAlgorithm, fixit
 	}
 
 	object.i, err = object.CreateInventory(id, digest, fixity)
+	if err != nil {
+		return errors.Wrapf(err, "cannot create inventory of object '%s'", id)
+	}
 	return nil
 }
 
-- 
2.43.0


From c9fef0cc13f96f867e75fed5e19492646dfde52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:56 +0000
Subject: [PATCH 47/60] fix: an error on closing a content file was ignored

---
 pkg/ocfl/objectbase.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 35b6732..5768259 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -661,7 +661,12 @@ func (object *ObjectBase) addReader(r io.ReadCloser, versionFS fs.FS, names *Nam
 	if err != nil {
 		return "", errors.Wrapf(err, "cannot create '%s'", names.ManifestPath)
 	}
-	defer writer.Close()
+	closed := false
+	defer func() {
+		if !closed {
+			writer.Close()
+		}
+	}()
 
 	var checksums map[checksum.DigestAlgorithm]string
 	if noExtensionHook {
@@ -696,6 +701,11 @@ func (object *ObjectBase) addReader(r io.ReadCloser, versionFS fs.FS, names *Nam
 		}
 	}
 
+	closed = true
+	if err := writer.Close(); err != nil {
+		return "", errors.Wrapf(err, "cannot close '%s'", names.ManifestPath)
+	}
+
 	if digest == "" {
 		var ok bool
 		digest, ok = checksums[object.i.GetDigestAlgorithm()]
-- 
2.43.0


From f2cb7056005a2ec0abb7d3c629de1558c2892b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:59 +0000
Subject: [PATCH 48/60] fix: unreadable source folders were skipped without an
 error, a missing one crashed

---
 pkg/ocfl/objectbase.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 5768259..0473ac3 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -633,6 +633,9 @@ func (object *ObjectBase) EndArea() error {
 func (object *ObjectBase) AddFolder(fsys fs.FS, versionFS fs.FS, checkDuplicate bool, area string) error {
 	object.logger.Debug().Msgf("walking '%v'", fsys)
 	if err := fs.WalkDir(fsys, ".", func(path string, info fs.DirEntry, err error) error {
+		if err != nil {
+			return errors.Wrapf(err, "cannot read '%v/%s'", fsys, path)
+		}
 		path = filepath.ToSlash(path)
 		if err := object.AddFile(fsys, versionFS, path, checkDuplicate, area, false, info.IsDir()); err != nil {
 			return errors.Wrapf(err, "cannot add file '%s'", path)
-- 
2.43.0


From 54551ddad74c15c0c883f44003de88dfca7c6d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:03 +0000
Subject: [PATCH 49/60] fix: AddReader crashed if the names could not be mapped

---
 pkg/ocfl/objectbase.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 0473ac3..8d548ce 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -757,6 +757,9 @@ func (object *ObjectBase) AddReader(r io.ReadCloser, files []string, area string
 	}
 	path := files[0]
 	names, err := object.BuildNames(files, area)
+	if err != nil {
+		return "", errors.Wrapf(err, "cannot create virtual filenames for '%v'", files)
+	}
 
 	object.logger.Info().Msgf("adding file %s:%v", area, files)
 
-- 
2.43.0


From 09bd30c2f56617b300bc11d8b3eeddab4effb55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:25 +0000
Subject: [PATCH 50/60] fix: an echo update deleted the files of areas whose
 folder name starts with that of the default area

---
 pkg/ocfl/objectbase.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 8d548ce..927518a 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -518,6 +518,9 @@ func (object *ObjectBase) echoDelete() error {
 	if basePath == "." {
 		basePath = ""
 	}
+	if basePath != "" {
+		basePath = strings.TrimRight(basePath, "/") + "/"
+	}
 	if err := object.i.echoDelete(object.updateFiles, basePath); err != nil {
 		return errors.Wrap(err, "cannot remove deleted files from inventory")
 	}
-- 
2.43.0


From a8254195cdf82934f8dec84ebf9f513fd69a2e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:02 +0000
Subject: [PATCH 51/60] fix: extraction skipped files whose content also
 belongs to a path of another area

---
 pkg/ocfl/objectbase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 927518a..b9c90cf 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1460,7 +1460,7 @@ func (object *ObjectBase) Extract(fsys fs.FS, version string, withManifest bool,
 			if err != nil {
 				errCause := errors.Cause(err)
 				if errors.Is(errCause, ExtensionObjectExtractPathWrongAreaError) {
-					return nil
+					continue
 				}
 				return errors.Wrapf(err, "cannot map path '%s'", external)
 			}
-- 
2.43.0


From cf6fa719b58fb145eadfe029db87547df6e0ce53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:05 +0000
Subject: [PATCH 52/60] fix: extraction rejected intact files of inventories
 with upper case digests

---
 pkg/ocfl/objectbase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index b9c90cf..2d371cd 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1488,7 +1488,7 @@ func (object *ObjectBase) Extract(fsys fs.FS, version string, withManifest bool,
 				if !ok {
 					return errors.Errorf("no digest '%s' generatied", digestAlg)
 				}
-				if copyDigest != digest {
+				if !strings.EqualFold(copyDigest, digest) {
 					return errors.Errorf("invalid digest for '%s' - [%s] != [%s]", internal, copyDigests, digest)
 				}
 				return nil
-- 
2.43.0


From e092f4a2b4402d08eef0a0050a810de25838a6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:09 +0000
Subject: [PATCH 53/60] fix: close errors of extracted files and of the
 extraction manifest were ignored

---
 pkg/ocfl/objectbase.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 2d371cd..4c294d7 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1478,12 +1478,15 @@ func (object *ObjectBase) Extract(fsys fs.FS, version string, withManifest bool,
 				if err != nil {
 					return errors.Wrapf(err, "cannot create '%v/%s'", fsys, external)
 				}
-				defer target.Close()
 				object.logger.Debug().Msgf("writing '%v/%s' -> '%v/%s'", object.fsys, internal, fsys, external)
 				copyDigests, err := checksum.Copy([]checksum.DigestAlgorithm{digestAlg}, src, target)
 				if err != nil {
+					target.Close()
 					return errors.Wrapf(err, "error copying '%v/%s' -> '%v/%s'", object.fsys, internal, fsys, external)
 				}
+				if err := target.Close(); err != nil {
+					return errors.Wrapf(err, "cannot close '%v/%s'", fsys, external)
+				}
 				copyDigest, ok := copyDigests[digestAlg]
 				if !ok {
 					return errors.Errorf("no digest '%s' generatied", digestAlg)
@@ -1510,9 +1513,12 @@ func (object *ObjectBase) Extract(fsys fs.FS, version string, withManifest bool,
 			return errors.Wrapf(err, "cannot crate manifest file %v/%s", fsys, manifestName)
 		}
 		if _, err := io.WriteString(fp, manifest.String()); err != nil {
+			fp.Close()
 			return errors.Wrapf(err, "cannot write manifest file %v/%s", fsys, manifestName)
 		}
-		defer fp.Close()
+		if err := fp.Close(); err != nil {
+			return errors.Wrapf(err, "cannot close manifest file %v/%s", fsys, manifestName)
+		}
 	}
 	object.logger.Debug().Msgf("object '%s' extracted", object.GetID())
 	return nil
-- 
2.43.0


From 21df7a890b6aec62ce20f7203efe83ab5e7cf218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:12 +0000
Subject: [PATCH 54/60] fix: extraction of all objects ignored the selected
 area

---
 pkg/ocfl/storagerootbase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ocfl/storagerootbase.go b/pkg/ocfl/storagerootbase.go
index 4e80d10..f42e14b 100644
--- a/pkg/ocfl/storagerootbase.go
+++ b/pkg/ocfl/storagerootbase.go
@@ -673,7 +673,7 @@ func (osr *StorageRootBase) Extract(fsys fs.FS, path, id, version string, withMa
 			if err != nil {
 				return errors.Wrapf(err, "cannot create subfolder '%s' of '%v'", oFolder, fsys)
 			}
-			if err := o.Extract(subFS, version, withManifest, ""); err != nil {
+			if err := o.Extract(subFS, version, withManifest, area); err != nil {
 				return errors.Wrapf(err, "cannot extract object in folder '%s'", oFolder)
 			}
 		}
-- 
2.43.0


From 81c091cd4413364082c269e601e4354facba934f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:02 +0000
Subject: [PATCH 55/60] fix: validation of an object crashed on a missing
 version folder or a missing inventory of the first version

---
 pkg/ocfl/objectbase.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 4c294d7..d86d6eb 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1084,6 +1084,10 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 			ver,
 			func(path string, d fs.DirEntry, err error) error {
 				path = filepath.ToSlash(path)
+				if d == nil {
+					// missing version folder, see E010
+					return nil
+				}
 				if d.IsDir() {
 					if !strings.HasPrefix(path, versionContent) && path != ver && !strings.HasPrefix(ver+"/"+object.i.GetContentDir(), path) {
 						object.addValidationWarning(W002, "extra dir '%s' in version '%s'", path, ver)
@@ -1107,7 +1111,7 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 		if len(objectContentFiles[ver]) == 0 {
 			fi, err := fs.Stat(object.fsys, versionContent)
 			if err != nil {
-				if errors.Cause(err) != fs.ErrNotExist {
+				if !errors.Is(err, fs.ErrNotExist) {
 					return errors.Wrapf(err, "cannot stat '%s'", versionContent)
 				}
 			} else {
@@ -1133,7 +1137,11 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 
 	contentDir := ""
 	if len(versionStrings) > 0 {
-		contentDir = versionInventories[versionStrings[0]].GetRealContentDir()
+		if inv := versionInventories[versionStrings[0]]; inv != nil {
+			contentDir = inv.GetRealContentDir()
+		} else {
+			contentDir = object.i.GetRealContentDir()
+		}
 	}
 	for _, ver := range versionStrings {
 		inv := versionInventories[ver]
@@ -1364,6 +1372,13 @@ func (object *ObjectBase) createContentManifest() (map[checksum.DigestAlgorithm]
 			version,
 			func(path string, d fs.DirEntry, err error) error {
 				//object.logger.Debug(path)
+				if d == nil {
+					if errors.Is(err, fs.ErrNotExist) {
+						// missing version folder, see E010
+						return nil
+					}
+					return errors.Wrapf(err, "cannot read '%v/%s'", object.fsys, path)
+				}
 				if d.IsDir() {
 					return nil
 				}
-- 
2.43.0


From 9ff51d5a6a93ca9d008946209ed5e70e28fd7eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:07 +0000
Subject: [PATCH 56/60] fix: validation failed if the fixity algorithm is in
 the root inventory only

---
 pkg/ocfl/objectbase.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index d86d6eb..5d9c1f3 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1454,6 +1454,9 @@ func (object *ObjectBase) getAllDigests() ([]checksum.DigestAlgorithm, error) {
 		return nil, errors.Wrap(err, "cannot get version inventories")
 	}
 	allDigestAlgs := []checksum.DigestAlgorithm{object.i.GetDigestAlgorithm()}
+	for digestAlg, _ := range object.i.GetFixity() {
+		allDigestAlgs = append(allDigestAlgs, digestAlg)
+	}
 	for _, vi := range versionInventories {
 		allDigestAlgs = append(allDigestAlgs, vi.GetDigestAlgorithm())
 		for digestAlg, _ := range vi.GetFixity() {
-- 
2.43.0


From a0048152d3929201c42f0b6100b516e63d6f1053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:12 +0000
Subject: [PATCH 57/60] fix: sidecars of other algorithms, declarations in
 version folders and similar names were not reported as stray files

---
 pkg/ocfl/objectbase.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 5d9c1f3..d9c97ad 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -1029,7 +1029,7 @@ func (object *ObjectBase) GetVersion() OCFLVersion {
 	return object.version
 }
 
-var allowedFilesRegexp = regexp.MustCompile("^(inventory.json(\\.sha512|\\.sha384|\\.sha256|\\.sha1|\\.md5)?|0=ocfl_object_[0-9]+\\.[0-9]+)$")
+var allowedFilesRegexp = regexp.MustCompile("^inventory\\.json(\\.[^.]+)?$")
 
 func (object *ObjectBase) checkVersionFolder(version string) error {
 	versionEntries, err := fs.ReadDir(object.fsys, version)
@@ -1146,6 +1146,17 @@ func (object *ObjectBase) checkFilesAndVersions() error {
 	for _, ver := range versionStrings {
 		inv := versionInventories[ver]
 		if inv == nil {
+			// without inventory no file is allowed
+			versionEntries, err := fs.ReadDir(object.fsys, ver)
+			if err != nil {
+				object.addValidationError(E010, "cannot read version folder '%s'", ver)
+				continue
+			}
+			for _, entry := range versionEntries {
+				if !entry.IsDir() {
+					object.addValidationError(E015, "extra file '%s' in version directory '%s'", entry.Name(), ver)
+				}
+			}
 			continue
 		}
 		if contentDir != inv.GetRealContentDir() {
@@ -1308,6 +1319,11 @@ func (object *ObjectBase) Check() error {
 
 	// check for allowed files and directories
 	allowedDirs := append(versions, "logs", "extensions")
+	allowedFiles := []string{
+		"inventory.json",
+		"inventory.json." + string(object.i.GetDigestAlgorithm()),
+		"0=ocfl_object_" + string(object.GetVersion()),
+	}
 	versionCounter := 0
 	entries, err := fs.ReadDir(object.fsys, ".")
 	if err != nil {
@@ -1336,7 +1352,7 @@ func (object *ObjectBase) Check() error {
 				versionCounter++
 			}
 		} else {
-			if !allowedFilesRegexp.MatchString(entry.Name()) {
+			if !slices.Contains(allowedFiles, entry.Name()) {
 				object.addValidationError(E001, "invalid file '%s' found", entry.Name())
 			}
 		}
-- 
2.43.0


From 9975d3fdadf607215186c6d0f43f8db6f65915f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:18 +0000
Subject: [PATCH 58/60] fix: validation crashed on a manifest path without a
 folder

---
 pkg/ocfl/inventorybase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ocfl/inventorybase.go b/pkg/ocfl/inventorybase.go
index 9751344..b1c1953 100644
--- a/pkg/ocfl/inventorybase.go
+++ b/pkg/ocfl/inventorybase.go
@@ -713,7 +713,7 @@ func (i *InventoryBase) GetFiles() map[string][]string {
 			}
 			version := parts[0]
 			//fn := parts[2]
-			if parts[1] != i.GetContentDir() {
+			if len(parts) > 1 && parts[1] != i.GetContentDir() {
 				//i.addValidationError(E015, "extra file/directory '%s' in manifest", parts[1])
 				//i.addValidationError(E019, "invalid content directory '%s' in '%s'", parts[1], filename)
 			}
-- 
2.43.0


From 1a17892f225660df6fdaf26a84dfe0f2324bb96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:29 +0000
Subject: [PATCH 59/60] fix: files with dot segments in their path were written
 outside the content folder of the version

---
 pkg/ocfl/objectbase.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index d9c97ad..3e2b57e 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -745,8 +745,9 @@ func (object *ObjectBase) BuildNames(files []string, area string) (*NamesStruct,
 		return nil, errors.Wrapf(err, "cannot create manifest path for '%s'", files[0])
 	}
 	result.ManifestPath = object.i.BuildManifestName(result.InternalPath)
-	if err != nil {
-		return nil, errors.Wrapf(err, "cannot create virtual filename for '%s'", result.InternalPath)
+	contentFolder := object.i.GetHead() + "/" + object.i.GetContentDir()
+	if result.ManifestPath != contentFolder && !strings.HasPrefix(result.ManifestPath, contentFolder+"/") {
+		return nil, errors.Errorf("content path '%s' of '%s' is not in folder '%s'", result.ManifestPath, files[0], contentFolder)
 	}
 	return result, nil
 }
-- 
2.43.0


From fe487a9c8bbd7824c1a76d88fa9eb410d0dde201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:17 +0000
Subject: [PATCH 60/60] fix: a source file which cannot be rewound crashed the
 update instead of being reported

---
 pkg/ocfl/objectbase.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/ocfl/objectbase.go b/pkg/ocfl/objectbase.go
index 3e2b57e..26f0759 100644
--- a/pkg/ocfl/objectbase.go
+++ b/pkg/ocfl/objectbase.go
@@ -915,7 +915,8 @@ func (object *ObjectBase) AddFile(fsys fs.FS, versionFS fs.FS, path string, chec
 			if seeker, ok := file.(io.Seeker); ok {
 				// if we have a seeker, we just seek
 				if _, err := seeker.Seek(0, 0); err != nil {
-					panic(err)
+					file.Close()
+					return errors.Wrapf(err, "cannot seek in file '%v/%s'", fsys, path)
 				}
 			} else {
 				// otherwise reopen it
-- 
2.43.0

