From f6a39f22544ddafd536cc7b1acc64167187fcf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:40 +0000
Subject: [PATCH 01/15] fix: CompareInt overflows for keys more than MaxInt
 apart

---
 common_api.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/common_api.go b/common_api.go
index 3693788..7b01af3 100644
--- a/common_api.go
+++ b/common_api.go
@@ -28,7 +28,14 @@ func CompareInt(key1 Key, key2 Key) (result int, err error) {
 		return
 	}
 
-	result = key1Int - key2Int
+	if key1Int < key2Int {
+		result = -1
+	} else if key1Int == key2Int {
+		result = 0
+	} else { // key1Int > key2Int
+		result = 1
+	}
+
 	err = nil
 
 	return
-- 
2.43.0


From 7242cba2c5b1494ff4f53be829897f03f01dbc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 02/15] fix: FetchLocation reads the root location without the
 tree's lock

---
 btree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/btree.go b/btree.go
index 89e92d0..1078aad 100644
--- a/btree.go
+++ b/btree.go
@@ -818,6 +818,9 @@ func (tree *btreeTreeStruct) Put(key Key, value Value) (ok bool, err error) {
 }
 
 func (tree *btreeTreeStruct) FetchLocation() (rootObjectNumber uint64, rootObjectOffset uint64, rootObjectLength uint64) {
+	tree.Lock()
+	defer tree.Unlock()
+
 	rootObjectNumber = tree.root.objectNumber
 	rootObjectOffset = tree.root.objectOffset
 	rootObjectLength = tree.root.objectLength
-- 
2.43.0


From 89e75745b66c51e4b8b492b910e5fbdc932b7b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 03/15] fix: Reset clears the map without taking its lock

---
 llrb_tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/llrb_tree.go b/llrb_tree.go
index ab11e50..45ff200 100644
--- a/llrb_tree.go
+++ b/llrb_tree.go
@@ -454,6 +454,9 @@ func (tree *llrbTreeStruct) Put(key Key, value Value) (ok bool, err error) {
 }
 
 func (tree *llrbTreeStruct) Reset() {
+	tree.Lock()
+	defer tree.Unlock()
+
 	tree.root = nil
 }
 
-- 
2.43.0


From d8f74ee82a11c788e6521c856529509074b77bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:53 +0000
Subject: [PATCH 04/15] fix: Dump of a B+Tree reads its node cache without the
 cache's lock

---
 btree_dump.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/btree_dump.go b/btree_dump.go
index 4d28a68..6a752ce 100644
--- a/btree_dump.go
+++ b/btree_dump.go
@@ -10,6 +10,7 @@ func (tree *btreeTreeStruct) Dump() (err error) {
 	defer tree.Unlock()
 
 	if nil != tree.nodeCache {
+		tree.nodeCache.Lock()
 		fmt.Printf("B+Tree @ %p has Node Cache @ %p\n", tree, tree.nodeCache)
 		fmt.Printf("  .evictLowLimit  = %v\n", tree.nodeCache.evictLowLimit)
 		fmt.Printf("  .evictHighLimit = %v\n", tree.nodeCache.evictHighLimit)
@@ -36,6 +37,7 @@ func (tree *btreeTreeStruct) Dump() (err error) {
 		}
 		fmt.Printf("  .dirtyLRUItems  = %v\n", tree.nodeCache.dirtyLRUItems)
 		fmt.Printf("  .drainerActive  = %v\n", tree.nodeCache.drainerActive)
+		tree.nodeCache.Unlock()
 	}
 
 	fmt.Printf("B+Tree @ %p has Root Node @ %p\n", tree, tree.root)
@@ -56,6 +58,7 @@ func (tree *btreeTreeStruct) dumpNode(node *btreeNodeStruct, indent string) (err
 	}
 
 	if nil != tree.nodeCache {
+		tree.nodeCache.Lock()
 		switch node.btreeNodeCacheElement.btreeNodeCacheTag {
 		case noLRU:
 			fmt.Printf("%v  .btreeNodeCacheTag   = noLRU (%v)\n", indent, noLRU)
@@ -79,6 +82,7 @@ func (tree *btreeTreeStruct) dumpNode(node *btreeNodeStruct, indent string) (err
 				fmt.Printf("%v  .prevBTreeNode       = %p\n", indent, node.btreeNodeCacheElement.prevBTreeNode)
 			}
 		}
+		tree.nodeCache.Unlock()
 	}
 
 	fmt.Printf("%v  .objectNumber        = 0x%016x\n", indent, node.objectNumber)
-- 
2.43.0


From 92307d42c49480b5f0e1757b4d98c2d4c6df22dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 05/15] fix: Dump of a B+Tree ignores errors below the root
 node

---
 btree_dump.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/btree_dump.go b/btree_dump.go
index 6a752ce..429f3e6 100644
--- a/btree_dump.go
+++ b/btree_dump.go
@@ -131,7 +131,10 @@ func (tree *btreeTreeStruct) dumpNode(node *btreeNodeStruct, indent string) (err
 	if !node.leaf {
 		if nil != node.nonLeafLeftChild {
 			fmt.Printf("%v  .nonLeafLeftChild    = %p\n", indent, node.nonLeafLeftChild)
-			tree.dumpNode(node.nonLeafLeftChild, "    "+indent)
+			err = tree.dumpNode(node.nonLeafLeftChild, "    "+indent)
+			if nil != err {
+				return
+			}
 		}
 	}
 
@@ -162,7 +165,10 @@ func (tree *btreeTreeStruct) dumpNode(node *btreeNodeStruct, indent string) (err
 		} else {
 			childNode := value.(*btreeNodeStruct)
 			fmt.Printf("%v  .kvLLRB[%v].Value     = %p\n", indent, i, childNode)
-			tree.dumpNode(childNode, "    "+indent)
+			err = tree.dumpNode(childNode, "    "+indent)
+			if nil != err {
+				return
+			}
 		}
 	}
 
-- 
2.43.0


From 0c715a938f8a8f09d1e01d9739e84025bc045e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 06/15] fix: PatchByKey of an absent key marks the tree as
 modified

---
 btree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/btree.go b/btree.go
index 1078aad..fd9e2c9 100644
--- a/btree.go
+++ b/btree.go
@@ -708,8 +708,10 @@ func (tree *btreeTreeStruct) PatchByKey(key Key, value Value) (ok bool, err erro
 		}
 
 		if node.leaf {
-			tree.touchLoadedNodeToRoot(node) // will also mark node dirty/used in LRU
 			ok, err = node.kvLLRB.PatchByKey(key, value)
+			if ok {
+				tree.touchLoadedNodeToRoot(node) // will also mark node dirty/used in LRU
+			}
 			return
 		}
 
-- 
2.43.0


From 66e4ec76c9ec59ceb7b782c4e12091b6e5eb478f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 07/15] fix: FetchLayoutReport leaves out nodes stored in
 object number zero

---
 btree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/btree.go b/btree.go
index fd9e2c9..abe38a3 100644
--- a/btree.go
+++ b/btree.go
@@ -3067,7 +3067,7 @@ func (tree *btreeTreeStruct) updateLayoutReport(layoutReport LayoutReport, node
 		}
 	}
 
-	if 0 != node.objectNumber {
+	if 0 != node.objectLength {
 		prevObjectBytes, ok := layoutReport[node.objectNumber]
 		if !ok {
 			prevObjectBytes = 0
-- 
2.43.0


From d65fd1a0d2277a585bf46990ee97f0749161bcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 08/15] fix: Prune repeats discards that succeeded before
 another one failed

---
 btree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/btree.go b/btree.go
index abe38a3..1dbddee 100644
--- a/btree.go
+++ b/btree.go
@@ -1082,6 +1082,10 @@ func (tree *btreeTreeStruct) pruneWhileLocked() (err error) {
 			if nil != err {
 				return
 			}
+
+			// Do not discard this reference again should a later one fail
+
+			delete(tree.staleOnDiskReferencesList, staleOnDiskReference)
 		}
 
 		tree.staleOnDiskReferencesList = nil
-- 
2.43.0


From 2dfb8956a534b3ed2f936738afb5aed98af88ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 09/15] fix: Put into an empty map accepts a key that Compare
 rejects

---
 btree.go     | 7 +++++--
 llrb_tree.go | 9 +++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/btree.go b/btree.go
index 1dbddee..0b63953 100644
--- a/btree.go
+++ b/btree.go
@@ -777,7 +777,7 @@ func (tree *btreeTreeStruct) Put(key Key, value Value) (ok bool, err error) {
 				ok = false
 			} else {
 				err = tree.insertHere(node, key, value) // will also mark affected nodes dirty/used in LRU
-				ok = true
+				ok = (nil == err)
 				return
 			}
 
@@ -1157,7 +1157,10 @@ func (tree *btreeTreeStruct) insertHere(insertNode *btreeNodeStruct, key Key, va
 		splitValueAsNode    *btreeNodeStruct
 	)
 
-	insertNode.kvLLRB.Put(key, value)
+	_, err = insertNode.kvLLRB.Put(key, value)
+	if nil != err {
+		return
+	}
 
 	if insertNode.leaf {
 		tree.updatePrefixSumTreeLeafToRoot(insertNode) // will also mark affected nodes dirty/used in LRU
diff --git a/llrb_tree.go b/llrb_tree.go
index 45ff200..b516869 100644
--- a/llrb_tree.go
+++ b/llrb_tree.go
@@ -437,6 +437,15 @@ func (tree *llrbTreeStruct) Put(key Key, value Value) (ok bool, err error) {
 	tree.Lock()
 	defer tree.Unlock()
 
+	if nil == tree.root {
+		// With no other key to compare against, have Compare vet key against itself
+
+		_, err = tree.Compare(key, key)
+		if nil != err {
+			return
+		}
+	}
+
 	updatedRoot, ok, err := tree.insert(tree.root, key, value)
 	if nil != err {
 		return
-- 
2.43.0


From a224a4fabcabf18237b636f298f946d150c8b78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 10/15] fix: an inner node image that holds the same key twice
 is accepted

---
 btree.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/btree.go b/btree.go
index 0b63953..d6e00a3 100644
--- a/btree.go
+++ b/btree.go
@@ -2863,7 +2863,15 @@ func (tree *btreeTreeStruct) loadNode(node *btreeNodeStruct) (err error) {
 					kvLLRB:       nil,
 				}
 
-				node.kvLLRB.Put(key, childNode)
+				ok, nonShadowingErr := node.kvLLRB.Put(key, childNode)
+				if nil != nonShadowingErr {
+					err = nonShadowingErr
+					return
+				}
+				if !ok {
+					err = fmt.Errorf("Logic error: loadNode() call to Put() should have worked")
+					return
+				}
 
 				tree.initNodeAsEvicted(childNode)
 			}
-- 
2.43.0


From 45077a3460c530de3a09bb8660a37326195af260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 11/15] fix: a node image that fails to load changes the item
 counts of its tree

---
 btree.go | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/btree.go b/btree.go
index d6e00a3..bb5626a 100644
--- a/btree.go
+++ b/btree.go
@@ -2747,13 +2747,9 @@ func (tree *btreeTreeStruct) loadNode(node *btreeNodeStruct) (err error) {
 		return
 	}
 
-	node.items = onDiskNode.Items
-	node.root = onDiskNode.Root
-	node.leaf = onDiskNode.Leaf
-
 	payload := onDiskNode.Payload
 
-	if node.root {
+	if onDiskNode.Root {
 		bytesConsumed, unpackErr := cstruct.Unpack(payload, &maxKeysPerNodeStruct, OnDiskByteOrder)
 		if nil != unpackErr {
 			err = unpackErr
@@ -2761,12 +2757,9 @@ func (tree *btreeTreeStruct) loadNode(node *btreeNodeStruct) (err error) {
 		}
 
 		payload = payload[bytesConsumed:]
-
-		tree.minKeysPerNode = maxKeysPerNodeStruct.U64 >> 1
-		tree.maxKeysPerNode = maxKeysPerNodeStruct.U64
 	}
 
-	if node.leaf {
+	if onDiskNode.Leaf {
 		bytesConsumed, unpackErr := cstruct.Unpack(payload, &numKeysStruct, OnDiskByteOrder)
 		if nil != unpackErr {
 			err = unpackErr
@@ -2875,8 +2868,6 @@ func (tree *btreeTreeStruct) loadNode(node *btreeNodeStruct) (err error) {
 
 				tree.initNodeAsEvicted(childNode)
 			}
-
-			tree.arrangePrefixSumTree(node)
 		}
 	}
 
@@ -2885,6 +2876,24 @@ func (tree *btreeTreeStruct) loadNode(node *btreeNodeStruct) (err error) {
 		return
 	}
 
+	// Only now that all of nodeByteSlice has proven good is it allowed to affect node and tree
+
+	node.items = onDiskNode.Items
+	node.root = onDiskNode.Root
+	node.leaf = onDiskNode.Leaf
+
+	if node.root {
+		tree.minKeysPerNode = maxKeysPerNodeStruct.U64 >> 1
+		tree.maxKeysPerNode = maxKeysPerNodeStruct.U64
+	}
+
+	if !node.leaf && (nil != node.nonLeafLeftChild) {
+		err = tree.arrangePrefixSumTree(node)
+		if nil != err {
+			return
+		}
+	}
+
 	node.loaded = true
 
 	tree.markNodeClean(node)
-- 
2.43.0


From f075197a2128147314d7632ffaa7b0a7a690a0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 12/15] fix: Delete leaves the tree unbalanced when a sibling
 node fails to load

---
 btree.go | 80 ++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 80 insertions(+)

diff --git a/btree.go b/btree.go
index bb5626a..57648d1 100644
--- a/btree.go
+++ b/btree.go
@@ -376,6 +376,10 @@ func (tree *btreeTreeStruct) DeleteByIndex(index int) (ok bool, err error) {
 		}
 
 		if node.leaf {
+			err = tree.loadSiblingsToRebalance(node, parentIndexStack)
+			if nil != err {
+				return
+			}
 			_, err = node.kvLLRB.DeleteByIndex(int(netIndex))
 			if nil != err {
 				return
@@ -438,6 +442,15 @@ func (tree *btreeTreeStruct) DeleteByKey(key Key) (ok bool, err error) {
 		}
 
 		if node.leaf {
+			_, ok, err = node.kvLLRB.GetByKey(key)
+			if (nil != err) || !ok {
+				return
+			}
+			err = tree.loadSiblingsToRebalance(node, parentIndexStack)
+			if nil != err {
+				ok = false
+				return
+			}
 			ok, err = node.kvLLRB.DeleteByKey(key)
 			if nil != err {
 				return
@@ -1321,6 +1334,73 @@ func (tree *btreeTreeStruct) insertHere(insertNode *btreeNodeStruct, key Key, va
 	return
 }
 
+// loadSiblingsToRebalance is called just before an item is deleted from node (a leaf) to
+// load each sibling that rebalanceHere() will then need. Hence, a failure to load one of
+// them is reported while nothing has been modified yet.
+func (tree *btreeTreeStruct) loadSiblingsToRebalance(node *btreeNodeStruct, parentIndexStack []int) (err error) {
+	var (
+		llrbLen        int
+		parentLLRBLen  int
+		siblingAsValue Value
+		siblingNode    *btreeNodeStruct
+	)
+
+	for !node.root {
+		llrbLen, err = node.kvLLRB.Len()
+		if nil != err {
+			return
+		}
+		if uint64(llrbLen) > tree.minKeysPerNode {
+			return
+		}
+
+		parentNode := node.parentNode
+		parentNodeIndex := parentIndexStack[len(parentIndexStack)-1]
+		parentIndexStack = parentIndexStack[:len(parentIndexStack)-1]
+
+		parentLLRBLen, err = parentNode.kvLLRB.Len()
+		if nil != err {
+			return
+		}
+
+		for _, siblingIndex := range []int{parentNodeIndex - 1, parentNodeIndex + 1} {
+			if (-1 > siblingIndex) || (parentLLRBLen <= siblingIndex) {
+				continue // no sibling on this side
+			}
+
+			if -1 == siblingIndex {
+				siblingNode = parentNode.nonLeafLeftChild
+			} else {
+				_, siblingAsValue, _, err = parentNode.kvLLRB.GetByIndex(siblingIndex)
+				if nil != err {
+					return
+				}
+				siblingNode = siblingAsValue.(*btreeNodeStruct)
+			}
+
+			if !siblingNode.loaded {
+				tree.incCacheMisses()
+				err = tree.loadNode(siblingNode) // will also mark siblingNode clean/used in LRU
+				if nil != err {
+					return
+				}
+			}
+
+			llrbLen, err = siblingNode.kvLLRB.Len()
+			if nil != err {
+				return
+			}
+			if uint64(llrbLen) > tree.minKeysPerNode {
+				return // siblingNode can give up a key
+			}
+		}
+
+		node = parentNode // may need rebalancing itself once node has been merged
+	}
+
+	return
+}
+
 func (tree *btreeTreeStruct) rebalanceHere(rebalanceNode *btreeNodeStruct, parentIndexStack []int) (err error) {
 	var (
 		i                                          int
-- 
2.43.0


From 0209a539859099758274bcb41f557a1edbef88c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 13/15] fix: Discard ignores nodes that fail to load and panics
 when repeated

---
 btree.go | 59 +++++++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 56 insertions(+), 3 deletions(-)

diff --git a/btree.go b/btree.go
index 57648d1..e298831 100644
--- a/btree.go
+++ b/btree.go
@@ -1030,9 +1030,21 @@ func (tree *btreeTreeStruct) Discard() (err error) {
 	tree.Lock()
 	defer tree.Unlock()
 
-	// Discard every node in tree
+	// Discard every node in tree (unless an earlier Discard() got beyond this point)
 
-	tree.discardNode(tree.root)
+	if nil != tree.root {
+		err = tree.loadNodes(tree.root)
+		if nil != err {
+			return
+		}
+
+		err = tree.discardNode(tree.root)
+		if nil != err {
+			return
+		}
+
+		tree.root = nil
+	}
 
 	// Prune again to pick up now stale nodes added in discardNode()
 
@@ -1045,7 +1057,6 @@ func (tree *btreeTreeStruct) Discard() (err error) {
 
 	tree.Compare = nil
 	tree.BPlusTreeCallbacks = nil
-	tree.root = nil
 	tree.staleOnDiskReferencesList = nil
 	tree.nodeCache = nil
 
@@ -1110,6 +1121,48 @@ func (tree *btreeTreeStruct) pruneWhileLocked() (err error) {
 	return
 }
 
+// loadNodes ensures that node and all of its descendants are loaded.
+func (tree *btreeTreeStruct) loadNodes(node *btreeNodeStruct) (err error) {
+	if !node.loaded {
+		tree.incCacheMisses()
+		err = tree.loadNode(node)
+		if nil != err {
+			return
+		}
+	}
+
+	if node.leaf {
+		return
+	}
+
+	if nil != node.nonLeafLeftChild {
+		err = tree.loadNodes(node.nonLeafLeftChild)
+		if nil != err {
+			return
+		}
+	}
+
+	numIndices, err := node.kvLLRB.Len()
+	if nil != err {
+		return
+	}
+
+	for i := 0; i < numIndices; i++ {
+		_, childNodeAsValue, _, nonShadowingErr := node.kvLLRB.GetByIndex(i)
+		if nil != nonShadowingErr {
+			err = nonShadowingErr
+			return
+		}
+
+		err = tree.loadNodes(childNodeAsValue.(*btreeNodeStruct))
+		if nil != err {
+			return
+		}
+	}
+
+	return
+}
+
 func (tree *btreeTreeStruct) discardNode(node *btreeNodeStruct) (err error) {
 	if node.loaded {
 		tree.incCacheHits()
-- 
2.43.0


From 410f796161a5e762a7263314058f338310185ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:12 +0000
Subject: [PATCH 14/15] fix: Validate skips the right subtrees of the prefix
 sum trees

---
 btree_validate.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/btree_validate.go b/btree_validate.go
index b1816ed..56cbbf0 100644
--- a/btree_validate.go
+++ b/btree_validate.go
@@ -153,6 +153,9 @@ func (node *btreeNodeStruct) validatePrefixSum() (err error) {
 		}
 
 		err = node.prefixSumLeftChild.validatePrefixSum()
+		if nil != err {
+			return
+		}
 	}
 
 	if nil != node.prefixSumRightChild {
@@ -163,7 +166,7 @@ func (node *btreeNodeStruct) validatePrefixSum() (err error) {
 			return
 		}
 
-		err = node.prefixSumLeftChild.validatePrefixSum()
+		err = node.prefixSumRightChild.validatePrefixSum()
 		if nil != err {
 			return
 		}
-- 
2.43.0


From eac8426619a1b4fc9d499c72e5f54de4b182df99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 15/15] fix: a node that becomes the root no longer keeps its
 merged siblings in memory

When the root's last two children merge, the merged node becomes the new
root but kept its prefix sum links to its former siblings. These reach the
node merged away, whose items (also after they are deleted from the tree)
then stay in memory for as long as that root lives.
---
 btree.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/btree.go b/btree.go
index e298831..3e02e5d 100644
--- a/btree.go
+++ b/btree.go
@@ -1875,6 +1875,9 @@ func (tree *btreeTreeStruct) rebalanceHere(rebalanceNode *btreeNodeStruct, paren
 
 			leftSiblingNode.root = true
 			leftSiblingNode.parentNode = nil
+			leftSiblingNode.prefixSumParent = nil     // these would otherwise
+			leftSiblingNode.prefixSumLeftChild = nil  // keep its former siblings
+			leftSiblingNode.prefixSumRightChild = nil // (and their items) in memory
 			tree.root = leftSiblingNode
 
 			if !leftSiblingNode.leaf {
@@ -1970,6 +1973,9 @@ func (tree *btreeTreeStruct) rebalanceHere(rebalanceNode *btreeNodeStruct, paren
 
 			rebalanceNode.root = true
 			rebalanceNode.parentNode = nil
+			rebalanceNode.prefixSumParent = nil     // these would otherwise
+			rebalanceNode.prefixSumLeftChild = nil  // keep its former siblings
+			rebalanceNode.prefixSumRightChild = nil // (and their items) in memory
 			tree.root = rebalanceNode
 
 			if !rebalanceNode.leaf {
-- 
2.43.0

