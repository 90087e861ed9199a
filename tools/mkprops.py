import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
L="llrb_tree.go";B="btree.go";BA="btree_api.go";C="common_api.go"
p("C01","The in-memory map behaves as an ordered dictionary",
 "For every sequence of operations on an in-memory (left-leaning red-black) map, each returned success flag, value, key, index and length equals that of a reference ordered dictionary. Put adds only an absent key and never overwrites, Patch changes the value of a present key only, Delete removes exactly the named item and nothing else, and Reset empties the map, which stays usable. Keys and values handed out are the very ones put (of keys that compare equal, the one put first).",
 ["inputs","histories"],"all operation sequences, key types, key orders, map sizes and values (including nil values)",
 "The tests run a few fixed scripts and random insert-then-delete passes over int keys; they never interleave operations at random or compare with a reference after each step.",
 [L,"llrb_tree_api.go"],[("insert / delete with rotations and length upkeep",L+": insert, delete, deleteMin, fixUp, postInsertAdjustLen, preDelete*AdjustLen")],
 ["return values of every SortedMap method and Reset"])
p("C02","The B+Tree map behaves as an ordered dictionary at every fan-out",
 "For every sequence of operations on a B+Tree map, with any legal maximum keys per node and at any height, each returned success flag, value, key, index and length equals that of a reference ordered dictionary. Node splits, borrows and merges never lose, duplicate, reorder or change an item, and an illegal maximum (odd, or below four) is refused at construction. A tree that is only used in memory needs no callbacks, and hands out the very keys and values put.",
 ["inputs","histories","configurations"],"all operation sequences, fan-outs, heights, key and value types",
 "The tests use a handful of fan-outs and scripts (insert everything, then delete everything); borrows and merges at inner levels, in mixed orders and after persistence, are sampled only by chance.",
 [B,BA],[("split on overflow",B+": insertHere"),("borrow or merge on underflow",B+": rebalanceHere"),("item count upkeep",B+": updatePrefixSumTreeLeafToRoot, arrangePrefixSumTree")],
 ["return values of every SortedMap method"])
p("C03","Index access and bisection agree with the sorted order",
 "On either kind of map, position i always denotes the item with exactly i smaller keys: GetByIndex, PatchByIndex and DeleteByIndex act on that item for 0 <= i < Len and report not-ok, changing nothing, for any other i. BisectLeft and BisectRight return a present key's position and found; for an absent key they return the position just before and just after the gap where it would go (from -1 to Len), whatever the history of inserts and deletes, and whether nodes are resident or not.",
 ["inputs","histories"],"all map contents and histories, all probe keys (present, in gaps, outside the range) and all indexes including negative and huge ones",
 "The bisect test probes one small map built by ascending inserts; the per-subtree counts that positions rest on change on every insert, delete, split, merge and reload.",
 [L,B],[("subtree lengths",L+": BisectLeft, BisectRight, GetByIndex"),("prefix-sum tree over the children",B+": arrangePrefixSumTree, updatePrefixSumTreeLeafToRootRecursively, BisectLeft, BisectRight")],
 ["results of GetByIndex, PatchByIndex, DeleteByIndex, BisectLeft, BisectRight"])
p("C04","Concurrent operations on one map are linearizable",
 "When several goroutines use the same map of either kind at once, every operation (key and index reads, inserts, patches, deletes, bisections, length, reset) appears to take effect atomically at one instant between its call and its return, and without data races. The results of every concurrent history are those of some sequential order of the same operations that respects real time.",
 ["schedules","histories"],"all interleavings of concurrent client operations, with and without background eviction and flushing",
 "Every existing test is single-threaded.",
 [L,B],[("one mutex per map, held for a whole operation",L+" and "+B+": Lock/Unlock in each API method")],
 ["call/return history at the client boundary","race detector reports"])
p("C05","Concurrent use of every API is free of races, panics and deadlocks",
 "Any mix of goroutines calling any public method (including location, layout, dimension and statistics reports, validation, dumps, flushes, purges, prunes, touches and cache limit changes) on maps that may share one node cache, while the background evictor runs, never produces a data race, a panic, a fatal error or a deadlock. The callbacks of a map (storage and comparator) may themselves use the cache and other maps, also maps of the same cache, as long as maps are used in one order, and no two storage or codec callbacks of one map ever run at the same time.",
 ["schedules"],"all interleavings of public calls on maps that share a cache, with the background evictor",
 "The only concurrency in the tests is the evictor goroutine at the end of one test, and the suite is not run under the race detector.",
 [L,B,"btree_dump.go"],[("lock order: map mutex before cache mutex; evictor re-checks after taking the map mutex",B+": btreeNodeCacheDrainer"),("mutexes",L+", "+B)],
 ["race detector reports","process exit","progress of each caller"])
p("C06","Flush followed by reopen reproduces the map exactly",
 "After a successful Flush (with or without purge), reopening a tree at the returned location, even in another process with a different or no cache, yields exactly the same items in the same order with the same values and the same maximum keys per node, and the reopened tree is fully usable and can itself be modified, flushed and reopened. This holds for any contents (also empty), any packed key and value sizes including zero (values), and any height. A flush persists each value as it is when flushed, also one the client changed in place and patched in again. A flush made while other goroutines update the map persists its contents at one instant between the call and the return.",
 ["inputs","histories","configurations"],"all contents, histories of flush/reopen generations, fan-outs, encodings, storage allocation policies",
 "One test reopens one three-item tree.",
 [B,BA],[("node serialisation",B+": postNode, loadNode"),("children posted before parents",B+": flushNode")],
 ["node bytes given to and taken from storage","contents after OldBPlusTree"])
p("C07","The last flushed image survives until it is reclaimed",
 "From the moment a Flush returns, the image at that location stays complete and readable, with unchanged contents, through any later operations, background evictions and further or failed flushes, until Prune or Discard is called; a Prune that follows a successful Flush never touches the image of that Flush. So a crash at any point (between any two storage calls) loses nothing up to the last completed Flush. Node bytes handed to storage or returned by it, and packed keys and values a client's codec returned, are never modified afterwards.",
 ["crash_points","histories"],"all crash points (every storage callback boundary) in all histories in which Prune is preceded by a successful Flush",
 "The tests never crash mid-flush nor reopen an earlier image after later activity.",
 [B],[("copy-on-write: a dirtied node forgets its location and is posted anew",B+": markNodeDirty, placeNodeOnStaleOnDiskReferenceList, postNode"),("discards only in Prune and Discard",B+": pruneWhileLocked")],
 ["PutNode / DiscardNode events","contents recovered from the storage state at each event"])
p("C08","Storage reclamation is exact",
 "After Flush then Prune, the nodes held in storage are exactly the nodes reachable from the flushed root: nothing reachable has been discarded and nothing unreachable is left. Each node written is discarded at most once over its lifetime, with exactly the number, offset and length it was written with, only by Prune or Discard, and Discard gives back every node of the tree; a discard callback that fails is reported and repeated by the next Prune, without repeating the discards that succeeded.",
 ["histories","fault_sequences"],"all histories of updates, flushes, purges, touches, reopens, prunes and discards; storage that reuses freed locations at once; failing discards",
 "The tests call Prune and Discard without accounting for what was discarded.",
 [B],[("stale reference set",B+": placeNodeOnStaleOnDiskReferenceList, pruneWhileLocked, markNodeToBeDiscarded, discardNode, Discard")],
 ["PutNode / DiscardNode events against reachability from the root"])
p("C09","Every persisted tree is a well-formed B+Tree",
 "Every image produced by Flush is a well-formed B+Tree: all leaves at the same depth; every node but the root holds between half the maximum and the maximum number of keys, and an inner root at least one; keys strictly ascending in and across leaves, and separated by the inner keys; every stored item count equal to the number of items below. The tree thus keeps its height within the logarithmic bound for its fan-out at all times, growing and shrinking with its contents.",
 ["inputs","histories","configurations"],"all histories and fan-outs",
 "Validate checks counts in a few scripts; separator order, depth uniformity and stored counts of the written images are never inspected.",
 [B,"btree_validate.go"],[("split, borrow, merge, root collapse",B+": insertHere, rebalanceHere"),("serialised counts",B+": postNode")],
 ["decoded node bytes from PutNode"])
p("C10","Operations cost logarithmic work",
 "The in-memory map always has the shape of a left-leaning red-black tree (same black height on every path, no right-leaning or doubled red link), so that a lookup makes at most 2*log2(n+1) comparisons; updates make a small constant factor more. On a B+Tree a cold lookup reads at most one node per level, never more than the tree's height, and an update or delete reads in addition at most two siblings per level; a lookup whose nodes are resident reads none, and makes a number of comparisons per level that is logarithmic in the maximum number of keys per node (at most 4*log2(max+2)+8), wherever in its node the path leads.",
 ["inputs","histories"],"all insertion and deletion orders (sorted, reversed, zigzag, adversarial) and sizes",
 "No test observes cost or colour; lookups in a degenerate tree, or by a linear scan of a node, return the same answers.",
 [L,B],[("rotations and colour flips",L+": fixUp, moveRedLeft, moveRedRight"),("descent, one load per level",B+": GetByKey, loadNode, rebalanceHere")],
 ["calls of the Compare callback","calls of GetNode"])
p("C11","Residency never affects contents: eviction, purge and reload are invisible",
 "Purging, touching, flushing, background eviction and changes of cache limits, at any time and in any order, never change any result of any map operation, and never lose or revert an update that has not been flushed. Trees that share one cache never affect one another's contents.",
 ["schedules","histories","configurations"],"all interleavings of map operations with eviction, purge, flush and limit changes; any number of trees per cache; any limits",
 "The cache test runs two tiny trees through one fixed script and checks only counters.",
 [B],[("only clean nodes are evicted; ancestors of dirty nodes are dirty",B+": purgeNode, btreeNodeCacheDrainer, touchLoadedNodeToRoot, updatePrefixSumTreeLeafToRootRecursively")],
 ["results of every operation against a model, while eviction runs"])
p("C12","Cache statistics are exact",
 "At every quiescent point, the clean and dirty counts a cache reports are the numbers of its trees' resident nodes that are unmodified and modified since the last flush: the dirty count is what flushing all trees would write, clean plus dirty is the number of nodes that need no fetch, and nodes that were merged away, purged, evicted or discarded no longer count. Limits are reported as last set, hit and miss counts never decrease, and each fetch made for a map operation, a touch or a dimensions report counts as one miss, and a successful lookup, bisection or patch counts exactly one hit or miss per level of the tree. Statistics, once given, stay as they were.",
 ["histories","configurations"],"all histories of operations on any number of trees sharing a cache",
 "One fixed script checks the counters at nine points of a seven-item tree.",
 [B,BA],[("clean and dirty LRU lists",B+": markNodeUsed, markNodeClean, markNodeDirty, markNodeEvicted, markNodeToBeDiscarded, Stats")],
 ["Stats() against counted GetNode / PutNode calls"])
p("C13","The cache enforces its limits, evicting least recently used clean nodes",
 "With low limit <= high limit, whenever loading or flushing a node, or a limit change, leaves more nodes cached than the high limit, background eviction removes clean nodes until at most the low limit remain or no clean node is left, and then stops; it never starts while the count is within the high limit. It evicts in least-recently-used order (a parent taking its resident descendants with it), and never evicts a modified node.",
 ["histories","schedules","configurations"],"all access sequences, limits, limit changes, and trees sharing the cache",
 "One eviction of one tiny tree is tested.",
 [B],[("evictor",B+": btreeNodeCacheDrainer, UpdateLimits, markNodeClean"),("LRU lists",B+": markNodeUsed")],
 ["Stats() once the evictor has finished","GetNode calls of later reads against an LRU model"])
p("C14","Failed storage or codec callbacks are reported and change no contents",
 "If a storage or pack/unpack callback fails during an operation on a B+Tree, the operation returns an error and the map's contents are as before it (only a Discard that has begun to give nodes back cannot be undone: it is repeated). Once callbacks succeed again, every operation works, the same operation can be repeated with full effect, all invariants hold, and a Flush persists exactly the contents: nothing acknowledged is lost, however often and wherever callbacks fail.",
 ["fault_sequences","histories"],"every single callback failure point of every operation, and random sequences of failures",
 "No test injects a callback failure.",
 [B],[("error propagation; parents stay dirty until posted",B+": loadNode, postNode, flushNode, rebalanceHere, discardNode, pruneWhileLocked")],
 ["error results and contents after each injected failure"])
p("C15","Damaged node images are detected when loaded",
 "If storage returns a node image that is truncated at any point, has extra bytes, is empty, announces another number of items or children than it holds, or contains the same key twice, the operation that needs it (and opening a tree at it) returns an error; it does not panic, hang, or return data from the damaged node. Other nodes stay usable, and the same tree works again once storage returns the right image.",
 ["inputs","fault_sequences"],"every truncation length, extension and duplicated key of every node of generated trees, for every kind of operation (given client decoders that reject short input)",
 "No test loads a damaged image.",
 [B],[("bounds-checked decoding and the exhausted-payload check",B+": loadNode")],
 ["results of operations and OldBPlusTree over damaged storage"])
p("C16","Touching relocates every node",
 "After Touch, or on a non-empty tree that is not otherwise modified meanwhile after a cycle of TouchItem calls that starts at 0 and follows the returned index until it returns 0, the next Flush writes every node of the tree anew, so that after it no node of the earlier image is referenced; contents are unchanged. Each TouchItem call returns the index of the first item after the node it touched, so a cycle visits every leaf exactly once and ends, also when the tree is empty or items come and go between calls.",
 ["histories","inputs"],"all tree shapes, residency states and start points, and modifications between TouchItem calls",
 "One test touches one seven-item tree and looks only at the returned indexes.",
 [B],[("touch marks a leaf and its ancestors dirty",B+": Touch, touchNode, TouchItem, touchLoadedNodeToRoot")],
 ["indexes returned","locations in the image before and after"])
p("C17","The supplied comparators are total orders over their types",
 "Each supplied comparator returns a negative, zero or positive result exactly as its first key is less than, equal to or greater than the second in the natural order of its type, over the type's whole range (extreme integers, empty and prefix strings and byte slices, instants in different zones); results are antisymmetric and transitive. If either argument has another type (or is nil) it returns an error.",
 ["inputs"],"all pairs and triples of values of each key type, including extremes; all mismatched types",
 "The test compares 1, 2 and 3.",
 [C],[("comparators",C+": CompareInt, CompareUint16, CompareUint32, CompareUint64, CompareString, CompareByteSlice, CompareTime")],
 ["results of the comparators"])
p("C18","Reports describe the tree truthfully",
 "At any time, the dimensions report gives the configured minimum and maximum keys per node, the current number of items, and the true height. Once a tree is flushed, the layout report gives, per storage object, exactly the bytes of the tree's nodes that live in it, and the fetched location equals what Flush returned; a location never mixes the parts of two images, and is zero while the root is modified but unflushed. A report made while other goroutines use the map gives the items of one instant. Producing a report changes neither contents nor what must be flushed. A report, once given, stays as it was.",
 ["inputs","histories","configurations"],"all histories, residency states, storage allocation policies (any object numbers, many nodes per object)",
 "One layout report of a one-node tree is checked; dimensions are never checked.",
 [B],[("reports",B+": FetchLocation, FetchLayoutReport, FetchDimensionsReport, updateLayoutReport")],
 ["report results against the decoded image and storage"])
p("C19","Validation accepts all trees the API builds and rejects inconsistent ones",
 "Validate returns no error on any map reachable through the API, in any residency state, also while other goroutines use the map, and changes nothing. On a tree reopened from images in which a leaf's item count, a child's item count as recorded by its parent, or a node's number of keys is out of bounds, Validate returns an error.",
 ["inputs","histories"],"all reachable maps of both kinds; all single count or occupancy corruptions of persisted trees",
 "Validate is only called on healthy trees by a few scripts, so nothing shows that it can fail.",
 ["btree_validate.go","llrb_validate.go"],[("validators","btree_validate.go: validate, validatePrefixSum; llrb_validate.go: validate")],
 ["result of Validate on healthy and on corrupted trees"])
p("C20","Keys the comparator rejects are refused without effect",
 "Every key operation given a key for which the map's comparator returns an error (such as a key of the wrong type) returns an error and leaves the contents unchanged and the map fully usable. This holds for both kinds of map at every size, including for the first Put into an empty map (where a lookup, which compares nothing, may also just report absence).",
 ["inputs","histories"],"all map states (empty, small, many levels, evicted) and all key operations",
 "No test passes a key of the wrong type to a map.",
 [L,B],[("comparator errors returned by every descent",L+" and "+B+": error returns after Compare")],
 ["error results, and contents afterwards"])
p("C21","Dump lists the whole map and changes nothing",
 "Dump of either kind of map prints exactly one entry per item in each of its listings (with its value and in ascending order for a B+Tree), as rendered by the client's callbacks, and changes neither contents nor what must be flushed. A dump made while other goroutines use the map shows its contents at one instant. An error from a rendering or loading callback, at any node, makes Dump return an error.",
 ["inputs","histories","fault_sequences"],"all contents, shapes and residency states; failure of each rendering or loading callback",
 "Dump is only called by hand on failures.",
 ["btree_dump.go","llrb_dump.go"],[("dump walks","btree_dump.go: dumpNode; llrb_dump.go: dumpInFlatForm, dumpInTreeForm")],
 ["captured standard output, callback calls, result of Dump"])
p("C22","The on-disk node format is stable",
 "Node images have one fixed little-endian layout: item count (64 bits), root flag and leaf flag (one byte each), for a root the 64-bit maximum keys per node, then a 64-bit count followed by packed key/value pairs (leaf) or by child references of four 64-bit words (object number, offset, length, items) with a packed key before each but the first (inner node). Images written by earlier versions open with their exact contents, and images written now are readable by an independent reader of that layout.",
 ["inputs","configurations"],"all contents, heights and codecs; stored images of earlier builds",
 "The tests only read what the same code just wrote, so a symmetric change of writer and reader passes.",
 [B,BA],[("node layout",B+": onDiskNodeStruct, postNode, loadNode; "+BA+": OnDiskByteOrder")],
 ["node bytes of PutNode decoded independently; stored golden images opened"])
p("C23","Flush writes only what changed, once",
 "A Flush writes each modified node exactly once, children before parents, and writes no other node: everything it writes is part of the new image, a tree without modifications since its last flush is not written at all and keeps its location, and unmodified subtrees are referenced where they are. Reads, reports, validation, refused inserts, patches and deletes of absent items, purges and reloads never cause a write, and only Flush writes.",
 ["histories","inputs"],"all histories and batches of changes between flushes",
 "No test counts writes.",
 [B],[("dirty flag per node, posted once",B+": flushNode, postNode, markNodeClean, markNodeDirty")],
 ["PutNode calls against the images before and after"])
p("C24","What a map no longer holds, and what is not in memory, is released",
 "A map keeps no reference to a value once its item is deleted, patched with another value or dropped by Reset, nor to a value it refused; an in-memory map likewise releases the keys of absent items, and a B+Tree all keys once it is empty. The values (and, of a whole tree, the keys) of B+Tree nodes that were purged or evicted are released, so that memory follows the nodes the cache counts as resident. After Discard nothing of a tree is kept, and a tree that was purged in full or discarded and then given up is released although its cache and the other trees of that cache live on. The same work repeated on contents that stay the same (with a Prune after Flush) never makes memory grow.",
 ["histories","inputs","configurations"],"all histories, shapes, purges, evictions and orders in which trees that share a cache come and go",
 "No test looks at memory: an evicted node that keeps its items, or a link to a merged or discarded node, answers every call correctly.",
 [L,B],[("nodes unlinked and their contents dropped",B+": purgeNode, flushNode, Discard, rebalanceHere, markNodeEvicted, markNodeToBeDiscarded; "+L+": delete, deleteMin, Reset")],
 ["keys, values and callbacks watched through weak pointers across garbage collections, and Stats of the cache"])
p("C25","Purging drops exactly what it says, and nothing else drops nodes",
 "Purge(false) drops from memory every node of the tree that is unmodified, and no modified one; Purge(true) drops every node of a tree without unflushed modifications, and returns an error, dropping no modified node, if there are any; after a successful Flush(true) no node of the tree is resident. A purge itself reads and writes nothing, and Flush and Prune read nothing. Apart from these only background eviction and Discard drop nodes: a node that an operation fetched or a Flush(false) wrote stays resident whatever else is done (lookups, updates, touches, Flush(false), Prune, reports, validation, dumps, and purges of other trees of the same cache), and a dropped node is fetched again once, when it is next needed.",
 ["histories","inputs","configurations"],"all histories, shapes, mixes of modified, unmodified and non-resident nodes, with and without a (shared) cache",
 "Tests purge and go on, so a purge that drops too little, or an operation that drops what it should keep, answers every call correctly.",
 [B],[("purging walks and the loaded flag",B+": Purge, purgeNode, Flush, flushNode, updateLayoutReport")],
 ["GetNode and PutNode calls, compared with the nodes that must be resident and with the nodes the next Flush shows to have been unmodified"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
