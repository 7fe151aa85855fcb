#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after the table is changed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, observe=None, technique="", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=[dict(name=n, where=w) for n, w in mech], observe=observe or [], technique=technique, note=note))

MB = "model-based property testing of generated call histories with shrinking"
CC = "generated concurrent histories with a history oracle, and the Go race detector"
SEQNOTE = ("Tens of thousands of generated histories are compared with a reference map after every call; no proof for histories which are not generated. "
           "Trusted: the model and the generators in /verif/harness, and that the replaced process hash seed (fixed, for replay) is as good as any other.")
CONNOTE = ("Schedules are sampled, not enumerated: a violation which needs a very rare interleaving can be missed. A reported violation is confirmed by running the case again. "
           "Trusted: the oracle in /verif/harness/conc.go and, for data races, the Go race detector.")

prop("C01", "Default and pooled maps behave like a map under any call history",
     "On one goroutine, a map made by New() (default options, UsePool, or UsePool with the pool's own goroutine; any BucketMode; any MaxPefBucket >= 1) answers every call of any sequence of Set, StoreItem, Get, GetByHash, LoadItem, Delete and Purge with string keys exactly like an abstract map from key to value. "
     "A read returns the value given by the last write of this key, and reports found exactly when the last write is not a Delete or Purge; Set and StoreItem return true; Delete and Purge return true for a key which is present and change nothing for a key which is not. A call which panics because keys of its type are not supported changes nothing, and the map is used on.",
     ["inputs", "histories", "configurations"], "all sequences of calls over all sets of string keys (any order of insertion, any re-use of deleted keys), non-nil values, all search modes and bucket sizes, items from the pool or not",
     "The tests insert numbered keys once, in one order, and read them back; they delete at most one key. Splits of buckets, the reuse of pool items, and search caches depend on order, distribution and history.",
     ["map.go", "bucket.go", "pool2.go", "item.go", "sample_hmap_entry.go"],
     [("search of a bucket and of a key in it", "map.go:searchKey, _searchBybucket, searchBucket4Key4, _findBucket"),
      ("insertion at the ordered position", "map.go:set, StoreItem, add2, _set"),
      ("split of a bucket which is too long", "map.go:makeBucket, bucketFromPool, addBucket"),
      ("delete marks, purge unlinks", "map.go:Delete, Purge"), ("reuse of items", "pool2.go:Get, Put, _expand")],
     ["return values of the map API"], MB, SEQNOTE)
prop("C02", "Maps with embedded pools behave like a map under any call history",
     "On one goroutine, a map made with UseEmbeddedPool(true) (any BucketMode, any MaxPefBucket >= 1) answers every call of any sequence of Set, StoreItem, Get, GetByHash, LoadItem, Delete and Purge with string keys exactly like an abstract map from key to value. "
     "No key is lost, doubled or given the value of another one while the slabs which hold the items are expanded, split between buckets, re-ordered or reused.",
     ["inputs", "histories", "configurations"], "all sequences of calls over all sets of string keys, all search modes and bucket sizes, with embedded pools",
     "The tests insert numbered keys into an embedded map once and read them back. Slab expansion, splits in the middle of a slab, and insertion between items depend on the order of keys and on deletes before.",
     ["map_embedded.go", "map.go", "bucket.go", "pool2.go"],
     [("place of a new item in the slab", "map_embedded.go:insertToPool, appendLast, reuseFree, state4get"),
      ("growth and split of slabs", "map_embedded.go:expand, _split, makeBucket2, shrinkLen"),
      ("binary search in a slab", "map_embedded.go:bsearchBybucket, findIdx")],
     ["return values of the map API"], MB, SEQNOTE)
prop("C03", "Range and RangeItem visit every live key exactly once with its value",
     "Range and RangeItem call the function exactly once for every key which is present, with the current value (or the item whose Key and Value are those), never for a deleted, purged or absent key, and stop at once when the function returns false. "
     "This holds after any history and any early stop before, in every storage mode, and the function may update, delete and purge keys of the map while it is called. A traversal which the function ends by a panic or runtime.Goexit leaves a map which is used on like any other.",
     ["histories", "configurations"], "all histories of inserts, updates, deletes, purges and earlier traversals; all points at which the function returns false or changes the map",
     "One test counts the calls of RangeItem for a map from which nothing was deleted.",
     ["map.go", "maphead.go", "map_embedded.go"],
     [("traversal which skips bucket entries and deleted items", "map.go:RangeItem, Range, eachItem, nextAsE"), ("marks of deleted and ignored entries", "maphead.go:IsIgnored, IsDeleted")],
     ["calls of the function given to Range and RangeItem"], MB, SEQNOTE)
prop("C04", "Len is the number of keys which are present",
     "After every call of any sequence of Set, StoreItem, Delete and Purge (string keys or items with chosen hashes, every storage mode), Len() is the number of distinct keys which are present. "
     "Updates, Delete or Purge of a missing or already deleted key, reads and traversals, changes of options, and splits of buckets do not change it; insertion of a deleted key again adds one.",
     ["histories", "configurations"], "all call histories, Len read after every call", "The tests read Len only after they have inserted distinct keys.",
     ["map.go", "map_embedded.go"], [("counter", "map.go:Len, AddLen"), ("changes of the counter", "map.go:set, StoreItem, delete, Purge, updateOnly; map_embedded.go:purgeInEmbedded")],
     ["Len()"], MB, SEQNOTE)
prop("C05", "Delete and Purge remove exactly one key, which can be inserted again",
     "Delete(key) and Purge(key) make exactly this key absent for every reader and traversal and leave every other key, its value and its place untouched, whatever its position (first, last or only one of a bucket, next to other deleted keys). "
     "They return true for a key which is present, a removed key can be set again any number of times by Set or StoreItem and is then found with the new value only, and removal of an absent key changes nothing.",
     ["histories", "configurations"], "all interleavings of inserts and deletes of the same and neighbouring keys, in all storage modes",
     "Two tests delete one key of a map and look for that key. Reuse of marked items and of pool memory needs histories of deletes and inserts.",
     ["map.go", "map_embedded.go", "sample_hmap_entry.go", "pool2.go"],
     [("delete mark", "map.go:delete; sample_hmap_entry.go:Delete"), ("unlink", "map.go:Purge, purgeInEmbedded"), ("reuse of a marked item", "map.go:updateOnly, set")],
     ["return values and later reads of all keys"], MB, SEQNOTE)
prop("C06", "Keys are told apart by both of their hashes",
     "An entry is identified by its pair of 64 bit hashes: items given to StoreItem with the same first hash and different second hash live side by side, each with its own value, and update, delete, lookup and traversal concern only the one which was named. "
     "Get, GetByHash, LoadItem and LoadItemByHash with the hashes of a key (KeyToHash) agree with each other, a string key and a []byte key of the same bytes are the same key, numbers of all integer types which have the same value name the same item, a lookup with a right first and a wrong second hash finds nothing, and SearchKey(hash) returns an entry of a present key with this first hash, or nil if there is none.",
     ["inputs", "histories"], "all sets of items with equal, neighbouring and arbitrary hash pairs, and all histories over them",
     "A test with two colliding hashes does not exist; with real strings a collision of 64 bits does not come up.",
     ["map.go", "map_embedded.go", "hashfn.go"], [("match of the second hash", "map.go:conflictMatcher, searchKey, _loadItem, updateOnly"), ("neighbours of the same hash", "map.go:_searchBybucket; map_embedded.go:bsearchBybucket")],
     ["return values"], MB + "; items with crafted hash collisions", SEQNOTE)
prop("C07", "Extreme and clustered hashes are stored and found",
     "A map stores and finds items for every 64 bit hash value, also all zeros, all ones, hashes equal to the boundary of a bucket, runs of consecutive hashes, hashes which share a long prefix in bucket order, and more items of one hash than MaxPefBucket. "
     "No insertion, lookup, delete or traversal panics, loops for ever or disturbs other keys, however often buckets are split.",
     ["inputs", "histories", "configurations"], "all hash values and multisets of hash values, in all orders of insertion, with MaxPefBucket from 1",
     "Tests use numbered strings, whose hashes are spread evenly.",
     ["map.go", "bucket.go", "map_embedded.go", "util.go"], [("boundary of a new bucket", "map.go:makeBucket, bucketFromPool, toMask, toMaskR, reverse2Index; util.go:halfUint64, nearUint64"), ("boundary of a new embedded bucket", "map_embedded.go:makeBucket2, bucketFromPoolEmbedded")],
     ["return values, termination"], MB + "; items with crafted hashes", SEQNOTE)
prop("C08", "What is stored stays alive and intact across garbage collections",
     "Keys, values and items which are present in a map keep their content over any number of garbage collections when only the map refers to them, in every storage mode and for items made by the caller. "
     "No sequence of calls and collections makes the Go runtime find an invalid pointer or changes memory which the map does not own.",
     ["histories", "configurations", "schedules"], "all call histories with garbage collections at any point, values with pointers, callers which drop their items",
     "The package links items by addresses which the collector does not see; tests are short, keep their items or do not collect.",
     ["map.go", "util.go", "bucket.go", "map_embedded.go", "pool2.go"], [("references to items", "map.go:retain, StoreItem"), ("address arithmetic", "util.go:ElementOf, newListTerm"), ("copies of slabs", "map_embedded.go:CopyFrom, CopyDataFrom, expand")],
     ["values read after runtime.GC()", "crashes of the runtime"], MB + " with garbage collections, clobbered free memory", SEQNOTE + " A lost object is seen only when the collector has freed and overwritten it (GODEBUG=clobberfree=1).")
prop("C09", "Readers never miss or misread keys which are stable while writers run",
     "While any number of goroutines insert, update, delete and purge other keys of the same map or set its Options (BucketMode, MaxPefBucket), Get, GetByHash, LoadItem, LoadItemByHash and SearchKey always find a key which is present all the time, with a value which was stored for this key and is not older than one this reader has seen before. "
     "No reader or writer blocks for ever, panics or takes part in a data race.",
     ["schedules", "histories", "configurations"], "all schedules of readers and writers, all storage modes and key distributions",
     "One benchmark runs readers and writers and checks nothing; a test cannot choose the schedules in which a bucket is split under a reader.",
     ["map.go", "map_embedded.go", "bucket.go", "pool2.go"], [("lock of the map", "map.go:Get, set, StoreItem, Delete, Purge (rwmu)"), ("publication of a bucket", "map.go:addBucket, _InsertBefore")],
     ["values read by reader goroutines", "race detector"], CC, CONNOTE)
prop("C10", "Concurrent inserts lose and double nothing",
     "When several goroutines insert distinct and common keys into one map at the same time, after all have returned every key is present exactly once with a value which one of its inserters gave it, Len is the number of distinct keys, and traversals and lookups agree. "
     "No call fails, blocks for ever, panics or takes part in a data race.",
     ["schedules", "histories", "configurations"], "all schedules of 2 or more inserting goroutines, all storage modes, bucket sizes and key distributions",
     "Concurrent tests insert disjoint keys in one configuration and do not compare the contents.",
     ["map.go", "map_embedded.go", "pool2.go"], [("lock of the map", "map.go:set, StoreItem (rwmu)"), ("allocation of items", "pool2.go:Get; map_embedded.go:getWithFn")],
     ["final contents", "race detector"], CC, CONNOTE)
prop("C11", "Calls for one key are linearizable under concurrency",
     "For every key, the concurrent calls of Set, StoreItem, Get, GetByHash, LoadItem, Delete and Purge of all goroutines have results which some order of these calls explains, in which a call that returned before another one started comes first. "
     "Len() during and after the calls stays within what the calls can explain, and no call takes part in a data race.",
     ["schedules", "histories", "configurations"], "all concurrent histories of 2 or more goroutines on few hot keys, all storage modes",
     "No test checks results of concurrent calls for the same key.",
     ["map.go", "map_embedded.go", "sample_hmap_entry.go"], [("lock of the map", "map.go (rwmu)"), ("update in place", "map.go:updateOnly; sample_hmap_entry.go:SetValue")],
     ["call and return stamps with results", "race detector"], "generated concurrent histories decided by linearizability search, and the Go race detector", CONNOTE)
prop("C12", "Entries form one order, which First, Next, Prev, Last and dumps show",
     "At any quiescent point, the entries reached from First() by Next() are all live keys exactly once, in ascending order of their bit-reversed hash, Prev() from Last() gives the same in reverse order, and a walk ends with nil; NextWithNil() and PrevtWithNil() of the heads meet the same entries. "
     "DumpEntry, DumpBucket and DumpBucketPerLevel run on every map, and the entries and buckets which they print are those of the map.",
     ["histories", "configurations"], "all histories, all storage modes; walks between calls",
     "Tests walk one map after plain inserts; order and links after deletes, splits and slab moves are not visited.",
     ["map.go", "maphead.go", "sample_hmap_entry.go", "item.go"], [("ordered insertion", "map.go:add2, find, CondOfFind"), ("walk", "map.go:First, Last, nextAsE, prevAsE"), ("dumps", "map.go:dumpEntry, dumpBucket, dumpBucketPerLevel")],
     ["entries of a walk", "text of dumps"], MB, SEQNOTE)
prop("C13", "Options change speed, not results",
     "The same sequence of calls gives the same results, Len and traversal order on maps of every configuration: storage (plain, pooled, embedded), BucketMode, MaxPefBucket, EnableStats, pool goroutine. "
     "BucketMode, MaxPefBucket and UsePool may also be changed by Options on a map in use, between any two calls, without effect on the results of later calls; so may the switches EnableStats, ResetStats, UseGoroutineInPool and SetLogIO of the package.",
     ["configurations", "histories"], "all pairs of configurations, all points of reconfiguration, all histories",
     "Tests run fixed loops for a few configurations and do not compare them.",
     ["map.go", "map_embedded.go"], [("options", "map.go:Options, BucketMode, MaxPefBucket, UsePool, UseEmbeddedPool"), ("search modes", "map.go:searchKey, searchBucket4Key4, nearBucketFromCache")],
     ["return values compared between maps"], "differential property testing between configurations, with shrinking", SEQNOTE)
prop("C14", "Maps are independent of each other",
     "Calls on one map or RMap never change what another map contains or returns, whether calls are interleaved on one goroutine or every map is used by its own goroutine at the same time, whatever their configurations and even if they have the same keys. "
     "Distinct maps which are used by distinct goroutines do not share unsynchronised state: there is no data race between them.",
     ["histories", "schedules", "configurations"], "all interleavings and schedules of calls on 2 or more maps",
     "Tests use one map at a time.",
     ["map.go", "item.go", "pool2.go", "rmap/rmap.go"], [("package variables", "map.go: defaults of options and searches; item.go"), ("pool of a map", "pool2.go:newPool")],
     ["return values against one model per map", "race detector"], MB + " over several maps, and the Go race detector", CONNOTE)
prop("C15", "Options returns what undoes it, and options do not depend on their order",
     "Applying the functions which Options() has returned brings the map back to the settings from before, for every combination and repetition of BucketMode, MaxPefBucket, UsePool, UseEmbeddedPool and ItemFn on a map which is still empty. "
     "A map made with the same options in another order behaves the same, and the last one wins if an option is given twice.",
     ["configurations", "inputs"], "all lists of options with all settings, from all configurations",
     "No test uses the returned functions.",
     ["map.go"], [("options and their previous values", "map.go:Options, BucketMode, MaxPefBucket, ItemFn, UsePool, UseEmbeddedPool")],
     ["bucket boundaries, search counters, item addresses and types of the map after inserts"], "metamorphic property testing (undo, permutation) with shrinking",
     "Settings are seen only by their effects: bucket boundaries, statistics counters, item types and addresses. Two settings with the same effect are not told apart.")
prop("C16", "RMap behaves like a map under any call history",
     "On one goroutine, an RMap answers every sequence of Set, Set2, Get, Get2, Delete and Len with string keys exactly like an abstract map: the last written value is found, a deleted or never written key is not, Delete returns whether the key was present. "
     "This holds before, while and after new entries are promoted to the read part, and for reinsertion of deleted keys.",
     ["histories", "inputs"], "all call histories, any mix of reads which promote entries and writes",
     "The test of RMap sets some keys and reads them once.",
     ["rmap/rmap.go"], [("two parts", "rmap/rmap.go:Set2, Get2, Delete, getDirtyEntry"), ("promotion", "rmap/rmap.go:missLocked, storeReadFromDirty, initDirty, isNotRestoreRead"), ("count", "rmap/rmap.go:Len")],
     ["return values"], MB, SEQNOTE)
prop("C17", "RMap is linearizable per key and race free under concurrency",
     "For every key, concurrent calls of Set, Get, Delete on one RMap have results which some order of these calls explains, respecting the order of calls which do not overlap; concurrent inserts lose no key and readers never miss a stable key, also while entries are promoted. "
     "Len is right after all calls have returned, and no call blocks for ever, panics or takes part in a data race.",
     ["schedules", "histories"], "all concurrent histories of readers and writers on one RMap",
     "No test uses an RMap from several goroutines.",
     ["rmap/rmap.go"], [("lock and read part", "rmap/rmap.go:Set2, Get2, Delete, missLocked, storeReadFromDirty")],
     ["call and return stamps with results", "race detector"], "generated concurrent histories decided by linearizability search, and the Go race detector", CONNOTE)
prop("C18", "Pool capacities always leave room and grow with the length",
     "For every length n >= 0, PoolCap(n) is greater than n, never smaller than PoolCap(n-1), and close to n: at most n+2 below a length of 256 and at most n+64 from there.",
     ["inputs"], "all lengths", "No test calls it; wrong roundings show up only at single lengths.",
     ["util.go"], [("capacity", "util.go:PoolCap, calcCap, intPow")], ["PoolCap()"], "property testing over all small and random large lengths",
     "Complete for lengths up to 400000, drawn intervals up to 2^40 above.")
prop("C19", "Values come back with their type and content",
     "A value of any dynamic type (numbers, strings, structs, slices, maps, errors, functions of pointers, typed nil) which is stored by Set, StoreItem or SetValue is returned by Get, GetByHash, LoadItem, Range and RangeItem identical in type and content. "
     "A key may be updated with values of different types in any order.",
     ["inputs", "histories"], "all non-nil values and sequences of their types, in all storage modes", "Tests store numbers and one struct type per key.",
     ["sample_hmap_entry.go", "item.go", "map.go"], [("value cell", "sample_hmap_entry.go:Value, SetValue; item.go:entryHMap.Value, SetValue")],
     ["values read"], MB, SEQNOTE)
prop("C20", "Items are kept by identity, also items of the caller's own type",
     "In maps without embedded pools an item which StoreItem has stored for a new key is the very item which LoadItem, LoadItemByHash and RangeItem return while the key stays present, for SampleItem, for NewEntryMap items (keys are strings or integers), and for an own MapItem type of the caller which ItemFn announces (its list head anywhere in the struct). "
     "SetValue on a loaded item is seen by later reads, and updates of a key keep the other fields of its item.",
     ["histories", "inputs", "configurations"], "all histories over items of the given types, on maps which hold items of one type",
     "One test stores one SampleItem and loads it; other item types are not used.",
     ["map.go", "item.go", "sample_hmap_entry.go", "maphead.go"], [("from list head to item", "maphead.go:fromMapHead; map.go:nextAsE; sample_hmap_entry.go:HmapEntryFromListHead"), ("ItemFn", "map.go:ItemFn"), ("store and load", "map.go:StoreItem, LoadItem, loadItem")],
     ["pointers and fields of items"], MB, SEQNOTE)
prop("C21", "Hashes depend on the content of a key only",
     "KeyToHash gives the same pair of hashes for the same content on every call: equal strings at different addresses and alignments, string and []byte with the same bytes, and numbers of the documented integer types by their value. "
     "Different keys of a set practically never share the pair, and the hashes of SampleItem and of entries made by Set are those of KeyToHash.",
     ["inputs"], "all strings and byte slices at all addresses and lengths, all numbers", "Tests hash short numbered strings.",
     ["hashfn.go", "sample_hmap_entry.go"], [("hash of a key", "hashfn.go:KeyToHash, MemHash, MemHashString"), ("hash of an item", "sample_hmap_entry.go:Setup, KeyHash")],
     ["KeyToHash()"], "property testing with generated keys", "Generated keys only.")
prop("C22", "Atomic helpers for int are atomic",
     "LoadInt, StoreInt and CompareAndSwapInt act on an int like a plain variable would on one goroutine for every value including negative and extreme ones, CompareAndSwapInt swaps and returns true exactly when the old value matches. "
     "Concurrent increments by CompareAndSwapInt lose nothing, and a StoreInt publishes writes before it to a goroutine which sees it by LoadInt, without data race.",
     ["inputs", "schedules"], "all values, all schedules of concurrent calls", "The package has no tests.",
     ["atomic_util/int.go"], [("atomic access", "atomic_util/int.go")], ["return values", "race detector"], CC, CONNOTE)
prop("C23", "Buckets are split so that runs between bucket boundaries stay short",
     "However many keys are inserted in whatever order, when their hashes are spread evenly the number of entries between two neighbouring bucket boundaries stays within a small multiple of MaxPefBucket (2*Max+6 with embedded pools, 5*Max+16 otherwise). "
     "The same holds when the hashes are spread evenly over one part of the range only: with embedded pools for any part at any time, otherwise (12*Max+40) once 1000 entries are stored in a half to a sixteenth of the range. "
     "So searches do not become linear in the number of keys.",
     ["inputs", "histories", "configurations"], "all orders of insertion of up to thousands of keys, evenly spread hashes over the whole range or a part of it, MaxPefBucket from 1 to 64, all storage modes",
     "No test looks at the size of buckets; a missing split changes no result.",
     ["map.go", "map_embedded.go"], [("split", "map.go:set, makeBucket, bucketFromPool; map_embedded.go:makeBucket2, bucketFromPoolEmbedded")],
     ["entries between bucket boundaries in DumpEntry and DumpBucket"], "invariant checking over generated insertion histories, with shrinking",
     "The bound is about twice of what millions of generated inserts reach on the current tree, so a smaller loss of balance is not reported.")
prop("C24", "Traversals stay correct while writers run",
     "While other goroutines insert, update, delete and purge other keys or set Options, Range and RangeItem visit every key which is present all the time exactly once with a value which was stored for it, visit no key twice and no key which was never stored, and end; DumpEntry shows all of them in order, and DumpBucket and DumpBucketPerLevel show the buckets. "
     "No traversal or writer blocks for ever, panics or takes part in a data race.",
     ["schedules", "histories", "configurations"], "all schedules of traversals and writers, all storage modes", "No test traverses a map which is changed at the same time.",
     ["map.go", "map_embedded.go"], [("traversal under the lock of the map", "map.go:Range, RangeItem, eachItem"), ("moves of items", "map_embedded.go:insertToPool, expand, _split")],
     ["calls of the function given to Range and RangeItem", "race detector"], CC, CONNOTE)


prop("C25", "Repeating calls on the same keys does not grow a map",
     "When a fixed set of keys is deleted and inserted again (Delete, Purge, Set, StoreItem of a new or of an earlier item), updated, looked up (also missing keys and wrong hashes), removed when missing, or traversed, or BucketMode, MaxPefBucket or UsePool are changed, any number of times, the memory held by a map does not grow with the number of calls, in every storage mode, and no goroutines stay; the same holds for RMap. "
     "Every repetition behaves like the first one.",
     ["histories", "configurations"], "all sequences of calls on a fixed set of keys, of any length", "No test inserts a deleted key or repeats a call many times.",
     ["map.go", "map_embedded.go", "rmap/rmap.go"], [("reuse of deleted items", "map.go:set, StoreItem, deletedItem, restore, unlink"), ("reuse of slots of a slab", "map_embedded.go:reuseFree, getWithFn, shrinkLen"), ("dirty and read-only parts", "rmap/rmap.go:Set, Get, Delete")],
     ["runtime.MemStats.HeapAlloc after collections"], "metamorphic property testing (repetition) with a memory bound, and a reference map", SEQNOTE + " The bound is 8 bytes for each insertion and 32 KB (other calls: 1 byte for each and 48 KB); a leak is at least 80 bytes for each insertion.")

prop("C26", "A lookup looks at few entries however many keys are stored",
     "In maps without embedded pool, in whatever order the keys were inserted, deleted and inserted again, when their hashes are spread evenly a lookup of a present or a missing key looks at no more than 3*MaxPefBucket+30 entries, and on average at no more than 3/4*MaxPefBucket+12, independent of the number of keys. When the hashes are spread evenly over 1/32 to 1/256 of the range (MaxPefBucket up to 4: 1/128 to 1/16384), a lookup looks at no more than 12*MaxPefBucket+40 entries after at least 1000 (8000) insertions, and on average at no more than 3/2*MaxPefBucket+16 (counters CntSearchEntry and CntReverseSearch of DebugStats; every BucketMode). "
     "Every counted lookup also gives the right answer.",
     ["inputs", "histories", "configurations"], "all orders of insertion and deletion of up to tens of thousands of keys, MaxPefBucket from 1 to 64, every BucketMode, default and pooled maps",
     "No test looks at the cost of a lookup; a search which starts at a wrong boundary changes no result.",
     ["map.go"], [("choice of the boundary where a search starts", "map.go:searchBucket4Key4, searchBucket4update, _findBucket, largestDown"), ("search", "map.go:_searchBybucket")],
     ["DebugStats"], "invariant checking of search counters over generated histories, with shrinking",
     "The bounds are about twice of what generated histories reach on the current tree. Maps with embedded pools count no steps; C23 bounds the slab which they search.")

prop("C27", "Maps which are no longer used are released",
     "When a program makes maps (Map in every storage mode, with or without goroutines of pools, or RMap), uses them in any way and drops them, their keys, values and items and the goroutines started for them do not stay: memory and the number of goroutines do not grow with the number of dropped maps. "
     "Package-level caches and options hold on to at most a constant number of maps.",
     ["histories", "configurations"], "all sequences of calls on maps which are then dropped, all storage modes", "No test drops a map and looks at what is left.",
     ["map.go", "pool2.go", "bucket.go", "map_embedded.go", "rmap/rmap.go"], [("goroutines of pools", "pool2.go:startMgr, stopMgr, idxMaagement"), ("package-level state", "map.go:sharedSearchOpt; pool2.go:LastItem"), ("what a map refers to", "map.go:retain, retainPools; rmap/rmap.go")],
     ["runtime.MemStats.HeapAlloc after collections", "runtime.NumGoroutine"], "metamorphic property testing (repetition with fresh maps) with a memory bound, and a reference map", SEQNOTE + " 24 maps may leave half of the size of one map and 16 KB.")

prop("C28", "The memory of a map is proportional to what is stored in it",
     "A map (every storage mode, and RMap) into which n different keys with evenly spread hashes were stored holds no more than 256 KB and (500 + 5000/MaxPefBucket) bytes for each key, besides the last value of each key: updates, deletes, purges, reinsertions and reads in any order do not add to it, and old values are released. "
     "When new keys are inserted into a map with embedded pools and old ones are purged all the time, memory grows at most with the logarithm of the number of keys which were ever stored; that of an RMap whose old keys are deleted all the time does not grow.",
     ["histories", "configurations"], "all histories of rounds of calls on up to thousands of keys; all sequences of insertions and purges with a bounded number of live keys", "No test looks at memory.",
     ["map.go", "map_embedded.go", "pool2.go", "bucket.go", "util.go", "rmap/rmap.go"], [("split of buckets", "map.go:_set, makeBucket2; bucket.go:bucketFromPool"), ("capacity and reuse of slabs", "util.go:PoolCap; map_embedded.go:expand, reuseFree, shrinkLen; pool2.go:_expand"), ("what a map refers to", "map.go:retain; sample_hmap_entry.go:SetValue")],
     ["runtime.MemStats.HeapAlloc after collections"], "invariant checking of memory over generated histories, and a reference map", SEQNOTE + " The bounds are about twice of what generated histories reach. A deleted entry may keep its last value.")

prop("C29", "The cost of a call hardly depends on the number of keys",
     "With evenly spread hashes the work (executed blocks of statements) of a lookup (Get, GetByHash, LoadItem, SearchKey; also of a missing key), an update, a Delete, a Purge, a Set of a deleted or purged key and of Len grows at most logarithmically with the number of keys, in every storage mode: with 16 times as many keys it is on average at most 1.5 times as much, plus 120 blocks. "
     "Set of a new key is not included: a split may walk the list of buckets.",
     ["inputs", "configurations"], "all sets of thousands of string keys and all configurations with MaxPefBucket of 16 to 48", "Tests measure time, if at all, and do not judge it.",
     ["map.go", "map_embedded.go", "pool2.go", "bucket.go"], [("levels of buckets", "map.go:_findBucket, searchBucket4update; bucket.go:largestDown"), ("search in a bucket", "map.go:_searchBybucket; map_embedded.go:bsearchBybucket"), ("bookkeeping of items", "map.go:unlink, retain")],
     ["coverage counters of the map and its lists"], "metamorphic testing (N and 16 N keys) of generated maps, with coverage counters as the measure of work", SEQNOTE + " Deterministic: no clocks are used. A cost which grows by less than the allowance is not seen.")

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        n = p["statement"].count(". ") + 1
        assert n <= 3 and len(p["title"]) <= 80, (p["id"], n, len(p["title"]))
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=p["mech"], observe_at=p["observe"], hook_needed=None))) + "\n")
m = dict(version=1, setup_cmd="bash setup.sh",
    checks=[dict(property=p["id"], quick_cmd="bash check.sh %s quick" % p["id"], thorough_cmd="bash check.sh %s thorough" % p["id"],
        technique=p["technique"], level="exploration", level_note=p["note"]) for p in P],
    not_applicable=[], notes="No hooks in /repo: the checks use the exported API only. Repairs are listed in KNOWN_FINDINGS.txt.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
