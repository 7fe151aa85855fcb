From 02207458dea16c0c0e3ad29419fad48c58ff8de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 01/29] fix: keep Len() in step with Delete() and Purge()

Set/StoreItem count an inserted key, but a removed one was never taken off
again, so Len() drifted upwards for ever.
---
 map.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/map.go b/map.go
index ce5b69c..85e2003 100644
--- a/map.go
+++ b/map.go
@@ -212,7 +212,7 @@ func (h *Map) cactchSigBua() {
 }
 
 func (h *Map) Len() int {
-	return int(h.len)
+	return int(atomic.LoadInt64(&h.len))
 }
 
 func (h *Map) AddLen(inc int64) int64 {
@@ -1554,6 +1554,7 @@ func (h *Map) Delete(key interface{}) bool {
 		return false
 	}
 	item.Delete()
+	h.AddLen(-1)
 	return true
 
 }
@@ -1591,6 +1592,7 @@ func (h *Map) purgeInEmbedded(key interface{}) bool {
 		return false
 	}
 	item.Delete()
+	h.AddLen(-1)
 
 	pOpts := elist_head.SharedTrav(list_head.WaitNoM())
 	item.PtrListHead().MarkForDelete()
-- 
2.43.0


From 0a892638928d73a4245ae02af0369950e9d2f89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 02/29] fix: let an item take a value of another type

SampleItem.SetValue() stored the bare value to atomic.Value, which panics as
soon as a key is updated with a value of another dynamic type.
---
 sample_hmap_entry.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/sample_hmap_entry.go b/sample_hmap_entry.go
index d006d7a..4a63ab8 100644
--- a/sample_hmap_entry.go
+++ b/sample_hmap_entry.go
@@ -7,6 +7,7 @@
 package skiplistmap
 
 import (
+	"reflect"
 	"sync/atomic"
 	"unsafe"
 
@@ -52,15 +53,35 @@ func (s *SampleItem) Key() interface{} {
 	return s.K
 }
 
+// itemValue ... wrapper of the value stored to SampleItem.V.
+// atomic.Value.Store() panics if the dynamic type is not the same as before.
+type itemValue struct {
+	v interface{}
+}
+
 func (s *SampleItem) Value() interface{} {
-	return s.V.Load()
+	v := s.V.Load()
+	if iv, ok := v.(itemValue); ok {
+		return iv.v
+	}
+	return v
 }
 
 func (s *SampleItem) SetValue(v interface{}) bool {
 	if v == nil {
 		return false
 	}
-	s.V.Store(v)
+	switch old := s.V.Load(); old.(type) {
+	case nil, itemValue:
+	default:
+		// V is directly stored by the owner of item.
+		if reflect.TypeOf(old) == reflect.TypeOf(v) {
+			s.V.Store(v)
+			return true
+		}
+		s.V = atomic.Value{}
+	}
+	s.V.Store(itemValue{v: v})
 	return true
 }
 
-- 
2.43.0


From b4a5f183ed6b0b588e501d3224e8600473cc6793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 03/29] fix: SampleItem.Setup() must store the bit reversed
 hash

MapHead.reverse is the reversed hash everywhere else, KeyInHmap() returned a
reversed hash for an item initialised by Setup().
---
 sample_hmap_entry.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sample_hmap_entry.go b/sample_hmap_entry.go
index 4a63ab8..2cc44cf 100644
--- a/sample_hmap_entry.go
+++ b/sample_hmap_entry.go
@@ -7,6 +7,7 @@
 package skiplistmap
 
 import (
+	"math/bits"
 	"reflect"
 	"sync/atomic"
 	"unsafe"
@@ -86,7 +87,8 @@ func (s *SampleItem) SetValue(v interface{}) bool {
 }
 
 func (s *SampleItem) Setup() {
-	s.reverse, s.conflict = KeyToHash(s.Key())
+	k, conflict := KeyToHash(s.Key())
+	s.reverse, s.conflict = bits.Reverse64(k), conflict
 
 }
 
-- 
2.43.0


From 04038efa51a1dda2eae21a8b1012c6781a62da93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 04/29] fix: do not share the options of a search between
 goroutines

find() and SearchKey() switched ignoreBucketEntry on one global object for the
time of the call, so searches running at the same time, even on another Map,
changed what each other sees: an insertion could skip the dummies and drop the
item, and the option could stay switched.
---
 map.go | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/map.go b/map.go
index 85e2003..2677646 100644
--- a/map.go
+++ b/map.go
@@ -739,14 +739,8 @@ func (h *Map) each(start *elist_head.ListHead, fn func(key, value interface{}))
 // must renename to find
 func (h *Map) find(start *elist_head.ListHead, cond func(HMapEntry) bool, opts ...searchArg) (result HMapEntry, cnt int) {
 
-	conf := sharedSearchOpt(nil)
-	previous := conf.Options(opts...)
-	defer func() {
-		if previous != nil {
-			conf.Options(previous)
-			sharedSearchOpt(conf)
-		}
-	}()
+	conf := newSearchOpt()
+	conf.Options(opts...)
 	cnt = 0
 	var e MapItem
 	if start.Empty() {
@@ -1325,10 +1319,14 @@ func prevAsE(e HMapEntry) HMapEntry {
 var _sharedSearchOpt atomic.Value
 
 func init() {
-	o := &searchOpt{}
-	o._ignoreBucketEntry.Store(true)
+	_sharedSearchOpt.Store(newSearchOpt())
+}
 
-	_sharedSearchOpt.Store(o)
+// newSearchOpt ... default option for one search
+func newSearchOpt() (o *searchOpt) {
+	o = &searchOpt{}
+	o._ignoreBucketEntry.Store(true)
+	return
 }
 
 type searchOpt struct {
@@ -1373,14 +1371,8 @@ func (o *searchOpt) Options(opts ...searchArg) (previous searchArg) {
 }
 func (h *Map) SearchKey(k uint64, opts ...searchArg) HMapEntry {
 
-	conf := sharedSearchOpt(nil)
-	previous := conf.Options(opts...)
-	defer func() {
-		if previous != nil {
-			conf.Options(previous)
-			sharedSearchOpt(conf)
-		}
-	}()
+	conf := newSearchOpt()
+	conf.Options(opts...)
 	return h.searchKey(k, conf.ignoreBucketEntry())
 
 }
-- 
2.43.0


From a50c544f8c4ccf48f0008f88160d67e8a6c86db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 05/29] fix: find items whose hash is equal to the boundary of
 a bucket

The dummy of a bucket was inserted behind items of the same reverse and the
search ran in the wrong direction from it, and an item with the largest
reverse was dropped.
---
 map.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/map.go b/map.go
index 2677646..fac57c3 100644
--- a/map.go
+++ b/map.go
@@ -934,6 +934,10 @@ func (h *Map) add2(start *elist_head.ListHead, e HMapEntry, opts ...HMethodOpt)
 		if !e.PtrListHead().IsSingle() {
 			Log(LogWarn, "add2: element for insertion  is not single ")
 		}
+		if e.PtrMapHead().IsDummy() {
+			// dummy of bucket must be placed before all items of the bucket.
+			return e.PtrMapHead().reverse <= ehead.PtrMapHead().reverse
+		}
 		return e.PtrMapHead().reverse < ehead.PtrMapHead().reverse
 	}, ignoreBucketEntry(false))
 	if !e.PtrListHead().IsSingle() {
@@ -996,6 +1000,14 @@ func (h *Map) add2(start *elist_head.ListHead, e HMapEntry, opts ...HMethodOpt)
 
 		return true
 	}
+	if e.PtrMapHead().reverse == ^uint64(0) {
+		// no entry is larger. place it just before the dummy which terminates the list.
+		_, err := inserBeforeWithCheck(h.tail.Prev(), e.PtrListHead())
+		if err != nil {
+			Log(LogError, "fail insert")
+		}
+		return err == nil
+	}
 	if opt != nil && opt.bucket != nil && opt.bucket.entry(h) != nil {
 		// pos, _ = h.find(start, func(ehead HMapEntry) bool {
 		// 	return e.PtrMapHead().reverse < ehead.PtrMapHead().reverse
@@ -1467,7 +1479,8 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 		lbNext = lbCur.NextOnLevel()
 	}
 
-	if lbNext.reverse < reverseNoMask {
+	// items having same reverse are placed after dummy, except for dummy which terminates the list.
+	if lbNext.reverse <= reverseNoMask && lbNext.reverse != ^uint64(0) {
 		result := lbNext.entry(h)
 
 		// FIXME: why fail to get
-- 
2.43.0


From 868e1f2b559cebb9c115aa4c94fe4764af9f442d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 06/29] fix: tell keys of the same hash apart, and do not
 return a deleted item

Only the first entry with the wanted hash was compared with the second hash,
so a colliding key was not found and Set() inserted it again and again. The
search in the embedded pool returned a deleted item if it is first of the pool.
---
 map.go          | 38 +++++++++++++++++++++++++++-----------
 map_embedded.go | 20 ++++++++++++++------
 2 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/map.go b/map.go
index fac57c3..36eeb0f 100644
--- a/map.go
+++ b/map.go
@@ -450,7 +450,7 @@ func (h *Map) _get(k, conflict uint64) (MapItem, bool) {
 		DebugStats[CntOfGet]++
 		h.mu.Unlock()
 	}
-	e := h.searchKey(k, true)
+	e := h.searchKey(k, true, conflictMatcher(conflict))
 	if e == nil {
 		if Failreverse == 0 {
 			Failreverse = bits.Reverse64(k)
@@ -478,14 +478,14 @@ func (h *Map) getWithBucket(k, conflict uint64) (MapItem, *bucket, bool) {
 	if h.isEmbededItemInBucket {
 		reverse = bits.Reverse64(k)
 		bucket = h.findBucket(reverse)
-		e = h.bsearchBybucket(bucket, reverse, true)
+		e = h.bsearchBybucket(bucket, reverse, true, conflictMatcher(conflict))
 
 	} else {
 		bucket, reverse = h.searchBucket4update(k)
 		if !h.isEmbededItemInBucket && bucket.head() == nil {
 			bucket, reverse = h.searchBucket4update(k)
 		}
-		e = h.searchBybucket(bucket, reverse, true)
+		e = h.searchBybucket(bucket, reverse, true, conflictMatcher(conflict))
 	}
 
 	if e == nil {
@@ -1385,15 +1385,25 @@ func (h *Map) SearchKey(k uint64, opts ...searchArg) HMapEntry {
 
 	conf := newSearchOpt()
 	conf.Options(opts...)
-	return h.searchKey(k, conf.ignoreBucketEntry())
+	return h.searchKey(k, conf.ignoreBucketEntry(), nil)
 
 }
 
-func (h *Map) searchKey(k uint64, ignoreBucketEnry bool) HMapEntry {
+// itemMatcher ... select an item from the items which have same reverse. nil is to select first one.
+type itemMatcher func(*MapHead) bool
+
+func conflictMatcher(conflict uint64) itemMatcher {
+	return func(mhead *MapHead) bool {
+		return atomic.LoadUint64(&mhead.conflict) == conflict
+	}
+}
+
+func (h *Map) searchKey(k uint64, ignoreBucketEnry bool, match itemMatcher) HMapEntry {
 	if h.isEmbededItemInBucket {
-		return h.searchKeyFromEmbeddedPool(k, ignoreBucketEnry)
+		return h.searchKeyFromEmbeddedPool(k, ignoreBucketEnry, match)
 	}
-	return h.searchBybucket(h.searchBucket4Key4(k, ignoreBucketEnry))
+	b, reverse, ignore := h.searchBucket4Key4(k, ignoreBucketEnry)
+	return h.searchBybucket(b, reverse, ignore, match)
 }
 
 func (h *Map) topLevelBucket(reverse uint64) *bucket {
@@ -1459,16 +1469,16 @@ func nearBucketFromCache(levels [16]*bucket, lbNext *bucket, reverseNoMask uint6
 	return
 }
 
-func (h *Map) searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketEnry bool) HMapEntry {
+func (h *Map) searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketEnry bool, match itemMatcher) HMapEntry {
 	if h.isEmbededItemInBucket {
 		Log(LogWarn, "should use bsearchBybucket() not searchBybucket() in embedded bucket")
-		return h.bsearchBybucket(lbCur, reverseNoMask, ignoreBucketEnry)
+		return h.bsearchBybucket(lbCur, reverseNoMask, ignoreBucketEnry, match)
 	}
 
-	return h._searchBybucket(lbCur, reverseNoMask, ignoreBucketEnry)
+	return h._searchBybucket(lbCur, reverseNoMask, ignoreBucketEnry, match)
 }
 
-func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketEnry bool) HMapEntry {
+func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketEnry bool, match itemMatcher) HMapEntry {
 	if lbCur == nil {
 		return nil
 	}
@@ -1520,6 +1530,9 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 				continue
 			}
 			if curReverse == reverseNoMask {
+				if match != nil && !match(cur) {
+					continue
+				}
 				return result.HmapEntryFromListHead(cur.PtrListHead())
 			}
 			return nil
@@ -1541,6 +1554,9 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 			continue
 		}
 		if curReverse == reverseNoMask {
+			if match != nil && !match(cur) {
+				continue
+			}
 			return result.HmapEntryFromListHead(cur.PtrListHead())
 		}
 
diff --git a/map_embedded.go b/map_embedded.go
index 0012d26..8cbd256 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -18,7 +18,7 @@ import (
 	"github.com/lk4d4/trylock"
 )
 
-func (h *Map) bsearchBybucket(bucket *bucket, reverseNoMask uint64, ignoreBucketEnry bool) HMapEntry {
+func (h *Map) bsearchBybucket(bucket *bucket, reverseNoMask uint64, ignoreBucketEnry bool, match itemMatcher) HMapEntry {
 
 	pool := bucket.toBase().itemPool()
 	// FIXME: why fail to get
@@ -31,15 +31,23 @@ func (h *Map) bsearchBybucket(bucket *bucket, reverseNoMask uint64, ignoreBucket
 	l := items.Len()
 
 	idx := sort.Search(l, func(i int) bool {
-		item := items._at(i, true, true)
+		// MENTION: deleted item keep reverse.
+		item := items._at(i, true, false)
 		if item == nil {
 			return true
 		}
 		return atomic.LoadUint64(&item.reverse) >= reverseNoMask
 		//return items.reverseAt(i) >= reverseNoMask
 	})
-	if idx < l && items.reverseAt(idx) == reverseNoMask {
-		return items._at(idx, true, true)
+	for ; idx < l && items.reverseAt(idx) == reverseNoMask; idx++ {
+		item := items._at(idx, true, false)
+		if item == nil {
+			break
+		}
+		if item.IsIgnored() || (match != nil && !match(item.PtrMapHead())) {
+			continue
+		}
+		return item
 	}
 
 	a := bucket.toBase().prevAsB()
@@ -51,10 +59,10 @@ func (h *Map) bsearchBybucket(bucket *bucket, reverseNoMask uint64, ignoreBucket
 	return nil
 }
 
-func (h *Map) searchKeyFromEmbeddedPool(k uint64, ignoreBucketEnry bool) HMapEntry {
+func (h *Map) searchKeyFromEmbeddedPool(k uint64, ignoreBucketEnry bool, match itemMatcher) HMapEntry {
 	rev := bits.Reverse64(k)
 	//return h.searchByEmbeddedbucket(h.findBucket(rev), rev, ignoreBucketEnry)
-	return h.bsearchBybucket(h.findBucket(rev), rev, ignoreBucketEnry)
+	return h.bsearchBybucket(h.findBucket(rev), rev, ignoreBucketEnry, match)
 
 }
 
-- 
2.43.0


From 4c1f7cd71b6c7a658f90a96c67900addab69e71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 07/29] fix: keep items of a map alive

Items are linked by relative offsets, which the garbage collector does not
follow. An item made by Set() without a pool, an item given to StoreItem() and
the items of a pool removed by UsePool(false) were freed while linked.
---
 map.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/map.go b/map.go
index 36eeb0f..31adb27 100644
--- a/map.go
+++ b/map.go
@@ -59,6 +59,11 @@ type Map struct {
 
 	pooler *Pool
 
+	// list has only relative offset, gc cannot find items from it.
+	// so items and pools not referred from others must be kept here.
+	retainItems []MapItem
+	retainPools []*Pool
+
 	isEmbededItemInBucket bool
 }
 
@@ -121,6 +126,9 @@ func ItemFn(fn func() MapItem) OptHMap {
 func UsePool(enable bool) OptHMap {
 	return func(h *Map) OptHMap {
 		if !enable {
+			if h.pooler != nil {
+				h.retainPools = append(h.retainPools, h.pooler)
+			}
 			h.pooler = nil
 		} else if h.pooler == nil {
 			h.pooler = newPool()
@@ -683,6 +691,7 @@ func (h *Map) Set(key, value interface{}) bool {
 		}
 	} else {
 		s = &SampleItem{}
+		h.retain(s)
 	}
 
 	s.K = key.(string)
@@ -713,9 +722,17 @@ func (h *Map) StoreItem(item MapItem) bool {
 		return h._update(oitem, item.Value())
 	}
 
+	h.retain(item)
 	return h._set(k, conflict, bucket, item)
 }
 
+// retain ... keep item referred until map is released.
+func (h *Map) retain(item MapItem) {
+	h.mu.Lock()
+	h.retainItems = append(h.retainItems, item)
+	h.mu.Unlock()
+}
+
 func (h *Map) eachEntry(start *elist_head.ListHead, fn func(*entryHMap)) {
 	for cur := start; !cur.Empty(); cur = cur.Next() {
 		e := entryHMapFromListHead(cur)
-- 
2.43.0


From f2e764f2164c7f6a5e1615d6540d4e5cd852b8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 08/29] fix: read items given to StoreItem() with their own
 type

Without the ItemFn option (as in README) the map kept reading the stored items
as entryHMap, so Get() and RangeItem() returned garbage.
---
 map.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/map.go b/map.go
index 31adb27..30ab207 100644
--- a/map.go
+++ b/map.go
@@ -722,6 +722,16 @@ func (h *Map) StoreItem(item MapItem) bool {
 		return h._update(oitem, item.Value())
 	}
 
+	// default ItemFn cannot read the item other than entryHMap.
+	if _, ok := h.ItemFn().(*entryHMap); ok {
+		switch item.(type) {
+		case *entryHMap:
+		case *SampleItem:
+			ItemFn(func() MapItem { return EmptySampleHMapEntry })(h)
+		default:
+			ItemFn(func() MapItem { return item })(h)
+		}
+	}
 	h.retain(item)
 	return h._set(k, conflict, bucket, item)
 }
-- 
2.43.0


From 163c6e57788a3aab7058bae46cf43328fd82adf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 09/29] fix: keep the items of an embedded pool ordered and
 linked

- getWithFn() left the bucket locked on some paths: the next Set() after
  Delete()/Purge() waited for ever. It now locks once and unlocks by one func.
- deleted items were skipped when looking for the position of a new item and of
  a split, so the pool and the list got different orders and keys were lost.
- Purge() unlinked an item in the middle of a pool, shrinkLen() dropped a live
  item, a reused item kept its old value.
- makeBucket2() left a half made bucket behind if one side of the split was
  empty, and itemPool() of it never returned.
- items were copied as bytes on expand, hidden from the garbage collector.
---
 map.go          |  26 +----
 map_embedded.go | 253 ++++++++++++++++--------------------------------
 2 files changed, 88 insertions(+), 191 deletions(-)

diff --git a/map.go b/map.go
index 30ab207..04e7936 100644
--- a/map.go
+++ b/map.go
@@ -1630,35 +1630,15 @@ func (h *Map) purgeInEmbedded(key interface{}) bool {
 		return false
 	}
 
-	// remove item
-	// 1. item status to remove
-	// 2. purge from linked-list
-	// 3. insert free list ( keep pointer order ?)
-
 	pool := bucket.itemPool()
 	if pool == nil {
 		return false
 	}
+	// MENTION: items of pool must be linked in order of pool. so item in the middle of pool is kept linked
+	// and is reused by pool.getWithFn()
 	item.Delete()
 	h.AddLen(-1)
-
-	pOpts := elist_head.SharedTrav(list_head.WaitNoM())
-	item.PtrListHead().MarkForDelete()
-	elist_head.SharedTrav(pOpts...)
-	item.PtrListHead().Init()
-
-	pItems := pool.ptrItems()
-	len := pItems.Len()
-	if item.PtrListHead() == &pItems._at(len-1, true, false).ListHead &&
-		atomic_util.CompareAndSwapInt(&pItems.len, len, len-1) {
-		pool.shrinkLen()
-		return true
-	}
-
-	err := pool.PushWithOrder(item.(*SampleItem))
-	if err != nil {
-		return false
-	}
+	pool.shrinkLen()
 	return true
 }
 
diff --git a/map_embedded.go b/map_embedded.go
index 8cbd256..4610d67 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -15,7 +15,6 @@ import (
 	"github.com/kazu/elist_head"
 	list_head "github.com/kazu/loncha/lista_encabezado"
 	"github.com/kazu/skiplistmap/atomic_util"
-	"github.com/lk4d4/trylock"
 )
 
 func (h *Map) bsearchBybucket(bucket *bucket, reverseNoMask uint64, ignoreBucketEnry bool, match itemMatcher) HMapEntry {
@@ -77,6 +76,21 @@ func (h *Map) makeBucket2(bucket *bucket) (err error) {
 	if newReverse&1 > 0 {
 		newReverse++
 	}
+	// cannot divide any more. bucket of 16th level is not looked up by findBucket()
+	if newReverse <= bucket.reverse || newReverse >= nextReverse || newReverse&0xf > 0 {
+		return ErrBucketAllocatedFail
+	}
+
+	olen := bucket.itemPool().len()
+	if olen < 2 {
+		return nil
+	}
+	idx, err := bucket.itemPool().findIdx(newReverse)
+	if err != nil {
+		// all items remain in bucket. new bucket is empty.
+		idx, err = olen, nil
+	}
+
 	b := h.bucketFromPoolEmbedded(newReverse)
 	if b == nil {
 		return ErrBucketAllocatedFail
@@ -91,12 +105,6 @@ func (h *Map) makeBucket2(bucket *bucket) (err error) {
 	b.LevelHead.Init()
 	b.initItemPool()
 
-	idx, err := bucket.itemPool().findIdx(newReverse)
-	if err != nil || idx == 0 {
-		return err
-	}
-
-	olen := len(bucket.itemPool().items)
 	nPool, err2 := bucket.itemPool()._split(idx, false)
 	_ = err2
 	b.setItemPool(nPool)
@@ -252,13 +260,13 @@ func (sp *samepleItemPool) cap() (l int) {
 	return sp.ptrItems().Cap()
 }
 
-func (sp *samepleItemPool) state4get(reverse uint64, tail int, len int, cap int) byte {
+func (sp *samepleItemPool) state4get(reverse uint64, len int, cap int) byte {
 
-	if len == 0 {
+	if len == 0 && cap > 0 {
 		return getEmpty
 	}
 
-	if _, found := sp.bsearchFromFreeList(reverse, tail); found {
+	if _, found := sp.bsearchFromFreeList(reverse); found {
 		return foundFree
 	}
 
@@ -266,9 +274,10 @@ func (sp *samepleItemPool) state4get(reverse uint64, tail int, len int, cap int)
 		return getNoCap
 	}
 
+	// MENTION: deleted item is also keep order.
 	items := sp.itemSlice(false)
-	last := items._at(tail, false, true)
-	if atomic.LoadUint64(&last.reverse) < reverse {
+	last := items._at(len-1, false, false)
+	if atomic.LoadUint64(&last.reverse) <= reverse {
 		return getLargest
 	}
 
@@ -276,15 +285,16 @@ func (sp *samepleItemPool) state4get(reverse uint64, tail int, len int, cap int)
 
 }
 
-func (sp *samepleItemPool) bsearchFromFreeList(reverse uint64, tail int) (int, bool) {
+// bsearchFromFreeList ... find deleted item which can be reused for reverse without changing order
+func (sp *samepleItemPool) bsearchFromFreeList(reverse uint64) (int, bool) {
 
 	items := sp.ptrItems()
 
-	idx := sort.Search(tail, func(i int) bool {
+	idx := sort.Search(items.Len(), func(i int) bool {
 		item := items._at(i, true, false)
 		return atomic.LoadUint64(&item.reverse) > reverse
 	})
-	if idx <= 1 || idx > tail {
+	if idx < 1 {
 		return -1, false
 	}
 	mItem := items._at(idx-1, true, false)
@@ -306,32 +316,24 @@ func lazyUnlock(mu sync.Locker) {
 
 type unlocker func(mu sync.Locker)
 
-func (sp *samepleItemPool) appendLast(mu sync.Locker) (newItem MapItem, nPool *samepleItemPool, fn unlocker) {
-
-	if mu != nil {
-		mu.Lock()
-		fn = lazyUnlock
-	}
+func (sp *samepleItemPool) appendLast() (newItem MapItem) {
 
-	var new *SampleItem
 	items := sp.ptrItems()
 	l := items.Len()
 	if l >= items.Cap() {
-		return nil, nil, fn
+		return nil
 	}
+	new := items._at(l, false, false)
+	// maybe used before shrinkLen()
+	*new = SampleItem{}
 	if atomic_util.CompareAndSwapInt(&items.len, l, l+1) {
-		new = items.at(l)
-		return new, nil, fn
+		return new
 	}
 	Log(LogWarn, "retry to fail to expand")
-	return nil, nil, fn
+	return nil
 }
 
-func (sp *samepleItemPool) insertToPool(reverse uint64, mu sync.Locker) (newItem MapItem, nPool *samepleItemPool, fn unlocker) {
-	if mu != nil {
-		mu.Lock()
-		fn = lazyUnlock
-	}
+func (sp *samepleItemPool) insertToPool(reverse uint64) (newItem MapItem) {
 
 	olen := len(sp.items)
 	ocap := cap(sp.items)
@@ -346,28 +348,16 @@ func (sp *samepleItemPool) insertToPool(reverse uint64, mu sync.Locker) (newItem
 	}
 	// FIXME: should disable not IsDebug()
 	//sp.validateItems()
-	if olen != len(sp.items) {
-		Log(LogDebug, "update olen")
-		return sp.getWithFn(reverse, nil)
-	}
-	//olen = len(sp.items)
-	nlen := int64(olen)
 
 	for i := 0; i < olen; i++ {
 		//for i := range sp.items {
-		if sp.items[i].IsIgnored() {
-			continue
-		}
-		if sp.items[i].reverse < reverse {
+		// MENTION: must be same order as Map.add2(). deleted items are also linked.
+		if sp.items[i].reverse <= reverse {
 			continue
 		}
 		if i == olen-1 {
 			//fmt.Printf("invalid")
 		}
-		if !atomic.CompareAndSwapInt64(&nlen, int64(len(sp.items)), nlen+1) {
-			Log(LogDebug, "update olen")
-			return sp.getWithFn(reverse, nil)
-		}
 		var err error
 		prevItem := sp.items[0].ListHead.Prev()
 		nextItem := sp.items[olen-1].ListHead.Next()
@@ -443,144 +433,74 @@ func (sp *samepleItemPool) insertToPool(reverse uint64, mu sync.Locker) (newItem
 			Log(LogFatal, "not connect sp.items[olen-1]=%p <- sp.items[olen]=%p", p, c)
 		}
 
-		return &sp.items[i], nil, lazyUnlock
+		return &sp.items[i]
 	}
-	return sp.getWithFn(reverse, nil)
-	//return nil, nil, nil
+	return nil
 
 }
 
+// getWithFn ... get new item for reverse.
+// mu is locked until caller call fn. fn is nil if mu is nil.
 //go:norace
 func (sp *samepleItemPool) getWithFn(reverse uint64, mu sync.Locker) (new MapItem, nPool *samepleItemPool, fn unlocker) {
 
-	lastActiveIdx := -1
-
-	items := *sp.ptrItems()
-	olen := items.Len()
-	ocap := items.Cap()
-
-	for i := olen - 1; i >= 0; i-- {
-		pItem := items.at(i)
-		if pItem == nil {
-			continue
-		}
-		item := *pItem
-		if item.IsIgnored() {
-			continue
-		}
-		lastActiveIdx = i
-		break
+	if mu != nil {
+		mu.Lock()
+		fn = lazyUnlock
 	}
 
-	defer func() {
-		if new == nil {
-			Log(LogWarn, "getWithFn(): item is nil")
-		}
-
-	}()
-
-	// for debug
-	//lastgets = append(lastgets, sp.state4get(reverse, lastActiveIdx))
-	switch sp.state4get(reverse, lastActiveIdx, olen, ocap) {
-	case getEmpty, getLargest:
-		nmu := mu
-		new, nPool, fn = sp.appendLast(nmu)
-		if new != nil {
-			return
-		}
-		for {
-			if fn != nil {
-				nmu = nil
+	for new == nil {
+		//lastgets = append(lastgets, sp.state4get(reverse, lastActiveIdx))
+		switch sp.state4get(reverse, sp.len(), sp.cap()) {
+		case getEmpty, getLargest:
+			new = sp.appendLast()
+		case getNoCap:
+			if err := sp.expand(); err != nil {
+				Log(LogWarn, "pool.expand() require retry")
 			}
-			if nPool == nil {
-				nPool = sp
-			}
-			new, nPool, fn = nPool.getWithFn(reverse, nmu)
-			if new != nil {
-				return
-			}
-
-		}
-	case getNoCap:
-		fn, err := sp.expand(mu)
-		if err != nil {
-			Log(LogWarn, "pool.expand() require retry")
-		}
-		new, nPool, _ = sp.getWithFn(reverse, nil)
-		return new, nPool, fn
-	case foundFree:
-		if mu != nil && !mu.(*trylock.Mutex).TryLock() {
-			mu.Lock()
-			mu.Unlock()
-		}
-
-		idx, found := sp.bsearchFromFreeList(reverse, lastActiveIdx)
-		if !found {
-			goto RETRY
+		case foundFree:
+			new = sp.reuseFree(reverse)
+		default:
+			new = sp.insertToPool(reverse)
 		}
-		items := sp.itemSlice(false)
-		new = items._at(idx, true, false)
-		if new == nil {
-			goto RETRY
-		}
-		oState := atomic.LoadUint32((*uint32)(&(new.PtrMapHead().state)))
-		oReverse := atomic.LoadUint64(&new.PtrMapHead().reverse)
-
-		if oState&uint32(mapIsDeleted) == 0 {
-			goto RETRY
-		}
-		if !atomic.CompareAndSwapUint64(&new.PtrMapHead().reverse, oReverse, 0) {
-			goto RETRY
-		}
-		atomic.StoreUint64(&new.PtrMapHead().conflict, 0)
-
-		if !atomic.CompareAndSwapUint32((*uint32)(&(new.PtrMapHead().state)), oState, 0) {
-			atomic.StoreUint64(&new.PtrMapHead().reverse, oReverse)
-			goto RETRY
-		}
-		new.PtrListHead().MarkForDelete()
-		if mu != nil {
-			fn = lazyUnlock
-		}
-		return new, nil, fn
 	}
+	return
 
-	return sp.insertToPool(reverse, mu)
+}
 
-RETRY:
-	return sp.getWithFn(reverse, mu)
+func (sp *samepleItemPool) reuseFree(reverse uint64) (new MapItem) {
 
+	idx, found := sp.bsearchFromFreeList(reverse)
+	if !found {
+		return nil
+	}
+	item := sp.ptrItems()._at(idx, true, false)
+	if item == nil {
+		return nil
+	}
+	if item.PtrListHead().MarkForDelete() != nil {
+		return nil
+	}
+	*item = SampleItem{}
+	return item
 }
 
-func (sp *samepleItemPool) expand(mu sync.Locker) (unlocker, error) {
-	var fn unlocker
-	if mu != nil {
-		mu.Lock()
-		fn = lazyUnlock
-	}
+func (sp *samepleItemPool) expand() error {
 
 	olen := len(sp.items)
-	//ocap := cap(sp.items)
-
-	if olen != len(sp.items) {
-		Log(LogDebug, "update olen")
-		return sp.expand(nil)
-	}
-	nlen := int64(olen)
+	nCap := PoolCap(len(sp.items))
 
-	if !atomic.CompareAndSwapInt64(&nlen, int64(len(sp.items)), nlen+1) {
-		Log(LogDebug, "update olen")
-		return sp.expand(nil)
+	if olen == 0 {
+		sp.items = make([]SampleItem, 0, nCap)
+		return nil
 	}
 
 	var err error
 	prevItem := sp.items[0].ListHead.Prev()
 	nextItem := sp.items[olen-1].ListHead.Next()
 
-	nCap := PoolCap(len(sp.items))
-
 	newItems := make([]SampleItem, olen, nCap)
-	toPtrItemSlice(&newItems).CopyDataFrom(0, sp.ptrItems(), 0, olen)
+	copy(newItems, sp.items)
 
 	newListHead := &elist_head.ListHead{}
 	newListTail := &elist_head.ListHead{}
@@ -617,7 +537,7 @@ func (sp *samepleItemPool) expand(mu sync.Locker) (unlocker, error) {
 		fmt.Printf("A: itemPool.items\n%s\n", b.String())
 	}
 
-	return fn, nil
+	return nil
 
 }
 
@@ -636,10 +556,8 @@ func nextListHeadOfSampleItem() elist_head.ListHead {
 
 func (sp *samepleItemPool) findIdx(reverse uint64) (int, error) {
 
+	// MENTION: deleted items also move to new pool
 	for i := range sp.items {
-		if sp.items[i].IsIgnored() {
-			continue
-		}
 		if reverse <= sp.items[i].reverse {
 			return i, nil
 		}
@@ -655,7 +573,7 @@ func (sp *samepleItemPool) split(idx int) (nPool *samepleItemPool, err error) {
 func (sp *samepleItemPool) _split(idx int, connect bool) (nPool *samepleItemPool, err error) {
 
 	nlen := int64(len(sp.items))
-	if int(nlen) <= idx {
+	if int(nlen) < idx {
 		return nil, ErrIdxOverflow
 	}
 
@@ -717,21 +635,20 @@ ADD_LAST:
 	return err
 }
 
+// shrinkLen ... remove deleted items from tail of pool.
 func (sp *samepleItemPool) shrinkLen() {
 
 	pItemSlice := sp.ptrItems()
-	l := pItemSlice.Len()
-	for i := l - 1; i > -1; i-- {
-		item := pItemSlice._at(i, true, false)
+	for l := pItemSlice.Len(); l > 0; l-- {
+		item := pItemSlice._at(l-1, true, false)
 		if item == nil || !item.IsDeleted() {
 			break
 		}
-		if !atomic_util.CompareAndSwapInt(&pItemSlice.len, l, i-1) {
+		item.PtrListHead().MarkForDelete()
+		item.PtrListHead().Init()
+		if !atomic_util.CompareAndSwapInt(&pItemSlice.len, l, l-1) {
 			break
 		}
-		if !item.Empty() {
-			item.MarkForDelete()
-		}
 	}
 }
 
-- 
2.43.0


From e5ad7919dec386c77fbfb079d4c99991376e7cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 10/29] fix: StoreItem() on a map with embedded pools

The item was linked to the list but not added to the pool of the bucket, so it
could never be found, and it broke the order of the pool.
---
 map.go | 67 +++++++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 45 insertions(+), 22 deletions(-)

diff --git a/map.go b/map.go
index 04e7936..d2fb2a1 100644
--- a/map.go
+++ b/map.go
@@ -631,28 +631,9 @@ func (h *Map) Set(key, value interface{}) bool {
 
 	if h.isEmbededItemInBucket {
 		k, conflict := KeyToHash(key)
-		var nPool *samepleItemPool
-
-		//lastgets = nil
-		oPool := bucket.itemPool()
-		item, nPool, fn := oPool.getWithFn(bits.Reverse64(k), &bucket.muPool)
-		if fn != nil {
-			defer fn(&bucket.muPool)
-		}
-
-		s = item.(*SampleItem)
-		if nPool != nil {
-			bucket.setItemPool(nPool)
-		}
-
-		// s.PtrMapHead().reverse = bits.Reverse64(k)
-		// s.PtrMapHead().conflict = conflict
-		if !atomic.CompareAndSwapUint64(&s.PtrMapHead().reverse, 0, bits.Reverse64(k)) {
-			Log(LogDebug, "already set reverse")
-		}
-		if !atomic.CompareAndSwapUint64(&item.PtrMapHead().conflict, 0, conflict) {
-			Log(LogDebug, "already set conflict")
-		}
+		var unlock func()
+		s, unlock = h.itemFromBucket(bucket, k, conflict)
+		defer unlock()
 	} else if h.pooler != nil {
 		k, _ := KeyToHash(key)
 		var wg sync.WaitGroup
@@ -722,6 +703,20 @@ func (h *Map) StoreItem(item MapItem) bool {
 		return h._update(oitem, item.Value())
 	}
 
+	if h.isEmbededItemInBucket {
+		// items are only in the pool of bucket. so store the copy of item.
+		key, ok := item.Key().(string)
+		if !ok {
+			return false
+		}
+		s, unlock := h.itemFromBucket(bucket, k, conflict)
+		defer unlock()
+		s.K = key
+		s.SetValue(item.Value())
+		ItemFn(func() MapItem { return EmptySampleHMapEntry })(h)
+		return h._set(k, conflict, bucket.toBase(), s)
+	}
+
 	// default ItemFn cannot read the item other than entryHMap.
 	if _, ok := h.ItemFn().(*entryHMap); ok {
 		switch item.(type) {
@@ -736,6 +731,34 @@ func (h *Map) StoreItem(item MapItem) bool {
 	return h._set(k, conflict, bucket, item)
 }
 
+// itemFromBucket ... get new item from the embedded pool of bucket.
+// pool is locked until unlock is called
+func (h *Map) itemFromBucket(bucket *bucket, k, conflict uint64) (s *SampleItem, unlock func()) {
+	//lastgets = nil
+	oPool := bucket.itemPool()
+	item, nPool, fn := oPool.getWithFn(bits.Reverse64(k), &bucket.muPool)
+	unlock = func() {
+		if fn != nil {
+			fn(&bucket.muPool)
+		}
+	}
+
+	s = item.(*SampleItem)
+	if nPool != nil {
+		bucket.setItemPool(nPool)
+	}
+
+	// s.PtrMapHead().reverse = bits.Reverse64(k)
+	// s.PtrMapHead().conflict = conflict
+	if !atomic.CompareAndSwapUint64(&s.PtrMapHead().reverse, 0, bits.Reverse64(k)) {
+		Log(LogDebug, "already set reverse")
+	}
+	if !atomic.CompareAndSwapUint64(&item.PtrMapHead().conflict, 0, conflict) {
+		Log(LogDebug, "already set conflict")
+	}
+	return s, unlock
+}
+
 // retain ... keep item referred until map is released.
 func (h *Map) retain(item MapItem) {
 	h.mu.Lock()
-- 
2.43.0


From 03e40b872d6cd8b5ab3d391889d28f6f216df83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 11/29] fix: do not take an item from the pool for a key which
 cannot be stored

Set() of a new key which is not a string panics. It did so after taking an item,
leaving an item without key in the pool.
---
 map.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/map.go b/map.go
index d2fb2a1..a278a3a 100644
--- a/map.go
+++ b/map.go
@@ -617,6 +617,9 @@ func (h *Map) Set(key, value interface{}) bool {
 		}
 	}
 
+	// panic before taking item from pool, if key cannot be stored.
+	kstr := key.(string)
+
 	var s *SampleItem
 	useDump := false
 
@@ -675,7 +678,7 @@ func (h *Map) Set(key, value interface{}) bool {
 		h.retain(s)
 	}
 
-	s.K = key.(string)
+	s.K = kstr
 	s.SetValue(value)
 
 	if _, ok := h.ItemFn().(*SampleItem); !ok {
-- 
2.43.0


From 02399118dfbea78d2c884af96835313d9c30c5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 12/29] fix: allow to use a map from several goroutines

README says that a Map needs no locking by the caller. But inserting items
relinks, copies and splits pools and buckets while others search: concurrent
Set() lost keys or crashed, Get() missed keys and Delete() raced with both.
Adding and removing now excludes the others. Search, traversal and update of
the value run concurrently. Range() and RangeItem() work on a snapshot, their
callback is free to change the map.
---
 map.go          | 154 ++++++++++++++++++++++++++++++++++++++++--------
 map_embedded.go |   2 +-
 pool2.go        |   3 -
 3 files changed, 130 insertions(+), 29 deletions(-)

diff --git a/map.go b/map.go
index a278a3a..ba8a253 100644
--- a/map.go
+++ b/map.go
@@ -53,6 +53,7 @@ type Map struct {
 
 	modeForBucket SearchMode
 	mu            sync.Mutex
+	rwmu          sync.RWMutex // write: add/remove items and buckets. read: search, traverse, update value.
 	levels        [16]atomic.Value
 
 	ItemFn func() MapItem
@@ -152,6 +153,8 @@ func UseEmbeddedPool(enable bool) OptHMap {
 }
 
 func (h *Map) Options(opts ...OptHMap) (previouses []OptHMap) {
+	h.rwmu.Lock()
+	defer h.rwmu.Unlock()
 
 	for _, fn := range opts {
 		previouses = append(previouses, fn(h))
@@ -165,8 +168,11 @@ func New(opts ...OptHMap) *Map {
 
 }
 
-func NewHMap(opts ...OptHMap) *Map {
+func init() {
 	list_head.MODE_CONCURRENT = true
+}
+
+func NewHMap(opts ...OptHMap) *Map {
 	hmap := &Map{
 		len:          0,
 		maxPerBucket: 32,
@@ -305,8 +311,8 @@ func (h *Map) initBeforeSet() {
 	if EnableStats {
 		old := logio
 		logio = os.Stderr
-		h.DumpBucket(logio)
-		h.DumpEntry(logio)
+		h.dumpBucket(logio)
+		h.dumpEntry(logio)
 		logio = old
 	}
 }
@@ -460,9 +466,7 @@ func (h *Map) _get(k, conflict uint64) (MapItem, bool) {
 	}
 	e := h.searchKey(k, true, conflictMatcher(conflict))
 	if e == nil {
-		if Failreverse == 0 {
-			Failreverse = bits.Reverse64(k)
-		}
+		atomic.CompareAndSwapUint64(&Failreverse, 0, bits.Reverse64(k))
 		return nil, false
 	}
 	if e.PtrMapHead().reverse != bits.Reverse64(k) || e.PtrMapHead().conflict != conflict {
@@ -497,9 +501,7 @@ func (h *Map) getWithBucket(k, conflict uint64) (MapItem, *bucket, bool) {
 	}
 
 	if e == nil {
-		if Failreverse == 0 {
-			Failreverse = bits.Reverse64(k)
-		}
+		atomic.CompareAndSwapUint64(&Failreverse, 0, bits.Reverse64(k))
 		return nil, bucket, false
 	}
 	if ereverse := atomic.LoadUint64(&e.PtrMapHead().reverse); ereverse != bits.Reverse64(k) {
@@ -541,6 +543,9 @@ func (h *Map) searchBucket(k uint64) (result *bucket) {
 
 // Get ... return the value for a key, if not found, ok is false
 func (h *Map) Get(key interface{}) (value interface{}, ok bool) {
+	h.rwmu.RLock()
+	defer h.rwmu.RUnlock()
+
 	item, ok := h._get(KeyToHash(key))
 	if !ok {
 		return nil, false
@@ -549,6 +554,9 @@ func (h *Map) Get(key interface{}) (value interface{}, ok bool) {
 }
 
 func (h *Map) GetByHash(hash, conflict uint64) (value interface{}, ok bool) {
+	h.rwmu.RLock()
+	defer h.rwmu.RUnlock()
+
 	item, ok := h._get(hash, conflict)
 	if !ok {
 		return nil, false
@@ -558,11 +566,16 @@ func (h *Map) GetByHash(hash, conflict uint64) (value interface{}, ok bool) {
 
 // LoadItem ... return key/value item with embedded-linked-list. if not found, ok is false
 func (h *Map) LoadItem(key interface{}) (item MapItem, success bool) {
+	h.rwmu.RLock()
+	defer h.rwmu.RUnlock()
+
 	item, _, success = h._loadItem(0, 0, key)
 	return
 }
 
 func (h *Map) LoadItemByHash(k uint64, conflict uint64) (item MapItem, success bool) {
+	h.rwmu.RLock()
+	defer h.rwmu.RUnlock()
 
 	item, success = h._get(k, conflict)
 	return
@@ -597,6 +610,33 @@ var madeBucket int32 = 0
 
 // Set ... set the value for a key
 func (h *Map) Set(key, value interface{}) bool {
+	k, conflict := KeyToHash(key)
+	if result, updated := h.updateOnly(k, conflict, func() interface{} { return value }); updated {
+		return result
+	}
+	h.rwmu.Lock()
+	defer h.rwmu.Unlock()
+
+	return h.set(key, value)
+}
+
+// updateOnly ... update the value if the key exists. items of map are not added.
+func (h *Map) updateOnly(k, conflict uint64, value func() interface{}) (result, updated bool) {
+	h.rwmu.RLock()
+	defer h.rwmu.RUnlock()
+
+	item, _, found := h.getWithBucket(k, conflict)
+	if !found {
+		return false, false
+	}
+	// only SampleItem is known that SetValue() is safe between goroutines
+	if _, ok := item.(*SampleItem); !ok {
+		return false, false
+	}
+	return h._update(item, value()), true
+}
+
+func (h *Map) set(key, value interface{}) bool {
 	atomic.StoreInt32(&madeBucket, 0)
 
 	var item MapItem
@@ -667,8 +707,8 @@ func (h *Map) Set(key, value interface{}) bool {
 		if useDump {
 			var b strings.Builder
 			fmt.Fprintf(&b, "dump: bucket and entry\n")
-			h.DumpBucket(&b)
-			h.DumpEntry(&b)
+			h.dumpBucket(&b)
+			h.dumpEntry(&b)
 			fmt.Fprintf(&b, "end: bucket and entry\n")
 			fmt.Println(b.String())
 			useDump = false
@@ -700,6 +740,11 @@ func (h *Map) Set(key, value interface{}) bool {
 // StoreItem ... set key/value item with embedded-linked-list
 func (h *Map) StoreItem(item MapItem) bool {
 	k, conflict := item.KeyHash()
+	if result, updated := h.updateOnly(k, conflict, item.Value); updated {
+		return result
+	}
+	h.rwmu.Lock()
+	defer h.rwmu.Unlock()
 
 	oitem, bucket, found := h._loadItem(k, conflict, nil)
 	if found {
@@ -952,7 +997,7 @@ func (h *Map) makeBucket(ocur *elist_head.ListHead, back int) (err error) {
 		if w == io.Discard {
 			w = os.Stderr
 		}
-		h.DumpBucket(w)
+		h.dumpBucket(w)
 	}
 
 	return
@@ -1012,7 +1057,7 @@ func (h *Map) add2(start *elist_head.ListHead, e HMapEntry, opts ...HMethodOpt)
 			return
 		}
 
-		if h.SearchKey(bits.Reverse64(e.PtrMapHead().reverse), ignoreBucketEntry(false)) == nil {
+		if h.searchKey(bits.Reverse64(e.PtrMapHead().reverse), false, nil) == nil {
 			o := sharedSearchOpt(nil)
 			o.Lock()
 			o.e = ErrItemInvalidAdd
@@ -1117,6 +1162,13 @@ func (h *Map) toBackBucket(bucket *bucket) (result *bucket) {
 }
 
 func (h *Map) DumpBucket(w io.Writer) {
+	h.rwmu.RLock()
+	defer h.rwmu.RUnlock()
+
+	h.dumpBucket(w)
+}
+
+func (h *Map) dumpBucket(w io.Writer) {
 	var b strings.Builder
 
 	for cur := h.headBucket.Prev().Next(); !cur.Empty(); cur = cur.Next() {
@@ -1133,6 +1185,13 @@ func (h *Map) DumpBucket(w io.Writer) {
 }
 
 func (h *Map) DumpBucketPerLevel(w io.Writer) {
+	h.rwmu.RLock()
+	defer h.rwmu.RUnlock()
+
+	h.dumpBucketPerLevel(w)
+}
+
+func (h *Map) dumpBucketPerLevel(w io.Writer) {
 	var b strings.Builder
 
 	for i := range h.levels {
@@ -1161,6 +1220,13 @@ func (h *Map) DumpBucketPerLevel(w io.Writer) {
 }
 
 func (h *Map) DumpEntry(w io.Writer) {
+	h.rwmu.RLock()
+	defer h.rwmu.RUnlock()
+
+	h.dumpEntry(w)
+}
+
+func (h *Map) dumpEntry(w io.Writer) {
 	var b strings.Builder
 
 	for cur := h.head.Prev().Next(); !cur.Empty(); cur = cur.Next() {
@@ -1435,6 +1501,8 @@ func (o *searchOpt) Options(opts ...searchArg) (previous searchArg) {
 	return previous
 }
 func (h *Map) SearchKey(k uint64, opts ...searchArg) HMapEntry {
+	h.rwmu.RLock()
+	defer h.rwmu.RUnlock()
 
 	conf := newSearchOpt()
 	conf.Options(opts...)
@@ -1622,8 +1690,15 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 
 //Delete ... set nil to the key of MapItem. cannot Get entry
 func (h *Map) Delete(key interface{}) bool {
+	h.rwmu.Lock()
+	defer h.rwmu.Unlock()
 
-	item, ok := h.LoadItem(key)
+	return h.delete(key)
+}
+
+func (h *Map) delete(key interface{}) bool {
+
+	item, _, ok := h._loadItem(0, 0, key)
 	if !ok {
 		return false
 	}
@@ -1635,10 +1710,13 @@ func (h *Map) Delete(key interface{}) bool {
 
 //Purge ... key/value entry from map.
 func (h *Map) Purge(key interface{}) bool {
+	h.rwmu.Lock()
+	defer h.rwmu.Unlock()
+
 	if h.isEmbededItemInBucket {
 		return h.purgeInEmbedded(key)
 	}
-	return h.Delete(key)
+	return h.delete(key)
 }
 
 func (h *Map) purgeInEmbedded(key interface{}) bool {
@@ -1670,20 +1748,31 @@ func (h *Map) purgeInEmbedded(key interface{}) bool {
 
 // RangeItem ... calls f sequentially for each key and value present in the map.
 // called ordre is reverse key order
+// f is called without lock, so f can change map.
 func (h *Map) RangeItem(f func(MapItem) bool) {
 
-	oldConfs := list_head.DefaultModeTraverse.Option(list_head.WaitNoM())
-	defer list_head.DefaultModeTraverse.Option(oldConfs...)
+	var items []MapItem
+	h.eachItem(func(item MapItem) {
+		items = append(items, item)
+	})
+	for _, item := range items {
+		if !f(item) {
+			break
+		}
+	}
+}
+
+// eachItem ... calls f for each item in the map. f cannot change map.
+func (h *Map) eachItem(f func(MapItem)) {
+	h.rwmu.RLock()
+	defer h.rwmu.RUnlock()
 
-	for cur := h.head.Prev(list_head.WaitNoM()).Next(list_head.WaitNoM()); !cur.Empty(); cur = cur.Next(list_head.WaitNoM()) {
+	for cur := h.head.DirectNext(); !cur.Empty(); cur = cur.DirectNext() {
 		mhead := EmptyMapHead.FromListHead(cur).(*MapHead)
 		if mhead.IsIgnored() {
 			continue
 		}
-		e := h.ItemFn().HmapEntryFromListHead(mhead.PtrListHead()).(MapItem)
-		if !f(e) {
-			break
-		}
+		f(h.ItemFn().HmapEntryFromListHead(mhead.PtrListHead()).(MapItem))
 	}
 }
 
@@ -1691,17 +1780,32 @@ func (h *Map) RangeItem(f func(MapItem) bool) {
 // order is reverse key order
 func (h *Map) Range(f func(key, value interface{}) bool) {
 
-	h.RangeItem(func(item MapItem) bool {
-		return f(item.Key(), item.Value())
+	type keyValue struct {
+		key, value interface{}
+	}
+	var kvs []keyValue
+	h.eachItem(func(item MapItem) {
+		kvs = append(kvs, keyValue{item.Key(), item.Value()})
 	})
+	for _, kv := range kvs {
+		if !f(kv.key, kv.value) {
+			break
+		}
+	}
 }
 
 func (h *Map) First() HMapEntry {
+	h.rwmu.RLock()
+	defer h.rwmu.RUnlock()
+
 	cur := h.head.DirectPrev().DirectNext()
 	return h.ItemFn().HmapEntryFromListHead(cur)
 }
 
 func (h *Map) Last() HMapEntry {
+	h.rwmu.RLock()
+	defer h.rwmu.RUnlock()
+
 	cur := h.tail.DirectNext().DirectPrev()
 	return h.ItemFn().HmapEntryFromListHead(cur)
 }
@@ -1985,7 +2089,7 @@ func (h *Map) bucketFromPool(reverse uint64, opts ...cOptFn) (b *bucket, onOk fu
 		b = &b.downLevels[idx]
 	}
 	if b.ListHead.DirectPrev() != nil || b.ListHead.DirectNext() != nil {
-		h.DumpBucket(logio)
+		h.dumpBucket(logio)
 		Log(LogWarn, "already inited")
 	}
 	// obucketNotInits := bucketNotInits
diff --git a/map_embedded.go b/map_embedded.go
index 4610d67..9b5af3a 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -228,7 +228,7 @@ func (h *Map) bucketFromPoolEmbedded(reverse uint64) (b *bucket) {
 		b = downs.at(idx)
 	}
 	if b.ListHead.DirectPrev() != nil || b.ListHead.DirectNext() != nil {
-		h.DumpBucket(logio)
+		h.dumpBucket(logio)
 		Log(LogWarn, "already inited")
 	}
 	return
diff --git a/pool2.go b/pool2.go
index 5a7cbe6..6595c4b 100644
--- a/pool2.go
+++ b/pool2.go
@@ -147,9 +147,6 @@ func (sp *samepleItemPool) _init(cap int) {
 	elist_head.InitAsEmpty(&sp.freeHead, &sp.freeTail)
 
 	sp.items = make([]SampleItem, 0, cap)
-	if !list_head.MODE_CONCURRENT {
-		list_head.MODE_CONCURRENT = true
-	}
 	//sp.Init()
 }
 
-- 
2.43.0


From 624e01452da25d699a2c90496522dcdb567e29ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 13/29] fix: options return the setting they replaced

UsePool() returned the opposite of the new setting and UseEmbeddedPool()
returned an UsePool() option, so restoring them changed the map.
---
 map.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/map.go b/map.go
index ba8a253..a288707 100644
--- a/map.go
+++ b/map.go
@@ -126,6 +126,7 @@ func ItemFn(fn func() MapItem) OptHMap {
 
 func UsePool(enable bool) OptHMap {
 	return func(h *Map) OptHMap {
+		prev := h.pooler != nil
 		if !enable {
 			if h.pooler != nil {
 				h.retainPools = append(h.retainPools, h.pooler)
@@ -136,19 +137,23 @@ func UsePool(enable bool) OptHMap {
 			h.pooler.startMgr()
 		}
 
-		return UsePool(!enable)
+		return UsePool(prev)
 	}
 }
 
 func UseEmbeddedPool(enable bool) OptHMap {
 	return func(h *Map) OptHMap {
-		old := h.isEmbededItemInBucket
+		old, oldPool := h.isEmbededItemInBucket, h.pooler != nil
 		h.isEmbededItemInBucket = enable
 		if enable {
 			UsePool(false)(h)
 		}
 
-		return UsePool(old)
+		return func(h *Map) OptHMap {
+			prev := UseEmbeddedPool(old)(h)
+			UsePool(oldPool)(h)
+			return prev
+		}
 	}
 }
 
-- 
2.43.0


From 60cba2bb58b850b6ab5e0e67327db9374da5dc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 14/29] fix: RMap keeps every key, its last value, and the
 number of keys

---
 rmap/rmap.go | 225 ++++++++++++++++++++++++---------------------------
 1 file changed, 107 insertions(+), 118 deletions(-)

diff --git a/rmap/rmap.go b/rmap/rmap.go
index 0e8a59b..ca221ff 100644
--- a/rmap/rmap.go
+++ b/rmap/rmap.go
@@ -14,6 +14,8 @@ type baseMap struct {
 	onNewStores []func(smap.MapItem)
 
 	misses int
+	// len ... number of keys in read and dirty.
+	len int64
 }
 
 type RMap struct {
@@ -22,8 +24,17 @@ type RMap struct {
 	dirty *smap.Map
 }
 
+// rkey ... both hashes of a key. hash alone doesn't identify a key.
+type rkey struct {
+	k        uint64
+	conflict uint64
+}
+
+// readMap ... entries which Get() reads without lock. m is not modified after store to baseMap.read.
+// value of m is *smap.SampleItem. it is (*smap.SampleItem)(nil) after delete.
+// a key is in m or in dirty, not in both, unless entry of m is deleted.
 type readMap struct {
-	m       map[uint64]atomic.Value
+	m       map[rkey]*atomic.Value
 	amended bool // include dirty map
 }
 
@@ -33,6 +44,7 @@ func New() (rmap *RMap) {
 		limit: 1000,
 	}
 	rmap.initDirty()
+	rmap.read.Store(&readMap{})
 
 	return rmap
 
@@ -65,47 +77,46 @@ func (m *RMap) getDirtyEntry(k, conflict uint64) (e smap.MapItem) {
 func (m *RMap) getDirty(k, conflict uint64) (v interface{}, ok bool) {
 
 	e := m.getDirtyEntry(k, conflict)
+	if e == nil {
+		return nil, false
+	}
 	return e.Value(), true
 }
 
+// Set2 ... k and conflict must be smap.KeyToHash(kstr)
 func (m *RMap) Set2(k, conflict uint64, kstr string, v interface{}) bool {
-	read, succ := m.read.Load().(*readMap)
-	if !succ {
-		m.read.Store(&readMap{})
-		read, succ = m.read.Load().(*readMap)
-	}
+	var item smap.MapItem
 
-	ensure := func(item smap.MapItem) {
+	// call without lock. fn can use this map.
+	defer func() {
 		for _, fn := range m.onNewStores {
 			fn(item)
 		}
-	}
+	}()
+	m.Lock()
+	defer m.Unlock()
+
+	read := m.read.Load().(*readMap)
+
 	if e, ok := read.store2(k, conflict, kstr, v); ok {
-		defer ensure(e)
+		item = e
 		return true
 	}
 
-	_, ok := read.m[k]
-	if !ok {
-		e := m.getDirtyEntry(k, conflict)
-		if e != nil {
-			ok = true
-			e.SetValue(v)
-		}
-	}
-	if !ok && !read.amended {
-		m.storeReadFromDirty(true)
+	if e := m.getDirtyEntry(k, conflict); e != nil {
+		item = e
+		return e.SetValue(v)
 	}
 
-	if !ok {
-		e := smap.NewSampleItem(kstr, v)
-		e.Init()
-		m.dirty.StoreItem(e)
-
-		if len(read.m) == 0 {
-			m.storeReadFromDirty(true)
-		}
-		defer ensure(e)
+	e := smap.NewSampleItem(kstr, v)
+	e.Init()
+	if !m.dirty.StoreItem(e) {
+		return false
+	}
+	item = e
+	atomic.AddInt64(&m.len, 1)
+	if !read.amended {
+		m.read.Store(&readMap{m: read.m, amended: true})
 	}
 	return true
 }
@@ -141,7 +152,7 @@ func (m *RMap) missLocked() {
 	if m.isNotRestoreRead() {
 		return
 	}
-	m.storeReadFromDirty(false)
+	m.storeReadFromDirty()
 	m.misses = 0
 }
 
@@ -153,26 +164,22 @@ func (m *RMap) Get(key string) (v interface{}, ok bool) {
 func (m *RMap) Get2(k, conflict uint64) (v interface{}, ok bool) {
 
 	read := m.read.Load().(*readMap)
-	av, ok := read.m[k]
-	var e *smap.SampleItem
-	if ok {
-		e, ok = av.Load().(*smap.SampleItem)
-		if e.MapHead.ConflictInHamp() != conflict {
-			ok = false
-		} else {
-			v = e.V
-		}
+	if e := read.load(k, conflict); e != nil {
+		return e.Value(), true
+	}
+	if !read.amended {
+		return nil, false
 	}
 
-	if !ok && read.amended {
-		// m.Lock()
-		// defer m.Unlock()
-		read := m.read.Load().(*readMap)
-		av, ok = read.m[k]
-		if !ok && read.amended {
-			v, ok = m.getDirty(k, conflict)
-			m.missLocked()
-		}
+	m.Lock()
+	defer m.Unlock()
+	read = m.read.Load().(*readMap)
+	if e := read.load(k, conflict); e != nil {
+		return e.Value(), true
+	}
+	if read.amended {
+		v, ok = m.getDirty(k, conflict)
+		m.missLocked()
 	}
 	return
 }
@@ -180,84 +187,57 @@ func (m *RMap) Get2(k, conflict uint64) (v interface{}, ok bool) {
 func (m *RMap) Delete(key string) bool {
 	k, conflict := smap.KeyToHash(key)
 
-	read, _ := m.read.Load().(*readMap)
-	av, ok := read.m[k]
-	if !ok && read.amended {
-		m.Lock()
-		defer m.Unlock()
-		read, _ := m.read.Load().(*readMap)
-		if !ok && read.amended {
-			// av, ok = m.dirty[k]
-			// delete(m.dirty, k)
-			e := m.getDirtyEntry(k, conflict)
-			if e != nil {
-				m.dirty.AddLen(-1)
-				e.Delete()
-			}
-
-			m.missLocked()
-		}
-	}
+	m.Lock()
+	defer m.Unlock()
 
+	read := m.read.Load().(*readMap)
+	if read.load(k, conflict) != nil {
+		read.m[rkey{k, conflict}].Store((*smap.SampleItem)(nil))
+		atomic.AddInt64(&m.len, -1)
+		return true
+	}
+	if !read.amended {
+		return false
+	}
+	ok := m.dirty.Delete(key)
 	if ok {
-		ohead := av.Load().(*smap.SampleItem)
-		//ohead.conflict = conflict
-		return av.CompareAndSwap(ohead, nil)
-
+		atomic.AddInt64(&m.len, -1)
 	}
-	return false
+	m.missLocked()
+	return ok
 }
 func (m *RMap) Len() int {
-	return int(m.dirty.Len())
+	return int(atomic.LoadInt64(&m.len))
 }
 
-func (m *RMap) storeReadFromDirty(amended bool) {
+// storeReadFromDirty ... move entries of dirty to read. require m.Lock()
+func (m *RMap) storeReadFromDirty() {
 
-	m.Lock()
-	defer m.Unlock()
+	oread := m.read.Load().(*readMap)
 
-	for {
-		oread, _ := m.read.Load().(*readMap)
+	nread := &readMap{
+		m: make(map[rkey]*atomic.Value, len(oread.m)+int(m.dirty.Len())),
+	}
 
-		nread := &readMap{
-			m:       map[uint64]atomic.Value{},
-			amended: amended,
+	for k, a := range oread.m {
+		if oread.load(k.k, k.conflict) == nil {
+			continue
 		}
-
-		//MENTION: not require copy oread ?
-		for k, a := range oread.m {
-			_, ok := a.Load().(*smap.SampleItem)
-			if !ok {
-				continue
-			}
-			nread.m[k] = a
+		nread.m[k] = a
+	}
+	m.dirty.RangeItem(func(item smap.MapItem) bool {
+		e, ok := item.(*smap.SampleItem)
+		if ok {
+			k, conflict := e.KeyHash()
+			a := &atomic.Value{}
+			a.Store(e)
+			nread.m[rkey{k, conflict}] = a
 		}
-		m.dirty.RangeItem(func(item smap.MapItem) bool {
-			e, ok := item.(*smap.SampleItem)
-			if ok {
-				a := atomic.Value{}
-				a.Store(e)
-				nread.m[e.KeyInHmap()] = a
-
-			}
 
-			return true
-		})
-
-		if len(nread.m) == 0 {
-			break
-		}
-		if len(oread.m) == 0 {
-			nread.amended = true
-		}
-		if m.read.CompareAndSwap(oread, nread) {
-			m.Unlock()
-			m.initDirty()
-			m.Lock()
-			break
-		}
-		_ = "???"
-	}
+		return true
+	})
+	m.read.Store(nread)
+	m.initDirty()
 }
 
 func (m *RMap) initDirty() {
@@ -270,17 +250,26 @@ func (m *RMap) initDirty() {
 		}))
 }
 
-func (r *readMap) store2(k, conflict uint64, kstr string, v interface{}) (smap.MapItem, bool) {
-	ov, ok := r.m[k]
+// load ... return nil if key is not in read
+func (r *readMap) load(k, conflict uint64) (item *smap.SampleItem) {
+	a, ok := r.m[rkey{k, conflict}]
 	if !ok {
-		return nil, ok
+		return nil
+	}
+	item, _ = a.Load().(*smap.SampleItem)
+	return item
+}
+
+// store2 ... replace item of read. it is not stored if key is not in read.
+func (r *readMap) store2(k, conflict uint64, kstr string, v interface{}) (smap.MapItem, bool) {
+	if r.load(k, conflict) == nil {
+		return nil, false
 	}
-	ohead := ov.Load().(*smap.SampleItem)
 	item := smap.NewSampleItem(kstr, v)
 	item.PtrListHead().Init()
 	item.Setup()
 
-	ok = ov.CompareAndSwap(ohead, item)
-	return item, ok
+	r.m[rkey{k, conflict}].Store(item)
+	return item, true
 
 }
-- 
2.43.0


From 9af3a5b6b94a8b1a584c00793955ee051f3802dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 15/29] fix: dump items with their own type

---
 map.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/map.go b/map.go
index a288707..4d66a4a 100644
--- a/map.go
+++ b/map.go
@@ -1239,6 +1239,10 @@ func (h *Map) dumpEntry(w io.Writer) {
 		//e = e.HmapEntryFromListHead(cur)
 		mhead := EmptyMapHead.FromListHead(cur).(*MapHead)
 		e := fromMapHead(mhead)
+		if !mhead.IsDummy() {
+			// item is not always SampleItem.
+			e = h.ItemFn().HmapEntryFromListHead(cur).(MapItem)
+		}
 
 		var ekey interface{}
 		ekey = e.Key()
-- 
2.43.0


From 826bba510d3723c9db21e5338cdf4f0700865efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 16/29] fix: do not split a bucket when no boundary is left

---
 map.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/map.go b/map.go
index 4d66a4a..cb17860 100644
--- a/map.go
+++ b/map.go
@@ -902,6 +902,10 @@ func (h *Map) makeBucket(ocur *elist_head.ListHead, back int) (err error) {
 	} else {
 		newReverse = halfUint64(cBucket.reverse, nextBucket.reverse)
 	}
+	if newReverse <= cBucket.reverse || nextBucket.reverse <= newReverse {
+		// no boundary is left between the buckets
+		return ErrBucketAllocatedFail
+	}
 
 	b, onOk := h.bucketFromPool(newReverse, useOnOk(true))
 	if onOk == nil {
-- 
2.43.0


From 90fa80ba78f2409ab49bdd09671e69dc0b00b8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 17/29] fix: keep entries computed from the ends of a list
 inside of their memory

---
 map.go          |  6 +++---
 map_embedded.go |  8 ++++----
 util.go         | 11 +++++++++++
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/map.go b/map.go
index cb17860..a8c1d2f 100644
--- a/map.go
+++ b/map.go
@@ -188,8 +188,8 @@ func NewHMap(opts ...OptHMap) *Map {
 	hmap.tailBucket = topBucket.Next()
 	hmap.headBucket = topBucket.Prev()
 
-	hmap.head = &elist_head.ListHead{}
-	hmap.tail = &elist_head.ListHead{}
+	hmap.head = newListTerm()
+	hmap.tail = newListTerm()
 	elist_head.InitAsEmpty(hmap.head, hmap.tail)
 
 	hmap.modeForBucket = NestedSearchForBucket
@@ -1386,7 +1386,7 @@ func (h *Map) initLevels() {
 	for i := range h.levels {
 		b := newBucket()
 		b.setLevel(int32(i) + 1)
-		b.LevelHead.InitAsEmpty()
+		list_head.InitAsEmpty(&b.LevelHead, &newBucket().LevelHead)
 		h.levels[i].Store(b)
 	}
 }
diff --git a/map_embedded.go b/map_embedded.go
index 9b5af3a..b421b98 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -369,8 +369,8 @@ func (sp *samepleItemPool) insertToPool(reverse uint64) (newItem MapItem) {
 		}
 		copy(newItems[i+1:], sp.items[i:])
 
-		newListHead := &elist_head.ListHead{}
-		newListTail := &elist_head.ListHead{}
+		newListHead := newListTerm()
+		newListTail := newListTerm()
 		elist_head.InitAsEmpty(newListHead, newListTail)
 
 		middle := nextListHeadOfSampleItem()
@@ -502,8 +502,8 @@ func (sp *samepleItemPool) expand() error {
 	newItems := make([]SampleItem, olen, nCap)
 	copy(newItems, sp.items)
 
-	newListHead := &elist_head.ListHead{}
-	newListTail := &elist_head.ListHead{}
+	newListHead := newListTerm()
+	newListTail := newListTerm()
 	elist_head.InitAsEmpty(newListHead, newListTail)
 
 	err = newListHead.ReplaceNext(&newItems[0].ListHead, &newItems[olen-1].ListHead, newListTail)
diff --git a/util.go b/util.go
index dae33dd..2ba7fd2 100644
--- a/util.go
+++ b/util.go
@@ -45,6 +45,17 @@ func ElementOf(head unsafe.Pointer, offset uintptr) unsafe.Pointer {
 	return unsafe.Pointer(uintptr(head) - offset)
 }
 
+// newListTerm ... make an end of a list.
+// the ends of a list are also converted to entries. the place before the end must belong to the same
+// memory. otherwise gc may find a pointer to freed memory.
+func newListTerm() *elist_head.ListHead {
+	term := &struct {
+		_ [128]byte
+		elist_head.ListHead
+	}{}
+	return &term.ListHead
+}
+
 func PoolCap(len int) int {
 	min := minCapItem()
 	threshold := thresholdCapItem()
-- 
2.43.0


From f87585a31a74a89b632d2ab0faec258015b7ba17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:01 +0000
Subject: [PATCH 18/29] fix: do not link one more item each time a deleted key
 is inserted again

The item marked by Delete() was left in the list and a new one was linked, so
repeating Delete() and Set() of one key used more memory and time with each
turn.
---
 map.go | 57 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 57 insertions(+)

diff --git a/map.go b/map.go
index a8c1d2f..929e133 100644
--- a/map.go
+++ b/map.go
@@ -64,6 +64,8 @@ type Map struct {
 	// so items and pools not referred from others must be kept here.
 	retainItems []MapItem
 	retainPools []*Pool
+	// count of items of retainItems which are not linked any more.
+	cntOfUnlinked int
 
 	isEmbededItemInBucket bool
 }
@@ -665,6 +667,14 @@ func (h *Map) set(key, value interface{}) bool {
 	// panic before taking item from pool, if key cannot be stored.
 	kstr := key.(string)
 
+	if !h.isEmbededItemInBucket {
+		k, conflict := KeyToHash(key)
+		if s, ok := h.deletedItem(bucket, k, conflict).(*SampleItem); ok && s.K == kstr {
+			s.SetValue(value)
+			return h.restore(s)
+		}
+	}
+
 	var s *SampleItem
 	useDump := false
 
@@ -780,10 +790,57 @@ func (h *Map) StoreItem(item MapItem) bool {
 			ItemFn(func() MapItem { return item })(h)
 		}
 	}
+	if old := h.deletedItem(bucket, k, conflict); old == item {
+		return h.restore(item)
+	} else if old != nil {
+		h.unlink(bucket, old)
+	}
 	h.retain(item)
 	return h._set(k, conflict, bucket, item)
 }
 
+// deletedItem ... return the item of the key which is marked by Delete(). nil if not found
+func (h *Map) deletedItem(bucket *bucket, k, conflict uint64) MapItem {
+	e := h.searchBybucket(bucket, bits.Reverse64(k), false, func(mhead *MapHead) bool {
+		return mhead.IsDeleted() && !mhead.IsDummy() && mhead.conflict == conflict
+	})
+	item, _ := e.(MapItem)
+	return item
+}
+
+// restore ... remove the mark of Delete()
+func (h *Map) restore(item MapItem) bool {
+	item.PtrMapHead().state &^= mapIsDeleted
+	h.AddLen(1)
+	return true
+}
+
+// unlink ... remove the item marked by Delete() from list.
+func (h *Map) unlink(bucket *bucket, item MapItem) {
+	if err := item.PtrListHead().MarkForDelete(); err != nil {
+		return
+	}
+	item.PtrListHead().Init()
+	item.PtrMapHead().state &^= mapIsDeleted
+	if bucket.level() > 0 {
+		atomic.AddInt32(&bucket._len, -1)
+	}
+
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	h.cntOfUnlinked++
+	if h.cntOfUnlinked <= len(h.retainItems)/2 {
+		return
+	}
+	var items []MapItem
+	for _, item := range h.retainItems {
+		if !item.PtrListHead().Empty() {
+			items = append(items, item)
+		}
+	}
+	h.retainItems, h.cntOfUnlinked = items, 0
+}
+
 // itemFromBucket ... get new item from the embedded pool of bucket.
 // pool is locked until unlock is called
 func (h *Map) itemFromBucket(bucket *bucket, k, conflict uint64) (s *SampleItem, unlock func()) {
-- 
2.43.0


From 884cce152ec4adedeb0696b454ff5ea9275a5a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:14 +0000
Subject: [PATCH 19/29] fix: guard DebugStats, which all maps share, by one
 lock

---
 debug.go |  6 ++++++
 item.go  |  4 ++--
 map.go   | 23 ++++++++++-------------
 3 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/debug.go b/debug.go
index 3d0b82c..6f98686 100644
--- a/debug.go
+++ b/debug.go
@@ -3,6 +3,7 @@ package skiplistmap
 import (
 	"fmt"
 	"io"
+	"sync"
 )
 
 type statKey byte
@@ -11,8 +12,13 @@ var EnableStats bool = false
 
 var DebugStats map[statKey]int = map[statKey]int{}
 
+// statsMu ... protect DebugStats, which is shared by all maps.
+var statsMu sync.Mutex
+
 func ResetStats() {
+	statsMu.Lock()
 	DebugStats = map[statKey]int{}
+	statsMu.Unlock()
 }
 
 type LogLevel byte
diff --git a/item.go b/item.go
index 5892576..06947d5 100644
--- a/item.go
+++ b/item.go
@@ -111,9 +111,9 @@ func CondOfFind(reverse uint64, l sync.Locker) CondOfFinder {
 	return func(ehead *entryHMap) bool {
 
 		if EnableStats {
-			l.Lock()
+			statsMu.Lock()
 			DebugStats[CntSearchEntry]++
-			l.Unlock()
+			statsMu.Unlock()
 		}
 		return reverse <= ehead.reverse
 	}
diff --git a/map.go b/map.go
index 929e133..534b42d 100644
--- a/map.go
+++ b/map.go
@@ -316,11 +316,8 @@ func (h *Map) initBeforeSet() {
 	}
 
 	if EnableStats {
-		old := logio
-		logio = os.Stderr
-		h.dumpBucket(logio)
-		h.dumpEntry(logio)
-		logio = old
+		h.dumpBucket(os.Stderr)
+		h.dumpEntry(os.Stderr)
 	}
 }
 
@@ -467,9 +464,9 @@ var Failreverse uint64 = 0
 
 func (h *Map) _get(k, conflict uint64) (MapItem, bool) {
 	if EnableStats {
-		h.mu.Lock()
+		statsMu.Lock()
 		DebugStats[CntOfGet]++
-		h.mu.Unlock()
+		statsMu.Unlock()
 	}
 	e := h.searchKey(k, true, conflictMatcher(conflict))
 	if e == nil {
@@ -486,9 +483,9 @@ func (h *Map) _get(k, conflict uint64) (MapItem, bool) {
 func (h *Map) getWithBucket(k, conflict uint64) (MapItem, *bucket, bool) {
 
 	if EnableStats {
-		h.mu.Lock()
+		statsMu.Lock()
 		DebugStats[CntOfGet]++
-		h.mu.Unlock()
+		statsMu.Unlock()
 	}
 	var bucket *bucket
 	var reverse uint64
@@ -1709,9 +1706,9 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 
 			pCur = cur
 			if EnableStats && ignoreBucketEnry {
-				h.mu.Lock()
+				statsMu.Lock()
 				DebugStats[CntReverseSearch]++
-				h.mu.Unlock()
+				statsMu.Unlock()
 			}
 			if ignoreBucketEnry && cur.IsIgnored() {
 				continue
@@ -1733,9 +1730,9 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 	result := lbNext.entry(h)
 	for cur := result.PtrMapHead(); cur != nil; cur = cur.PrevtWithNil() {
 		if EnableStats && ignoreBucketEnry {
-			h.mu.Lock()
+			statsMu.Lock()
 			DebugStats[CntSearchEntry]++
-			h.mu.Unlock()
+			statsMu.Unlock()
 		}
 		curReverse := cur.reverse
 		if ignoreBucketEnry && cur.IsIgnored() {
-- 
2.43.0


From 6bfe3b6b173d8ea6bdda953df3b0e495b6bb5a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:29 +0000
Subject: [PATCH 20/29] fix: CombineSearch2 starts the search at the
 neighbouring bucket

NextOnLevel() of a bucket may be far below the key, so that a lookup passed
all entries of a large part of the map.
---
 map.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/map.go b/map.go
index 534b42d..d782656 100644
--- a/map.go
+++ b/map.go
@@ -1674,7 +1674,8 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 	lbNext := lbCur
 
 	if h.modeForBucket == CombineSearch2 && lbCur.reverse > reverseNoMask {
-		lbNext = lbCur.NextOnLevel()
+		// next bucket on the level may be far away.
+		lbNext = lbCur.nextAsB()
 	}
 
 	// items having same reverse are placed after dummy, except for dummy which terminates the list.
-- 
2.43.0


From e0d3a07b11a95e8f64b694d4272caa27d46df6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:56 +0000
Subject: [PATCH 21/29] fix: keep the ends of a temporary list off the stack

---
 util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util.go b/util.go
index 2ba7fd2..2507a0a 100644
--- a/util.go
+++ b/util.go
@@ -48,6 +48,9 @@ func ElementOf(head unsafe.Pointer, offset uintptr) unsafe.Pointer {
 // newListTerm ... make an end of a list.
 // the ends of a list are also converted to entries. the place before the end must belong to the same
 // memory. otherwise gc may find a pointer to freed memory.
+// entries are linked by their distance. so the end must not be on the stack, which may be moved.
+//
+//go:noinline
 func newListTerm() *elist_head.ListHead {
 	term := &struct {
 		_ [128]byte
-- 
2.43.0


From cdc5e0ac9964e34ed9b44a4d3c904fbf82da2a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:27 +0000
Subject: [PATCH 22/29] fix: keep entries computed from the dummy of a bucket
 inside of the bucket

---
 bucket.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bucket.go b/bucket.go
index 8118a01..4aa17e8 100644
--- a/bucket.go
+++ b/bucket.go
@@ -20,7 +20,6 @@ type bucket struct {
 	_level  int32
 	_len    int32
 	reverse uint64
-	dummy   entryHMap
 
 	downLevels        []bucket
 	cntOfActiveLevels int32
@@ -42,6 +41,10 @@ type bucket struct {
 
 	LevelHead list_head.ListHead // to same level bucket
 	list_head.ListHead
+
+	// dummy is also converted to an entry of ItemFn(), whose ListHead can be at a larger offset.
+	// the place before dummy must belong to the same memory. otherwise gc may find an invalid pointer.
+	dummy entryHMap
 }
 
 const bucketOffset = unsafe.Offsetof(emptyBucket.ListHead)
-- 
2.43.0


From d26efacf4a2d5f1f706778c2d96587b58ab4148c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:33 +0000
Subject: [PATCH 23/29] fix: keep the ends of the list of sample items until
 the items are linked

---
 map_embedded.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/map_embedded.go b/map_embedded.go
index b421b98..c56ea21 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -543,15 +543,17 @@ func (sp *samepleItemPool) expand() error {
 
 func nextListHeadOfSampleItem() elist_head.ListHead {
 
-	list := elist_head.NewEmptyList()
-
-	items := make([]SampleItem, 3)
-
-	list.Tail().InsertBefore(items[2].PtrListHead())
+	// items are linked by their distance. gc doesn't find the ends of list by it.
+	// so the ends must be in the same memory as the others.
+	items := make([]SampleItem, 5)
+	tail := items[4].PtrListHead()
+	elist_head.InitAsEmpty(items[0].PtrListHead(), tail)
+
+	tail.InsertBefore(items[3].PtrListHead())
+	items[3].InsertBefore(items[2].PtrListHead())
 	items[2].InsertBefore(items[1].PtrListHead())
-	items[1].InsertBefore(items[0].PtrListHead())
 
-	return items[1].ListHead
+	return items[2].ListHead
 }
 
 func (sp *samepleItemPool) findIdx(reverse uint64) (int, error) {
-- 
2.43.0


From ff51b5a8f0ec968e28469dfead569ef8024e5b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:47 +0000
Subject: [PATCH 24/29] fix: end the goroutines of a pool when its map is no
 longer used

---
 pool2.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pool2.go b/pool2.go
index 6595c4b..314e899 100644
--- a/pool2.go
+++ b/pool2.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"runtime"
 	"strings"
 	"sync"
 	"unsafe"
@@ -37,12 +38,13 @@ type poolReq struct {
 type Pool struct {
 	ctx      context.Context
 	cancel   context.CancelFunc
-	itemPool [cntOfPoolMgr]samepleItemPool
+	itemPool *[cntOfPoolMgr]samepleItemPool
 	mgrCh    [cntOfPoolMgr]chan poolReq
 }
 
 func newPool() (p *Pool) {
-	p = &Pool{}
+	// goroutines of startMgr() refer to itemPool but not to Pool.
+	p = &Pool{itemPool: &[cntOfPoolMgr]samepleItemPool{}}
 	for i := range p.mgrCh {
 		p.mgrCh[i] = make(chan poolReq)
 		p.itemPool[i].InitAsEmpty()
@@ -65,9 +67,18 @@ func (p *Pool) startMgr() {
 		go idxMaagement(cctx, ccancel, samepleItemPoolFromListHead(&p.itemPool[i].ListHead), p.mgrCh[i])
 
 	}
+	runtime.SetFinalizer(p, (*Pool).stopMgr)
 
 }
 
+// stopMgr ... end goroutines of startMgr(). Pool must not be used after this.
+func (p *Pool) stopMgr() {
+	p.cancel()
+	for i := range p.mgrCh {
+		close(p.mgrCh[i])
+	}
+}
+
 func (p *Pool) Get(reverse uint64, fn successFn) {
 
 	idx := (reverse >> (4 * 15) % cntOfPoolMgr)
@@ -83,6 +94,7 @@ func (p *Pool) Get(reverse uint64, fn successFn) {
 		cmd:       CmdGet,
 		onSuccess: fn,
 	}
+	runtime.KeepAlive(p)
 }
 
 func (p *Pool) Put(item MapItem) {
@@ -99,6 +111,7 @@ func (p *Pool) Put(item MapItem) {
 		cmd:  CmdPut,
 		item: item,
 	}
+	runtime.KeepAlive(p)
 }
 
 // count pool per one samepleItemPool
-- 
2.43.0


From 9fa6ecba6c9c9e11712f9fd38157eff8fd2643ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:05 +0000
Subject: [PATCH 25/29] fix: wait for the goroutine of a pool before its item
 is read

---
 map.go   | 2 +-
 pool2.go | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/map.go b/map.go
index d782656..b3d3041 100644
--- a/map.go
+++ b/map.go
@@ -704,6 +704,7 @@ func (h *Map) set(key, value interface{}) bool {
 			}
 			wg.Done()
 		})
+		wg.Wait()
 		if fn != nil {
 			defer fn()
 		}
@@ -711,7 +712,6 @@ func (h *Map) set(key, value interface{}) bool {
 		if s != nil && !s.IsSingle() {
 			Log(LogWarn, "get not single entry?")
 		}
-		wg.Wait()
 		if IsExtended {
 			useDump = true
 			IsExtended = false
diff --git a/pool2.go b/pool2.go
index 314e899..9e79a36 100644
--- a/pool2.go
+++ b/pool2.go
@@ -392,7 +392,9 @@ func (sp *samepleItemPool) Put(item MapItem) {
 
 }
 
+// LastItem ... item which is gotten last by goroutine of pool. only for debug.
 var LastItem MapItem = nil
+var muLastItem sync.Mutex
 var IsExtended = false
 
 func idxMaagement(ctx context.Context, cancel context.CancelFunc, h *samepleItemPool, reqCh chan poolReq) {
@@ -405,7 +407,9 @@ func idxMaagement(ctx context.Context, cancel context.CancelFunc, h *samepleItem
 			if mu != nil {
 				mu.Unlock()
 			}
+			muLastItem.Lock()
 			LastItem = e
+			muLastItem.Unlock()
 			// only debug mode
 			if extend {
 				fmt.Printf("expeand reverse=0x%x cap=%d\n ", p.items[0].reverse, cap(p.items))
-- 
2.43.0


From 6053244dcfc76c295be7cf0e40d95601ea94a61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:56 +0000
Subject: [PATCH 26/29] fix: do not convert the heads of buckets to the type of
 items in searches

An item type whose list head is far behind its start made lookups and insertions read memory before the bucket.
---
 bucket.go |  3 ++-
 map.go    | 12 ++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/bucket.go b/bucket.go
index 4aa17e8..a03bd82 100644
--- a/bucket.go
+++ b/bucket.go
@@ -282,7 +282,8 @@ func (b *bucket) entry(h *Map) (e HMapEntry) {
 	}
 	head := b.head()
 	if !head.Empty() {
-		return h.ItemFn().HmapEntryFromListHead(head)
+		// head of bucket is dummy, which is always entryHMap
+		return entryHMapFromListHead(head)
 	}
 	result := b.NextEntry()
 	if result == nil {
diff --git a/map.go b/map.go
index b3d3041..b0361fc 100644
--- a/map.go
+++ b/map.go
@@ -1594,6 +1594,14 @@ func (h *Map) searchKey(k uint64, ignoreBucketEnry bool, match itemMatcher) HMap
 	return h.searchBybucket(b, reverse, ignore, match)
 }
 
+// entryOf ... entry of an item. the dummy of bucket is not converted to the type of items
+func (h *Map) entryOf(mhead *MapHead) HMapEntry {
+	if mhead.IsDummy() {
+		return entryHMapFromListHead(mhead.PtrListHead())
+	}
+	return h.ItemFn().HmapEntryFromListHead(mhead.PtrListHead())
+}
+
 func (h *Map) topLevelBucket(reverse uint64) *bucket {
 	idx := (reverse >> (4 * 15))
 
@@ -1722,7 +1730,7 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 				if match != nil && !match(cur) {
 					continue
 				}
-				return result.HmapEntryFromListHead(cur.PtrListHead())
+				return h.entryOf(cur)
 			}
 			return nil
 		}
@@ -1746,7 +1754,7 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 			if match != nil && !match(cur) {
 				continue
 			}
-			return result.HmapEntryFromListHead(cur.PtrListHead())
+			return h.entryOf(cur)
 		}
 
 		return nil
-- 
2.43.0


From 3d9695ece9bf4a9c3e931bab7dbde9f7c5b900f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:26 +0000
Subject: [PATCH 27/29] fix: change the type of a directly stored value without
 a data race

SetValue() replaced V of an item as a plain variable while other goroutines read it: reads returned nil, or crashed.
---
 sample_hmap_entry.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/sample_hmap_entry.go b/sample_hmap_entry.go
index 2cc44cf..8d4718f 100644
--- a/sample_hmap_entry.go
+++ b/sample_hmap_entry.go
@@ -20,6 +20,10 @@ type SampleItem struct {
 	K string
 	V atomic.Value
 	MapHead
+
+	// changed ... *itemValue. the value instead of V, when its type is other than that of V
+	// which is directly stored by the owner of item.
+	changed unsafe.Pointer
 }
 
 var sampleItem MapItem = &SampleItem{}
@@ -61,6 +65,9 @@ type itemValue struct {
 }
 
 func (s *SampleItem) Value() interface{} {
+	if iv := (*itemValue)(atomic.LoadPointer(&s.changed)); iv != nil {
+		return iv.v
+	}
 	v := s.V.Load()
 	if iv, ok := v.(itemValue); ok {
 		return iv.v
@@ -72,17 +79,21 @@ func (s *SampleItem) SetValue(v interface{}) bool {
 	if v == nil {
 		return false
 	}
-	switch old := s.V.Load(); old.(type) {
-	case nil, itemValue:
-	default:
-		// V is directly stored by the owner of item.
-		if reflect.TypeOf(old) == reflect.TypeOf(v) {
-			s.V.Store(v)
+	if atomic.LoadPointer(&s.changed) == nil {
+		switch old := s.V.Load(); old.(type) {
+		case nil, itemValue:
+			s.V.Store(itemValue{v: v})
 			return true
+		default:
+			// V is directly stored by the owner of item.
+			if reflect.TypeOf(old) == reflect.TypeOf(v) {
+				s.V.Store(v)
+				return true
+			}
 		}
-		s.V = atomic.Value{}
 	}
-	s.V.Store(itemValue{v: v})
+	// V cannot be replaced by a value of other type while others read it.
+	atomic.StorePointer(&s.changed, unsafe.Pointer(&itemValue{v: v}))
 	return true
 }
 
-- 
2.43.0


From cece5405dfd2eeff77da40a97930710642f30ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:02 +0000
Subject: [PATCH 28/29] fix: use the pool again which UsePool(false) has
 disabled

Each UsePool(true) after UsePool(false) made one more pool, which the map (and 8 goroutines) kept for ever.
---
 map.go   | 10 +++++++---
 pool2.go |  4 +++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/map.go b/map.go
index b0361fc..b9be06b 100644
--- a/map.go
+++ b/map.go
@@ -63,7 +63,8 @@ type Map struct {
 	// list has only relative offset, gc cannot find items from it.
 	// so items and pools not referred from others must be kept here.
 	retainItems []MapItem
-	retainPools []*Pool
+	// pool which is disabled by UsePool(false). it is used again by UsePool(true)
+	idlePool *Pool
 	// count of items of retainItems which are not linked any more.
 	cntOfUnlinked int
 
@@ -131,11 +132,14 @@ func UsePool(enable bool) OptHMap {
 		prev := h.pooler != nil
 		if !enable {
 			if h.pooler != nil {
-				h.retainPools = append(h.retainPools, h.pooler)
+				h.idlePool = h.pooler
 			}
 			h.pooler = nil
 		} else if h.pooler == nil {
-			h.pooler = newPool()
+			h.pooler, h.idlePool = h.idlePool, nil
+			if h.pooler == nil {
+				h.pooler = newPool()
+			}
 			h.pooler.startMgr()
 		}
 
diff --git a/pool2.go b/pool2.go
index 9e79a36..3562b30 100644
--- a/pool2.go
+++ b/pool2.go
@@ -40,6 +40,7 @@ type Pool struct {
 	cancel   context.CancelFunc
 	itemPool *[cntOfPoolMgr]samepleItemPool
 	mgrCh    [cntOfPoolMgr]chan poolReq
+	started  bool
 }
 
 func newPool() (p *Pool) {
@@ -58,9 +59,10 @@ func newPool() (p *Pool) {
 }
 
 func (p *Pool) startMgr() {
-	if !UseGoroutineInPool {
+	if !UseGoroutineInPool || p.started {
 		return
 	}
+	p.started = true
 	for i := range p.itemPool {
 
 		cctx, ccancel := context.WithCancel(p.ctx)
-- 
2.43.0


From fd81233a3aef6bb83bf908f17f0eb88893e680a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:40 +0000
Subject: [PATCH 29/29] fix: let a pool without goroutines not wait for them

UseGoroutineInPool which is set after a map with UsePool(true) was made
let the next Set of a new key wait for ever, as the pool has no goroutine
which answers.
---
 pool2.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pool2.go b/pool2.go
index 3562b30..7afb4ba 100644
--- a/pool2.go
+++ b/pool2.go
@@ -40,7 +40,7 @@ type Pool struct {
 	cancel   context.CancelFunc
 	itemPool *[cntOfPoolMgr]samepleItemPool
 	mgrCh    [cntOfPoolMgr]chan poolReq
-	started  bool
+	started  bool // goroutines of startMgr() run. UseGoroutineInPool may be changed after that.
 }
 
 func newPool() (p *Pool) {
@@ -85,7 +85,7 @@ func (p *Pool) Get(reverse uint64, fn successFn) {
 
 	idx := (reverse >> (4 * 15) % cntOfPoolMgr)
 
-	if !UseGoroutineInPool {
+	if !p.started {
 		p := samepleItemPoolFromListHead(p.itemPool[idx].Next())
 		e, _, mu := p.Get()
 		fn(e, mu)
@@ -103,7 +103,7 @@ func (p *Pool) Put(item MapItem) {
 	reverse := item.PtrMapHead().reverse
 	idx := reverse >> (4 * 15)
 
-	if !UseGoroutineInPool {
+	if !p.started {
 		p := samepleItemPoolFromListHead(p.itemPool[idx].Next())
 		p.Put(item)
 		return
-- 
2.43.0

