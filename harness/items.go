package main

import (
	"unsafe"

	"github.com/kazu/elist_head"
	sk "github.com/kazu/skiplistmap"
)

// citem is an item with a chosen hash. Everything else is SampleItem.
type citem struct {
	sk.SampleItem
	h, c uint64
}

func (i *citem) KeyHash() (uint64, uint64) { return i.h, i.c }

// own is an item type of the user: SampleItem is not at the start, and the type has own fields.
type own struct {
	pad [9]uint64 // the offset of ListHead is 128
	sk.SampleItem
	tag  int
	h, c uint64
	x    bool
}

const ownOffset = unsafe.Offsetof((*own)(nil).ListHead)

func (o *own) Offset() uintptr { return ownOffset }
func (o *own) HmapEntryFromListHead(l *elist_head.ListHead) sk.HMapEntry {
	return (*own)(unsafe.Pointer(uintptr(unsafe.Pointer(l)) - ownOffset))
}
func (o *own) Next() sk.HMapEntry { return o.HmapEntryFromListHead(o.PtrListHead().DirectNext()) }
func (o *own) Prev() sk.HMapEntry { return o.HmapEntryFromListHead(o.PtrListHead().DirectPrev()) }
func (o *own) KeyHash() (uint64, uint64) {
	if o.x {
		return o.h, o.c
	}
	return sk.KeyToHash(o.K)
}

// far is an item type whose list head is far behind its start: further than the memory before the head of a bucket.
type far struct {
	pad [700]uint64
	sk.SampleItem
	tag  int
	h, c uint64
	x    bool
}

const farPad = 0x5AFE5AFE5AFE5AFE

const farOffset = unsafe.Offsetof((*far)(nil).ListHead)

func (o *far) Offset() uintptr { return farOffset }
func (o *far) HmapEntryFromListHead(l *elist_head.ListHead) sk.HMapEntry {
	return (*far)(unsafe.Pointer(uintptr(unsafe.Pointer(l)) - farOffset))
}
func (o *far) Next() sk.HMapEntry { return o.HmapEntryFromListHead(o.PtrListHead().DirectNext()) }
func (o *far) Prev() sk.HMapEntry { return o.HmapEntryFromListHead(o.PtrListHead().DirectPrev()) }
func (o *far) KeyHash() (uint64, uint64) {
	if o.x {
		return o.h, o.c
	}
	return sk.KeyToHash(o.K)
}

// giant is far, and no memory is at the place where an item would start whose list head is the head of a list.
type giant struct {
	pad [1 << 37]byte
	sk.SampleItem
}

const giantOffset = unsafe.Offsetof((*giant)(nil).ListHead)

func (o *giant) Offset() uintptr { return giantOffset }
func (o *giant) HmapEntryFromListHead(l *elist_head.ListHead) sk.HMapEntry {
	return (*giant)(unsafe.Pointer(uintptr(unsafe.Pointer(l)) - giantOffset))
}
func (o *giant) Next() sk.HMapEntry { return o.HmapEntryFromListHead(o.PtrListHead().DirectNext()) }
func (o *giant) Prev() sk.HMapEntry { return o.HmapEntryFromListHead(o.PtrListHead().DirectPrev()) }

// farWalk is the known finding of C12: it faults when First() hands a head to the caller as an item of his type.
func farWalk() {
	m := sk.New(sk.ItemFn(func() sk.MapItem { return (*giant)(nil) }))
	n := 0
	for e := m.First(); !e.PtrListHead().Empty(); e = e.Next() {
		n++
	}
	println("entries met:", n)
}

// newItem makes the item given to StoreItem() for key k.
func newItem(k *Key, kind string, v interface{}, direct bool) sk.MapItem {
	s := string(k.S)
	switch {
	case kind == "own":
		o := &own{tag: len(s) + 7, h: k.H, c: k.C, x: k.X}
		o.K = s
		setItemVal(&o.SampleItem, v, direct)
		return o
	case kind == "far":
		o := &far{tag: len(s) + 7, h: k.H, c: k.C, x: k.X}
		for i := range o.pad {
			o.pad[i] = farPad
		}
		o.K = s
		setItemVal(&o.SampleItem, v, direct)
		return o
	case kind == "entry":
		return sk.NewEntryMap(k.own(), v)
	case k.X:
		i := &citem{h: k.H, c: k.C}
		i.K = s
		setItemVal(&i.SampleItem, v, direct)
		return i
	case direct:
		i := &sk.SampleItem{K: s}
		i.V.Store(v)
		return i
	default:
		return sk.NewSampleItem(s, v)
	}
}

func setItemVal(i *sk.SampleItem, v interface{}, direct bool) {
	if direct {
		i.V.Store(v)
		return
	}
	i.SetValue(v)
}

// hash of a key: how the map is asked for it
func (k *Key) hash() (uint64, uint64) {
	if k.X {
		return k.H, k.C
	}
	return sk.KeyToHash(string(k.S))
}

// api: calls which take a key can name this key.
func (k *Key) api() bool { return !k.X || k.C == 0 }

// args are the keys of the types which KeyToHash() knows, whose hashes are those of this key.
func (k *Key) args() (as []interface{}) {
	h := k.H
	as = append(as, h, int(h), int64(h))
	if h < 1<<32 {
		as = append(as, uint32(h))
	}
	if uint64(int32(h)) == h {
		as = append(as, int32(h))
	}
	if h < 1<<8 {
		as = append(as, byte(h))
	}
	return
}

// arg is what they are given.
func (k *Key) arg(n int) interface{} {
	if k.X {
		as := k.args()
		return as[uint(n)%uint(len(as))]
	}
	return string(k.S)
}

// own is the key of an item made by NewEntryMap().
func (k *Key) own() interface{} {
	return k.arg(int((k.H * 0x9E3779B97F4A7C15) >> 40))
}
