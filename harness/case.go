package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
)

// Key is one key of the universe of a case.
// X: the key is stored by StoreItem() with an item whose KeyHash() is (H, C); it is looked up by hash.
type Key struct {
	S []byte `json:"s"`
	X bool   `json:"x,omitempty"`
	H uint64 `json:"h,omitempty"`
	C uint64 `json:"c,omitempty"`
}

// Op is one call. K: index in Keys. V: number the value is made from. A: other argument.
type Op struct {
	O string `json:"o"`
	K int    `json:"k,omitempty"`
	V int    `json:"v,omitempty"`
	A int    `json:"a,omitempty"`
}

// Cfg is the configuration of one map.
type Cfg struct {
	Store  string `json:"store"`           // plain, pool, emb
	Bucket int    `json:"bucket"`          // SearchMode
	Max    int    `json:"max"`             // MaxPefBucket
	Goro   bool   `json:"goro,omitempty"`  // UseGoroutineInPool
	Stats  bool   `json:"stats,omitempty"` // EnableStats
	Item   string `json:"item,omitempty"`  // "", own, entry: type of items given to StoreItem()
	Def    bool   `json:"def,omitempty"`   // New() without any option
}

// Case is a complete, self-contained input: the replay file holds one.
type Case struct {
	Prop string `json:"prop"`
	Kind string `json:"kind"`
	Cfg  Cfg    `json:"cfg"`
	Cfgs []Cfg  `json:"cfgs,omitempty"`
	Keys []Key  `json:"keys,omitempty"`
	Ops  []Op   `json:"ops,omitempty"`
	Thr  [][]Op `json:"thr,omitempty"`
	Chk  string `json:"chk,omitempty"` // extra checks: ret, len, range, fin ...
	VT   int    `json:"vt,omitempty"`  // how values are made
	N    int    `json:"n,omitempty"`
	Seed uint64 `json:"seed,omitempty"`
	Race bool   `json:"race,omitempty"` // run by the -race binary
	Cold bool   `json:"cold,omitempty"` // run in a process of its own, whose first calls are those of the case
	Reps int    `json:"reps,omitempty"` // repetitions on replay (schedules)
	Msg  string `json:"msg,omitempty"`  // what failed when the case was saved
	Note string `json:"note,omitempty"`
}

func (c *Case) hash() uint64 {
	d := *c
	d.Msg, d.Note = "", ""
	b, _ := json.Marshal(&d)
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// Stats is what one case covered.
type Stats struct {
	Cnt        map[string]int
	NonTrivial bool
}

func newStats() *Stats { return &Stats{Cnt: map[string]int{}} }

func (s *Stats) inc(k string)        { s.Cnt[k]++ }
func (s *Stats) add(k string, n int) { s.Cnt[k] += n }
func (s *Stats) max(k string, n int) {
	if s.Cnt[k] < n {
		s.Cnt[k] = n
	}
}

// fail is a violation of the property.
type fail struct{ msg string }

func (f *fail) Error() string { return f.msg }

func failf(f string, a ...interface{}) error { return &fail{fmt.Sprintf(f, a...)} }
