package main

import (
	"fmt"
	"math"
	"reflect"
	"time"

	sk "github.com/kazu/skiplistmap"
)

type vStruct struct {
	A int
	B string
	C [3]uint16
}

type vBox struct {
	n   int
	pad []byte
}

type vErr int

func (e vErr) Error() string { return fmt.Sprint("e", int(e)) }

const nVT = 38

// mkVal makes the value number v. vt=0: int, vt=1: any type, vt=2: pointer to fresh memory, vt=3: string.
func mkVal(vt, v int) interface{} {
	switch vt {
	case 0:
		return v
	case 2:
		b := &vBox{n: v, pad: make([]byte, 16+v%97)}
		for i := range b.pad {
			b.pad[i] = byte(v + i)
		}
		return b
	case 3:
		return fmt.Sprintf("value-%d", v)
	}
	n := v / nVT
	switch v % nVT {
	case 0:
		return n
	case 1:
		return fmt.Sprintf("s%d", n)
	case 2:
		return ""
	case 3:
		return float64(n) / 3
	case 4:
		return []byte(fmt.Sprint("b", n))
	case 5:
		return []byte(nil)
	case 6:
		return map[string]int{"n": n}
	case 7:
		return vStruct{A: n, B: fmt.Sprint(n), C: [3]uint16{1, uint16(n), 3}}
	case 8:
		return &vStruct{A: n}
	case 9:
		return (*vStruct)(nil)
	case 10:
		return vErr(n)
	case 11:
		return n%2 == 0
	case 12:
		return uint8(n)
	case 13:
		return int64(n) << 32
	case 14:
		return uint64(n) | 1<<63
	case 15:
		return [4]int{n, n + 1}
	case 16:
		return []interface{}{n, "x", nil}
	case 17:
		return complex(float64(n), -1)
	case 18:
		return struct{}{}
	case 19:
		return [0]int{}
	case 20:
		return rune(n)
	case 21:
		return []string{"a", fmt.Sprint(n)}
	case 22:
		return map[string]int(nil)
	case 23:
		return [][]int{{n}, nil}
	case 24:
		return math.NaN()
	case 25:
		return math.Copysign(0, -1)
	case 26:
		return func() int { return n }
	case 27:
		return make(chan int, 1+n%3)
	case 28:
		return &sk.SampleItem{K: fmt.Sprint("k", n)} // not in a map
	case 29:
		return [300]int{n, 299: n}
	case 30:
		return -n - 1
	case 31:
		return float32(n) / 7
	case 32:
		return time.Duration(n) - time.Hour
	case 33:
		return fmt.Errorf("e%d: %w", n, vErr(n))
	case 34:
		return uintptr(n)
	case 35:
		return vAny{F: func() {}, V: []int{n}}
	case 36:
		return sk.HMapEntry(sk.EmptySampleHMapEntry) // nil of a type of the package
	default:
		return reflect.ValueOf(n)
	}
}

type vAny struct {
	F func()
	V interface{}
}

// sameVal: got must have the dynamic type and the content of the stored value.
func sameVal(got, want interface{}) bool {
	if wb, ok := want.(*vBox); ok {
		gb, ok := got.(*vBox)
		if !ok || gb == nil || gb.n != wb.n || len(gb.pad) != len(wb.pad) {
			return false
		}
		for i := range gb.pad {
			if gb.pad[i] != byte(gb.n+i) {
				return false
			}
		}
		return true
	}
	switch w := want.(type) {
	case int:
		g, ok := got.(int)
		return ok && g == w
	case string:
		g, ok := got.(string)
		return ok && g == w
	}
	if reflect.TypeOf(got) != reflect.TypeOf(want) {
		return false
	}
	g, w := reflect.ValueOf(got), reflect.ValueOf(want)
	switch w.Kind() {
	case reflect.Ptr, reflect.Chan:
		return got == want // same pointer, not only same content
	case reflect.Map, reflect.Func:
		return g.Pointer() == w.Pointer()
	case reflect.Slice:
		return g.Pointer() == w.Pointer() && g.Len() == w.Len() && g.Cap() == w.Cap()
	case reflect.Float64:
		return math.Float64bits(g.Float()) == math.Float64bits(w.Float())
	}
	if wa, ok := want.(vAny); ok {
		ga := got.(vAny)
		return reflect.ValueOf(ga.F).Pointer() == reflect.ValueOf(wa.F).Pointer() && reflect.DeepEqual(ga.V, wa.V)
	}
	if wv, ok := want.(reflect.Value); ok {
		return got.(reflect.Value) == wv
	}
	return reflect.DeepEqual(got, want)
}

func show(v interface{}) string {
	if b, ok := v.(*vBox); ok {
		if b == nil {
			return "box(nil)"
		}
		return fmt.Sprintf("box(%d)", b.n)
	}
	s := fmt.Sprintf("%T(%v)", v, v)
	if len(s) > 80 {
		s = s[:80] + "..."
	}
	return s
}
