package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/NVIDIA/sortedmap"
)

// A KeyKind is a sorted universe of N keys of one type: key(r) is the r-th smallest.
type KeyKind struct {
	Name   string
	N      int
	Key    func(r int) sortedmap.Key
	Rank   func(k sortedmap.Key) (int, bool)
	Cmp    sortedmap.Compare
	Pack   func(k sortedmap.Key) ([]byte, error)
	Unpack func(b []byte, bo binary.ByteOrder) (sortedmap.Key, uint64, error)
	bo     binary.ByteOrder
}

type ckey struct {
	A int32
	B string
}

func errShort(what string, n int) error { return fmt.Errorf("%s: only %d bytes left", what, n) }

func strUniverse() []string {
	m := map[string]bool{"": true, "a": true, "aa": true, "aab": true, "ab": true, "b": true, "\x00": true, "\x00\x00": true, "\xff": true, "\xff\xff": true, "\xfe\xff": true, "K": true, "é": true, "日本": true}
	for i := 0; len(m) < 1200; i++ {
		m[fmt.Sprintf("k%04d", i)] = true
		if i%7 == 0 {
			m[fmt.Sprintf("k%04d", i)+"\x00"] = true
		}
		if i%11 == 0 {
			m[fmt.Sprintf("k%04d/", i)+strings.Repeat("x", i%200)] = true
		}
	}
	var l []string
	for s := range m {
		l = append(l, s)
	}
	sort.Strings(l)
	return l
}

var strU = strUniverse()
var strRank = func() map[string]int {
	m := map[string]int{}
	for i, s := range strU {
		m[s] = i
	}
	return m
}()

const stepU64 = uint64(math.MaxUint64) / 3855 // 3855 divides MaxUint64 exactly
const stepU32 = uint32(math.MaxUint32) / 3855

func ord[T int | uint16 | uint32 | uint64 | int32](a, b T) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

var timeZones = []*time.Location{time.UTC, time.FixedZone("east", 9*3600), time.FixedZone("west", -7*3600-1800)}

func put(n int, v uint64, bo binary.ByteOrder) []byte {
	b := make([]byte, n)
	switch n {
	case 2:
		bo.PutUint16(b, uint16(v))
	case 4:
		bo.PutUint32(b, uint32(v))
	default:
		bo.PutUint64(b, v)
	}
	return b
}

func packStr(s string) []byte {
	b := make([]byte, 2, 2+len(s))
	binary.BigEndian.PutUint16(b, uint16(len(s)))
	return append(b, s...)
}

func unpackStr(b []byte) (string, uint64, error) {
	if len(b) < 2 {
		return "", 0, errShort("string length", len(b))
	}
	n := int(binary.BigEndian.Uint16(b))
	if len(b) < 2+n {
		return "", 0, errShort("string", len(b))
	}
	return string(b[2 : 2+n]), uint64(2 + n), nil
}

func badKey(k any) error { return fmt.Errorf("cannot pack key %T", k) }

// packed keys are big-endian whatever the node byte order: the client chooses its own encoding.
var keyBO = binary.BigEndian

func keyKinds() []*KeyKind {
	return []*KeyKind{kkInt, kkU64, kkStr, kkBytes, kkU32, kkU16, kkTime, kkCustom, kkDesc, kkIntSmall, kkMaybe}
}

var kkInt = &KeyKind{
	Name: "int", N: 3856,
	Key: func(r int) sortedmap.Key { return int(uint64(r)*stepU64 ^ (1 << 63)) },
	Rank: func(k sortedmap.Key) (int, bool) {
		v, ok := k.(int)
		u := uint64(v) ^ (1 << 63)
		return int(u / stepU64), ok && u%stepU64 == 0
	},
	Cmp: sortedmap.CompareInt,
	Pack: func(k sortedmap.Key) ([]byte, error) {
		v, ok := k.(int)
		if !ok {
			return nil, badKey(k)
		}
		return put(8, uint64(v), keyBO), nil
	},
	Unpack: func(b []byte, _ binary.ByteOrder) (sortedmap.Key, uint64, error) {
		if len(b) < 8 {
			return nil, 0, errShort("key", len(b))
		}
		return int(keyBO.Uint64(b)), 8, nil
	},
}

var kkIntSmall = &KeyKind{
	Name: "int-dense", N: 100000,
	Key: func(r int) sortedmap.Key { return r - 50000 },
	Rank: func(k sortedmap.Key) (int, bool) {
		v, ok := k.(int)
		return v + 50000, ok && v >= -50000 && v < 50000
	},
	Cmp: sortedmap.CompareInt, Pack: kkInt.Pack, Unpack: kkInt.Unpack,
}

// a large universe for wide nodes
var kkWide = &KeyKind{
	Name: "int-wide", N: 1 << 22,
	Key: func(r int) sortedmap.Key { return r - 1<<21 },
	Rank: func(k sortedmap.Key) (int, bool) {
		v, ok := k.(int)
		return v + 1<<21, ok && v >= -1<<21 && v < 1<<21
	},
	Cmp: sortedmap.CompareInt, Pack: kkInt.Pack, Unpack: kkInt.Unpack,
}

// keys that may be nil: the comparator puts nil first
var kkMaybe = &KeyKind{
	Name: "nil-or-int16", N: 2000,
	Key: func(r int) sortedmap.Key {
		if r == 0 {
			return nil
		}
		return int16(r - 1000)
	},
	Rank: func(k sortedmap.Key) (int, bool) {
		if k == nil {
			return 0, true
		}
		v, ok := k.(int16)
		return int(v) + 1000, ok && v > -1000 && v < 1000
	},
	Cmp: func(a, b sortedmap.Key) (int, error) {
		n := func(k sortedmap.Key) (int, error) {
			if k == nil {
				return math.MinInt, nil
			}
			v, ok := k.(int16)
			if !ok {
				return 0, fmt.Errorf("nil-or-int16 comparator: bad type %T", k)
			}
			return int(v), nil
		}
		x, err := n(a)
		if err != nil {
			return 0, err
		}
		y, err := n(b)
		if err != nil {
			return 0, err
		}
		return 7 * ord(x, y), nil
	},
	Pack: func(k sortedmap.Key) ([]byte, error) {
		if k == nil {
			return []byte{0}, nil
		}
		v, ok := k.(int16)
		if !ok {
			return nil, badKey(k)
		}
		return append([]byte{1}, put(2, uint64(uint16(v)), keyBO)...), nil
	},
	Unpack: func(b []byte, _ binary.ByteOrder) (sortedmap.Key, uint64, error) {
		if len(b) < 1 || b[0] > 1 || (b[0] == 1 && len(b) < 3) {
			return nil, 0, errShort("key", len(b))
		}
		if b[0] == 0 {
			return nil, 1, nil
		}
		return int16(keyBO.Uint16(b[1:])), 3, nil
	},
}

func u64Kind(name string, cmp sortedmap.Compare, desc bool) *KeyKind {
	const n = 3856
	return &KeyKind{
		Name: name, N: n,
		Key: func(r int) sortedmap.Key {
			if desc {
				r = n - 1 - r
			}
			return uint64(r) * stepU64
		},
		Rank: func(k sortedmap.Key) (int, bool) {
			v, ok := k.(uint64)
			r := int(v / stepU64)
			if desc {
				r = n - 1 - r
			}
			return r, ok && v%stepU64 == 0
		},
		Cmp: cmp,
		Pack: func(k sortedmap.Key) ([]byte, error) {
			v, ok := k.(uint64)
			if !ok {
				return nil, badKey(k)
			}
			return put(8, v, keyBO), nil
		},
		Unpack: func(b []byte, _ binary.ByteOrder) (sortedmap.Key, uint64, error) {
			if len(b) < 8 {
				return nil, 0, errShort("key", len(b))
			}
			return keyBO.Uint64(b), 8, nil
		},
	}
}

var kkU64 = u64Kind("uint64", sortedmap.CompareUint64, false)
var kkDesc = u64Kind("uint64-descending", func(a, b sortedmap.Key) (int, error) {
	x, ok1 := a.(uint64)
	y, ok2 := b.(uint64)
	if !ok1 || !ok2 {
		return 0, fmt.Errorf("descending comparator: bad types %T %T", a, b)
	}
	return ord(y, x), nil
}, true)

var kkU32 = &KeyKind{
	Name: "uint32", N: 3856,
	Key: func(r int) sortedmap.Key { return uint32(r) * stepU32 },
	Rank: func(k sortedmap.Key) (int, bool) {
		v, ok := k.(uint32)
		return int(v / stepU32), ok && v%stepU32 == 0
	},
	Cmp: sortedmap.CompareUint32,
	Pack: func(k sortedmap.Key) ([]byte, error) {
		v, ok := k.(uint32)
		if !ok {
			return nil, badKey(k)
		}
		return put(4, uint64(v), keyBO), nil
	},
	Unpack: func(b []byte, _ binary.ByteOrder) (sortedmap.Key, uint64, error) {
		if len(b) < 4 {
			return nil, 0, errShort("key", len(b))
		}
		return keyBO.Uint32(b), 4, nil
	},
}

var kkU16 = &KeyKind{
	Name: "uint16", N: 4370,
	Key: func(r int) sortedmap.Key { return uint16(r * 15) },
	Rank: func(k sortedmap.Key) (int, bool) {
		v, ok := k.(uint16)
		return int(v) / 15, ok && v%15 == 0
	},
	Cmp: sortedmap.CompareUint16,
	Pack: func(k sortedmap.Key) ([]byte, error) {
		v, ok := k.(uint16)
		if !ok {
			return nil, badKey(k)
		}
		return put(2, uint64(v), keyBO), nil
	},
	Unpack: func(b []byte, _ binary.ByteOrder) (sortedmap.Key, uint64, error) {
		if len(b) < 2 {
			return nil, 0, errShort("key", len(b))
		}
		return keyBO.Uint16(b), 2, nil
	},
}

var kkStr = &KeyKind{
	Name: "string", N: len(strU),
	Key: func(r int) sortedmap.Key { return strU[r] },
	Rank: func(k sortedmap.Key) (int, bool) {
		s, ok := k.(string)
		if !ok {
			return 0, false
		}
		r, ok := strRank[s]
		return r, ok
	},
	Cmp: sortedmap.CompareString,
	Pack: func(k sortedmap.Key) ([]byte, error) {
		s, ok := k.(string)
		if !ok {
			return nil, badKey(k)
		}
		return packStr(s), nil
	},
	Unpack: func(b []byte, _ binary.ByteOrder) (sortedmap.Key, uint64, error) {
		s, n, err := unpackStr(b)
		if err != nil {
			return nil, 0, err
		}
		return s, n, nil
	},
}

var kkBytes = &KeyKind{
	Name: "[]byte", N: len(strU),
	Key: func(r int) sortedmap.Key { return []byte(strU[r]) },
	Rank: func(k sortedmap.Key) (int, bool) {
		s, ok := k.([]byte)
		if !ok {
			return 0, false
		}
		r, ok := strRank[string(s)]
		return r, ok
	},
	Cmp: sortedmap.CompareByteSlice,
	Pack: func(k sortedmap.Key) ([]byte, error) {
		s, ok := k.([]byte)
		if !ok {
			return nil, badKey(k)
		}
		return packStr(string(s)), nil
	},
	Unpack: func(b []byte, _ binary.ByteOrder) (sortedmap.Key, uint64, error) {
		s, n, err := unpackStr(b)
		if err != nil {
			return nil, 0, err
		}
		return []byte(s), n, nil
	},
}

var kkTime = &KeyKind{
	Name: "time.Time", N: 3000,
	Key: func(r int) sortedmap.Key {
		return time.Unix(1_500_000_000, int64(r)*37).In(timeZones[r%len(timeZones)])
	},
	Rank: func(k sortedmap.Key) (int, bool) {
		t, ok := k.(time.Time)
		if !ok {
			return 0, false
		}
		d := t.UnixNano() - 1_500_000_000*1_000_000_000
		return int(d / 37), d%37 == 0
	},
	Cmp: sortedmap.CompareTime,
	Pack: func(k sortedmap.Key) ([]byte, error) {
		t, ok := k.(time.Time)
		if !ok {
			return nil, badKey(k)
		}
		return put(8, uint64(t.UnixNano()), keyBO), nil
	},
	Unpack: func(b []byte, _ binary.ByteOrder) (sortedmap.Key, uint64, error) {
		if len(b) < 8 {
			return nil, 0, errShort("key", len(b))
		}
		return time.Unix(0, int64(keyBO.Uint64(b))), 8, nil
	},
}

// custom: a struct key whose comparator answers with the extremes of int
var kkCustom = &KeyKind{
	Name: "struct", N: 3000,
	Key: func(r int) sortedmap.Key { return ckey{A: int32(r/3) - 500, B: strings.Repeat("z", r%3)} },
	Rank: func(k sortedmap.Key) (int, bool) {
		c, ok := k.(ckey)
		return (int(c.A)+500)*3 + len(c.B), ok
	},
	Cmp: func(a, b sortedmap.Key) (int, error) {
		x, ok1 := a.(ckey)
		y, ok2 := b.(ckey)
		if !ok1 || !ok2 {
			return 0, fmt.Errorf("struct comparator: bad types %T %T", a, b)
		}
		c := ord(x.A, y.A)
		if c == 0 {
			c = strings.Compare(x.B, y.B)
		}
		switch {
		case c < 0:
			return math.MinInt, nil
		case c > 0:
			return math.MaxInt, nil
		}
		return 0, nil
	},
	Pack: func(k sortedmap.Key) ([]byte, error) {
		c, ok := k.(ckey)
		if !ok {
			return nil, badKey(k)
		}
		return append(put(4, uint64(uint32(c.A)), keyBO), packStr(c.B)...), nil
	},
	Unpack: func(b []byte, _ binary.ByteOrder) (sortedmap.Key, uint64, error) {
		if len(b) < 4 {
			return nil, 0, errShort("key", len(b))
		}
		s, n, err := unpackStr(b[4:])
		if err != nil {
			return nil, 0, err
		}
		return ckey{A: int32(keyBO.Uint32(b)), B: s}, n + 4, nil
	},
}

// badKeyFor returns a key of another type than the kind's.
func badKeyFor(kk *KeyKind, i int) sortedmap.Key {
	if kk.Name == kkMaybe.Name {
		return []sortedmap.Key{int(1), "x", int8(1), uint16(1)}[i%4]
	}
	l := []sortedmap.Key{nil, int(1), "x", []byte("x"), uint64(3), uint32(3), uint16(3), int64(5), 3.5, time.Unix(1, 1), ckey{}, struct{}{}, (*int)(nil), int32(7)}
	for n := 0; n < len(l); n++ {
		k := l[(i+n)%len(l)]
		if k == nil {
			return k
		}
		if fmt.Sprintf("%T", k) != fmt.Sprintf("%T", kk.Key(0)) {
			return k
		}
	}
	return nil
}

// A ValKind maps ids to values. Values of distinct ids differ, unless Blind.
type ValKind struct {
	Name   string
	Blind  bool // all values equal (zero packed bytes)
	Val    func(id int) sortedmap.Value
	ID     func(v sortedmap.Value) (int, bool)
	Pack   func(v sortedmap.Value) ([]byte, error)
	Unpack func(b []byte) (sortedmap.Value, uint64, error)
}

func blobOf(id int) []byte {
	n := 4 + (id*7)%40
	if id%97 == 0 {
		n = 4000
	}
	b := make([]byte, n)
	binary.BigEndian.PutUint32(b, uint32(id))
	for i := 4; i < n; i++ {
		b[i] = byte(id*31 + i)
	}
	return b
}

var vkU64 = &ValKind{
	Name: "uint64",
	Val:  func(id int) sortedmap.Value { return uint64(id) },
	ID: func(v sortedmap.Value) (int, bool) {
		u, ok := v.(uint64)
		return int(u), ok
	},
	Pack: func(v sortedmap.Value) ([]byte, error) {
		u, ok := v.(uint64)
		if !ok {
			return nil, fmt.Errorf("cannot pack value %T", v)
		}
		return put(8, u, keyBO), nil
	},
	Unpack: func(b []byte) (sortedmap.Value, uint64, error) {
		if len(b) < 8 {
			return nil, 0, errShort("value", len(b))
		}
		return keyBO.Uint64(b), 8, nil
	},
}

var vkBlob = &ValKind{
	Name: "blob",
	Val:  func(id int) sortedmap.Value { return blobOf(id) },
	ID: func(v sortedmap.Value) (int, bool) {
		b, ok := v.([]byte)
		if !ok || len(b) < 4 {
			return 0, false
		}
		id := int(binary.BigEndian.Uint32(b))
		return id, bytes.Equal(b, blobOf(id))
	},
	Pack: func(v sortedmap.Value) ([]byte, error) {
		b, ok := v.([]byte)
		if !ok {
			return nil, fmt.Errorf("cannot pack value %T", v)
		}
		return packStr(string(b)), nil
	},
	Unpack: func(b []byte) (sortedmap.Value, uint64, error) {
		s, n, err := unpackStr(b)
		if err != nil {
			return nil, 0, err
		}
		return []byte(s), n, nil
	},
}

var vkStr = &ValKind{
	Name: "string",
	Val: func(id int) sortedmap.Value {
		if id == 0 {
			return ""
		}
		return fmt.Sprintf("v%d", id)
	},
	ID: func(v sortedmap.Value) (int, bool) {
		s, ok := v.(string)
		if s == "" {
			return 0, ok
		}
		var id int
		_, err := fmt.Sscanf(s, "v%d", &id)
		return id, ok && err == nil
	},
	Pack: func(v sortedmap.Value) ([]byte, error) {
		s, ok := v.(string)
		if !ok {
			return nil, fmt.Errorf("cannot pack value %T", v)
		}
		return packStr(s), nil
	},
	Unpack: func(b []byte) (sortedmap.Value, uint64, error) {
		s, n, err := unpackStr(b)
		if err != nil {
			return nil, 0, err
		}
		return s, n, nil
	},
}

var vkUnit = &ValKind{
	Name: "unit", Blind: true,
	Val:    func(id int) sortedmap.Value { return struct{}{} },
	ID:     func(v sortedmap.Value) (int, bool) { _, ok := v.(struct{}); return 0, ok },
	Pack:   func(v sortedmap.Value) ([]byte, error) { return []byte{}, nil },
	Unpack: func(b []byte) (sortedmap.Value, uint64, error) { return struct{}{}, 0, nil },
}

// values that may be nil (one packed byte) or a number
var vkMaybe = &ValKind{
	Name: "nil-or-uint64",
	Val: func(id int) sortedmap.Value {
		if id%4 == 1 {
			return nil
		}
		return uint64(id)
	},
	ID: func(v sortedmap.Value) (int, bool) {
		if v == nil {
			return 1, true
		}
		u, ok := v.(uint64)
		return int(u), ok
	},
	Pack: func(v sortedmap.Value) ([]byte, error) {
		if v == nil {
			return []byte{0}, nil
		}
		u, ok := v.(uint64)
		if !ok {
			return nil, fmt.Errorf("cannot pack value %T", v)
		}
		return append([]byte{1}, put(8, u, keyBO)...), nil
	},
	Unpack: func(b []byte) (sortedmap.Value, uint64, error) {
		if len(b) < 1 || b[0] > 1 || (b[0] == 1 && len(b) < 9) {
			return nil, 0, errShort("value", len(b))
		}
		if b[0] == 0 {
			return nil, 1, nil
		}
		return keyBO.Uint64(b[1:]), 9, nil
	},
}

// memory-only values: nil, pointers, functions, big structs
var ptrTab = func() []*int {
	var l []*int
	for i := 0; i < 4096; i++ {
		v := i
		l = append(l, &v)
	}
	return l
}()

var vkAny = &ValKind{
	Name: "any",
	Val: func(id int) sortedmap.Value {
		if id == 3 {
			return nil
		}
		if id%2 == 0 {
			return ptrTab[id%len(ptrTab)]
		}
		return [2]int{id, -id}
	},
	ID: func(v sortedmap.Value) (int, bool) {
		switch x := v.(type) {
		case nil:
			return 3, true
		case *int:
			return *x, true
		case [2]int:
			return x[0], x[0] == -x[1]
		}
		return 0, false
	},
}

// keys and values of up to 70000 bytes: 32-bit lengths
var hugeLens = []int{0, 100, 9000, 70000, 10, 33000, 65536 - 26, 4096 - 26}

var hugeKeys = func() func(r int) string {
	var tab [64]string
	var once sync.Once
	return func(r int) string {
		once.Do(func() {
			for i := range tab {
				tab[i] = fmt.Sprintf("%04d", i) + strings.Repeat(string(rune('a'+i%26)), hugeLens[i%len(hugeLens)])
			}
		})
		return tab[r]
	}
}()

func pack32(s string) []byte {
	b := make([]byte, 4, 4+len(s))
	binary.BigEndian.PutUint32(b, uint32(len(s)))
	return append(b, s...)
}

func unpack32(b []byte) (string, uint64, error) {
	if len(b) < 4 {
		return "", 0, errShort("string length", len(b))
	}
	n := uint64(binary.BigEndian.Uint32(b))
	if uint64(len(b)) < 4+n {
		return "", 0, errShort("string", len(b))
	}
	return string(b[4 : 4+n]), 4 + n, nil
}

var kkHuge = &KeyKind{
	Name: "huge-string", N: 64,
	Key: func(r int) sortedmap.Key { return hugeKeys(r) },
	Rank: func(k sortedmap.Key) (int, bool) {
		s, ok := k.(string)
		if !ok || len(s) < 4 {
			return 0, false
		}
		r, err := strconv.Atoi(s[:4])
		return r, err == nil && r >= 0 && r < 64 && s == hugeKeys(r)
	},
	Cmp: sortedmap.CompareString,
	Pack: func(k sortedmap.Key) ([]byte, error) {
		s, ok := k.(string)
		if !ok {
			return nil, badKey(k)
		}
		return pack32(s), nil
	},
	Unpack: func(b []byte, _ binary.ByteOrder) (sortedmap.Key, uint64, error) {
		s, n, err := unpack32(b)
		if err != nil {
			return nil, 0, err
		}
		return s, n, nil
	},
}

func hugeVal(id int) string {
	return fmt.Sprintf("%08d", id) + hugePad[:hugeLens[(id+id/8)%len(hugeLens)]]
}

var hugePad = func() string {
	b := make([]byte, 70000)
	for i := range b {
		b[i] = byte(i * 7 >> 3)
	}
	return string(b)
}()

var vkHuge = &ValKind{
	Name: "huge",
	Val:  func(id int) sortedmap.Value { return hugeVal(id) },
	ID: func(v sortedmap.Value) (int, bool) {
		s, ok := v.(string)
		if !ok || len(s) < 8 {
			return 0, false
		}
		id, err := strconv.Atoi(s[:8])
		return id, err == nil && s[8:] == hugePad[:hugeLens[(id+id/8)%len(hugeLens)]] && len(s) < 100000
	},
	Pack: func(v sortedmap.Value) ([]byte, error) {
		s, ok := v.(string)
		if !ok {
			return nil, fmt.Errorf("cannot pack value %T", v)
		}
		return pack32(s), nil
	},
	Unpack: func(b []byte) (sortedmap.Value, uint64, error) {
		s, n, err := unpack32(b)
		if err != nil {
			return nil, 0, err
		}
		return s, n, nil
	},
}

func valKinds() []*ValKind { return []*ValKind{vkU64, vkBlob, vkStr, vkUnit, vkMaybe} }

// match tells whether v is the value with this id.
func (vk *ValKind) match(v sortedmap.Value, id int) bool {
	g, ok := vk.ID(v)
	if !ok {
		return false
	}
	if vk.Blind {
		return true
	}
	if vk == vkMaybe && id%4 == 1 {
		return v == nil
	}
	if vk == vkAny && id%2 == 0 && id != 3 {
		return g == id%len(ptrTab)
	}
	return g == id
}
