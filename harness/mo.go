package main

// An independent MO writer (many layouts) and a strict MO reader.

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

func moKey(m Msg) string {
	s := m.ID
	if m.Ctx != "" {
		s = m.Ctx + "\x04" + s
	}
	if m.Plural {
		s += "\x00" + m.ID2
	}
	return s
}

func moVal(m Msg) string {
	if m.Plural {
		return strings.Join(m.StrN, "\x00")
	}
	return m.Str
}

// MOLayout is one way of laying out an MO file.
type MOLayout struct {
	Big       bool
	Revision  uint32
	SwapTable bool // translation table before original table
	DataFirst bool // strings before the tables
	Share     bool // equal strings and suffixes share bytes
	Hash      bool
	Pad       int
	Shuffle   bool // strings not in table order
	Align     int
	HashFirst bool // the hash table before everything else
	HashZero  bool // an offset without a hash table
	EmptyCtx  bool // messages without context are stored under an explicit empty one
}

func randomMOLayout(r *rand.Rand) MOLayout {
	l := MOLayout{Big: r.Intn(2) == 0, SwapTable: r.Intn(4) == 0, DataFirst: r.Intn(4) == 0, Share: r.Intn(3) == 0,
		Hash: r.Intn(2) == 0, Shuffle: r.Intn(3) == 0, Align: []int{1, 1, 4, 8, 16}[r.Intn(5)]}
	if r.Intn(3) == 0 {
		l.Pad = r.Intn(200)
	}
	l.HashFirst, l.HashZero, l.EmptyCtx = r.Intn(3) == 0, r.Intn(3) == 0, r.Intn(12) == 0
	l.Revision = []uint32{0, 0, 0, 1, 0x10000, 0x10001}[r.Intn(6)]
	return l
}

// moFile is a laid out file with what is where.
type moFile struct {
	data   []byte
	needed int // bytes before this offset hold something the reader needs
	idTab  int
	strTab int
	n      int
	bo     binary.ByteOrder
}

func moWrite(r *rand.Rand, msgs []Msg, l MOLayout) *moFile {
	ms := append([]Msg(nil), msgs...)
	sort.SliceStable(ms, func(i, j int) bool { return moKey(ms[i]) < moKey(ms[j]) })
	f := &moFile{n: len(ms), bo: binary.LittleEndian}
	if l.Big {
		f.bo = binary.BigEndian
	}
	n := len(ms)
	strs := make([]string, 0, 2*n) // ids then translations
	for _, m := range ms {
		k := moKey(m)
		if l.EmptyCtx && m.Ctx == "" && m.ID != "" {
			k = "\x04" + k
		}
		strs = append(strs, k)
	}
	for _, m := range ms {
		strs = append(strs, moVal(m))
	}
	data := make([]byte, 28)
	pad := func(k int) {
		for i := 0; i < k; i++ {
			data = append(data, byte(r.Intn(256)))
		}
	}
	align := func() {
		for l.Align > 1 && len(data)%l.Align != 0 {
			data = append(data, 0)
		}
	}
	offs := make([]int, len(strs))
	putStrings := func() {
		order := make([]int, len(strs))
		for i := range order {
			order[i] = i
		}
		if l.Shuffle {
			r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
		}
		if l.Share { // longer first so that suffixes can share
			sort.SliceStable(order, func(i, j int) bool { return len(strs[order[i]]) > len(strs[order[j]]) })
		}
		start := len(data)
		for _, i := range order {
			if l.Share && len(data)-start < 20000 {
				if at := strings.Index(string(data[start:]), strs[i]+"\x00"); at >= 0 {
					offs[i] = start + at
					continue
				}
			}
			align()
			offs[i] = len(data)
			data = append(data, strs[i]...)
			data = append(data, 0)
		}
	}
	hashOff, hashSize := 0, 0
	hash := func() {
		hashSize = n*4/3 + 3
		hashOff = len(data)
		pad(hashSize * 4)
	}
	tables := func() {
		align()
		for k := 0; k < 2; k++ {
			if (k == 0) != l.SwapTable {
				f.idTab = len(data)
			} else {
				f.strTab = len(data)
			}
			data = append(data, make([]byte, 8*n)...)
			pad(l.Pad % 7 * 4)
		}
		if l.Hash && hashSize == 0 {
			hash()
		}
	}
	pad(l.Pad)
	if l.Hash && l.HashFirst {
		align()
		hash()
	}
	if l.DataFirst {
		putStrings()
		tables()
	} else {
		tables()
		pad(l.Pad)
		putStrings()
	}
	if !l.Hash && l.HashZero {
		hashOff = []int{28, len(data), 1<<32 - 1}[r.Intn(3)]
	}
	f.bo.PutUint32(data[0:], 0x950412de)
	f.bo.PutUint32(data[4:], l.Revision)
	f.bo.PutUint32(data[8:], uint32(n))
	f.bo.PutUint32(data[12:], uint32(f.idTab))
	f.bo.PutUint32(data[16:], uint32(f.strTab))
	f.bo.PutUint32(data[20:], uint32(hashSize))
	f.bo.PutUint32(data[24:], uint32(hashOff))
	f.needed = 28
	if n > 0 {
		f.needed = max(f.idTab, f.strTab) + 8*n
	}
	for i, s := range strs {
		at := f.idTab + 8*i
		if i >= n {
			at = f.strTab + 8*(i-n)
		}
		f.bo.PutUint32(data[at:], uint32(len(s)))
		f.bo.PutUint32(data[at+4:], uint32(offs[i]))
		if len(s) > 0 {
			f.needed = max(f.needed, offs[i]+len(s))
		}
	}
	f.data = data
	return f
}

// moImage is a strictly read MO file.
type moImage struct {
	ids, strs []string
}

// moRead reads strictly: bounds, NUL termination, strictly ascending originals.
func moRead(b []byte) (*moImage, error) {
	if len(b) < 28 {
		return nil, fmt.Errorf("no room for the header")
	}
	var bo binary.ByteOrder = binary.LittleEndian
	switch {
	case bo.Uint32(b) == 0x950412de:
	case binary.BigEndian.Uint32(b) == 0x950412de:
		bo = binary.BigEndian
	default:
		return nil, fmt.Errorf("magic")
	}
	if rev := bo.Uint32(b[4:]); rev>>16 > 1 || rev&0xffff > 1 {
		return nil, fmt.Errorf("revision %#x", rev)
	}
	n, o, t := int(bo.Uint32(b[8:])), int(bo.Uint32(b[12:])), int(bo.Uint32(b[16:]))
	hs, ho := int(bo.Uint32(b[20:])), int(bo.Uint32(b[24:]))
	if n > len(b)/16 || o+8*n > len(b) || t+8*n > len(b) || o < 28 || t < 28 {
		return nil, fmt.Errorf("tables out of bounds: n=%d O=%d T=%d size=%d", n, o, t, len(b))
	}
	if n > 0 && o < t+8*n && t < o+8*n {
		return nil, fmt.Errorf("tables overlap: n=%d O=%d T=%d", n, o, t)
	}
	if hs > 0 && (ho < 28 || ho+4*hs > len(b)) {
		return nil, fmt.Errorf("hash table out of bounds")
	}
	im := &moImage{}
	get := func(what string, at int) (string, error) {
		l, off := int(bo.Uint32(b[at:])), int(bo.Uint32(b[at+4:]))
		if off < 28 || off+l+1 > len(b) {
			return "", fmt.Errorf("%s out of bounds: offset %d length %d size %d", what, off, l, len(b))
		}
		if b[off+l] != 0 {
			return "", fmt.Errorf("%s at %d length %d is not NUL-terminated", what, off, l)
		}
		return string(b[off : off+l]), nil
	}
	for i := 0; i < n; i++ {
		id, err := get(fmt.Sprintf("original %d", i), o+8*i)
		if err != nil {
			return nil, err
		}
		if i > 0 && !(im.ids[i-1] < id) {
			return nil, fmt.Errorf("originals %d and %d are not in ascending order: %q, %q", i-1, i, im.ids[i-1], id)
		}
		im.ids = append(im.ids, id)
		s, err := get(fmt.Sprintf("translation %d", i), t+8*i)
		if err != nil {
			return nil, err
		}
		im.strs = append(im.strs, s)
	}
	return im, nil
}

// find looks up as gettext does: binary search comparing NUL-terminated strings.
func (im *moImage) find(ctx, id string) (string, bool) {
	if ctx != "" {
		id = ctx + "\x04" + id
	}
	lo, hi := 0, len(im.ids)
	for lo < hi {
		mid := (lo + hi) / 2
		cur, _, _ := strings.Cut(im.ids[mid], "\x00")
		switch {
		case cur == id:
			return im.strs[mid], true
		case cur < id:
			lo = mid + 1
		default:
			hi = mid
		}
	}
	return "", false
}

// msgs splits the image into messages.
func (im *moImage) msgs() []Msg {
	var out []Msg
	for i, id := range im.ids {
		m := Msg{}
		if c, rest, ok := strings.Cut(id, "\x04"); ok {
			m.Ctx, id = c, rest
		}
		if a, b, ok := strings.Cut(id, "\x00"); ok {
			m.ID, m.ID2, m.Plural = a, b, true
			m.StrN = strings.Split(im.strs[i], "\x00")
		} else {
			m.ID, m.Str = id, im.strs[i]
		}
		out = append(out, m)
	}
	return out
}
