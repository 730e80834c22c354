package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand/v2"
	"slices"
	"sort"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"
)

// C02: MP4 readers are total.

// mnode is a box of a tree that is being mutated.
type mnode struct {
	typ      string
	pre      []byte // fixed fields, or content of leaves
	children []*mnode
	big      bool    // 64-bit header
	size     *uint64 // declared size, when it is not the right one
	off      int     // offset in the last serialisation
}

func toNode(x *mbox) *mnode {
	n := &mnode{typ: x.typ}
	if x.children == nil && x.raw != nil {
		n.pre = append([]byte(nil), x.raw...)
		return n
	}
	n.pre = append([]byte(nil), x.entry...)
	for _, c := range x.children {
		n.children = append(n.children, toNode(c))
	}
	return n
}

func (n *mnode) clone() *mnode {
	c := *n
	c.pre = append([]byte(nil), n.pre...)
	c.children = nil
	for _, x := range n.children {
		c.children = append(c.children, x.clone())
	}
	return &c
}

func (n *mnode) write(out []byte) []byte {
	n.off = len(out)
	out = append(out, 0, 0, 0, 1)
	out = append(out, n.typ...)
	if n.big {
		out = append(out, make([]byte, 8)...)
	}
	out = append(out, n.pre...)
	for _, c := range n.children {
		out = c.write(out)
	}
	size := uint64(len(out) - n.off)
	if n.size != nil {
		size = *n.size
	}
	if n.big {
		binary.BigEndian.PutUint64(out[n.off+8:], size)
	} else {
		binary.BigEndian.PutUint32(out[n.off:], uint32(size))
	}
	return out
}

func (n *mnode) list(out *[]*mnode) {
	for _, c := range n.children {
		*out = append(*out, c)
		c.list(out)
	}
}

// all box types that mean something to a reader or to the box library.
var boxTypes = []string{
	"ftyp", "moov", "mvhd", "trak", "tkhd", "edts", "elst", "mdia", "mdhd", "hdlr", "minf", "vmhd", "smhd", "dinf", "dref", "url ", "stbl", "stsd",
	"stts", "stss", "ctts", "stsc", "stsz", "stco", "co64", "mvex", "trex", "udta", "moof", "mfhd", "traf", "tfhd", "tfdt", "trun", "mdat", "free", "skip",
	"avc1", "avcC", "hvc1", "hev1", "hvcC", "av01", "av1C", "vp09", "vpcC", "mp4v", "mp4a", "esds", "Opus", "dOps", "fLaC", "dfLa", "ac-3", "dac3", "ec-3",
	"dec3", "ipcm", "pcmC", "c608", "btrt", "colr", "pasp", "meta", "ilst", "keys", "data", "sidx", "emsg", "uuid", "wave", "mfra", "tfra", "mehd", "mfro",
	"saio", "saiz", "sbgp", "sgpd", "schi", "schm", "senc", "pssh", "prft", "iods", "subs", "stdp", "cslg", "wvtt", "sbtl", "stpp", "titl", "----", "loci",
}

func edgeU32(r *rand.Rand, ref int) uint32 {
	return pick[uint32](r, 0, 1, 2, 7, 8, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE, 19200, 19201, 65535, 65536,
		5184000, 5184001, uint32(ref), uint32(ref+1), uint32(ref-1), uint32(1)<<r.IntN(32), uint32(r.Uint64()))
}

// mutateTree applies structural mutations.
func mutateTree(r *rand.Rand, root *mnode) {
	for range 1 + r.IntN(pick(r, 1, 2, 3, 8)) {
		var all []*mnode
		root.list(&all)
		if len(all) == 0 {
			return
		}
		x := all[r.IntN(len(all))]
		parent := root
		idx := 0
		for _, p := range append([]*mnode{root}, all...) {
			for i, c := range p.children {
				if c == x {
					parent, idx = p, i
				}
			}
		}
		insert := func(at int, n *mnode) {
			l := append([]*mnode(nil), parent.children[:at]...)
			l = append(l, n)
			parent.children = append(l, parent.children[at:]...)
		}
		switch r.IntN(15) {
		case 0: // duplicate
			for range pick(r, 1, 1, 1, 2, r.IntN(200)) {
				insert(idx, x.clone())
			}
		case 1: // remove
			parent.children = append(append([]*mnode(nil), parent.children[:idx]...), parent.children[idx+1:]...)
		case 2: // swap
			j := r.IntN(len(parent.children))
			parent.children[idx], parent.children[j] = parent.children[j], parent.children[idx]
		case 3: // copy elsewhere
			y := all[r.IntN(len(all))]
			y.children = append(y.children, x.clone())
		case 4: // change type
			x.typ = pick(r, boxTypes...)
		case 5, 6, 7: // change a word
			if len(x.pre) >= 4 {
				off := r.IntN(min(len(x.pre)-3, pick(r, 13, 40, 1000000)))
				if flip(r) {
					off &^= 3
				}
				binary.BigEndian.PutUint32(x.pre[off:], edgeU32(r, len(x.pre)))
			}
		case 8: // truncate or extend
			if flip(r) {
				x.pre = x.pre[:r.IntN(len(x.pre)+1)]
			} else {
				x.pre = append(x.pre, payload(r, r.IntN(40))...)
			}
		case 9: // flip bits
			if len(x.pre) > 0 {
				for range 1 + r.IntN(4) {
					x.pre[r.IntN(len(x.pre))] ^= 1 << r.IntN(8)
				}
			}
		case 10: // wrong size
			v := pick(r, 0, 1, 2, 4, 7, 8, 9, 15, 16, 17, uint64(r.IntN(64)), uint64(r.IntN(100000)), uint64(edgeU32(r, 0)))
			x.size = &v
		case 11: // 64-bit size
			x.big = true
			if flip(r) {
				v := pick(r, 0, 1, 8, 15, 16, 1<<63, 1<<63-1, 1<<32, ^uint64(0), ^uint64(0)-uint64(r.IntN(64)), ^uint64(0)-uint64(r.IntN(5000)), ^uint64(0)-uint64(x.off)+1, edge(r, 64))
				x.size = &v
			}
		case 12: // nest
			t := pick(r, "mdia", "minf", "stbl", "edts", "traf", "moov", "trak", "udta", "stsd", "mvhd", x.typ, "dinf", "meta", "ilst")
			n := x
			for range pick(r, 1, 1, 2, 5, r.IntN(50)) {
				n = &mnode{typ: t, children: []*mnode{n}}
			}
			parent.children[idx] = n
		case 13: // insert
			n := &mnode{typ: pick(r, boxTypes...), pre: payload(r, r.IntN(40))}
			if flip(r) {
				n.pre = make([]byte, r.IntN(30))
				if len(n.pre) >= 8 {
					binary.BigEndian.PutUint32(n.pre[4:], edgeU32(r, len(n.pre)))
				}
			}
			insert(idx, n)
		default: // empty
			x.children = nil
			if flip(r) {
				x.pre = nil
			}
		}
	}
}

const (
	mp4Init = iota
	mp4Parts
	mp4Pres
)

var mp4KindNames = []string{"init", "parts", "presentation"}

func validMP4(r *rand.Rand, kind int) []byte {
	switch kind {
	case mp4Init:
		i, _ := genInit(r, r.IntN(codecKinds))
		if flip(r) {
			i.UserData = genUserData(r)
		}
		b, err := marshalInit(*i, false)
		if err != nil {
			panic(err)
		}
		return b
	case mp4Parts:
		ps := genParts(r, false)
		var sb seekablebuffer.Buffer
		if err := ps.Marshal(&sb); err != nil {
			panic(err)
		}
		return sb.Bytes()
	default:
		g := genPresentation(r, r.IntN(codecKinds))
		var out bytes.Buffer
		if err := g.p.Marshal(&out); err != nil {
			panic(err)
		}
		return out.Bytes()
	}
}

// craftedMP4 builds files around what readers are known to be fragile to.
func craftedMP4(r *rand.Rand, kind int) []byte {
	leaf := func(typ string, content []byte) *mnode { return &mnode{typ: typ, pre: content} }
	base := validMP4(r, kind)
	boxes, err := walkBoxes(base, 0, len(base), "")
	if err != nil {
		panic(err)
	}
	root := &mnode{}
	for _, b := range boxes {
		root.children = append(root.children, toNode(b))
	}
	var all []*mnode
	root.list(&all)
	find := func(t string) *mnode {
		var l []*mnode
		for _, x := range all {
			if x.typ == t {
				l = append(l, x)
			}
		}
		if len(l) == 0 {
			return leaf(t, nil)
		}
		return l[r.IntN(len(l))]
	}
	table := func(entrySize, n int, count uint32) []byte {
		b := append(make([]byte, 4), u32b(count)...)
		for range n * entrySize / 4 {
			b = append(b, u32b(edgeU32(r, n))...)
		}
		return b
	}
	switch r.IntN(8) {
	case 6: // tables repeated, or with twice the entries, or both
		stbl := find("stbl")
		for range 1 + r.IntN(3) {
			t := pick(r, "stts", "stsc", "stsc", "stsz", "stco", "ctts", "stss")
			for i, x := range stbl.children {
				if x.typ != t {
					continue
				}
				head := 8
				if t == "stsz" {
					head = 12
				}
				if len(x.pre) < head {
					break
				}
				if flip(r) {
					stbl.children = append(append(append([]*mnode(nil), stbl.children[:i]...), x.clone()), stbl.children[i:]...)
				} else {
					x.pre = append(clone(x.pre), x.pre[head:]...)
					n := 2 * binary.BigEndian.Uint32(x.pre[head-4:])
					binary.BigEndian.PutUint32(x.pre[head-4:], n)
				}
				if t == "stsc" && flip(r) { // as many chunks as required by both
					for _, y := range stbl.children {
						if y.typ == "stco" && len(y.pre) >= 8 {
							y.pre = append(clone(y.pre), y.pre[8:]...)
							binary.BigEndian.PutUint32(y.pre[4:], 2*binary.BigEndian.Uint32(y.pre[4:]))
						}
					}
				}
				break
			}
		}
	case 7: // a field
		types := map[string]bool{}
		var l []string
		for _, x := range all {
			if !types[x.typ] && len(x.pre) >= 4 {
				types[x.typ] = true
				l = append(l, x.typ)
			}
		}
		sort.Strings(l)
		for range 1 + r.IntN(2) {
			x, most := find(l[r.IntN(len(l))]), 100
			if flip(r) {
				x, most = find(pick(r, "mdhd", "mdhd", "tkhd", "mvhd", "tfhd", "tfdt", "trun")), 24
			}
			if len(x.pre) >= 4 {
				off := r.IntN(min(len(x.pre), most)/4) * 4
				binary.BigEndian.PutUint32(x.pre[off:], pick(r, 0, 0, 0xFFFFFFFF, 1, edgeU32(r, len(x.pre))))
			}
		}
	case 0: // a root box which ends before it starts
		f := leaf("free", payload(r, r.IntN(20)))
		f.big = true
		root.children = append(root.children, f)
		at := len(root.write(nil)) - 16 - len(f.pre)
		v := ^uint64(0) - uint64(pick(r, 0, 8, 16, at, r.IntN(at+64))) + 1
		f.size = &v
	case 1: // deep nesting
		t := pick(r, "mdia", "minf", "stbl", "edts", "traf", "udta", "trak", "moov", "stsd")
		n := find(pick(r, t, "hdlr", "tfhd", "elst"))
		c := n.clone()
		for range pick(r, 20, 100, 1000) {
			c = &mnode{typ: t, children: []*mnode{c}}
		}
		*n = *c
	case 2: // tables with sizes and counts which do not match
		x := find(pick(r, "stts", "stss", "ctts", "stsc", "stsz", "stco", "trun", "stsd", "dref", "elst", "hvcC", "avcC", "esds", "dfLa"))
		n := r.IntN(4)
		x.pre = table(pick(r, 4, 8, 12), n, edgeU32(r, n))
	case 3: // sample tables with edge values but the right layout
		for range 1 + r.IntN(3) {
			x := find(pick(r, "stts", "stsc", "stsc", "ctts", "stss", "stco"))
			n := r.IntN(4)
			x.pre = table(map[string]int{"stts": 8, "stsc": 12, "ctts": 8, "stss": 4, "stco": 4}[x.typ], n, uint32(n))
		}
	case 4: // runs
		x := find("trun")
		flags := uint32(r.IntN(0x1000))
		n := r.IntN(5)
		b := u32b(flags|uint32(r.IntN(2))<<24, pick(r, uint32(n), edgeU32(r, n)))
		for range r.IntN(20) {
			b = append(b, u32b(edgeU32(r, len(base)))...)
		}
		x.pre = b
		x.big = r.IntN(4) == 0
	default: // sample table boxes repeated or missing
		x := find("stbl")
		for range 1 + r.IntN(4) {
			if len(x.children) < 2 {
				break
			}
			i := r.IntN(len(x.children))
			if flip(r) {
				x.children = append(x.children, x.children[i].clone())
			} else {
				x.children = append(append([]*mnode(nil), x.children[:i]...), x.children[i+1:]...)
			}
		}
	}
	if r.IntN(3) == 0 {
		mutateTree(r, root)
	}
	var out []byte
	for _, b := range root.children {
		out = b.write(out)
	}
	return out
}

// hostileMP4 generates a hostile file.
func hostileMP4(r *rand.Rand, kind int, fam string) []byte {
	switch fam {
	case "tree":
		base := validMP4(r, kind)
		boxes, err := walkBoxes(base, 0, len(base), "")
		if err != nil {
			panic(err)
		}
		root := &mnode{}
		for _, b := range boxes {
			root.children = append(root.children, toNode(b))
		}
		for _, b := range root.children {
			b.write(nil)
		}
		mutateTree(r, root)
		var out []byte
		for _, b := range root.children {
			out = b.write(out)
		}
		return out
	case "crafted":
		return craftedMP4(r, kind)
	default: // bytes
		base := validMP4(r, kind)
		switch r.IntN(6) {
		case 0:
			return payload(r, r.IntN(300))
		case 1: // a random sequence of boxes
			var out []byte
			for range 1 + r.IntN(10) {
				out = append(out, boxBytes(pick(r, boxTypes...), payload(r, r.IntN(60)))...)
			}
			return out
		case 2:
			return base[:r.IntN(len(base)+1)]
		default:
			for range 1 + r.IntN(10) {
				if len(base) == 0 {
					break
				}
				i := r.IntN(len(base))
				switch r.IntN(3) {
				case 0:
					base[i] ^= 1 << r.IntN(8)
				case 1:
					base[i] = byte(r.Uint32())
				default:
					base[i] = pick[byte](r, 0, 0xFF, 0x7F, 0x80, 1)
				}
			}
			return base
		}
	}
}

// countingReader counts calls and aborts the case when there are too many.
type countingReader struct {
	r     *bytes.Reader
	calls int
	limit int
	bytes int
}

func (c *countingReader) tick() {
	c.calls++
	if c.calls > c.limit {
		panic(failure{msg: fmt.Sprintf("the reader performed more than %d calls on a file of %d bytes", c.limit, c.r.Size())})
	}
}

func (c *countingReader) Read(p []byte) (int, error) {
	c.tick()
	n, err := c.r.Read(p)
	c.bytes += n
	return n, err
}

func (c *countingReader) Seek(off int64, whence int) (int64, error) {
	c.tick()
	return c.r.Seek(off, whence)
}

func newCounting(b []byte) *countingReader {
	return &countingReader{r: bytes.NewReader(b), limit: 8*len(b) + 10000}
}

// mp4Read reads a file with one of the readers.
func mp4Read(c *Case, kind int, buf []byte) (any, error) {
	var err error
	var v any
	c.Protect("Unmarshal of "+mp4KindNames[kind], func() {
		switch kind {
		case mp4Init:
			var i fmp4.Init
			rd := newCounting(buf)
			err = i.Unmarshal(rd)
			c.Max("calls_per_byte_x100", int64(rd.calls*100/(len(buf)+100)))
			v = &i
		case mp4Parts:
			var ps fmp4.Parts
			err = ps.Unmarshal(buf)
			v = ps
		default:
			var p pmp4.Presentation
			rd := newCounting(buf)
			err = p.Unmarshal(rd)
			c.Max("calls_per_byte_x100", int64(rd.calls*100/(len(buf)+100)))
			rd.limit = 1 << 60
			v = &p
		}
	})
	return v, err
}

func c02Case(c *Case) {
	r := c.R
	kind := c.Idx % 3
	buf := hostileMP4(r, kind, c.Fam)
	if r.IntN(10) == 0 {
		kind = r.IntN(3) // the wrong reader
	}
	name := mp4KindNames[kind]
	c.Input(name, buf)
	orig := append([]byte(nil), buf...)
	v, err := mp4Read(c, kind, buf)
	c.Check(bytes.Equal(orig, buf), "the input has been modified")
	c.Distinct(name, buf)
	if err != nil {
		c.Count(name+"_rejected", 1)
		return
	}
	c.Count(name+"_accepted", 1)
	use(c, v, buf)
	c.Check(bytes.Equal(orig, buf), "the input has been modified by using what was read")
}

// c02Large: files of megabytes, with as many boxes or table entries as they can contain.
func c02Large(c *Case) {
	r := c.R
	kind := c.Idx % 3
	n := pick(r, 20000, 60000, 150000)
	if c.Tier == "thorough" {
		n *= 1 + r.IntN(3)
	}
	if c.Idx%24 == 2 {
		n = 700000
	}
	base := validMP4(r, kind)
	boxes, err := walkBoxes(base, 0, len(base), "")
	c.NoErr(err, "boxes")
	root := &mnode{}
	for _, b := range boxes {
		root.children = append(root.children, toNode(b))
	}
	var all []*mnode
	root.list(&all)
	find := func(t string) *mnode {
		for _, x := range all {
			if x.typ == t {
				return x
			}
		}
		return &mnode{typ: t}
	}
	entries := func(size int, f func(i int) []uint32) []byte {
		b := append(make([]byte, 4, 8+n*size), u32b(uint32(n))...)
		for i := range n {
			b = append(b, u32b(f(i)...)...)
		}
		return b
	}
	repeat := func(p *mnode, x *mnode, n int) {
		n = min(n, 6<<20/(len(x.write(nil))+1))
		for i, y := range p.children {
			if y == x {
				l := append([]*mnode(nil), p.children[:i]...)
				for range n {
					l = append(l, x)
				}
				p.children = append(l, p.children[i:]...)
				return
			}
		}
	}
	what := ""
	switch kind {
	case mp4Init:
		x := pick(r, "trak", "mvhd", "mdia", "hdlr", "stbl", "trex", "stsd", "free")
		what = "repeated " + x
		switch y := find(x); x {
		case "trak":
			repeat(find("moov"), y, n/10)
		case "trex":
			repeat(find("mvex"), y, n)
		case "free":
			m := find("moov")
			for range n {
				m.children = append(m.children, &mnode{typ: "free"})
			}
		default:
			for _, z := range all {
				if slices.Contains(z.children, y) {
					repeat(z, y, n)
					break
				}
			}
		}
	case mp4Parts:
		switch r.IntN(4) {
		case 0:
			what = "parts"
			l := root.children
			for k := len(base); k < 6<<20; k += len(base) {
				root.children = append(root.children, l...)
			}
		case 1:
			what = "tracks"
			repeat(find("moof"), find("traf"), n/8)
		case 2:
			what = "runs"
			repeat(find("traf"), find("trun"), n/8)
		default:
			what = "empty boxes"
			m := find(pick(r, "moof", "traf"))
			for range n {
				m.children = append(m.children, &mnode{typ: pick(r, "free", "uuid", "sbgp")})
			}
		}
	default:
		what = "tables"
		st := find("stbl")
		per := pick(r, 1, 1, 10, n) // samples per chunk
		if n == 700000 {
			per = 1
		}
		n -= n % per
		fill := map[string]func() []byte{
			"stts": func() []byte { return entries(8, func(i int) []uint32 { return []uint32{1, uint32(i % 7)} }) },
			"ctts": func() []byte { return entries(8, func(i int) []uint32 { return []uint32{1, uint32(i % 5)} }) },
			"stss": func() []byte { return entries(4, func(i int) []uint32 { return []uint32{uint32(n - i)} }) },
			"stsz": func() []byte {
				b := entries(4, func(i int) []uint32 { return []uint32{uint32(1 + i%16)} })
				return append(make([]byte, 8), b[4:]...)
			},
			"stsc": func() []byte {
				keep := n
				n /= per
				b := entries(12, func(i int) []uint32 { return []uint32{uint32(i + 1), uint32(per), 1} })
				n = keep
				return b
			},
			"stco": func() []byte {
				keep := n
				n /= per
				b := entries(4, func(i int) []uint32 { return []uint32{uint32(i % 500)} })
				n = keep
				return b
			},
		}
		var l []*mnode
		for _, x := range st.children {
			if fill[x.typ] == nil {
				l = append(l, x)
			}
		}
		for _, t := range []string{"stts", "stss", "ctts", "stsc", "stsz", "stco"} {
			if (t == "stss" || t == "ctts") && r.IntN(4) == 0 {
				continue
			}
			l = append(l, &mnode{typ: t, pre: fill[t]()})
		}
		st.children = l
	}
	var buf []byte
	for _, b := range root.children {
		buf = b.write(buf)
	}
	c.Distinct(kind, len(buf), what, n)
	c.Max("largest:"+mp4KindNames[kind], int64(len(buf)))
	c.Count("large:"+what, 1)
	v, err := mp4Read(c, kind, buf)
	if err != nil {
		c.Count(what+" refused: "+err.Error(), 1)
		c.Count(mp4KindNames[kind]+"_large_rejected", 1)
		return
	}
	c.Count(mp4KindNames[kind]+"_large_accepted", 1)
	use(c, v, buf)
}

// use uses every member of what was read.
func use(c *Case, v any, buf []byte) {
	switch k := v.(type) {
	case *fmp4.Init:
		c.Check(len(k.Tracks) > 0, "no tracks and no error")
		for _, t := range k.Tracks {
			c.Check(t != nil && t.Codec != nil && t.TimeScale != 0, "track without codec or time scale: %+v", t)
			c.Protect("IsVideo", func() { t.Codec.IsVideo() })
		}
		c.Protect("Init.Marshal", func() {
			out, err := marshalInit(*k, true)
			if err == nil {
				var j fmp4.Init
				if j.Unmarshal(newCounting(out)) == nil {
					c.Count("init_rewritten", 1)
				}
			}
		})
	case fmp4.Parts:
		n := 0
		for _, p := range k {
			c.Check(p != nil, "nil part")
			for _, t := range p.Tracks {
				c.Check(t != nil, "nil track")
				for _, s := range t.Samples {
					c.Check(s != nil, "nil sample")
					c.Protect("sample helpers", func() {
						s.GetH264() //nolint:errcheck,staticcheck
						s.GetH265() //nolint:errcheck,staticcheck
						s.GetAV1()  //nolint:errcheck,staticcheck
					})
					n++
				}
			}
		}
		c.Max("samples", int64(n))
		c.Protect("Parts.Marshal", func() {
			var sb seekablebuffer.Buffer
			if k.Marshal(&sb) == nil {
				var j fmp4.Parts
				if j.Unmarshal(sb.Bytes()) == nil {
					c.Count("parts_rewritten", 1)
				}
			}
		})
	case *pmp4.Presentation:
		c.Check(len(k.Tracks) > 0, "no tracks and no error")
		n, sum := 0, uint64(0)
		for _, t := range k.Tracks {
			c.Check(t != nil && t.Codec != nil && t.TimeScale != 0, "track without codec or time scale: %+v", t)
			for _, s := range t.Samples {
				c.Check(s != nil && s.GetPayload != nil, "sample without GetPayload")
				n++
				sum += uint64(s.PayloadSize)
				if n > 3000 {
					continue
				}
				var pl []byte
				var err error
				c.Protect("GetPayload", func() { pl, err = s.GetPayload() })
				if err == nil {
					c.Check(len(pl) == int(s.PayloadSize) && bytes.Contains(buf, pl), "payload of %d bytes is not in the file (size %d)", len(pl), s.PayloadSize)
					c.Count("payloads", 1)
				} else {
					c.Count("payload_errors", 1)
				}
			}
		}
		c.Max("samples", int64(n))
		if sum > 64<<20 {
			return
		}
		c.Protect("Presentation.Marshal", func() {
			var out bytes.Buffer
			if k.Marshal(&out) == nil {
				var j pmp4.Presentation
				if j.Unmarshal(newCounting(out.Bytes())) == nil {
					c.Count("presentation_rewritten", 1)
				}
			} else if err := k.Marshal(io.Discard); err == nil {
				c.Failf("Marshal fails the first time only")
			}
		})
	}
}

func init() {
	register(&Property{
		ID: "C02",
		Rule: "valid files are mutated at the level of the box tree (duplicate, remove, move, retype, resize, nest, wrong and 64-bit sizes, edge values in tables) or of bytes, " +
			"and crafted around sample tables, nesting and wrapping sizes; a monitor counts the calls on the file and watches CPU time and memory; everything that is accepted is used: " +
			"helpers, payload fetches (which have to be in the file), marshalling",
		Assumptions: []string{"files up to a few hundred kilobytes, and some of a few megabytes"},
		Require:     []string{"init_rejected", "init_accepted", "parts_rejected", "parts_accepted", "presentation_rejected", "presentation_accepted", "payloads", "init_rewritten", "parts_rewritten", "presentation_rewritten"},
		Families: []Family{
			{Name: "tree", Quick: 24000, Thorough: 3000000, Run: c02Case},
			{Name: "crafted", Quick: 24000, Thorough: 2000000, Run: c02Case},
			{Name: "bytes", Quick: 12000, Thorough: 1000000, Run: c02Case},
			{Name: "large", Quick: 72, Thorough: 1500, Run: c02Large},
		},
	})
}
