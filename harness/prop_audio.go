package main

import (
	"time"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/ac3"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/eac3"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg1audio"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/opus"
)

// ---- C20 ----

// ISO 11172-3 2.4.2.3 and ISO 13818-3 2.4.2.3, kbit/s, index 1 to 14.
var (
	refM1L2 = [15]int{0, 32, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384}
	refM1L3 = [15]int{0, 32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320}
	refM2   = [15]int{0, 8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160}
)

// c20MPEG1 goes through every header whose second byte is given by the case index.
func c20MPEG1(c *Case) {
	b1 := byte(c.Idx)
	for b2 := range 256 {
		for m := range 4 {
			buf := []byte{0xFF, b1, byte(b2), byte(m<<6 | c.R.IntN(64)), byte(c.R.IntN(256)), byte(c.R.IntN(256))}
			c.Eval(1)
			var h mpeg1audio.FrameHeader
			var err error
			c.Input("header", buf)
			c.Protect("mpeg1audio.FrameHeader.Unmarshal", func() { err = h.Unmarshal(buf) })

			sync := b1>>4 == 0xF
			mpeg2 := (b1>>3)&1 == 0
			layer := 4 - int(b1>>1&3)
			bi := b2 >> 4
			si := b2 >> 2 & 3
			padding := b2 >> 1 & 1
			valid := sync && layer != 4 && bi != 0 && bi != 15 && si != 3
			if !valid {
				c.Check(err != nil, "reserved or invalid header %x was accepted as %+v", buf, h)
				c.Count("mpeg_rejected", 1)
				continue
			}
			if layer == 1 {
				continue // layer 1 is not supported, not judged
			}
			c.Check(err == nil, "valid header %x was rejected: %v", buf, err)
			kb := refM1L3[bi]
			if layer == 2 {
				kb = refM1L2[bi]
			}
			rate := [3]int{44100, 48000, 32000}[si]
			samples := 1152
			if mpeg2 {
				kb = refM2[bi]
				rate /= 2
				if layer == 3 {
					samples = 576
				}
			}
			// frame length: samples/8 * bitrate / rate, truncated, plus padding slot
			flen := samples/8*kb*1000/rate + padding
			c.Check(h.MPEG2 == mpeg2 && int(h.Layer) == layer && h.Bitrate == kb*1000 && h.SampleRate == rate &&
				h.Padding == (padding == 1) && int(h.ChannelMode) == m,
				"header %x decoded as %+v; want mpeg2=%v layer=%d bitrate=%d rate=%d padding=%d mode=%d",
				buf, h, mpeg2, layer, kb*1000, rate, padding, m)
			var fl, sc int
			c.Protect("mpeg1audio.FrameHeader accessors", func() { fl, sc = h.FrameLen(), h.SampleCount() })
			c.Check(fl == flen, "header %x: FrameLen() = %d, want %d", buf, fl, flen)
			c.Check(sc == samples, "header %x: SampleCount() = %d, want %d", buf, sc, samples)
			c.Count("mpeg_headers", 1)
			c.Distinct("mpeg", buf[1:3], m)
		}
	}
	for n := range 4 {
		var h mpeg1audio.FrameHeader
		c.Protect("Unmarshal", func() {
			c.Check(h.Unmarshal([]byte{0xFF, 0xFB, 0x90, 0x00}[:n]) != nil, "truncated header of %d bytes accepted", n)
		})
	}
	c.Sample("256 x 4 headers with second byte %#x", b1)
}

func c20AC3Sync(c *Case) {
	b4 := byte(c.Idx)
	buf := []byte{0x0B, 0x77, byte(c.R.IntN(256)), byte(c.R.IntN(256)), b4, byte(c.R.IntN(256))}
	c.Input("frame", buf)
	var s ac3.SyncInfo
	var err error
	c.Protect("ac3.SyncInfo.Unmarshal", func() { err = s.Unmarshal(buf) })
	fscod, code := int(b4>>6), int(b4&63)
	if fscod == 3 || code > 37 {
		c.Check(err != nil, "reserved fscod %d frmsizecod %d accepted", fscod, code)
		c.Count("ac3_rejected", 1)
		return
	}
	c.NoErr(err, "ac3.SyncInfo.Unmarshal")
	kbps := [19]int{32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384, 448, 512, 576, 640}[code/2]
	rate := [3]int{48000, 44100, 32000}[fscod]
	words := kbps * 1000 * 1536 / rate / 16
	if fscod == 1 && code%2 == 1 {
		words++
	}
	var fs, sr int
	c.Protect("ac3.SyncInfo accessors", func() { fs, sr = s.FrameSize(), s.SampleRate() })
	c.Check(int(s.Fscod) == fscod && int(s.Frmsizecod) == code, "fields %+v, want %d %d", s, fscod, code)
	c.Check(fs == words*2, "fscod %d frmsizecod %d: FrameSize() = %d, want %d", fscod, code, fs, words*2)
	c.Check(sr == rate, "fscod %d: SampleRate() = %d, want %d", fscod, sr, rate)
	c.Count("ac3_sync", 1)
	c.Distinct("ac3", b4)
	// a sync info is 5 bytes long
	var s5 ac3.SyncInfo
	c.Protect("ac3.SyncInfo.Unmarshal", func() { err = s5.Unmarshal(append([]byte(nil), buf[:5]...)) })
	c.Check(err == nil && s5 == s, "5-byte sync info %x decoded as %+v, %v; want %+v", buf[:5], s5, err, s)
	for _, bad := range [][]byte{{0x0B, 0x76, 0, 0, b4}, {0x77, 0x0B, 0, 0, b4}, {0x0B, 0x77, 0, 0}, {0x0B}, {}} {
		var s2 ac3.SyncInfo
		c.Protect("ac3.SyncInfo.Unmarshal", func() {
			c.Check(s2.Unmarshal(bad) != nil, "invalid sync info %x accepted", bad)
		})
	}
	c.Sample("frame %x: size %d rate %d", buf, fs, sr)
}

func c20AC3BSI(c *Case) {
	b0 := byte(c.Idx)
	for b1 := range 256 {
		c.Eval(1)
		buf := append([]byte{b0, byte(b1)}, randBytes(c.R, c.R.IntN(4))...)
		c.Input("bsi", buf)
		var b ac3.BSI
		var err error
		c.Protect("ac3.BSI.Unmarshal", func() { err = b.Unmarshal(buf) })
		bsid := b0 >> 3
		if bsid > 8 {
			c.Check(err != nil, "bsid %d accepted", bsid)
			c.Count("ac3_rejected", 1)
			continue
		}
		c.NoErr(err, "ac3.BSI.Unmarshal")
		acmod := b1 >> 5
		skip := 0
		switch acmod { // presence of cmixlev, surmixlev, dsurmod; A/52 table 5.8
		case 2, 3, 4, 6:
			skip = 2
		case 5, 7:
			skip = 4
		}
		lfe := b1>>(4-skip)&1 == 1
		n := [8]int{2, 1, 2, 3, 3, 4, 4, 5}[acmod]
		if lfe {
			n++
		}
		c.Check(b.Bsid == bsid && b.Bsmod == b0&7 && int(b.Acmod) == acmod && b.LfeOn == lfe,
			"BSI %x decoded as %+v; want bsid %d bsmod %d acmod %d lfe %v", buf, b, bsid, b0&7, acmod, lfe)
		c.Check(b.ChannelCount() == n, "BSI %x: ChannelCount() = %d, want %d", buf, b.ChannelCount(), n)
		c.Count("ac3_bsi", 1)
		c.Distinct("bsi", buf[:2])
	}
}

func c20EAC3(c *Case) {
	r := c.R
	w := &bitWriter{}
	// the low bits of the case index enumerate the small fields, the rest is random.
	x := c.Idx
	take := func(n int) int {
		v := x & (1<<n - 1)
		x >>= n
		return v
	}
	fscod, code2, acmod, lfe := take(2), take(2), take(3), take(1)
	strm, sub, frm := r.IntN(4), r.IntN(8), int(edge(r, 11))
	bsid := 16
	if r.IntN(8) == 0 {
		bsid = r.IntN(32)
	}
	w.u(16, 0x0B77)
	w.u(2, uint64(strm))
	w.u(3, uint64(sub))
	w.u(11, uint64(frm))
	w.u(2, uint64(fscod))
	w.u(2, uint64(code2))
	w.u(3, uint64(acmod))
	w.u(1, uint64(lfe))
	w.u(5, uint64(bsid))
	w.u(5, uint64(r.IntN(32))) // dialnorm
	w.u(1, 0)
	buf := append(w.out(), randBytes(r, 3+r.IntN(20))...)
	c.Input("frame", buf)
	var s eac3.SyncInfo
	var err error
	c.Protect("eac3.SyncInfo.Unmarshal", func() { err = s.Unmarshal(buf) })
	if bsid != 16 && bsid != 11 && bsid != 12 && bsid != 13 && bsid != 14 && bsid != 15 || fscod == 3 && code2 == 3 {
		c.Check(err != nil, "reserved E-AC-3 header (bsid %d, fscod %d, fscod2 %d) accepted", bsid, fscod, code2)
		c.Count("eac3_rejected", 1)
		return
	}
	if bsid != 16 {
		return // compatible versions of the bit stream: not judged
	}
	c.NoErr(err, "eac3.SyncInfo.Unmarshal")
	want := eac3.SyncInfo{Strmtyp: uint8(strm), Substreamid: uint8(sub), Frmsiz: uint16(frm), Fscod: uint8(fscod),
		Acmod: uint8(acmod), Lfeon: lfe == 1, Bsid: 16}
	rate := 0
	blocks := 6
	if fscod == 3 {
		want.Fscod2, want.Numblkscod = uint8(code2), 3
		rate = [3]int{24000, 22050, 16000}[code2]
	} else {
		want.Numblkscod = uint8(code2)
		rate = [3]int{48000, 44100, 32000}[fscod]
		blocks = [4]int{1, 2, 3, 6}[code2]
	}
	ch := [8]int{2, 1, 2, 3, 3, 4, 4, 5}[acmod] + lfe
	c.Check(s == want, "header %x decoded as %+v, want %+v", buf[:8], s, want)
	c.Check(s.FrameSize() == (frm+1)*2, "FrameSize() = %d, want %d", s.FrameSize(), (frm+1)*2)
	c.Check(s.SampleRate() == rate, "SampleRate() = %d, want %d", s.SampleRate(), rate)
	c.Check(s.ChannelCount() == ch, "ChannelCount() = %d, want %d", s.ChannelCount(), ch)
	c.Check(s.NumBlocks() == blocks, "NumBlocks() = %d, want %d", s.NumBlocks(), blocks)
	c.Count("eac3_headers", 1)
	c.Distinct("eac3", buf[:6])
	{
		bad := append([]byte(nil), buf...)
		bad[r.IntN(2)] ^= byte(1 + r.IntN(255))
		var s2 eac3.SyncInfo
		c.Protect("eac3.SyncInfo.Unmarshal", func() { err = s2.Unmarshal(bad) })
		c.Check(err != nil, "header %x with a wrong sync word accepted", bad[:8])
		c.Count("eac3_rejected", 1)
	}
	for n := range 6 {
		c.Protect("eac3.SyncInfo.Unmarshal", func() {
			var s2 eac3.SyncInfo
			c.Check(s2.Unmarshal(buf[:n]) != nil, "truncated header of %d bytes accepted", n)
		})
	}
	c.Sample("frame %x: %+v", buf[:8], s)
}

// c20Opus goes through every TOC byte and frame count byte.
func c20Opus(c *Case) {
	toc := byte(c.Idx)
	cfg := int(toc >> 3)
	// RFC 6716 table 2, in units of 2.5 ms
	var units int
	switch {
	case cfg < 12:
		units = [4]int{4, 8, 16, 24}[cfg%4]
	case cfg < 16:
		units = [2]int{4, 8}[cfg%2]
	default:
		units = [4]int{1, 2, 4, 8}[cfg%4]
	}
	one := func(pkt []byte, frames int) {
		c.Eval(1)
		if frames == 0 || units*frames > 48 {
			// not a valid packet, but the call must return
			c.Protect("opus.PacketDuration2", func() { opus.PacketDuration2(pkt) })
			return
		}
		want := int64(units * frames * 120)
		var got int64
		var d time.Duration
		c.Input("packet", pkt)
		c.Protect("opus.PacketDuration2", func() {
			got = opus.PacketDuration2(pkt)
			d = opus.PacketDuration(pkt) //nolint:staticcheck
		})
		c.Check(got == want, "packet %s: PacketDuration2() = %d, want %d", hexShort(pkt), got, want)
		c.Check(d == time.Duration(units*frames)*2500*time.Microsecond, "packet %s: PacketDuration() = %v, want %v",
			hexShort(pkt), d, time.Duration(units*frames)*2500*time.Microsecond)
		c.Count("opus_packets", 1)
		c.Distinct("opus", pkt[0], frames)
	}
	switch toc & 3 {
	case 0:
		one([]byte{toc}, 1)
		one(append([]byte{toc}, randBytes(c.R, 1+c.R.IntN(1275))...), 1)
	case 1:
		one([]byte{toc}, 2)
		one(append([]byte{toc}, randBytes(c.R, 2*(1+c.R.IntN(1275)))...), 2)
	case 2:
		l := 1 + c.R.IntN(250)
		one(append([]byte{toc, byte(l)}, randBytes(c.R, l+c.R.IntN(100))...), 2)
	case 3:
		for b := range 256 {
			one(append([]byte{toc, byte(b)}, randBytes(c.R, c.R.IntN(64))...), b&63)
		}
		one([]byte{toc}, 0)
	}
	one(nil, 0)
	c.Sample("packets with TOC %#x: %d x 2.5 ms per frame", toc, units)
}

func init() {
	register(&Property{
		ID:   "C20",
		Rule: "a distinct accepted header or packet (MPEG: every combination of bytes 1-2 and channel mode; AC-3: every byte 4 and every BSI; E-AC-3: small fields enumerated, others random; Opus: every TOC and frame count)",
		Families: []Family{
			{Name: "mpeg1audio", Quick: 256, Thorough: 256, Run: c20MPEG1},
			{Name: "ac3-sync", Quick: 256, Thorough: 256, Run: c20AC3Sync},
			{Name: "ac3-bsi", Quick: 256, Thorough: 256, Run: c20AC3BSI},
			{Name: "eac3", Quick: 200000, Thorough: 5000000, Run: c20EAC3},
			{Name: "opus", Quick: 256, Thorough: 256, Run: c20Opus},
		},
		Require:     []string{"mpeg_headers", "mpeg_rejected", "ac3_sync", "ac3_bsi", "eac3_headers", "opus_packets"},
		Assumptions: []string{"MPEG layer 1 and E-AC-3 bsid 11-15 are not judged (documented as unsupported)."},
	})
}
