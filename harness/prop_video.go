package main

import (
	"math/rand/v2"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/av1"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4video"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/vp8"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/vp9"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
)

// ---- C19 ----

// genAV1Seq generates a sequence header and its payload (AV1 specification, 5.5).
func genAV1Seq(r *rand.Rand) (*av1.SequenceHeader, *bitWriter) { return genAV1SeqWith(r, 0) }

// parts of the syntax that are documented as unsupported
const (
	unsDecoderModel = 1 << iota
	unsDisplayDelay
)

func genAV1SeqWith(r *rand.Rand, uns int) (*av1.SequenceHeader, *bitWriter) {
	h := &av1.SequenceHeader{}
	w := &bitWriter{}
	h.SeqProfile = uint8(r.IntN(3))
	h.StillPicture = flip(r)
	h.ReducedStillPictureHeader = h.StillPicture && flip(r) && uns == 0
	w.u(3, uint64(h.SeqProfile))
	w.flag(h.StillPicture)
	w.flag(h.ReducedStillPictureHeader)
	if h.ReducedStillPictureHeader {
		h.OperatingPointIdc = []uint16{0}
		h.SeqLevelIdx = []uint8{uint8(r.IntN(32))}
		h.SeqTier = []bool{false}
		h.DecoderModelPresentForThisOp = []bool{false}
		h.InitialDisplayPresentForThisOp = []bool{false}
		w.u(5, uint64(h.SeqLevelIdx[0]))
	} else {
		timing := flip(r) || uns&unsDecoderModel != 0
		delayLen := 0
		w.flag(timing)
		if timing {
			t := &av1.SequenceHeader_TimingInfo{NumUnitsInDisplayTick: u32(r), TimeScale: u32(r), EqualPictureInterval: flip(r)}
			h.TimingInfo = t
			w.u(32, uint64(t.NumUnitsInDisplayTick))
			w.u(32, uint64(t.TimeScale))
			w.flag(t.EqualPictureInterval)
			if t.EqualPictureInterval {
				t.NumTicksPerPictureMinus1 = ueVal(r)
				w.ue(t.NumTicksPerPictureMinus1) // uvlc() is equal to ue() below 2^32-1
			}
			h.DecoderModelInfoPresentFlag = uns&unsDecoderModel != 0
			w.flag(h.DecoderModelInfoPresentFlag) // decoder model info: documented as unsupported
			if h.DecoderModelInfoPresentFlag {
				delayLen = 1 + r.IntN(32)
				w.u(5, uint64(delayLen-1))
				w.u(32, uint64(u32(r)))
				w.u(5, uint64(r.IntN(32)))
				w.u(5, uint64(r.IntN(32)))
			}
		}
		h.InitialDisplayDelayPresentFlag = uns&unsDisplayDelay != 0
		w.flag(h.InitialDisplayDelayPresentFlag) // initial display delay: documented as unsupported
		n := pick(r, 0, 0, 1, 31, r.IntN(32))
		h.OperatingPointsCntMinus1 = uint8(n)
		w.u(5, uint64(n))
		for range n + 1 {
			idc, lvl, tier := uint16(edge(r, 12)), uint8(r.IntN(32)), false
			w.u(12, uint64(idc))
			w.u(5, uint64(lvl))
			if lvl > 7 {
				tier = flip(r)
				w.flag(tier)
			}
			if h.DecoderModelInfoPresentFlag {
				present := flip(r)
				w.flag(present)
				if present {
					w.u(delayLen, r.Uint64())
					w.u(delayLen, r.Uint64())
					w.u(1, r.Uint64())
				}
			}
			if h.InitialDisplayDelayPresentFlag {
				present := flip(r)
				w.flag(present)
				if present {
					w.u(4, r.Uint64())
				}
			}
			h.OperatingPointIdc = append(h.OperatingPointIdc, idc)
			h.SeqLevelIdx = append(h.SeqLevelIdx, lvl)
			h.SeqTier = append(h.SeqTier, tier)
		}
		h.DecoderModelPresentForThisOp = make([]bool, n+1)
		h.InitialDisplayPresentForThisOp = make([]bool, n+1)
		h.InitialDisplayDelayMinus1 = make([]uint8, n+1)
	}
	nw, nh := 1+r.IntN(16), 1+r.IntN(16)
	w.u(4, uint64(nw-1))
	w.u(4, uint64(nh-1))
	h.MaxFrameWidthMinus1, h.MaxFrameHeightMinus1 = uint32(edge(r, nw)), uint32(edge(r, nh))
	w.u(nw, uint64(h.MaxFrameWidthMinus1))
	w.u(nh, uint64(h.MaxFrameHeightMinus1))
	if !h.ReducedStillPictureHeader {
		h.FrameIDNumbersPresentFlag = flip(r)
		w.flag(h.FrameIDNumbersPresentFlag)
		if h.FrameIDNumbersPresentFlag {
			h.DeltaFrameIDLengthMinus2, h.AdditionalFrameIDLengthMinus1 = uint8(r.IntN(16)), uint8(r.IntN(8))
			w.u(4, uint64(h.DeltaFrameIDLengthMinus2))
			w.u(3, uint64(h.AdditionalFrameIDLengthMinus1))
		}
	}
	wf := func(p *bool) {
		*p = flip(r)
		w.flag(*p)
	}
	wf(&h.Use128x128Superblock)
	wf(&h.EnableFilterIntra)
	wf(&h.EnableIntraEdgeFilter)
	h.SeqForceScreenContentTools = 2
	h.SeqForceIntegerMv = 2
	if !h.ReducedStillPictureHeader {
		wf(&h.EnableInterintraCompound)
		wf(&h.EnableMaskedCompound)
		wf(&h.EnableWarpedMotion)
		wf(&h.EnableDualFilter)
		wf(&h.EnableOrderHint)
		if h.EnableOrderHint {
			wf(&h.EnableJntComp)
			wf(&h.EnableRefFrameMvs)
		}
		wf(&h.SeqChooseScreenContentTools)
		if !h.SeqChooseScreenContentTools {
			h.SeqForceScreenContentTools = av1.SequenceHeader_SeqForceScreenContentTools(r.IntN(2))
			w.u(1, uint64(h.SeqForceScreenContentTools))
		}
		if h.SeqForceScreenContentTools > 0 {
			wf(&h.SeqChooseIntegerMv)
			if !h.SeqChooseIntegerMv {
				h.SeqForceIntegerMv = av1.SequenceHeader_SeqForceIntegerMv(r.IntN(2))
				w.u(1, uint64(h.SeqForceIntegerMv))
			}
		}
		if h.EnableOrderHint {
			h.OrderHintBitsMinus1 = uint8(r.IntN(8))
			w.u(3, uint64(h.OrderHintBitsMinus1))
		}
	}
	wf(&h.EnableSuperRes)
	wf(&h.EnableCdef)
	wf(&h.EnableRestoration)

	c := &h.ColorConfig
	wf(&c.HighBitDepth)
	c.BitDepth = 8
	if c.HighBitDepth {
		c.BitDepth = 10
		if h.SeqProfile == 2 {
			wf(&c.TwelveBit)
			if c.TwelveBit {
				c.BitDepth = 12
			}
		}
	}
	if h.SeqProfile != 1 {
		wf(&c.MonoChrome)
	}
	wf(&c.ColorDescriptionPresentFlag)
	c.ColorPrimaries, c.TransferCharacteristics, c.MatrixCoefficients = 2, 2, 2
	srgb := false
	if c.ColorDescriptionPresentFlag {
		switch r.IntN(3) {
		case 0:
			c.ColorPrimaries, c.TransferCharacteristics, c.MatrixCoefficients = 1, 13, 0
			// one value off
			switch r.IntN(5) {
			case 0:
				c.ColorPrimaries = 9
			case 1:
				c.TransferCharacteristics = 1
			case 2:
				c.MatrixCoefficients = 1
			}
		default:
			c.ColorPrimaries = av1.SequenceHeader_ColorPrimaries(edge(r, 8))
			c.TransferCharacteristics = av1.SequenceHeader_TransferCharacteristics(edge(r, 8))
			c.MatrixCoefficients = av1.SequenceHeader_MatrixCoefficients(edge(r, 8))
		}
		srgb = c.ColorPrimaries == 1 && c.TransferCharacteristics == 13 && c.MatrixCoefficients == 0
		w.u(8, uint64(c.ColorPrimaries))
		w.u(8, uint64(c.TransferCharacteristics))
		w.u(8, uint64(c.MatrixCoefficients))
	}
	switch {
	case c.MonoChrome:
		wf(&c.ColorRange)
		c.SubsamplingX, c.SubsamplingY = true, true
	case srgb:
		c.ColorRange = true
	default:
		wf(&c.ColorRange)
		switch {
		case h.SeqProfile == 0:
			c.SubsamplingX, c.SubsamplingY = true, true
		case h.SeqProfile == 1:
		case c.BitDepth == 12:
			wf(&c.SubsamplingX)
			if c.SubsamplingX {
				wf(&c.SubsamplingY)
			}
		default:
			c.SubsamplingX = true
		}
		if c.SubsamplingX && c.SubsamplingY {
			c.ChromaSamplePosition = av1.SequenceHeader_ChromaSamplePosition(r.IntN(4))
			w.u(2, uint64(c.ChromaSamplePosition))
		}
	}
	if !c.MonoChrome {
		w.u(1, uint64(r.IntN(2))) // separate_uv_delta_q
	}
	wf(&h.FilmGrainParamsPresent)
	return h, w
}

func c19AV1(c *Case) {
	r := c.R
	h, w := genAV1Seq(r)
	n := len(w.bits)
	w.trailing()
	pl := w.out()
	obu := []byte{1 << 3}
	if flip(r) {
		obu[0] |= 2
		obu = append(obu, lebEnc(uint64(len(pl)))...)
	}
	prefix := len(obu)
	obu = append(obu, pl...)
	c.Input("obu", obu)
	var got av1.SequenceHeader
	c.NoErr(got.Unmarshal(obu), "SequenceHeader")
	c.Check(deepEq(got, *h), "sequence header decoded as\n%+v\nwant\n%+v", got, *h)
	c.Check(got.Width() == int(h.MaxFrameWidthMinus1)+1 && got.Height() == int(h.MaxFrameHeightMinus1)+1,
		"size %dx%d, want %dx%d", got.Width(), got.Height(), h.MaxFrameWidthMinus1+1, h.MaxFrameHeightMinus1+1)
	cut := r.IntN(n/8 + 1)
	if cut*8 < n {
		bad := append([]byte{1 << 3}, pl[:cut]...)
		c.Check((&av1.SequenceHeader{}).Unmarshal(bad) != nil, "sequence header truncated to %d of %d bits accepted", cut*8, n)
		c.Count("truncated", 1)
	}
	if prefix > 1 {
		c.Check((&av1.SequenceHeader{}).Unmarshal(obu[:len(obu)-1]) != nil, "sequence header shorter than its declared size accepted")
	}
	c.Count("av1", 1)
	if h.ReducedStillPictureHeader {
		c.Count("av1_reduced", 1)
	}
	if h.ColorConfig.MonoChrome {
		c.Count("av1_mono", 1)
	}
	c.Distinct("av1", obu)
	c.Sample("%+v", *h)
}

// c19AV1Unsupported checks that a sequence header with a part that is documented as
// unsupported is refused, or read correctly; but never misread.
func c19AV1Unsupported(c *Case) {
	r := c.R
	uns := 1 + r.IntN(3)
	h, w := genAV1SeqWith(r, uns)
	w.trailing()
	obu := append([]byte{1 << 3}, w.out()...)
	c.Input("obu", obu)
	var got av1.SequenceHeader
	err := got.Unmarshal(obu)
	if uns&unsDecoderModel != 0 {
		c.Count("av1_decoder_model", 1)
	}
	if uns&unsDisplayDelay != 0 {
		c.Count("av1_display_delay", 1)
	}
	c.Distinct("av1_unsupported", obu)
	if err != nil {
		c.Count("av1_unsupported_refused", 1)
		return
	}
	c.Check(got.Width() == h.Width() && got.Height() == h.Height() && deepEq(got.ColorConfig, h.ColorConfig) &&
		deepEq(got.OperatingPointIdc, h.OperatingPointIdc) && deepEq(got.SeqLevelIdx, h.SeqLevelIdx) && deepEq(got.SeqTier, h.SeqTier) &&
		got.EnableSuperRes == h.EnableSuperRes && got.EnableCdef == h.EnableCdef && got.EnableRestoration == h.EnableRestoration &&
		got.FilmGrainParamsPresent == h.FilmGrainParamsPresent,
		"sequence header with unsupported parts (%d) misread as\n%+v\nwant\n%+v", uns, got, *h)
}

type vp9Spec struct {
	h   vp9.Header
	css int // expected chroma subsampling, -1 if it is not representable
}

func genVP9(r *rand.Rand) (*vp9Spec, *bitWriter, int) {
	s := &vp9Spec{css: 1}
	h := &s.h
	w := &bitWriter{}
	h.Profile = uint8(r.IntN(4))
	w.u(2, 2)
	w.u(1, uint64(h.Profile&1))
	w.u(1, uint64(h.Profile>>1))
	if h.Profile == 3 {
		w.u(1, 0)
	}
	h.ShowExistingFrame = r.IntN(5) == 0
	w.flag(h.ShowExistingFrame)
	if h.ShowExistingFrame {
		h.FrameToShowMapIdx = uint8(r.IntN(8))
		w.u(3, uint64(h.FrameToShowMapIdx))
		return s, w, len(w.bits)
	}
	h.NonKeyFrame, h.ShowFrame, h.ErrorResilientMode = r.IntN(4) == 0, flip(r), flip(r)
	w.flag(h.NonKeyFrame)
	w.flag(h.ShowFrame)
	w.flag(h.ErrorResilientMode)
	if !h.NonKeyFrame {
		w.u(24, 0x498342)
		cc := &vp9.Header_ColorConfig{BitDepth: 8}
		h.ColorConfig = cc
		if h.Profile >= 2 {
			cc.TenOrTwelveBit = flip(r)
			w.flag(cc.TenOrTwelveBit)
			cc.BitDepth = 10
			if cc.TenOrTwelveBit {
				cc.BitDepth = 12
			}
		}
		cc.ColorSpace = uint8(r.IntN(7))
		odd := h.Profile&1 == 1
		if odd && r.IntN(3) == 0 {
			cc.ColorSpace = 7
		}
		w.u(3, uint64(cc.ColorSpace))
		if cc.ColorSpace != 7 {
			cc.ColorRange = flip(r)
			w.flag(cc.ColorRange)
			if odd {
				cc.SubsamplingX, cc.SubsamplingY = flip(r), flip(r)
				if cc.SubsamplingX && cc.SubsamplingY { // not allowed in odd profiles
					cc.SubsamplingY = false
				}
				w.flag(cc.SubsamplingX)
				w.flag(cc.SubsamplingY)
				w.u(1, 0)
			} else {
				cc.SubsamplingX, cc.SubsamplingY = true, true
			}
		} else {
			cc.ColorRange = true
			w.u(1, 0)
		}
		switch {
		case cc.SubsamplingX && cc.SubsamplingY:
			s.css = 1
		case cc.SubsamplingX:
			s.css = 2
		case cc.SubsamplingY:
			s.css = -1
		default:
			s.css = 3
		}
		h.FrameSize = &vp9.Header_FrameSize{FrameWidthMinus1: uint16(edge(r, 16)), FrameHeightMinus1: uint16(edge(r, 16))}
		w.u(16, uint64(h.FrameSize.FrameWidthMinus1))
		w.u(16, uint64(h.FrameSize.FrameHeightMinus1))
	}
	n := len(w.bits)
	for range r.IntN(40) {
		w.flag(flip(r))
	}
	return s, w, n
}

func c19VP9(c *Case) {
	r := c.R
	s, w, n := genVP9(r)
	buf := w.out()
	c.Input("frame", buf)
	var got vp9.Header
	c.NoErr(got.Unmarshal(buf), "VP9 header")
	c.Check(deepEq(got, s.h), "VP9 header decoded as %+v, want %+v", got, s.h)
	wd, ht := 0, 0
	if s.h.FrameSize != nil {
		wd, ht = int(s.h.FrameSize.FrameWidthMinus1)+1, int(s.h.FrameSize.FrameHeightMinus1)+1
		c.Count("vp9_key", 1)
	}
	c.Check(got.Width() == wd && got.Height() == ht, "size %dx%d, want %dx%d", got.Width(), got.Height(), wd, ht)
	if s.css >= 0 {
		c.Check(int(got.ChromaSubsampling()) == s.css, "chroma subsampling %d, want %d", got.ChromaSubsampling(), s.css)
	}
	cut := r.IntN(n/8 + 1)
	if cut*8 < n {
		c.Check((&vp9.Header{}).Unmarshal(buf[:cut]) != nil, "VP9 header truncated to %d of %d bits accepted", cut*8, n)
	}
	bad := clone(buf)
	bad[0] ^= byte(1+r.IntN(3)) << 6
	c.Check((&vp9.Header{}).Unmarshal(bad) != nil, "VP9 header with wrong frame marker accepted")
	if s.h.FrameSize != nil && s.h.Profile != 3 {
		bad = clone(buf)
		bad[1+r.IntN(3)] ^= byte(1 + r.IntN(255))
		c.Check((&vp9.Header{}).Unmarshal(bad) != nil, "VP9 key frame with wrong sync code accepted: %x", bad)
	}
	c.Count("vp9", 1)
	c.Distinct("vp9", buf)
}

// c19MPEG4Video compares IsValidConfig with a scanner of start codes.
func c19MPEG4Video(c *Case) {
	r := c.R
	var cfg []byte
	type unit struct {
		code byte
		body []byte
	}
	var units []unit
	body := func() []byte {
		if r.IntN(6) == 0 {
			return nil // adjacent start codes
		}
		b := naluNoStartCode(r, r.IntN(20))
		for i := 2; i < len(b); i++ { // no start code prefix
			if b[i] == 1 && b[i-1] == 0 && b[i-2] == 0 {
				b[i] = 2
			}
		}
		return b
	}
	if r.IntN(12) != 0 {
		units = append(units, unit{0xB0, body()})
	}
	for range r.IntN(6) {
		code := byte(0)
		switch r.IntN(9) {
		case 0, 1, 2:
			code = pick(r, byte(0), 0x1F, byte(r.IntN(0x20)))
		case 3, 4, 5:
			code = pick(r, byte(0x20), 0x2F, 0x20+byte(r.IntN(0x10)))
		case 6:
			code = 0xB5
		case 7:
			code = 0xB2
		case 8:
			code = pick(r, byte(0xB3), 0xB6, 0x30, 0xB0, 0xB1, 0xFF, byte(r.IntN(256)))
		}
		units = append(units, unit{code, body()})
	}
	for _, u := range units {
		cfg = append(cfg, 0, 0, 1, u.code)
		cfg = append(cfg, u.body...)
	}
	partial := r.IntN(6) == 0
	if partial {
		cfg = append(cfg, []byte{0, 0, 1}[:1+r.IntN(3)]...)
	}
	c.Input("config", cfg)

	// reference: start codes in order
	valid := len(units) > 0 && units[0].code == 0xB0
	vo, vol := false, false
	for i, u := range units {
		switch {
		case i == 0:
		case u.code <= 0x1F:
			vo = true
		case u.code <= 0x2F:
			vol = true
		case u.code == 0xB5, u.code == 0xB2:
		default:
			valid = false
		}
	}
	valid = valid && vo && vol
	var err error
	c.Protect("IsValidConfig", func() { err = mpeg4video.IsValidConfig(cfg) })
	if partial {
		// a configuration that ends within a start code may be accepted or not
		if !valid {
			c.Check(err != nil, "invalid configuration accepted: %x", cfg)
		}
		c.Count("partial", 1)
	} else {
		c.Check((err == nil) == valid, "configuration %x: error %v, valid %v", cfg, err, valid)
	}
	if valid {
		c.Count("mpeg4_valid", 1)
	} else {
		c.Count("mpeg4_invalid", 1)
	}
	c.Distinct("m4v", cfg)
}

// ---- C26 ----

func c26H264(c *Case) {
	r := c.R
	n := 1 + r.IntN(6)
	var au [][]byte
	want := false
	for i := range n {
		typ := byte(r.IntN(32))
		if c.Idx < 32 && i == 0 { // every type alone
			typ = byte(c.Idx)
		} else if typ == 5 && r.IntN(2) == 0 {
			typ = 1
		}
		want = want || typ == 5
		au = append(au, append([]byte{byte(r.IntN(4))<<5 | typ}, payload(r, r.IntN(20))...))
		if c.Idx < 32 {
			break
		}
	}
	c.Input("au0", au[0])
	c.Check(h264.IsRandomAccess(au) == want, "H264 access unit %s: random access %v, want %v", hexList(au), !want, want)
	s := fmp4.Sample{IsNonSyncSample: flip(r), PTSOffset: int32(r.Uint32()), Payload: randBytes(r, r.IntN(20))} // filled again
	off := int32(r.Uint32())
	c.NoErr(s.FillH264(off, cloneList(au)), "FillH264")
	c.Check(s.IsNonSyncSample == !want && s.PTSOffset == off, "FillH264 produced %+v", s)
	got, err := s.GetH264()
	c.NoErr(err, "GetH264")
	c.Check(equalList(got, au), "GetH264 returned %s, want %s", hexList(got), hexList(au))
	if want {
		c.Count("h264_ra", 1)
	}
	c.Count("h264", 1)
	c.Distinct("h264", au)
}

func c26H265(c *Case) {
	r := c.R
	n := 1 + r.IntN(6)
	var au [][]byte
	want := false
	for i := range n {
		typ := byte(r.IntN(64))
		if c.Idx < 64 && i == 0 {
			typ = byte(c.Idx)
		} else if typ >= 19 && typ <= 21 && flip(r) {
			typ = 1
		}
		want = want || (typ >= 19 && typ <= 21)
		au = append(au, append([]byte{typ<<1 | byte(r.IntN(2)), byte(r.IntN(256))}, payload(r, r.IntN(20))...))
		if c.Idx < 64 {
			break
		}
	}
	// BLA access units are random access points for the standard, the library does not
	// count them; both are accepted
	for _, nalu := range au {
		if t := (nalu[0] >> 1) & 63; t >= 16 && t <= 18 || t == 22 || t == 23 {
			c.Count("bla_skipped", 1)
			return
		}
	}
	c.Input("au0", au[0])
	c.Check(h265.IsRandomAccess(au) == want, "H265 access unit %s: random access %v, want %v", hexList(au), !want, want)
	s := fmp4.Sample{IsNonSyncSample: flip(r), PTSOffset: int32(r.Uint32()), Payload: randBytes(r, r.IntN(20))} // filled again
	off := int32(r.Uint32())
	c.NoErr(s.FillH265(off, cloneList(au)), "FillH265")
	c.Check(s.IsNonSyncSample == !want && s.PTSOffset == off, "FillH265 produced %+v", s)
	got, err := s.GetH265()
	c.NoErr(err, "GetH265")
	c.Check(equalList(got, au), "GetH265 returned %s, want %s", hexList(got), hexList(au))
	if want {
		c.Count("h265_ra", 1)
	}
	c.Count("h265", 1)
	c.Distinct("h265", au)
}

func c26AV1(c *Case) {
	r := c.R
	n := 1 + r.IntN(5)
	var tu [][]byte
	want := false
	for i := range n {
		typ := byte(r.IntN(16))
		if c.Idx < 16 && i == 0 {
			typ = byte(c.Idx)
		} else if typ == 1 && flip(r) {
			typ = 6
		}
		want = want || typ == 1
		tu = append(tu, append([]byte{typ << 3}, payload(r, r.IntN(20))...))
		if c.Idx < 16 {
			break
		}
	}
	c.Input("obu0", tu[0])
	c.Check(av1.IsRandomAccess2(tu) == want, "AV1 temporal unit %s: random access %v, want %v", hexList(tu), !want, want)
	s := fmp4.Sample{IsNonSyncSample: flip(r), Payload: randBytes(r, r.IntN(20))} // filled again
	c.NoErr(s.FillAV1(cloneList(tu)), "FillAV1")
	c.Check(s.IsNonSyncSample == !want && s.PTSOffset == 0, "FillAV1 produced %+v", s)
	got, err := s.GetAV1()
	c.NoErr(err, "GetAV1")
	c.Check(equalList(got, tu), "GetAV1 returned %s, want %s", hexList(got), hexList(tu))
	if want {
		c.Count("av1_ra", 1)
	}
	c.Count("av1", 1)
	c.Distinct("av1", tu)
}

func c26VP(c *Case) {
	r := c.R
	s, w, _ := genVP9(r)
	buf := w.out()
	c.Input("frame", buf)
	want := !s.h.ShowExistingFrame && !s.h.NonKeyFrame
	c.Check(vp9.IsRandomAccess(buf) == want, "VP9 frame %x (%+v): random access %v, want %v", buf, s.h, !want, want)
	if want {
		c.Count("vp9_ra", 1)
		// a key frame without its sync code is not one
		if s.h.Profile != 3 {
			bad := clone(buf)
			bad[1+r.IntN(3)] ^= byte(1 + r.IntN(255))
			c.Check(!vp9.IsRandomAccess(bad), "frame with a wrong sync code reported as random access")
		}
	}
	if s.h.ShowExistingFrame {
		c.Count("vp9_repeat", 1)
	}
	c.Check(!vp9.IsRandomAccess(nil), "empty VP9 frame reported as random access")

	f := payload(r, 1+r.IntN(20))
	c.Check(vp8.IsRandomAccess(f) == (f[0]&1 == 0), "VP8 frame %x", f)
	c.Check(!vp8.IsRandomAccess(nil), "empty VP8 frame reported as random access")
	c.Count("vp", 1)
	c.Distinct("vp9", buf, f)
}

func init() {
	register(&Property{
		ID: "C19",
		Rule: "random AV1 sequence headers and VP9 headers in every profile and with every optional part, written by an independent bit writer, decoded, compared field by field, truncated and corrupted; " +
			"random sequences of MPEG-4 video start codes; distinct by encoding",
		Families: []Family{
			{"av1", 60000, 3000000, c19AV1},
			{"av1_unsupported", 10000, 300000, c19AV1Unsupported},
			{"vp9", 60000, 3000000, c19VP9},
			{"mpeg4video", 60000, 3000000, c19MPEG4Video},
		},
		Require: []string{"av1", "av1_decoder_model", "av1_display_delay", "av1_reduced", "av1_mono", "vp9", "vp9_key", "mpeg4_valid", "mpeg4_invalid", "partial", "truncated"},
	})
	register(&Property{
		ID:   "C26",
		Rule: "every NAL unit and OBU type alone, then random access units, temporal units and VP8/VP9 frames with the random access unit at any position; distinct by unit list",
		Families: []Family{
			{"h264", 40000, 1000000, c26H264},
			{"h265", 40000, 1000000, c26H265},
			{"av1", 40000, 1000000, c26AV1},
			{"vp", 40000, 1000000, c26VP},
		},
		Require: []string{"h264", "h264_ra", "h265", "h265_ra", "av1", "av1_ra", "vp", "vp9_ra", "vp9_repeat"},
	})
}
