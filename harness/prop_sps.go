package main

import (
	"math"
	"math/rand/v2"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
)

func flip(r *rand.Rand) bool { return r.IntN(2) == 0 }

// ueVal generates a value of an unsigned Exp-Golomb code, up to 2^32-2.
func ueVal(r *rand.Rand) uint32 {
	switch r.IntN(6) {
	case 0:
		return uint32(r.IntN(4))
	case 1:
		return math.MaxUint32 - 1 - uint32(r.IntN(3))
	case 2:
		return uint32(1)<<uint(r.IntN(32)) - 1
	case 3:
		v := uint32(1) << uint(r.IntN(32))
		return v
	default:
		v := r.Uint32() >> uint(r.IntN(32))
		if v == math.MaxUint32 {
			v--
		}
		return v
	}
}

func seVal(r *rand.Rand) int32 {
	switch r.IntN(5) {
	case 0:
		return int32(r.IntN(7) - 3)
	case 1:
		return pick(r, int32(math.MaxInt32), -math.MaxInt32)
	default:
		v := int32(r.Uint32() >> uint(1+r.IntN(31)))
		if flip(r) {
			v = -v
		}
		return v
	}
}

func small(r *rand.Rand, n int) uint32 { return uint32(r.IntN(n)) }

// u32 generates 32-bit values that are full of zero bytes, too.
func u32(r *rand.Rand) uint32 {
	switch r.IntN(4) {
	case 0:
		return uint32(1 + r.IntN(3))
	case 1:
		return uint32(r.IntN(256)) << uint(8*r.IntN(4))
	default:
		return uint32(edge(r, 32))
	}
}

// ---- H264 ----

func genHRD(r *rand.Rand, w *bitWriter) *h264.SPS_HRD {
	h := &h264.SPS_HRD{
		CpbCntMinus1: pick(r, uint32(0), 1, 31, small(r, 32)),
		BitRateScale: uint8(r.IntN(16)), CpbSizeScale: uint8(r.IntN(16)),
	}
	w.ue(h.CpbCntMinus1)
	w.u(4, uint64(h.BitRateScale))
	w.u(4, uint64(h.CpbSizeScale))
	for range h.CpbCntMinus1 + 1 {
		a, b, f := ueVal(r), ueVal(r), flip(r)
		h.BitRateValueMinus1 = append(h.BitRateValueMinus1, a)
		h.CpbSizeValueMinus1 = append(h.CpbSizeValueMinus1, b)
		h.CbrFlag = append(h.CbrFlag, f)
		w.ue(a)
		w.ue(b)
		w.flag(f)
	}
	for _, p := range []*uint8{
		&h.InitialCpbRemovalDelayLengthMinus1, &h.CpbRemovalDelayLengthMinus1,
		&h.DpbOutputDelayLengthMinus1, &h.TimeOffsetLength,
	} {
		*p = uint8(r.IntN(32))
		w.u(5, uint64(*p))
	}
	return h
}

// genScalingList picks coefficients (or the default, or a run that repeats the last
// one), and writes them as deltas.
func genScalingList(r *rand.Rand, w *bitWriter, size int) ([]int32, bool) {
	out := make([]int32, size)
	last := int32(8)
	delta := func(next int32) {
		d := next - last // mod 256, in [-128, 127]
		if d > 127 {
			d -= 256
		} else if d < -128 {
			d += 256
		}
		w.se(d)
	}
	stop := size
	switch r.IntN(4) {
	case 0:
		stop = 0
	case 1:
		stop = 1 + r.IntN(size)
	}
	for j := range size {
		if j == stop {
			delta(0)
			for k := j; k < size; k++ {
				out[k] = last
			}
			return out, j == 0
		}
		next := int32(1 + r.IntN(255))
		delta(next)
		out[j] = next
		last = next
	}
	return out, false
}

// genH264SPS generates a SPS and its RBSP (without NAL header).
func genH264SPS(r *rand.Rand) (*h264.SPS, *bitWriter) {
	s := &h264.SPS{}
	w := &bitWriter{}
	high := []uint8{100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135}
	if r.IntN(3) == 0 {
		s.ProfileIdc = pick(r, uint8(66), 77, 88, 0, 255, 99, 101, 136, uint8(r.IntN(256)))
	} else {
		s.ProfileIdc = high[r.IntN(len(high))]
	}
	w.u(8, uint64(s.ProfileIdc))
	for _, p := range []*bool{
		&s.ConstraintSet0Flag, &s.ConstraintSet1Flag, &s.ConstraintSet2Flag,
		&s.ConstraintSet3Flag, &s.ConstraintSet4Flag, &s.ConstraintSet5Flag,
	} {
		*p = flip(r)
		w.flag(*p)
	}
	w.u(2, 0)
	s.LevelIdc = uint8(edge(r, 8))
	w.u(8, uint64(s.LevelIdc))
	s.ID = small(r, 32)
	w.ue(s.ID)
	s.ChromaFormatIdc = 1
	isHigh := false
	for _, h := range high {
		isHigh = isHigh || h == s.ProfileIdc
	}
	if isHigh {
		s.ChromaFormatIdc = small(r, 4)
		w.ue(s.ChromaFormatIdc)
		if s.ChromaFormatIdc == 3 {
			s.SeparateColourPlaneFlag = flip(r)
			w.flag(s.SeparateColourPlaneFlag)
		}
		s.BitDepthLumaMinus8 = small(r, 7)
		s.BitDepthChromaMinus8 = small(r, 7)
		s.QpprimeYZeroTransformBypassFlag = flip(r)
		w.ue(s.BitDepthLumaMinus8)
		w.ue(s.BitDepthChromaMinus8)
		w.flag(s.QpprimeYZeroTransformBypassFlag)
		present := flip(r)
		w.flag(present)
		if present {
			n := 8
			if s.ChromaFormatIdc == 3 {
				n = 12
			}
			for i := range n {
				p := flip(r)
				w.flag(p)
				if !p {
					continue
				}
				if i < 6 {
					l, d := genScalingList(r, w, 16)
					s.ScalingList4x4 = append(s.ScalingList4x4, l)
					s.UseDefaultScalingMatrix4x4Flag = append(s.UseDefaultScalingMatrix4x4Flag, d)
				} else {
					l, d := genScalingList(r, w, 64)
					s.ScalingList8x8 = append(s.ScalingList8x8, l)
					s.UseDefaultScalingMatrix8x8Flag = append(s.UseDefaultScalingMatrix8x8Flag, d)
				}
			}
		}
	}
	s.Log2MaxFrameNumMinus4 = small(r, 13)
	w.ue(s.Log2MaxFrameNumMinus4)
	s.PicOrderCntType = small(r, 3)
	w.ue(s.PicOrderCntType)
	switch s.PicOrderCntType {
	case 0:
		s.Log2MaxPicOrderCntLsbMinus4 = small(r, 13)
		w.ue(s.Log2MaxPicOrderCntLsbMinus4)
	case 1:
		s.DeltaPicOrderAlwaysZeroFlag = flip(r)
		s.OffsetForNonRefPic = seVal(r)
		s.OffsetForTopToBottomField = seVal(r)
		w.flag(s.DeltaPicOrderAlwaysZeroFlag)
		w.se(s.OffsetForNonRefPic)
		w.se(s.OffsetForTopToBottomField)
		n := pick(r, 0, 1, 2, 255, r.IntN(256))
		w.ue(uint32(n))
		s.OffsetForRefFrames = make([]int32, n)
		for i := range n {
			s.OffsetForRefFrames[i] = seVal(r)
			w.se(s.OffsetForRefFrames[i])
		}
	}
	s.MaxNumRefFrames = small(r, 17)
	s.GapsInFrameNumValueAllowedFlag = flip(r)
	s.PicWidthInMbsMinus1 = pick(r, small(r, 8), small(r, 543), 1054)
	s.PicHeightInMapUnitsMinus1 = pick(r, small(r, 8), small(r, 543), 1054)
	s.FrameMbsOnlyFlag = flip(r)
	w.ue(s.MaxNumRefFrames)
	w.flag(s.GapsInFrameNumValueAllowedFlag)
	w.ue(s.PicWidthInMbsMinus1)
	w.ue(s.PicHeightInMapUnitsMinus1)
	w.flag(s.FrameMbsOnlyFlag)
	if !s.FrameMbsOnlyFlag {
		s.MbAdaptiveFrameFieldFlag = flip(r)
		w.flag(s.MbAdaptiveFrameFieldFlag)
	}
	s.Direct8x8InferenceFlag = flip(r)
	w.flag(s.Direct8x8InferenceFlag)
	crop := flip(r)
	w.flag(crop)
	if crop {
		ux, uy := h264CropUnits(s)
		mw := int(s.PicWidthInMbsMinus1+1) * 16 / ux
		mh := int(s.PicHeightInMapUnitsMinus1+1) * 16
		if !s.FrameMbsOnlyFlag {
			mh *= 2
		}
		mh /= uy
		split := func(n int) (uint32, uint32) {
			a := r.IntN(min(n, 1+r.IntN(n)))
			b := 0
			if n-a > 1 {
				b = r.IntN(n - a)
			}
			return uint32(a), uint32(b)
		}
		f := &h264.SPS_FrameCropping{}
		f.LeftOffset, f.RightOffset = split(mw)
		f.TopOffset, f.BottomOffset = split(mh)
		s.FrameCropping = f
		w.ue(f.LeftOffset)
		w.ue(f.RightOffset)
		w.ue(f.TopOffset)
		w.ue(f.BottomOffset)
	}
	vui := r.IntN(3) != 0
	w.flag(vui)
	if vui {
		v := &h264.SPS_VUI{}
		s.VUI = v
		v.AspectRatioInfoPresentFlag = flip(r)
		w.flag(v.AspectRatioInfoPresentFlag)
		if v.AspectRatioInfoPresentFlag {
			v.AspectRatioIdc = pick(r, uint8(255), 254, uint8(r.IntN(17)))
			w.u(8, uint64(v.AspectRatioIdc))
			if v.AspectRatioIdc == 255 {
				v.SarWidth, v.SarHeight = uint16(edge(r, 16)), uint16(edge(r, 16))
				w.u(16, uint64(v.SarWidth))
				w.u(16, uint64(v.SarHeight))
			}
		}
		v.OverscanInfoPresentFlag = flip(r)
		w.flag(v.OverscanInfoPresentFlag)
		if v.OverscanInfoPresentFlag {
			v.OverscanAppropriateFlag = flip(r)
			w.flag(v.OverscanAppropriateFlag)
		}
		v.VideoSignalTypePresentFlag = flip(r)
		w.flag(v.VideoSignalTypePresentFlag)
		if v.VideoSignalTypePresentFlag {
			v.VideoFormat = uint8(r.IntN(8))
			v.VideoFullRangeFlag = flip(r)
			v.ColourDescriptionPresentFlag = flip(r)
			w.u(3, uint64(v.VideoFormat))
			w.flag(v.VideoFullRangeFlag)
			w.flag(v.ColourDescriptionPresentFlag)
			if v.ColourDescriptionPresentFlag {
				v.ColourPrimaries, v.TransferCharacteristics, v.MatrixCoefficients = uint8(edge(r, 8)), uint8(edge(r, 8)), uint8(edge(r, 8))
				w.u(8, uint64(v.ColourPrimaries))
				w.u(8, uint64(v.TransferCharacteristics))
				w.u(8, uint64(v.MatrixCoefficients))
			}
		}
		v.ChromaLocInfoPresentFlag = flip(r)
		w.flag(v.ChromaLocInfoPresentFlag)
		if v.ChromaLocInfoPresentFlag {
			v.ChromaSampleLocTypeTopField, v.ChromaSampleLocTypeBottomField = small(r, 6), small(r, 6)
			w.ue(v.ChromaSampleLocTypeTopField)
			w.ue(v.ChromaSampleLocTypeBottomField)
		}
		timing := flip(r)
		w.flag(timing)
		if timing {
			t := &h264.SPS_TimingInfo{NumUnitsInTick: u32(r), TimeScale: u32(r), FixedFrameRateFlag: flip(r)}
			v.TimingInfo = t
			w.u(32, uint64(t.NumUnitsInTick))
			w.u(32, uint64(t.TimeScale))
			w.flag(t.FixedFrameRateFlag)
		}
		nal := flip(r)
		w.flag(nal)
		if nal {
			v.NalHRD = genHRD(r, w)
		}
		vcl := flip(r)
		w.flag(vcl)
		if vcl {
			v.VclHRD = genHRD(r, w)
		}
		if nal || vcl {
			v.LowDelayHrdFlag = flip(r)
			w.flag(v.LowDelayHrdFlag)
		}
		v.PicStructPresentFlag = flip(r)
		w.flag(v.PicStructPresentFlag)
		restr := flip(r)
		w.flag(restr)
		if restr {
			b := &h264.SPS_BitstreamRestriction{
				MotionVectorsOverPicBoundariesFlag: flip(r),
				MaxBytesPerPicDenom:                ueVal(r), MaxBitsPerMbDenom: ueVal(r), Log2MaxMvLengthHorizontal: ueVal(r),
				Log2MaxMvLengthVertical: ueVal(r), MaxNumReorderFrames: ueVal(r), MaxDecFrameBuffering: ueVal(r),
			}
			v.BitstreamRestriction = b
			w.flag(b.MotionVectorsOverPicBoundariesFlag)
			w.ue(b.MaxBytesPerPicDenom)
			w.ue(b.MaxBitsPerMbDenom)
			w.ue(b.Log2MaxMvLengthHorizontal)
			w.ue(b.Log2MaxMvLengthVertical)
			w.ue(b.MaxNumReorderFrames)
			w.ue(b.MaxDecFrameBuffering)
		}
	}
	return s, w
}

// h264CropUnits are CropUnitX and CropUnitY (H.264, 7-19 to 7-22).
func h264CropUnits(s *h264.SPS) (int, int) {
	field := 2
	if s.FrameMbsOnlyFlag {
		field = 1
	}
	array := s.ChromaFormatIdc
	if s.SeparateColourPlaneFlag {
		array = 0
	}
	switch array {
	case 1:
		return 2, 2 * field
	case 2:
		return 2, field
	default: // 0: 1, 2-frame_mbs_only; 3: SubWidthC = SubHeightC = 1
		return 1, field
	}
}

func c17SPS(c *Case) {
	r := c.R
	s, w := genH264SPS(r)
	syntaxBits := len(w.bits)
	w.trailing()
	rbsp := w.out()
	nal := append([]byte{byte(r.IntN(4))<<5 | 7}, escape(rbsp)...)
	if flip(r) && nal[len(nal)-1] == 0x80 { // trailing zeros of Annex-B streams
		nal = append(nal, make([]byte, r.IntN(3))...)
	}
	c.Input("sps", nal)
	var got h264.SPS
	c.NoErr(got.Unmarshal(nal), "SPS Unmarshal")
	c.Check(deepEq(got, *s), "SPS decoded as\n%+v\nwant\n%+v", got, *s)

	ux, uy := h264CropUnits(s)
	wd := int(s.PicWidthInMbsMinus1+1) * 16
	ht := int(s.PicHeightInMapUnitsMinus1+1) * 16
	if !s.FrameMbsOnlyFlag {
		ht *= 2
	}
	if f := s.FrameCropping; f != nil {
		wd -= ux * int(f.LeftOffset+f.RightOffset)
		ht -= uy * int(f.TopOffset+f.BottomOffset)
		c.Count("cropped", 1)
	}
	c.Check(got.Width() == wd && got.Height() == ht, "size %dx%d, want %dx%d", got.Width(), got.Height(), wd, ht)
	if s.VUI == nil || s.VUI.TimingInfo == nil {
		c.Check(got.FPS() == 0, "FPS %v without timing info", got.FPS())
	} else if t := s.VUI.TimingInfo; t.NumUnitsInTick != 0 {
		want := float64(t.TimeScale) / 2 / float64(t.NumUnitsInTick)
		c.Check(math.Abs(got.FPS()-want) <= want*1e-9, "FPS %v, want %v", got.FPS(), want)
		c.Count("fps", 1)
	}

	// a SPS that ends within a field is rejected
	cut := r.IntN(syntaxBits/8 + 1)
	if cut*8 < syntaxBits {
		err := (&h264.SPS{}).Unmarshal(append([]byte{0x67}, escape(rbsp[:cut])...))
		c.Check(err != nil, "SPS truncated to %d of %d bits accepted", cut*8, syntaxBits)
		c.Count("truncated", 1)
	}
	typ := byte(r.IntN(32))
	if typ != 7 {
		bad := clone(nal)
		bad[0] = bad[0]&0xe0 | typ
		c.Check((&h264.SPS{}).Unmarshal(bad) != nil, "NAL unit of type %d accepted as SPS", typ)
	}
	c.Count("sps", 1)
	if len(nal) > len(rbsp)+1 {
		c.Count("emulation", 1)
	}
	if s.VUI != nil {
		c.Count("vui", 1)
		if s.VUI.NalHRD != nil || s.VUI.VclHRD != nil {
			c.Count("hrd", 1)
		}
	}
	if s.ScalingList8x8 != nil {
		c.Count("scaling_lists", 1)
	}
	c.Distinct("sps", nal)
	c.Sample("%dx%d %s", wd, ht, hexShort(nal))
}

// ---- H265 ----

// rpsFromSet builds the lists of a reference set: negative deltas by decreasing value,
// positive ones by increasing value.
func rpsFromSet(m map[int32]bool) *h265.SPS_ShortTermRefPicSet {
	s := &h265.SPS_ShortTermRefPicSet{}
	var lo, hi int32
	for d := range m {
		lo, hi = min(lo, d), max(hi, d)
	}
	for d := int32(-1); d >= lo; d-- {
		if u, ok := m[d]; ok {
			s.DeltaPocS0 = append(s.DeltaPocS0, d)
			s.UsedByCurrPicS0Flag = append(s.UsedByCurrPicS0Flag, u)
		}
	}
	for d := int32(1); d <= hi; d++ {
		if u, ok := m[d]; ok {
			s.DeltaPocS1 = append(s.DeltaPocS1, d)
			s.UsedByCurrPicS1Flag = append(s.UsedByCurrPicS1Flag, u)
		}
	}
	s.NumNegativePics = uint32(len(s.DeltaPocS0))
	s.NumPositivePics = uint32(len(s.DeltaPocS1))
	return s
}

// writeRPSExplicit writes a set without prediction.
func writeRPSExplicit(w *bitWriter, s *h265.SPS_ShortTermRefPicSet, idx int) {
	if idx != 0 {
		w.flag(false)
	}
	w.ue(s.NumNegativePics)
	w.ue(s.NumPositivePics)
	prev := int32(0)
	for i, d := range s.DeltaPocS0 {
		w.ue(uint32(prev - d - 1))
		w.flag(s.UsedByCurrPicS0Flag[i])
		prev = d
	}
	prev = 0
	for i, d := range s.DeltaPocS1 {
		w.ue(uint32(d - prev - 1))
		w.flag(s.UsedByCurrPicS1Flag[i])
		prev = d
	}
}

// writeRPSPredicted derives a set from ref by choosing which shifted deltas survive; the
// result is computed on sets and not with the loops of the standard.
func writeRPSPredicted(r *rand.Rand, w *bitWriter, ref *h265.SPS_ShortTermRefPicSet, idx, num int, deltaIdx uint32) *h265.SPS_ShortTermRefPicSet {
	w.flag(true)
	out := map[int32]bool{}
	sign := flip(r)
	abs := int32(r.IntN(8))
	delta := abs + 1
	if sign {
		delta = -delta
	}
	if idx == num {
		w.ue(deltaIdx)
	}
	w.flag(sign)
	w.ue(uint32(abs))
	// flags are written in the order of the reference entries (S0, S1), then of the
	// reference picture itself
	entries := append(append(append([]int32{}, ref.DeltaPocS0...), ref.DeltaPocS1...), 0)
	for _, e := range entries {
		used := flip(r)
		use := true
		w.flag(used)
		if !used {
			use = flip(r)
			w.flag(use)
		}
		if d := e + delta; use && d != 0 {
			out[d] = used
		}
	}
	s := rpsFromSet(out)
	s.InterRefPicSetPredictionFlag = true
	s.DeltaRpsSign = sign
	s.AbsDeltaRpsMinus1 = uint32(abs)
	if idx == num {
		s.DeltaIdxMinus1 = deltaIdx
	}
	return s
}

func genRPS(r *rand.Rand, w *bitWriter, prev []*h265.SPS_ShortTermRefPicSet, idx, num int) *h265.SPS_ShortTermRefPicSet {
	if idx != 0 && flip(r) {
		back := 1
		if idx == num {
			back = 1 + r.IntN(idx)
		}
		return writeRPSPredicted(r, w, prev[idx-back], idx, num, uint32(back-1))
	}
	m := map[int32]bool{}
	for range r.IntN(6) {
		d := int32(1 + r.IntN(12))
		if flip(r) {
			d = -d
		}
		m[d] = flip(r)
	}
	if r.IntN(30) == 0 {
		m[int32(1+r.IntN(32768))] = flip(r)
		m[-int32(1+r.IntN(32768))] = flip(r)
	}
	s := rpsFromSet(m)
	writeRPSExplicit(w, s, idx)
	return s
}

// genH265SPS generates a SPS and its RBSP (without NAL header).
func genH265SPS(r *rand.Rand) (*h265.SPS, *bitWriter) { return genH265SPSOpt(r, nil) }

// h265Opt fixes what matters to a stream.
type h265Opt struct {
	subLayers int // max_sub_layers_minus1
	pocBits   int
	reorder   int
	sets      []*h265.SPS_ShortTermRefPicSet
	timing    *h265.SPS_TimingInfo // nil: absent
}

func genH265SPSOpt(r *rand.Rand, o *h265Opt) (*h265.SPS, *bitWriter) { return genH265SPSWith(r, o, 0) }

// parts of the syntax that are documented as unsupported
const (
	unsSubLayerProfile = 1 << iota
	unsSubLayerLevel
	unsLongTerm
)

func genH265SPSWith(r *rand.Rand, o *h265Opt, uns int) (*h265.SPS, *bitWriter) {
	s := &h265.SPS{}
	w := &bitWriter{}
	s.VPSID = uint8(r.IntN(16))
	s.MaxSubLayersMinus1 = uint8(r.IntN(7))
	if flip(r) {
		s.MaxSubLayersMinus1 = 0
	}
	if o != nil {
		s.MaxSubLayersMinus1 = uint8(o.subLayers)
	}
	if uns&(unsSubLayerProfile|unsSubLayerLevel) != 0 {
		s.MaxSubLayersMinus1 = uint8(1 + r.IntN(6))
	}
	s.TemporalIDNestingFlag = flip(r)
	w.u(4, uint64(s.VPSID))
	w.u(3, uint64(s.MaxSubLayersMinus1))
	w.flag(s.TemporalIDNestingFlag)

	p := &s.ProfileTierLevel
	p.GeneralProfileSpace = uint8(r.IntN(4))
	p.GeneralTierFlag = uint8(r.IntN(2))
	p.GeneralProfileIdc = uint8(r.IntN(32))
	w.u(2, uint64(p.GeneralProfileSpace))
	w.u(1, uint64(p.GeneralTierFlag))
	w.u(5, uint64(p.GeneralProfileIdc))
	sparse := flip(r)
	for i := range 32 {
		p.GeneralProfileCompatibilityFlag[i] = flip(r) && (!sparse || r.IntN(8) == 0)
		w.flag(p.GeneralProfileCompatibilityFlag[i])
	}
	for _, f := range []*bool{
		&p.GeneralProgressiveSourceFlag, &p.GeneralInterlacedSourceFlag, &p.GeneralNonPackedConstraintFlag, &p.GeneralFrameOnlyConstraintFlag,
		&p.GeneralMax12bitConstraintFlag, &p.GeneralMax10bitConstraintFlag, &p.GeneralMax8bitConstraintFlag,
		&p.GeneralMax422ChromeConstraintFlag, &p.GeneralMax420ChromaConstraintFlag, &p.GeneralMaxMonochromeConstraintFlag,
		&p.GeneralIntraConstraintFlag, &p.GeneralOnePictureOnlyConstraintFlag, &p.GeneralLowerBitRateConstraintFlag,
	} {
		*f = flip(r)
		w.flag(*f)
	}
	c := p.GeneralProfileCompatibilityFlag
	idc := p.GeneralProfileIdc
	if idc == 5 || idc == 9 || idc == 10 || idc == 11 || c[5] || c[9] || c[10] || c[11] {
		p.GeneralMax14BitConstraintFlag = flip(r)
		w.flag(p.GeneralMax14BitConstraintFlag)
		w.u(33, 0)
	} else {
		w.u(34, 0)
	}
	w.u(1, uint64(r.IntN(2))) // general_inbld_flag or reserved
	p.GeneralLevelIdc = uint8(edge(r, 8))
	w.u(8, uint64(p.GeneralLevelIdc))
	n := int(s.MaxSubLayersMinus1)
	if n > 0 {
		p.SubLayerProfilePresentFlag = make([]bool, n)
		p.SubLayerLevelPresentFlag = make([]bool, n)
		// sub-layer profiles and levels are documented as unsupported
		if uns&unsSubLayerProfile != 0 {
			p.SubLayerProfilePresentFlag[r.IntN(n)] = true
		}
		if uns&unsSubLayerLevel != 0 {
			p.SubLayerLevelPresentFlag[r.IntN(n)] = true
		}
		for i := range 8 {
			w.flag(i < n && p.SubLayerProfilePresentFlag[i])
			w.flag(i < n && p.SubLayerLevelPresentFlag[i])
		}
		for i := range n {
			if p.SubLayerProfilePresentFlag[i] {
				w.u(40, edge(r, 40))
				w.u(48, edge(r, 48))
			}
			if p.SubLayerLevelPresentFlag[i] {
				w.u(8, uint64(30*r.IntN(7)))
			}
		}
	}

	s.ID = uint8(r.IntN(16))
	s.ChromaFormatIdc = small(r, 4)
	w.ue(uint32(s.ID))
	w.ue(s.ChromaFormatIdc)
	if s.ChromaFormatIdc == 3 {
		s.SeparateColourPlaneFlag = flip(r)
		w.flag(s.SeparateColourPlaneFlag)
	}
	ux, uy := h265CropUnits(s)
	s.PicWidthInLumaSamples = uint32(8 * (1 + r.IntN(1000)))
	s.PicHeightInLumaSamples = uint32(8 * (1 + r.IntN(1000)))
	w.ue(s.PicWidthInLumaSamples)
	w.ue(s.PicHeightInLumaSamples)
	conf := flip(r)
	w.flag(conf)
	if conf {
		split := func(n uint32) (uint32, uint32) {
			a := uint32(r.IntN(int(n)))
			return a, uint32(r.IntN(int(n - a)))
		}
		f := &h265.SPS_Window{}
		f.LeftOffset, f.RightOffset = split(s.PicWidthInLumaSamples / uint32(ux))
		f.TopOffset, f.BottomOffset = split(s.PicHeightInLumaSamples / uint32(uy))
		s.ConformanceWindow = f
		w.ue(f.LeftOffset)
		w.ue(f.RightOffset)
		w.ue(f.TopOffset)
		w.ue(f.BottomOffset)
	}
	s.BitDepthLumaMinus8 = small(r, 9)
	s.BitDepthChromaMinus8 = small(r, 9)
	s.Log2MaxPicOrderCntLsbMinus4 = small(r, 13)
	if o != nil {
		s.Log2MaxPicOrderCntLsbMinus4 = uint32(o.pocBits - 4)
	}
	w.ue(s.BitDepthLumaMinus8)
	w.ue(s.BitDepthChromaMinus8)
	w.ue(s.Log2MaxPicOrderCntLsbMinus4)
	s.SubLayerOrderingInfoPresentFlag = flip(r)
	w.flag(s.SubLayerOrderingInfoPresentFlag)
	s.MaxDecPicBufferingMinus1 = make([]uint32, n+1)
	s.MaxNumReorderPics = make([]uint32, n+1)
	s.MaxLatencyIncreasePlus1 = make([]uint32, n+1)
	start := n
	if s.SubLayerOrderingInfoPresentFlag {
		start = 0
	}
	for i := start; i <= n; i++ {
		s.MaxDecPicBufferingMinus1[i] = small(r, 16)
		s.MaxNumReorderPics[i] = small(r, 16)
		if o != nil {
			s.MaxNumReorderPics[i] = uint32(o.reorder)
			if i < n {
				s.MaxNumReorderPics[i] = small(r, o.reorder+1)
			}
		}
		s.MaxLatencyIncreasePlus1[i] = ueVal(r)
		w.ue(s.MaxDecPicBufferingMinus1[i])
		w.ue(s.MaxNumReorderPics[i])
		w.ue(s.MaxLatencyIncreasePlus1[i])
	}
	for _, v := range []*uint32{
		&s.Log2MinLumaCodingBlockSizeMinus3, &s.Log2DiffMaxMinLumaCodingBlockSize, &s.Log2MinLumaTransformBlockSizeMinus2,
		&s.Log2DiffMaxMinLumaTransformBlockSize, &s.MaxTransformHierarchyDepthInter, &s.MaxTransformHierarchyDepthIntra,
	} {
		*v = small(r, 5)
		w.ue(*v)
	}
	s.ScalingListEnabledFlag = flip(r)
	w.flag(s.ScalingListEnabledFlag)
	if s.ScalingListEnabledFlag {
		present := flip(r)
		w.flag(present)
		if present {
			d := &h265.SPS_ScalingListData{}
			s.ScalingListData = d
			for size := range 4 {
				for m := 0; m < 6; m++ {
					if size == 3 && m%3 != 0 {
						continue
					}
					d.ScalingListPredModeFlag[size][m] = flip(r)
					w.flag(d.ScalingListPredModeFlag[size][m])
					if !d.ScalingListPredModeFlag[size][m] {
						d.ScalingListPredmatrixIDDelta[size][m] = small(r, m+1)
						w.ue(d.ScalingListPredmatrixIDDelta[size][m])
						continue
					}
					if size > 1 {
						v := int32(r.IntN(255) - 7)
						d.ScalingListDcCoefMinus8[size-2][m] = v
						w.se(v)
					}
					coefs := 64
					if size == 0 {
						coefs = 16
					}
					for range coefs {
						w.se(int32(r.IntN(256) - 128))
					}
				}
			}
		}
	}
	s.AmpEnabledFlag = flip(r)
	s.SampleAdaptiveOffsetEnabledFlag = flip(r)
	s.PcmEnabledFlag = flip(r)
	w.flag(s.AmpEnabledFlag)
	w.flag(s.SampleAdaptiveOffsetEnabledFlag)
	w.flag(s.PcmEnabledFlag)
	if s.PcmEnabledFlag {
		s.PcmSampleBitDepthLumaMinus1 = uint8(r.IntN(16))
		s.PcmSampleBitDepthChromaMinus1 = uint8(r.IntN(16))
		s.Log2MinPcmLumaCodingBlockSizeMinus3 = small(r, 3)
		s.Log2DiffMaxMinPcmLumaCodingBlockSize = small(r, 3)
		s.PcmLoopFilterDisabledFlag = flip(r)
		w.u(4, uint64(s.PcmSampleBitDepthLumaMinus1))
		w.u(4, uint64(s.PcmSampleBitDepthChromaMinus1))
		w.ue(s.Log2MinPcmLumaCodingBlockSizeMinus3)
		w.ue(s.Log2DiffMaxMinPcmLumaCodingBlockSize)
		w.flag(s.PcmLoopFilterDisabledFlag)
	}
	num := pick(r, 0, 1, 2, 64, r.IntN(65), r.IntN(10))
	if o != nil {
		num = len(o.sets)
	}
	w.ue(uint32(num))
	for i := range num {
		if o != nil {
			s.ShortTermRefPicSets = append(s.ShortTermRefPicSets, o.sets[i])
			writeRPSExplicit(w, o.sets[i], i)
			continue
		}
		s.ShortTermRefPicSets = append(s.ShortTermRefPicSets, genRPS(r, w, s.ShortTermRefPicSets, i, num))
	}
	s.LongTermRefPicsPresentFlag = flip(r) || uns&unsLongTerm != 0
	w.flag(s.LongTermRefPicsPresentFlag)
	if s.LongTermRefPicsPresentFlag {
		n := uint32(0) // long-term pictures in SPS are documented as unsupported
		if uns&unsLongTerm != 0 {
			n = pick(r, uint32(1), 2, 32, 1+uint32(r.IntN(32)))
		}
		w.ue(n)
		for range n {
			w.u(int(s.Log2MaxPicOrderCntLsbMinus4)+4, r.Uint64()) // lt_ref_pic_poc_lsb_sps
			w.u(1, r.Uint64())                                    // used_by_curr_pic_lt_sps_flag
		}
	}
	s.TemporalMvpEnabledFlag = flip(r)
	s.StrongIntraSmoothingEnabledFlag = flip(r)
	w.flag(s.TemporalMvpEnabledFlag)
	w.flag(s.StrongIntraSmoothingEnabledFlag)
	vui := r.IntN(3) != 0
	if o != nil {
		vui = vui || o.timing != nil
	}
	w.flag(vui)
	if vui {
		v := &h265.SPS_VUI{}
		s.VUI = v
		v.AspectRatioInfoPresentFlag = flip(r)
		w.flag(v.AspectRatioInfoPresentFlag)
		if v.AspectRatioInfoPresentFlag {
			v.AspectRatioIdc = pick(r, uint8(255), 254, uint8(r.IntN(17)))
			w.u(8, uint64(v.AspectRatioIdc))
			if v.AspectRatioIdc == 255 {
				v.SarWidth, v.SarHeight = uint16(edge(r, 16)), uint16(edge(r, 16))
				w.u(16, uint64(v.SarWidth))
				w.u(16, uint64(v.SarHeight))
			}
		}
		v.OverscanInfoPresentFlag = flip(r)
		w.flag(v.OverscanInfoPresentFlag)
		if v.OverscanInfoPresentFlag {
			v.OverscanAppropriateFlag = flip(r)
			w.flag(v.OverscanAppropriateFlag)
		}
		v.VideoSignalTypePresentFlag = flip(r)
		w.flag(v.VideoSignalTypePresentFlag)
		if v.VideoSignalTypePresentFlag {
			v.VideoFormat = uint8(r.IntN(8))
			v.VideoFullRangeFlag = flip(r)
			v.ColourDescriptionPresentFlag = flip(r)
			w.u(3, uint64(v.VideoFormat))
			w.flag(v.VideoFullRangeFlag)
			w.flag(v.ColourDescriptionPresentFlag)
			if v.ColourDescriptionPresentFlag {
				v.ColourPrimaries, v.TransferCharacteristics, v.MatrixCoefficients = uint8(edge(r, 8)), uint8(edge(r, 8)), uint8(edge(r, 8))
				w.u(8, uint64(v.ColourPrimaries))
				w.u(8, uint64(v.TransferCharacteristics))
				w.u(8, uint64(v.MatrixCoefficients))
			}
		}
		v.ChromaLocInfoPresentFlag = flip(r)
		w.flag(v.ChromaLocInfoPresentFlag)
		if v.ChromaLocInfoPresentFlag {
			v.ChromaSampleLocTypeTopField, v.ChromaSampleLocTypeBottomField = small(r, 6), small(r, 6)
			w.ue(v.ChromaSampleLocTypeTopField)
			w.ue(v.ChromaSampleLocTypeBottomField)
		}
		v.NeutralChromaIndicationFlag = flip(r)
		v.FieldSeqFlag = flip(r)
		v.FrameFieldInfoPresentFlag = flip(r)
		w.flag(v.NeutralChromaIndicationFlag)
		w.flag(v.FieldSeqFlag)
		w.flag(v.FrameFieldInfoPresentFlag)
		win := flip(r)
		w.flag(win)
		if win {
			v.DefaultDisplayWindow = &h265.SPS_Window{LeftOffset: ueVal(r), RightOffset: ueVal(r), TopOffset: ueVal(r), BottomOffset: ueVal(r)}
			w.ue(v.DefaultDisplayWindow.LeftOffset)
			w.ue(v.DefaultDisplayWindow.RightOffset)
			w.ue(v.DefaultDisplayWindow.TopOffset)
			w.ue(v.DefaultDisplayWindow.BottomOffset)
		}
		timing := flip(r)
		if o != nil {
			timing = o.timing != nil
		}
		w.flag(timing)
		if timing {
			t := &h265.SPS_TimingInfo{NumUnitsInTick: u32(r), TimeScale: u32(r), POCProportionalToTimingFlag: flip(r)}
			if o != nil {
				t.NumUnitsInTick, t.TimeScale = o.timing.NumUnitsInTick, o.timing.TimeScale
			}
			v.TimingInfo = t
			w.u(32, uint64(t.NumUnitsInTick))
			w.u(32, uint64(t.TimeScale))
			w.flag(t.POCProportionalToTimingFlag)
			if t.POCProportionalToTimingFlag {
				t.NumTicksPOCDiffOneMinus1 = ueVal(r)
				w.ue(t.NumTicksPOCDiffOneMinus1)
			}
		}
	}
	return s, w
}

func h265CropUnits(s *h265.SPS) (int, int) {
	switch s.ChromaFormatIdc {
	case 1:
		return 2, 2
	case 2:
		return 2, 1
	default:
		return 1, 1
	}
}

func c18SPS(c *Case) {
	r := c.R
	s, w := genH265SPS(r)
	syntaxBits := len(w.bits)
	if s.VUI != nil {
		if s.VUI.TimingInfo != nil {
			w.u(1, 0) // no HRD
		}
		w.u(1, 0) // no bitstream restriction
	}
	w.u(1, 0) // no extensions
	w.trailing()
	rbsp := w.out()
	head := []byte{33 << 1, byte(1 + r.IntN(7))}
	nal := append(clone(head), escape(rbsp)...)
	c.Input("sps", nal)
	var got h265.SPS
	c.NoErr(got.Unmarshal(nal), "SPS Unmarshal")
	// values that are not in the bitstream are not judged
	if n := int(s.MaxSubLayersMinus1); !s.SubLayerOrderingInfoPresentFlag && len(got.MaxNumReorderPics) == n+1 &&
		len(got.MaxDecPicBufferingMinus1) == n+1 && len(got.MaxLatencyIncreasePlus1) == n+1 {
		for i := range n {
			got.MaxNumReorderPics[i], got.MaxDecPicBufferingMinus1[i], got.MaxLatencyIncreasePlus1[i] = 0, 0, 0
		}
	}
	c.Check(deepEq(got, *s), "SPS decoded as\n%+v\nwant\n%+v", got, *s)
	for i, x := range got.ShortTermRefPicSets {
		c.Check(deepEq(*x, *s.ShortTermRefPicSets[i]), "reference set %d decoded as %+v, want %+v", i, *x, *s.ShortTermRefPicSets[i])
		c.Count("ref_sets", 1)
		if x.InterRefPicSetPredictionFlag {
			c.Count("predicted_ref_sets", 1)
		}
	}
	ux, uy := h265CropUnits(s)
	wd, ht := int(s.PicWidthInLumaSamples), int(s.PicHeightInLumaSamples)
	if f := s.ConformanceWindow; f != nil {
		wd -= ux * int(f.LeftOffset+f.RightOffset)
		ht -= uy * int(f.TopOffset+f.BottomOffset)
		c.Count("cropped", 1)
	}
	c.Check(got.Width() == wd && got.Height() == ht, "size %dx%d, want %dx%d", got.Width(), got.Height(), wd, ht)
	if s.VUI == nil || s.VUI.TimingInfo == nil {
		c.Check(got.FPS() == 0, "FPS %v without timing info", got.FPS())
	} else if t := s.VUI.TimingInfo; t.NumUnitsInTick != 0 {
		want := float64(t.TimeScale) / float64(t.NumUnitsInTick)
		c.Check(math.Abs(got.FPS()-want) <= want*1e-9, "FPS %v, want %v", got.FPS(), want)
		c.Count("fps", 1)
	}
	cut := r.IntN(syntaxBits/8 + 1)
	if cut*8 < syntaxBits {
		err := (&h265.SPS{}).Unmarshal(append(clone(head), escape(rbsp[:cut])...))
		c.Check(err != nil, "SPS truncated to %d of %d bits accepted", cut*8, syntaxBits)
		c.Count("truncated", 1)
	}
	typ := byte(r.IntN(64))
	if typ != 33 {
		bad := clone(nal)
		bad[0] = typ << 1
		c.Check((&h265.SPS{}).Unmarshal(bad) != nil, "NAL unit of type %d accepted as SPS", typ)
	}
	c.Count("sps", 1)
	if len(nal) > len(rbsp)+2 {
		c.Count("emulation", 1)
	}
	if s.VUI != nil {
		c.Count("vui", 1)
	}
	if s.ScalingListData != nil {
		c.Count("scaling_lists", 1)
	}
	c.Distinct("sps", nal)
	c.Sample("%dx%d sets=%d %s", wd, ht, len(s.ShortTermRefPicSets), hexShort(nal))
}

// c18Unsupported checks that a SPS with a part that is documented as unsupported
// is refused, or read correctly; but never misread.
func c18Unsupported(c *Case) {
	r := c.R
	uns := pick(r, unsSubLayerProfile, unsSubLayerLevel, unsLongTerm, 1+r.IntN(7))
	s, w := genH265SPSWith(r, nil, uns)
	if s.VUI != nil {
		if s.VUI.TimingInfo != nil {
			w.u(1, 0) // no HRD
		}
		w.u(1, 0) // no bitstream restriction
	}
	w.u(1, 0) // no extensions
	w.trailing()
	nal := append([]byte{33 << 1, 1}, escape(w.out())...)
	c.Input("sps", nal)
	var got h265.SPS
	err := got.Unmarshal(nal)
	for i, n := range []string{"sub_layer_profile", "sub_layer_level", "long_term"} {
		if uns&(1<<i) != 0 {
			c.Count(n, 1)
		}
	}
	c.Distinct("unsupported", nal)
	if err != nil {
		c.Count("unsupported_refused", 1)
		return
	}
	c.Check(got.ID == s.ID && got.ChromaFormatIdc == s.ChromaFormatIdc && got.PicWidthInLumaSamples == s.PicWidthInLumaSamples &&
		got.PicHeightInLumaSamples == s.PicHeightInLumaSamples && deepEq(got.ConformanceWindow, s.ConformanceWindow) &&
		got.Log2MaxPicOrderCntLsbMinus4 == s.Log2MaxPicOrderCntLsbMinus4 && len(got.ShortTermRefPicSets) == len(s.ShortTermRefPicSets) &&
		got.TemporalMvpEnabledFlag == s.TemporalMvpEnabledFlag && got.StrongIntraSmoothingEnabledFlag == s.StrongIntraSmoothingEnabledFlag &&
		deepEq(got.VUI, s.VUI), "SPS with unsupported parts (%d) misread as\n%+v\nwant\n%+v", uns, got, *s)
}

func c18PPS(c *Case) {
	r := c.R
	want := h265.PPS{
		ID: small(r, 64), SPSID: small(r, 16), DependentSliceSegmentsEnabledFlag: flip(r), OutputFlagPresentFlag: flip(r),
		NumExtraSliceHeaderBits: uint8(r.IntN(8)),
	}
	if r.IntN(4) == 0 {
		want.ID, want.SPSID = ueVal(r), ueVal(r)
	}
	w := &bitWriter{}
	w.ue(want.ID)
	w.ue(want.SPSID)
	w.flag(want.DependentSliceSegmentsEnabledFlag)
	w.flag(want.OutputFlagPresentFlag)
	w.u(3, uint64(want.NumExtraSliceHeaderBits))
	n := len(w.bits)
	for range r.IntN(60) {
		w.flag(r.IntN(4) == 0)
	}
	w.trailing()
	rbsp := w.out()
	head := []byte{34 << 1, byte(1 + r.IntN(7))}
	nal := append(clone(head), escape(rbsp)...)
	c.Input("pps", nal)
	var got h265.PPS
	c.NoErr(got.Unmarshal(nal), "PPS Unmarshal")
	c.Check(got == want, "PPS decoded as %+v, want %+v", got, want)
	cut := r.IntN(n/8 + 1)
	if cut*8 < n {
		c.Check((&h265.PPS{}).Unmarshal(append(clone(head), escape(rbsp[:cut])...)) != nil, "PPS truncated to %d of %d bits accepted", cut*8, n)
	}
	typ := byte(r.IntN(64))
	if typ != 34 {
		bad := clone(nal)
		bad[0] = typ << 1
		c.Check((&h265.PPS{}).Unmarshal(bad) != nil, "NAL unit of type %d accepted as PPS", typ)
	}
	c.Count("pps", 1)
	c.Distinct("pps", nal)
}

func init() {
	register(&Property{
		ID: "C17",
		Rule: "random SPS over all profiles, scaling lists, order count types, cropping, VUI and HRD, written by an independent bit writer with emulation prevention, " +
			"decoded and compared field by field, truncated; distinct by encoding",
		Families: []Family{{"sps", 40000, 1500000, c17SPS}},
		Require:  []string{"sps", "cropped", "fps", "truncated", "emulation", "vui", "hrd", "scaling_lists"},
	})
	register(&Property{
		ID: "C18",
		Rule: "random SPS and PPS over all profiles, layers, windows, scaling lists, explicit and predicted reference sets and VUI, written by an independent bit writer with " +
			"emulation prevention, decoded and compared field by field, truncated; SPS with parts documented as unsupported, which are refused or read correctly; distinct by encoding",
		Families: []Family{{"sps", 30000, 1000000, c18SPS}, {"pps", 20000, 500000, c18PPS}, {"unsupported", 10000, 300000, c18Unsupported}},
		Require:  []string{"sub_layer_profile", "sub_layer_level", "long_term", "sps", "pps", "cropped", "fps", "truncated", "emulation", "vui", "scaling_lists", "ref_sets", "predicted_ref_sets"},
	})
}
