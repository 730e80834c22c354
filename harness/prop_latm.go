package main

import (
	"bytes"
	"math/rand/v2"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
)

func rateIndex(rate int) int {
	for i, r := range refSampleRates {
		if r == rate {
			return i
		}
	}
	return -1
}

func genRate(r *rand.Rand) int {
	if r.IntN(3) != 0 {
		return refSampleRates[r.IntN(13)]
	}
	return pick(r, 1, 7351, 44099, 48001, 96001, 192000, 0xFFFFFF, 1+r.IntN(0xFFFFFF))
}

// genASC generates a configuration as the reader returns it.
func genASC(r *rand.Rand) *mpeg4audio.AudioSpecificConfig {
	a := &mpeg4audio.AudioSpecificConfig{
		Type:          mpeg4audio.ObjectTypeAACLC,
		SampleRate:    genRate(r),
		ChannelConfig: uint8(r.IntN(8)),
	}
	a.ChannelCount = int(a.ChannelConfig)
	if a.ChannelConfig == 7 {
		a.ChannelCount = 8
	}
	if r.IntN(2) == 0 {
		a.ExtensionType = pick(r, mpeg4audio.ObjectTypeSBR, mpeg4audio.ObjectTypePS)
		a.ExtensionSampleRate = genRate(r)
	}
	a.FrameLengthFlag = r.IntN(2) == 0
	if r.IntN(3) == 0 {
		a.DependsOnCoreCoder = true
		a.CoreCoderDelay = uint16(r.IntN(1 << 14))
	}
	return a
}

// writeASC is the reference writer. With explicit, rates are written in 24 bits even
// when they have an index.
func writeASC(w *bitWriter, a *mpeg4audio.AudioSpecificConfig, explicit bool) {
	rate := func(v int) {
		if i := rateIndex(v); i >= 0 && !explicit {
			w.u(4, uint64(i))
		} else {
			w.u(4, 15)
			w.u(24, uint64(v))
		}
	}
	ext := a.ExtensionType != 0
	if ext {
		w.u(5, uint64(a.ExtensionType))
	} else {
		w.u(5, uint64(a.Type))
	}
	rate(a.SampleRate)
	w.u(4, uint64(a.ChannelConfig))
	if ext {
		rate(a.ExtensionSampleRate)
		w.u(5, uint64(a.Type))
	}
	w.flag(a.FrameLengthFlag)
	w.flag(a.DependsOnCoreCoder)
	if a.DependsOnCoreCoder {
		w.u(14, uint64(a.CoreCoderDelay))
	}
	w.u(1, 0)
}

func c15ASC(c *Case) {
	r := c.R
	a := genASC(r)
	c.Notef("asc=%+v", *a)
	w := &bitWriter{}
	writeASC(w, a, false)
	want := w.out()
	in := *a
	if r.IntN(3) == 0 {
		// the channel count alone, or the channel configuration alone
		if r.IntN(2) == 0 {
			in.ChannelConfig = 0
		} else {
			in.ChannelCount = 0
		}
	}
	in2 := in
	enc, err := in.Marshal()
	c.NoErr(err, "marshal")
	c.Check(in == in2, "marshal modified the configuration")
	c.Check(bytes.Equal(enc, want), "AudioSpecificConfig encoding differs: got %x want %x (%+v)", enc, want, *a)
	var dec mpeg4audio.AudioSpecificConfig
	err = dec.Unmarshal(enc)
	c.NoErr(err, "unmarshal")
	c.Check(dec == *a, "round trip differs: got %+v, want %+v", dec, *a)
	// explicit rates and trailing data (extension fields) are accepted
	w = &bitWriter{}
	writeASC(w, a, true)
	for range r.IntN(20) {
		w.u(1, r.Uint64()&1)
	}
	var dec2 mpeg4audio.AudioSpecificConfig
	err = dec2.Unmarshal(w.out())
	c.NoErr(err, "unmarshal of explicit rates")
	c.Check(dec2 == *a, "explicit rates: got %+v, want %+v", dec2, *a)
	// truncation
	for n := range len(want) {
		var d mpeg4audio.AudioSpecificConfig
		c.Check(d.Unmarshal(want[:n]) != nil, "truncated configuration accepted (%d of %d bytes)", n, len(want))
	}
	// unsupported values
	bad := &bitWriter{}
	switch r.IntN(4) {
	case 0:
		bad.u(5, pick(r, uint64(0), 1, 3, 4, 6, 17, 23, 31))
		bad.u(40, 0x1234567890)
	case 1:
		bad.u(5, 2)
		bad.u(4, uint64(13+r.IntN(2)))
		bad.u(40, 0x2222222222)
	case 2:
		bad.u(5, 2)
		bad.u(4, 4)
		bad.u(4, uint64(8+r.IntN(8)))
		bad.u(40, 0)
	case 3:
		bad.u(5, 5)
		bad.u(4, 4)
		bad.u(4, 2)
		if r.IntN(2) == 0 {
			bad.u(4, uint64(13+r.IntN(2)))
			bad.u(5, 2)
		} else {
			bad.u(4, 3)
			bad.u(5, pick(r, uint64(1), 3, 5, 29))
		}
		bad.u(40, 0)
	}
	var d mpeg4audio.AudioSpecificConfig
	c.Check(d.Unmarshal(bad.out()) != nil, "unsupported configuration accepted: %x", bad.out())
	c.Count("asc", 1)
	c.Distinct("asc", want)
	c.Sample("asc %+v -> %x", *a, want)
}

func genSMC(r *rand.Rand, onlyType0 bool) *mpeg4audio.StreamMuxConfig {
	s := &mpeg4audio.StreamMuxConfig{}
	if r.IntN(2) == 0 {
		s.NumSubFrames = uint(pick(r, 0, 1, 2, 3, 63, r.IntN(64)))
	}
	np := 1
	if r.IntN(3) == 0 {
		np = 1 + r.IntN(16)
	}
	for p := range np {
		pr := &mpeg4audio.StreamMuxConfigProgram{}
		nl := 1
		if r.IntN(3) == 0 {
			nl = 1 + r.IntN(8)
		}
		for l := range nl {
			la := &mpeg4audio.StreamMuxConfigLayer{}
			if (p == 0 && l == 0) || r.IntN(2) == 0 {
				la.AudioSpecificConfig = genASC(r)
			}
			if !onlyType0 {
				la.FrameLengthType = uint(r.IntN(8))
			}
			switch la.FrameLengthType {
			case 0:
				la.LatmBufferFullness = uint(r.IntN(256))
			case 1:
				la.FrameLength = uint(r.IntN(512))
			case 3, 4, 5:
				la.CELPframeLengthTableIndex = uint(r.IntN(64))
			case 6, 7:
				la.HVXCframeLengthTableIndex = r.IntN(2) == 0
			}
			pr.Layers = append(pr.Layers, la)
		}
		s.Programs = append(s.Programs, pr)
	}
	if !onlyType0 && r.IntN(2) == 0 {
		s.OtherDataPresent = true
		s.OtherDataLenBits = uint32(r.Uint64() >> uint(32+r.IntN(33)))
	}
	if r.IntN(2) == 0 {
		s.CRCCheckPresent = true
		s.CRCCheckSum = uint8(r.IntN(256))
	}
	return s
}

func writeSMC(w *bitWriter, s *mpeg4audio.StreamMuxConfig, explicit bool) {
	w.u(1, 0)
	w.u(1, 1)
	w.u(6, uint64(s.NumSubFrames))
	w.u(4, uint64(len(s.Programs)-1))
	for p, pr := range s.Programs {
		w.u(3, uint64(len(pr.Layers)-1))
		for l, la := range pr.Layers {
			if p != 0 || l != 0 {
				w.flag(la.AudioSpecificConfig == nil)
			}
			if la.AudioSpecificConfig != nil {
				writeASC(w, la.AudioSpecificConfig, explicit)
			}
			w.u(3, uint64(la.FrameLengthType))
			switch la.FrameLengthType {
			case 0:
				w.u(8, uint64(la.LatmBufferFullness))
			case 1:
				w.u(9, uint64(la.FrameLength))
			case 3, 4, 5:
				w.u(6, uint64(la.CELPframeLengthTableIndex))
			case 6, 7:
				w.flag(la.HVXCframeLengthTableIndex)
			}
		}
	}
	w.flag(s.OtherDataPresent)
	if s.OtherDataPresent {
		var digits []uint64
		v := uint64(s.OtherDataLenBits)
		for {
			digits = append(digits, v&0xFF)
			v >>= 8
			if v == 0 {
				break
			}
		}
		for i := len(digits) - 1; i >= 0; i-- {
			w.flag(i != 0)
			w.u(8, digits[i])
		}
	}
	w.flag(s.CRCCheckPresent)
	if s.CRCCheckPresent {
		w.u(8, uint64(s.CRCCheckSum))
	}
}

func c15SMC(c *Case) {
	r := c.R
	s := genSMC(r, false)
	w := &bitWriter{}
	writeSMC(w, s, false)
	want := w.out()
	c.Input("smc", want)
	enc, err := s.Marshal()
	c.NoErr(err, "marshal")
	c.Check(bytes.Equal(enc, want), "StreamMuxConfig encoding differs: got %x want %x", enc, want)
	var dec mpeg4audio.StreamMuxConfig
	err = dec.Unmarshal(enc)
	c.NoErr(err, "unmarshal")
	c.Check(deepEq(&dec, s), "round trip differs (encoding %x)", enc)
	w = &bitWriter{}
	writeSMC(w, s, true)
	var dec2 mpeg4audio.StreamMuxConfig
	err = dec2.Unmarshal(w.out())
	c.NoErr(err, "unmarshal of explicit rates")
	c.Check(deepEq(&dec2, s), "explicit rates: differs")
	// unread bytes are refused
	var d3 mpeg4audio.StreamMuxConfig
	c.Check(d3.Unmarshal(append(clone(enc), 0)) != nil, "unread bytes accepted")
	// unsupported layouts are refused
	for _, bit := range []byte{0x80, 0x40} {
		bad := clone(enc)
		bad[0] ^= bit
		var d mpeg4audio.StreamMuxConfig
		c.Input("unsupported", bad)
		c.Check(d.Unmarshal(bad) != nil, "unsupported layout (first byte %#x) accepted", bad[0])
		c.Count("smc_refused", 1)
	}
	// a configuration which cannot be represented is not written
	{
		s2 := *s
		s2.Programs = nil
		var all []*mpeg4audio.AudioSpecificConfig
		for _, p := range s.Programs {
			p2 := &mpeg4audio.StreamMuxConfigProgram{}
			for _, l := range p.Layers {
				l2 := *l
				if l.AudioSpecificConfig != nil {
					a2 := *l.AudioSpecificConfig
					l2.AudioSpecificConfig = &a2
					all = append(all, &a2)
				}
				p2.Layers = append(p2.Layers, &l2)
			}
			s2.Programs = append(s2.Programs, p2)
		}
		a := all[r.IntN(len(all))]
		a.ChannelCount, a.ChannelConfig = pick(r, 7, 9, 16, 255), 0
		_, err = s2.Marshal()
		c.Check(err != nil, "configuration with %d channels written", a.ChannelCount)
		_, err = a.Marshal()
		c.Check(err != nil, "audio configuration with %d channels written", a.ChannelCount)
		c.Count("smc_refused", 1)
	}
	// whatever is accepted is stable
	for range 3 {
		m := mutate(r, enc)
		c.Input("mutated", m)
		var a mpeg4audio.StreamMuxConfig
		if a.Unmarshal(m) != nil {
			continue
		}
		e, err := a.Marshal()
		c.NoErr(err, "re-marshal")
		var b mpeg4audio.StreamMuxConfig
		c.NoErr(b.Unmarshal(e), "re-unmarshal")
		c.Check(deepEq(&a, &b), "re-marshalled configuration differs: %x -> %x", m, e)
		c.Count("smc_stable", 1)
	}
	c.Count("smc", 1)
	c.Distinct("smc", want)
	c.Sample("smc %d programs, %d subframes -> %s", len(s.Programs), s.NumSubFrames+1, hexShort(want))
}

func c15AME(c *Case) {
	r := c.R
	s := genSMC(r, true)
	if len(s.Programs) > 4 {
		s.NumSubFrames %= 4
	}
	e := mpeg4audio.AudioMuxElement{StreamMuxConfig: s}
	e.MuxConfigPresent = r.IntN(2) == 0
	if e.MuxConfigPresent {
		e.UseSameStreamMux = r.IntN(2) == 0
	}
	e.Payloads = make([][][][]byte, s.NumSubFrames+1)
	w := &bitWriter{}
	if e.MuxConfigPresent {
		w.flag(e.UseSameStreamMux)
		if !e.UseSameStreamMux {
			writeSMC(w, s, false)
		}
	}
	total := 0
	big := r.IntN(60) == 0
	for i := range e.Payloads {
		e.Payloads[i] = make([][][]byte, len(s.Programs))
		for p := range s.Programs {
			e.Payloads[i][p] = make([][]byte, len(s.Programs[p].Layers))
			for l := range e.Payloads[i][p] {
				n := pick(r, 0, 1, 5, 254, 255, 256, 509, 510, 511, 765, r.IntN(2000))
				if big {
					n = pick(r, 16383, 16384, 16385, 16320, 32767, 32768, 65534, 65535, 65536, 65280, 16000+r.IntN(60000))
					c.Count("payload_big", 1)
				}
				if total > 20000 {
					n = r.IntN(4)
				}
				total += n
				e.Payloads[i][p][l] = payload(r, n)
				for n >= 255 {
					w.u(8, 255)
					n -= 255
				}
				w.u(8, uint64(n))
			}
		}
		for p := range e.Payloads[i] {
			for l := range e.Payloads[i][p] {
				w.bytes(e.Payloads[i][p][l])
			}
		}
	}
	w.align()
	want := w.out()
	c.Input("element", want)
	enc, err := e.Marshal()
	c.NoErr(err, "marshal")
	c.Check(bytes.Equal(enc, want), "AudioMuxElement encoding differs: got %s want %s", hexShort(enc), hexShort(want))
	dec := mpeg4audio.AudioMuxElement{MuxConfigPresent: e.MuxConfigPresent}
	if !e.MuxConfigPresent || e.UseSameStreamMux {
		var none mpeg4audio.AudioMuxElement
		none.MuxConfigPresent = e.MuxConfigPresent
		c.Check(none.Unmarshal(enc) != nil, "element without configuration accepted")
		dec.StreamMuxConfig = s
	} else if r.IntN(2) == 0 {
		dec.StreamMuxConfig = genSMC(r, true) // replaced by the in-band one
	}
	c.NoErr(dec.Unmarshal(enc), "unmarshal")
	c.Check(deepEq(dec.Payloads, e.Payloads), "payloads differ")
	c.Check(deepEq(dec.StreamMuxConfig, s), "configuration differs")
	c.Check(dec.UseSameStreamMux == e.UseSameStreamMux, "UseSameStreamMux differs")
	// truncated and extended elements are refused
	for range 3 {
		m := enc[:r.IntN(len(enc))]
		d := mpeg4audio.AudioMuxElement{MuxConfigPresent: e.MuxConfigPresent}
		if !e.MuxConfigPresent || e.UseSameStreamMux {
			d.StreamMuxConfig = s
		}
		c.Check(d.Unmarshal(m) != nil, "truncated element accepted: %d of %d bytes", len(m), len(enc))
	}
	if e.MuxConfigPresent && !e.UseSameStreamMux {
		// the same bits, but the element says that it has no configuration
		m := clone(enc)
		m[0] |= 0x80
		d := mpeg4audio.AudioMuxElement{MuxConfigPresent: true}
		c.Check(d.Unmarshal(m) != nil, "element that reuses a configuration accepted without one")
		c.Count("reuse_without_config", 1)
	}
	d := mpeg4audio.AudioMuxElement{MuxConfigPresent: e.MuxConfigPresent}
	if !e.MuxConfigPresent || e.UseSameStreamMux {
		d.StreamMuxConfig = s
	}
	c.Check(d.Unmarshal(append(clone(enc), 0x55)) != nil, "unread bytes accepted")
	c.Count("elements", 1)
	c.Count("payloads", int(s.NumSubFrames+1))
	c.Distinct("ame", want)
	c.Sample("ame inband=%v same=%v subframes=%d programs=%d bytes=%d", e.MuxConfigPresent, e.UseSameStreamMux, s.NumSubFrames+1, len(s.Programs), len(enc))
}

func refLOAS(buf []byte) ([][]byte, bool) {
	var out [][]byte
	for {
		if len(buf) < 3 || buf[0] != 0x56 || buf[1]&0xE0 != 0xE0 {
			return nil, false
		}
		n := int(buf[1]&0x1F)<<8 | int(buf[2])
		if len(buf) < 3+n {
			return nil, false
		}
		out = append(out, buf[3:3+n])
		buf = buf[3+n:]
		if len(buf) == 0 {
			return out, true
		}
	}
}

func c15LOAS(c *Case) {
	r := c.R
	var els [][]byte
	var want []byte
	count := 1 + r.IntN(6)
	many := r.IntN(150) == 0
	if many {
		count = pick(r, 33, 65, 129, 257, 1025, 2+r.IntN(1500))
	}
	for range count {
		n := pick(r, 0, 1, 2, 255, 256, 511, 512, r.IntN(600))
		if many {
			n = r.IntN(30)
		} else if r.IntN(10) == 0 {
			n = pick(r, 8191, 8190, 4096, 4095, 7936, r.IntN(8192))
		}
		el := payload(r, n)
		els = append(els, el)
		w := &bitWriter{}
		w.u(11, 0x2B7)
		w.u(13, uint64(n))
		want = append(want, w.out()...)
		want = append(want, el...)
	}
	in := cloneList(els)
	enc, err := mpeg4audio.AudioSyncStream{AudioMuxElements: in}.Marshal()
	c.NoErr(err, "marshal")
	c.Check(bytes.Equal(enc, want), "LOAS encoding differs: got %s want %s", hexShort(enc), hexShort(want))
	c.Check(equalList(in, els), "input modified")
	for i := range 5 {
		b := clone(enc)
		if i > 0 {
			b = mutate(r, enc)
		}
		orig := clone(b)
		c.Input("loas", orig)
		wantEls, ok := refLOAS(b)
		var d mpeg4audio.AudioSyncStream
		err = d.Unmarshal(b)
		c.Check(bytes.Equal(b, orig), "input modified")
		if ok {
			c.NoErr(err, "well-formed LOAS stream rejected")
			c.Check(equalList(d.AudioMuxElements, wantEls), "LOAS elements differ")
			c.Count("loas_accepted", 1)
		} else {
			c.Check(err != nil, "malformed LOAS stream accepted")
			c.Count("loas_rejected", 1)
		}
	}
	if r.IntN(4) == 0 { // an element that does not fit into the 13 bits of its length
		l := cloneList(els)
		l[r.IntN(len(l))] = make([]byte, pick(r, 8192, 8193, 16384, 65536, 8192+r.IntN(70000)))
		_, err = mpeg4audio.AudioSyncStream{AudioMuxElements: l}.Marshal()
		c.Check(err != nil, "element that does not fit into its length field accepted")
		c.Count("loas_too_long", 1)
	}
	c.Distinct("loas", want)
}

// c15Channels checks program config elements and channel counting.
func c15Channels(c *Case) {
	r := c.R
	pce := mpeg4audio.ProgramConfigElement{
		ElementInstanceTag: uint8(r.IntN(16)), ObjectType: uint8(r.IntN(4)), SamplingFrequencyIndex: uint8(r.IntN(16)),
		NumAssocDataElements: uint8(r.IntN(8)), NumValidCCElements: uint8(r.IntN(16)),
	}
	if r.IntN(2) == 0 {
		pce.NumFrontChannelElements = uint8(r.IntN(16))
		pce.NumSideChannelElements = uint8(r.IntN(16))
		pce.NumBackChannelElements = uint8(r.IntN(16))
		pce.NumLFEChannelElements = uint8(r.IntN(4))
	} else {
		switch r.IntN(4) {
		case 0:
			pce.NumFrontChannelElements = 1
		case 1:
			pce.NumSideChannelElements = 1
		case 2:
			pce.NumBackChannelElements = 1
		default:
			pce.NumLFEChannelElements = 1
		}
	}
	writePCE := func(w *bitWriter) {
		start := len(w.bits) - 3 // from the beginning of the raw data block
		_ = start
		w.u(4, uint64(pce.ElementInstanceTag))
		w.u(2, uint64(pce.ObjectType))
		w.u(4, uint64(pce.SamplingFrequencyIndex))
		w.u(4, uint64(pce.NumFrontChannelElements))
		w.u(4, uint64(pce.NumSideChannelElements))
		w.u(4, uint64(pce.NumBackChannelElements))
		w.u(2, uint64(pce.NumLFEChannelElements))
		w.u(3, uint64(pce.NumAssocDataElements))
		w.u(4, uint64(pce.NumValidCCElements))
		for _, n := range []int{4, 4, 3} {
			p := r.IntN(2) == 0
			w.flag(p)
			if p {
				w.u(n, r.Uint64())
			}
		}
		pce.ChannelCount = 0
		for range int(pce.NumFrontChannelElements) + int(pce.NumSideChannelElements) + int(pce.NumBackChannelElements) {
			cpe := r.IntN(2) == 0
			w.flag(cpe)
			w.u(4, r.Uint64())
			pce.ChannelCount++
			if cpe {
				pce.ChannelCount++
			}
		}
		for range pce.NumLFEChannelElements {
			w.u(4, r.Uint64())
			pce.ChannelCount++
		}
		for range pce.NumAssocDataElements {
			w.u(4, r.Uint64())
		}
		for range pce.NumValidCCElements {
			w.u(5, r.Uint64())
		}
		w.align()
		n := r.IntN(5)
		w.u(8, uint64(n))
		w.bytes(randBytes(r, n))
	}
	w := &bitWriter{}
	w.u(3, 5)
	writePCE(w)
	w.u(3, 7)
	w.align()
	buf := w.out()
	c.Input("pce", buf)
	got, err := mpeg4audio.ParsePCEFromRawDataBlock(buf)
	if pce.ChannelCount == 0 {
		c.Check(err != nil, "PCE without channels accepted")
		c.Count("pce_empty", 1)
	} else {
		c.NoErr(err, "ParsePCEFromRawDataBlock")
		c.Check(*got == pce, "PCE differs: got %+v, want %+v", *got, pce)
		c.Count("pce", 1)
	}
	// a program config element which ends before its channels is refused
	if pce.ChannelCount > 0 {
		need := 3 + 4 + 2 + 4 + 4 + 4 + 4 + 2 + 3 + 4
		pos := need
		for _, n := range []int{4, 4, 3} {
			f := buf[pos/8]>>(7-pos%8)&1 == 1
			pos++
			if f {
				pos += n
			}
		}
		pos += 5*(int(pce.NumFrontChannelElements)+int(pce.NumSideChannelElements)+int(pce.NumBackChannelElements)) +
			4*int(pce.NumLFEChannelElements)
		for range 3 {
			cut := r.IntN((pos + 7) / 8)
			if cut*8 >= pos {
				continue
			}
			_, err = mpeg4audio.ParsePCEFromRawDataBlock(clone(buf[:cut]))
			c.Check(err != nil, "program config element cut at byte %d of %d accepted", cut, (pos+7)/8)
			_, err = mpeg4audio.CountChannelsFromRawDataBlock(clone(buf[:cut]))
			c.Check(err != nil, "channels counted in a program config element cut at byte %d of %d", cut, (pos+7)/8)
			c.Count("pce_cut", 1)
		}
	}
	// another element is not a PCE
	other := clone(buf)
	other[0] = other[0]&0x1F | pick(r, byte(0), 1, 2, 3, 4, 6, 7)<<5
	_, err = mpeg4audio.ParsePCEFromRawDataBlock(other)
	c.Check(err != nil, "non-PCE accepted as PCE")

	// channel counting: data and fill elements are skipped
	w = &bitWriter{}
	for range pick(r, 0, 1, 2, 3, r.IntN(12)) {
		if r.IntN(2) == 0 {
			w.u(3, 4)
			w.u(4, r.Uint64())
			al := r.IntN(2) == 0
			w.flag(al)
			n := pick(r, 0, 0, 1, 5, 254, 255, 256, 400, 510)
			if n >= 255 {
				w.u(8, 255)
				w.u(8, uint64(n-255))
			} else {
				w.u(8, uint64(n))
			}
			if al {
				w.align()
			}
			w.bytes(randBytes(r, n))
			c.Count("dse", 1)
		} else {
			w.u(3, 6)
			n := pick(r, 0, 0, 0, 1, 14, 15, 16, 100, 269)
			if n >= 15 {
				w.u(4, 15)
				w.u(8, uint64(n-15+1))
			} else {
				w.u(4, uint64(n))
			}
			w.bytes(randBytes(r, n))
			c.Count("fil", 1)
		}
	}
	want := -1
	head := len(w.bits)
	switch el := r.IntN(6); el {
	case 0:
		w.u(3, 0)
		want = 1
		w.u(40, r.Uint64())
	case 1:
		w.u(3, 1)
		want = 2
		w.u(40, r.Uint64())
	case 2:
		w.u(3, 3)
		want = 1
		w.u(40, r.Uint64())
	case 3:
		w.u(3, 5)
		writePCE(w)
		want = pce.ChannelCount
		if want == 0 {
			want = -1
		}
	case 4:
		w.u(3, 2)
		w.u(40, r.Uint64())
	case 5:
		w.u(3, 7)
		w.align()
	}
	if want < 0 && r.IntN(2) == 0 {
		// the block ends without an END element
		w = &bitWriter{}
		head = 0
		switch r.IntN(3) {
		case 0:
			w.u(3, 6) // an empty fill element
			w.u(4, 0)
			w.u(1, 0)
		case 1:
			w.u(3, 4) // a data element that reaches the end of the block
			w.u(4, r.Uint64())
			w.u(1, 1)
			w.u(8, 2)
			w.bytes(randBytes(r, 2))
		default:
			w.u(3, 6)
			w.u(4, 1)
			w.u(9, r.Uint64())
		}
		c.Count("rdb_no_end", 1)
	}
	buf = w.out()
	c.Input("rdb", buf)
	n, err := mpeg4audio.CountChannelsFromRawDataBlock(buf)
	if want < 0 {
		c.Check(err != nil, "channel count %d found where there is none", n)
	} else {
		c.NoErr(err, "CountChannelsFromRawDataBlock")
		c.Check(n == want, "channel count %d, want %d", n, want)
		c.Count("channel_counts", 1)
	}
	// a block which ends before its first channel element has no channels, wherever it ends
	for i := range 12 {
		cut := (head+6)/8 - i
		if i > 3 {
			cut = r.IntN((head+6)/8 + 1)
		}
		if cut < 0 || cut*8 >= head+7 {
			continue
		}
		n, err = mpeg4audio.CountChannelsFromRawDataBlock(clone(buf[:cut]))
		c.Check(err != nil, "%d channels counted in a block cut at byte %d, the first channel element is at bit %d", n, cut, head)
		c.Count("rdb_cut", 1)
	}
	c.Distinct("rdb", buf)
	c.Sample("pce=%+v rdb=%s channels=%d", pce, hexShort(buf), want)
}

func init() {
	register(&Property{
		ID: "C15",
		Rule: "random configurations over all object types, rates, channel configurations, program/layer/subframe counts and payload sizes around multiples of 255, " +
			"compared bit by bit with a reference writer, decoded, truncated and extended; distinct by encoding",
		Families: []Family{
			{"asc", 30000, 2000000, c15ASC},
			{"smc", 20000, 1000000, c15SMC},
			{"ame", 6000, 300000, c15AME},
			{"loas", 8000, 400000, c15LOAS},
			{"channels", 20000, 1000000, c15Channels},
		},
		Require: []string{"asc", "smc", "smc_stable", "elements", "loas_accepted", "loas_rejected", "pce", "channel_counts", "dse", "fil",
			"smc_refused", "pce_cut", "rdb_cut", "loas_too_long", "payload_big", "reuse_without_config", "rdb_no_end"},
	})
}
