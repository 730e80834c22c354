package main

import (
	"bytes"
	"encoding/binary"
	"math/rand/v2"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/av1"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/flac"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/jpeg"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/opus"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/substructs"
)

// edge returns values in [0, 2^n) with a bias towards extremes and single bits.
func edge(r *rand.Rand, n int) uint64 {
	m := uint64(1)<<uint(n) - 1
	switch r.IntN(8) {
	case 0:
		return 0
	case 1:
		return m
	case 2:
		return uint64(1) << uint(r.IntN(n))
	case 3:
		return m &^ (uint64(1) << uint(r.IntN(n)))
	case 4:
		return uint64(r.IntN(3)) & m
	case 5:
		return r.Uint64() & (uint64(1)<<uint(1+r.IntN(n)) - 1)
	default:
		return r.Uint64() & m
	}
}

// eqBytes treats nil and empty slices as equal.
func eqBytes(a, b []byte) bool { return bytes.Equal(a, b) }

func c16FLAC(c *Case) {
	r := c.R
	s := flac.StreamInfo{
		MinBlockSize: uint16(edge(r, 16)),
		MaxBlockSize: uint16(edge(r, 16)),
		MinFrameSize: uint32(edge(r, 24)),
		MaxFrameSize: uint32(edge(r, 24)),
		SampleRate:   uint32(edge(r, 20)),
		ChannelCount: uint8(1 + r.IntN(8)),
		BitDepth:     uint8(4 + r.IntN(29)),
		TotalSamples: edge(r, 36),
	}
	copy(s.MD5[:], payload(r, 16))
	// RFC 9639, 8.2
	w := &bitWriter{}
	w.u(16, uint64(s.MinBlockSize))
	w.u(16, uint64(s.MaxBlockSize))
	w.u(24, uint64(s.MinFrameSize))
	w.u(24, uint64(s.MaxFrameSize))
	w.u(20, uint64(s.SampleRate))
	w.u(3, uint64(s.ChannelCount-1))
	w.u(5, uint64(s.BitDepth-1))
	w.u(36, s.TotalSamples)
	w.bytes(s.MD5[:])
	want := w.out()
	c.Input("want", want)
	got, err := s.Marshal()
	c.NoErr(err, "Marshal")
	c.Check(bytes.Equal(got, want), "StreamInfo %+v written as %x, want %x", s, got, want)
	var s2 flac.StreamInfo
	c.NoErr(s2.Unmarshal(want), "Unmarshal")
	c.Check(s2 == s, "read %+v, want %+v", s2, s)
	cut := r.IntN(len(want))
	c.Check((&flac.StreamInfo{}).Unmarshal(want[:cut]) != nil, "truncated StreamInfo (%d bytes) accepted", cut)
	c.Count("flac", 1)
	c.Distinct("flac", want)
	c.Sample("%+v", s)
}

func c16OpusID(c *Case) {
	r := c.R
	h := opus.IDHeader{
		Version:              1,
		ChannelCount:         uint8(edge(r, 8)),
		PreSkip:              uint16(edge(r, 16)),
		InputSampleRate:      uint32(edge(r, 32)),
		OutputGain:           uint16(edge(r, 16)),
		ChannelMappingFamily: uint8(edge(r, 8)),
	}
	if r.IntN(2) == 0 {
		h.ChannelMappingTable = payload(r, r.IntN(12))
	}
	layout := func(order binary.AppendByteOrder) []byte {
		b := []byte("OpusHead")
		b = append(b, 1, h.ChannelCount)
		b = order.AppendUint16(b, h.PreSkip)
		b = order.AppendUint32(b, h.InputSampleRate)
		b = order.AppendUint16(b, h.OutputGain)
		b = append(b, h.ChannelMappingFamily)
		return append(b, h.ChannelMappingTable...)
	}
	le, be := layout(binary.LittleEndian), layout(binary.BigEndian)
	got, err := h.Marshal()
	c.NoErr(err, "Marshal")
	c.Input("got", got)
	// the byte order is decided by opus_id_order
	c.Check(bytes.Equal(got, le) || bytes.Equal(got, be), "ID header %+v written as %x, want %x", h, got, le)
	var h2 opus.IDHeader
	c.NoErr(h2.Unmarshal(got), "Unmarshal")
	c.Check(eqBytes(h.ChannelMappingTable, h2.ChannelMappingTable), "mapping table %x, want %x", h2.ChannelMappingTable, h.ChannelMappingTable)
	h2.ChannelMappingTable = h.ChannelMappingTable
	c.Check(deepEq(h2, h), "read %+v, want %+v", h2, h)
	cut := r.IntN(19)
	c.Check((&opus.IDHeader{}).Unmarshal(got[:cut]) != nil, "truncated header (%d bytes) accepted", cut)
	i := r.IntN(9)
	bad := clone(got)
	bad[i] ^= byte(1 + r.IntN(255))
	c.Check((&opus.IDHeader{}).Unmarshal(bad) != nil, "header with corrupted signature or version %x accepted", bad)
	c.Count("opus_id", 1)
	c.Distinct("opusid", got)
	c.Sample("%+v", h)
}

// RFC 7845, 5.1: multi-byte fields of the identification header are little-endian.
func c16OpusIDOrder(c *Case) {
	b := []byte("OpusHead\x01\x02\x38\x01\x80\xbb\x00\x00\x00\x01\x00")
	c.Input("buf", b)
	var h opus.IDHeader
	c.NoErr(h.Unmarshal(b), "Unmarshal")
	c.Count("opus_id_order", 1)
	c.Distinct("order")
	if h.PreSkip == 0x3801 && h.InputSampleRate == 0x80bb0000 && h.OutputGain == 1 {
		c.FailKeyf("opus-id-header-byte-order", "opus.IDHeader reads and writes PreSkip, InputSampleRate and OutputGain as big-endian; RFC 7845 section 5.1 prescribes little-endian")
	}
	c.Check(h.PreSkip == 312 && h.InputSampleRate == 48000 && h.OutputGain == 256, "read %+v", h)
}

func c16JPEG(c *Case) {
	r := c.R
	prefix := payload(r, r.IntN(5))
	switch c.Idx % 6 {
	case 0: // quantization tables
		var m jpeg.DefineQuantizationTable
		n := 1 + r.IntN(4)
		ids := r.Perm(16)
		want := append(clone(prefix), 0xFF, 0xDB, byte((2+65*n)>>8), byte(2+65*n))
		for i := range n {
			t := jpeg.QuantizationTable{ID: uint8(ids[i]), Data: payload(r, 64)}
			m.Tables = append(m.Tables, t)
			want = append(want, t.ID)
			want = append(want, t.Data...)
		}
		got := m.Marshal(clone(prefix))
		c.Input("got", got)
		c.Check(bytes.Equal(got, want), "DQT written as %x, want %x", got, want)
		var m2 jpeg.DefineQuantizationTable
		c.NoErr(m2.Unmarshal(want[len(prefix)+4:]), "DQT Unmarshal")
		c.Check(deepEq(m2, m), "DQT read %+v, want %+v", m2, m)
		cut := 1 + r.IntN(64)
		c.Check((&jpeg.DefineQuantizationTable{}).Unmarshal(want[len(prefix)+4:len(want)-cut]) != nil,
			"DQT with an incomplete table accepted")
		bad := clone(want[len(prefix)+4:])
		bad[65*r.IntN(n)] |= byte(1+r.IntN(15)) << 4
		c.Check((&jpeg.DefineQuantizationTable{}).Unmarshal(bad) != nil, "DQT with unsupported precision accepted")
		c.Count("dqt", 1)
		c.Distinct("dqt", want)
	case 1: // start of frame
		m := jpeg.StartOfFrame1{
			Type: uint8(r.IntN(2)), Width: int(edge(r, 16)), Height: int(edge(r, 16)),
			QuantizationTableCount: uint8(1 + r.IntN(2)),
		}
		samp := byte(0x21)
		if m.Type == 1 {
			samp = 0x22
		}
		q := byte(0)
		if m.QuantizationTableCount == 2 {
			q = 1
		}
		want := append(clone(prefix), 0xFF, 0xC0, 0, 17, 8, byte(m.Height>>8), byte(m.Height), byte(m.Width>>8), byte(m.Width), 3,
			0, samp, 0, 1, 0x11, q, 2, 0x11, q)
		got := m.Marshal(clone(prefix))
		c.Input("got", got)
		c.Check(bytes.Equal(got, want), "SOF written as %x, want %x", got, want)
		body := want[len(prefix)+4:]
		var m2 jpeg.StartOfFrame1
		c.NoErr(m2.Unmarshal(body), "SOF Unmarshal")
		m2.QuantizationTableCount = m.QuantizationTableCount
		c.Check(m2 == m, "SOF read %+v, want %+v", m2, m)
		// what the structure cannot represent is rejected
		i := pick(r, 0, 5, 7, 10, 13)
		bad := clone(body)
		for bad[i] == body[i] || (i == 7 && (bad[i] == 0x21 || bad[i] == 0x22)) {
			bad[i] = byte(r.IntN(256))
		}
		c.Check((&jpeg.StartOfFrame1{}).Unmarshal(bad) != nil, "SOF %x accepted", bad)
		c.Check((&jpeg.StartOfFrame1{}).Unmarshal(body[:r.IntN(15)]) != nil, "truncated SOF accepted")
		c.Count("sof", 1)
		c.Distinct("sof", want)
	case 2:
		v := uint16(edge(r, 16))
		var m jpeg.DefineRestartInterval
		c.NoErr(m.Unmarshal([]byte{byte(v >> 8), byte(v)}), "DRI")
		c.Check(m.Interval == v, "DRI interval %d, want %d", m.Interval, v)
		c.Check((&jpeg.DefineRestartInterval{}).Unmarshal(make([]byte, pick(r, 0, 1, 3, 4))) != nil, "DRI of invalid size accepted")
		c.Count("dri", 1)
		c.Distinct("dri", v)
	case 3: // scan, image
		want := append(clone(prefix), 0xFF, 0xDA, 0, 12, 3, 0, 0, 1, 0x11, 2, 0x11, 0, 63, 0)
		got := jpeg.StartOfScan{}.Marshal(clone(prefix))
		c.Check(bytes.Equal(got, want), "SOS written as %x, want %x", got, want)
		c.NoErr(jpeg.StartOfScan{}.Unmarshal(got[len(prefix)+4:]), "SOS Unmarshal")
		c.Check(jpeg.StartOfScan{}.Unmarshal(got[len(prefix)+5:]) != nil, "truncated SOS accepted")
		want = append(clone(prefix), 0xFF, 0xD8)
		got = jpeg.StartOfImage{}.Marshal(clone(prefix))
		c.Check(bytes.Equal(got, want), "SOI written as %x, want %x", got, want)
		c.Count("sos", 1)
		c.Distinct("sos", prefix)
	default: // huffman table: T.81, B.2.4.2
		m := jpeg.DefineHuffmanTable{
			Codes: payload(r, 16), Symbols: payload(r, r.IntN(257)),
			TableNumber: r.IntN(4), TableClass: r.IntN(2),
		}
		s := 2 + 1 + 16 + len(m.Symbols)
		want := append(clone(prefix), 0xFF, 0xC4, byte(s>>8), byte(s), byte(m.TableClass)<<4|byte(m.TableNumber))
		want = append(want, m.Codes...)
		want = append(want, m.Symbols...)
		got := m.Marshal(clone(prefix))
		c.Input("got", got)
		c.Check(bytes.Equal(got, want), "DHT written as %x, want %x", got, want)
		c.Count("dht", 1)
		c.Distinct("dht", want)
	}
}

// every first byte of an OBU, with random trailing data.
func c16OBU(c *Case) {
	r := c.R
	for b := range 256 {
		buf := append([]byte{byte(b)}, payload(r, r.IntN(4))...)
		var h av1.OBUHeader
		err := h.Unmarshal(buf)
		forbidden, ext := b&0x80 != 0, b&4 != 0
		if forbidden || ext {
			// extensions are documented as unsupported
			c.Check(err != nil, "OBU header %x accepted", buf)
		} else {
			c.NoErr(err, "OBUHeader")
			c.Check(int(h.Type) == (b>>3)&15 && h.HasSize == (b&2 != 0), "OBU header %02x read as %+v", b, h)
			c.Count("obu", 1)
		}
		c.Distinct("obu", b)
	}
	c.Eval(255)
	c.Check((&av1.OBUHeader{}).Unmarshal(nil) != nil, "empty OBU header accepted")
}

func c16LEB(c *Case) {
	r := c.R
	v := uint32(edge(r, 32))
	if r.IntN(3) == 0 {
		sh := 7 * (1 + r.IntN(4))
		v = uint32(int64(1)<<uint(sh) + int64(r.IntN(3)) - 1)
	}
	want := binary.AppendUvarint(nil, uint64(v))
	l := av1.LEB128(v)
	c.Check(l.MarshalSize() == len(want), "LEB128 %d declared size %d, want %d", v, l.MarshalSize(), len(want))
	buf := make([]byte, len(want)+3)
	n := l.MarshalTo(buf)
	c.Check(n == len(want) && bytes.Equal(buf[:n], want), "LEB128 %d written as %x, want %x", v, buf[:n], want)
	var l2 av1.LEB128
	n, err := l2.Unmarshal(append(clone(want), payload(r, r.IntN(3))...))
	c.NoErr(err, "LEB128")
	c.Check(n == len(want) && l2 == l, "LEB128 %x read as %d (%d bytes), want %d", want, l2, n, v)
	// padded form, up to 8 bytes
	pad := clone(want)
	for len(pad) < 8 && r.IntN(3) != 0 {
		pad[len(pad)-1] |= 0x80
		pad = append(pad, 0)
	}
	n, err = l2.Unmarshal(pad)
	c.NoErr(err, "padded LEB128")
	c.Check(n == len(pad) && l2 == l, "LEB128 %x read as %d (%d bytes), want %d", pad, l2, n, v)
	_, err = l2.Unmarshal(pad[:len(pad)-1])
	c.Check(err != nil, "truncated LEB128 accepted")
	c.Count("leb128", 1)
	c.Distinct("leb", pad)
}

func c16Metadata(c *Case) {
	r := c.R
	switch c.Idx % 3 {
	case 0:
		size := pick(r, 0, 1, r.IntN(300), 255, 256, 65534, 65535)
		m := substructs.MetadataAUCell{
			MetadataServiceID: uint8(edge(r, 8)), SequenceNumber: uint8(edge(r, 8)),
			CellFragmentIndication: uint8(r.IntN(4)),
			DecoderConfigFlag:      r.IntN(2) == 0, RandomAccessIndicator: r.IntN(2) == 0,
			AUCellData: payload(r, size),
		}
		w := &bitWriter{}
		w.u(8, uint64(m.MetadataServiceID))
		w.u(8, uint64(m.SequenceNumber))
		w.u(2, uint64(m.CellFragmentIndication))
		w.flag(m.DecoderConfigFlag)
		w.flag(m.RandomAccessIndicator)
		w.u(4, 15)
		w.u(16, uint64(size))
		want := append(w.out(), m.AUCellData...)
		buf := make([]byte, len(want))
		n, err := m.MarshalTo(buf)
		c.NoErr(err, "MetadataAUCell")
		c.Check(n == len(want) && bytes.Equal(buf[:n], want), "MetadataAUCell written as %s, want %s", hexShort(buf[:n]), hexShort(want))
		var m2 substructs.MetadataAUCell
		n, err = m2.Unmarshal(append(clone(want), payload(r, r.IntN(4))...))
		c.NoErr(err, "MetadataAUCell")
		c.Check(n == len(want), "MetadataAUCell: %d bytes consumed, want %d", n, len(want))
		c.Check(deepEq(m2, m), "MetadataAUCell read %+v, want %+v", m2, m)
		_, err = m2.Unmarshal(want[:r.IntN(len(want))])
		c.Check(err != nil, "truncated MetadataAUCell accepted")
		c.Count("au_cell", 1)
		c.Distinct("cell", want)
	case 1:
		m := substructs.MetadataDescriptor{
			MetadataApplicationFormat: uint16(edge(r, 16)),
			MetadataFormat:            uint8(edge(r, 8)),
			MetadataServiceID:         uint8(edge(r, 8)),
			DecoderConfigFlags:        pick(r, uint8(0), 1, 2, 3, 4, 7),
			DSMCCFlag:                 r.IntN(2) == 0,
			ServiceIdentification:     []byte{}, DecoderConfig: []byte{}, DecConfigIdentification: []byte{},
			PrivateData: payload(r, r.IntN(10)),
		}
		// ISO 13818-1, 2.6.60
		w := &bitWriter{}
		w.u(16, uint64(m.MetadataApplicationFormat))
		if m.MetadataApplicationFormat == 0xFFFF {
			m.MetadataApplicationFormatIdentifier = uint32(edge(r, 32))
			w.u(32, uint64(m.MetadataApplicationFormatIdentifier))
		}
		w.u(8, uint64(m.MetadataFormat))
		if m.MetadataFormat == 0xFF {
			m.MetadataFormatIdentifier = uint32(edge(r, 32))
			w.u(32, uint64(m.MetadataFormatIdentifier))
		}
		w.u(8, uint64(m.MetadataServiceID))
		w.u(3, uint64(m.DecoderConfigFlags))
		w.flag(m.DSMCCFlag)
		w.u(4, 15)
		lengthPrefixed := func() []byte {
			b := payload(r, pick(r, 0, 1, r.IntN(30), 255))
			w.u(8, uint64(len(b)))
			w.bytes(b)
			return b
		}
		if m.DSMCCFlag {
			m.ServiceIdentification = lengthPrefixed()
		}
		switch m.DecoderConfigFlags {
		case 1:
			m.DecoderConfig = lengthPrefixed()
		case 3:
			m.DecConfigIdentification = lengthPrefixed()
		case 4:
			m.DecoderConfigMetadataServiceID = uint8(edge(r, 8))
			w.u(8, uint64(m.DecoderConfigMetadataServiceID))
		}
		mandatory := len(w.out())
		w.bytes(m.PrivateData)
		want := w.out()
		c.Input("want", want)
		got, err := m.Marshal()
		c.NoErr(err, "MetadataDescriptor")
		c.Check(bytes.Equal(got, want), "MetadataDescriptor %+v written as %x, want %x", m, got, want)
		var m2 substructs.MetadataDescriptor
		c.NoErr(m2.Unmarshal(want), "MetadataDescriptor")
		norm := func(b *[]byte) {
			if *b == nil {
				*b = []byte{}
			}
		}
		norm(&m2.ServiceIdentification)
		norm(&m2.DecoderConfig)
		norm(&m2.DecConfigIdentification)
		norm(&m2.PrivateData)
		c.Check(deepEq(m2, m), "MetadataDescriptor read %+v, want %+v", m2, m)
		c.Check((&substructs.MetadataDescriptor{}).Unmarshal(want[:r.IntN(mandatory)]) != nil, "truncated MetadataDescriptor accepted")
		c.Count("metadata_descriptor", 1)
		c.Distinct("md", want)
		c.Sample("%+v", m)
	case 2:
		m := substructs.MetadataSTDDescriptor{
			MetadataInputLeakRate: uint32(edge(r, 22)), MetadataBufferSize: uint32(edge(r, 22)), MetadataOutputLeakRate: uint32(edge(r, 22)),
		}
		w := &bitWriter{}
		for _, v := range []uint32{m.MetadataInputLeakRate, m.MetadataBufferSize, m.MetadataOutputLeakRate} {
			w.u(2, 3)
			w.u(22, uint64(v))
		}
		want := w.out()
		got, err := m.Marshal()
		c.NoErr(err, "MetadataSTDDescriptor")
		c.Check(bytes.Equal(got, want), "MetadataSTDDescriptor %+v written as %x, want %x", m, got, want)
		var m2 substructs.MetadataSTDDescriptor
		c.NoErr(m2.Unmarshal(want), "MetadataSTDDescriptor")
		c.Check(m2 == m, "MetadataSTDDescriptor read %+v, want %+v", m2, m)
		// reserved bits are ignored
		res := clone(want)
		for i := 0; i < 9; i += 3 {
			res[i] ^= byte(r.IntN(4)) << 6
		}
		m2 = substructs.MetadataSTDDescriptor{}
		c.NoErr(m2.Unmarshal(res), "MetadataSTDDescriptor")
		c.Check(m2 == m, "MetadataSTDDescriptor %x read as %+v, want %+v", res, m2, m)
		c.Check(m2.Unmarshal(want[:r.IntN(9)]) != nil, "truncated MetadataSTDDescriptor accepted")
		c.Count("std_descriptor", 1)
		c.Distinct("std", want)
	}
}

func c16OpusTS(c *Case) {
	r := c.R
	if c.Idx%2 == 0 {
		size := pick(r, 0, 1, 253, 254, 255, 256, 257, 509, 510, 511, 764, 765, 766, 1275, r.IntN(3000))
		h := substructs.OpusControlHeader{
			PayloadSize:   size,
			StartTrimFlag: r.IntN(2) == 0, EndTrimFlag: r.IntN(2) == 0, ControlExtensionFlag: r.IntN(3) == 0,
		}
		w := &bitWriter{}
		w.u(11, 0x3ff)
		w.flag(h.StartTrimFlag)
		w.flag(h.EndTrimFlag)
		w.flag(h.ControlExtensionFlag)
		w.u(2, 0)
		for s := size; ; s -= 255 {
			if s < 255 {
				w.u(8, uint64(s))
				break
			}
			w.u(8, 255)
		}
		if h.StartTrimFlag {
			h.StartTrim = uint16(edge(r, 13))
			w.u(3, 0)
			w.u(13, uint64(h.StartTrim))
		}
		if h.EndTrimFlag {
			h.EndTrim = uint16(edge(r, 13))
			w.u(3, 0)
			w.u(13, uint64(h.EndTrim))
		}
		if h.ControlExtensionFlag {
			h.ControlExtensionLength = uint8(edge(r, 8))
			w.u(8, uint64(h.ControlExtensionLength))
			for range h.ControlExtensionLength {
				w.u(8, 0)
			}
		}
		au := substructs.OpusAccessUnit{ControlHeader: h, Packet: payload(r, size)}
		want := append(w.out(), au.Packet...)
		c.Input("want", want)
		c.Check(au.MarshalSize() == len(want), "declared size %d, want %d", au.MarshalSize(), len(want))
		buf := make([]byte, len(want))
		n, err := au.MarshalTo(buf)
		c.NoErr(err, "OpusAccessUnit")
		c.Check(n == len(want) && bytes.Equal(buf, want), "OpusAccessUnit written as %s, want %s", hexShort(buf[:n]), hexShort(want))
		var au2 substructs.OpusAccessUnit
		n, err = au2.Unmarshal(append(clone(want), payload(r, r.IntN(4))...))
		c.NoErr(err, "OpusAccessUnit")
		c.Check(n == len(want), "%d bytes consumed, want %d", n, len(want))
		c.Check(eqBytes(au2.Packet, au.Packet), "packet %s, want %s", hexShort(au2.Packet), hexShort(au.Packet))
		c.Check(au2.ControlHeader == h, "control header %+v, want %+v", au2.ControlHeader, h)
		_, err = (&substructs.OpusAccessUnit{}).Unmarshal(want[:r.IntN(len(want))])
		c.Check(err != nil, "truncated OpusAccessUnit accepted")
		au.ControlHeader.PayloadSize += pick(r, -1, 1)
		if au.ControlHeader.PayloadSize >= 0 {
			_, err = au.MarshalTo(make([]byte, len(want)+10))
			c.Check(err != nil, "OpusAccessUnit with PayloadSize different from the packet size written")
		}
		c.Count("opus_au", 1)
		c.Distinct("au", want)
		return
	}
	d := substructs.OpusAudioDescriptor{ChannelConfigCode: uint8(1 + r.IntN(8))}
	w := &bitWriter{}
	count := int(d.ChannelConfigCode)
	if r.IntN(4) != 0 {
		d.ChannelConfigCode = 0x81
		d.ExplicitChannelCount = pick(r, 1, 2, 3, 4, 8, 9, 255, 1+r.IntN(255))
		d.MappingFamily = pick(r, 1, 2, 3, 255, 1+r.IntN(255))
		if d.ExplicitChannelCount <= 2 && r.IntN(2) == 0 {
			d.MappingFamily = 0
		}
		count = d.ExplicitChannelCount
		w.u(8, 0x81)
		w.u(8, uint64(count))
		w.u(8, uint64(d.MappingFamily))
		if d.MappingFamily != 0 {
			d.StreamCount = 1 + r.IntN(count)
			d.CoupledStreamCount = r.IntN(d.StreamCount + 1)
			for d.StreamCount+d.CoupledStreamCount > 255 {
				d.StreamCount = 1 + r.IntN(count)
				d.CoupledStreamCount = r.IntN(d.StreamCount + 1)
			}
			w.u(clog2(count), uint64(d.StreamCount-1))
			w.u(clog2(d.StreamCount+1), uint64(d.CoupledStreamCount))
			d.ChannelMapping = make([]byte, count)
			for i := range d.ChannelMapping {
				d.ChannelMapping[i] = byte(r.IntN(d.StreamCount + d.CoupledStreamCount + 1))
				w.u(clog2(d.StreamCount+d.CoupledStreamCount+1), uint64(d.ChannelMapping[i]))
			}
			c.Count("explicit_mapping", 1)
		}
	} else {
		w.u(8, uint64(d.ChannelConfigCode))
	}
	want := w.out()
	c.Input("want", want)
	got, err := d.Marshal()
	c.NoErr(err, "OpusAudioDescriptor")
	c.Check(bytes.Equal(got, want), "OpusAudioDescriptor %+v written as %x, want %x", d, got, want)
	var d2 substructs.OpusAudioDescriptor
	c.NoErr(d2.Unmarshal(want), "OpusAudioDescriptor")
	c.Check(deepEq(d2, d), "OpusAudioDescriptor read %+v, want %+v", d2, d)
	c.Check(d2.ChannelCount() == count, "%d channels, want %d", d2.ChannelCount(), count)
	c.Check((&substructs.OpusAudioDescriptor{}).Unmarshal(want[:r.IntN(len(want))]) != nil, "truncated OpusAudioDescriptor accepted")
	c.Count("opus_descriptor", 1)
	c.Distinct("od", want)
	c.Sample("%+v", d)
}

func clog2(n int) int {
	v := 0
	for 1<<uint(v) < n {
		v++
	}
	return v
}

func init() {
	register(&Property{
		ID: "C16",
		Rule: "structures with random and extreme field values, written with the library and with an independent bit writer, read back, truncated and corrupted; " +
			"all 256 OBU header bytes; distinct by encoding",
		Families: []Family{
			{"flac", 20000, 2000000, c16FLAC},
			{"opus_id", 20000, 2000000, c16OpusID},
			{"opus_id_order", 1, 1, c16OpusIDOrder},
			{"jpeg", 30000, 2000000, c16JPEG},
			{"obu", 16, 1000, c16OBU},
			{"leb128", 40000, 4000000, c16LEB},
			{"metadata", 30000, 2000000, c16Metadata},
			{"opus_ts", 40000, 3000000, c16OpusTS},
		},
		Require: []string{"flac", "opus_id", "dqt", "sof", "dri", "sos", "dht", "obu", "leb128", "au_cell", "metadata_descriptor", "std_descriptor", "opus_au", "opus_descriptor", "explicit_mapping"},
	})
}
