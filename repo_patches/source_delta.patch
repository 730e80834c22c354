From dec63a748e522ca84f83c9ef1011102249bc5bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 01/51] fix: bits: do not read outside of the buffer when
 reading zero bits at its end

---
 pkg/bits/read.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/bits/read.go b/pkg/bits/read.go
index e6bf762..c55df16 100644
--- a/pkg/bits/read.go
+++ b/pkg/bits/read.go
@@ -25,6 +25,10 @@ func ReadBits(buf []byte, pos *int, n int) (uint64, error) {
 
 // ReadBitsUnsafe reads N bits.
 func ReadBitsUnsafe(buf []byte, pos *int, n int) uint64 {
+	if n == 0 {
+		return 0
+	}
+
 	res := 8 - (*pos & 0x07)
 	if n < res {
 		v := uint64((buf[*pos>>0x03] >> (res - n)) & (1<<n - 1))
-- 
2.43.0


From 4987636cf2294b22a888820ce62cae74813f0166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 02/51] fix: bits: prevent overflows when reading signed
 golomb-encoded values

---
 pkg/bits/read.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/bits/read.go b/pkg/bits/read.go
index c55df16..2db2268 100644
--- a/pkg/bits/read.go
+++ b/pkg/bits/read.go
@@ -100,11 +100,10 @@ func ReadGolombSigned(buf []byte, pos *int) (int32, error) {
 		return 0, err
 	}
 
-	vi := int32(v)
-	if (vi & 0x01) != 0 {
-		return (vi + 1) / 2, nil
+	if (v & 0x01) != 0 {
+		return int32(v>>1) + 1, nil
 	}
-	return -vi / 2, nil
+	return -int32(v >> 1), nil
 }
 
 // ReadFlag reads a boolean flag.
-- 
2.43.0


From e979450363d26f02603a279cf24aed518b4adc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 03/51] fix: mpegts: do not discard data returned together with
 an error in BufferedReader

---
 pkg/formats/mpegts/buffered_reader.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/formats/mpegts/buffered_reader.go b/pkg/formats/mpegts/buffered_reader.go
index 87f9613..f205102 100644
--- a/pkg/formats/mpegts/buffered_reader.go
+++ b/pkg/formats/mpegts/buffered_reader.go
@@ -12,6 +12,7 @@ type BufferedReader struct {
 	r         io.Reader
 	midbuf    []byte
 	midbufpos int
+	err       error
 }
 
 // NewBufferedReader allocates a BufferedReader.
@@ -32,9 +33,18 @@ func (r *BufferedReader) Read(p []byte) (int, error) {
 		return n, nil
 	}
 
+	if r.err != nil {
+		err := r.err
+		r.err = nil
+		return 0, err
+	}
+
 	mn, err := r.r.Read(r.midbuf[:cap(r.midbuf)])
 	if err != nil {
-		return 0, err
+		if mn == 0 {
+			return 0, err
+		}
+		r.err = err // return data first
 	}
 
 	if (mn % packetSize) != 0 {
-- 
2.43.0


From 2cd0f240a3c1eb93227e2feb6c949419fe58586d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:15 +0000
Subject: [PATCH 04/51] fix: av1: reject LEB128 values that do not terminate or
 do not fit 32 bits

---
 pkg/codecs/av1/leb128.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkg/codecs/av1/leb128.go b/pkg/codecs/av1/leb128.go
index fbb2783..25aa228 100644
--- a/pkg/codecs/av1/leb128.go
+++ b/pkg/codecs/av1/leb128.go
@@ -2,6 +2,7 @@ package av1
 
 import (
 	"fmt"
+	"math"
 )
 
 // LEB128 is a unsigned integer that can be decoded/encoded from/to the LEB128 format.
@@ -12,7 +13,7 @@ type LEB128 uint32
 // It returns the number of consumed bytes.
 func (l *LEB128) Unmarshal(buf []byte) (int, error) {
 	*l = 0
-	n := 0
+	v := uint64(0)
 
 	for i := range 8 {
 		if len(buf) == 0 {
@@ -22,15 +23,19 @@ func (l *LEB128) Unmarshal(buf []byte) (int, error) {
 		var b byte
 		b, buf = buf[0], buf[1:]
 
-		*l |= (LEB128(b&0b01111111) << (i * 7))
-		n++
+		v |= (uint64(b&0b01111111) << (i * 7))
 
 		if (b & 0b10000000) == 0 {
-			break
+			if v > math.MaxUint32 {
+				return 0, fmt.Errorf("value is too big")
+			}
+
+			*l = LEB128(v)
+			return i + 1, nil
 		}
 	}
 
-	return n, nil
+	return 0, fmt.Errorf("value is too long")
 }
 
 // MarshalSize returns the marshal size in bytes of the unsigned integer in LEB128 format.
-- 
2.43.0


From d623e969c0fc427f9ffa107cd880bf3b149d0274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 05/51] fix: mpegts: write coupled stream count and mapping of
 mono Opus with explicit configuration

---
 .../substructs/opus_audio_descriptor.go       | 27 +++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/pkg/formats/mpegts/substructs/opus_audio_descriptor.go b/pkg/formats/mpegts/substructs/opus_audio_descriptor.go
index 94b0222..18a62cf 100644
--- a/pkg/formats/mpegts/substructs/opus_audio_descriptor.go
+++ b/pkg/formats/mpegts/substructs/opus_audio_descriptor.go
@@ -128,6 +128,14 @@ func (d *OpusAudioDescriptor) Unmarshal(buf []byte) error {
 	return nil
 }
 
+func (d OpusAudioDescriptor) streamCount() int {
+	// when there is a single channel, stream count is implicit.
+	if d.ExplicitChannelCount == 1 {
+		return 1
+	}
+	return d.StreamCount
+}
+
 func (d OpusAudioDescriptor) marshalSize() int {
 	switch d.ChannelConfigCode {
 	case 0x81:
@@ -135,13 +143,9 @@ func (d OpusAudioDescriptor) marshalSize() int {
 			return 3
 		}
 
-		if d.ExplicitChannelCount == 1 {
-			return 4
-		}
-
 		bitsForStreamCountMinus1 := ceilLog2(d.ExplicitChannelCount)
-		bitsForCoupled := ceilLog2(d.StreamCount + 1)
-		bitsPerMapping := ceilLog2(d.StreamCount + d.CoupledStreamCount + 1)
+		bitsForCoupled := ceilLog2(d.streamCount() + 1)
+		bitsPerMapping := ceilLog2(d.streamCount() + d.CoupledStreamCount + 1)
 		totalBits := bitsForStreamCountMinus1 + bitsForCoupled + d.ExplicitChannelCount*bitsPerMapping
 		packedBytes := (totalBits + 7) / 8
 		return 3 + packedBytes
@@ -165,14 +169,9 @@ func (d OpusAudioDescriptor) Marshal() ([]byte, error) {
 			return out, nil
 		}
 
-		if d.ExplicitChannelCount == 1 {
-			out[3] = 0
-			return out, nil
-		}
-
 		bitsForStreamCountMinus1 := ceilLog2(d.ExplicitChannelCount)
-		bitsForCoupled := ceilLog2(d.StreamCount + 1)
-		bitsPerMapping := ceilLog2(d.StreamCount + d.CoupledStreamCount + 1)
+		bitsForCoupled := ceilLog2(d.streamCount() + 1)
+		bitsPerMapping := ceilLog2(d.streamCount() + d.CoupledStreamCount + 1)
 		packedOffset := 3
 		pos := 0
 
@@ -184,7 +183,7 @@ func (d OpusAudioDescriptor) Marshal() ([]byte, error) {
 			bits.WriteBitsUnsafe(out[packedOffset:], &pos, uint64(d.CoupledStreamCount), bitsForCoupled)
 		}
 
-		for i := 0; i < d.ExplicitChannelCount; i++ {
+		for i := 0; i < min(d.ExplicitChannelCount, len(d.ChannelMapping)); i++ {
 			if bitsPerMapping > 0 {
 				bits.WriteBitsUnsafe(out[packedOffset:], &pos, uint64(d.ChannelMapping[i]), bitsPerMapping)
 			}
-- 
2.43.0


From 23b791f032f534406472f80c42bb8775c084355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 06/51] fix: mpeg4audio: check payload length before allocating
 memory

---
 pkg/codecs/mpeg4audio/payload_mux.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/codecs/mpeg4audio/payload_mux.go b/pkg/codecs/mpeg4audio/payload_mux.go
index 99414e8..4161e79 100644
--- a/pkg/codecs/mpeg4audio/payload_mux.go
+++ b/pkg/codecs/mpeg4audio/payload_mux.go
@@ -1,6 +1,8 @@
 package mpeg4audio
 
 import (
+	"fmt"
+
 	"github.com/bluenviron/mediacommon/v2/pkg/bits"
 )
 
@@ -26,6 +28,10 @@ func (m *payloadMux) unmarshalBits(buf []byte, pos *int, li *payloadLengthInfo)
 				return err
 			}
 
+			if payloadLength > uint64(len(buf)) {
+				return fmt.Errorf("not enough bits")
+			}
+
 			payload := make([]byte, payloadLength)
 
 			for i := range payloadLength {
-- 
2.43.0


From e45f2205a989dee07bd0c22c75a1a0ee2d896795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 07/51] fix: h264: apply horizontal cropping to monochrome
 video

---
 pkg/codecs/h264/sps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/codecs/h264/sps.go b/pkg/codecs/h264/sps.go
index 616c25e..4384947 100644
--- a/pkg/codecs/h264/sps.go
+++ b/pkg/codecs/h264/sps.go
@@ -740,7 +740,7 @@ func (s SPS) Width() int {
 
 	var cropUnitX uint32
 	if chromaArrayType == 0 {
-		cropUnitX = 0
+		cropUnitX = 1
 	} else {
 		cropUnitX = subWidthC
 	}
-- 
2.43.0


From 6d3997c816f10bfaef9503867c63ffc106202d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 08/51] fix: av1: read separate_uv_delta_q of sequence headers

without this, FilmGrainParamsPresent was read from the wrong bit when video is not monochrome.
---
 pkg/codecs/av1/sequence_header.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/codecs/av1/sequence_header.go b/pkg/codecs/av1/sequence_header.go
index 54129f2..e859afb 100644
--- a/pkg/codecs/av1/sequence_header.go
+++ b/pkg/codecs/av1/sequence_header.go
@@ -184,6 +184,13 @@ func (c *SequenceHeader_ColorConfig) unmarshal(seqProfile uint8, buf []byte, pos
 		}
 	}
 
+	if !c.MonoChrome {
+		_, err = bits.ReadFlag(buf, pos) // separate_uv_delta_q
+		if err != nil {
+			return err
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 02222f752d99e3c2161a221bd97163f66efb5d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 09/51] fix: vp9: do not report repetitions of existing frames
 as random access points

---
 pkg/codecs/vp9/is_random_access.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/codecs/vp9/is_random_access.go b/pkg/codecs/vp9/is_random_access.go
index f8dfd3c..7208c0a 100644
--- a/pkg/codecs/vp9/is_random_access.go
+++ b/pkg/codecs/vp9/is_random_access.go
@@ -7,5 +7,5 @@ func IsRandomAccess(frame []byte) bool {
 	if err != nil {
 		return false
 	}
-	return !h.NonKeyFrame
+	return !h.ShowExistingFrame && !h.NonKeyFrame
 }
-- 
2.43.0


From 16521767a8eb501ae54bb55e7025ae105830e06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 10/51] fix: mpeg4video: do not read outside of configurations
 that end with a start code prefix

---
 pkg/codecs/mpeg4video/is_valid_config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/codecs/mpeg4video/is_valid_config.go b/pkg/codecs/mpeg4video/is_valid_config.go
index 556e245..ba55917 100644
--- a/pkg/codecs/mpeg4video/is_valid_config.go
+++ b/pkg/codecs/mpeg4video/is_valid_config.go
@@ -18,7 +18,7 @@ func IsValidConfig(config []byte) error {
 	pos := 4
 
 	for pos < len(config)-3 {
-		i := bytes.Index(config[pos:], startCodePrefix)
+		i := bytes.Index(config[pos:len(config)-1], startCodePrefix)
 		if i == -1 {
 			break
 		}
-- 
2.43.0


From 202ca8c7d51c0ba403b7d573cedf91dc2d7fe2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:20 +0000
Subject: [PATCH 11/51] fix: mpeg1audio: compute length of MPEG-2 layer 3
 frames correctly

---
 pkg/codecs/mpeg1audio/frame_header.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/codecs/mpeg1audio/frame_header.go b/pkg/codecs/mpeg1audio/frame_header.go
index 5e4c7a1..5505936 100644
--- a/pkg/codecs/mpeg1audio/frame_header.go
+++ b/pkg/codecs/mpeg1audio/frame_header.go
@@ -183,10 +183,15 @@ func (h *FrameHeader) Unmarshal(buf []byte) error {
 
 // FrameLen returns the length of the frame associated with the header.
 func (h FrameHeader) FrameLen() int {
+	coeff := 144
+	if h.MPEG2 && h.Layer == 3 {
+		coeff = 72 // frames contain 576 samples
+	}
+
 	if h.Padding {
-		return (144 * h.Bitrate / h.SampleRate) + 1
+		return (coeff * h.Bitrate / h.SampleRate) + 1
 	}
-	return (144 * h.Bitrate / h.SampleRate)
+	return (coeff * h.Bitrate / h.SampleRate)
 }
 
 // SampleCount returns the number of samples contained into the frame.
-- 
2.43.0


From e3e47ff84a988263720045897e21841c0a928cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 12/51] fix: h264: read colour_plane_id when extracting the
 picture order count

---
 pkg/codecs/h264/dts_extractor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/codecs/h264/dts_extractor.go b/pkg/codecs/h264/dts_extractor.go
index 2d0f288..735209e 100644
--- a/pkg/codecs/h264/dts_extractor.go
+++ b/pkg/codecs/h264/dts_extractor.go
@@ -40,6 +40,13 @@ func getPictureOrderCount(buf []byte, sps *SPS, idr bool) (uint32, error) {
 		return 0, err
 	}
 
+	if sps.SeparateColourPlaneFlag {
+		_, err = bits.ReadBits(buf, &pos, 2) // colour_plane_id
+		if err != nil {
+			return 0, err
+		}
+	}
+
 	_, err = bits.ReadBits(buf, &pos, int(sps.Log2MaxFrameNumMinus4+4)) // frame_num
 	if err != nil {
 		return 0, err
-- 
2.43.0


From 066dedd46870e80dbe02a0b88fb3a733019339fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 13/51] fix: h265: use reordering depth of highest sub-layer
 when extracting DTS

---
 pkg/codecs/h265/dts_extractor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/codecs/h265/dts_extractor.go b/pkg/codecs/h265/dts_extractor.go
index ca52e6c..a9bcffa 100644
--- a/pkg/codecs/h265/dts_extractor.go
+++ b/pkg/codecs/h265/dts_extractor.go
@@ -174,8 +174,8 @@ outer:
 
 				// reset state
 				d.randomReceived = false
-				if len(d.spsp.MaxNumReorderPics) == 1 {
-					d.reorderedFrames = int(d.spsp.MaxNumReorderPics[0])
+				if l := len(d.spsp.MaxNumReorderPics); l != 0 {
+					d.reorderedFrames = int(d.spsp.MaxNumReorderPics[l-1])
 				} else {
 					d.reorderedFrames = 0
 				}
-- 
2.43.0


From 84643672a853071011bc1d2cb5a8b614a56cdc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 14/51] fix: h265: extract DTS of slices that use the only
 reference picture set of the SPS

---
 pkg/codecs/h265/dts_extractor.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pkg/codecs/h265/dts_extractor.go b/pkg/codecs/h265/dts_extractor.go
index a9bcffa..df56e16 100644
--- a/pkg/codecs/h265/dts_extractor.go
+++ b/pkg/codecs/h265/dts_extractor.go
@@ -86,17 +86,21 @@ func getPTSDTSDiff(buf []byte, sps *SPS, pps *PPS) (int, error) {
 			return 0, err
 		}
 	} else {
-		if len(sps.ShortTermRefPicSets) <= 1 {
+		if len(sps.ShortTermRefPicSets) == 0 {
 			return 0, nil
 		}
 
-		b := int(math.Ceil(math.Log2(float64(len(sps.ShortTermRefPicSets)))))
-		var tmp uint64
-		tmp, err = bits.ReadBits(buf, &pos, b)
-		if err != nil {
-			return 0, err
+		shortTermRefPicSetIdx := 0
+
+		if len(sps.ShortTermRefPicSets) > 1 {
+			b := int(math.Ceil(math.Log2(float64(len(sps.ShortTermRefPicSets)))))
+			var tmp uint64
+			tmp, err = bits.ReadBits(buf, &pos, b)
+			if err != nil {
+				return 0, err
+			}
+			shortTermRefPicSetIdx = int(tmp)
 		}
-		shortTermRefPicSetIdx := int(tmp)
 
 		if len(sps.ShortTermRefPicSets) <= shortTermRefPicSetIdx {
 			return 0, fmt.Errorf("invalid short_term_ref_pic_set_idx")
-- 
2.43.0


From 5bbca3552bf7bc06df1e233d5a32f41c7f1153fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 15/51] fix: h265: extract DTS of intra pictures without
 reference pictures

---
 pkg/codecs/h265/dts_extractor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/codecs/h265/dts_extractor.go b/pkg/codecs/h265/dts_extractor.go
index df56e16..587cae8 100644
--- a/pkg/codecs/h265/dts_extractor.go
+++ b/pkg/codecs/h265/dts_extractor.go
@@ -125,6 +125,9 @@ func getPTSDTSDiff(buf []byte, sps *SPS, pps *PPS) (int, error) {
 		}
 	} else { // I or P-frame
 		if len(rps.DeltaPocS0) == 0 {
+			if sliceType == 2 { // I-frames do not need reference pictures
+				return 0, nil
+			}
 			return 0, fmt.Errorf("invalid DeltaPocS0")
 		}
 		return int(-rps.DeltaPocS0[0] - 1), nil
-- 
2.43.0


From 5d759a1cf7e8e5bfa870aba4df69eb4aff83d2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 16/51] fix: h265: extract DTS of slices with large reference
 picture sets

---
 pkg/codecs/h265/dts_extractor.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/codecs/h265/dts_extractor.go b/pkg/codecs/h265/dts_extractor.go
index 587cae8..876547e 100644
--- a/pkg/codecs/h265/dts_extractor.go
+++ b/pkg/codecs/h265/dts_extractor.go
@@ -10,7 +10,13 @@ import (
 )
 
 const (
-	maxBytesToGetPOC = 12
+	/*
+		(NAL header + max_size(slice header until short_term_ref_pic_set) +
+		max_size(short_term_ref_pic_set)) * 4 / 3 =
+		(1 + 8 + (2 * max_size(num_pics) + 16 * (max_size(delta_poc_minus1) + max_size(used_by_curr_pic_flag)))) * 4 / 3 =
+		(1 + 8 + (2 * 9 + 16 * (31 + 1)) / 8) * 4 / 3 = 101
+	*/
+	maxBytesToGetPOC = 101
 )
 
 func getPTSDTSDiff(buf []byte, sps *SPS, pps *PPS) (int, error) {
-- 
2.43.0


From 9ea7f7e5c1049307fa5a99733cf38ca2fa318efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:04 +0000
Subject: [PATCH 17/51] fix: h264, h265, av1: do not panic when access units
 contain empty units

---
 pkg/codecs/av1/is_random_access.go  | 4 ++++
 pkg/codecs/h264/dts_extractor.go    | 4 ++++
 pkg/codecs/h264/is_random_access.go | 4 ++++
 pkg/codecs/h265/dts_extractor.go    | 4 ++++
 pkg/codecs/h265/is_random_access.go | 4 ++++
 5 files changed, 20 insertions(+)

diff --git a/pkg/codecs/av1/is_random_access.go b/pkg/codecs/av1/is_random_access.go
index 56935c4..b1a8c33 100644
--- a/pkg/codecs/av1/is_random_access.go
+++ b/pkg/codecs/av1/is_random_access.go
@@ -27,6 +27,10 @@ func IsRandomAccess(tu [][]byte) (bool, error) {
 		return false, fmt.Errorf("temporal unit is empty")
 	}
 
+	if len(tu[0]) == 0 {
+		return false, fmt.Errorf("OBU is empty")
+	}
+
 	typ := OBUType((tu[0][0] >> 3) & 0b1111)
 
 	return (typ == OBUTypeSequenceHeader), nil
diff --git a/pkg/codecs/h264/dts_extractor.go b/pkg/codecs/h264/dts_extractor.go
index 735209e..d64a6d6 100644
--- a/pkg/codecs/h264/dts_extractor.go
+++ b/pkg/codecs/h264/dts_extractor.go
@@ -119,6 +119,10 @@ func (d *DTSExtractor) extractInner(au [][]byte, pts int64) (int64, bool, error)
 
 outer:
 	for _, nalu := range au {
+		if len(nalu) == 0 {
+			continue
+		}
+
 		typ := NALUType(nalu[0] & 0x1F)
 		nonZeroNalRefIDFound = nonZeroNalRefIDFound || ((nalu[0] & 0x60) > 0)
 
diff --git a/pkg/codecs/h264/is_random_access.go b/pkg/codecs/h264/is_random_access.go
index c1f1744..4ece4e1 100644
--- a/pkg/codecs/h264/is_random_access.go
+++ b/pkg/codecs/h264/is_random_access.go
@@ -3,6 +3,10 @@ package h264
 // IsRandomAccess checks whether the access unit can be randomly accessed.
 func IsRandomAccess(au [][]byte) bool {
 	for _, nalu := range au {
+		if len(nalu) == 0 {
+			continue
+		}
+
 		typ := NALUType(nalu[0] & 0x1F)
 		if typ == NALUTypeIDR {
 			return true
diff --git a/pkg/codecs/h265/dts_extractor.go b/pkg/codecs/h265/dts_extractor.go
index 876547e..453ce4c 100644
--- a/pkg/codecs/h265/dts_extractor.go
+++ b/pkg/codecs/h265/dts_extractor.go
@@ -171,6 +171,10 @@ func (d *DTSExtractor) extractInner(au [][]byte, pts int64) (int64, error) {
 
 outer:
 	for _, nalu := range au {
+		if len(nalu) == 0 {
+			continue
+		}
+
 		typ := NALUType((nalu[0] >> 1) & 0b111111)
 
 		switch typ {
diff --git a/pkg/codecs/h265/is_random_access.go b/pkg/codecs/h265/is_random_access.go
index 837a0aa..6df36a0 100644
--- a/pkg/codecs/h265/is_random_access.go
+++ b/pkg/codecs/h265/is_random_access.go
@@ -3,6 +3,10 @@ package h265
 // IsRandomAccess checks whether the access unit can be randomly accessed.
 func IsRandomAccess(au [][]byte) bool {
 	for _, nalu := range au {
+		if len(nalu) == 0 {
+			continue
+		}
+
 		typ := NALUType((nalu[0] >> 1) & 0b111111)
 		switch typ {
 		case NALUType_IDR_W_RADL, NALUType_IDR_N_LP, NALUType_CRA_NUT:
-- 
2.43.0


From a5c234b43e18eebde1e71d050fa4455e23ca24ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 18/51] fix: pmp4: return an error when media data exceeds 4
 GiB

mdat size and chunk offsets silently wrapped, producing an unreadable file.
---
 pkg/formats/pmp4/presentation.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index bb7466f..61e49d7 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"time"
 
 	amp4 "github.com/abema/go-mp4"
@@ -406,9 +407,12 @@ func (p Presentation) Marshal(w io.Writer) error {
 		|mdat|
 	*/
 
-	dataSize, sortedSamples := p.sortSamples()
+	dataSize, sortedSamples, err := p.sortSamples()
+	if err != nil {
+		return err
+	}
 
-	err := p.marshalFtypAndMoov(w)
+	err = p.marshalFtypAndMoov(w)
 	if err != nil {
 		return err
 	}
@@ -416,10 +420,19 @@ func (p Presentation) Marshal(w io.Writer) error {
 	return p.marshalMdat(w, dataSize, sortedSamples)
 }
 
-func (p *Presentation) sortSamples() (uint32, []*Sample) {
+func (p *Presentation) sortSamples() (uint32, []*Sample, error) {
 	sampleCount := 0
+	dataSize := uint64(0)
 	for _, track := range p.Tracks {
 		sampleCount += len(track.Samples)
+		for _, sample := range track.Samples {
+			dataSize += uint64(sample.PayloadSize)
+		}
+	}
+
+	// mdat size is 32-bit
+	if dataSize > (math.MaxUint32 - 8) {
+		return 0, nil, fmt.Errorf("media data is too big")
 	}
 
 	processedSamples := make([]int, len(p.Tracks))
@@ -461,7 +474,7 @@ func (p *Presentation) sortSamples() (uint32, []*Sample) {
 		pos++
 	}
 
-	return offset, sortedSamples
+	return offset, sortedSamples, nil
 }
 
 func (p *Presentation) marshalFtypAndMoov(w io.Writer) error {
@@ -537,6 +550,11 @@ func (p *Presentation) marshalFtypAndMoov(w io.Writer) error {
 
 	for i := range p.Tracks {
 		for j := range stcos[i].ChunkOffset {
+			// chunk offsets are 32-bit
+			if (int64(stcos[i].ChunkOffset[j]) + dataOffset) > math.MaxUint32 {
+				return fmt.Errorf("media data is too big")
+			}
+
 			stcos[i].ChunkOffset[j] += uint32(dataOffset)
 		}
 
-- 
2.43.0


From 89ad61b0f1f73b28cae828b456bf4b595e392717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 19/51] fix: pmp4: read samples of a chunk that crosses 4 GiB

The offset of samples wrapped around at 32 bits, and the payload was read
from the wrong place.
---
 pkg/formats/pmp4/presentation.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 61e49d7..1109028 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -353,7 +353,7 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 			i := 0
 
 			for _, chunk := range curChunks {
-				off := chunk.offset
+				off := int64(chunk.offset)
 
 				for range chunk.sampleCount {
 					sampleSize := curSampleSizes[i]
@@ -362,7 +362,7 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 					curTrack.Samples[i].PayloadSize = sampleSize
 
 					curTrack.Samples[i].GetPayload = func() ([]byte, error) {
-						_, err2 := r.Seek(int64(sampleOffset), io.SeekStart)
+						_, err2 := r.Seek(sampleOffset, io.SeekStart)
 						if err != nil {
 							return nil, err2
 						}
@@ -372,7 +372,7 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 						return buf, err2
 					}
 
-					off += sampleSize
+					off += int64(sampleSize)
 					i++
 				}
 			}
-- 
2.43.0


From ff15c53b09423d14aa3fc776a0e891cb11528933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:45 +0000
Subject: [PATCH 20/51] fix: fmp4, pmp4: reject boxes with wrapping sizes or
 unlimited nesting

A box whose 64-bit size wraps around caused an infinite loop. Boxes nested
thousands of times exhausted RAM, since each level stores its path.
---
 internal/mp4/check_box.go        | 28 ++++++++++++++++++++++++++++
 pkg/formats/fmp4/init.go         |  4 ++++
 pkg/formats/fmp4/parts.go        |  6 ++++++
 pkg/formats/pmp4/presentation.go |  4 ++++
 4 files changed, 42 insertions(+)
 create mode 100644 internal/mp4/check_box.go

diff --git a/internal/mp4/check_box.go b/internal/mp4/check_box.go
new file mode 100644
index 0000000..90e848a
--- /dev/null
+++ b/internal/mp4/check_box.go
@@ -0,0 +1,28 @@
+package mp4
+
+import (
+	"fmt"
+	"math"
+
+	amp4 "github.com/abema/go-mp4"
+)
+
+const (
+	maxDepth = 16
+)
+
+// CheckBox checks the position of a box that is being read.
+// It must be called on every box before anything else.
+func CheckBox(h *amp4.ReadHandle) error {
+	// prevent infinite loops due to boxes that end before they start
+	if h.BoxInfo.Size > (math.MaxInt64 - h.BoxInfo.Offset) {
+		return fmt.Errorf("invalid size of box '%v'", h.BoxInfo.Type)
+	}
+
+	// prevent RAM exhaustion and stack overflows due to unlimited nesting
+	if len(h.Path) > maxDepth {
+		return fmt.Errorf("box '%v' is nested too deeply", h.BoxInfo.Type)
+	}
+
+	return nil
+}
diff --git a/pkg/formats/fmp4/init.go b/pkg/formats/fmp4/init.go
index f4b46d7..7e13e16 100644
--- a/pkg/formats/fmp4/init.go
+++ b/pkg/formats/fmp4/init.go
@@ -37,6 +37,10 @@ func (i *Init) Unmarshal(r io.ReadSeeker) error {
 	var codecBoxesReader *imp4.CodecBoxesReader
 
 	_, err := amp4.ReadBoxStructure(r, func(h *amp4.ReadHandle) (any, error) {
+		if err := imp4.CheckBox(h); err != nil {
+			return nil, err
+		}
+
 		switch state {
 		case readingUserData:
 			if len(h.Path) < 3 {
diff --git a/pkg/formats/fmp4/parts.go b/pkg/formats/fmp4/parts.go
index e055ac8..694f061 100644
--- a/pkg/formats/fmp4/parts.go
+++ b/pkg/formats/fmp4/parts.go
@@ -6,6 +6,8 @@ import (
 	"io"
 
 	amp4 "github.com/abema/go-mp4"
+
+	imp4 "github.com/bluenviron/mediacommon/v2/internal/mp4"
 )
 
 const (
@@ -34,6 +36,10 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 	var tfhd *amp4.Tfhd
 
 	_, err := amp4.ReadBoxStructure(bytes.NewReader(byts), func(h *amp4.ReadHandle) (any, error) {
+		if err := imp4.CheckBox(h); err != nil {
+			return nil, err
+		}
+
 		if h.BoxInfo.IsSupportedType() {
 			switch h.BoxInfo.Type.String() {
 			case "moof":
diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 1109028..d674065 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -64,6 +64,10 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 	var curSampleSizes []uint32
 
 	_, err := amp4.ReadBoxStructure(r, func(h *amp4.ReadHandle) (any, error) {
+		if err := imp4.CheckBox(h); err != nil {
+			return nil, err
+		}
+
 		if state == readingCodec {
 			ret, err := codecBoxesReader.Read(h)
 			if err != nil {
-- 
2.43.0


From 20329d436c2b2b44057febb87fe2d24fe8195823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:45 +0000
Subject: [PATCH 21/51] fix: fmp4: prevent RAM exhaustion through trun boxes

The sample count check was bypassed by 64-bit box headers and by repeating
trun boxes whose samples have no fields; samples of multiple trun boxes were
copied a quadratic number of times.
---
 pkg/formats/fmp4/parts.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pkg/formats/fmp4/parts.go b/pkg/formats/fmp4/parts.go
index 694f061..53832f3 100644
--- a/pkg/formats/fmp4/parts.go
+++ b/pkg/formats/fmp4/parts.go
@@ -34,6 +34,7 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 	var curTrack *PartTrack
 	var tfdt *amp4.Tfdt
 	var tfhd *amp4.Tfhd
+	totalSampleCount := 0
 
 	_, err := amp4.ReadBoxStructure(bytes.NewReader(byts), func(h *amp4.ReadHandle) (any, error) {
 		if err := imp4.CheckBox(h); err != nil {
@@ -117,12 +118,17 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 				}
 
 				// prevent RAM exhaustion due to unlimited Trun unmarshaling
-				rawBox := byts[h.BoxInfo.Offset:]
-				if len(rawBox) >= 16 {
-					sampleCount := uint32(rawBox[12])<<24 | uint32(rawBox[13])<<16 | uint32(rawBox[14])<<8 | uint32(rawBox[15])
+				rawBox := byts[h.BoxInfo.Offset+h.BoxInfo.HeaderSize:]
+				if len(rawBox) >= 8 {
+					sampleCount := uint32(rawBox[4])<<24 | uint32(rawBox[5])<<16 | uint32(rawBox[6])<<8 | uint32(rawBox[7])
 					if sampleCount > maxSamplesPerTrun {
 						return nil, fmt.Errorf("sample count (%d) exceeds maximum (%d)", sampleCount, maxSamplesPerTrun)
 					}
+
+					totalSampleCount += int(sampleCount)
+					if totalSampleCount > len(byts) {
+						return nil, fmt.Errorf("sample count (%d) exceeds input size (%d)", totalSampleCount, len(byts))
+					}
 				}
 
 				box, _, err := h.ReadPayload()
@@ -138,9 +144,7 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 					}
 
 					existing := len(curTrack.Samples)
-					tmp := make([]*Sample, existing+len(trun.Entries))
-					copy(tmp, curTrack.Samples)
-					curTrack.Samples = tmp
+					curTrack.Samples = append(curTrack.Samples, make([]*Sample, len(trun.Entries))...)
 
 					pos := uint64(trun.DataOffset) + moofOffset
 					if uint64(len(byts)) < pos {
-- 
2.43.0


From 66cb9a40d65573e4ea8f4f320a6260af96efb215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:45 +0000
Subject: [PATCH 22/51] fix: fmp4: prevent RAM exhaustion through user data

A trun box inside udta was decoded without checking the sample count.
---
 pkg/formats/fmp4/init.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/formats/fmp4/init.go b/pkg/formats/fmp4/init.go
index 7e13e16..e28e2fa 100644
--- a/pkg/formats/fmp4/init.go
+++ b/pkg/formats/fmp4/init.go
@@ -46,6 +46,11 @@ func (i *Init) Unmarshal(r io.ReadSeeker) error {
 			if len(h.Path) < 3 {
 				state = waitingTrak
 			} else {
+				// prevent RAM exhaustion due to unlimited Trun unmarshaling
+				if h.BoxInfo.Type == amp4.BoxTypeTrun() {
+					return nil, fmt.Errorf("unexpected box '%v'", h.BoxInfo.Type)
+				}
+
 				box, _, err := h.ReadPayload()
 				if err != nil {
 					return nil, err
-- 
2.43.0


From 54e7ade3fea2d1934bd5d45eba169768fec783e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 23/51] fix: pmp4: do not panic when the last entry of stsc has
 no samples

---
 pkg/formats/pmp4/presentation.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index d674065..7df8094 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -285,6 +285,10 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 				sampleCount := 0
 
 				for i, entry := range stsc.Entries {
+					if entry.SamplesPerChunk == 0 {
+						return nil, fmt.Errorf("invalid stsc")
+					}
+
 					var chunkCount uint32
 					if i != (len(stsc.Entries) - 1) {
 						chunkCount = stsc.Entries[i+1].FirstChunk - entry.FirstChunk
@@ -300,10 +304,6 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 						return nil, fmt.Errorf("invalid stsc")
 					}
 
-					if entry.SamplesPerChunk == 0 {
-						return nil, fmt.Errorf("invalid stsc")
-					}
-
 					for range chunkCount {
 						if (sampleCount + int(entry.SamplesPerChunk)) > len(curTrack.Samples) {
 							return nil, fmt.Errorf("invalid stsc")
-- 
2.43.0


From ab5abfd0b65fd6decd87561dc404c91c797ccddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 24/51] fix: pmp4: reject tracks with missing or repeated
 sample-to-chunk tables

Samples without a chunk had a nil GetPayload, repeated stsc boxes caused an
out of range access.
---
 pkg/formats/pmp4/presentation.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 7df8094..3e391ea 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -281,6 +281,10 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 			}
 			stsc := box.(*amp4.Stsc)
 
+			if curChunks != nil {
+				return nil, fmt.Errorf("unexpected box '%v'", h.BoxInfo.Type)
+			}
+
 			if len(stsc.Entries) != 0 {
 				sampleCount := 0
 
@@ -396,6 +400,14 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 		return fmt.Errorf("no tracks found")
 	}
 
+	for _, track := range p.Tracks {
+		for _, sample := range track.Samples {
+			if sample.GetPayload == nil {
+				return fmt.Errorf("sample without payload")
+			}
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 91d7a73a57c15f45488dc1f50fb5bf1d94530c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:57 +0000
Subject: [PATCH 25/51] fix: pmp4: prevent RAM exhaustion through stts

Every track could declare millions of samples with 8 bytes.
---
 pkg/formats/pmp4/presentation.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 3e391ea..7af08e0 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -63,7 +63,14 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 	var curChunks []*chunk
 	var curSampleSizes []uint32
 
-	_, err := amp4.ReadBoxStructure(r, func(h *amp4.ReadHandle) (any, error) {
+	fileSize, err := r.Seek(0, io.SeekEnd)
+	if err != nil {
+		return err
+	}
+
+	totalSampleCount := int64(0)
+
+	_, err = amp4.ReadBoxStructure(r, func(h *amp4.ReadHandle) (any, error) {
 		if err := imp4.CheckBox(h); err != nil {
 			return nil, err
 		}
@@ -208,6 +215,12 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 					return nil, fmt.Errorf("max samples reached")
 				}
 
+				// prevent RAM exhaustion. Each sample has at least a 4-byte entry in stsz
+				totalSampleCount += int64(entry.SampleCount)
+				if (totalSampleCount * 4) > fileSize {
+					return nil, fmt.Errorf("invalid stts")
+				}
+
 				for range entry.SampleCount {
 					curTrack.Samples = append(curTrack.Samples, &Sample{
 						Duration: entry.SampleDelta,
-- 
2.43.0


From 74b07e9d67b26bec5d20960a78f267404fbf10a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:57 +0000
Subject: [PATCH 26/51] fix: pmp4: report seek errors when reading payloads

The wrong variable was checked and data was read from a random position.
---
 pkg/formats/pmp4/presentation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 7af08e0..fc6de03 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -384,7 +384,7 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 
 					curTrack.Samples[i].GetPayload = func() ([]byte, error) {
 						_, err2 := r.Seek(sampleOffset, io.SeekStart)
-						if err != nil {
+						if err2 != nil {
 							return nil, err2
 						}
 
-- 
2.43.0


From 94952885ba7cfdee4636998d93323b9efc5bd50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:57 +0000
Subject: [PATCH 27/51] fix: pmp4: do not allocate payloads that exceed the
 file size

---
 pkg/formats/pmp4/presentation.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index fc6de03..380b12b 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -383,6 +383,11 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 					curTrack.Samples[i].PayloadSize = sampleSize
 
 					curTrack.Samples[i].GetPayload = func() ([]byte, error) {
+						// prevent RAM exhaustion due to invalid sizes
+						if (sampleOffset + int64(sampleSize)) > fileSize {
+							return nil, io.ErrUnexpectedEOF
+						}
+
 						_, err2 := r.Seek(sampleOffset, io.SeekStart)
 						if err2 != nil {
 							return nil, err2
-- 
2.43.0


From 2ebe75308e52a003be92d938ac52465885888bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:47 +0000
Subject: [PATCH 28/51] fix: mpegts: use the timestamp of asynchronous KLV
 units in clock references

---
 pkg/formats/mpegts/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/formats/mpegts/writer.go b/pkg/formats/mpegts/writer.go
index 56d0ee1..de11ac3 100644
--- a/pkg/formats/mpegts/writer.go
+++ b/pkg/formats/mpegts/writer.go
@@ -326,7 +326,7 @@ func (w *Writer) WriteKLV(
 		return w.writeData(track, true, pts, streamIDMetadata, out)
 	}
 
-	return w.writeData(track, false, 0, streamIDPrivate, unit)
+	return w.writeData(track, false, pts, streamIDPrivate, unit)
 }
 
 // WriteDVBSubtitle writes DVB subtitle data.
-- 
2.43.0


From 307a11f9c418ab21333faa529bc62ea051e68d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:08 +0000
Subject: [PATCH 29/51] fix: mpegts: do not inherit the PCR track of a previous
 writer

---
 pkg/formats/mpegts/track.go  |  1 -
 pkg/formats/mpegts/writer.go | 31 ++++++++++++++-----------------
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/pkg/formats/mpegts/track.go b/pkg/formats/mpegts/track.go
index 6ea285e..bbc451f 100644
--- a/pkg/formats/mpegts/track.go
+++ b/pkg/formats/mpegts/track.go
@@ -331,7 +331,6 @@ type Track struct {
 	// Codec.
 	Codec codecs.Codec
 
-	isLeading  bool // Writer-only
 	mp3Checked bool // Writer-only
 }
 
diff --git a/pkg/formats/mpegts/writer.go b/pkg/formats/mpegts/writer.go
index de11ac3..ba81b2f 100644
--- a/pkg/formats/mpegts/writer.go
+++ b/pkg/formats/mpegts/writer.go
@@ -55,10 +55,10 @@ type Writer struct {
 	W      io.Writer
 	Tracks []*Track
 
-	nextPID            uint16
-	mux                *astits.Muxer
-	pcrCounter         int
-	leadingTrackChosen bool
+	nextPID      uint16
+	mux          *astits.Muxer
+	pcrCounter   int
+	leadingTrack *Track
 }
 
 // Initialize initializes a Writer.
@@ -99,7 +99,7 @@ func (w *Writer) Initialize() error {
 func (w *Writer) WriteTables() (int, error) {
 	// Ensure PCR PID is set before writing tables (required by astits)
 	// If no leading track has been chosen yet, use the first track's PID
-	if !w.leadingTrackChosen && len(w.Tracks) > 0 {
+	if w.leadingTrack == nil && len(w.Tracks) > 0 {
 		w.mux.SetPCRPID(w.Tracks[0].PID)
 	}
 	return w.mux.WriteTables()
@@ -345,9 +345,8 @@ func (w *Writer) writeVideo(
 	randomAccess bool,
 	data []byte,
 ) error {
-	if !w.leadingTrackChosen {
-		w.leadingTrackChosen = true
-		track.isLeading = true
+	if w.leadingTrack == nil {
+		w.leadingTrack = track
 		w.mux.SetPCRPID(track.PID)
 	}
 
@@ -358,7 +357,7 @@ func (w *Writer) writeVideo(
 		af.RandomAccessIndicator = true
 	}
 
-	if track.isLeading {
+	if track == w.leadingTrack {
 		if randomAccess || w.pcrCounter == 0 {
 			if af == nil {
 				af = &astits.PacketAdaptationField{}
@@ -398,9 +397,8 @@ func (w *Writer) writeVideo(
 }
 
 func (w *Writer) writeAudio(track *Track, pts int64, data []byte) error {
-	if !w.leadingTrackChosen {
-		w.leadingTrackChosen = true
-		track.isLeading = true
+	if w.leadingTrack == nil {
+		w.leadingTrack = track
 		w.mux.SetPCRPID(track.PID)
 	}
 
@@ -408,7 +406,7 @@ func (w *Writer) writeAudio(track *Track, pts int64, data []byte) error {
 		RandomAccessIndicator: true,
 	}
 
-	if track.isLeading {
+	if track == w.leadingTrack {
 		if w.pcrCounter == 0 {
 			af.HasPCR = true
 			af.PCR = &astits.ClockReference{Base: pts - dtsPCRDiff}
@@ -436,9 +434,8 @@ func (w *Writer) writeAudio(track *Track, pts int64, data []byte) error {
 }
 
 func (w *Writer) writeData(track *Track, hasPTS bool, pts int64, streamID uint8, data []byte) error {
-	if !w.leadingTrackChosen {
-		w.leadingTrackChosen = true
-		track.isLeading = true
+	if w.leadingTrack == nil {
+		w.leadingTrack = track
 		w.mux.SetPCRPID(track.PID)
 	}
 
@@ -446,7 +443,7 @@ func (w *Writer) writeData(track *Track, hasPTS bool, pts int64, streamID uint8,
 		RandomAccessIndicator: true,
 	}
 
-	if track.isLeading {
+	if track == w.leadingTrack {
 		if w.pcrCounter == 0 {
 			af.HasPCR = true
 			af.PCR = &astits.ClockReference{Base: pts - dtsPCRDiff}
-- 
2.43.0


From 066e28a2b6fc5e4d6668d393ed4344ae081c6ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:08 +0000
Subject: [PATCH 30/51] fix: mpegts: do not assign PIDs already chosen by the
 user

---
 pkg/formats/mpegts/writer.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/formats/mpegts/writer.go b/pkg/formats/mpegts/writer.go
index ba81b2f..cf30ce3 100644
--- a/pkg/formats/mpegts/writer.go
+++ b/pkg/formats/mpegts/writer.go
@@ -69,8 +69,21 @@ func (w *Writer) Initialize() error {
 		context.Background(),
 		w.W)
 
+	usedPIDs := make(map[uint16]struct{})
+	for _, track := range w.Tracks {
+		usedPIDs[track.PID] = struct{}{}
+	}
+
 	for _, track := range w.Tracks {
 		if track.PID == 0 {
+			// skip PIDs chosen by the user
+			for {
+				if _, ok := usedPIDs[w.nextPID]; !ok {
+					break
+				}
+				w.nextPID++
+			}
+
 			track.PID = w.nextPID
 			w.nextPID++
 		}
-- 
2.43.0


From 3998c5e87ac25448d1558996410c9d9c8dfdcbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:53 +0000
Subject: [PATCH 31/51] fix: mpegts: find parameters of tracks regardless of
 the order of units

---
 pkg/formats/mpegts/robust_demuxer.go |  26 +++++++
 pkg/formats/mpegts/track.go          | 100 +++++++++++----------------
 2 files changed, 67 insertions(+), 59 deletions(-)

diff --git a/pkg/formats/mpegts/robust_demuxer.go b/pkg/formats/mpegts/robust_demuxer.go
index c3fd978..0498484 100644
--- a/pkg/formats/mpegts/robust_demuxer.go
+++ b/pkg/formats/mpegts/robust_demuxer.go
@@ -125,6 +125,7 @@ type robustDemuxer struct {
 
 	dem            *astits.Demuxer
 	ptsInterceptor *ptsInterceptor
+	firstPESs      map[uint16]*astits.PESData
 }
 
 func (d *robustDemuxer) initialize() {
@@ -176,3 +177,28 @@ func (d *robustDemuxer) nextData() (*robustDemuxerData, error) {
 		}, nil
 	}
 }
+
+// firstPES returns the first PES of a PID.
+// It keeps those of other PIDs, so that they can be asked for in any order.
+func (d *robustDemuxer) firstPES(pid uint16) (*astits.PESData, error) {
+	if d.firstPESs == nil {
+		d.firstPESs = make(map[uint16]*astits.PESData)
+	}
+
+	for {
+		if pes, ok := d.firstPESs[pid]; ok {
+			return pes, nil
+		}
+
+		data, err := d.nextData()
+		if err != nil {
+			return nil, err
+		}
+
+		if data.PES != nil {
+			if _, ok := d.firstPESs[data.PID]; !ok {
+				d.firstPESs[data.PID] = data.PES
+			}
+		}
+	}
+}
diff --git a/pkg/formats/mpegts/track.go b/pkg/formats/mpegts/track.go
index bbc451f..816a5d9 100644
--- a/pkg/formats/mpegts/track.go
+++ b/pkg/formats/mpegts/track.go
@@ -26,78 +26,60 @@ const (
 )
 
 func findMPEG4AudioConfig(dem *robustDemuxer, pid uint16) (*mpeg4audio.AudioSpecificConfig, error) {
-	for {
-		data, err := dem.nextData()
-		if err != nil {
-			return nil, err
-		}
-
-		if data.PES == nil || data.PID != pid {
-			continue
-		}
-
-		var adtsPkts mpeg4audio.ADTSPackets
-		err = adtsPkts.Unmarshal(data.PES.Data)
-		if err != nil {
-			return nil, fmt.Errorf("unable to decode ADTS: %w", err)
-		}
+	pes, err := dem.firstPES(pid)
+	if err != nil {
+		return nil, err
+	}
 
-		pkt := adtsPkts[0]
-		return &mpeg4audio.AudioSpecificConfig{
-			Type:          pkt.Type,
-			SampleRate:    pkt.SampleRate,
-			ChannelConfig: pkt.ChannelConfig,
-			ChannelCount:  pkt.ChannelCount, //nolint:staticcheck
-		}, nil
+	var adtsPkts mpeg4audio.ADTSPackets
+	err = adtsPkts.Unmarshal(pes.Data)
+	if err != nil {
+		return nil, fmt.Errorf("unable to decode ADTS: %w", err)
 	}
+
+	pkt := adtsPkts[0]
+	return &mpeg4audio.AudioSpecificConfig{
+		Type:          pkt.Type,
+		SampleRate:    pkt.SampleRate,
+		ChannelConfig: pkt.ChannelConfig,
+		ChannelCount:  pkt.ChannelCount, //nolint:staticcheck
+	}, nil
 }
 
 func findAC3Parameters(dem *robustDemuxer, pid uint16) (int, int, error) {
-	for {
-		data, err := dem.nextData()
-		if err != nil {
-			return 0, 0, err
-		}
-
-		if data.PES == nil || data.PID != pid {
-			continue
-		}
-
-		var syncInfo ac3.SyncInfo
-		err = syncInfo.Unmarshal(data.PES.Data)
-		if err != nil {
-			return 0, 0, fmt.Errorf("invalid AC-3 frame: %w", err)
-		}
+	pes, err := dem.firstPES(pid)
+	if err != nil {
+		return 0, 0, err
+	}
 
-		var bsi ac3.BSI
-		err = bsi.Unmarshal(data.PES.Data[5:])
-		if err != nil {
-			return 0, 0, fmt.Errorf("invalid AC-3 frame: %w", err)
-		}
+	var syncInfo ac3.SyncInfo
+	err = syncInfo.Unmarshal(pes.Data)
+	if err != nil {
+		return 0, 0, fmt.Errorf("invalid AC-3 frame: %w", err)
+	}
 
-		return syncInfo.SampleRate(), bsi.ChannelCount(), nil
+	var bsi ac3.BSI
+	err = bsi.Unmarshal(pes.Data[5:])
+	if err != nil {
+		return 0, 0, fmt.Errorf("invalid AC-3 frame: %w", err)
 	}
+
+	return syncInfo.SampleRate(), bsi.ChannelCount(), nil
 }
 
 func findEAC3Parameters(dem *robustDemuxer, pid uint16) (int, int, error) {
-	for {
-		data, err := dem.nextData()
-		if err != nil {
-			return 0, 0, err
-		}
-
-		if data.PES == nil || data.PID != pid {
-			continue
-		}
-
-		var syncInfo eac3.SyncInfo
-		err = syncInfo.Unmarshal(data.PES.Data)
-		if err != nil {
-			return 0, 0, fmt.Errorf("invalid E-AC-3 frame: %w", err)
-		}
+	pes, err := dem.firstPES(pid)
+	if err != nil {
+		return 0, 0, err
+	}
 
-		return syncInfo.SampleRate(), syncInfo.ChannelCount(), nil
+	var syncInfo eac3.SyncInfo
+	err = syncInfo.Unmarshal(pes.Data)
+	if err != nil {
+		return 0, 0, fmt.Errorf("invalid E-AC-3 frame: %w", err)
 	}
+
+	return syncInfo.SampleRate(), syncInfo.ChannelCount(), nil
 }
 
 func findRegistrationIdentifier(descriptors []*astits.Descriptor) (uint32, bool) {
-- 
2.43.0


From 9b7e5dc04af6fff5bf06d664b4ee303fd2a38737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:06 +0000
Subject: [PATCH 32/51] fix: mpegts: return source errors that are, or wrap,
 io.EOF or io.ErrUnexpectedEOF

---
 pkg/formats/mpegts/robust_demuxer.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/formats/mpegts/robust_demuxer.go b/pkg/formats/mpegts/robust_demuxer.go
index 0498484..7589205 100644
--- a/pkg/formats/mpegts/robust_demuxer.go
+++ b/pkg/formats/mpegts/robust_demuxer.go
@@ -43,6 +43,8 @@ func (w wrappedError) Error() string {
 
 type errorWrapper struct {
 	R io.Reader
+
+	eof error
 }
 
 func (r *errorWrapper) Read(p []byte) (int, error) {
@@ -52,8 +54,11 @@ func (r *errorWrapper) Read(p []byte) (int, error) {
 		// since they are needed by astits to handle the last packet of a stream.
 		// they are transformed into astits.ErrNoMorePackets.
 		// https://github.com/asticode/go-astits/blob/7c2bf6b71173d24632371faa01f28a9122db6382/packet_buffer.go#L131
-		if !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
+		// errors that wrap them are not recognized by astits.
+		if err != io.EOF && err != io.ErrUnexpectedEOF { //nolint:errorlint
 			err = &wrappedError{w: err}
+		} else {
+			r.eof = err
 		}
 	}
 	return n, err
@@ -124,6 +129,7 @@ type robustDemuxer struct {
 	OnDecodeError func(err error)
 
 	dem            *astits.Demuxer
+	errorWrapper   *errorWrapper
 	ptsInterceptor *ptsInterceptor
 	firstPESs      map[uint16]*astits.PESData
 }
@@ -133,8 +139,8 @@ func (d *robustDemuxer) initialize() {
 		d.OnDecodeError = func(_ error) {}
 	}
 
-	errorWrapper := &errorWrapper{R: d.R}
-	d.ptsInterceptor = &ptsInterceptor{R: errorWrapper}
+	d.errorWrapper = &errorWrapper{R: d.R}
+	d.ptsInterceptor = &ptsInterceptor{R: d.errorWrapper}
 
 	d.dem = astits.NewDemuxer(
 		context.Background(),
@@ -149,7 +155,7 @@ func (d *robustDemuxer) nextData() (*robustDemuxerData, error) {
 		if err != nil {
 			// astits.ErrNoMorePackets / io.EOF: this is fatal.
 			if errors.Is(err, astits.ErrNoMorePackets) {
-				return nil, io.EOF // convert back to io.EOF.
+				return nil, d.errorWrapper.eof // convert back to io.EOF or io.ErrUnexpectedEOF.
 			}
 
 			// error from underlying reader: this is fatal.
-- 
2.43.0


From 0dbfcb70af536a3e73b0bafc1ea8cdfe566446c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:37 +0000
Subject: [PATCH 33/51] fix: mpegts: do not deliver remainders of lost PES as
 if they were PES

---
 pkg/formats/mpegts/robust_demuxer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/formats/mpegts/robust_demuxer.go b/pkg/formats/mpegts/robust_demuxer.go
index 7589205..8d3682d 100644
--- a/pkg/formats/mpegts/robust_demuxer.go
+++ b/pkg/formats/mpegts/robust_demuxer.go
@@ -169,6 +169,12 @@ func (d *robustDemuxer) nextData() (*robustDemuxerData, error) {
 			continue
 		}
 
+		// remainder of a PES whose start has been lost: astits would treat its content as a PES header.
+		if data.PES != nil && !data.FirstPacket.Header.PayloadUnitStartIndicator {
+			d.OnDecodeError(fmt.Errorf("received a PES without its first packet"))
+			continue
+		}
+
 		return &robustDemuxerData{
 			lastPTS: func() *int64 {
 				if d.ptsInterceptor.hasLastPTS {
-- 
2.43.0


From 348012fd179383de7e6cca29ed1b9cfd1068b04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:27 +0000
Subject: [PATCH 34/51] fix: mpegts: do not drop errors that the source returns
 together with data

---
 pkg/formats/mpegts/pre_demuxer.go | 14 +++++++++--
 pkg/rewindablereader/reader.go    | 41 ++++++++++++++++++++-----------
 2 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/pkg/formats/mpegts/pre_demuxer.go b/pkg/formats/mpegts/pre_demuxer.go
index 4e1ed83..7f5f32e 100644
--- a/pkg/formats/mpegts/pre_demuxer.go
+++ b/pkg/formats/mpegts/pre_demuxer.go
@@ -16,6 +16,7 @@ type preDemuxer struct {
 	buf1Pos int
 	buf2    []byte
 	buf2Pos int
+	err     error
 }
 
 func (r *preDemuxer) initialize() {
@@ -38,10 +39,19 @@ func (r *preDemuxer) Read(p []byte) (int, error) {
 			// This is mandatory in case of packet-based connections (UDP)
 			// and improves performance in case of stream-based connections.
 			if len(r.buf1[r.buf1Pos:]) == 0 {
-				n3, err := r.R.Read(r.buf1[:cap(r.buf1)])
-				if n3 == 0 && err != nil {
+				if r.err != nil {
+					err := r.err
+					r.err = nil
 					return 0, err
 				}
+
+				n3, err := r.R.Read(r.buf1[:cap(r.buf1)])
+				if err != nil {
+					if n3 == 0 {
+						return 0, err
+					}
+					r.err = err // process data first
+				}
 				r.buf1Pos = 0
 				r.buf1 = r.buf1[:n3]
 			}
diff --git a/pkg/rewindablereader/reader.go b/pkg/rewindablereader/reader.go
index c3563e9..682d230 100644
--- a/pkg/rewindablereader/reader.go
+++ b/pkg/rewindablereader/reader.go
@@ -10,11 +10,16 @@ const (
 	maxRecordedSize = 1 * 1024 * 1024
 )
 
+type entry struct {
+	data []byte
+	err  error
+}
+
 // Reader is a reader that can be (and must be) rewinded once.
 type Reader struct {
 	R io.Reader
 
-	entries  [][]byte
+	entries  []*entry
 	size     int
 	rewinded bool
 }
@@ -28,28 +33,36 @@ func (r *Reader) Read(p []byte) (int, error) {
 			return 0, errors.New("max recorded size exceeded")
 		}
 
-		entry := make([]byte, n)
-		copy(entry, p[:n])
-		r.entries = append(r.entries, entry)
+		e := &entry{data: make([]byte, n)}
+		copy(e.data, p[:n])
+
+		// errors returned together with data must be replayed together with data,
+		// since they have not necessarily been noticed.
+		if n > 0 {
+			e.err = err
+		}
+
+		r.entries = append(r.entries, e)
 		r.size += n
 		return n, err
 	}
 
 	if r.entries != nil {
-		entry := r.entries[0]
-		n := copy(p, entry)
+		e := r.entries[0]
+		n := copy(p, e.data)
+
+		if n != len(e.data) {
+			e.data = e.data[n:]
+			return n, nil
+		}
 
-		if n != len(entry) {
-			r.entries[0] = entry[n:]
-		} else {
-			r.entries = r.entries[1:]
+		r.entries = r.entries[1:]
 
-			if len(r.entries) == 0 {
-				r.entries = nil // release entries from memory
-			}
+		if len(r.entries) == 0 {
+			r.entries = nil // release entries from memory
 		}
 
-		return n, nil
+		return n, e.err
 	}
 
 	return r.R.Read(p)
-- 
2.43.0


From 10b858c025465580fe4009eda192091e48c18695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:14 +0000
Subject: [PATCH 35/51] fix: mpegts: skip duplicate packets

---
 pkg/formats/mpegts/robust_demuxer.go | 42 +++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/pkg/formats/mpegts/robust_demuxer.go b/pkg/formats/mpegts/robust_demuxer.go
index 8d3682d..aee8503 100644
--- a/pkg/formats/mpegts/robust_demuxer.go
+++ b/pkg/formats/mpegts/robust_demuxer.go
@@ -1,6 +1,7 @@
 package mpegts
 
 import (
+	"bytes"
 	"context"
 	"errors"
 	"fmt"
@@ -11,6 +12,7 @@ import (
 
 // this is a wrapper around astits.Demuxer with the following differences:
 // - non-fatal errors are not returned, but routed to OnDecodeError.
+// - duplicate packets are skipped.
 // - last PTS is intercepted and returned.
 
 const (
@@ -64,6 +66,43 @@ func (r *errorWrapper) Read(p []byte) (int, error) {
 	return n, err
 }
 
+// duplicateSkipper skips duplicate packets, which are allowed by the specification
+// but are treated by astits as discontinuities.
+type duplicateSkipper struct {
+	R io.Reader
+
+	lastPackets map[uint16][]byte
+}
+
+func (r *duplicateSkipper) Read(p []byte) (int, error) {
+	if len(p) != packetSize {
+		return 0, fmt.Errorf("unsupported")
+	}
+
+	for {
+		_, err := io.ReadFull(r.R, p)
+		if err != nil {
+			return 0, err
+		}
+
+		if hasPayload := (p[3]&0x10 > 0); hasPayload {
+			pid := uint16(p[1]&0x1f)<<8 | uint16(p[2])
+
+			lastPacket, ok := r.lastPackets[pid]
+			if !ok {
+				lastPacket = make([]byte, packetSize)
+				r.lastPackets[pid] = lastPacket
+			} else if bytes.Equal(p, lastPacket) {
+				continue
+			}
+
+			copy(lastPacket, p)
+		}
+
+		return packetSize, nil
+	}
+}
+
 type ptsInterceptor struct {
 	R io.Reader
 
@@ -140,7 +179,8 @@ func (d *robustDemuxer) initialize() {
 	}
 
 	d.errorWrapper = &errorWrapper{R: d.R}
-	d.ptsInterceptor = &ptsInterceptor{R: d.errorWrapper}
+	duplicateSkipper := &duplicateSkipper{R: d.errorWrapper, lastPackets: make(map[uint16][]byte)}
+	d.ptsInterceptor = &ptsInterceptor{R: duplicateSkipper}
 
 	d.dem = astits.NewDemuxer(
 		context.Background(),
-- 
2.43.0


From baea7a6a3213527c31f35869af1f6dac8cbb31ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 36/51] fix: mpegts: write valid packets after a failure of the
 destination

---
 pkg/formats/mpegts/writer.go | 60 +++++++++++++++++++++++++++++++++---
 1 file changed, 55 insertions(+), 5 deletions(-)

diff --git a/pkg/formats/mpegts/writer.go b/pkg/formats/mpegts/writer.go
index cf30ce3..ca7525b 100644
--- a/pkg/formats/mpegts/writer.go
+++ b/pkg/formats/mpegts/writer.go
@@ -50,13 +50,32 @@ func mpeg1AudioMarshalSize(frames [][]byte) int {
 	return n
 }
 
+// errorKeeper keeps write errors away from astits.Muxer, which would leave its bit writer
+// in the middle of a byte and then produce invalid packets.
+type errorKeeper struct {
+	w   io.Writer
+	n   int
+	err error
+}
+
+func (k *errorKeeper) Write(p []byte) (int, error) {
+	if k.err == nil {
+		var n int
+		n, k.err = k.w.Write(p)
+		k.n += n
+	}
+	return len(p), nil
+}
+
 // Writer is a MPEG-TS writer.
 type Writer struct {
 	W      io.Writer
 	Tracks []*Track
 
 	nextPID      uint16
+	errorKeeper  *errorKeeper
 	mux          *astits.Muxer
+	tablesLost   bool
 	pcrCounter   int
 	leadingTrack *Track
 }
@@ -65,9 +84,11 @@ type Writer struct {
 func (w *Writer) Initialize() error {
 	w.nextPID = 256
 
+	w.errorKeeper = &errorKeeper{w: w.W}
+
 	w.mux = astits.NewMuxer(
 		context.Background(),
-		w.W)
+		w.errorKeeper)
 
 	usedPIDs := make(map[uint16]struct{})
 	for _, track := range w.Tracks {
@@ -115,7 +136,36 @@ func (w *Writer) WriteTables() (int, error) {
 	if w.leadingTrack == nil && len(w.Tracks) > 0 {
 		w.mux.SetPCRPID(w.Tracks[0].PID)
 	}
-	return w.mux.WriteTables()
+
+	w.errorKeeper.n = 0
+
+	n, err := w.mux.WriteTables()
+	if w.errorKeeper.err != nil {
+		n, err = w.errorKeeper.n, w.errorKeeper.err
+		w.errorKeeper.err = nil
+	}
+	return n, err
+}
+
+func (w *Writer) writeMuxerData(d *astits.MuxerData) error {
+	// tables might have been among the packets that could not be written
+	if w.tablesLost {
+		_, err := w.WriteTables()
+		if err != nil {
+			return err
+		}
+	}
+
+	_, err := w.mux.WriteData(d)
+	if w.errorKeeper.err != nil {
+		err = w.errorKeeper.err
+		w.errorKeeper.err = nil
+		w.tablesLost = true
+		return err
+	}
+
+	w.tablesLost = false
+	return err
 }
 
 // NewWriter allocates a Writer.
@@ -395,7 +445,7 @@ func (w *Writer) writeVideo(
 		oh.PTS = &astits.ClockReference{Base: pts}
 	}
 
-	_, err := w.mux.WriteData(&astits.MuxerData{
+	err := w.writeMuxerData(&astits.MuxerData{
 		PID:             track.PID,
 		AdaptationField: af,
 		PES: &astits.PESData{
@@ -428,7 +478,7 @@ func (w *Writer) writeAudio(track *Track, pts int64, data []byte) error {
 		w.pcrCounter--
 	}
 
-	_, err := w.mux.WriteData(&astits.MuxerData{
+	err := w.writeMuxerData(&astits.MuxerData{
 		PID:             track.PID,
 		AdaptationField: af,
 		PES: &astits.PESData{
@@ -479,7 +529,7 @@ func (w *Writer) writeData(track *Track, hasPTS bool, pts int64, streamID uint8,
 		OptionalHeader: oh,
 	}
 
-	_, err := w.mux.WriteData(&astits.MuxerData{
+	err := w.writeMuxerData(&astits.MuxerData{
 		PID:             track.PID,
 		AdaptationField: af,
 		PES: &astits.PESData{
-- 
2.43.0


From 3adb9c6084b3aa423771a38edd7e85822c009675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 37/51] fix: mp4: report all errors of the destination

The marshaler of go-mp4 ignores errors that happen while writing slices, so that
Init.Marshal() and Part.Marshal() reported success after a short-lived failure of
the destination, with an incomplete output.
---
 internal/mp4/writer.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/internal/mp4/writer.go b/internal/mp4/writer.go
index e6b4875..f509c94 100644
--- a/internal/mp4/writer.go
+++ b/internal/mp4/writer.go
@@ -7,16 +7,34 @@ import (
 	amp4 "github.com/abema/go-mp4"
 )
 
+// errorKeeper keeps the first error returned by the destination,
+// since the marshaler of abema/go-mp4 ignores errors that happen while writing slices.
+type errorKeeper struct {
+	io.WriteSeeker
+	err error
+}
+
+// Write implements io.Writer.
+func (k *errorKeeper) Write(p []byte) (int, error) {
+	n, err := k.WriteSeeker.Write(p)
+	if err != nil && k.err == nil {
+		k.err = err
+	}
+	return n, err
+}
+
 // Writer is a wrapper around abema/go-mp4.Writer.
 type Writer struct {
 	W io.WriteSeeker
 
-	mw *amp4.Writer
+	keeper *errorKeeper
+	mw     *amp4.Writer
 }
 
 // Initialize initializes a Writer.
 func (w *Writer) Initialize() {
-	w.mw = amp4.NewWriter(w.W)
+	w.keeper = &errorKeeper{WriteSeeker: w.W}
+	w.mw = amp4.NewWriter(w.keeper)
 }
 
 // WriteBoxStart writes a box start.
@@ -31,6 +49,9 @@ func (w *Writer) WriteBoxStart(box amp4.IImmutableBox) (int, error) {
 	}
 
 	_, err = amp4.Marshal(w.mw, box, amp4.Context{})
+	if w.keeper.err != nil {
+		return 0, w.keeper.err
+	}
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 8fd33ca5dd1738882bdcf1a684294b3772b73e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:14 +0000
Subject: [PATCH 38/51] fix: fmp4: use flags of the first sample of track runs

---
 pkg/formats/fmp4/part.go  | 1 +
 pkg/formats/fmp4/parts.go | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/formats/fmp4/part.go b/pkg/formats/fmp4/part.go
index 349f262..8372c23 100644
--- a/pkg/formats/fmp4/part.go
+++ b/pkg/formats/fmp4/part.go
@@ -10,6 +10,7 @@ import (
 
 const (
 	trunFlagDataOffsetPreset                       = 0x01
+	trunFlagFirstSampleFlagsPresent                = 0x04
 	trunFlagSampleDurationPresent                  = 0x100
 	trunFlagSampleSizePresent                      = 0x200
 	trunFlagSampleFlagsPresent                     = 0x400
diff --git a/pkg/formats/fmp4/parts.go b/pkg/formats/fmp4/parts.go
index 53832f3..f4a9e8f 100644
--- a/pkg/formats/fmp4/parts.go
+++ b/pkg/formats/fmp4/parts.go
@@ -169,7 +169,9 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 						}
 
 						var sampleFlags uint32
-						if (trunFlags & trunFlagSampleFlagsPresent) != 0 {
+						if i == 0 && (trunFlags&trunFlagFirstSampleFlagsPresent) != 0 {
+							sampleFlags = trun.FirstSampleFlags
+						} else if (trunFlags & trunFlagSampleFlagsPresent) != 0 {
 							sampleFlags = e.SampleFlags
 						} else {
 							sampleFlags = tfhd.DefaultSampleFlags
-- 
2.43.0


From ab3f5b57598f1f96d9606ed6337f6aee7e108f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:29 +0000
Subject: [PATCH 39/51] fix: pmp4: read 64-bit durations of tracks

---
 pkg/formats/pmp4/presentation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 380b12b..bb8e127 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -180,7 +180,7 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 			}
 
 			curTrack.TimeScale = mdhd.Timescale
-			trackDuration = mdhd.DurationV0
+			trackDuration = uint32(mdhd.GetDuration())
 			state = waitingStsd
 
 		case "minf", "stbl":
-- 
2.43.0


From 6262b15f5ed758bf829a8f6786ed53295b6b39f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:28 +0000
Subject: [PATCH 40/51] fix: bits: return an error when golomb-encoded values
 do not fit in 32 bits

---
 pkg/bits/read.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/bits/read.go b/pkg/bits/read.go
index 2db2268..32077e7 100644
--- a/pkg/bits/read.go
+++ b/pkg/bits/read.go
@@ -3,6 +3,7 @@ package bits //nolint:revive
 
 import (
 	"fmt"
+	"math"
 )
 
 // HasSpace checks whether buffer has space for N bits.
@@ -88,6 +89,11 @@ func ReadGolombUnsigned(buf []byte, pos *int) (uint32, error) {
 		codeNum |= uint32(b) << (n - 1)
 	}
 
+	// values that do not fit in 32 bits
+	if leadingZeros == 32 && codeNum != 0 {
+		return 0, fmt.Errorf("invalid value")
+	}
+
 	codeNum = (1 << leadingZeros) - 1 + codeNum
 
 	return codeNum, nil
@@ -100,6 +106,10 @@ func ReadGolombSigned(buf []byte, pos *int) (int32, error) {
 		return 0, err
 	}
 
+	if v == math.MaxUint32 { // value does not fit in 32 bits
+		return 0, fmt.Errorf("invalid value")
+	}
+
 	if (v & 0x01) != 0 {
 		return int32(v>>1) + 1, nil
 	}
-- 
2.43.0


From 6dc8b971a9982b3caff016da33e4ec854e4cae4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:48 +0000
Subject: [PATCH 41/51] fix: mpeg4audio: return an error when a truncated
 raw_data_block has no channel elements

---
 pkg/codecs/mpeg4audio/count_channels.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pkg/codecs/mpeg4audio/count_channels.go b/pkg/codecs/mpeg4audio/count_channels.go
index 267b442..00c148a 100644
--- a/pkg/codecs/mpeg4audio/count_channels.go
+++ b/pkg/codecs/mpeg4audio/count_channels.go
@@ -51,7 +51,7 @@ func CountChannelsFromRawDataBlock(au []byte) (int, error) {
 			// Skip element_instance_tag (4 bits)
 			_, err = bits.ReadBits(au, &pos, 4)
 			if err != nil {
-				break
+				return 0, err
 			}
 			channels++
 			// We can't easily skip the rest of the SCE without fully parsing it,
@@ -63,7 +63,7 @@ func CountChannelsFromRawDataBlock(au []byte) (int, error) {
 			// Skip element_instance_tag (4 bits)
 			_, err = bits.ReadBits(au, &pos, 4)
 			if err != nil {
-				break
+				return 0, err
 			}
 			channels += 2
 			return channels, nil
@@ -73,7 +73,7 @@ func CountChannelsFromRawDataBlock(au []byte) (int, error) {
 			// Skip element_instance_tag (4 bits)
 			_, err = bits.ReadBits(au, &pos, 4)
 			if err != nil {
-				break
+				return 0, err
 			}
 			channels++
 			return channels, nil
@@ -94,19 +94,19 @@ func CountChannelsFromRawDataBlock(au []byte) (int, error) {
 			// Skip element_instance_tag (4 bits)
 			_, err = bits.ReadBits(au, &pos, 4)
 			if err != nil {
-				break
+				return 0, err
 			}
 			// data_byte_align_flag (1 bit)
 			var alignFlag bool
 			alignFlag, err = bits.ReadFlag(au, &pos)
 			if err != nil {
-				break
+				return 0, err
 			}
 			// count (8 bits)
 			var count uint64
 			count, err = bits.ReadBits(au, &pos, 8)
 			if err != nil {
-				break
+				return 0, err
 			}
 			totalCount := int(count)
 			// If count == 255, read esc_count
@@ -114,7 +114,7 @@ func CountChannelsFromRawDataBlock(au []byte) (int, error) {
 				var escCount uint64
 				escCount, err = bits.ReadBits(au, &pos, 8)
 				if err != nil {
-					break
+					return 0, err
 				}
 				totalCount += int(escCount)
 			}
@@ -133,14 +133,14 @@ func CountChannelsFromRawDataBlock(au []byte) (int, error) {
 			var count uint64
 			count, err = bits.ReadBits(au, &pos, 4)
 			if err != nil {
-				break
+				return 0, err
 			}
 			totalCount := int(count)
 			if count == 15 {
 				var escCount uint64
 				escCount, err = bits.ReadBits(au, &pos, 8)
 				if err != nil {
-					break
+					return 0, err
 				}
 				totalCount += int(escCount) - 1
 			}
-- 
2.43.0


From e447bf80f84dacde018d397009383ec1ad49d777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:48 +0000
Subject: [PATCH 42/51] fix: mpeg4audio: return an error when units do not fit
 into ADTS and LOAS length fields

---
 pkg/codecs/mpeg4audio/adts.go              | 4 ++++
 pkg/codecs/mpeg4audio/audio_sync_stream.go | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/pkg/codecs/mpeg4audio/adts.go b/pkg/codecs/mpeg4audio/adts.go
index 4d661a9..129e5cb 100644
--- a/pkg/codecs/mpeg4audio/adts.go
+++ b/pkg/codecs/mpeg4audio/adts.go
@@ -161,6 +161,10 @@ func (ps ADTSPackets) Marshal() ([]byte, error) {
 
 		frameLen := len(pkt.AU) + 7
 
+		if frameLen > 0x1FFF {
+			return nil, fmt.Errorf("AU size (%d) is too big", len(pkt.AU))
+		}
+
 		const fullness = 0x07FF // like ffmpeg does
 
 		buf[pos+0] = 0xFF
diff --git a/pkg/codecs/mpeg4audio/audio_sync_stream.go b/pkg/codecs/mpeg4audio/audio_sync_stream.go
index 2adb6f4..7d2c608 100644
--- a/pkg/codecs/mpeg4audio/audio_sync_stream.go
+++ b/pkg/codecs/mpeg4audio/audio_sync_stream.go
@@ -53,6 +53,11 @@ func (s AudioSyncStream) Marshal() ([]byte, error) {
 	for _, el := range s.AudioMuxElements {
 		shiftedSyncWord := 0x2B7 << 5
 		le := len(el)
+
+		if le > 0x1FFF {
+			return nil, fmt.Errorf("AudioMuxElement size (%d) is too big", le)
+		}
+
 		buf[n] = byte(shiftedSyncWord >> 8)
 		buf[n+1] = byte(shiftedSyncWord) | byte(le>>8)
 		buf[n+2] = byte(le)
-- 
2.43.0


From 075a16f6bb319688d04c1fd10473124419143459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:48 +0000
Subject: [PATCH 43/51] fix: mp4: return an error when H264 and H265 parameters
 do not fit into their length fields

---
 internal/mp4/codec_info.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/mp4/codec_info.go b/internal/mp4/codec_info.go
index b92d13b..dc91f61 100644
--- a/internal/mp4/codec_info.go
+++ b/internal/mp4/codec_info.go
@@ -2,6 +2,7 @@ package mp4
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/bluenviron/mediacommon/v2/pkg/codecs/av1"
 	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
@@ -47,6 +48,10 @@ func (ci *CodecInfo) Fill(codec codecs.Codec) error {
 			return fmt.Errorf("H265 parameters not provided")
 		}
 
+		if len(codec.VPS) > math.MaxUint16 || len(codec.SPS) > math.MaxUint16 || len(codec.PPS) > math.MaxUint16 {
+			return fmt.Errorf("H265 parameters are too big")
+		}
+
 		h265SPS := &h265.SPS{}
 		err := h265SPS.Unmarshal(codec.SPS)
 		if err != nil {
@@ -63,6 +68,10 @@ func (ci *CodecInfo) Fill(codec codecs.Codec) error {
 			return fmt.Errorf("H264 parameters not provided")
 		}
 
+		if len(codec.SPS) > math.MaxUint16 || len(codec.PPS) > math.MaxUint16 {
+			return fmt.Errorf("H264 parameters are too big")
+		}
+
 		h264SPS := &h264.SPS{}
 		err := h264SPS.Unmarshal(codec.SPS)
 		if err != nil {
-- 
2.43.0


From 0a095bf926491e30da3a0bb1e3f71d299732571d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:48 +0000
Subject: [PATCH 44/51] fix: mp4: return an error when the MPEG-4 Audio config
 cannot be encoded

---
 internal/mp4/codec_boxes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/mp4/codec_boxes.go b/internal/mp4/codec_boxes.go
index eb04178..1763ab2 100644
--- a/internal/mp4/codec_boxes.go
+++ b/internal/mp4/codec_boxes.go
@@ -1115,7 +1115,10 @@ func WriteCodecBoxes(w *Writer, codec codecs.Codec, trackID int, info *CodecInfo
 			return err
 		}
 
-		enc, _ := codec.Config.Marshal()
+		enc, err := codec.Config.Marshal()
+		if err != nil {
+			return err
+		}
 
 		_, err = w.WriteBox(&amp4.Esds{ // <esds/>
 			Descriptors: []amp4.Descriptor{
-- 
2.43.0


From 6991a5c953947af1d174e8ad85a6020b3ba6938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:24 +0000
Subject: [PATCH 45/51] fix: h265: parse slice headers with the PPS they refer
 to

---
 pkg/codecs/h265/dts_extractor.go | 40 ++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/pkg/codecs/h265/dts_extractor.go b/pkg/codecs/h265/dts_extractor.go
index 453ce4c..5ce9083 100644
--- a/pkg/codecs/h265/dts_extractor.go
+++ b/pkg/codecs/h265/dts_extractor.go
@@ -17,9 +17,11 @@ const (
 		(1 + 8 + (2 * 9 + 16 * (31 + 1)) / 8) * 4 / 3 = 101
 	*/
 	maxBytesToGetPOC = 101
+
+	maxPPSCount = 64
 )
 
-func getPTSDTSDiff(buf []byte, sps *SPS, pps *PPS) (int, error) {
+func getPTSDTSDiff(buf []byte, sps *SPS, ppss map[uint32]*PPS) (int, error) {
 	typ := NALUType((buf[0] >> 1) & 0b111111)
 	buf = buf[1:]
 	lb := min(len(buf), maxBytesToGetPOC)
@@ -40,11 +42,16 @@ func getPTSDTSDiff(buf []byte, sps *SPS, pps *PPS) (int, error) {
 		pos++ // no_output_of_prior_pics_flag
 	}
 
-	_, err = bits.ReadGolombUnsigned(buf, &pos) // slice_pic_parameter_set_id
+	ppsID, err := bits.ReadGolombUnsigned(buf, &pos) // slice_pic_parameter_set_id
 	if err != nil {
 		return 0, err
 	}
 
+	pps, ok := ppss[ppsID]
+	if !ok {
+		return 0, fmt.Errorf("PPS %d not received yet", ppsID)
+	}
+
 	if pps.NumExtraSliceHeaderBits > 0 {
 		err = bits.HasSpace(buf, pos, int(pps.NumExtraSliceHeaderBits))
 		if err != nil {
@@ -144,8 +151,7 @@ func getPTSDTSDiff(buf []byte, sps *SPS, pps *PPS) (int, error) {
 type DTSExtractor struct {
 	sps             []byte
 	spsp            *SPS
-	pps             []byte
-	ppsp            *PPS
+	ppss            map[uint32]*PPS
 	prevDTSFilled   bool
 	prevDTS         int64
 	randomReceived  bool
@@ -200,16 +206,20 @@ outer:
 			}
 
 		case NALUType_PPS_NUT:
-			if !bytes.Equal(d.pps, nalu) {
-				var ppsp PPS
-				err := ppsp.Unmarshal(nalu)
-				if err != nil {
-					return 0, fmt.Errorf("invalid PPS: %w", err)
-				}
+			var ppsp PPS
+			err := ppsp.Unmarshal(nalu)
+			if err != nil {
+				return 0, fmt.Errorf("invalid PPS: %w", err)
+			}
+
+			if ppsp.ID >= maxPPSCount {
+				return 0, fmt.Errorf("invalid PPS ID: %d", ppsp.ID)
+			}
 
-				d.ppsp = &ppsp
-				d.pps = nalu
+			if d.ppss == nil {
+				d.ppss = make(map[uint32]*PPS)
 			}
+			d.ppss[ppsp.ID] = &ppsp
 
 		case NALUType_IDR_W_RADL, NALUType_IDR_N_LP:
 			idr = nalu
@@ -229,7 +239,7 @@ outer:
 		return 0, fmt.Errorf("SPS not received yet")
 	}
 
-	if d.ppsp == nil {
+	if len(d.ppss) == 0 {
 		return 0, fmt.Errorf("PPS not received yet")
 	}
 
@@ -248,14 +258,14 @@ outer:
 
 	case cra != nil:
 		var err error
-		ptsDTSDiff, err = getPTSDTSDiff(cra, d.spsp, d.ppsp)
+		ptsDTSDiff, err = getPTSDTSDiff(cra, d.spsp, d.ppss)
 		if err != nil {
 			return 0, err
 		}
 
 	case nonIDR != nil:
 		var err error
-		ptsDTSDiff, err = getPTSDTSDiff(nonIDR, d.spsp, d.ppsp)
+		ptsDTSDiff, err = getPTSDTSDiff(nonIDR, d.spsp, d.ppss)
 		if err != nil {
 			return 0, err
 		}
-- 
2.43.0


From 45672b8307d81808405844bf10984ba085c0ed88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:12 +0000
Subject: [PATCH 46/51] fix: fmp4: accept initialization segments whose last
 box is the sample description

---
 internal/mp4/codec_boxes.go | 14 ++++++++++++--
 pkg/formats/fmp4/init.go    | 25 +++++++++++++++++++------
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/internal/mp4/codec_boxes.go b/internal/mp4/codec_boxes.go
index 1763ab2..7d29e3c 100644
--- a/internal/mp4/codec_boxes.go
+++ b/internal/mp4/codec_boxes.go
@@ -169,11 +169,21 @@ type CodecBoxesReader struct {
 	channelCount int
 }
 
+// End checks that codec-related boxes are complete.
+// It has to be called when there are no more boxes.
+func (r *CodecBoxesReader) End() error {
+	if r.state != waitingAdditional {
+		return fmt.Errorf("codec information not found")
+	}
+	return nil
+}
+
 // ReadCodecBoxes reads codec-related boxes.
 func (r *CodecBoxesReader) Read(h *amp4.ReadHandle) (any, error) {
 	if len(h.Path) < 7 {
-		if r.state != waitingAdditional {
-			return nil, fmt.Errorf("codec information not found")
+		err := r.End()
+		if err != nil {
+			return nil, err
 		}
 
 		return nil, ErrReadEnded
diff --git a/pkg/formats/fmp4/init.go b/pkg/formats/fmp4/init.go
index e28e2fa..42a3e89 100644
--- a/pkg/formats/fmp4/init.go
+++ b/pkg/formats/fmp4/init.go
@@ -36,6 +36,15 @@ func (i *Init) Unmarshal(r io.ReadSeeker) error {
 	var curTrack *InitTrack
 	var codecBoxesReader *imp4.CodecBoxesReader
 
+	codecEnd := func() {
+		if codecBoxesReader.Codec != nil {
+			curTrack.Codec = codecBoxesReader.Codec
+		} else {
+			i.Tracks = i.Tracks[:len(i.Tracks)-1]
+		}
+		state = waitingTrak
+	}
+
 	_, err := amp4.ReadBoxStructure(r, func(h *amp4.ReadHandle) (any, error) {
 		if err := imp4.CheckBox(h); err != nil {
 			return nil, err
@@ -64,12 +73,7 @@ func (i *Init) Unmarshal(r io.ReadSeeker) error {
 			ret, err := codecBoxesReader.Read(h)
 			if err != nil {
 				if errors.Is(err, imp4.ErrReadEnded) {
-					if codecBoxesReader.Codec != nil {
-						curTrack.Codec = codecBoxesReader.Codec
-					} else {
-						i.Tracks = i.Tracks[:len(i.Tracks)-1]
-					}
-					state = waitingTrak
+					codecEnd()
 				} else {
 					return nil, err
 				}
@@ -182,6 +186,15 @@ func (i *Init) Unmarshal(r io.ReadSeeker) error {
 		return err
 	}
 
+	// the sample description is the last box
+	if state == readingCodec {
+		err = codecBoxesReader.End()
+		if err != nil {
+			return err
+		}
+		codecEnd()
+	}
+
 	if state != waitingTrak && state != readingUserData {
 		return fmt.Errorf("parse error")
 	}
-- 
2.43.0


From 70fbc517050f7c2abec54dc3c2585aaff5141fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:32 +0000
Subject: [PATCH 47/51] fix: mpegts: skip duplicate packets whose clock
 reference has been updated

---
 pkg/formats/mpegts/robust_demuxer.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/formats/mpegts/robust_demuxer.go b/pkg/formats/mpegts/robust_demuxer.go
index aee8503..dad6070 100644
--- a/pkg/formats/mpegts/robust_demuxer.go
+++ b/pkg/formats/mpegts/robust_demuxer.go
@@ -66,6 +66,18 @@ func (r *errorWrapper) Read(p []byte) (int, error) {
 	return n, err
 }
 
+// isDuplicate checks whether a packet is a duplicate of another one.
+// ISO 13818-1, 2.4.3.3: "In duplicate packets each byte of the original packet shall be duplicated,
+// with the exception that in the program clock reference fields, if present, a valid value shall be encoded."
+func isDuplicate(a []byte, b []byte) bool {
+	hasPCR := a[3]&0x20 != 0 && a[4] >= 7 && a[5]&0x10 != 0
+	if hasPCR {
+		return bytes.Equal(a[:6], b[:6]) && bytes.Equal(a[12:], b[12:])
+	}
+
+	return bytes.Equal(a, b)
+}
+
 // duplicateSkipper skips duplicate packets, which are allowed by the specification
 // but are treated by astits as discontinuities.
 type duplicateSkipper struct {
@@ -92,7 +104,7 @@ func (r *duplicateSkipper) Read(p []byte) (int, error) {
 			if !ok {
 				lastPacket = make([]byte, packetSize)
 				r.lastPackets[pid] = lastPacket
-			} else if bytes.Equal(p, lastPacket) {
+			} else if isDuplicate(p, lastPacket) {
 				continue
 			}
 
-- 
2.43.0


From a9a671394b33110103d0c2e1a4b4cc2036e90787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:46 +0000
Subject: [PATCH 48/51] fix: seekablebuffer: honor position in all write
 methods

---
 .../fmp4/seekablebuffer/seekablebuffer.go     | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/pkg/formats/fmp4/seekablebuffer/seekablebuffer.go b/pkg/formats/fmp4/seekablebuffer/seekablebuffer.go
index e38cc90..71179ab 100644
--- a/pkg/formats/fmp4/seekablebuffer/seekablebuffer.go
+++ b/pkg/formats/fmp4/seekablebuffer/seekablebuffer.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"unicode/utf8"
 )
 
 // Buffer is a bytes.Buffer with an additional Seek() method.
@@ -32,6 +33,28 @@ func (b *Buffer) Write(p []byte) (int, error) {
 	return n, nil
 }
 
+// WriteString implements io.StringWriter.
+func (b *Buffer) WriteString(s string) (int, error) {
+	return b.Write([]byte(s))
+}
+
+// WriteByte implements io.ByteWriter.
+func (b *Buffer) WriteByte(c byte) error {
+	_, err := b.Write([]byte{c})
+	return err
+}
+
+// WriteRune writes a rune.
+func (b *Buffer) WriteRune(r rune) (int, error) {
+	return b.Write(utf8.AppendRune(nil, r))
+}
+
+// ReadFrom implements io.ReaderFrom.
+func (b *Buffer) ReadFrom(r io.Reader) (int64, error) {
+	// hide ReadFrom() in order to use Write()
+	return io.Copy(struct{ io.Writer }{b}, r)
+}
+
 // Read implements io.Reader.
 func (b *Buffer) Read(_ []byte) (int, error) {
 	return 0, fmt.Errorf("unimplemented")
-- 
2.43.0


From 10853579ba1b4a0e3ad31244fa738d283fba2ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:46 +0000
Subject: [PATCH 49/51] fix: mp4: return an error when VP9 and M-JPEG sizes do
 not fit into their fields

---
 internal/mp4/codec_info.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/mp4/codec_info.go b/internal/mp4/codec_info.go
index dc91f61..e09c341 100644
--- a/internal/mp4/codec_info.go
+++ b/internal/mp4/codec_info.go
@@ -35,10 +35,14 @@ func (ci *CodecInfo) Fill(codec codecs.Codec) error {
 		return nil
 
 	case *codecs.VP9:
-		if codec.Width == 0 {
+		if codec.Width <= 0 || codec.Height <= 0 {
 			return fmt.Errorf("VP9 parameters not provided")
 		}
 
+		if codec.Width > math.MaxUint16 || codec.Height > math.MaxUint16 {
+			return fmt.Errorf("VP9 frames are too big")
+		}
+
 		ci.Width = codec.Width
 		ci.Height = codec.Height
 		return nil
@@ -104,10 +108,14 @@ func (ci *CodecInfo) Fill(codec codecs.Codec) error {
 		return nil
 
 	case *codecs.MJPEG:
-		if codec.Width == 0 {
+		if codec.Width <= 0 || codec.Height <= 0 {
 			return fmt.Errorf("M-JPEG parameters not provided")
 		}
 
+		if codec.Width > math.MaxUint16 || codec.Height > math.MaxUint16 {
+			return fmt.Errorf("M-JPEG frames are too big")
+		}
+
 		ci.Width = codec.Width
 		ci.Height = codec.Height
 		return nil
-- 
2.43.0


From dfed2cc7a8a0677de0b7ddd55f23d04da26cbff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:46 +0000
Subject: [PATCH 50/51] fix: mp4: write valid sample rates of FLAC and MPEG-4
 audio tracks above 65535 Hz

---
 internal/mp4/codec_boxes.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/internal/mp4/codec_boxes.go b/internal/mp4/codec_boxes.go
index 7d29e3c..f39fde0 100644
--- a/internal/mp4/codec_boxes.go
+++ b/internal/mp4/codec_boxes.go
@@ -2,6 +2,7 @@ package mp4
 
 import (
 	"fmt"
+	"math"
 
 	amp4 "github.com/abema/go-mp4"
 
@@ -23,6 +24,22 @@ func boolToUint8(v bool) uint8 {
 	return 0
 }
 
+// audioSampleRate returns the sample rate of an audio sample entry, in 16.16 format.
+// When the sample rate does not fit, the greatest regular division that fits is used.
+func audioSampleRate(v int) uint32 {
+	if v <= math.MaxUint16 {
+		return uint32(v) << 16
+	}
+
+	for i := 2; i <= 16; i++ {
+		if (v%i) == 0 && (v/i) <= math.MaxUint16 {
+			return uint32(v/i) << 16
+		}
+	}
+
+	return math.MaxUint16 << 16
+}
+
 func av1FindSequenceHeader(buf []byte) ([]byte, error) {
 	var tu av1.Bitstream
 	err := tu.Unmarshal(buf)
@@ -1065,7 +1082,7 @@ func WriteCodecBoxes(w *Writer, codec codecs.Codec, trackID int, info *CodecInfo
 			},
 			ChannelCount: uint16(codec.StreamInfo.ChannelCount),
 			SampleSize:   uint16(codec.StreamInfo.BitDepth),
-			SampleRate:   codec.StreamInfo.SampleRate * 65536,
+			SampleRate:   audioSampleRate(int(codec.StreamInfo.SampleRate)),
 		})
 		if err != nil {
 			return err
@@ -1119,7 +1136,7 @@ func WriteCodecBoxes(w *Writer, codec codecs.Codec, trackID int, info *CodecInfo
 			},
 			ChannelCount: channelCount,
 			SampleSize:   16,
-			SampleRate:   uint32(codec.Config.SampleRate * 65536),
+			SampleRate:   audioSampleRate(codec.Config.SampleRate),
 		})
 		if err != nil {
 			return err
-- 
2.43.0


From 646e61b11bebf4d9a8d3126208a42082406f3733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:33 +0000
Subject: [PATCH 51/51] fix: mpegts/codecs: do not report MPEG-1 audio tracks
 as video

---
 pkg/formats/mpegts/codecs/mpeg1_audio.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/formats/mpegts/codecs/mpeg1_audio.go b/pkg/formats/mpegts/codecs/mpeg1_audio.go
index 149aa6b..f74c409 100644
--- a/pkg/formats/mpegts/codecs/mpeg1_audio.go
+++ b/pkg/formats/mpegts/codecs/mpeg1_audio.go
@@ -11,7 +11,7 @@ type MPEG1Audio struct {
 
 // IsVideo implements Codec.
 func (*MPEG1Audio) IsVideo() bool {
-	return true
+	return false
 }
 
 func (*MPEG1Audio) isCodec() {}
-- 
2.43.0

