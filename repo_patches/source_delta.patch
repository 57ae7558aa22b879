From a2ca592cbd92e74e4e1a17ebf62eee9e07f344d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:11 +0000
Subject: [PATCH 01/33] fix: read padding bytes completely

A Read may return fewer bytes than asked for, or none, so padding was
taken as read when it was not and the rest of the document was misread.
---
 util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util.go b/util.go
index cddf128..63f5699 100644
--- a/util.go
+++ b/util.go
@@ -97,7 +97,7 @@ func readUnicodeString(b []byte) string {
 func adjustAlign2(r io.Reader, l int) (read int, err error) {
 	if l&1 != 0 {
 		var b [1]byte
-		return r.Read(b[:])
+		return io.ReadFull(r, b[:])
 	}
 	return 0, nil
 }
@@ -105,7 +105,7 @@ func adjustAlign2(r io.Reader, l int) (read int, err error) {
 func adjustAlign4(r io.Reader, l int) (read int, err error) {
 	if gap := l & 3; gap > 0 {
 		var b [4]byte
-		return r.Read(b[:4-gap])
+		return io.ReadFull(r, b[:4-gap])
 	}
 	return 0, nil
 }
-- 
2.43.0


From 1a7d338d8c7153ce6f0bfe2afc1e2d1a58ebd95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:12 +0000
Subject: [PATCH 02/33] fix: use the row size in bytes for RLE compressed data

The PackBits workers split the destination by pixels instead of bytes, so
16 and 32 bit images could not be decoded when more than one was used.
---
 compress.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/compress.go b/compress.go
index 5482877..6475abe 100644
--- a/compress.go
+++ b/compress.go
@@ -32,13 +32,7 @@ func (cm CompressionMethod) Decode(dest []byte, r io.Reader, sizeHint int64, rec
 	case CompressionMethodRaw:
 		return io.ReadFull(r, dest)
 	case CompressionMethodRLE:
-		var width int
-		if depth == 1 {
-			width = (rect.Dx() + 7) >> 3
-		} else {
-			width = rect.Dx()
-		}
-		return decodePackBits(dest, r, width, rect.Dy()*channels, large)
+		return decodePackBits(dest, r, (rect.Dx()*depth+7)>>3, rect.Dy()*channels, large)
 	case CompressionMethodZIPWithoutPrediction:
 		return decodeZLIB(dest, r, sizeHint)
 	case CompressionMethodZIPWithPrediction:
-- 
2.43.0


From 7e814b201299c83a08b56ec78ffff452392e1d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:12 +0000
Subject: [PATCH 03/33] fix: discard bytes correctly on every kind of reader

Skipping with Seek succeeded beyond the end of the stream, so truncated
documents were accepted, and failed on things that have Seek but cannot
seek, such as pipes. A negative length moved backwards.
---
 util.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/util.go b/util.go
index 63f5699..ba2917d 100644
--- a/util.go
+++ b/util.go
@@ -1,6 +1,7 @@
 package psd
 
 import (
+	"errors"
 	"io"
 	"io/ioutil"
 	"math"
@@ -114,18 +115,29 @@ func discard(r io.Reader, skip int) (read int, err error) {
 	type discarder interface {
 		Discard(n int) (discarded int, err error)
 	}
+	if skip < 0 {
+		return 0, errors.New("psd: invalid data length " + itoa(skip))
+	}
+	if skip == 0 {
+		return 0, nil
+	}
 	switch rr := r.(type) {
 	case discarder:
 		return rr.Discard(skip)
 	case io.Seeker:
-		if _, err = rr.Seek(int64(skip), 1); err != nil {
-			return 0, err
+		// Seeking beyond the end is not an error,
+		// so read the last byte to make sure that all the bytes are there.
+		if _, err = rr.Seek(int64(skip-1), 1); err == nil {
+			var b [1]byte
+			if _, err = io.ReadFull(r, b[:]); err != nil {
+				return 0, err
+			}
+			return skip, nil
 		}
-		return skip, nil
-	default:
-		rd, err := io.CopyN(ioutil.Discard, r, int64(skip))
-		return int(rd), err
+		// There are readers that have Seek but are unable to seek, such as a pipe.
 	}
+	rd, err := io.CopyN(ioutil.Discard, r, int64(skip))
+	return int(rd), err
 }
 
 func readPascalString(r io.Reader) (str string, read int, err error) {
-- 
2.43.0


From dcb3dc1fd54415816e20826156ccde981aab1767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:12 +0000
Subject: [PATCH 04/33] fix: the rectangle of the real user mask is signed

---
 layer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layer.go b/layer.go
index 7771a92..3239748 100644
--- a/layer.go
+++ b/layer.go
@@ -791,8 +791,8 @@ func readLayerMaskAndAdjustmentLayerData(r io.Reader, layer *Layer, cfg *Config,
 	read += l
 	readMask += l
 	layer.Mask.RealRect = image.Rect(
-		int(readUint32(b, 4)), int(readUint32(b, 0)),
-		int(readUint32(b, 12)), int(readUint32(b, 8)),
+		int(int32(readUint32(b, 4))), int(int32(readUint32(b, 0))),
+		int(int32(readUint32(b, 12))), int(int32(readUint32(b, 8))),
 	)
 
 	return read, nil
-- 
2.43.0


From 571b93a99efdd0c4fc1aa12eab0d04cfa6480f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:13 +0000
Subject: [PATCH 05/33] fix: undo the prediction of 8 and 32 bit ZIP compressed
 data

8 bit data was left as differences. In 32 bit data the bytes of a row are
grouped by significance and the differences are between bytes.
---
 compress.go | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/compress.go b/compress.go
index 6475abe..b7ab3e8 100644
--- a/compress.go
+++ b/compress.go
@@ -70,6 +70,16 @@ func decodeZLIB(dest []byte, r io.Reader, length int64) (read int, err error) {
 
 func decodeDelta(buf []byte, width int, depth int) {
 	switch depth {
+	case 8:
+		var d byte
+		for i := 0; i < len(buf); {
+			d = 0
+			for j := 0; j < width; j++ {
+				d += buf[i]
+				buf[i] = d
+				i++
+			}
+		}
 	case 16:
 		var d uint16
 		for i := 0; i < len(buf); {
@@ -81,14 +91,24 @@ func decodeDelta(buf []byte, width int, depth int) {
 			}
 		}
 	case 32:
-		var d uint32
-		for i := 0; i < len(buf); {
-			d = 0
-			for j := 0; j < width; j++ {
-				d += readUint32(buf, i)
-				writeUint32(buf, d, i)
-				i += 4
+		// The bytes of a row are grouped by their significance:
+		// the highest bytes of all pixels, the second highest bytes and so on.
+		// The difference is taken between the neighboring bytes.
+		n := width << 2
+		row := make([]byte, n)
+		for len(buf) > 0 {
+			var d byte
+			for i := range row {
+				d += buf[i]
+				row[i] = d
+			}
+			for i := 0; i < width; i++ {
+				buf[i<<2] = row[i]
+				buf[i<<2+1] = row[width+i]
+				buf[i<<2+2] = row[width<<1+i]
+				buf[i<<2+3] = row[width*3+i]
 			}
+			buf = buf[n:]
 		}
 	}
 }
-- 
2.43.0


From 3be1f65a37858dc1250b242892c16a0648946f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:11 +0000
Subject: [PATCH 06/33] fix: decode every PackBits row into its own part of the
 image

Rows that are too short or too long shifted or broke the rows after them,
but only those that the same worker decoded, so the result of decoding a
broken image depended on the number of workers.
---
 compress_other.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/compress_other.go b/compress_other.go
index 9b7e084..3768b99 100644
--- a/compress_other.go
+++ b/compress_other.go
@@ -49,8 +49,8 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 	for n > 1 && n<<1 > lines {
 		n--
 	}
-	if n == 1 {
-		err = decodePackBitsPerLine(dest, buf, lens)
+	if n <= 1 {
+		err = decodePackBitsLines(dest, buf, width, lens)
 		return
 	}
 
@@ -62,13 +62,13 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 	for i := 1; i < n; i++ {
 		go func(index int, dest []byte, buf []byte, lens []int) {
 			defer wg.Done()
-			errs[index] = decodePackBitsPerLine(dest, buf, lens)
+			errs[index] = decodePackBitsLines(dest, buf, width, lens)
 		}(i-1, dest[ofs*width:(ofs+step)*width], buf[offsets[ofs]:offsets[ofs+step]], lens[ofs:ofs+step])
 		ofs += step
 	}
 	go func() {
 		defer wg.Done()
-		errs[n-1] = decodePackBitsPerLine(dest[ofs*width:], buf[offsets[ofs]:], lens[ofs:])
+		errs[n-1] = decodePackBitsLines(dest[ofs*width:], buf[offsets[ofs]:], width, lens[ofs:])
 	}()
 	wg.Wait()
 	for i := 0; i < n; i++ {
@@ -80,6 +80,18 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 	return
 }
 
+// decodePackBitsLines decodes each line into its own part of dest,
+// so that a broken line never affects the other lines.
+func decodePackBitsLines(dest []byte, buf []byte, width int, lens []int) error {
+	for i, ln := range lens {
+		if err := decodePackBitsPerLine(dest[i*width:(i+1)*width], buf[:ln], lens[i:i+1]); err != nil {
+			return err
+		}
+		buf = buf[ln:]
+	}
+	return nil
+}
+
 func decodePackBitsPerLine(dest []byte, buf []byte, lens []int) error {
 	var l int
 	for _, ln := range lens {
-- 
2.43.0


From 538271991e806df308bbe82d6f356217280bde85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:11 +0000
Subject: [PATCH 07/33] fix: do not panic on inconsistent headers and image
 resources

A color table, transparency index or alpha identifiers resource that is too
short, too few channels for the color mode, and depths that do not go with
the color mode caused a panic in Decode or when the image was read.
---
 imageres.go |  2 +-
 psd.go      | 19 +++++++++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/imageres.go b/imageres.go
index af5f22a..dd67a57 100644
--- a/imageres.go
+++ b/imageres.go
@@ -108,7 +108,7 @@ func hasAlphaID0(Res map[int]ImageResource) bool {
 	if !ok {
 		return true
 	}
-	for i, ln := 0, len(aid.Data); i < ln; i += 4 {
+	for i, ln := 0, len(aid.Data); i+4 <= ln; i += 4 {
 		if readUint32(aid.Data, i) == 0 {
 			return true
 		}
diff --git a/psd.go b/psd.go
index 4e66663..a4b4273 100644
--- a/psd.go
+++ b/psd.go
@@ -84,7 +84,7 @@ func (cfg *Config) PSB() bool {
 
 // Palette returns Palette if any.
 func (cfg *Config) Palette() color.Palette {
-	if cfg.ColorMode != ColorModeIndexed {
+	if cfg.ColorMode != ColorModeIndexed || len(cfg.ColorModeData) < 768 {
 		return nil
 	}
 
@@ -92,7 +92,7 @@ func (cfg *Config) Palette() color.Palette {
 	// 0x0417(1046) | (Photoshop 6.0) Transparency Index.
 	//                2 bytes for the index of transparent color, if any.
 	transparentColorIndex := -1
-	if r, ok := cfg.Res[0x0417]; ok {
+	if r, ok := cfg.Res[0x0417]; ok && len(r.Data) >= 2 {
 		transparentColorIndex = int(readUint16(r.Data, 0))
 	}
 	pal := make(color.Palette, len(cfg.ColorModeData)/3)
@@ -115,10 +115,21 @@ func (cfg *Config) makePicker() (picker, error) {
 	var pk picker
 	switch cfg.ColorMode {
 	case ColorModeIndexed:
-		pk = &pickerPalette{Palette: cfg.Palette()}
+		if cfg.Depth == 8 {
+			pal := cfg.Palette()
+			if pal == nil {
+				return nil, errors.New("psd: color table is broken")
+			}
+			pk = &pickerPalette{Palette: pal}
+		}
 	case ColorModeBitmap:
-		pk = &pickerGray1{}
+		if cfg.Depth == 1 {
+			pk = &pickerGray1{}
+		}
 	default:
+		if cfg.Channels < cfg.ColorMode.Channels() {
+			return nil, errors.New("psd: the number of channels is too few for color mode " + itoa(int(cfg.ColorMode)))
+		}
 		pk = findPicker(cfg.Depth, cfg.ColorMode, cfg.Channels > cfg.ColorMode.Channels() && hasAlphaID0(cfg.Res))
 	}
 	if pk == nil {
-- 
2.43.0


From b966bd4d264d004966a1111e8544a43d58e17c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:11 +0000
Subject: [PATCH 08/33] fix: do not panic on unexpected layer channels

Layers of an unsupported color mode, channel numbers that the color mode
does not have, missing color channels and absurdly large rectangles caused
a panic in Decode or when the layer image was read.
---
 layer.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/layer.go b/layer.go
index 3239748..6cc2ca0 100644
--- a/layer.go
+++ b/layer.go
@@ -441,9 +441,13 @@ func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions) (layer []Layer, r
 func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *DecodeOptions) (read int, err error) {
 	var l int
 	b := make([]byte, 2)
+	numCh := cfg.ColorMode.Channels()
+	if len(lcis) > 0 && findPicker(cfg.Depth, cfg.ColorMode, false) == nil {
+		return read, errors.New("psd: layer image of color mode " + itoa(int(cfg.ColorMode)) + " depth " + itoa(cfg.Depth) + " is not implemented")
+	}
 	for i, lci := range lcis {
 		chMap := map[int]Channel{}
-		pickerChs := make([][]byte, cfg.ColorMode.Channels(), 8)
+		pickerChs := make([][]byte, numCh, 8)
 		for _, j := range lci.ChannelData {
 			var readCh int
 			if j.DataLen >= 2 {
@@ -469,6 +473,9 @@ func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *Decode
 			default:
 				rect = lci.Layer.Rect
 			}
+			if !rect.Empty() && (rect.Dx() > 300000 || rect.Dy() > 300000) {
+				return read, errors.New("psd: layer: " + itoa(i) + " channel: " + itoa(j.ChIndex) + " is too large")
+			}
 			data := make([]byte, (rect.Dx()*cfg.Depth+7)>>3*rect.Dy())
 			pk := findGrayPicker(cfg.Depth)
 			pk.setSource(rect, data)
@@ -497,14 +504,21 @@ func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *Decode
 				Picker: pk,
 			}
 			switch {
-			case j.ChIndex >= 0:
+			case j.ChIndex >= 0 && j.ChIndex < numCh:
 				pickerChs[j.ChIndex] = data
 			case j.ChIndex == -1:
 				pickerChs = append(pickerChs, data)
 			}
 		}
-		pk := findPicker(cfg.Depth, cfg.ColorMode, cfg.ColorMode.Channels() < len(pickerChs))
-		pk.setSource(lci.Layer.Rect, pickerChs...)
+		pk := findPicker(cfg.Depth, cfg.ColorMode, numCh < len(pickerChs))
+		rect := lci.Layer.Rect
+		for _, ch := range pickerChs[:numCh] {
+			if ch == nil {
+				// There is nothing to show if any color channel is missing.
+				rect = image.Rectangle{}
+			}
+		}
+		pk.setSource(rect, pickerChs...)
 		lci.Layer.Picker = pk
 		lci.Layer.Channel = chMap
 		if o.LayerImageLoaded != nil {
-- 
2.43.0


From 5abc9cf2dbaf4a42d63cfa0296b1e5e4e2480332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:12 +0000
Subject: [PATCH 09/33] fix: do not panic on short layer names and section
 dividers

---
 layer.go | 10 +++++++++-
 util.go  | 14 ++++++++++----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/layer.go b/layer.go
index 6cc2ca0..a758971 100644
--- a/layer.go
+++ b/layer.go
@@ -225,6 +225,9 @@ func buildTree(layer []Layer) ([]Layer, error) {
 func readSectionDividerSetting(l *Layer) (typ int, blendMode BlendMode, subType int, err error) {
 	b, ok := l.AdditionalLayerInfo[AdditionalInfoKeySectionDividerSetting]
 	if ok {
+		if len(b) < 4 {
+			return 0, "", 0, errors.New("psd: section divider setting is too short")
+		}
 		typ = int(readUint32(b, 0))
 		if len(b) < 12 {
 			return typ, "", 0, nil
@@ -241,6 +244,9 @@ func readSectionDividerSetting(l *Layer) (typ int, blendMode BlendMode, subType
 	}
 	b, ok = l.AdditionalLayerInfo[AdditionalInfoKeySectionDividerSetting2]
 	if ok {
+		if len(b) < 4 {
+			return 0, "", 0, errors.New("psd: section divider setting 2 is too short")
+		}
 		typ = int(readUint32(b, 0))
 		if len(b) < 12 {
 			return typ, "", 0, nil
@@ -362,7 +368,9 @@ func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions) (layer []Layer, r
 		read += l
 
 		if data, ok := layer.AdditionalLayerInfo[AdditionalInfoKeyUnicodeLayerName]; ok && data != nil {
-			layer.UnicodeName = readUnicodeString(data)
+			if layer.UnicodeName, err = readUnicodeString(data); err != nil {
+				return nil, read, err
+			}
 			layer.Name = layer.UnicodeName
 			delete(layer.AdditionalLayerInfo, AdditionalInfoKeyUnicodeLayerName)
 		} else {
diff --git a/util.go b/util.go
index ba2917d..23d38b7 100644
--- a/util.go
+++ b/util.go
@@ -83,16 +83,22 @@ func writeUint32(b []byte, v uint32, offset int) {
 	b[offset+3] = uint8(v)
 }
 
-func readUnicodeString(b []byte) string {
-	ln := readUint32(b, 0)
+func readUnicodeString(b []byte) (string, error) {
+	if len(b) < 4 {
+		return "", errors.New("psd: unicode string is too short")
+	}
+	ln := int(readUint32(b, 0))
 	if ln == 0 {
-		return ""
+		return "", nil
+	}
+	if ln < 0 || ln > (len(b)-4)>>1 {
+		return "", errors.New("psd: unicode string is too short")
 	}
 	buf := make([]uint16, ln)
 	for i := range buf {
 		buf[i] = readUint16(b, 4+i<<1)
 	}
-	return string(utf16.Decode(buf))
+	return string(utf16.Decode(buf)), nil
 }
 
 func adjustAlign2(r io.Reader, l int) (read int, err error) {
-- 
2.43.0


From 14675a989973222cfed05f44544c613e919f0be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:17 +0000
Subject: [PATCH 10/33] fix: do not trust stored lengths when allocating memory

A broken length caused a panic, or allocated the memory for data that is
not there.
---
 compress_other.go |  5 ++---
 imageres.go       |  7 +++----
 layer.go          |  5 ++---
 psd.go            |  5 ++---
 util.go           | 24 ++++++++++++++++++++++++
 5 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/compress_other.go b/compress_other.go
index 3768b99..2c8439a 100644
--- a/compress_other.go
+++ b/compress_other.go
@@ -39,11 +39,10 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 		}
 	}
 
-	buf = make([]byte, total)
-	if l, err = io.ReadFull(r, buf); err != nil {
+	if buf, err = readBytes(r, total); err != nil {
 		return
 	}
-	read += l
+	read += len(buf)
 
 	n := runtime.GOMAXPROCS(0)
 	for n > 1 && n<<1 > lines {
diff --git a/imageres.go b/imageres.go
index dd67a57..0868f0e 100644
--- a/imageres.go
+++ b/imageres.go
@@ -76,12 +76,11 @@ func readImageResource(r io.Reader) (resMap map[int]ImageResource, read int, err
 			return nil, read, err
 		}
 		read += l
-		res.Data = make([]byte, readUint32(b, 0))
-		if l, err = io.ReadFull(r, res.Data); err != nil {
+		if res.Data, err = readBytes(r, int(readUint32(b, 0))); err != nil {
 			return nil, read, err
 		}
-		read += l
-		if l, err = adjustAlign2(r, l); err != nil {
+		read += len(res.Data)
+		if l, err = adjustAlign2(r, len(res.Data)); err != nil {
 			return nil, read, err
 		}
 		read += l
diff --git a/layer.go b/layer.go
index a758971..81b846a 100644
--- a/layer.go
+++ b/layer.go
@@ -872,11 +872,10 @@ func readAdditionalLayerInfo(r io.Reader, infoLen int, cfg *Config, o *DecodeOpt
 			read += l
 			var data []byte
 			if ln := int(readUint(b, 0, intSize)); ln > 0 {
-				data = make([]byte, ln)
-				if l, err = io.ReadFull(r, data); err != nil {
+				if data, err = readBytes(r, ln); err != nil {
 					return nil, nil, read, err
 				}
-				read += l
+				read += len(data)
 			}
 			infos[key] = data
 			if Debug != nil {
diff --git a/psd.go b/psd.go
index a4b4273..c0237c3 100644
--- a/psd.go
+++ b/psd.go
@@ -194,11 +194,10 @@ func DecodeConfig(r io.Reader) (cfg Config, read int, err error) {
 	cfg.ColorMode = ColorMode(readUint16(b, 24))
 
 	if ln := readUint32(b, 26); ln > 0 {
-		cfg.ColorModeData = make([]byte, ln)
-		if l, err = io.ReadFull(r, cfg.ColorModeData); err != nil {
+		if cfg.ColorModeData, err = readBytes(r, int(ln)); err != nil {
 			return Config{}, read, err
 		}
-		read += l
+		read += len(cfg.ColorModeData)
 	}
 	if Debug != nil {
 		Debug.Println("start - header")
diff --git a/util.go b/util.go
index 23d38b7..1a05405 100644
--- a/util.go
+++ b/util.go
@@ -1,6 +1,7 @@
 package psd
 
 import (
+	"bytes"
 	"errors"
 	"io"
 	"io/ioutil"
@@ -117,6 +118,29 @@ func adjustAlign4(r io.Reader, l int) (read int, err error) {
 	return 0, nil
 }
 
+// readBytes reads exactly n bytes.
+// It does not trust n, so a broken length ends up with an error from r
+// before it allocates the memory for it.
+func readBytes(r io.Reader, n int) (b []byte, err error) {
+	const chunk = 1 << 20
+	if n < 0 {
+		return nil, errors.New("psd: invalid data length " + itoa(n))
+	}
+	if n <= chunk {
+		b = make([]byte, n)
+		_, err = io.ReadFull(r, b)
+		return b, err
+	}
+	var buf bytes.Buffer
+	if _, err = io.CopyN(&buf, r, int64(n)); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+		return nil, err
+	}
+	return buf.Bytes(), nil
+}
+
 func discard(r io.Reader, skip int) (read int, err error) {
 	type discarder interface {
 		Discard(n int) (discarded int, err error)
-- 
2.43.0


From 89d0c2ae615fbd41660fc6a62166def1a397f8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:33 +0000
Subject: [PATCH 11/33] fix: do not draw overlapping parts of an image in
 parallel

---
 blend/draw.go | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/blend/draw.go b/blend/draw.go
index af44cdf..d9d65f3 100644
--- a/blend/draw.go
+++ b/blend/draw.go
@@ -37,6 +37,9 @@ func (f drawFunc) Parallel(dest []byte, src []byte, alpha uint32, d0 int, s0 int
 	for n > 1 && n<<1 > y {
 		n--
 	}
+	if n > 1 && alias(dest, src) && &dest[d0] != &src[s0] {
+		n = 1 // rows that are still to be read must not be overwritten
+	}
 	if n == 1 {
 		f(dest, src, alpha, d0, s0, y, sx0, sx1, sxDelta, syDelta, dx0, dx1, dxDelta, dyDelta)
 		return
@@ -102,6 +105,9 @@ func (f drawFallbackFunc) Parallel(dst draw.Image, pX int, pY int, src image.Ima
 	for n > 1 && n<<1 > y {
 		n--
 	}
+	if n > 1 && (spY != pY && shared(dst, src) || mpY != pY && shared(dst, mask)) {
+		n = 1 // rows that are still to be read must not be overwritten
+	}
 	if n == 1 {
 		f(dst, pX, pY, src, spX, spY, mask, mpX, mpY, endX, endY, dx, dy)
 		return
@@ -127,6 +133,42 @@ func (f drawFallbackFunc) Parallel(dst draw.Image, pX int, pY int, src image.Ima
 	wg.Wait()
 }
 
+// alias reports whether x and y share the same base array.
+func alias(x, y []byte) bool {
+	return cap(x) > 0 && cap(y) > 0 && &x[:cap(x)][cap(x)-1] == &y[:cap(y)][cap(y)-1]
+}
+
+// shared reports whether dst and img may have the same pixels.
+func shared(dst draw.Image, img image.Image) bool {
+	return image.Image(dst) == img || alias(pixels(dst), pixels(img))
+}
+
+func pixels(img image.Image) []byte {
+	switch m := img.(type) {
+	case *image.Alpha:
+		return m.Pix
+	case *image.Alpha16:
+		return m.Pix
+	case *image.CMYK:
+		return m.Pix
+	case *image.Gray:
+		return m.Pix
+	case *image.Gray16:
+		return m.Pix
+	case *image.NRGBA:
+		return m.Pix
+	case *image.NRGBA64:
+		return m.Pix
+	case *image.Paletted:
+		return m.Pix
+	case *image.RGBA:
+		return m.Pix
+	case *image.RGBA64:
+		return m.Pix
+	}
+	return nil
+}
+
 func drawMask(d drawer, dst draw.Image, r image.Rectangle, src image.Image, sp image.Point, mask image.Image, mp image.Point) {
 	clip(dst, &r, src, &sp, mask, &mp)
 	if r.Empty() {
-- 
2.43.0


From ff8de334e96d13e3714efa6fc0f32c3ec32d44ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:10 +0000
Subject: [PATCH 12/33] fix: link every layer of the tree to the parent that
 lists it

---
 composite/builder.go | 17 ++++++++++++++---
 composite/layer.go   | 27 +++++++++++----------------
 2 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/composite/builder.go b/composite/builder.go
index 3b4b6bb..8bef2ea 100644
--- a/composite/builder.go
+++ b/composite/builder.go
@@ -51,9 +51,20 @@ func (b *builder) buildLayer(l *Layer, psdl *psd.Layer) {
 	l.MaskEnabled = psdl.Mask.Enabled() && !psdl.Mask.Rect.Empty()
 
 	b.Rect = b.Rect.Union(psdl.Rect)
-	for i := range psdl.Layer {
-		l.Children = append(l.Children, Layer{Parent: l})
-		b.buildLayer(&l.Children[i], &psdl.Layer[i])
+	b.buildChildren(l, psdl.Layer)
+}
+
+// buildChildren builds the layers into parent.
+// Their addresses are final before any link to them is made.
+func (b *builder) buildChildren(parent *Layer, psdls []psd.Layer) {
+	if len(psdls) == 0 {
+		return
+	}
+	parent.Children = make([]Layer, len(psdls))
+	for i := range psdls {
+		l := &parent.Children[i]
+		l.Parent = parent
+		b.buildLayer(l, &psdls[i])
 	}
 }
 
diff --git a/composite/layer.go b/composite/layer.go
index f8a5b2a..93ec922 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -217,20 +217,6 @@ func New(ctx context.Context, psdFile io.Reader, opt *Options) (*Tree, error) {
 		Img: img,
 		LayerNameEncodingDetector: opt.LayerNameEncodingDetector,
 	}
-	root := Layer{
-		SeqID:      SeqIDRoot,
-		Folder:     true,
-		FolderOpen: true,
-		Visible:    true,
-		BlendMode:  psd.BlendModeNormal,
-		Opacity:    255,
-	}
-	for i := range img.Layer {
-		root.Children = append(root.Children, Layer{})
-		b.buildLayer(&root.Children[i], &img.Layer[i])
-	}
-	b.registerClippingGroup(root.Children)
-
 	r := &Tree{
 		Renderer: &Renderer{
 			cache: map[int]*cache{},
@@ -239,10 +225,19 @@ func New(ctx context.Context, psdFile io.Reader, opt *Options) (*Tree, error) {
 		layerImage: layerImages,
 
 		CanvasRect: img.Config.Rect,
-		Rect:       b.Rect.Intersect(img.Config.Rect),
 
-		Root: root,
+		Root: Layer{
+			SeqID:      SeqIDRoot,
+			Folder:     true,
+			FolderOpen: true,
+			Visible:    true,
+			BlendMode:  psd.BlendModeNormal,
+			Opacity:    255,
+		},
 	}
+	b.buildChildren(&r.Root, img.Layer)
+	b.registerClippingGroup(r.Root.Children)
+	r.Rect = b.Rect.Intersect(img.Config.Rect)
 
 	r.Renderer.pool.New = r.Renderer.allocate
 	r.Renderer.tree = r
-- 
2.43.0


From 4767f8629bf71daec426fcd1d32e972372026829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:10 +0000
Subject: [PATCH 13/33] fix: do not panic on layers whose blend mode cannot be
 drawn

---
 composite/draw.go     | 7 ++++++-
 composite/renderer.go | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/composite/draw.go b/composite/draw.go
index eaae508..f4649c8 100644
--- a/composite/draw.go
+++ b/composite/draw.go
@@ -40,7 +40,12 @@ var blendModes = map[psd.BlendMode]blend.Drawer{
 }
 
 func drawWithOpacity(dst draw.Image, r image.Rectangle, src draw.Image, sp image.Point, opacity int, bm psd.BlendMode) {
-	blendModes[bm].DrawMask(dst, r, src, sp, image.NewUniform(color.Alpha{uint8(opacity)}), image.Point{})
+	d, ok := blendModes[bm]
+	if !ok {
+		// not supported, such as dissolve
+		d = blend.Normal
+	}
+	d.DrawMask(dst, r, src, sp, image.NewUniform(color.Alpha{uint8(opacity)}), image.Point{})
 }
 
 func removeAlpha(b *image.NRGBA) {
diff --git a/composite/renderer.go b/composite/renderer.go
index 2dd8aab..c1991a5 100644
--- a/composite/renderer.go
+++ b/composite/renderer.go
@@ -449,7 +449,11 @@ func (r *Renderer) drawLayer(pt image.Point, b *image.NRGBA, clst *changeList, l
 	// this is minor code path.
 	// it is only used when "Blend Clipped Layers as Group" is unchecked in Photoshop's Layer Style dialog.
 	// TODO: implement
-	drawWithOpacity(b, buf.Rect, buf, pt, opacity, blendMode)
+	if blendMode == psd.BlendModePassThrough {
+		blend.Copy.Draw(b, buf.Rect, buf, pt)
+	} else {
+		drawWithOpacity(b, buf.Rect, buf, pt, opacity, blendMode)
+	}
 	for _, cl := range l.Clip {
 		r.drawLayer(pt, b, clst, cl, cl.Opacity, cl.BlendMode, false)
 	}
-- 
2.43.0


From b2527fcffcc8d5ed112f200893992ff0c38b8f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:59 +0000
Subject: [PATCH 14/33] fix: do not change layer rectangles while the decoder
 copies the layers

---
 composite/layer.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/composite/layer.go b/composite/layer.go
index 93ec922..2518fc5 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -276,9 +276,23 @@ func createCanvas(ctx context.Context, psdFile io.Reader, tileSize int, m f64.Af
 		return nil, nil, err
 	}
 	img.Config.Rect = transformRect(img.Config.Rect, m)
+	updateLayerRect(img.Layer, layerImages)
 	return layerImages, img, nil
 }
 
+// updateLayerRect replaces the rectangles of the layers by those of their tiles.
+//
+// The decoder copies the layers while it builds the layer tree, so this has to wait until it has finished.
+func updateLayerRect(layers []psd.Layer, layerImages map[int]layerImage) {
+	for i := range layers {
+		l := &layers[i]
+		if ld := layerImages[l.SeqID]; ld.Canvas != nil {
+			l.Rect = ld.Canvas.Rect()
+		}
+		updateLayerRect(l.Layer, layerImages)
+	}
+}
+
 func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.Layer, tileSize int, m f64.Aff3, gt *gammaTable, layerImages map[int]layerImage) {
 	defer pc.Done()
 	for l := range ch {
@@ -294,7 +308,6 @@ func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.
 				return
 			}
 			ld.Canvas = ti
-			l.Rect = ti.Rect()
 		}
 		if !l.Mask.Rect.Empty() {
 			if a, ok := l.Channel[-2]; ok {
@@ -303,7 +316,6 @@ func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.
 					return
 				}
 				ld.Mask = m
-				l.Mask.Rect = m.Rect()
 			}
 		}
 
-- 
2.43.0


From 6e015a3872e46e7ba5e8c975aea21268bed85ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:43 +0000
Subject: [PATCH 15/33] fix: draw cached groups exactly like newly drawn ones

---
 composite/renderer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/composite/renderer.go b/composite/renderer.go
index c1991a5..9d15a52 100644
--- a/composite/renderer.go
+++ b/composite/renderer.go
@@ -328,7 +328,8 @@ func (r *Renderer) updateCache(dr drawResult, l *Layer, pt image.Point, b *image
 		c.Cached[pt] = csCached
 		ci, _ := c.Image.Get(r.tree.tileSize, pt)
 		c.M.Unlock()
-		blend.Copy.Draw(ci, ci.Bounds(), b, pt)
+		// blend.Copy rounds, which would make what is drawn from the cache differ.
+		copy(ci.(*image.NRGBA).Pix, b.Pix)
 		clst.Add(l, pt)
 	case drDrewFromCache, drDrewFromCacheInvisible:
 		// do nothing
-- 
2.43.0


From 70911656ee753b7c61dfdf24f829222b9872d6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:00 +0000
Subject: [PATCH 16/33] fix: invalidate pass-through groups below a changed
 group

---
 composite/renderer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/composite/renderer.go b/composite/renderer.go
index 9d15a52..52b4a6e 100644
--- a/composite/renderer.go
+++ b/composite/renderer.go
@@ -166,6 +166,13 @@ func (r *Renderer) setDirtyByLayerRecursive(l *Layer, areaMap []image.Point) {
 
 func (r *Renderer) setDirtyByLayer(l *Layer) {
 	areaMap := r.buildAreaMap(l)
+	// what pass-through groups in l look like depends on the opacity and the blend mode of l
+	for i := range l.Children {
+		l2 := &l.Children[i]
+		if l2.BlendMode == psd.BlendModePassThrough {
+			r.setDirtyByLayerPassThrough(l2, areaMap)
+		}
+	}
 	r.setDirtyByLayerRecursive(l, areaMap)
 }
 
-- 
2.43.0


From ac1f0feb58aee0bd1b8d4d10f8ac0dcf81ad4362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:43 +0000
Subject: [PATCH 17/33] fix: find the tiles of negative coordinates

---
 composite/layerimage.go | 25 +++++++++++++++++--------
 composite/renderer.go   |  4 ++--
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/composite/layerimage.go b/composite/layerimage.go
index 0a44f79..3e70a92 100644
--- a/composite/layerimage.go
+++ b/composite/layerimage.go
@@ -17,6 +17,15 @@ type layerImage struct {
 	Mask   tiledMask
 }
 
+// tileOrigin returns the origin of the tile that contains v.
+func tileOrigin(v, tileSize int) int {
+	n := v % tileSize
+	if n < 0 {
+		n += tileSize
+	}
+	return v - n
+}
+
 type tiledImage map[image.Point]draw.Image
 
 func (t tiledImage) Get(tileSize int, pt image.Point) (draw.Image, bool) {
@@ -43,8 +52,8 @@ func (t tiledImage) Render(ctx context.Context, img draw.Image) error {
 	}
 
 	rect := img.Bounds()
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := tileOrigin(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := tileOrigin(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
@@ -231,8 +240,8 @@ func newScaledTiledImage(ctx context.Context, tileSize int, rect image.Rectangle
 }
 
 func newTiledImage(ctx context.Context, tileSize int, rect image.Rectangle, r, g, b, a []byte, deltaX int) (tiledImage, error) {
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := tileOrigin(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := tileOrigin(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
@@ -356,8 +365,8 @@ func (t tiledMask) Render(ctx context.Context, img draw.Image) error {
 	}
 
 	rect := img.Bounds()
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := tileOrigin(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := tileOrigin(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
@@ -425,8 +434,8 @@ func newScaledTiledMask(ctx context.Context, tileSize int, rect image.Rectangle,
 }
 
 func newTiledMask(ctx context.Context, tileSize int, rect image.Rectangle, a []byte, defaultColor int) (tiledMask, error) {
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := tileOrigin(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := tileOrigin(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
diff --git a/composite/renderer.go b/composite/renderer.go
index 52b4a6e..803d447 100644
--- a/composite/renderer.go
+++ b/composite/renderer.go
@@ -242,8 +242,8 @@ func (r *Renderer) render(ctx context.Context, dest *image.NRGBA, diffOnly bool)
 		Map: map[int]*[]image.Point{},
 	}
 
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := tileOrigin(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := tileOrigin(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
-- 
2.43.0


From cb1e3ab5d43041c7ea3ba3c25506c5a2c329c6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:48 +0000
Subject: [PATCH 18/33] fix: do not hang or return an incomplete tree when
 building is cancelled

---
 composite/layer.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/composite/layer.go b/composite/layer.go
index 2518fc5..3d462d0 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -256,7 +256,7 @@ func createCanvas(ctx context.Context, psdFile io.Reader, tileSize int, m f64.Af
 	pc := &parallelContext{}
 	pc.Wg.Add(n)
 	for i := 0; i < n; i++ {
-		go createCanvasInner(cctx, pc, ch, tileSize, m, gt, layerImages)
+		go createCanvasInner(cctx, cancel, pc, ch, tileSize, m, gt, layerImages)
 	}
 	img, _, err := psd.Decode(psdFile, &psd.DecodeOptions{
 		SkipMergedImage: true,
@@ -266,15 +266,26 @@ func createCanvas(ctx context.Context, psdFile io.Reader, tileSize int, m f64.Af
 			}
 			return nil
 		},
-		LayerImageLoaded: func(l *psd.Layer, index int, total int) { ch <- l },
+		LayerImageLoaded: func(l *psd.Layer, index int, total int) {
+			select {
+			case ch <- l:
+			case <-cctx.Done():
+			}
+		},
 	})
 	close(ch)
 	if err != nil {
+		cancel()
+		pc.Wg.Wait()
 		return nil, nil, err
 	}
 	if err = pc.Wait(ctx); err != nil {
 		return nil, nil, err
 	}
+	if cctx.Err() != nil {
+		// layers may be missing
+		return nil, nil, ErrAborted
+	}
 	img.Config.Rect = transformRect(img.Config.Rect, m)
 	updateLayerRect(img.Layer, layerImages)
 	return layerImages, img, nil
@@ -293,7 +304,7 @@ func updateLayerRect(layers []psd.Layer, layerImages map[int]layerImage) {
 	}
 }
 
-func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.Layer, tileSize int, m f64.Aff3, gt *gammaTable, layerImages map[int]layerImage) {
+func createCanvasInner(ctx context.Context, cancel context.CancelFunc, pc *parallelContext, ch <-chan *psd.Layer, tileSize int, m f64.Aff3, gt *gammaTable, layerImages map[int]layerImage) {
 	defer pc.Done()
 	for l := range ch {
 		var ld layerImage
@@ -305,6 +316,7 @@ func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.
 			}
 			ti, err := newScaledTiledImage(ctx, tileSize, l.Rect, r, g, b, a, 1, m, gt)
 			if err != nil {
+				cancel()
 				return
 			}
 			ld.Canvas = ti
@@ -313,6 +325,7 @@ func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.
 			if a, ok := l.Channel[-2]; ok {
 				m, err := newScaledTiledMask(ctx, tileSize, l.Mask.Rect, a.Data, l.Mask.DefaultColor, m)
 				if err != nil {
+					cancel()
 					return
 				}
 				ld.Mask = m
-- 
2.43.0


From 569a7a7a223d5caece6c169c3b0a7ed476874d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:27 +0000
Subject: [PATCH 19/33] fix: refuse layers with incomplete channels instead of
 panicking

---
 composite/layer.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/composite/layer.go b/composite/layer.go
index 3d462d0..4361e7a 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -258,6 +258,7 @@ func createCanvas(ctx context.Context, psdFile io.Reader, tileSize int, m f64.Af
 	for i := 0; i < n; i++ {
 		go createCanvasInner(cctx, cancel, pc, ch, tileSize, m, gt, layerImages)
 	}
+	var layerErr error
 	img, _, err := psd.Decode(psdFile, &psd.DecodeOptions{
 		SkipMergedImage: true,
 		ConfigLoaded: func(c psd.Config) error {
@@ -267,6 +268,13 @@ func createCanvas(ctx context.Context, psdFile io.Reader, tileSize int, m f64.Af
 			return nil
 		},
 		LayerImageLoaded: func(l *psd.Layer, index int, total int) {
+			if layerErr != nil {
+				return
+			}
+			if layerErr = checkChannels(l); layerErr != nil {
+				cancel()
+				return
+			}
 			select {
 			case ch <- l:
 			case <-cctx.Done():
@@ -274,6 +282,9 @@ func createCanvas(ctx context.Context, psdFile io.Reader, tileSize int, m f64.Af
 		},
 	})
 	close(ch)
+	if err == nil {
+		err = layerErr
+	}
 	if err != nil {
 		cancel()
 		pc.Wg.Wait()
@@ -304,6 +315,25 @@ func updateLayerRect(layers []psd.Layer, layerImages map[int]layerImage) {
 	}
 }
 
+// checkChannels reports whether the channels that are needed to draw l are complete.
+func checkChannels(l *psd.Layer) error {
+	if l.HasImage() {
+		n := l.Rect.Dx() * l.Rect.Dy()
+		for i := 0; i < 3; i++ {
+			if len(l.Channel[i].Data) < n {
+				return errors.New("composite: incomplete color channel")
+			}
+		}
+		if ch, ok := l.Channel[-1]; ok && len(ch.Data) < n {
+			return errors.New("composite: incomplete transparency channel")
+		}
+	}
+	if ch, ok := l.Channel[-2]; ok && len(ch.Data) < l.Mask.Rect.Dx()*l.Mask.Rect.Dy() {
+		return errors.New("composite: incomplete mask channel")
+	}
+	return nil
+}
+
 func createCanvasInner(ctx context.Context, cancel context.CancelFunc, pc *parallelContext, ch <-chan *psd.Layer, tileSize int, m f64.Aff3, gt *gammaTable, layerImages map[int]layerImage) {
 	defer pc.Done()
 	for l := range ch {
-- 
2.43.0


From 9eae14c3ef686b510d4f35ed52af37db8554e74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:04 +0000
Subject: [PATCH 20/33] fix: clip layers to what a pass-through group draws,
 not to the backdrop

---
 composite/renderer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/composite/renderer.go b/composite/renderer.go
index 803d447..3aad657 100644
--- a/composite/renderer.go
+++ b/composite/renderer.go
@@ -361,6 +361,11 @@ func (r *Renderer) drawLayer(pt image.Point, b *image.NRGBA, clst *changeList, l
 		return r.updateCache(drDefered, l, pt, buf, c, clst)
 	}
 
+	if blendMode == psd.BlendModePassThrough && len(l.Clip) > 0 {
+		// layers are clipped to what the group itself draws, not to what is below it.
+		blendMode = psd.BlendModeNormal
+	}
+
 	ld := r.tree.layerImage[l.SeqID]
 	ldCanvas, ok := ld.Canvas[pt]
 	if len(l.Children) == 0 && !ok {
-- 
2.43.0


From f673d85b45b1d539eeeadd20c062e1573ab272f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:45 +0000
Subject: [PATCH 21/33] fix: do not cut the last row and column off thumbnails

---
 composite/thumbnail.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/composite/thumbnail.go b/composite/thumbnail.go
index bcd916e..c6f9554 100644
--- a/composite/thumbnail.go
+++ b/composite/thumbnail.go
@@ -20,7 +20,7 @@ func trimUnusedArea(src *image.NRGBA, threshold byte) {
 	w, h := src.Rect.Dx(), src.Rect.Dy()
 	stride := src.Stride
 	pix := src.Pix[:h*stride]
-	rect := image.Rectangle{Min: image.Point{X: w, Y: h}, Max: image.Point{X: -1, Y: -1}}
+	rect := image.Rectangle{Min: image.Point{X: w, Y: h}, Max: image.Point{}}
 	for y := 0; y < h; y++ {
 		for l := 0; l < w; l++ {
 			if pix[l*4+3] > threshold {
@@ -29,8 +29,8 @@ func trimUnusedArea(src *image.NRGBA, threshold byte) {
 				}
 				for r := w - 1; r >= l; r-- {
 					if pix[r*4+3] > threshold {
-						if r > rect.Max.X {
-							rect.Max.X = r
+						if r+1 > rect.Max.X {
+							rect.Max.X = r + 1
 						}
 						break
 					}
@@ -38,13 +38,17 @@ func trimUnusedArea(src *image.NRGBA, threshold byte) {
 				if y < rect.Min.Y {
 					rect.Min.Y = y
 				}
-				rect.Max.Y = y
+				rect.Max.Y = y + 1
 				break
 			}
 		}
 		pix = pix[stride:]
 	}
 
+	if rect.Empty() {
+		src.Rect, src.Pix = image.Rectangle{}, nil
+		return
+	}
 	if rect.Dx()*rect.Dy() == w*h {
 		return
 	}
@@ -54,9 +58,7 @@ func trimUnusedArea(src *image.NRGBA, threshold byte) {
 	s := d[stride*rect.Min.Y+rect.Min.X*4:]
 	w, h = rect.Dx()*4, rect.Dy()
 	for y := 0; y < h; y++ {
-		copy(d, s[:w])
-		d = d[w:]
-		s = s[stride:]
+		copy(d[y*w:(y+1)*w], s[y*stride:])
 	}
 	src.Rect = rect
 	src.Stride = w
-- 
2.43.0


From 02b7cb3dbebc017e4251121069d4c30658475902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:00 +0000
Subject: [PATCH 22/33] fix: do not make empty thumbnails of narrow layers

---
 composite/thumbnail.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/composite/thumbnail.go b/composite/thumbnail.go
index c6f9554..56e3841 100644
--- a/composite/thumbnail.go
+++ b/composite/thumbnail.go
@@ -65,6 +65,13 @@ func trimUnusedArea(src *image.NRGBA, threshold byte) {
 	src.Pix = src.Pix[:rect.Dy()*w]
 }
 
+func atLeast1(n int) int {
+	if n < 1 {
+		return 1
+	}
+	return n
+}
+
 // Thumbnail creates thumbnail.
 func (t *Tree) Thumbnail(seqID int, size int, tempBuffer []byte) (*image.NRGBA, error) {
 	ld, ok := t.layerImage[seqID]
@@ -97,9 +104,9 @@ func (t *Tree) Thumbnail(seqID int, size int, tempBuffer []byte) (*image.NRGBA,
 		return nil, errors.Wrap(errNoCanvas, "composite: failed to create thumbnail")
 	}
 	if sw > sh {
-		dest = image.NewNRGBA(image.Rect(0, 0, size, sh*size/sw))
+		dest = image.NewNRGBA(image.Rect(0, 0, size, atLeast1(sh*size/sw)))
 	} else {
-		dest = image.NewNRGBA(image.Rect(0, 0, sw*size/sh, size))
+		dest = image.NewNRGBA(image.Rect(0, 0, atLeast1(sw*size/sh), size))
 	}
 	if err := downscale.NRGBAFast(context.Background(), dest, src); err != nil {
 		return nil, errors.Wrap(err, "composite: failed to create thumbnail")
-- 
2.43.0


From 78d9f7c2ff403fd37fda95ebbc0321688b4fb6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:30 +0000
Subject: [PATCH 23/33] fix: report errors of closing the exported files

---
 psdexporter/main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/psdexporter/main.go b/psdexporter/main.go
index 41a3694..2235d44 100644
--- a/psdexporter/main.go
+++ b/psdexporter/main.go
@@ -26,8 +26,11 @@ func processLayer(filename string, layerName string, l *psd.Layer) error {
 	if err != nil {
 		return err
 	}
-	defer out.Close()
-	return png.Encode(out, l.Picker)
+	if err = png.Encode(out, l.Picker); err != nil {
+		out.Close()
+		return err
+	}
+	return out.Close()
 }
 
 func main() {
-- 
2.43.0


From 9ca390e084034478e14313cd08c8a9270f130d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:30 +0000
Subject: [PATCH 24/33] fix: do not give up exporting at the first empty layer

---
 psdexporter/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdexporter/main.go b/psdexporter/main.go
index 2235d44..8402fd7 100644
--- a/psdexporter/main.go
+++ b/psdexporter/main.go
@@ -18,7 +18,7 @@ func processLayer(filename string, layerName string, l *psd.Layer) error {
 			}
 		}
 	}
-	if !l.HasImage() {
+	if !l.HasImage() || l.Rect.Empty() {
 		return nil
 	}
 	fmt.Printf("%s -> %s.png\n", layerName, filename)
-- 
2.43.0


From 567c68451a159659bdcdff1e9e5507eb1b35e2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:24 +0000
Subject: [PATCH 25/33] fix: skip what is left of a layer mask record

readLayerMaskAndAdjustmentLayerData left the bytes after the real user mask
rectangle unread, so a record padded to its length made the decoder read the
blending ranges, the name and everything after from the wrong place.
---
 layer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/layer.go b/layer.go
index 81b846a..e7730bd 100644
--- a/layer.go
+++ b/layer.go
@@ -817,6 +817,14 @@ func readLayerMaskAndAdjustmentLayerData(r io.Reader, layer *Layer, cfg *Config,
 		int(int32(readUint32(b, 12))), int(int32(readUint32(b, 8))),
 	)
 
+	if readMask < maskLen {
+		// Padding.
+		l, err = discard(r, maskLen-readMask)
+		read += l
+		if err != nil {
+			return read, err
+		}
+	}
 	return read, nil
 }
 
-- 
2.43.0


From 748df818d5183f5be0ccd5772de1946a98c61533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 26/33] fix: refuse layers nested in layer records before
 reading them

---
 layer.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/layer.go b/layer.go
index e7730bd..523dacd 100644
--- a/layer.go
+++ b/layer.go
@@ -130,7 +130,7 @@ func readLayerAndMaskInfo(r io.Reader, cfg *Config, o *DecodeOptions) (psd *PSD,
 
 	var layer []Layer
 	if read < layerAndMaskInfoLen+intSize {
-		if layer, l, err = readLayerInfo(r, cfg, o); err != nil {
+		if layer, l, err = readLayerInfo(r, cfg, o, false); err != nil {
 			return nil, read, err
 		}
 		read += l
@@ -158,7 +158,7 @@ func readLayerAndMaskInfo(r io.Reader, cfg *Config, o *DecodeOptions) (psd *PSD,
 
 	if layerAndMaskInfoLen+intSize-read >= 8 {
 		var layer2 []Layer
-		if psd.AdditinalLayerInfo, layer2, l, err = readAdditionalLayerInfo(r, layerAndMaskInfoLen+intSize-read, cfg, o); err != nil {
+		if psd.AdditinalLayerInfo, layer2, l, err = readAdditionalLayerInfo(r, layerAndMaskInfoLen+intSize-read, cfg, o, false); err != nil {
 			return nil, read, err
 		}
 		read += l
@@ -274,7 +274,7 @@ type layerChannelInfo struct {
 	ChannelData []channelData
 }
 
-func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions) (layer []Layer, read int, err error) {
+func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions, nested bool) (layer []Layer, read int, err error) {
 	intSize := get4or8(cfg.PSB())
 	if Debug != nil {
 		Debug.Println("start - layer info section")
@@ -309,6 +309,10 @@ func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions) (layer []Layer, r
 	if Debug != nil {
 		Debug.Println("  numLayers:", numLayers)
 	}
+	if nested && numLayers > 0 {
+		// Layers in a layer record would be able to nest without limit.
+		return nil, read, errors.New("psd: unexpected layer structure")
+	}
 
 	layerSlice := make([]Layer, numLayers)
 	lcis := make([]layerChannelInfo, numLayers)
@@ -590,14 +594,10 @@ func readLayerExtraData(r io.Reader, layer *Layer, cfg *Config, o *DecodeOptions
 	read += l
 
 	if read < extraDataLen+4 {
-		var layers []Layer
-		if layer.AdditionalLayerInfo, layers, l, err = readAdditionalLayerInfo(r, extraDataLen+4-read, cfg, o); err != nil {
+		if layer.AdditionalLayerInfo, _, l, err = readAdditionalLayerInfo(r, extraDataLen+4-read, cfg, o, true); err != nil {
 			return read, err
 		}
 		read += l
-		if len(layers) > 0 {
-			return read, errors.New("psd: unexpected layer structure")
-		}
 	} else {
 		layer.AdditionalLayerInfo = map[AdditionalInfoKey][]byte{}
 	}
@@ -828,7 +828,7 @@ func readLayerMaskAndAdjustmentLayerData(r io.Reader, layer *Layer, cfg *Config,
 	return read, nil
 }
 
-func readAdditionalLayerInfo(r io.Reader, infoLen int, cfg *Config, o *DecodeOptions) (infos map[AdditionalInfoKey][]byte, layers []Layer, read int, err error) {
+func readAdditionalLayerInfo(r io.Reader, infoLen int, cfg *Config, o *DecodeOptions, nested bool) (infos map[AdditionalInfoKey][]byte, layers []Layer, read int, err error) {
 	if Debug != nil {
 		Debug.Println("start - additional layer info section")
 		Debug.Println("  infoLen:", infoLen)
@@ -867,7 +867,7 @@ func readAdditionalLayerInfo(r io.Reader, infoLen int, cfg *Config, o *DecodeOpt
 				Debug.Println("  key:", key)
 			}
 			var layrs []Layer
-			if layrs, l, err = readLayerInfo(r, cfg, o); err != nil {
+			if layrs, l, err = readLayerInfo(r, cfg, o, nested); err != nil {
 				return nil, nil, read, err
 			}
 			read += l
-- 
2.43.0


From 56dec7a23425e81541160b3178a3333f79c168b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 27/33] fix: do not change the options given to New

---
 composite/layer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/composite/layer.go b/composite/layer.go
index 4361e7a..08798b9 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -188,9 +188,12 @@ func transformRect(r image.Rectangle, m f64.Aff3) image.Rectangle {
 // New can cancel processing through ctx.
 // If you pass 0 to opt.TileSize, it will be DefaultTileSize.
 func New(ctx context.Context, psdFile io.Reader, opt *Options) (*Tree, error) {
-	if opt == nil {
-		opt = &Options{}
+	var o Options
+	if opt != nil {
+		// opt may be shared, so it must not be changed.
+		o = *opt
 	}
+	opt = &o
 	if opt.TileSize == 0 {
 		opt.TileSize = DefaultTileSize
 	}
-- 
2.43.0


From 0166e0d85c50401d8f079d550daaac1978fe9804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:01 +0000
Subject: [PATCH 28/33] fix: keep the edge of masks that are white outside when
 New transforms them

The bilinear transform blends the edge of the mask with 0, which in a mask that is
white outside hid a row and a column beside it. Transform the inverted mask.
---
 composite/layerimage.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/composite/layerimage.go b/composite/layerimage.go
index 3e70a92..07f9f11 100644
--- a/composite/layerimage.go
+++ b/composite/layerimage.go
@@ -425,6 +425,14 @@ func newScaledTiledMask(ctx context.Context, tileSize int, rect image.Rectangle,
 	if m[0] == 1 && m[1] == 0 && m[2] == 0 && m[3] == 0 && m[4] == 1 && m[5] == 0 {
 		return newTiledMask(ctx, tileSize, rect, a, defaultColor)
 	}
+	if defaultColor != 0 {
+		// The outside of the mask is white, so transform the inverted mask whose outside is 0.
+		inv := make([]byte, len(a))
+		for i, v := range a {
+			inv[i] = 255 - v
+		}
+		a, defaultColor = inv, 0
+	}
 	tmp := createMask(rect, a)
 	trRect := transformRect(rect, m)
 	tmp2 := image.NewAlpha(trRect)
-- 
2.43.0


From 41bcf893a3d1fad6fcef34fbe489ee65f1a9377c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:16 +0000
Subject: [PATCH 29/33] fix: keep the zeros of an invertible TransformMatrix in
 New

A quarter turn has zeros where New put 1, which made it a shear. Only a singular
matrix has its scale left out.
---
 composite/layer.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/composite/layer.go b/composite/layer.go
index 08798b9..05bf577 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -197,11 +197,14 @@ func New(ctx context.Context, psdFile io.Reader, opt *Options) (*Tree, error) {
 	if opt.TileSize == 0 {
 		opt.TileSize = DefaultTileSize
 	}
-	if opt.TransformMatrix[0] == 0 {
-		opt.TransformMatrix[0] = 1
-	}
-	if opt.TransformMatrix[4] == 0 {
-		opt.TransformMatrix[4] = 1
+	if m := &opt.TransformMatrix; m[0]*m[4]-m[1]*m[3] == 0 {
+		// A singular matrix is one with its scale left out.
+		if m[0] == 0 {
+			m[0] = 1
+		}
+		if m[4] == 0 {
+			m[4] = 1
+		}
 	}
 	var gt *gammaTable
 	if opt.Gamma != 0 {
-- 
2.43.0


From 41d7b1bfcf0227c7162a58f4b928986e3cf4e0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:35 +0000
Subject: [PATCH 30/33] fix: do not draw what is below a masked pass-through
 group twice

Where the mask showed the group, what was below it was drawn once more under it, so
translucent pixels became more opaque.
---
 composite/draw.go     | 29 +++++++++++++++++++++++++++++
 composite/renderer.go | 13 ++++++++-----
 2 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/composite/draw.go b/composite/draw.go
index f4649c8..7c4274f 100644
--- a/composite/draw.go
+++ b/composite/draw.go
@@ -56,3 +56,32 @@ func removeAlpha(b *image.NRGBA) {
 		d[i+3] = 255
 	}
 }
+
+// restoreMasked brings b back to what it was before, as far as the mask hides what was drawn since.
+// All of them have the same bounds. If inverted is true, 255 in the mask hides.
+func restoreMasked(b *image.NRGBA, before *image.NRGBA, mask *image.Alpha, inverted bool) {
+	d, s := b.Pix, before.Pix
+	for i, m := range mask.Pix {
+		m := uint32(m)
+		if inverted {
+			m = 255 - m
+		}
+		j := i << 2
+		switch m {
+		case 255:
+			continue
+		case 0:
+			copy(d[j:j+4], s[j:j+4])
+			continue
+		}
+		da, sa := uint32(d[j+3])*m, uint32(s[j+3])*(255-m)
+		a := da + sa
+		if a == 0 {
+			continue
+		}
+		for k := j; k < j+3; k++ {
+			d[k] = uint8((uint32(d[k])*da + uint32(s[k])*sa + a>>1) / a)
+		}
+		d[j+3] = uint8((a + 127) / 255)
+	}
+}
diff --git a/composite/renderer.go b/composite/renderer.go
index 3aad657..7173241 100644
--- a/composite/renderer.go
+++ b/composite/renderer.go
@@ -416,19 +416,22 @@ func (r *Renderer) drawLayer(pt image.Point, b *image.NRGBA, clst *changeList, l
 
 	if l.MaskEnabled {
 		if ldMask, ok := ld.Mask[pt]; ok {
-			if l.MaskDefaultColor != 255 {
+			if blendMode == psd.BlendModePassThrough {
+				restoreMasked(buf, b, ldMask, l.MaskDefaultColor == 255)
+			} else if l.MaskDefaultColor != 255 {
 				blend.DestIn.Draw(buf, buf.Rect, ldMask, pt)
 			} else {
 				blend.DestOut.Draw(buf, buf.Rect, ldMask, pt)
 			}
 		} else {
 			if l.MaskDefaultColor != 255 {
-				blend.Clear.Draw(buf, buf.Rect, image.Transparent, image.Point{})
+				if blendMode == psd.BlendModePassThrough {
+					copy(buf.Pix, b.Pix)
+				} else {
+					blend.Clear.Draw(buf, buf.Rect, image.Transparent, image.Point{})
+				}
 			}
 		}
-		if blendMode == psd.BlendModePassThrough {
-			blend.DestOver.Draw(buf, buf.Rect, b, pt)
-		}
 	}
 
 	if len(l.Clip) == 0 {
-- 
2.43.0


From 923fd40b0cdc5298ab6089221386c39077a553a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 31/33] fix: blend.Add must not overflow on 16-bit paths

---
 blend/genblend.go | 18 +++++++++---------
 blend/zblends.go  | 30 +++++++++++++++---------------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/blend/genblend.go b/blend/genblend.go
index 278ee7a..808ef71 100644
--- a/blend/genblend.go
+++ b/blend/genblend.go
@@ -595,9 +595,9 @@ var draw{{.Name}}NRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 {{define "drawMain2_SetNRGBA"}}
 {{if .OverMax}}
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1 + sb*a2 + db*a3) / a) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1 + sg*a2 + dg*a3) / a) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1 + sr*a2 + dr*a3) / a) >> 8)
+			dpix[j+2] = uint8(clip6416((uint64(b)*uint64(a1) + uint64(sb*a2 + db*a3)) / uint64(a)) >> 8)
+			dpix[j+1] = uint8(clip6416((uint64(g)*uint64(a1) + uint64(sg*a2 + dg*a3)) / uint64(a)) >> 8)
+			dpix[j+0] = uint8(clip6416((uint64(r)*uint64(a1) + uint64(sr*a2 + dr*a3)) / uint64(a)) >> 8)
 {{else}}
 			dpix[j+3] = uint8(a >> 8)
 			dpix[j+2] = uint8(((b*a1 + sb*a2 + db*a3) / a) >> 8)
@@ -608,9 +608,9 @@ var draw{{.Name}}NRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 {{define "drawMain2_SetRGBA"}}
 {{if .OverMax}}
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1 + sb*a2 + db*a3) / 0xffff) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1 + sg*a2 + dg*a3) / 0xffff) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1 + sr*a2 + dr*a3) / 0xffff) >> 8)
+			dpix[j+2] = uint8(min(clip6416((uint64(b)*uint64(a1) + uint64(sb*a2 + db*a3)) / 0xffff), a) >> 8)
+			dpix[j+1] = uint8(min(clip6416((uint64(g)*uint64(a1) + uint64(sg*a2 + dg*a3)) / 0xffff), a) >> 8)
+			dpix[j+0] = uint8(min(clip6416((uint64(r)*uint64(a1) + uint64(sr*a2 + dr*a3)) / 0xffff), a) >> 8)
 {{else}}
 			dpix[j+3] = uint8(a >> 8)
 			dpix[j+2] = uint8(((b*a1 + sb*a2 + db*a3) / 0xffff) >> 8)
@@ -713,9 +713,9 @@ var draw{{.Name}}Fallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 {{.Code.To16}}
 {{end}}
 {{if .OverMax}}
-			out.R = uint16(clip6416(uint64(sr*a2 + dr*a3)/0xffff + uint64(r)*uint64(a1) / uint64(a)) * a / 0xffff)
-			out.G = uint16(clip6416(uint64(sg*a2 + dg*a3)/0xffff + uint64(g)*uint64(a1) / uint64(a)) * a / 0xffff)
-			out.B = uint16(clip6416(uint64(sb*a2 + db*a3)/0xffff + uint64(b)*uint64(a1) / uint64(a)) * a / 0xffff)
+			out.R = uint16(min(clip6416((uint64(r)*uint64(a1) + uint64(sr*a2 + dr*a3)) / 0xffff), a))
+			out.G = uint16(min(clip6416((uint64(g)*uint64(a1) + uint64(sg*a2 + dg*a3)) / 0xffff), a))
+			out.B = uint16(min(clip6416((uint64(b)*uint64(a1) + uint64(sb*a2 + db*a3)) / 0xffff), a))
 			out.A = uint16(a)
 {{else}}
 			out.R = uint16((r*a1 + sr*a2 + dr*a3) / 0xffff)
diff --git a/blend/zblends.go b/blend/zblends.go
index 888a303..73ceddc 100644
--- a/blend/zblends.go
+++ b/blend/zblends.go
@@ -5484,9 +5484,9 @@ var drawAddNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d
 			b = sb + db
 
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1+sb*a2+db*a3)/a) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1+sg*a2+dg*a3)/a) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1+sr*a2+dr*a3)/a) >> 8)
+			dpix[j+2] = uint8(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/uint64(a)) >> 8)
+			dpix[j+1] = uint8(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/uint64(a)) >> 8)
+			dpix[j+0] = uint8(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/uint64(a)) >> 8)
 
 		}
 		d0 += dyDelta
@@ -5543,9 +5543,9 @@ var drawAddRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d0
 			b = sb + db
 
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1+sb*a2+db*a3)/a) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1+sg*a2+dg*a3)/a) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1+sr*a2+dr*a3)/a) >> 8)
+			dpix[j+2] = uint8(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/uint64(a)) >> 8)
+			dpix[j+1] = uint8(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/uint64(a)) >> 8)
+			dpix[j+0] = uint8(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/uint64(a)) >> 8)
 
 		}
 		d0 += dyDelta
@@ -5602,9 +5602,9 @@ var drawAddNRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d0
 			b = sb + db
 
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1+sb*a2+db*a3)/0xffff) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1+sg*a2+dg*a3)/0xffff) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1+sr*a2+dr*a3)/0xffff) >> 8)
+			dpix[j+2] = uint8(min(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/0xffff), a) >> 8)
+			dpix[j+1] = uint8(min(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/0xffff), a) >> 8)
+			dpix[j+0] = uint8(min(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/0xffff), a) >> 8)
 
 		}
 		d0 += dyDelta
@@ -5671,9 +5671,9 @@ var drawAddRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d0,
 			b = sb + db
 
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1+sb*a2+db*a3)/0xffff) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1+sg*a2+dg*a3)/0xffff) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1+sr*a2+dr*a3)/0xffff) >> 8)
+			dpix[j+2] = uint8(min(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/0xffff), a) >> 8)
+			dpix[j+1] = uint8(min(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/0xffff), a) >> 8)
+			dpix[j+0] = uint8(min(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/0xffff), a) >> 8)
 
 		}
 		d0 += dyDelta
@@ -5733,9 +5733,9 @@ var drawAddFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, src
 
 			b = sb + db
 
-			out.R = uint16(clip6416(uint64(sr*a2+dr*a3)/0xffff+uint64(r)*uint64(a1)/uint64(a)) * a / 0xffff)
-			out.G = uint16(clip6416(uint64(sg*a2+dg*a3)/0xffff+uint64(g)*uint64(a1)/uint64(a)) * a / 0xffff)
-			out.B = uint16(clip6416(uint64(sb*a2+db*a3)/0xffff+uint64(b)*uint64(a1)/uint64(a)) * a / 0xffff)
+			out.R = uint16(min(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/0xffff), a))
+			out.G = uint16(min(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/0xffff), a))
+			out.B = uint16(min(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/0xffff), a))
 			out.A = uint16(a)
 
 			dst.Set(x, y, &out)
-- 
2.43.0


From 0c85e14b212d9544f308fc68814957728be2907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 32/33] fix: precision of SoftLight for dark destinations

---
 blend/genblend.go |  4 ++--
 blend/zblends.go  | 36 ++++++++++++++++++------------------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/blend/genblend.go b/blend/genblend.go
index 808ef71..b5cfce9 100644
--- a/blend/genblend.go
+++ b/blend/genblend.go
@@ -215,7 +215,7 @@ var blendModes = []mode{
 				ret = dest - (((maxValue - (src << 1)) * dest * 32897 >> 23) * (maxValue - dest) * 32897 >> 23);
 			} else {
 				if (dest < quarterValue) {
-					tmp = uint32((((int32(dest)<<4 - maxValue*12) * 32897 >> 23) * int32(dest) + maxValue*4) * int32(dest) * 32897 >> 23);
+					tmp = uint32(((int32(dest)<<4 - maxValue*12) * int32(dest) / maxValue + maxValue*4) * int32(dest) / maxValue);
 				} else {
 					tmp = sqrt(dest, maxValue);
 				}
@@ -227,7 +227,7 @@ var blendModes = []mode{
 				ret = dest - (((maxValue - (src << 1)) * dest / maxValue) * (maxValue - dest) / maxValue);
 			} else {
 				if (dest < quarterValue) {
-					tmp = uint32((((int32(dest)<<4 - maxValue*12) / maxValue) * int32(dest) + maxValue*4) * int32(dest) / maxValue);
+					tmp = uint32(((int64(dest)<<4 - maxValue*12) * int64(dest) / maxValue + maxValue*4) * int64(dest) / maxValue);
 				} else {
 					tmp = sqrt(dest, maxValue);
 				}
diff --git a/blend/zblends.go b/blend/zblends.go
index 73ceddc..38dfaf4 100644
--- a/blend/zblends.go
+++ b/blend/zblends.go
@@ -6378,7 +6378,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				r = dr - (((0xff - (sr << 1)) * dr * 32897 >> 23) * (0xff - dr) * 32897 >> 23)
 			} else {
 				if dr < 0x40 {
-					tmp = uint32((((int32(dr)<<4-0xff*12)*32897>>23)*int32(dr) + 0xff*4) * int32(dr) * 32897 >> 23)
+					tmp = uint32(((int32(dr)<<4-0xff*12)*int32(dr)/0xff + 0xff*4) * int32(dr) / 0xff)
 				} else {
 					tmp = sqrt(dr, 0xff)
 				}
@@ -6389,7 +6389,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				g = dg - (((0xff - (sg << 1)) * dg * 32897 >> 23) * (0xff - dg) * 32897 >> 23)
 			} else {
 				if dg < 0x40 {
-					tmp = uint32((((int32(dg)<<4-0xff*12)*32897>>23)*int32(dg) + 0xff*4) * int32(dg) * 32897 >> 23)
+					tmp = uint32(((int32(dg)<<4-0xff*12)*int32(dg)/0xff + 0xff*4) * int32(dg) / 0xff)
 				} else {
 					tmp = sqrt(dg, 0xff)
 				}
@@ -6400,7 +6400,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				b = db - (((0xff - (sb << 1)) * db * 32897 >> 23) * (0xff - db) * 32897 >> 23)
 			} else {
 				if db < 0x40 {
-					tmp = uint32((((int32(db)<<4-0xff*12)*32897>>23)*int32(db) + 0xff*4) * int32(db) * 32897 >> 23)
+					tmp = uint32(((int32(db)<<4-0xff*12)*int32(db)/0xff + 0xff*4) * int32(db) / 0xff)
 				} else {
 					tmp = sqrt(db, 0xff)
 				}
@@ -6450,7 +6450,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32(((int64(dr)<<4-0xffff*12)*int64(dr)/0xffff + 0xffff*4) * int64(dr) / 0xffff)
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6461,7 +6461,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32(((int64(dg)<<4-0xffff*12)*int64(dg)/0xffff + 0xffff*4) * int64(dg) / 0xffff)
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6472,7 +6472,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32(((int64(db)<<4-0xffff*12)*int64(db)/0xffff + 0xffff*4) * int64(db) / 0xffff)
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
@@ -6536,7 +6536,7 @@ var drawSoftLightRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32(((int64(dr)<<4-0xffff*12)*int64(dr)/0xffff + 0xffff*4) * int64(dr) / 0xffff)
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6547,7 +6547,7 @@ var drawSoftLightRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32(((int64(dg)<<4-0xffff*12)*int64(dg)/0xffff + 0xffff*4) * int64(dg) / 0xffff)
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6558,7 +6558,7 @@ var drawSoftLightRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32(((int64(db)<<4-0xffff*12)*int64(db)/0xffff + 0xffff*4) * int64(db) / 0xffff)
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
@@ -6622,7 +6622,7 @@ var drawSoftLightNRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32(((int64(dr)<<4-0xffff*12)*int64(dr)/0xffff + 0xffff*4) * int64(dr) / 0xffff)
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6633,7 +6633,7 @@ var drawSoftLightNRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32(((int64(dg)<<4-0xffff*12)*int64(dg)/0xffff + 0xffff*4) * int64(dg) / 0xffff)
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6644,7 +6644,7 @@ var drawSoftLightNRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32(((int64(db)<<4-0xffff*12)*int64(db)/0xffff + 0xffff*4) * int64(db) / 0xffff)
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
@@ -6718,7 +6718,7 @@ var drawSoftLightRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint3
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32(((int64(dr)<<4-0xffff*12)*int64(dr)/0xffff + 0xffff*4) * int64(dr) / 0xffff)
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6729,7 +6729,7 @@ var drawSoftLightRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint3
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32(((int64(dg)<<4-0xffff*12)*int64(dg)/0xffff + 0xffff*4) * int64(dg) / 0xffff)
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6740,7 +6740,7 @@ var drawSoftLightRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint3
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32(((int64(db)<<4-0xffff*12)*int64(db)/0xffff + 0xffff*4) * int64(db) / 0xffff)
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
@@ -6808,7 +6808,7 @@ var drawSoftLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32(((int64(dr)<<4-0xffff*12)*int64(dr)/0xffff + 0xffff*4) * int64(dr) / 0xffff)
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6819,7 +6819,7 @@ var drawSoftLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32(((int64(dg)<<4-0xffff*12)*int64(dg)/0xffff + 0xffff*4) * int64(dg) / 0xffff)
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6830,7 +6830,7 @@ var drawSoftLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32(((int64(db)<<4-0xffff*12)*int64(db)/0xffff + 0xffff*4) * int64(db) / 0xffff)
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
-- 
2.43.0


From aa4eb51a8ad75decc593e040cc5247d84201d94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:09 +0000
Subject: [PATCH 33/33] fix: refuse documents with a depth that composite
 cannot draw

The layer data of 16 and 32 bit documents was taken for 8 bit data, so New
returned trees whose layers showed garbage.
---
 composite/layer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/composite/layer.go b/composite/layer.go
index 05bf577..5b16c57 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -271,6 +271,9 @@ func createCanvas(ctx context.Context, psdFile io.Reader, tileSize int, m f64.Af
 			if c.ColorMode != psd.ColorModeRGB {
 				return errors.New("Unsupported color mode")
 			}
+			if c.Depth != 8 {
+				return errors.New("Unsupported depth")
+			}
 			return nil
 		},
 		LayerImageLoaded: func(l *psd.Layer, index int, total int) {
-- 
2.43.0

