From ec859ae0eac942af5c341a394bb543489855b3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:47 +0000
Subject: [PATCH 01/45] fix: RLE scanlines of 16 and 32 bit images span more
 than one byte per pixel

---
 compress.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/compress.go b/compress.go
index 5482877..17adce5 100644
--- a/compress.go
+++ b/compress.go
@@ -32,12 +32,8 @@ func (cm CompressionMethod) Decode(dest []byte, r io.Reader, sizeHint int64, rec
 	case CompressionMethodRaw:
 		return io.ReadFull(r, dest)
 	case CompressionMethodRLE:
-		var width int
-		if depth == 1 {
-			width = (rect.Dx() + 7) >> 3
-		} else {
-			width = rect.Dx()
-		}
+		// the number of bytes in a scanline.
+		width := (rect.Dx()*depth + 7) >> 3
 		return decodePackBits(dest, r, width, rect.Dy()*channels, large)
 	case CompressionMethodZIPWithoutPrediction:
 		return decodeZLIB(dest, r, sizeHint)
-- 
2.43.0


From 6be4d0a94666e4dc592b8d197b052343468edbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:47 +0000
Subject: [PATCH 02/45] fix: apply the prediction of 8 bit ZIP compressed
 images

---
 compress.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/compress.go b/compress.go
index 17adce5..60ea716 100644
--- a/compress.go
+++ b/compress.go
@@ -72,6 +72,16 @@ func decodeZLIB(dest []byte, r io.Reader, length int64) (read int, err error) {
 
 func decodeDelta(buf []byte, width int, depth int) {
 	switch depth {
+	case 8:
+		var d uint8
+		for i := 0; i < len(buf); {
+			d = 0
+			for j := 0; j < width; j++ {
+				d += buf[i]
+				buf[i] = d
+				i++
+			}
+		}
 	case 16:
 		var d uint16
 		for i := 0; i < len(buf); {
-- 
2.43.0


From 56448d16198fb7f008ecc6dd98bf6a5b93d345c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:16 +0000
Subject: [PATCH 03/45] fix: undo the byte-planar prediction of 32 bit ZIP
 compressed images

---
 compress.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/compress.go b/compress.go
index 60ea716..7111d2d 100644
--- a/compress.go
+++ b/compress.go
@@ -93,13 +93,21 @@ func decodeDelta(buf []byte, width int, depth int) {
 			}
 		}
 	case 32:
-		var d uint32
-		for i := 0; i < len(buf); {
+		// Each scanline holds the most significant bytes of all pixels first,
+		// then the next significant ones and so on. The delta is taken byte by byte.
+		var d uint8
+		line := make([]byte, width<<2)
+		for i := 0; i < len(buf); i += len(line) {
 			d = 0
+			for j := range line {
+				d += buf[i+j]
+				line[j] = d
+			}
 			for j := 0; j < width; j++ {
-				d += readUint32(buf, i)
-				writeUint32(buf, d, i)
-				i += 4
+				buf[i+j<<2] = line[j]
+				buf[i+j<<2+1] = line[j+width]
+				buf[i+j<<2+2] = line[j+width<<1]
+				buf[i+j<<2+3] = line[j+width*3]
 			}
 		}
 	}
-- 
2.43.0


From ef2789ff45cb4c75bbe765fe3dbaadfae12cec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:52 +0000
Subject: [PATCH 04/45] fix: decode every RLE scanline on its own, whatever the
 number of CPUs

---
 compress_other.go   | 6 ++++++
 compress_wasm_js.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/compress_other.go b/compress_other.go
index 9b7e084..695a901 100644
--- a/compress_other.go
+++ b/compress_other.go
@@ -82,7 +82,13 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 
 func decodePackBitsPerLine(dest []byte, buf []byte, lens []int) error {
 	var l int
+	rest, width := dest, 0
+	if len(lens) > 0 {
+		width = len(dest) / len(lens)
+	}
 	for _, ln := range lens {
+		// A scanline never extends into the next one.
+		dest, rest = rest[:width], rest[width:]
 		for i := 0; i < ln; {
 			if buf[i] <= 0x7f {
 				l = int(buf[i]) + 1
diff --git a/compress_wasm_js.go b/compress_wasm_js.go
index 8009a24..dfbbb98 100644
--- a/compress_wasm_js.go
+++ b/compress_wasm_js.go
@@ -49,7 +49,13 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 
 func decodePackBitsPerLine(dest []byte, buf []byte, lens []int) error {
 	var l int
+	rest, width := dest, 0
+	if len(lens) > 0 {
+		width = len(dest) / len(lens)
+	}
 	for _, ln := range lens {
+		// A scanline never extends into the next one.
+		dest, rest = rest[:width], rest[width:]
 		for i := 0; i < ln; {
 			if buf[i] <= 0x7f {
 				l = int(buf[i]) + 1
-- 
2.43.0


From 508134ec277cfeffbcc16afcdf8b3609da9f67bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:52 +0000
Subject: [PATCH 05/45] fix: PackBits no-op packets and scanline bounds in the
 JavaScript decoder

---
 compress.inc.js | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/compress.inc.js b/compress.inc.js
index d44e57a..5406123 100644
--- a/compress.inc.js
+++ b/compress.inc.js
@@ -15,12 +15,16 @@ $global['$github.com/oov/psd$'] = {
     },
     decodePackBits: function(dest, buf, lens) {
         var ofs = 0,
-            d = 0;
+            d = 0,
+            end = 0,
+            width = lens.length > 0 ? Math.floor(dest.length / lens.length) : 0;
         for (var i = 0; i < lens.length; ++i) {
+            d = end;
+            end += width;
             for (var j = 0, ln = lens[i]; j < ln;) {
                 if (buf[ofs] <= 0x7f) {
                     var l = buf[ofs++] + 1;
-                    if (dest.length < d+l || ln-j-1 < l) {
+                    if (end < d+l || ln-j-1 < l) {
                         return false;
                     }
                     for (var k = 0; k < l; ++k) {
@@ -31,10 +35,11 @@ $global['$github.com/oov/psd$'] = {
                 }
                 if (buf[ofs] == 0x80) {
                     ofs++;
+                    j++;
                     continue;
                 }
                 var l = 256 - buf[ofs++] + 1;
-                if (dest.length < d+l || j+1 >= ln) {
+                if (end < d+l || j+1 >= ln) {
                     return false;
                 }
                 for (var k = 0, c = buf[ofs++]; k < l; ++k) {
-- 
2.43.0


From 856257ee6099e4167a085e893b51aaa94583035b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 06/45] fix: the real user mask rectangle is signed

---
 layer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layer.go b/layer.go
index 7771a92..3239748 100644
--- a/layer.go
+++ b/layer.go
@@ -791,8 +791,8 @@ func readLayerMaskAndAdjustmentLayerData(r io.Reader, layer *Layer, cfg *Config,
 	read += l
 	readMask += l
 	layer.Mask.RealRect = image.Rect(
-		int(readUint32(b, 4)), int(readUint32(b, 0)),
-		int(readUint32(b, 12)), int(readUint32(b, 8)),
+		int(int32(readUint32(b, 4))), int(int32(readUint32(b, 0))),
+		int(int32(readUint32(b, 12))), int(int32(readUint32(b, 8))),
 	)
 
 	return read, nil
-- 
2.43.0


From 24cbde7269bf7dea82b603d778237769b10a226d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 07/45] fix: report a folder that is never closed instead of
 dropping layers

---
 layer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/layer.go b/layer.go
index 3239748..85f81fc 100644
--- a/layer.go
+++ b/layer.go
@@ -219,6 +219,9 @@ func buildTree(layer []Layer) ([]Layer, error) {
 			n = append(n, l)
 		}
 	}
+	if len(stack) != 0 {
+		return nil, errors.New("psd: layer tree structure is broken(unclosed folder)")
+	}
 	return n, nil
 }
 
-- 
2.43.0


From e5bdcd95a9a5aaea05239a90e48a544537463396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 08/45] fix: skip the rest of the layer mask data

---
 layer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/layer.go b/layer.go
index 85f81fc..ef9b281 100644
--- a/layer.go
+++ b/layer.go
@@ -798,6 +798,14 @@ func readLayerMaskAndAdjustmentLayerData(r io.Reader, layer *Layer, cfg *Config,
 		int(int32(readUint32(b, 12))), int(int32(readUint32(b, 8))),
 	)
 
+	// Discard any remaining data.
+	if maskLen > readMask {
+		l, err = discard(r, maskLen-readMask)
+		read += l
+		if err != nil {
+			return read, err
+		}
+	}
 	return read, nil
 }
 
-- 
2.43.0


From 3aecc4c0ce000992c4dd761b2661af46984db1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:20 +0000
Subject: [PATCH 09/45] fix: short reads of alignment padding desynchronised
 the decoder

---
 util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util.go b/util.go
index cddf128..63f5699 100644
--- a/util.go
+++ b/util.go
@@ -97,7 +97,7 @@ func readUnicodeString(b []byte) string {
 func adjustAlign2(r io.Reader, l int) (read int, err error) {
 	if l&1 != 0 {
 		var b [1]byte
-		return r.Read(b[:])
+		return io.ReadFull(r, b[:])
 	}
 	return 0, nil
 }
@@ -105,7 +105,7 @@ func adjustAlign2(r io.Reader, l int) (read int, err error) {
 func adjustAlign4(r io.Reader, l int) (read int, err error) {
 	if gap := l & 3; gap > 0 {
 		var b [4]byte
-		return r.Read(b[:4-gap])
+		return io.ReadFull(r, b[:4-gap])
 	}
 	return 0, nil
 }
-- 
2.43.0


From 28ca2033d724e79ec5c8ce29790c904ef6efaa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:47 +0000
Subject: [PATCH 10/45] fix: an incomplete transparency index resource caused a
 panic

---
 psd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psd.go b/psd.go
index 4e66663..f92e3c0 100644
--- a/psd.go
+++ b/psd.go
@@ -92,7 +92,7 @@ func (cfg *Config) Palette() color.Palette {
 	// 0x0417(1046) | (Photoshop 6.0) Transparency Index.
 	//                2 bytes for the index of transparent color, if any.
 	transparentColorIndex := -1
-	if r, ok := cfg.Res[0x0417]; ok {
+	if r, ok := cfg.Res[0x0417]; ok && len(r.Data) >= 2 {
 		transparentColorIndex = int(readUint16(r.Data, 0))
 	}
 	pal := make(color.Palette, len(cfg.ColorModeData)/3)
-- 
2.43.0


From ceead16f7664e3e341cde903565a7ac2df314c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:47 +0000
Subject: [PATCH 11/45] fix: an indexed image without a full palette caused a
 panic

---
 psd.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/psd.go b/psd.go
index f92e3c0..f107425 100644
--- a/psd.go
+++ b/psd.go
@@ -95,7 +95,15 @@ func (cfg *Config) Palette() color.Palette {
 	if r, ok := cfg.Res[0x0417]; ok && len(r.Data) >= 2 {
 		transparentColorIndex = int(readUint16(r.Data, 0))
 	}
-	pal := make(color.Palette, len(cfg.ColorModeData)/3)
+	ln := len(cfg.ColorModeData) / 3
+	if ln > 256 {
+		ln = 256
+	}
+	if ln > len(cfg.ColorModeData)-512 {
+		// the color mode data is incomplete.
+		ln = 0
+	}
+	pal := make(color.Palette, ln)
 	for i := range pal {
 		c := color.NRGBA{
 			cfg.ColorModeData[i],
@@ -115,6 +123,9 @@ func (cfg *Config) makePicker() (picker, error) {
 	var pk picker
 	switch cfg.ColorMode {
 	case ColorModeIndexed:
+		if cfg.Depth != 8 || len(cfg.ColorModeData) < 768 {
+			return nil, errors.New("psd: unexpected palette or depth in the indexed color mode")
+		}
 		pk = &pickerPalette{Palette: cfg.Palette()}
 	case ColorModeBitmap:
 		pk = &pickerGray1{}
-- 
2.43.0


From ee54ec23f5b78335d8ca72306ca74b073ff49861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:47 +0000
Subject: [PATCH 12/45] fix: an image with too few channels for its color mode
 caused a panic

---
 psd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psd.go b/psd.go
index f107425..0704bac 100644
--- a/psd.go
+++ b/psd.go
@@ -121,6 +121,9 @@ func (cfg *Config) Palette() color.Palette {
 
 func (cfg *Config) makePicker() (picker, error) {
 	var pk picker
+	if cfg.Channels < cfg.ColorMode.Channels() {
+		return nil, errors.New("psd: too few channels for the color mode")
+	}
 	switch cfg.ColorMode {
 	case ColorModeIndexed:
 		if cfg.Depth != 8 || len(cfg.ColorModeData) < 768 {
-- 
2.43.0


From 4d3a28ce54e68a5d6fb31e97f3e9f559f199f7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:47 +0000
Subject: [PATCH 13/45] fix: an incomplete alpha identifier caused a panic

---
 imageres.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/imageres.go b/imageres.go
index af5f22a..dd67a57 100644
--- a/imageres.go
+++ b/imageres.go
@@ -108,7 +108,7 @@ func hasAlphaID0(Res map[int]ImageResource) bool {
 	if !ok {
 		return true
 	}
-	for i, ln := 0, len(aid.Data); i < ln; i += 4 {
+	for i, ln := 0, len(aid.Data); i+4 <= ln; i += 4 {
 		if readUint32(aid.Data, i) == 0 {
 			return true
 		}
-- 
2.43.0


From 90949b2043f8a54031f7cc23b49e647418d00707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:47 +0000
Subject: [PATCH 14/45] fix: an incomplete unicode string caused a panic

---
 util.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util.go b/util.go
index 63f5699..a8b8b87 100644
--- a/util.go
+++ b/util.go
@@ -83,7 +83,13 @@ func writeUint32(b []byte, v uint32, offset int) {
 }
 
 func readUnicodeString(b []byte) string {
+	if len(b) < 4 {
+		return ""
+	}
 	ln := readUint32(b, 0)
+	if max := uint32(len(b)-4) >> 1; ln > max {
+		ln = max
+	}
 	if ln == 0 {
 		return ""
 	}
-- 
2.43.0


From 9dcc28d1de770bab1375283ef2ca3a7832de1092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:47 +0000
Subject: [PATCH 15/45] fix: an incomplete section divider setting caused a
 panic

---
 layer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layer.go b/layer.go
index ef9b281..ff9488c 100644
--- a/layer.go
+++ b/layer.go
@@ -227,7 +227,7 @@ func buildTree(layer []Layer) ([]Layer, error) {
 
 func readSectionDividerSetting(l *Layer) (typ int, blendMode BlendMode, subType int, err error) {
 	b, ok := l.AdditionalLayerInfo[AdditionalInfoKeySectionDividerSetting]
-	if ok {
+	if ok && len(b) >= 4 {
 		typ = int(readUint32(b, 0))
 		if len(b) < 12 {
 			return typ, "", 0, nil
@@ -243,7 +243,7 @@ func readSectionDividerSetting(l *Layer) (typ int, blendMode BlendMode, subType
 		return typ, blendMode, subType, nil
 	}
 	b, ok = l.AdditionalLayerInfo[AdditionalInfoKeySectionDividerSetting2]
-	if ok {
+	if ok && len(b) >= 4 {
 		typ = int(readUint32(b, 0))
 		if len(b) < 12 {
 			return typ, "", 0, nil
-- 
2.43.0


From 304cddc99aaf1b2815626bd1e02c3d84ac012687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:47 +0000
Subject: [PATCH 16/45] fix: check the length of additional layer information

---
 layer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/layer.go b/layer.go
index ff9488c..4412ac5 100644
--- a/layer.go
+++ b/layer.go
@@ -860,7 +860,10 @@ func readAdditionalLayerInfo(r io.Reader, infoLen int, cfg *Config, o *DecodeOpt
 			}
 			read += l
 			var data []byte
-			if ln := int(readUint(b, 0, intSize)); ln > 0 {
+			if ln := int(readUint(b, 0, intSize)); ln != 0 {
+				if ln < 0 || ln > infoLen-read {
+					return nil, nil, read, errors.New("psd: unexpected the length of the additional layer information")
+				}
 				data = make([]byte, ln)
 				if l, err = io.ReadFull(r, data); err != nil {
 					return nil, nil, read, err
-- 
2.43.0


From 4abcb9073bf823efb5ba3b56a0dd0f33f8d53cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:47 +0000
Subject: [PATCH 17/45] fix: layers of unsupported color modes caused a panic

---
 layer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/layer.go b/layer.go
index 4412ac5..d9337e2 100644
--- a/layer.go
+++ b/layer.go
@@ -446,6 +446,9 @@ func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *Decode
 	b := make([]byte, 2)
 	for i, lci := range lcis {
 		chMap := map[int]Channel{}
+		if findPicker(cfg.Depth, cfg.ColorMode, false) == nil {
+			return read, errors.New("psd: layer color mode " + itoa(int(cfg.ColorMode)) + " depth " + itoa(cfg.Depth) + " is not implemented")
+		}
 		pickerChs := make([][]byte, cfg.ColorMode.Channels(), 8)
 		for _, j := range lci.ChannelData {
 			var readCh int
-- 
2.43.0


From 4da9d499de668bd9675d681f4fc2328adfeb3a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:47 +0000
Subject: [PATCH 18/45] fix: layer channels beyond those of the color mode
 caused a panic

---
 layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layer.go b/layer.go
index d9337e2..0e74776 100644
--- a/layer.go
+++ b/layer.go
@@ -503,7 +503,7 @@ func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *Decode
 				Picker: pk,
 			}
 			switch {
-			case j.ChIndex >= 0:
+			case j.ChIndex >= 0 && j.ChIndex < cfg.ColorMode.Channels():
 				pickerChs[j.ChIndex] = data
 			case j.ChIndex == -1:
 				pickerChs = append(pickerChs, data)
-- 
2.43.0


From 06244a1e79d2765f2c61ec21f36a536604f5c042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:47 +0000
Subject: [PATCH 19/45] fix: reading pixels of a layer without some color
 channel caused a panic

---
 layer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/layer.go b/layer.go
index 0e74776..c30d165 100644
--- a/layer.go
+++ b/layer.go
@@ -509,6 +509,12 @@ func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *Decode
 				pickerChs = append(pickerChs, data)
 			}
 		}
+		for j := range pickerChs {
+			if pickerChs[j] == nil {
+				// the file does not have this channel.
+				pickerChs[j] = make([]byte, (lci.Layer.Rect.Dx()*cfg.Depth+7)>>3*lci.Layer.Rect.Dy())
+			}
+		}
 		pk := findPicker(cfg.Depth, cfg.ColorMode, cfg.ColorMode.Channels() < len(pickerChs))
 		pk.setSource(lci.Layer.Rect, pickerChs...)
 		lci.Layer.Picker = pk
-- 
2.43.0


From bc778aaef05fe7612a30f8fad4dbeae11266b579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:32 +0000
Subject: [PATCH 20/45] fix: check the length of an image resource before
 reserving memory for it

---
 imageres.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/imageres.go b/imageres.go
index dd67a57..55ca050 100644
--- a/imageres.go
+++ b/imageres.go
@@ -76,6 +76,9 @@ func readImageResource(r io.Reader) (resMap map[int]ImageResource, read int, err
 			return nil, read, err
 		}
 		read += l
+		if int64(readUint32(b, 0)) > int64(imageResourceLen)+4-int64(read) {
+			return nil, read, errors.New("psd: unexpected the length of the image resource")
+		}
 		res.Data = make([]byte, readUint32(b, 0))
 		if l, err = io.ReadFull(r, res.Data); err != nil {
 			return nil, read, err
-- 
2.43.0


From 28ac415b20dea3baeb6e9f282c288380937cd0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:40 +0000
Subject: [PATCH 21/45] fix: wrong sizes in a broken file reserved gigabytes of
 memory

---
 compress_other.go   |  5 ++---
 compress_wasm_js.go |  5 ++---
 imageres.go         |  4 ++--
 layer.go            |  5 ++---
 psd.go              |  5 ++---
 util.go             | 20 ++++++++++++++++++++
 6 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/compress_other.go b/compress_other.go
index 695a901..576926e 100644
--- a/compress_other.go
+++ b/compress_other.go
@@ -39,11 +39,10 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 		}
 	}
 
-	buf = make([]byte, total)
-	if l, err = io.ReadFull(r, buf); err != nil {
+	if buf, err = readBytes(r, total); err != nil {
 		return
 	}
-	read += l
+	read += total
 
 	n := runtime.GOMAXPROCS(0)
 	for n > 1 && n<<1 > lines {
diff --git a/compress_wasm_js.go b/compress_wasm_js.go
index dfbbb98..f9a9808 100644
--- a/compress_wasm_js.go
+++ b/compress_wasm_js.go
@@ -37,11 +37,10 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 		}
 	}
 
-	buf = make([]byte, total)
-	if l, err = io.ReadFull(r, buf); err != nil {
+	if buf, err = readBytes(r, total); err != nil {
 		return
 	}
-	read += l
+	read += total
 
 	err = decodePackBitsPerLine(dest, buf, lens)
 	return
diff --git a/imageres.go b/imageres.go
index 55ca050..298fa9a 100644
--- a/imageres.go
+++ b/imageres.go
@@ -79,10 +79,10 @@ func readImageResource(r io.Reader) (resMap map[int]ImageResource, read int, err
 		if int64(readUint32(b, 0)) > int64(imageResourceLen)+4-int64(read) {
 			return nil, read, errors.New("psd: unexpected the length of the image resource")
 		}
-		res.Data = make([]byte, readUint32(b, 0))
-		if l, err = io.ReadFull(r, res.Data); err != nil {
+		if res.Data, err = readBytes(r, int(readUint32(b, 0))); err != nil {
 			return nil, read, err
 		}
+		l = len(res.Data)
 		read += l
 		if l, err = adjustAlign2(r, l); err != nil {
 			return nil, read, err
diff --git a/layer.go b/layer.go
index c30d165..2d6858c 100644
--- a/layer.go
+++ b/layer.go
@@ -873,11 +873,10 @@ func readAdditionalLayerInfo(r io.Reader, infoLen int, cfg *Config, o *DecodeOpt
 				if ln < 0 || ln > infoLen-read {
 					return nil, nil, read, errors.New("psd: unexpected the length of the additional layer information")
 				}
-				data = make([]byte, ln)
-				if l, err = io.ReadFull(r, data); err != nil {
+				if data, err = readBytes(r, ln); err != nil {
 					return nil, nil, read, err
 				}
-				read += l
+				read += ln
 			}
 			infos[key] = data
 			if Debug != nil {
diff --git a/psd.go b/psd.go
index 0704bac..db62101 100644
--- a/psd.go
+++ b/psd.go
@@ -197,11 +197,10 @@ func DecodeConfig(r io.Reader) (cfg Config, read int, err error) {
 	cfg.ColorMode = ColorMode(readUint16(b, 24))
 
 	if ln := readUint32(b, 26); ln > 0 {
-		cfg.ColorModeData = make([]byte, ln)
-		if l, err = io.ReadFull(r, cfg.ColorModeData); err != nil {
+		if cfg.ColorModeData, err = readBytes(r, int(ln)); err != nil {
 			return Config{}, read, err
 		}
-		read += l
+		read += int(ln)
 	}
 	if Debug != nil {
 		Debug.Println("start - header")
diff --git a/util.go b/util.go
index a8b8b87..b821cfe 100644
--- a/util.go
+++ b/util.go
@@ -1,6 +1,7 @@
 package psd
 
 import (
+	"bytes"
 	"io"
 	"io/ioutil"
 	"math"
@@ -100,6 +101,25 @@ func readUnicodeString(b []byte) string {
 	return string(utf16.Decode(buf))
 }
 
+// readBytes reads n bytes.
+// It does not rely on n to reserve memory because n may be wrong in a broken file.
+func readBytes(r io.Reader, n int) ([]byte, error) {
+	const maxTrust = 1 << 20
+	if n <= maxTrust {
+		b := make([]byte, n)
+		_, err := io.ReadFull(r, b)
+		return b, err
+	}
+	var buf bytes.Buffer
+	if _, err := io.CopyN(&buf, r, int64(n)); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+		return nil, err
+	}
+	return buf.Bytes(), nil
+}
+
 func adjustAlign2(r io.Reader, l int) (read int, err error) {
 	if l&1 != 0 {
 		var b [1]byte
-- 
2.43.0


From 8c10f21074a08b01479bfe3ac7b0440c0d0c9c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:09 +0000
Subject: [PATCH 22/45] fix: negative float samples are black

---
 color/color.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/color/color.go b/color/color.go
index 95f762e..7579d69 100644
--- a/color/color.go
+++ b/color/color.go
@@ -6,6 +6,10 @@ import (
 )
 
 func fromFloat(v, gamma float64) uint32 {
+	if !(v > 0) {
+		// negative or not a number.
+		return 0
+	}
 	x := math.Pow(v, gamma)
 	switch {
 	case x >= 1:
-- 
2.43.0


From 17ed14e6a77cddfc0b2536e24df2b1797689c599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:09 +0000
Subject: [PATCH 23/45] fix: NGrayA, NGrayA32 and NCMYKA80 models returned a
 color of another type

---
 color/color.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/color/color.go b/color/color.go
index 7579d69..2c9712e 100644
--- a/color/color.go
+++ b/color/color.go
@@ -89,7 +89,7 @@ func (c NGrayA) RGBA() (uint32, uint32, uint32, uint32) {
 }
 
 func nGrayAModel(c color.Color) color.Color {
-	if _, ok := c.(NGrayA64); ok {
+	if _, ok := c.(NGrayA); ok {
 		return c
 	}
 	r, g, b, a := c.RGBA()
@@ -124,7 +124,7 @@ func (c NGrayA32) RGBA() (uint32, uint32, uint32, uint32) {
 }
 
 func nGrayA32Model(c color.Color) color.Color {
-	if _, ok := c.(NGrayA64); ok {
+	if _, ok := c.(NGrayA32); ok {
 		return c
 	}
 	r, g, b, a := c.RGBA()
@@ -287,7 +287,7 @@ func (c NCMYKA80) RGBA() (uint32, uint32, uint32, uint32) {
 }
 
 func nCMYKA80Model(c color.Color) color.Color {
-	if _, ok := c.(NCMYKA); ok {
+	if _, ok := c.(NCMYKA80); ok {
 		return c
 	}
 	r, g, b, a := c.RGBA()
-- 
2.43.0


From 273a18815ec3d4a585a06bc1ff89581c4600bdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:09 +0000
Subject: [PATCH 24/45] fix: CMYK models divided by zero and did not undo the
 premultiplied alpha

---
 color/color.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/color/color.go b/color/color.go
index 2c9712e..1d892f7 100644
--- a/color/color.go
+++ b/color/color.go
@@ -254,11 +254,13 @@ func nCMYKAModel(c color.Color) color.Color {
 		return c
 	}
 	r, g, b, a := c.RGBA()
+	if a == 0 {
+		return NCMYKA{0xff, 0xff, 0xff, 0xff, 0}
+	}
+	if a != 0xffff {
+		r, g, b = r*0xffff/a, g*0xffff/a, b*0xffff/a
+	}
 	cc, mm, yy, kk := color.RGBToCMYK(uint8(r>>8), uint8(g>>8), uint8(b>>8))
-	cc = uint8((uint32(cc) * 0xffff) / a)
-	mm = uint8((uint32(mm) * 0xffff) / a)
-	yy = uint8((uint32(yy) * 0xffff) / a)
-	kk = uint8((uint32(kk) * 0xffff) / a)
 	return NCMYKA{255 - cc, 255 - mm, 255 - yy, 255 - kk, uint8(a >> 8)}
 }
 
@@ -294,6 +296,9 @@ func nCMYKA80Model(c color.Color) color.Color {
 	if a == 0 {
 		return NCMYKA80{0xffff, 0xffff, 0xffff, 0xffff, 0}
 	}
+	if a != 0xffff {
+		r, g, b = r*0xffff/a, g*0xffff/a, b*0xffff/a
+	}
 	w := r
 	if w < g {
 		w = g
@@ -302,19 +307,12 @@ func nCMYKA80Model(c color.Color) color.Color {
 		w = b
 	}
 	if w == 0 {
-		return NCMYKA80{0xffff, 0xffff, 0xffff, 0xffff, uint16(a)}
+		return NCMYKA80{0xffff, 0xffff, 0xffff, 0, uint16(a)}
 	}
 	cc := (w - r) * 0xffff / w
 	mm := (w - g) * 0xffff / w
 	yy := (w - b) * 0xffff / w
 	kk := 0xffff - w
-	if a == 0xffff {
-		return NCMYKA80{uint16(0xffff - cc), uint16(0xffff - mm), uint16(0xffff - yy), uint16(0xffff - kk), 0xffff}
-	}
-	cc = (cc * 0xffff) / a
-	mm = (mm * 0xffff) / a
-	yy = (yy * 0xffff) / a
-	kk = (kk * 0xffff) / a
 	return NCMYKA80{uint16(0xffff - cc), uint16(0xffff - mm), uint16(0xffff - yy), uint16(0xffff - kk), uint16(a)}
 }
 
-- 
2.43.0


From b944151d252c9666d9d47fdc9a8da33f484d10ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:09 +0000
Subject: [PATCH 25/45] fix: float models undo the premultiplied alpha before
 the gamma

---
 color/color.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/color/color.go b/color/color.go
index 1d892f7..7330f88 100644
--- a/color/color.go
+++ b/color/color.go
@@ -167,12 +167,15 @@ func nGrayA64Model(c color.Color) color.Color {
 		return NGrayA64{0, 0}
 	}
 	y := (299*r + 587*g + 114*b + 500) / 1000
+	if a != 0xffff {
+		y = y * 0xffff / a
+	}
 	x := float32(toFloat(y, 2.2))
 	if a == 0xffff {
 		return NGrayA64{x, 1}
 	}
 	xa := float32(a) / 0xffff
-	return NGrayA64{x / xa, xa}
+	return NGrayA64{x, xa}
 }
 
 type NRGBA128 struct {
@@ -204,6 +207,9 @@ func nRGBA128Model(c color.Color) color.Color {
 	}
 	r, g, b, a := c.RGBA()
 	const gamma = 2.2
+	if a != 0 && a < 0xffff {
+		r, g, b = r*0xffff/a, g*0xffff/a, b*0xffff/a
+	}
 	fr := float32(toFloat(r, gamma))
 	fg := float32(toFloat(g, gamma))
 	fb := float32(toFloat(b, gamma))
@@ -213,10 +219,6 @@ func nRGBA128Model(c color.Color) color.Color {
 	case a == 0:
 		return NRGBA128{}
 	}
-	fa := 0xffff / float32(a)
-	fr *= fa
-	fg *= fa
-	fb *= fa
 	return NRGBA128{fr, fg, fb, float32(a) / 0xffff}
 }
 
-- 
2.43.0


From 89645df658072d78368d4eb7fc27a7d4322f0c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:33 +0000
Subject: [PATCH 26/45] fix: soft light lost the fraction of its polynomial for
 dark backdrops

---
 blend/genblend.go |  4 ++--
 blend/zblends.go  | 36 ++++++++++++++++++------------------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/blend/genblend.go b/blend/genblend.go
index 278ee7a..d4766df 100644
--- a/blend/genblend.go
+++ b/blend/genblend.go
@@ -215,7 +215,7 @@ var blendModes = []mode{
 				ret = dest - (((maxValue - (src << 1)) * dest * 32897 >> 23) * (maxValue - dest) * 32897 >> 23);
 			} else {
 				if (dest < quarterValue) {
-					tmp = uint32((((int32(dest)<<4 - maxValue*12) * 32897 >> 23) * int32(dest) + maxValue*4) * int32(dest) * 32897 >> 23);
+					tmp = uint32(((int32(dest)<<4 - maxValue*12) * int32(dest) / maxValue + maxValue*4) * int32(dest) / maxValue);
 				} else {
 					tmp = sqrt(dest, maxValue);
 				}
@@ -227,7 +227,7 @@ var blendModes = []mode{
 				ret = dest - (((maxValue - (src << 1)) * dest / maxValue) * (maxValue - dest) / maxValue);
 			} else {
 				if (dest < quarterValue) {
-					tmp = uint32((((int32(dest)<<4 - maxValue*12) / maxValue) * int32(dest) + maxValue*4) * int32(dest) / maxValue);
+					tmp = uint32(((int64(dest)<<4 - maxValue*12) * int64(dest) / maxValue + maxValue*4) * int64(dest) / maxValue);
 				} else {
 					tmp = sqrt(dest, maxValue);
 				}
diff --git a/blend/zblends.go b/blend/zblends.go
index 888a303..4ce6335 100644
--- a/blend/zblends.go
+++ b/blend/zblends.go
@@ -6378,7 +6378,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				r = dr - (((0xff - (sr << 1)) * dr * 32897 >> 23) * (0xff - dr) * 32897 >> 23)
 			} else {
 				if dr < 0x40 {
-					tmp = uint32((((int32(dr)<<4-0xff*12)*32897>>23)*int32(dr) + 0xff*4) * int32(dr) * 32897 >> 23)
+					tmp = uint32(((int32(dr)<<4-0xff*12)*int32(dr)/0xff + 0xff*4) * int32(dr) / 0xff)
 				} else {
 					tmp = sqrt(dr, 0xff)
 				}
@@ -6389,7 +6389,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				g = dg - (((0xff - (sg << 1)) * dg * 32897 >> 23) * (0xff - dg) * 32897 >> 23)
 			} else {
 				if dg < 0x40 {
-					tmp = uint32((((int32(dg)<<4-0xff*12)*32897>>23)*int32(dg) + 0xff*4) * int32(dg) * 32897 >> 23)
+					tmp = uint32(((int32(dg)<<4-0xff*12)*int32(dg)/0xff + 0xff*4) * int32(dg) / 0xff)
 				} else {
 					tmp = sqrt(dg, 0xff)
 				}
@@ -6400,7 +6400,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				b = db - (((0xff - (sb << 1)) * db * 32897 >> 23) * (0xff - db) * 32897 >> 23)
 			} else {
 				if db < 0x40 {
-					tmp = uint32((((int32(db)<<4-0xff*12)*32897>>23)*int32(db) + 0xff*4) * int32(db) * 32897 >> 23)
+					tmp = uint32(((int32(db)<<4-0xff*12)*int32(db)/0xff + 0xff*4) * int32(db) / 0xff)
 				} else {
 					tmp = sqrt(db, 0xff)
 				}
@@ -6450,7 +6450,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32(((int64(dr)<<4-0xffff*12)*int64(dr)/0xffff + 0xffff*4) * int64(dr) / 0xffff)
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6461,7 +6461,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32(((int64(dg)<<4-0xffff*12)*int64(dg)/0xffff + 0xffff*4) * int64(dg) / 0xffff)
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6472,7 +6472,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32(((int64(db)<<4-0xffff*12)*int64(db)/0xffff + 0xffff*4) * int64(db) / 0xffff)
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
@@ -6536,7 +6536,7 @@ var drawSoftLightRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32(((int64(dr)<<4-0xffff*12)*int64(dr)/0xffff + 0xffff*4) * int64(dr) / 0xffff)
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6547,7 +6547,7 @@ var drawSoftLightRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32(((int64(dg)<<4-0xffff*12)*int64(dg)/0xffff + 0xffff*4) * int64(dg) / 0xffff)
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6558,7 +6558,7 @@ var drawSoftLightRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32(((int64(db)<<4-0xffff*12)*int64(db)/0xffff + 0xffff*4) * int64(db) / 0xffff)
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
@@ -6622,7 +6622,7 @@ var drawSoftLightNRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32(((int64(dr)<<4-0xffff*12)*int64(dr)/0xffff + 0xffff*4) * int64(dr) / 0xffff)
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6633,7 +6633,7 @@ var drawSoftLightNRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32(((int64(dg)<<4-0xffff*12)*int64(dg)/0xffff + 0xffff*4) * int64(dg) / 0xffff)
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6644,7 +6644,7 @@ var drawSoftLightNRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32(((int64(db)<<4-0xffff*12)*int64(db)/0xffff + 0xffff*4) * int64(db) / 0xffff)
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
@@ -6718,7 +6718,7 @@ var drawSoftLightRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint3
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32(((int64(dr)<<4-0xffff*12)*int64(dr)/0xffff + 0xffff*4) * int64(dr) / 0xffff)
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6729,7 +6729,7 @@ var drawSoftLightRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint3
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32(((int64(dg)<<4-0xffff*12)*int64(dg)/0xffff + 0xffff*4) * int64(dg) / 0xffff)
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6740,7 +6740,7 @@ var drawSoftLightRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint3
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32(((int64(db)<<4-0xffff*12)*int64(db)/0xffff + 0xffff*4) * int64(db) / 0xffff)
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
@@ -6808,7 +6808,7 @@ var drawSoftLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32(((int64(dr)<<4-0xffff*12)*int64(dr)/0xffff + 0xffff*4) * int64(dr) / 0xffff)
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6819,7 +6819,7 @@ var drawSoftLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32(((int64(dg)<<4-0xffff*12)*int64(dg)/0xffff + 0xffff*4) * int64(dg) / 0xffff)
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6830,7 +6830,7 @@ var drawSoftLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32(((int64(db)<<4-0xffff*12)*int64(db)/0xffff + 0xffff*4) * int64(db) / 0xffff)
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
-- 
2.43.0


From 69cf0bebb6b13b6200bc83751be2c043c7eab8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:59 +0000
Subject: [PATCH 27/45] fix: add overflowed 32 bits and was not limited by the
 alpha of the result

---
 blend/genblend.go | 18 +++++++++---------
 blend/zblends.go  | 30 +++++++++++++++---------------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/blend/genblend.go b/blend/genblend.go
index d4766df..e1a29ae 100644
--- a/blend/genblend.go
+++ b/blend/genblend.go
@@ -595,9 +595,9 @@ var draw{{.Name}}NRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 {{define "drawMain2_SetNRGBA"}}
 {{if .OverMax}}
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1 + sb*a2 + db*a3) / a) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1 + sg*a2 + dg*a3) / a) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1 + sr*a2 + dr*a3) / a) >> 8)
+			dpix[j+2] = uint8(clip6416((uint64(b)*uint64(a1) + uint64(sb*a2 + db*a3)) / uint64(a)) >> 8)
+			dpix[j+1] = uint8(clip6416((uint64(g)*uint64(a1) + uint64(sg*a2 + dg*a3)) / uint64(a)) >> 8)
+			dpix[j+0] = uint8(clip6416((uint64(r)*uint64(a1) + uint64(sr*a2 + dr*a3)) / uint64(a)) >> 8)
 {{else}}
 			dpix[j+3] = uint8(a >> 8)
 			dpix[j+2] = uint8(((b*a1 + sb*a2 + db*a3) / a) >> 8)
@@ -608,9 +608,9 @@ var draw{{.Name}}NRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 {{define "drawMain2_SetRGBA"}}
 {{if .OverMax}}
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1 + sb*a2 + db*a3) / 0xffff) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1 + sg*a2 + dg*a3) / 0xffff) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1 + sr*a2 + dr*a3) / 0xffff) >> 8)
+			dpix[j+2] = uint8(clip6416((uint64(b)*uint64(a1) + uint64(sb*a2 + db*a3)) / uint64(a)) * a / 0xffff >> 8)
+			dpix[j+1] = uint8(clip6416((uint64(g)*uint64(a1) + uint64(sg*a2 + dg*a3)) / uint64(a)) * a / 0xffff >> 8)
+			dpix[j+0] = uint8(clip6416((uint64(r)*uint64(a1) + uint64(sr*a2 + dr*a3)) / uint64(a)) * a / 0xffff >> 8)
 {{else}}
 			dpix[j+3] = uint8(a >> 8)
 			dpix[j+2] = uint8(((b*a1 + sb*a2 + db*a3) / 0xffff) >> 8)
@@ -713,9 +713,9 @@ var draw{{.Name}}Fallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 {{.Code.To16}}
 {{end}}
 {{if .OverMax}}
-			out.R = uint16(clip6416(uint64(sr*a2 + dr*a3)/0xffff + uint64(r)*uint64(a1) / uint64(a)) * a / 0xffff)
-			out.G = uint16(clip6416(uint64(sg*a2 + dg*a3)/0xffff + uint64(g)*uint64(a1) / uint64(a)) * a / 0xffff)
-			out.B = uint16(clip6416(uint64(sb*a2 + db*a3)/0xffff + uint64(b)*uint64(a1) / uint64(a)) * a / 0xffff)
+			out.R = uint16(clip6416((uint64(r)*uint64(a1) + uint64(sr*a2 + dr*a3)) / uint64(a)) * a / 0xffff)
+			out.G = uint16(clip6416((uint64(g)*uint64(a1) + uint64(sg*a2 + dg*a3)) / uint64(a)) * a / 0xffff)
+			out.B = uint16(clip6416((uint64(b)*uint64(a1) + uint64(sb*a2 + db*a3)) / uint64(a)) * a / 0xffff)
 			out.A = uint16(a)
 {{else}}
 			out.R = uint16((r*a1 + sr*a2 + dr*a3) / 0xffff)
diff --git a/blend/zblends.go b/blend/zblends.go
index 4ce6335..3a09f86 100644
--- a/blend/zblends.go
+++ b/blend/zblends.go
@@ -5484,9 +5484,9 @@ var drawAddNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d
 			b = sb + db
 
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1+sb*a2+db*a3)/a) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1+sg*a2+dg*a3)/a) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1+sr*a2+dr*a3)/a) >> 8)
+			dpix[j+2] = uint8(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/uint64(a)) >> 8)
+			dpix[j+1] = uint8(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/uint64(a)) >> 8)
+			dpix[j+0] = uint8(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/uint64(a)) >> 8)
 
 		}
 		d0 += dyDelta
@@ -5543,9 +5543,9 @@ var drawAddRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d0
 			b = sb + db
 
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1+sb*a2+db*a3)/a) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1+sg*a2+dg*a3)/a) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1+sr*a2+dr*a3)/a) >> 8)
+			dpix[j+2] = uint8(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/uint64(a)) >> 8)
+			dpix[j+1] = uint8(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/uint64(a)) >> 8)
+			dpix[j+0] = uint8(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/uint64(a)) >> 8)
 
 		}
 		d0 += dyDelta
@@ -5602,9 +5602,9 @@ var drawAddNRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d0
 			b = sb + db
 
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1+sb*a2+db*a3)/0xffff) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1+sg*a2+dg*a3)/0xffff) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1+sr*a2+dr*a3)/0xffff) >> 8)
+			dpix[j+2] = uint8(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/uint64(a)) * a / 0xffff >> 8)
+			dpix[j+1] = uint8(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/uint64(a)) * a / 0xffff >> 8)
+			dpix[j+0] = uint8(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/uint64(a)) * a / 0xffff >> 8)
 
 		}
 		d0 += dyDelta
@@ -5671,9 +5671,9 @@ var drawAddRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d0,
 			b = sb + db
 
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1+sb*a2+db*a3)/0xffff) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1+sg*a2+dg*a3)/0xffff) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1+sr*a2+dr*a3)/0xffff) >> 8)
+			dpix[j+2] = uint8(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/uint64(a)) * a / 0xffff >> 8)
+			dpix[j+1] = uint8(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/uint64(a)) * a / 0xffff >> 8)
+			dpix[j+0] = uint8(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/uint64(a)) * a / 0xffff >> 8)
 
 		}
 		d0 += dyDelta
@@ -5733,9 +5733,9 @@ var drawAddFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, src
 
 			b = sb + db
 
-			out.R = uint16(clip6416(uint64(sr*a2+dr*a3)/0xffff+uint64(r)*uint64(a1)/uint64(a)) * a / 0xffff)
-			out.G = uint16(clip6416(uint64(sg*a2+dg*a3)/0xffff+uint64(g)*uint64(a1)/uint64(a)) * a / 0xffff)
-			out.B = uint16(clip6416(uint64(sb*a2+db*a3)/0xffff+uint64(b)*uint64(a1)/uint64(a)) * a / 0xffff)
+			out.R = uint16(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/uint64(a)) * a / 0xffff)
+			out.G = uint16(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/uint64(a)) * a / 0xffff)
+			out.B = uint16(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/uint64(a)) * a / 0xffff)
 			out.A = uint16(a)
 
 			dst.Set(x, y, &out)
-- 
2.43.0


From 4151feda3aaf51555e5f45b7f8d815447addc2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:35 +0000
Subject: [PATCH 28/45] fix: drawing an image on itself depended on the number
 of CPUs and had data races

---
 blend/draw.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/blend/draw.go b/blend/draw.go
index af44cdf..fa7ab55 100644
--- a/blend/draw.go
+++ b/blend/draw.go
@@ -30,10 +30,20 @@ type uniformDrawer interface {
 	drawUniformToNRGBAUniform(dst *image.NRGBA, r image.Rectangle, src *image.Uniform, sp image.Point, mask *image.Uniform)
 }
 
+// sharesMemory reports whether a and b are slices of the same array,
+// as it is with an image and its sub-images.
+func sharesMemory(a []byte, b []byte) bool {
+	return cap(a) > 0 && cap(b) > 0 && &a[:cap(a)][cap(a)-1] == &b[:cap(b)][cap(b)-1]
+}
+
 type drawFunc func(dest []byte, src []byte, alpha uint32, d0 int, s0 int, y int, sx0 int, sx1 int, sxDelta int, syDelta int, dx0 int, dx1 int, dxDelta int, dyDelta int)
 
 func (f drawFunc) Parallel(dest []byte, src []byte, alpha uint32, d0 int, s0 int, y int, sx0 int, sx1 int, sxDelta int, syDelta int, dx0 int, dx1 int, dxDelta int, dyDelta int) {
 	n := runtime.GOMAXPROCS(0)
+	if sharesMemory(dest, src) {
+		// rows must be processed in order
+		n = 1
+	}
 	for n > 1 && n<<1 > y {
 		n--
 	}
@@ -99,6 +109,10 @@ func (f drawFallbackFunc) Parallel(dst draw.Image, pX int, pY int, src image.Ima
 		y = pY - endY
 	}
 	n := runtime.GOMAXPROCS(0)
+	if image.Image(dst) == src {
+		// rows must be processed in order
+		n = 1
+	}
 	for n > 1 && n<<1 > y {
 		n--
 	}
-- 
2.43.0


From dc07d7ec5e4ddedf2ac20eb4cb553fb8225494a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:25 +0000
Subject: [PATCH 29/45] fix: parents of the layers of a new tree were missing
 or pointed to stale copies

Children were appended one by one, so that the parents the grandchildren
refer to moved, and layers at the top had no parent: SetDirtyByLayer did
not reach the caches of the folders and of the root.
---
 composite/builder.go |  3 ++-
 composite/layer.go   | 14 ++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/composite/builder.go b/composite/builder.go
index 3b4b6bb..7d8d257 100644
--- a/composite/builder.go
+++ b/composite/builder.go
@@ -51,8 +51,9 @@ func (b *builder) buildLayer(l *Layer, psdl *psd.Layer) {
 	l.MaskEnabled = psdl.Mask.Enabled() && !psdl.Mask.Rect.Empty()
 
 	b.Rect = b.Rect.Union(psdl.Rect)
+	l.Children = make([]Layer, len(psdl.Layer))
 	for i := range psdl.Layer {
-		l.Children = append(l.Children, Layer{Parent: l})
+		l.Children[i].Parent = l
 		b.buildLayer(&l.Children[i], &psdl.Layer[i])
 	}
 }
diff --git a/composite/layer.go b/composite/layer.go
index f8a5b2a..ef11f3d 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -225,11 +225,6 @@ func New(ctx context.Context, psdFile io.Reader, opt *Options) (*Tree, error) {
 		BlendMode:  psd.BlendModeNormal,
 		Opacity:    255,
 	}
-	for i := range img.Layer {
-		root.Children = append(root.Children, Layer{})
-		b.buildLayer(&root.Children[i], &img.Layer[i])
-	}
-	b.registerClippingGroup(root.Children)
 
 	r := &Tree{
 		Renderer: &Renderer{
@@ -239,11 +234,18 @@ func New(ctx context.Context, psdFile io.Reader, opt *Options) (*Tree, error) {
 		layerImage: layerImages,
 
 		CanvasRect: img.Config.Rect,
-		Rect:       b.Rect.Intersect(img.Config.Rect),
 
 		Root: root,
 	}
 
+	r.Root.Children = make([]Layer, len(img.Layer))
+	for i := range img.Layer {
+		r.Root.Children[i].Parent = &r.Root
+		b.buildLayer(&r.Root.Children[i], &img.Layer[i])
+	}
+	b.registerClippingGroup(r.Root.Children)
+	r.Rect = b.Rect.Intersect(img.Config.Rect)
+
 	r.Renderer.pool.New = r.Renderer.allocate
 	r.Renderer.tree = r
 	return r, nil
-- 
2.43.0


From 216915669b3a3d856b6d87802cf4185d9e7d8e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:25 +0000
Subject: [PATCH 30/45] fix: workers changed layers while the decoder copied
 them

The rectangles of layers and masks were overwritten by the goroutines that
build the tiles, racing with the decoder. Depending on the outcome the tree
had another rectangle, and a mask that hides everything was ignored.
---
 composite/builder.go | 3 ++-
 composite/layer.go   | 5 ++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/composite/builder.go b/composite/builder.go
index 7d8d257..6021f55 100644
--- a/composite/builder.go
+++ b/composite/builder.go
@@ -12,6 +12,7 @@ import (
 
 type builder struct {
 	Img                       *psd.PSD
+	LayerImage                map[int]layerImage
 	Rect                      image.Rectangle
 	LayerNameEncodingDetector func([]byte) encoding.Encoding
 	LayerNameEncoding         encoding.Encoding
@@ -50,7 +51,7 @@ func (b *builder) buildLayer(l *Layer, psdl *psd.Layer) {
 	l.MaskDefaultColor = psdl.Mask.DefaultColor
 	l.MaskEnabled = psdl.Mask.Enabled() && !psdl.Mask.Rect.Empty()
 
-	b.Rect = b.Rect.Union(psdl.Rect)
+	b.Rect = b.Rect.Union(b.LayerImage[psdl.SeqID].Canvas.Rect())
 	l.Children = make([]Layer, len(psdl.Layer))
 	for i := range psdl.Layer {
 		l.Children[i].Parent = l
diff --git a/composite/layer.go b/composite/layer.go
index ef11f3d..2d2bb81 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -214,7 +214,8 @@ func New(ctx context.Context, psdFile io.Reader, opt *Options) (*Tree, error) {
 	}
 
 	b := &builder{
-		Img: img,
+		Img:        img,
+		LayerImage: layerImages,
 		LayerNameEncodingDetector: opt.LayerNameEncodingDetector,
 	}
 	root := Layer{
@@ -301,7 +302,6 @@ func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.
 				return
 			}
 			ld.Canvas = ti
-			l.Rect = ti.Rect()
 		}
 		if !l.Mask.Rect.Empty() {
 			if a, ok := l.Channel[-2]; ok {
@@ -310,7 +310,6 @@ func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.
 					return
 				}
 				ld.Mask = m
-				l.Mask.Rect = m.Rect()
 			}
 		}
 
-- 
2.43.0


From 625a4caa2665eafac89cc8e7609ae2e9565f0548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:25 +0000
Subject: [PATCH 31/45] fix: New blocked forever or lost layers when its
 context was cancelled

The workers stop when the context is done, and then nobody received the
layers the decoder sends, or the layers they had dropped went unnoticed.
---
 composite/layer.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/composite/layer.go b/composite/layer.go
index 2d2bb81..a535da1 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -274,7 +274,12 @@ func createCanvas(ctx context.Context, psdFile io.Reader, tileSize int, m f64.Af
 			}
 			return nil
 		},
-		LayerImageLoaded: func(l *psd.Layer, index int, total int) { ch <- l },
+		LayerImageLoaded: func(l *psd.Layer, index int, total int) {
+			select {
+			case ch <- l:
+			case <-cctx.Done():
+			}
+		},
 	})
 	close(ch)
 	if err != nil {
@@ -283,6 +288,10 @@ func createCanvas(ctx context.Context, psdFile io.Reader, tileSize int, m f64.Af
 	if err = pc.Wait(ctx); err != nil {
 		return nil, nil, err
 	}
+	if ctx.Err() != nil {
+		// some layers may be missing.
+		return nil, nil, ErrAborted
+	}
 	img.Config.Rect = transformRect(img.Config.Rect, m)
 	return layerImages, img, nil
 }
-- 
2.43.0


From 3a9d8b9cd46bb69cd30efed48f991739714a8bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:25 +0000
Subject: [PATCH 32/45] fix: content at negative coordinates was cut off

The tile that contains a negative coordinate was computed by a division
that rounds towards zero, so that the first tiles were left out.
---
 composite/layerimage.go | 24 ++++++++++++++++--------
 composite/renderer.go   |  4 ++--
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/composite/layerimage.go b/composite/layerimage.go
index 0a44f79..7b9b436 100644
--- a/composite/layerimage.go
+++ b/composite/layerimage.go
@@ -17,6 +17,14 @@ type layerImage struct {
 	Mask   tiledMask
 }
 
+// tileOrigin returns the position of the tile that contains v.
+func tileOrigin(v int, tileSize int) int {
+	if v < 0 {
+		v -= tileSize - 1
+	}
+	return v / tileSize * tileSize
+}
+
 type tiledImage map[image.Point]draw.Image
 
 func (t tiledImage) Get(tileSize int, pt image.Point) (draw.Image, bool) {
@@ -43,8 +51,8 @@ func (t tiledImage) Render(ctx context.Context, img draw.Image) error {
 	}
 
 	rect := img.Bounds()
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := tileOrigin(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := tileOrigin(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
@@ -231,8 +239,8 @@ func newScaledTiledImage(ctx context.Context, tileSize int, rect image.Rectangle
 }
 
 func newTiledImage(ctx context.Context, tileSize int, rect image.Rectangle, r, g, b, a []byte, deltaX int) (tiledImage, error) {
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := tileOrigin(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := tileOrigin(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
@@ -356,8 +364,8 @@ func (t tiledMask) Render(ctx context.Context, img draw.Image) error {
 	}
 
 	rect := img.Bounds()
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := tileOrigin(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := tileOrigin(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
@@ -425,8 +433,8 @@ func newScaledTiledMask(ctx context.Context, tileSize int, rect image.Rectangle,
 }
 
 func newTiledMask(ctx context.Context, tileSize int, rect image.Rectangle, a []byte, defaultColor int) (tiledMask, error) {
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := tileOrigin(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := tileOrigin(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
diff --git a/composite/renderer.go b/composite/renderer.go
index 2dd8aab..bbf9e1f 100644
--- a/composite/renderer.go
+++ b/composite/renderer.go
@@ -235,8 +235,8 @@ func (r *Renderer) render(ctx context.Context, dest *image.NRGBA, diffOnly bool)
 		Map: map[int]*[]image.Point{},
 	}
 
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := tileOrigin(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := tileOrigin(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
-- 
2.43.0


From b528ed09f9933f734611b16b4ceeaa17f5005c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:25 +0000
Subject: [PATCH 33/45] fix: the canvas was one pixel larger than the document

The maximum of a rectangle is exclusive, its corners need no extra pixel:
an untransformed tree showed a row and a column beyond the canvas, and each
transformation added another one.
---
 composite/layer.go | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/composite/layer.go b/composite/layer.go
index a535da1..e134d39 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -159,23 +159,11 @@ func transformRect(r image.Rectangle, m f64.Aff3) image.Rectangle {
 		dx, dy := sx*m[0]+sy*m[1]+m[2], sx*m[3]+sy*m[4]+m[5]
 		if i == 0 {
 			xMin, yMin = dx, dy
-			xMax, yMax = dx+1, dy+1
+			xMax, yMax = dx, dy
 			continue
 		}
-		if xMin > dx {
-			xMin = dx
-		}
-		if yMin > dy {
-			yMin = dy
-		}
-		dx++
-		dy++
-		if xMax < dx {
-			xMax = dx
-		}
-		if yMax < dy {
-			yMax = dy
-		}
+		xMin, xMax = math.Min(xMin, dx), math.Max(xMax, dx)
+		yMin, yMax = math.Min(yMin, dy), math.Max(yMax, dy)
 	}
 	return image.Rectangle{
 		Min: image.Point{X: int(math.Floor(xMin)), Y: int(math.Floor(yMin))},
-- 
2.43.0


From 79d410392e4c37019e22287d0ddc00e7bd8b79cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:25 +0000
Subject: [PATCH 34/45] fix: a matrix that rotates by 90 degrees was replaced
 by a shear

The elements 0 and 4 of such a matrix are zero, which does not mean that
they are not set.
---
 composite/layer.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/composite/layer.go b/composite/layer.go
index e134d39..ba39ee4 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -182,11 +182,13 @@ func New(ctx context.Context, psdFile io.Reader, opt *Options) (*Tree, error) {
 	if opt.TileSize == 0 {
 		opt.TileSize = DefaultTileSize
 	}
-	if opt.TransformMatrix[0] == 0 {
-		opt.TransformMatrix[0] = 1
-	}
-	if opt.TransformMatrix[4] == 0 {
-		opt.TransformMatrix[4] = 1
+	if opt.TransformMatrix[1] == 0 && opt.TransformMatrix[3] == 0 {
+		if opt.TransformMatrix[0] == 0 {
+			opt.TransformMatrix[0] = 1
+		}
+		if opt.TransformMatrix[4] == 0 {
+			opt.TransformMatrix[4] = 1
+		}
 	}
 	var gt *gammaTable
 	if opt.Gamma != 0 {
-- 
2.43.0


From 6c5b430908e8fe564c70529e2344fc0898f102b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:25 +0000
Subject: [PATCH 35/45] fix: New changed the options of its caller

---
 composite/layer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/composite/layer.go b/composite/layer.go
index ba39ee4..6ea0532 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -178,6 +178,9 @@ func transformRect(r image.Rectangle, m f64.Aff3) image.Rectangle {
 func New(ctx context.Context, psdFile io.Reader, opt *Options) (*Tree, error) {
 	if opt == nil {
 		opt = &Options{}
+	} else {
+		o := *opt
+		opt = &o
 	}
 	if opt.TileSize == 0 {
 		opt.TileSize = DefaultTileSize
-- 
2.43.0


From d32b2e2ebc1df41bd724391a9e9f4c33e38fb1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:25 +0000
Subject: [PATCH 36/45] fix: a layer of a blend mode that is not supported
 crashed the renderer

Dissolve and unknown modes are drawn like normal ones.
---
 composite/draw.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/composite/draw.go b/composite/draw.go
index eaae508..c69884c 100644
--- a/composite/draw.go
+++ b/composite/draw.go
@@ -40,7 +40,12 @@ var blendModes = map[psd.BlendMode]blend.Drawer{
 }
 
 func drawWithOpacity(dst draw.Image, r image.Rectangle, src draw.Image, sp image.Point, opacity int, bm psd.BlendMode) {
-	blendModes[bm].DrawMask(dst, r, src, sp, image.NewUniform(color.Alpha{uint8(opacity)}), image.Point{})
+	d, ok := blendModes[bm]
+	if !ok {
+		// dissolve or an unknown blend mode
+		d = blend.Normal
+	}
+	d.DrawMask(dst, r, src, sp, image.NewUniform(color.Alpha{uint8(opacity)}), image.Point{})
 }
 
 func removeAlpha(b *image.NRGBA) {
-- 
2.43.0


From 3abb7bbaedf84a08cdac53473c3924ff382cbe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:25 +0000
Subject: [PATCH 37/45] fix: a folder whose section divider has no blend mode
 crashed the renderer

---
 composite/builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/composite/builder.go b/composite/builder.go
index 6021f55..3234bcc 100644
--- a/composite/builder.go
+++ b/composite/builder.go
@@ -34,6 +34,10 @@ func (b *builder) buildLayer(l *Layer, psdl *psd.Layer) {
 
 	if psdl.Folder() {
 		l.BlendMode = psdl.SectionDividerSetting.BlendMode
+		if l.BlendMode == "" {
+			// the setting is optional
+			l.BlendMode = psdl.BlendMode
+		}
 	} else {
 		if psdl.BlendMode == psd.BlendModePassThrough {
 			log.Printf("NOTICE: In '%s' layer, blend mode 'pass-through' which is unsupported mode in image layer has been replaced by 'normal'.", l.Name)
-- 
2.43.0


From 806b7b211175ece05e97ca9fa77d540349cd02b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:25 +0000
Subject: [PATCH 38/45] fix: documents of 16 and 32 bits were drawn as garbage

The renderer takes one byte per sample, so refuse them like it refuses
color modes that it does not support.
---
 composite/layer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/composite/layer.go b/composite/layer.go
index 6ea0532..3151298 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -265,6 +265,9 @@ func createCanvas(ctx context.Context, psdFile io.Reader, tileSize int, m f64.Af
 			if c.ColorMode != psd.ColorModeRGB {
 				return errors.New("Unsupported color mode")
 			}
+			if c.Depth != 8 {
+				return errors.New("Unsupported color depth")
+			}
 			return nil
 		},
 		LayerImageLoaded: func(l *psd.Layer, index int, total int) {
-- 
2.43.0


From 9dc4f5b0ead8dc4a1e632ff8dd0b7ab0689248c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:25 +0000
Subject: [PATCH 39/45] fix: a layer without one of its color channels crashed
 the compositor

---
 composite/layer.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/composite/layer.go b/composite/layer.go
index 3151298..9da9ead 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -292,12 +292,20 @@ func createCanvas(ctx context.Context, psdFile io.Reader, tileSize int, m f64.Af
 	return layerImages, img, nil
 }
 
+// channelData returns data of the channel, which is black if the file does not have it.
+func channelData(l *psd.Layer, id int) []byte {
+	if ch, ok := l.Channel[id]; ok {
+		return ch.Data
+	}
+	return make([]byte, l.Rect.Dx()*l.Rect.Dy())
+}
+
 func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.Layer, tileSize int, m f64.Aff3, gt *gammaTable, layerImages map[int]layerImage) {
 	defer pc.Done()
 	for l := range ch {
 		var ld layerImage
 		if l.HasImage() && !l.Rect.Empty() {
-			r, g, b := l.Channel[0].Data, l.Channel[1].Data, l.Channel[2].Data
+			r, g, b := channelData(l, 0), channelData(l, 1), channelData(l, 2)
 			var a []byte
 			if ach, ok := l.Channel[-1]; ok {
 				a = ach.Data
-- 
2.43.0


From 4e4f44f6087040ddc66976177a9078c5ba5a1405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 40/45] fix: caches of pass-through folders kept the backdrop
 of a folder that stopped being pass-through

---
 composite/renderer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/composite/renderer.go b/composite/renderer.go
index bbf9e1f..aaa8919 100644
--- a/composite/renderer.go
+++ b/composite/renderer.go
@@ -167,6 +167,12 @@ func (r *Renderer) setDirtyByLayerRecursive(l *Layer, areaMap []image.Point) {
 func (r *Renderer) setDirtyByLayer(l *Layer) {
 	areaMap := r.buildAreaMap(l)
 	r.setDirtyByLayerRecursive(l, areaMap)
+	for i := range l.Children {
+		// l itself may have been a pass-through folder.
+		if l.Children[i].BlendMode == psd.BlendModePassThrough {
+			r.setDirtyByLayerPassThrough(&l.Children[i], areaMap)
+		}
+	}
 }
 
 func (r *Renderer) SetDirtyByLayer(l *Layer) {
-- 
2.43.0


From d06996aa6f7ccacc2bd9786b20c6b72917f982e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 41/45] fix: the mask of a pass-through folder drew a
 translucent backdrop twice

The backdrop is already part of the buffer, so what the mask leaves of it
has to be mixed with the backdrop instead of being drawn over it.
---
 composite/draw.go     | 26 ++++++++++++++++++++++++++
 composite/renderer.go |  7 +++----
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/composite/draw.go b/composite/draw.go
index c69884c..22591a1 100644
--- a/composite/draw.go
+++ b/composite/draw.go
@@ -48,6 +48,32 @@ func drawWithOpacity(dst draw.Image, r image.Rectangle, src draw.Image, sp image
 	d.DrawMask(dst, r, src, sp, image.NewUniform(color.Alpha{uint8(opacity)}), image.Point{})
 }
 
+// mixByMask replaces b by backdrop where the mask hides it.
+//
+// mask can be nil, in which case all is hidden, or nothing if invert is set.
+func mixByMask(b *image.NRGBA, backdrop *image.NRGBA, mask *image.Alpha, invert bool) {
+	for i := 0; i < len(b.Pix); i += 4 {
+		var m uint32
+		if mask != nil {
+			m = uint32(mask.Pix[i>>2])
+		}
+		if invert {
+			m = 255 - m
+		}
+		d, s := b.Pix[i:i+4:i+4], backdrop.Pix[i:i+4:i+4]
+		da, sa := uint32(d[3])*m, uint32(s[3])*(255-m)
+		a := da + sa
+		if a == 0 {
+			d[0], d[1], d[2], d[3] = 0, 0, 0, 0
+			continue
+		}
+		d[0] = uint8((uint32(d[0])*da + uint32(s[0])*sa + a/2) / a)
+		d[1] = uint8((uint32(d[1])*da + uint32(s[1])*sa + a/2) / a)
+		d[2] = uint8((uint32(d[2])*da + uint32(s[2])*sa + a/2) / a)
+		d[3] = uint8((a + 127) / 255)
+	}
+}
+
 func removeAlpha(b *image.NRGBA) {
 	d := b.Pix
 	ln := len(d)
diff --git a/composite/renderer.go b/composite/renderer.go
index aaa8919..7ff1820 100644
--- a/composite/renderer.go
+++ b/composite/renderer.go
@@ -407,7 +407,9 @@ func (r *Renderer) drawLayer(pt image.Point, b *image.NRGBA, clst *changeList, l
 		blend.Copy.Draw(buf, ldCanvas.Bounds(), ldCanvas, pt)
 	}
 
-	if l.MaskEnabled {
+	if l.MaskEnabled && blendMode == psd.BlendModePassThrough {
+		mixByMask(buf, b, ld.Mask[pt], l.MaskDefaultColor == 255)
+	} else if l.MaskEnabled {
 		if ldMask, ok := ld.Mask[pt]; ok {
 			if l.MaskDefaultColor != 255 {
 				blend.DestIn.Draw(buf, buf.Rect, ldMask, pt)
@@ -419,9 +421,6 @@ func (r *Renderer) drawLayer(pt image.Point, b *image.NRGBA, clst *changeList, l
 				blend.Clear.Draw(buf, buf.Rect, image.Transparent, image.Point{})
 			}
 		}
-		if blendMode == psd.BlendModePassThrough {
-			blend.DestOver.Draw(buf, buf.Rect, b, pt)
-		}
 	}
 
 	if len(l.Clip) == 0 {
-- 
2.43.0


From 1fb81d1330d751d2009030c969e8d82ca5bc3b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 42/45] fix: transforming a mask whose default color is 255 hid
 pixels around it

---
 composite/layerimage.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/composite/layerimage.go b/composite/layerimage.go
index 7b9b436..d386517 100644
--- a/composite/layerimage.go
+++ b/composite/layerimage.go
@@ -424,6 +424,14 @@ func newScaledTiledMask(ctx context.Context, tileSize int, rect image.Rectangle,
 	if m[0] == 1 && m[1] == 0 && m[2] == 0 && m[3] == 0 && m[4] == 1 && m[5] == 0 {
 		return newTiledMask(ctx, tileSize, rect, a, defaultColor)
 	}
+	if defaultColor == 255 {
+		// pixels outside of rect are 0 after the transform, so transform what is hidden.
+		inv := make([]byte, len(a))
+		for i, v := range a {
+			inv[i] = 255 - v
+		}
+		a, defaultColor = inv, 0
+	}
 	tmp := createMask(rect, a)
 	trRect := transformRect(rect, m)
 	tmp2 := image.NewAlpha(trRect)
-- 
2.43.0


From 006ed7dc151b04eefcf5cee2c124d1f1f611294b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 43/45] fix: thumbnails lost the last row and column of the
 layer

---
 composite/thumbnail.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/composite/thumbnail.go b/composite/thumbnail.go
index bcd916e..8bb2f8f 100644
--- a/composite/thumbnail.go
+++ b/composite/thumbnail.go
@@ -29,8 +29,8 @@ func trimUnusedArea(src *image.NRGBA, threshold byte) {
 				}
 				for r := w - 1; r >= l; r-- {
 					if pix[r*4+3] > threshold {
-						if r > rect.Max.X {
-							rect.Max.X = r
+						if r+1 > rect.Max.X {
+							rect.Max.X = r + 1
 						}
 						break
 					}
@@ -38,7 +38,7 @@ func trimUnusedArea(src *image.NRGBA, threshold byte) {
 				if y < rect.Min.Y {
 					rect.Min.Y = y
 				}
-				rect.Max.Y = y
+				rect.Max.Y = y + 1
 				break
 			}
 		}
@@ -51,12 +51,11 @@ func trimUnusedArea(src *image.NRGBA, threshold byte) {
 
 	// trim
 	d := src.Pix[:h*stride]
-	s := d[stride*rect.Min.Y+rect.Min.X*4:]
+	s := stride*rect.Min.Y + rect.Min.X*4
 	w, h = rect.Dx()*4, rect.Dy()
 	for y := 0; y < h; y++ {
-		copy(d, s[:w])
-		d = d[w:]
-		s = s[stride:]
+		copy(d[y*w:], d[s:s+w])
+		s += stride
 	}
 	src.Rect = rect
 	src.Stride = w
-- 
2.43.0


From b43ac3106ffd4a6eb17430a95d69fe34d2685f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 44/45] fix: the exporter stopped at the first layer without
 pixels

An image without pixels cannot be written as PNG, and empty layers are
nothing unusual.
---
 psdexporter/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdexporter/main.go b/psdexporter/main.go
index 41a3694..edc28ff 100644
--- a/psdexporter/main.go
+++ b/psdexporter/main.go
@@ -18,7 +18,7 @@ func processLayer(filename string, layerName string, l *psd.Layer) error {
 			}
 		}
 	}
-	if !l.HasImage() {
+	if !l.HasImage() || l.Rect.Empty() {
 		return nil
 	}
 	fmt.Printf("%s -> %s.png\n", layerName, filename)
-- 
2.43.0


From b9d3e6ac7febf644bbed9701dbc2c9c78df6a399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:57 +0000
Subject: [PATCH 45/45] fix: rectangles of layers in a broken file stopped the
 program

---
 layer.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/layer.go b/layer.go
index 2d6858c..3e6a995 100644
--- a/layer.go
+++ b/layer.go
@@ -441,6 +441,16 @@ func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions) (layer []Layer, r
 	return layerSlice, read, nil
 }
 
+// makePlane reserves memory for the samples of a channel that covers rect.
+// It refuses a side that is longer than any document because rect may be wrong in a broken file.
+func makePlane(rect image.Rectangle, depth int) ([]byte, error) {
+	const maxSide = 300000
+	if rect.Dx() > maxSide || rect.Dy() > maxSide {
+		return nil, errors.New("psd: layer rectangle is too large")
+	}
+	return make([]byte, (rect.Dx()*depth+7)>>3*rect.Dy()), nil
+}
+
 func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *DecodeOptions) (read int, err error) {
 	var l int
 	b := make([]byte, 2)
@@ -475,7 +485,10 @@ func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *Decode
 			default:
 				rect = lci.Layer.Rect
 			}
-			data := make([]byte, (rect.Dx()*cfg.Depth+7)>>3*rect.Dy())
+			var data []byte
+			if data, err = makePlane(rect, cfg.Depth); err != nil {
+				return read, err
+			}
 			pk := findGrayPicker(cfg.Depth)
 			pk.setSource(rect, data)
 
@@ -512,7 +525,9 @@ func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *Decode
 		for j := range pickerChs {
 			if pickerChs[j] == nil {
 				// the file does not have this channel.
-				pickerChs[j] = make([]byte, (lci.Layer.Rect.Dx()*cfg.Depth+7)>>3*lci.Layer.Rect.Dy())
+				if pickerChs[j], err = makePlane(lci.Layer.Rect, cfg.Depth); err != nil {
+					return read, err
+				}
 			}
 		}
 		pk := findPicker(cfg.Depth, cfg.ColorMode, cfg.ColorMode.Channels() < len(pickerChs))
-- 
2.43.0

