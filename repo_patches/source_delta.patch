From e39ad83fc165a502cd2d52de364c9461e226618c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 01/58] fix: report write errors instead of returning success
 with a truncated document

compilePdf discarded the errors of the writer and of the objects, so WriteTo,
Write, Read and WritePdf reported success for a document that was not written
completely. Stop at the first error and return it.
---
 gopdf.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 44c4435..81a7d22 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1008,7 +1008,11 @@ func (gp *GoPdf) SetCharSpacing(charSpacing float64) error {
 
 // WritePdf : write pdf file
 func (gp *GoPdf) WritePdf(pdfPath string) error {
-	return os.WriteFile(pdfPath, gp.GetBytesPdf(), 0644)
+	b, err := gp.GetBytesPdfReturnErr()
+	if err != nil {
+		return err
+	}
+	return os.WriteFile(pdfPath, b, 0644)
 }
 
 // WriteTo implements the io.WriterTo interface and can
@@ -1028,6 +1032,7 @@ func (gp *GoPdf) Write(w io.Writer) error {
 func (gp *GoPdf) Read(p []byte) (int, error) {
 	if gp.buf.Len() == 0 && gp.buf.Cap() == 0 {
 		if _, err := gp.compilePdf(&gp.buf); err != nil {
+			gp.Close()
 			return 0, err
 		}
 	}
@@ -1057,18 +1062,26 @@ func (gp *GoPdf) compilePdf(w io.Writer) (n int64, err error) {
 		linelens[i] = writer.offset
 		pdfObj := gp.pdfObjs[i]
 		fmt.Fprintf(writer, "%d 0 obj\n", objID)
-		pdfObj.write(writer, objID)
+		if err := pdfObj.write(writer, objID); err != nil {
+			return writer.offset, err
+		}
 		io.WriteString(writer, "endobj\n\n")
+		if writer.err != nil {
+			return writer.offset, writer.err
+		}
 		i++
 	}
 	gp.xref(writer, writer.offset, linelens, i)
-	return writer.offset, nil
+	return writer.offset, writer.err
 }
 
 type (
+	// countingWriter counts the bytes written, and remembers the first error:
+	// nothing more is written once a write failed.
 	countingWriter struct {
 		offset int64
 		writer io.Writer
+		err    error
 	}
 )
 
@@ -1077,8 +1090,15 @@ func newCountingWriter(w io.Writer) *countingWriter {
 }
 
 func (cw *countingWriter) Write(b []byte) (int, error) {
+	if cw.err != nil {
+		return 0, cw.err
+	}
 	n, err := cw.writer.Write(b)
 	cw.offset += int64(n)
+	if err == nil && n < len(b) {
+		err = io.ErrShortWrite
+	}
+	cw.err = err
 	return n, err
 }
 
-- 
2.43.0


From 697edca9dc1b515cde689a555be96a192af3fb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 02/58] fix: writing a document no longer changes it

Every write added the page references, the content references and, with
protection, an encryption object once more, so a second write produced a
document with duplicated pages.
---
 gopdf.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 81a7d22..6877ea4 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2255,9 +2255,9 @@ func (gp *GoPdf) protection() *PDFProtection {
 
 func (gp *GoPdf) prepare() {
 
-	if gp.isUseProtection() {
+	if gp.isUseProtection() && gp.encryptionObjID == 0 {
 		encObj := gp.pdfProtection.encryptionObj()
-		gp.addObj(encObj)
+		gp.encryptionObjID = gp.addObj(encObj) + 1
 	}
 
 	if gp.outlines.Count() > 0 {
@@ -2268,6 +2268,8 @@ func (gp *GoPdf) prepare() {
 	if gp.indexOfPagesObj != -1 {
 		indexCurrPage := -1
 		pagesObj := gp.pdfObjs[gp.indexOfPagesObj].(*PagesObj)
+		pagesObj.Kids = ""
+		pagesObj.PageCount = 0
 		i := 0 //gp.indexOfFirstPageObj
 		max := len(gp.pdfObjs)
 		for i < max {
@@ -2277,6 +2279,7 @@ func (gp *GoPdf) prepare() {
 				pagesObj.Kids = fmt.Sprintf("%s %d 0 R ", pagesObj.Kids, i+1)
 				pagesObj.PageCount++
 				indexCurrPage = i
+				gp.pdfObjs[indexCurrPage].(*PageObj).Contents = ""
 			case "Content":
 				if indexCurrPage != -1 {
 					gp.pdfObjs[indexCurrPage].(*PageObj).Contents = fmt.Sprintf("%s %d 0 R ", gp.pdfObjs[indexCurrPage].(*PageObj).Contents, i+1)
-- 
2.43.0


From d9617d357280b3bfb183b68c7a9063cb49161421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 03/58] fix: SetPage selects the page, not the n-th content
 stream

SetPage counted content streams, so it failed for or confused pages without
content, and left the current page, page size and links on the previous page.
---
 gopdf.go    | 28 +++++++++++++++++++---------
 page_obj.go |  2 ++
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 6877ea4..8cc017c 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2266,7 +2266,6 @@ func (gp *GoPdf) prepare() {
 	}
 
 	if gp.indexOfPagesObj != -1 {
-		indexCurrPage := -1
 		pagesObj := gp.pdfObjs[gp.indexOfPagesObj].(*PagesObj)
 		pagesObj.Kids = ""
 		pagesObj.PageCount = 0
@@ -2278,11 +2277,10 @@ func (gp *GoPdf) prepare() {
 			case "Page":
 				pagesObj.Kids = fmt.Sprintf("%s %d 0 R ", pagesObj.Kids, i+1)
 				pagesObj.PageCount++
-				indexCurrPage = i
-				gp.pdfObjs[indexCurrPage].(*PageObj).Contents = ""
-			case "Content":
-				if indexCurrPage != -1 {
-					gp.pdfObjs[indexCurrPage].(*PageObj).Contents = fmt.Sprintf("%s %d 0 R ", gp.pdfObjs[indexCurrPage].(*PageObj).Contents, i+1)
+				page := gp.pdfObjs[i].(*PageObj)
+				page.Contents = ""
+				if page.indexOfContent != -1 {
+					page.Contents = fmt.Sprintf("%s %d 0 R ", page.Contents, page.indexOfContent+1)
 				}
 			case "Font":
 				tmpfont := gp.pdfObjs[i].(*FontObj)
@@ -2392,6 +2390,9 @@ func (gp *GoPdf) getContent() *ContentObj {
 			return gp
 		})
 		gp.indexOfContent = gp.addObj(content)
+		if gp.curr.IndexOfPageObj != -1 {
+			gp.pdfObjs[gp.curr.IndexOfPageObj].(*PageObj).indexOfContent = gp.indexOfContent
+		}
 	} else {
 		content = gp.pdfObjs[gp.indexOfContent].(*ContentObj)
 	}
@@ -2504,11 +2505,20 @@ func (gp *GoPdf) IsCurrFontContainGlyph(r rune) (bool, error) {
 func (gp *GoPdf) SetPage(pageno int) error {
 	var pageIndex int
 	for i := 0; i < len(gp.pdfObjs); i++ {
-		switch gp.pdfObjs[i].(type) {
-		case *ContentObj:
+		switch page := gp.pdfObjs[i].(type) {
+		case *PageObj:
 			pageIndex += 1
 			if pageIndex == pageno {
-				gp.indexOfContent = i
+				gp.curr.IndexOfPageObj = i
+				gp.indexOfContent = page.indexOfContent
+				gp.curr.pageSize = &gp.config.PageSize
+				gp.curr.trimBox = &gp.config.TrimBox
+				if !page.pageOption.isEmpty() {
+					gp.curr.pageSize = page.pageOption.PageSize
+					if page.pageOption.isTrimBoxSet() {
+						gp.curr.trimBox = page.pageOption.TrimBox
+					}
+				}
 				return nil
 			}
 		}
diff --git a/page_obj.go b/page_obj.go
index a8e6463..67f525d 100644
--- a/page_obj.go
+++ b/page_obj.go
@@ -12,12 +12,14 @@ type PageObj struct { //impl IObj
 	ResourcesRelate string
 	pageOption      PageOption
 	LinkObjIds      []int
+	indexOfContent  int
 	getRoot         func() *GoPdf
 }
 
 func (p *PageObj) init(funcGetRoot func() *GoPdf) {
 	p.getRoot = funcGetRoot
 	p.LinkObjIds = make([]int, 0)
+	p.indexOfContent = -1
 }
 
 func (p *PageObj) setOption(opt PageOption) {
-- 
2.43.0


From 98e587c4773efa00495149df4b0dbe9e66ccf707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 04/58] fix: SetCustomLineType no longer converts and keeps the
 caller's slice

---
 gopdf.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gopdf.go b/gopdf.go
index 8cc017c..ff39780 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -205,6 +205,7 @@ func (gp *GoPdf) SetLineType(linetype string) {
 //	pdf.SetCustomLineType([]float64{0.8, 0.8}, 0)
 //	pdf.Line(50, 200, 550, 200)
 func (gp *GoPdf) SetCustomLineType(dashArray []float64, dashPhase float64) {
+	dashArray = append([]float64{}, dashArray...)
 	for i := range dashArray {
 		gp.UnitsToPointsVar(&dashArray[i])
 	}
-- 
2.43.0


From c5d4e1f62b7598d22f812d16d827dde449e2b3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 05/58] fix: transparency keeps its blend mode when opaque,
 defaults it when empty, and leaves the caller's value alone

---
 gopdf.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index ff39780..b518746 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2454,15 +2454,21 @@ func (gp *GoPdf) getCachedTransparency(transparency *Transparency) (*Transparenc
 }
 
 func (gp *GoPdf) saveTransparency(transparency *Transparency) (*Transparency, error) {
-	cached, ok := gp.curr.transparencyMap.Find(*transparency)
+	// the caller's value is neither changed nor kept
+	saved := *transparency
+	if saved.BlendModeType == "" {
+		saved.BlendModeType = NormalBlendMode
+	}
+
+	cached, ok := gp.curr.transparencyMap.Find(saved)
 	if ok {
 		return &cached, nil
-	} else if transparency.Alpha != DefaultAplhaValue {
-		bm := transparency.BlendModeType
+	} else if saved.Alpha != DefaultAplhaValue || saved.BlendModeType != NormalBlendMode {
+		bm := saved.BlendModeType
 		opts := ExtGStateOptions{
 			BlendMode:     &bm,
-			StrokingCA:    &transparency.Alpha,
-			NonStrokingCa: &transparency.Alpha,
+			StrokingCA:    &saved.Alpha,
+			NonStrokingCa: &saved.Alpha,
 		}
 
 		extGState, err := GetCachedExtGState(opts, gp)
@@ -2470,11 +2476,11 @@ func (gp *GoPdf) saveTransparency(transparency *Transparency) (*Transparency, er
 			return nil, err
 		}
 
-		transparency.extGStateIndex = extGState.Index + 1
+		saved.extGStateIndex = extGState.Index + 1
 
-		gp.curr.transparencyMap.Save(*transparency)
+		gp.curr.transparencyMap.Save(saved)
 
-		return transparency, nil
+		return &saved, nil
 	}
 
 	return nil, nil
-- 
2.43.0


From 97054af40d4ecb0c0b35fec13059f4d68e4ad720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 06/58] fix: characters outside the BMP are written as UTF-16
 surrogate pairs

---
 gopdf.go       | 3 ++-
 unicode_map.go | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index b518746..a0b8c65 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -16,6 +16,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf16"
 
 	"github.com/phpdave11/gofpdi"
 )
@@ -2402,7 +2403,7 @@ func (gp *GoPdf) getContent() *ContentObj {
 
 func encodeUtf8(str string) string {
 	var buff bytes.Buffer
-	for _, r := range str {
+	for _, r := range utf16.Encode([]rune(str)) {
 		c := fmt.Sprintf("%X", r)
 		for len(c) < 4 {
 			c = "0" + c
diff --git a/unicode_map.go b/unicode_map.go
index 5094482..02fa01d 100644
--- a/unicode_map.go
+++ b/unicode_map.go
@@ -73,7 +73,7 @@ func (u *UnicodeMap) write(w io.Writer, objID int) error {
 	indexs := glyphIndexToCharacter.allIndexs()
 	for _, k := range indexs {
 		v, _ := glyphIndexToCharacter.runeByIndex(k)
-		fmt.Fprintf(buff, "<%04X><%04X><%04X>\n", k, k, v)
+		fmt.Fprintf(buff, "<%04X><%04X><%s>\n", k, k, encodeUtf8(string(v)))
 	}
 	buff.WriteString("endbfrange\n")
 	buff.WriteString(suffix)
-- 
2.43.0


From e19e729da93bedac66dac4f96db85eb090615cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 07/58] fix: an imported template stays in place when the
 document is written again

---
 cache_content_imported_object.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cache_content_imported_object.go b/cache_content_imported_object.go
index a7dca9a..610ade4 100644
--- a/cache_content_imported_object.go
+++ b/cache_content_imported_object.go
@@ -15,7 +15,7 @@ type cacheContentImportedTemplate struct {
 }
 
 func (c *cacheContentImportedTemplate) write(w io.Writer, protection *PDFProtection) error {
-	c.tY += c.pageHeight
-	fmt.Fprintf(w, "q 0 J 1 w 0 j 0 G 0 g q %.4F 0 0 %.4F %.4F %.4F cm %s Do Q Q\n", c.scaleX, c.scaleY, c.tX, c.tY, c.tplName)
+	tY := c.tY + c.pageHeight
+	fmt.Fprintf(w, "q 0 J 1 w 0 j 0 G 0 g q %.4F 0 0 %.4F %.4F %.4F cm %s Do Q Q\n", c.scaleX, c.scaleY, c.tX, tY, c.tplName)
 	return nil
 }
-- 
2.43.0


From a72ee00a1f07c58720e0f68c89fae6557f576bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:19 +0000
Subject: [PATCH 08/58] fix: imported templates are listed in a fixed order

---
 procset_obj.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/procset_obj.go b/procset_obj.go
index 77da7ac..5b74090 100644
--- a/procset_obj.go
+++ b/procset_obj.go
@@ -3,6 +3,7 @@ package gopdf
 import (
 	"fmt"
 	"io"
+	"sort"
 )
 
 // ProcSetObj is a PDF procSet object.
@@ -47,7 +48,13 @@ func (pr *ProcSetObj) write(w io.Writer, objID int) error {
 		xobjects += fmt.Sprintf("\t\t/I%d %d 0 R\n", XObject.IndexOfObj+1, XObject.IndexOfObj+1)
 	}
 	// Write imported template name and their ids
-	for tplName, objID := range pr.ImportedTemplateIds {
+	tplNames := make([]string, 0, len(pr.ImportedTemplateIds))
+	for tplName := range pr.ImportedTemplateIds {
+		tplNames = append(tplNames, tplName)
+	}
+	sort.Strings(tplNames)
+	for _, tplName := range tplNames {
+		objID := pr.ImportedTemplateIds[tplName]
 		xobjects += fmt.Sprintf("\t\t%s %d 0 R\n", tplName, objID)
 	}
 	xobjects += "\t>>\n"
-- 
2.43.0


From c478725d3513cf8c5149715df53edce6edd14824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 09/58] fix: a rejected duplicate color space leaves no object
 behind

---
 gopdf.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index a0b8c65..75e2611 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2581,8 +2581,6 @@ func (gp *GoPdf) AddColorSpaceCMYK(name string, c, m, y, k uint8) error {
 }
 
 func (gp *GoPdf) addColorSpace(colorSpace *ColorSpaceObj) error {
-	index := gp.addObj(colorSpace)
-
 	if gp.indexOfProcSet != -1 {
 		procset := gp.pdfObjs[gp.indexOfProcSet].(*ProcSetObj)
 
@@ -2591,6 +2589,12 @@ func (gp *GoPdf) addColorSpace(colorSpace *ColorSpaceObj) error {
 				return ErrExistsColorSpace
 			}
 		}
+	}
+
+	index := gp.addObj(colorSpace)
+
+	if gp.indexOfProcSet != -1 {
+		procset := gp.pdfObjs[gp.indexOfProcSet].(*ProcSetObj)
 
 		procset.RelateColorSpaces = append(procset.RelateColorSpaces, RelateColorSpace{Name: colorSpace.Name, IndexOfObj: index, CountOfColorSpace: gp.curr.CountOfColorSpace})
 		colorSpace.CountOfSpaceColor = gp.curr.CountOfColorSpace
-- 
2.43.0


From 40b1e1eb38be47850a1b71d0627ee5a7bbac3718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:51 +0000
Subject: [PATCH 10/58] fix: a truncated or malformed PNG is an error, not a
 panic or a short read

---
 image_obj_parse.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/image_obj_parse.go b/image_obj_parse.go
index fd599f2..523692d 100644
--- a/image_obj_parse.go
+++ b/image_obj_parse.go
@@ -329,6 +329,10 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 				return err
 			}
 
+			if (ct[0] == 0 && n < 2) || (ct[0] == 2 && n < 6) {
+				return errors.New("Incorrect PNG file")
+			}
+
 			if ct[0] == 0 {
 				trns = []byte{(t[1])}
 			} else if ct[0] == 2 {
@@ -411,6 +415,9 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 		if ct[0] == 4 {
 			// Gray image
 			length := 2 * w
+			if len(afterZipData)/(1+length) < h {
+				return io.ErrUnexpectedEOF
+			}
 			i := 0
 			for i < h {
 				pos := (1 + length) * i
@@ -432,6 +439,9 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 		} else {
 			// RGB image
 			length := 4 * w
+			if len(afterZipData)/(1+length) < h {
+				return io.ErrUnexpectedEOF
+			}
 			i := 0
 			for i < h {
 				pos := (1 + length) * i
@@ -503,8 +513,11 @@ func readInt(f *bytes.Reader) (int, error) {
 }
 
 func readBytes(f *bytes.Reader, len int) ([]byte, error) {
+	if len < 0 || len > f.Len() {
+		return nil, io.ErrUnexpectedEOF
+	}
 	b := make([]byte, len)
-	_, err := f.Read(b)
+	_, err := io.ReadFull(f, b)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 6d8b7abc38b08a39634c3d9ccfd3a4f838a1f629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 11/58] fix: a PNG is read up to IEND, past chunks of length
 zero

---
 image_obj_parse.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/image_obj_parse.go b/image_obj_parse.go
index 523692d..6f0df7f 100644
--- a/image_obj_parse.go
+++ b/image_obj_parse.go
@@ -369,10 +369,6 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 				return err
 			}
 		}
-
-		if n <= 0 {
-			break
-		}
 	} // end for
 
 	// info.data = data //ok
-- 
2.43.0


From 09ca116ae8e1ea7ef6726131de4960448a51dc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 12/58] fix: embedded fonts contain the components of nested
 composite glyphs and of .notdef

---
 pdf_dictionary_obj.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdf_dictionary_obj.go b/pdf_dictionary_obj.go
index 5f771e1..7bdb4f5 100644
--- a/pdf_dictionary_obj.go
+++ b/pdf_dictionary_obj.go
@@ -294,8 +294,7 @@ func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGly
 	}
 
 	i := 0
-	count := len(glyphs)
-	for i < count {
+	for i < len(glyphArray) {
 		p.AddCompositeGlyphs(&glyphArray, glyphArray[i])
 		i++
 	}
-- 
2.43.0


From 51767b784cae11847c21f453e5b7fdf338d3477c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:21 +0000
Subject: [PATCH 13/58] fix: a damaged font is refused or has glyphs missing,
 it does not panic

---
 fontmaker/core/ttfparser.go |  6 ++++++
 pdf_dictionary_obj.go       | 38 ++++++++++++++++++++++++++++---------
 subset_font_obj.go          |  6 +++++-
 3 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/fontmaker/core/ttfparser.go b/fontmaker/core/ttfparser.go
index 7f7a432..213de87 100644
--- a/fontmaker/core/ttfparser.go
+++ b/fontmaker/core/ttfparser.go
@@ -855,6 +855,9 @@ func (t *TTFParser) ParseHead(fd *bytes.Reader) error {
 	if err != nil {
 		return err
 	}
+	if t.unitsPerEm == 0 {
+		return errors.New("unitsPerEm is zero")
+	}
 
 	err = t.Skip(fd, 2*8) // created, modified
 	if err != nil {
@@ -926,6 +929,9 @@ func (t *TTFParser) ParseHhea(fd *bytes.Reader) error {
 	if err != nil {
 		return err
 	}
+	if t.numberOfHMetrics == 0 {
+		return errors.New("numberOfHMetrics is zero")
+	}
 
 	return nil
 }
diff --git a/pdf_dictionary_obj.go b/pdf_dictionary_obj.go
index 7bdb4f5..3e606ca 100644
--- a/pdf_dictionary_obj.go
+++ b/pdf_dictionary_obj.go
@@ -157,20 +157,31 @@ func (p *PdfDictionaryObj) makeGlyfAndLocaTable() ([]byte, []int, error) {
 	return glyphTable, locaTable, nil
 }
 
-func (p *PdfDictionaryObj) getGlyphSize(glyph int) int {
-
+// glyphBounds tells where the outline of a glyph lies in the font data,
+// a glyph that the font does not really contain has no outline.
+func (p *PdfDictionaryObj) glyphBounds(glyph int) (int, int) {
 	ttfp := p.PtrToSubsetFontObj.GetTTFParser()
+	if glyph < 0 || glyph+1 >= len(ttfp.LocaTable) {
+		return 0, 0
+	}
 	glyf := ttfp.GetTables()["glyf"]
 	start := int(glyf.Offset + ttfp.LocaTable[glyph])
 	next := int(glyf.Offset + ttfp.LocaTable[glyph+1])
+	if start > next || next > len(ttfp.FontData()) {
+		return 0, 0
+	}
+	return start, next
+}
+
+func (p *PdfDictionaryObj) getGlyphSize(glyph int) int {
+
+	start, next := p.glyphBounds(glyph)
 	return next - start
 }
 
 func (p *PdfDictionaryObj) getGlyphData(glyph int) []byte {
 	ttfp := p.PtrToSubsetFontObj.GetTTFParser()
-	glyf := ttfp.GetTables()["glyf"]
-	start := int(glyf.Offset + ttfp.LocaTable[glyph])
-	next := int(glyf.Offset + ttfp.LocaTable[glyph+1])
+	start, next := p.glyphBounds(glyph)
 	count := next - start
 	var data []byte
 	i := 0
@@ -258,7 +269,13 @@ func (p *PdfDictionaryObj) makeFont() ([]byte, error) {
 			entry.CheckSum = CheckSum(data)
 			WriteBytes(&buff, data, 0, len(data))
 		} else {
-			WriteBytes(&buff, ttfp.FontData(), int(entry.Offset), entry.PaddedLength())
+			fontData := ttfp.FontData()
+			if uint64(entry.Offset)+uint64(entry.Length) > uint64(len(fontData)) {
+				return nil, fmt.Errorf("table %s lies outside the font", tags[idx])
+			}
+			data := make([]byte, entry.PaddedLength())
+			copy(data, fontData[entry.Offset:entry.Offset+entry.Length])
+			WriteBytes(&buff, data, 0, len(data))
 		}
 		endPosition := buff.Position()
 		tablePosition = endPosition
@@ -304,8 +321,8 @@ func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGly
 // AddCompositeGlyphs add composite glyph
 // composite glyph is a Unicode entity that can be defined as a sequence of one or more other characters.
 func (p *PdfDictionaryObj) AddCompositeGlyphs(glyphArray *[]int, glyph int) {
-	start := p.GetOffset(int(glyph))
-	if start == p.GetOffset(int(glyph)+1) {
+	start, next := p.glyphBounds(glyph)
+	if start+10 > next {
 		return
 	}
 
@@ -319,7 +336,7 @@ func (p *PdfDictionaryObj) AddCompositeGlyphs(glyphArray *[]int, glyph int) {
 	}
 
 	offset += 8
-	for {
+	for offset+4 <= next {
 		flags, step1 := ReadUShortFromByte(fontData, offset)
 		offset += step1
 		cGlyph, step2 := ReadUShortFromByte(fontData, offset)
@@ -365,6 +382,9 @@ const twoByTwo = 128
 func (p *PdfDictionaryObj) GetOffset(glyph int) int {
 	ttfp := p.PtrToSubsetFontObj.GetTTFParser()
 	glyf := ttfp.GetTables()["glyf"]
+	if glyph < 0 || glyph >= len(ttfp.LocaTable) {
+		return int(glyf.Offset)
+	}
 	offset := int(glyf.Offset + ttfp.LocaTable[glyph])
 	return offset
 }
diff --git a/subset_font_obj.go b/subset_font_obj.go
index cb37664..43ab1d5 100644
--- a/subset_font_obj.go
+++ b/subset_font_obj.go
@@ -262,7 +262,7 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat4(r rune) (uint, error) {
 		seg++
 	}
 	//fmt.Printf("\ncccc--->%#v\n", me.ttfp.Chars())
-	if value < s.ttfp.StartCount[seg] {
+	if seg >= segCount || value < s.ttfp.StartCount[seg] {
 		return 0, ErrGlyphNotFound
 	}
 
@@ -273,6 +273,10 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat4(r rune) (uint, error) {
 	//fmt.Printf("IdRangeOffset=%d\n", me.ttfp.IdRangeOffset[seg])
 	idx := s.ttfp.IdRangeOffset[seg]/2 + (value - s.ttfp.StartCount[seg]) - (segCount - seg)
 
+	if idx >= uint(len(s.ttfp.GlyphIdArray)) {
+		return 0, ErrGlyphNotFound
+	}
+
 	if s.ttfp.GlyphIdArray[int(idx)] == uint(0) {
 		return 0, nil
 	}
-- 
2.43.0


From 3a6b008bf88fa01f4022cb4b4c1174f057fef45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 14/58] fix: the size of an empty image is an error, not a
 division by zero

---
 image_obj.go       | 4 ++++
 image_obj_parse.go | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/image_obj.go b/image_obj.go
index c17607b..67f0705 100644
--- a/image_obj.go
+++ b/image_obj.go
@@ -1,6 +1,7 @@
 package gopdf
 
 import (
+	"errors"
 	"bytes"
 	"fmt"
 	"image"
@@ -164,6 +165,9 @@ func (i *ImageObj) getRect() (*Rect, error) {
 	}
 
 	imageRect := m.Bounds()
+	if imageRect.Empty() {
+		return nil, errors.New("image is empty")
+	}
 	k := 1
 	w := -128 //init
 	h := -128 //init
diff --git a/image_obj_parse.go b/image_obj_parse.go
index 6f0df7f..adad0d3 100644
--- a/image_obj_parse.go
+++ b/image_obj_parse.go
@@ -540,10 +540,10 @@ func ImgReactagleToWH(imageRect image.Rectangle) (float64, float64) {
 	if h < 0 {
 		h = -imageRect.Dy() * 72 / h / k
 	}
-	if w == 0 {
+	if w == 0 && imageRect.Dy() != 0 {
 		w = h * imageRect.Dx() / imageRect.Dy()
 	}
-	if h == 0 {
+	if h == 0 && imageRect.Dx() != 0 {
 		h = w * imageRect.Dy() / imageRect.Dx()
 	}
 	return float64(w), float64(h)
-- 
2.43.0


From 1a28d3f8a65ebc3036a1471fc6538ff61361e08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 15/58] fix: drawing with a mask leaves the caller's mask
 options alone

---
 gopdf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gopdf.go b/gopdf.go
index 75e2611..6a8df27 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -516,6 +516,9 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 	}
 
 	if opts.Mask != nil {
+		mask := *opts.Mask // the caller's mask options are left as they are
+		opts.Mask = &mask
+
 		maskTransparency, err := gp.getCachedTransparency(opts.Mask.ImageOptions.Transparency)
 		if err != nil {
 			return err
-- 
2.43.0


From 4cde424d9e75fbe18e1506b0ac6a61097044bf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:09 +0000
Subject: [PATCH 16/58] fix: an image drawn again gets its own size, and is not
 mixed up with its use as a mask

---
 gopdf.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 6a8df27..7fe7fed 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -547,7 +547,7 @@ func (gp *GoPdf) maskHolder(img ImageHolder, opts MaskOptions) (int, error) {
 	var cacheContentImage *cacheContentImage
 
 	for _, imgcache := range gp.curr.ImgCaches {
-		if img.ID() == imgcache.Path {
+		if img.ID() == imgcache.Path && gp.pdfObjs[imgcache.Index].(*ImageObj).IsMask {
 			cacheImage = &imgcache
 			break
 		}
@@ -591,7 +591,10 @@ func (gp *GoPdf) maskHolder(img ImageHolder, opts MaskOptions) (int, error) {
 		}
 	} else {
 		if opts.Rect == nil {
-			opts.Rect = gp.curr.ImgCaches[cacheImage.Index].Rect
+			var err error
+			if opts.Rect, err = gp.pdfObjs[cacheImage.Index].(*ImageObj).getRect(); err != nil {
+				return 0, err
+			}
 		}
 
 		cacheContentImage = gp.getContent().GetCacheContentImage(cacheImage.Index, opts.ImageOptions)
@@ -656,7 +659,8 @@ func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
 	cacheImageIndex := -1
 
 	for _, imgcache := range gp.curr.ImgCaches {
-		if img.ID() == imgcache.Path {
+		cached := gp.pdfObjs[imgcache.Index].(*ImageObj)
+		if img.ID() == imgcache.Path && !cached.IsMask && cached.SplittedMask == (opts.Mask != nil) {
 			cacheImageIndex = imgcache.Index
 			break
 		}
@@ -726,7 +730,10 @@ func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
 
 	} else { //same img
 		if opts.Rect == nil {
-			opts.Rect = gp.curr.ImgCaches[cacheImageIndex].Rect
+			var err error
+			if opts.Rect, err = gp.pdfObjs[cacheImageIndex].(*ImageObj).getRect(); err != nil {
+				return err
+			}
 		}
 
 		gp.getContent().AppendStreamImage(cacheImageIndex, opts)
-- 
2.43.0


From 812c1db52f953a923184907e502d9f2ff0ed0d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 17/58] fix: an image drawn again gets its own size, and is not
 mixed up with its use as a mask (holder read once)

---
 gopdf.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 7fe7fed..f71c905 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -560,7 +560,7 @@ func (gp *GoPdf) maskHolder(img ImageHolder, opts MaskOptions) (int, error) {
 		})
 		maskImgobj.setProtection(gp.protection())
 
-		err := maskImgobj.SetImage(img)
+		err := gp.setImage(maskImgobj, img)
 		if err != nil {
 			return 0, err
 		}
@@ -612,6 +612,18 @@ func (gp *GoPdf) maskHolder(img ImageHolder, opts MaskOptions) (int, error) {
 	return 0, ErrUndefinedCacheContentImage
 }
 
+// setImage reads the image, a holder that this document has read before has nothing left to read.
+func (gp *GoPdf) setImage(imgobj *ImageObj, img ImageHolder) error {
+	for _, imgcache := range gp.curr.ImgCaches {
+		if img.ID() == imgcache.Path {
+			raw := gp.pdfObjs[imgcache.Index].(*ImageObj).rawImgReader
+			raw.Seek(0, 0)
+			return imgobj.SetImage(raw)
+		}
+	}
+	return imgobj.SetImage(img)
+}
+
 func (gp *GoPdf) createTransparencyXObjectGroup(image *cacheContentImage, opts MaskOptions) (int, error) {
 	bbox := opts.BBox
 	if bbox == nil {
@@ -679,7 +691,7 @@ func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
 		})
 		imgobj.setProtection(gp.protection())
 
-		err := imgobj.SetImage(img)
+		err := gp.setImage(imgobj, img)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From cf53c8a15b6bf958c090cc6bd4f61dc53aeebce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:34 +0000
Subject: [PATCH 18/58] fix: setting a password does not write behind the
 caller's slice

---
 pdf_protection.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf_protection.go b/pdf_protection.go
index 6190938..ef7cf11 100644
--- a/pdf_protection.go
+++ b/pdf_protection.go
@@ -49,9 +49,9 @@ func (p *PDFProtection) setProtection(permissions int, userPass []byte, ownerPas
 
 func (p *PDFProtection) generateEncryptionKey(userPass []byte, ownerPass []byte, protection int) error {
 
-	userPass = append(userPass, protectionPadding...)
+	userPass = append(append([]byte{}, userPass...), protectionPadding...)
 	userPassWithPadding := userPass[0:32]
-	ownerPass = append(ownerPass, protectionPadding...)
+	ownerPass = append(append([]byte{}, ownerPass...), protectionPadding...)
 	ownerPassWithPadding := ownerPass[0:32]
 
 	//oValue
-- 
2.43.0


From a031eeb3d746342eca558784e37d5289173ffda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:37 +0000
Subject: [PATCH 19/58] fix: image masks of a protected document are encrypted
 like its other streams

---
 gopdf.go                      |  1 +
 transparency_xobject_group.go | 10 +++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/gopdf.go b/gopdf.go
index f71c905..9a71cbf 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -642,6 +642,7 @@ func (gp *GoPdf) createTransparencyXObjectGroup(image *cacheContentImage, opts M
 	}
 
 	groupOpts := TransparencyXObjectGroupOptions{
+		Protection:       gp.protection(),
 		BBox:             *bbox,
 		ExtGStateIndexes: opts.extGStateIndexes,
 		XObjects:         []cacheContentImage{*image},
diff --git a/transparency_xobject_group.go b/transparency_xobject_group.go
index e58b1cc..5a9c1ed 100644
--- a/transparency_xobject_group.go
+++ b/transparency_xobject_group.go
@@ -80,7 +80,15 @@ func (s TransparencyXObjectGroup) write(w io.Writer, objId int) error {
 		return err
 	}
 
-	if _, err := w.Write(streamBuff.Bytes()); err != nil {
+	data := streamBuff.Bytes()
+	if s.protection() != nil {
+		tmp, err := rc4Cip(s.protection().objectkey(objId), data)
+		if err != nil {
+			return err
+		}
+		data = tmp
+	}
+	if _, err := w.Write(data); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 89af540c0e7187bca93369d85fd08bdc5ece8f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:39 +0000
Subject: [PATCH 20/58] fix: outline titles of a protected document are
 encrypted like its other strings

---
 outlines_obj.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/outlines_obj.go b/outlines_obj.go
index 13cae66..239bc18 100644
--- a/outlines_obj.go
+++ b/outlines_obj.go
@@ -1,6 +1,7 @@
 package gopdf
 
 import (
+	"encoding/hex"
 	"fmt"
 	"io"
 )
@@ -53,7 +54,7 @@ func (o *OutlinesObj) SetIndexObjOutlines(index int) {
 }
 
 func (o *OutlinesObj) AddOutline(dest int, title string) {
-	oo := &OutlineObj{title: title, dest: dest, parent: o.index, prev: o.last, next: -1}
+	oo := &OutlineObj{title: title, dest: dest, parent: o.index, prev: o.last, next: -1, getRoot: o.getRoot}
 	o.last = o.getRoot().addObj(oo) + 1
 	if o.first <= 0 {
 		o.first = o.last
@@ -67,7 +68,7 @@ func (o *OutlinesObj) AddOutline(dest int, title string) {
 
 // AddOutlinesWithPosition add outlines with position
 func (o *OutlinesObj) AddOutlinesWithPosition(dest int, title string, y float64) *OutlineObj {
-	oo := &OutlineObj{title: title, dest: dest, parent: o.index, prev: o.last, next: -1, height: y}
+	oo := &OutlineObj{title: title, dest: dest, parent: o.index, prev: o.last, next: -1, getRoot: o.getRoot, height: y}
 	o.last = o.getRoot().addObj(oo) + 1
 	if o.first <= 0 {
 		o.first = o.last
@@ -96,6 +97,8 @@ type OutlineObj struct { //impl IObj
 	first  int
 	last   int
 	height float64
+
+	getRoot func() *GoPdf
 }
 
 func (o *OutlineObj) init(funcGetRoot func() *GoPdf) {
@@ -160,7 +163,19 @@ func (o *OutlineObj) write(w io.Writer, objID int) error {
 		fmt.Fprintf(w, "  /Last %d 0 R\n", o.last)
 	}
 	fmt.Fprintf(w, "  /Dest [ %d 0 R /XYZ 90 %f 0 ]\n", o.dest, o.height)
-	fmt.Fprintf(w, "  /Title <FEFF%s>\n", encodeUtf8(o.title))
+	title := "FEFF" + encodeUtf8(o.title)
+	if o.getRoot != nil && o.getRoot().protection() != nil {
+		data, err := hex.DecodeString(title)
+		if err != nil {
+			return err
+		}
+		tmp, err := rc4Cip(o.getRoot().protection().objectkey(objID), data)
+		if err != nil {
+			return err
+		}
+		title = hex.EncodeToString(tmp)
+	}
+	fmt.Fprintf(w, "  /Title <%s>\n", title)
 	io.WriteString(w, ">>\n")
 	return nil
 }
-- 
2.43.0


From 4ba97e7093f18aa425183eff3782c5528045774d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 21/58] fix: a link to a missing anchor is an annotation that
 leads nowhere, not an empty object

---
 annot_obj.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/annot_obj.go b/annot_obj.go
index dd10a7a..2c08b7a 100644
--- a/annot_obj.go
+++ b/annot_obj.go
@@ -48,8 +48,10 @@ func (o annotObj) writeExternalLink(w io.Writer, l linkOption, objID int) error
 
 func (o annotObj) writeInternalLink(w io.Writer, l linkOption) error {
 	a, ok := o.GetRoot().anchors[l.anchor]
-	if !ok {
-		return nil
+	if !ok { // the link leads nowhere
+		_, err := fmt.Fprintf(w, "<</Type /Annot /Subtype /Link /Rect [%.2f %.2f %.2f %.2f] /Border [0 0 0]>>\n",
+			l.x, l.y, l.x+l.w, l.y-l.h)
+		return err
 	}
 	_, err := fmt.Fprintf(w, "<</Type /Annot /Subtype /Link /Rect [%.2f %.2f %.2f %.2f] /Border [0 0 0] /Dest [%d 0 R /XYZ 0 %.2f null]>>\n",
 		l.x, l.y, l.x+l.w, l.y-l.h, a.page+1, a.y)
-- 
2.43.0


From 423b572eb3a471550a1aac7a493ce55e8755abb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 22/58] fix: outline items refer to their parent and to their
 previous sibling

---
 outlines_obj.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/outlines_obj.go b/outlines_obj.go
index 239bc18..61adb9c 100644
--- a/outlines_obj.go
+++ b/outlines_obj.go
@@ -54,7 +54,7 @@ func (o *OutlinesObj) SetIndexObjOutlines(index int) {
 }
 
 func (o *OutlinesObj) AddOutline(dest int, title string) {
-	oo := &OutlineObj{title: title, dest: dest, parent: o.index, prev: o.last, next: -1, getRoot: o.getRoot}
+	oo := &OutlineObj{title: title, dest: dest, parent: o.index + 1, prev: o.last, next: -1, getRoot: o.getRoot}
 	o.last = o.getRoot().addObj(oo) + 1
 	if o.first <= 0 {
 		o.first = o.last
@@ -68,7 +68,7 @@ func (o *OutlinesObj) AddOutline(dest int, title string) {
 
 // AddOutlinesWithPosition add outlines with position
 func (o *OutlinesObj) AddOutlinesWithPosition(dest int, title string, y float64) *OutlineObj {
-	oo := &OutlineObj{title: title, dest: dest, parent: o.index, prev: o.last, next: -1, getRoot: o.getRoot, height: y}
+	oo := &OutlineObj{title: title, dest: dest, parent: o.index + 1, prev: o.last, next: -1, getRoot: o.getRoot, height: y}
 	o.last = o.getRoot().addObj(oo) + 1
 	if o.first <= 0 {
 		o.first = o.last
@@ -195,7 +195,7 @@ func (objs OutlineNodes) Parse() {
 		if i == 0 {
 			obj.Obj.SetPrev(-1)
 		} else {
-			obj.Obj.SetNext(objs[i-1].Obj.GetIndex())
+			obj.Obj.SetPrev(objs[i-1].Obj.GetIndex())
 		}
 		if i == len(objs)-1 {
 			obj.Obj.SetNext(-1)
-- 
2.43.0


From dc237761a60d64475354177e52103810f6ed4755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:22 +0000
Subject: [PATCH 23/58] fix: the outline tree has the right first and last item
 and item counts when it is nested

---
 outlines_obj.go | 41 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/outlines_obj.go b/outlines_obj.go
index 61adb9c..3f83697 100644
--- a/outlines_obj.go
+++ b/outlines_obj.go
@@ -32,12 +32,13 @@ func (o *OutlinesObj) write(w io.Writer, objID int) error {
 	content += fmt.Sprintf("\t/Type /%s\n", o.getType())
 	content += fmt.Sprintf("\t/Count %d\n", o.count)
 
-	if o.first >= 0 {
-		content += fmt.Sprintf("\t/First %d 0 R\n", o.first)
+	first, last := o.ends()
+	if first >= 0 {
+		content += fmt.Sprintf("\t/First %d 0 R\n", first)
 	}
 
-	if o.last >= 0 {
-		content += fmt.Sprintf("\t/Last %d 0 R\n", o.last)
+	if last >= 0 {
+		content += fmt.Sprintf("\t/Last %d 0 R\n", last)
 	}
 
 	content += ">>\n"
@@ -49,6 +50,24 @@ func (o *OutlinesObj) write(w io.Writer, objID int) error {
 	return nil
 }
 
+// ends returns the first and the last item of the top level
+func (o *OutlinesObj) ends() (int, int) {
+	first, last := o.first, o.last
+	for i, iobj := range o.getRoot().pdfObjs {
+		item, ok := iobj.(*OutlineObj)
+		if !ok || item.parent != o.index+1 {
+			continue
+		}
+		if item.prev < 0 {
+			first = i + 1
+		}
+		if item.next < 0 {
+			last = i + 1
+		}
+	}
+	return first, last
+}
+
 func (o *OutlinesObj) SetIndexObjOutlines(index int) {
 	o.index = index
 }
@@ -96,6 +115,7 @@ type OutlineObj struct { //impl IObj
 	next   int
 	first  int
 	last   int
+	count  int
 	height float64
 
 	getRoot func() *GoPdf
@@ -162,6 +182,9 @@ func (o *OutlineObj) write(w io.Writer, objID int) error {
 	if o.last > 0 {
 		fmt.Fprintf(w, "  /Last %d 0 R\n", o.last)
 	}
+	if o.count > 0 {
+		fmt.Fprintf(w, "  /Count %d\n", o.count)
+	}
 	fmt.Fprintf(w, "  /Dest [ %d 0 R /XYZ 90 %f 0 ]\n", o.dest, o.height)
 	title := "FEFF" + encodeUtf8(o.title)
 	if o.getRoot != nil && o.getRoot().protection() != nil {
@@ -209,6 +232,7 @@ func (objs OutlineNodes) Parse() {
 
 // Parse parse outline
 func (obj OutlineNode) Parse() {
+	obj.Obj.count = obj.descendants()
 	if obj.Children == nil || len(obj.Children) == 0 {
 		return
 	}
@@ -231,3 +255,12 @@ func (obj OutlineNode) Parse() {
 		children.Parse()
 	}
 }
+
+// descendants counts the items below the node
+func (obj OutlineNode) descendants() int {
+	count := len(obj.Children)
+	for _, children := range obj.Children {
+		count += children.descendants()
+	}
+	return count
+}
-- 
2.43.0


From 6356689b16ae30e5084c2b31af45fcd0ab0ed68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:34 +0000
Subject: [PATCH 24/58] fix: links, anchors and outlines are placed by the size
 of their own page

---
 gopdf.go     | 8 ++++----
 image_obj.go | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 9a71cbf..22bf85b 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -879,7 +879,7 @@ func (gp *GoPdf) AddOutline(title string) {
 
 // AddOutlineWithPosition add an outline with position
 func (gp *GoPdf) AddOutlineWithPosition(title string) *OutlineObj {
-	return gp.outlines.AddOutlinesWithPosition(gp.curr.IndexOfPageObj+1, title, gp.config.PageSize.H-gp.curr.Y+20)
+	return gp.outlines.AddOutlinesWithPosition(gp.curr.IndexOfPageObj+1, title, gp.curr.pageSize.H-gp.curr.Y+20)
 }
 
 // AddHeader - add a header function, if present this will be automatically called by AddPage()
@@ -1751,7 +1751,7 @@ func (gp *GoPdf) ImportTemplates(tpls map[string]int) {
 func (gp *GoPdf) AddExternalLink(url string, x, y, w, h float64) {
 	gp.UnitsToPointsVar(&x, &y, &w, &h)
 
-	linkOpt := linkOption{x, gp.config.PageSize.H - y, w, h, url, ""}
+	linkOpt := linkOption{x, gp.curr.pageSize.H - y, w, h, url, ""}
 	gp.addLink(linkOpt)
 }
 
@@ -1759,7 +1759,7 @@ func (gp *GoPdf) AddExternalLink(url string, x, y, w, h float64) {
 func (gp *GoPdf) AddInternalLink(anchor string, x, y, w, h float64) {
 	gp.UnitsToPointsVar(&x, &y, &w, &h)
 
-	linkOpt := linkOption{x, gp.config.PageSize.H - y, w, h, "", anchor}
+	linkOpt := linkOption{x, gp.curr.pageSize.H - y, w, h, "", anchor}
 	gp.addLink(linkOpt)
 }
 
@@ -1773,7 +1773,7 @@ func (gp *GoPdf) addLink(option linkOption) {
 
 // SetAnchor creates a new anchor.
 func (gp *GoPdf) SetAnchor(name string) {
-	y := gp.config.PageSize.H - gp.curr.Y + float64(gp.curr.FontSize)
+	y := gp.curr.pageSize.H - gp.curr.Y + float64(gp.curr.FontSize)
 	gp.anchors[name] = anchorOption{gp.curr.IndexOfPageObj, y}
 }
 
diff --git a/image_obj.go b/image_obj.go
index 67f0705..839a8db 100644
--- a/image_obj.go
+++ b/image_obj.go
@@ -1,8 +1,8 @@
 package gopdf
 
 import (
-	"errors"
 	"bytes"
+	"errors"
 	"fmt"
 	"image"
 
-- 
2.43.0


From 851df6bc97ce3694e8f85c3d568786eabd4b1322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:37 +0000
Subject: [PATCH 25/58] fix: automatic page breaks convert the margins like the
 position

---
 gopdf.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 22bf85b..3f43770 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -385,9 +385,9 @@ func (gp *GoPdf) GetX() float64 {
 func (gp *GoPdf) SetNewY(y float64, h float64) {
 	gp.UnitsToPointsVar(&y)
 	gp.UnitsToPointsVar(&h)
-	if gp.curr.Y+h > gp.curr.pageSize.H-gp.MarginBottom() {
+	if gp.curr.Y+h > gp.curr.pageSize.H-gp.margins.Bottom {
 		gp.AddPage()
-		y = gp.MarginTop() // reset to top of the page.
+		y = gp.margins.Top // reset to top of the page.
 	}
 	gp.curr.Y = y
 }
@@ -401,9 +401,9 @@ func (gp *GoPdf) SetNewY(y float64, h float64) {
 func (gp *GoPdf) SetNewYIfNoOffset(y float64, h float64) {
 	gp.UnitsToPointsVar(&y)
 	gp.UnitsToPointsVar(&h)
-	if y+h > gp.curr.pageSize.H-gp.MarginBottom() { // using new y(*y) instead of gp.curr.Y
+	if y+h > gp.curr.pageSize.H-gp.margins.Bottom { // using new y(*y) instead of gp.curr.Y
 		gp.AddPage()
-		y = gp.MarginTop() // reset to top of the page.
+		y = gp.margins.Top // reset to top of the page.
 	}
 	gp.curr.Y = y
 }
@@ -418,9 +418,9 @@ func (gp *GoPdf) SetNewYIfNoOffset(y float64, h float64) {
 func (gp *GoPdf) SetNewXY(y float64, x, h float64) {
 	gp.UnitsToPointsVar(&y)
 	gp.UnitsToPointsVar(&h)
-	if gp.curr.Y+h > gp.curr.pageSize.H-gp.MarginBottom() {
+	if gp.curr.Y+h > gp.curr.pageSize.H-gp.margins.Bottom {
 		gp.AddPage()
-		y = gp.MarginTop() // reset to top of the page.
+		y = gp.margins.Top // reset to top of the page.
 	}
 	gp.curr.Y = y
 	gp.SetX(x)
-- 
2.43.0


From a7738f3a1fbc66e32f498d0b6991483828995f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:58 +0000
Subject: [PATCH 26/58] fix: links, anchors and outlines are placed by the size
 of their own page (before the first page)

---
 gopdf.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gopdf.go b/gopdf.go
index 3f43770..258036b 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2222,6 +2222,7 @@ func (gp *GoPdf) init(importer ...*gofpdi.Importer) {
 	// change the unit type
 	gp.config.PageSize = *gp.config.PageSize.unitsToPoints(gp.config)
 	gp.config.TrimBox = *gp.config.TrimBox.unitsToPoints(gp.config)
+	gp.curr.pageSize = &gp.config.PageSize
 
 	// init gofpdi free pdf document importer
 	gp.fpdi = importerOrDefault(importer...)
-- 
2.43.0


From 022501efda00c4fe310b18c040b48495845b4d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:47 +0000
Subject: [PATCH 27/58] fix: text is joined to the text before it only when it
 continues it

---
 cache_content_text.go |  6 +++++-
 cell_option.go        | 18 ++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/cache_content_text.go b/cache_content_text.go
index e6d01ff..36ebb8b 100644
--- a/cache_content_text.go
+++ b/cache_content_text.go
@@ -60,7 +60,11 @@ func (c *cacheContentText) isSame(cache cacheContentText) bool {
 		c.charSpacing == cache.charSpacing &&
 		c.setXCount == cache.setXCount &&
 		c.y == cache.y &&
-		c.isPlaceHolder == cache.isPlaceHolder {
+		c.isPlaceHolder == cache.isPlaceHolder &&
+		c.contentType == cache.contentType &&
+		c.txtColorMode == cache.txtColorMode &&
+		c.x+c.cellWidthPdfUnit == cache.x && // the new text goes on where this one ends
+		c.cellOpt.isSame(cache.cellOpt) {
 		return true
 	}
 
diff --git a/cell_option.go b/cell_option.go
index 6a1134b..f9ce945 100644
--- a/cell_option.go
+++ b/cell_option.go
@@ -30,3 +30,21 @@ type CellOption struct {
 
 	extGStateIndexes []int
 }
+
+// isSame tells whether two pieces of text with these options can be drawn as one.
+func (c CellOption) isSame(opt CellOption) bool {
+	if len(c.extGStateIndexes) != len(opt.extGStateIndexes) {
+		return false
+	}
+	for i, index := range c.extGStateIndexes {
+		if index != opt.extGStateIndexes[i] {
+			return false
+		}
+	}
+	return c.Border == 0 && opt.Border == 0 &&
+		c.Align == opt.Align &&
+		c.Float == opt.Float &&
+		c.CoefUnderlinePosition == opt.CoefUnderlinePosition &&
+		c.CoefLineHeight == opt.CoefLineHeight &&
+		c.CoefUnderlineThickness == opt.CoefUnderlineThickness
+}
-- 
2.43.0


From b3d87e7b07edccc9566003650857d53bf85542d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:24 +0000
Subject: [PATCH 28/58] fix: a cell with a rectangle never joins the text
 before it

isSame only looked at the rectangle of the earlier text, so a cell given its
own size and drawn right after a cell without one was appended to it: its
size, alignment and border were lost and the pen moved by the width of the
text alone.
---
 cache_content_text.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache_content_text.go b/cache_content_text.go
index 36ebb8b..790932c 100644
--- a/cache_content_text.go
+++ b/cache_content_text.go
@@ -45,7 +45,7 @@ type cacheContentText struct {
 }
 
 func (c *cacheContentText) isSame(cache cacheContentText) bool {
-	if c.rectangle != nil {
+	if c.rectangle != nil || cache.rectangle != nil {
 		//if rectangle != nil we assume this is not same content
 		return false
 	}
-- 
2.43.0


From befd3af355576fbe0750adce02cdcd860d99193a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:03 +0000
Subject: [PATCH 29/58] fix: characters a cmap maps to the missing glyph are
 substituted too

A character inside a format 4 segment whose glyph array entry is 0 has no
glyph, but it was taken as found: OnGlyphNotFound and
OnGlyphNotFoundSubstitute were not called and the .notdef box was shown.
---
 subset_font_obj.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subset_font_obj.go b/subset_font_obj.go
index 43ab1d5..1c75535 100644
--- a/subset_font_obj.go
+++ b/subset_font_obj.go
@@ -278,7 +278,7 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat4(r rune) (uint, error) {
 	}
 
 	if s.ttfp.GlyphIdArray[int(idx)] == uint(0) {
-		return 0, nil
+		return 0, ErrGlyphNotFound
 	}
 
 	return (s.ttfp.GlyphIdArray[int(idx)] + s.ttfp.IdDelta[seg]) & 0xFFFF, nil
-- 
2.43.0


From ea8571bac5a895c4eb76f075b7e4949aba43765d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 30/58] fix: ToUnicode declares the two byte code space of its
 font

The range was spanned from the lowest to the highest glyph in use. For a font
without text that was <10000><-001>, which is no hex string, and since code
space ranges are byte by byte, <0020><0110> for example covers no code.
---
 unicode_map.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/unicode_map.go b/unicode_map.go
index 02fa01d..334e412 100644
--- a/unicode_map.go
+++ b/unicode_map.go
@@ -45,19 +45,11 @@ func (u *UnicodeMap) write(w io.Writer, objID int) error {
 	suffix := "endcmap CMapName currentdict /CMap defineresource pop end end"
 
 	glyphIndexToCharacter := newMapGlyphIndexToCharacter() //make(map[int]rune)
-	lowIndex := 65536
-	hiIndex := -1
 
 	keys := u.PtrToSubsetFontObj.CharacterToGlyphIndex.AllKeys()
 	for _, k := range keys {
 		v, _ := u.PtrToSubsetFontObj.CharacterToGlyphIndex.Val(k)
 		index := int(v)
-		if index < lowIndex {
-			lowIndex = index
-		}
-		if index > hiIndex {
-			hiIndex = index
-		}
 		//glyphIndexToCharacter[index] = k
 		glyphIndexToCharacter.set(index, k)
 	}
@@ -67,7 +59,7 @@ func (u *UnicodeMap) write(w io.Writer, objID int) error {
 
 	buff.WriteString(prefix)
 	buff.WriteString("1 begincodespacerange\n")
-	fmt.Fprintf(buff, "<%04X><%04X>\n", lowIndex, hiIndex)
+	buff.WriteString("<0000><FFFF>\n") // every glyph index is a two byte code
 	buff.WriteString("endcodespacerange\n")
 	fmt.Fprintf(buff, "%d beginbfrange\n", glyphIndexToCharacter.size())
 	indexs := glyphIndexToCharacter.allIndexs()
-- 
2.43.0


From 7da3d0fd12c0b9fbb6293ca1b3902ed8414827e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:58 +0000
Subject: [PATCH 31/58] fix: filling a placeholder again, in any unit, font and
 position

The alignment shift was added to the position on every fill, the width was
taken in the wrong unit and measured with the current font instead of the
placeholder's, the substitutes of missing characters were ignored, and
underlined placeholders stayed without their underline.
---
 gopdf.go       | 26 ++++++++++++++------------
 placeholder.go |  3 +--
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 258036b..d219eef 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1453,7 +1453,8 @@ func (gp *GoPdf) PlaceHolderText(placeHolderName string, placeHolderWidth float6
 		return err
 	}
 
-	gp.PointsToUnitsVar(&placeHolderWidth)
+	gp.UnitsToPointsVar(&placeHolderWidth)
+	x := gp.curr.X
 	err = gp.getContent().appendStreamPlaceHolderText(placeHolderWidth)
 	if err != nil {
 		return err
@@ -1471,8 +1472,7 @@ func (gp *GoPdf) PlaceHolderText(placeHolderName string, placeHolderWidth float6
 			indexInContent:   indexInContent,
 			fontISubset:      fontISubset,
 			placeHolderWidth: placeHolderWidth,
-			fontSize:         gp.curr.FontSize,
-			charSpacing:      gp.curr.CharSpacing,
+			x:                x,
 		},
 	)
 
@@ -1498,22 +1498,24 @@ func (gp *GoPdf) FillInPlaceHoldText(placeHolderName string, text string, align
 		if !ok {
 			return errors.New("listCache.caches is not *cacheContentText")
 		}
-		info.fontISubset.AddChars(text)
-		contentText.text = text
+		// text without the characters the font lacks
+		replaced, err := info.fontISubset.AddChars(text)
+		if err != nil {
+			return err
+		}
+		contentText.text = replaced
 
 		//Calculate position
-		_, _, textWidthPdfUnit, err := createContent(gp.curr.FontISubset, text, info.fontSize, info.charSpacing, nil)
-		if err != nil {
+		if _, _, err := contentText.createContent(); err != nil {
 			return err
 		}
-		width := pointsToUnits(gp.config, textWidthPdfUnit)
+		diff := info.placeHolderWidth - contentText.textWidthPdfUnit
 
+		contentText.x = info.x
 		if align == Right {
-			diff := info.placeHolderWidth - width
-			contentText.x = contentText.x + diff
+			contentText.x += diff
 		} else if align == Center {
-			diff := info.placeHolderWidth - width
-			contentText.x = contentText.x + diff/2
+			contentText.x += diff / 2
 		}
 	}
 
diff --git a/placeholder.go b/placeholder.go
index fb49508..6c13e93 100644
--- a/placeholder.go
+++ b/placeholder.go
@@ -10,6 +10,5 @@ type placeHolderTextInfo struct {
 	indexInContent   int
 	fontISubset      *SubsetFontObj
 	placeHolderWidth float64
-	fontSize         float64
-	charSpacing      float64
+	x                float64 // left edge of the placeholder
 }
-- 
2.43.0


From b8092714248870a5d23c459e75a24b515b6dafdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:35 +0000
Subject: [PATCH 32/58] fix: imported objects end once

gofpdi's objects already end with endobj, and a second endobj was written
after each of them.
---
 imported_obj.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/imported_obj.go b/imported_obj.go
index b42189b..8ec5018 100644
--- a/imported_obj.go
+++ b/imported_obj.go
@@ -2,6 +2,7 @@ package gopdf
 
 import (
 	"io"
+	"strings"
 )
 
 // ImportedObj : imported object
@@ -19,7 +20,12 @@ func (c *ImportedObj) getType() string {
 
 func (c *ImportedObj) write(w io.Writer, objID int) error {
 	if c != nil {
-		io.WriteString(w, c.Data)
+		// compilePdf ends every object
+		data := strings.TrimRight(c.Data, "\r\n")
+		data = strings.TrimRight(strings.TrimSuffix(data, "endobj"), "\r\n")
+		if _, err := io.WriteString(w, data+"\n"); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From a73e09a894af988b9c325321eb05ed1bedfbaaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:10 +0000
Subject: [PATCH 33/58] fix: pages imported from several sources in turn keep
 their own content

gofpdi numbers the templates of a source from where the counter stood when the
source was first used, so the second page of one source and the first page of
another could share a name, and one of them was shown twice.
---
 gopdf.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index d219eef..06db374 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -101,6 +101,8 @@ type GoPdf struct {
 
 	// gofpdi free pdf document importer
 	fpdi *gofpdi.Importer
+	// resource names of the imported templates
+	importedTplNames map[int]string
 
 	//placeholder text
 	placeHolderTexts map[string]([]placeHolderTextInfo)
@@ -1583,8 +1585,8 @@ func (gp *GoPdf) ImportPage(sourceFile string, pageno int, box string) int {
 	// Import objects into current pdf document
 	tplObjIDs := gp.fpdi.PutFormXobjects()
 
-	// Set template names and ids in gopdf
-	gp.ImportTemplates(tplObjIDs)
+	// Set template name and id in gopdf
+	gp.importTemplate(tpl, tplObjIDs)
 
 	// Get a map[int]string of the imported objects.
 	// The map keys will be the ID of each object.
@@ -1617,8 +1619,8 @@ func (gp *GoPdf) ImportPageStream(sourceStream *io.ReadSeeker, pageno int, box s
 	// Import objects into current pdf document
 	tplObjIDs := gp.fpdi.PutFormXobjects()
 
-	// Set template names and ids in gopdf
-	gp.ImportTemplates(tplObjIDs)
+	// Set template name and id in gopdf
+	gp.importTemplate(tpl, tplObjIDs)
 
 	// Get a map[int]string of the imported objects.
 	// The map keys will be the ID of each object.
@@ -1650,6 +1652,9 @@ func (gp *GoPdf) UseImportedTemplate(tplid int, x float64, y float64, w float64,
 	gp.UnitsToPointsVar(&x, &y, &w, &h)
 	// Get template values to draw
 	tplName, scaleX, scaleY, tX, tY := gp.fpdi.UseTemplate(tplid, x, y, w, h)
+	if name, ok := gp.importedTplNames[tplid]; ok {
+		tplName = name
+	}
 	gp.getContent().AppendStreamImportedTemplate(tplName, scaleX, scaleY, tX, tY)
 }
 
@@ -1705,8 +1710,8 @@ func (gp *GoPdf) ImportPagesFromSource(source interface{}, box string) error {
 		// Import objects into current pdf document
 		tplObjIDs := gp.fpdi.PutFormXobjects()
 
-		// Set template names and ids in gopdf
-		gp.ImportTemplates(tplObjIDs)
+		// Set template name and id in gopdf
+		gp.importTemplate(tpl, tplObjIDs)
 
 		// Get a map[int]string of the imported objects.
 		// The map keys will be the ID of each object.
@@ -1749,6 +1754,18 @@ func (gp *GoPdf) ImportTemplates(tpls map[string]int) {
 	}
 }
 
+// importTemplate names the imported template tpl after its id. gofpdi's own
+// names repeat when pages of several sources are imported in turn.
+func (gp *GoPdf) importTemplate(tpl int, tplObjIDs map[string]int) {
+	name, _, _, _, _ := gp.fpdi.UseTemplate(tpl, 0, 0, 0, 0)
+	unique := fmt.Sprintf("/GOFPDITPL%d", tpl)
+	if gp.importedTplNames == nil {
+		gp.importedTplNames = make(map[int]string)
+	}
+	gp.importedTplNames[tpl] = unique
+	gp.ImportTemplates(map[string]int{unique: tplObjIDs[name]})
+}
+
 // AddExternalLink adds a new external link.
 func (gp *GoPdf) AddExternalLink(url string, x, y, w, h float64) {
 	gp.UnitsToPointsVar(&x, &y, &w, &h)
@@ -2228,6 +2245,7 @@ func (gp *GoPdf) init(importer ...*gofpdi.Importer) {
 
 	// init gofpdi free pdf document importer
 	gp.fpdi = importerOrDefault(importer...)
+	gp.importedTplNames = nil
 
 }
 
-- 
2.43.0


From 204b53610228ad45589da8962a6f8cbc4d97275a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:11 +0000
Subject: [PATCH 34/58] fix: ImportPagesFromSource draws pages in their size in
 every unit

The page sizes, in points, were passed on as units.
---
 gopdf.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 06db374..5e9c750 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1720,8 +1720,10 @@ func (gp *GoPdf) ImportPagesFromSource(source interface{}, box string) error {
 		// Import gofpdi objects into gopdf, starting at whatever the value of startObjID is
 		gp.ImportObjects(imported, startObjID)
 
-		// Draws the imported template on the current page
-		gp.UseImportedTemplate(tpl, 0, 0, size["w"], size["h"])
+		// Draws the imported template on the current page, size is in points
+		w, h := size["w"], size["h"]
+		gp.PointsToUnitsVar(&w, &h)
+		gp.UseImportedTemplate(tpl, 0, 0, w, h)
 	}
 
 	return nil
-- 
2.43.0


From 99c7341fd4c1fb76a54311f65d7a28e2abbb3492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:13 +0000
Subject: [PATCH 35/58] fix: Start counts pages from zero again

A second Start began a new document that still counted the pages of the one
before it.
---
 gopdf.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gopdf.go b/gopdf.go
index 5e9c750..6360871 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2199,6 +2199,7 @@ func (gp *GoPdf) Rectangle(x0 float64, y0 float64, x1 float64, y1 float64, style
 // init
 func (gp *GoPdf) init(importer ...*gofpdi.Importer) {
 	gp.pdfObjs = []IObj{}
+	gp.numOfPagesObj = 0
 	gp.buf = bytes.Buffer{}
 	gp.indexEncodingObjFonts = []int{}
 	gp.pdfProtection = nil
-- 
2.43.0


From 78b2c6d0e092a35ba2ab62670fe4df5fec3bd5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:15 +0000
Subject: [PATCH 36/58] fix: splitting text into lines narrower than a
 character ends

A character, or a character with the separator, that did not fit the width was
put off to the next line forever; with a separator, a line started by a
newline could also be cut before its start, which panicked.
---
 gopdf.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 6360871..e90673c 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1412,7 +1412,8 @@ func (gp *GoPdf) SplitTextWithOption(text string, width float64, opt *BreakOptio
 			return nil, err
 		}
 		// mid-word break required since the max width of the given rect is exceeded
-		if lineWidth+runeWidth > width && utf8Texts[i] != '\n' {
+		// (a character wider than the line gets a line of its own)
+		if lineWidth+runeWidth > width && utf8Texts[i] != '\n' && len(lineText) > 0 {
 			// forceBreak will be set to true in case an indicator sensitive break was not possible which will cause
 			// strict break to not exceed the desired width
 			forceBreak := false
@@ -1538,9 +1539,10 @@ func performIndicatorSensitiveLineBreak(lineTexts *[]string, lineText *[]rune, i
 }
 
 func performStrictLineBreak(lineTexts *[]string, lineText *[]rune, i *int, separatorIdx int, opt *BreakOption) {
-	if opt.HasSeparator() && separatorIdx > -1 {
+	trimIdx := *i - separatorIdx
+	// without a position for the separator in this line, it breaks as it is
+	if opt.HasSeparator() && separatorIdx > -1 && trimIdx < len(*lineText) {
 		// trim the line to the last possible index with an appended separator
-		trimIdx := *i - separatorIdx
 		*lineText = (*lineText)[0 : len(*lineText)-trimIdx]
 		// append separator to the line
 		*lineText = append(*lineText, []rune(opt.Separator)...)
-- 
2.43.0


From e9707c4b70bc6260f13216a737a43c054f6bd325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 37/58] fix: transparency of palette images is kept for every
 palette entry

---
 image_obj_parse.go | 45 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/image_obj_parse.go b/image_obj_parse.go
index adad0d3..c5de5bf 100644
--- a/image_obj_parse.go
+++ b/image_obj_parse.go
@@ -89,7 +89,7 @@ func writeBaseImgProps(w io.Writer, imginfo imgInfo, colorSpace string) error {
 	content += fmt.Sprintf("\t/Width %d\n", imginfo.w)
 	content += fmt.Sprintf("\t/Height %d\n", imginfo.h)
 
-	if isColspaceIndexed(imginfo) {
+	if colorSpace == "Indexed" {
 		size := len(imginfo.pal)/3 - 1
 		content += fmt.Sprintf("\t/ColorSpace [/Indexed /DeviceRGB %d %d 0 R]\n", size, imginfo.deviceRGBObjID+1)
 	} else {
@@ -299,6 +299,7 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 
 	var pal []byte
 	var trns []byte
+	var palAlpha []byte
 	var data []byte
 	for {
 		un, err := readUInt(f)
@@ -338,9 +339,18 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 			} else if ct[0] == 2 {
 				trns = []byte{t[1], t[3], t[5]}
 			} else {
-				pos := strings.Index(string(t), "\x00")
-				if pos >= 0 {
-					trns = []byte{byte(pos)}
+				transparent, partial := 0, false
+				for i, a := range t {
+					if a == 0 {
+						trns = []byte{byte(i)}
+						transparent++
+					} else if a != 255 {
+						partial = true
+					}
+				}
+				if ct[0] == 3 && (transparent > 1 || partial) { // more than a color key mask can express
+					trns = nil
+					palAlpha = t
 				}
 			}
 
@@ -468,11 +478,38 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 
 	} else {
 		info.data = data
+		if palAlpha != nil {
+			info.smask, err = paletteAlpha(f)
+			if err != nil {
+				return err
+			}
+		}
 	}
 
 	return nil
 }
 
+// paletteAlpha returns the compressed alpha channel of an indexed PNG.
+func paletteAlpha(f *bytes.Reader) ([]byte, error) {
+	if _, err := f.Seek(0, io.SeekStart); err != nil {
+		return nil, err
+	}
+	img, err := png.Decode(f)
+	if err != nil {
+		return nil, err
+	}
+	b := img.Bounds()
+	alpha := make([]byte, 0, (b.Dx()+1)*b.Dy())
+	for y := b.Min.Y; y < b.Max.Y; y++ {
+		alpha = append(alpha, 0) // no predictor
+		for x := b.Min.X; x < b.Max.X; x++ {
+			_, _, _, a := img.At(x, y).RGBA()
+			alpha = append(alpha, byte(a>>8))
+		}
+	}
+	return compress(alpha)
+}
+
 func compress(data []byte) ([]byte, error) {
 	var results []byte
 	var buff bytes.Buffer
-- 
2.43.0


From 2dcb9d1b60cb71e1ecdc9a2a62cef0d5a8f78fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:50 +0000
Subject: [PATCH 38/58] fix: image crop options are copied

---
 content_obj.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/content_obj.go b/content_obj.go
index 6dad489..7938fa7 100644
--- a/content_obj.go
+++ b/content_obj.go
@@ -390,6 +390,12 @@ func (c *ContentObj) GetCacheContentImage(index int, opts ImageOptions) *cacheCo
 		maskAngle = opts.Mask.DegreeAngle
 	}
 
+	var crop *CropOptions
+	if opts.Crop != nil {
+		c := *opts.Crop
+		crop = &c
+	}
+
 	return &cacheContentImage{
 		withMask:         withMask,
 		imageAngle:       opts.DegreeAngle,
@@ -399,7 +405,7 @@ func (c *ContentObj) GetCacheContentImage(index int, opts ImageOptions) *cacheCo
 		x:                opts.X,
 		y:                opts.Y,
 		rect:             *opts.Rect,
-		crop:             opts.Crop,
+		crop:             crop,
 		verticalFlip:     opts.VerticalFlip,
 		horizontalFlip:   opts.HorizontalFlip,
 		extGStateIndexes: opts.extGStateIndexes,
-- 
2.43.0


From 4564015550076d0a7ce1d29b59fdc7fcde72c39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:53 +0000
Subject: [PATCH 39/58] fix: a JPEG without pixels is refused in any size

---
 image_obj_parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/image_obj_parse.go b/image_obj_parse.go
index c5de5bf..a6cea1d 100644
--- a/image_obj_parse.go
+++ b/image_obj_parse.go
@@ -188,6 +188,9 @@ func parseImg(raw *bytes.Reader) (imgInfo, error) {
 }
 
 func parseImgJpg(info *imgInfo, imgConfig image.Config) error {
+	if imgConfig.Width <= 0 || imgConfig.Height <= 0 {
+		return errors.New("image is empty")
+	}
 	switch imgConfig.ColorModel {
 	case color.YCbCrModel:
 		info.colspace = "DeviceRGB"
-- 
2.43.0


From 15e0a1db9b41f62c2dd971877d998feedeaefdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:23 +0000
Subject: [PATCH 40/58] fix: streams pages are imported from are told apart by
 the stream

---
 gopdf.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index e90673c..8a99385 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -13,6 +13,7 @@ import (
 	"log"
 	"math"
 	"os"
+	"reflect"
 	"strconv"
 	"strings"
 	"time"
@@ -104,6 +105,9 @@ type GoPdf struct {
 	// resource names of the imported templates
 	importedTplNames map[int]string
 
+	// streams pages were imported from
+	importStreams []*io.ReadSeeker
+
 	//placeholder text
 	placeHolderTexts map[string]([]placeHolderTextInfo)
 }
@@ -1606,7 +1610,7 @@ func (gp *GoPdf) ImportPage(sourceFile string, pageno int, box string) int {
 // gofpdi code
 func (gp *GoPdf) ImportPageStream(sourceStream *io.ReadSeeker, pageno int, box string) int {
 	// Set source file for fpdi
-	gp.fpdi.SetSourceStream(sourceStream)
+	gp.setSourceStream(*sourceStream)
 
 	// gofpdi needs to know where to start the object id at.
 	// By default, it starts at 1, but gopdf adds a few objects initially.
@@ -1635,10 +1639,24 @@ func (gp *GoPdf) ImportPageStream(sourceStream *io.ReadSeeker, pageno int, box s
 	return tpl
 }
 
+// setSourceStream makes a stream the current source of the importer. The
+// importer tells streams apart by the address of a variable, so every stream
+// gets a variable of its own that stays in place as long as the document.
+func (gp *GoPdf) setSourceStream(stream io.ReadSeeker) {
+	for _, known := range gp.importStreams {
+		if reflect.TypeOf(stream).Kind() == reflect.Ptr && *known == stream {
+			gp.fpdi.SetSourceStream(known)
+			return
+		}
+	}
+	gp.importStreams = append(gp.importStreams, &stream)
+	gp.fpdi.SetSourceStream(&stream)
+}
+
 // GetStreamPageSizes gets the sizes of the pages using a stream
 // Returns a map of available pages and its box sizes starting with the first page at index 1 containing a map of boxes containing a map of size values
 func (gp *GoPdf) GetStreamPageSizes(sourceStream *io.ReadSeeker) map[int]map[string]map[string]float64 {
-	gp.fpdi.SetSourceStream(sourceStream)
+	gp.setSourceStream(*sourceStream)
 	return gp.fpdi.GetPageSizes()
 }
 
@@ -1669,14 +1687,13 @@ func (gp *GoPdf) ImportPagesFromSource(source interface{}, box string) error {
 		gp.fpdi.SetSourceFile(v)
 	case []byte:
 		// Set source stream for fpdi
-		rs := io.ReadSeeker(bytes.NewReader(v))
-		gp.fpdi.SetSourceStream(&rs)
+		gp.setSourceStream(bytes.NewReader(v))
 	case io.ReadSeeker:
 		// Set source stream for fpdi
-		gp.fpdi.SetSourceStream(&v)
+		gp.setSourceStream(v)
 	case *io.ReadSeeker:
 		// Set source stream for fpdi
-		gp.fpdi.SetSourceStream(v)
+		gp.setSourceStream(*v)
 	default:
 		return errors.New("source type not supported")
 	}
@@ -2251,6 +2268,7 @@ func (gp *GoPdf) init(importer ...*gofpdi.Importer) {
 	// init gofpdi free pdf document importer
 	gp.fpdi = importerOrDefault(importer...)
 	gp.importedTplNames = nil
+	gp.importStreams = nil
 
 }
 
-- 
2.43.0


From 8b359559f921dc2a3f1845934e775ef9fd25ca6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 41/58] fix: the default trim box, and a trim box without a
 page size, are applied to pages

---
 gopdf.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 8a99385..e29f47f 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -843,16 +843,17 @@ func (gp *GoPdf) AddPageWithOption(opt PageOption) {
 		return gp
 	})
 
+	if !opt.isTrimBoxSet() { //use default
+		trimBox := gp.config.TrimBox
+		opt.TrimBox = &trimBox
+	}
+	page.setOption(opt)
+	gp.curr.trimBox = opt.TrimBox
+
 	if !opt.isEmpty() { //use page option
-		page.setOption(opt)
 		gp.curr.pageSize = opt.PageSize
-
-		if opt.isTrimBoxSet() {
-			gp.curr.trimBox = opt.TrimBox
-		}
 	} else { //use default
 		gp.curr.pageSize = &gp.config.PageSize
-		gp.curr.trimBox = &gp.config.TrimBox
 	}
 
 	page.ResourcesRelate = strconv.Itoa(gp.indexOfProcSet+1) + " 0 R"
@@ -2587,12 +2588,9 @@ func (gp *GoPdf) SetPage(pageno int) error {
 				gp.curr.IndexOfPageObj = i
 				gp.indexOfContent = page.indexOfContent
 				gp.curr.pageSize = &gp.config.PageSize
-				gp.curr.trimBox = &gp.config.TrimBox
+				gp.curr.trimBox = page.pageOption.TrimBox
 				if !page.pageOption.isEmpty() {
 					gp.curr.pageSize = page.pageOption.PageSize
-					if page.pageOption.isTrimBoxSet() {
-						gp.curr.trimBox = page.pageOption.TrimBox
-					}
 				}
 				return nil
 			}
-- 
2.43.0


From b7775da396d87f7020fe015baf4b58947556284e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:30 +0000
Subject: [PATCH 42/58] fix: blocks of the ToUnicode map have at most 100
 ranges

---
 unicode_map.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/unicode_map.go b/unicode_map.go
index 334e412..a8d0318 100644
--- a/unicode_map.go
+++ b/unicode_map.go
@@ -5,6 +5,9 @@ import (
 	"io"
 )
 
+// maxBfRanges is the most ranges one block of a CMap can have.
+const maxBfRanges = 100
+
 // UnicodeMap unicode map
 type UnicodeMap struct {
 	PtrToSubsetFontObj *SubsetFontObj
@@ -61,13 +64,20 @@ func (u *UnicodeMap) write(w io.Writer, objID int) error {
 	buff.WriteString("1 begincodespacerange\n")
 	buff.WriteString("<0000><FFFF>\n") // every glyph index is a two byte code
 	buff.WriteString("endcodespacerange\n")
-	fmt.Fprintf(buff, "%d beginbfrange\n", glyphIndexToCharacter.size())
 	indexs := glyphIndexToCharacter.allIndexs()
-	for _, k := range indexs {
-		v, _ := glyphIndexToCharacter.runeByIndex(k)
-		fmt.Fprintf(buff, "<%04X><%04X><%s>\n", k, k, encodeUtf8(string(v)))
+	for len(indexs) > 0 {
+		block := indexs
+		if len(block) > maxBfRanges {
+			block = block[:maxBfRanges]
+		}
+		indexs = indexs[len(block):]
+		fmt.Fprintf(buff, "%d beginbfrange\n", len(block))
+		for _, k := range block {
+			v, _ := glyphIndexToCharacter.runeByIndex(k)
+			fmt.Fprintf(buff, "<%04X><%04X><%s>\n", k, k, encodeUtf8(string(v)))
+		}
+		buff.WriteString("endbfrange\n")
 	}
-	buff.WriteString("endbfrange\n")
 	buff.WriteString(suffix)
 	buff.WriteString("\n")
 
-- 
2.43.0


From 41d000654af028060a501cc046aa9734b36c21a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:00 +0000
Subject: [PATCH 43/58] fix: a palette of bytes that look like white space is a
 palette

---
 image_obj_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image_obj_parse.go b/image_obj_parse.go
index a6cea1d..c30d8db 100644
--- a/image_obj_parse.go
+++ b/image_obj_parse.go
@@ -390,7 +390,7 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 
 	// fmt.Printf("data= %x", md5.Sum(data))
 
-	if colspace == "Indexed" && strings.TrimSpace(string(pal)) == "" {
+	if colspace == "Indexed" && len(pal) == 0 {
 		return errors.New("Missing palette")
 	}
 
-- 
2.43.0


From b036f3137eed705944e949600bb0225eb3589b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:02 +0000
Subject: [PATCH 44/58] fix: images given by path are told apart by content,
 the file can change

---
 image_holder.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/image_holder.go b/image_holder.go
index de2b768..bbf0d8c 100644
--- a/image_holder.go
+++ b/image_holder.go
@@ -48,14 +48,12 @@ func newImageBuff(b []byte) (*imageBuff, error) {
 }
 
 func newImageBuffByPath(path string) (*imageBuff, error) {
-	var i imageBuff
-	i.id = path
 	b, err := os.ReadFile(path)
 	if err != nil {
 		return nil, err
 	}
-	i.Write(b)
-	return &i, nil
+	// told apart by content: the file at a path can change
+	return newImageBuff(b)
 }
 
 func newImageBuffByReader(r io.Reader) (*imageBuff, error) {
-- 
2.43.0


From 9414f887445046c25dc591f12c78b6de19c4af7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:05 +0000
Subject: [PATCH 45/58] fix: dates in time zones off by part of an hour keep
 the minutes

---
 gopdf.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index e29f47f..2218f09 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2482,8 +2482,8 @@ func encodeUtf8(str string) string {
 }
 
 func infodate(t time.Time) string {
-	ft := t.Format("20060102150405-07'00'")
-	return ft
+	ft := t.Format("20060102150405-07:00")
+	return strings.Replace(ft, ":", "'", 1) + "'"
 }
 
 // SetTransparency sets transparency.
-- 
2.43.0


From 10df27b8a4756ddcbf438a86415d1b4ff753b424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:30 +0000
Subject: [PATCH 46/58] fix: ImportPagesFromSource draws turned pages in their
 own size

---
 gopdf.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 2218f09..bf971b1 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1708,9 +1708,8 @@ func (gp *GoPdf) ImportPagesFromSource(source interface{}, box string) error {
 	for i := 0; i < pages; i++ {
 		pageno := i + 1
 
-		// Get the size of the page
-		size, ok := sizes[pageno][box]
-		if !ok {
+		// Check that the page has a size
+		if _, ok := sizes[pageno][box]; !ok {
 			return errors.New("can not get page size")
 		}
 
@@ -1740,8 +1739,10 @@ func (gp *GoPdf) ImportPagesFromSource(source interface{}, box string) error {
 		// Import gofpdi objects into gopdf, starting at whatever the value of startObjID is
 		gp.ImportObjects(imported, startObjID)
 
-		// Draws the imported template on the current page, size is in points
-		w, h := size["w"], size["h"]
+		// Draws the imported template on the current page, in its own size in points
+		// (a turned page has the width and height of its box exchanged)
+		_, scaleX, scaleY, _, _ := gp.fpdi.UseTemplate(tpl, 0, 0, 1, 1)
+		w, h := 1/scaleX, 1/scaleY
 		gp.PointsToUnitsVar(&w, &h)
 		gp.UseImportedTemplate(tpl, 0, 0, w, h)
 	}
-- 
2.43.0


From a43f93b8c2bd9c01346e23efeaf9d6de505dd4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:49 +0000
Subject: [PATCH 47/58] fix: pages imported by a box they do not define use the
 box it defaults to

---
 gopdf.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index bf971b1..f61a957 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1587,7 +1587,7 @@ func (gp *GoPdf) ImportPage(sourceFile string, pageno int, box string) int {
 	gp.fpdi.SetNextObjectID(startObjID)
 
 	// Import page
-	tpl := gp.fpdi.ImportPage(pageno, box)
+	tpl := gp.fpdi.ImportPage(pageno, gp.importBox(box))
 
 	// Import objects into current pdf document
 	tplObjIDs := gp.fpdi.PutFormXobjects()
@@ -1621,7 +1621,7 @@ func (gp *GoPdf) ImportPageStream(sourceStream *io.ReadSeeker, pageno int, box s
 	gp.fpdi.SetNextObjectID(startObjID)
 
 	// Import page
-	tpl := gp.fpdi.ImportPage(pageno, box)
+	tpl := gp.fpdi.ImportPage(pageno, gp.importBox(box))
 
 	// Import objects into current pdf document
 	tplObjIDs := gp.fpdi.PutFormXobjects()
@@ -1654,6 +1654,24 @@ func (gp *GoPdf) setSourceStream(stream io.ReadSeeker) {
 	gp.fpdi.SetSourceStream(&stream)
 }
 
+// importBox returns the box to use for box in the current source of the
+// importer: a crop box a page does not define is its media box, and any other
+// box it does not define is its crop box. (The importer looks at page 1 only.)
+func (gp *GoPdf) importBox(box string) string {
+	boxes := gp.fpdi.GetPageSizes()[1]
+	switch box {
+	case "/BleedBox", "/TrimBox", "/ArtBox":
+		if len(boxes[box]) > 0 {
+			return box
+		}
+		box = "/CropBox"
+	}
+	if box == "/CropBox" && len(boxes[box]) == 0 {
+		box = "/MediaBox"
+	}
+	return box
+}
+
 // GetStreamPageSizes gets the sizes of the pages using a stream
 // Returns a map of available pages and its box sizes starting with the first page at index 1 containing a map of boxes containing a map of size values
 func (gp *GoPdf) GetStreamPageSizes(sourceStream *io.ReadSeeker) map[int]map[string]map[string]float64 {
@@ -1724,7 +1742,7 @@ func (gp *GoPdf) ImportPagesFromSource(source interface{}, box string) error {
 		gp.fpdi.SetNextObjectID(startObjID)
 
 		// Import page
-		tpl := gp.fpdi.ImportPage(pageno, box)
+		tpl := gp.fpdi.ImportPage(pageno, gp.importBox(box))
 
 		// Import objects into current pdf document
 		tplObjIDs := gp.fpdi.PutFormXobjects()
-- 
2.43.0


From e5f9ca7d4ed2527bc07bac215b36241e01cdf456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:24 +0000
Subject: [PATCH 48/58] fix: names of colour spaces and fonts are escaped as
 PDF names

---
 color_space_obj.go |  4 ++--
 strhelper.go       | 18 +++++++++++++++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/color_space_obj.go b/color_space_obj.go
index f447fbf..82b2596 100644
--- a/color_space_obj.go
+++ b/color_space_obj.go
@@ -39,12 +39,12 @@ func (cs *ColorSpaceObj) SetColorRBG(r, g, b uint8) {
 	cs.colorString0 = "0.0 0.0 0.0"
 	cs.colorString1 = fmt.Sprintf("%.3f %.3f %.3f", float64(r)/255.0, float64(g)/255.0, float64(b)/255.0)
 	cs.space = "/DeviceRGB"
-	cs.spaceName = fmt.Sprintf("/%s", cs.Name)
+	cs.spaceName = "/" + escapeName(cs.Name)
 }
 
 func (cs *ColorSpaceObj) SetColorCMYK(c, m, y, k uint8) {
 	cs.colorString0 = "0.0 0.0 0.0 0.0"
 	cs.colorString1 = fmt.Sprintf("%.3f %.3f %.3f %.3f", float64(c)/100.0, float64(m)/100.0, float64(y)/100.0, float64(k)/100.0)
 	cs.space = "/DeviceCMYK"
-	cs.spaceName = fmt.Sprintf("/%s", cs.Name)
+	cs.spaceName = "/" + escapeName(cs.Name)
 }
diff --git a/strhelper.go b/strhelper.go
index b91af9d..9388427 100644
--- a/strhelper.go
+++ b/strhelper.go
@@ -1,6 +1,8 @@
 package gopdf
 
 import (
+	"bytes"
+	"fmt"
 	"math/big"
 	"strings"
 )
@@ -28,7 +30,21 @@ func StrHelperGetStringWidthPrecise(str string, fontSize float64, ifont IFont) f
 func CreateEmbeddedFontSubsetName(name string) string {
 	name = strings.Replace(name, " ", "+", -1)
 	name = strings.Replace(name, "/", "+", -1)
-	return name
+	return escapeName(name)
+}
+
+// escapeName escapes the characters of a name that a PDF name can not contain as they are
+func escapeName(name string) string {
+	var buff bytes.Buffer
+	for i := 0; i < len(name); i++ {
+		c := name[i]
+		if c < '!' || c > '~' || strings.IndexByte("()<>[]{}/%#", c) >= 0 {
+			fmt.Fprintf(&buff, "#%02X", c)
+		} else {
+			buff.WriteByte(c)
+		}
+	}
+	return buff.String()
 }
 
 // ReadShortFromByte read short from byte array
-- 
2.43.0


From f9fdfeee1abf31423100e463bca487dcbea60bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:53 +0000
Subject: [PATCH 49/58] fix: tables keep a copy of styled rows, not the
 caller's slice

---
 table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 3ec0027..e0f6576 100644
--- a/table.go
+++ b/table.go
@@ -140,7 +140,7 @@ func (t *tableLayout) AddRow(row []string) {
 // Adds a row of data to the table with individual styled cells
 // Useful for styling individual cells in a row
 func (t *tableLayout) AddStyledRow(row []RowCell) {
-	t.rows = append(t.rows, row)
+	t.rows = append(t.rows, append([]RowCell{}, row...))
 }
 
 // Sets the style for the entire table
-- 
2.43.0


From 03a99be995c1f9dc952f3c4bd6d0ff6c11ed6abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:57 +0000
Subject: [PATCH 50/58] fix: tables report fonts that are not there

---
 table.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/table.go b/table.go
index e0f6576..b682e51 100644
--- a/table.go
+++ b/table.go
@@ -301,7 +301,9 @@ func (t *tableLayout) drawCell(
 	// Set the text color and font
 	t.pdf.SetTextColor(style.TextColor.R, style.TextColor.G, style.TextColor.B)
 	if style.Font != "" {
-		t.pdf.SetFont(style.Font, "", style.FontSize)
+		if err := t.pdf.SetFont(style.Font, "", style.FontSize); err != nil {
+			return err
+		}
 	}
 
 	// Draw the cell content
-- 
2.43.0


From 5222680f8a0cee0f3598aeea28fc140eef4a696d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:43 +0000
Subject: [PATCH 51/58] fix: imported pages are encrypted in protected
 documents

---
 gopdf.go        |   6 ++-
 imported_obj.go | 138 +++++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 142 insertions(+), 2 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index f61a957..b8b2222 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1782,7 +1782,11 @@ func (gp *GoPdf) GetNumberOfPages() int {
 func (gp *GoPdf) ImportObjects(objs map[int]string, startObjID int) {
 	for i := startObjID; i < len(objs)+startObjID; i++ {
 		if objs[i] != "" {
-			gp.addObj(&ImportedObj{Data: objs[i]})
+			imported := &ImportedObj{Data: objs[i]}
+			imported.init(func() *GoPdf {
+				return gp
+			})
+			gp.addObj(imported)
 		}
 	}
 }
diff --git a/imported_obj.go b/imported_obj.go
index 8ec5018..0a2677d 100644
--- a/imported_obj.go
+++ b/imported_obj.go
@@ -1,17 +1,27 @@
 package gopdf
 
 import (
+	"bytes"
+	"encoding/hex"
 	"io"
 	"strings"
 )
 
 // ImportedObj : imported object
 type ImportedObj struct { //impl IObj
-	Data string
+	Data    string
+	getRoot func() *GoPdf
 }
 
 func (c *ImportedObj) init(funcGetRoot func() *GoPdf) {
+	c.getRoot = funcGetRoot
+}
 
+func (c *ImportedObj) protection() *PDFProtection {
+	if c.getRoot == nil {
+		return nil
+	}
+	return c.getRoot().protection()
 }
 
 func (c *ImportedObj) getType() string {
@@ -23,9 +33,135 @@ func (c *ImportedObj) write(w io.Writer, objID int) error {
 		// compilePdf ends every object
 		data := strings.TrimRight(c.Data, "\r\n")
 		data = strings.TrimRight(strings.TrimSuffix(data, "endobj"), "\r\n")
+		if protection := c.protection(); protection != nil {
+			var err error
+			data, err = encryptImported(data, protection.objectkey(objID))
+			if err != nil {
+				return err
+			}
+		}
 		if _, err := io.WriteString(w, data+"\n"); err != nil {
 			return err
 		}
 	}
 	return nil
 }
+
+// encryptImported encrypts the strings and the stream of an object that is
+// already in PDF syntax.
+func encryptImported(data string, key []byte) (string, error) {
+	const streamBegin, streamEnd = "stream\n", "\nendstream"
+	var out bytes.Buffer
+	for i := 0; i < len(data); {
+		rest := data[i:]
+		switch {
+		case strings.HasPrefix(rest, "<<"), strings.HasPrefix(rest, ">>"):
+			out.WriteString(rest[:2])
+			i += 2
+		case rest[0] == '(' || rest[0] == '<':
+			var str []byte
+			var n int
+			if rest[0] == '(' {
+				str, n = parseLiteralString(rest)
+			} else {
+				str, n = parseHexString(rest)
+			}
+			str, err := rc4Cip(key, str)
+			if err != nil {
+				return "", err
+			}
+			out.WriteString("<" + hex.EncodeToString(str) + ">")
+			i += n
+		case strings.HasPrefix(rest, streamBegin) && strings.HasSuffix(rest, streamEnd):
+			stream, err := rc4Cip(key, []byte(rest[len(streamBegin):len(rest)-len(streamEnd)]))
+			if err != nil {
+				return "", err
+			}
+			out.WriteString(streamBegin)
+			out.Write(stream)
+			out.WriteString(streamEnd)
+			i = len(data)
+		case rest[0] == '/':
+			// a name may end in "stream"
+			n := 1
+			for n < len(rest) && !strings.ContainsRune("\x00\t\n\f\r ()<>[]{}/%", rune(rest[n])) {
+				n++
+			}
+			out.WriteString(rest[:n])
+			i += n
+		default:
+			out.WriteByte(rest[0])
+			i++
+		}
+	}
+	return out.String(), nil
+}
+
+// parseLiteralString returns the value of the string (...) that s begins with
+// and the length of its notation.
+func parseLiteralString(s string) ([]byte, int) {
+	var str []byte
+	escapes := map[byte]byte{'n': '\n', 'r': '\r', 't': '\t', 'b': '\b', 'f': '\f'}
+	depth := 0
+	for i := 0; i < len(s); i++ {
+		switch b := s[i]; {
+		case b == '\\' && i+1 < len(s):
+			i++
+			if v, ok := escapes[s[i]]; ok {
+				str = append(str, v)
+			} else if s[i] >= '0' && s[i] <= '7' {
+				v, end := 0, i+3
+				for ; i < end && i < len(s) && s[i] >= '0' && s[i] <= '7'; i++ {
+					v = v<<3 | int(s[i]-'0')
+				}
+				i--
+				str = append(str, byte(v))
+			} else if s[i] == '\r' || s[i] == '\n' { // the string goes on in the next line
+				if strings.HasPrefix(s[i:], "\r\n") {
+					i++
+				}
+			} else {
+				str = append(str, s[i])
+			}
+			continue
+		case b == '(':
+			depth++
+			if depth == 1 {
+				continue
+			}
+		case b == ')':
+			depth--
+			if depth == 0 {
+				return str, i + 1
+			}
+		case b == '\r': // any end of line is a line feed
+			if strings.HasPrefix(s[i:], "\r\n") {
+				i++
+			}
+			str = append(str, '\n')
+			continue
+		}
+		str = append(str, s[i])
+	}
+	return str, len(s)
+}
+
+// parseHexString returns the value of the string <...> that s begins with and
+// the length of its notation.
+func parseHexString(s string) ([]byte, int) {
+	n := strings.IndexByte(s, '>') + 1
+	if n == 0 {
+		n = len(s)
+	}
+	var digits []byte
+	for _, b := range []byte(s[1:n]) {
+		if strings.IndexByte("0123456789abcdefABCDEF", b) >= 0 {
+			digits = append(digits, b)
+		}
+	}
+	if len(digits)%2 == 1 {
+		digits = append(digits, '0')
+	}
+	str, _ := hex.DecodeString(string(digits))
+	return str, n
+}
-- 
2.43.0


From 01798bc2bf6291578256084ce225304fd19d99dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:46 +0000
Subject: [PATCH 52/58] fix: rectangles and boxes are converted with
 Config.ConversionForUnit

---
 gopdf.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index b8b2222..0c3b19c 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -496,7 +496,7 @@ func (gp *GoPdf) SetXY(x, y float64) {
 func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect) error {
 	gp.UnitsToPointsVar(&x, &y)
 
-	rect = rect.UnitsToPoints(gp.config.Unit)
+	rect = rect.unitsToPoints(gp.config)
 
 	imageOptions := ImageOptions{
 		X:    x,
@@ -510,7 +510,7 @@ func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect
 func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) error {
 	gp.UnitsToPointsVar(&opts.X, &opts.Y)
 
-	opts.Rect = opts.Rect.UnitsToPoints(gp.config.Unit)
+	opts.Rect = opts.Rect.unitsToPoints(gp.config)
 
 	imageTransparency, err := gp.getCachedTransparency(opts.Transparency)
 	if err != nil {
@@ -535,7 +535,7 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 		}
 
 		gp.UnitsToPointsVar(&opts.Mask.ImageOptions.X, &opts.Mask.ImageOptions.Y)
-		opts.Mask.ImageOptions.Rect = opts.Mask.ImageOptions.Rect.UnitsToPoints(gp.config.Unit)
+		opts.Mask.ImageOptions.Rect = opts.Mask.ImageOptions.Rect.unitsToPoints(gp.config)
 
 		extGStateIndex, err := gp.maskHolder(opts.Mask.Holder, *opts.Mask)
 		if err != nil {
@@ -763,7 +763,7 @@ func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
 // Image : draw image
 func (gp *GoPdf) Image(picPath string, x float64, y float64, rect *Rect) error {
 	gp.UnitsToPointsVar(&x, &y)
-	rect = rect.UnitsToPoints(gp.config.Unit)
+	rect = rect.unitsToPoints(gp.config)
 	imgh, err := ImageHolderByPath(picPath)
 	if err != nil {
 		return err
@@ -793,7 +793,7 @@ func (gp *GoPdf) ImageFromWithOption(img image.Image, opts ImageFromOption) erro
 	}
 
 	gp.UnitsToPointsVar(&opts.X, &opts.Y)
-	opts.Rect = opts.Rect.UnitsToPoints(gp.config.Unit)
+	opts.Rect = opts.Rect.unitsToPoints(gp.config)
 	r, w := io.Pipe()
 	go func() {
 		bw := bufio.NewWriter(w)
@@ -835,8 +835,8 @@ func (gp *GoPdf) AddPage() {
 
 // AddPageWithOption  : add new page with option
 func (gp *GoPdf) AddPageWithOption(opt PageOption) {
-	opt.TrimBox = opt.TrimBox.UnitsToPoints(gp.config.Unit)
-	opt.PageSize = opt.PageSize.UnitsToPoints(gp.config.Unit)
+	opt.TrimBox = opt.TrimBox.unitsToPoints(gp.config)
+	opt.PageSize = opt.PageSize.unitsToPoints(gp.config)
 
 	page := new(PageObj)
 	page.init(func() *GoPdf {
@@ -1180,7 +1180,7 @@ func (gp *GoPdf) CellWithOption(rectangle *Rect, text string, opt CellOption) er
 		opt.extGStateIndexes = append(opt.extGStateIndexes, transparency.extGStateIndex)
 	}
 
-	rectangle = rectangle.UnitsToPoints(gp.config.Unit)
+	rectangle = rectangle.unitsToPoints(gp.config)
 	text, err = gp.curr.FontISubset.AddChars(text)
 	if err != nil {
 		return err
@@ -1195,7 +1195,7 @@ func (gp *GoPdf) CellWithOption(rectangle *Rect, text string, opt CellOption) er
 // Cell : create cell of text ( use current x,y is upper-left corner of cell)
 // Note that this has no effect on Rect.H pdf (now). Fix later :-)
 func (gp *GoPdf) Cell(rectangle *Rect, text string) error {
-	rectangle = rectangle.UnitsToPoints(gp.config.Unit)
+	rectangle = rectangle.unitsToPoints(gp.config)
 	defaultopt := CellOption{
 		Align:  Left | Top,
 		Border: 0,
-- 
2.43.0


From 95adc45d072b54d19de055123a558c3f4c667769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:47 +0000
Subject: [PATCH 53/58] fix: names of imported templates do not collide with
 those of the caller's importer

---
 gopdf.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 0c3b19c..9d61983 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1800,10 +1800,11 @@ func (gp *GoPdf) ImportTemplates(tpls map[string]int) {
 }
 
 // importTemplate names the imported template tpl after its id. gofpdi's own
-// names repeat when pages of several sources are imported in turn.
+// names repeat when pages of several sources are imported in turn, and belong
+// to callers that use the importer themselves.
 func (gp *GoPdf) importTemplate(tpl int, tplObjIDs map[string]int) {
 	name, _, _, _, _ := gp.fpdi.UseTemplate(tpl, 0, 0, 0, 0)
-	unique := fmt.Sprintf("/GOFPDITPL%d", tpl)
+	unique := fmt.Sprintf("/GOPDFTPL%d", tpl)
 	if gp.importedTplNames == nil {
 		gp.importedTplNames = make(map[int]string)
 	}
-- 
2.43.0


From 03c4d7604776f9b9682387a4904fd20bf8cbb2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:50 +0000
Subject: [PATCH 54/58] fix: image crops are converted like the rectangle of
 the image

---
 gopdf.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gopdf.go b/gopdf.go
index 9d61983..8a970ed 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -129,6 +129,15 @@ type CropOptions struct {
 	Height float64
 }
 
+func (crop *CropOptions) unitsToPoints(unitCfg unitConfigurator) *CropOptions {
+	if crop == nil {
+		return nil
+	}
+	c := *crop
+	unitsToPointsVar(unitCfg, &c.X, &c.Y, &c.Width, &c.Height)
+	return &c
+}
+
 type ImageOptions struct {
 	DegreeAngle    float64
 	VerticalFlip   bool
@@ -511,6 +520,7 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 	gp.UnitsToPointsVar(&opts.X, &opts.Y)
 
 	opts.Rect = opts.Rect.unitsToPoints(gp.config)
+	opts.Crop = opts.Crop.unitsToPoints(gp.config)
 
 	imageTransparency, err := gp.getCachedTransparency(opts.Transparency)
 	if err != nil {
@@ -536,6 +546,7 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 
 		gp.UnitsToPointsVar(&opts.Mask.ImageOptions.X, &opts.Mask.ImageOptions.Y)
 		opts.Mask.ImageOptions.Rect = opts.Mask.ImageOptions.Rect.unitsToPoints(gp.config)
+		opts.Mask.ImageOptions.Crop = opts.Mask.ImageOptions.Crop.unitsToPoints(gp.config)
 
 		extGStateIndex, err := gp.maskHolder(opts.Mask.Holder, *opts.Mask)
 		if err != nil {
-- 
2.43.0


From baef86fb5c43676d1a7fcf45ee6c0bcc77b8860e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:53 +0000
Subject: [PATCH 55/58] fix: masked images are flipped and cropped in place
 when they are turned

---
 cache_content_image.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/cache_content_image.go b/cache_content_image.go
index 9e4e3f6..4bc2c1c 100644
--- a/cache_content_image.go
+++ b/cache_content_image.go
@@ -57,8 +57,16 @@ func (c *cacheContentImage) computeMaskImageRotateTrMt() string {
 		return ""
 	}
 
-	x := c.x + c.rect.W/2
-	y := c.y + c.rect.H/2
+	w := c.rect.W
+	h := c.rect.H
+
+	if c.crop != nil {
+		w = c.crop.Width
+		h = c.crop.Height
+	}
+
+	x := c.x + w/2
+	y := c.y + h/2
 
 	rotateMat := computeRotateTransformationMatrix(x, y, angle, c.pageHeight)
 
@@ -83,6 +91,10 @@ func (c *cacheContentImage) write(writer io.Writer, protection *PDFProtection) e
 		contentStream += fmt.Sprintf("/GS%d gs\n", extGStateIndex)
 	}
 
+	if c.withMask { // the mask stays as it is
+		contentStream += c.computeMaskImageRotateTrMt()
+	}
+
 	if c.horizontalFlip || c.verticalFlip {
 		fh := "1"
 		if c.horizontalFlip {
@@ -134,12 +146,7 @@ func (c *cacheContentImage) write(writer io.Writer, protection *PDFProtection) e
 		}
 	}
 
-	var maskImageRotateMat string
-	if c.withMask {
-		maskImageRotateMat = c.computeMaskImageRotateTrMt()
-	}
-
-	contentStream += fmt.Sprintf("q\n %s %0.2f 0 0\n %0.2f %0.2f %0.2f cm /I%d Do \nQ\n", maskImageRotateMat, width, height, x, y, c.index+1)
+	contentStream += fmt.Sprintf("q\n %0.2f 0 0\n %0.2f %0.2f %0.2f cm /I%d Do \nQ\n", width, height, x, y, c.index+1)
 
 	contentStream += "Q\n"
 
-- 
2.43.0


From 1ee782ab23e5cdebee2dc3546e9a4e1b92ad4e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:27 +0000
Subject: [PATCH 56/58] fix: Arabic letters do not join a hamza, jeh does not
 join the letter after it, teh marbuta joins the one before

---
 arabic_alphabet.go | 3 ++-
 arabic_helper.go   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/arabic_alphabet.go b/arabic_alphabet.go
index 5fb34d7..e1edcf9 100644
--- a/arabic_alphabet.go
+++ b/arabic_alphabet.go
@@ -142,7 +142,7 @@ var (
 		Unicode:   '\u0629',
 		Isolated:  '\ufe93',
 		Beginning: '\u0629',
-		Middle:    '\u0629',
+		Middle:    '\ufe94',
 		Final:     '\ufe94'}
 
 	THEH = Harf{ // ث
@@ -460,5 +460,6 @@ var rightJoiningOnlyLetters = map[Harf]bool{
 	THAL:             true,
 	REH:              true,
 	ZAIN:             true,
+	JEH:              true,
 	WAW:              true,
 	ALEF_MAKSURA:     true}
diff --git a/arabic_helper.go b/arabic_helper.go
index 91148eb..8cc44c3 100644
--- a/arabic_helper.go
+++ b/arabic_helper.go
@@ -87,7 +87,8 @@ func getCharShape(previousChar, currentChar, nextChar rune) rune {
 		previousArabic = true
 	}
 
-	if _, ok := arabicAlphabet[nextChar]; ok {
+	// nothing joins a hamza
+	if _, ok := arabicAlphabet[nextChar]; ok && !HAMZA.equals(nextChar) {
 		nextArabic = true
 	}
 
-- 
2.43.0


From b703e8e7445fcbfa04bebe9b525ef32fc63e4706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:30 +0000
Subject: [PATCH 57/58] fix: Arabic marks before the first letter are kept

---
 arabic_helper.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/arabic_helper.go b/arabic_helper.go
index 8cc44c3..dbdb21f 100644
--- a/arabic_helper.go
+++ b/arabic_helper.go
@@ -29,10 +29,8 @@ func reverseWithTashkeel(runes []rune) string {
 	var currentGroup *hrofGroup
 
 	for _, r := range runes {
-		if IsTashkeel(r) {
-			if currentGroup != nil {
-				currentGroup.tashkeel = append(currentGroup.tashkeel, r)
-			}
+		if IsTashkeel(r) && currentGroup != nil {
+			currentGroup.tashkeel = append(currentGroup.tashkeel, r)
 		} else {
 			groups = append(groups, hrofGroup{base: r})
 			currentGroup = &groups[len(groups)-1]
-- 
2.43.0


From e6d09e3838b9e05f46ba7075adce53c83b8a4d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:42 +0000
Subject: [PATCH 58/58] fix: ImportPagesFromSource returns an error for a
 source that cannot be read

---
 gopdf.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/gopdf.go b/gopdf.go
index 8a970ed..ed146b6 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1710,7 +1710,18 @@ func (gp *GoPdf) UseImportedTemplate(tplid int, x float64, y float64, w float64,
 
 // ImportPagesFromSource imports pages from a source pdf.
 // The source can be a file path, byte slice, or (*)io.ReadSeeker.
-func (gp *GoPdf) ImportPagesFromSource(source interface{}, box string) error {
+func (gp *GoPdf) ImportPagesFromSource(source interface{}, box string) (err error) {
+	// the importer panics about a source it cannot read
+	opened := false
+	defer func() {
+		if opened {
+			return
+		}
+		if r := recover(); r != nil {
+			err = fmt.Errorf("can not read source: %v", r)
+		}
+	}()
+
 	switch v := source.(type) {
 	case string:
 		// Set source file for fpdi
@@ -1733,6 +1744,7 @@ func (gp *GoPdf) ImportPagesFromSource(source interface{}, box string) error {
 
 	// Get page sizes from source file
 	sizes := gp.fpdi.GetPageSizes()
+	opened = true
 
 	for i := 0; i < pages; i++ {
 		pageno := i + 1
-- 
2.43.0

