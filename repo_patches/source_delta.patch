From 36bec5abcccd4f0c4ee64d7e88acb27725919bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:13 +0000
Subject: [PATCH 01/31] fix: keep the page asked for and refuse page numbers
 and positions out of range

---
 pdft.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pdft.go b/pdft.go
index ebbb481..671f5ff 100644
--- a/pdft.go
+++ b/pdft.go
@@ -121,7 +121,13 @@ func (i *PDFt) DuplicatePageAfter(targetPageNumber, position int) error {
 	if err != nil {
 		return err
 	}
-	if targetPageNumber > 0 && len(pageObjIds) < targetPageNumber {
+	if targetPageNumber <= 0 || len(pageObjIds) < targetPageNumber {
+		return ErrNoDesiredPageToCopy
+	}
+	if position < 0 {
+		position = len(pageObjIds) + position // like python
+	}
+	if position < 0 || len(pageObjIds) <= position {
 		return ErrNoDesiredPageToCopy
 	}
 
@@ -145,9 +151,6 @@ func (i *PDFt) DuplicatePageAfter(targetPageNumber, position int) error {
 
 	pageID := i.pdf.putNewObject(pageObj)
 
-	if position < 0 {
-		position = len(pageObjIds) + position // like python
-	}
 	pageObjIds = append(pageObjIds, 0)
 	copy(pageObjIds[position+1:], pageObjIds[position:])
 	pageObjIds[position+1] = pageID
@@ -161,7 +164,7 @@ func (i *PDFt) RemovePage(targetPageNumber int) error {
 	if err != nil {
 		return err
 	}
-	if targetPageNumber > 0 && len(pageObjIds) < targetPageNumber {
+	if targetPageNumber <= 0 || len(pageObjIds) < targetPageNumber {
 		return ErrNoDesiredPageToRemove
 	}
 	copy(pageObjIds[targetPageNumber-1:], pageObjIds[targetPageNumber:])
@@ -176,11 +179,11 @@ func (i *PDFt) RemoveOtherPages(targetPageNumber int) error {
 	if err != nil {
 		return err
 	}
-	if targetPageNumber > 0 && len(pageObjIds) < targetPageNumber {
+	if targetPageNumber <= 0 || len(pageObjIds) < targetPageNumber {
 		return ErrNoDesiredPageToKeep
 	}
 
-	return i.setPages([]int{pageObjIds[targetPageNumber]})
+	return i.setPages([]int{pageObjIds[targetPageNumber-1]})
 }
 
 func (i *PDFt) setPages(pageObjIds []int) error {
-- 
2.43.0


From 1637c6a121d24fa247443c5b2368c455f8bc4007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:16 +0000
Subject: [PATCH 02/31] fix: refuse text and images that cannot be encoded
 without leaving a trace

---
 pdft.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/pdft.go b/pdft.go
index 671f5ff..64419d0 100644
--- a/pdft.go
+++ b/pdft.go
@@ -300,7 +300,10 @@ func (i *PDFt) InsertWrapText(text string,
 func (i *PDFt) Insert(text string, pageNum int, x float64, y float64, w float64, h float64, align int, fontColor *FontColor) error {
 	var ct ContentText
 	ct.text = text
-	ct.fontColor = fontColor
+	if fontColor != nil {
+		color := *fontColor
+		ct.fontColor = &color
+	}
 	ct.fontName = i.curr.fontName
 	ct.fontStyle = i.curr.fontStyle
 	ct.fontSize = i.curr.fontSize
@@ -317,13 +320,15 @@ func (i *PDFt) Insert(text string, pageNum int, x float64, y float64, w float64,
 		return ErrFontNameNotFound
 	}
 	ct.pdfFontData = i.fontDatas[ct.fontName]
+	if err := ct.pdfFontData.addChars(text); err != nil {
+		return err
+	}
 	i.contenters = append(i.contenters, &ct)
-	return i.fontDatas[ct.fontName].addChars(text)
+	return nil
 }
 
 // MeasureTextWidth measure text width
 func (i *PDFt) MeasureTextWidth(text string) (float64, error) {
-	i.fontDatas[i.curr.fontName].addChars(text)
 	var ct ContentText
 	ct.text = text
 	ct.fontName = i.curr.fontName
@@ -335,6 +340,9 @@ func (i *PDFt) MeasureTextWidth(text string) (float64, error) {
 		return 0, ErrFontNameNotFound
 	}
 	ct.pdfFontData = i.fontDatas[ct.fontName]
+	if err := ct.pdfFontData.addChars(text); err != nil {
+		return 0, err
+	}
 	width, err := ct.measureTextWidth()
 	return width, err
 }
@@ -413,7 +421,10 @@ func (i *PDFt) InsertImg(img []byte, pageNum int, x float64, y float64, w float6
 		imgObj.SetSMaskObjID(smaskObjID)
 	}
 
-	pdfimg.setImgObj(imgObj)
+	err = pdfimg.setImgObj(imgObj)
+	if err != nil {
+		return err
+	}
 
 	i.pdfImgs = append(i.pdfImgs, &pdfimg)
 	//fmt.Printf("-->%d\n", len(i.pdfImgs))
@@ -458,7 +469,10 @@ func (i *PDFt) InsertImgWithCache(img []byte, pageNum int, x float64, y float64,
 			smaskObjID := i.pdf.putNewObject(pdfObj)
 			imgObj.SetSMaskObjID(smaskObjID)
 		}
-		pdfimg.setImgObj(imgObj)
+		err = pdfimg.setImgObj(imgObj)
+		if err != nil {
+			return err
+		}
 
 		i.pdfImgs = append(i.pdfImgs, pdfimg)
 		i.pdfImgsMd5Map[md5Str] = pdfimg
-- 
2.43.0


From 2bb275c679be3a789dc7e4bd95dc6edfc4c6b909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:19 +0000
Subject: [PATCH 03/31] fix: opening a pdf starts afresh and failing to open
 one changes nothing

---
 pdft.go | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/pdft.go b/pdft.go
index 64419d0..3e9b8d6 100644
--- a/pdft.go
+++ b/pdft.go
@@ -32,6 +32,9 @@ var ErrNoDesiredPageToCopy = errors.New("no desired page to copy")
 // No Contents property in this object
 var ErrNoContentsProperty = errors.New("no Contents property in this object")
 
+// ErrNotOpened no pdf has been opened
+var ErrNotOpened = errors.New("no pdf has been opened")
+
 // Left left
 const Left = gopdf.Left //001000
 // Top top
@@ -99,21 +102,32 @@ func (i *PDFt) Open(filepath string) error {
 
 // OpenFrom open pdf from io.Reader
 func (i *PDFt) OpenFrom(r io.Reader) error {
-	//init
-	i.fontDatas = make(map[string]*PDFFontData)
-	i.curr.lineWidth = 1.0
-	i.pdfImgsMd5Map = make(map[string]*PDFImageData)
 	//open
-	err := PDFParse(r, &i.pdf)
+	var pdf PDFData
+	err := PDFParse(r, &pdf)
 	if err != nil {
 		return err
 	}
+	//init
+	if i.isOpened() {
+		i.pdfProtection = nil
+	}
+	i.pdf = pdf
+	i.fontDatas = make(map[string]*PDFFontData)
+	i.pdfImgs = nil
+	i.pdfImgsMd5Map = make(map[string]*PDFImageData)
+	i.contenters = nil
+	i.curr = current{}
 
 	i.ShowCellBorder(false)
 
 	return nil
 }
 
+func (i *PDFt) isOpened() bool {
+	return i.pdf.Len() > 0
+}
+
 // DuplicatePageAfter ...
 func (i *PDFt) DuplicatePageAfter(targetPageNumber, position int) error {
 
@@ -475,6 +489,9 @@ func (i *PDFt) InsertImgWithCache(img []byte, pageNum int, x float64, y float64,
 		}
 
 		i.pdfImgs = append(i.pdfImgs, pdfimg)
+		if i.pdfImgsMd5Map == nil {
+			i.pdfImgsMd5Map = make(map[string]*PDFImageData)
+		}
 		i.pdfImgsMd5Map[md5Str] = pdfimg
 	}
 	var ct contentImgBase64
@@ -508,6 +525,9 @@ func (i *PDFt) AddFont(name string, ttfpath string) error {
 		return err
 	}
 
+	if i.fontDatas == nil {
+		i.fontDatas = make(map[string]*PDFFontData)
+	}
 	i.fontDatas[name] = fontData
 	return nil
 }
@@ -523,6 +543,9 @@ func (i *PDFt) AddFontFrom(name string, reader io.Reader) error {
 		return err
 	}
 
+	if i.fontDatas == nil {
+		i.fontDatas = make(map[string]*PDFFontData)
+	}
 	i.fontDatas[name] = fontData
 	return nil
 }
@@ -595,6 +618,9 @@ func (i *PDFt) Save(filepath string) error {
 // SaveTo save pdf to io.Writer
 func (i *PDFt) SaveTo(w io.Writer) error {
 
+	if !i.isOpened() {
+		return ErrNotOpened
+	}
 	newpdf, lastID, err := i.build()
 	if err != nil {
 		return err
-- 
2.43.0


From 370f9a72c352050ef508944c4ebc24cebbce7bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:11 +0000
Subject: [PATCH 04/31] fix: read dictionaries token by token and streams by
 their length

Strings, names and comments in dictionaries, white space, and endobj or
stream in the data of a stream were misread, and cyclic or broken page
trees crashed.
---
 pdf_data.go                | 116 +++++++++++++------
 pdf_obj_data.go            |  66 +++++++++--
 pdf_obj_properties_data.go |  34 ++++++
 pdf_obj_property_data.go   | 141 ++++++-----------------
 pdf_scan.go                | 224 +++++++++++++++++++++++++++++++++++++
 5 files changed, 433 insertions(+), 148 deletions(-)
 create mode 100644 pdf_scan.go

diff --git a/pdf_data.go b/pdf_data.go
index e0339ca..6f46868 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -88,7 +88,7 @@ func (p *PDFData) getPageCrawl(objID int, path ...string) (*crawl, error) {
 	}
 	for len(checkedQueue) > 0 {
 		key := checkedQueue[0]
-		if s := cw.results[key].String(); strings.Contains(s, "/Pages") && strings.Contains(s, "/Parent") {
+		if s := cw.results[key].String(); strings.Contains(s, "/Kids") && strings.Contains(s, "/Parent") {
 			var subCw crawl
 			subCw.set(p, key, path...)
 			subCw.run()
@@ -104,44 +104,94 @@ func (p *PDFData) getPageCrawl(objID int, path ...string) (*crawl, error) {
 	return &cw, nil
 }
 
-// getPageObjIDs get page obj IDs
-func (p *PDFData) getPageObjIDs() ([]int, error) {
-	results := []int{}
-	rootProps, _ := p.getObjByID(p.trailer.rootObjID).readProperties()
-	rootPagesID, _, _ := rootProps.getPropByKey("Pages").asDictionary()
-	objProps := map[int]*PDFObjPropertiesData{} // cache props
-	getObjProps := func(id int) *PDFObjPropertiesData {
-		if v, ok := objProps[id]; ok {
-			return v
-		}
-		if data, err := p.getObjByID(id).readProperties(); err == nil {
-			objProps[id] = data
-			return objProps[id]
-		}
-		return nil
-	}
-	getKids := func(id int) []int {
-		if props := getObjProps(id); props != nil {
-			if pages, kid := props.getPropByKey("Pages"), props.getPropByKey("Kids"); pages != nil && kid != nil {
-				kidIDs, _, _ := kid.asDictionaryArr()
-				return kidIDs
-			}
+// resolve follows references in the raw value of a property
+func (p *PDFData) resolve(raw string) string {
+	for n := 0; n < 32; n++ {
+		objID, _, err := readObjIDFromDictionary(raw)
+		if err != nil {
+			return raw
 		}
-		return nil
+		obj := p.getObjByID(objID)
+		if obj == nil {
+			return "null"
+		}
+		raw = strings.TrimSpace(string(obj.data))
 	}
-	isPage := func(id int) bool {
-		if props := getObjProps(id); props != nil {
-			return props.getPropByKey("Page") != nil
+	return "null"
+}
+
+// props read all properties of obj
+func (p *PDFData) props(objID int) (*PDFObjPropertiesData, error) {
+	obj := p.getObjByID(objID)
+	if obj == nil {
+		return nil, ErrorObjectIDNotFound
+	}
+	return obj.readProperties()
+}
+
+// rootPagesID obj ID of the root of page tree
+func (p *PDFData) rootPagesID() (int, error) {
+	props, err := p.props(p.trailer.rootObjID)
+	if err != nil {
+		return 0, err
+	}
+	prop := props.getPropByKey("Pages")
+	if prop == nil {
+		return 0, errors.New("/Pages not found")
+	}
+	pagesID, _, err := prop.asDictionary()
+	return pagesID, err
+}
+
+// pageAttr find attribute of page, it may be inherited from an ancestor.
+// Return obj ID of the owner and the raw value of attribute.
+func (p *PDFData) pageAttr(pageID int, key string) (int, string, bool) {
+	visited := make(map[int]bool)
+	for id := pageID; !visited[id]; {
+		visited[id] = true
+		props, err := p.props(id)
+		if err != nil {
+			break
+		}
+		if prop := props.getPropByKey(key); prop != nil && p.resolve(prop.rawVal) != "null" {
+			return id, prop.rawVal, true
 		}
-		return false
+		parent := props.getPropByKey("Parent")
+		if parent == nil {
+			break
+		}
+		id, _, err = parent.asDictionary()
+		if err != nil {
+			break
+		}
+	}
+	return 0, "", false
+}
+
+// getPageObjIDs get page obj IDs
+func (p *PDFData) getPageObjIDs() ([]int, error) {
+	results := []int{}
+	rootPagesID, err := p.rootPagesID()
+	if err != nil {
+		return nil, err
 	}
+	visited := make(map[int]bool)
 	var visit func(id int) // Preorder Traversal, supporting for page nesting
 	visit = func(id int) {
-		if kids := getKids(id); kids != nil {
-			for _, kid := range kids {
+		props, err := p.props(id)
+		if err != nil {
+			return
+		}
+		if kids := props.getPropByKey("Kids"); kids != nil && props.isType("Pages") {
+			if visited[id] {
+				return
+			}
+			visited[id] = true
+			kidIDs, _, _ := readObjIDFromDictionaryArr(p.resolve(kids.rawVal))
+			for _, kid := range kidIDs {
 				visit(kid)
 			}
-		} else if isPage(id) {
+		} else if props.isType("Page") {
 			results = append(results, id)
 		}
 	}
@@ -470,11 +520,11 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 
 			data := &p.getObjByID(contentsObjID).data
 			zip := true
-			propContentsObj, err := readProperty(data, "FlateDecode")
+			propFilter, err := readProperty(data, "Filter")
 			if err != nil {
 				return err
 			}
-			if propContentsObj == nil {
+			if propFilter == nil || propFilter.rawVal != "/FlateDecode" {
 				zip = false
 			}
 
diff --git a/pdf_obj_data.go b/pdf_obj_data.go
index 719a34a..8bf9e93 100644
--- a/pdf_obj_data.go
+++ b/pdf_obj_data.go
@@ -16,23 +16,30 @@ type PDFObjData struct {
 
 func (p *PDFObjData) parse(raw *[]byte, stratoffset int) error {
 
+	if stratoffset < 0 || stratoffset > len(*raw) {
+		return errors.New("bad obj offset")
+	}
+
 	tmp := (*raw)[stratoffset:]
-	endObjIndex := regexpEndObj.FindAllIndex(tmp, 1)
-	if len(endObjIndex) <= 0 {
+	endObjIndex := regexpEndObj.FindIndex(tmp)
+	if endObjIndex == nil {
 		return errors.New("bad endobj")
 	}
-	endObjOffsetBefore := endObjIndex[0][0] + stratoffset
 
-	tmp = (*raw)[stratoffset:endObjOffsetBefore]
-	startObjIndex := regexpStartObj.FindAllIndex(tmp, 1)
-	if len(startObjIndex) <= 0 {
+	startObjIndex := regexpStartObj.FindIndex(tmp[:endObjIndex[0]])
+	if startObjIndex == nil {
 		return errors.New("bad start obj")
 	}
 
-	startObjOffsetAfter := startObjIndex[0][1]
-	startObjOffset := startObjIndex[0][0]
-	startObjLine := tmp[startObjOffset:startObjOffsetAfter]
-	data := tmp[startObjOffsetAfter:]
+	startObjLine := tmp[startObjIndex[0]:startObjIndex[1]]
+	tmp = tmp[startObjIndex[1]:]
+	//endobj in the data of a stream is not the end of the object
+	streamOffset := endOfStream(tmp)
+	endObjIndex = regexpEndObj.FindIndex(tmp[streamOffset:])
+	if endObjIndex == nil {
+		return errors.New("bad endobj")
+	}
+	data := tmp[:streamOffset+endObjIndex[0]]
 	objID, err := objIDFromStartObjLine(string(startObjLine))
 	if err != nil {
 		return err
@@ -44,6 +51,20 @@ func (p *PDFObjData) parse(raw *[]byte, stratoffset int) error {
 	return nil
 }
 
+// endOfStream returns the index after the data of the stream raw starts with, 0 if it does not start with a stream
+func endOfStream(raw []byte) int {
+	var props PDFObjPropertiesData
+	end, err := readPropertiesEnd(raw, &props)
+	if err != nil {
+		return 0
+	}
+	start := scanStream(raw, end)
+	if start == -1 {
+		return 0
+	}
+	return streamEnd(raw, start, props.streamLength(nil))
+}
+
 // ReadProperties read all obj Properties
 func (p *PDFObjData) readProperties() (*PDFObjPropertiesData, error) {
 	var props PDFObjPropertiesData
@@ -58,12 +79,35 @@ func (p *PDFObjData) setProperties(props *PDFObjPropertiesData) {
 	var data bytes.Buffer
 	data.WriteString("<<\n")
 	for _, prop := range *props {
-		data.WriteString("/" + prop.key + " " + prop.rawVal)
+		data.WriteString("/" + prop.key + " " + prop.rawVal + "\n")
 	}
 	data.WriteString(">>\n")
 	p.data = data.Bytes()
 }
 
+// streamEnd returns the index after the data of the stream starting at start.
+// length is the stream's /Length, or -1 if it is not known.
+func streamEnd(data []byte, start int, length int) int {
+	endstream := []byte("endstream")
+	if length >= 0 && length <= len(data)-start {
+		rest := bytes.TrimLeft(data[start+length:], "\r\n\t\f\x00 ")
+		if bytes.HasPrefix(rest, endstream) {
+			return start + length
+		}
+	}
+	index := bytes.Index(data[start:], endstream)
+	if index == -1 {
+		return len(data)
+	}
+	body := data[start : start+index]
+	if bytes.HasSuffix(body, []byte("\r\n")) {
+		return start + index - 2
+	} else if bytes.HasSuffix(body, []byte("\n")) || bytes.HasSuffix(body, []byte("\r")) {
+		return start + index - 1
+	}
+	return start + index
+}
+
 func (p *PDFObjData) encrypt(protection *gopdf.PDFProtection) error {
 
 	stream := []byte("stream")
diff --git a/pdf_obj_properties_data.go b/pdf_obj_properties_data.go
index 95ec842..88974f2 100644
--- a/pdf_obj_properties_data.go
+++ b/pdf_obj_properties_data.go
@@ -1,5 +1,7 @@
 package pdft
 
+import "strconv"
+
 // PDFObjPropertiesData array of PDFObjPropertyData
 type PDFObjPropertiesData []PDFObjPropertyData
 
@@ -23,3 +25,35 @@ func (p *PDFObjPropertiesData) getPropByKey(key string) *PDFObjPropertyData {
 func (p *PDFObjPropertiesData) at(i int) *PDFObjPropertyData {
 	return &(*p)[i]
 }
+
+// isType check /Type
+func (p *PDFObjPropertiesData) isType(name string) bool {
+	prop := p.getPropByKey("Type")
+	return prop != nil && prop.rawVal == "/"+name
+}
+
+// set set value of key
+func (p *PDFObjPropertiesData) set(key string, rawVal string) {
+	if prop := p.getPropByKey(key); prop != nil {
+		prop.setRaw(rawVal)
+		return
+	}
+	p.append(PDFObjPropertyData{key: key, rawVal: rawVal})
+}
+
+// streamLength length of stream, -1 if it is not known
+func (p *PDFObjPropertiesData) streamLength(pdf *PDFData) int {
+	prop := p.getPropByKey("Length")
+	if prop == nil {
+		return -1
+	}
+	raw := prop.rawVal
+	if pdf != nil {
+		raw = pdf.resolve(raw)
+	}
+	length, err := strconv.Atoi(raw)
+	if err != nil {
+		return -1
+	}
+	return length
+}
diff --git a/pdf_obj_property_data.go b/pdf_obj_property_data.go
index bbe0127..95461b5 100644
--- a/pdf_obj_property_data.go
+++ b/pdf_obj_property_data.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
-	"regexp"
 	"strconv"
 	"strings"
 )
@@ -14,6 +13,8 @@ const object = "object"
 const array = "array"
 const number = "number"
 
+var errBadObjProperties = errors.New("bad obj properties")
+
 // PDFObjPropertyData property of pdf obj
 type PDFObjPropertyData struct {
 	key    string
@@ -55,9 +56,9 @@ func (p *PDFObjPropertyData) valType() string {
 
 func propertyType(raw string) string {
 	raw = strings.TrimSpace(raw)
-	if len(raw) > len("<<") && raw[0:len("<<")] == "<<" {
+	if strings.HasPrefix(raw, "<<") {
 		return object
-	} else if len(raw) > len("[") && raw[0:len("[")] == "[" {
+	} else if strings.HasPrefix(raw, "[") {
 		return array
 	} else if _, err := strconv.Atoi(strings.TrimSpace(raw)); err == nil {
 		return number
@@ -76,118 +77,55 @@ func readProperty(rawObj *[]byte, key string) (*PDFObjPropertyData, error) {
 }
 
 func readProperties(rawObj *[]byte, outProps *PDFObjPropertiesData) error {
-
-	tmp0 := *rawObj
-	index := bytes.Index(*rawObj, extractStreamBytes)
-	if index != -1 { //เป็น stream
-		tmp0 = tmp0[0:index]
-	}
-	startObjInx := strings.Index(string(tmp0), "<<")
-	endObjInx := strings.LastIndex(string(tmp0), ">>")
-	if startObjInx > endObjInx || startObjInx == -1 || endObjInx == -1 {
-		return errors.New("bad obj properties")
-	}
-
-	//fmt.Printf("\n\n%s\n\n%d\n", string(*rawObj), endObjInx)
-
-	var regexpSlash = regexp.MustCompile("[\\r\\n\\t ]+\\/")
-	var regexpOpenB = regexp.MustCompile("[\\r\\n\\t ]+\\[")
-	var regexpCloseB = regexp.MustCompile("[\\r\\n\\t ]+\\]")
-	var regexpOpen = regexp.MustCompile("[\\r\\n\\t ]+\\<\\<")
-	var regexpClose = regexp.MustCompile("[\\r\\n\\t ]+\\>\\>")
-	var regexpLine = regexp.MustCompile("[\\r\\n\\t ]+")
-
-	tmp := strings.TrimSpace(string((*rawObj)[startObjInx+len("<<") : endObjInx]))
-	tmp = regexpLine.ReplaceAllString(tmp, " ")
-	tmp = regexpSlash.ReplaceAllString(tmp, "/")
-	tmp = regexpOpenB.ReplaceAllString(tmp, "[")
-	tmp = regexpCloseB.ReplaceAllString(tmp, "]")
-	tmp = regexpOpen.ReplaceAllString(tmp, "<<")
-	tmp = regexpClose.ReplaceAllString(tmp, ">>")
-
-	var pp parseProps
-
-	pp.set(tmp, outProps)
-	return nil
-}
-
-type parseProps struct {
-	str        string
-	max        int
-	propsIndex int
-	props      *PDFObjPropertiesData
-}
-
-func (p *parseProps) set(str string, props *PDFObjPropertiesData) {
-	p.str = str
-	p.max = len(str)
-	p.propsIndex = -1
-	p.props = props
-	p.loop(0, "")
+	_, err := readPropertiesEnd(*rawObj, outProps)
+	return err
 }
 
-func (p *parseProps) loop(i int, status string) (int, string) {
-	count01 := 0
-	count02 := 0
-	for i < p.max {
-		r := string(p.str[i])
-		if status == "" && r == "/" {
-			p.propsIndex++
-			p.props.append(PDFObjPropertyData{})
-			i, status = p.loop(i+1, "key")
-		} else if status == "key" {
-			if r == " " {
-				i, status = p.loop(i+1, "val")
-			} else if r == "<" || r == "[" {
-				i, status = p.loop(i, "val")
-			} else if r == "/" {
-				return i - 1, ""
-			} else {
-				p.props.at(p.propsIndex).key += r
-			}
-		} else if status == "val" {
-
-			if r == "<" {
-				count01++
-			} else if r == "[" {
-				count02++
-			} else if r == ">" {
-				count01--
-			} else if r == "]" {
-				count02--
-			}
-
-			if (r == "]" || r == ">") && (count01 == 0 && count02 == 0) {
-				p.props.at(p.propsIndex).rawVal += r
-				return i, ""
-			} else if r == "/" && (count01 == 0 && count02 == 0) {
-				return i - 1, ""
-			}
-			p.props.at(p.propsIndex).rawVal += r
-
+// readPropertiesEnd read properties of dictionary, return index after the dictionary
+func readPropertiesEnd(raw []byte, outProps *PDFObjPropertiesData) (int, error) {
+	i := scanSpace(raw, 0)
+	if !bytes.HasPrefix(raw[i:], []byte("<<")) {
+		return 0, errBadObjProperties
+	}
+	i = scanSpace(raw, i+len("<<"))
+	for !bytes.HasPrefix(raw[i:], []byte(">>")) {
+		if i >= len(raw) || raw[i] != '/' {
+			return 0, errBadObjProperties
 		}
-		i++
+		var prop PDFObjPropertyData
+		end := scanRegular(raw, i+1)
+		prop.key = string(raw[i+1 : end])
+		i = scanSpace(raw, end)
+		end = scanValue(raw, i, 0)
+		if end == -1 {
+			return 0, errBadObjProperties
+		}
+		prop.rawVal = string(raw[i:end])
+		outProps.append(prop)
+		i = scanSpace(raw, end)
 	}
-	return i, status
+	return i + len(">>"), nil
 }
 
 func readObjIDFromDictionaryArr(str string) ([]int, []int, error) {
 
 	str = strings.Replace(str, "[", "", -1)
 	str = strings.Replace(str, "]", "", -1)
-	str = strings.TrimSpace(str)
-	tokens := strings.Split(str, " ")
+	tokens := strings.Fields(str)
+	if len(tokens)%3 != 0 {
+		return nil, nil, ErrorObjectIDNotFound
+	}
 	var objIDs []int
 	var revisions []int
 
 	i := 0
 	max := len(tokens)
 	for i < max {
-		objID, err := strconv.Atoi(strings.TrimSpace(tokens[i]))
+		objID, err := strconv.Atoi(tokens[i])
 		if err != nil {
 			return nil, nil, err
 		}
-		revision, err := strconv.Atoi(strings.TrimSpace(tokens[i+1]))
+		revision, err := strconv.Atoi(tokens[i+1])
 		if err != nil {
 			return nil, nil, err
 		}
@@ -204,17 +142,12 @@ var ErrorObjectIDNotFound = errors.New("Object ID not found")
 
 func readObjIDFromDictionary(str string) (int, int, error) {
 
-	str = strings.TrimSpace(str)
-	if str == "" {
-		return 0, 0, ErrorObjectIDNotFound
-	}
-
-	tokens := strings.Split(str, " ")
-	if len(tokens) != 3 {
+	tokens := strings.Fields(str)
+	if len(tokens) != 3 || tokens[2] != "R" {
 		return 0, 0, ErrorObjectIDNotFound
 	}
 
-	id, err := strconv.Atoi(strings.TrimSpace(tokens[0]))
+	id, err := strconv.Atoi(tokens[0])
 	if err != nil {
 		return 0, 0, err
 	}
diff --git a/pdf_scan.go b/pdf_scan.go
new file mode 100644
index 0000000..3c19848
--- /dev/null
+++ b/pdf_scan.go
@@ -0,0 +1,224 @@
+package pdft
+
+import (
+	"bytes"
+	"strconv"
+	"strings"
+)
+
+// maxScanDepth limits nesting of dictionaries and arrays
+const maxScanDepth = 200
+
+func isPDFSpace(c byte) bool {
+	return c == ' ' || c == '\n' || c == '\r' || c == '\t' || c == '\f' || c == 0
+}
+
+func isPDFDelim(c byte) bool {
+	return bytes.IndexByte([]byte("()<>[]{}/%"), c) != -1
+}
+
+// scanSpace returns the index after white space and comments at i
+func scanSpace(b []byte, i int) int {
+	for i < len(b) {
+		if b[i] == '%' {
+			for i < len(b) && b[i] != '\n' && b[i] != '\r' {
+				i++
+			}
+		} else if !isPDFSpace(b[i]) {
+			break
+		} else {
+			i++
+		}
+	}
+	return i
+}
+
+// scanRegular returns the index after the regular characters at i
+func scanRegular(b []byte, i int) int {
+	for i < len(b) && !isPDFSpace(b[i]) && !isPDFDelim(b[i]) {
+		i++
+	}
+	return i
+}
+
+// scanString returns the index after the literal string at i, -1 if it is not closed
+func scanString(b []byte, i int) int {
+	depth := 0
+	for ; i < len(b); i++ {
+		switch b[i] {
+		case '\\':
+			i++
+		case '(':
+			depth++
+		case ')':
+			depth--
+			if depth == 0 {
+				return i + 1
+			}
+		}
+	}
+	return -1
+}
+
+// scanValue returns the index after the value (object) at i, -1 if there is none
+func scanValue(b []byte, i int, depth int) int {
+	if i >= len(b) || depth > maxScanDepth {
+		return -1
+	}
+	switch {
+	case b[i] == '(':
+		return scanString(b, i)
+	case bytes.HasPrefix(b[i:], []byte("<<")):
+		return scanUntil(b, i+2, []byte(">>"), depth+1)
+	case b[i] == '<':
+		end := bytes.IndexByte(b[i:], '>')
+		if end == -1 {
+			return -1
+		}
+		return i + end + 1
+	case b[i] == '[':
+		return scanUntil(b, i+1, []byte("]"), depth+1)
+	case b[i] == '/':
+		return scanRegular(b, i+1)
+	}
+	end := scanRegular(b, i)
+	if end == i {
+		return -1
+	}
+	if ref := scanReference(b, i); ref != -1 {
+		return ref
+	}
+	return end
+}
+
+func scanUntil(b []byte, i int, closing []byte, depth int) int {
+	for {
+		i = scanSpace(b, i)
+		if bytes.HasPrefix(b[i:], closing) {
+			return i + len(closing)
+		}
+		i = scanValue(b, i, depth)
+		if i == -1 {
+			return -1
+		}
+	}
+}
+
+// scanReference returns the index after the indirect reference (n g R) at i, -1 if there is none
+func scanReference(b []byte, i int) int {
+	for n := 0; n < 2; n++ {
+		end := scanRegular(b, i)
+		if end == i {
+			return -1
+		}
+		for _, c := range b[i:end] {
+			if c < '0' || c > '9' {
+				return -1
+			}
+		}
+		i = scanSpace(b, end)
+	}
+	end := scanRegular(b, i)
+	if end != i+1 || b[i] != 'R' {
+		return -1
+	}
+	return end
+}
+
+// scanStream returns the index of the first byte of stream data in an object
+// whose dictionary ends at i, -1 if the object is not a stream
+func scanStream(b []byte, i int) int {
+	i = scanSpace(b, i)
+	if !bytes.HasPrefix(b[i:], extractStreamBytes) {
+		return -1
+	}
+	i += len(extractStreamBytes)
+	if bytes.HasPrefix(b[i:], []byte("\r\n")) {
+		return i + 2
+	} else if i < len(b) && (b[i] == '\n' || b[i] == '\r') {
+		return i + 1
+	}
+	return i
+}
+
+// decodeString decodes a literal or hexadecimal string
+func decodeString(b []byte) []byte {
+	out := []byte{}
+	if b[0] == '<' {
+		var digits []byte
+		for _, c := range b[1 : len(b)-1] {
+			if !isPDFSpace(c) {
+				digits = append(digits, c)
+			}
+		}
+		if len(digits)%2 != 0 {
+			digits = append(digits, '0')
+		}
+		for i := 0; i < len(digits); i += 2 {
+			v, _ := strconv.ParseUint(string(digits[i:i+2]), 16, 8)
+			out = append(out, byte(v))
+		}
+		return out
+	}
+	b = b[1 : len(b)-1]
+	for i := 0; i < len(b); i++ {
+		c := b[i]
+		if c == '\r' { //end-of-line is read as \n
+			c = '\n'
+			if i+1 < len(b) && b[i+1] == '\n' {
+				i++
+			}
+		} else if c == '\\' && i+1 < len(b) {
+			i++
+			c = b[i]
+			switch {
+			case c == 'n':
+				c = '\n'
+			case c == 'r':
+				c = '\r'
+			case c == 't':
+				c = '\t'
+			case c == 'b':
+				c = '\b'
+			case c == 'f':
+				c = '\f'
+			case c >= '0' && c <= '7':
+				v := 0
+				n := 0
+				for ; n < 3 && i+n < len(b) && b[i+n] >= '0' && b[i+n] <= '7'; n++ {
+					v = v*8 + int(b[i+n]-'0')
+				}
+				i += n - 1
+				c = byte(v)
+			case c == '\n':
+				continue
+			case c == '\r':
+				if i+1 < len(b) && b[i+1] == '\n' {
+					i++
+				}
+				continue
+			}
+		}
+		out = append(out, c)
+	}
+	return out
+}
+
+// decodeName decodes #xx in a name
+func decodeName(name string) string {
+	if !strings.Contains(name, "#") {
+		return name
+	}
+	var out []byte
+	for i := 0; i < len(name); i++ {
+		if name[i] == '#' && i+2 < len(name) {
+			if v, err := strconv.ParseUint(name[i+1:i+3], 16, 8); err == nil {
+				out = append(out, byte(v))
+				i += 2
+				continue
+			}
+		}
+		out = append(out, name[i])
+	}
+	return string(out)
+}
-- 
2.43.0


From 828794e3d7772824e12354b569e0c337d9e64e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:15 +0000
Subject: [PATCH 05/31] fix: add fonts, images and content to a page without
 losing what it has

Resources that are inherited, shared, indirect, absent or named otherwise
than a letter and a number were lost or renamed, content streams that are
shared, filtered or in an array were damaged, the graphics state left by
the template displaced the inserted content, saving changed the document
itself, and inserted content followed the page number instead of the page.
---
 contenter.go             |   6 +
 crawl.go                 | 103 -------
 crawl_result.go          | 130 ---------
 crawl_result_font.go     |  88 ------
 crawl_result_x_object.go |  61 ----
 pdf_data.go              | 594 +++++++++++----------------------------
 pdf_parse.go             |  22 +-
 pdft.go                  |  75 ++---
 8 files changed, 216 insertions(+), 863 deletions(-)
 delete mode 100644 crawl.go
 delete mode 100644 crawl_result.go
 delete mode 100644 crawl_result_font.go
 delete mode 100644 crawl_result_x_object.go

diff --git a/contenter.go b/contenter.go
index 908d56e..c765690 100644
--- a/contenter.go
+++ b/contenter.go
@@ -7,3 +7,9 @@ type Contenter interface {
 	page() int
 	toSteram() (*bytes.Buffer, error)
 }
+
+// pageContenter is a Contenter that belongs to a page
+type pageContenter struct {
+	Contenter
+	pageObjID int //obj ID of the page, 0 if page is not found
+}
diff --git a/crawl.go b/crawl.go
deleted file mode 100644
index 4cdab91..0000000
--- a/crawl.go
+++ /dev/null
@@ -1,103 +0,0 @@
-package pdft
-
-type crawl struct {
-	//setup
-	pdf   *PDFData
-	objID int
-	paths []string
-
-	//result
-	index int
-
-	//onCrawl     funcOnCrawl
-	results map[int]*crawlResult
-}
-
-func (c *crawl) resultByObjID(id int) *crawlResult {
-	if r, ok := c.results[id]; ok {
-		return r
-	}
-	c.results[id] = new(crawlResult)
-	return c.results[id]
-}
-
-func (c *crawl) set(pdf *PDFData, objID int, p ...string) {
-
-	c.pdf = pdf
-	c.objID = objID
-	c.paths = p
-	//init
-	c.results = make(map[int]*crawlResult)
-}
-
-func (c *crawl) run() error {
-	objdata := c.pdf.getObjByID(c.objID)
-	err := c.next(&objdata.data, 0, c.objID, c.resultByObjID(c.objID))
-	return err
-}
-
-func (c *crawl) next(data *[]byte, i int, id int, cr *crawlResult) error {
-
-	lenPath := len(c.paths)
-	if lenPath <= i {
-
-		return nil
-	}
-
-	var err error
-	var props PDFObjPropertiesData
-	err = readProperties(data, &props)
-	if err != nil {
-		return err
-	}
-
-	//var cr crawlResult
-	for _, prop := range props {
-		var item crawlResultItem
-		item.key = prop.key
-		if prop.key != c.paths[i] {
-			item.setValStr(prop.rawVal)
-		} else {
-			propType := prop.valType()
-			if propType == dictionary {
-				var objID int
-				item.setValStr(prop.rawVal)
-				objID, _, err = prop.asDictionary()
-				if err != nil {
-					return err
-				}
-				objdata := c.pdf.getObjByID(objID)
-				err = c.next(&objdata.data, i+1, objID, c.resultByObjID(objID))
-				if err != nil {
-					return err
-				}
-			} else if propType == array {
-				var objIDs []int
-				item.setValStr(prop.rawVal)
-				objIDs, _, err = prop.asDictionaryArr()
-				if err != nil {
-					return err
-				}
-				for _, objID := range objIDs {
-					objdata := c.pdf.getObjByID(objID)
-					c.next(&objdata.data, i+1, objID, c.resultByObjID(objID))
-				}
-			} else if propType == object {
-				if lenPath <= i+1 {
-					item.setValStr(prop.rawVal)
-				} else {
-					var subCr crawlResult
-					item.setValCr(&subCr)
-					tmp := []byte(prop.rawVal)
-					err = c.next(&tmp, i+1, -1, &subCr)
-					if err != nil {
-						return err
-					}
-				}
-			}
-		}
-		cr.items = append(cr.items, item)
-	}
-
-	return nil
-}
diff --git a/crawl_result.go b/crawl_result.go
deleted file mode 100644
index d0d86ed..0000000
--- a/crawl_result.go
+++ /dev/null
@@ -1,130 +0,0 @@
-package pdft
-
-import (
-	"bytes"
-	"errors"
-	"fmt"
-	"strings"
-)
-
-type crawlResult struct {
-	items []crawlResultItem
-}
-
-func (c *crawlResult) String() string {
-	var buff bytes.Buffer
-	loopCrawlResultString(&buff, c)
-	return buff.String()
-}
-
-// ErrCrawlResultValOfNotFound CrawlResult Val Of Not Found
-var ErrCrawlResultValOfNotFound = errors.New("CrawlResult Val Of Not Found")
-
-func (c *crawlResult) valOf(key string) (string, error) {
-	return loopValOf(c, key)
-}
-
-func (c *crawlResult) setValOf(key string, val string) error {
-	return loopSetValOf(c, key, val)
-}
-
-func (c *crawlResult) add(key string, val string) error {
-	var item crawlResultItem
-	item.key = key
-	item.valStr = val
-	item.typeOfVal = typeOfValStr
-	//fmt.Printf("key===%s\n", key)
-	c.items = append(c.items, item)
-	return nil
-}
-
-func loopSetValOf(cr *crawlResult, key string, val string) error {
-	for i := range cr.items {
-		item := &cr.items[i]
-		if item.typeOfVal == typeOfValStr {
-			if item.key == key {
-				item.setValStr(val)
-				return nil
-			}
-		} else if item.typeOfVal == typeOfValCr {
-			v, _ := item.getValCr()
-			return loopSetValOf(v, key, val)
-		}
-	}
-	return ErrCrawlResultValOfNotFound
-}
-
-func loopValOf(cr *crawlResult, key string) (string, error) {
-	//fmt.Printf("\n#####%s\n", key)
-	for _, item := range cr.items {
-		if item.typeOfVal == typeOfValStr {
-			//fmt.Printf("key=%s\n", item.key)
-			if item.key == key {
-				v, err := item.getValStr()
-				if err != nil {
-					return "", err
-				}
-				return v, nil
-			}
-		} else if item.typeOfVal == typeOfValCr {
-			v, err := item.getValCr()
-			if err != nil {
-				return "", err
-			}
-			return loopValOf(v, key)
-		}
-	}
-	return "", ErrCrawlResultValOfNotFound
-}
-
-func loopCrawlResultString(buff *bytes.Buffer, cr *crawlResult) {
-	for _, item := range cr.items {
-		buff.WriteString(fmt.Sprintf("/%s ", item.key))
-		if item.typeOfVal == typeOfValStr {
-			if strings.TrimSpace(item.valStr) != "" {
-				buff.WriteString(fmt.Sprintf("%s\n", item.valStr))
-			}
-		} else if item.typeOfVal == typeOfValCr {
-			buff.WriteString("\n\t<<")
-			loopCrawlResultString(buff, item.valCr)
-			buff.WriteString(">>\n")
-		}
-	}
-}
-
-var typeOfValStr = "str"
-var typeOfValCr = "cr" //crawlResult
-
-type crawlResultItem struct {
-	key       string
-	typeOfVal string
-	valCr     *crawlResult
-	valStr    string
-}
-
-// ErrWrongTypeOfVal wrong type of val
-var ErrWrongTypeOfVal = errors.New("wrong type of val")
-
-func (c *crawlResultItem) getValCr() (*crawlResult, error) {
-	if c.typeOfVal != typeOfValCr {
-		return nil, ErrWrongTypeOfVal
-	}
-	return c.valCr, nil
-}
-
-func (c *crawlResultItem) getValStr() (string, error) {
-	if c.typeOfVal != typeOfValStr {
-		return "", ErrWrongTypeOfVal
-	}
-	return c.valStr, nil
-}
-
-func (c *crawlResultItem) setValStr(v string) {
-	c.typeOfVal = typeOfValStr
-	c.valStr = v
-}
-
-func (c *crawlResultItem) setValCr(v *crawlResult) {
-	c.typeOfVal = typeOfValCr
-	c.valCr = v
-}
diff --git a/crawl_result_font.go b/crawl_result_font.go
deleted file mode 100644
index 23ece59..0000000
--- a/crawl_result_font.go
+++ /dev/null
@@ -1,88 +0,0 @@
-package pdft
-
-import (
-	"bytes"
-	"fmt"
-	"strconv"
-	"strings"
-	"unicode"
-)
-
-type crawlResultFonts []crawlResultFont
-
-var ErrNoFontIndex = fmt.Errorf("no font index")
-
-// Split a font string like '/F1' or '/TT2' into the prefix and index
-func splitFont(s string) (string, int, error) {
-	prefix := ""
-	for i, r := range s {
-		if unicode.IsDigit(r) {
-			s := strings.ReplaceAll(s, "_", "")
-			val, err := strconv.Atoi(s[i:])
-			if err != nil {
-				return "", 0, err
-			}
-			return prefix, val, nil
-		}
-		prefix += string(r)
-	}
-	return "", 0, ErrNoFontIndex
-}
-
-func (c *crawlResultFonts) parse(propVal *[]byte) error {
-	var props PDFObjPropertiesData
-	err := readProperties(propVal, &props)
-	if err != nil {
-		return err
-	}
-
-	for _, prop := range props {
-		var crFont crawlResultFont
-
-		prefix, fontIndex, err := splitFont(strings.TrimSpace(prop.key))
-		if err != nil {
-			return err
-		}
-		objID, _, err := prop.asDictionary()
-		if err != nil {
-			return err
-		}
-		crFont.prefix = prefix
-		crFont.fontIndex = fontIndex
-		crFont.fontObjID = objID
-		*c = append(*c, crFont)
-	}
-	return nil
-}
-
-func (c *crawlResultFonts) String() string {
-	var buff bytes.Buffer
-	for _, f := range *c {
-		buff.WriteString(fmt.Sprintf("/%s%d %d 0 R\n", f.prefix, f.fontIndex, f.fontObjID))
-	}
-	return buff.String()
-}
-
-func (c *crawlResultFonts) append(fontIndex int, fontObjID int) {
-	var crFont crawlResultFont
-	crFont.fontIndex = fontIndex
-	crFont.fontObjID = fontObjID
-	crFont.prefix = "F"
-	*c = append(*c, crFont)
-}
-
-func (c *crawlResultFonts) maxFontIndex() int {
-	max := 0
-	for _, f := range *c {
-		if f.fontIndex > max {
-			max = f.fontIndex
-		}
-	}
-	return max
-}
-
-type crawlResultFont struct {
-	fontIndex int
-	fontObjID int
-	prefix    string
-}
diff --git a/crawl_result_x_object.go b/crawl_result_x_object.go
deleted file mode 100644
index ca895a0..0000000
--- a/crawl_result_x_object.go
+++ /dev/null
@@ -1,61 +0,0 @@
-package pdft
-
-import (
-	"bytes"
-	"fmt"
-	"regexp"
-	"strconv"
-	"strings"
-)
-
-type crawlResultXObjects []crawlResultXObject
-
-var regSplit = regexp.MustCompile("([a-z A-Z]*)([0-9]*)")
-
-func (c *crawlResultXObjects) parse(propVal *[]byte) error {
-	var props PDFObjPropertiesData
-	err := readProperties(propVal, &props)
-	if err != nil {
-		return err
-	}
-
-	for _, prop := range props {
-		//fmt.Printf("\t %#v\n", prop)
-		tokens := regSplit.FindStringSubmatch(prop.key)
-		if len(tokens) < 3 {
-			continue
-		}
-
-		var xObj crawlResultXObject
-		xObj.xObjChar = tokens[1]
-		xObjIndex, err := strconv.Atoi(strings.TrimSpace(tokens[2]))
-		if err != nil {
-			return err
-		}
-		xObj.xObjIndex = xObjIndex
-
-		xObjObjID, _, err := readObjIDFromDictionary(prop.rawVal)
-		if err != nil {
-			return err
-		}
-
-		xObj.xObjObjID = xObjObjID
-		*c = append(*c, xObj)
-	}
-
-	return nil
-}
-
-func (c *crawlResultXObjects) String() string {
-	var buff bytes.Buffer
-	for _, xObj := range *c {
-		buff.WriteString(fmt.Sprintf("/%s%d %d 0 R", xObj.xObjChar, xObj.xObjIndex, xObj.xObjObjID))
-	}
-	return buff.String()
-}
-
-type crawlResultXObject struct {
-	xObjChar  string
-	xObjIndex int
-	xObjObjID int
-}
diff --git a/pdf_data.go b/pdf_data.go
index 6f46868..21551cb 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -2,10 +2,8 @@ package pdft
 
 import (
 	"bytes"
-	"compress/zlib"
 	"errors"
 	"fmt"
-	"io"
 	"strconv"
 	"strings"
 )
@@ -17,7 +15,8 @@ type PDFData struct {
 	objIDs    []int
 	objs      []PDFObjData
 	pagesObj  *PDFObjData
-	pageSizes map[int][]float64 //key is page objID
+	pageIDs   []int
+	pageSizes map[int][]float64 //key is page index
 }
 
 // TrailerData trailer
@@ -35,6 +34,14 @@ func (p *PDFData) put(pdfobj PDFObjData) {
 	p.objs = append(p.objs, pdfobj)
 }
 
+// clone copies PDFData, changing the copy's objs does not change the original
+func (p *PDFData) clone() PDFData {
+	newpdf := *p
+	newpdf.objIDs = append([]int(nil), p.objIDs...)
+	newpdf.objs = append([]PDFObjData(nil), p.objs...)
+	return newpdf
+}
+
 func (p *PDFData) putNewObject(pdfobj PDFObjData) int {
 	newObjID := p.maxID() + 1
 	pdfobj.objID = newObjID
@@ -55,55 +62,14 @@ func (p *PDFData) removeObjByID(objID int) error {
 
 // GetObjByID get obj by objid
 func (p *PDFData) getObjByID(objID int) *PDFObjData {
-	// if pdf exists annotations, it will have multiple same objIDs. So, need find the right one.
-	indexArr := []int{}
 	for i, id := range p.objIDs {
 		if id == objID {
-			indexArr = append(indexArr, i)
-		}
-	}
-	if len(indexArr) == 1 {
-		return &p.objs[indexArr[0]]
-	} else if len(indexArr) > 1 {
-		result := &p.objs[indexArr[0]]
-		for _, i := range indexArr {
-			if props, err := (&p.objs[i]).readProperties(); err == nil && props.getPropByKey("Annots") != nil {
-				result = &p.objs[i]
-			}
+			return &p.objs[i]
 		}
-		return result
 	}
 	return nil
 }
 
-// getPageCrawl use crawl, supporting for page nesting
-func (p *PDFData) getPageCrawl(objID int, path ...string) (*crawl, error) {
-	var cw crawl
-	pagePath := append([]string{"Pages"}, path...)
-	cw.set(p, objID, pagePath...)
-	cw.run()
-	checkedQueue := []int{}
-	for k := range cw.results {
-		checkedQueue = append(checkedQueue, k)
-	}
-	for len(checkedQueue) > 0 {
-		key := checkedQueue[0]
-		if s := cw.results[key].String(); strings.Contains(s, "/Kids") && strings.Contains(s, "/Parent") {
-			var subCw crawl
-			subCw.set(p, key, path...)
-			subCw.run()
-			for k, v := range subCw.results {
-				cw.results[k] = v
-				if _, ok := cw.results[k]; !ok {
-					checkedQueue = append(checkedQueue, k)
-				}
-			}
-		}
-		checkedQueue = checkedQueue[1:]
-	}
-	return &cw, nil
-}
-
 // resolve follows references in the raw value of a property
 func (p *PDFData) resolve(raw string) string {
 	for n := 0; n < 32; n++ {
@@ -209,461 +175,217 @@ func (p *PDFData) maxID() int {
 	return max
 }
 
-func (p *PDFData) injectImgsToPDF(pdfImgs []*PDFImageData) error {
-	var err error
-	isEmbedResources := false
-	rootOfXObjectID := -1
-	resourcesContent := ""
-	cwRes, _ := p.getPageCrawl(p.trailer.rootObjID, "Kids", "Resources")
-	//if err != nil {
-	//	return err
-	//}
-	foundRes := false
-	for resID, r := range cwRes.results {
-		resources, err := r.valOf("Resources")
-		if err == ErrCrawlResultValOfNotFound {
-			continue
-		} else if err != nil {
+// addResources add entries to a category (/Font, /XObject) of the resources of all pages
+func (p *PDFData) addResources(category string, entries string) error {
+	if entries == "" {
+		return nil
+	}
+	pageIDs, err := p.getPageObjIDs()
+	if err != nil {
+		return err
+	}
+	done := make(map[int]bool) //obj that already have the entries
+	for _, pageID := range pageIDs {
+		ownerID, _, ok := p.pageAttr(pageID, "Resources")
+		if !ok {
+			ownerID = pageID
+		}
+		if err = p.addEntries(ownerID, []string{"Resources", category}, entries, done); err != nil {
 			return err
-		} else {
-			foundRes = true
-			resourcesID, _, err := readObjIDFromDictionary(resources)
-			if err == ErrorObjectIDNotFound {
-				rootOfXObjectID = resID
-				resourcesContent = resources
-				isEmbedResources = true
-			} else if err != nil {
-				return err
-			} else {
-				rootOfXObjectID = resourcesID
-				data := p.getObjByID(resourcesID)
-				if data != nil {
-					resourcesContent = string(data.data)
-				}
-				isEmbedResources = false
-			}
-			break
 		}
 	}
+	return nil
+}
 
-	if !foundRes {
-		return errors.New("not found /Resources in /Type/Pages")
+func (p *PDFData) addEntries(objID int, keys []string, entries string, done map[int]bool) error {
+	if done[objID] {
+		return nil
 	}
-
-	var cw crawl
-	//cw.set(p, p.trailer.rootObjID, "Pages", "Kids", "Resources", "XObject")
-	cw.set(p, rootOfXObjectID, "XObject")
-	err = cw.run()
+	done[objID] = true
+	data, err := p.addEntriesToDictionary(p.getObjByID(objID).data, keys, entries, done)
 	if err != nil {
 		return err
 	}
+	p.getObjByID(objID).data = data
+	return nil
+}
 
-	found := false
-	xObjectVals := make(map[int]string)
-	for objID, r := range cw.results {
-		xobject, err := r.valOf("XObject")
-		if err == ErrCrawlResultValOfNotFound {
-			continue
-		} else if err != nil {
-			return err
-		} else {
-			xObjectVals[objID] = xobject
-			found = true
-		}
+// addEntriesToDictionary add entries to the dictionary found in raw by following keys
+func (p *PDFData) addEntriesToDictionary(raw []byte, keys []string, entries string, done map[int]bool) ([]byte, error) {
+	var obj PDFObjData
+	var props PDFObjPropertiesData
+	end, err := readPropertiesEnd(raw, &props)
+	if err != nil {
+		return nil, err
 	}
-
-	if !found { //ถ้ายังไม่เจออีก
-		cw2, _ := p.getPageCrawl(p.trailer.rootObjID, "Kids", "Resources", "XObject")
-		cw = *cw2
-		if err != nil {
-			return err
-		}
-		for objID, r := range cw.results {
-			xobject, err := r.valOf("XObject")
-			if err == ErrCrawlResultValOfNotFound {
-				continue
-			} else if err != nil {
-				return err
-			} else {
-				xObjectVals[objID] = xobject
-				found = true
-			}
-		}
+	if len(keys) <= 0 {
+		end -= len(">>")
+		return []byte(string(raw[:end]) + "\n" + entries + ">>"), nil
 	}
-
-	var xobjs crawlResultXObjects
-	var xObjIndex int
-	xObjChar := "I"
-	if found {
-		for _, xObjectVal := range xObjectVals {
-			propVal := []byte(xObjectVal)
-			xobjs.parse(&propVal)
-			if len(xobjs) > 0 {
-				xObjChar = xobjs[len(xobjs)-1].xObjChar
-				if xobjs[len(xobjs)-1].xObjIndex > xObjIndex {
-					xObjIndex = xobjs[len(xobjs)-1].xObjIndex
-				}
-			}
-		}
+	prop := props.getPropByKey(keys[0])
+	if prop == nil || p.resolve(prop.rawVal) == "null" {
+		props.set(keys[0], "<<>>")
+		prop = props.getPropByKey(keys[0])
 	}
-
-	i := 0
-	max := len(pdfImgs)
-	for i < max {
-		objID := pdfImgs[i].objID
-		pdfImgs[i].xObjChar = xObjChar
-		pdfImgs[i].xObjIndex = xObjIndex + i + 1
-
-		var xobj crawlResultXObject
-		xobj.xObjChar = xObjChar
-		xobj.xObjIndex = xObjIndex + i + 1
-		xobj.xObjObjID = objID
-		xobjs = append(xobjs, xobj)
-		i++
+	if objID, _, err := prop.asDictionary(); err == nil {
+		return raw, p.addEntries(objID, keys[1:], entries, done)
 	}
+	val, err := p.addEntriesToDictionary([]byte(prop.rawVal), keys[1:], entries, done)
+	if err != nil {
+		return nil, err
+	}
+	prop.setRaw(string(val))
+	obj.setProperties(&props)
+	return obj.data, nil
+}
 
-	objMustReplaces := make(map[int]string)
-	if found {
-		for objID, r := range cw.results {
-			var oldXObjectStr string
-			oldXObjectStr, err = r.valOf("XObject")
-			if err == ErrCrawlResultValOfNotFound {
-				continue
-			} else if err != nil {
-				return err
-			}
-			var newXObjs crawlResultXObjects
-			bOldXObjectStr := []byte(oldXObjectStr)
-			newXObjs.parse(&bOldXObjectStr)
-			for _, xobj := range xobjs { // pick new item from xobjs into newXObjs
-				isExisted := false
-				for _, existedXObj := range newXObjs {
-					if existedXObj.xObjChar == xobj.xObjChar && existedXObj.xObjIndex == xobj.xObjIndex { // Avoid conflict of same xObjIndex when editing emerged pdf
-						isExisted = true
-						break
-					}
-				}
-				if !isExisted {
-					newXObjs = append(newXObjs, xobj)
-				}
-			}
-			r.setValOf("XObject", fmt.Sprintf("<<%s>>\n", newXObjs.String()))
-			objMustReplaces[objID] = r.String()
+// maxResourceIndex find max index of the names (prefix followed by index) in a category (/Font, /XObject) of the resources of all pages
+func (p *PDFData) maxResourceIndex(category string, prefix string) (int, error) {
+	pageIDs, err := p.getPageObjIDs()
+	if err != nil {
+		return 0, err
+	}
+	max := 0
+	for _, pageID := range pageIDs {
+		_, raw, ok := p.pageAttr(pageID, "Resources")
+		if !ok {
+			continue
 		}
-	} else {
-		if isEmbedResources {
-			var cw01 crawl
-			cw01.set(p, p.trailer.rootObjID, "Pages", "Kids", "Resources")
-			err = cw01.run()
-			if err != nil {
-				return err
+		for _, key := range []string{category, ""} {
+			var props PDFObjPropertiesData
+			data := []byte(p.resolve(raw))
+			if err = readProperties(&data, &props); err != nil {
+				return 0, err
 			}
-			for objID, r := range cw01.results {
-				res, err := r.valOf("Resources")
-				if err == ErrCrawlResultValOfNotFound {
-					continue
-				} else if err != nil {
-					return err
-				} else {
-					res = strings.TrimSpace(res)
-					res = fmt.Sprintf("%s /XObject <<%s>>", res[2:len(res)-2], xobjs.String())
-					r.setValOf("Resources", fmt.Sprintf("<<%s>>\n", res))
-					objMustReplaces[objID] = r.String()
+			if key != "" {
+				prop := props.getPropByKey(key)
+				if prop == nil || p.resolve(prop.rawVal) == "null" {
+					break
 				}
+				raw = prop.rawVal
+				continue
 			}
-		} else {
-			for objID, r := range cw.results {
-				res := strings.TrimSpace(resourcesContent)
-				res = fmt.Sprintf("<<%s>>\n", xobjs.String())
-				r.add("XObject", res)
-				objMustReplaces[objID] = r.String()
-				//fmt.Printf("%s\n", r.String())
+			for _, prop := range props {
+				name := decodeName(prop.key)
+				index, err := strconv.Atoi(strings.TrimPrefix(name, prefix))
+				if err == nil && strings.HasPrefix(name, prefix) && index > max {
+					max = index
+				}
 			}
 		}
 	}
-
-	for objID := range objMustReplaces {
-		p.getObjByID(objID).data = []byte("<<\n" + objMustReplaces[objID] + ">>\n")
-	}
-
-	return nil
+	return max, nil
 }
 
-func (p *PDFData) injectFontsToPDF(fontDatas map[string]*PDFFontData) error {
-	var err error
-	cw, _ := p.getPageCrawl(p.trailer.rootObjID, "Kids", "Resources", "Font")
+func (p *PDFData) injectImgsToPDF(pdfImgs []*PDFImageData) error {
+	xObjChar := "I"
+	xObjIndex, err := p.maxResourceIndex("XObject", xObjChar)
 	if err != nil {
 		return err
 	}
 
-	maxFontIndex, err := findMaxFontIndex(cw, p)
+	var entries strings.Builder
+	for _, pdfImg := range pdfImgs {
+		xObjIndex++
+		pdfImg.xObjChar = xObjChar
+		pdfImg.xObjIndex = xObjIndex
+		entries.WriteString(fmt.Sprintf("/%s%d %d 0 R\n", xObjChar, xObjIndex, pdfImg.objID))
+	}
+	return p.addResources("XObject", entries.String())
+}
+
+func (p *PDFData) injectFontsToPDF(fontDatas map[string]*PDFFontData) error {
+	fontIndex, err := p.maxResourceIndex("Font", "F")
 	if err != nil {
 		return err
 	}
 
-	var newCrFonts crawlResultFonts //font ใหม่ที่จะยัดเข้าไป
+	var entries strings.Builder //font ใหม่ที่จะยัดเข้าไป
 	for _, pdffontdata := range fontDatas {
-		maxFontIndex++
-		newCrFonts.append(maxFontIndex, pdffontdata.fontID)
-		pdffontdata.setFontIndex(maxFontIndex)
-	}
-
-	objMustReplaces := make(map[int]string)
-	//หา obj ที่ต้องยัด font ใหม่ลงไป
-	for objID, r := range cw.results { //วน แต่ละ ojb
-		fontPropVal, err := r.valOf("Font")
-		if err == ErrCrawlResultValOfNotFound {
-			continue
-		} else if err != nil {
-			return err
-		}
-
-		fontPropValType := propertyType(fontPropVal)
-		if fontPropValType == object {
-			var crFonts crawlResultFonts
-			tmp := []byte(fontPropVal)
-			err = crFonts.parse(&tmp)
-			if err != nil {
-				return err
-			}
-			crFonts = append(crFonts, newCrFonts...)
-			r.setValOf("Font", "<<\n"+crFonts.String()+">>\n")
-			objMustReplaces[objID] = r.String()
-		} else if fontPropValType == dictionary {
-			var fontObjID int
-			fontObjID, _, err = readObjIDFromDictionary(fontPropVal)
-			if err != nil {
-				return err
-			}
-			var crFonts crawlResultFonts
-			fontObj := p.getObjByID(fontObjID)
-			err = crFonts.parse(&fontObj.data)
-			if err != nil {
-				return err
-			}
-			crFonts = append(crFonts, newCrFonts...)
-			objMustReplaces[fontObjID] = crFonts.String()
-		}
+		fontIndex++
+		pdffontdata.setFontIndex(fontIndex)
+		entries.WriteString(fmt.Sprintf("/F%d %d 0 R\n", fontIndex, pdffontdata.fontID))
 	}
-
-	for objID := range objMustReplaces {
-		p.getObjByID(objID).data = []byte("<<\n" + objMustReplaces[objID] + ">>\n")
-	}
-
-	return nil
+	return p.addResources("Font", entries.String())
 }
 
-func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
+func (p *PDFData) injectContentToPDF(contenters []pageContenter) error {
 
-	var err error
+	pageObjIDs, err := p.getPageObjIDs()
+	if err != nil {
+		return err
+	}
 	pageBuffs := make(map[int]*bytes.Buffer)
-	for _, ctn := range *contenters {
-		pageNum := ctn.page()
-		if _, ok := pageBuffs[pageNum]; !ok {
-			pageBuffs[pageNum] = new(bytes.Buffer)
+	for _, ctn := range contenters {
+		pageObjID := ctn.pageObjID
+		if pageObjID == 0 { //page not found when inserting
+			pageIndex := ctn.page() - 1
+			if pageIndex < 0 || pageIndex >= len(pageObjIDs) {
+				continue
+			}
+			pageObjID = pageObjIDs[pageIndex]
 		}
-		var buff *bytes.Buffer
-		buff, err = ctn.toSteram()
+		buff, err := ctn.toSteram()
 		if err != nil {
 			return err
 		}
-
-		//fmt.Printf("buff=%s\n\n", buff.String())
-
-		_, err = buff.WriteTo(pageBuffs[pageNum])
+		if _, ok := pageBuffs[pageObjID]; !ok {
+			pageBuffs[pageObjID] = new(bytes.Buffer)
+		}
+		_, err = buff.WriteTo(pageBuffs[pageObjID])
 		if err != nil {
 			return err
 		}
 	}
-	pageObjIDs, _ := p.getPageObjIDs()
-	objMustReplaces := make(map[int]string)
-	for pageIndex, pageObjID := range pageObjIDs {
 
-		var cw2Content crawl
-		cw2Content.set(p, pageObjID, "Contents")
-		err = cw2Content.run()
+	saveStateID := 0
+	for _, pageObjID := range pageObjIDs {
+
+		buff, ok := pageBuffs[pageObjID]
+		if !ok {
+			continue
+		}
+		delete(pageBuffs, pageObjID)
+
+		props, err := p.props(pageObjID)
 		if err != nil {
 			return err
 		}
 
-		for _, r := range cw2Content.results {
-
-			//fmt.Printf("%s\n\n", r.String())
-
-			var propContentsVal string
-			// fmt.Printf("id=%d\n", id)
-			propContentsVal, err = r.valOf("Contents")
-			// fmt.Printf("%d propContentsVal=%s\n\n", 0, r.String())
-			if err == ErrCrawlResultValOfNotFound {
-				continue
-			}
-
-			propContentsValType := propertyType(propContentsVal)
-			/*if propContentsValType != dictionary {
-				return errors.New("not support /Contents type not dictionary yet")
-			}*/
-			var contentsObjID int
-			if propContentsValType == dictionary {
-				contentsObjID, _, err = readObjIDFromDictionary(propContentsVal)
-				if err != nil {
-					return err
-				}
-			} else if propContentsValType == array {
-				contentsObjIDs, _, err := readObjIDFromDictionaryArr(propContentsVal)
-				if err != nil || len(contentsObjIDs) <= 0 {
-					return err
-				}
-				contentsObjID = contentsObjIDs[0]
+		contents := ""
+		if propContents := props.getPropByKey("Contents"); propContents != nil {
+			contents = p.resolve(propContents.rawVal)
+			if propertyType(contents) == array {
+				contents = strings.TrimSuffix(strings.TrimPrefix(contents, "["), "]")
+			} else if contents == "null" {
+				contents = ""
+			} else if propertyType(contents) == object {
+				contents = propContents.rawVal
 			} else {
 				return errors.New("not support /Contents type not dictionary,array yet")
 			}
-
-			data := &p.getObjByID(contentsObjID).data
-			zip := true
-			propFilter, err := readProperty(data, "Filter")
-			if err != nil {
-				return err
-			}
-			if propFilter == nil || propFilter.rawVal != "/FlateDecode" {
-				zip = false
-			}
-
-			var stm *bytes.Buffer
-			//fmt.Printf("\n-------------------%d-----------------------\n%s\n\n", contentsObjID, string(*data))
-			stmLen, err := streamLength(p, data)
-			if err != nil {
-				return err
-			}
-
-			stm, err = extractStream(data, stmLen, zip)
-			if err != nil {
-				return err
-			}
-			//fmt.Printf("stm=%s\n\n", stm.String())
-
-			if _, ok := pageBuffs[pageIndex+1]; ok {
-				stm.WriteString("\n")
-				pageBuffs[pageIndex+1].WriteTo(stm)
-				objMustReplaces[contentsObjID] = fmt.Sprintf("<<\n/Length %d\n>>\nstream\n%sendstream", stm.Len(), stm.String())
-			}
-
 		}
-	}
 
-	for objID := range objMustReplaces {
-		//_ = objID
-		//fmt.Printf("objID=%d\n", objID)
-		p.getObjByID(objID).data = []byte("" + objMustReplaces[objID] + "")
-		//fmt.Printf("objId=%d %s\n", objID, string(p.getObjByID(objID).data))
+		//the content of template must not change the graphics state of new content
+		if saveStateID == 0 {
+			saveStateID = p.putNewObject(newStreamObj([]byte("q\n")))
+		}
+		contentID := p.putNewObject(newStreamObj(append([]byte("Q\n"), buff.Bytes()...)))
+		props.set("Contents", fmt.Sprintf("[%d 0 R %s %d 0 R]", saveStateID, contents, contentID))
+		p.getObjByID(pageObjID).setProperties(props)
 	}
 
 	return nil
 }
 
-func streamLength(p *PDFData, data *[]byte) (int, error) {
-
-	prop, err := readProperty(data, "Length")
-	if err != nil {
-		return 0, err
-	}
-	if prop == nil {
-		prop, err = readProperty(data, "Length1")
-		if err != nil {
-			return 0, err
-		}
-		if prop == nil {
-			return 0, errors.New("/Length or /Length1 not found")
-		}
-	}
-
-	propType := prop.valType()
-	if propType == number {
-		return strconv.Atoi(strings.TrimSpace(prop.rawVal))
-	} else if propType == dictionary {
-		objID, _, err := prop.asDictionary()
-		if err != nil {
-			return 0, err
-		}
-		fontlengthObj := p.getObjByID(objID)
-		return strconv.Atoi(strings.TrimSpace(string(fontlengthObj.data)))
-	} else {
-		return 0, errors.New("/Length or /Length1  wrong type")
-	}
-
+func newStreamObj(stm []byte) PDFObjData {
+	var obj PDFObjData
+	obj.data = []byte(fmt.Sprintf("<<\n/Length %d\n>>\nstream\n%s\nendstream", len(stm), stm))
+	return obj
 }
 
 var extractStreamBytes = []byte{0x73, 0x74, 0x72, 0x65, 0x61, 0x6D}
 
-func extractStream(b *[]byte, length int, zip bool) (*bytes.Buffer, error) {
-
-	index := bytes.Index(*b, extractStreamBytes)
-	offset := len(extractStreamBytes)
-	tmp := (*b)[index+offset:]
-	tmp = bytes.TrimSpace(tmp)
-	tmp = tmp[0:length]
-	var buff bytes.Buffer
-	buff.Write(tmp)
-	if !zip {
-		return &buff, nil
-	}
-	r, err := zlib.NewReader(&buff)
-	if err != nil {
-		return nil, err
-	}
-	defer r.Close()
-	var out bytes.Buffer
-	_, err = io.Copy(&out, r)
-	if err != nil {
-		return nil, err
-	}
-	return &out, nil
-}
-
-func findMaxFontIndex(cw *crawl, p *PDFData) (int, error) {
-	//find max font index
-	max := 0
-	for _, item := range cw.results {
-		fontPropVal, err := item.valOf("Font")
-		if err == ErrCrawlResultValOfNotFound {
-			continue
-		} else if err != nil {
-			return 0, err
-		}
-
-		var crFonts crawlResultFonts
-		fontPropValType := propertyType(fontPropVal)
-		if fontPropValType == object {
-			tmp := []byte(fontPropVal)
-			err = crFonts.parse(&tmp)
-			if err != nil {
-				return 0, err
-			}
-			//fmt.Printf("%#v\n", crFonts)
-		} else if fontPropValType == dictionary {
-			var fontObjID int
-			fontObjID, _, err = readObjIDFromDictionary(fontPropVal)
-			if err != nil {
-				return 0, err
-			}
-			fontObj := p.getObjByID(fontObjID)
-			err = crFonts.parse(&fontObj.data)
-			if err != nil {
-				return 0, err
-			}
-			//fmt.Printf("%#v\n", crFonts)
-		} else {
-			return 0, errors.New("not support /Font type array yet")
-		}
-
-		maxFontIndex := crFonts.maxFontIndex()
-		if maxFontIndex > max {
-			max = maxFontIndex
-		}
-	}
-
-	return max, nil
-}
-
 func objIDFromStartObjLine(line string) (int, error) {
 	tokens := strings.Fields(line)
 	if len(tokens) < 3 {
diff --git a/pdf_parse.go b/pdf_parse.go
index d5d314a..041bc5d 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -2,7 +2,6 @@ package pdft
 
 import (
 	"errors"
-	"fmt"
 	"io"
 	"io/ioutil"
 	"strconv"
@@ -52,22 +51,25 @@ func parsePageSize(pdf *PDFData) error {
 		return err
 	}
 
+	pdf.pageIDs = pageIDs
+
 	for n, pageID := range pageIDs {
-		data := pdf.getObjByID(pageID).data
-		propContentsObj, err := readProperty(&data, "MediaBox")
-		if err != nil {
-			return err
+		_, rawVal, ok := pdf.pageAttr(pageID, "MediaBox")
+		if !ok {
+			continue
 		}
-		valType := propContentsObj.valType()
-		if valType != array {
-			fmt.Printf("MediaBox type is not array, but %s", valType)
+		rawVal = pdf.resolve(rawVal)
+		if propertyType(rawVal) != array {
 			continue
 		}
-		parseMediaBoxd, err := parseFloatSlice(propContentsObj.rawVal)
+		mediaBox, err := parseFloatSlice(rawVal)
 		if err != nil {
 			return err
 		}
-		pdf.pageSizes[n] = parseMediaBoxd
+		if len(mediaBox) < 4 {
+			continue
+		}
+		pdf.pageSizes[n] = mediaBox
 	}
 	return nil
 }
diff --git a/pdft.go b/pdft.go
index 3e9b8d6..19d63ca 100644
--- a/pdft.go
+++ b/pdft.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strconv"
 	"strings"
@@ -55,7 +56,7 @@ type PDFt struct {
 	pdfImgs       []*PDFImageData
 	pdfImgsMd5Map map[string]*PDFImageData
 	curr          current
-	contenters    []Contenter
+	contenters    []pageContenter
 	pdfProtection *gopdf.PDFProtection
 }
 
@@ -86,7 +87,7 @@ func (i *PDFt) ShowCellBorder(isShow bool) {
 		clw.lineType = ""
 		i.curr.lineWidth = 0.0
 	}
-	i.contenters = append(i.contenters, &clw)
+	i.contenters = append(i.contenters, pageContenter{Contenter: &clw})
 }
 
 // Open open pdf file
@@ -151,17 +152,9 @@ func (i *PDFt) DuplicatePageAfter(targetPageNumber, position int) error {
 	if err != nil {
 		return err
 	}
-	pageContent := props.getPropByKey("Contents")
-	if pageContent == nil {
+	if props.getPropByKey("Contents") == nil {
 		return ErrNoContentsProperty
 	}
-	contentID, _, err := pageContent.asDictionary()
-	if err != nil {
-		return err
-	}
-	contentID = i.pdf.putNewObject(*(i.pdf.getObjByID(contentID))) //copy object value
-	pageContent.setAsDictionary(contentID, 0)
-	pageObj.setProperties(props)
 
 	pageID := i.pdf.putNewObject(pageObj)
 
@@ -201,24 +194,36 @@ func (i *PDFt) RemoveOtherPages(targetPageNumber int) error {
 }
 
 func (i *PDFt) setPages(pageObjIds []int) error {
-	rootProps, err := i.pdf.getObjByID(i.pdf.trailer.rootObjID).readProperties()
+	rootPagesID, err := i.pdf.rootPagesID()
 	if err != nil {
 		return err
 	}
-	rootPagesID, _, err := rootProps.getPropByKey("Pages").asDictionary()
-	if err != nil {
-		return err
+	//all pages become kids of the root, so keep what they inherit from other nodes
+	for _, pageObjID := range pageObjIds {
+		pageProps, err := i.pdf.props(pageObjID)
+		if err != nil {
+			return err
+		}
+		for _, key := range []string{"Resources", "MediaBox", "CropBox", "Rotate"} {
+			ownerID, rawVal, ok := i.pdf.pageAttr(pageObjID, key)
+			if ok && ownerID != pageObjID && ownerID != rootPagesID {
+				pageProps.set(key, rawVal)
+			}
+		}
+		pageProps.set("Parent", fmt.Sprintf("%d 0 R", rootPagesID))
+		i.pdf.getObjByID(pageObjID).setProperties(pageProps)
 	}
 	pagesObj := i.pdf.getObjByID(rootPagesID)
 	props, err := pagesObj.readProperties()
 	if err != nil {
 		return err
 	}
-	nPage := len(pageObjIds)
-	props.getPropByKey("Count").rawVal = strconv.Itoa(nPage)
-	props.getPropByKey("Kids").setAsDictionaryArr(pageObjIds, nil)
+	var kids PDFObjPropertyData
+	kids.setAsDictionaryArr(pageObjIds, nil)
+	props.set("Count", strconv.Itoa(len(pageObjIds)))
+	props.set("Kids", kids.rawVal)
 	pagesObj.setProperties(props)
-	return nil
+	return parsePageSize(&i.pdf)
 }
 
 // GetNumberOfPage get number of page
@@ -337,7 +342,7 @@ func (i *PDFt) Insert(text string, pageNum int, x float64, y float64, w float64,
 	if err := ct.pdfFontData.addChars(text); err != nil {
 		return err
 	}
-	i.contenters = append(i.contenters, &ct)
+	i.appendContenter(&ct)
 	return nil
 }
 
@@ -364,7 +369,7 @@ func (i *PDFt) MeasureTextWidth(text string) (float64, error) {
 func (i *PDFt) pageHeight(pageNum int) float64 {
 	pageIndex := pageNum - 1
 	if val, ok := i.pdf.pageSizes[pageIndex]; ok {
-		return val[3]
+		return math.Max(val[1], val[3])
 	}
 	return 841.89 //A4
 }
@@ -408,7 +413,7 @@ func (i *PDFt) InsertImgBase64(base64str string, pageNum int, x float64, y float
 	ct.w = w
 	ct.refPdfimg = &pdfimg //i.pdfImgs[len(i.pdfImgs)-1]
 	ct.pageHeight = i.pageHeight(pageNum)
-	i.contenters = append(i.contenters, &ct)
+	i.appendContenter(&ct)
 	return nil
 }
 
@@ -451,9 +456,7 @@ func (i *PDFt) InsertImg(img []byte, pageNum int, x float64, y float64, w float6
 	ct.w = w
 	ct.pageHeight = i.pageHeight(pageNum)
 	ct.refPdfimg = &pdfimg //i.pdfImgs[len(i.pdfImgs)-1]
-	i.contenters = append(i.contenters, &ct)
-	//fmt.Printf("append(i.contenters, &ct) %d\n", len(i.contenters))
-	//i.insertContenters(0, &ct)
+	i.appendContenter(&ct)
 	return nil
 }
 
@@ -502,16 +505,18 @@ func (i *PDFt) InsertImgWithCache(img []byte, pageNum int, x float64, y float64,
 	ct.w = w
 	ct.refPdfimg = pdfimg
 	ct.pageHeight = i.pageHeight(pageNum)
-	i.contenters = append(i.contenters, &ct)
+	i.appendContenter(&ct)
 	return nil
 }
 
-/*
-func (i *PDFt) insertContenters(index int, src Contenter) {
-	i.contenters = append(i.contenters, nil)
-	copy(i.contenters[index+1:], i.contenters[index:])
-	i.contenters[index] = src
-}*/
+// appendContenter append content of a page, it stays on that page even if the page's number changes
+func (i *PDFt) appendContenter(c Contenter) {
+	ctn := pageContenter{Contenter: c}
+	if pageIndex := c.page() - 1; pageIndex >= 0 && pageIndex < len(i.pdf.pageIDs) {
+		ctn.pageObjID = i.pdf.pageIDs[pageIndex]
+	}
+	i.contenters = append(i.contenters, ctn)
+}
 
 // AddFont add ttf font
 func (i *PDFt) AddFont(name string, ttfpath string) error {
@@ -650,7 +655,7 @@ func (i *PDFt) build() (*PDFData, int, error) {
 		}
 	}
 
-	newpdf := i.pdf //copy
+	newpdf := i.pdf.clone()
 
 	err = newpdf.injectFontsToPDF(i.fontDatas)
 	if err != nil {
@@ -699,7 +704,7 @@ func (i *PDFt) build() (*PDFData, int, error) {
 		return nil, 0, err
 	}
 
-	err = newpdf.injectContentToPDF(&i.contenters)
+	err = newpdf.injectContentToPDF(i.contenters)
 	if err != nil {
 		return nil, 0, err
 	}
@@ -714,7 +719,7 @@ func (i *PDFt) build() (*PDFData, int, error) {
 		}
 	}
 
-	return &newpdf, nextID, nil
+	return &newpdf, newpdf.maxID(), nil
 }
 
 func (i *PDFt) toStream(newpdf *PDFData, lastID int) (*bytes.Buffer, error) {
-- 
2.43.0


From 3e75c401fc4222dcce4145d367dd5111b7b753c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:18 +0000
Subject: [PATCH 06/31] fix: use the newest version of objects and trailer,
 keep /Info, refuse encrypted templates and broken offsets

---
 pdf_data.go  |  1 +
 pdf_parse.go | 68 ++++++++++++++++++++++++++++++----------------------
 pdft.go      |  9 ++++---
 3 files changed, 47 insertions(+), 31 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index 21551cb..9bb4479 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -22,6 +22,7 @@ type PDFData struct {
 // TrailerData trailer
 type TrailerData struct {
 	rootObjID int
+	infoObjID int //0 if not found
 }
 
 // Len count
diff --git a/pdf_parse.go b/pdf_parse.go
index 041bc5d..3e46615 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -8,6 +8,9 @@ import (
 	"strings"
 )
 
+// ErrEncryptedPDF pdf is encrypted
+var ErrEncryptedPDF = errors.New("encrypted pdf is not supported")
+
 // PDFParse parse pdf
 func PDFParse(file io.Reader, outPdf *PDFData) error {
 
@@ -95,22 +98,14 @@ func parseFloatSlice(s string) ([]float64, error) {
 }
 
 func setPagesObj(pdf *PDFData) error {
-	pagesProps, err := pdf.getObjByID(pdf.trailer.rootObjID).readProperties()
-	if err != nil {
-		return err
-	}
-	pagesProp := pagesProps.getPropByKey("Pages")
-	if pagesProp == nil {
-		return errors.New("/Pages not found")
-	}
-	pagesID, _, err := pagesProp.asDictionary()
+	pagesID, err := pdf.rootPagesID()
 	if err != nil {
 		return err
 	}
 
 	pagesObj := pdf.getObjByID(pagesID)
-	if err != nil {
-		return err
+	if pagesObj == nil {
+		return errors.New("/Pages not found")
 	}
 	pdf.pagesObj = pagesObj
 	return nil
@@ -118,34 +113,47 @@ func setPagesObj(pdf *PDFData) error {
 
 func parseTrailer(raw *[]byte, pdf *PDFData) error {
 
-	indexTrailers := regexpTrailer.FindAllIndex(*raw, 1)
+	indexTrailers := regexpTrailer.FindAllIndex(*raw, -1)
 	if len(indexTrailers) <= 0 {
 		return errors.New("trailer not found")
 	}
 
-	indexStartxrefs := regexpStartxref.FindAllIndex(*raw, 1)
-	if len(indexStartxrefs) <= 0 {
+	if regexpStartxref.FindIndex(*raw) == nil {
 		return errors.New("startxref not found")
 	}
 
-	tmp := (*raw)[indexTrailers[0][1]:indexStartxrefs[0][0]]
-	var props PDFObjPropertiesData
-	err := readProperties(&tmp, &props)
-	if err != nil {
-		return err
+	//a file has one trailer for each update
+	for _, indexTrailer := range indexTrailers {
+		tmp := (*raw)[indexTrailer[1]:]
+		var props PDFObjPropertiesData
+		err := readProperties(&tmp, &props)
+		if err != nil {
+			continue //not the trailer keyword
+		}
+		if props.getPropByKey("Encrypt") != nil {
+			return ErrEncryptedPDF
+		}
+		propRoot := props.getPropByKey("Root")
+		if propRoot == nil {
+			continue
+		}
+		rootID, _, err := propRoot.asDictionary()
+		if err != nil {
+			return err
+		}
+		pdf.trailer.rootObjID = rootID
+		if propInfo := props.getPropByKey("Info"); propInfo != nil {
+			infoID, _, err := propInfo.asDictionary()
+			if err != nil {
+				return err
+			}
+			pdf.trailer.infoObjID = infoID
+		}
 	}
-
-	propRoot := props.getPropByKey("Root")
-	if propRoot == nil {
+	if pdf.trailer.rootObjID == 0 {
 		return errors.New("/Root not found")
 	}
 
-	rootID, _, err := propRoot.asDictionary()
-	if err != nil {
-		return err
-	}
-	pdf.trailer.rootObjID = rootID
-
 	return nil
 }
 
@@ -181,6 +189,10 @@ func parseObjOnlyKeywordN(raw *[]byte, pdf *PDFData) error {
 			if err != nil {
 				return err
 			}
+			if old := pdf.getObjByID(pdfobj.objID); old != nil { //updated
+				*old = pdfobj
+				continue
+			}
 			pdf.put(pdfobj)
 		}
 	}
diff --git a/pdft.go b/pdft.go
index 19d63ca..843885c 100644
--- a/pdft.go
+++ b/pdft.go
@@ -752,7 +752,7 @@ func (i *PDFt) toStream(newpdf *PDFData, lastID int) (*bytes.Buffer, error) {
 		buff.WriteString(strings.TrimSpace(string(obj.data)))
 		buff.WriteString("\nendobj\n")
 	}
-	i.xref(xrefs, &buff, lastID, newpdf.trailer.rootObjID, encryptionObjID)
+	i.xref(xrefs, &buff, lastID, newpdf.trailer, encryptionObjID)
 
 	return &buff, nil
 }
@@ -763,7 +763,7 @@ type xrefrow struct {
 	flag   string
 }
 
-func (i *PDFt) xref(linelens map[int]int, buff *bytes.Buffer, size int, rootID int, encryptionObjID int) {
+func (i *PDFt) xref(linelens map[int]int, buff *bytes.Buffer, size int, trailer TrailerData, encryptionObjID int) {
 	xrefbyteoffset := buff.Len()
 
 	//start xref
@@ -794,7 +794,10 @@ func (i *PDFt) xref(linelens map[int]int, buff *bytes.Buffer, size int, rootID i
 	buff.WriteString("trailer\n")
 	buff.WriteString("<<\n")
 	buff.WriteString(fmt.Sprintf("/Size %d\n", size+1))
-	buff.WriteString(fmt.Sprintf("/Root %d 0 R\n", rootID))
+	buff.WriteString(fmt.Sprintf("/Root %d 0 R\n", trailer.rootObjID))
+	if trailer.infoObjID != 0 {
+		buff.WriteString(fmt.Sprintf("/Info %d 0 R\n", trailer.infoObjID))
+	}
 	if i.protection() != nil {
 		buff.WriteString(fmt.Sprintf("/Encrypt %d 0 R\n", encryptionObjID))
 		buff.WriteString("/ID [()()]\n")
-- 
2.43.0


From 39e3fd27efbf35c9cddb25d64f7b16f945203bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:21 +0000
Subject: [PATCH 07/31] fix: encrypt the exact data of streams and also strings

---
 pdf_obj_data.go | 85 +++++++++++++++++++++++++++++++++++--------------
 pdft.go         |  5 ++-
 2 files changed, 65 insertions(+), 25 deletions(-)

diff --git a/pdf_obj_data.go b/pdf_obj_data.go
index 8bf9e93..63297df 100644
--- a/pdf_obj_data.go
+++ b/pdf_obj_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"crypto/rc4"
 	"errors"
+	"fmt"
 
 	gopdf "github.com/signintech/pdft/minigopdf"
 )
@@ -108,36 +109,72 @@ func streamEnd(data []byte, start int, length int) int {
 	return start + index
 }
 
-func (p *PDFObjData) encrypt(protection *gopdf.PDFProtection) error {
+func (p *PDFObjData) encrypt(pdf *PDFData, protection *gopdf.PDFProtection) error {
 
-	stream := []byte("stream")
-	endstream := []byte("endstream")
-	start := bytes.Index(p.data, stream)
-	if start != -1 {
-		end := bytes.LastIndex(p.data, endstream)
-
-		var head, body bytes.Buffer
-		head.Write(p.data[0:start])
-		body.Write(p.data[start+len(stream) : end])
-		tmp := bytes.Trim(body.Bytes(), "\r\n")
-		tmp = bytes.Trim(tmp, "\n")
-		bodyRc4, err := rc4Cip(protection.Objectkey(p.objID), tmp)
-		if err != nil {
-			return err
-		}
+	key := protection.Objectkey(p.objID)
+	var props PDFObjPropertiesData
+	start := -1
+	end, err := readPropertiesEnd(p.data, &props)
+	if err == nil {
+		start = scanStream(p.data, end)
+	}
+	if start == -1 {
+		p.data, err = encryptStrings(key, p.data)
+		return err
+	}
 
-		var data bytes.Buffer
-		data.Write(head.Bytes())
-		data.Write(stream)
-		data.WriteString("\n")
-		data.Write(bodyRc4)
-		data.WriteString("\n")
-		data.Write(endstream)
-		p.data = data.Bytes()
+	head, err := encryptStrings(key, p.data[:end])
+	if err != nil {
+		return err
 	}
+	body, err := rc4Cip(key, p.data[start:streamEnd(p.data, start, props.streamLength(pdf))])
+	if err != nil {
+		return err
+	}
+
+	var data bytes.Buffer
+	data.Write(head)
+	data.WriteString("\nstream\n")
+	data.Write(body)
+	data.WriteString("\nendstream")
+	p.data = data.Bytes()
 	return nil
 }
 
+// encryptStrings encrypts all strings in data
+func encryptStrings(key []byte, data []byte) ([]byte, error) {
+	var out bytes.Buffer
+	i := 0
+	for i < len(data) {
+		end := i + 1
+		isString := data[i] == '(' || data[i] == '<'
+		if data[i] == '%' {
+			end = scanSpace(data, i)
+		} else if bytes.HasPrefix(data[i:], []byte("<<")) {
+			end = i + 2
+			isString = false
+		} else if isString {
+			end = scanValue(data, i, 0)
+			if end == -1 { //not a string, leave the rest as it is
+				out.Write(data[i:])
+				break
+			}
+		}
+		if !isString {
+			out.Write(data[i:end])
+			i = end
+			continue
+		}
+		val, err := rc4Cip(key, decodeString(data[i:end]))
+		if err != nil {
+			return nil, err
+		}
+		out.WriteString(fmt.Sprintf("<%X>", val))
+		i = end
+	}
+	return out.Bytes(), nil
+}
+
 func rc4Cip(key []byte, src []byte) ([]byte, error) {
 	cip, err := rc4.NewCipher(key)
 	if err != nil {
diff --git a/pdft.go b/pdft.go
index 843885c..31c9101 100644
--- a/pdft.go
+++ b/pdft.go
@@ -714,7 +714,10 @@ func (i *PDFt) build() (*PDFData, int, error) {
 		max := newpdf.Len()
 		x := 0
 		for x < max {
-			newpdf.objs[x].encrypt(i.protection())
+			err = newpdf.objs[x].encrypt(&newpdf, i.protection())
+			if err != nil {
+				return nil, 0, err
+			}
 			x++
 		}
 	}
-- 
2.43.0


From 94dd4939d8fdcb5725310eb660664a79c65b28a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:16 +0000
Subject: [PATCH 08/31] fix: building or compiling again starts afresh, and a
 page without content has no /Contents

---
 minigopdf/catalog_obj.go            | 1 +
 minigopdf/cid_font_obj.go           | 1 +
 minigopdf/content_obj.go            | 9 ++++++---
 minigopdf/device_rgb_obj.go         | 1 +
 minigopdf/encryption_obj.go         | 1 +
 minigopdf/gopdf.go                  | 7 +++++--
 minigopdf/image_obj.go              | 1 +
 minigopdf/page_obj.go               | 5 ++++-
 minigopdf/pages_obj.go              | 1 +
 minigopdf/pdf_dictionary_obj.go     | 1 +
 minigopdf/procset_obj.go            | 4 ++--
 minigopdf/smask_obj.go              | 1 +
 minigopdf/subfont_descriptor_obj.go | 1 +
 minigopdf/subset_font_obj.go        | 1 +
 minigopdf/unicode_map.go            | 1 +
 15 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/minigopdf/catalog_obj.go b/minigopdf/catalog_obj.go
index 05a4a1e..06eb932 100644
--- a/minigopdf/catalog_obj.go
+++ b/minigopdf/catalog_obj.go
@@ -15,6 +15,7 @@ func (c *CatalogObj) init(funcGetRoot func() *GoPdf) {
 }
 
 func (c *CatalogObj) build(objID int) error {
+	c.buffer.Reset()
 	c.buffer.WriteString("<<\n")
 	c.buffer.WriteString("  /Type /" + c.getType() + "\n")
 	c.buffer.WriteString("  /Pages 2 0 R\n")
diff --git a/minigopdf/cid_font_obj.go b/minigopdf/cid_font_obj.go
index 310b2d2..cdfcf02 100644
--- a/minigopdf/cid_font_obj.go
+++ b/minigopdf/cid_font_obj.go
@@ -16,6 +16,7 @@ func (ci *CIDFontObj) init(funcGetRoot func() *GoPdf) {
 
 func (ci *CIDFontObj) build(objID int) error {
 
+	ci.buffer.Reset()
 	ci.buffer.WriteString("<<\n")
 	ci.buffer.WriteString(fmt.Sprintf("/BaseFont /%s\n", CreateEmbeddedFontSubsetName(ci.PtrToSubsetFontObj.GetFamily())))
 	ci.buffer.WriteString("/CIDSystemInfo\n")
diff --git a/minigopdf/content_obj.go b/minigopdf/content_obj.go
index 19940a8..8bfc503 100644
--- a/minigopdf/content_obj.go
+++ b/minigopdf/content_obj.go
@@ -41,17 +41,20 @@ func (c *ContentObj) build(objID int) error {
 			// should never happen...
 			return err
 		}
-		c.stream.WriteTo(zwriter)
+		zwriter.Write(c.stream.Bytes())
 		buff.WriteTo(zwriter)
 		zwriter.Close()
 		cPtr = &zbuff
 	} else {
 		// zlib compressLevel = 0 adds header and thus
 		// needs /FlateDecode => pass through
-		buff.WriteTo(&c.stream)
-		cPtr = &c.stream
+		var sbuff bytes.Buffer
+		sbuff.Write(c.stream.Bytes())
+		buff.WriteTo(&sbuff)
+		cPtr = &sbuff
 	}
 	streamlen := (*cPtr).Len()
+	c.buffer.Reset()
 	c.buffer.WriteString("<<\n")
 	if isFlate {
 		c.buffer.WriteString("/Filter/FlateDecode")
diff --git a/minigopdf/device_rgb_obj.go b/minigopdf/device_rgb_obj.go
index 68b8228..49f5336 100644
--- a/minigopdf/device_rgb_obj.go
+++ b/minigopdf/device_rgb_obj.go
@@ -30,6 +30,7 @@ func (d *DeviceRGBObj) getObjBuff() *bytes.Buffer {
 // สร้าง ข้อมูลใน pdf
 func (d *DeviceRGBObj) build(objID int) error {
 
+	d.buffer.Reset()
 	d.buffer.WriteString("<<\n")
 	d.buffer.WriteString("/Length " + strconv.Itoa(len(d.data)) + "\n")
 	d.buffer.WriteString(">>\n")
diff --git a/minigopdf/encryption_obj.go b/minigopdf/encryption_obj.go
index 45a6460..305999c 100644
--- a/minigopdf/encryption_obj.go
+++ b/minigopdf/encryption_obj.go
@@ -27,6 +27,7 @@ func (e *EncryptionObj) getObjBuff() *bytes.Buffer {
 }
 
 func (e *EncryptionObj) build(objID int) error {
+	e.buffer.Reset()
 	e.buffer.WriteString("<<\n")
 	e.buffer.WriteString("/Filter /Standard\n")
 	e.buffer.WriteString("/V 1\n")
diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index 637e7e9..bffc9dd 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -714,15 +714,17 @@ func (gp *GoPdf) protection() *PDFProtection {
 
 func (gp *GoPdf) prepare() {
 
-	if gp.isUseProtection() {
+	if gp.isUseProtection() && gp.encryptionObjID == 0 {
 		encObj := gp.pdfProtection.encryptionObj()
-		gp.addObj(encObj)
+		gp.encryptionObjID = gp.addObj(encObj) + 1
 	}
 
 	if gp.indexOfPagesObj != -1 {
 		indexCurrPage := -1
 		var pagesObj *PagesObj
 		pagesObj = gp.pdfObjs[gp.indexOfPagesObj].(*PagesObj)
+		pagesObj.Kids = ""
+		pagesObj.PageCount = 0
 		i := 0 //gp.indexOfFirstPageObj
 		max := len(gp.pdfObjs)
 		for i < max {
@@ -732,6 +734,7 @@ func (gp *GoPdf) prepare() {
 				pagesObj.Kids = fmt.Sprintf("%s %d 0 R ", pagesObj.Kids, i+1)
 				pagesObj.PageCount++
 				indexCurrPage = i
+				gp.pdfObjs[i].(*PageObj).Contents = ""
 			} else if objtype == "Content" {
 				if indexCurrPage != -1 {
 					gp.pdfObjs[indexCurrPage].(*PageObj).Contents = fmt.Sprintf("%s %d 0 R ", gp.pdfObjs[indexCurrPage].(*PageObj).Contents, i+1)
diff --git a/minigopdf/image_obj.go b/minigopdf/image_obj.go
index 7873b7e..d4ae94c 100644
--- a/minigopdf/image_obj.go
+++ b/minigopdf/image_obj.go
@@ -46,6 +46,7 @@ func (i *ImageObj) build(objID int) error {
 	if err != nil {
 		return err
 	}
+	i.buffer.Reset()
 	_, err = buff.WriteTo(&i.buffer)
 	if err != nil {
 		return err
diff --git a/minigopdf/page_obj.go b/minigopdf/page_obj.go
index f737f9b..1d4cf44 100644
--- a/minigopdf/page_obj.go
+++ b/minigopdf/page_obj.go
@@ -24,6 +24,7 @@ func (p *PageObj) setOption(opt PageOption) {
 
 func (p *PageObj) build(objID int) error {
 
+	p.buffer.Reset()
 	p.buffer.WriteString("<<\n")
 	p.buffer.WriteString("  /Type /" + p.getType() + "\n")
 	p.buffer.WriteString("  /Parent 2 0 R\n")
@@ -38,7 +39,9 @@ func (p *PageObj) build(objID int) error {
 	}
 	me.buffer.WriteString("    >>\n")*/
 	//me.buffer.WriteString("  >>\n")
-	p.buffer.WriteString("  /Contents " + p.Contents + "\n") //sample  Contents 8 0 R
+	if p.Contents != "" {
+		p.buffer.WriteString("  /Contents " + p.Contents + "\n") //sample  Contents 8 0 R
+	}
 	if !p.pageOption.isEmpty() {
 		height := fmt.Sprintf("%0.2f", p.pageOption.PageSize.H)
 		width := fmt.Sprintf("%0.2f", p.pageOption.PageSize.W)
diff --git a/minigopdf/pages_obj.go b/minigopdf/pages_obj.go
index 7016567..a67f7d6 100644
--- a/minigopdf/pages_obj.go
+++ b/minigopdf/pages_obj.go
@@ -23,6 +23,7 @@ func (p *PagesObj) build(objID int) error {
 
 	height := fmt.Sprintf("%0.2f", p.getRoot().config.PageSize.H)
 	width := fmt.Sprintf("%0.2f", p.getRoot().config.PageSize.W)
+	p.buffer.Reset()
 	p.buffer.WriteString("<<\n")
 	p.buffer.WriteString("  /Type /" + p.getType() + "\n")
 	p.buffer.WriteString("  /MediaBox [ 0 0 " + width + " " + height + " ]\n")
diff --git a/minigopdf/pdf_dictionary_obj.go b/minigopdf/pdf_dictionary_obj.go
index c31501b..2da5c26 100644
--- a/minigopdf/pdf_dictionary_obj.go
+++ b/minigopdf/pdf_dictionary_obj.go
@@ -58,6 +58,7 @@ func (p *PdfDictionaryObj) build(objID int) error {
 	}
 	gzipwriter.Close()
 
+	p.buffer.Reset()
 	p.buffer.WriteString("<</Length " + strconv.Itoa(zbuff.Len()) + "\n")
 	p.buffer.WriteString("/Filter /FlateDecode\n")
 	p.buffer.WriteString("/Length1 " + strconv.Itoa(len(b)) + "\n")
diff --git a/minigopdf/procset_obj.go b/minigopdf/procset_obj.go
index 8c6a48f..b8ddb5e 100644
--- a/minigopdf/procset_obj.go
+++ b/minigopdf/procset_obj.go
@@ -20,6 +20,7 @@ func (pr *ProcSetObj) init(funcGetRoot func() *GoPdf) {
 
 func (pr *ProcSetObj) build(objID int) error {
 
+	pr.buffer.Reset()
 	pr.buffer.WriteString("<<\n")
 	pr.buffer.WriteString("/ProcSet [/PDF /Text /ImageB /ImageC /ImageI]\n")
 	pr.buffer.WriteString("/Font <<\n")
@@ -38,8 +39,7 @@ func (pr *ProcSetObj) build(objID int) error {
 	i = 0
 	max = len(pr.RealteXobjs)
 	for i < max {
-		pr.buffer.WriteString(fmt.Sprintf("/I%d %d 0 R\n", pr.getRoot().curr.CountOfL+1, pr.RealteXobjs[i].IndexOfObj+1))
-		pr.getRoot().curr.CountOfL++
+		pr.buffer.WriteString(fmt.Sprintf("/I%d %d 0 R\n", i+1, pr.RealteXobjs[i].IndexOfObj+1))
 		i++
 	}
 	pr.buffer.WriteString(">>\n")
diff --git a/minigopdf/smask_obj.go b/minigopdf/smask_obj.go
index 9338bba..e25dfe4 100644
--- a/minigopdf/smask_obj.go
+++ b/minigopdf/smask_obj.go
@@ -39,6 +39,7 @@ func (s *SMask) build(objID int) error {
 	if err != nil {
 		return err
 	}
+	s.buffer.Reset()
 	_, err = buff.WriteTo(&s.buffer)
 	if err != nil {
 		return err
diff --git a/minigopdf/subfont_descriptor_obj.go b/minigopdf/subfont_descriptor_obj.go
index ca21e7e..48b1aec 100644
--- a/minigopdf/subfont_descriptor_obj.go
+++ b/minigopdf/subfont_descriptor_obj.go
@@ -27,6 +27,7 @@ func (s *SubfontDescriptorObj) build(objID int) error {
 
 	ttfp := s.PtrToSubsetFontObj.GetTTFParser()
 	//fmt.Printf("-->%d\n", ttfp.UnitsPerEm())
+	s.buffer.Reset()
 	s.buffer.WriteString("<<\n")
 	s.buffer.WriteString("/Type /FontDescriptor\n")
 	s.buffer.WriteString(fmt.Sprintf("/Ascent %d\n", DesignUnitsToPdf(ttfp.Ascender(), ttfp.UnitsPerEm())))
diff --git a/minigopdf/subset_font_obj.go b/minigopdf/subset_font_obj.go
index 284706e..b77f7ee 100644
--- a/minigopdf/subset_font_obj.go
+++ b/minigopdf/subset_font_obj.go
@@ -47,6 +47,7 @@ func (s *SubsetFontObj) init(funcGetRoot func() *GoPdf) {
 
 func (s *SubsetFontObj) build(objID int) error {
 	//me.AddChars("จ")
+	s.buffer.Reset()
 	s.buffer.WriteString("<<\n")
 	s.buffer.WriteString(fmt.Sprintf("/BaseFont /%s\n", CreateEmbeddedFontSubsetName(s.Family)))
 	s.buffer.WriteString(fmt.Sprintf("/DescendantFonts [%d 0 R]\n", s.indexObjCIDFont+1))
diff --git a/minigopdf/unicode_map.go b/minigopdf/unicode_map.go
index 4068711..2a30866 100644
--- a/minigopdf/unicode_map.go
+++ b/minigopdf/unicode_map.go
@@ -35,6 +35,7 @@ func (u *UnicodeMap) build(objID int) error {
 	if err != nil {
 		return err
 	}
+	u.buffer.Reset()
 	u.buffer.Write(buff.Bytes())
 	return nil
 }
-- 
2.43.0


From 1ae605e4350313eeb56f9b5d934908169e3baab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:28 +0000
Subject: [PATCH 09/31] fix: black text stays black after coloured text,
 colours that sum to 256 are drawn, text rise ends with its text

---
 content_text.go                 |  2 +-
 minigopdf/cache_content_text.go | 17 +++++++++++++----
 minigopdf/gopdf.go              |  2 +-
 minigopdf/list_cache_content.go | 14 ++++++++++++++
 4 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/content_text.go b/content_text.go
index e236813..fccdd20 100644
--- a/content_text.go
+++ b/content_text.go
@@ -64,7 +64,7 @@ func (c *ContentText) toSteram() (*bytes.Buffer, error) {
 			H: c.h,
 		},
 		rgb,
-		1.0,
+		0.0,
 		c.pdfFontData.fontIndex(),
 		c.fontSize,
 		c.fontStyle,
diff --git a/minigopdf/cache_content_text.go b/minigopdf/cache_content_text.go
index 0da146c..763146f 100644
--- a/minigopdf/cache_content_text.go
+++ b/minigopdf/cache_content_text.go
@@ -28,6 +28,7 @@ type cacheContentText struct {
 	contentType    int
 	cellOpt        CellOption
 	lineWidth      float64
+	afterTextColor bool //an earlier text may have set a fill color
 	//---result---
 	content                            bytes.Buffer
 	text                               bytes.Buffer
@@ -129,14 +130,15 @@ func (c *cacheContentText) toStream(protection *PDFProtection) (*bytes.Buffer, e
 	stream.WriteString("BT\n")
 	stream.WriteString(fmt.Sprintf("%0.2f %0.2f TD\n", x, y))
 	stream.WriteString("/F" + strconv.Itoa(c.fontCountIndex) + " " + strconv.Itoa(c.fontSize) + " Tf\n")
-	if r+g+b != 0 {
+	if r != 0 || g != 0 || b != 0 {
 		rFloat := float64(r) * 0.00392156862745
 		gFloat := float64(g) * 0.00392156862745
 		bFloat := float64(b) * 0.00392156862745
 		rgb := fmt.Sprintf("%0.2f %0.2f %0.2f rg\n", rFloat, gFloat, bFloat)
 		stream.WriteString(rgb)
-	} else {
-		//c.AppendStreamSetGrayFill(grayFill)
+	} else if c.afterTextColor {
+		//an earlier text has left its color
+		stream.WriteString(fmt.Sprintf("%0.2f g\n", fixRange10(c.grayFill)))
 	}
 
 	//stream.WriteString("[<" + c.content.String() + ">] TJ\n")
@@ -291,6 +293,9 @@ func createContent(f *SubsetFontObj, text string, fontSize int, rectangle *Rect,
 		runeIndex++
 	}
 	out.WriteString(">] TJ\n")
+	if f.funcTextriseOverride != nil {
+		out.WriteString("0 Ts\n") //rise is kept after ET, do not pass it on
+	}
 
 	cellWidthPdfUnit := float64(0)
 	cellHeightPdfUnit := float64(0)
@@ -378,6 +383,7 @@ func (c *CacheContent) Setup(rectangle *Rect,
 		contentType:    ContentTypeCell,
 		cellOpt:        cellOpt,
 		lineWidth:      lineWidth,
+		afterTextColor: true,
 	}
 }
 
@@ -388,7 +394,10 @@ func (c *CacheContent) WriteTextToContent(text string) {
 
 // ToStream create stream of content
 func (c *CacheContent) ToStream(protection *PDFProtection) (*bytes.Buffer, error) {
-	c.cacheContentText.createContent()
+	_, _, err := c.cacheContentText.createContent()
+	if err != nil {
+		return nil, err
+	}
 	return c.cacheContentText.toStream(protection)
 }
 
diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index bffc9dd..d770314 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -628,7 +628,7 @@ func (gp *GoPdf) MeasureTextWidth(text string) (float64, error) {
 		return 0, err
 	}
 
-	_, _, textWidthPdfUnit, err := createContent(gp.curr.Font_ISubset, text, gp.curr.Font_Size, nil, nil)
+	_, _, textWidthPdfUnit, err := createContent(gp.curr.Font_ISubset, text, gp.curr.Font_Size, nil, &bytes.Buffer{})
 	if err != nil {
 		return 0, err
 	}
diff --git a/minigopdf/list_cache_content.go b/minigopdf/list_cache_content.go
index fbe898e..492fdb4 100644
--- a/minigopdf/list_cache_content.go
+++ b/minigopdf/list_cache_content.go
@@ -64,7 +64,21 @@ func (l *listCacheContent) appendContentText(cache cacheContentText, text string
 
 func (l *listCacheContent) toStream(protection *PDFProtection) (*bytes.Buffer, error) {
 	var buff bytes.Buffer
+	isTextColor := false //is the fill color the color of an earlier text?
 	for _, cache := range l.caches {
+		switch c := cache.(type) {
+		case *cacheContentText:
+			c.afterTextColor = isTextColor
+			isTextColor = !c.textColor.equal(Rgb{})
+		case *cacheContentColor:
+			if c.colorType == colorTypeFill {
+				isTextColor = false
+			}
+		case *cacheContentGray:
+			if c.grayType == grayTypeFill {
+				isTextColor = false
+			}
+		}
 		stream, err := cache.toStream(protection)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 2bdd40dd26447ead0245f1b114693364a1bcfac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:56 +0000
Subject: [PATCH 10/31] fix: text goes on where the last text ended, cells are
 not merged into text, compress level and creation date

---
 minigopdf/cache_content_text.go | 8 ++++++--
 minigopdf/gopdf.go              | 3 +--
 minigopdf/list_cache_content.go | 1 +
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/minigopdf/cache_content_text.go b/minigopdf/cache_content_text.go
index 763146f..9cd336a 100644
--- a/minigopdf/cache_content_text.go
+++ b/minigopdf/cache_content_text.go
@@ -37,8 +37,12 @@ type cacheContentText struct {
 }
 
 func (c *cacheContentText) isSame(cache cacheContentText) bool {
-	if c.rectangle != nil {
-		//if rectangle != nil we assumes this is not same content
+	if c.contentType != ContentTypeText || cache.contentType != ContentTypeText {
+		//a cell has its own place, it is not same content
+		return false
+	}
+	if cache.x != c.x+c.cellWidthPdfUnit {
+		//does not go on where this content ends
 		return false
 	}
 	if c.textColor.equal(cache.textColor) &&
diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index d770314..25b0c75 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -79,7 +79,6 @@ func (gp *GoPdf) SetCompressLevel(level int) {
 	} else if level > zlib.BestCompression {
 		fmt.Fprintf(os.Stderr, errfmt, "big", "BestCompression")
 		level = zlib.BestCompression
-		return
 	}
 	// sanity check complete
 	gp.compressLevel = level
@@ -821,7 +820,7 @@ func (gp *GoPdf) bindInfo(buff *bytes.Buffer) {
 	}
 
 	if !zerotime.Equal(gp.info.CreationDate) {
-		buff.WriteString(fmt.Sprintf("/CreationDate(D:%s)>>\n", infodate(gp.info.CreationDate)))
+		buff.WriteString(fmt.Sprintf("/CreationDate(D:%s)\n", infodate(gp.info.CreationDate)))
 	}
 
 	buff.WriteString(" >>\n")
diff --git a/minigopdf/list_cache_content.go b/minigopdf/list_cache_content.go
index 492fdb4..2ed3c67 100644
--- a/minigopdf/list_cache_content.go
+++ b/minigopdf/list_cache_content.go
@@ -31,6 +31,7 @@ func (l *listCacheContent) appendContentText(cache cacheContentText, text string
 		if cacheFont != nil {
 			if cacheFont.isSame(cache) {
 				mustMakeNewCache = false
+				x = cacheFont.x //width is of the whole text
 			}
 		}
 	}
-- 
2.43.0


From f53fb4514e7554148a1645c401388dfccdbbcb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:39 +0000
Subject: [PATCH 11/31] fix: write characters outside the BMP as UTF-16 and
 cover all codes in the ToUnicode map

---
 minigopdf/gopdf.go       |  9 +++------
 minigopdf/unicode_map.go | 12 ++----------
 2 files changed, 5 insertions(+), 16 deletions(-)

diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index 25b0c75..718e6fb 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -11,6 +11,7 @@ import (
 	"os"
 	"strconv"
 	"time"
+	"unicode/utf16"
 )
 
 const subsetFont = "SubsetFont"
@@ -857,12 +858,8 @@ func (gp *GoPdf) getContent() *ContentObj {
 
 func encodeUtf8(str string) string {
 	var buff bytes.Buffer
-	for _, r := range str {
-		c := fmt.Sprintf("%X", r)
-		for len(c) < 4 {
-			c = "0" + c
-		}
-		buff.WriteString(c)
+	for _, u := range utf16.Encode([]rune(str)) {
+		buff.WriteString(fmt.Sprintf("%04X", u))
 	}
 	return buff.String()
 }
diff --git a/minigopdf/unicode_map.go b/minigopdf/unicode_map.go
index 2a30866..bc39342 100644
--- a/minigopdf/unicode_map.go
+++ b/minigopdf/unicode_map.go
@@ -60,19 +60,11 @@ func (u *UnicodeMap) pdfToUnicodeMap(objID int) (*bytes.Buffer, error) {
 	suffix := "endcmap CMapName currentdict /CMap defineresource pop end end"
 
 	glyphIndexToCharacter := newMapGlyphIndexToCharacter() //make(map[int]rune)
-	lowIndex := 65536
-	hiIndex := -1
 
 	keys := u.PtrToSubsetFontObj.CharacterToGlyphIndex.AllKeys()
 	for _, k := range keys {
 		v, _ := u.PtrToSubsetFontObj.CharacterToGlyphIndex.Val(k)
 		index := int(v)
-		if index < lowIndex {
-			lowIndex = index
-		}
-		if index > hiIndex {
-			hiIndex = index
-		}
 		//glyphIndexToCharacter[index] = k
 		glyphIndexToCharacter.set(index, k)
 	}
@@ -80,13 +72,13 @@ func (u *UnicodeMap) pdfToUnicodeMap(objID int) (*bytes.Buffer, error) {
 	var buff bytes.Buffer
 	buff.WriteString(prefix)
 	buff.WriteString("1 begincodespacerange\n")
-	buff.WriteString(fmt.Sprintf("<%04X><%04X>\n", lowIndex, hiIndex))
+	buff.WriteString("<0000><FFFF>\n") //codes are 2 bytes
 	buff.WriteString("endcodespacerange\n")
 	buff.WriteString(fmt.Sprintf("%d beginbfrange\n", glyphIndexToCharacter.size()))
 	indexs := glyphIndexToCharacter.allIndexs()
 	for _, k := range indexs {
 		v, _ := glyphIndexToCharacter.runeByIndex(k)
-		buff.WriteString(fmt.Sprintf("<%04X><%04X><%04X>\n", k, k, v))
+		buff.WriteString(fmt.Sprintf("<%04X><%04X><%s>\n", k, k, encodeUtf8(string(v))))
 	}
 	buff.WriteString("endbfrange\n")
 	buff.WriteString(suffix)
-- 
2.43.0


From 89bc3dd8d57b5c04218ca2579ee3fb2b9ef985ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:39 +0000
Subject: [PATCH 12/31] fix: escape font names that are not regular pdf names

---
 minigopdf/strhelper.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/minigopdf/strhelper.go b/minigopdf/strhelper.go
index 18f0614..6cd95ec 100644
--- a/minigopdf/strhelper.go
+++ b/minigopdf/strhelper.go
@@ -1,6 +1,8 @@
 package gopdf
 
 import (
+	"bytes"
+	"fmt"
 	"math/big"
 	"strings"
 )
@@ -22,7 +24,15 @@ func StrHelperGetStringWidth(str string, fontSize int, ifont IFont) float64 {
 func CreateEmbeddedFontSubsetName(name string) string {
 	name = strings.Replace(name, " ", "+", -1)
 	name = strings.Replace(name, "/", "+", -1)
-	return name
+	var buff bytes.Buffer
+	for i := 0; i < len(name); i++ {
+		if c := name[i]; c < '!' || c > '~' || strings.IndexByte("#()<>[]{}%", c) >= 0 {
+			buff.WriteString(fmt.Sprintf("#%02X", c)) //not a regular character in pdf
+		} else {
+			buff.WriteByte(c)
+		}
+	}
+	return buff.String()
 }
 
 // ReadShortFromByte read short from byte array
-- 
2.43.0


From b00f6fa3e9d7bbaa5dc203b2736248f9e133881e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:39 +0000
Subject: [PATCH 13/31] fix: passwords of the caller are not written to,
 unknown permission bits are ignored

---
 minigopdf/pdf_protection.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/minigopdf/pdf_protection.go b/minigopdf/pdf_protection.go
index 5fa588b..0e191ef 100644
--- a/minigopdf/pdf_protection.go
+++ b/minigopdf/pdf_protection.go
@@ -41,7 +41,7 @@ func (p *PDFProtection) SetProtection(permissions int, userPass []byte, ownerPas
 }
 
 func (p *PDFProtection) setProtection(permissions int, userPass []byte, ownerPass []byte) error {
-	protection := 192 | permissions
+	protection := 192 | (permissions & (PermissionsPrint | PermissionsModify | PermissionsCopy | PermissionsAnnotForms))
 	if ownerPass == nil || len(ownerPass) == 0 {
 		ownerPass = p.randomPass(24)
 	}
@@ -50,10 +50,8 @@ func (p *PDFProtection) setProtection(permissions int, userPass []byte, ownerPas
 
 func (p *PDFProtection) generateEncryptionKey(userPass []byte, ownerPass []byte, protection int) error {
 
-	userPass = append(userPass, protectionPadding...)
-	userPassWithPadding := userPass[0:32]
-	ownerPass = append(ownerPass, protectionPadding...)
-	ownerPassWithPadding := ownerPass[0:32]
+	userPassWithPadding := padPass(userPass)
+	ownerPassWithPadding := padPass(ownerPass)
 
 	//oValue
 	oValue, err := p.createOValue(userPassWithPadding, ownerPassWithPadding)
@@ -72,6 +70,14 @@ func (p *PDFProtection) generateEncryptionKey(userPass []byte, ownerPass []byte,
 	return nil
 }
 
+// padPass pads or cuts a password to 32 bytes (and leaves the password itself alone)
+func padPass(pass []byte) []byte {
+	padded := make([]byte, 0, len(pass)+len(protectionPadding))
+	padded = append(padded, pass...)
+	padded = append(padded, protectionPadding...)
+	return padded[0:32]
+}
+
 // EncryptionObj get Encryption Object
 func (p *PDFProtection) EncryptionObj() *EncryptionObj {
 	return p.encryptionObj()
@@ -136,7 +142,8 @@ func (p *PDFProtection) Objectkey(objID int) []byte {
 func (p *PDFProtection) objectkey(n int) []byte {
 	tmp := make([]byte, 8, 8)
 	binary.LittleEndian.PutUint32(tmp, uint32(n))
-	tmp2 := append(p.encryptionKey, tmp[0], tmp[1], tmp[2], 0, 0)
+	tmp2 := append([]byte{}, p.encryptionKey...)
+	tmp2 = append(tmp2, tmp[0], tmp[1], tmp[2], 0, 0)
 	tmp3 := md5.Sum(tmp2)
 	return tmp3[0:10]
 }
-- 
2.43.0


From a3ff4dae3b6a0b7fbbb84c61e93da244cd0aa205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:14 +0000
Subject: [PATCH 14/31] fix: subset fonts keep all glyphs they need, whatever
 glyphs characters share and however composites nest

---
 minigopdf/buff_write.go         | 11 ++++++++++-
 minigopdf/pdf_dictionary_obj.go | 25 ++++++++++++++---------
 minigopdf/subset_font_obj.go    | 35 ++++++++++++++++++---------------
 3 files changed, 45 insertions(+), 26 deletions(-)

diff --git a/minigopdf/buff_write.go b/minigopdf/buff_write.go
index 2901ff2..0cfefcf 100644
--- a/minigopdf/buff_write.go
+++ b/minigopdf/buff_write.go
@@ -40,7 +40,16 @@ func WriteTag(w io.Writer, tag string) error {
 // WriteBytes writes []byte value to w io.Writer
 func WriteBytes(w io.Writer, data []byte, offset int, count int) error {
 
-	_, err := w.Write(data[offset : offset+count])
+	end := offset + count
+	if end > len(data) {
+		end = len(data)
+	}
+	_, err := w.Write(data[offset:end])
+	if err != nil {
+		return err
+	}
+	//the last table of a font may come without padding
+	_, err = w.Write(make([]byte, offset+count-end))
 	if err != nil {
 		return err
 	}
diff --git a/minigopdf/pdf_dictionary_obj.go b/minigopdf/pdf_dictionary_obj.go
index 2da5c26..5bceae5 100644
--- a/minigopdf/pdf_dictionary_obj.go
+++ b/minigopdf/pdf_dictionary_obj.go
@@ -253,22 +253,23 @@ func (p *PdfDictionaryObj) makeFont() ([]byte, error) {
 
 func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGlyphIndex) []int {
 	var glyphArray []int
-	//copy
-	isContainZero := false
+	//copy (several characters can have the same glyph)
+	isContain := make(map[uint]bool)
 	glyphs := mapOfglyphs.AllVals()
 	for _, v := range glyphs {
-		glyphArray = append(glyphArray, int(v))
-		if v == 0 {
-			isContainZero = true
+		if isContain[v] {
+			continue
 		}
+		isContain[v] = true
+		glyphArray = append(glyphArray, int(v))
 	}
-	if !isContainZero {
+	if !isContain[0] {
 		glyphArray = append(glyphArray, 0)
 	}
 
+	//glyphArray grows, a component can be a composite glyph too
 	i := 0
-	count := len(glyphs)
-	for i < count {
+	for i < len(glyphArray) {
 		p.AddCompositeGlyphs(&glyphArray, glyphArray[i])
 		i++
 	}
@@ -286,6 +287,9 @@ func (p *PdfDictionaryObj) AddCompositeGlyphs(glyphArray *[]int, glyph int) {
 	offset := start
 	ttfp := p.PtrToSubsetFontObj.GetTTFParser()
 	fontData := ttfp.FontData()
+	if offset+2 > len(fontData) {
+		return
+	}
 	numContours, step := ReadShortFromByte(fontData, offset)
 	offset += step
 	if numContours >= 0 {
@@ -294,6 +298,9 @@ func (p *PdfDictionaryObj) AddCompositeGlyphs(glyphArray *[]int, glyph int) {
 
 	offset += 8
 	for {
+		if offset+4 > len(fontData) {
+			return
+		}
 		flags, step1 := ReadUShortFromByte(fontData, offset)
 		offset += step1
 		cGlyph, step2 := ReadUShortFromByte(fontData, offset)
@@ -306,7 +313,7 @@ func (p *PdfDictionaryObj) AddCompositeGlyphs(glyphArray *[]int, glyph int) {
 				break
 			}
 		}
-		if !glyphContainsKey {
+		if !glyphContainsKey && int(cGlyph) < int(ttfp.NumGlyphs()) {
 			*glyphArray = append(*glyphArray, int(cGlyph))
 		}
 
diff --git a/minigopdf/subset_font_obj.go b/minigopdf/subset_font_obj.go
index b77f7ee..f26cabc 100644
--- a/minigopdf/subset_font_obj.go
+++ b/minigopdf/subset_font_obj.go
@@ -187,7 +187,7 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat12(r rune) (uint, error) {
 	value := uint(r)
 	gTbs := s.ttfp.GroupingTables()
 	for _, gTb := range gTbs {
-		if value >= gTb.StartCharCode && value < gTb.EndCharCode {
+		if value >= gTb.StartCharCode && value <= gTb.EndCharCode {
 			gIndex := (value - gTb.StartCharCode) + gTb.GlyphID
 			return gIndex, nil
 		}
@@ -207,7 +207,7 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat4(r rune) (uint, error) {
 		seg++
 	}
 	//fmt.Printf("\ncccc--->%#v\n", me.ttfp.Chars())
-	if value < s.ttfp.StartCount[seg] {
+	if seg >= segCount || value < s.ttfp.StartCount[seg] {
 		return 0, nil
 	}
 
@@ -216,33 +216,36 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat4(r rune) (uint, error) {
 		return (value + s.ttfp.IdDelta[seg]) & 0xFFFF, nil
 	}
 	//fmt.Printf("IdRangeOffset=%d\n", me.ttfp.IdRangeOffset[seg])
-	idx := s.ttfp.IdRangeOffset[seg]/2 + (value - s.ttfp.StartCount[seg]) - (segCount - seg)
+	idx := int(s.ttfp.IdRangeOffset[seg]/2) + int(value-s.ttfp.StartCount[seg]) - int(segCount-seg)
+	if idx < 0 || idx >= len(s.ttfp.GlyphIdArray) {
+		return 0, nil
+	}
 
-	if s.ttfp.GlyphIdArray[int(idx)] == uint(0) {
+	if s.ttfp.GlyphIdArray[idx] == uint(0) {
 		return 0, nil
 	}
 
-	return (s.ttfp.GlyphIdArray[int(idx)] + s.ttfp.IdDelta[seg]) & 0xFFFF, nil
+	return (s.ttfp.GlyphIdArray[idx] + s.ttfp.IdDelta[seg]) & 0xFFFF, nil
 }
 
 // CharCodeToGlyphIndex get glyph index from char code
 func (s *SubsetFontObj) CharCodeToGlyphIndex(r rune) (uint, error) {
 
+	var gIndex uint
+	var err error
 	value := uint64(r)
 	if value <= 0xFFFF {
-		gIndex, err := s.charCodeToGlyphIndexFormat4(r)
-		if err != nil {
-			return 0, err
-		}
-		return gIndex, nil
+		gIndex, err = s.charCodeToGlyphIndexFormat4(r)
 	} else {
-		gIndex, err := s.charCodeToGlyphIndexFormat12(r)
-		if err != nil {
-			return 0, err
-		}
-		return gIndex, nil
+		gIndex, err = s.charCodeToGlyphIndexFormat12(r)
 	}
-
+	if err != nil {
+		return 0, err
+	}
+	if gIndex >= s.ttfp.NumGlyphs() {
+		return 0, nil //font has no such glyph
+	}
+	return gIndex, nil
 }
 
 // GlyphIndexToPdfWidth get with from glyphIndex
-- 
2.43.0


From d2476fa7b9680844effb64e0b83eacd4f80321c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:58 +0000
Subject: [PATCH 15/31] fix: refuse fonts whose tables are missing or do not
 fit in the file

---
 minigopdf/fontmaker/core/ttfparser.go         | 54 ++++++++++++++++++-
 .../core/ttfparser_cmap_other_format.go       |  6 ++-
 2 files changed, 57 insertions(+), 3 deletions(-)

diff --git a/minigopdf/fontmaker/core/ttfparser.go b/minigopdf/fontmaker/core/ttfparser.go
index c750a59..92b2561 100644
--- a/minigopdf/fontmaker/core/ttfparser.go
+++ b/minigopdf/fontmaker/core/ttfparser.go
@@ -20,6 +20,9 @@ var ERROR_UNEXPECTED_SUBTABLE_FORMAT = errors.New("Unexpected subtable format")
 var ERROR_INCORRECT_MAGIC_NUMBER = errors.New("Incorrect magic number")
 var ERROR_POSTSCRIPT_NAME_NOT_FOUND = errors.New("PostScript name not found")
 
+// ErrInvalidFont tables of font do not fit together or in the file
+var ErrInvalidFont = errors.New("invalid font")
+
 // TTFParser true type font parser
 type TTFParser struct {
 	tables map[string]TableDirectoryEntry
@@ -274,6 +277,14 @@ func (t *TTFParser) parse(rd io.Reader) error {
 		i++
 	}
 
+	//tables that are copied when the font is embedded
+	for _, tag := range []string{"cvt ", "fpgm", "glyf", "head", "hhea", "hmtx", "loca", "maxp", "prep"} {
+		table := t.tables[tag]
+		if table.Offset+table.Length > uint(len(fontdata)) {
+			return ErrInvalidFont
+		}
+	}
+
 	//fmt.Printf("%+v\n", me.tables)
 
 	err = t.ParseHead(fd)
@@ -371,6 +382,19 @@ func (t *TTFParser) ParseLoca(fd *bytes.Reader) error {
 			i++
 		}
 	}
+	glyf, ok := t.tables["glyf"]
+	if !ok {
+		return ErrTableNotFound
+	}
+	if uint(len(locaTable)) <= t.numGlyphs {
+		return ErrInvalidFont
+	}
+	locaTable = locaTable[:t.numGlyphs+1]
+	for i, offset := range locaTable {
+		if glyf.Offset+offset > uint(fd.Size()) || (i > 0 && offset < locaTable[i-1]) {
+			return ErrInvalidFont
+		}
+	}
 	t.LocaTable = locaTable
 	return nil
 }
@@ -600,7 +624,10 @@ func (t *TTFParser) PregReplace(pattern string, replacement string, subject stri
 
 // ParseCmap parse cmap table format 4 https://www.microsoft.com/typography/otspec/cmap.htm
 func (t *TTFParser) ParseCmap(fd *bytes.Reader) error {
-	t.Seek(fd, "cmap")
+	err := t.Seek(fd, "cmap")
+	if err != nil {
+		return err
+	}
 	t.Skip(fd, 2) // version
 	numTables, err := t.ReadUShort(fd)
 	if err != nil {
@@ -675,6 +702,9 @@ func (t *TTFParser) ParseCmap(fd *bytes.Reader) error {
 		return err
 	}
 
+	if length < 16+8*segCount {
+		return ErrInvalidFont
+	}
 	glyphCount := (length - (16 + 8*segCount)) / 2
 	//fmt.Printf("\nglyphCount=%d\n", glyphCount)
 
@@ -733,6 +763,7 @@ func (t *TTFParser) ParseCmap(fd *bytes.Reader) error {
 	t.GlyphIdArray = glyphIDArray
 
 	t.chars = make(map[int]uint)
+	numChars := uint(0)
 	for i := 0; i < int(segCount); i++ {
 		c1 := startCount[i]
 		c2 := endCount[i]
@@ -745,6 +776,14 @@ func (t *TTFParser) ParseCmap(fd *bytes.Reader) error {
 			}
 		}
 
+		//segments do not overlap, there are no more than 65536 characters
+		if c1 <= c2 {
+			numChars += c2 - c1 + 1
+		}
+		if numChars > 2*65536 {
+			return ErrInvalidFont
+		}
+
 		for c := c1; c <= c2; c++ {
 			var gid uint
 			if c == 0xFFFF {
@@ -789,7 +828,11 @@ func (t *TTFParser) FTell(fd *bytes.Reader) (uint, error) {
 // ParseHmtx parse hmtx table  https://www.microsoft.com/typography/otspec/hmtx.htm
 func (t *TTFParser) ParseHmtx(fd *bytes.Reader) error {
 
-	t.Seek(fd, "hmtx")
+	err := t.Seek(fd, "hmtx")
+	if err != nil {
+		return err
+	}
+	t.widths = nil
 	i := uint(0)
 	for i < t.numberOfHMetrics {
 		advanceWidth, err := t.ReadUShort(fd)
@@ -863,6 +906,10 @@ func (t *TTFParser) ParseHead(fd *bytes.Reader) error {
 		return err
 	}
 
+	if t.unitsPerEm == 0 {
+		return ErrInvalidFont
+	}
+
 	err = t.Skip(fd, 2*8) // created, modified
 	if err != nil {
 		return err
@@ -933,6 +980,9 @@ func (t *TTFParser) ParseHhea(fd *bytes.Reader) error {
 	if err != nil {
 		return err
 	}
+	if t.numberOfHMetrics == 0 {
+		return ErrInvalidFont
+	}
 
 	return nil
 }
diff --git a/minigopdf/fontmaker/core/ttfparser_cmap_other_format.go b/minigopdf/fontmaker/core/ttfparser_cmap_other_format.go
index e3d8512..5f59bf1 100644
--- a/minigopdf/fontmaker/core/ttfparser_cmap_other_format.go
+++ b/minigopdf/fontmaker/core/ttfparser_cmap_other_format.go
@@ -8,7 +8,10 @@ import (
 // ParseCmapFormat12 parse cmap table format 12 https://www.microsoft.com/typography/otspec/cmap.htm
 func (t *TTFParser) ParseCmapFormat12(fd *bytes.Reader) (bool, error) {
 
-	t.Seek(fd, "cmap")
+	err := t.Seek(fd, "cmap")
+	if err != nil {
+		return false, err
+	}
 	t.Skip(fd, 2) //skip version
 	numTables, err := t.ReadUShort(fd)
 	if err != nil {
@@ -88,6 +91,7 @@ func (t *TTFParser) ParseCmapFormat12(fd *bytes.Reader) (bool, error) {
 		return false, err
 	}
 
+	t.groupingTables = nil
 	g := uint(0)
 	for g < nGroups {
 		startCharCode, err := t.ReadULong(fd)
-- 
2.43.0


From cce7a6b03f505ccb5c5c4ceeb1f1cd4a20574495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:32 +0000
Subject: [PATCH 16/31] fix: read all horizontal kerning subtables, also for a
 kerning override

---
 minigopdf/fontmaker/core/ttfparser_kern.go | 44 ++++++++++++++++++----
 minigopdf/subset_font_obj.go               |  1 +
 2 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/minigopdf/fontmaker/core/ttfparser_kern.go b/minigopdf/fontmaker/core/ttfparser_kern.go
index 92315b7..47b7578 100644
--- a/minigopdf/fontmaker/core/ttfparser_kern.go
+++ b/minigopdf/fontmaker/core/ttfparser_kern.go
@@ -17,6 +17,7 @@ func (t *TTFParser) Parsekern(fd *bytes.Reader) error {
 	}
 
 	t.kern = new(KernTable) //init
+	t.kern.Kerning = make(KernMap)
 
 	version, err := t.ReadUShort(fd)
 	if err != nil {
@@ -42,6 +43,18 @@ func (t *TTFParser) Parsekern(fd *bytes.Reader) error {
 	return nil
 }
 
+// LoadKern parse kerning table of a font that was parsed without it
+func (t *TTFParser) LoadKern() error {
+	if t.kern != nil || t.cahceFontData == nil {
+		return nil
+	}
+	err := t.Parsekern(bytes.NewReader(t.cahceFontData))
+	if err != nil {
+		t.kern = nil
+	}
+	return err
+}
+
 func (t *TTFParser) parsekernSubTable(fd *bytes.Reader) error {
 
 	t.Skip(fd, 2+2) //skip version and length
@@ -51,11 +64,10 @@ func (t *TTFParser) parsekernSubTable(fd *bytes.Reader) error {
 		return err
 	}
 
-	format := coverage & 0xf0
+	format := coverage >> 8
 	//fmt.Printf("format = %d\n", format) //debug
-	t.kern.Kerning = make(KernMap) //init
 	if format == 0 {
-		t.parsekernSubTableFormat0(fd)
+		return t.parsekernSubTableFormat0(fd, coverage)
 	} else {
 		//not support other format yet
 		return fmt.Errorf("not support kerning format %d", format)
@@ -64,7 +76,15 @@ func (t *TTFParser) parsekernSubTable(fd *bytes.Reader) error {
 	return nil
 }
 
-func (t *TTFParser) parsekernSubTableFormat0(fd *bytes.Reader) error {
+// bits of coverage
+const (
+	kernHorizontal  = 1
+	kernMinimum     = 2
+	kernCrossStream = 4
+	kernOverride    = 8
+)
+
+func (t *TTFParser) parsekernSubTableFormat0(fd *bytes.Reader, coverage uint) error {
 	nPairs, err := t.ReadUShort(fd)
 	if err != nil {
 		return err
@@ -88,12 +108,20 @@ func (t *TTFParser) parsekernSubTableFormat0(fd *bytes.Reader) error {
 			return err
 		}
 
-		if _, ok := t.kern.Kerning[left]; !ok {
-			kval := make(KernValue)
-			kval[right] = value
+		if coverage&(kernHorizontal|kernMinimum|kernCrossStream) != kernHorizontal {
+			i++
+			continue //not the space between characters of a line
+		}
+
+		kval, ok := t.kern.Kerning[left]
+		if !ok {
+			kval = make(KernValue)
 			t.kern.Kerning[left] = kval
+		}
+		if coverage&kernOverride != 0 {
+			kval[right] = value
 		} else {
-			(t.kern.Kerning[left])[right] = value
+			kval[right] += value //values of subtables add up
 		}
 		//_ = fmt.Sprintf("nPairs %d left %d right %d value %d\n", nPairs, left, right, value) //debug
 		i++
diff --git a/minigopdf/subset_font_obj.go b/minigopdf/subset_font_obj.go
index f26cabc..ff5cf2e 100644
--- a/minigopdf/subset_font_obj.go
+++ b/minigopdf/subset_font_obj.go
@@ -35,6 +35,7 @@ func (s *SubsetFontObj) SetFuncKernOverride(funcKernOverride FuncKernOverride) {
 	s.funcKernOverride = funcKernOverride
 	if s.funcKernOverride != nil {
 		s.ttfFontOption.UseKerning = true
+		s.ttfp.LoadKern()
 	} else {
 		s.ttfFontOption.UseKerning = false
 	}
-- 
2.43.0


From d04752cd26891eb66aaa77f6a8ccfcf35090a23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:43 +0000
Subject: [PATCH 17/31] fix: images of all supported kinds keep their pixels,
 broken ones are refused

---
 minigopdf/device_rgb_obj.go  | 12 ++++++++
 minigopdf/gopdf.go           |  5 +++-
 minigopdf/image_obj.go       | 13 +++++++++
 minigopdf/image_obj_parse.go | 55 ++++++++++++++++++++++--------------
 pdft.go                      | 28 ++++++++++++++++++
 5 files changed, 91 insertions(+), 22 deletions(-)

diff --git a/minigopdf/device_rgb_obj.go b/minigopdf/device_rgb_obj.go
index 49f5336..42cd9c6 100644
--- a/minigopdf/device_rgb_obj.go
+++ b/minigopdf/device_rgb_obj.go
@@ -17,6 +17,9 @@ func (d *DeviceRGBObj) init(funcGetRoot func() *GoPdf) {
 }
 
 func (d *DeviceRGBObj) protection() *PDFProtection {
+	if d.getRoot == nil {
+		return nil
+	}
 	return d.getRoot().protection()
 }
 
@@ -49,3 +52,12 @@ func (d *DeviceRGBObj) build(objID int) error {
 
 	return nil
 }
+
+// BytesBuffer byte buffer
+func (d *DeviceRGBObj) BytesBuffer(objID int) (*bytes.Buffer, error) {
+	err := d.build(objID)
+	if err != nil {
+		return nil, err
+	}
+	return d.getObjBuff(), nil
+}
diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index 718e6fb..50c0f1f 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -247,7 +247,7 @@ func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect
 			if err != nil {
 				return err
 			}
-			imgobj.imginfo.smarkObjID = gp.addObj(smaskObj)
+			imgobj.imginfo.smarkObjID = gp.addObj(smaskObj) + 1
 		}
 
 		if imgobj.isColspaceIndexed() {
@@ -255,6 +255,9 @@ func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect
 			if err != nil {
 				return err
 			}
+			dRGB.init(func() *GoPdf {
+				return gp
+			})
 			imgobj.imginfo.deviceRGBObjID = gp.addObj(dRGB)
 		}
 
diff --git a/minigopdf/image_obj.go b/minigopdf/image_obj.go
index d4ae94c..8cf601b 100644
--- a/minigopdf/image_obj.go
+++ b/minigopdf/image_obj.go
@@ -98,6 +98,19 @@ func (i *ImageObj) createSMask() (*SMask, error) {
 	return &smk, nil
 }
 
+// CreateDeviceRGB create palette (nil if the image has no palette)
+func (i *ImageObj) CreateDeviceRGB() (*DeviceRGBObj, error) {
+	if !i.isColspaceIndexed() {
+		return nil, nil
+	}
+	return i.createDeviceRGB()
+}
+
+// SetDeviceRGBObjID set objId of palette
+func (i *ImageObj) SetDeviceRGBObjID(objID int) {
+	i.imginfo.deviceRGBObjID = objID - 1
+}
+
 func (i *ImageObj) createDeviceRGB() (*DeviceRGBObj, error) {
 	var dRGB DeviceRGBObj
 	dRGB.data = i.imginfo.pal
diff --git a/minigopdf/image_obj_parse.go b/minigopdf/image_obj_parse.go
index e230ff5..1f53e38 100644
--- a/minigopdf/image_obj_parse.go
+++ b/minigopdf/image_obj_parse.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"image"
 	"image/color"
+	"io"
 	"io/ioutil"
 	"strings"
 )
@@ -101,6 +102,8 @@ func parseImg(raw *bytes.Reader) (imgInfo, error) {
 		if err != nil {
 			return info, err
 		}
+	} else {
+		return info, errors.New("image format not support")
 	}
 
 	//fmt.Printf("%#v\n", info)
@@ -249,10 +252,16 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 			}
 
 			if ct[0] == 0 {
+				if len(t) < 2 {
+					return errors.New("Incorrect PNG file")
+				}
 				trns = []byte{(t[1])}
 			} else if ct[0] == 2 {
+				if len(t) < 6 {
+					return errors.New("Incorrect PNG file")
+				}
 				trns = []byte{t[1], t[3], t[5]}
-			} else {
+			} else if ct[0] == 3 {
 				pos := strings.Index(string(t), "\x00")
 				if pos >= 0 {
 					trns = []byte{byte(pos)}
@@ -284,10 +293,6 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 				return err
 			}
 		}
-
-		if n <= 0 {
-			break
-		}
 	} //end for
 
 	//info.data = data //ok
@@ -296,7 +301,7 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 
 	//fmt.Printf("data= %x", md5.Sum(data))
 
-	if colspace == "Indexed" && strings.TrimSpace(string(pal)) == "" {
+	if colspace == "Indexed" && len(pal) < 3 {
 		return errors.New("Missing palette")
 	}
 
@@ -325,6 +330,14 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 			return err
 		}
 
+		lineSize := 1 + 2*w
+		if ct[0] == 6 {
+			lineSize = 1 + 4*w
+		}
+		if len(afterZipData)/lineSize < h {
+			return errors.New("Incorrect PNG file")
+		}
+
 		var color []byte
 		var alpha []byte
 		if ct[0] == 4 {
@@ -367,15 +380,15 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 
 				i++
 			}
-			info.smask, err = compress(alpha)
-			if err != nil {
-				return err
-			}
+		}
+		info.smask, err = compress(alpha)
+		if err != nil {
+			return err
+		}
 
-			info.data, err = compress(color)
-			if err != nil {
-				return err
-			}
+		info.data, err = compress(color)
+		if err != nil {
+			return err
 		}
 
 	} else {
@@ -416,18 +429,18 @@ func readInt(f *bytes.Reader) (int, error) {
 	if err != nil {
 		return 0, err
 	}
-	var v int
-	if u >= 0x8000 {
-		v = int(u) - 65536
-	} else {
-		v = int(u)
+	if u > 0x7fffffff {
+		return 0, errors.New("Incorrect PNG file")
 	}
-	return v, nil
+	return int(u), nil
 }
 
 func readBytes(f *bytes.Reader, len int) ([]byte, error) {
+	if len > f.Len() {
+		return nil, io.ErrUnexpectedEOF
+	}
 	b := make([]byte, len)
-	_, err := f.Read(b)
+	_, err := io.ReadFull(f, b)
 	if err != nil {
 		return nil, err
 	}
diff --git a/pdft.go b/pdft.go
index 31c9101..5b1e8a3 100644
--- a/pdft.go
+++ b/pdft.go
@@ -394,6 +394,10 @@ func (i *PDFt) InsertImgBase64(base64str string, pageNum int, x float64, y float
 		imgObj.SetSMaskObjID(smaskObjID)
 	}
 
+	err = i.putPalette(&imgObj)
+	if err != nil {
+		return err
+	}
 	err = pdfimg.setImgObj(imgObj)
 	if err != nil {
 		return err
@@ -440,6 +444,10 @@ func (i *PDFt) InsertImg(img []byte, pageNum int, x float64, y float64, w float6
 		imgObj.SetSMaskObjID(smaskObjID)
 	}
 
+	err = i.putPalette(&imgObj)
+	if err != nil {
+		return err
+	}
 	err = pdfimg.setImgObj(imgObj)
 	if err != nil {
 		return err
@@ -486,6 +494,10 @@ func (i *PDFt) InsertImgWithCache(img []byte, pageNum int, x float64, y float64,
 			smaskObjID := i.pdf.putNewObject(pdfObj)
 			imgObj.SetSMaskObjID(smaskObjID)
 		}
+		err = i.putPalette(&imgObj)
+		if err != nil {
+			return err
+		}
 		err = pdfimg.setImgObj(imgObj)
 		if err != nil {
 			return err
@@ -509,6 +521,22 @@ func (i *PDFt) InsertImgWithCache(img []byte, pageNum int, x float64, y float64,
 	return nil
 }
 
+// putPalette put palette of img (if it has one) to pdf
+func (i *PDFt) putPalette(imgObj *gopdf.ImageObj) error {
+	palette, err := imgObj.CreateDeviceRGB()
+	if err != nil || palette == nil {
+		return err
+	}
+	buff, err := palette.BytesBuffer(0)
+	if err != nil {
+		return err
+	}
+	var pdfObj PDFObjData
+	pdfObj.data = buff.Bytes()
+	imgObj.SetDeviceRGBObjID(i.pdf.putNewObject(pdfObj))
+	return nil
+}
+
 // appendContenter append content of a page, it stays on that page even if the page's number changes
 func (i *PDFt) appendContenter(c Contenter) {
 	ctn := pageContenter{Contenter: c}
-- 
2.43.0


From f6e65b9c0e3c255ccea5e7a5449825d37bba9fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:48 +0000
Subject: [PATCH 18/31] fix: encrypt the strings of fonts in protected
 documents

---
 minigopdf/cid_font_obj.go | 30 ++++++++++++++++++++++++++++--
 minigopdf/gopdf.go        |  1 +
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/minigopdf/cid_font_obj.go b/minigopdf/cid_font_obj.go
index cdfcf02..5b44563 100644
--- a/minigopdf/cid_font_obj.go
+++ b/minigopdf/cid_font_obj.go
@@ -9,6 +9,23 @@ type CIDFontObj struct {
 	buffer                    bytes.Buffer
 	PtrToSubsetFontObj        *SubsetFontObj
 	indexObjSubfontDescriptor int
+	pdfProtection             *PDFProtection
+}
+
+func (ci *CIDFontObj) setProtection(p *PDFProtection) {
+	ci.pdfProtection = p
+}
+
+// pdfString create pdf string (encrypted if the document is)
+func (ci *CIDFontObj) pdfString(objID int, str string) (string, error) {
+	if ci.pdfProtection == nil {
+		return "(" + str + ")", nil
+	}
+	tmp, err := rc4Cip(ci.pdfProtection.objectkey(objID), []byte(str))
+	if err != nil {
+		return "", err
+	}
+	return fmt.Sprintf("<%X>", tmp), nil
 }
 
 func (ci *CIDFontObj) init(funcGetRoot func() *GoPdf) {
@@ -16,13 +33,22 @@ func (ci *CIDFontObj) init(funcGetRoot func() *GoPdf) {
 
 func (ci *CIDFontObj) build(objID int) error {
 
+	ordering, err := ci.pdfString(objID, "Identity")
+	if err != nil {
+		return err
+	}
+	registry, err := ci.pdfString(objID, "Adobe")
+	if err != nil {
+		return err
+	}
+
 	ci.buffer.Reset()
 	ci.buffer.WriteString("<<\n")
 	ci.buffer.WriteString(fmt.Sprintf("/BaseFont /%s\n", CreateEmbeddedFontSubsetName(ci.PtrToSubsetFontObj.GetFamily())))
 	ci.buffer.WriteString("/CIDSystemInfo\n")
 	ci.buffer.WriteString("<<\n")
-	ci.buffer.WriteString("  /Ordering (Identity)\n")
-	ci.buffer.WriteString("  /Registry (Adobe)\n")
+	ci.buffer.WriteString("  /Ordering " + ordering + "\n")
+	ci.buffer.WriteString("  /Registry " + registry + "\n")
 	ci.buffer.WriteString("  /Supplement 0\n")
 	ci.buffer.WriteString(">>\n")
 	ci.buffer.WriteString(fmt.Sprintf("/FontDescriptor %d 0 R\n", ci.indexObjSubfontDescriptor+1)) //TODO fix
diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index 50c0f1f..28477cd 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -545,6 +545,7 @@ func (gp *GoPdf) AddTTFFontByReaderWithOption(family string, rd io.Reader, optio
 	cidfont.init(func() *GoPdf {
 		return gp
 	})
+	cidfont.setProtection(gp.protection())
 	cidfont.SetPtrToSubsetFontObj(subsetFont)
 	cidfont.SetIndexObjSubfontDescriptor(subfontdescindex)
 	cidindex := gp.addObj(cidfont)
-- 
2.43.0


From cb6d484704819b1d04fd20615308c89c88f46b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:16 +0000
Subject: [PATCH 19/31] fix: open templates whose /Info is not a reference

---
 pdf_parse.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pdf_parse.go b/pdf_parse.go
index 3e46615..35d2913 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -144,10 +144,9 @@ func parseTrailer(raw *[]byte, pdf *PDFData) error {
 		pdf.trailer.rootObjID = rootID
 		if propInfo := props.getPropByKey("Info"); propInfo != nil {
 			infoID, _, err := propInfo.asDictionary()
-			if err != nil {
-				return err
+			if err == nil { //not a reference in documents of minigopdf
+				pdf.trailer.infoObjID = infoID
 			}
-			pdf.trailer.infoObjID = infoID
 		}
 	}
 	if pdf.trailer.rootObjID == 0 {
-- 
2.43.0


From 494d04971912b83183ac83ce12774842cc1d878c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:51 +0000
Subject: [PATCH 20/31] fix: a first token wider than the cell does not leave
 an empty line before it

---
 pdft.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdft.go b/pdft.go
index 5b1e8a3..ee436ba 100644
--- a/pdft.go
+++ b/pdft.go
@@ -270,7 +270,7 @@ func (i *PDFt) InsertWrapText(text string,
 		if err != nil {
 			return err
 		}
-		if width > w {
+		if width > w && prevText != "" { //a token wider than w has a line of its own
 			renderCaches = append(renderCaches, cacheWrapTextRender{
 				text:      strings.TrimSpace(prevText),
 				pageNum:   pageNum,
-- 
2.43.0


From dd0e5a2de0fd5dab5ed1696571c96d798f7bdbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:05 +0000
Subject: [PATCH 21/31] fix: endobj in a string that is not in a dictionary
 does not end the object

---
 pdf_obj_data.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pdf_obj_data.go b/pdf_obj_data.go
index 63297df..44b0fcf 100644
--- a/pdf_obj_data.go
+++ b/pdf_obj_data.go
@@ -34,13 +34,13 @@ func (p *PDFObjData) parse(raw *[]byte, stratoffset int) error {
 
 	startObjLine := tmp[startObjIndex[0]:startObjIndex[1]]
 	tmp = tmp[startObjIndex[1]:]
-	//endobj in the data of a stream is not the end of the object
-	streamOffset := endOfStream(tmp)
-	endObjIndex = regexpEndObj.FindIndex(tmp[streamOffset:])
+	//endobj in the data of a stream or in a string is not the end of the object
+	valueOffset := endOfValue(tmp)
+	endObjIndex = regexpEndObj.FindIndex(tmp[valueOffset:])
 	if endObjIndex == nil {
 		return errors.New("bad endobj")
 	}
-	data := tmp[:streamOffset+endObjIndex[0]]
+	data := tmp[:valueOffset+endObjIndex[0]]
 	objID, err := objIDFromStartObjLine(string(startObjLine))
 	if err != nil {
 		return err
@@ -52,16 +52,24 @@ func (p *PDFObjData) parse(raw *[]byte, stratoffset int) error {
 	return nil
 }
 
-// endOfStream returns the index after the data of the stream raw starts with, 0 if it does not start with a stream
-func endOfStream(raw []byte) int {
+// endOfValue returns the index after the stream, dictionary, array or string raw starts with, 0 if it starts with none of them
+func endOfValue(raw []byte) int {
 	var props PDFObjPropertiesData
 	end, err := readPropertiesEnd(raw, &props)
 	if err != nil {
-		return 0
+		start := scanSpace(raw, 0)
+		if start >= len(raw) || (raw[start] != '(' && raw[start] != '[') {
+			return 0
+		}
+		end = scanValue(raw, start, 0)
+		if end == -1 {
+			return 0
+		}
+		return end
 	}
 	start := scanStream(raw, end)
 	if start == -1 {
-		return 0
+		return end
 	}
 	return streamEnd(raw, start, props.streamLength(nil))
 }
-- 
2.43.0


From 510c8e5a362704c986970e69909fb040b0288d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:34 +0000
Subject: [PATCH 22/31] fix: refuse object numbers no reader supports instead
 of writing an xref entry for all numbers below

---
 pdf_data.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdf_data.go b/pdf_data.go
index 9bb4479..1145086 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -387,6 +387,9 @@ func newStreamObj(stm []byte) PDFObjData {
 
 var extractStreamBytes = []byte{0x73, 0x74, 0x72, 0x65, 0x61, 0x6D}
 
+// maxObjID is the largest object number readers support, the xref table has an entry for all numbers below the largest one
+const maxObjID = 8388607
+
 func objIDFromStartObjLine(line string) (int, error) {
 	tokens := strings.Fields(line)
 	if len(tokens) < 3 {
@@ -396,5 +399,8 @@ func objIDFromStartObjLine(line string) (int, error) {
 	if err != nil {
 		return 0, err
 	}
+	if id > maxObjID {
+		return 0, errors.New("bad obj number")
+	}
 	return id, nil
 }
-- 
2.43.0


From 3f21366eb91510167d9070d9c4e39dd1831bb4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:34 +0000
Subject: [PATCH 23/31] fix: refuse fonts without glyphs

---
 minigopdf/fontmaker/core/ttfparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minigopdf/fontmaker/core/ttfparser.go b/minigopdf/fontmaker/core/ttfparser.go
index 92b2561..899762c 100644
--- a/minigopdf/fontmaker/core/ttfparser.go
+++ b/minigopdf/fontmaker/core/ttfparser.go
@@ -386,7 +386,7 @@ func (t *TTFParser) ParseLoca(fd *bytes.Reader) error {
 	if !ok {
 		return ErrTableNotFound
 	}
-	if uint(len(locaTable)) <= t.numGlyphs {
+	if t.numGlyphs == 0 || uint(len(locaTable)) <= t.numGlyphs {
 		return ErrInvalidFont
 	}
 	locaTable = locaTable[:t.numGlyphs+1]
-- 
2.43.0


From 9a38e9e9fcece748ec6607e89a554c72a380c848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:22 +0000
Subject: [PATCH 24/31] fix: keep the minutes of the time zone of the creation
 date

---
 minigopdf/gopdf.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index 28477cd..3262cf5 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -869,8 +869,9 @@ func encodeUtf8(str string) string {
 }
 
 func infodate(t time.Time) string {
-	ft := t.Format("20060102150405-07'00'")
-	return ft
+	ft := t.Format("20060102150405-0700")
+	n := len(ft) - 2
+	return ft[:n] + "'" + ft[n:] + "'"
 }
 
 //tool for validate pdf https://www.pdf-online.com/osa/validate.aspx
-- 
2.43.0


From dc6a63b29cbcd3fb0707ab60d8967164ef5ca984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:18 +0000
Subject: [PATCH 25/31] fix: PostScript names keep their zeros and lose what a
 name cannot contain

---
 minigopdf/fontmaker/core/ttfparser.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/minigopdf/fontmaker/core/ttfparser.go b/minigopdf/fontmaker/core/ttfparser.go
index 899762c..f7f350b 100644
--- a/minigopdf/fontmaker/core/ttfparser.go
+++ b/minigopdf/fontmaker/core/ttfparser.go
@@ -11,8 +11,6 @@ import (
 	"io/ioutil"
 	"os"
 	"regexp"
-	"strconv"
-	"strings"
 )
 
 var ERROR_NO_UNICODE_ENCODING_FOUND = errors.New("No Unicode encoding found")
@@ -594,8 +592,7 @@ func (t *TTFParser) ParseName(fd *bytes.Reader) error {
 				}
 			}
 			s := fmt.Sprintf("%s", string(tmpStmp)) //strings(stmp)
-			s = strings.Replace(s, strconv.Itoa(0), "", -1)
-			s, err = t.PregReplace("|[ \\[\\](){}<>/%]|", "", s)
+			s, err = t.PregReplace("[ \\[\\](){}<>/%]", "", s)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 621d978fb577ade1591c896c41c8e985b2c8fb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:18 +0000
Subject: [PATCH 26/31] fix: font maker refuses broken maps and writes the
 font's size and the code of the first difference

---
 minigopdf/fontmaker/core/fontmaker.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/minigopdf/fontmaker/core/fontmaker.go b/minigopdf/fontmaker/core/fontmaker.go
index 549e3a5..27147f9 100644
--- a/minigopdf/fontmaker/core/fontmaker.go
+++ b/minigopdf/fontmaker/core/fontmaker.go
@@ -16,6 +16,9 @@ import (
 // ErrFontLicenseDoesNotAllowEmbedding Font license does not allow embedding
 var ErrFontLicenseDoesNotAllowEmbedding = errors.New("Font license does not allow embedding")
 
+// ErrInvalidMap map file is invalid
+var ErrInvalidMap = errors.New("invalid map file")
+
 // FontMaker font maker
 type FontMaker struct {
 	results []string
@@ -190,8 +193,12 @@ func (f *FontMaker) MakeDefinitionFile(gofontname string, mappath string, export
 	str += "\treturn me.diff\n"
 	str += "}\n"
 
+	originalSize, err := info.GetInt64("OriginalSize")
+	if err != nil {
+		return "", err
+	}
 	str += "func (me * " + gofontname + ") GetOriginalsize() int{\n"
-	str += "\treturn 98764\n"
+	str += fmt.Sprintf("\treturn %d\n", originalSize)
 	str += "}\n"
 
 	str += "func (me * " + gofontname + ")  SetFamily(family string){\n"
@@ -309,7 +316,7 @@ func (f *FontMaker) MakeFontEncoding(mappath string, fontmaps []FontMap) (string
 		return "", err
 	}
 	s := ""
-	last := 0
+	last := -2 //the first name always comes after its code
 	for c := 0; c <= 255; c++ {
 		if fontmaps[c].Name != ref[c].Name {
 			if c != last+1 {
@@ -382,7 +389,7 @@ func (f *FontMaker) GetInfoFromTrueType(fontpath string, fontmaps []FontMap) (Tt
 	if err != nil {
 		return nil, err
 	}
-	info.PushInt64("OriginalSize", size)
+	info.PushInt("OriginalSize", int(size))
 
 	k := float64(1000.0 / float64(parser.unitsPerEm))
 	info.PushString("FontName", parser.postScriptName)
@@ -468,7 +475,13 @@ func (f *FontMaker) LoadMap(encodingpath string) ([]FontMap, error) {
 	scanner.Split(bufio.ScanLines)
 	for scanner.Scan() {
 		line := strings.TrimSpace(scanner.Text())
+		if line == "" {
+			continue
+		}
 		e := strings.Split(line, " ")
+		if len(e) < 3 || e[0] == "" || len(e[1]) < 2 {
+			return nil, ErrInvalidMap
+		}
 		strC := (e[0])[1:]
 		strUv := (e[1])[2:]
 		c, err := strconv.ParseInt(strC, 16, 0)
@@ -479,11 +492,17 @@ func (f *FontMaker) LoadMap(encodingpath string) ([]FontMap, error) {
 		if err != nil {
 			return nil, err
 		}
+		if c < 0 || c >= int64(max) {
+			return nil, ErrInvalidMap
+		}
 		name := e[2]
 		//fmt.Println("strC = "+strC+"strUv = "+strUv+" c=%d , uv= %d", c, uv)
 		fontmaps[c].Name = name
 		fontmaps[c].Uv = int(uv)
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
 
 	return fontmaps, nil
 }
-- 
2.43.0


From 0b8701d4b543afbf5ed33373d053a4ff4d39061d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:36 +0000
Subject: [PATCH 27/31] fix: white space and comments of any kind inside
 references, arrays and around values

---
 pdf_data.go              |  7 ++++++-
 pdf_obj_property_data.go |  8 ++++----
 pdf_parse.go             |  4 ++--
 pdf_scan.go              | 14 ++++++++++++++
 4 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index 1145086..123a8eb 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -82,7 +82,12 @@ func (p *PDFData) resolve(raw string) string {
 		if obj == nil {
 			return "null"
 		}
-		raw = strings.TrimSpace(string(obj.data))
+		start := scanSpace(obj.data, 0) //there may be comments around the value
+		if end := scanValue(obj.data, start, 0); end != -1 {
+			raw = string(obj.data[start:end])
+		} else {
+			raw = strings.TrimSpace(string(obj.data))
+		}
 	}
 	return "null"
 }
diff --git a/pdf_obj_property_data.go b/pdf_obj_property_data.go
index 95461b5..27a6f8e 100644
--- a/pdf_obj_property_data.go
+++ b/pdf_obj_property_data.go
@@ -109,9 +109,9 @@ func readPropertiesEnd(raw []byte, outProps *PDFObjPropertiesData) (int, error)
 
 func readObjIDFromDictionaryArr(str string) ([]int, []int, error) {
 
-	str = strings.Replace(str, "[", "", -1)
-	str = strings.Replace(str, "]", "", -1)
-	tokens := strings.Fields(str)
+	str = strings.TrimPrefix(strings.TrimSpace(str), "[")
+	str = strings.TrimSuffix(str, "]")
+	tokens := scanFields(str)
 	if len(tokens)%3 != 0 {
 		return nil, nil, ErrorObjectIDNotFound
 	}
@@ -142,7 +142,7 @@ var ErrorObjectIDNotFound = errors.New("Object ID not found")
 
 func readObjIDFromDictionary(str string) (int, int, error) {
 
-	tokens := strings.Fields(str)
+	tokens := scanFields(str)
 	if len(tokens) != 3 || tokens[2] != "R" {
 		return 0, 0, ErrorObjectIDNotFound
 	}
diff --git a/pdf_parse.go b/pdf_parse.go
index 35d2913..a00a4f5 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -83,8 +83,8 @@ func parseFloatSlice(s string) ([]float64, error) {
 	s = strings.TrimPrefix(s, "[")
 	s = strings.TrimSuffix(s, "]")
 
-	// แยกด้วยช่องว่าง (จัดการ space เกินด้วย Fields)
-	parts := strings.Fields(s)
+	// แยกด้วยช่องว่าง (จัดการ space เกินด้วย scanFields)
+	parts := scanFields(s)
 
 	var result []float64
 	for _, p := range parts {
diff --git a/pdf_scan.go b/pdf_scan.go
index 3c19848..e8626ba 100644
--- a/pdf_scan.go
+++ b/pdf_scan.go
@@ -41,6 +41,20 @@ func scanRegular(b []byte, i int) int {
 	return i
 }
 
+// scanFields splits s at white space and comments
+func scanFields(s string) []string {
+	var fields []string
+	b := []byte(s)
+	for i := scanSpace(b, 0); i < len(b); i = scanSpace(b, i) {
+		start := i
+		for i < len(b) && !isPDFSpace(b[i]) && b[i] != '%' {
+			i++
+		}
+		fields = append(fields, s[start:i])
+	}
+	return fields
+}
+
 // scanString returns the index after the literal string at i, -1 if it is not closed
 func scanString(b []byte, i int) int {
 	depth := 0
-- 
2.43.0


From 02ebd924e4abbe6169788cdd022f92484ac7cffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:08 +0000
Subject: [PATCH 28/31] fix: image cache of documents built from scratch keeps
 its own copy of the caller's rectangle

---
 minigopdf/gopdf.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index 3262cf5..8b5f279 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -237,7 +237,8 @@ func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect
 			var imgcache ImageCache
 			imgcache.Index = gp.curr.CountOfImg
 			imgcache.Path = img.ID()
-			imgcache.Rect = imgRect
+			cacheRect := *imgRect //rect belongs to the caller
+			imgcache.Rect = &cacheRect
 			gp.curr.ImgCaches = append(gp.curr.ImgCaches, imgcache)
 			gp.curr.CountOfImg++
 		}
-- 
2.43.0


From 7bcb60ce4a1061224f7f30cd971916dd883b8a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:56 +0000
Subject: [PATCH 29/31] fix: font maker writes a Go file that parses whatever
 the names of the font file, the font and the glyphs

---
 minigopdf/fontmaker/core/fontmaker.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/minigopdf/fontmaker/core/fontmaker.go b/minigopdf/fontmaker/core/fontmaker.go
index 27147f9..c01e463 100644
--- a/minigopdf/fontmaker/core/fontmaker.go
+++ b/minigopdf/fontmaker/core/fontmaker.go
@@ -11,6 +11,8 @@ import (
 	"path/filepath"
 	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 )
 
 // ErrFontLicenseDoesNotAllowEmbedding Font license does not allow embedding
@@ -95,8 +97,18 @@ func (f *FontMaker) MakeFont(fontpath string, mappath string, encode string, out
 }
 
 func (f *FontMaker) GoStructName(name string) string {
-	goname := strings.ToUpper(name[0:1]) + name[1:]
-	return goname
+	//only what go allows in a name
+	goname := strings.Map(func(r rune) rune {
+		if r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return '_'
+	}, name)
+	first, size := utf8.DecodeRuneInString(goname)
+	if size == 0 || unicode.IsDigit(first) {
+		return "F" + goname
+	}
+	return string(unicode.ToUpper(first)) + goname[size:]
 }
 
 func (f *FontMaker) MakeDefinitionFile(gofontname string, mappath string, exportfile string, encode string, fontmaps []FontMap, info TtfInfo) (string, error) {
@@ -149,15 +161,15 @@ func (f *FontMaker) MakeDefinitionFile(gofontname string, mappath string, export
 	if err != nil {
 		return "", err
 	}
-	str += fmt.Sprintf("\tme.name = \"%s\"\n", tmpStr)
+	str += fmt.Sprintf("\tme.name = %q\n", tmpStr)
 
-	str += "\tme.enc = \"" + encode + "\"\n"
+	str += fmt.Sprintf("\tme.enc = %q\n", encode)
 	diff, err := f.MakeFontEncoding(mappath, fontmaps)
 	if err != nil {
 		return "", err
 	}
 	if diff != "" {
-		str += "\tme.diff = \"" + diff + "\"\n"
+		str += fmt.Sprintf("\tme.diff = %q\n", diff)
 	}
 
 	fd, err := f.MakeFontDescriptor(info)
-- 
2.43.0


From 424392c92be0b45a4091fd8f44c611d8dd4fe63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:56 +0000
Subject: [PATCH 30/31] fix: font maker takes characters mapped to glyphs the
 font does not have as missing

---
 minigopdf/fontmaker/core/fontmaker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minigopdf/fontmaker/core/fontmaker.go b/minigopdf/fontmaker/core/fontmaker.go
index c01e463..d1a6f26 100644
--- a/minigopdf/fontmaker/core/fontmaker.go
+++ b/minigopdf/fontmaker/core/fontmaker.go
@@ -435,7 +435,7 @@ func (f *FontMaker) GetInfoFromTrueType(fontpath string, fontmaps []FontMap) (Tt
 	for c < max {
 		if fontmaps[c].Name != ".notdef" {
 			uv := fontmaps[c].Uv
-			if val, ok := parser.chars[int(uv)]; ok {
+			if val, ok := parser.chars[int(uv)]; ok && val < uint(len(parser.widths)) {
 				w := parser.widths[val]
 				widths[c] = f.MultiplyAndRoundWithUInt64(k, w)
 			} else {
-- 
2.43.0


From de29cfb6f8b843f8ef417375ce21f25ebf266c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:46 +0000
Subject: [PATCH 31/31] fix: an image without pixels is an error instead of a
 division by zero

---
 minigopdf/image_obj.go       | 4 ++++
 minigopdf/image_obj_parse.go | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/minigopdf/image_obj.go b/minigopdf/image_obj.go
index 8cf601b..cb4bca0 100644
--- a/minigopdf/image_obj.go
+++ b/minigopdf/image_obj.go
@@ -2,6 +2,7 @@ package gopdf
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"image"
 	_ "image/jpeg"
@@ -173,6 +174,9 @@ func (i *ImageObj) getRect() (*Rect, error) {
 	}
 
 	imageRect := m.Bounds()
+	if imageRect.Empty() {
+		return nil, errors.New("image has no pixels")
+	}
 	k := 1
 	w := -128 //init
 	h := -128 //init
diff --git a/minigopdf/image_obj_parse.go b/minigopdf/image_obj_parse.go
index 1f53e38..25f35e6 100644
--- a/minigopdf/image_obj_parse.go
+++ b/minigopdf/image_obj_parse.go
@@ -83,6 +83,9 @@ func parseImg(raw *bytes.Reader) (imgInfo, error) {
 	if err != nil {
 		return info, err
 	}
+	if imgConfig.Width <= 0 || imgConfig.Height <= 0 {
+		return info, errors.New("image has no pixels")
+	}
 	info.formatName = formatname
 
 	if formatname == "jpeg" {
-- 
2.43.0

