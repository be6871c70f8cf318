HELP={}
HELP['.']=r'''package pdft

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"os"
	"strings"
	"testing"
)

// zzFile makes a pdf file of the objects (1, 2, ...; "" is a free number).
func zzFile(objs ...string) []byte {
	var b bytes.Buffer
	b.WriteString("%PDF-1.4\n")
	offs := make([]int, len(objs))
	for i, o := range objs {
		if o == "" {
			continue
		}
		offs[i] = b.Len()
		fmt.Fprintf(&b, "%d 0 obj\n%s\nendobj\n", i+1, o)
	}
	x := b.Len()
	fmt.Fprintf(&b, "xref\n0 %d\n0000000000 65535 f \n", len(objs)+1)
	for i, o := range objs {
		if o == "" {
			b.WriteString("0000000000 65535 f \n")
			continue
		}
		fmt.Fprintf(&b, "%010d 00000 n \n", offs[i])
	}
	fmt.Fprintf(&b, "trailer\n<< /Size %d /Root 1 0 R >>\nstartxref\n%d\n%%%%EOF\n", len(objs)+1, x)
	return b.Bytes()
}

func zzStream(s string) string {
	return fmt.Sprintf("<< /Length %d >>\nstream\n%s\nendstream", len(s), s)
}

// zzTpl has n pages of 500 x 600 drawing "0 0 <n> 7 re f".
func zzTpl(n int) []byte {
	objs := []string{"<< /Type /Catalog /Pages 2 0 R >>", ""}
	kids := ""
	for i := 0; i < n; i++ {
		kids += fmt.Sprintf("%d 0 R ", len(objs)+1)
		objs = append(objs, fmt.Sprintf("<< /Type /Page /Parent 2 0 R /MediaBox [0 0 500 600] /Resources << >> /Contents %d 0 R >>", len(objs)+2),
			zzStream(fmt.Sprintf("0 0 %d 7 re f", i+1)))
	}
	objs[1] = fmt.Sprintf("<< /Type /Pages /Kids [%s] /Count %d >>", kids, n)
	return zzFile(objs...)
}

func zzOpen(t *testing.T, tpl []byte) *PDFt {
	var p PDFt
	zzOK(t, p.OpenFrom(bytes.NewReader(tpl)))
	return &p
}

func zzOK(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

func zzFont(t *testing.T, p *PDFt, name string, size int) {
	zzOK(t, p.AddFont(name, "test/ttf/Loma.ttf"))
	zzOK(t, p.SetFont(name, "", size))
}

func zzSave(t *testing.T, p *PDFt) string {
	t.Helper()
	var b bytes.Buffer
	zzOK(t, p.SaveTo(&b))
	return b.String()
}

// zzObj gives the body of an object of a saved file.
func zzObj(s string, id int) string {
	i := strings.Index(s, fmt.Sprintf("\n%d 0 obj", id))
	if i < 0 {
		return ""
	}
	s = s[i+1:]
	s = s[strings.Index(s, "obj")+3:]
	return s[:strings.Index(s, "endobj")]
}

func zzPNG(w, h int, f func(x, y int) color.Color) []byte {
	m := image.NewNRGBA(image.Rect(0, 0, w, h))
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			m.Set(x, y, f(x, y))
		}
	}
	var b bytes.Buffer
	png.Encode(&b, m)
	return b.Bytes()
}

var _ = os.Args
'''
HELP['./minigopdf']='package gopdf\n'
HELP['./render']='package render\n'
HELP['./textbreak']='package textbreak\n'
HELP['./minigopdf/fontmaker/core']='package core\n'
T='package pdft\n\nimport (\n%s)\n\nfunc TestZZDemo(t *testing.T) {\n%s}\n'
def d(imports,body,pkg='pdft'):
    return ('package %s\n\nimport (\n'%pkg)+''.join('\t"%s"\n'%i for i in (imports+' testing').split())+')\n\nfunc TestZZDemo(t *testing.T) {\n'+body+'}\n'
SEEDS=[
dict(id='C01-font-image-ids',property='C01',edits=[('pdf_font_data.go','newMaxID := p.dictionaryID','newMaxID := p.fontDescID')],
 needs='a font and an image in the same document',breaks='the first image gets the object number of the embedded font program: the number is defined twice',
 demo=d('image/color strings fmt',r'''	p := zzOpen(t, zzTpl(1))
	zzFont(t, p, "f", 12)
	zzOK(t, p.Insert("abc", 1, 10, 10, 100, 20, Left|Top, nil))
	zzOK(t, p.InsertImg(zzPNG(2, 2, func(x, y int) color.Color { return color.NRGBA{1, 2, 3, 255} }), 1, 0, 0, 10, 10))
	s := zzSave(t, p)
	for i := 1; i < 40; i++ {
		if strings.Count(s, fmt.Sprintf("\n%d 0 obj\n", i)) > 1 {
			t.Fatalf("object %d is defined twice", i)
		}
	}
''')),
dict(id='C02-crlf',property='C02',edits=[('pdft.go','buff.WriteString(strings.TrimSpace(string(obj.data)))','buff.WriteString(strings.ReplaceAll(strings.TrimSpace(string(obj.data)), "\\r\\n", "\\n"))')],
 needs='a template stream whose data contains the bytes CR LF',breaks='the bytes of template streams change and their /Length is wrong',
 demo=d('strings fmt',r'''	data := "q\r\n0 0 5 5 re\r\nf Q"
	tpl := zzFile("<< /Type /Catalog /Pages 2 0 R >>", "<< /Type /Pages /Kids [3 0 R] /Count 1 >>",
		"<< /Type /Page /Parent 2 0 R /MediaBox [0 0 500 600] /Resources << >> /Contents 4 0 R >>", zzStream(data))
	s := zzSave(t, zzOpen(t, tpl))
	if !strings.Contains(zzObj(s, 4), fmt.Sprintf("stream\n%s\nendstream", data)) {
		t.Fatal("the template's stream has changed")
	}
''')),
dict(id='C03-remove-swap',property='C03',edits=[('pdft.go','	copy(pageObjIds[targetPageNumber-1:], pageObjIds[targetPageNumber:])\n','	pageObjIds[targetPageNumber-1] = pageObjIds[len(pageObjIds)-1]\n')],
 needs='removing a page that has two or more pages after it',breaks='the last page takes the removed page\'s place, so the order of the pages changes',
 demo=d('strings',r'''	p := zzOpen(t, zzTpl(4))
	zzOK(t, p.RemovePage(1))
	s := zzSave(t, p)
	if k := zzObj(s, 2); !strings.Contains(strings.Join(strings.Fields(k), " "), "5 0 R 7 0 R 9 0 R") {
		t.Fatalf("wrong pages: %s", k)
	}
''')),
dict(id='C04-shared-page',property='C04',edits=[('pdft.go','	pageID := i.pdf.putNewObject(pageObj)\n','	pageID := pageObj.objID\n	if targetPageNumber != position+1 {\n		pageID = i.pdf.putNewObject(pageObj)\n	}\n')],
 needs='duplicating a page to right after itself, then inserting on one of the two',breaks='the copy is the original page object, so what is inserted on one appears on both',
 demo=d('strings',r'''	p := zzOpen(t, zzTpl(2))
	zzOK(t, p.DuplicatePageAfter(1, 0))
	s := zzSave(t, p)
	k := strings.Fields(strings.Trim(strings.SplitN(strings.SplitN(zzObj(s, 2), "[", 2)[1], "]", 2)[0], "[] "))
	if len(k) != 9 || k[0] == k[3] {
		t.Fatalf("the copy is not a page of its own: %v", k)
	}
''')),
dict(id='C05-wrap-last-colour',property='C05',edits=[('pdft.go','''			align:     align,
			fontColor: fontColor,
		})
		currentY += fontSize + newLine
	}

	yoffset''','''			align:     align,
		})
		currentY += fontSize + newLine
	}

	yoffset''')],
 needs='text wrapped with a text breaker and a colour',breaks='the last line of wrapped text is drawn near-black instead of in the colour asked for',
 demo=d('strings github.com/signintech/pdft/textbreak',r'''	p := zzOpen(t, zzTpl(1))
	zzFont(t, p, "f", 12)
	zzOK(t, p.InsertWrapText("aaaa bbbb cccc", 1, 10, 10, 30, 20, Left|Top, &FontColor{255, 0, 0}, textbreak.BasicTextbreak{}))
	s := zzSave(t, p)
	if strings.Count(s, "1.00 0.00 0.00 rg") != strings.Count(s, " rg") {
		t.Fatal("a line is not red")
	}
''')),
dict(id='C06-typo-truncated',property='C06',edits=[('minigopdf/cache_content_text.go','	val = val * 1000.00 / float64(unitsPerEm)\n','	val = float64(int(val * 1000.00 / float64(unitsPerEm)))\n')],
 needs='a font whose units per em is not 1000 and a large font size',breaks='ascender and descender lose their fraction, so the baseline is off by more than 0.02 pt for large text',
 demo=d('math',r'''	got := convertTypoUnit(1577, 2048, 60)
	if want := 1577.0 / 2048 * 60; math.Abs(got-want) > 0.01 {
		t.Fatalf("%f instead of %f", got, want)
	}
''','gopdf'),pkg='./minigopdf'),
dict(id='C07-hmtx-tail',property='C07',edits=[('minigopdf/subset_font_obj.go','glyphIndex = numberOfHMetrics - 1','glyphIndex = 0')],
 needs='a character whose glyph lies beyond the font\'s long horizontal metrics',breaks='its width is taken from glyph 0 instead of the last long metric',
 demo='''package gopdf

import (
	"bytes"
	"encoding/binary"
	"os"
	"testing"
)

// the font with its hmtx table read as having only n long metrics
func TestZZDemo(t *testing.T) {
	b, err := os.ReadFile("../test/ttf/Loma.ttf")
	if err != nil {
		t.Fatal(err)
	}
	n := 60
	tables := int(binary.BigEndian.Uint16(b[4:]))
	hmtx := 0
	for i := 0; i < tables; i++ {
		e := b[12+16*i:]
		off := int(binary.BigEndian.Uint32(e[8:]))
		if string(e[:4]) == "hhea" {
			binary.BigEndian.PutUint16(b[off+34:], uint16(n))
		}
		if string(e[:4]) == "hmtx" {
			hmtx = off
		}
	}
	var s SubsetFontObj
	s.CharacterToGlyphIndex = NewMapOfCharacterToGlyphIndex()
	if err := s.SetTTFByReader(bytes.NewReader(b)); err != nil {
		t.Fatal(err)
	}
	want := uint(binary.BigEndian.Uint16(b[hmtx+4*(n-1):])) * 1000 / s.GetTTFParser().UnitsPerEm()
	if got := s.GlyphIndexToPdfWidth(uint(n + 5)); got != want {
		t.Fatalf("width %d instead of %d", got, want)
	}
}
''',pkg='./minigopdf'),
dict(id='C08-inner-spaces',property='C08',edits=[('pdft.go','''				text:      strings.TrimSpace(prevText),
				pageNum''','''				text:      strings.Join(strings.Fields(prevText), " "),
				pageNum''')],
 needs='wrapped text with two spaces in a row inside a line that is not the last',breaks='white space inside a line is lost',
 demo=d('strings fmt github.com/signintech/pdft/textbreak',r'''	p := zzOpen(t, zzTpl(1))
	zzFont(t, p, "f", 10)
	zzOK(t, p.InsertWrapText("a  b cccccccccccccccc", 1, 10, 10, 40, 20, Left|Top, nil, textbreak.BasicTextbreak{}))
	s := zzSave(t, p)
	sp, _ := p.fontDatas["f"].font.CharIndex(' ')
	if !strings.Contains(s, fmt.Sprintf("%04X%04X", sp, sp)) {
		t.Fatal("the two spaces are gone")
	}
''')),
dict(id='C10-bfrange-count',property='C10',edits=[('minigopdf/unicode_map.go','	return len(m.indexs)\n','	seen := make(map[int]bool)\n	for _, index := range m.indexs {\n		seen[index] = true\n	}\n	return len(seen)\n')],
 needs='two inserted characters the font draws with the same glyph',breaks='the ToUnicode map declares fewer entries than it has',
 demo=d('',r'''	m := newMapGlyphIndexToCharacter()
	m.set(3, 'a')
	m.set(3, 'b')
	if m.size() != len(m.allIndexs()) {
		t.Fatal("declared and written entries differ")
	}
''','gopdf'),pkg='./minigopdf'),
dict(id='C11-gray-alpha-filter',property='C11',edits=[('minigopdf/image_obj_parse.go','''			length := 2 * w
			i := 0
			for i < h {
				pos := (1 + length) * i
				color = append(color, afterZipData[pos])
				alpha = append(alpha, afterZipData[pos])
''','''			length := 2 * w
			i := 0
			for i < h {
				pos := (1 + length) * i
				color = append(color, afterZipData[pos])
				alpha = append(alpha, 0)
''')],
 needs='a gray PNG with alpha channel that has a filtered row',breaks='the alpha channel of filtered rows is decoded without their filter',
 demo='''package gopdf

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"hash/crc32"
	"io"
	"testing"
)

func TestZZDemo(t *testing.T) {
	var z bytes.Buffer
	w := zlib.NewWriter(&z)
	w.Write([]byte{1, 10, 20, 1, 1}) // one row of two pixels, filter Sub
	w.Close()
	f := []byte("\\x89PNG\\r\\n\\x1a\\n")
	chunk := func(typ string, d []byte) {
		f = binary.BigEndian.AppendUint32(f, uint32(len(d)))
		c := append([]byte(typ), d...)
		f = append(f, c...)
		f = binary.BigEndian.AppendUint32(f, crc32.ChecksumIEEE(c))
	}
	chunk("IHDR", []byte{0, 0, 0, 2, 0, 0, 0, 1, 8, 4, 0, 0, 0})
	chunk("IDAT", z.Bytes())
	chunk("IEND", nil)
	info, err := parseImg(bytes.NewReader(f))
	if err != nil {
		t.Fatal(err)
	}
	r, err := zlib.NewReader(bytes.NewReader(info.smask))
	if err != nil {
		t.Fatal(err)
	}
	got, _ := io.ReadAll(r)
	if !bytes.Equal(got, []byte{1, 20, 1}) {
		t.Fatalf("alpha rows are % x", got)
	}
}
''',pkg='./minigopdf'),
dict(id='C12-cache-key',property='C12',edits=[('pdft.go','md5Str := fmt.Sprintf("%x", md5.Sum(img))','head := img\n	if len(head) > 2048 {\n		head = head[:2048]\n	}\n	md5Str := fmt.Sprintf("%x-%d", md5.Sum(head), len(img))')],
 needs='two images of the same length inserted through the cache that differ only after their first 2048 bytes',breaks='the second image is drawn as the first',
 demo=d('bytes image/jpeg image image/color strings',r'''	m := image.NewGray(image.Rect(0, 0, 100, 100))
	for i := range m.Pix {
		m.Pix[i] = byte(i * i * 7)
	}
	var b bytes.Buffer
	zzOK(t, jpeg.Encode(&b, m, nil))
	one := b.Bytes()
	two := append([]byte(nil), one...)
	for k := len(two) - 40; k < len(two)-10; k++ {
		two[k] = 0x55
	}
	if len(one) < 3000 {
		t.Fatal("too small")
	}
	p := zzOpen(t, zzTpl(1))
	zzOK(t, p.InsertImgWithCache(one, 1, 0, 0, 10, 10))
	zzOK(t, p.InsertImgWithCache(two, 1, 20, 0, 10, 10))
	s := zzSave(t, p)
	if !strings.Contains(s, string(one)) || !strings.Contains(s, string(two)) {
		t.Fatal("an image is missing")
	}
	_ = color.White
''')),
dict(id='C13-owner-default',property='C13',edits=[('minigopdf/pdf_protection.go','		ownerPass = p.randomPass(24)\n','		ownerPass = append([]byte(nil), userPass...)\n')],
 needs='protection without an owner password',breaks='the user password opens the document as owner',
 demo=d('bytes',r'''	var p PDFProtection
	if err := p.SetProtection(0, []byte("user"), nil); err != nil {
		t.Fatal(err)
	}
	o, _ := p.createOValue(padPass([]byte("user")), padPass([]byte("user")))
	if bytes.Equal(o, p.oValue) {
		t.Fatal("the user password is the owner password")
	}
''','gopdf'),pkg='./minigopdf'),
dict(id='C14-object-key',property='C14',edits=[('minigopdf/pdf_protection.go','tmp2 = append(tmp2, tmp[0], tmp[1], tmp[2], 0, 0)','tmp2 = append(tmp2, tmp[0], tmp[1], 0, 0, 0)')],
 needs='a protected document with object numbers above 65535',breaks='streams and strings of those objects are encrypted with a wrong key',
 demo=d('bytes',r'''	var p PDFProtection
	if err := p.SetProtection(0, []byte("user"), []byte("owner")); err != nil {
		t.Fatal(err)
	}
	if bytes.Equal(p.Objectkey(5), p.Objectkey(65536+5)) {
		t.Fatal("objects 5 and 65541 have the same key")
	}
''','gopdf'),pkg='./minigopdf'),
dict(id='C15-no-truncate',property='C15',edits=[('pdft.go','''	err = os.WriteFile(filepath, buff.Bytes(), 0644)
	if err != nil {
		return err
	}
	return nil
}''','''	f, err := os.OpenFile(filepath, os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		return err
	}
	defer f.Close()
	_, err = f.Write(buff.Bytes())
	return err
}''')],
 needs='saving to a file that already exists and is longer',breaks='the end of the old file stays behind the new document',
 demo=d('os path/filepath bytes',r'''	f := filepath.Join(os.Getenv("SCRATCH"), "out.pdf")
	zzOK(t, zzOpen(t, zzTpl(9)).Save(f))
	p := zzOpen(t, zzTpl(1))
	zzOK(t, p.Save(f))
	b, err := os.ReadFile(f)
	zzOK(t, err)
	if !bytes.Equal(b, []byte(zzSave(t, p))) {
		t.Fatal("the file is not the document")
	}
''')),
dict(id='C18-setfont-unknown',property='C18',edits=[('pdft.go','''	if _, have := i.fontDatas[name]; !have {
		return ErrFontNameNotFound
	}
	i.curr.fontName = name
''','''	i.curr.fontName = name
	if _, have := i.fontDatas[name]; !have {
		return ErrFontNameNotFound
	}
''')],
 needs='a SetFont naming an unknown font between a good SetFont and an insertion',breaks='the failed call changes the current font, so later insertions fail',
 demo=d('',r'''	p := zzOpen(t, zzTpl(1))
	zzFont(t, p, "f", 10)
	if p.SetFont("nosuch", "", 10) == nil {
		t.Fatal("no error")
	}
	zzOK(t, p.Insert("abc", 1, 10, 10, 40, 20, Left|Top, nil))
''')),
dict(id='C18-cache-bad-image',property='C18',edits=[('pdft.go','''		imgObj, smask, err := createImgObjFromBytes(img)
		if err != nil {
			return err
		}
		if smask != nil {''','''		i.pdfImgsMd5Map[md5Str] = pdfimg
		imgObj, smask, err := createImgObjFromBytes(img)
		if err != nil {
			return err
		}
		if smask != nil {'''),('pdft.go','''			i.pdfImgsMd5Map = make(map[string]*PDFImageData)
		}
		i.pdfImgsMd5Map[md5Str] = pdfimg
''','''			i.pdfImgsMd5Map = make(map[string]*PDFImageData)
		}
''')],
 needs='inserting the same broken image twice through the cache',breaks='the second insertion succeeds and draws an image that does not exist',
 demo=d('',r'''	p := zzOpen(t, zzTpl(1))
	for n := 0; n < 2; n++ {
		if p.InsertImgWithCache([]byte("no image"), 1, 0, 0, 10, 10) == nil {
			t.Fatal("inserting what is no image succeeded")
		}
	}
''')),
dict(id='C19-shared-buffer',property='C19',edits=[('minigopdf/image_obj_parse.go','''	var buffer bytes.Buffer
	buffer.WriteString("<</Type /XObject\\n")
''','''	buffer := &imgPropBuffer
	buffer.Reset()
	buffer.WriteString("<</Type /XObject\\n")
'''),('minigopdf/image_obj_parse.go','''	return &buffer, nil
}

func isColspaceIndexed''','''	return buffer, nil
}

var imgPropBuffer bytes.Buffer //reused for all images

func isColspaceIndexed''')],flags=' -race',
 needs='images inserted in two documents at the same time',breaks='documents on different goroutines share a buffer: data race, image dictionaries get mixed up',
 demo=d('image/color sync',r'''	img := zzPNG(2, 2, func(x, y int) color.Color { return color.NRGBA{1, 2, 3, 255} })
	tpl := zzTpl(1)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		p := zzOpen(t, tpl)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 50; k++ {
				if err := p.InsertImg(img, 1, 0, 0, 10, 10); err != nil {
					t.Error(err)
				}
			}
		}()
	}
	wg.Wait()
''')),
dict(id='C20-first-field',property='C20',edits=[('render/field_info.go','		m[i.Key] = i\n','		if _, ok := m[i.Key]; !ok {\n			m[i.Key] = i\n		}\n')],
 needs='two fields with the same name',breaks='the first field counts instead of the last',
 demo=d('',r'''	m := FieldInfos{{Key: "a", X: 1}, {Key: "a", X: 2}}.toMap()
	if m["a"].X != 2 {
		t.Fatal("the last field does not count")
	}
''','render'),pkg='./render'),
dict(id='C21-leading-space',property='C21',edits=[('textbreak/basic_textbreak.go','		if ru == \' \' {\n','		if ru == \' \' && tmp == "" && len(tokens) == 0 {\n			continue\n		}\n		if ru == \' \' {\n'),('textbreak/basic_textbreak.go','	if tmp != "" {\n','	if len(tmp) > 0 {\n')],
 needs='a text that begins with a space',breaks='the space is lost',
 demo=d('strings',r'''	tok, err := BasicTextbreak{}.BreakTextToToken("  a b")
	if err != nil || strings.Join(tok, "") != "  a b" {
		t.Fatalf("%q %v", tok, err)
	}
''','textbreak'),pkg='./textbreak'),
dict(id='C22-rise-index',property='C22',edits=[('minigopdf/cache_content_text.go','fontSize, text, runeIndex)\n			out','fontSize, text, i)\n			out')],
 needs='a text-rise override and a text with characters of more than one byte',breaks='the override is called with the byte offset instead of the index of the character',
 demo=d('',r'''	p := zzOpen(t, zzTpl(1))
	zzFont(t, p, "f", 10)
	var got []int
	zzOK(t, p.TextriseOverride("f", func(l, r rune, size int, all string, i int) float32 {
		got = append(got, i)
		return 0
	}))
	zzOK(t, p.Insert("กaข", 1, 10, 10, 40, 20, Left|Top, nil))
	zzSave(t, p)
	if len(got) < 3 || got[1] != 1 || got[2] != 2 {
		t.Fatalf("indexes %v", got)
	}
''')),
dict(id='C23-page-size',property='C23',edits=[('minigopdf/gopdf.go','''	} else { //use default
		gp.curr.pageSize = gp.config.PageSize
	}
''','''	} else if gp.indexOfFirstPageObj == -1 { //use default
		gp.curr.pageSize = gp.config.PageSize
	}
''')],
 needs='a page of default size after a page with a size of its own',breaks='coordinates on it are measured from the top of the other page\'s size',
 demo=d('strings',r'''	var gp GoPdf
	gp.Start(Config{PageSize: Rect{W: 500, H: 600}})
	gp.SetNoCompression()
	gp.AddPageWithOption(PageOption{PageSize: Rect{W: 100, H: 100}})
	gp.AddPage()
	gp.Line(10, 20, 30, 20)
	if s := string(gp.GetBytesPdf()); !strings.Contains(s, "580.00") {
		t.Fatal("the line is not 20 below the top")
	}
''','gopdf'),pkg='./minigopdf'),
dict(id='C24-short-write',property='C24',edits=[('pdft.go','_, err = buff.WriteTo(w)\n','_, err = w.Write(buff.Bytes())\n')],
 needs='a writer that takes only a part of the data without an error',breaks='the save reports success although the document is cut off',
 demo='''package pdft

import "testing"

type zzHalf struct{}

func (zzHalf) Write(b []byte) (int, error) { return len(b) / 2, nil }

func TestZZDemo(t *testing.T) {
	if zzOpen(t, zzTpl(1)).SaveTo(zzHalf{}) == nil {
		t.Fatal("no error")
	}
}
'''),
dict(id='C27-hide-border',property='C27',edits=[('pdft.go','		i.curr.lineWidth = 0.0\n','		i.curr.lineWidth = clw.width + i.curr.lineWidth\n')],
 needs='showing cell borders and hiding them again',breaks='texts inserted after hiding still get borders',
 demo=d('strings',r'''	p := zzOpen(t, zzTpl(1))
	zzFont(t, p, "f", 10)
	p.ShowCellBorder(true)
	p.ShowCellBorder(false)
	zzOK(t, p.Insert("abc", 1, 10, 10, 40, 20, Left|Top, nil))
	if strings.Contains(zzSave(t, p), " l s\n") {
		t.Fatal("borders are drawn")
	}
''')),
dict(id='C09-two-by-two',property='C09',edits=[('minigopdf/pdf_dictionary_obj.go','''			offsetAppend += 4
		}
		if (flags & WE_HAVE_A_TWO_BY_TWO) != 0 {
			offsetAppend += 8
''','''			offsetAppend += 4
		}
		if (flags & WE_HAVE_A_TWO_BY_TWO) != 0 {
			offsetAppend += 4
''')],
 needs='a composite glyph with a component scaled by a 2x2 matrix that is not the last',breaks='the components after it are not in the subset',
 demo='''package gopdf

import (
	"bytes"
	"encoding/binary"
	"os"
	"testing"
)

func TestZZDemo(t *testing.T) {
	b, err := os.ReadFile("../test/ttf/Loma.ttf")
	if err != nil {
		t.Fatal(err)
	}
	var s SubsetFontObj
	s.CharacterToGlyphIndex = NewMapOfCharacterToGlyphIndex()
	if err := s.SetTTFByReader(bytes.NewReader(b)); err != nil {
		t.Fatal(err)
	}
	// overwrite a glyph that is long enough by a composite of glyphs 5 (2x2) and 6
	ttfp := s.GetTTFParser()
	g := 0
	for ; ttfp.LocaTable[g+1]-ttfp.LocaTable[g] < 64; g++ {
	}
	at := int(ttfp.GetTables()["glyf"].Offset + ttfp.LocaTable[g])
	c := append([]byte(nil), b...)
	put := func(off int, v ...uint16) {
		for i, x := range v {
			binary.BigEndian.PutUint16(c[at+off+2*i:], x)
		}
	}
	put(0, 0xFFFF)
	put(10, MORE_COMPONENTS|WE_HAVE_A_TWO_BY_TWO|ARG_1_AND_2_ARE_WORDS, 5, 0, 0, 0x4000, 0x0001, 0x0001, 0x4000)
	put(26, ARG_1_AND_2_ARE_WORDS, 6, 0, 0)
	if err := s.SetTTFByReader(bytes.NewReader(c)); err != nil {
		t.Fatal(err)
	}
	var d PdfDictionaryObj
	d.SetPtrToSubsetFontObj(&s)
	arr := []int{g}
	d.AddCompositeGlyphs(&arr, g)
	if len(arr) != 3 || arr[1] != 5 || arr[2] != 6 {
		t.Fatalf("glyphs %v", arr)
	}
}
''',pkg='./minigopdf'),
]
