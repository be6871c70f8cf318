import runpy,os
one=runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)),'seeds1.py'))
HELP=one['HELP']; d=one['d']
SEEDS=[
dict(id='C01-size-gaps',property='C01',edits=[('pdft.go','fmt.Sprintf("/Size %d\\n", size+1)','fmt.Sprintf("/Size %d\\n", len(linelens)+1)')],
 needs='a template whose object numbers have gaps',breaks='/Size is smaller than the highest object number plus one',
 demo=d('strings fmt',r'''	tpl := zzFile("<< /Type /Catalog /Pages 3 0 R >>", "", "<< /Type /Pages /Kids [5 0 R] /Count 1 >>", "",
		"<< /Type /Page /Parent 3 0 R /MediaBox [0 0 500 600] /Resources << >> /Contents 6 0 R >>", zzStream("0 0 5 5 re f"))
	s := zzSave(t, zzOpen(t, tpl))
	size := 0
	fmt.Sscan(s[strings.LastIndex(s, "/Size")+5:], &size)
	if size < 7 || strings.Contains(s, fmt.Sprintf("\n%d 0 obj", size)) {
		t.Fatalf("/Size is %d", size)
	}
''')),
dict(id='C06-typo-truncated',property='C06',edits=[('minigopdf/cache_content_text.go','	val = val * 1000.00 / float64(unitsPerEm)\n','	val = float64(int(val * 1000.00 / float64(unitsPerEm)))\n')],
 needs='a font whose units per em is not 1000 and a large font size',breaks='ascender and descender lose their fraction, so the baseline is off by more than 0.02 pt for large text',
 demo=d('math',r'''	got := convertTypoUnit(1601, 2048, 120)
	if want := 1601.0 / 2048 * 120; math.Abs(got-want) > 0.02 {
		t.Fatalf("%f instead of %f", got, want)
	}
''','gopdf'),pkg='./minigopdf'),
dict(id='C14-long-streams',property='C14',edits=[('pdf_obj_data.go','''	dest := make([]byte, len(src))
	cip.XORKeyStream(dest, src)
	return dest, nil
''','''	dest := make([]byte, 0, len(src))
	block := make([]byte, 4096)
	for len(src) > 0 {
		n := copy(block, src)
		cip.XORKeyStream(block[:n], block[:n])
		dest = append(dest, block[:n]...)
		src = src[n:]
		if cip, err = rc4.NewCipher(key); err != nil {
			return nil, err
		}
	}
	return dest, nil
''')],
 needs='protection and a stream of more than 4096 bytes',breaks='the key stream starts anew every 4096 bytes, so longer streams do not decrypt',
 demo=d('bytes crypto/rc4',r'''	key := []byte("0123456789")
	src := bytes.Repeat([]byte("abcdefg"), 2000)
	got, err := rc4Cip(key, src)
	zzOK(t, err)
	c, _ := rc4.NewCipher(key)
	c.XORKeyStream(got, got)
	if !bytes.Equal(got, src) {
		t.Fatal("does not decrypt")
	}
''')),
dict(id='C13-escape-cr',property='C13',edits=[('minigopdf/encryption_obj.go','	s = strings.Replace(s, "\\r", "\\\\r", -1)\n','')],
 needs='passwords whose O or U value contains a carriage return byte',breaks='readers take the carriage return for a line feed, so the passwords are not accepted',
 demo=d('',r'''	var e EncryptionObj
	if s := e.escape([]byte("a\rb")); s != "a\\rb" && s != "a\\015b" {
		t.Fatalf("%q", s)
	}
''','gopdf'),pkg='./minigopdf'),
dict(id='C05-rune-key',property='C05',edits=[
 ('minigopdf/map_of_character_To_glyph_index.go','keyIndexs map[rune]int //for search index in keys','keyIndexs map[uint16]int //for search index in keys'),
 ('minigopdf/map_of_character_To_glyph_index.go','m.keyIndexs = make(map[rune]int)','m.keyIndexs = make(map[uint16]int)'),
 ('minigopdf/map_of_character_To_glyph_index.go','if _, ok := m.keyIndexs[k]; ok {','if _, ok := m.keyIndexs[uint16(k)]; ok {'),
 ('minigopdf/map_of_character_To_glyph_index.go','	m.keyIndexs[k] = len(m.Keys)','	m.keyIndexs[uint16(k)] = len(m.Keys)'),
 ('minigopdf/map_of_character_To_glyph_index.go','if index, ok := m.keyIndexs[k]; ok {','if index, ok := m.keyIndexs[uint16(k)]; ok {')],
 needs='two characters in one font whose codes differ by a multiple of 65536',breaks='the second is drawn with the glyph of the first',
 demo=d('',r'''	m := NewMapOfCharacterToGlyphIndex()
	m.Set(0xF600, 3)
	if m.KeyExists(0x1F600) {
		t.Fatal("U+1F600 is taken for U+F600")
	}
''','gopdf'),pkg='./minigopdf'),
dict(id='C15-widths-once',property='C15',edits=[('pdf_font_data.go','''	err = p.cid.Build(p.cidID)
	if err != nil {
		return 0, err
	}
''','''	if p.cidStream == nil || p.font.CharacterToGlyphIndex == nil {
		if err = p.cid.Build(p.cidID); err != nil {
			return 0, err
		}
	}
''')],
 needs='text inserted after a first save, then a second save',breaks='the second file lacks the widths of characters first used after the first save and may refer to a wrong descriptor',
 demo=d('strings fmt',r'''	p := zzOpen(t, zzTpl(1))
	zzFont(t, p, "f", 12)
	zzOK(t, p.Insert("abc", 1, 10, 10, 100, 20, Left|Top, nil))
	zzSave(t, p)
	zzOK(t, p.Insert("xyz", 1, 10, 40, 100, 20, Left|Top, nil))
	s := zzSave(t, p)
	g, _ := p.fontDatas["f"].font.CharIndex('x')
	w := p.fontDatas["f"].font.GlyphIndexToPdfWidth(g)
	if !strings.Contains(strings.Join(strings.Fields(s), ""), fmt.Sprintf("%d[%d]", g, w)) {
		t.Fatal("no width for x")
	}
''')),
dict(id='C19-font-cache',property='C19',edits=[('pdf_parse_font.go','''	var fontData PDFFontData
	fontData.init()
	err := pdfParseFont(path, name, &fontData)
	if err != nil {
		return nil, err
	}
	return &fontData, nil
''','''	fontCacheMutex.Lock()
	defer fontCacheMutex.Unlock()
	if fontData, ok := fontCache[path+"\\x00"+name]; ok {
		return fontData, nil
	}
	var fontData PDFFontData
	fontData.init()
	err := pdfParseFont(path, name, &fontData)
	if err != nil {
		return nil, err
	}
	fontCache[path+"\\x00"+name] = &fontData
	return &fontData, nil
'''),('pdf_parse_font.go','import "io"\n','''import (
	"io"
	"sync"
)

var fontCacheMutex sync.Mutex
var fontCache = make(map[string]*PDFFontData)
''')],
 needs='two documents that load the same font file under the same name by path',breaks='they share the font: characters and overrides of one document show up in the other',
 demo=d('',r'''	a, b := zzOpen(t, zzTpl(1)), zzOpen(t, zzTpl(1))
	zzFont(t, a, "f", 12)
	zzFont(t, b, "f", 12)
	zzOK(t, a.Insert("abcdefgh", 1, 10, 10, 100, 20, Left|Top, nil))
	if len(b.fontDatas["f"].font.CharacterToGlyphIndex.AllKeys()) != 0 {
		t.Fatal("characters of another document")
	}
''')),
dict(id='C20-same-font',property='C20',edits=[('render/render.go','''	err := r.SetFont(finfo.Font, "", finfo.Size)
	if err != nil {
		return fmt.Errorf("setFont %s : %w", finfo.Font, err)
	}
''','''	var err error
	if finfo.Font != r.font {
		if err = r.SetFont(finfo.Font, "", finfo.Size); err != nil {
			return fmt.Errorf("setFont %s : %w", finfo.Font, err)
		}
		r.font = finfo.Font
	}
'''),('render/render.go','''	textBreaker textbreak.TextBreaker
}''','''	textBreaker textbreak.TextBreaker
	font        string //font of the last text
}''')],
 needs='two fields with the same font and different sizes rendered one after the other, or another SetFont between',breaks='the second text is drawn with the size of the first',
 demo=d('bytes github.com/signintech/pdft strings',r'''	r, err := NewRender("../test/pdf/pdf_from_docx.pdf", FieldInfos{
		{Key: "a", Font: "f", Size: 11, PageNum: 1, X: 10, Y: 10, W: 100, H: 20, Align: pdft.Left},
		{Key: "b", Font: "f", Size: 33, PageNum: 1, X: 10, Y: 50, W: 100, H: 20, Align: pdft.Left}})
	if err != nil {
		t.Fatal(err)
	}
	if err := r.AddFont("f", "../test/ttf/Loma.ttf"); err != nil {
		t.Fatal(err)
	}
	r.Text("a", "abc")
	r.Text("b", "abc")
	var b bytes.Buffer
	if err := r.SaveTo(&b); err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(b.String(), " 33 Tf\n") {
		t.Fatal("nothing of size 33")
	}
''','render'),pkg='./render'),
dict(id='C22-override-known-pairs',property='C22',edits=[('minigopdf/cache_content_text.go','''		if ok, v := kval.ValueByRight(rightIndex); ok {
			pairVal = v
		}
	}

	if f.funcKernOverride != nil {
		pairVal = f.funcKernOverride(
			leftRune,
			rightRune,
			leftIndex,
			rightIndex,
			pairVal,
		)
	}
	return pairVal
}''','''		ok, v := kval.ValueByRight(rightIndex)
		if ok {
			pairVal = v
		}
		if !ok && f.funcKernOverride != nil {
			return 0
		}
	}

	if f.funcKernOverride != nil {
		pairVal = f.funcKernOverride(
			leftRune,
			rightRune,
			leftIndex,
			rightIndex,
			pairVal,
		)
	}
	return pairVal
}''')],
 needs='a kerning override and a pair whose left glyph has kerning pairs in the font, but not with this right glyph',breaks='the override is not asked for such pairs',
 demo=d('',r'''	p := zzOpen(t, zzTpl(1))
	zzOK(t, p.AddFont("f", "test/ttf/arial.ttf"))
	zzOK(t, p.SetFont("f", "", 12))
	n := 0
	zzOK(t, p.KernOverride("f", func(l, r rune, lg, rg uint, v int16) int16 { n++; return 0 }))
	k := p.fontDatas["f"].font.GetTTFParser().Kern()
	if k == nil || len(k.Kerning) == 0 {
		t.Fatal("the font has no kerning")
	}
	text := "AAWAVATAYALAAPAFAaAbAcAdAeA1A2AxAzA.LLTTVVWWYYFF"
	zzOK(t, p.Insert(text, 1, 10, 10, 100, 20, Left|Top, nil))
	n = 0
	zzSave(t, p)
	if n < len(text)-1 {
		t.Fatalf("asked for %d of %d pairs", n, len(text)-1)
	}
''')),
dict(id='C23-curve-style',property='C23',edits=[('minigopdf/content_obj.go','	cache.style = strings.ToUpper(strings.TrimSpace(style))\n	c.listCache.append(&cache)','	cache.style = strings.TrimSpace(style)\n	c.listCache.append(&cache)')],
 needs='a curve whose style is given in lower case',breaks='it is drawn as an outline instead of being filled',
 demo=d('strings',r'''	var gp GoPdf
	gp.Start(Config{PageSize: Rect{W: 500, H: 600}})
	gp.SetNoCompression()
	gp.AddPage()
	gp.Curve(0, 0, 10, 20, 30, 40, 50, 60, "f")
	a := string(gp.GetBytesPdf())
	var gq GoPdf
	gq.Start(Config{PageSize: Rect{W: 500, H: 600}})
	gq.SetNoCompression()
	gq.AddPage()
	gq.Curve(0, 0, 10, 20, 30, 40, 50, 60, "F")
	if b := string(gq.GetBytesPdf()); a != b {
		t.Fatal("f and F differ")
	}
	_ = strings.Index
''','gopdf'),pkg='./minigopdf'),
dict(id='C24-unexpected-eof',property='C24',edits=[('pdf_parse.go','''	raw, err := ioutil.ReadAll(file)
	if err != nil {
''','''	raw, err := ioutil.ReadAll(file)
	if err != nil && err != io.ErrUnexpectedEOF {
''')],
 needs='a reader that ends early with io.ErrUnexpectedEOF after a complete document (an update being cut off)',breaks='opening a template that was only partly delivered succeeds',
 demo=d('bytes io testing/iotest',r'''	var p PDFt
	if p.OpenFrom(io.MultiReader(bytes.NewReader(zzTpl(1)), iotest.ErrReader(io.ErrUnexpectedEOF))) == nil {
		t.Fatal("no error")
	}
''')),
dict(id='C25-underline-position',property='C25',edits=[('minigopdf/fontmaker/core/ttfparser.go','''	t.underlinePosition, err = t.ReadShort(fd)
	if err != nil {
		return err
	}
''','''	up, err := t.ReadUShort(fd)
	if err != nil {
		return err
	}
	t.underlinePosition = int(int8(up>>8))<<8 | int(up&0x7f)
''')],
 needs='a font whose underline position has bit 7 set',breaks='the position is off by 128 units',
 demo='''package core

import (
	"encoding/binary"
	"os"
	"bytes"
	"testing"
)

func TestZZDemo(t *testing.T) {
	b, err := os.ReadFile("../../../test/ttf/Loma.ttf")
	if err != nil {
		t.Fatal(err)
	}
	n := int(binary.BigEndian.Uint16(b[4:]))
	for i := 0; i < n; i++ {
		e := b[12+16*i:]
		if string(e[:4]) == "post" {
			up := -80
			binary.BigEndian.PutUint16(b[binary.BigEndian.Uint32(e[8:])+8:], uint16(up))
		}
	}
	for _, up := range []int{-80} {
		var p TTFParser
		if err := p.ParseByReader(bytes.NewReader(b)); err != nil {
			t.Fatal(err)
		}
		if p.UnderlinePosition() != up {
			t.Fatalf("%d instead of %d", p.UnderlinePosition(), up)
		}
	}
}
''',pkg='./minigopdf/fontmaker/core'),
dict(id='C26-retained-buffer',property='C26',edits=[('pdf_parse.go','''	raw, err := ioutil.ReadAll(file)
	if err != nil {
		return err
	}
''','''	raw, err := readAll(file)
	if err != nil {
		return err
	}
'''),('pdf_parse.go','''// PDFParse parse pdf
''','''// readAll read all data, without copying it if it is in memory
func readAll(file io.Reader) ([]byte, error) {
	if buff, ok := file.(*bytes.Buffer); ok {
		return buff.Next(buff.Len()), nil
	}
	return ioutil.ReadAll(file)
}

// PDFParse parse pdf
'''),('pdf_parse.go','''import (
	"errors"
''','''import (
	"bytes"
	"errors"
''')],
 needs='a template opened from a bytes.Buffer over memory that the caller reuses',breaks='the document keeps the caller\'s memory: changing it changes what is saved',
 demo=d('bytes',r'''	tpl := zzTpl(1)
	var p PDFt
	zzOK(t, p.OpenFrom(bytes.NewBuffer(tpl)))
	a := zzSave(t, &p)
	for i := range tpl {
		tpl[i] = ' '
	}
	if zzSave(t, &p) != a {
		t.Fatal("the document has changed")
	}
''')),
dict(id='C28-italic-flag',property='C28',edits=[('minigopdf/fontmaker/core/fontmaker.go','	if italicAngle != 0 {\n','	if italicAngle > 0 {\n')],
 needs='a font that leans to the right (negative italic angle)',breaks='the definition\'s flags do not say that it is italic',
 demo=d('strings',r'''	info := NewTtfInfo()
	for _, k := range []string{"Ascender", "Descender", "CapHeight", "MissingWidth"} {
		info.PushInt(k, 1)
	}
	info.PushInt("ItalicAngle", -12)
	info.PushBool("IsFixedPitch", false)
	info.PushBool("Bold", false)
	info.PushInt64s("FontBBox", []int{0, 0, 1, 1})
	s, err := NewFontMaker().MakeFontDescriptor(info)
	if err != nil || !strings.Contains(s, `"96"`) {
		t.Fatal(s, err)
	}
''','core'),pkg='./minigopdf/fontmaker/core'),
dict(id='C28-missing-width',property='C28',edits=[('minigopdf/fontmaker/core/fontmaker.go','''		widths[c] = missingWidth
		c++
''','''		if fontmaps[c].Name != ".notdef" {
			widths[c] = missingWidth
		}
		c++
''')],
 needs='a map without an entry for some code and a font whose glyph 0 has a width',breaks='codes without a character have the width 0 instead of the missing width',
 demo=d('',r'''	maps := make([]FontMap, 256)
	for i := range maps {
		maps[i] = FontMap{Uv: -1, Name: ".notdef"}
	}
	info, err := NewFontMaker().GetInfoFromTrueType("../../../test/ttf/Loma.ttf", maps)
	if err != nil {
		t.Fatal(err)
	}
	w, _ := info.GetMapIntInt64("Widths")
	m, _ := info.GetInt64("MissingWidth")
	if m == 0 || w[5] != m {
		t.Fatal(w[5], m)
	}
''','core'),pkg='./minigopdf/fontmaker/core'),
dict(id='C09-loca-last',property='C09',edits=[('minigopdf/pdf_dictionary_obj.go','	locaTable[numGlyphs] = glyphOffset\n','	locaTable[numGlyphs] = len(glyphTable)\n')],
 needs='a text using the font\'s last glyph (glyph data not a multiple of 4 bytes long)',breaks='the last glyph\'s outline data is longer than in the font, and in fonts with an empty last glyph a glyph appears',
 demo='''package gopdf

import (
	"testing"
)

func TestZZDemo(t *testing.T) {
	var s SubsetFontObj
	s.CharacterToGlyphIndex = NewMapOfCharacterToGlyphIndex()
	if err := s.SetTTFByPath("../test/ttf/angsa.ttf"); err != nil {
		t.Fatal(err)
	}
	var p PdfDictionaryObj
	p.SetPtrToSubsetFontObj(&s)
	last := int(s.GetTTFParser().NumGlyphs()) - 1
	for g := 1; g < last; g++ {
		s.CharacterToGlyphIndex = NewMapOfCharacterToGlyphIndex()
		s.CharacterToGlyphIndex.Set('a', uint(last))
		s.CharacterToGlyphIndex.Set('b', uint(g))
		_, loca, err := p.makeGlyfAndLocaTable()
		if err != nil {
			t.Fatal(err)
		}
		if loca[last+1]-loca[last] != p.getGlyphSize(last) {
			t.Fatal("the last glyph is longer than in the font")
		}
	}
}
''',pkg='./minigopdf'),
dict(id='C12-base64-space',property='C12',edits=[('pdf_image_data.go','	r := base64.NewDecoder(base64.StdEncoding, bytes.NewBuffer([]byte(base64str)))\n	var imgObj','	r := base64.NewDecoder(base64.RawStdEncoding, bytes.NewBuffer(bytes.TrimRight([]byte(base64str), "=\\n")))\n	var imgObj')],
 needs='base64 text with padding followed by CR LF',breaks='the image is refused or cut off',
 demo=d('encoding/base64 image/color',r'''	for n := 0; n < 3; n++ {
		img := append(zzPNG(3, 3, func(x, y int) color.Color { return color.NRGBA{byte(n), 2, 3, 255} }), make([]byte, n)...)
		p := zzOpen(t, zzTpl(1))
		zzOK(t, p.InsertImgBase64(base64.StdEncoding.EncodeToString(img)+"\r\n", 1, 0, 0, 10, 10))
	}
''')),
dict(id='C27-border-left',property='C27',edits=[('minigopdf/cache_content_text.go','''		startX := c.x
		startY := c.pageHeight() - c.y
		endX := c.x
		endY := startY - c.cellHeightPdfUnit
''','''		startX, err := c.calX()
		if err != nil {
			return err
		}
		startY := c.pageHeight() - c.y
		endX := startX
		endY := startY - c.cellHeightPdfUnit
'''),('minigopdf/cache_content_text.go','''		_, err := stream.WriteString(fmt.Sprintf("%0.2f %0.2f m %0.2f %0.2f l s\\n", startX, startY, endX, endY))
		if err != nil {
			return err
		}
	}

	if c.cellOpt.Border&Right == Right {''','''		_, err = stream.WriteString(fmt.Sprintf("%0.2f %0.2f m %0.2f %0.2f l s\\n", startX, startY, endX, endY))
		if err != nil {
			return err
		}
	}

	if c.cellOpt.Border&Right == Right {''')],
 needs='borders shown and a text that is not left-aligned',breaks='the left edge is drawn where the text starts instead of at the edge of the cell',
 demo=d('strings',r'''	p := zzOpen(t, zzTpl(1))
	zzFont(t, p, "f", 10)
	p.ShowCellBorder(true)
	zzOK(t, p.Insert("abc", 1, 10, 10, 100, 20, Right|Top, nil))
	if !strings.Contains(zzSave(t, p), "10.00 590.00 m 10.00 570.00 l s") {
		t.Fatal("no left edge")
	}
''')),
dict(id='C17-xref-digits',property='C17',edits=[('xref_data.go','''	tokens := strings.Split(xrefline, " ")
	if len(tokens) < 3 {
		return errors.New("bad xref format")
	}
''','''	tokens := strings.Fields(xrefline)
'''),('xref_data.go','''	if x.Keyword != "n" && x.Keyword != "f" {
		return errors.New("unkonw xref keyword")
	}
''','''	if x.Keyword != "n" && x.Keyword != "f" {
		return fmt.Errorf("unkonw xref keyword %s", x.Keyword)
	}
'''),('xref_data.go','	"errors"\n','	"fmt"\n')],
 needs='',breaks='',demo=d('',r'''	var x XrefData
	defer func() {
		if recover() != nil {
			t.Fatal("panic")
		}
	}()
	x.parse("0000000000 65535")
''')),
]
SEEDS=[s for s in SEEDS if s['needs']]
