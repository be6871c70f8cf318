import runpy,os
one=runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)),'seeds1.py'))
HELP=one['HELP']; d=one['d']
SEEDS=[
dict(id='C24-open-leak',property='C24',edits=[('pdft.go','''	defer f.Close()

	return i.OpenFrom(f)
''','''	if err := i.OpenFrom(f); err != nil {
		return err
	}
	return f.Close()
''')],
 needs='opening files that are not pdf files',breaks='every failed open leaves a file descriptor open',
 demo=d('os path/filepath runtime/debug',r'''	debug.SetGCPercent(-1)
	name := filepath.Join(t.TempDir(), "x.pdf")
	zzOK(t, os.WriteFile(name, []byte("not a pdf"), 0600))
	count := func() int {
		l, err := os.ReadDir("/proc/self/fd")
		zzOK(t, err)
		return len(l)
	}
	var p PDFt
	p.Open(name)
	before := count()
	for i := 0; i < 20; i++ {
		var p PDFt
		if p.Open(name) == nil {
			t.Fatal("opened")
		}
	}
	if after := count(); after > before+5 {
		t.Fatalf("%d files open, %d before", after, before)
	}
''')),
dict(id='C26-render-pointers',property='C26',edits=[
 ('render/field_info.go','''func (f FieldInfos) toMap() map[string]FieldInfo {
	m := make(map[string]FieldInfo)
	for _, i := range f {
		m[i.Key] = i
''','''func (f FieldInfos) toMap() map[string]*FieldInfo {
	m := make(map[string]*FieldInfo)
	for i := range f {
		m[f[i].Key] = &f[i]
'''),
 ('render/render.go','map[string]FieldInfo','map[string]*FieldInfo')],
 needs='the caller changes its field list after NewRender and renders afterwards',breaks='the renderer reads the list of the caller when it renders, so later changes by the caller move the text',
 demo=d('bytes os path/filepath',r'''	name := filepath.Join(t.TempDir(), "x.pdf")
	zzTpl(t, name)
	run := func(change bool) []byte {
		l := FieldInfos{{Key: "a", PageNum: 1, X: 10, Y: 20, W: 100, H: 20, Font: "f", Size: 12}}
		r, err := NewRender(name, l)
		if err != nil {
			t.Fatal(err)
		}
		if err := r.AddFont("f", "../test/ttf/Loma.ttf"); err != nil {
			t.Fatal(err)
		}
		if change {
			l[0] = FieldInfo{Key: "b", PageNum: 1, X: 200, Y: 300, W: 50, H: 10, Font: "f", Size: 40}
		}
		if err := r.Text("a", "hello"); err != nil {
			t.Fatal(err)
		}
		var b bytes.Buffer
		if err := r.SaveTo(&b); err != nil {
			t.Fatal(err)
		}
		return b.Bytes()
	}
	if !bytes.Equal(run(false), run(true)) {
		t.Fatal("what the caller did to its list afterwards shows in the file")
	}
}

func zzTpl(t *testing.T, name string) {
	b, err := os.ReadFile("../test/pdf/pdf_from_gopdf.pdf")
	if err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(name, b, 0600); err != nil {
		t.Fatal(err)
	}
''','render'),pkg='./render'),
dict(id='C22-kern-swap',property='C22',edits=[('minigopdf/cache_content_text.go','''			leftIndex,
			rightIndex,
			pairVal,
''','''			rightIndex,
			leftIndex,
			pairVal,
''')],
 needs='a kerning override that uses the glyph numbers',breaks='the override is given the glyphs of the pair the wrong way round',
 demo=d('',r'''	f := &SubsetFontObj{ttfFontOption: TtfOption{UseKerning: true}}
	var l, r uint
	f.funcKernOverride = func(a, b rune, li, ri uint, v int16) int16 {
		l, r = li, ri
		return v
	}
	kern(f, 'a', 'b', 7, 9)
	if l != 7 || r != 9 {
		t.Fatalf("glyphs %d and %d instead of 7 and 9", l, r)
	}
''','gopdf'),pkg='./minigopdf'),
dict(id='C20-wrap-zero-width',property='C20',edits=[('render/render.go','	if finfo.IsWrapText {\n','	if finfo.IsWrapText && finfo.W > 0 {\n')],
 needs='a field with wrapping whose width is zero or left out',breaks='the field is written as one line, where every word would be on a line of its own',
 demo=d('bytes strings github.com/signintech/pdft/textbreak',r'''	r, err := NewRender("../test/pdf/pdf_from_gopdf.pdf", FieldInfos{{Key: "a", PageNum: 1, X: 10, Y: 20, Font: "f", Size: 12, IsWrapText: true}})
	if err != nil {
		t.Fatal(err)
	}
	if err := r.AddFont("f", "../test/ttf/Loma.ttf"); err != nil {
		t.Fatal(err)
	}
	count := func(text string) int {
		var a, b bytes.Buffer
		if err := r.SaveTo(&a); err != nil {
			t.Fatal(err)
		}
		r.SetTextBreaker(&textbreak.BasicTextbreak{})
		if err := r.Text("a", text); err != nil {
			t.Fatal(err)
		}
		if err := r.SaveTo(&b); err != nil {
			t.Fatal(err)
		}
		return strings.Count(b.String(), "TJ") - strings.Count(a.String(), "TJ")
	}
	if n := count("one two three"); n < 3 {
		t.Fatalf("%d lines", n)
	}
''','render'),pkg='./render'),
dict(id='C21-trailing-space',property='C21',edits=[('textbreak/basic_textbreak.go','	if tmp != "" {\n','	if strings.TrimSpace(tmp) != "" {\n'),
 ('textbreak/basic_textbreak.go','package textbreak\n','package textbreak\n\nimport "strings"\n')],
 needs='a text that ends in white space that is no break position (a tab, a no-break space)',breaks='the end of the text is lost',
 demo=d('strings',r'''	for _, s := range []string{"a \t", "a \u00a0", "\t"} {
		tokens, err := new(BasicTextbreak).BreakTextToToken(s)
		if err != nil || strings.Join(tokens, "") != s {
			t.Fatalf("%q from %q (%v)", tokens, s, err)
		}
	}
''','textbreak'),pkg='./textbreak'),
dict(id='C11-trns-rgb',property='C11',edits=[('minigopdf/image_obj_parse.go','trns = []byte{t[1], t[3], t[5]}','trns = []byte{t[1], t[3], t[4]}')],
 needs='an 8-bit rgb png with a transparent colour whose blue is not zero',breaks='another colour is transparent',
 demo=d('bytes encoding/binary compress/zlib hash/crc32',r'''	var b bytes.Buffer
	b.WriteString("\x89PNG\r\n\x1a\n")
	chunk := func(name string, data []byte) {
		binary.Write(&b, binary.BigEndian, uint32(len(data)))
		x := append([]byte(name), data...)
		b.Write(x)
		binary.Write(&b, binary.BigEndian, crc32.ChecksumIEEE(x))
	}
	chunk("IHDR", []byte{0, 0, 0, 1, 0, 0, 0, 1, 8, 2, 0, 0, 0})
	chunk("tRNS", []byte{0, 10, 0, 20, 0, 30})
	var z bytes.Buffer
	w := zlib.NewWriter(&z)
	w.Write([]byte{0, 1, 2, 3})
	w.Close()
	chunk("IDAT", z.Bytes())
	chunk("IEND", nil)
	info, err := parseImg(bytes.NewReader(b.Bytes()))
	if err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(info.trns, []byte{10, 20, 30}) {
		t.Fatalf("transparent colour %v", info.trns)
	}
''','gopdf'),pkg='./minigopdf'),
dict(id='C23-oval',property='C23',edits=[('minigopdf/cache_content_oval.go','''		v3[0]-(x2-x1)/2*cp, v3[1], v4[0], v4[1]+(y2-y1)/2*cp, v4[0], v4[1],
''','''		v3[0]-(x2-x1)/2*cp, v3[1], v4[0], v4[1]+(x2-x1)/2*cp, v4[0], v4[1],
''')],
 needs='an oval that is wider than high or the other way round',breaks='a quarter of the oval has the wrong shape',
 demo=d('fmt math strings',r'''	c := &cacheContentOval{pageHeight: 800, x1: 100, y1: 100, x2: 300, y2: 200}
	b, err := c.toStream(nil)
	if err != nil {
		t.Fatal(err)
	}
	//the third curve is the mirror image of the second
	l := strings.Split(b.String(), "\n")
	var p, q [6]float64
	for i, s := range []string{l[2], l[3]} {
		x := []*[6]float64{&p, &q}[i]
		if n, _ := fmt.Sscan(s, &x[0], &x[1], &x[2], &x[3], &x[4], &x[5]); n != 6 {
			t.Skip("written another way")
		}
	}
	if math.Abs(p[1]-q[3]) > 0.02 || math.Abs(p[3]-q[1]) > 0.02 {
		t.Fatalf("%v and %v", p, q)
	}
''','gopdf'),pkg='./minigopdf'),
dict(id='C13-perm-const',property='C13',edits=[('minigopdf/pdf_protection.go','	PermissionsModify = 8\n','	PermissionsModify = 16\n'),('minigopdf/pdf_protection.go','	PermissionsCopy = 16\n','	PermissionsCopy = 8\n')],
 needs='protection that grants only one of copying and modifying',breaks='the file grants the other one',
 demo=d('fmt strings',r'''	var p GoPdf
	p.Start(Config{PageSize: Rect{W: 300, H: 300}, Protection: PDFProtectionConfig{UseProtection: true, Permissions: PermissionsCopy, OwnerPass: []byte("o"), UserPass: []byte("u")}})
	p.AddPage()
	s := string(p.GetBytesPdf())
	i := strings.Index(s, "/P -")
	if i < 0 {
		t.Fatal("no permissions")
	}
	n := 0
	fmt.Sscan(s[i+3:], &n)
	if n&16 == 0 || n&8 != 0 {
		t.Fatalf("permissions %d", n)
	}
''','gopdf'),pkg='./minigopdf'),
dict(id='C25-xheight',property='C25',edits=[('minigopdf/subfont_descriptor_obj.go','DesignUnitsToPdf(ttfp.XHeight(), ttfp.UnitsPerEm())','DesignUnitsToPdf(ttfp.XHeight(), uint(1024))')],
 needs='a font whose units per em is not 1024',breaks='the x-height in the descriptor is not the one of the font',
 demo=d('bytes fmt strings',r'''	f := &SubsetFontObj{}
	f.init(nil)
	if err := f.SetTTFByPath("../test/ttf/Loma.ttf"); err != nil {
		t.Fatal(err)
	}
	f.SetFamily("f")
	var s SubfontDescriptorObj
	s.SetPtrToSubsetFontObj(f)
	if err := s.Build(1); err != nil {
		t.Fatal(err)
	}
	var b bytes.Buffer
	b.Write(s.GetObjBuff().Bytes())
	n := 0
	fmt.Sscan(b.String()[strings.Index(b.String(), "/XHeight")+8:], &n)
	ttfp := f.GetTTFParser()
	if want := DesignUnitsToPdf(ttfp.XHeight(), ttfp.UnitsPerEm()); n != want || want == 0 {
		t.Fatalf("%d instead of %d", n, want)
	}
''','gopdf'),pkg='./minigopdf'),
]
