package main

// Documents built from scratch with the bundled generator.

import (
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strings"
	"time"
	"unicode/utf16"

	"github.com/signintech/pdft"
	gopdf "github.com/signintech/pdft/minigopdf"
	"pgregory.net/rapid"
)

func goProtected(perm int, user, owner []byte) ([]byte, error) {
	var g gopdf.GoPdf
	g.Start(gopdf.Config{Unit: "pt", PageSize: gopdf.Rect{W: 595, H: 842}, Protection: gopdf.PDFProtectionConfig{UseProtection: true, Permissions: apiPerm(perm), UserPass: user, OwnerPass: owner}})
	g.AddPage()
	g.Line(10, 20, 30, 40)
	return g.GetBytesPdfReturnErr()
}

// GoHist is a history of drawing calls.
type GoHist struct {
	W     float64    `json:"w"`
	H     float64    `json:"h"`
	Prot  *HOp       `json:"prot,omitempty"`
	Fonts []FontSpec `json:"fonts,omitempty"`
	Names []string   `json:"names,omitempty"`
	Style []int      `json:"style,omitempty"`
	Kern  []bool     `json:"kern,omitempty"`
	Imgs  []ImgSpec  `json:"imgs,omitempty"`
	Ops   []HOp      `json:"ops"`
	Tpl   bool       `json:"tpl,omitempty"` // use the result as a template
}

type goItem struct {
	kind   string
	text   string
	font   *mFont
	size   int
	x, y   float64 // start of the first glyph
	ux, uw float64 // underline
	uy     float64
	under  bool
	lines  []lineSeg // border
	fill   *[3]float64
	stroke *[3]float64
	lw     float64
	dash   string
	paint  string
	pts    []float64 // path points for curves, corners for rectangles, ends for lines
	img    int
	m      Mat
	// state deciding whether a following text continues this one
	set, style int
	cx, cy, cw float64
	tc         [3]int
	gf         float64
}

type goPage struct {
	w, h   float64
	items  []*goItem
	fill   [3]float64
	fillOK bool // the fill colour is known
	stroke [3]float64
	lw     float64
	dash   string
}

type goModel struct {
	h      *GoHist
	pages  []*goPage
	fonts  []*mFont
	styles []int
	cur    *mFont
	size   int
	style  int
	x, y   float64
	lm, tm float64
	setx   int
	tc     [3]int
	gf     float64
	gfPage int // page the gray fill was set on
	lw     float64
	rects  map[string][2]float64
	info   *gopdf.PdfInfo
	level  int
	issues Issues
	marks  int
	added  map[int]bool
}

type goRunner struct {
	m    *goModel
	g    *gopdf.GoPdf
	x    *Ctx
	last []byte
	bad  string
	l    *loans
}

func (m *goModel) page() *goPage { return m.pages[len(m.pages)-1] }

func rgbOf(c []int) [3]float64 {
	return [3]float64{float64(c[0]) / 255, float64(c[1]) / 255, float64(c[2]) / 255}
}

func newGo(h *GoHist, x *Ctx) *goRunner { return newGoLoan(h, x, nil) }

func newGoLoan(h *GoHist, x *Ctx, l *loans) *goRunner {
	r := &goRunner{m: &goModel{h: h, lm: 10, tm: 10, lw: 1, rects: map[string][2]float64{}, level: -1, gfPage: -1, added: map[int]bool{}}, g: &gopdf.GoPdf{}, x: x, l: l}
	c := gopdf.Config{Unit: "pt", PageSize: gopdf.Rect{W: h.W, H: h.H}}
	if h.Prot != nil {
		c.Protection = gopdf.PDFProtectionConfig{UseProtection: true, Permissions: apiPerm(h.Prot.Q), UserPass: l.bytes("user password", []byte(h.Prot.S)), OwnerPass: l.bytes("owner password", []byte(h.Prot.St))}
	}
	r.g.Start(c)
	r.m.x, r.m.y = 10, 10
	return r
}

// goYear gives mostly recent years, some far ones
func goYear(q int) int {
	if q%10 == 9 {
		return []int{1, 999, 1899, 1970, 2038, 2099, 2100, 2101, 3000, 9998}[q/10%10]
	}
	return 2000 + q%90
}

func goStyle(s string) int {
	st := 0
	u := strings.ToUpper(s)
	for _, k := range []struct {
		c string
		v int
	}{{"B", gopdf.Bold}, {"I", gopdf.Italic}, {"U", gopdf.Underline}} {
		if strings.Contains(u, k.c) {
			st |= k.v
		}
	}
	return st
}

// do performs one call on both sides and returns whether to go on.
func (r *goRunner) do(op HOp) bool {
	m, g := r.m, r.g
	bad := func(f string, a ...interface{}) bool {
		m.issues.add("ret", f, a...)
		return false
	}
	if op.K == "page" {
		p := &goPage{w: m.h.W, h: m.h.H, fillOK: true, lw: 1, dash: "[] 0"}
		if op.V == 1 {
			g.AddPageWithOption(gopdf.PageOption{PageSize: gopdf.Rect{W: op.W, H: op.H}})
			p.w, p.h = op.W, op.H
		} else {
			g.AddPage()
		}
		m.pages = append(m.pages, p)
		m.x, m.y = m.lm, m.tm
		return true
	}
	switch op.K {
	case "font":
		if m.added[op.F] {
			return true
		}
		m.added[op.F] = true
		opt := gopdf.TtfOption{UseKerning: m.h.Kern[op.F], Style: m.h.Style[op.F]}
		data := r.l.bytes("font", m.h.Fonts[op.F].Bytes())
		var err error
		switch {
		case op.V == 1:
			p := filepath.Join(r.x.dir, "gofont.ttf")
			if e := os.WriteFile(p, data, 0o644); e != nil {
				panic(harnessBug(e.Error()))
			}
			if opt == (gopdf.TtfOption{}) {
				err = g.AddTTFFont(m.h.Names[op.F], p)
			} else {
				err = g.AddTTFFontWithOption(m.h.Names[op.F], p, opt)
			}
			os.Remove(p)
		case opt == (gopdf.TtfOption{}):
			err = g.AddTTFFontByReader(m.h.Names[op.F], readerOf(data))
		default:
			err = g.AddTTFFontByReaderWithOption(m.h.Names[op.F], readerOf(data), opt)
		}
		if err != nil {
			return bad("adding font %d failed: %v", op.F, err)
		}
		f := &mFont{name: m.h.Names[op.F], ttf: m.h.Fonts[op.F].TTF(), seen: map[rune]bool{}}
		if opt.UseKerning {
			f.kern = func(l, rr rune) int {
				a, _ := f.ttf.Gid(l)
				b, _ := f.ttf.Gid(rr)
				return f.ttf.Kern[[2]int{a, b}]
			}
		}
		m.fonts = append(m.fonts, f)
		m.styles = append(m.styles, opt.Style)
	case "kern":
		// the first font of the family
		var f *mFont
		for _, k := range m.fonts {
			if k.name == m.h.Names[op.F] {
				f = k
				break
			}
		}
		if f != nil && (f.kern == nil || f.used()) {
			return true
		}
		upm := 1
		if f != nil {
			upm = f.ttf.UPM
		}
		kf := kernFn(op, upm)
		err := g.KernOverride(m.h.Names[op.F], func(l, rr rune, lg, rg uint, pair int16) int16 {
			el, _ := f.ttf.Gid(l)
			er, _ := f.ttf.Gid(rr)
			if uint(el) != lg || uint(er) != rg || int(pair) != f.ttf.Kern[[2]int{el, er}] {
				m.issues.add("ret", "kerning override called with (%q,%q,%d,%d,%d), glyphs are %d %d, the font's value is %d", l, rr, lg, rg, pair, el, er, f.ttf.Kern[[2]int{el, er}])
			}
			return int16(kf(l, rr, int(pair)))
		})
		if (err == nil) != (f != nil) {
			return bad("KernOverride(%q) returned %v", m.h.Names[op.F], err)
		}
		if f != nil {
			f.kern = func(l, rr rune) int {
				a, _ := f.ttf.Gid(l)
				b, _ := f.ttf.Gid(rr)
				return int(int16(kf(l, rr, f.ttf.Kern[[2]int{a, b}])))
			}
		}
	case "setfont":
		st := goStyle(op.St)
		var f *mFont
		for i, k := range m.fonts {
			if k.name == m.h.Names[op.F] && m.styles[i] == st&^gopdf.Underline {
				f = k
				break
			}
		}
		var err error
		if op.V == 1 {
			err = g.SetFontWithStyle(m.h.Names[op.F], st, op.Sz)
		} else {
			err = g.SetFont(m.h.Names[op.F], op.St, op.Sz)
		}
		if (err == nil) != (f != nil) {
			return bad("SetFont(%q, %q) returned %v", m.h.Names[op.F], op.St, err)
		}
		if f != nil {
			m.cur, m.size, m.style = f, op.Sz, st
		}
	case "measure":
		if m.cur == nil {
			return true
		}
		got, err := g.MeasureTextWidth(op.S)
		good := true
		for _, c := range op.S {
			if _, ok := m.cur.ttf.Gid(c); !ok {
				good = false
			}
		}
		if (err == nil) != good {
			return bad("MeasureTextWidth(%q) returned %v", op.S, err)
		}
		m.addG(op.S)
		if good && !near(got, m.cur.width(op.S, m.size), 1e-6*(1+math.Abs(got))) {
			m.issues.add("measure", "MeasureTextWidth(%q) at size %d is %v, the font's metrics give %v", op.S, m.size, got, m.cur.width(op.S, m.size))
		}
	case "setx":
		g.SetX(op.X)
		m.x = op.X
		m.setx++
	case "sety":
		g.SetY(op.Y)
		m.y = op.Y
	case "br":
		g.Br(op.Y)
		m.y += op.Y
		m.x = m.lm
	case "margin":
		if op.V == 1 {
			g.SetTopMargin(op.Y)
			m.tm = op.Y
		} else {
			g.SetLeftMargin(op.X)
			m.lm = op.X
		}
	case "xy":
		if x, y := g.GetX(), g.GetY(); !near(x, m.x, 1e-6*(1+math.Abs(m.x))) || !near(y, m.y, 1e-6*(1+math.Abs(m.y))) {
			m.issues.add("xy", "the current position is (%v, %v) instead of (%v, %v)", x, y, m.x, m.y)
		}
	case "tc":
		g.SetTextColor(uint8(op.C[0]), uint8(op.C[1]), uint8(op.C[2]))
		m.tc = [3]int{op.C[0], op.C[1], op.C[2]}
	case "info":
		i := gopdf.PdfInfo{Title: op.S, Author: op.St}
		if op.V&1 != 0 {
			i.Subject, i.Creator, i.Producer = op.St, op.S, op.St
		}
		if op.V&2 != 0 {
			i.CreationDate = time.Date(goYear(op.Q), time.Month(op.Q%12+1), op.Q%28+1, op.Q%24, op.Q%60, op.Q%59, 0, time.FixedZone("", (op.P-48)*900))
		}
		g.SetInfo(i)
		m.info = &i
	case "comp":
		if op.V == 100 {
			g.SetNoCompression()
			m.level = 0
		} else {
			g.SetCompressLevel(op.V)
			m.level = op.V // -3 and less: the default, more than 9: the best
		}
	case "get":
		return r.get(op.V)
	}
	if len(m.pages) == 0 {
		return true // the rest draws on a page
	}
	p := m.page()
	it := &goItem{kind: "path", lw: p.lw, dash: p.dash}
	st := p.stroke
	it.stroke = &st
	fillNow := func() *[3]float64 {
		if !p.fillOK {
			return nil
		}
		f := p.fill
		return &f
	}
	paintOf := func(s string) string {
		switch s {
		case "F":
			return "f"
		case "FD", "DF":
			return "B"
		}
		return "S"
	}
	add := func(it *goItem) {
		p.items = append(p.items, it)
		m.marks++
	}
	// a state change separates texts
	sep := func() { p.items = append(p.items, &goItem{kind: "sep"}) }
	switch op.K {
	case "text", "cell", "celld":
		if m.cur == nil {
			return true
		}
		good := true
		for _, c := range op.S {
			if _, ok := m.cur.ttf.Gid(c); !ok {
				good = false
			}
		}
		var err error
		switch op.K {
		case "text":
			err = g.Text(op.S)
		case "cell":
			err = g.CellWithOption(r.rect(op), op.S, gopdf.CellOption{Align: apiBits(op.A), Border: apiBits(op.V), Float: apiBits(op.Q)})
		case "celld":
			err = g.Cell(r.rect(op), op.S)
		}
		m.addG(op.S)
		if (err == nil) != good {
			return bad("%s %q returned %v", op.K, op.S, err)
		}
		if !good {
			return true
		}
		m.text(op)
	case "line":
		g.Line(op.X, op.Y, op.W, op.H)
		it.kind, it.paint, it.pts = "line", "S", []float64{op.X, p.h - op.Y, op.W, p.h - op.H}
		add(it)
	case "rect":
		y := op.Y
		switch op.V % 4 {
		case 0:
			g.RectFromLowerLeft(op.X, op.Y, op.W, op.H)
			it.paint = "S"
		case 1:
			g.RectFromUpperLeft(op.X, op.Y, op.W, op.H)
			it.paint = "S"
			y += op.H
		case 2:
			g.RectFromLowerLeftWithStyle(op.X, op.Y, op.W, op.H, op.St)
			it.paint = paintOf(op.St)
		case 3:
			g.RectFromUpperLeftWithStyle(op.X, op.Y, op.W, op.H, op.St)
			it.paint = paintOf(op.St)
			y += op.H
		}
		it.kind, it.fill = "rect", fillNow()
		it.pts = []float64{op.X, p.h - y, op.X + op.W, p.h - y + op.H}
		add(it)
	case "oval":
		g.Oval(op.X, op.Y, op.W, op.H)
		x1, y1, x2, y2 := op.X, p.h-op.Y, op.W, p.h-op.H
		it.kind, it.paint = "oval", "S"
		it.pts = []float64{x1, y1, x2, y2}
		add(it)
	case "curve":
		q := op.Pts
		g.Curve(q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], op.St)
		it.kind, it.paint, it.fill = "curve", paintOf(strings.ToUpper(strings.TrimSpace(op.St))), fillNow()
		for k := 0; k < 8; k += 2 {
			it.pts = append(it.pts, q[k], p.h-q[k+1])
		}
		add(it)
	case "lw":
		g.SetLineWidth(op.W)
		p.lw, m.lw = op.W, op.W
		sep()
	case "lt":
		g.SetLineType(op.St)
		p.dash = map[string]string{"dashed": "[5] 2", "dotted": "[2 3] 11"}[op.St]
		if p.dash == "" {
			p.dash = "[] 0"
		}
		sep()
	case "gf":
		g.SetGrayFill(op.W)
		v := math.Min(1, math.Max(0, op.W))
		p.fill, p.fillOK = [3]float64{v, v, v}, true
		m.gf, m.gfPage = op.W, len(m.pages)
		sep()
	case "gs":
		g.SetGrayStroke(op.W)
		v := math.Min(1, math.Max(0, op.W))
		p.stroke = [3]float64{v, v, v}
		sep()
	case "fc":
		g.SetFillColor(uint8(op.C[0]), uint8(op.C[1]), uint8(op.C[2]))
		p.fill, p.fillOK = rgbOf(op.C), true
		m.gfPage = -2
		sep()
	case "sc":
		g.SetStrokeColor(uint8(op.C[0]), uint8(op.C[1]), uint8(op.C[2]))
		p.stroke = rgbOf(op.C)
		sep()
	case "img":
		return r.image(op, p, add)
	}
	return true
}

func (r *goRunner) rect(op HOp) *gopdf.Rect {
	if op.P == 1 {
		return nil
	}
	return r.l.rect(&gopdf.Rect{W: op.W, H: op.H})
}

// addG notes characters offered to the font, also those of texts that failed
func (m *goModel) addG(s string) {
	for _, c := range s {
		if _, ok := m.cur.ttf.Gid(c); !ok {
			return
		}
		m.cur.seen[c] = true
	}
}

func (m *goModel) text(op HOp) {
	p := m.page()
	t := m.cur.ttf
	fs := float64(m.size)
	asc, desc := float64(t.TAsc)/float64(t.UPM)*fs, float64(t.TDesc)/float64(t.UPM)*fs
	it := &goItem{kind: op.K, text: op.S, font: m.cur, size: m.size, set: m.setx, style: m.style, cx: m.x, cy: m.y, tc: m.tc, gf: m.gf, under: m.style&gopdf.Underline != 0}
	st := p.stroke
	it.stroke, it.lw, it.dash = &st, p.lw, p.dash
	if n := len(p.items); n > 0 && op.K == "text" {
		o := p.items[n-1]
		if o.kind == "text" && o.set == it.set && o.style == it.style && o.font == it.font && o.size == it.size && o.tc == it.tc && o.gf == it.gf && o.cy == it.cy && near(o.cx+o.cw, m.x, 1e-9) {
			// the text goes on
			o.text += op.S
			o.cw = m.cur.width(o.text, m.size)
			o.uw = o.cw
			m.x = o.cx + o.cw
			if len(op.S) > 0 {
				m.marks++
			}
			return
		}
	}
	tw := m.cur.width(op.S, m.size)
	if op.K == "text" {
		it.x, it.y = m.x, p.h-m.y
		it.cw = tw
		m.x += tw
	} else {
		w, h := op.W, op.H
		if op.P == 1 {
			w, h = tw, asc-desc
		}
		align, border, float := op.A, op.V, op.Q
		if op.K == "celld" {
			align, border, float = aLeft|aTop, 0, aRight
		}
		it.x, it.y = m.x, p.h-m.y-asc
		switch {
		case align&aRight != 0:
			it.x = m.x + w - tw
		case align&aCenter != 0:
			it.x = m.x + (w-tw)/2
		}
		switch {
		case align&aBottom != 0:
			it.y = p.h - m.y - h - desc
		case align&aMiddle != 0:
			it.y = p.h - m.y - h/2 - (asc+desc)/2
		}
		o := m.lw / 2
		x0, x1, y0, y1 := m.x, m.x+w, p.h-m.y, p.h-m.y-h
		if border&aTop != 0 {
			it.lines = append(it.lines, segOf(x0-o, y0, x1+o, y0))
		}
		if border&aLeft != 0 {
			it.lines = append(it.lines, segOf(x0, y0, x0, y1))
		}
		if border&aRight != 0 {
			it.lines = append(it.lines, segOf(x1, y0, x1, y1))
		}
		if border&aBottom != 0 {
			it.lines = append(it.lines, segOf(x0-o, y1, x1+o, y1))
		}
		it.cw = w
		if float == 0 || float&aRight != 0 {
			m.x += w
		}
		if float&aBottom != 0 {
			m.y += h
		}
	}
	it.ux, it.uw = it.cx, it.cw
	it.uy = p.h - (it.cy - float64(t.UPos)/float64(t.UPM)*fs) - 0.7*fs
	// colour
	if m.tc != [3]int{} {
		f := rgbOf(m.tc[:])
		it.fill = &f
		p.fillOK = false // what later shapes are filled with is not specified
	} else if m.gfPage == -1 {
		it.fill = &[3]float64{}
		if p.fillOK && p.fill != [3]float64{} {
			it.fill = nil
		}
	} else if m.gfPage == len(m.pages) {
		v := math.Min(1, math.Max(0, m.gf))
		it.fill = &[3]float64{v, v, v}
	}
	p.items = append(p.items, it)
	m.marks++
}

func (r *goRunner) image(op HOp, p *goPage, add func(*goItem)) bool {
	m, g := r.m, r.g
	spec := &m.h.Imgs[op.F]
	data := r.l.bytes("image", spec.Bytes())
	key := fmt.Sprintf("%x", hash64(data))
	path := filepath.Join(r.x.dir, fmt.Sprintf("goimg%d", op.F))
	if op.V%3 == 2 {
		key = path
	}
	old, known := m.rects[key]
	var rect *gopdf.Rect
	w, h := op.W, op.H
	if op.P == 1 {
		// natural size: 128 dots per inch, whole points
		px := m.pixOf(op.F)
		if px == nil {
			return true
		}
		iw, ih := px.W*72/128, px.H*72/128
		if iw == 0 {
			iw = ih * px.W / px.H
		}
		if ih == 0 {
			ih = iw * px.H / px.W
		}
		if iw == 0 || ih == 0 {
			return true
		}
		w, h = float64(iw), float64(ih)
		if known { // as large as it was drawn first
			w, h = old[0], old[1]
		}
	} else {
		rect = r.l.rect(&gopdf.Rect{W: w, H: h})
	}
	var err error
	switch op.V % 3 {
	case 0, 1:
		var ih gopdf.ImageHolder
		if op.V%3 == 0 {
			ih, err = gopdf.ImageHolderByBytes(data)
		} else {
			ih, err = gopdf.ImageHolderByReader(readerOf(data))
		}
		if err == nil {
			err = g.ImageByHolder(ih, op.X, op.Y, rect)
		}
	case 2:
		if e := os.WriteFile(path, data, 0o644); e != nil {
			panic(harnessBug(e.Error()))
		}
		err = g.Image(path, op.X, op.Y, rect)
		os.Remove(path)
	}
	if (err == nil) == spec.Refused() {
		m.issues.add("ret", "drawing image %d returned %v", op.F, err)
		return false
	}
	if err != nil {
		return true
	}
	if !known {
		m.rects[key] = [2]float64{w, h}
	}
	add(&goItem{kind: "img", img: op.F, m: Mat{w, 0, 0, h, op.X, p.h - op.Y - h}})
	return true
}

func (m *goModel) pixOf(k int) *Pix {
	if m.h.Imgs[k].Refused() {
		return nil
	}
	return DecodeImg(m.h.Imgs[k].Bytes())
}

// get compiles the document in one of several ways and checks it.
func (r *goRunner) get(v int) bool {
	m, g := r.m, r.g
	var b []byte
	var err error
	switch v % 4 {
	case 0:
		b, err = g.GetBytesPdfReturnErr()
		b = r.taken(b)
	case 1:
		b = r.taken(g.GetBytesPdf())
	case 2:
		p := filepath.Join(r.x.dir, "go.pdf")
		if len(m.h.Ops)%2 == 0 { // over a longer file
			if err := os.WriteFile(p, []byte(strings.Repeat("%old contents of the file\n", 15000)), 0o644); err != nil {
				panic(harnessBug(err.Error()))
			}
		}
		g.WritePdf(p)
		b, err = os.ReadFile(p)
		os.Remove(p)
	case 3:
		if err = g.Close(); err == nil {
			b, err = io.ReadAll(&oddReader{r: g, n: 1 + len(m.pages)*7})
		}
	}
	if err != nil {
		m.issues.add("ret", "compiling failed: %v", err)
		return false
	}
	dump("go.pdf", b)
	r.last = b
	m.check(b)
	return true
}

// taken copies the bytes given out and, as the caller may, writes over them.
func (r *goRunner) taken(b []byte) []byte {
	out := append([]byte(nil), b...)
	for i := range b {
		b[i] = '?'
	}
	return out
}

// oddReader reads in pieces of a given size.
type oddReader struct {
	r io.Reader
	n int
}

func (o *oddReader) Read(p []byte) (int, error) {
	if len(p) > o.n {
		p = p[:o.n]
	}
	return o.r.Read(p)
}

func (m *goModel) doc(data []byte) *Doc {
	is := &m.issues
	doc, err := decoded(data, m.h.Prot, m.h.Prot != nil && len(data)%2 == 0)
	if err != nil {
		is.add("struct", "%v", err)
		return nil
	}
	return doc
}

func (m *goModel) check(data []byte) {
	is := &m.issues
	doc := m.doc(data)
	if doc == nil {
		return
	}
	if l := doc.Dangling(); len(l) > 0 {
		is.add("struct", "references to objects that do not exist: %v", l)
	}
	pages, err := doc.Pages()
	if err != nil {
		is.add("struct", "%v", err)
		return
	}
	if len(pages) != len(m.pages) {
		is.add("pages", "the document has %d pages instead of %d", len(pages), len(m.pages))
		return
	}
	m.checkInfo(doc)
	fs := newFontSet(doc)
	seen := map[string]Obj{}
	for i, p := range pages {
		m.checkGoPage(doc, p, m.pages[i], fs, seen, 0)
	}
	fs.finish(is)
	if m.level == 0 {
		for _, p := range pages {
			for _, c := range append(Arr{p.D["Contents"]}, doc.Arr(p.D["Contents"])...) {
				if s, ok := doc.R(c).(*Stream); ok && s.D["Filter"] != nil {
					is.add("level", "a content stream is compressed without compression asked for")
				}
			}
		}
	}
}

func (m *goModel) checkInfo(doc *Doc) {
	is := &m.issues
	inf := doc.Dict(doc.Trailer["Info"])
	if m.info == nil {
		if len(inf) > 0 {
			is.add("info", "there is a document information dictionary nobody asked for: %v", inf)
		}
		return
	}
	want := map[string]string{"Title": m.info.Title, "Author": m.info.Author, "Subject": m.info.Subject, "Creator": m.info.Creator, "Producer": m.info.Producer}
	for k, v := range want {
		got := ""
		if s, ok := doc.R(inf[k]).(Str); ok {
			b := []byte(string(s))
			if len(b) < 2 || b[0] != 0xFE || b[1] != 0xFF {
				is.add("info", "/%s is %q", k, b)
				continue
			}
			var u []uint16
			for j := 2; j+1 < len(b); j += 2 {
				u = append(u, uint16(b[j])<<8|uint16(b[j+1]))
			}
			got = string(utf16.Decode(u))
		}
		if got != v {
			is.add("info", "/%s is %q instead of %q", k, got, v)
		}
	}
	s, ok := doc.R(inf["CreationDate"]).(Str)
	if m.info.CreationDate.IsZero() {
		if ok {
			is.add("info", "/CreationDate is %q without one given", s)
		}
		return
	}
	d := strings.ReplaceAll(string(s), "'", "")
	t, err := time.Parse("D:20060102150405Z0700", d)
	if err != nil {
		is.add("info", "/CreationDate is %q", s)
	} else if !t.Equal(m.info.CreationDate) {
		is.add("info", "/CreationDate is %q, given was %v", s, m.info.CreationDate)
	}
}

func (m *goModel) checkGoPage(doc *Doc, p *Page, mp *goPage, fs *fontSet, seen map[string]Obj, from int) {
	is := &m.issues
	pn := p.Index + 1
	mb := doc.Arr(p.Inh["MediaBox"])
	if len(mb) != 4 {
		is.add("pages", "page %d: /MediaBox is %v", pn, p.Inh["MediaBox"])
	} else {
		for k, w := range []float64{0, 0, mp.w, mp.h} {
			if v, ok := doc.Num(mb[k]); !ok || !near(v, w, 0.0051) {
				is.add("pages", "page %d: /MediaBox is %v instead of 0 0 %v %v", pn, mb, mp.w, mp.h)
				break
			}
		}
	}
	ops, err := doc.PageOps(p)
	if err != nil {
		is.add("draw", "%v", err)
		return
	}
	evs, err := doc.Interpret(p, ops, 0)
	if err != nil {
		is.add("draw", "page %d: %v", pn, err)
		return
	}
	pos := 0
	next := func(kind string) *Ev {
		if pos < len(evs) && evs[pos].Kind == kind {
			pos++
			return &evs[pos-1]
		}
		return nil
	}
	for n, it := range mp.items {
		where := fmt.Sprintf("page %d, item %d (%s %q)", pn, n+1, it.kind, it.text)
		switch it.kind {
		case "sep":
		case "text", "cell", "celld":
			if !m.checkGoText(doc, where, it, next, fs) {
				return
			}
		case "img":
			e := next("image")
			if e == nil {
				is.add("order", "%s: the image is not drawn", where)
				return
			}
			for k := range it.m {
				if !near(it.m[k], e.M[k], posTol) {
					is.add("pos", "%s is drawn with matrix %.4f instead of %.4f", where, e.M, it.m)
					break
				}
			}
			if e.Env != "" {
				is.add("env", "%s is drawn with %s", where, e.Env)
			}
			k := fmt.Sprint(e.XObj)
			px, ok := fs.pix[e.XObj]
			if !ok {
				s, isS := doc.R(e.XObj).(*Stream)
				if !isS {
					is.add("pixels", "%s: not a stream", where)
					return
				}
				var err error
				if px, err = doc.ImagePix(s); err != nil {
					is.add("pixels", "%s: %v", where, err)
					return
				}
				fs.pix[e.XObj] = px
			}
			seen[k] = e.XObj
			if d := m.pixOf(it.img).Diff(px); d != "" {
				is.add("pixels", "%s: %s", where, d)
			}
		default:
			e := next("path")
			if e == nil {
				is.add("order", "%s is not drawn", where)
				return
			}
			m.checkGoPath(where, it, e)
		}
	}
	if pos < len(evs) {
		is.add("order", "page %d: %d marks nobody asked for, the first a %s", pn, len(evs)-pos, evs[pos].Kind)
	}
}

func (m *goModel) checkStroke(where string, it *goItem, e *Ev) {
	is := &m.issues
	want := fmt.Sprintf("%.2f %.2f %.2f", it.stroke[0], it.stroke[1], it.stroke[2])
	got := strokeRGB(e.Stroke)
	for k := range got {
		if !near(got[k], it.stroke[k], 0.0052) {
			is.add("colour", "%s has stroke colour %q instead of %s", where, e.Stroke, want)
			break
		}
	}
	if !near(e.LW, it.lw, 0.0051) {
		is.add("stroke", "%s has line width %v instead of %v", where, e.LW, it.lw)
	}
	if e.Dash != it.dash {
		is.add("stroke", "%s has dash pattern %q instead of %q", where, e.Dash, it.dash)
	}
}

func (m *goModel) checkFill(where string, want *[3]float64, e *Ev) {
	if want == nil {
		return
	}
	for k := range want {
		if !near(want[k], e.FillC[k], 0.0052) {
			m.issues.add("colour", "%s has colour %s instead of %.3f", where, e.Fill, *want)
			return
		}
	}
}

func (m *goModel) checkGoPath(where string, it *goItem, e *Ev) {
	is := &m.issues
	if e.Paint != it.paint {
		is.add("paint", "%s is painted with %s instead of %s", where, e.Paint, it.paint)
	}
	if e.Env != "" {
		is.add("env", "%s is drawn with %s", where, e.Env)
	}
	if e.Paint != "f" {
		m.checkStroke(where, it, e)
	}
	if e.Paint != "S" {
		m.checkFill(where, it.fill, e)
	}
	bad := ""
	switch it.kind {
	case "line":
		bad = matchSegs([]lineSeg{segOf(it.pts[0], it.pts[1], it.pts[2], it.pts[3])}, linesOf(e.Segs), posTol)
	case "rect":
		x0, y0, x1, y1 := bounds(e.Segs)
		b := segOf(it.pts[0], it.pts[1], it.pts[2], it.pts[3])
		if b[1] > b[3] {
			b[1], b[3] = b[3], b[1]
		}
		for k, v := range []float64{x0, y0, x1, y1} {
			if !near(v, b[k], posTol) {
				bad = fmt.Sprintf("drawn at %.3f instead of %.3f", []float64{x0, y0, x1, y1}, b)
				break
			}
		}
		ls := linesOf(e.Segs)
		for _, l := range ls {
			if math.IsNaN(l[0]) || l[0] != l[2] && l[1] != l[3] {
				bad = "not a rectangle"
			}
		}
	case "curve":
		bad = curvePts(e.Segs, it.pts)
	case "oval":
		bad = ovalIn(e.Segs, it.pts)
	}
	if bad != "" {
		is.add("pos", "%s: %s", where, bad)
	}
}

func curvePts(s []Seg, want []float64) string {
	var got []float64
	for _, g := range s {
		if g.Op != "m" && g.Op != "c" {
			return "not a curve"
		}
		got = append(got, g.P...)
	}
	if len(got) != len(want) {
		return "not a single curve"
	}
	for k := range got {
		if !near(got[k], want[k], posTol) {
			return fmt.Sprintf("drawn through %.3f instead of %.3f", got, want)
		}
	}
	return ""
}

// ovalIn checks that closed curves go around the ellipse in the box.
func ovalIn(s []Seg, box []float64) string {
	cx, cy := (box[0]+box[2])/2, (box[1]+box[3])/2
	rx, ry := math.Abs(box[2]-box[0])/2, math.Abs(box[3]-box[1])/2
	var x, y, sx, sy float64
	n := 0
	ang := 0.0
	for _, g := range s {
		switch g.Op {
		case "m":
			x, y = g.P[0], g.P[1]
			sx, sy = x, y
		case "c":
			px, py := x, y
			for k := 0; k <= 16; k++ {
				t := float64(k) / 16
				b := []float64{(1 - t) * (1 - t) * (1 - t), 3 * t * (1 - t) * (1 - t), 3 * t * t * (1 - t), t * t * t}
				qx := b[0]*x + b[1]*g.P[0] + b[2]*g.P[2] + b[3]*g.P[4]
				qy := b[0]*y + b[1]*g.P[1] + b[2]*g.P[3] + b[3]*g.P[5]
				tol := 0.03 + 0.002*math.Max(rx, ry)
				if rx > 0.5 && ry > 0.5 {
					a := math.Atan2((qy-cy)/ry, (qx-cx)/rx)
					f := math.Hypot((qx-cx)/rx, (qy-cy)/ry)
					if math.Abs(f-1) > 0.002+0.02/rx+0.02/ry {
						return fmt.Sprintf("the curve passes (%.3f, %.3f), off the oval in %.3f", qx, qy, box)
					}
					if k > 0 {
						d := a - math.Atan2((py-cy)/ry, (px-cx)/rx)
						for d > math.Pi {
							d -= 2 * math.Pi
						}
						for d < -math.Pi {
							d += 2 * math.Pi
						}
						ang += d
					}
				} else if qx < cx-rx-tol || qx > cx+rx+tol || qy < cy-ry-tol || qy > cy+ry+tol {
					return fmt.Sprintf("the curve passes (%.3f, %.3f), outside the oval in %.3f", qx, qy, box)
				}
				px, py = qx, qy
			}
			x, y = g.P[4], g.P[5]
			n++
		case "h":
		default:
			return "not an oval"
		}
	}
	if n == 0 || math.Hypot(x-sx, y-sy) > posTol {
		return "not a closed curve"
	}
	if rx > 0.5 && ry > 0.5 && math.Abs(math.Abs(ang)-2*math.Pi) > 0.3 {
		return fmt.Sprintf("the curve goes around %.2f times", ang/2/math.Pi)
	}
	return ""
}

func (m *goModel) checkGoText(doc *Doc, where string, it *goItem, next func(string) *Ev, fs *fontSet) bool {
	is := &m.issues
	gids, offs, _, _ := it.font.layout(it.text)
	var prev *Ev
	for k, g := range gids {
		e := next("glyph")
		if e == nil {
			is.add("order", "%s: glyph %d is not drawn", where, k)
			return false
		}
		emb, err := fs.get(e.Font)
		if err != nil {
			is.add("font", "%s: %v", where, err)
			return false
		}
		if emb.T.Identity != it.font.ttf.Identity {
			is.add("font", "%s is drawn with another font", where)
			return false
		}
		if e.Gid != g {
			is.add("glyphs", "%s: glyph %d is %04X instead of %04X", where, k, e.Gid, g)
			return false
		}
		u := fs.use[e.Font]
		if u == nil {
			u = &fontUse{emb, it.font, map[int]bool{}}
			fs.use[e.Font] = u
			fs.order = append(fs.order, e.Font)
		}
		u.gids[g] = true
		if e.Size != float64(it.size) {
			is.add("size", "%s is drawn at size %v instead of %d", where, e.Size, it.size)
		}
		m.checkFill(where, it.fill, e)
		if e.Env != "" || e.Rise != 0 {
			is.add("env", "%s is drawn with %s rise %v", where, e.Env, e.Rise)
		}
		if k == 0 {
			if !near(e.X, it.x, posTol) || !near(e.Y, it.y, posTol) {
				is.add("pos", "%s is at (%.4f, %.4f) instead of (%.4f, %.4f)", where, e.X, e.Y, it.x, it.y)
			}
		} else {
			wx := float64(offs[k]-offs[k-1]) * float64(it.size) / 1000
			if !near(e.X-prev.X, wx, 1e-4+1e-6*math.Abs(e.X)) || !near(e.Y, prev.Y, 1e-6) {
				is.add("adv", "%s: glyph %d is (%.4f, %.4f) after the one before instead of (%.4f, 0)", where, k, e.X-prev.X, e.Y-prev.Y, wx)
			}
		}
		prev = e
	}
	var rects, lines []lineSeg
	n := len(it.lines)
	if it.under {
		n++
	}
	for k := 0; k < n; k++ {
		e := next("path")
		if e == nil {
			is.add("order", "%s: an underline or edge is not drawn", where)
			return false
		}
		if e.Paint == "f" {
			x0, y0, x1, y1 := bounds(e.Segs)
			rects = append(rects, lineSeg{x0, y0, x1, y1})
			m.checkFill(where+" underline", it.fill, e)
		} else {
			lines = append(lines, linesOf(e.Segs)...)
			m.checkStroke(where+" edge", it, e)
		}
	}
	if e := matchSegs(it.lines, lines, posTol); e != "" {
		is.add("border", "%s: border: %s", where, e)
	}
	var wr []lineSeg
	if it.under {
		t := it.font.ttf
		h := float64(t.UTh) / float64(t.UPM) * float64(it.size)
		l := lineSeg{it.ux, it.uy - h, it.ux + it.uw, it.uy}
		if it.uw < 0 {
			l[0], l[2] = l[2], l[0]
		}
		wr = append(wr, l)
	}
	if e := matchSegs(wr, rects, posTol); e != "" {
		is.add("underline", "%s: underline: %s", where, e)
	}
	return true
}

var goKinds = []string{"text", "text", "text", "text", "cell", "cell", "cell", "celld", "line", "line", "rect", "rect", "oval", "curve", "lw", "lt", "gf", "gs", "fc", "sc", "tc", "tc", "img", "img", "setx", "sety", "br", "margin", "xy", "measure", "setfont", "setfont", "page", "page", "comp", "info", "get", "kern"}

func drawGo(t *rapid.T, maxOps int) GoHist {
	h := GoHist{W: drawCoord(t, 50, 900, "pw"), H: drawCoord(t, 50, 1200, "ph")}
	if chance(t, 25, "prot") {
		h.Prot = &HOp{Q: ir(t, 0, 15, "perm") << 2, S: oneof(t, []string{"", "u", "pass()\\"}, "up"), St: oneof(t, []string{"o", "owner", ")("}, "op")}
	}
	nf, ni := ir(t, 1, 3, "nf"), ir(t, 1, 3, "ni")
	many, focus := 0, ""
	if chance(t, 5, "large") { // many fonts, many images, or many calls of one kind
		many = ir(t, 1, 3, "largekind")
		switch many {
		case 1:
			nf, focus = ir(t, 4, 12, "nf2"), "setfont"
		case 2:
			ni, focus = ir(t, 4, 18, "ni2"), "img"
		case 3:
			focus = oneof(t, goKinds, "fk")
		}
		maxOps = 60
	}
	var chars []rune
	for i := 0; i < nf; i++ {
		h.Fonts = append(h.Fonts, drawFont(t, i, 4))
		h.Names = append(h.Names, oneof(t, fontNames[:3], "fn"))
		h.Style = append(h.Style, oneof(t, []int{0, 0, gopdf.Bold, gopdf.Italic}, "st"))
		h.Kern = append(h.Kern, chance(t, 50, "kern"))
		chars = append(chars, h.Fonts[i].chars()...)
		// mostly one font for each family and style; of several the first counts
		for k := 0; k < i; k++ {
			if h.Names[k] == h.Names[i] && h.Style[k] == h.Style[i] && !chance(t, 20, "samefam") {
				h.Names[i] = fmt.Sprintf("x%d", i)
			}
		}
	}
	for i := 0; i < ni; i++ {
		h.Imgs = append(h.Imgs, drawImg(t, i, false, chance(t, 20, "badimg") && many == 0))
		if im := &h.Imgs[i]; many == 0 && im.Real == "" && chance(t, 2, "large") { // the file has more than 100000 bytes
			im.W, im.H = 250+ir(t, 0, 50, "largew"), 250
		}
	}
	styles := map[int]string{0: "", gopdf.Bold: "B", gopdf.Italic: "i"}
	setfont := func() HOp {
		f := ir(t, 0, nf-1, "fi")
		op := HOp{K: "setfont", F: f, V: ir(t, 0, 1, "sfv"), Sz: oneof(t, []int{12, 1, 7, 10, 14, 25, 72, 9}, "sz"), St: styles[h.Style[f]]}
		if chance(t, 30, "u") {
			op.St += oneof(t, []string{"U", "u"}, "uu")
		}
		if chance(t, 5, "badst") {
			op.St = oneof(t, []string{"", "BI", "I"}, "bst")
		}
		return op
	}
	for i := 0; i < nf; i++ {
		if chance(t, 85, "addf") {
			h.Ops = append(h.Ops, HOp{K: "font", F: i, V: ir(t, 0, 3, "fv") / 3})
			if h.Kern[i] && chance(t, 20, "kov") {
				h.Ops = append(h.Ops, HOp{K: "kern", F: i, V: ir(t, 0, 11, "kv"), Q: ir(t, -2000, 2000, "kq")})
			}
		}
	}
	if chance(t, 50, "setfirst") {
		h.Ops = append(h.Ops, setfont())
	}
	draw := func(k string) HOp {
		op := HOp{K: k}
		xy := func() { op.X, op.Y = drawCoord(t, -50, 700, "x"), drawCoord(t, -50, 900, "y") }
		switch k {
		case "page":
			if chance(t, 40, "opt") {
				op.V, op.W, op.H = 1, drawCoord(t, 50, 900, "pw"), drawCoord(t, 50, 1200, "ph")
			}
		case "text", "measure":
			op.S = drawText(t, chars, 8)
		case "cell", "celld":
			op.S = drawText(t, chars, 8)
			op.W, op.H = drawCoord(t, 0, 300, "w"), drawCoord(t, 0, 100, "h")
			op.A = oneof(t, aligns, "al")
			op.V = ir(t, 0, 15, "bo")
			if chance(t, 50, "nob") {
				op.V = 0
			}
			op.Q = oneof(t, []int{0, aRight, aBottom, aRight | aBottom, aLeft}, "fl")
			if chance(t, 15, "nilrect") {
				op.P = 1
			}
		case "line", "rect", "oval":
			xy()
			op.W, op.H = drawCoord(t, -50, 700, "w"), drawCoord(t, -50, 700, "h")
			if k == "rect" {
				op.V = ir(t, 0, 3, "rv")
				op.St = oneof(t, []string{"", "D", "F", "DF", "FD"}, "ps")
			}
		case "curve":
			for i := 0; i < 8; i++ {
				op.Pts = append(op.Pts, drawCoord(t, -50, 800, "cp"))
			}
			op.St = oneof(t, []string{"", "D", "F", "DF", "FD", "f", " fd "}, "ps")
		case "lw":
			op.W = float64(ir(t, 0, 800, "lw")) / 100
		case "lt":
			op.St = oneof(t, []string{"dashed", "dotted", "", "solid"}, "lt")
		case "gf", "gs":
			op.W = float64(ir(t, -20, 120, "gr")) / 100
		case "fc", "sc", "tc":
			op.C = drawColour(t)
			if op.C == nil {
				op.C = []int{0, 0, 0}
			}
		case "img":
			xy()
			op.F = ir(t, 0, len(h.Imgs)-1, "ii")
			op.W, op.H = drawCoord(t, 1, 300, "w"), drawCoord(t, 1, 200, "h")
			op.V = ir(t, 0, 2, "iv")
			if chance(t, 20, "nat") {
				op.P = 1
			}
		case "setx", "sety", "br":
			xy()
		case "margin":
			xy()
			op.V = ir(t, 0, 1, "mv")
		case "setfont":
			op = setfont()
		case "comp":
			op.V = oneof(t, []int{100, 0, 1, 6, 9, -1, -2, -3, -4, -100, 10, 11, 200}, "lev")
		case "info":
			op.S, op.St = drawText(t, runePool, 6), oneof(t, []string{"", "me", "(x)\\", "ไทย"}, "au")
			op.V = ir(t, 0, 3, "iv")
			op.Q, op.P = ir(t, 0, 5000, "d1"), ir(t, 0, 104, "d2")
		case "get":
			op.V = ir(t, 0, 3, "gv")
		case "kern": // also of a family that was not added
			op.F, op.V, op.Q = ir(t, 0, nf-1, "fi"), ir(t, 0, 11, "kv"), ir(t, -2000, 2000, "kq")
		case "font":
			op.F = ir(t, 0, nf-1, "fi")
		}
		return op
	}
	if chance(t, 97, "firstpage") {
		h.Ops = append(h.Ops, draw("page"))
	}
	if chance(t, 90, "setf") {
		h.Ops = append(h.Ops, setfont())
	}
	for i, n := 0, ir(t, 0, maxOps, "nops"); i < n; i++ {
		k := oneof(t, goKinds, "kind")
		if focus != "" && chance(t, 50, "focus") {
			k = focus
		}
		h.Ops = append(h.Ops, draw(k))
		if k == "text" && chance(t, 30, "goon") { // a second text right after the first
			if k := oneof(t, []string{"", "tc", "tc", "gf", "setfont", "cell", "line", "br", "setx", "measure"}, "between"); k != "" {
				op := draw(k)
				if k == "br" { // back to the left margin on the same line
					op.Y = 0
				}
				h.Ops = append(h.Ops, op)
			}
			h.Ops = append(h.Ops, draw("text"))
		}
	}
	if chance(t, 2, "many") { // more objects than fit in a byte
		for i, n := 0, ir(t, 100, 200, "nmany"); i < n; i++ {
			h.Ops = append(h.Ops, HOp{K: "page"}, HOp{K: "line", X: float64(i), Y: 10, W: 30, H: float64(i)})
		}
	}
	h.Tpl = chance(t, 25, "astpl")
	return h
}

func init() {
	register("C23", 20000, 120000, "Non-trivial: at least one mark was drawn. Cases are random histories of drawing calls (pages of any size, text, cells, shapes, colours, images, line styles, compression, protection, information entries, compiled at any point by any of the entry points).",
		func(t *rapid.T) GoHist { return drawGo(t, 24) },
		func(h GoHist, x *Ctx) error {
			r := newGo(&h, x)
			for _, op := range h.Ops {
				if !r.do(op) {
					break
				}
			}
			if len(r.m.issues) == 0 {
				r.do(HOp{K: "xy"})
				r.do(HOp{K: "get"})
			}
			if err := r.m.issues.pick("*"); err != nil {
				return err
			}
			if h.Tpl && h.Prot == nil && len(r.m.pages) > 0 {
				if err := goAsTemplate(r, x); err != nil {
					return fmt.Errorf("used as a template: %v", err)
				}
			}
			if r.m.marks > 0 {
				x.NT()
			}
			if h.Prot != nil {
				x.Label("protected")
			}
			if len(r.m.pages) > 1 {
				x.Label("several pages")
			}
			if len(r.m.rects) > 0 {
				x.Label("image")
			}
			for _, p := range r.m.pages {
				for _, it := range p.items {
					if it.kind == "text" && len(it.text) > 0 {
						x.Label("text")
					}
				}
			}
			return nil
		})
}

// goAsTemplate stamps the document and checks that its pages survive.
func goAsTemplate(r *goRunner, x *Ctx) error {
	doc, err := ReadPDF(r.last)
	if err != nil {
		return err
	}
	pages, err := doc.Pages()
	if err != nil {
		return err
	}
	doc.Trailer["Info"] = nil // a direct dictionary, not carried over
	h := &Hist{Fonts: []FontSpec{smallFont}, Names: []string{"f0"}, Imgs: []ImgSpec{smallImg}}
	tpl := &Tpl{Data: r.last, Doc: doc, Pages: pages}
	q := &runner{m: newModel(h, tpl), pdf: &pdft.PDFt{}, x: x}
	if err := openTpl(q.pdf, r.last, 0, x.dir); err != nil {
		return fmt.Errorf("it cannot be opened: %v", err)
	}
	for i := range q.m.pages {
		q.m.pages[i].hasC = hasKey(pages[i].D, "Contents")
	}
	ops := []HOp{{K: "count"}, {K: "font"}, {K: "setfont", Sz: 12}, {K: "text", S: "ABBA", P: len(pages) / 2, X: 10, Y: 20, W: 100, H: 20}, {K: "img", P: len(pages) - 1, X: 5, Y: 5, W: 20, H: 20}, {K: "dup", P: 0, Q: 0}, {K: "save"}}
	q.run(ops)
	x.Label("as template")
	return q.m.issues.pick("*")
}

func strokeRGB(s string) [3]float64 {
	var v [3]float64
	if s == "0 G" {
		return v
	}
	var op string
	if n, _ := fmt.Sscan(s, &v[0], &v[1], &v[2], &op); n != 4 || op != "RG" {
		return [3]float64{-1, -1, -1}
	}
	return v
}
