package main

// Histories of operations on a document, the model that says what they
// should draw, and the comparison of saved files with it.

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"

	"github.com/signintech/pdft"
	"github.com/signintech/pdft/textbreak"
	"pgregory.net/rapid"
)

type HOp struct {
	K  string  `json:"k"`
	F  int     `json:"f,omitempty"`
	P  int     `json:"p,omitempty"`
	Q  int     `json:"q,omitempty"`
	S  string  `json:"s,omitempty"`
	X  float64 `json:"x,omitempty"`
	Y  float64 `json:"y,omitempty"`
	W  float64 `json:"w,omitempty"`
	H  float64 `json:"h,omitempty"`
	A  int     `json:"a,omitempty"`
	C  []int   `json:"c,omitempty"`
	Sz int     `json:"sz,omitempty"`
	St string  `json:"st,omitempty"`
	V  int     `json:"v,omitempty"`

	Pts []float64 `json:"pts,omitempty"`
}
type Hist struct {
	Tpl   TplSpec    `json:"tpl"`
	Fonts []FontSpec `json:"fonts,omitempty"`
	Names []string   `json:"names,omitempty"`
	Imgs  []ImgSpec  `json:"imgs,omitempty"`
	Ops   []HOp      `json:"ops"`
}

type mFont struct {
	name string
	ttf  *TTF
	seen map[rune]bool
	kern func(l, r rune) int // font units returned by the override, nil if none
	rise func(r rune, i int) float32
}

// text in thousandths
func (f *mFont) layout(s string) (gids []int, offs []int, total int, ok bool) {
	var prev rune
	for i, r := range []rune(s) {
		g, good := f.ttf.Gid(r)
		if !good {
			return nil, nil, 0, false
		}
		if i > 0 && f.kern != nil {
			total += f.kern(prev, r) * 1000 / f.ttf.UPM
		}
		gids = append(gids, g)
		offs = append(offs, total)
		total += f.ttf.Width(g)
		prev = r
	}
	return gids, offs, total, true
}
func (f *mFont) width(s string, size int) float64 {
	_, _, t, _ := f.layout(s)
	return float64(t) * float64(size) / 1000
}

type mIns struct {
	kind       string
	text       string
	font       *mFont
	size       int
	underline  bool
	x, y, w, h float64
	align      int
	col        *[3]int
	border     bool
	H          float64
	img        int
	cached     bool
	wrap       bool
}

type mPage struct {
	src    *Page
	height float64
	hasC   bool
	ins    []*mIns
}

type model struct {
	h       *Hist
	tpl     *Tpl
	pages   []*mPage
	fonts   map[string]*mFont
	cur     *mFont
	size    int
	style   string
	border  bool
	prot    *HOp
	issues  Issues
	texts   int
	images  int
	pageops int
	lines   int
}

func newModel(h *Hist, tpl *Tpl) *model {
	m := &model{h: h, tpl: tpl, fonts: map[string]*mFont{}}
	for _, p := range tpl.Pages {
		m.pages = append(m.pages, &mPage{src: p, height: pageHeightOf(tpl.Doc, p), hasC: hasKey(p.D, "Contents")})
	}
	return m
}

func pageHeightOf(d *Doc, p *Page) float64 {
	a := d.Arr(p.Inh["MediaBox"])
	if len(a) != 4 {
		return 841.89
	}
	y0, _ := d.Num(a[1])
	y1, _ := d.Num(a[3])
	return math.Max(y0, y1)
}

// The harness' own numbers for the alignment constants; apiBits gives what
// the library calls them.
const (
	aBottom = 1 << iota
	aRight
	aTop
	aLeft
	aCenter
	aMiddle
)

func apiBits(a int) int {
	out := a &^ 63
	for k, v := range []int{pdft.Bottom, pdft.Right, pdft.Top, pdft.Left, pdft.Center, pdft.Middle} {
		if a>>k&1 != 0 {
			out |= v
		}
	}
	return out
}

// breakers
type breaker int

var errBreaker = errors.New("no breaking today")

func (b breaker) BreakTextToToken(s string) ([]string, error) {
	rs := []rune(s)
	switch b {
	case 2: // every two characters
		var out []string
		for i := 0; i < len(rs); i += 2 {
			e := i + 2
			if e > len(rs) {
				e = len(rs)
			}
			out = append(out, string(rs[i:e]))
		}
		return out, nil
	case 3: // every character with empty tokens between
		out := []string{""}
		for _, r := range rs {
			out = append(out, string(r), "")
		}
		return out, nil
	case 4:
		return nil, errBreaker
	case 5: // one token
		return []string{s}, nil
	case 6: // white space of any kind is a token of its own
		var out []string
		word := ""
		for _, r := range rs {
			if !unicode.IsSpace(r) {
				word += string(r)
				continue
			}
			if word != "" {
				out = append(out, word)
			}
			out = append(out, string(r))
			word = ""
		}
		return append(out, word), nil
	}
	return modelBasicBreak(s), nil
}

// modelBasicBreak is the harness' own statement of breaking at spaces.
func modelBasicBreak(s string) []string {
	var out []string
	for i, part := range strings.Split(s, " ") {
		if i > 0 {
			out = append(out, " ")
		}
		if part != "" {
			out = append(out, part)
		}
	}
	return out
}

func (b breaker) get() textbreak.TextBreaker {
	switch b {
	case 0:
		return nil
	case 1:
		return textbreak.BasicTextbreak{}
	}
	return b
}

// wrapLines is the model of wrapping; sure=false when a comparison is too close to call.
func wrapLines(f *mFont, size int, toks []string, w float64) (lines []string, sure bool) {
	sure = true
	cur := ""
	any := false
	for _, t := range toks {
		if t == "" {
			continue
		}
		any = true
		if cur == "" {
			cur = t
			continue
		}
		wd := f.width(cur+t, size)
		if math.Abs(wd-w) < 1e-7 && size%125 != 0 {
			sure = false
		}
		if wd > w {
			lines = append(lines, strings.TrimSpace(cur))
			cur = t
		} else {
			cur += t
		}
	}
	if any {
		lines = append(lines, strings.TrimSpace(cur))
	}
	return lines, sure
}

// exactFit is a width that the first tokens fill exactly, where the widths can be computed without rounding.
func (m *model) exactFit(op HOp) float64 {
	b := breaker(op.V)
	if m.cur == nil || m.size%125 != 0 || b == 0 || b == 4 {
		return op.W
	}
	toks, err := b.BreakTextToToken(op.S)
	if err != nil || len(toks) == 0 {
		return op.W
	}
	s := strings.Join(toks[:1+op.Q%len(toks)], "")
	for _, c := range s {
		if _, ok := m.cur.ttf.Gid(c); !ok {
			return op.W
		}
	}
	return m.cur.width(s, m.size)
}

// runner drives the library and the model together.
type runner struct {
	m       *model
	pdf     *pdft.PDFt
	x       *Ctx
	nsave   int
	last    []byte
	stopped bool
	unsure  bool
	noCheck bool                // do not compare saves with the model
	onSave  func(b []byte)      // called for each saved file
	hook    func(op HOp) func() // around each operation
	failed  int                 // operations that failed as they should
	okOps   []HOp               // operations that succeeded
	loans   *loans              // check and spoil what is passed in
}

func (m *model) pageNum(p int) (num int, ok bool) {
	n := len(m.pages)
	if p < 0 {
		return []int{1000003, 0, -1, 5000}[(-p)%4], false
	}
	if n == 0 {
		return 1, false
	}
	return p%n + 1, true
}

// target of a page operation; invalid ones are close to the boundary
func (m *model) targetNum(p int) (num int, ok bool) {
	n := len(m.pages)
	if p < 0 {
		return []int{n + 1, 0, -1, n + 4}[(-p)%4], false
	}
	if n == 0 {
		return 1, false
	}
	return p%n + 1, true
}

func (m *model) position(q, v int) (pos, idx int, ok bool) {
	n := len(m.pages)
	if v == 1 || n == 0 {
		return []int{n, -n - 1, n + 3}[(q%3+3)%3], 0, false
	}
	pos = ((q%(2*n))+2*n)%(2*n) - n
	idx = pos
	if idx < 0 {
		idx += n
	}
	return pos, idx, true
}

func (m *model) addChars(f *mFont, s string) bool {
	for _, r := range s {
		if _, ok := f.ttf.Gid(r); !ok {
			return false
		}
		f.seen[r] = true
	}
	return true
}

func colOf(c []int) (*pdft.FontColor, *[3]int) {
	if len(c) != 3 {
		return nil, nil
	}
	return &pdft.FontColor{R: c[0], G: c[1], B: c[2]}, &[3]int{c[0], c[1], c[2]}
}

func (r *runner) expect(op HOp, err error, ok bool) bool {
	if (err == nil) == ok {
		if ok {
			r.okOps = append(r.okOps, op)
		} else {
			r.failed++
		}
		return ok
	}
	r.stopped = true
	if ok {
		r.m.issues.add("ret:"+op.K, "%s failed: %v", op.K, err)
	} else {
		r.m.issues.add("err:"+op.K, "%s succeeded and should have failed (%+v)", op.K, op)
	}
	return false
}

func hashPair(a, b rune, v int) int {
	return int((uint32(a)*2654435761 ^ uint32(b)*40503 + uint32(v)*977) >> 8 & 0xFFFF)
}

func kernFn(op HOp, upm int) func(l, r rune, pair int) int {
	return func(l, r rune, pair int) int {
		switch op.V % 4 {
		case 0:
			return pair
		case 1:
			return op.Q
		case 2:
			return hashPair(l, r, op.V)%(2*upm+1) - upm
		}
		return -pair
	}
}
func riseFn(op HOp) func(r rune, i int) float32 {
	return func(r rune, i int) float32 {
		if op.V%2 == 0 {
			return float32(op.Q) / 4
		}
		return float32(hashPair(r, rune(i), op.V)%41-20) / 2
	}
}

// do performs one operation on both sides.
func (r *runner) do(op HOp) {
	m := r.m
	pdf := r.pdf
	if r.hook != nil {
		if after := r.hook(op); after != nil {
			defer after()
		}
	}
	if r.loans != nil {
		defer func() {
			if err := r.loans.back(); err != nil {
				m.issues.add("loan", "%s: %v", op.K, err)
			}
		}()
	}
	if op.K == "wrap" && op.Q > 0 {
		op.W = m.exactFit(op)
	}
	switch op.K {
	case "font":
		name, spec := m.h.Names[op.F], &m.h.Fonts[op.F]
		_, dup := m.fonts[name]
		var err error
		if r.loans != nil {
			err = pdf.AddFontFrom(name, readerOf(r.loans.bytes("font", spec.Bytes())))
		} else {
			err = addFont(pdf, name, spec, op.V, r.x.dir)
		}
		if r.expect(op, err, !dup) {
			m.fonts[name] = &mFont{name: name, ttf: spec.TTF(), seen: map[rune]bool{}}
		} else if dup && err != pdft.ErrAddSameFontName {
			m.issues.add("err:font", "adding a second font with the same name returned %v", err)
		}
	case "setfont":
		name := m.h.Names[op.F]
		f := m.fonts[name]
		err := pdf.SetFont(name, op.St, op.Sz)
		if r.expect(op, err, f != nil) {
			m.cur, m.size, m.style = f, op.Sz, op.St
		}
	case "kern":
		name := m.h.Names[op.F]
		f := m.fonts[name]
		if f != nil && f.used() {
			return
		}
		upm := 1
		if f != nil {
			upm = f.ttf.UPM
		}
		kf := kernFn(op, upm)
		err := pdf.KernOverride(name, func(l, rr rune, lg, rg uint, pair int16) int16 {
			el, _ := f.ttf.Gid(l)
			er, _ := f.ttf.Gid(rr)
			if uint(el) != lg || uint(er) != rg || int(pair) != f.ttf.Kern[[2]int{el, er}] {
				m.issues.add("kernargs", "kerning override called with (%q,%q,%d,%d,%d), glyphs are %d %d, the font's value is %d", l, rr, lg, rg, pair, el, er, f.ttf.Kern[[2]int{el, er}])
			}
			return int16(kf(l, rr, int(pair)))
		})
		if r.expect(op, err, f != nil) {
			f.kern = func(l, rr rune) int {
				el, _ := f.ttf.Gid(l)
				er, _ := f.ttf.Gid(rr)
				return int(int16(kf(l, rr, f.ttf.Kern[[2]int{el, er}])))
			}
		}
	case "rise":
		name := m.h.Names[op.F]
		f := m.fonts[name]
		if f != nil && f.used() {
			return
		}
		rf := riseFn(op)
		err := pdf.TextriseOverride(name, func(l, rr rune, fs int, all string, i int) float32 {
			rs := []rune(all)
			bad := i < 0 || i >= len(rs) || rs[min(max(i, 0), len(rs)-1)] != rr
			if !bad && i > 0 && rs[i-1] != l || !bad && i == 0 && l != 0 {
				bad = true
			}
			if bad {
				m.issues.add("riseargs", "text rise override called with (%q,%q,%d,%q,%d)", l, rr, fs, all, i)
			}
			return rf(rr, i)
		})
		if r.expect(op, err, f != nil) {
			f.rise = rf
		}
	case "text", "wrap":
		num, ok := m.pageNum(op.P)
		fc, col := colOf(op.C)
		fc = r.loans.colour(fc)
		var lines []string
		ys := []float64{}
		good := m.cur != nil
		if op.K == "text" {
			if good {
				good = m.addChars(m.cur, op.S)
			}
			lines, ys = []string{op.S}, []float64{op.Y}
		} else {
			b := breaker(op.V)
			if b == 4 {
				good = false
			} else if b == 0 {
				if good {
					good = m.addChars(m.cur, op.S)
				}
				lines, ys = []string{op.S}, []float64{op.Y}
			} else {
				toks, _ := b.BreakTextToToken(op.S)
				empty := true
				for _, t := range toks {
					empty = empty && t == ""
				}
				if empty {
					good = true
				} else if good {
					good = m.addChars(m.cur, strings.Join(toks, ""))
				}
				if good && !empty {
					var sure bool
					lines, sure = wrapLines(m.cur, m.size, toks, op.W)
					if !sure {
						r.unsure = true
						r.stopped = true
						return
					}
					fs := float64(m.size)
					off := 0.0
					if op.A&aMiddle != 0 {
						off = float64(len(lines))*1.2*fs/2 - fs/2
					}
					for k := range lines {
						ys = append(ys, op.Y+float64(k)*1.2*fs-off)
					}
				}
			}
		}
		var err error
		if op.K == "text" {
			err = pdf.Insert(op.S, num, op.X, op.Y, op.W, op.H, apiBits(op.A), fc)
		} else {
			err = pdf.InsertWrapText(op.S, num, op.X, op.Y, op.W, op.H, apiBits(op.A), fc, r.loans.breaker(breaker(op.V).get()))
		}
		if r.expect(op, err, good) && ok {
			m.texts++
			m.lines += len(lines)
			pg := m.pages[num-1]
			for k, l := range lines {
				pg.ins = append(pg.ins, &mIns{kind: "text", text: l, font: m.cur, size: m.size, underline: strings.ContainsAny(m.style, "uU"), x: op.X, y: ys[k], w: op.W, h: op.H, align: op.A, col: col, border: m.border, H: pg.height, wrap: op.K == "wrap"})
			}
		}
	case "measure":
		want := 0.0
		good := m.cur != nil && m.addChars(m.cur, op.S)
		if good {
			want = m.cur.width(op.S, m.size)
		}
		got, err := pdf.MeasureTextWidth(op.S)
		if r.expect(op, err, good) && !near(got, want, 1e-6*(1+math.Abs(want))) {
			m.issues.add("measure", "MeasureTextWidth(%q) at size %d is %v, the font's metrics give %v", op.S, m.size, got, want)
		}
	case "img":
		num, ok := m.pageNum(op.P)
		spec := &m.h.Imgs[op.F]
		data := r.loans.bytes("image", spec.Bytes())
		var err error
		switch op.V % 3 {
		case 0:
			err = pdf.InsertImg(data, num, op.X, op.Y, op.W, op.H)
		case 1:
			err = pdf.InsertImgBase64(base64Text(data, op.V/3), num, op.X, op.Y, op.W, op.H)
		case 2:
			err = pdf.InsertImgWithCache(data, num, op.X, op.Y, op.W, op.H)
		}
		if r.expect(op, err, !spec.Refused()) && ok {
			m.images++
			pg := m.pages[num-1]
			pg.ins = append(pg.ins, &mIns{kind: "img", img: op.F, x: op.X, y: op.Y, w: op.W, h: op.H, H: pg.height, cached: op.V%3 == 2})
		}
	case "dup":
		num, ok := m.targetNum(op.P)
		pos, idx, ok2 := m.position(op.Q, op.V)
		good := ok && ok2 && m.pages[num-1].hasC
		err := pdf.DuplicatePageAfter(num, pos)
		if r.expect(op, err, good) {
			m.pageops++
			src := m.pages[num-1]
			n := &mPage{src: src.src, height: src.height, hasC: src.hasC}
			m.pages = append(m.pages[:idx+1], append([]*mPage{n}, m.pages[idx+1:]...)...)
		}
	case "rm":
		num, ok := m.targetNum(op.P)
		err := pdf.RemovePage(num)
		if r.expect(op, err, ok) {
			m.pageops++
			m.pages = append(append([]*mPage{}, m.pages[:num-1]...), m.pages[num:]...)
		}
	case "keep":
		num, ok := m.targetNum(op.P)
		err := pdf.RemoveOtherPages(num)
		if r.expect(op, err, ok) {
			m.pageops++
			m.pages = []*mPage{m.pages[num-1]}
		}
	case "count":
		if n := pdf.GetNumberOfPage(); n != len(m.pages) {
			m.issues.add("count", "GetNumberOfPage() is %d, there are %d pages", n, len(m.pages))
		}
	case "border":
		r.okOps = append(r.okOps, op)
		pdf.ShowCellBorder(op.V == 1)
		m.border = op.V == 1
	case "prot":
		err := pdf.SetProtection(apiPerm(op.Q), r.loans.bytes("user password", []byte(op.S)), r.loans.bytes("owner password", []byte(op.St)))
		if r.expect(op, err, true) {
			o := op
			m.prot = &o
		}
	case "save":
		b, err := savePdf(pdf, op.V, r.x.dir)
		if r.expect(op, err, true) {
			dump(fmt.Sprintf("save%d.pdf", r.nsave), b)
			r.last = b
			r.nsave++
			if r.onSave != nil {
				r.onSave(b)
			}
			if !r.noCheck {
				m.check(b)
			}
		}
	default:
		panic(harnessBug("operation " + op.K))
	}
}

func (f *mFont) used() bool { return len(f.seen) > 0 }

func savePdf(pdf *pdft.PDFt, v int, dir string) ([]byte, error) {
	if v > 0 {
		p := filepath.Join(dir, "saved.pdf")
		defer os.Remove(p)
		if v == 2 { // over a longer file
			if err := os.WriteFile(p, bytes.Repeat([]byte("%old contents of the file\n"), 15000), 0o644); err != nil {
				panic(harnessBug(err.Error()))
			}
		}
		if err := pdf.Save(p); err != nil {
			return nil, err
		}
		return os.ReadFile(p)
	}
	var b bytes.Buffer
	if err := pdf.SaveTo(&b); err != nil {
		return nil, err
	}
	out := append([]byte(nil), b.Bytes()...)
	for i := range b.Bytes() { // what was written is the caller's
		b.Bytes()[i] = '?'
	}
	return out, nil
}

// readerOf returns one of several kinds of readers.
func readerOf(b []byte) io.Reader {
	switch len(b) % 4 {
	case 0:
		return bytes.NewBuffer(b)
	case 1:
		return bytes.NewReader(b)
	case 2:
		return struct{ io.Reader }{bytes.NewReader(b)}
	}
	return bufio.NewReaderSize(bytes.NewReader(b), 64)
}

func addFont(pdf *pdft.PDFt, name string, spec *FontSpec, v int, dir string) error {
	if v == 1 {
		p := filepath.Join(dir, "font.ttf")
		if err := os.WriteFile(p, spec.Bytes(), 0o644); err != nil {
			panic(harnessBug(err.Error()))
		}
		defer os.Remove(p)
		return pdf.AddFont(name, p)
	}
	return pdf.AddFontFrom(name, readerOf(spec.Bytes()))
}

func openTpl(pdf *pdft.PDFt, data []byte, v int, dir string) error {
	if v == 1 {
		p := filepath.Join(dir, "tpl.pdf")
		if err := os.WriteFile(p, data, 0o644); err != nil {
			panic(harnessBug(err.Error()))
		}
		defer os.Remove(p)
		return pdf.Open(p)
	}
	return pdf.OpenFrom(readerOf(append([]byte(nil), data...)))
}

// runHist opens the template and performs all operations, then saves.
func runHist(h *Hist, x *Ctx) *runner {
	tpl := h.Tpl.Build()
	dump("tpl.pdf", tpl.Data)
	r := &runner{m: newModel(h, tpl), pdf: &pdft.PDFt{}, x: x}
	if err := openTpl(r.pdf, tpl.Data, h.Tpl.Seed%5/4, x.dir); err != nil {
		r.m.issues.add("open", "opening the template failed: %v", err)
		r.stopped = true
		return r
	}
	r.run(h.Ops)
	r.do(HOp{K: "count"})
	r.do(HOp{K: "save"})
	return r
}

func (r *runner) run(ops []HOp) {
	for _, op := range ops {
		r.do(op)
		if r.stopped && !r.continueAfter(op) {
			return
		}
	}
}

// an operation that was expected to fail and did is not a stop
func (r *runner) continueAfter(op HOp) bool { return false }

// expected marks of a page
type xGlyph struct {
	in    *mIns
	gid   int
	x, y  float64
	rise  float64
	first bool
	n     int
}

func (in *mIns) glyphs() []xGlyph {
	gids, offs, total, _ := in.font.layout(in.text)
	tw := float64(total) * float64(in.size) / 1000
	x := in.x
	switch {
	case in.align&aRight != 0:
		x = in.x + in.w - tw
	case in.align&aCenter != 0:
		x = in.x + (in.w-tw)/2
	}
	t := in.font.ttf
	asc := float64(t.TAsc) / float64(t.UPM) * float64(in.size)
	desc := float64(t.TDesc) / float64(t.UPM) * float64(in.size)
	y := in.H - in.y - asc
	switch {
	case in.align&aBottom != 0:
		y = in.H - in.y - in.h - desc
	case in.align&aMiddle != 0:
		y = in.H - in.y - in.h/2 - (asc+desc)/2
	}
	rs := []rune(in.text)
	var out []xGlyph
	for i, g := range gids {
		xg := xGlyph{in: in, gid: g, x: x + float64(offs[i])*float64(in.size)/1000, y: y, first: i == 0, n: i}
		if in.font.rise != nil {
			xg.rise = float64(in.font.rise(rs[i], i))
		}
		out = append(out, xg)
	}
	return out
}

type lineSeg [4]float64

func segOf(x0, y0, x1, y1 float64) lineSeg {
	if x1 < x0 || x1 == x0 && y1 < y0 {
		x0, y0, x1, y1 = x1, y1, x0, y0
	}
	return lineSeg{x0, y0, x1, y1}
}

func matchSegs(want, got []lineSeg, tol float64) string {
	used := make([]bool, len(got))
	for _, w := range want {
		found := false
		for i, g := range got {
			if used[i] {
				continue
			}
			ok := true
			for k := range w {
				ok = ok && near(w[k], g[k], tol)
			}
			if ok {
				used[i], found = true, true
				break
			}
			// the other direction, for lines that are almost points or vertical
			sw := lineSeg{w[2], w[3], w[0], w[1]}
			ok = true
			for k := range sw {
				ok = ok && near(sw[k], g[k], tol)
			}
			if ok {
				used[i], found = true, true
				break
			}
		}
		if !found {
			return fmt.Sprintf("nothing drawn at %.3f (drawn: %.3f)", w, got)
		}
	}
	for i, u := range used {
		if !u {
			return fmt.Sprintf("drawn at %.3f and not asked for (asked: %.3f)", got[i], want)
		}
	}
	return ""
}

// check compares a saved file with the model.
func (m *model) check(data []byte) {
	is := &m.issues
	doc, err := ReadPDF(data)
	if err != nil {
		is.add("struct", "%v", err)
		return
	}
	if m.prot != nil {
		h, err := doc.Security()
		if err != nil {
			is.add("crypt", "%v", err)
			return
		}
		key, ok := h.User([]byte(m.prot.S))
		if !ok {
			is.add("crypt", "the user password is not accepted")
			return
		}
		doc = doc.Decrypt(key)
	} else if doc.Trailer["Encrypt"] != nil {
		is.add("crypt", "the file is encrypted without protection set")
		return
	}
	if l := doc.Dangling(); len(l) > 0 {
		is.add("struct", "references to objects that do not exist: %v", l)
	}
	pages, err := doc.Pages()
	if err != nil {
		is.add("struct", "%v", err)
		return
	}
	if len(pages) != len(m.pages) {
		is.add("pages", "the saved file has %d pages instead of %d", len(pages), len(m.pages))
		return
	}
	td := m.tpl.Doc
	troot, root := td.Dict(td.Trailer["Root"]), doc.Dict(doc.Trailer["Root"])
	c := &deepCmp{td, doc, map[[2]int]bool{}}
	if e := c.cmpDict(troot, root, "catalog", map[string]bool{"Pages": true}); e != "" {
		is.add("tplattr", "%s", e)
	}
	if e := deepEq(td, td.Trailer["Info"], doc, doc.Trailer["Info"]); e != "" {
		is.add("tplattr", "document information: %s", e)
	}
	fs := newFontSet(doc)
	for i, mp := range m.pages {
		m.checkPage(doc, pages[i], mp, fs)
	}
	fs.finish(is)
}

type fontUse struct {
	emb  *EmbFont
	orig *mFont
	gids map[int]bool
}
type fontSet struct {
	doc   *Doc
	emb   map[Obj]*EmbFont
	errs  map[Obj]error
	use   map[Obj]*fontUse
	order []Obj
	cache map[int]Obj // cached image -> object
	pix   map[Obj]*Pix
	pixE  map[Obj]error
}

func newFontSet(d *Doc) *fontSet {
	return &fontSet{doc: d, emb: map[Obj]*EmbFont{}, errs: map[Obj]error{}, use: map[Obj]*fontUse{}, cache: map[int]Obj{}, pix: map[Obj]*Pix{}, pixE: map[Obj]error{}}
}
func (fs *fontSet) get(f Obj) (*EmbFont, error) {
	k := f
	if _, ok := f.(Ref); !ok {
		return fs.doc.ReadEmbFont(f)
	}
	if e, ok := fs.emb[k]; ok {
		return e, fs.errs[k]
	}
	e, err := fs.doc.ReadEmbFont(f)
	fs.emb[k], fs.errs[k] = e, err
	return e, err
}

func (fs *fontSet) finish(is *Issues) {
	for _, k := range fs.order {
		u := fs.use[k]
		if err := u.emb.CheckSubset(u.orig.ttf, u.gids); err != nil {
			is.add("fontprog", "font %q: %v", u.orig.name, err)
		}
		if err := u.emb.CheckWidths(u.orig.ttf, u.gids); err != nil {
			is.add("W", "font %q: %v", u.orig.name, err)
		}
		if err := u.emb.CheckDescriptor(u.orig.ttf); err != nil {
			is.add("descriptor", "font %q: %v", u.orig.name, err)
		}
		tu, err := u.emb.ToUnicode()
		if err != nil {
			is.add("tounicode", "font %q: %v", u.orig.name, err)
			continue
		}
		byGid := map[int]map[string]bool{}
		for r := range u.orig.seen {
			g, _ := u.orig.ttf.Gid(r)
			if byGid[g] == nil {
				byGid[g] = map[string]bool{}
			}
			byGid[g][string(r)] = true
		}
		var gs []int
		for g := range u.gids {
			gs = append(gs, g)
		}
		sort.Ints(gs)
		for _, g := range gs {
			if len(tu[g]) == 0 {
				is.add("tounicode", "font %q: code %04X is not mapped", u.orig.name, g)
			}
			for _, s := range tu[g] {
				if !byGid[g][s] {
					is.add("tounicode", "font %q: code %04X is mapped to %q, it was used for %v", u.orig.name, g, s, byGid[g])
				}
			}
		}
	}
}

func roundHalf(f float64) int {
	if f < 0 {
		return -int(math.Floor(-f + 0.5))
	}
	return int(math.Floor(f + 0.5))
}

// CheckDescriptor compares the font descriptor with the font's metrics.
func (e *EmbFont) CheckDescriptor(t *TTF) error {
	sc := func(v int) float64 { return float64(v) * 1000 / float64(t.UPM) } // to be rounded either way at .5
	asc, desc := t.WAsc, t.WDesc
	if t.TAsc == 0 {
		asc = t.Asc
	}
	if t.TDesc == 0 {
		desc = t.Desc
	} else if t.Desc < 0 {
		desc = -desc
	}
	capH := t.Asc
	if t.OS2v >= 2 {
		capH = t.Cap
	}
	xh := int(0.66 * float64(t.Asc))
	if t.OS2v >= 2 && t.XH != 0 {
		xh = t.XH
	}
	want := map[string]float64{"Ascent": sc(asc), "Descent": sc(desc), "CapHeight": sc(capH), "ItalicAngle": float64(t.Italic), "XHeight": sc(xh)}
	for _, k := range []string{"Ascent", "Descent", "CapHeight", "ItalicAngle", "XHeight"} {
		v, ok := e.d.Num(e.Desc[k])
		if !ok || !near(v, want[k], 0.5001) {
			return fmt.Errorf("descriptor has /%s %v, the font gives %v", k, e.Desc[k], want[k])
		}
	}
	bb := e.d.Arr(e.Desc["FontBBox"])
	if len(bb) != 4 {
		return fmt.Errorf("descriptor has /FontBBox %v", e.Desc["FontBBox"])
	}
	for k := range bb {
		v, _ := e.d.Num(bb[k])
		if !near(v, sc(t.BBox[k]), 0.5001) {
			return fmt.Errorf("descriptor has /FontBBox %v, the font gives %v at %d", bb, sc(t.BBox[k]), k)
		}
	}
	if fl, ok := e.d.Num(e.Desc["Flags"]); !ok || int(fl)&0x24 == 0 || int(fl)&0x24 == 0x24 {
		return fmt.Errorf("descriptor has /Flags %v", e.Desc["Flags"])
	}
	return nil
}

func (m *model) checkPage(doc *Doc, p *Page, mp *mPage, fs *fontSet) {
	is := &m.issues
	td := m.tpl.Doc
	pn := p.Index + 1
	// attributes
	skip := map[string]bool{"Parent": true, "Contents": true, "Resources": true, "MediaBox": true, "CropBox": true, "Rotate": true}
	c := &deepCmp{td, doc, map[[2]int]bool{}}
	if e := c.cmpDict(mp.src.D, p.D, fmt.Sprintf("page %d", pn), skip); e != "" {
		is.add("tplattr", "%s", e)
	}
	for _, k := range []string{"MediaBox", "CropBox", "Rotate"} {
		if e := deepEq(td, mp.src.Inh[k], doc, p.Inh[k]); e != "" {
			is.add("tplattr", "page %d: /%s%s", pn, k, e)
		}
	}
	// resources
	tres, res := td.Dict(mp.src.Inh["Resources"]), doc.Dict(p.Inh["Resources"])
	for _, cat := range sortedKeys(tres) {
		if td.R(tres[cat]) == nil {
			continue
		}
		if cat == "Font" || cat == "XObject" {
			a, b := td.Dict(tres[cat]), doc.Dict(res[cat])
			for _, n := range sortedKeys(a) {
				y, ok := b[n]
				if !ok {
					is.add("tplres", "page %d: /%s resource /%s of the template is gone", pn, cat, n)
					continue
				}
				if e := deepEq(td, a[n], doc, y); e != "" {
					is.add("tplres", "page %d: /%s resource /%s of the template changed: %s", pn, cat, n, e)
				}
			}
			continue
		}
		if e := deepEq(td, tres[cat], doc, res[cat]); e != "" {
			is.add("tplres", "page %d: /%s resources changed: %s", pn, cat, e)
		}
	}
	for _, cat := range sortedKeys(res) {
		if cat != "Font" && cat != "XObject" && td.R(tres[cat]) == nil && doc.R(res[cat]) != nil {
			is.add("tplres", "page %d: /%s resources appeared", pn, cat)
		}
	}
	// content
	tops, err := td.PageOps(mp.src)
	if err != nil {
		panic(harnessBug("own template content: " + err.Error()))
	}
	ops, err := doc.PageOps(p)
	if err != nil {
		is.add("draw", "%v", err)
		return
	}
	split, why := splitTemplate(ops, tops)
	if split < 0 {
		is.add("tplcontent", "page %d: %s", pn, why)
		return
	}
	evs, err := doc.Interpret(p, ops, split)
	if err != nil {
		is.add("draw", "%v", err)
		return
	}
	var glyphs, imgs []Ev
	var lines, rects []lineSeg
	order := ""
	for _, e := range evs {
		if e.At < split {
			continue
		}
		switch e.Kind {
		case "glyph":
			glyphs = append(glyphs, e)
			order += "g"
		case "image":
			imgs = append(imgs, e)
			order += "i"
		case "path":
			if e.Paint == "f" {
				x0, y0, x1, y1 := bounds(e.Segs)
				rects = append(rects, lineSeg{x0, y0, x1, y1})
			} else {
				lines = append(lines, linesOf(e.Segs)...)
			}
		default:
			is.add("glyphs", "page %d: unexpected %s", pn, e.What)
		}
	}
	var wg []xGlyph
	var wi []*mIns
	var wl, wr []lineSeg
	worder := ""
	for _, in := range mp.ins {
		if in.kind == "img" {
			wi = append(wi, in)
			worder += "i"
			continue
		}
		gs := in.glyphs()
		wg = append(wg, gs...)
		worder += strings.Repeat("g", len(gs))
		if in.underline {
			t := in.font.ttf
			fsz := float64(in.size)
			y := in.H - (in.y - float64(t.UPos)/float64(t.UPM)*fsz) - 0.7*fsz
			h := float64(t.UTh) / float64(t.UPM) * fsz
			r := lineSeg{in.x, y - h, in.x + in.w, y}
			if in.w < 0 {
				r[0], r[2] = r[2], r[0]
			}
			wr = append(wr, r)
		}
		if in.border {
			o := 0.05
			top, bot := in.H-in.y, in.H-in.y-in.h
			wl = append(wl, segOf(in.x-o, top, in.x+in.w+o, top), segOf(in.x, top, in.x, bot), segOf(in.x+in.w, top, in.x+in.w, bot), segOf(in.x-o, bot, in.x+in.w+o, bot))
		}
	}
	m.checkGlyphs(pn, wg, glyphs, fs)
	m.checkImages(pn, wi, imgs, fs)
	if len(wg) == len(glyphs) && len(wi) == len(imgs) && order != worder {
		is.add("order", "page %d: insertions are drawn in the order %s instead of %s", pn, order, worder)
	}
	if e := matchSegs(wl, lines, 0.0201); e != "" {
		is.add("border", "page %d: border: %s", pn, e)
	}
	if e := matchSegs(wr, rects, 0.0201); e != "" {
		is.add("underline", "page %d: underline: %s", pn, e)
	}
}

func bounds(s []Seg) (x0, y0, x1, y1 float64) {
	x0, y0, x1, y1 = math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)
	for _, g := range s {
		for k := 0; k+1 < len(g.P); k += 2 {
			x0, x1 = math.Min(x0, g.P[k]), math.Max(x1, g.P[k])
			y0, y1 = math.Min(y0, g.P[k+1]), math.Max(y1, g.P[k+1])
		}
	}
	return
}

func linesOf(s []Seg) []lineSeg {
	var out []lineSeg
	var sx, sy, x, y float64
	n := 0
	for i, g := range s {
		switch g.Op {
		case "m":
			sx, sy, x, y = g.P[0], g.P[1], g.P[0], g.P[1]
			n = 0
		case "l":
			out = append(out, segOf(x, y, g.P[0], g.P[1]))
			x, y = g.P[0], g.P[1]
			n++
		case "c":
			out = append(out, lineSeg{math.NaN(), 0, 0, float64(i)})
		case "h":
			if n > 1 && (x != sx || y != sy) {
				out = append(out, segOf(x, y, sx, sy))
			}
			x, y = sx, sy
		}
	}
	return out
}

const posTol = 0.0201

func (m *model) checkGlyphs(pn int, want []xGlyph, got []Ev, fs *fontSet) {
	is := &m.issues
	show := func() string {
		var a, b []string
		for _, g := range want {
			a = append(a, fmt.Sprintf("%04X", g.gid))
		}
		for _, g := range got {
			b = append(b, fmt.Sprintf("%04X", g.Gid))
		}
		return fmt.Sprintf("page %d draws glyphs %s instead of %s", pn, b, a)
	}
	if len(want) != len(got) {
		is.add("glyphs", "%s", show())
		return
	}
	for i := range want {
		if want[i].gid != got[i].Gid {
			is.add("glyphs", "%s", show())
			return
		}
	}
	for i := range want {
		w, g := want[i], got[i]
		in := w.in
		where := fmt.Sprintf("page %d, text %q, glyph %d", pn, in.text, w.n)
		e, err := fs.get(g.Font)
		if err != nil {
			is.add("font", "%s: %v", where, err)
			return
		}
		if e.T.Identity != in.font.ttf.Identity {
			is.add("font", "%s is drawn with another font than %q", where, in.font.name)
		} else {
			u := fs.use[g.Font]
			if u == nil {
				u = &fontUse{e, in.font, map[int]bool{}}
				fs.use[g.Font] = u
				fs.order = append(fs.order, g.Font)
			}
			u.gids[g.Gid] = true
		}
		if g.Size != float64(in.size) {
			is.add("size", "%s is drawn at size %v instead of %d", where, g.Size, in.size)
		}
		wc := [3]float64{}
		if in.col != nil {
			for k := range wc {
				wc[k] = float64(in.col[k]) / 255
			}
		}
		for k := range wc {
			if !near(wc[k], g.FillC[k], 0.0101) {
				is.add("colour", "%s has colour %s instead of %.3f", where, g.Fill, wc)
				break
			}
		}
		if g.Env != "" {
			is.add("env", "%s is drawn with %s", where, g.Env)
		}
		if !near(g.Rise, w.rise, 0.0051) {
			is.add("rise", "%s has text rise %v instead of %v", where, g.Rise, w.rise)
		}
		asp := "pos"
		if in.wrap {
			asp = "wrappos"
		}
		if w.first {
			if !near(g.X, w.x, posTol) {
				is.add(asp+"x", "%s is at x=%.4f instead of %.4f", where, g.X, w.x)
			}
			if !near(g.Y, w.y, posTol) {
				is.add(asp+"y", "%s is at y=%.4f instead of %.4f", where, g.Y, w.y)
			}
			continue
		}
		gx, wx := g.X-got[i-1].X, w.x-want[i-1].x
		if !near(gx, wx, 1e-4+1e-6*math.Abs(g.X)) {
			a := "adv"
			if in.font.kern != nil {
				a = "kern"
			}
			is.add(a, "%s is %.4f after the glyph before it instead of %.4f", where, gx, wx)
		}
		if !near(g.Y, got[i-1].Y, 1e-6) {
			is.add(asp+"y", "%s is not on the line of the glyph before it", where)
		}
	}
}

func (m *model) checkImages(pn int, want []*mIns, got []Ev, fs *fontSet) {
	is := &m.issues
	if len(want) != len(got) {
		is.add("images", "page %d draws %d images instead of %d", pn, len(got), len(want))
		return
	}
	for i, in := range want {
		g := got[i]
		where := fmt.Sprintf("page %d, image %d", pn, i+1)
		exp := Mat{in.w, 0, 0, in.h, in.x, in.H - in.y - in.h}
		for k := range exp {
			if !near(exp[k], g.M[k], posTol) {
				is.add("imgpos", "%s is drawn with matrix %.4f instead of %.4f", where, g.M, exp)
				break
			}
		}
		if g.Env != "" {
			is.add("imgenv", "%s is drawn with %s", where, g.Env)
		}
		px, ok := fs.pix[g.XObj]
		err := fs.pixE[g.XObj]
		if !ok {
			s, isS := fs.doc.R(g.XObj).(*Stream)
			if !isS {
				err = fmt.Errorf("not a stream")
			} else {
				px, err = fs.doc.ImagePix(s)
			}
			fs.pix[g.XObj], fs.pixE[g.XObj] = px, err
		}
		if err != nil {
			is.add("pixels", "%s: %v", where, err)
			continue
		}
		if d := m.imgPix(in.img).Diff(px); d != "" {
			is.add("pixels", "%s: %s", where, d)
		}
		if in.cached {
			// equal bytes share
			key := in.img
			for k := 0; k < in.img; k++ {
				if bytes.Equal(m.h.Imgs[k].Bytes(), m.h.Imgs[in.img].Bytes()) {
					key = k
					break
				}
			}
			if o, ok := fs.cache[key]; ok && o != g.XObj {
				is.add("imgcache", "%s: the same image inserted through the cache is stored twice", where)
			}
			fs.cache[key] = g.XObj
		}
	}
}

var imgPixCache = map[string]*Pix{}

func (m *model) imgPix(k int) *Pix {
	s := &m.h.Imgs[k]
	if s.Real != "" {
		if p := imgPixCache[s.Real]; p != nil {
			return p
		}
		p := DecodeImg(s.Bytes())
		imgPixCache[s.Real] = p
		return p
	}
	return DecodeImg(s.Bytes())
}

// HistOpt shapes generated histories.
type HistOpt struct {
	Pages, Ops int
	RealPct    int // real fonts
	Fonts      int
	Imgs       int
	BadImg     bool
	BigImg     bool
	Twins      bool     // images that differ in little
	Kinds      []string // weighted list of operation kinds
	Border     bool
	many       bool // an unusually long history
}

var fontNames = []string{"f0", "F0", "my font", "my  font", "ไทย(x)", "A", "a", "a#20b/c", "B<2>", "B<2>>", "Zz%", "f"}

var baseKinds = []string{"text", "text", "text", "text", "wrap", "img", "img", "setfont", "setfont", "dup", "rm", "keep", "count", "measure", "border", "save", "font"}

func drawCoord(t *rapid.T, lo, hi int, name string) float64 {
	v := ir(t, lo*4, hi*4, name)
	if v%29 == 11 { // far away, or a fraction above the least
		f := float64(ir(t, 0, 9999, name+"g")) / 1000
		switch k := ir(t, 0, 3, name+"far"); {
		case k == 0 && lo < 0:
			return -float64(hi) * f
		case k < 3:
			return float64(hi) * (1 + f)
		}
		return math.Max(float64(lo), 0) + f/10
	}
	if v%7 == 3 {
		return float64(v)/4 + float64(ir(t, 0, 999, name+"f"))/1000
	}
	if v%4 != 0 && v%3 == 0 {
		return float64(v / 4)
	}
	return float64(v) / 4
}

func drawText(t *rapid.T, chars []rune, maxLen int) string {
	n := ir(t, 0, maxLen, "tlen")
	var rs []rune
	for i := 0; i < n; i++ {
		k := ir(t, 0, 99, "tk")
		switch {
		case k < 6:
			rs = append(rs, ' ')
		case k < 10:
			rs = append(rs, oneof(t, runePool, "tr"))
		default:
			rs = append(rs, oneof(t, chars, "tc"))
		}
	}
	return string(rs)
}

// drawLong draws a text of many different characters of one font.
func drawLong(t *rapid.T, h *Hist) string {
	chars := h.Fonts[ir(t, 0, len(h.Fonts)-1, "lf")].allChars()
	if len(chars) == 0 {
		return ""
	}
	st, step := ir(t, 0, len(chars)-1, "lst"), ir(t, 1, 7, "lstep")
	var rs []rune
	n := ir(t, 100, 500, "llen")
	if chance(t, 8, "vlong") {
		n = ir(t, 1000, 5000, "vllen")
	}
	for i := 0; i < n; i++ {
		rs = append(rs, chars[(st+i*step)%len(chars)])
	}
	return string(rs)
}

func drawColour(t *rapid.T) []int {
	switch ir(t, 0, 4, "colk") {
	case 0:
		return nil
	case 2: // likely to have components in common with another
		v := []int{0, 100, 255}
		return []int{oneof(t, v, "cr"), oneof(t, v, "cg"), oneof(t, v, "cb")}
	case 1:
		return [][]int{{0, 0, 0}, {255, 255, 255}, {255, 1, 0}, {128, 64, 64}, {1, 1, 1}, {0, 0, 255}}[ir(t, 0, 5, "colp")]
	}
	return []int{ir(t, 0, 255, "cr"), ir(t, 0, 255, "cg"), ir(t, 0, 255, "cb")}
}

var aligns = []int{0, aLeft, aRight, aCenter, aTop, aBottom, aMiddle, aLeft | aTop, aRight | aBottom, aCenter | aMiddle, aCenter | aBottom, aRight | aMiddle, aLeft | aMiddle, aRight | aTop, aCenter | aTop}

func (o *HistOpt) drawOp(t *rapid.T, h *Hist, chars []rune, kind string) HOp {
	op := HOp{K: kind}
	page := func() int {
		if chance(t, 4, "ghost") {
			return -ir(t, 1, 4, "pneg")
		}
		if o.many {
			return ir(t, 0, 29, "pm")
		}
		return ir(t, 0, 9, "p")
	}
	target := func() int {
		if chance(t, 12, "badt") {
			return -ir(t, 1, 4, "pneg")
		}
		if o.many {
			return ir(t, 0, 29, "pm")
		}
		return ir(t, 0, 9, "p")
	}
	switch kind {
	case "font":
		op.F = ir(t, 0, len(h.Fonts)-1, "fi")
		op.V = ir(t, 0, 4, "fv") / 4
	case "setfont":
		op.F = ir(t, 0, len(h.Fonts)-1, "fi")
		op.Sz = oneof(t, []int{12, 1, 7, 10, 14, 25, 72, 125, 250, 9, 11, 8, 300, 1000, 500}, "sz")
		op.St = oneof(t, []string{"", "", "", "U", "u", "B", "I", "BIU"}, "st")
	case "text", "wrap":
		op.P = page()
		op.S = drawText(t, chars, 10)
		if chance(t, 2, "longtext") {
			op.S = drawLong(t, h)
		}
		op.X, op.Y = drawCoord(t, -50, 700, "x"), drawCoord(t, -50, 900, "y")
		op.W, op.H = drawCoord(t, 0, 300, "w"), drawCoord(t, 0, 200, "hh")
		op.A = oneof(t, aligns, "al")
		op.C = drawColour(t)
		if kind == "wrap" {
			if chance(t, 55, "narrow") {
				op.W = drawCoord(t, 0, 70, "nw")
			}
			op.V = oneof(t, []int{1, 1, 1, 2, 3, 0, 5, 4, 6, 6}, "br")
			if chance(t, 25, "exact") {
				op.Q = ir(t, 1, 12, "eq")
			}
			if chance(t, 50, "words") {
				var ws []string
				for k, n := 0, ir(t, 1, 5, "nw"); k < n; k++ {
					ws = append(ws, drawText(t, chars, 3))
				}
				op.S = strings.Join(ws, oneof(t, []string{" ", " ", " ", "\t", "  ", " \t ", "\n", "\u3000"}, "wsep"))
			}
		}
	case "measure":
		op.S = drawText(t, chars, 10)
	case "img":
		op.F = ir(t, 0, len(h.Imgs)-1, "ii")
		op.P = page()
		op.V = ir(t, 0, 2, "iv") + 3*oneof(t, []int{0, 0, 0, 1, 2, 3}, "ivl")
		op.X, op.Y = drawCoord(t, -50, 700, "x"), drawCoord(t, -50, 900, "y")
		op.W, op.H = drawCoord(t, 1, 300, "w"), drawCoord(t, 1, 200, "hh")
		if chance(t, 4, "noextent") {
			op.W = 0
		}
		if chance(t, 4, "noextenth") {
			op.H = 0
		}
	case "dup":
		op.P = target()
		op.Q = ir(t, -20, 20, "pos")
		if o.many {
			op.Q = ir(t, -40, 40, "posm")
		}
		if chance(t, 8, "badpos") {
			op.V = 1
		}
	case "rm":
		op.P = target()
	case "keep":
		op.P = target()
	case "border":
		op.V = ir(t, 0, 1, "bv")
	case "save":
		op.V = oneof(t, []int{0, 0, 0, 0, 1, 2}, "sv")
	case "prot":
		op.Q = ir(t, 0, 63, "perm") << 2
		op.S = oneof(t, []string{"", "u", "user", "pass()\\", "0123456789abcdef0123456789abcdefXYZ"}, "up")
		op.St = oneof(t, []string{"o", "owner", "user", ")(", ""}, "op")
	case "kern":
		op.F = ir(t, 0, len(h.Fonts)-1, "fi")
		op.V = ir(t, 0, 11, "kv")
		op.Q = ir(t, -2000, 2000, "kq")
	case "rise":
		op.F = ir(t, 0, len(h.Fonts)-1, "fi")
		op.V = ir(t, 0, 7, "rv")
		op.Q = ir(t, -40, 40, "rq")
	}
	return op
}

// drawHist draws a history; it starts with fonts in place.
func drawHist(t *rapid.T, o HistOpt) Hist {
	o.many = chance(t, 2, "many")
	if o.many {
		o.Pages = oneof(t, []int{o.Pages, 12, 30}, "manypages")
	}
	h := Hist{Tpl: drawTpl(t, o.Pages)}
	if o.Fonts == 0 {
		o.Fonts = 2
	}
	if o.Imgs == 0 {
		o.Imgs = 2
	}
	nf := ir(t, 1, o.Fonts, "nfonts")
	ni := ir(t, 1, o.Imgs, "nimgs")
	if o.many {
		if chance(t, 50, "manyf") {
			nf = ir(t, 3, 12, "nfmany")
		}
		if chance(t, 50, "manyi") {
			ni = ir(t, 3, 20, "nimany")
		}
	}
	var chars []rune
	name0 := uniform(t, len(fontNames), "fname")
	for i := 0; i < nf; i++ {
		f := drawFont(t, i, o.RealPct)
		h.Fonts = append(h.Fonts, f)
		if o.many {
			h.Names = append(h.Names, fmt.Sprint(fontNames[i%len(fontNames)], i/len(fontNames)))
		} else {
			h.Names = append(h.Names, fontNames[(name0+i)%len(fontNames)])
			if i > 0 && chance(t, 5, "fsame") {
				h.Names[i] = h.Names[0]
			}
		}
		chars = append(chars, f.chars()...)
	}
	for i := 0; i < ni; i++ {
		if o.Twins && i > 0 && h.Imgs[i-1].Kind == "png" && chance(t, 40, "twinimg") {
			if s := &h.Imgs[i-1]; chance(t, 60, "twinplain") {
				s.Level = 0
				if chance(t, 60, "twinbig") {
					s.W, s.H = ir(t, 30, 70, "tw"), ir(t, 30, 70, "th")
				}
			}
			h.Imgs = append(h.Imgs, twinImg(t, h.Imgs[i-1]))
			continue
		}
		h.Imgs = append(h.Imgs, drawImg(t, i, o.BigImg, o.BadImg))
	}
	kinds := o.Kinds
	if kinds == nil {
		kinds = baseKinds
	}
	for i := 0; i < nf; i++ {
		if !chance(t, 90, "addf") {
			continue
		}
		h.Ops = append(h.Ops, HOp{K: "font", F: i, V: ir(t, 0, 4, "fv") / 4})
		for _, k := range []string{"kern", "rise"} {
			for _, kk := range kinds {
				if kk == k && chance(t, 60, "ov") {
					op := o.drawOp(t, &h, chars, k)
					op.F = i
					h.Ops = append(h.Ops, op)
					break
				}
			}
		}
	}
	if chance(t, 95, "setf") {
		op := o.drawOp(t, &h, chars, "setfont")
		op.F = ir(t, 0, nf-1, "fi0")
		h.Ops = append(h.Ops, op)
	}
	n := ir(t, 0, o.Ops, "nops")
	focus := ""
	if o.many { // many operations, half of them of one kind
		n = ir(t, 10, 50, "nopsmany")
		focus = oneof(t, kinds, "focus")
	}
	for i := 0; i < n; i++ {
		k := oneof(t, kinds, "kind")
		if focus != "" && chance(t, 50, "focused") {
			k = focus
			if k == "text" && chance(t, 30, "refont") {
				k = "setfont"
			}
		}
		h.Ops = append(h.Ops, o.drawOp(t, &h, chars, k))
	}
	return h
}

// dump writes files for debugging.
func dump(name string, b []byte) {
	if d := os.Getenv("PDFT_DUMP"); d != "" {
		os.WriteFile(filepath.Join(d, name), b, 0o644)
	}
}

// base64Text is data in base64, on one line or broken into lines.
func base64Text(data []byte, how int) string {
	s := base64.StdEncoding.EncodeToString(data)
	nl, width := "", 76
	switch how % 4 {
	case 0:
		return s
	case 1:
		return s + "\n"
	case 2:
		nl = "\r\n"
	case 3:
		nl, width = "\n", 64
	}
	var b strings.Builder
	for len(s) > width {
		b.WriteString(s[:width] + nl)
		s = s[width:]
	}
	return b.String() + s + nl
}

func hasKey(d Dict, k string) bool {
	_, ok := d[k]
	return ok
}
