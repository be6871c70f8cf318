package main

// TrueType: a generator of synthetic fonts and an independent reader.

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/bits"
	"os"
	"path/filepath"
	"sort"
	"sync"

	"pgregory.net/rapid"
)

type CompSpec struct {
	G     int `json:"g"`
	Words int `json:"w"` // 1: word arguments
	Scale int `json:"s"` // 0 none 1 scale 2 x/y 3 two-by-two
}
type GlyphSpec struct {
	K int        `json:"k"` // 0 empty, 1 simple, 2 composite
	N int        `json:"n,omitempty"`
	C []CompSpec `json:"c,omitempty"`
}
type CmapEnt struct {
	R rune `json:"r"`
	G int  `json:"g"`
}
type KernSub struct {
	Cov   int      `json:"cov"`
	Pairs [][3]int `json:"p"`
}
type FontSpec struct {
	Real   string      `json:"real,omitempty"`
	ID     uint32      `json:"id"`
	UPM    int         `json:"upm"`
	Glyphs []GlyphSpec `json:"glyphs,omitempty"`
	Big    int         `json:"big,omitempty"` // glyphs after Glyphs, made by bigGlyph
	W      []int       `json:"w,omitempty"`
	Cmap   []CmapEnt   `json:"cmap,omitempty"`
	Style  int         `json:"style"`
	Long   bool        `json:"long"`
	Kern   []KernSub   `json:"kern,omitempty"`
	Asc    int         `json:"asc"`
	Desc   int         `json:"desc"`
	TAsc   int         `json:"tasc"`
	TDesc  int         `json:"tdesc"`
	WAsc   int         `json:"wasc"`
	WDesc  int         `json:"wdesc"`
	UPos   int         `json:"upos"`
	UTh    int         `json:"uth"`
	Italic int         `json:"italic"`
	OS2v   int         `json:"os2v"`
	XH     int         `json:"xh"`
	Cap    int         `json:"cap"`
	BBox   [4]int      `json:"bbox"`
	Hint   bool        `json:"hint"` // cvt, fpgm and prep are present
	Extra  bool        `json:"extra"`
	Rot    int         `json:"rot"` // table order rotation
	FsType int         `json:"fstype,omitempty"`
	FsSel  int         `json:"fssel,omitempty"`
	Fixed  bool        `json:"fixed,omitempty"`
	PS     string      `json:"ps,omitempty"` // PostScript name
}

var realFonts = map[string]string{
	"Loma":  "test/ttf/Loma.ttf",
	"angsa": "test/ttf/angsa.ttf",
	"arial": "test/ttf/arial.ttf",
	"times": "minigopdf/test/res/times.ttf",
}
var realCache sync.Map

func repoDir() string {
	if d := os.Getenv("REPO_DIR"); d != "" {
		return d
	}
	return "/repo"
}

func (f *FontSpec) Bytes() []byte {
	if f.Real != "" {
		if b, ok := realCache.Load(f.Real); ok {
			return b.([]byte)
		}
		b, err := os.ReadFile(filepath.Join(repoDir(), realFonts[f.Real]))
		if err != nil {
			panic(harnessBug(err.Error()))
		}
		realCache.Store(f.Real, b)
		return b
	}
	if f.Big == 0 {
		return f.build()
	}
	k, err := json.Marshal(f)
	if err != nil {
		panic(harnessBug(err.Error()))
	}
	b, ok := bigCache.Load(string(k))
	if !ok {
		bigCache.Clear()
		b = f.build()
		bigCache.Store(string(k), b)
	}
	return bytes.Clone(b.([]byte))
}

var bigCache, bigTTF sync.Map

// all is the font with its Big glyphs written out.
func (f *FontSpec) all() ([]GlyphSpec, []int) {
	gs, ws := f.Glyphs, f.W
	n := len(gs)
	if f.Big == 0 {
		return gs, ws
	}
	gs = append([]GlyphSpec(nil), gs...)
	if len(ws) == n {
		ws = append([]int(nil), ws...)
	}
	for i := n; i < n+f.Big; i++ {
		gs = append(gs, bigGlyph(i))
		if len(ws) == i {
			ws = append(ws, (i*37)%(2*f.UPM))
		}
	}
	return gs, ws
}

// bigGlyph is glyph i of a font of very many glyphs: a third is empty, some are
// made of glyphs before them.
func bigGlyph(i int) GlyphSpec {
	h := i * 2654435761 >> 5 & 0xFFFFFFF
	switch h % 6 {
	case 0, 1:
		return GlyphSpec{}
	case 2:
		g := GlyphSpec{K: 2}
		for c := 0; c <= h/7%2; c++ {
			g.C = append(g.C, CompSpec{h / 11 * (c + 1) % i, h / 13 % 2, h / 17 % 4})
		}
		return g
	}
	return GlyphSpec{K: 1, N: h / 19 % 4}
}

type bw struct{ b []byte }

func (w *bw) u8(v int)  { w.b = append(w.b, byte(v)) }
func (w *bw) u16(v int) { w.b = append(w.b, byte(v>>8), byte(v)) }
func (w *bw) u32(v int) { w.b = append(w.b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }

func (f *FontSpec) build() []byte {
	glyphs, widths := f.all()
	ng := len(glyphs)
	var glyf bw
	loca := []int{0}
	for gi, g := range glyphs {
		switch g.K {
		case 1:
			glyf.u16(1)
			glyf.u16(gi)
			glyf.u16(g.N)
			glyf.u16(100 + gi)
			glyf.u16(100 + g.N)
			glyf.u16(0)   // endPts
			glyf.u16(g.N) // instruction length
			for k := 0; k < g.N; k++ {
				glyf.u8(gi*31 + k*7 + int(f.ID))
			}
			glyf.u8(0x37)
			glyf.u8(gi)
			glyf.u8(g.N)
		case 2:
			glyf.u16(0xFFFF)
			glyf.u16(0)
			glyf.u16(0)
			glyf.u16(500)
			glyf.u16(gi)
			for ci, c := range g.C {
				fl := 2
				if c.Words == 1 {
					fl |= 1
				}
				fl |= []int{0, 8, 64, 128}[c.Scale]
				if ci < len(g.C)-1 {
					fl |= 32
				}
				glyf.u16(fl)
				glyf.u16(c.G)
				if c.Words == 1 {
					glyf.u16(300)
					glyf.u16(-20)
				} else {
					glyf.u8(10)
					glyf.u8(-3)
				}
				for k := 0; k < []int{0, 1, 2, 4}[c.Scale]; k++ {
					glyf.u16(0x4000 - k)
				}
			}
		}
		if !f.Long && len(glyf.b)%2 == 1 {
			glyf.u8(0)
		}
		loca = append(loca, len(glyf.b))
	}
	tabs := map[string][]byte{"glyf": glyf.b}
	var lo bw
	for _, o := range loca {
		if f.Long {
			lo.u32(o)
		} else {
			lo.u16(o / 2)
		}
	}
	tabs["loca"] = lo.b
	var head bw
	head.u32(0x00010000)
	head.u32(0x00010000)
	head.u32(0)
	head.u32(0x5F0F3CF5)
	head.u16(0x0009)
	head.u16(f.UPM)
	head.u32(0)
	head.u32(int(f.ID)) // created: the marker that identifies the font
	head.u32(0)
	head.u32(0x1234567)
	for _, v := range f.BBox {
		head.u16(v)
	}
	head.u16(0)
	head.u16(8)
	head.u16(2)
	if f.Long {
		head.u16(1)
	} else {
		head.u16(0)
	}
	head.u16(0)
	tabs["head"] = head.b
	var hh bw
	hh.u32(0x00010000)
	hh.u16(f.Asc)
	hh.u16(f.Desc)
	hh.u16(90)
	hh.u16(3000)
	for k := 0; k < 3; k++ {
		hh.u16(10 * k)
	}
	hh.u16(1)
	hh.u16(0)
	hh.u16(0)
	for k := 0; k < 4; k++ {
		hh.u16(0)
	}
	hh.u16(0)
	hh.u16(len(widths))
	tabs["hhea"] = hh.b
	var hm bw
	for i, w := range widths {
		hm.u16(w)
		hm.u16(i * 3)
	}
	for i := len(widths); i < ng; i++ {
		hm.u16(7777 + i)
	}
	tabs["hmtx"] = hm.b
	var mp bw
	mp.u32(0x00010000)
	mp.u16(ng)
	for k := 0; k < 13; k++ {
		mp.u16(k)
	}
	tabs["maxp"] = mp.b
	tabs["cmap"] = f.cmapTable()
	var nm bw
	ps := f.PS
	if ps == "" {
		ps = fmt.Sprintf("Synth%c%d", 'A'+rune(f.ID%26), f.ID%97+1)
	}
	kinds := [][]bool{{true}, {false}, {false}, {true, false}, {false}, {false, true}}[f.ID/25%6] // records for Macintosh or Windows
	pre := []int{4, 4, 68, 300, 600}[f.ID/5%5]
	nm.u16(0)
	nm.u16(1 + len(kinds))
	nm.u16(6 + 12*(1+len(kinds)))
	nm.u16(3)
	nm.u16(1)
	nm.u16(0x409)
	nm.u16(1)
	nm.u16(pre)
	nm.u16(0)
	at := pre
	for _, mac := range kinds {
		n := 2 * len(ps)
		if mac {
			n = len(ps)
			nm.u16(1)
			nm.u16(0)
			nm.u16(0)
		} else {
			nm.u16(3)
			nm.u16(1)
			nm.u16(0x409)
		}
		nm.u16(6)
		nm.u16(n)
		nm.u16(at)
		at += n
	}
	for k := 0; k < pre/4; k++ {
		nm.b = append(nm.b, 0, 'S', 0, 'y')
	}
	for _, mac := range kinds {
		for _, c := range []byte(ps) {
			if mac {
				nm.u8(int(c))
			} else {
				nm.u16(int(c))
			}
		}
	}
	tabs["name"] = nm.b
	var o2 bw
	o2.u16(f.OS2v)
	o2.u16(500)
	o2.u16(400)
	o2.u16(5)
	o2.u16(f.FsType)
	for k := 0; k < 11; k++ {
		o2.u16(k)
	}
	for k := 0; k < 10; k++ {
		o2.u8(k)
	}
	for k := 0; k < 4; k++ {
		o2.u32(0)
	}
	o2.u32(0x41424344)
	o2.u16(f.FsSel)
	o2.u16(32)
	o2.u16(0xFFFF)
	o2.u16(f.TAsc)
	o2.u16(f.TDesc)
	o2.u16(33)
	o2.u16(f.WAsc)
	o2.u16(f.WDesc)
	if f.OS2v >= 1 {
		o2.u32(1)
		o2.u32(0)
	}
	if f.OS2v >= 2 {
		o2.u16(f.XH)
		o2.u16(f.Cap)
		o2.u16(0)
		o2.u16(32)
		o2.u16(2)
	}
	if f.OS2v >= 5 {
		o2.u16(100)
		o2.u16(0xFFFE)
	}
	tabs["OS/2"] = o2.b
	var po bw
	po.u32(0x00030000)
	po.u16(f.Italic)
	po.u16(0x8000)
	po.u16(f.UPos)
	po.u16(f.UTh)
	if f.Fixed {
		po.u32([]int{1, 1, 0x10000, 0x100, 0xFFFFFFFF}[f.ID%5]) // all but 0 mean the same
	} else {
		po.u32(0)
	}
	for k := 0; k < 4; k++ {
		po.u32(0)
	}
	tabs["post"] = po.b
	if len(f.Kern) > 0 {
		var k bw
		k.u16(0)
		k.u16(len(f.Kern))
		for _, s := range f.Kern {
			k.u16(0)
			k.u16(14 + 6*len(s.Pairs))
			k.u16(s.Cov)
			k.u16(len(s.Pairs))
			k.u16(0)
			k.u16(0)
			k.u16(0)
			for _, p := range s.Pairs {
				k.u16(p[0])
				k.u16(p[1])
				k.u16(p[2])
			}
		}
		tabs["kern"] = k.b
	}
	if f.Hint {
		tabs["cvt "] = []byte{0, 10, 0, byte(f.ID), 1, 2}
		tabs["fpgm"] = []byte{0xB0, 1, 0x2C, 0x2D, byte(f.ID)}
		tabs["prep"] = []byte{0xB8, 1, 0xFF, 0x85, 0xB0, 4, 0x8D}
	}
	if f.Extra {
		tabs["DSIG"] = []byte{0, 0, 0, 1, 0, 0, 0, 0}
		tabs["gasp"] = []byte{0, 0, 0, 1, 0xFF, 0xFF, 0, 2}
	}
	var tags []string
	for t := range tabs {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	var out bw
	out.u32(0x00010000)
	out.u16(len(tags))
	out.u16(128)
	out.u16(3)
	out.u16(len(tags)*16 - 128)
	off := 12 + 16*len(tags)
	order := append(append([]string{}, tags[f.Rot%len(tags):]...), tags[:f.Rot%len(tags)]...)
	offs := map[string]int{}
	var body []byte
	for _, t := range order {
		offs[t] = off + len(body)
		body = append(body, tabs[t]...)
		for len(body)%4 != 0 {
			body = append(body, 0)
		}
	}
	for _, t := range tags {
		out.b = append(out.b, t...)
		out.u32(int(ttfSum(tabs[t])))
		out.u32(offs[t])
		out.u32(len(tabs[t]))
	}
	return append(out.b, body...)
}

func ttfSum(b []byte) uint32 {
	var s uint32
	for i := 0; i < len(b); i += 4 {
		var w [4]byte
		copy(w[:], b[i:])
		s += binary.BigEndian.Uint32(w[:])
	}
	return s
}

func (f *FontSpec) cmapTable() []byte {
	type seg struct {
		a, b int
		g    []int // glyph per code, 0 = missing
	}
	ents := append([]CmapEnt(nil), f.Cmap...)
	sort.Slice(ents, func(i, j int) bool { return ents[i].R < ents[j].R })
	var segs []seg
	nonBMP := false
	for _, e := range ents {
		if e.R > 0xFFFE {
			nonBMP = true
			continue
		}
		c := int(e.R)
		if n := len(segs); n > 0 {
			s := &segs[n-1]
			gap := c - s.b - 1
			if gap == 0 && (f.Style != 0 || e.G == s.g[len(s.g)-1]+1) || f.Style == 2 && gap <= 3 {
				for k := 0; k < gap; k++ {
					s.g = append(s.g, 0)
				}
				s.g = append(s.g, e.G)
				s.b = c
				continue
			}
		}
		segs = append(segs, seg{c, c, []int{e.G}})
	}
	if k := len(segs) - 1; k >= 0 && segs[k].b > 0xFFF0 && f.Style == 2 { // the last segment need not be 0xFFFF alone
		for ; segs[k].b < 0xFFFF; segs[k].b++ {
			segs[k].g = append(segs[k].g, 0)
		}
	} else {
		segs = append(segs, seg{0xFFFF, 0xFFFF, nil})
	}
	n := len(segs)
	var end, start, delta, ro, ga []int
	for i, s := range segs {
		end = append(end, s.b)
		start = append(start, s.a)
		if s.g == nil {
			delta = append(delta, 1)
			ro = append(ro, 0)
			continue
		}
		consecutive := true
		for k := range s.g {
			if s.g[k] != s.g[0]+k || s.g[k] == 0 && len(s.g) == 1 { // the first may be glyph 0
				consecutive = false
			}
		}
		if consecutive && f.Style != 1 {
			delta = append(delta, (s.g[0]-s.a)&0xFFFF)
			ro = append(ro, 0)
			continue
		}
		d := 0
		if f.Style == 2 {
			d = 5 + i
		}
		delta = append(delta, d)
		ro = append(ro, 2*(n-i)+2*len(ga))
		for _, g := range s.g {
			if g == 0 {
				ga = append(ga, 0)
			} else {
				ga = append(ga, (g-d)&0xFFFF)
			}
		}
	}
	// a stored value of 0 would mean "missing": fall back to no delta for those segments
	for i := range segs {
		if ro[i] == 0 || delta[i] == 0 {
			continue
		}
		bad := false
		for k := range segs[i].g {
			if segs[i].g[k] != 0 && (segs[i].g[k]-delta[i])&0xFFFF == 0 {
				bad = true
			}
		}
		if bad {
			base := ro[i]/2 - (n - i)
			for k := range segs[i].g {
				ga[base+k] = segs[i].g[k]
			}
			delta[i] = 0
		}
	}
	var s4 bw
	s4.u16(4)
	s4.u16(16 + 8*n + 2*len(ga))
	s4.u16(0)
	s4.u16(2 * n)
	s4.u16(2)
	s4.u16(0)
	s4.u16(2*n - 2)
	for _, v := range end {
		s4.u16(v)
	}
	s4.u16(0)
	for _, v := range start {
		s4.u16(v)
	}
	for _, v := range delta {
		s4.u16(v)
	}
	for _, v := range ro {
		s4.u16(v)
	}
	for _, v := range ga {
		s4.u16(v)
	}
	var s12 bw
	if nonBMP {
		type grp struct{ a, b, g int }
		var gs []grp
		for _, e := range ents {
			c := int(e.R)
			if k := len(gs); k > 0 && gs[k-1].b == c-1 && e.G == gs[k-1].g+c-gs[k-1].a {
				gs[k-1].b = c
				continue
			}
			gs = append(gs, grp{c, c, e.G})
		}
		s12.u16(12)
		s12.u16(0)
		s12.u32(16 + 12*len(gs))
		s12.u32(0)
		s12.u32(len(gs))
		for _, g := range gs {
			s12.u32(g.a)
			s12.u32(g.b)
			s12.u32(g.g)
		}
	}
	type rec struct {
		p, e int
		b    []byte
	}
	var recs []rec
	if f.Extra { // a table the library must not use
		var s0 bw
		s0.u16(0)
		s0.u16(262)
		s0.u16(0)
		for k := 0; k < 256; k++ {
			s0.u8(k % len(f.Glyphs))
		}
		recs = append(recs, rec{1, 0, s0.b})
	}
	recs = append(recs, rec{3, 1, s4.b})
	if nonBMP {
		recs = append(recs, rec{3, 10, s12.b})
	}
	var c bw
	c.u16(0)
	c.u16(len(recs))
	off := 4 + 8*len(recs)
	for _, r := range recs {
		c.u16(r.p)
		c.u16(r.e)
		c.u32(off)
		off += len(r.b)
	}
	for _, r := range recs {
		c.b = append(c.b, r.b...)
	}
	return c.b
}

// TTF is what the reference reader knows about a font.
type TTF struct {
	data     []byte
	tab      map[string][]byte
	UPM      int
	NG       int
	LocaFmt  int
	Loca     []int
	NHM      int
	fmt4     func(c int) int
	fmt12    [][3]int
	Kern     map[[2]int]int
	HasKern  bool
	KernOdd  bool // kern table the library need not understand
	Asc      int
	Desc     int
	TAsc     int
	TDesc    int
	WAsc     int
	WDesc    int
	UPos     int
	UTh      int
	Italic   int
	OS2v     int
	XH, Cap  int
	BBox     [4]int
	Identity string
}

type ttfErr string

func u16at(b []byte, o int) int {
	if o < 0 || o+2 > len(b) {
		panic(ttfErr(fmt.Sprintf("table ends at %d, needed %d", len(b), o+2)))
	}
	return int(b[o])<<8 | int(b[o+1])
}
func s16at(b []byte, o int) int { return int(int16(u16at(b, o))) }
func u32at(b []byte, o int) int { return u16at(b, o)<<16 | u16at(b, o+2) }

// ReadTTF parses a font; full demands the tables of a complete font.
func ReadTTF(data []byte, full bool) (t *TTF, err error) {
	defer func() {
		if r := recover(); r != nil {
			if te, ok := r.(ttfErr); ok {
				t, err = nil, fmt.Errorf("font: %s", string(te))
				return
			}
			panic(r)
		}
	}()
	t = &TTF{data: data, tab: map[string][]byte{}}
	if u32at(data, 0) != 0x00010000 {
		return nil, fmt.Errorf("font: bad version")
	}
	n := u16at(data, 4)
	prev := ""
	for i := 0; i < n; i++ {
		o := 12 + 16*i
		u32at(data, o+12)
		tag := string(data[o : o+4])
		off, ln := u32at(data, o+8), u32at(data, o+12)
		if off+ln > len(data) || (ln > 0 && off < 12+16*n) {
			return nil, fmt.Errorf("font: table %q [%d,%d) lies outside the font (%d bytes)", tag, off, off+ln, len(data))
		}
		if tag <= prev {
			return nil, fmt.Errorf("font: table directory is not sorted (%q after %q)", tag, prev)
		}
		prev = tag
		t.tab[tag] = data[off : off+ln]
	}
	for _, tag := range []string{"head", "hhea", "hmtx", "maxp", "loca", "glyf"} {
		if _, ok := t.tab[tag]; !ok {
			return nil, fmt.Errorf("font: no table %q", tag)
		}
	}
	head := t.tab["head"]
	if u32at(head, 12) != 0x5F0F3CF5 {
		return nil, fmt.Errorf("font: bad magic")
	}
	t.UPM = u16at(head, 18)
	for i := range t.BBox {
		t.BBox[i] = s16at(head, 36+2*i)
	}
	t.LocaFmt = s16at(head, 50)
	t.Identity = string(head[4:8]) + string(head[16:36])
	hhea := t.tab["hhea"]
	t.Asc, t.Desc, t.NHM = s16at(hhea, 4), s16at(hhea, 6), u16at(hhea, 34)
	t.NG = u16at(t.tab["maxp"], 4)
	loca := t.tab["loca"]
	for i := 0; i <= t.NG; i++ {
		if t.LocaFmt == 0 {
			t.Loca = append(t.Loca, 2*u16at(loca, 2*i))
		} else {
			t.Loca = append(t.Loca, u32at(loca, 4*i))
		}
		if t.Loca[i] > len(t.tab["glyf"]) {
			return nil, fmt.Errorf("font: glyph %d lies outside the glyf table", i)
		}
		if i > 0 && t.Loca[i] < t.Loca[i-1] {
			return nil, fmt.Errorf("font: loca decreases at glyph %d", i)
		}
	}
	u16at(t.tab["hmtx"], 4*t.NHM-2)
	if !full {
		return t, nil
	}
	cm := t.tab["cmap"]
	for i := 0; i < u16at(cm, 2); i++ {
		p, e, off := u16at(cm, 4+8*i), u16at(cm, 6+8*i), u32at(cm, 8+8*i)
		if p == 3 && e == 1 && u16at(cm, off) == 4 {
			s := cm[off:]
			sc := u16at(s, 6) / 2
			t.fmt4 = func(c int) int {
				for k := 0; k < sc; k++ {
					if c > u16at(s, 14+2*k) {
						continue
					}
					st := u16at(s, 16+2*sc+2*k)
					if c < st {
						return 0
					}
					d := u16at(s, 16+4*sc+2*k)
					ro := u16at(s, 16+6*sc+2*k)
					if ro == 0 {
						return (c + d) & 0xFFFF
					}
					at := 16 + 6*sc + 2*k + ro + 2*(c-st)
					if at+2 > len(s) {
						return 0
					}
					g := u16at(s, at)
					if g == 0 {
						return 0
					}
					return (g + d) & 0xFFFF
				}
				return 0
			}
		}
		if p == 3 && e == 10 && u16at(cm, off) == 12 {
			s := cm[off:]
			for k := 0; k < u32at(s, 12); k++ {
				t.fmt12 = append(t.fmt12, [3]int{u32at(s, 16+12*k), u32at(s, 20+12*k), u32at(s, 24+12*k)})
			}
		}
	}
	o2 := t.tab["OS/2"]
	t.OS2v = u16at(o2, 0)
	t.TAsc, t.TDesc = s16at(o2, 68), s16at(o2, 70)
	t.WAsc, t.WDesc = u16at(o2, 74), u16at(o2, 76)
	if t.OS2v >= 2 {
		t.XH, t.Cap = s16at(o2, 86), s16at(o2, 88)
	}
	po := t.tab["post"]
	t.Italic, t.UPos, t.UTh = s16at(po, 4), s16at(po, 8), s16at(po, 10)
	if k, ok := t.tab["kern"]; ok {
		t.HasKern = true
		t.Kern = map[[2]int]int{}
		o := 4
		for i := 0; i < u16at(k, 2); i++ {
			cov := u16at(k, o+4)
			if cov>>8 != 0 {
				t.KernOdd = true
				break
			}
			np := u16at(k, o+6)
			for q := 0; q < np; q++ {
				l, r, v := u16at(k, o+14+6*q), u16at(k, o+16+6*q), s16at(k, o+18+6*q)
				if cov&7 != 1 {
					continue
				}
				if cov&8 != 0 {
					t.Kern[[2]int{l, r}] = v
				} else {
					t.Kern[[2]int{l, r}] += v
				}
			}
			o += 14 + 6*np
		}
	}
	return t, nil
}

// Gid maps a character; ok=false when the library is to refuse it.
func (t *TTF) Gid(r rune) (g int, ok bool) {
	if r <= 0xFFFF {
		g = t.fmt4(int(r))
	} else {
		found := false
		for _, x := range t.fmt12 {
			if int(r) >= x[0] && int(r) <= x[1] {
				g = x[2] + int(r) - x[0]
				found = true
				break
			}
		}
		if !found {
			return 0, false
		}
	}
	if g >= t.NG {
		g = 0
	}
	return g, true
}

// RawWidth is the advance in font units.
func (t *TTF) RawWidth(g int) int {
	if g >= t.NHM {
		g = t.NHM - 1
	}
	return u16at(t.tab["hmtx"], 4*g)
}

// Width is the advance in thousandths of an em, truncated.
func (t *TTF) Width(g int) int { return t.RawWidth(g) * 1000 / t.UPM }

// Glyph is the glyph's outline data.
func (t *TTF) Glyph(g int) []byte { return t.tab["glyf"][t.Loca[g]:t.Loca[g+1]] }

// Components lists direct components.
func (t *TTF) Components(g int) []int {
	b := t.Glyph(g)
	if len(b) < 10 || s16at(b, 0) >= 0 {
		return nil
	}
	var out []int
	o := 10
	for o+4 <= len(b) {
		fl := u16at(b, o)
		out = append(out, u16at(b, o+2))
		o += 4
		if fl&1 != 0 {
			o += 4
		} else {
			o += 2
		}
		switch {
		case fl&8 != 0:
			o += 2
		case fl&64 != 0:
			o += 4
		case fl&128 != 0:
			o += 8
		}
		if fl&32 == 0 {
			break
		}
	}
	return out
}

// Closure is the set of glyphs needed to draw the given ones.
func (t *TTF) Closure(gs map[int]bool) map[int]bool {
	out := map[int]bool{}
	var add func(g int)
	add = func(g int) {
		if out[g] || g >= t.NG {
			return
		}
		out[g] = true
		for _, c := range t.Components(g) {
			add(c)
		}
	}
	for g := range gs {
		add(g)
	}
	return out
}

var ttfCache sync.Map

// TTF reads the font with the reference reader.
func (f *FontSpec) TTF() *TTF {
	if f.Real != "" {
		if t, ok := ttfCache.Load(f.Real); ok {
			return t.(*TTF)
		}
	}
	key := ""
	if f.Big > 0 {
		k, _ := json.Marshal(f)
		key = string(k)
		if t, ok := bigTTF.Load(key); ok {
			return t.(*TTF)
		}
	}
	t, err := ReadTTF(f.Bytes(), true)
	if err != nil {
		panic(harnessBug("own font: " + err.Error()))
	}
	if key != "" {
		bigTTF.Clear()
		bigTTF.Store(key, t)
	}
	if f.Real != "" {
		ttfCache.Store(f.Real, t)
	}
	return t
}

// uniform draws from 0..n-1 evenly (rapid's own ranges favour small values);
// it shrinks to 0.
func uniform(t *rapid.T, n int, name string) int {
	if n <= 1 {
		return 0
	}
	k := bits.Len(uint(n-1)) + 3
	if n&(n-1) == 0 {
		k -= 3
	}
	v := 0
	for i := 0; i < k; i++ {
		v <<= 1
		if coin.Draw(t, name) {
			v |= 1
		}
	}
	return v * n >> uint(k)
}

var coin = rapid.Bool()

// ir draws lo..hi; long ranges favour their small values a little.
func ir(t *rapid.T, lo, hi int, name string) int {
	if hi-lo >= 64 && uniform(t, 8, name) == 0 {
		return rapid.IntRange(lo, hi).Draw(t, name)
	}
	return lo + uniform(t, hi-lo+1, name)
}
func oneof[T any](t *rapid.T, xs []T, name string) T { return xs[uniform(t, len(xs), name)] }
func chance(t *rapid.T, pct int, name string) bool {
	return uniform(t, 100, name) >= 100-pct
}

// runePool are characters the generators favour.
var runePool = []rune{'A', 'B', 'C', 'a', 'b', 'c', ' ', '(', ')', '\\', '<', '>', '0', 'Z', 0xE9, 0xFF, 0x100, 0xE01, 0xE33, 0x20AC, 0xF8FF, 0xFFFD, 0xFFFE, 0x1F600, 0x1F601, 0x10000, 0x10FFFF, '\t', '\n', 0xA0, 0x3000}

// drawFont draws a synthetic font (or sometimes a real one).
func drawFont(t *rapid.T, id int, realPct int) FontSpec {
	if chance(t, realPct, "real") {
		return FontSpec{Real: oneof(t, []string{"Loma", "angsa", "arial", "times"}, "realfont")}
	}
	f := FontSpec{ID: uint32(0x51000000 + id*7919 + 1)}
	f.UPM = oneof(t, []int{1000, 2048, 1024, 16, 333, 4096, 16384}, "upm")
	ng := ir(t, 2, 24, "ng")
	if chance(t, 4, "many") {
		ng = ir(t, 250, 700, "ngmany")
	}
	rev := chance(t, 50, "rev")
	fat := ng < 100 && chance(t, 1, "fat") // glyph data of hundreds of kilobytes
	for i := 0; i < ng; i++ {
		if ng > 100 {
			f.Glyphs = append(f.Glyphs, GlyphSpec{K: i % 2, N: i % 5})
			continue
		}
		var g GlyphSpec
		switch k := ir(t, 0, 9, "gk"); {
		case k == 0:
		case k <= 5:
			g = GlyphSpec{K: 1, N: ir(t, 0, 9, "gn")}
			if fat {
				g.N = ir(t, 1000, 30000, "gnfat")
			}
		default:
			lo, hi := 0, i-1
			if rev {
				lo, hi = i+1, ng-1
			}
			if lo > hi {
				g = GlyphSpec{K: 1, N: 1}
				break
			}
			g.K = 2
			for c, nc := 0, ir(t, 1, 3, "nc"); c < nc; c++ {
				g.C = append(g.C, CompSpec{ir(t, lo, hi, "comp"), ir(t, 0, 1, "words"), ir(t, 0, 3, "scale")})
			}
		}
		f.Glyphs = append(f.Glyphs, g)
	}
	f.Long = fat || chance(t, 50, "long")
	nw := ng
	if chance(t, 40, "fewW") {
		nw = ir(t, 1, ng, "nw")
	}
	for i := 0; i < nw; i++ {
		if ng > 100 {
			f.W = append(f.W, (i*37)%(2*f.UPM))
			continue
		}
		w := ir(t, 0, 2*f.UPM, "w")
		if w%41 == 7 {
			w = ir(t, 0, 65535, "wwide")
		}
		f.W = append(f.W, w)
	}
	seen := map[rune]bool{}
	nc := ir(t, 1, 14, "ncmap")
	addC := func(r rune) {
		if r >= 0xD800 && r < 0xE000 || r == 0xFFFF || r > 0x10FFFF || seen[r] {
			return
		}
		seen[r] = true
		f.Cmap = append(f.Cmap, CmapEnt{r, ir(t, 0, ng-1, "cg")})
	}
	for i := 0; i < nc; i++ {
		addC(oneof(t, runePool, "cr"))
	}
	if chance(t, 35, "alike") { // characters that agree in their low 16 or low 8 bits
		for _, e := range append([]CmapEnt(nil), f.Cmap...) {
			switch ir(t, 0, 4, "alikek") {
			case 0:
				addC(e.R + 0x10000)
			case 1:
				if e.R > 0xFFFF && e.R&0xFFFF >= 0x20 {
					addC(e.R & 0xFFFF)
				}
			case 2:
				addC(e.R + 0x100)
			}
		}
	}
	if chance(t, 50, "run") { // a run of consecutive characters and glyphs
		st := oneof(t, []int{'a', 0x21, 0xE01, 0x1F600, 0xFF00, 0x20}, "runst")
		g0 := ir(t, 0, ng-1, "rung")
		for k, n := 0, ir(t, 2, 20, "runn"); k < n; k++ {
			r := rune(st + k)
			if g0+k < ng && !seen[r] {
				seen[r] = true
				f.Cmap = append(f.Cmap, CmapEnt{r, g0 + k})
			}
		}
	}
	if ng > 100 && chance(t, 60, "bigcmap") { // hundreds of characters
		for k, n, m := 0, ir(t, 200, 600, "bigc"), ir(t, 1, 5, "bigm"); k < n; k++ {
			r := rune(0x4E00 + k*m)
			if !seen[r] {
				seen[r] = true
				f.Cmap = append(f.Cmap, CmapEnt{r, (k*k + k) % ng})
			}
		}
	}
	if ng > 300 && chance(t, 60, "longrun") { // one run of hundreds of characters
		st := oneof(t, []int{0x1F000, 0x20000, 0x3400, 0x1FF80, 0x10000}, "lrst")
		for k, n := 0, ir(t, 257, ng, "lrn"); k < n; k++ {
			if r := rune(st + k); !seen[r] {
				seen[r] = true
				f.Cmap = append(f.Cmap, CmapEnt{r, k})
			}
		}
	}
	if ng < 100 && chance(t, 2, "big") { // glyph numbers beyond a byte, a signed and nearly an unsigned 16-bit number
		f.Big = oneof(t, []int{300, 5000, 33000, 40000, 65535 - ng}, "bign")
		f.Long = true
		all := ng + f.Big
		for i := range f.Cmap {
			if chance(t, 60, "bigc") {
				f.Cmap[i].G = all - 1 - ir(t, 0, all-1, "bigg")
			}
		}
		g0 := all - ir(t, 12, all, "bigrun")
		for k := 0; k < 12; k++ {
			if r := rune(0x5000 + k); !seen[r] {
				seen[r] = true
				f.Cmap = append(f.Cmap, CmapEnt{r, g0 + k})
			}
		}
	}
	f.Style = ir(t, 0, 2, "style")
	if chance(t, 60, "kern") {
		for s, ns := 0, ir(t, 1, 3, "nks"); s < ns; s++ {
			k := KernSub{Cov: oneof(t, []int{1, 1, 1, 1, 9, 0, 3, 5}, "cov")}
			have := map[[2]int]bool{}
			for q, nq := 0, ir(t, 0, 8, "nkp"); q < nq; q++ {
				l, r := ir(t, 0, ng-1, "kl"), ir(t, 0, ng-1, "kr")
				if f.Big > 0 {
					l, r = f.Cmap[ir(t, 0, len(f.Cmap)-1, "klb")].G, f.Cmap[ir(t, 0, len(f.Cmap)-1, "krb")].G
				}
				if have[[2]int{l, r}] {
					continue
				}
				have[[2]int{l, r}] = true
				km := min(f.UPM, 8000) // three subtables must not overflow 16 bits
				k.Pairs = append(k.Pairs, [3]int{l, r, ir(t, -km, km, "kv")})
			}
			f.Kern = append(f.Kern, k)
		}
	}
	f.Asc = ir(t, 0, 2*f.UPM, "asc")
	f.Desc = ir(t, -f.UPM, f.UPM/4, "desc")
	f.TAsc = ir(t, 0, 2*f.UPM, "tasc")
	f.TDesc = ir(t, -f.UPM, f.UPM/4, "tdesc")
	if chance(t, 8, "notypo") {
		f.TAsc = 0
	}
	if chance(t, 8, "notypod") {
		f.TDesc = 0
	}
	f.WAsc = ir(t, 0, 2*f.UPM, "wasc")
	f.WDesc = ir(t, 0, 2*f.UPM, "wdesc")
	f.UPos = ir(t, -f.UPM/2, f.UPM/2, "upos")
	f.UTh = ir(t, 0, f.UPM/3, "uth")
	f.Italic = ir(t, -30, 30, "italic")
	f.OS2v = ir(t, 0, 5, "os2v")
	f.XH = ir(t, 0, f.UPM, "xh")
	f.Cap = ir(t, 0, f.UPM, "cap")
	for i := range f.BBox {
		f.BBox[i] = ir(t, -2*f.UPM, 2*f.UPM, "bbox")
	}
	f.Hint = chance(t, 50, "hint")
	f.Extra = chance(t, 40, "extra")
	f.Rot = ir(t, 0, 11, "rot")
	f.FsType = oneof(t, []int{0, 0, 0, 8, 4, 2, 0x200, 0x208, 0x100, 0x104, 0x10C, 6, 12}, "fstype")
	f.FsSel = oneof(t, []int{64, 32, 33, 1, 0, 0xFFDF, 0xFFFF}, "fssel")
	f.Fixed = chance(t, 30, "fixed")
	f.PS = oneof(t, []string{"", "A", "Font-10", "A0B0", "Name (x)", "Loma", "x.y_z", "q\"r", "b\\s", "a/b%c[d]{e}<f>"}, "ps")
	return f
}

// chars lists characters texts in this font are made of.
func (f *FontSpec) chars() []rune {
	if f.Real != "" {
		return []rune("ABCabcdefg hijk lmno, 0123()<>\\AVToWeéกขคทดสอ ำ")
	}
	var out []rune
	for _, c := range f.Cmap {
		out = append(out, c.R)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

var realChars sync.Map

// allChars lists all characters the font has.
func (f *FontSpec) allChars() []rune {
	if f.Real == "" {
		return f.chars()
	}
	if v, ok := realChars.Load(f.Real); ok {
		return v.([]rune)
	}
	var out []rune
	t := f.TTF()
	for r := rune(0x20); r < 0xFFFF; r++ {
		if r >= 0xD800 && r < 0xE000 {
			continue
		}
		if g, ok := t.Gid(r); ok && g != 0 {
			out = append(out, r)
		}
	}
	realChars.Store(f.Real, out)
	return out
}
