package main

// Properties about damaged input, failing calls and faults.

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/signintech/pdft"
	gopdf "github.com/signintech/pdft/minigopdf"
	"github.com/signintech/pdft/minigopdf/fontmaker/core"
	"github.com/signintech/pdft/textbreak"
	"pgregory.net/rapid"
)

// Mut is one damage to a file.
type Mut struct {
	K string `json:"k"`
	A int    `json:"a"`
	B int    `json:"b,omitempty"`
	C int    `json:"c,omitempty"`
	V []byte `json:"v,omitempty"`
}

var tokenPool = []string{"<<", ">>", "[", "]", "(", ")", "obj", "endobj", "stream", "endstream", "xref", "trailer", "startxref", "R", "null", "true", "/Kids", "/Pages", "/Page", "/Contents", "/Resources", "/Font", "/XObject", "/Parent", "/Length", "/Type", "/Root", "/Count", "/MediaBox", "/Encrypt", "/Info", "%", "\\", "0 0 R", "1 0 R", "2 0 R", "3 0 R", "99999999 0 R", "-1 0 R", "<", ">", "{", "}", "0", "-1", "99999999999999999999", "4294967296", "2147483648", "1e400", "1.5.2", "--3", "\x00", "\r", "\n", "/", "#", "/F1", "/I1", "/A#zz", "((((((", "[[[[[[[[", "<<<<<<<<", "0000000000 00000 n", "9999999999 00000 n", "0000000005 00000 n"}

var numRe = regexp.MustCompile(`-?[0-9]+`)
var refRe = regexp.MustCompile(`[0-9]+ 0 R`)

func mutate(b []byte, muts []Mut) []byte {
	b = append([]byte(nil), b...)
	for _, m := range muts {
		n := len(b)
		if n == 0 {
			b = append(b, m.V...)
			continue
		}
		at := (m.A%n + n) % n
		switch m.K {
		case "flip":
			b[at] ^= byte(1 << uint(m.B&7))
		case "set":
			b[at] = byte(m.B)
		case "cut":
			b = b[:at]
		case "del":
			e := min(n, at+m.B)
			b = append(b[:at:at], b[e:]...)
		case "ins":
			b = append(b[:at:at], append(append([]byte{}, m.V...), b[at:]...)...)
		case "copy": // a piece of the file at another place
			to := (m.B%n + n) % n
			e := min(n, at+40)
			b = append(b[:to:to], append(append([]byte{}, b[at:e]...), b[to:]...)...)
		case "num": // another number
			l := numRe.FindAllIndex(b, -1)
			if len(l) > 0 {
				i := l[m.A%len(l)]
				b = append(b[:i[0]:i[0]], append(append([]byte{}, m.V...), b[i[1]:]...)...)
			}
		case "ref": // a reference to another object
			l := refRe.FindAllIndex(b, -1)
			if len(l) > 0 {
				i := l[m.A%len(l)]
				j := l[m.B%len(l)]
				b = append(b[:i[0]:i[0]], append(append([]byte{}, b[j[0]:j[1]]...), b[i[1]:]...)...)
			}
		case "self": // a reference to the object it is in
			l := refRe.FindAllIndex(b, -1)
			if len(l) > 0 {
				i := l[m.A%len(l)]
				o := objStart.FindAllSubmatch(b[:i[0]], -1)
				if len(o) > 0 {
					v := append(append([]byte{}, o[len(o)-1][1]...), " 0 R"...)
					b = append(b[:i[0]:i[0]], append(v, b[i[1]:]...)...)
				}
			}
		case "loop": // objects that are references to each other
			o, k := bodies(b), objStart.FindAllSubmatch(b, -1)
			if len(o) > 0 && len(k) > 0 {
				i, j := m.A%len(o), m.B%len(k)
				id := objStart.FindSubmatch(b[o[i][0]:])[1]
				v := fmt.Sprintf("\n%s 0 R\n", k[j][1])
				b = append(b[:o[i][1]:o[i][1]], append([]byte(v), b[o[i][2]:]...)...)
				for _, q := range bodies(b) { // and back
					if m.B%3 > 0 && string(objStart.FindSubmatch(b[q[0]:])[1]) == string(k[j][1]) {
						b = append(b[:q[1]:q[1]], append([]byte(fmt.Sprintf("\n%s 0 R\n", id)), b[q[2]:]...)...)
						break
					}
				}
			}
		case "body": // an object that is something else
			if o := bodies(b); len(o) > 0 {
				q := o[m.A%len(o)]
				b = append(b[:q[1]:q[1]], append(append([]byte{}, m.V...), b[q[2]:]...)...)
			}
		case "val": // another value for a key
			l := keyRe.FindAllIndex(b, -1)
			if k := keyPool[m.C%len(keyPool)]; m.C > 0 {
				var one [][]int
				for _, i := range l {
					if string(b[i[0]:i[1]]) == "/"+k {
						one = append(one, i)
					}
				}
				l = one
			}
			if len(l) > 0 {
				i := l[m.A%len(l)]
				e := scanVal(b, i[1])
				b = append(b[:i[1]:i[1]], append(append([]byte{}, m.V...), b[e:]...)...)
			}
		case "off": // a cross-reference entry that leads to a border of the file
			if l := entryRe.FindAllIndex(b, -1); len(l) > 0 {
				i := l[m.A%len(l)][0]
				copy(b[i:], fmt.Sprintf("%010d", max(0, len(b)+m.B)))
			}
		case "u16":
			if at+2 <= n {
				b[at], b[at+1] = byte(m.B>>8), byte(m.B)
			}
		case "u32":
			if at+4 <= n {
				b[at], b[at+1], b[at+2], b[at+3] = byte(m.B>>24), byte(m.B>>16), byte(m.B>>8), byte(m.B)
			}
		default:
			panic(harnessBug("mutation " + m.K))
		}
		if len(b) > 1<<20 {
			b = b[:1<<20]
		}
	}
	return b
}

var keyPool = strings.Split("Type|Kids|Count|Parent|Contents|Resources|Font|XObject|MediaBox|Length|Root|Info|Size|Pages|CropBox|Rotate|Filter|Prev|Annots|ID", "|")
var keyRe = regexp.MustCompile(`/(` + strings.Join(keyPool, "|") + `)\b`)

var entryRe = regexp.MustCompile(`[0-9]{10} [0-9]{5} [nf]`)

// scanVal is the end of what looks like a value.
func scanVal(b []byte, at int) int {
	depth := 0
	for i := at; i < len(b); i++ {
		switch b[i] {
		case '[', '(', '<':
			depth++
		case ']', ')', '>':
			depth--
			if depth < 0 {
				return i
			}
			if depth == 0 && (i+1 >= len(b) || b[i+1] != '>') {
				return i + 1
			}
		case '/':
			if depth == 0 && i > at+1 {
				return i
			}
		}
	}
	return len(b)
}

// bodies lists the objects as header, body and end.
func bodies(b []byte) (out [][3]int) {
	for _, m := range objStart.FindAllIndex(b, -1) {
		if e := bytes.Index(b[m[1]:], []byte("endobj")); e >= 0 {
			out = append(out, [3]int{m[0], m[1], m[1] + e})
		}
	}
	return out
}

var objStart = regexp.MustCompile(`([0-9]+) 0 obj`)

func drawMuts(t *rapid.T, kinds []string, maxN, size int) []Mut {
	var out []Mut
	for i, n := 0, ir(t, 1, maxN, "nmut"); i < n; i++ {
		m := Mut{K: oneof(t, kinds, "mk"), A: ir(t, 0, size, "ma")}
		switch m.K {
		case "flip":
			m.B = ir(t, 0, 7, "mb")
		case "set":
			m.B = oneof(t, []int{0, 255, ' ', '(', ')', '<', '>', '/', 'n', 128, 1, 127}, "mb")
		case "del":
			m.B = ir(t, 1, 60, "mb")
		case "ins":
			m.V = []byte(" " + oneof(t, tokenPool, "mv") + " ")
		case "body", "val":
			m.C = ir(t, 0, 13, "mc")
			m.V = []byte(" " + oneof(t, []string{"null", "0", "-1", "7", "[]", "<<>>", "()", "<>", "/X", "true", "[[]]", "[null]", "<</A 1>>", "[1 0 R]", "[0 0 R]", "[2 0 R 3 0 R]", "[1 2 3]", "[0 0 100 100]", "[a b c d]", "3 0 R", "2 0 R", "9999 0 R", "<</Length 5>>stream\nabcde\nendstream", "<</Type/Pages/Kids[]/Count 0>>", "<</Type/Page>>", "<</Font null/XObject[]>>", "<</Font<</F 5 0 R>>/XObject<<>>>>", ""}, "mv") + " ")
		case "off":
			m.B = oneof(t, []int{-40, -10, -6, -3, -2, -1, 0, 1, 2, -1 << 30}, "mb")
		case "copy", "ref", "loop":
			m.B = ir(t, 0, size, "mb")
		case "num":
			m.V = []byte(oneof(t, []string{"0", "-1", "1", "99999999999999999999", "2147483648", "65536", "7", "3", "-2147483649", "1000000000"}, "mv"))
		case "u16":
			m.B = oneof(t, []int{0, 1, 2, 0xFFFF, 0x8000, 0x7FFF, 3, 4, 12, 255, 256}, "mb")
		case "u32":
			m.B = oneof(t, []int{0, 1, 0xFFFFFFFF, 0x80000000, 0x7FFFFFFF, 0x10000, 0x20000, 100, 0xFFFF}, "mb")
		}
		out = append(out, m)
	}
	return out
}

type badTplCase struct {
	Tpl  TplSpec `json:"tpl"`
	Muts []Mut   `json:"muts,omitempty"`
	Raw  []byte  `json:"raw,omitempty"` // the whole file instead
	Toks []int   `json:"toks,omitempty"`
	Ops  []int   `json:"ops"`
	Prot bool    `json:"prot"`
	Deep int     `json:"deep,omitempty"`
	Fix  bool    `json:"fix,omitempty"` // the cross-reference table is made anew after the damage
}

// refit gives damaged data a cross-reference table that fits it.
func refit(b []byte) []byte {
	i := bytes.LastIndex(b, []byte("xref"))
	if j := bytes.Index(b, []byte("xref")); j >= 0 {
		i = j
	}
	tr := []byte("trailer <</Root 1 0 R/Size 50>>")
	if k := bytes.LastIndex(b, []byte("trailer")); k >= 0 {
		tr = b[k:]
		if e := bytes.Index(tr, []byte("startxref")); e >= 0 {
			tr = tr[:e]
		}
	}
	if i < 0 {
		i = len(b)
	}
	var out bytes.Buffer
	out.Write(b[:i])
	at := out.Len()
	out.WriteString("\nxref\n0 1\n0000000000 65535 f \n")
	for _, m := range objStart.FindAllSubmatchIndex(b[:i], -1) {
		fmt.Fprintf(&out, "%s 1\n%010d 00000 n \n", b[m[2]:m[3]], m[0])
	}
	out.Write(tr)
	fmt.Fprintf(&out, "\nstartxref\n%d\n%%%%EOF\n", at)
	return out.Bytes()
}

var smallFont = FontSpec{ID: 0x51234567, UPM: 1000, Glyphs: []GlyphSpec{{K: 1, N: 1}, {K: 1, N: 2}, {K: 1, N: 3}, {K: 2, C: []CompSpec{{G: 1}}}}, W: []int{500, 600, 700, 800}, Cmap: []CmapEnt{{'A', 1}, {'B', 2}, {'C', 3}, {' ', 0}}, Asc: 800, Desc: -200, TAsc: 800, TDesc: -200, WAsc: 900, WDesc: 300, UPos: -100, UTh: 50, OS2v: 3, XH: 400, Cap: 700}
var smallImg = ImgSpec{Kind: "png", W: 2, H: 2, CT: 6, Depth: 8, Seed: 5, Level: 6}

// useAnything does some of everything with an opened document.
func useAnything(pdf *pdft.PDFt, ops []int, prot bool) {
	pdf.GetNumberOfPage()
	pdf.AddFontFrom("f", bytes.NewReader(smallFont.Bytes()))
	pdf.SetFont("f", "U", 12)
	img := smallImg.Bytes()
	for i, o := range ops {
		n := i%4 + 1
		switch o % 10 {
		case 0:
			pdf.Insert("AB C", n, 10, 20, 30, 40, pdft.Right|pdft.Bottom, nil)
		case 1:
			pdf.InsertImg(img, n, 10, 20, 30, 40)
		case 2:
			pdf.DuplicatePageAfter(n, 0)
		case 3:
			pdf.RemovePage(n)
		case 4:
			pdf.RemoveOtherPages(n)
		case 5:
			pdf.InsertWrapText("A B C A B C", n, 10, 20, 30, 40, pdft.Middle, nil, textbreak.BasicTextbreak{})
		case 6:
			pdf.GetNumberOfPage()
		case 7:
			pdf.ShowCellBorder(true)
		case 8:
			pdf.DuplicatePageAfter(1, -1)
		case 9:
			pdf.SaveTo(io.Discard)
		}
	}
	if prot {
		pdf.SetProtection(4, []byte("u"), []byte("o"))
	}
}

func initBadTpl() {
	register("C17", 30000, 400000, "Non-trivial: the bytes were opened as a template without an error (so that the operations and the save ran on a damaged document) or refused after damage. Cases are templates with 1 to 6 damages (bit flips, cuts, deletions, inserted tokens, copied pieces, changed numbers, redirected references, objects and values replaced by others or by references in a circle), token soups, deep nesting and random bytes.",
		func(t *rapid.T) badTplCase {
			c := badTplCase{}
			k := uniform(t, 20, "kind")
			switch {
			case k < 1:
				c.Raw = rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, "raw")
			case k < 3:
				c.Toks = rapid.SliceOfN(rapid.IntRange(0, len(tokenPool)-1), 0, 60).Draw(t, "toks")
			case k < 4:
				c.Tpl = drawTpl(t, 3)
				c.Deep = ir(t, 1, 6, "deep")
				if uniform(t, 200, "very deep") == 0 {
					c.Deep = 7
				}
				c.Fix = true
			default:
				c.Tpl = drawTpl(t, 4)
				c.Muts = drawMuts(t, []string{"flip", "set", "cut", "del", "ins", "ins", "copy", "num", "num", "ref", "ref", "ref", "self", "loop", "loop", "off", "body", "val", "val"}, 6, 6000)
				c.Fix = chance(t, 70, "fix")
				for _, m := range c.Muts {
					c.Fix = c.Fix && m.K != "off"
				}
			}
			c.Ops = rapid.SliceOfN(rapid.IntRange(0, 9), 0, 8).Draw(t, "ops")
			c.Prot = chance(t, 20, "prot")
			return c
		}, func(c badTplCase, x *Ctx) error {
			var data []byte
			switch {
			case c.Raw != nil:
				data = c.Raw
				x.Label("random bytes")
			case c.Toks != nil:
				var sb strings.Builder
				sb.WriteString("%PDF-1.4\nxref\n0 3\n0000000000 65535 f \n")
				for _, k := range c.Toks {
					sb.WriteString(tokenPool[k%len(tokenPool)] + " ")
				}
				sb.WriteString("trailer <</Root 1 0 R>> startxref 0 %%EOF")
				data = []byte(sb.String())
				x.Label("token soup")
			default:
				data = mutate(c.Tpl.Build().Data, c.Muts)
				if c.Deep > 0 {
					n := []int{100, 300, 1000, 10000, 100000, 200000, 6000000}[c.Deep-1]
					nest := [][2]string{{"[", "]"}, {"<</A ", ">>"}, {"(", ")"}}[len(data)%3]
					deep := strings.Repeat(nest[0], n) + "1" + strings.Repeat(nest[1], n)
					i := bytes.Index(data, []byte("/Type"))
					if i > 0 {
						// offsets behind are then wrong, so put it right behind an object header
						data = append(data[:i:i], append([]byte("/Deep "+deep+" "), data[i:]...)...)
					}
					x.Label("deep nesting")
				}
			}
			if c.Fix {
				data = refit(data)
				x.Label("cross-reference table made anew")
			}
			dump("tpl.pdf", data)
			pdf := &pdft.PDFt{}
			if err := pdf.OpenFrom(bytes.NewReader(data)); err != nil {
				x.Label("refused")
				x.NT()
				// still usable
				useAnything(pdf, c.Ops, c.Prot)
				if err := pdf.SaveTo(io.Discard); err == nil {
					return fmt.Errorf("a document that could not be opened was saved")
				}
				ok := TplSpec{Tree: TplNode{Page: -1, Kids: []TplNode{{Page: 0}}}, Pages: []TplPage{{Contents: 1, Media: 1, Parts: []TplPart{{Snip: []int{1}}}}}, Medias: [][4]float64{{0, 0, 595, 842}}}
				if err := pdf.OpenFrom(bytes.NewReader(ok.Build().Data)); err != nil {
					return fmt.Errorf("after refusing a file the document object does not open a good one: %v", err)
				}
				if n := pdf.GetNumberOfPage(); n != 1 {
					return fmt.Errorf("after refusing a file a good one has %d pages", n)
				}
				return nil
			}
			x.Label("opened")
			x.NT()
			useAnything(pdf, c.Ops, c.Prot)
			var b bytes.Buffer
			if err := pdf.SaveTo(&b); err != nil {
				x.Label("save failed")
				return nil
			}
			// the output stays in proportion (but for the entries of the cross-reference table)
			if b.Len() > 64*(len(data)+5000)*(len(c.Ops)+1)+20*maxObjNum(data) {
				return fmt.Errorf("%d bytes of template became %d bytes", len(data), b.Len())
			}
			return nil
		})
}

func maxObjNum(data []byte) int {
	mx := 0
	for _, m := range objStart.FindAllSubmatch(data, -1) {
		// a damaged table may lead into the middle of a number
		for d := m[1]; len(d) > 0; d = d[1:] {
			if n, err := strconv.Atoi(string(d)); err == nil && n <= 8388607 && n > mx {
				mx = n
			}
		}
	}
	return mx
}

type badCase struct {
	Hist
	Bad  string  `json:"bad"` // font, img
	Seed int     `json:"seed"`
	Muts []Mut   `json:"muts,omitempty"`
	Raw  []byte  `json:"raw,omitempty"`
	Src  int     `json:"src"`
	Text string  `json:"text,omitempty"`
	Way  int     `json:"way"`
	At   int     `json:"at"`
	Pre  []HOp   `json:"pre,omitempty"` // calls before a document is open
	Go   *GoHist `json:"go,omitempty"`  // a document built from scratch instead
}

// fails inserts operations that must fail or may fail into a history
func initBadThings() {
	register("C18", 12000, 80000, "Non-trivial: at least one call of the history failed, or damaged font or image data was offered. Cases are histories into which calls are mixed that must fail (unknown fonts, pages and positions, texts with characters the font lacks, unsupported images, bad base64) or that offer damaged or random bytes as font or image.",
		func(t *rapid.T) badCase {
			if chance(t, 15, "go") {
				return drawBadGo(t)
			}
			c := badCase{Hist: drawHist(t, HistOpt{Pages: 3, Ops: 8, Fonts: 2, Imgs: 3, BadImg: true, Kinds: []string{"text", "text", "img", "img", "wrap", "setfont", "dup", "rm", "count", "measure", "save", "font"}})}
			c.Bad = oneof(t, []string{"font", "font", "img", "img", "calls", "open", "save"}, "bad")
			switch c.Bad {
			case "open", "save":
				c.Seed = uniform(t, 6000, "cut")
			case "font":
				c.Src = ir(t, 0, len(c.Fonts)-1, "src")
				if c.Fonts[c.Src].Real != "" || chance(t, 10, "rawf") {
					c.Raw = rapid.SliceOfN(rapid.Byte(), 0, 100).Draw(t, "raw")
				}
				c.Muts = drawMuts(t, []string{"flip", "set", "u16", "u16", "u16", "u32", "u32", "cut", "del", "copy"}, 5, 2500)
				c.Text = drawText(t, c.Fonts[c.Src].chars(), 6)
			case "img":
				c.Src = ir(t, 0, len(c.Imgs)-1, "src")
				if chance(t, 10, "rawi") {
					c.Raw = rapid.SliceOfN(rapid.Byte(), 0, 100).Draw(t, "raw")
					if chance(t, 50, "sig") {
						c.Raw = append([]byte("\x89PNG\r\n\x1a\n"), c.Raw...)
					}
				}
				c.Muts = drawMuts(t, []string{"flip", "set", "u16", "u32", "u32", "cut", "del", "copy"}, 4, 400)
			}
			c.Way = ir(t, 0, 3, "way")
			c.At = ir(t, 0, len(c.Ops), "at")
			if chance(t, 15, "early") {
				o := HistOpt{}
				for i, n := 0, ir(t, 1, 5, "npre"); i < n; i++ {
					k := oneof(t, []string{"font", "font", "setfont", "text", "text", "wrap", "img", "img", "count", "save", "dup", "rm", "keep", "border", "measure", "kern", "rise", "badopen"}, "prek")
					c.Pre = append(c.Pre, o.drawOp(t, &c.Hist, []rune("ABab "), k))
				}
			}
			return c
		}, runBad)
}

// drawBadGo is a history that builds a document from scratch, with one bad call.
func drawBadGo(t *rapid.T) badCase {
	g := drawGo(t, 12)
	g.Tpl = false
	c := badCase{Go: &g}
	c.Bad = oneof(t, []string{"font", "font", "img", "img", "missing"}, "bad")
	switch c.Bad {
	case "font":
		c.Src = ir(t, 0, len(g.Fonts)-1, "src")
		if g.Fonts[c.Src].Real != "" || chance(t, 10, "rawf") {
			c.Raw = rapid.SliceOfN(rapid.Byte(), 0, 100).Draw(t, "raw")
		}
		c.Muts = drawMuts(t, []string{"flip", "set", "u16", "u16", "u16", "u32", "u32", "cut", "del", "copy"}, 5, 2500)
		c.Text = drawText(t, g.Fonts[c.Src].chars(), 6)
	case "img":
		c.Src = ir(t, 0, len(g.Imgs)-1, "src")
		if chance(t, 10, "rawi") {
			c.Raw = rapid.SliceOfN(rapid.Byte(), 0, 100).Draw(t, "raw")
			if chance(t, 50, "sig") {
				c.Raw = append([]byte("\x89PNG\r\n\x1a\n"), c.Raw...)
			}
		}
		c.Muts = drawMuts(t, []string{"flip", "set", "u16", "u32", "u32", "cut", "del", "copy"}, 4, 400)
	}
	c.Way = ir(t, 0, 3, "way")
	c.At = ir(t, 0, len(g.Ops), "at")
	return c
}

func runBadGo(c badCase, x *Ctx) error {
	h := c.Go
	r := newGo(h, x)
	run := func(ops []HOp) bool {
		for _, op := range ops {
			if !r.do(op) {
				return false
			}
		}
		return true
	}
	at := min(c.At, len(h.Ops))
	if !run(h.Ops[:at]) || len(r.m.issues) > 0 {
		x.discard = true // for C23
		return nil
	}
	var err error
	path := filepath.Join(x.dir, "badgo")
	defer os.Remove(path)
	write := func(b []byte) {
		if e := os.WriteFile(path, b, 0o644); e != nil {
			panic(harnessBug(e.Error()))
		}
	}
	rect := &gopdf.Rect{W: 20, H: 30}
	if c.Way%2 == 1 {
		rect = nil
	}
	opt := gopdf.TtfOption{UseKerning: c.Way > 1}
	paged := len(r.m.pages) > 0
	switch c.Bad {
	case "missing":
		if c.Way < 2 || !paged {
			err = r.g.AddTTFFontWithOption("bad", path, opt)
		} else {
			err = r.g.Image(path, 10, 10, rect)
		}
		if err == nil {
			return fmt.Errorf("a file that does not exist was taken")
		}
	case "font":
		data := c.Raw
		if data == nil {
			data = mutate(h.Fonts[c.Src].Bytes(), c.Muts)
		}
		if c.Way == 1 {
			write(data)
			err = r.g.AddTTFFontWithOption("bad", path, opt)
		} else {
			err = r.g.AddTTFFontByReaderWithOption("bad", bytes.NewReader(data), opt)
		}
		if err != nil {
			if e := r.g.SetFont("bad", "", 12); e == nil {
				return fmt.Errorf("a font that could not be added (%v) can be set", err)
			}
		}
	case "img":
		if !paged {
			return nil
		}
		data := c.Raw
		if data == nil {
			data = mutate(h.Imgs[c.Src].Bytes(), c.Muts)
		}
		if c.Way > 1 {
			write(data)
			err = r.g.Image(path, 10, 10, rect)
		} else {
			var ih gopdf.ImageHolder
			if ih, err = gopdf.ImageHolderByBytes(data); err == nil {
				err = r.g.ImageByHolder(ih, 10, 10, rect)
			}
		}
	}
	x.NT()
	x.Label("built from scratch: " + c.Bad)
	if err == nil {
		// what damaged data draws is not specified; nothing may panic
		x.Label("built from scratch: accepted")
		if c.Bad == "font" {
			if e := r.g.SetFont("bad", "U", 12); e != nil {
				return fmt.Errorf("a font that was added cannot be set: %v", e)
			}
			r.g.MeasureTextWidth(c.Text)
			if paged {
				r.g.Text(c.Text)
				r.g.Cell(&gopdf.Rect{W: 50, H: 20}, c.Text)
			}
		}
		b, e := r.g.GetBytesPdfReturnErr()
		if e == nil {
			if _, e := ReadPDF(b); e != nil {
				return fmt.Errorf("with a damaged %s the document is broken: %v", c.Bad, e)
			}
		}
		return nil
	}
	if run(h.Ops[at:]) && len(r.m.issues) == 0 {
		r.do(HOp{K: "xy"})
		r.do(HOp{K: "get"})
	}
	bad := r.m.issues.pick("*")
	// the same history without the failing call
	q := newGo(h, x)
	for _, op := range h.Ops {
		if !q.do(op) {
			break
		}
	}
	if len(q.m.issues) == 0 {
		q.do(HOp{K: "xy"})
		q.do(HOp{K: "get"})
	}
	if q.m.issues.pick("*") != nil {
		x.discard = true // for C23
		return nil
	}
	if bad != nil {
		return fmt.Errorf("after a failed call on a document built from scratch: %v", bad)
	}
	if w, g := resCounts(q.last), resCounts(r.last); w != g {
		return fmt.Errorf("failing calls leave a trace: the document has %s instead of %s", g, w)
	}
	return nil
}

func runBad(c badCase, x *Ctx) error {
	if c.Go != nil {
		return runBadGo(c, x)
	}
	h := &c.Hist
	tpl := h.Tpl.Build()
	dump("tpl.pdf", tpl.Data)
	r := &runner{m: newModel(h, tpl), pdf: &pdft.PDFt{}, x: x}
	if len(c.Pre) > 0 {
		if err := tooEarly(&c, r.pdf, x); err != nil {
			return fmt.Errorf("before a document is open: %v", err)
		}
		x.Label("calls before opening")
	}
	if err := openTpl(r.pdf, tpl.Data, 0, x.dir); err != nil {
		if len(c.Pre) > 0 {
			var p pdft.PDFt
			if openTpl(&p, tpl.Data, 0, x.dir) == nil {
				return fmt.Errorf("after calls on an unopened document a template cannot be opened: %v", err)
			}
		}
		x.discard = true
		return nil
	}
	at := min(c.At, len(h.Ops))
	accepted := false
	var failedOps int
	r.run(h.Ops[:at])
	if !r.stopped {
		switch c.Bad {
		case "open":
			var err error
			switch c.Way {
			case 0:
				err = r.pdf.Open(filepath.Join(x.dir, "missing.pdf"))
			case 1:
				err = r.pdf.Open(x.dir)
			case 2:
				err = r.pdf.OpenFrom(strings.NewReader("%PDF-1.4\n%%EOF"[:c.Seed%15]))
			case 3:
				err = r.pdf.OpenFrom(io.MultiReader(bytes.NewReader(tpl.Data[:c.Seed%len(tpl.Data)]), errReader{}))
			}
			if err == nil {
				return fmt.Errorf("something that cannot be opened was opened")
			}
			failedOps++
			x.Label("template refused")
		case "save":
			var err error
			if c.Way < 2 {
				err = r.pdf.Save(filepath.Join(x.dir, "missing", "x.pdf"))
			} else {
				err = r.pdf.SaveTo(&fullWriter{c.Seed % 300})
			}
			if err == nil {
				return fmt.Errorf("a save that cannot succeed succeeded")
			}
			failedOps++
			x.Label("save failed")
		case "font":
			data := c.Raw
			if data == nil {
				data = mutate(h.Fonts[c.Src].Bytes(), c.Muts)
			}
			name := "bad"
			err := addBytesFont(r.pdf, name, data, c.Way, x.dir)
			if err != nil {
				failedOps++
				x.Label("font refused")
				if e := r.pdf.SetFont(name, "", 12); e == nil {
					return fmt.Errorf("a font that could not be added (%v) can be set", err)
				}
				// the name is free
				if c.Way == 1 {
					if e := addBytesFont(r.pdf, name, smallFont.Bytes(), 0, x.dir); e != nil {
						return fmt.Errorf("after refusing a font its name cannot be used: %v", e)
					}
					x.Label("name reused")
				}
			} else {
				accepted = true
				x.Label("damaged font accepted")
				cur := r.m.cur
				if e := r.pdf.SetFont(name, "U", 12); e != nil {
					return fmt.Errorf("a font that was added cannot be set: %v", e)
				}
				r.pdf.MeasureTextWidth(c.Text)
				r.pdf.Insert(c.Text, 1, 10, 10, 100, 20, pdft.Center, nil)
				r.pdf.InsertWrapText(c.Text, 1, 10, 10, 10, 20, 0, nil, textbreak.BasicTextbreak{})
				var b bytes.Buffer
				if e := r.pdf.SaveTo(&b); e == nil {
					if _, e := ReadPDF(b.Bytes()); e != nil {
						return fmt.Errorf("with a damaged font the saved file is broken: %v", e)
					}
				}
				_ = cur
			}
		case "img":
			data := c.Raw
			if data == nil {
				data = mutate(h.Imgs[c.Src].Bytes(), c.Muts)
			}
			var err error
			switch c.Way {
			case 0:
				err = r.pdf.InsertImg(data, 1, 10, 10, 20, 20)
			case 1:
				err = r.pdf.InsertImgWithCache(data, 1, 10, 10, 20, 20)
			case 2:
				err = r.pdf.InsertImgBase64(base64.StdEncoding.EncodeToString(data), 1, 10, 10, 20, 20)
			case 3: // not base64
				s := base64.StdEncoding.EncodeToString(data)
				s = s[:len(s)/2] + "*!" + s[len(s)/2:]
				err = r.pdf.InsertImgBase64(s, 1, 10, 10, 20, 20)
				if err == nil {
					return fmt.Errorf("an image that is not base64 was accepted")
				}
			}
			if err != nil {
				failedOps++
				x.Label("image refused")
			} else {
				accepted = true
				x.Label("damaged image accepted")
				var b bytes.Buffer
				if e := r.pdf.SaveTo(&b); e == nil {
					if _, e := ReadPDF(b.Bytes()); e != nil {
						return fmt.Errorf("with a damaged image the saved file is broken: %v", e)
					}
				}
			}
		}
	}
	if accepted {
		// what damaged data draws is not specified; nothing may panic
		x.NT()
		return nil
	}
	if !r.stopped {
		r.run(h.Ops[at:])
	}
	if !r.stopped {
		r.do(HOp{K: "count"})
		r.do(HOp{K: "save"})
	}
	if r.unsure {
		x.discard = true
		return nil
	}
	// expected failures are part of the model: anything that differs after one is a trace of it
	failed := r.failed + failedOps + len(c.Pre)
	if err := r.m.issues.pick("*"); err != nil {
		if failed == 0 {
			x.discard = true
			return nil
		}
		// the same history without the failing calls
		e := r.withoutFailing(h)
		if e != nil {
			x.discard = true
			return nil
		}
		return fmt.Errorf("after a failed call: %v", err)
	}
	if failed > 0 {
		x.NT()
		x.Label("failed calls")
		// the document has no more fonts and images than without the failing calls
		if err := r.compareWithoutFailing(h, c.Bad == "font" && c.Way == 1 && failedOps > 0); err != nil {
			return err
		}
	}
	r.labels()
	return nil
}

type errReader struct{}

func (errReader) Read([]byte) (int, error) { return 0, errors.New("broken reader") }

// fullWriter takes n bytes and fails then.
type fullWriter struct{ n int }

func (w *fullWriter) Write(b []byte) (int, error) {
	if len(b) > w.n {
		n := w.n
		w.n = 0
		return n, errors.New("full")
	}
	w.n -= len(b)
	return len(b), nil
}

// tooEarly makes calls on a document that has not been opened.
func tooEarly(c *badCase, pdf *pdft.PDFt, x *Ctx) error {
	h := &c.Hist
	have := map[string]bool{}
	set := false
	need := func(what string, err error, ok bool) error {
		if err == nil && !ok {
			return fmt.Errorf("%s succeeded", what)
		}
		return nil
	}
	for _, op := range c.Pre {
		var err error
		name := ""
		if op.F < len(h.Names) {
			name = h.Names[op.F]
		}
		switch op.K {
		case "font":
			if pdfErr := addFont(pdf, name, &h.Fonts[op.F], op.V, x.dir); pdfErr == nil {
				have[name] = true
			}
		case "setfont":
			e := pdf.SetFont(name, op.St, op.Sz)
			set = set || e == nil
			err = need("setting an unknown font", e, have[name])
		case "text":
			err = need("inserting a text without a font", pdf.Insert(op.S, 1, op.X, op.Y, op.W, op.H, op.A, nil), set)
		case "wrap":
			err = need("inserting a wrapped text without a font", pdf.InsertWrapText("x y", 1, op.X, op.Y, op.W, op.H, op.A, nil, textbreak.BasicTextbreak{}), set)
		case "measure":
			_, e := pdf.MeasureTextWidth(op.S)
			err = need("measuring without a font", e, set)
		case "img":
			data := h.Imgs[op.F].Bytes()
			switch op.V % 3 {
			case 0:
				pdf.InsertImg(data, 1, op.X, op.Y, op.W, op.H)
			case 1:
				pdf.InsertImgWithCache(data, 1, op.X, op.Y, op.W, op.H)
			default:
				pdf.InsertImgBase64(base64.StdEncoding.EncodeToString(data), 1, op.X, op.Y, op.W, op.H)
			}
		case "count":
			if n := pdf.GetNumberOfPage(); n != 0 {
				err = fmt.Errorf("it has %d pages", n)
			}
		case "save":
			var b bytes.Buffer
			err = need("saving", pdf.SaveTo(&b), false)
			if err == nil && b.Len() > 0 {
				err = fmt.Errorf("saving failed but wrote %d bytes", b.Len())
			}
		case "dup":
			err = need("duplicating a page", pdf.DuplicatePageAfter(1, 0), false)
		case "rm":
			err = need("removing a page", pdf.RemovePage(1), false)
		case "keep":
			err = need("removing other pages", pdf.RemoveOtherPages(1), false)
		case "border":
			pdf.ShowCellBorder(op.V == 1)
		case "kern":
			err = need("overriding the kerning of an unknown font", pdf.KernOverride(name, func(l, r rune, a, b uint, v int16) int16 { return v + 1 }), have[name])
		case "rise":
			err = need("overriding the rise of an unknown font", pdf.TextriseOverride(name, func(l, r rune, sz int, s string, i int) float32 { return 2 }), have[name])
		case "badopen":
			err = need("opening something else", pdf.OpenFrom(strings.NewReader("not a pdf")), false)
		}
		if err != nil {
			return err
		}
	}
	return nil
}

// withoutFailing runs the operations that succeeded alone, checked by the model.
func (r *runner) withoutFailing(h *Hist) error {
	h2 := *h
	h2.Ops = r.okOps
	q := &runner{m: newModel(&h2, h.Tpl.Build()), pdf: &pdft.PDFt{}, x: r.x}
	if err := openTpl(q.pdf, q.m.tpl.Data, 0, r.x.dir); err != nil {
		return err
	}
	q.run(h2.Ops)
	if !q.stopped {
		q.do(HOp{K: "count"})
		q.do(HOp{K: "save"})
	}
	return q.m.issues.pick("*")
}

func (r *runner) compareWithoutFailing(h *Hist, extraFont bool) error {
	h2 := *h
	o, bad := runOps(&h2, r.okOps, r.x)
	if bad {
		return nil
	}
	want, err := o.r.m.drawn(o.data, true, false)
	if err != nil {
		return nil
	}
	got, err := r.m.drawn(r.last, true, false)
	if err != nil {
		return err
	}
	if d := diffMeaning(want, got); d != "" {
		return fmt.Errorf("failing calls leave a trace: %s", d)
	}
	cw, cg := resCounts(o.data), resCounts(r.last)
	if extraFont {
		cw, cg = strings.SplitN(cw, " fonts", 2)[1], strings.SplitN(cg, " fonts", 2)[1]
	}
	if cw != cg {
		return fmt.Errorf("failing calls leave a trace: the document has %s instead of %s", cg, cw)
	}
	return nil
}

func resCounts(data []byte) string {
	d, err := ReadPDF(data)
	if err != nil {
		return err.Error()
	}
	f, im, st := 0, 0, 0
	for _, o := range d.Objs {
		switch v := o.(type) {
		case Dict:
			if d.Name(v["Type"]) == "Font" && d.Name(v["Subtype"]) == "Type0" {
				f++
			}
		case *Stream:
			if d.Name(v.D["Subtype"]) == "Image" {
				im++
			}
			st++
		}
	}
	_ = st
	return fmt.Sprintf("%d fonts, %d images", f, im)
}

func addBytesFont(pdf *pdft.PDFt, name string, data []byte, way int, dir string) error {
	if way == 2 {
		p := filepath.Join(dir, "bad.ttf")
		if err := os.WriteFile(p, data, 0o644); err != nil {
			panic(harnessBug(err.Error()))
		}
		defer os.Remove(p)
		return pdf.AddFont(name, p)
	}
	return pdf.AddFontFrom(name, bytes.NewReader(data))
}

func initBreaker() {
	register("C21", 100000, 400000, "Non-trivial: the text contains a space and another character. Texts are random UTF-8, rich in spaces, other white space, combining marks and characters outside the BMP.",
		func(t *rapid.T) string {
			n := ir(t, 0, 30, "n")
			if chance(t, 1, "long") {
				n = ir(t, 31, 3000, "n2")
			}
			rep := []int{}
			if chance(t, 1, "repeat") { // runs of spaces and long words
				rep = append(rep, ir(t, 2, 6000, "rep"), ir(t, 0, 30, "repat"))
			}
			var rs []rune
			for i := 0; i < n; i++ {
				if len(rep) > 0 && i == rep[1] && i > 0 {
					for k := 0; k < rep[0]; k++ {
						rs = append(rs, rs[len(rs)-1])
					}
				}
				switch uniform(t, 5, "k") {
				case 0, 1:
					rs = append(rs, ' ')
				case 2:
					rs = append(rs, oneof(t, []rune{'a', 'b', '\n', '\t', '\r', 0xA0, 0x3000, 0x2003, 0x200B, 0xE01, 0xE33, 0x301, 0x1F600, 0xFFFD, 0, 0x85, 0x2028, 0x10FFFF, '-', '.', 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF}, "r"))
				case 3:
					rs = append(rs, rapid.Rune().Draw(t, "any"))
				default:
					rs = append(rs, rune('a'+uniform(t, 26, "l")))
				}
			}
			return string(rs)
		}, func(s string, x *Ctx) error {
			if !utf8.ValidString(s) {
				panic(harnessBug("invalid text"))
			}
			toks, err := textbreak.BasicTextbreak{}.BreakTextToToken(s)
			if err != nil {
				return fmt.Errorf("breaking %q failed: %v", s, err)
			}
			if j := strings.Join(toks, ""); j != s {
				return fmt.Errorf("the tokens of %q join to %q", s, j)
			}
			for _, k := range toks {
				if k != " " && strings.Contains(k, " ") {
					return fmt.Errorf("the tokens %q of %q contain a space that is not a token of its own", toks, s)
				}
			}
			// a word is one token
			for i := 0; i+1 < len(toks); i++ {
				if toks[i] != " " && toks[i+1] != " " && toks[i] != "" && toks[i+1] != "" {
					return fmt.Errorf("the tokens %q of %q split a word", toks, s)
				}
			}
			again, err := textbreak.BasicTextbreak{}.BreakTextToToken(s)
			if err != nil || strings.Join(again, "|") != strings.Join(toks, "|") {
				return fmt.Errorf("breaking %q twice gives different tokens", s)
			}
			if strings.Contains(s, " ") && strings.Trim(s, " ") != "" {
				x.NT()
			}
			if strings.Contains(s, "  ") {
				x.Label("spaces in a row")
			}
			return nil
		})
}

// faulty readers and writers

var errFault = errors.New("injected fault")

type chunkReader struct {
	data   []byte
	chunks []int
	i      int
	failAt int // -1 never
	at     int
	withE  bool // return the error together with the last bytes
	zero   bool // empty reads now and then
	err    error
}

func (r *chunkReader) Read(p []byte) (int, error) {
	r.i++
	if r.zero && r.i%3 == 0 {
		return 0, nil
	}
	if r.failAt >= 0 && r.at >= r.failAt {
		return 0, r.err
	}
	if r.at >= len(r.data) {
		return 0, io.EOF
	}
	n := len(p)
	if len(r.chunks) > 0 {
		n = min(n, r.chunks[r.i%len(r.chunks)])
	}
	n = min(n, len(r.data)-r.at)
	if r.failAt >= 0 {
		n = min(n, r.failAt-r.at)
	}
	copy(p, r.data[r.at:r.at+n])
	r.at += n
	if r.withE {
		if r.failAt >= 0 && r.at >= r.failAt {
			return n, r.err
		}
		if r.at >= len(r.data) {
			return n, io.EOF
		}
	}
	return n, nil
}

type faultyWriter struct {
	limit int
	mode  int // 0 error, 1 error with nothing written of the last chunk, 2 short write without error
	n     int // accepted
	asked int
	hit   bool
	buf   bytes.Buffer
}

func (w *faultyWriter) Write(p []byte) (int, error) {
	if w.asked += len(p); w.n+len(p) <= w.limit && !w.hit {
		w.n += len(p)
		w.buf.Write(p)
		return len(p), nil
	}
	w.hit = true
	k := max(0, w.limit-w.n)
	switch w.mode {
	case 0:
		w.n += k
		return k, errFault
	case 1:
		return 0, errFault
	}
	w.n += k
	if len(p) == 0 {
		return 0, nil
	}
	return k, nil
}

type faultCase struct {
	Hist
	Chunks []int `json:"chunks"`
	WithE  bool  `json:"withe"`
	Zero   bool  `json:"zero"`
	Mode   int   `json:"mode"`
	EOF    bool  `json:"eof"` // the injected error is io.ErrUnexpectedEOF
}

func initFaults() {
	p := register("C24", 130, 1600, "Non-trivial: every reader failure offset and every writer failure offset of the case was tried (all offsets up to 3000 bytes, evenly spaced ones and the ends beyond). Evaluations count cases; features count single injected faults.",
		func(t *rapid.T) faultCase {
			c := faultCase{Hist: drawHist(t, HistOpt{Pages: 2, Ops: 4, Fonts: 1, Imgs: 1, Kinds: []string{"text", "text", "img", "dup", "prot"}})}
			if c.Hist.Tpl.Pad > 6000 {
				c.Hist.Tpl.Pad = 5000
			}
			c.Hist.Tpl.Base = 0
			c.Chunks = rapid.SliceOfN(rapid.IntRange(1, 700), 1, 5).Draw(t, "chunks")
			if chance(t, 30, "one") {
				c.Chunks = []int{1}
			}
			c.WithE, c.Zero, c.Mode = chance(t, 50, "withe"), chance(t, 30, "zero"), ir(t, 0, 2, "mode")
			c.EOF = chance(t, 30, "eof")
			return c
		}, runFaults)
	p.level = "fault_enumeration"
}

func offsetsOf(n int) []int {
	var l []int
	step := 1
	if n > 3000 {
		step = n/1500 + 1
	}
	for k := 0; k < n; k += step {
		l = append(l, k)
	}
	if step > 1 {
		for k := max(0, n-40); k < n; k++ {
			l = append(l, k)
		}
	}
	return l
}

func runFaults(c faultCase, x *Ctx) error {
	h := &c.Hist
	base, bad := runOps(h, h.Ops, x)
	if bad {
		x.discard = true
		return nil
	}
	prot := base.r.m.prot
	want, err := meaningDec(base.data, prot, false)
	if err != nil {
		x.discard = true
		return nil
	}
	ferr := errFault
	if c.EOF {
		ferr = io.ErrUnexpectedEOF
	}
	tpl := base.r.m.tpl
	// chunked delivery
	r := &runner{m: newModel(h, tpl), pdf: &pdft.PDFt{}, x: x, noCheck: true}
	if err := r.pdf.OpenFrom(&chunkReader{data: tpl.Data, chunks: c.Chunks, failAt: -1, withE: c.WithE, zero: c.Zero}); err != nil {
		return fmt.Errorf("opening from a reader that delivers in pieces failed: %v", err)
	}
	for _, op := range h.Ops {
		if op.K == "font" {
			if _, dup := r.m.fonts[h.Names[op.F]]; !dup {
				err := r.pdf.AddFontFrom(h.Names[op.F], &chunkReader{data: h.Fonts[op.F].Bytes(), chunks: c.Chunks, failAt: -1, withE: c.WithE, zero: c.Zero})
				if err != nil {
					return fmt.Errorf("adding a font from a reader that delivers in pieces failed: %v", err)
				}
				r.m.fonts[h.Names[op.F]] = &mFont{name: h.Names[op.F], ttf: h.Fonts[op.F].TTF(), seen: map[rune]bool{}}
				continue
			}
		}
		r.do(op)
		if r.stopped {
			return fmt.Errorf("with readers that deliver in pieces: %v", r.m.issues.pick("*"))
		}
	}
	same := func(what string) error {
		b, err := savePdf(r.pdf, 0, x.dir)
		if err != nil {
			return fmt.Errorf("%s: saving failed: %v", what, err)
		}
		got, err := meaningDec(b, prot, false)
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		if d := diffMeaning(want, got); d != "" {
			return fmt.Errorf("%s the saved file differs: %s", what, d)
		}
		return nil
	}
	if err := same("with readers that deliver in pieces"); err != nil {
		return err
	}
	// failing readers
	for _, k := range offsetsOf(len(tpl.Data)) {
		var p pdft.PDFt
		if p.OpenFrom(&chunkReader{data: tpl.Data, chunks: c.Chunks, failAt: k, withE: c.WithE, err: ferr}) == nil {
			return fmt.Errorf("opening from a reader that fails after %d of %d bytes succeeded", k, len(tpl.Data))
		}
		x.Label("template reader fault")
	}
	if len(h.Fonts) > 0 {
		fb := h.Fonts[0].Bytes()
		for _, k := range offsetsOf(len(fb)) {
			if r.pdf.AddFontFrom("faulty", &chunkReader{data: fb, chunks: c.Chunks, failAt: k, withE: c.WithE, err: ferr}) == nil {
				return fmt.Errorf("adding a font from a reader that fails after %d of %d bytes succeeded", k, len(fb))
			}
		}
		x.Label("font reader fault")
		if r.pdf.SetFont("faulty", "", 5) == nil {
			return fmt.Errorf("a font that could not be read can be set")
		}
		// a failing open leaves the open document alone
		if r.pdf.OpenFrom(&chunkReader{data: tpl.Data, chunks: c.Chunks, failAt: len(tpl.Data) / 2, err: ferr}) == nil {
			return fmt.Errorf("opening from a failing reader succeeded")
		}
		if err := same("after failing readers"); err != nil {
			return err
		}
	}
	// failing writers
	for i, k := range offsetsOf(len(base.data)) {
		w := &faultyWriter{limit: k, mode: c.Mode}
		err := r.pdf.SaveTo(w)
		if w.hit && err == nil {
			return fmt.Errorf("a writer that fails after %d bytes (mode %d) is not noticed", k, c.Mode)
		}
		if !w.hit && err != nil {
			return fmt.Errorf("saving to a good writer failed: %v", err)
		}
		if i%97 == 5 {
			if err := same("after a failing writer"); err != nil {
				return err
			}
		}
	}
	x.Label("writer fault")
	if err := same("after failing writers"); err != nil {
		return err
	}
	// files
	if r.pdf.Save(filepath.Join(x.dir, "no", "such", "dir.pdf")) == nil {
		return fmt.Errorf("saving into a directory that does not exist succeeded")
	}
	if r.pdf.Save(x.dir) == nil {
		return fmt.Errorf("saving onto a directory succeeded")
	}
	if _, err := os.Stat("/dev/full"); err == nil {
		if r.pdf.Save("/dev/full") == nil {
			return fmt.Errorf("saving to a full device succeeded")
		}
		x.Label("full device")
	}
	if r.pdf.Open(filepath.Join(x.dir, "no-such.pdf")) == nil || r.pdf.Open(x.dir) == nil {
		return fmt.Errorf("opening a file that does not exist or is a directory succeeded")
	}
	if r.pdf.AddFont("nofile", filepath.Join(x.dir, "no-such.ttf")) == nil || r.pdf.AddFont("nofile", x.dir) == nil {
		return fmt.Errorf("adding a font file that does not exist or is a directory succeeded")
	}
	if err := same("after failing files"); err != nil {
		return err
	}
	if err := goFaults(&c, ferr, x); err != nil {
		return fmt.Errorf("document from scratch: %v", err)
	}
	// over an existing longer file
	p := filepath.Join(x.dir, "over.pdf")
	os.WriteFile(p, bytes.Repeat([]byte("old contents "), len(base.data)/10+10), 0o644)
	if err := r.pdf.Save(p); err != nil {
		return fmt.Errorf("saving over an existing file failed: %v", err)
	}
	b, _ := os.ReadFile(p)
	os.Remove(p)
	got, err := meaningDec(b, prot, false)
	if err != nil {
		return fmt.Errorf("saved over an existing file: %v", err)
	}
	if d := diffMeaning(want, got); d != "" {
		return fmt.Errorf("saved over an existing file, the file differs: %s", d)
	}
	if err := closedFiles(&c, tpl.Data, x); err != nil {
		return err
	}
	x.NT()
	return nil
}

// closedFiles checks that calls given a path leave no file open, whether they succeed or not.
func closedFiles(c *faultCase, tpl []byte, x *Ctx) error {
	dir := filepath.Join(x.dir, "files")
	if os.MkdirAll(dir, 0o755) != nil {
		panic(harnessBug("cannot make " + dir))
	}
	defer os.RemoveAll(dir)
	file := func(name string, b []byte) string {
		p := filepath.Join(dir, name)
		if os.WriteFile(p, b, 0o644) != nil {
			panic(harnessBug("cannot write " + p))
		}
		return p
	}
	defer debug.SetGCPercent(debug.SetGCPercent(-1)) // a collection closes lost files
	open := func() string {
		es, _ := os.ReadDir("/proc/self/fd")
		for _, e := range es {
			if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, dir) {
				return filepath.Base(l)
			}
		}
		return ""
	}
	var pdf pdft.PDFt
	if err := pdf.Open(file("t.pdf", tpl)); err != nil {
		return fmt.Errorf("opening a file failed: %v", err)
	}
	if pdf.Open(file("half.pdf", tpl[:len(tpl)/2])) == nil {
		x.Label("half a template accepted")
	}
	for k := range c.Hist.Fonts {
		fb := c.Hist.Fonts[k].Bytes()
		if err := pdf.AddFont(fmt.Sprint("f", k), file(fmt.Sprint(k, ".ttf"), fb)); err != nil {
			return fmt.Errorf("adding a font file failed: %v", err)
		}
		if pdf.AddFont(fmt.Sprint("h", k), file(fmt.Sprint(k, "half.ttf"), fb[:len(fb)/2])) == nil {
			x.Label("half a font accepted")
		}
		var g gopdf.GoPdf
		g.Start(gopdf.Config{Unit: "pt", PageSize: gopdf.Rect{W: 300, H: 400}})
		g.AddPage()
		if err := g.AddTTFFont("f", filepath.Join(dir, fmt.Sprint(k, ".ttf"))); err != nil {
			return fmt.Errorf("adding a font file to a document from scratch failed: %v", err)
		}
	}
	for k := range c.Hist.Imgs {
		if c.Hist.Imgs[k].Refused() {
			continue
		}
		ib := c.Hist.Imgs[k].Bytes()
		var g gopdf.GoPdf
		g.Start(gopdf.Config{Unit: "pt", PageSize: gopdf.Rect{W: 300, H: 400}})
		g.AddPage()
		if err := g.Image(file(fmt.Sprint(k, ".img"), ib), 1, 2, &gopdf.Rect{W: 3, H: 4}); err != nil {
			return fmt.Errorf("drawing an image file failed: %v", err)
		}
		g.Image(file(fmt.Sprint(k, "half.img"), ib[:len(ib)/2]), 1, 2, &gopdf.Rect{W: 3, H: 4})
		g.Image(dir, 1, 2, &gopdf.Rect{W: 3, H: 4})
		g.WritePdf(filepath.Join(dir, "g.pdf"))
		var io gopdf.ImageObj
		if err := io.SetImagePath(filepath.Join(dir, fmt.Sprint(k, ".img"))); err != nil {
			return fmt.Errorf("reading an image file failed: %v", err)
		}
	}
	if err := pdf.Save(filepath.Join(dir, "p.pdf")); err != nil {
		return fmt.Errorf("saving to a file failed: %v", err)
	}
	m := []mapEnt{{C: 65, U: 65, N: "A"}}
	file("cp1252.map", []byte(mapFile(m, "\n")))
	file("good.map", []byte(mapFile(m, "\n")))
	file("bad.map", []byte(mapFile(m, "\n")+"!4G U+0041 A\n"))
	for k := range c.Hist.Fonts {
		for _, enc := range []string{"good", "bad", "missing"} {
			core.NewFontMaker().MakeFont(filepath.Join(dir, fmt.Sprint(k, ".ttf")), dir, enc, dir)
		}
	}
	if l := open(); l != "" {
		return fmt.Errorf("a file (%s) is still open after the calls given it have returned", l)
	}
	x.Label("files")
	return nil
}

// goFaults injects faults into a document made from scratch.
func goFaults(c *faultCase, ferr error, x *Ctx) error {
	h := &c.Hist
	make := func() *gopdf.GoPdf {
		var g gopdf.GoPdf
		g.Start(gopdf.Config{Unit: "pt", PageSize: gopdf.Rect{W: 300, H: 400}})
		g.AddPage()
		g.Line(1, 2, 3, 4)
		return &g
	}
	whole, err := make().GetBytesPdfReturnErr()
	if err != nil {
		return fmt.Errorf("making one failed: %v", err)
	}
	g := make()
	if len(h.Fonts) > 0 {
		fb := h.Fonts[0].Bytes()
		for _, k := range offsetsOf(len(fb)) {
			if g.AddTTFFontByReader("f", &chunkReader{data: fb, chunks: c.Chunks, failAt: k, withE: c.WithE, err: ferr}) == nil {
				return fmt.Errorf("adding a font from a reader that fails after %d of %d bytes succeeded", k, len(fb))
			}
		}
		if g.SetFont("f", "", 5) == nil {
			return fmt.Errorf("a font that could not be read can be set")
		}
		if g.AddTTFFont("nofile", filepath.Join(x.dir, "no-such.ttf")) == nil || g.AddTTFFont("nofile", x.dir) == nil {
			return fmt.Errorf("adding a font file that does not exist or is a directory succeeded")
		}
		x.Label("from scratch: font reader fault")
	}
	if len(h.Imgs) > 0 {
		ib := h.Imgs[0].Bytes()
		for _, k := range offsetsOf(len(ib)) {
			if _, err := gopdf.ImageHolderByReader(&chunkReader{data: ib, chunks: c.Chunks, failAt: k, withE: c.WithE, err: ferr}); err == nil {
				return fmt.Errorf("taking an image from a reader that fails after %d of %d bytes succeeded", k, len(ib))
			}
			var io gopdf.ImageObj
			if io.SetImage(&chunkReader{data: ib, chunks: c.Chunks, failAt: k, withE: c.WithE, err: ferr}) == nil {
				return fmt.Errorf("setting an image from a reader that fails after %d of %d bytes succeeded", k, len(ib))
			}
		}
		if _, err := gopdf.ImageHolderByPath(filepath.Join(x.dir, "no-such.png")); err == nil {
			return fmt.Errorf("taking an image file that does not exist succeeded")
		}
		if g.Image(filepath.Join(x.dir, "no-such.png"), 1, 2, &gopdf.Rect{W: 3, H: 4}) == nil {
			return fmt.Errorf("drawing an image file that does not exist succeeded")
		}
		x.Label("from scratch: image reader fault")
	}
	got, err := g.GetBytesPdfReturnErr()
	if err != nil {
		return fmt.Errorf("after failed calls it cannot be made: %v", err)
	}
	if !bytes.Equal(whole, got) {
		a, err1 := meaningOf(whole)
		b, err2 := meaningOf(got)
		if err1 != nil || err2 != nil {
			return fmt.Errorf("after failed calls the file cannot be read: %v %v", err1, err2)
		}
		if d := diffMeaning(a, b); d != "" {
			return fmt.Errorf("after failed calls the file differs: %s", d)
		}
	}
	return nil
}

// metrics

type metricCase struct {
	Font FontSpec `json:"font"`
	Text string   `json:"text"`
	Way  int      `json:"way"`
}

func initMetrics() {
	register("C25", 40000, 400000, "Non-trivial: the font was accepted, so that all its metrics, widths, characters and kerning pairs were compared. Fonts are synthetic (any units per em, metrics, glyph counts, character map shapes, kerning subtables, table orders) or the four real ones; a text is drawn to get the descriptor into a saved file.",
		func(t *rapid.T) metricCase {
			c := metricCase{Font: drawFont(t, 0, 3)}
			c.Text = drawText(t, c.Font.chars(), 5)
			c.Way = ir(t, 0, 1, "way")
			return c
		}, runMetrics)
}

func runMetrics(c metricCase, x *Ctx) error {
	data := c.Font.Bytes()
	t := c.Font.TTF()
	var p core.TTFParser
	p.SetUseKerning(true)
	var err error
	if c.Way == 1 {
		f := filepath.Join(x.dir, "m.ttf")
		os.WriteFile(f, data, 0o644)
		defer os.Remove(f)
		err = p.Parse(f)
	} else {
		err = p.ParseByReader(readerOf(data))
	}
	if err != nil {
		return fmt.Errorf("a well-formed font is refused: %v", err)
	}
	asc, desc := t.WAsc, t.WDesc
	if t.TAsc == 0 {
		asc = t.Asc
	}
	if t.TDesc == 0 {
		desc = t.Desc
	} else if t.Desc < 0 {
		desc = -desc
	}
	capH := t.Asc
	if t.OS2v >= 2 {
		capH = t.Cap
	}
	xh := int(0.66 * float64(t.Asc))
	if t.OS2v >= 2 && t.XH != 0 {
		xh = t.XH
	}
	for _, k := range []struct {
		n         string
		got, want int
	}{
		{"units per em", int(p.UnitsPerEm()), t.UPM},
		{"xMin", p.XMin(), t.BBox[0]}, {"yMin", p.YMin(), t.BBox[1]}, {"xMax", p.XMax(), t.BBox[2]}, {"yMax", p.YMax(), t.BBox[3]},
		{"ascender", p.Ascender(), asc}, {"descender", p.Descender(), desc},
		{"typographic ascender", p.TypoAscender(), t.TAsc}, {"typographic descender", p.TypoDescender(), t.TDesc},
		{"underline position", p.UnderlinePosition(), t.UPos}, {"underline thickness", p.UnderlineThickness(), t.UTh},
		{"italic angle", p.ItalicAngle(), t.Italic}, {"glyph count", int(p.NumGlyphs()), t.NG}, {"number of metrics", int(p.NumberOfHMetrics()), t.NHM},
		{"cap height", p.CapHeight(), capH}, {"x height", p.XHeight(), xh},
	} {
		if k.got != k.want {
			return fmt.Errorf("%s is reported as %d, the font has %d", k.n, k.got, k.want)
		}
	}
	if f := &c.Font; f.Real == "" {
		if want := f.FsType != 2 && f.FsType&0x200 == 0; p.Embeddable != want {
			return fmt.Errorf("embedding is reported as allowed: %v, the font's licence bits are %#x", p.Embeddable, f.FsType)
		}
		if want := f.FsSel&32 != 0; p.Bold != want {
			return fmt.Errorf("the font is reported as bold: %v, its selection bits are %#x", p.Bold, f.FsSel)
		}
	}
	w := p.Widths()
	if len(w) < t.NG {
		return fmt.Errorf("%d widths are reported for %d glyphs", len(w), t.NG)
	}
	for g := 0; g < t.NG; g++ {
		if int(w[g]) != t.RawWidth(g) {
			return fmt.Errorf("the width of glyph %d is reported as %d, the font has %d", g, w[g], t.RawWidth(g))
		}
	}
	// character map
	check := func(r rune) error {
		if r > 0xFFFF {
			return nil
		}
		want, _ := t.Gid(r)
		got, ok := p.Chars()[int(r)]
		if !ok {
			got = 0
		}
		if int(got) != want && t.fmt4(int(r)) < t.NG {
			return fmt.Errorf("character %q is reported as glyph %d, the font has %d", r, got, want)
		}
		return nil
	}
	for _, r := range append(append([]rune{}, runePool...), c.Font.chars()...) {
		for d := rune(-1); d <= 1; d++ {
			if r+d > 0 {
				if err := check(r + d); err != nil {
					return err
				}
			}
		}
	}
	// kerning
	got := map[[2]int]int{}
	if p.Kern() != nil {
		for l, m := range p.Kern().Kerning {
			for r, v := range m {
				if v != 0 {
					got[[2]int{int(l), int(r)}] = int(v)
				}
			}
		}
	}
	if !t.KernOdd {
		for k, v := range t.Kern {
			if got[k] != v {
				return fmt.Errorf("kerning of %v is reported as %d, the font has %d", k, got[k], v)
			}
		}
		for k, v := range got {
			if t.Kern[k] != v {
				return fmt.Errorf("kerning of %v is reported as %d, the font has %d", k, v, t.Kern[k])
			}
		}
	}
	if len(t.Kern) > 0 {
		x.Label("kerning")
	}
	// saved descriptor
	h := Hist{Tpl: plainTpl(1), Fonts: []FontSpec{c.Font}, Names: []string{"m"}, Ops: []HOp{{K: "font"}, {K: "setfont", Sz: 10}, {K: "text", S: c.Text, X: 10, Y: 10, W: 10, H: 10}}}
	r := runHist(&h, x)
	if err := r.m.issues.pick("descriptor", "ret:font"); err != nil {
		return err
	}
	if r.m.texts > 0 && c.Text != "" {
		x.Label("descriptor")
	}
	x.NT()
	if c.Font.Real != "" {
		x.Label("real font")
	}
	return nil
}

func plainTpl(n int) TplSpec {
	s := TplSpec{Tree: TplNode{Page: -1}, Medias: [][4]float64{{0, 0, 595, 842}}}
	for i := 0; i < n; i++ {
		s.Tree.Kids = append(s.Tree.Kids, TplNode{Page: i})
		s.Pages = append(s.Pages, TplPage{Contents: 1, Media: 1, Parts: []TplPart{{Snip: []int{i}}}})
	}
	return s
}

func init() {
	initBadTpl()
	initBadThings()
	initBreaker()
	initFaults()
	initMetrics()
	initMaker()
	_ = strconv.Itoa
}
