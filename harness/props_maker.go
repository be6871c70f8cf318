package main

// The font maker: font definitions of the tool minigopdf/fontmaker.

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/signintech/pdft/minigopdf/fontmaker/core"
	"pgregory.net/rapid"
)

type mapEnt struct {
	C int    `json:"c"`
	U int    `json:"u"`
	N string `json:"n"`
}

type makerCase struct {
	Font FontSpec `json:"font"`
	File string   `json:"file"`
	Enc  string   `json:"enc"`
	Ref  []mapEnt `json:"ref"`
	Map  []mapEnt `json:"map"`
	CRLF bool     `json:"crlf"`
	Bad  string   `json:"bad,omitempty"` // what is wrong
	Line string   `json:"line,omitempty"`
	Pos  int      `json:"pos"`
	Muts []Mut    `json:"muts,omitempty"`
	Over bool     `json:"over"` // write over earlier results
}

func drawMap(t *rapid.T, chars []rune, like []mapEnt) []mapEnt {
	var out []mapEnt
	seen := map[int]bool{}
	add := func(c, u int, n string) {
		if c >= 0 && c <= 255 && !seen[c] {
			seen[c] = true
			out = append(out, mapEnt{c, u, n})
		}
	}
	for _, e := range like {
		if chance(t, 70, "keep") {
			add(e.C, e.U, e.N)
		}
	}
	for i, n := 0, ir(t, 0, 12, "nmap"); i < n; i++ {
		c := oneof(t, []int{0, 1, 2, 32, 33, 34, 92, 65, 126, 127, 128, 254, 255, 100, 101, 102}, "code")
		if chance(t, 40, "anycode") {
			c = ir(t, 0, 255, "codeany")
		}
		u := int(oneof(t, chars, "mapch"))
		if u > 0xFFFF || chance(t, 20, "otherch") { // the maps of code pages name characters of the first plane
			u = ir(t, 1, 0xFFFE, "mapu")
		}
		add(c, u, oneof(t, []string{"A", "space", "uni0E01", "quotesingle", ".notdef", "a.b", "a\"b", "a\\b"}, "gname"))
	}
	return out
}

func mapFile(m []mapEnt, eol string) string {
	var b strings.Builder
	for _, e := range m {
		fmt.Fprintf(&b, "!%02X U+%04X %s%s", e.C, e.U, e.N, eol)
	}
	return b.String()
}

func initMaker() {
	register("C28", 15000, 60000, "Non-trivial: the definition was written and compared with the font, or something refused as it has to be. Cases are random fonts, character maps and names; in a quarter of them the font, the map or a path is made unusable.",
		func(t *rapid.T) makerCase {
			c := makerCase{Font: drawFont(t, 0, 6)}
			if chance(t, 60, "emb") {
				c.Font.FsType = 0
			}
			ch := c.Font.chars()
			c.Ref = drawMap(t, ch, nil)
			c.Map = drawMap(t, ch, c.Ref)
			c.Enc = oneof(t, []string{"cp874", "iso-8859-1", "cp1252"}, "enc")
			if c.Enc == "cp1252" {
				c.Map = c.Ref
			}
			c.File = oneof(t, []string{"f.ttf", "My Font.TTF", "a.b.ttf", "Loma.Ttf", "DejaVuSans-Bold.ttf", "8x13.ttf", "font (1).ttf", "\u00e9t\u00e9.ttf", "_x.ttf", "it's.ttf", ".ttf"}, "file")
			c.CRLF, c.Over = chance(t, 30, "crlf"), chance(t, 30, "over")
			if chance(t, 25, "isbad") {
				c.Bad = oneof(t, []string{"ext", "nofont", "nomap", "noref", "line", "line", "line", "reader", "nodir", "damaged", "damaged", "damaged", "soup"}, "bad")
				c.Line = oneof(t, []string{"!", "!41", "!41 U", "!41 U+0041", "!100 U+0041 A", "!-1 U+0041 A", "!4G U+0041 A", "!41 U+XY A", " x", "!41  U+0041 A", "!41 U+"}, "badline")
				if c.Bad == "damaged" {
					c.Muts = drawMuts(t, []string{"flip", "set", "u16", "u16", "u16", "u32", "u32", "cut", "del", "copy"}, 5, 2500)
				}
				if c.Bad == "soup" {
					soup := ""
					for i, n := 0, ir(t, 1, 30, "nsoup"); i < n; i++ {
						soup += oneof(t, []string{"!", "41", "U+", " ", "0041", "A", "\n", "-", "FF", "x", "\t", "\xff", "!42 U+0042 B\n", "!00 ", "FFFFFFFFFFFFFFFFF"}, "soup")
					}
					c.Line = soup
				}
				c.Pos = ir(t, 0, 20, "badpos")
			}
			return c
		}, runMaker)
}

func runMaker(c makerCase, x *Ctx) error {
	dir := filepath.Join(x.dir, "maker")
	defer os.RemoveAll(dir)
	must := func(err error) {
		if err != nil {
			panic(harnessBug(err.Error()))
		}
	}
	maps, out := filepath.Join(dir, "map"), filepath.Join(dir, "out")
	must(os.MkdirAll(maps, 0o755))
	must(os.MkdirAll(out, 0o755))
	eol := "\n"
	if c.CRLF {
		eol = "\r\n"
	}
	data := c.Font.Bytes()
	file := c.File
	if c.Bad == "ext" {
		file = "font.otf"
	}
	if c.Bad == "reader" {
		data = data[:len(data)/2]
	}
	if c.Bad == "damaged" {
		data = mutate(data, c.Muts)
	}
	path := filepath.Join(dir, file)
	if c.Bad != "nofont" {
		must(os.WriteFile(path, data, 0o644))
	}
	if c.Bad != "noref" {
		must(os.WriteFile(filepath.Join(maps, "cp1252.map"), []byte(mapFile(c.Ref, eol)), 0o644))
	}
	if !(c.Enc == "cp1252" && c.Bad == "noref") {
		s := mapFile(c.Map, eol)
		if c.Bad == "line" || c.Bad == "soup" {
			ls := strings.SplitAfter(s, "\n")
			k := c.Pos % len(ls)
			s = strings.Join(ls[:k], "") + c.Line + eol + strings.Join(ls[k:], "")
		}
		must(os.WriteFile(filepath.Join(maps, c.Enc+".map"), []byte(s), 0o644))
	}
	if c.Bad == "nomap" {
		must(os.Remove(filepath.Join(maps, c.Enc+".map")))
	}
	base := strings.ReplaceAll(strings.Split(file, ".")[0], " ", "_")
	zf, gf := filepath.Join(out, base+".z"), filepath.Join(out, base+".font.go")
	if c.Over {
		must(os.WriteFile(zf, bytes.Repeat([]byte("old"), 50000), 0o644))
		must(os.WriteFile(gf, bytes.Repeat([]byte("old"), 50000), 0o644))
	}
	if c.Bad == "nodir" {
		must(os.RemoveAll(out))
	}
	fm := core.NewFontMaker()
	err := fm.MakeFont(path, maps, c.Enc, out)
	allowed := c.Font.Real != "" || c.Font.FsType != 2 && c.Font.FsType&0x200 == 0
	if c.Bad == "damaged" || c.Bad == "soup" {
		// refused or not, but what is written is whole
		x.NT()
		if err != nil {
			x.Label("refused: " + c.Bad)
			return nil
		}
		x.Label("accepted: " + c.Bad)
		if got, err := inflateFile(zf); err != nil || !bytes.Equal(got, data) {
			return fmt.Errorf("the compressed font has %d bytes that are not the file's %d (%v)", len(got), len(data), err)
		}
		src, err := os.ReadFile(gf)
		if err == nil {
			_, err = readDefinition(src)
		}
		if err != nil {
			return fmt.Errorf("the definition: %v", err)
		}
		return nil
	}
	if c.Bad != "" {
		if err == nil {
			return fmt.Errorf("making a font definition succeeded (%s %q)", c.Bad, c.Line)
		}
		x.Label("refused: " + c.Bad)
		x.NT()
		return nil
	}
	if !allowed {
		if err == nil {
			return fmt.Errorf("a font whose licence bits %#x forbid embedding is accepted", c.Font.FsType)
		}
		if !c.Over {
			if l, _ := os.ReadDir(out); len(l) > 0 {
				return fmt.Errorf("a font whose licence bits %#x forbid embedding is refused but %s is written", c.Font.FsType, l[0].Name())
			}
		}
		x.Label("refused: licence")
		x.NT()
		return nil
	}
	if err != nil {
		return fmt.Errorf("making the font definition failed: %v", err)
	}
	got, err := inflateFile(zf)
	if err != nil {
		return fmt.Errorf("the compressed font: %v", err)
	}
	if !bytes.Equal(got, data) {
		return fmt.Errorf("the compressed font has %d bytes that are not the font's %d", len(got), len(data))
	}
	src, err := os.ReadFile(gf)
	if err != nil {
		return fmt.Errorf("the definition is missing: %v", err)
	}
	d, err := readDefinition(src)
	if err != nil {
		return fmt.Errorf("the definition: %v", err)
	}
	if err := d.compare(&c, data); err != nil {
		return fmt.Errorf("the definition: %v", err)
	}
	x.Label("made")
	if d.diff != "" {
		x.Label("differences")
	}
	x.NT()
	return nil
}

func inflateFile(name string) ([]byte, error) {
	z, err := os.ReadFile(name)
	if err != nil {
		return nil, err
	}
	zr, err := zlib.NewReader(bytes.NewReader(z))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(zr)
}

type fontDef struct {
	typ  string
	cw   map[int]int
	num  map[string]int
	str  map[string]string
	desc map[string]string
	diff string
	size int
}

// readDefinition reads the Go file the font maker writes.
func readDefinition(src []byte) (*fontDef, error) {
	f, err := parser.ParseFile(token.NewFileSet(), "def.go", src, 0)
	if err != nil {
		return nil, err
	}
	d := &fontDef{cw: map[int]int{}, num: map[string]int{}, str: map[string]string{}, desc: map[string]string{}, size: -1}
	intOf := func(e ast.Expr) (int, bool) {
		sign := 1
		if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.SUB {
			sign, e = -1, u.X
		}
		l, ok := e.(*ast.BasicLit)
		if !ok || l.Kind != token.INT {
			return 0, false
		}
		v, err := strconv.Atoi(l.Value)
		return sign * v, err == nil
	}
	strOf := func(e ast.Expr) (string, bool) {
		l, ok := e.(*ast.BasicLit)
		if !ok || l.Kind != token.STRING {
			return "", false
		}
		s, err := strconv.Unquote(l.Value)
		return s, err == nil
	}
	for _, dc := range f.Decls {
		fn, ok := dc.(*ast.FuncDecl)
		if !ok {
			if g, ok := dc.(*ast.GenDecl); ok && g.Tok == token.TYPE {
				d.typ = g.Specs[0].(*ast.TypeSpec).Name.Name
			}
			continue
		}
		if fn.Name.Name == "GetOriginalsize" {
			if r, ok := fn.Body.List[0].(*ast.ReturnStmt); ok && len(r.Results) == 1 {
				if v, ok := intOf(r.Results[0]); ok {
					d.size = v
				}
			}
		}
		if fn.Name.Name != "Init" {
			continue
		}
		for _, st := range fn.Body.List {
			as, ok := st.(*ast.AssignStmt)
			if !ok || len(as.Lhs) != 1 {
				return nil, fmt.Errorf("unknown statement in Init")
			}
			switch l := as.Lhs[0].(type) {
			case *ast.SelectorExpr:
				if v, ok := intOf(as.Rhs[0]); ok {
					d.num[l.Sel.Name] = v
				} else if s, ok := strOf(as.Rhs[0]); ok {
					d.str[l.Sel.Name] = s
				}
			case *ast.IndexExpr:
				switch l.X.(*ast.SelectorExpr).Sel.Name {
				case "cw":
					call, ok := l.Index.(*ast.CallExpr)
					if !ok || len(call.Args) != 1 {
						return nil, fmt.Errorf("unknown index of a width")
					}
					k, ok := intOf(call.Args[0])
					if !ok {
						s, ok := strOf(call.Args[0])
						if !ok || len(s) != 1 {
							return nil, fmt.Errorf("unknown index %q of a width", s)
						}
						k = int(s[0])
					}
					v, ok := intOf(as.Rhs[0])
					if !ok {
						return nil, fmt.Errorf("width of %d is not a number", k)
					}
					if _, dup := d.cw[k]; dup {
						return nil, fmt.Errorf("width of %d is given twice", k)
					}
					d.cw[k] = v
				case "desc":
					lit, ok := as.Rhs[0].(*ast.CompositeLit)
					if !ok {
						return nil, fmt.Errorf("unknown descriptor item")
					}
					kv := map[string]string{}
					for _, e := range lit.Elts {
						p := e.(*ast.KeyValueExpr)
						kv[p.Key.(*ast.Ident).Name], _ = strOf(p.Value)
					}
					d.desc[kv["Key"]] = kv["Val"]
				}
			}
		}
	}
	d.diff = d.str["diff"]
	return d, nil
}

// per1000 scales to 1000 units per em, rounding to the nearest integer (halves away from zero).
func per1000(v, upm int) int {
	if v < 0 {
		return -per1000(-v, upm)
	}
	return (2000*v + upm) / (2 * upm)
}

func (d *fontDef) compare(c *makerCase, data []byte) error {
	t := c.Font.TTF()
	at := func(m []mapEnt) [256]mapEnt {
		var a [256]mapEnt
		for i := range a {
			a[i] = mapEnt{i, -1, ".notdef"}
		}
		for _, e := range m {
			a[e.C] = e
		}
		return a
	}
	m, ref := at(c.Map), at(c.Ref)
	for k := 0; k < 256; k++ {
		g := 0
		if m[k].N != ".notdef" {
			g, _ = t.Gid(rune(m[k].U))
		}
		got, ok := d.cw[k]
		if want := per1000(t.RawWidth(g), t.UPM); !ok || got != want {
			return fmt.Errorf("code %d (character %#x) has the width %d, it is %d", k, m[k].U, got, want)
		}
	}
	if len(d.cw) != 256 {
		return fmt.Errorf("%d widths", len(d.cw))
	}
	if d.size != len(data) {
		return fmt.Errorf("the font's size is given as %d, it is %d", d.size, len(data))
	}
	if want := per1000(t.UPos, t.UPM); d.num["up"] != want {
		return fmt.Errorf("underline position %d, it is %d", d.num["up"], want)
	}
	if want := per1000(t.UTh, t.UPM); d.num["ut"] != want {
		return fmt.Errorf("underline thickness %d, it is %d", d.num["ut"], want)
	}
	if d.str["enc"] != c.Enc || d.str["fonttype"] != "TrueType" {
		return fmt.Errorf("type %q, encoding %q instead of %q", d.str["fonttype"], d.str["enc"], c.Enc)
	}
	base := strings.ReplaceAll(strings.Split(c.File, ".")[0], " ", "_")
	if want := strings.ToUpper(base[:min(1, len(base))]) + base[min(1, len(base)):]; token.IsIdentifier(want) && d.typ != want {
		return fmt.Errorf("type is called %q instead of %q", d.typ, want)
	}
	// differences, as a pdf reader applies them
	names := [256]string{}
	for k := range names {
		names[k] = ref[k].N
	}
	code := -1
	for _, tok := range strings.Fields(d.diff) {
		if strings.HasPrefix(tok, "/") {
			if code < 0 || code > 255 {
				return fmt.Errorf("difference %q has no code: %q", tok, d.diff)
			}
			names[code] = tok[1:]
			code++
			continue
		}
		v, err := strconv.Atoi(tok)
		if err != nil {
			return fmt.Errorf("differences %q", d.diff)
		}
		code = v
	}
	for k := range names {
		if names[k] != m[k].N {
			return fmt.Errorf("with the differences %q code %d is named %q, the map says %q", d.diff, k, names[k], m[k].N)
		}
	}
	capH := t.Asc
	if t.OS2v >= 2 {
		capH = t.Cap
	}
	want := map[string]int{"Ascent": per1000(t.TAsc, t.UPM), "Descent": per1000(t.TDesc, t.UPM), "CapHeight": per1000(capH, t.UPM), "ItalicAngle": t.Italic, "MissingWidth": per1000(t.RawWidth(0), t.UPM)}
	if c.Font.Real == "" {
		fl := 32
		if c.Font.Fixed {
			fl |= 1
		}
		if t.Italic != 0 {
			fl |= 64
		}
		want["Flags"] = fl
		want["StemV"] = 70
		if c.Font.FsSel&32 != 0 {
			want["StemV"] = 120
		}
		ps := c.Font.PS
		for _, bad := range []string{" ", "(", ")", "[", "]", "{", "}", "<", ">", "/", "%"} {
			ps = strings.ReplaceAll(ps, bad, "")
		}
		if ps != "" && d.str["name"] != ps {
			return fmt.Errorf("the font is called %q instead of %q", d.str["name"], ps)
		}
	}
	for _, k := range []string{"Ascent", "Descent", "CapHeight", "ItalicAngle", "MissingWidth", "Flags", "StemV"} {
		w, ok := want[k]
		if ok && d.desc[k] != strconv.Itoa(w) {
			return fmt.Errorf("/%s is %q, the font has %d", k, d.desc[k], w)
		}
	}
	var b []string
	for _, v := range t.BBox {
		b = append(b, strconv.Itoa(per1000(v, t.UPM)))
	}
	if w := "[" + strings.Join(b, " ") + "]"; d.desc["FontBBox"] != w {
		return fmt.Errorf("/FontBBox is %q, the font has %s", d.desc["FontBBox"], w)
	}
	return nil
}
