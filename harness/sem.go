package main

// Meaning of documents: equality and digests that do not depend on object
// numbers, and checks of embedded fonts.

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"sort"
	"strings"
	"unicode/utf16"
)

// deepEq compares a in doc da with b in doc db, resolving references.
// Page tree nodes are only compared by type.  It returns "" when equal.
type deepCmp struct {
	da, db *Doc
	seen   map[[2]int]bool
}

func deepEq(da *Doc, a Obj, db *Doc, b Obj) string {
	c := &deepCmp{da, db, map[[2]int]bool{}}
	return c.cmp(a, b, "")
}

func isPageNode(d *Doc, o Obj) string {
	if dict, ok := o.(Dict); ok {
		switch t := d.Name(dict["Type"]); t {
		case "Page", "Pages", "Catalog":
			return t
		}
	}
	return ""
}

func (c *deepCmp) cmp(a, b Obj, path string) string {
	ra, aref := a.(Ref)
	rb, bref := b.(Ref)
	if aref && bref {
		k := [2]int{ra.N, rb.N}
		if c.seen[k] {
			return ""
		}
		c.seen[k] = true
	}
	x, y := c.da.R(a), c.db.R(b)
	if aref {
		if t := isPageNode(c.da, x); t != "" {
			if !bref || isPageNode(c.db, y) != t {
				return path + ": reference to a page tree node is gone"
			}
			return ""
		}
	}
	switch v := x.(type) {
	case nil:
		if y != nil {
			return fmt.Sprintf("%s: %v instead of null", path, y)
		}
	case Num:
		w, ok := y.(Num)
		if !ok || v.F != w.F {
			return fmt.Sprintf("%s: %v instead of %v", path, y, v.F)
		}
	case Arr:
		w, ok := y.(Arr)
		if !ok || len(v) != len(w) {
			return fmt.Sprintf("%s: %v instead of %v", path, y, v)
		}
		for i := range v {
			if e := c.cmp(v[i], w[i], fmt.Sprintf("%s[%d]", path, i)); e != "" {
				return e
			}
		}
	case Dict:
		w, ok := y.(Dict)
		if !ok {
			return fmt.Sprintf("%s: %T instead of dictionary", path, y)
		}
		return c.cmpDict(v, w, path, nil)
	case *Stream:
		w, ok := y.(*Stream)
		if !ok {
			return fmt.Sprintf("%s: %T instead of stream", path, y)
		}
		if e := c.cmpDict(v.D, w.D, path, map[string]bool{"Length": true}); e != "" {
			return e
		}
		if !bytes.Equal(v.Raw, w.Raw) {
			return fmt.Sprintf("%s: stream data differs (%d bytes, was %d)", path, len(w.Raw), len(v.Raw))
		}
	default:
		if x != y {
			return fmt.Sprintf("%s: %v instead of %v", path, y, x)
		}
	}
	return ""
}

func (c *deepCmp) cmpDict(v, w Dict, path string, skip map[string]bool) string {
	for _, k := range sortedKeys(v) {
		if skip[k] || c.da.R(v[k]) == nil {
			continue
		}
		y, ok := w[k]
		if !ok {
			return fmt.Sprintf("%s/%s is gone", path, k)
		}
		if e := c.cmp(v[k], y, path+"/"+k); e != "" {
			return e
		}
	}
	for _, k := range sortedKeys(w) {
		if skip[k] || c.db.R(w[k]) == nil {
			continue
		}
		if _, ok := v[k]; !ok || c.da.R(v[k]) == nil {
			return fmt.Sprintf("%s/%s appeared", path, k)
		}
	}
	return ""
}

func sortedKeys(d Dict) []string {
	var ks []string
	for k := range d {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// canon serialises an object without object numbers.
func (d *Doc) canon(o Obj, sb *strings.Builder, onPath map[int]bool) {
	if r, ok := o.(Ref); ok {
		t := d.R(o)
		if n := isPageNode(d, t); n != "" {
			sb.WriteString("<" + n + ">")
			return
		}
		if onPath[r.N] {
			sb.WriteString("<cycle>")
			return
		}
		onPath[r.N] = true
		defer delete(onPath, r.N)
		o = t
	}
	switch v := o.(type) {
	case nil:
		sb.WriteString("null ")
	case Num:
		fmt.Fprintf(sb, "%v ", v.F)
	case Name:
		fmt.Fprintf(sb, "/%q ", string(v))
	case Str:
		fmt.Fprintf(sb, "(%q) ", string(v))
	case Arr:
		sb.WriteString("[")
		for _, x := range v {
			d.canon(x, sb, onPath)
		}
		sb.WriteString("]")
	case Dict:
		sb.WriteString("<<")
		for _, k := range sortedKeys(v) {
			if d.R(v[k]) == nil {
				continue
			}
			fmt.Fprintf(sb, "%q:", k)
			d.canon(v[k], sb, onPath)
		}
		sb.WriteString(">>")
	case *Stream:
		n := Dict{}
		for k, x := range v.D {
			if k != "Length" {
				n[k] = x
			}
		}
		d.canon(n, sb, onPath)
		fmt.Fprintf(sb, "stream %x ", sha256.Sum256(v.Raw))
	default:
		fmt.Fprintf(sb, "%v ", v)
	}
}

func (d *Doc) digest(o Obj) string {
	var sb strings.Builder
	d.canon(o, &sb, map[int]bool{})
	s := sb.String()
	if len(s) > 160 {
		return fmt.Sprintf("%s...%x", s[:100], sha256.Sum256([]byte(s)))
	}
	return s
}

// Meaning describes a document line by line, independent of numbering and of
// the names given to fonts and images.
func (d *Doc) Meaning() ([]string, error) {
	pages, err := d.Pages()
	if err != nil {
		return nil, err
	}
	var out []string
	for _, p := range pages {
		pre := fmt.Sprintf("page %d: ", p.Index+1)
		attrs := Dict{}
		for k, v := range p.D {
			switch k {
			case "Parent", "Contents", "Resources":
			default:
				attrs[k] = v
			}
		}
		for _, k := range inheritable[1:] {
			if v, ok := p.Inh[k]; ok {
				attrs[k] = v
			}
		}
		out = append(out, pre+"attributes "+d.digest(attrs))
		res := d.Dict(p.Inh["Resources"])
		for _, c := range sortedKeys(res) {
			if c == "Font" || c == "XObject" {
				var l []string
				cd := d.Dict(res[c])
				for _, n := range sortedKeys(cd) {
					l = append(l, d.digest(cd[n]))
				}
				sort.Strings(l)
				for _, x := range l {
					out = append(out, pre+"has "+c+" "+x)
				}
				continue
			}
			if d.R(res[c]) == nil {
				continue
			}
			out = append(out, pre+"has "+c+" "+d.digest(res[c]))
		}
		ops, err := d.PageOps(p)
		if err != nil {
			return nil, err
		}
		for _, op := range ops {
			s := op.Op
			for i, a := range op.Args {
				if n, ok := a.(Name); ok && i == 0 && (op.Op == "Tf" || op.Op == "Do") {
					cat := "Font"
					if op.Op == "Do" {
						cat = "XObject"
					}
					o, err := d.PageRes(p, cat, string(n))
					if err != nil {
						s += " undefined:" + string(n)
						continue
					}
					s += " {" + d.digest(o) + "}"
					continue
				}
				s += " " + d.digest(a)
			}
			out = append(out, pre+s)
		}
	}
	root := d.Dict(d.Trailer["Root"])
	cat := Dict{}
	for k, v := range root {
		if k != "Pages" {
			cat[k] = v
		}
	}
	out = append(out, "catalog "+d.digest(cat), "info "+d.digest(d.Trailer["Info"]))
	return out, nil
}

func diffMeaning(a, b []string) string {
	for i := range a {
		if i >= len(b) {
			return fmt.Sprintf("missing: %s", a[i])
		}
		if a[i] != b[i] {
			return fmt.Sprintf("%s\n   instead of %s", b[i], a[i])
		}
	}
	if len(b) > len(a) {
		return "additional: " + b[len(a)]
	}
	return ""
}

// meaningOf parses a saved file.
func meaningOf(data []byte) ([]string, error) {
	d, err := ReadPDF(data)
	if err != nil {
		return nil, err
	}
	return d.Meaning()
}

// Issue is a disagreement about one aspect of a document.
type Issue struct {
	Aspect string
	Msg    string
}
type Issues []Issue

func (is *Issues) add(aspect, f string, a ...interface{}) {
	if len(*is) < 50 {
		*is = append(*is, Issue{aspect, fmt.Sprintf(f, a...)})
	}
}

// pick gives the first issue about one of the aspects.
func (is Issues) pick(aspects ...string) error {
	for _, i := range is {
		for _, a := range aspects {
			if i.Aspect == a || a == "*" {
				return fmt.Errorf("[%s] %s", i.Aspect, i.Msg)
			}
		}
	}
	return nil
}

// EmbFont is an embedded composite font as found in a file.
type EmbFont struct {
	d    *Doc
	F    Dict
	CID  Dict
	Desc Dict
	Prog []byte
	T    *TTF
}

// ReadEmbFont checks the structure of an embedded subset font.
func (d *Doc) ReadEmbFont(f Obj) (*EmbFont, error) {
	e := &EmbFont{d: d, F: d.Dict(f)}
	if e.F == nil || d.Name(e.F["Type"]) != "Font" || d.Name(e.F["Subtype"]) != "Type0" {
		return nil, fmt.Errorf("font is not a composite font")
	}
	if d.Name(e.F["Encoding"]) != "Identity-H" {
		return nil, fmt.Errorf("font has /Encoding %v", e.F["Encoding"])
	}
	df := d.Arr(e.F["DescendantFonts"])
	if len(df) != 1 {
		return nil, fmt.Errorf("font has %d descendants", len(df))
	}
	e.CID = d.Dict(df[0])
	if e.CID == nil || d.Name(e.CID["Type"]) != "Font" || d.Name(e.CID["Subtype"]) != "CIDFontType2" {
		return nil, fmt.Errorf("descendant font is not a CIDFontType2")
	}
	if m := d.R(e.CID["CIDToGIDMap"]); m != nil && d.Name(m) != "Identity" {
		return nil, fmt.Errorf("descendant font has a /CIDToGIDMap")
	}
	si := d.Dict(e.CID["CIDSystemInfo"])
	if si == nil || d.R(si["Registry"]) != Str("Adobe") || d.R(si["Ordering"]) != Str("Identity") {
		return nil, fmt.Errorf("descendant font has /CIDSystemInfo %v", si)
	}
	e.Desc = d.Dict(e.CID["FontDescriptor"])
	if e.Desc == nil || d.Name(e.Desc["Type"]) != "FontDescriptor" {
		return nil, fmt.Errorf("font has no descriptor")
	}
	b1, b2, b3 := d.Name(e.F["BaseFont"]), d.Name(e.CID["BaseFont"]), d.Name(e.Desc["FontName"])
	if b1 == "" || b1 != b2 || b2 != b3 {
		return nil, fmt.Errorf("font names differ: %q %q %q", b1, b2, b3)
	}
	ff, ok := d.R(e.Desc["FontFile2"]).(*Stream)
	if !ok {
		return nil, fmt.Errorf("font has no font program")
	}
	prog, err := d.Decode(ff)
	if err != nil {
		return nil, fmt.Errorf("font program: %v", err)
	}
	if l1, ok := d.Num(ff.D["Length1"]); ok && int(l1) != len(prog) {
		return nil, fmt.Errorf("font program has /Length1 %v but %d bytes", l1, len(prog))
	}
	e.Prog = prog
	e.T, err = ReadTTF(prog, false)
	if err != nil {
		return nil, fmt.Errorf("embedded %v", err)
	}
	return e, nil
}

// CheckSubset compares the glyphs used with the original font.
func (e *EmbFont) CheckSubset(orig *TTF, used map[int]bool) error {
	if e.T.UPM != orig.UPM {
		return fmt.Errorf("embedded font has %d units per em, the font %d", e.T.UPM, orig.UPM)
	}
	if err := e.T.CheckDirectory(orig); err != nil {
		return err
	}
	with0 := map[int]bool{0: true}
	for g := range used {
		with0[g] = true
	}
	var gs []int
	for g := range orig.Closure(with0) {
		gs = append(gs, g)
	}
	sort.Ints(gs)
	for _, g := range gs {
		if g >= e.T.NG {
			return fmt.Errorf("embedded font has no glyph %d (it has %d)", g, e.T.NG)
		}
		a, b := orig.Glyph(g), e.T.Glyph(g)
		if len(a) > 0 && len(b) > len(a) && len(b)-len(a) < 4 && bytes.Count(b[len(a):], []byte{0}) == len(b)-len(a) {
			b = b[:len(a)]
		}
		if !bytes.Equal(a, b) {
			return fmt.Errorf("outline of glyph %d differs in the embedded font (%d bytes instead of %d)", g, len(b), len(a))
		}
	}
	for g := 0; g < e.T.NG; g++ {
		if b := e.T.Glyph(g); len(b) > 0 && len(b) < 10 && (g >= orig.NG || !bytes.Equal(b, orig.Glyph(g))) {
			return fmt.Errorf("glyph %d of the embedded font is not an outline (%d bytes)", g, len(b))
		}
	}
	gs = gs[:0]
	for g := range used {
		gs = append(gs, g)
	}
	sort.Ints(gs)
	for _, g := range gs {
		if e.T.RawWidth(g) != orig.RawWidth(g) {
			return fmt.Errorf("advance of glyph %d is %d in the embedded font, %d in the font", g, e.T.RawWidth(g), orig.RawWidth(g))
		}
	}
	for _, tag := range []string{"cvt ", "fpgm", "prep", "maxp", "hhea", "hmtx"} {
		if a, ok := orig.tab[tag]; ok && !bytes.Equal(a, e.T.tab[tag]) {
			return fmt.Errorf("table %q differs in the embedded font", tag)
		}
	}
	return nil
}

// CheckDirectory checks the header of an embedded font and its checksums
// (of tables taken over, where the original's are right).
func (t *TTF) CheckDirectory(orig *TTF) error {
	n := u16at(t.data, 4)
	sel := 0
	for 2<<sel <= n {
		sel++
	}
	if a, b, c := u16at(t.data, 6), u16at(t.data, 8), u16at(t.data, 10); a != 16<<sel || b != sel || c != 16*n-16<<sel {
		return fmt.Errorf("font: header says search range %d, selector %d, shift %d for %d tables", a, b, c, n)
	}
	sums := func(t *TTF) map[string]bool {
		ok := map[string]bool{}
		for i := 0; i < u16at(t.data, 4); i++ {
			o := 12 + 16*i
			tag := string(t.data[o : o+4])
			b := append([]byte(nil), t.tab[tag]...)
			for len(b)%4 != 0 {
				b = append(b, 0)
			}
			ok[tag] = int(ttfSum(b)) == u32at(t.data, o+4)
			if tag == "head" && len(b) > 12 { // the adjustment is not part of the sum
				copy(b[8:12], []byte{0, 0, 0, 0})
				ok[tag] = ok[tag] || int(ttfSum(b)) == u32at(t.data, o+4)
			}
		}
		return ok
	}
	want := sums(orig)
	want["glyf"], want["loca"] = true, true
	got := sums(t)
	for i := 0; i < n; i++ {
		o := 12 + 16*i
		tag := string(t.data[o : o+4])
		if want[tag] && !got[tag] {
			return fmt.Errorf("font: checksum of table %q is wrong", tag)
		}
		if u32at(t.data, o+8)%4 != 0 {
			return fmt.Errorf("font: table %q is not aligned", tag)
		}
	}
	return nil
}

// CheckWidths compares /W with the original font.
func (e *EmbFont) CheckWidths(orig *TTF, used map[int]bool) error {
	fw := e.d.widthsOf(e.F)
	var gs []int
	for g := range used {
		gs = append(gs, g)
	}
	sort.Ints(gs)
	for _, g := range gs {
		if int(fw.width(g)) != orig.Width(g) || fw.width(g) != float64(int(fw.width(g))) {
			return fmt.Errorf("file gives glyph %d the width %v, the font %d", g, fw.width(g), orig.Width(g))
		}
	}
	return nil
}

// ToUnicode parses the font's ToUnicode map.
func (e *EmbFont) ToUnicode() (map[int][]string, error) {
	s, ok := e.d.R(e.F["ToUnicode"]).(*Stream)
	if !ok {
		return nil, fmt.Errorf("font has no /ToUnicode stream")
	}
	b, err := e.d.Decode(s)
	if err != nil {
		return nil, err
	}
	m := map[int][]string{}
	l := &lexer{b: b}
	var args []Obj
	defer func() {}()
	type rng struct{ lo, hi, n int }
	var space []rng
	count := -1
	section := ""
	sawCmap, sawEnd := false, false
	err = func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				if le, ok := r.(lexErr); ok {
					err = fmt.Errorf("ToUnicode map: %s", string(le))
					return
				}
				panic(r)
			}
		}()
		for {
			l.skipWS()
			if l.pos >= len(b) {
				return nil
			}
			o := l.parse(false)
			op, isOp := o.(Op)
			if !isOp {
				args = append(args, o)
				continue
			}
			switch op {
			case "begincmap":
				sawCmap = true
			case "endcmap":
				sawEnd = true
			case "begincodespacerange", "beginbfrange", "beginbfchar":
				n, ok := Num{}, false
				if len(args) > 0 {
					n, ok = args[len(args)-1].(Num)
				}
				if !ok || !n.Int {
					return fmt.Errorf("ToUnicode map: %s without count", op)
				}
				count, section = int(n.F), string(op)[5:]
			case "endcodespacerange", "endbfrange", "endbfchar":
				if section != string(op)[3:] {
					return fmt.Errorf("ToUnicode map: %s in section %q", op, section)
				}
				per := 3
				if section != "bfrange" {
					per = 2
				}
				if len(args) != per*count {
					return fmt.Errorf("ToUnicode map: %d declared in %s, has %d operands", count, section, len(args))
				}
				for i := 0; i < len(args); i += per {
					lo, ok1 := args[i].(Str)
					hi := lo
					ok2 := true
					if section != "bfchar" {
						hi, ok2 = args[i+1].(Str)
					}
					if !ok1 || !ok2 || len(lo) == 0 || len(lo) > 4 || len(lo) != len(hi) {
						return fmt.Errorf("ToUnicode map: bad code range")
					}
					num := func(s Str) int {
						v := 0
						for k := 0; k < len(s); k++ {
							v = v<<8 | int(s[k])
						}
						return v
					}
					if section == "codespacerange" {
						space = append(space, rng{num(lo), num(hi), len(lo)})
						continue
					}
					dst, ok := args[i+per-1].(Str)
					if !ok || len(dst)%2 != 0 || len(dst) == 0 {
						return fmt.Errorf("ToUnicode map: bad destination %v", args[i+per-1])
					}
					in := false
					for _, r := range space {
						if r.n == len(lo) && num(lo) >= r.lo && num(hi) <= r.hi {
							in = true
						}
					}
					if !in || len(lo) != 2 {
						return fmt.Errorf("ToUnicode map: code %x is outside the code space", string(lo))
					}
					if num(hi) < num(lo) || num(hi)>>8 != num(lo)>>8 {
						return fmt.Errorf("ToUnicode map: bad range %x-%x", string(lo), string(hi))
					}
					var us []uint16
					for k := 0; k < len(dst); k += 2 {
						us = append(us, uint16(dst[k])<<8|uint16(dst[k+1]))
					}
					for c := num(lo); c <= num(hi); c++ {
						u := append([]uint16{}, us...)
						u[len(u)-1] += uint16(c - num(lo))
						m[c] = append(m[c], string(utf16.Decode(u)))
					}
				}
				section = ""
			}
			args = nil
		}
	}()
	if err != nil {
		return nil, err
	}
	if !sawCmap || !sawEnd || section != "" {
		return nil, fmt.Errorf("ToUnicode map is not complete")
	}
	return m, nil
}
