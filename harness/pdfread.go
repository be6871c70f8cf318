package main

// An independent, deliberately strict PDF reader (classic cross-reference
// tables).  It shares no code with the library under test.

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"
)

type (
	Obj  interface{}
	Name string
	Str  string
	Dict map[string]Obj
	Arr  []Obj
	Ref  struct{ N, G int }
	Num  struct {
		F   float64
		Int bool
	}
	Stream struct {
		D   Dict
		Raw []byte
	}
	// Op is a content stream operator (or other bare keyword)
	Op string
)

func isWS(c byte) bool {
	return c == 0 || c == 9 || c == 10 || c == 12 || c == 13 || c == 32
}
func isDelim(c byte) bool {
	switch c {
	case '(', ')', '<', '>', '[', ']', '{', '}', '/', '%':
		return true
	}
	return false
}
func isReg(c byte) bool { return !isWS(c) && !isDelim(c) }

type lexer struct {
	b   []byte
	pos int
}

func (l *lexer) skipWS() {
	for l.pos < len(l.b) {
		c := l.b[l.pos]
		if isWS(c) {
			l.pos++
		} else if c == '%' {
			for l.pos < len(l.b) && l.b[l.pos] != '\n' && l.b[l.pos] != '\r' {
				l.pos++
			}
		} else {
			return
		}
	}
}

type lexErr string

func (e lexErr) Error() string { return string(e) }

func (l *lexer) fail(f string, a ...interface{}) {
	panic(lexErr(fmt.Sprintf("at offset %d: ", l.pos) + fmt.Sprintf(f, a...)))
}

func (l *lexer) peekKeyword(k string) bool {
	return bytes.HasPrefix(l.b[l.pos:], []byte(k))
}

// parse reads one object; keywords come back as Op.  refs: combine "n g R".
func (l *lexer) parse(refs bool) Obj { return l.parseDepth(refs, 0) }

func (l *lexer) parseDepth(refs bool, depth int) Obj {
	if depth > 200 {
		l.fail("nesting too deep")
	}
	l.skipWS()
	if l.pos >= len(l.b) {
		l.fail("unexpected end of data")
	}
	c := l.b[l.pos]
	switch {
	case c == '/':
		l.pos++
		return Name(l.name())
	case c == '(':
		return Str(l.litString())
	case c == '<':
		if l.pos+1 < len(l.b) && l.b[l.pos+1] == '<' {
			l.pos += 2
			d := Dict{}
			for {
				l.skipWS()
				if l.pos+1 < len(l.b) && l.b[l.pos] == '>' && l.b[l.pos+1] == '>' {
					l.pos += 2
					return d
				}
				k := l.parseDepth(refs, depth+1)
				n, ok := k.(Name)
				if !ok {
					l.fail("dictionary key is not a name: %v", k)
				}
				v := l.parseDepth(refs, depth+1)
				if o, bad := v.(Op); bad {
					l.fail("keyword %q as dictionary value", string(o))
				}
				if _, dup := d[string(n)]; dup {
					l.fail("duplicate dictionary key /%s", string(n))
				}
				d[string(n)] = v
			}
		}
		return Str(l.hexString())
	case c == '[':
		l.pos++
		a := Arr{}
		for {
			l.skipWS()
			if l.pos >= len(l.b) {
				l.fail("unterminated array")
			}
			if l.b[l.pos] == ']' {
				l.pos++
				return a
			}
			v := l.parseDepth(refs, depth+1)
			if o, bad := v.(Op); bad {
				l.fail("keyword %q in array", string(o))
			}
			a = append(a, v)
		}
	case c == '+' || c == '-' || c == '.' || (c >= '0' && c <= '9'):
		n, ok := l.number()
		if !ok {
			l.fail("bad number")
		}
		if refs && n.Int && n.F >= 0 {
			save := l.pos
			l.skipWS()
			if l.pos < len(l.b) && l.b[l.pos] >= '0' && l.b[l.pos] <= '9' {
				g, ok := l.number()
				if ok && g.Int {
					l.skipWS()
					if l.pos < len(l.b) && l.b[l.pos] == 'R' && (l.pos+1 == len(l.b) || !isReg(l.b[l.pos+1])) {
						l.pos++
						return Ref{int(n.F), int(g.F)}
					}
				}
			}
			l.pos = save
		}
		return n
	case isReg(c):
		s := l.pos
		for l.pos < len(l.b) && isReg(l.b[l.pos]) {
			l.pos++
		}
		w := string(l.b[s:l.pos])
		switch w {
		case "true":
			return true
		case "false":
			return false
		case "null":
			return nil
		}
		return Op(w)
	}
	l.fail("unexpected character %q", c)
	return nil
}

func (l *lexer) name() string {
	var sb strings.Builder
	for l.pos < len(l.b) && isReg(l.b[l.pos]) {
		c := l.b[l.pos]
		if c == '#' && l.pos+2 < len(l.b) {
			if v, err := strconv.ParseUint(string(l.b[l.pos+1:l.pos+3]), 16, 8); err == nil {
				sb.WriteByte(byte(v))
				l.pos += 3
				continue
			}
		}
		sb.WriteByte(c)
		l.pos++
	}
	return sb.String()
}

func (l *lexer) number() (Num, bool) {
	s := l.pos
	for l.pos < len(l.b) && isReg(l.b[l.pos]) {
		l.pos++
	}
	w := string(l.b[s:l.pos])
	if i, err := strconv.ParseInt(w, 10, 64); err == nil {
		return Num{float64(i), true}, true
	}
	for _, c := range w {
		if !(c == '+' || c == '-' || c == '.' || (c >= '0' && c <= '9')) {
			l.pos = s
			return Num{}, false
		}
	}
	f, err := strconv.ParseFloat(w, 64)
	if err != nil {
		l.pos = s
		return Num{}, false
	}
	return Num{f, false}, true
}

func (l *lexer) litString() string {
	l.pos++
	depth := 1
	var sb strings.Builder
	for l.pos < len(l.b) {
		c := l.b[l.pos]
		l.pos++
		switch c {
		case '(':
			depth++
			sb.WriteByte(c)
		case ')':
			depth--
			if depth == 0 {
				return sb.String()
			}
			sb.WriteByte(c)
		case '\\':
			if l.pos >= len(l.b) {
				l.fail("unterminated string")
			}
			e := l.b[l.pos]
			l.pos++
			switch e {
			case 'n':
				sb.WriteByte('\n')
			case 'r':
				sb.WriteByte('\r')
			case 't':
				sb.WriteByte('\t')
			case 'b':
				sb.WriteByte('\b')
			case 'f':
				sb.WriteByte('\f')
			case '\r':
				if l.pos < len(l.b) && l.b[l.pos] == '\n' {
					l.pos++
				}
			case '\n':
			default:
				if e >= '0' && e <= '7' {
					v := int(e - '0')
					for k := 0; k < 2 && l.pos < len(l.b) && l.b[l.pos] >= '0' && l.b[l.pos] <= '7'; k++ {
						v = v*8 + int(l.b[l.pos]-'0')
						l.pos++
					}
					sb.WriteByte(byte(v))
				} else {
					sb.WriteByte(e)
				}
			}
		case '\r':
			if l.pos < len(l.b) && l.b[l.pos] == '\n' {
				l.pos++
			}
			sb.WriteByte('\n')
		default:
			sb.WriteByte(c)
		}
	}
	l.fail("unterminated string")
	return ""
}

func (l *lexer) hexString() string {
	l.pos++
	var hex []byte
	for l.pos < len(l.b) {
		c := l.b[l.pos]
		l.pos++
		if c == '>' {
			if len(hex)%2 == 1 {
				hex = append(hex, '0')
			}
			out := make([]byte, len(hex)/2)
			for i := range out {
				v, _ := strconv.ParseUint(string(hex[2*i:2*i+2]), 16, 8)
				out[i] = byte(v)
			}
			return string(out)
		}
		if isWS(c) {
			continue
		}
		if (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F') {
			hex = append(hex, c)
			continue
		}
		l.fail("bad character %q in hex string", c)
	}
	l.fail("unterminated hex string")
	return ""
}

// Doc is a parsed file.
type Doc struct {
	Data    []byte
	Objs    map[int]Obj
	Trailer Dict
	Size    int
}

// ReadPDF parses a complete single-revision file strictly; any deviation is an error.
func ReadPDF(data []byte) (doc *Doc, err error) {
	defer func() {
		if r := recover(); r != nil {
			if le, ok := r.(lexErr); ok {
				doc, err = nil, fmt.Errorf("malformed PDF: %s", string(le))
				return
			}
			panic(r)
		}
	}()
	d := &Doc{Data: data, Objs: map[int]Obj{}}
	if !bytes.HasPrefix(data, []byte("%PDF-1.")) {
		return nil, fmt.Errorf("no PDF header")
	}
	tail := bytes.TrimRight(data, "\r\n ")
	if !bytes.HasSuffix(tail, []byte("%%EOF")) {
		return nil, fmt.Errorf("file does not end with %%%%EOF")
	}
	sx := bytes.LastIndex(data, []byte("startxref"))
	if sx < 0 {
		return nil, fmt.Errorf("no startxref")
	}
	l := &lexer{b: data, pos: sx + len("startxref")}
	n, ok := l.parse(false).(Num)
	if !ok || !n.Int || n.F < 0 || int(n.F) >= len(data) {
		return nil, fmt.Errorf("startxref value out of range")
	}
	l.skipOnlyWS()
	if !bytes.Equal(tail[min(l.pos, len(tail)):], []byte("%%EOF")) {
		return nil, fmt.Errorf("junk between startxref and %%%%EOF")
	}
	xoff := int(n.F)
	l.pos = xoff
	l.skipOnlyWS()
	if !l.peekKeyword("xref") {
		return nil, fmt.Errorf("startxref %d does not lead to a cross-reference table", xoff)
	}
	xrefAt := l.pos
	l.pos += 4
	offs := map[int]int{}
	free := map[int]bool{}
	next := map[int][2]int{} // of the free entries: the next one, generation
	for {
		l.skipOnlyWS()
		if l.peekKeyword("trailer") {
			break
		}
		first, ok1 := l.number()
		l.skipOnlyWS()
		cnt, ok2 := l.number()
		if !ok1 || !ok2 || !first.Int || !cnt.Int || cnt.F < 0 || cnt.F > 1e7 {
			l.fail("bad xref subsection header")
		}
		// end of line
		for l.pos < len(data) && data[l.pos] == ' ' {
			l.pos++
		}
		if l.pos < len(data) && data[l.pos] == '\r' {
			l.pos++
		}
		if l.pos < len(data) && data[l.pos] == '\n' {
			l.pos++
		}
		for i := 0; i < int(cnt.F); i++ {
			if l.pos+20 > len(data) {
				l.fail("truncated xref")
			}
			e := data[l.pos : l.pos+20]
			off, e1 := strconv.Atoi(string(e[0:10]))
			gen, e2 := strconv.Atoi(string(e[11:16]))
			eol := string(e[18:20])
			if e1 != nil || e2 != nil || e[10] != ' ' || e[16] != ' ' || (e[17] != 'n' && e[17] != 'f') ||
				!(eol == " \n" || eol == " \r" || eol == "\r\n") {
				l.fail("bad xref entry %q", e)
			}
			id := int(first.F) + i
			if _, dup := offs[id]; dup || free[id] {
				l.fail("xref entry for object %d repeated", id)
			}
			if e[17] == 'n' {
				if gen != 0 {
					l.fail("generation %d", gen)
				}
				if id == 0 {
					l.fail("object 0 in use")
				}
				offs[id] = off
			} else {
				free[id] = true
				next[id] = [2]int{off, gen}
			}
			l.pos += 20
		}
	}
	if !free[0] {
		return nil, fmt.Errorf("xref entry 0 is not the head of the free list")
	}
	// the free entries are linked, or lead back to 0 and are never used again
	linked := map[int]bool{}
	for id := 0; free[id] && !linked[id]; id = next[id][0] {
		linked[id] = true
	}
	for id := range free {
		if n := next[id]; !free[n[0]] {
			return nil, fmt.Errorf("the free xref entry %d leads to %d, which is not free", id, n[0])
		} else if !linked[id] && n != [2]int{0, 65535} {
			return nil, fmt.Errorf("the free xref entry %d is not in the free list", id)
		}
	}
	l.pos += len("trailer")
	tr, ok := l.parse(true).(Dict)
	if !ok {
		return nil, fmt.Errorf("trailer is not a dictionary")
	}
	d.Trailer = tr
	l.skipOnlyWS()
	if l.pos != sx {
		return nil, fmt.Errorf("junk between trailer and startxref")
	}
	sz, ok := tr["Size"].(Num)
	if !ok || !sz.Int {
		return nil, fmt.Errorf("trailer has no /Size")
	}
	d.Size = int(sz.F)
	for id := range offs {
		if id >= d.Size {
			return nil, fmt.Errorf("object %d is not below /Size %d", id, d.Size)
		}
	}
	// the body, sequentially
	starts := map[int]int{}
	l.pos = 0
	for {
		l.skipWS()
		if l.pos >= len(data) {
			return nil, fmt.Errorf("ran off the end of the body")
		}
		if l.pos == xrefAt {
			break
		}
		at := l.pos
		idn, ok := l.number()
		if !ok || !idn.Int {
			l.fail("expected an object")
		}
		id := int(idn.F)
		l.skipWS()
		g, ok := l.number()
		if !ok || g.F != 0 {
			l.fail("bad generation for object %d", id)
		}
		l.skipWS()
		if !l.peekKeyword("obj") {
			l.fail("expected obj keyword for %d", id)
		}
		l.pos += 3
		if _, dup := starts[id]; dup {
			return nil, fmt.Errorf("object %d is defined twice", id)
		}
		starts[id] = at
		l.skipWS()
		if l.peekKeyword("endobj") {
			l.fail("object %d is empty", id)
		}
		o := l.parse(true)
		if op, bad := o.(Op); bad {
			l.fail("object %d is keyword %q", id, string(op))
		}
		l.skipWS()
		if l.peekKeyword("stream") {
			dict, ok := o.(Dict)
			if !ok {
				l.fail("stream of object %d without dictionary", id)
			}
			l.pos += 6
			if l.pos < len(data) && data[l.pos] == '\r' {
				l.pos++
			}
			if l.pos >= len(data) || data[l.pos] != '\n' {
				l.fail("stream keyword of object %d not followed by end of line", id)
			}
			l.pos++
			ln, err := d.lengthOf(dict, data, offs)
			if err != nil {
				return nil, fmt.Errorf("object %d: %v", id, err)
			}
			if ln < 0 || l.pos+ln > len(data) {
				return nil, fmt.Errorf("object %d: /Length %d runs past the end of the file", id, ln)
			}
			raw := data[l.pos : l.pos+ln]
			l.pos += ln
			l.skipOnlyWS()
			if !l.peekKeyword("endstream") {
				return nil, fmt.Errorf("object %d: /Length %d does not lead to endstream", id, ln)
			}
			l.pos += len("endstream")
			o = &Stream{dict, raw}
			l.skipWS()
		}
		if !l.peekKeyword("endobj") {
			l.fail("object %d does not end with endobj", id)
		}
		l.pos += len("endobj")
		d.Objs[id] = o
	}
	for id, at := range starts {
		off, ok := offs[id]
		if !ok {
			return nil, fmt.Errorf("object %d has no in-use xref entry", id)
		}
		p := off
		if off > at || off < 0 {
			return nil, fmt.Errorf("xref offset %d of object %d does not lead to it (it is at %d)", off, id, at)
		}
		for p < at {
			if !isWS(data[p]) {
				return nil, fmt.Errorf("xref offset %d of object %d does not lead to it (it is at %d)", off, id, at)
			}
			p++
		}
	}
	for id := range offs {
		if _, ok := starts[id]; !ok {
			return nil, fmt.Errorf("in-use xref entry for object %d leads to no such object", id)
		}
	}
	return d, nil
}

func (l *lexer) skipOnlyWS() {
	for l.pos < len(l.b) && isWS(l.b[l.pos]) {
		l.pos++
	}
}

func (d *Doc) lengthOf(dict Dict, data []byte, offs map[int]int) (int, error) {
	switch v := dict["Length"].(type) {
	case Num:
		if !v.Int {
			return 0, fmt.Errorf("/Length is not an integer")
		}
		return int(v.F), nil
	case Ref:
		off, ok := offs[v.N]
		if !ok || off >= len(data) {
			return 0, fmt.Errorf("/Length refers to missing object %d", v.N)
		}
		l := &lexer{b: data, pos: off}
		l.parse(false)
		l.parse(false)
		if op, ok := l.parse(false).(Op); !ok || op != "obj" {
			return 0, fmt.Errorf("/Length reference is broken")
		}
		n, ok := l.parse(false).(Num)
		if !ok || !n.Int {
			return 0, fmt.Errorf("indirect /Length is not an integer")
		}
		return int(n.F), nil
	}
	return 0, fmt.Errorf("stream without /Length")
}

// R resolves references.
func (d *Doc) R(o Obj) Obj {
	for i := 0; i < 50; i++ {
		r, ok := o.(Ref)
		if !ok {
			return o
		}
		o = d.Objs[r.N]
	}
	return nil
}
func (d *Doc) Dict(o Obj) Dict {
	switch v := d.R(o).(type) {
	case Dict:
		return v
	case *Stream:
		return v.D
	}
	return nil
}
func (d *Doc) Arr(o Obj) Arr {
	a, _ := d.R(o).(Arr)
	return a
}
func (d *Doc) Num(o Obj) (float64, bool) {
	n, ok := d.R(o).(Num)
	return n.F, ok
}
func (d *Doc) Name(o Obj) string {
	n, _ := d.R(o).(Name)
	return string(n)
}

// Decode applies the stream's filters (Flate incl. predictors, ASCIIHex; DCT is left alone).
func (d *Doc) Decode(s *Stream) ([]byte, error) {
	data := s.Raw
	var filters []string
	switch f := d.R(s.D["Filter"]).(type) {
	case nil:
	case Name:
		filters = []string{string(f)}
	case Arr:
		for _, x := range f {
			filters = append(filters, d.Name(x))
		}
	default:
		return nil, fmt.Errorf("bad /Filter")
	}
	for i, f := range filters {
		switch f {
		case "FlateDecode":
			zr, err := zlib.NewReader(bytes.NewReader(data))
			if err != nil {
				return nil, fmt.Errorf("flate: %v", err)
			}
			out, err := io.ReadAll(io.LimitReader(zr, 1<<28))
			if err != nil {
				return nil, fmt.Errorf("flate: %v", err)
			}
			data = out
			var parms Dict
			switch dp := d.R(s.D["DecodeParms"]).(type) {
			case Dict:
				if i == 0 {
					parms = dp
				}
			case Arr:
				if i < len(dp) {
					parms = d.Dict(dp[i])
				}
			}
			if parms != nil {
				data, err = unpredict(d, data, parms)
				if err != nil {
					return nil, err
				}
			}
		case "ASCIIHexDecode":
			l := &lexer{b: append([]byte("<"), data...)}
			func() {
				defer func() { recover() }()
				data = []byte(l.hexString())
			}()
		case "DCTDecode":
			if i != len(filters)-1 {
				return nil, fmt.Errorf("DCTDecode not last")
			}
		default:
			return nil, fmt.Errorf("unsupported filter %q", f)
		}
	}
	return data, nil
}

func unpredict(d *Doc, data []byte, parms Dict) ([]byte, error) {
	get := func(k string, def int) int {
		if v, ok := d.Num(parms[k]); ok {
			return int(v)
		}
		return def
	}
	pred := get("Predictor", 1)
	if pred == 1 {
		return data, nil
	}
	if pred < 10 {
		return nil, fmt.Errorf("predictor %d", pred)
	}
	colors, bpc, cols := get("Colors", 1), get("BitsPerComponent", 8), get("Columns", 1)
	bpp := (colors*bpc + 7) / 8
	row := (colors*bpc*cols + 7) / 8
	if row <= 0 || len(data)%(row+1) != 0 {
		return nil, fmt.Errorf("predictor data is %d bytes, not a multiple of %d", len(data), row+1)
	}
	var out []byte
	prev := make([]byte, row)
	for p := 0; p < len(data); p += row + 1 {
		ft := data[p]
		cur := append([]byte(nil), data[p+1:p+1+row]...)
		for i := range cur {
			var a, b, c int
			if i >= bpp {
				a = int(cur[i-bpp])
				c = int(prev[i-bpp])
			}
			b = int(prev[i])
			switch ft {
			case 0:
			case 1:
				cur[i] += byte(a)
			case 2:
				cur[i] += byte(b)
			case 3:
				cur[i] += byte((a + b) / 2)
			case 4:
				cur[i] += byte(paeth(a, b, c))
			default:
				return nil, fmt.Errorf("row filter %d", ft)
			}
		}
		out = append(out, cur...)
		prev = cur
	}
	return out, nil
}

func paeth(a, b, c int) int {
	p := a + b - c
	pa, pb, pc := abs(p-a), abs(p-b), abs(p-c)
	if pa <= pb && pa <= pc {
		return a
	}
	if pb <= pc {
		return b
	}
	return c
}
func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

// Page is a leaf of the page tree with inheritable attributes resolved.
type Page struct {
	ID    int
	D     Dict
	Inh   Dict // effective inheritable attributes: Resources MediaBox CropBox Rotate
	Index int
}

var inheritable = []string{"Resources", "MediaBox", "CropBox", "Rotate"}

// Pages walks the tree, checking Type, Kids, Count and Parent.
func (d *Doc) Pages() ([]*Page, error) {
	rootRef, ok := d.Trailer["Root"].(Ref)
	if !ok {
		return nil, fmt.Errorf("trailer has no /Root reference")
	}
	root, ok := d.Objs[rootRef.N].(Dict)
	if !ok {
		return nil, fmt.Errorf("/Root %d is not a dictionary", rootRef.N)
	}
	if d.Name(root["Type"]) != "Catalog" {
		return nil, fmt.Errorf("catalog has /Type %v", root["Type"])
	}
	var pages []*Page
	seen := map[int]bool{}
	var walk func(o Obj, parent int, inh Dict) (int, error)
	walk = func(o Obj, parent int, inh Dict) (int, error) {
		ref, ok := o.(Ref)
		if !ok {
			return 0, fmt.Errorf("page tree node is not a reference: %v", o)
		}
		if seen[ref.N] {
			return 0, fmt.Errorf("page tree node %d appears twice", ref.N)
		}
		seen[ref.N] = true
		n, ok := d.Objs[ref.N].(Dict)
		if !ok {
			return 0, fmt.Errorf("page tree node %d is not a dictionary (%T)", ref.N, d.Objs[ref.N])
		}
		if parent != 0 {
			if pr, ok := n["Parent"].(Ref); !ok || pr.N != parent {
				return 0, fmt.Errorf("page tree node %d has /Parent %v, but is a kid of %d", ref.N, n["Parent"], parent)
			}
		} else if n["Parent"] != nil {
			return 0, fmt.Errorf("page tree root has a /Parent")
		}
		eff := Dict{}
		for k, v := range inh {
			eff[k] = v
		}
		for _, k := range inheritable {
			if v := n[k]; d.R(v) != nil { // null is as good as nothing
				eff[k] = v
			}
		}
		switch d.Name(n["Type"]) {
		case "Page":
			pages = append(pages, &Page{ID: ref.N, D: n, Inh: eff, Index: len(pages)})
			return 1, nil
		case "Pages":
			kids, ok := d.R(n["Kids"]).(Arr)
			if !ok {
				return 0, fmt.Errorf("/Pages node %d has no /Kids", ref.N)
			}
			sum := 0
			for _, k := range kids {
				c, err := walk(k, ref.N, eff)
				if err != nil {
					return 0, err
				}
				sum += c
			}
			cnt, ok := d.Num(n["Count"])
			if !ok || int(cnt) != sum {
				return 0, fmt.Errorf("/Pages node %d has /Count %v but %d pages below it", ref.N, n["Count"], sum)
			}
			return sum, nil
		}
		return 0, fmt.Errorf("page tree node %d has /Type %v", ref.N, n["Type"])
	}
	if _, err := walk(root["Pages"], 0, Dict{}); err != nil {
		return nil, err
	}
	return pages, nil
}

// Dangling lists references reachable from the trailer that lead nowhere.
func (d *Doc) Dangling() []int {
	seen := map[int]bool{}
	miss := map[int]bool{}
	var walk func(o Obj)
	walk = func(o Obj) {
		switch v := o.(type) {
		case Ref:
			if seen[v.N] {
				return
			}
			seen[v.N] = true
			t, ok := d.Objs[v.N]
			if !ok {
				miss[v.N] = true
				return
			}
			walk(t)
		case Dict:
			for _, x := range v {
				walk(x)
			}
		case Arr:
			for _, x := range v {
				walk(x)
			}
		case *Stream:
			walk(v.D)
		}
	}
	walk(d.Trailer)
	var out []int
	for n := range miss {
		out = append(out, n)
	}
	sort.Ints(out)
	return out
}

// ContentBytes is the page's concatenated, decoded content.
func (d *Doc) ContentBytes(p *Page) ([]byte, error) {
	var refs Arr
	switch v := d.R(p.D["Contents"]).(type) {
	case nil:
		if r, isRef := p.D["Contents"].(Ref); isRef {
			if _, ok := d.Objs[r.N]; ok {
				return nil, nil
			}
			return nil, fmt.Errorf("page %d: /Contents leads nowhere", p.Index+1)
		}
		return nil, nil
	case *Stream:
		refs = Arr{v}
	case Arr:
		refs = v
	default:
		return nil, fmt.Errorf("page %d: /Contents is a %T", p.Index+1, v)
	}
	var out []byte
	for _, r := range refs {
		s, ok := d.R(r).(*Stream)
		if !ok {
			return nil, fmt.Errorf("page %d: content part %v is not a stream", p.Index+1, r)
		}
		b, err := d.Decode(s)
		if err != nil {
			return nil, fmt.Errorf("page %d: content: %v", p.Index+1, err)
		}
		out = append(out, b...)
		out = append(out, '\n')
	}
	return out, nil
}

// COp is one content operator with its operands.
type COp struct {
	Op   string
	Args []Obj
}

// ParseContent tokenises a content stream.
func ParseContent(b []byte) (ops []COp, err error) {
	defer func() {
		if r := recover(); r != nil {
			if le, ok := r.(lexErr); ok {
				err = fmt.Errorf("content stream: %s", string(le))
				return
			}
			panic(r)
		}
	}()
	l := &lexer{b: b}
	var args []Obj
	for {
		l.skipWS()
		if l.pos >= len(b) {
			break
		}
		o := l.parse(false)
		if op, ok := o.(Op); ok {
			ops = append(ops, COp{string(op), args})
			args = nil
			continue
		}
		args = append(args, o)
		if len(args) > 10000 {
			return nil, fmt.Errorf("operand overflow")
		}
	}
	if len(args) > 0 {
		return nil, fmt.Errorf("content stream ends with %d operands and no operator", len(args))
	}
	return ops, nil
}

// PageOps returns the page's operators.
func (d *Doc) PageOps(p *Page) ([]COp, error) {
	b, err := d.ContentBytes(p)
	if err != nil {
		return nil, err
	}
	ops, err := ParseContent(b)
	if err != nil {
		return nil, fmt.Errorf("page %d: %v", p.Index+1, err)
	}
	return ops, nil
}

// PageRes looks a named resource up.
func (d *Doc) PageRes(p *Page, cat, name string) (Obj, error) {
	res := d.Dict(p.Inh["Resources"])
	if res == nil {
		return nil, fmt.Errorf("page %d has no /Resources", p.Index+1)
	}
	c := d.Dict(res[cat])
	if c == nil {
		return nil, fmt.Errorf("page %d has no /%s resources (needs /%s)", p.Index+1, cat, name)
	}
	v, ok := c[name]
	if !ok {
		return nil, fmt.Errorf("page %d: /%s resource /%s is not defined", p.Index+1, cat, name)
	}
	if d.R(v) == nil {
		return nil, fmt.Errorf("page %d: /%s resource /%s leads nowhere", p.Index+1, cat, name)
	}
	return v, nil
}

func numsEq(a, b float64) bool {
	return a == b || math.Abs(a-b) < 1e-9*(1+math.Abs(a))
}
