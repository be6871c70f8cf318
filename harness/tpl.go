package main

// Templates: a generator of well-formed PDF files of many shapes and the
// logical document each of them stands for.

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

type TplNode struct {
	Page  int       `json:"p"` // page index, -1 for an inner node
	Kids  []TplNode `json:"k,omitempty"`
	Res   int       `json:"res,omitempty"` // resource set+1
	Media int       `json:"mb,omitempty"`  // media box+1
	Rot   int       `json:"rot,omitempty"`
	Crop  int       `json:"crop,omitempty"`
}
type TplPart struct {
	Snip   []int `json:"s"`
	Filter int   `json:"f"` // 0 none 1 flate 2 hex 3 hex+flate
	LenInd bool  `json:"li,omitempty"`
}
type TplPage struct {
	Res      int       `json:"res"` // resource set+1, 0 none
	ResInd   bool      `json:"ri"`
	Media    int       `json:"mb"`
	MediaInd bool      `json:"mi,omitempty"`
	Rot      int       `json:"rot,omitempty"`
	Crop     int       `json:"crop,omitempty"`
	Contents int       `json:"c"` // 0 none 1 single 2 array 3 ref to array
	Parts    []TplPart `json:"parts,omitempty"`
	Share    bool      `json:"share,omitempty"` // use the content objects of the page before
	Extra    int       `json:"x"`
}
type TplRes struct {
	F    []string `json:"f,omitempty"`
	X    []string `json:"x,omitempty"`
	GS   bool     `json:"gs,omitempty"`
	FInd bool     `json:"fi,omitempty"`
	XInd bool     `json:"xi,omitempty"`
	Proc bool     `json:"ps,omitempty"`
}
type TplSpec struct {
	Tree    TplNode      `json:"tree"`
	Pages   []TplPage    `json:"pages"`
	Res     []TplRes     `json:"res"`
	Medias  [][4]float64 `json:"mbs"`
	EOL     int          `json:"eol"`
	Seed    int          `json:"seed"` // formatting choices, object order and numbering
	Linear  bool         `json:"linear,omitempty"`
	Gaps    bool         `json:"gaps"`
	Scatter bool         `json:"scatter"` // object numbers and file order are shuffled
	Subsec  bool         `json:"subsec"`
	Compact bool         `json:"compact"`
	Hex     bool         `json:"hex"`
	Comment bool         `json:"comment"`
	Info    int          `json:"info"`
	Junk    int          `json:"junk"` // bits: extra things under the catalog
	Update  int          `json:"update"`
	Base    int          `json:"base,omitempty"` // added to all object numbers
	Real    string       `json:"real,omitempty"`
	Pad     int          `json:"pad,omitempty"` // bytes of a long stream, odd: of the first page's content
}

// Tpl is a built template.
type Tpl struct {
	Data  []byte
	Doc   *Doc
	Pages []*Page
}

type tplObj struct {
	v     Obj
	stale Obj
}
type tplBuilder struct {
	s    *TplSpec
	objs []*tplObj // index = label
	rnd  prng
}

// label references are Ref{-1-label, 0} until numbering
func (b *tplBuilder) add(v Obj) Ref {
	b.objs = append(b.objs, &tplObj{v: v})
	return Ref{-len(b.objs), 0}
}

func num(f float64) Num {
	return Num{f, f == float64(int64(f))}
}
func arrOf(m [4]float64) Arr {
	return Arr{num(m[0]), num(m[1]), num(m[2]), num(m[3])}
}

func encodeStream(data []byte, filter int) ([]byte, Obj) {
	hex := func(d []byte) []byte { return []byte(fmt.Sprintf("%x>", d)) }
	fl := func(d []byte) []byte {
		var z bytes.Buffer
		w := zlib.NewWriter(&z)
		w.Write(d)
		w.Close()
		return z.Bytes()
	}
	switch filter {
	case 1:
		return fl(data), Name("FlateDecode")
	case 2:
		return hex(data), Arr{Name("ASCIIHexDecode")}
	case 3:
		return hex(fl(data)), Arr{Name("ASCIIHexDecode"), Name("FlateDecode")}
	}
	return data, nil
}

func (b *tplBuilder) stream(d Dict, data []byte, filter int, lenInd bool) Ref {
	raw, f := encodeStream(data, filter)
	if f != nil {
		d["Filter"] = f
	}
	if lenInd {
		d["Length"] = b.add(num(float64(len(raw))))
	} else {
		d["Length"] = num(float64(len(raw)))
	}
	return b.add(&Stream{d, raw})
}

var oddStrings = []string{"plain", "a(b)c", "un)bal\\anced(", ">> endobj stream", "\r\n\t\x00\xff\x80", "", "(((", "[1 0 R]", "\ttab\nline\n\nnext\b\f\x0712\x018", "nest (a (b)\n(c)) 7", "\r\rends\x10", "\n", "long " + strings.Repeat("0123456789 (x) ", 20)}

func (b *tplBuilder) snippet(k, page, part int, res *TplRes) string {
	mk := fmt.Sprintf("p%d_%d_%d", page, part, k)
	switch k % 12 {
	case 0:
		if res != nil && len(res.F) > 0 {
			return fmt.Sprintf("BT /%s 12 Tf 10 20 Td (%s) Tj ET", escName(res.F[k%len(res.F)]), mk)
		}
		return "/" + mk + " MP"
	case 1:
		return fmt.Sprintf("q 1 0 0 1 %d 5 cm 0.5 g 10 10 30 30 re f Q", page)
	case 2:
		return "1 0 0 -1 0 300 cm"
	case 3:
		return "2 Tr 0.7 0.2 0.1 rg 0 1 0 RG 3 w [4 2] 1 d 1 J"
	case 4:
		if res != nil && len(res.X) > 0 {
			return fmt.Sprintf("q 20 0 0 20 0 0 cm /%s Do Q", escName(res.X[k%len(res.X)]))
		}
		return "/" + mk + " MP"
	case 5:
		return "0 0 200 200 re W n"
	case 6:
		if res != nil && res.GS {
			return "/GS0 gs"
		}
		return "0.1 0.2 0.3 0.4 k"
	case 7:
		return "BT 3 Tc 5 Tw 50 Tz 4 Ts 14 TL ET"
	case 8:
		return "% xref trailer startxref <</Root\n0 0 m 5 5 l S"
	case 9:
		return "/Span <</ActualText (a\\)b)>> BDC /" + mk + " MP EMC"
	case 10:
		return "BT (a\\(b\\)\\\\ endobj " + mk + ") Tj <48 65> Tj [(x) -120.5 (y)] TJ ET"
	}
	return fmt.Sprintf("%d 0 0 rg -.5 +7 4. .25 re f*", page%2)
}

// null sets entries d does not have to null (sometimes), which is as good as not having them.
func (b *tplBuilder) null(d Dict, salt int, keys ...string) {
	for i, k := range keys {
		if hasKey(d, k) {
			continue
		}
		switch (b.s.Seed/3 + 5*salt + 3*i) % 17 {
		case 1:
			d[k] = nil
		case 2:
			d[k] = b.add(nil)
		}
	}
}

func (b *tplBuilder) resObj(r *TplRes, fonts, xobjs map[string]Ref) Dict {
	d := Dict{}
	if len(r.F) > 0 {
		f := Dict{}
		for _, n := range r.F {
			f[n] = fonts[n]
		}
		if r.FInd {
			d["Font"] = b.add(f)
		} else {
			d["Font"] = f
		}
	}
	if len(r.X) > 0 {
		f := Dict{}
		for _, n := range r.X {
			f[n] = xobjs[n]
		}
		if r.XInd {
			d["XObject"] = b.add(f)
		} else {
			d["XObject"] = f
		}
	}
	if r.GS {
		d["ExtGState"] = Dict{"GS0": Dict{"Type": Name("ExtGState"), "ca": Num{0.5, false}, "LW": num(7)}}
	}
	if r.Proc {
		d["ProcSet"] = Arr{Name("PDF"), Name("Text")}
	}
	b.null(d, len(b.objs), "Font", "XObject")
	return d
}

// Build makes the file and its logical document.
func (s *TplSpec) Build() *Tpl {
	if s.Real != "" {
		panic(harnessBug("real template"))
	}
	b := &tplBuilder{s: s, rnd: prng(s.Seed*7919 + 17)}
	catRef := b.add(nil)
	// resource sets
	var setInd, setInline []Obj
	for k := range s.Res {
		r := &s.Res[k]
		fonts, xobjs := map[string]Ref{}, map[string]Ref{}
		for _, n := range r.F {
			fonts[n] = b.add(Dict{"Type": Name("Font"), "Subtype": Name("Type1"), "BaseFont": Name(fmt.Sprintf("TplFont%d-%s", k, n))})
		}
		for i, n := range r.X {
			if i%2 == 0 {
				xobjs[n] = b.stream(Dict{"Type": Name("XObject"), "Subtype": Name("Image"), "Width": num(1), "Height": num(1), "ColorSpace": Name("DeviceGray"), "BitsPerComponent": num(8), "Marker": Str(fmt.Sprintf("set%d %s", k, n))}, []byte{byte(40*k + i)}, i%3, false)
			} else {
				xobjs[n] = b.stream(Dict{"Type": Name("XObject"), "Subtype": Name("Form"), "BBox": Arr{num(0), num(0), num(1), num(1)}, "Resources": Dict{}}, []byte(fmt.Sprintf("0.%d g 0 0 1 1 re f", k)), i%3, false)
			}
		}
		setInline = append(setInline, b.resObj(r, fonts, xobjs))
		setInd = append(setInd, b.add(b.resObj(r, fonts, xobjs)))
	}
	mediaInd := map[int]Ref{}
	pageRefs := make([]Ref, len(s.Pages))
	for i := range s.Pages {
		pageRefs[i] = b.add(nil)
	}
	// effective resource set of each page, for its content
	effRes := make([]int, len(s.Pages))
	var walk func(n *TplNode, inh int)
	walk = func(n *TplNode, inh int) {
		if n.Page >= 0 {
			effRes[n.Page] = inh
			if s.Pages[n.Page].Res > 0 {
				effRes[n.Page] = s.Pages[n.Page].Res
			}
			return
		}
		if n.Res > 0 {
			inh = n.Res
		}
		for i := range n.Kids {
			walk(&n.Kids[i], inh)
		}
	}
	walk(&s.Tree, 0)
	var lastParts Arr
	lastSet := -1
	for i := range s.Pages {
		p := &s.Pages[i]
		d := Dict{"Type": Name("Page")}
		if p.Res > 0 {
			if p.ResInd {
				d["Resources"] = setInd[p.Res-1]
			} else {
				d["Resources"] = setInline[p.Res-1]
			}
		}
		if p.Media > 0 {
			m := arrOf(s.Medias[p.Media-1])
			if p.MediaInd {
				if _, ok := mediaInd[p.Media]; !ok {
					mediaInd[p.Media] = b.add(m)
				}
				d["MediaBox"] = mediaInd[p.Media]
			} else {
				d["MediaBox"] = m
			}
		}
		if p.Rot > 0 {
			d["Rotate"] = num(float64(90 * p.Rot % 360))
		}
		if p.Crop > 0 {
			d["CropBox"] = Arr{num(1), num(2), num(float64(100 * p.Crop)), num(150)}
		}
		b.null(d, i, "Resources", "MediaBox", "CropBox", "Rotate")
		var parts Arr
		if p.Share && lastParts != nil && lastSet == effRes[i] {
			parts = lastParts
		} else {
			var res *TplRes
			if effRes[i] > 0 {
				res = &s.Res[effRes[i]-1]
			}
			for j, pt := range p.Parts {
				var sb strings.Builder
				fmt.Fprintf(&sb, "/Mark%d_%d MP\n", i, j)
				if i == 0 && j == 0 && s.Pad%2 == 1 {
					for sb.Len() < s.Pad {
						sb.WriteString("% a long comment: q BT (x) Tj 1 0 0 1 5 5 cm\n")
					}
				}
				for _, k := range pt.Snip {
					sb.WriteString(b.snippet(k, i, j, res))
					sb.WriteString("\n")
				}
				parts = append(parts, b.stream(Dict{}, []byte(sb.String()), pt.Filter, pt.LenInd))
			}
			lastParts, lastSet = parts, effRes[i]
		}
		switch p.Contents {
		case 0: // null is as good as nothing
			switch (s.Seed + p.Extra) % 8 {
			case 1:
				d["Contents"] = nil
			case 2:
				d["Contents"] = b.add(nil)
			}
		case 1:
			if len(parts) > 0 {
				d["Contents"] = parts[0]
			}
		case 2:
			d["Contents"] = append(Arr{}, parts...)
		case 3:
			d["Contents"] = b.add(append(Arr{}, parts...))
		}
		if p.Extra&1 != 0 {
			an := b.add(Dict{"Type": Name("Annot"), "Subtype": Name("Text"), "Rect": arrOf([4]float64{1, 2, 3, 4}), "P": pageRefs[i], "Contents": Str(oddStrings[(i+p.Extra)%len(oddStrings)])})
			d["Annots"] = Arr{an, Dict{"Subtype": Name("Link"), "Dest": Arr{pageRefs[len(pageRefs)-1-i], Name("Fit")}}}
		}
		if p.Extra&2 != 0 {
			d["Group"] = Dict{"S": Name("Transparency"), "CS": Name("DeviceRGB"), "I": true}
			d["StructParents"] = num(float64(i))
		}
		if p.Extra&4 != 0 {
			d["PieceInfo"] = Dict{"A b": Dict{"Private": Arr{Arr{}, Dict{}, nil, false, Str(oddStrings[(i+2)%len(oddStrings)]), Num{-0.5, false}, Name("A#B/(x)")}}}
			d["LastModified"] = Str("D:2020")
		}
		if p.Extra&8 != 0 {
			d["Kids2"] = Arr{pageRefs[0]}
			d["MediaBoxes"] = Name("Contents")
			d["XResources"] = Dict{"Font": Dict{"F1": Name("no")}, "Contents": num(5)}
		}
		if p.Extra&16 != 0 {
			d["Font"] = Dict{"Resources": Arr{num(1), Ref{pageRefs[i].N, 0}}}
			d["Thumb"] = b.stream(Dict{"Width": num(1)}, []byte("thumb endobj\r\nendstream? no \x00\x01"), 0, false)
		}
		if p.Extra&32 != 0 {
			d["B"] = Arr{}
			d["AA"] = Dict{}
			d["Tabs"] = Name("S")
			d["TemplateInstantiated"] = Name("")
			d["Dur"] = num(0)
			d["ID"] = Str("")
			if s.Seed%17 == 3 { // deeply nested
				var deep Obj = Name("Deep")
				for k := 0; k < 10+s.Seed%60; k++ {
					if (s.Seed+k)%3 == 0 {
						deep = Dict{"D": deep, "R": Ref{pageRefs[0].N, 0}}
					} else {
						deep = Arr{deep, num(float64(k))}
					}
				}
				d["PieceInfo"] = Dict{"P": deep}
			}
		}
		b.objs[-pageRefs[i].N-1].v = d
	}
	// tree
	var mk func(n *TplNode, parent Ref) (Ref, int)
	mk = func(n *TplNode, parent Ref) (Ref, int) {
		if n.Page >= 0 {
			b.objs[-pageRefs[n.Page].N-1].v.(Dict)["Parent"] = parent
			return pageRefs[n.Page], 1
		}
		d := Dict{"Type": Name("Pages")}
		me := b.add(d)
		if parent.N != 0 {
			d["Parent"] = parent
		}
		kids := Arr{}
		cnt := 0
		for i := range n.Kids {
			r, c := mk(&n.Kids[i], me)
			kids = append(kids, r)
			cnt += c
		}
		d["Kids"] = kids
		if b.rnd.next()%6 == 0 {
			d["Kids"] = b.add(kids)
		}
		d["Count"] = num(float64(cnt))
		if n.Res > 0 {
			if b.rnd.next()%2 == 0 {
				d["Resources"] = setInd[n.Res-1]
			} else {
				d["Resources"] = setInline[n.Res-1]
			}
		}
		if n.Media > 0 {
			d["MediaBox"] = arrOf(s.Medias[n.Media-1])
		}
		if n.Rot > 0 {
			d["Rotate"] = num(float64(90 * n.Rot % 360))
		}
		b.null(d, cnt, "Resources", "MediaBox", "Rotate")
		if n.Crop > 0 {
			d["CropBox"] = Arr{num(3), num(4), num(float64(100 * n.Crop)), num(99)}
		}
		return me, cnt
	}
	rootPages, _ := mk(&s.Tree, Ref{})
	cat := Dict{"Type": Name("Catalog"), "Pages": rootPages}
	if s.Junk&1 != 0 {
		cat["ViewerPreferences"] = Dict{"DisplayDocTitle": true}
		cat["Lang"] = Str("th-TH")
	}
	if s.Junk&2 != 0 {
		cat["Junk"] = Arr{b.add(Arr{num(1), Str("x)y"), nil}), b.add(num(42)), b.add(Str(oddStrings[s.Seed%len(oddStrings)])), b.add(Name("A B")),
			b.stream(Dict{"Note": Str("a\\b(")}, []byte("\x00\xffbinary endobj 7 0 obj endstreamX\r\n"), 0, false),
			b.stream(Dict{}, nil, 0, false)}
		if s.Seed%3 == 0 {
			cat["Junk2"] = b.stream(Dict{}, []byte("an endstream within\nendstream\n\x01\x02 and more\r"), 0, true)
		}
	}
	if s.Pad > 0 && s.Pad%2 == 0 {
		long := make([]byte, s.Pad)
		for i := range long {
			long[i] = byte(b.rnd.next())
		}
		cat["Long"] = b.stream(Dict{}, []byte(fmt.Sprintf("%x", long[:s.Pad/2])), s.Seed%2, s.Seed%3 == 0)
	}
	if s.Junk&4 != 0 {
		o1 := b.add(nil)
		o2 := b.add(Dict{"Title": Str("\xfe\xff\x00A"), "Parent": o1, "Dest": Arr{pageRefs[0], Name("XYZ"), num(0), num(0), nil}})
		b.objs[-o1.N-1].v = Dict{"Type": Name("Outlines"), "First": o2, "Last": o2, "Count": num(1)}
		cat["Outlines"] = o1
	}
	if s.Junk&8 != 0 {
		cat["AcroForm"] = Dict{"Fields": Arr{}, "DR": Dict{"Font": Dict{"Helv": b.add(Dict{"Type": Name("Font"), "Subtype": Name("Type1"), "BaseFont": Name("Helvetica")})}}}
	}
	b.objs[-catRef.N-1].v = cat
	trailer := Dict{"Root": catRef}
	if s.Info > 0 {
		trailer["Info"] = b.add(Dict{"Title": Str(oddStrings[s.Info%len(oddStrings)]), "Producer": Str("tplgen"), "CreationDate": Str("D:20200101000000Z")})
	}
	if s.Info > 0 && s.Update > 0 && s.Seed%5 == 2 {
		trailer["StaleInfo"] = b.add(Dict{"Title": Str("stale info")})
	}
	if s.Seed%2 == 1 {
		trailer["ID"] = Arr{Str("0123456789abcdef"), Str("0123456789abcdef")}
	}
	return b.finish(trailer)
}

// key writes a key of a dictionary; some templates escape characters of
// resource names that need no escape.
func (b *tplBuilder) key(k string) string {
	if b.s.Seed%6 == 5 {
		for _, r := range b.s.Res {
			for _, n := range append(append([]string{}, r.F...), r.X...) {
				if n == k {
					i := int(b.rnd.next()) % len(k)
					return escName(k[:i]) + fmt.Sprintf("#%02x", k[i]) + escName(k[i+1:])
				}
			}
		}
	}
	return escName(k)
}

func escName(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !isReg(c) || c == '#' || c < 0x21 || c > 0x7e {
			fmt.Fprintf(&sb, "#%02X", c)
		} else {
			sb.WriteByte(c)
		}
	}
	return sb.String()
}

// finish numbers the objects and writes the file.
func (b *tplBuilder) finish(trailer Dict) *Tpl {
	s := b.s
	n := len(b.objs)
	// numbering
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	if s.Scatter {
		for i := n - 1; i > 0; i-- {
			j := int(b.rnd.next()) % (i + 1)
			order[i], order[j] = order[j], order[i]
		}
	}
	ids := make([]int, n)
	next := 1 + s.Base
	for _, o := range order {
		if s.Gaps && b.rnd.next()%3 == 0 {
			next += int(b.rnd.next()) % 4
		}
		ids[o] = next
		next++
	}
	var fix func(o Obj) Obj
	fix = func(o Obj) Obj {
		switch v := o.(type) {
		case Ref:
			if v.N < 0 {
				return Ref{ids[-v.N-1], 0}
			}
			return v
		case Dict:
			d := Dict{}
			for k, x := range v {
				d[k] = fix(x)
			}
			return d
		case Arr:
			a := make(Arr, len(v))
			for i, x := range v {
				a[i] = fix(x)
			}
			return a
		case *Stream:
			return &Stream{fix(v.D).(Dict), v.Raw}
		}
		return o
	}
	doc := &Doc{Objs: map[int]Obj{}, Trailer: fix(trailer).(Dict)}
	for i, o := range b.objs {
		doc.Objs[ids[i]] = fix(o.v)
	}
	// the update names another catalog
	oldRoot := s.Update > 0 && s.Seed%7 == 3
	rootX := next
	if oldRoot {
		next += 2
	}
	staleInfo := doc.Trailer["StaleInfo"]
	delete(doc.Trailer, "StaleInfo")
	eol := []string{"\n", "\r\n", "\r"}[s.EOL%3]
	var out bytes.Buffer
	out.WriteString([]string{"%PDF-1.4", "%PDF-1.7", "%PDF-1.3"}[s.Seed%3] + eol)
	if s.Seed%4 != 0 {
		out.WriteString("%\xe2\xe3\xcf\xd3" + eol)
	}
	offs := map[int]int{}
	// a part of the cross-reference table before the objects, as in linearized files
	inFirst := map[int]bool{}
	firstAt, patchAt := 0, 0
	ent := []string{" \n", "\r\n", " \r"}[s.EOL%3]
	if s.Linear && s.Update == 0 {
		firstAt = out.Len()
		out.WriteString("xref" + eol)
		for i := range b.objs {
			if b.rnd.next()%2 == 0 {
				inFirst[ids[i]] = true
			}
		}
		for id := 1; id < next; id++ {
			if inFirst[id] {
				fmt.Fprintf(&out, "%d 1%s%010d 00000 n%s", id, eol, 0, ent)
			}
		}
		tr := Dict{"Size": num(float64(next))}
		for k, v := range doc.Trailer {
			tr[k] = v
		}
		tr["Prev"] = Num{7777777777, true}
		at := out.Len()
		out.WriteString("trailer" + eol)
		b.write(&out, tr, 0)
		patchAt = at + bytes.Index(out.Bytes()[at:], []byte("7777777777"))
		fmt.Fprintf(&out, "%sstartxref%s0%s%%%%EOF%s", eol, eol, eol, eol)
	}
	writeObj := func(id int, o Obj) {
		offs[id] = out.Len()
		sep := eol
		if s.Compact {
			sep = " "
		}
		fmt.Fprintf(&out, "%d 0 obj%s", id, sep)
		b.comment(&out, eol)
		if st, ok := o.(*Stream); ok {
			b.write(&out, st.D, 0)
			out.WriteString(eol)
			out.WriteString("stream")
			if s.EOL == 1 {
				out.WriteString("\r\n")
			} else {
				out.WriteString("\n")
			}
			out.Write(st.Raw)
			out.WriteString(eol + "endstream")
		} else {
			b.write(&out, o, 0)
			if s.Comment && !s.Compact {
				out.WriteString(eol)
				b.comment(&out, eol)
			}
		}
		out.WriteString(eol + "endobj" + eol)
		if s.Comment && b.rnd.next()%4 == 0 {
			out.WriteString("% between objects 1 2" + eol)
		}
	}
	var all []int
	for _, o := range order {
		all = append(all, o)
	}
	if s.Scatter {
		for i := n - 1; i > 0; i-- {
			j := int(b.rnd.next()) % (i + 1)
			all[i], all[j] = all[j], all[i]
		}
	}
	updated := map[int]bool{}
	if s.Update > 0 {
		for k := 0; k < s.Update; k++ {
			updated[int(b.rnd.next())%n] = true
		}
	}
	fresh := map[int]bool{} // objects that only exist in the update
	for _, o := range all {
		id := ids[o]
		v := doc.Objs[id]
		if updated[o] {
			if b.rnd.next()%3 == 0 {
				d, _ := v.(Dict)
				if _, isCat := d["Pages"]; !isCat {
					fresh[id] = true
					continue
				}
			}
			v = staleOf(v)
		}
		writeObj(id, v)
	}
	writeXref := func(idsIn map[int]int, full bool, prev int) int {
		at := out.Len()
		out.WriteString("xref" + eol)
		var list []int
		for id := range idsIn {
			list = append(list, id)
		}
		sort.Ints(list)
		maxID := 0
		if len(list) > 0 {
			maxID = list[len(list)-1]
		}
		if full && !s.Subsec && s.Base == 0 {
			fmt.Fprintf(&out, "0 %d%s", maxID+1, eol)
			out.WriteString("0000000000 65535 f" + ent)
			for id := 1; id <= maxID; id++ {
				if o, ok := idsIn[id]; ok {
					fmt.Fprintf(&out, "%010d 00000 n%s", o, ent)
				} else {
					out.WriteString("0000000000 00001 f" + ent)
				}
			}
		} else {
			if full {
				out.WriteString("0 1" + eol + "0000000000 65535 f" + ent)
			}
			for i := 0; i < len(list); {
				j := i
				for j+1 < len(list) && list[j+1] == list[j]+1 {
					j++
				}
				fmt.Fprintf(&out, "%d %d%s", list[i], j-i+1, eol)
				for ; i <= j; i++ {
					fmt.Fprintf(&out, "%010d 00000 n%s", idsIn[list[i]], ent)
				}
			}
		}
		out.WriteString("trailer" + eol)
		tr := Dict{"Size": num(float64(next))}
		for k, v := range doc.Trailer {
			tr[k] = v
		}
		if prev >= 0 {
			tr["Prev"] = num(float64(prev))
		} else if len(updated) > 0 { // the trailer of the first version
			if oldRoot {
				tr["Root"] = Ref{rootX, 0}
			}
			if staleInfo != nil {
				tr["Info"] = staleInfo
			} else if s.Seed%5 == 1 {
				delete(tr, "Info")
			}
		}
		b.write(&out, tr, 0)
		fmt.Fprintf(&out, "%sstartxref%s%d%s%%%%EOF%s", eol, eol, at, eol, eol)
		return at
	}
	if oldRoot && len(updated) > 0 {
		writeObj(rootX, Dict{"Type": Name("Catalog"), "Pages": Ref{rootX + 1, 0}})
		writeObj(rootX+1, Dict{"Type": Name("Pages"), "Kids": Arr{}, "Count": num(0)})
	}
	base := map[int]int{}
	for k, v := range offs {
		base[k] = v
	}
	if firstAt > 0 {
		at := out.Len()
		out.WriteString("xref" + eol + "0 1" + eol + "0000000000 65535 f" + ent)
		for id := 1; id < next; id++ {
			if o, ok := base[id]; ok && !inFirst[id] {
				fmt.Fprintf(&out, "%d 1%s%010d 00000 n%s", id, eol, o, ent)
			}
		}
		fmt.Fprintf(&out, "trailer%s<</Size %d>>%sstartxref%s%d%s%%%%EOF%s", eol, next, eol, eol, firstAt, eol, eol)
		data := out.Bytes()
		copy(data[patchAt:], fmt.Sprintf("%010d", at))
		// the offsets of the first part
		q := firstAt + bytes.Index(data[firstAt:], []byte("xref"+eol)) + 4 + len(eol)
		for id := 1; id < next; id++ {
			if inFirst[id] {
				q += len(fmt.Sprintf("%d 1%s", id, eol))
				copy(data[q:], fmt.Sprintf("%010d", base[id]))
				q += len("0000000000 00000 n") + len(ent)
			}
		}
		doc.Data = data
		pages, err := doc.Pages()
		if err != nil {
			panic(harnessBug("own template: " + err.Error()))
		}
		return &Tpl{data, doc, pages}
	}
	at := writeXref(base, true, -1)
	if len(updated) > 0 {
		offs = map[int]int{}
		for _, o := range all {
			if updated[o] {
				writeObj(ids[o], doc.Objs[ids[o]])
			}
		}
		up := map[int]int{}
		for k, v := range offs {
			up[k] = v
		}
		writeXref(up, false, at)
	}
	doc.Data = out.Bytes()
	pages, err := doc.Pages()
	if err != nil {
		panic(harnessBug("own template: " + err.Error()))
	}
	return &Tpl{out.Bytes(), doc, pages}
}

func staleOf(o Obj) Obj {
	switch v := o.(type) {
	case Dict:
		d := Dict{}
		for k, x := range v {
			d[k] = x
		}
		d["Stale"] = true
		if _, ok := d["MediaBox"]; ok {
			d["MediaBox"] = Arr{num(0), num(0), num(11), num(13)}
		}
		delete(d, "Resources")
		if k, ok := d["Kids"].(Arr); ok {
			r := Arr{}
			for i := len(k) - 1; i >= 0; i-- {
				r = append(r, k[i])
			}
			d["Kids"] = r
		}
		return d
	case *Stream:
		raw := []byte("/Stale MP")
		return &Stream{Dict{"Length": num(float64(len(raw)))}, raw}
	case Arr:
		return Arr{Name("Stale")}
	}
	return o
}

// write serialises with the template's formatting style.
func (b *tplBuilder) write(out *bytes.Buffer, o Obj, depth int) {
	s := b.s
	eol := []string{"\n", "\r\n", "\r"}[s.EOL%3]
	sp := " "
	if !s.Compact && b.rnd.next()%5 == 0 {
		sp = eol
	}
	switch v := o.(type) {
	case nil:
		out.WriteString("null")
	case bool:
		fmt.Fprint(out, v)
	case Num:
		if v.Int {
			out.WriteString(strconv.FormatInt(int64(v.F), 10))
		} else {
			out.WriteString(strconv.FormatFloat(v.F, 'f', -1, 64))
		}
	case Name:
		out.WriteString("/" + escName(string(v)))
	case Ref:
		fmt.Fprintf(out, "%d%s0%sR", v.N, b.space(), b.space())
	case Str:
		b.writeStr(out, string(v))
	case Arr:
		out.WriteByte('[')
		for i, x := range v {
			if i > 0 {
				out.WriteString(sp)
				b.comment(out, eol)
			}
			b.write(out, x, depth+1)
		}
		if !s.Compact {
			out.WriteString(b.space())
			b.comment(out, eol)
		}
		out.WriteByte(']')
	case Dict:
		var ks []string
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if len(ks) > 1 && b.rnd.next()%2 == 0 {
			r := int(b.rnd.next()) % len(ks)
			ks = append(append([]string{}, ks[r:]...), ks[:r]...)
		}
		out.WriteString("<<")
		if !s.Compact {
			out.WriteString(b.space())
			out.WriteString(eol)
		}
		for _, k := range ks {
			out.WriteString("/" + b.key(k))
			x := v[k]
			delim := false
			switch x.(type) {
			case Name, Str, Arr, Dict:
				delim = true
			}
			if !(delim && s.Compact) {
				out.WriteString(b.space())
				b.comment(out, eol)
			}
			b.write(out, x, depth+1)
			if s.Compact {
				// the next token is a name or >>: no space needed
			} else {
				if s.Comment && b.rnd.next()%6 == 0 {
					out.WriteString(" % note /Type >>" + eol)
				}
				out.WriteString(eol)
			}
		}
		out.WriteString(">>")
	default:
		panic(harnessBug(fmt.Sprintf("write %T", o)))
	}
}

// space is the white space between two tokens, usually one space.
func (b *tplBuilder) space() string {
	if b.s.Seed%4 != 1 {
		return " "
	}
	return []string{" ", " ", " ", "  ", "\t", "\f", "\x00", "\n", "\r\n", " \r"}[b.rnd.next()%10]
}

// comment writes a comment where white space may be.
func (b *tplBuilder) comment(out *bytes.Buffer, eol string) {
	if b.s.Comment && !b.s.Compact && b.s.Seed%2 == 1 && b.rnd.next()%12 == 0 {
		out.WriteString("% 7 0 R ] (note" + eol)
	}
}

// writeStr writes a string in one of the many ways there are to write it.
func (b *tplBuilder) writeStr(out *bytes.Buffer, v string) {
	if b.s.Hex || b.rnd.next()%4 == 0 {
		f := []string{"%x", "%X", "% x"}[b.rnd.next()%3]
		h := fmt.Sprintf(f, v)
		if strings.HasSuffix(h, "0") && b.rnd.next()%2 == 0 {
			h = h[:len(h)-1] // a missing last digit is 0
		}
		if b.s.Seed%4 == 1 {
			for i := strings.IndexByte(h, ' '); i >= 0; i = strings.IndexByte(h, ' ') {
				h = h[:i] + strings.ReplaceAll(b.space(), " ", "\t") + h[i+1:]
			}
		}
		out.WriteString("<" + h + ">")
		return
	}
	fancy := b.rnd.next()%2 == 0
	balanced := func() bool {
		d := 0
		for _, c := range []byte(v) {
			switch c {
			case '(':
				d++
			case ')':
				d--
			}
			if d < 0 {
				return false
			}
		}
		return d == 0
	}()
	rawParens := balanced && b.rnd.next()%2 == 0
	out.WriteByte('(')
	for i := 0; i < len(v); i++ {
		c := v[i]
		if fancy && b.rnd.next()%12 == 0 {
			out.WriteString([]string{"\\\n", "\\\r\n"}[b.rnd.next()%2]) // continued on the next line
		}
		octal := func() {
			if i+1 < len(v) && v[i+1] >= '0' && v[i+1] <= '7' {
				fmt.Fprintf(out, "\\%03o", c)
			} else {
				fmt.Fprintf(out, "\\%o", c)
			}
		}
		short := map[byte]string{'\n': "\\n", '\r': "\\r", '\t': "\\t", '\b': "\\b", '\f': "\\f"}[c]
		switch {
		case (c == '(' || c == ')') && rawParens:
			out.WriteByte(c)
		case c == '(' || c == ')' || c == '\\':
			if fancy && b.rnd.next()%3 == 0 {
				octal()
				break
			}
			out.WriteByte('\\')
			out.WriteByte(c)
		case short != "" && (c == '\r' || fancy && b.rnd.next()%2 == 0):
			if fancy && b.rnd.next()%2 == 0 {
				octal()
				break
			}
			out.WriteString(short)
		case c == '\n' && fancy && b.rnd.next()%2 == 0:
			if i+1 < len(v) && v[i+1] == '\n' {
				out.WriteString("\r\n")
			} else {
				out.WriteString([]string{"\r", "\r\n"}[b.rnd.next()%2])
			}
		case c == 0 || fancy && b.rnd.next()%6 == 0:
			octal()
		default:
			out.WriteByte(c)
		}
	}
	out.WriteByte(')')
}

var fontNamePool = []string{"F1", "F2", "F9", "F10", "TT1", "F 1", "C2_0", "F007", "Fi", "F", "F99", "F100", "F9999"}
var xobjNamePool = []string{"I1", "I2", "Im1", "I10", "X0", "I 1", "I03", "I99", "I100", "I9999"}

// drawTpl draws a template specification.
func drawTpl(t *rapid.T, maxPages int) TplSpec {
	s := TplSpec{}
	np := ir(t, 1, maxPages, "np")
	s.Medias = [][4]float64{{0, 0, 595, 842}}
	for i, n := 0, ir(t, 0, 3, "nm"); i < n; i++ {
		var m [4]float64
		switch ir(t, 0, 4, "mk") {
		case 0:
			m = [4]float64{0, 0, float64(ir(t, 50, 1200, "mw")), float64(ir(t, 50, 1200, "mh"))}
		case 1:
			m = [4]float64{0, 0, 419.53, 595.28}
		case 2:
			m = [4]float64{0, float64(ir(t, 50, 900, "mh")), 300, 0} // corners swapped
		case 3:
			m = [4]float64{-20, -30.5, 200.25, float64(ir(t, 10, 400, "mh"))}
		case 4:
			m = [4]float64{10, 20, 310, 420.125}
		}
		s.Medias = append(s.Medias, m)
	}
	for k, n := 0, ir(t, 0, 3, "nres"); k < n; k++ {
		r := TplRes{GS: chance(t, 40, "gs"), FInd: chance(t, 40, "find"), XInd: chance(t, 40, "xind"), Proc: chance(t, 30, "ps")}
		if chance(t, 75, "hasF") {
			r.F = rapid.SliceOfNDistinct(rapid.SampledFrom(fontNamePool), 1, 3, func(s string) string { return s }).Draw(t, "fn")
		}
		if chance(t, 60, "hasX") {
			r.X = rapid.SliceOfNDistinct(rapid.SampledFrom(xobjNamePool), 1, 3, func(s string) string { return s }).Draw(t, "xn")
		}
		s.Res = append(s.Res, r)
	}
	nres := len(s.Res)
	for i := 0; i < np; i++ {
		p := TplPage{Res: ir(t, 0, nres, "pres"), ResInd: chance(t, 50, "pri"), MediaInd: chance(t, 25, "pmi"), Extra: ir(t, 0, 63, "px")}
		p.Media = ir(t, 0, len(s.Medias), "pm")
		if chance(t, 15, "prot") {
			p.Rot = ir(t, 1, 4, "rot")
		}
		if chance(t, 15, "pcrop") {
			p.Crop = ir(t, 1, 3, "crop")
		}
		p.Contents = oneof(t, []int{1, 1, 1, 2, 2, 3, 0}, "pc")
		p.Share = i > 0 && chance(t, 15, "pshare")
		nparts := 1
		if p.Contents >= 2 {
			nparts = ir(t, 0, 3, "nparts")
		}
		for j := 0; j < nparts; j++ {
			pt := TplPart{Filter: ir(t, 0, 3, "pf"), LenInd: chance(t, 20, "li")}
			pt.Snip = rapid.SliceOfN(rapid.IntRange(0, 35), 0, 4).Draw(t, "snip")
			p.Parts = append(p.Parts, pt)
		}
		s.Pages = append(s.Pages, p)
	}
	// tree over pages lo..hi-1
	var tree func(lo, hi, depth int) TplNode
	tree = func(lo, hi, depth int) TplNode {
		n := TplNode{Page: -1}
		if nres > 0 && chance(t, 30, "nres") {
			n.Res = ir(t, 1, nres, "nr")
		}
		if depth == 0 || chance(t, 30, "nmb") {
			n.Media = ir(t, 0, len(s.Medias), "nmed")
		}
		if chance(t, 8, "nrot") {
			n.Rot = ir(t, 1, 4, "rot")
		}
		if chance(t, 8, "ncrop") {
			n.Crop = ir(t, 1, 3, "crop")
		}
		for lo < hi {
			if depth < 3 && chance(t, 35, "sub") {
				k := ir(t, 1, hi-lo, "subn")
				n.Kids = append(n.Kids, tree(lo, lo+k, depth+1))
				lo += k
			} else {
				n.Kids = append(n.Kids, TplNode{Page: lo})
				lo++
			}
		}
		return n
	}
	s.Tree = tree(0, np, 0)
	s.EOL = ir(t, 0, 2, "eol")
	s.Seed = ir(t, 0, 10000, "seed")
	s.Gaps = chance(t, 40, "gaps")
	s.Scatter = chance(t, 50, "scatter")
	s.Subsec = chance(t, 40, "subsec")
	s.Linear = chance(t, 8, "linear")
	s.Compact = chance(t, 40, "compact")
	s.Hex = chance(t, 20, "hex")
	s.Comment = chance(t, 20, "comment")
	s.Info = ir(t, 0, 9, "info")
	s.Junk = ir(t, 0, 15, "junk")
	if chance(t, 3, "base") {
		s.Base = oneof(t, []int{6, 93, 97, 250, 990, 9990}, "basev")
	}
	if chance(t, 3, "pad") {
		s.Pad = oneof(t, []int{5000, 5001, 33000, 33001, 70000, 70001}, "padv")
		if chance(t, 10, "verylong") {
			s.Pad = oneof(t, []int{1050000, 300001}, "padvv")
		}
	}
	if chance(t, 20, "upd") {
		s.Update = ir(t, 1, 5, "update")
	}
	return s
}
