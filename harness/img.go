package main

// Images: generators (own PNG writer, stdlib JPEG) and decoding of PDF image objects to pixels.

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"image"
	"image/color"
	"image/jpeg"
	"image/png"
	"math"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"
)

type ImgSpec struct {
	Real   string `json:"real,omitempty"`
	Kind   string `json:"kind,omitempty"` // png, jpg
	W      int    `json:"w"`
	H      int    `json:"h"`
	CT     int    `json:"ct"`
	Depth  int    `json:"depth"`
	Seed   int    `json:"seed"`
	Filter int    `json:"filter"` // 0..4 fixed, 5 varying
	Chunk  int    `json:"chunk"`  // IDAT chunk size, 0 = one
	Pal    int    `json:"pal,omitempty"`
	Trns   int    `json:"trns"` // 0 none, 1 one transparent colour
	Anc    int    `json:"anc"`  // bits: 1 gAMA 2 tEXt 4 zero-length chunks 8 suggested palette 16 trailing time
	Level  int    `json:"level"`
	Lace   bool   `json:"lace,omitempty"` // interlaced (must be refused)
	Gray   bool   `json:"gray,omitempty"`
	Q      int    `json:"q,omitempty"`
	Twin   int    `json:"twin,omitempty"` // n>0: differs in one pixel, palette entry or transparent colour from the image without
}

var realImgs = []string{"minigopdf/test/res/gopher02.png", "minigopdf/test/res/gopher02_color.png", "minigopdf/test/res/gopher02_g_mode.png", "minigopdf/test/res/gopher01.jpg", "minigopdf/test/res/gopher01_g_mode.jpg", "minigopdf/test/res/gopher01_i_mode.jpg", "minigopdf/test/res/OpenOffice.org_1.1_official_main_logo_2col_trans.png", "test/img/gopher.png", "test/img/gopher2.jpg"}

type prng uint64

func (p *prng) next() uint32 {
	*p = *p*6364136223846793005 + 1442695040888963407
	return uint32(*p >> 33)
}

func pngChunk(typ string, data []byte) []byte {
	var b bytes.Buffer
	binary.Write(&b, binary.BigEndian, uint32(len(data)))
	b.WriteString(typ)
	b.Write(data)
	c := crc32.NewIEEE()
	c.Write([]byte(typ))
	c.Write(data)
	binary.Write(&b, binary.BigEndian, c.Sum32())
	return b.Bytes()
}

func (s *ImgSpec) Bytes() []byte {
	if s.Real != "" {
		if b, ok := realCache.Load(s.Real); ok {
			return b.([]byte)
		}
		b, err := os.ReadFile(filepath.Join(repoDir(), s.Real))
		if err != nil {
			panic(harnessBug(err.Error()))
		}
		realCache.Store(s.Real, b)
		return b
	}
	r := prng(s.Seed*2654435761 + 12345)
	if s.Kind == "cmyk" {
		return s.withSegments(s.cmykJpeg(&r))
	}
	if s.Kind == "jpg" {
		var im image.Image
		rect := image.Rect(0, 0, s.W, s.H)
		if s.Gray {
			g := image.NewGray(rect)
			for i := range g.Pix {
				g.Pix[i] = byte(r.next())
			}
			im = g
		} else {
			g := image.NewRGBA(rect)
			for i := range g.Pix {
				g.Pix[i] = byte(r.next())
				if i%4 == 3 {
					g.Pix[i] = 255
				}
			}
			im = g
		}
		var b bytes.Buffer
		if err := jpeg.Encode(&b, im, &jpeg.Options{Quality: s.Q}); err != nil {
			panic(harnessBug(err.Error()))
		}
		return s.withSegments(b.Bytes())
	}
	ch := map[int]int{0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[s.CT]
	rowBits := ch * s.Depth * s.W
	row := (rowBits + 7) / 8
	bpp := (ch*s.Depth + 7) / 8
	var raw []byte
	prev := make([]byte, row)
	var rows [][]byte
	for y := 0; y < s.H; y++ {
		cur := make([]byte, row)
		for i := range cur {
			cur[i] = byte(r.next())
			if s.Seed%3 == 0 {
				cur[i] = byte(y*7 + i/3)
			}
		}
		if s.CT == 3 { // keep indices inside the palette
			for x := 0; x < s.W; x++ {
				v := int(r.next()) % s.Pal
				putBits(cur, x*s.Depth, s.Depth, v)
			}
		}
		if at := (s.Twin / 4) % (s.H * row); s.Twin%4 > 0 && at/row == y {
			if s.CT == 3 {
				x := at % row % s.W
				putBits(cur, x*s.Depth, s.Depth, (getBits(cur, x*s.Depth, s.Depth)+1)%s.Pal)
			} else {
				cur[at%row] ^= 0x80
			}
		}
		if e := rowBits % 8; e != 0 && row > 0 {
			cur[row-1] &= 0xFF << uint(8-e)
		}
		ft := s.Filter
		if ft == 5 {
			ft = int(r.next()) % 5
		}
		raw = append(raw, byte(ft))
		for i := range cur {
			var a, b, c int
			if i >= bpp {
				a, c = int(cur[i-bpp]), int(prev[i-bpp])
			}
			b = int(prev[i])
			p := 0
			switch ft {
			case 1:
				p = a
			case 2:
				p = b
			case 3:
				p = (a + b) / 2
			case 4:
				p = paeth(a, b, c)
			}
			raw = append(raw, cur[i]-byte(p))
		}
		prev = cur
		rows = append(rows, cur)
	}
	var zb bytes.Buffer
	zw, _ := zlib.NewWriterLevel(&zb, s.Level)
	zw.Write(raw)
	zw.Close()
	var out bytes.Buffer
	out.Write([]byte{0x89, 'P', 'N', 'G', 0x0d, 0x0a, 0x1a, 0x0a})
	var ih bytes.Buffer
	binary.Write(&ih, binary.BigEndian, uint32(s.W))
	binary.Write(&ih, binary.BigEndian, uint32(s.H))
	lace := byte(0)
	if s.Lace {
		lace = 1
	}
	ih.Write([]byte{byte(s.Depth), byte(s.CT), 0, 0, lace})
	out.Write(pngChunk("IHDR", ih.Bytes()))
	if s.Anc&1 != 0 {
		out.Write(pngChunk("gAMA", []byte{0, 0, 0xb1, 0x8f}))
	}
	if s.Anc&2 != 0 {
		out.Write(pngChunk("tEXt", []byte("Comment\x00IDAT IEND PLTE tRNS")))
	}
	if s.CT == 3 {
		pal := make([]byte, 3*s.Pal)
		for i := range pal {
			pal[i] = byte(r.next())
		}
		if s.Twin > 0 && s.Twin%8 == 0 {
			pal[s.Twin/8%len(pal)] ^= 0x80
		}
		out.Write(pngChunk("PLTE", pal))
	} else if s.Anc&8 != 0 && (s.CT == 2 || s.CT == 6) {
		out.Write(pngChunk("PLTE", []byte{1, 2, 3, 4, 5, 6}))
	}
	if s.Trns == 1 {
		m := 1<<uint(s.Depth) - 1
		switch s.CT {
		case 0:
			v := int(r.next()) & m
			if r.next()%4 > 0 && len(rows) > 0 && s.W > 0 { // a colour of the picture
				v = getBits(rows[int(r.next())%len(rows)], int(r.next())%s.W*s.Depth, s.Depth)
			}
			out.Write(pngChunk("tRNS", []byte{0, byte(v)}))
		case 2:
			c := []byte{byte(r.next()), byte(r.next()), byte(r.next())}
			if r.next()%4 > 0 && len(rows) > 0 && s.W > 0 && s.Depth == 8 {
				c = rows[int(r.next())%len(rows)][int(r.next())%s.W*3:]
			}
			out.Write(pngChunk("tRNS", []byte{0, c[0], 0, c[1], 0, c[2]}))
		case 3:
			t := bytes.Repeat([]byte{255}, int(r.next())%s.Pal+1)
			t[int(r.next())%len(t)] = 0
			out.Write(pngChunk("tRNS", t))
		}
	}
	if s.Anc&4 != 0 {
		out.Write(pngChunk("teSt", nil))
		out.Write(pngChunk("IDAT", nil))
	}
	z := zb.Bytes()
	for len(z) > 0 {
		n := s.Chunk
		if n <= 0 || n > len(z) {
			n = len(z)
		}
		out.Write(pngChunk("IDAT", z[:n]))
		z = z[n:]
	}
	if s.Anc&16 != 0 {
		out.Write(pngChunk("tIME", []byte{7, 0xE4, 1, 1, 1, 1, 1}))
	}
	out.Write(pngChunk("IEND", nil))
	return out.Bytes()
}

func putBits(row []byte, bit, n, v int) {
	for k := 0; k < n; k++ {
		b := bit + k
		m := byte(0x80 >> uint(b%8))
		if v>>uint(n-1-k)&1 == 1 {
			row[b/8] |= m
		} else {
			row[b/8] &^= m
		}
	}
}
func getBits(row []byte, bit, n int) int {
	v := 0
	for k := 0; k < n; k++ {
		b := bit + k
		v = v<<1 | int(row[b/8]>>uint(7-b%8)&1)
	}
	return v
}

// Refused tells whether the library has to refuse the image.
func (s *ImgSpec) Refused() bool { return s.Lace || s.Depth == 16 }

// withSegments adds segments that do not matter to the picture to a JPEG.
func (s *ImgSpec) withSegments(b []byte) []byte {
	var seg []byte
	add := func(marker byte, data string) {
		seg = append(seg, 0xFF, marker, byte((len(data)+2)>>8), byte(len(data)+2))
		seg = append(seg, data...)
	}
	if s.Anc&1 != 0 {
		add(0xE0, "JFIF\x00\x01\x02\x01\x00\x48\x00\x48\x00\x00")
	}
	if s.Anc&2 != 0 {
		add(0xFE, "a comment\nendstream\nendobj\n")
	}
	if s.Anc&4 != 0 {
		add(0xE5, strings.Repeat("\xff\x00x", 100))
	}
	return append(append(append([]byte(nil), b[:2]...), seg...), b[2:]...)
}

// cmykJpeg is a baseline JPEG of four components and flat 8x8 blocks, as Adobe
// programs write it (inverted), with (Gray) or without the YCCK transform.
func (s *ImgSpec) cmykJpeg(r *prng) []byte {
	var b bytes.Buffer
	seg := func(marker byte, data ...byte) {
		b.Write([]byte{0xFF, marker, byte((len(data) + 2) >> 8), byte(len(data) + 2)})
		b.Write(data)
	}
	b.Write([]byte{0xFF, 0xD8})
	tr := byte(0)
	if s.Gray {
		tr = 2
	}
	seg(0xEE, append([]byte("Adobe"), 0, 100, 0, 0, 0, 0, tr)...)
	q := make([]byte, 65)
	for i := 1; i < 65; i++ {
		q[i] = 1
	}
	seg(0xDB, q...)
	seg(0xC0, 8, byte(s.H>>8), byte(s.H), byte(s.W>>8), byte(s.W), 4, 1, 0x11, 0, 2, 0x11, 0, 3, 0x11, 0, 4, 0x11, 0)
	// DC categories 0..11 have codes of four bits (0000 to 1011), the only AC code (end of block) is 0
	dc := append([]byte{0}, make([]byte, 16)...)
	dc[4] = 12
	for i := byte(0); i < 12; i++ {
		dc = append(dc, i)
	}
	seg(0xC4, dc...)
	ac := append([]byte{0x10}, make([]byte, 16)...)
	ac[1] = 1
	seg(0xC4, append(ac, 0)...)
	seg(0xDA, 4, 1, 0, 2, 0, 3, 0, 4, 0, 0, 63, 0)
	acc, n := uint32(0), 0
	put := func(v uint32, bits int) {
		for i := bits - 1; i >= 0; i-- {
			acc, n = acc<<1|v>>uint(i)&1, n+1
			if n == 8 {
				b.WriteByte(byte(acc))
				if byte(acc) == 0xFF {
					b.WriteByte(0)
				}
				acc, n = 0, 0
			}
		}
	}
	var pred [4]int
	for y := 0; y < s.H; y += 8 {
		for x := 0; x < s.W; x += 8 {
			for c := 0; c < 4; c++ {
				v := 8 * (int(byte(r.next())) - 128)
				d := v - pred[c]
				pred[c] = v
				cat, m := 0, d
				if m < 0 {
					m = -m
				}
				for m>>uint(cat) != 0 {
					cat++
				}
				if d < 0 {
					d += 1<<uint(cat) - 1
				}
				put(uint32(cat), 4)
				put(uint32(d), cat)
				put(0, 1)
			}
		}
	}
	for n != 0 {
		put(1, 1)
	}
	b.Write([]byte{0xFF, 0xD9})
	return b.Bytes()
}

// Pix is a decoded picture, non-premultiplied.
type Pix struct {
	W, H int
	P    []color.NRGBA
}

func pixOf(im image.Image) *Pix {
	b := im.Bounds()
	p := &Pix{W: b.Dx(), H: b.Dy()}
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			p.P = append(p.P, color.NRGBAModel.Convert(im.At(x, y)).(color.NRGBA))
		}
	}
	return p
}

// DecodeImg is the reference decoding of an image file.
func DecodeImg(b []byte) *Pix {
	var im image.Image
	var err error
	if bytes.HasPrefix(b, []byte("\x89PNG")) {
		im, err = png.Decode(bytes.NewReader(b))
		// keep the colour of transparent pixels: the generic model conversion would lose nothing for NRGBA
	} else {
		im, err = jpeg.Decode(bytes.NewReader(b))
	}
	if err != nil {
		panic(harnessBug("own image: " + err.Error()))
	}
	return pixOf(im)
}

// Diff compares pixels; the colour of fully transparent pixels is not significant.
func (a *Pix) Diff(b *Pix) string {
	if a.W != b.W || a.H != b.H {
		return fmt.Sprintf("size %dx%d instead of %dx%d", b.W, b.H, a.W, a.H)
	}
	for i := range a.P {
		p, q := a.P[i], b.P[i]
		if p.A == 0 && q.A == 0 {
			continue
		}
		if p != q {
			return fmt.Sprintf("pixel (%d,%d) is %v instead of %v", i%a.W, i/a.W, q, p)
		}
	}
	return ""
}

// ImagePix decodes an image XObject.
func (d *Doc) ImagePix(s *Stream) (*Pix, error) {
	if d.Name(s.D["Subtype"]) != "Image" {
		return nil, fmt.Errorf("XObject is not an image")
	}
	wf, ok1 := d.Num(s.D["Width"])
	hf, ok2 := d.Num(s.D["Height"])
	if !ok1 || !ok2 {
		return nil, fmt.Errorf("image without /Width or /Height")
	}
	w, h := int(wf), int(hf)
	if w <= 0 || h <= 0 || w > 20000 || h > 20000 {
		return nil, fmt.Errorf("image size %dx%d", w, h)
	}
	data, err := d.Decode(s)
	if err != nil {
		return nil, fmt.Errorf("image data: %v", err)
	}
	bpcf, ok := d.Num(s.D["BitsPerComponent"])
	if !ok {
		return nil, fmt.Errorf("image without /BitsPerComponent")
	}
	bpc := int(bpcf)
	out := &Pix{W: w, H: h}
	filt := d.Name(s.D["Filter"])
	if a := d.Arr(s.D["Filter"]); len(a) > 0 {
		filt = d.Name(a[len(a)-1])
	}
	isJpg := filt == "DCTDecode"
	if s.D["Decode"] != nil && (!isJpg || d.Name(s.D["ColorSpace"]) != "DeviceCMYK") {
		return nil, fmt.Errorf("unexpected /Decode %v", s.D["Decode"])
	}
	if filt == "DCTDecode" {
		im, err := jpeg.Decode(bytes.NewReader(data))
		if err != nil {
			return nil, fmt.Errorf("jpeg data: %v", err)
		}
		cs := d.Name(s.D["ColorSpace"])
		want := "DeviceRGB"
		if _, g := im.(*image.Gray); g {
			want = "DeviceGray"
		}
		if ck, ok := im.(*image.CMYK); ok { // the decoder has already undone the inversion
			want = "DeviceCMYK"
			dec := d.Arr(s.D["Decode"])
			if dec != nil && len(dec) != 8 {
				return nil, fmt.Errorf("image with four components has /Decode %v", s.D["Decode"])
			}
			for c := 0; c < 4; c++ {
				lo, hi := 0.0, 1.0
				if dec != nil {
					lo, _ = d.Num(dec[2*c])
					hi, _ = d.Num(dec[2*c+1])
				}
				for i := c; i < len(ck.Pix); i += 4 {
					v := lo + float64(255-ck.Pix[i])/255*(hi-lo)
					ck.Pix[i] = byte(math.Min(255, math.Max(0, v*255+0.5)))
				}
			}
		}
		if cs != want || bpc != 8 {
			return nil, fmt.Errorf("jpeg with /ColorSpace %v, %d bits", s.D["ColorSpace"], bpc)
		}
		out = pixOf(im)
		if out.W != w || out.H != h {
			return nil, fmt.Errorf("image dictionary says %dx%d, data is %dx%d", w, h, out.W, out.H)
		}
	} else {
		ncomp := 0
		var pal []byte
		switch cs := d.R(s.D["ColorSpace"]).(type) {
		case Name:
			ncomp = map[string]int{"DeviceGray": 1, "DeviceRGB": 3}[string(cs)]
		case Arr:
			if len(cs) == 4 && d.Name(cs[0]) == "Indexed" && d.Name(cs[1]) == "DeviceRGB" {
				ncomp = 1
				switch p := d.R(cs[3]).(type) {
				case *Stream:
					pal, err = d.Decode(p)
					if err != nil {
						return nil, fmt.Errorf("palette: %v", err)
					}
				case Str:
					pal = []byte(p)
				default:
					return nil, fmt.Errorf("palette is a %T", p)
				}
				hv, _ := d.Num(cs[2])
				if len(pal) != 3*(int(hv)+1) {
					return nil, fmt.Errorf("palette has %d bytes for %d colours", len(pal), int(hv)+1)
				}
			}
		}
		if ncomp == 0 {
			return nil, fmt.Errorf("unexpected /ColorSpace %v", s.D["ColorSpace"])
		}
		if bpc != 1 && bpc != 2 && bpc != 4 && bpc != 8 {
			return nil, fmt.Errorf("%d bits per component", bpc)
		}
		row := (ncomp*bpc*w + 7) / 8
		if len(data) != row*h {
			return nil, fmt.Errorf("image data is %d bytes, %dx%d needs %d", len(data), w, h, row*h)
		}
		var mask []int
		if m, ok := d.R(s.D["Mask"]).(Arr); ok {
			for _, v := range m {
				n, _ := d.Num(v)
				mask = append(mask, int(n))
			}
			if len(mask) != 2*ncomp {
				return nil, fmt.Errorf("/Mask has %d values for %d components", len(mask), ncomp)
			}
		} else if s.D["Mask"] != nil {
			return nil, fmt.Errorf("unexpected /Mask")
		}
		mx := 1<<uint(bpc) - 1
		for y := 0; y < h; y++ {
			r := data[y*row : (y+1)*row]
			for x := 0; x < w; x++ {
				var c [3]int
				trans := mask != nil
				for k := 0; k < ncomp; k++ {
					c[k] = getBits(r, (x*ncomp+k)*bpc, bpc)
					if mask != nil && (c[k] < mask[2*k] || c[k] > mask[2*k+1]) {
						trans = false
					}
				}
				px := color.NRGBA{A: 255}
				switch {
				case pal != nil:
					if 3*c[0]+2 >= len(pal) {
						return nil, fmt.Errorf("index %d outside the palette", c[0])
					}
					px.R, px.G, px.B = pal[3*c[0]], pal[3*c[0]+1], pal[3*c[0]+2]
				case ncomp == 1:
					v := byte(c[0] * 255 / mx)
					px.R, px.G, px.B = v, v, v
				default:
					px.R, px.G, px.B = byte(c[0]*255/mx), byte(c[1]*255/mx), byte(c[2]*255/mx)
				}
				if trans {
					px.A = 0
				}
				out.P = append(out.P, px)
			}
		}
	}
	if s.D["SMask"] != nil {
		sm, ok := d.R(s.D["SMask"]).(*Stream)
		if !ok {
			return nil, fmt.Errorf("/SMask is a %T", d.R(s.D["SMask"]))
		}
		if d.Name(sm.D["ColorSpace"]) != "DeviceGray" || sm.D["SMask"] != nil {
			return nil, fmt.Errorf("bad soft mask")
		}
		mp, err := d.ImagePix(sm)
		if err != nil {
			return nil, fmt.Errorf("soft mask: %v", err)
		}
		if mp.W != w || mp.H != h {
			return nil, fmt.Errorf("soft mask is %dx%d for an image of %dx%d", mp.W, mp.H, w, h)
		}
		for i := range out.P {
			out.P[i].A = mp.P[i].R
		}
	}
	return out, nil
}

// twinImg makes an image that differs from s as little as possible (and has
// as many bytes when the data is not compressed).
func twinImg(t *rapid.T, s ImgSpec) ImgSpec {
	s.Twin = ir(t, 1, 1<<16, "twin")
	return s
}

// drawImg draws an image; bad allows kinds the library refuses.
func drawImg(t *rapid.T, id int, big, bad bool) ImgSpec {
	if chance(t, 8, "realimg") && big {
		return ImgSpec{Real: oneof(t, realImgs, "realimgname")}
	}
	s := ImgSpec{Seed: id*1000 + ir(t, 0, 999, "iseed"), Kind: "png"}
	mx := 9
	if big && chance(t, 25, "bigimg") {
		mx = 130
	}
	s.W, s.H = ir(t, 1, mx, "iw"), ir(t, 1, mx, "ih")
	if big && chance(t, 2, "longimg") { // thousands of pixels wide or high
		s.W, s.H = ir(t, 1000, 9000, "ilong"), ir(t, 1, 3, "ishort")
		if chance(t, 50, "ihigh") {
			s.W, s.H = s.H, s.W
		}
	}
	if chance(t, 20, "jpg") {
		s.Kind = "jpg"
		s.Gray = chance(t, 40, "gray")
		s.Q = ir(t, 10, 95, "q")
		s.Anc = oneof(t, []int{0, 0, 1, 2, 4, 7}, "janc")
		if chance(t, 30, "cmyk") {
			s.Kind, s.Q = "cmyk", 0
		}
		return s
	}
	s.CT = oneof(t, []int{0, 2, 3, 4, 6}, "ct")
	switch s.CT {
	case 0:
		s.Depth = oneof(t, []int{8, 1, 2, 4}, "depth")
	case 3:
		s.Depth = oneof(t, []int{8, 1, 2, 4}, "depth")
		s.Pal = ir(t, 1, 1<<uint(s.Depth), "pal")
	default:
		s.Depth = 8
	}
	s.Filter = ir(t, 0, 5, "filter")
	s.Chunk = oneof(t, []int{0, 0, 1, 2, 7, 100}, "chunk")
	if s.CT != 4 && s.CT != 6 && chance(t, 25, "trns") {
		s.Trns = 1
	}
	s.Anc = ir(t, 0, 31, "anc")
	s.Level = oneof(t, []int{6, 0, 1, 9}, "level")
	if bad && chance(t, 10, "bad") {
		if chance(t, 50, "lace") && s.W > 0 {
			s.Lace = true
		} else if s.CT != 3 {
			s.Depth = 16
			s.Trns = 0
		}
	}
	return s
}
