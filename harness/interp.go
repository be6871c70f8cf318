package main

// A content stream interpreter: what a page draws, with the graphics state
// each mark is drawn in.

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

type Mat [6]float64

var ident = Mat{1, 0, 0, 1, 0, 0}

func (m Mat) mul(n Mat) Mat { // m then n
	return Mat{
		m[0]*n[0] + m[1]*n[2], m[0]*n[1] + m[1]*n[3],
		m[2]*n[0] + m[3]*n[2], m[2]*n[1] + m[3]*n[3],
		m[4]*n[0] + m[5]*n[2] + n[4], m[4]*n[1] + m[5]*n[3] + n[5],
	}
}
func (m Mat) apply(x, y float64) (float64, float64) {
	return x*m[0] + y*m[2] + m[4], x*m[1] + y*m[3] + m[5]
}

type Seg struct {
	Op string // m l c h
	P  []float64
}

// Ev is one mark on the page.
type Ev struct {
	Kind string // glyph, image, path, other
	At   int    // index of the operator
	// glyph
	Font Obj
	Size float64
	Code string
	Gid  int
	X, Y float64
	Rise float64
	// image
	XObj Obj
	M    Mat
	// path
	Segs   []Seg
	Paint  string // S f B with * for even-odd
	LW     float64
	Dash   string
	Fill   string
	Stroke string
	FillC  [3]float64
	Env    string // anything unusual in the state
	What   string
}

type gstate struct {
	ctm          Mat
	fill, stroke string
	fillC        [3]float64
	fillOK       bool
	lw           float64
	dash         string
	other        map[string]string
	font         Obj
	size         float64
	tc, tw, tl   float64
	tz           float64
	ts           float64
	tr           float64
	clip         int
}

func (g *gstate) copy() gstate {
	n := *g
	n.other = map[string]string{}
	for k, v := range g.other {
		n.other[k] = v
	}
	return n
}

func (g *gstate) env(text bool) string {
	var s []string
	if g.clip > 0 {
		s = append(s, fmt.Sprintf("clip%d", g.clip))
	}
	for k, v := range g.other {
		s = append(s, k+"="+v)
	}
	if text {
		if g.tc != 0 {
			s = append(s, fmt.Sprintf("Tc=%g", g.tc))
		}
		if g.tw != 0 {
			s = append(s, fmt.Sprintf("Tw=%g", g.tw))
		}
		if g.tz != 100 {
			s = append(s, fmt.Sprintf("Tz=%g", g.tz))
		}
		if g.tr != 0 {
			s = append(s, fmt.Sprintf("Tr=%g", g.tr))
		}
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

// fontWidths reads /W and /DW of a Type0 font; nil for simple fonts.
type fontWidths struct {
	w     map[int]float64
	dw    float64
	type0 bool
}

func (d *Doc) widthsOf(f Obj) *fontWidths {
	fd := d.Dict(f)
	fw := &fontWidths{w: map[int]float64{}, dw: 1000}
	if d.Name(fd["Subtype"]) != "Type0" {
		return fw
	}
	fw.type0 = true
	df := d.Arr(fd["DescendantFonts"])
	if len(df) != 1 {
		return fw
	}
	cid := d.Dict(df[0])
	if v, ok := d.Num(cid["DW"]); ok {
		fw.dw = v
	}
	a := d.Arr(cid["W"])
	for i := 0; i+1 < len(a); {
		first, ok := d.Num(a[i])
		if !ok {
			break
		}
		if l, ok := d.R(a[i+1]).(Arr); ok {
			for k, v := range l {
				x, _ := d.Num(v)
				fw.w[int(first)+k] = x
			}
			i += 2
			continue
		}
		if i+2 >= len(a) {
			break
		}
		last, _ := d.Num(a[i+1])
		x, _ := d.Num(a[i+2])
		for c := int(first); c <= int(last) && c < int(first)+70000; c++ {
			fw.w[c] = x
		}
		i += 3
	}
	return fw
}
func (fw *fontWidths) width(g int) float64 {
	if w, ok := fw.w[g]; ok {
		return w
	}
	return fw.dw
}

// Interpret runs a page's operators.  strictFrom is the operator index from
// which anything unknown or malformed is an error.
func (d *Doc) Interpret(p *Page, ops []COp, strictFrom int) (evs []Ev, err error) {
	g := gstate{ctm: ident, fill: "0 g", stroke: "0 G", fillOK: true, lw: 1, dash: "[] 0", tz: 100, other: map[string]string{}}
	var stack []gstate
	var tm, tlm Mat
	inText := false
	var path []Seg
	var cur [2]float64
	clipPending := false
	wcache := map[Obj]*fontWidths{}
	widths := func(f Obj) *fontWidths {
		if r, ok := f.(Ref); ok {
			if w := wcache[r]; w != nil {
				return w
			}
			w := d.widthsOf(f)
			wcache[r] = w
			return w
		}
		return d.widthsOf(f)
	}
	at := 0
	bad := func(f string, a ...interface{}) error {
		return fmt.Errorf("page %d, operator %d: %s", p.Index+1, at, fmt.Sprintf(f, a...))
	}
	for i, op := range ops {
		at = i
		strict := i >= strictFrom
		nums := func(n int) ([]float64, bool) {
			if len(op.Args) != n {
				return nil, false
			}
			out := make([]float64, n)
			for k, a := range op.Args {
				v, ok := a.(Num)
				if !ok {
					return nil, false
				}
				out[k] = v.F
			}
			return out, true
		}
		need := func(n int) []float64 {
			v, ok := nums(n)
			if !ok {
				if strict {
					err = bad("%s needs %d numbers, has %v", op.Op, n, op.Args)
				}
				return nil
			}
			return v
		}
		show := func(s Str) {
			if !inText {
				if strict {
					err = bad("text shown outside BT ET")
				}
				return
			}
			if g.font == nil {
				if strict {
					err = bad("text shown without font")
				}
				return
			}
			fw := widths(g.font)
			step := 1
			if fw.type0 {
				step = 2
				if len(s)%2 != 0 && strict {
					err = bad("odd number of bytes in the codes of a composite font")
					return
				}
			}
			for k := 0; k+step <= len(s); k += step {
				ev := Ev{Kind: "glyph", At: i, Font: g.font, Size: g.size, Code: string(s[k : k+step]), Rise: g.ts, Fill: g.fill, FillC: g.fillC, Env: g.env(true)}
				if step == 2 {
					ev.Gid = int(s[k])<<8 | int(s[k+1])
				} else {
					ev.Gid = int(s[k])
				}
				full := tm.mul(g.ctm)
				ev.X, ev.Y = full[4], full[5]
				if full[0] != 1 || full[1] != 0 || full[2] != 0 || full[3] != 1 {
					ev.Env += fmt.Sprintf(" matrix=%v", full)
				}
				if !g.fillOK {
					ev.Env += " fill=" + g.fill
				}
				evs = append(evs, ev)
				w := 500.0
				if fw.type0 {
					w = fw.width(ev.Gid)
				}
				tx := (w/1000*g.size + g.tc)
				if step == 1 && s[k] == ' ' {
					tx += g.tw
				}
				tx *= g.tz / 100
				tm = Mat{1, 0, 0, 1, tx, 0}.mul(tm)
			}
		}
		nextLine := func(x, y float64) {
			tlm = Mat{1, 0, 0, 1, x, y}.mul(tlm)
			tm = tlm
		}
		setFill := func(desc string, c [3]float64, ok bool) { g.fill, g.fillC, g.fillOK = desc, c, ok }
		paint := func(kind string) {
			if len(path) > 0 || strict {
				if len(path) == 0 && strict && kind != "n" {
					err = bad("%s without a path", op.Op)
					return
				}
			}
			if kind != "n" && len(path) > 0 {
				ev := Ev{Kind: "path", At: i, Paint: kind, Segs: path, LW: g.lw, Dash: g.dash, Fill: g.fill, FillC: g.fillC, Stroke: g.stroke, Env: g.env(false)}
				evs = append(evs, ev)
			}
			path = nil
			if clipPending {
				g.clip++
				clipPending = false
			}
		}
		closeP := func() {
			path = append(path, Seg{Op: "h"})
		}
		pt := func(x, y float64) []float64 {
			a, b := g.ctm.apply(x, y)
			return []float64{a, b}
		}
		switch op.Op {
		case "q":
			stack = append(stack, g.copy())
			if inText && strict {
				err = bad("q inside a text object")
			}
		case "Q":
			if len(stack) == 0 {
				return nil, bad("Q without q")
			}
			if inText && strict {
				err = bad("Q inside a text object")
			}
			g = stack[len(stack)-1]
			stack = stack[:len(stack)-1]
		case "cm":
			if v := need(6); v != nil {
				g.ctm = Mat{v[0], v[1], v[2], v[3], v[4], v[5]}.mul(g.ctm)
			}
		case "w":
			if v := need(1); v != nil {
				g.lw = v[0]
			}
		case "J", "j", "M", "i":
			if v := need(1); v != nil {
				g.other[op.Op] = fmt.Sprint(v[0])
				if v[0] == 0 && op.Op != "M" {
					delete(g.other, op.Op)
				}
			}
		case "d":
			if len(op.Args) == 2 {
				a, ok := op.Args[0].(Arr)
				if !ok && strict {
					err = bad("d needs an array")
				}
				var s []string
				for _, x := range a {
					n, _ := x.(Num)
					s = append(s, fmt.Sprint(n.F))
				}
				ph, _ := op.Args[1].(Num)
				g.dash = "[" + strings.Join(s, " ") + "] " + fmt.Sprint(ph.F)
			} else if strict {
				err = bad("d needs two operands")
			}
		case "ri":
			g.other["ri"] = fmt.Sprint(op.Args)
		case "gs":
			g.other["gs"] = fmt.Sprint(op.Args)
			if strict {
				if n, ok := op.Args[0].(Name); ok {
					if _, e := d.PageRes(p, "ExtGState", string(n)); e != nil {
						err = e
					}
				}
			}
		case "BT":
			if inText && strict {
				err = bad("nested BT")
			}
			inText = true
			tm, tlm = ident, ident
		case "ET":
			if !inText && strict {
				err = bad("ET without BT")
			}
			inText = false
		case "Td":
			if v := need(2); v != nil {
				nextLine(v[0], v[1])
			}
		case "TD":
			if v := need(2); v != nil {
				g.tl = -v[1]
				nextLine(v[0], v[1])
			}
		case "Tm":
			if v := need(6); v != nil {
				tlm = Mat{v[0], v[1], v[2], v[3], v[4], v[5]}
				tm = tlm
			}
		case "T*":
			nextLine(0, -g.tl)
		case "Tf":
			if len(op.Args) == 2 {
				n, ok1 := op.Args[0].(Name)
				s, ok2 := op.Args[1].(Num)
				if ok1 && ok2 {
					f, e := d.PageRes(p, "Font", string(n))
					if e != nil {
						if strict {
							err = e
						}
						break
					}
					g.font, g.size = f, s.F
					break
				}
			}
			if strict {
				err = bad("bad Tf %v", op.Args)
			}
		case "Tc":
			if v := need(1); v != nil {
				g.tc = v[0]
			}
		case "Tw":
			if v := need(1); v != nil {
				g.tw = v[0]
			}
		case "Tz":
			if v := need(1); v != nil {
				g.tz = v[0]
			}
		case "TL":
			if v := need(1); v != nil {
				g.tl = v[0]
			}
		case "Ts":
			if v := need(1); v != nil {
				g.ts = v[0]
			}
		case "Tr":
			if v := need(1); v != nil {
				g.tr = v[0]
			}
		case "Tj":
			if len(op.Args) == 1 {
				if s, ok := op.Args[0].(Str); ok {
					show(s)
					break
				}
			}
			if strict {
				err = bad("bad Tj %v", op.Args)
			}
		case "'", "\"":
			nextLine(0, -g.tl)
			if s, ok := op.Args[len(op.Args)-1].(Str); ok {
				show(s)
			}
		case "TJ":
			a, ok := Arr(nil), false
			if len(op.Args) == 1 {
				a, ok = op.Args[0].(Arr)
			}
			if !ok {
				if strict {
					err = bad("bad TJ %v", op.Args)
				}
				break
			}
			for _, x := range a {
				switch v := x.(type) {
				case Str:
					show(v)
				case Num:
					tm = Mat{1, 0, 0, 1, -v.F / 1000 * g.size * g.tz / 100, 0}.mul(tm)
				default:
					if strict {
						err = bad("bad element of TJ: %v", x)
					}
				}
			}
		case "g":
			if v := need(1); v != nil {
				setFill(fmt.Sprintf("%v g", v[0]), [3]float64{v[0], v[0], v[0]}, true)
			}
		case "G":
			if v := need(1); v != nil {
				g.stroke = fmt.Sprintf("%v %v %v RG", v[0], v[0], v[0])
			}
		case "rg":
			if v := need(3); v != nil {
				setFill(fmt.Sprintf("%v rg", v), [3]float64{v[0], v[1], v[2]}, true)
			}
		case "RG":
			if v := need(3); v != nil {
				g.stroke = fmt.Sprintf("%v %v %v RG", v[0], v[1], v[2])
			}
		case "k":
			if v := need(4); v != nil {
				setFill(fmt.Sprintf("%v k", v), [3]float64{}, false)
			}
		case "K":
			g.stroke = fmt.Sprint(op.Args, " K")
		case "cs", "sc", "scn":
			setFill(g.fill+fmt.Sprint(op.Args)+op.Op, [3]float64{}, false)
		case "CS", "SC", "SCN":
			g.stroke += fmt.Sprint(op.Args) + op.Op
		case "m":
			if v := need(2); v != nil {
				path = append(path, Seg{"m", pt(v[0], v[1])})
				cur = [2]float64{v[0], v[1]}
			}
		case "l":
			if v := need(2); v != nil {
				if len(path) == 0 && strict {
					err = bad("l without current point")
				}
				path = append(path, Seg{"l", pt(v[0], v[1])})
				cur = [2]float64{v[0], v[1]}
			}
		case "c":
			if v := need(6); v != nil {
				if len(path) == 0 && strict {
					err = bad("c without current point")
				}
				path = append(path, Seg{"c", append(append(pt(v[0], v[1]), pt(v[2], v[3])...), pt(v[4], v[5])...)})
				cur = [2]float64{v[4], v[5]}
			}
		case "v":
			if v := need(4); v != nil {
				path = append(path, Seg{"c", append(append(pt(cur[0], cur[1]), pt(v[0], v[1])...), pt(v[2], v[3])...)})
				cur = [2]float64{v[2], v[3]}
			}
		case "y":
			if v := need(4); v != nil {
				path = append(path, Seg{"c", append(append(pt(v[0], v[1]), pt(v[2], v[3])...), pt(v[2], v[3])...)})
				cur = [2]float64{v[2], v[3]}
			}
		case "h":
			closeP()
		case "re":
			if v := need(4); v != nil {
				x, y, w, h := v[0], v[1], v[2], v[3]
				path = append(path, Seg{"m", pt(x, y)}, Seg{"l", pt(x+w, y)}, Seg{"l", pt(x+w, y+h)}, Seg{"l", pt(x, y+h)}, Seg{Op: "h"})
				cur = [2]float64{x, y}
			}
		case "S":
			paint("S")
		case "s":
			closeP()
			paint("S")
		case "f", "F":
			paint("f")
		case "f*":
			paint("f*")
		case "B":
			paint("B")
		case "B*":
			paint("B*")
		case "b":
			closeP()
			paint("B")
		case "b*":
			closeP()
			paint("B*")
		case "n":
			paint("n")
		case "W", "W*":
			clipPending = true
		case "Do":
			if len(op.Args) == 1 {
				if n, ok := op.Args[0].(Name); ok {
					x, e := d.PageRes(p, "XObject", string(n))
					if e != nil {
						if strict {
							err = e
						}
						break
					}
					evs = append(evs, Ev{Kind: "image", At: i, XObj: x, M: g.ctm, Env: g.env(false)})
					if inText && strict {
						err = bad("Do inside a text object")
					}
					break
				}
			}
			if strict {
				err = bad("bad Do %v", op.Args)
			}
		case "sh":
			evs = append(evs, Ev{Kind: "other", At: i, What: fmt.Sprint(op.Args, " sh"), M: g.ctm})
		case "MP", "DP", "BMC", "BDC", "EMC", "BX", "EX":
			evs = append(evs, Ev{Kind: "mark", At: i, What: fmt.Sprint(op.Op, op.Args)})
		default:
			if strict {
				err = bad("unknown operator %q", op.Op)
			}
		}
		if err != nil {
			return nil, err
		}
	}
	if inText && len(ops) > strictFrom {
		return nil, bad("text object is not closed")
	}
	if len(stack) > 0 {
		return nil, bad("%d q without Q", len(stack))
	}
	return evs, nil
}

func sameOp(a, b COp) bool {
	if a.Op != b.Op || len(a.Args) != len(b.Args) {
		return false
	}
	for i := range a.Args {
		if !sameVal(a.Args[i], b.Args[i]) {
			return false
		}
	}
	return true
}

// sameVal compares direct objects.
func sameVal(a, b Obj) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case Num:
		y, ok := b.(Num)
		return ok && x.F == y.F
	case Arr:
		y, ok := b.(Arr)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case Dict:
		y, ok := b.(Dict)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			v, has := y[k]
			if !has || !sameVal(x[k], v) {
				return false
			}
		}
		return true
	case *Stream:
		return false
	}
	return a == b
}

// splitTemplate finds the template's operators at the start of a page's
// operators (after any q); it returns the index after them, or -1.
func splitTemplate(ops, tpl []COp) (int, string) {
	why := ""
	for k := 0; k <= len(ops); k++ {
		ok := true
		for j := range tpl {
			if k+j >= len(ops) || !sameOp(ops[k+j], tpl[j]) {
				ok = false
				if why == "" || j > 0 {
					got := "nothing"
					if k+j < len(ops) {
						got = fmt.Sprintf("%s %v", ops[k+j].Op, ops[k+j].Args)
					}
					why = fmt.Sprintf("template operator %d is %s %v, the page has %s", j, tpl[j].Op, tpl[j].Args, got)
				}
				break
			}
		}
		if ok {
			return k + len(tpl), ""
		}
		if k < len(ops) && (ops[k].Op != "q" || len(ops[k].Args) > 0) {
			break
		}
	}
	return -1, why
}

func near(a, b, tol float64) bool { return math.Abs(a-b) <= tol }
