package main

// Several documents at once, reopened objects, field rendering and
// caller-owned data.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"strings"
	"sync"

	"github.com/signintech/pdft"
	gopdf "github.com/signintech/pdft/minigopdf"
	"github.com/signintech/pdft/render"
	"github.com/signintech/pdft/textbreak"
	"pgregory.net/rapid"
)

func init() {
	log.SetOutput(io.Discard)
	initMulti()
	initRender()
	initCaller()
}

// ---- several documents

type multiCase struct {
	Mode  int     `json:"mode"` // 0 alternating, 1 at the same time, 2 one object for all
	Hs    []Hist  `json:"hs"`
	Sched []int   `json:"sched,omitempty"`
	Junk  int     `json:"junk,omitempty"`
	Cut   int     `json:"cut,omitempty"`
	Go    *GoHist `json:"go,omitempty"`
}

func initMulti() {
	kinds := []string{"text", "text", "text", "img", "img", "wrap", "setfont", "setfont", "dup", "rm", "keep", "save", "border", "prot", "measure", "count"}
	register("C19", 2000, 12000, "Non-trivial: at least two documents, each with an insertion or page operation. Cases are two or three random histories, with or without shared templates, fonts and images, run alternately by a random schedule, each on a goroutine of its own under the race detector, or one after the other on one document object with failing opens in between; a document built from scratch may run along.",
		func(t *rapid.T) multiCase {
			c := multiCase{Mode: ir(t, 0, 2, "mode")}
			n := ir(t, 2, 3, "ndocs")
			for i := 0; i < n; i++ {
				h := drawHist(t, HistOpt{Pages: 3, Ops: 8, RealPct: 1, Fonts: 2, Imgs: 2, Kinds: kinds})
				if i > 0 {
					if chance(t, 50, "stpl") {
						h.Tpl = c.Hs[0].Tpl
					}
					if a := &c.Hs[0]; len(a.Fonts) >= len(h.Fonts) && chance(t, 50, "sfont") {
						h.Fonts = a.Fonts[:len(h.Fonts):len(h.Fonts)]
						h.Names = a.Names[:len(h.Fonts):len(h.Fonts)]
					}
					if a := &c.Hs[0]; len(a.Imgs) >= len(h.Imgs) && chance(t, 50, "simg") {
						h.Imgs = a.Imgs[:len(h.Imgs):len(h.Imgs)]
					}
					if chance(t, 25, "twin") {
						h = c.Hs[0]
					}
				}
				c.Hs = append(c.Hs, h)
			}
			if c.Mode == 0 {
				tot := 0
				for _, h := range c.Hs {
					tot += len(h.Ops) + 2
				}
				for i := 0; i < tot; i++ {
					c.Sched = append(c.Sched, ir(t, 0, n-1, "who"))
				}
			}
			c.Junk = ir(t, 0, 4, "junk")
			c.Cut = ir(t, 0, 12, "cut")
			if c.Mode < 2 && chance(t, 30, "go") {
				g := drawGo(t, 10)
				g.Tpl = false
				c.Go = &g
			}
			return c
		}, runMulti)
}

type soloRes struct {
	mean []string
	bad  string // differs from the model
	ok   bool
}

// solo runs a history alone on a new object.
func solo(h *Hist, x *Ctx) (res soloRes) {
	r := runHist(h, x)
	if r.unsure {
		return
	}
	if err := r.m.issues.pick("*"); err != nil {
		res.bad = err.Error()
		return
	}
	if r.stopped || r.last == nil {
		return
	}
	m, err := meaningDec(r.last, r.m.prot, false)
	if err != nil {
		res.bad = err.Error()
		return
	}
	res.mean, res.ok = m, true
	return
}

// soloMain runs the histories of a case alone in a new process each time.
func soloMain(args []string) {
	b, err := os.ReadFile(args[0])
	var h Hist
	if err == nil {
		err = json.Unmarshal(b, &h)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	dir, _ := os.MkdirTemp("", "pdftsolo")
	defer os.RemoveAll(dir)
	defer func() {
		if r := recover(); r != nil {
			os.RemoveAll(dir)
			os.Exit(1)
		}
	}()
	res := solo(&h, &Ctx{labels: map[string]int{}, dir: dir})
	os.RemoveAll(dir)
	if res.bad != "" {
		os.Exit(1)
	}
	os.Exit(0)
}

// freshOK says whether a history is all right alone in a new process.
func freshOK(h *Hist, x *Ctx) bool {
	b, _ := json.Marshal(h)
	f := filepath.Join(x.dir, "solo.json")
	os.WriteFile(f, b, 0o644)
	defer os.Remove(f)
	return exec.Command(os.Args[0], "solo", f).Run() == nil
}

func soloGo(h *GoHist, x *Ctx) ([]string, bool) {
	r := newGo(h, x)
	for _, op := range h.Ops {
		if !r.do(op) {
			return nil, false
		}
	}
	r.do(HOp{K: "get"})
	if len(r.m.issues) > 0 || r.last == nil {
		return nil, false
	}
	m, err := meaningDec(r.last, h.Prot, false)
	return m, err == nil
}

func runMulti(c multiCase, x *Ctx) error {
	var solos []soloRes
	for i := range c.Hs {
		s := solo(&c.Hs[i], x)
		if s.bad != "" {
			if freshOK(&c.Hs[i], x) {
				return fmt.Errorf("document %d is not what it is when it is the first of the process: %s", i+1, s.bad)
			}
			x.discard = true
			return nil
		}
		if !s.ok {
			x.discard = true
			return nil
		}
		solos = append(solos, s)
	}
	var goMean []string
	if c.Go != nil {
		m, ok := soloGo(c.Go, x)
		if !ok {
			x.discard = true
			return nil
		}
		goMean = m
	}
	busy := 0
	same := func(i int, r *runner, how string) error {
		if err := r.m.issues.pick("*"); err != nil {
			return fmt.Errorf("document %d %s: %v (alone it works)", i+1, how, err)
		}
		if r.last == nil {
			return fmt.Errorf("document %d %s was not saved (alone it works)", i+1, how)
		}
		m, err := meaningDec(r.last, r.m.prot, false)
		if err != nil {
			return fmt.Errorf("document %d %s: %v", i+1, how, err)
		}
		if d := diffMeaning(solos[i].mean, m); d != "" {
			return fmt.Errorf("document %d %s differs from the same alone: %s", i+1, how, d)
		}
		if r.m.texts+r.m.images+r.m.pageops > 0 {
			busy++
		}
		return nil
	}
	newRunner := func(i int, pdf *pdft.PDFt, x *Ctx) *runner {
		return &runner{m: newModel(&c.Hs[i], c.Hs[i].Tpl.Build()), pdf: pdf, x: x, noCheck: true}
	}
	switch c.Mode {
	case 0:
		x.Label("alternating")
		var rs []*runner
		at := make([]int, len(c.Hs))
		var gr *goRunner
		gat := 0
		for i := range c.Hs {
			rs = append(rs, newRunner(i, &pdft.PDFt{}, x))
		}
		step := func(i int) {
			r := rs[i]
			n := len(c.Hs[i].Ops)
			switch {
			case r.stopped || at[i] > n+1:
				return
			case at[i] == 0:
				if err := openTpl(r.pdf, r.m.tpl.Data, 0, x.dir); err != nil {
					r.m.issues.add("open", "%v", err)
					r.stopped = true
				}
			case at[i] <= n:
				r.do(c.Hs[i].Ops[at[i]-1])
			default:
				r.do(HOp{K: "save"})
			}
			at[i]++
			if c.Go != nil {
				if gr == nil {
					gr = newGo(c.Go, x)
				} else if gat < len(c.Go.Ops) {
					gr.do(c.Go.Ops[gat])
					gat++
				}
			}
		}
		for _, i := range c.Sched {
			if i < len(rs) {
				step(i)
			}
		}
		for i := range rs {
			for at[i] <= len(c.Hs[i].Ops)+1 && !rs[i].stopped {
				step(i)
			}
		}
		for i, r := range rs {
			if err := same(i, r, "used alternately with others"); err != nil {
				return err
			}
		}
		if gr != nil {
			for ; gat < len(c.Go.Ops); gat++ {
				gr.do(c.Go.Ops[gat])
			}
			gr.do(HOp{K: "get"})
			if err := sameGo(gr, goMean); err != nil {
				return err
			}
		}
	case 1:
		x.Label("at the same time")
		var wg sync.WaitGroup
		start := make(chan bool)
		n := len(c.Hs)
		rs := make([]*runner, n)
		errs := make([]error, n+1)
		for i := range c.Hs {
			d := filepath.Join(x.dir, fmt.Sprintf("p%d", i))
			os.MkdirAll(d, 0o755)
			rs[i] = newRunner(i, &pdft.PDFt{}, &Ctx{labels: map[string]int{}, dir: d})
		}
		guard := func(i int, f func()) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					st := string(debug.Stack())
					if !strings.Contains(st, "signintech/pdft") {
						errs[i] = fmt.Errorf("harness: %v\n%s", e, st)
						return
					}
					errs[i] = fmt.Errorf("panic: %v\n%s", e, trimStack(st))
				}
			}()
			<-start
			f()
		}
		for i := range rs {
			wg.Add(1)
			r := rs[i]
			go guard(i, func() {
				if err := openTpl(r.pdf, r.m.tpl.Data, 0, r.x.dir); err != nil {
					r.m.issues.add("open", "%v", err)
					return
				}
				r.run(r.m.h.Ops)
				if !r.stopped {
					r.do(HOp{K: "save"})
				}
			})
		}
		var gr *goRunner
		if c.Go != nil {
			d := filepath.Join(x.dir, "pg")
			os.MkdirAll(d, 0o755)
			wg.Add(1)
			go guard(n, func() {
				gr = newGo(c.Go, &Ctx{labels: map[string]int{}, dir: d})
				for _, op := range c.Go.Ops {
					gr.do(op)
				}
				gr.do(HOp{K: "get"})
			})
		}
		close(start)
		wg.Wait()
		for i, e := range errs {
			if e != nil {
				if strings.HasPrefix(e.Error(), "harness:") {
					panic(harnessBug(e.Error()))
				}
				return fmt.Errorf("document %d used at the same time as others: %v", i+1, e)
			}
		}
		for i, r := range rs {
			if err := same(i, r, "used at the same time as others"); err != nil {
				return err
			}
		}
		if gr != nil {
			if err := sameGo(gr, goMean); err != nil {
				return err
			}
		}
	default:
		x.Label("one object")
		pdf := &pdft.PDFt{}
		for i := range c.Hs {
			r := newRunner(i, pdf, x)
			if err := openTpl(pdf, r.m.tpl.Data, (i+c.Junk)%2, x.dir); err != nil {
				return fmt.Errorf("template %d cannot be opened on a used object: %v", i+1, err)
			}
			ops := c.Hs[i].Ops
			cut := min(c.Cut, len(ops))
			r.run(ops[:cut])
			if !r.stopped {
				var err error
				switch c.Junk {
				case 1:
					err = pdf.OpenFrom(strings.NewReader("this is not a pdf"))
				case 2:
					other := c.Hs[(i+1)%len(c.Hs)].Tpl.Build().Data
					err = pdf.OpenFrom(io.MultiReader(bytes.NewReader(other[:len(other)/2]), failingReader{}))
				case 3:
					err = pdf.OpenFrom(strings.NewReader(""))
				case 4:
					err = pdf.Open(filepath.Join(x.dir, "there is no such file"))
				}
				if c.Junk > 0 {
					if err == nil {
						return fmt.Errorf("opening something that is not a template succeeded")
					}
					x.Label("failed open")
				}
				r.run(ops[cut:])
			}
			if !r.stopped {
				r.do(HOp{K: "count"})
				r.do(HOp{K: "save"})
			}
			if err := same(i, r, "on an object used before"); err != nil {
				return err
			}
		}
	}
	if busy > 1 {
		x.NT()
	}
	return nil
}

type failingReader struct{}

func (failingReader) Read(p []byte) (int, error) { return 0, errFault }

func sameGo(gr *goRunner, want []string) error {
	if err := gr.m.issues.pick("*"); err != nil {
		return fmt.Errorf("the document built from scratch along with others: %v", err)
	}
	m, err := meaningDec(gr.last, gr.m.h.Prot, false)
	if err != nil {
		return fmt.Errorf("the document built from scratch along with others: %v", err)
	}
	if d := diffMeaning(want, m); d != "" {
		return fmt.Errorf("the document built from scratch along with others differs from the same alone: %s", d)
	}
	return nil
}

// ---- rendering of fields

type rField struct {
	Key  string  `json:"key"`
	P    int     `json:"p"`
	X    float64 `json:"x"`
	Y    float64 `json:"y"`
	W    float64 `json:"w"`
	H    float64 `json:"h"`
	A    int     `json:"a"`
	F    string  `json:"f"`
	Sz   int     `json:"sz"`
	Wrap bool    `json:"wrap,omitempty"`
}
type renderCase struct {
	Hist
	Fields []rField `json:"fields"`
}

var fieldKeys = []string{"name", "Name", "date", "", "A", "B", "ไทย", "name "}

func drawRender(t *rapid.T) renderCase {
	kinds := []string{"text", "img", "setfont", "border", "save"}
	c := renderCase{Hist: drawHist(t, HistOpt{Pages: 3, Ops: 3, RealPct: 3, Fonts: 2, Imgs: 2, Kinds: kinds})}
	var chars []rune
	for i := range c.Fonts {
		chars = append(chars, c.Fonts[i].chars()...)
	}
	nfields, nr := ir(t, 0, 5, "nfields"), 8
	large := chance(t, 4, "large") // a form with many fields
	if large {
		nfields, nr = ir(t, 6, 40, "nfields2"), 30
	}
	for i := 0; i < nfields; i++ {
		f := rField{Key: oneof(t, fieldKeys, "key"), P: ir(t, 1, len(c.Tpl.Pages), "fp"), A: oneof(t, aligns, "fa"), Sz: oneof(t, []int{12, 7, 25, 125, 9}, "fs"), Wrap: chance(t, 40, "fw")}
		f.X, f.Y = drawCoord(t, -50, 700, "x"), drawCoord(t, -50, 900, "y")
		f.W, f.H = drawCoord(t, 0, 300, "w"), drawCoord(t, 0, 200, "hh")
		f.F = oneof(t, c.Names, "ff")
		if chance(t, 4, "badfont") {
			f.F = "nobody"
		}
		if chance(t, 4, "oddalign") { // bits that mean nothing
			f.A |= oneof(t, []int{64, 128, 1024}, "oa")
		}
		if chance(t, 4, "badpage") {
			f.P = oneof(t, []int{0, -1, 99}, "bp")
		}
		if large && !chance(t, 10, "shared") {
			f.Key = fmt.Sprintf("field%d", i)
		}
		if chance(t, 10, "anysize") {
			f.Sz = ir(t, 0, 300, "fsz")
		}
		c.Fields = append(c.Fields, f)
	}
	if chance(t, 60, "brk0") {
		c.Ops = append([]HOp{{K: "rbrk", V: oneof(t, []int{1, 1, 2, 3, 5}, "br0")}}, c.Ops...)
	}
	for i, n := 0, ir(t, 0, nr, "nr"); i < n; i++ {
		op := HOp{K: oneof(t, []string{"rtext", "rtext", "rtext", "rimg", "rbrk", "design", "dup", "rm"}, "rk")}
		if op.K == "design" && !chance(t, 40, "des") {
			op.K = "rtext"
		}
		switch op.K {
		case "rtext", "rimg":
			op.St = oneof(t, fieldKeys, "rkey")
			if len(c.Fields) > 0 && chance(t, 85, "known") {
				op.St = c.Fields[ir(t, 0, len(c.Fields)-1, "fk")].Key
			}
			op.S = drawText(t, chars, 8)
			if chance(t, 40, "words") {
				op.S += " " + drawText(t, chars, 4) + " " + drawText(t, chars, 4)
			}
			op.F = ir(t, 0, len(c.Imgs)-1, "ri")
			if op.K == "rimg" && chance(t, 10, "badb64") {
				op.V = 1
			}
			if op.K == "rimg" {
				op.Q = oneof(t, []int{0, 0, 1, 2, 3}, "rlines")
			}
		case "rbrk":
			op.V = oneof(t, []int{0, 1, 2, 3, 5, 4, 6}, "br")
		case "dup", "rm":
			op = (&HistOpt{}).drawOp(t, &c.Hist, chars, op.K)
		}
		at := ir(t, 0, len(c.Ops), "rat")
		if chance(t, 70, "end") {
			at = len(c.Ops)
		}
		c.Ops = append(c.Ops[:at:at], append([]HOp{op}, c.Ops[at:]...)...)
	}
	return c
}

func (c *renderCase) infos() render.FieldInfos {
	var out render.FieldInfos
	for _, f := range c.Fields {
		out = append(out, render.FieldInfo{Key: f.Key, PageNum: f.P, X: f.X, Y: f.Y, W: f.W, H: f.H, Align: apiBits(f.A), Font: f.F, Size: f.Sz, IsWrapText: f.Wrap})
	}
	return out
}

// plain performs an ordinary operation without any model.
func (c *renderCase) plain(pdf *pdft.PDFt, op HOp, dir string) (out []byte, err error) {
	num := op.P%len(c.Tpl.Pages) + 1
	fc, _ := colOf(op.C)
	switch op.K {
	case "font":
		return nil, addFont(pdf, c.Names[op.F], &c.Fonts[op.F], op.V, dir)
	case "setfont":
		return nil, pdf.SetFont(c.Names[op.F], op.St, op.Sz)
	case "text":
		return nil, pdf.Insert(op.S, num, op.X, op.Y, op.W, op.H, apiBits(op.A), fc)
	case "img":
		return nil, pdf.InsertImg(c.Imgs[op.F].Bytes(), num, op.X, op.Y, op.W, op.H)
	case "border":
		pdf.ShowCellBorder(op.V == 1)
	case "dup":
		return nil, pdf.DuplicatePageAfter(num, op.Q%3)
	case "rm":
		return nil, pdf.RemovePage(num)
	case "save":
		return savePdf(pdf, op.V, dir)
	}
	return nil, nil
}

func initRender() {
	register("C20", 15000, 80000, "Non-trivial: at least one field was rendered as text or image or the design view was shown. Cases are random templates, field definitions (shared names, unknown fonts, pages that do not exist) and sequences of render calls mixed with ordinary calls.",
		drawRender, func(c renderCase, x *Ctx) error { return runRender(c, x, nil) })
}

// runRender compares a Render with the calls it stands for; spoil, when
// given, changes the field definitions after they were handed over.
func runRender(c renderCase, x *Ctx, spoil func(render.FieldInfos)) error {
	tpl := c.Tpl.Build()
	path := filepath.Join(x.dir, "rtpl.pdf")
	if err := os.WriteFile(path, tpl.Data, 0o644); err != nil {
		panic(harnessBug(err.Error()))
	}
	defer os.Remove(path)
	if len(c.Fields) == 5 {
		if rd, err := render.NewRender(path+".none", c.infos()); err == nil || rd != nil {
			return fmt.Errorf("NewRender of a file that does not exist returned %v, %v", rd, err)
		}
	}
	pdf := &pdft.PDFt{}
	if err := pdf.Open(path); err != nil {
		x.discard = true
		return nil
	}
	infos := c.infos()
	before := c.infos()
	rd, err := render.NewRender(path, infos)
	if err != nil {
		return fmt.Errorf("NewRender failed: %v", err)
	}
	if !reflect.DeepEqual(infos, before) {
		return fmt.Errorf("NewRender changed the field definitions")
	}
	if spoil != nil {
		spoil(infos)
	}
	fields := map[string]rField{}
	var order []string
	for _, f := range c.Fields {
		if _, ok := fields[f.Key]; !ok {
			order = append(order, f.Key)
		}
		fields[f.Key] = f
	}
	added := map[string]bool{}
	design := false
	var brk textbreak.TextBreaker
	n := 0
	ops := append(append([]HOp{}, c.Ops...), HOp{K: "save"})
	for k, op := range ops {
		var ea, eb error
		switch op.K {
		case "rtext":
			ea = rd.Text(op.St, op.S)
			if f, ok := fields[op.St]; ok {
				eb = pdf.SetFont(f.F, "", f.Sz)
				if eb == nil {
					if f.Wrap {
						eb = pdf.InsertWrapText(op.S, f.P, f.X, f.Y, f.W, f.H, apiBits(f.A), nil, brk)
					} else {
						eb = pdf.Insert(op.S, f.P, f.X, f.Y, f.W, f.H, apiBits(f.A), nil)
					}
				}
				if eb == nil {
					n++
					x.Label("text")
					if f.Wrap && brk != nil {
						x.Label("wrapped")
					}
				}
			} else {
				x.Label("unknown field")
			}
		case "rimg":
			b := base64Text(c.Imgs[op.F].Bytes(), op.Q)
			if op.V == 1 {
				b = b[:len(b)/2] + "!" + b[len(b)/2:]
			}
			ea = rd.ImgBase64(op.St, b)
			if f, ok := fields[op.St]; ok {
				eb = pdf.InsertImgBase64(b, f.P, f.X, f.Y, f.W, f.H)
				if eb == nil {
					n++
					x.Label("image")
				}
			}
		case "rbrk":
			brk = breaker(op.V).get()
			rd.SetTextBreaker(brk)
		case "design":
			all := true
			for _, f := range fields {
				all = all && added[f.F]
			}
			if !all || len(c.Names) == 0 || !added[c.Names[0]] {
				continue // what is drawn depends on the order of the fields
			}
			rd.ShowDesignView()
			pdf.ShowCellBorder(true)
			for _, key := range order {
				f := fields[key]
				pdf.SetFont(f.F, "", f.Sz)
				pdf.Insert("#"+key, f.P, f.X, f.Y, f.W, f.H, apiBits(f.A), nil)
			}
			rd.SetFont(c.Names[0], "", 10)
			pdf.SetFont(c.Names[0], "", 10)
			if len(order) > 0 {
				design = true
				n++
				x.Label("design view")
			}
		default:
			var a, b []byte
			a, ea = c.plain(&rd.PDFt, op, x.dir)
			b, eb = c.plain(pdf, op, x.dir)
			if op.K == "font" && eb == nil {
				added[c.Names[op.F]] = true
			}
			if op.K == "save" && ea == nil && eb == nil {
				if err := sameRender(a, b, design); err != nil {
					return err
				}
			}
		}
		if (ea == nil) != (eb == nil) {
			return fmt.Errorf("operation %d (%s %q): the render call returned %v, the calls it stands for %v", k+1, op.K, op.St, ea, eb)
		}
	}
	if n > 0 {
		x.NT()
	}
	return nil
}

func sameRender(a, b []byte, design bool) error {
	if !design {
		want, err := meaningOf(b)
		if err != nil {
			return nil // other properties' business
		}
		got, err := meaningOf(a)
		if err != nil {
			return err
		}
		if d := diffMeaning(want, got); d != "" {
			return fmt.Errorf("the rendered document differs from the one with the insertions it stands for: %s", d)
		}
		return nil
	}
	all := func(i int) ([]COp, int) { return nil, 0 }
	want, err := drawnOf(b, all, true, true)
	if err != nil {
		return nil
	}
	got, err := drawnOf(a, all, true, true)
	if err != nil {
		return err
	}
	if d := diffMeaning(want, got); d != "" {
		return fmt.Errorf("the design view differs from the insertions it stands for: %s", d)
	}
	return nil
}

// ---- caller-owned data

// loans are things handed to the library.
type loans struct {
	checks []func() error
}

func (l *loans) bytes(what string, b []byte) []byte {
	if l == nil {
		return append([]byte(nil), b...)
	}
	// spare capacity must not be written either
	buf := make([]byte, len(b)+64)
	copy(buf, b)
	for i := len(b); i < len(buf); i++ {
		buf[i] = byte(i)
	}
	orig := append([]byte(nil), buf...)
	l.checks = append(l.checks, func() error {
		if !bytes.Equal(buf, orig) {
			return fmt.Errorf("the caller's %s was written to", what)
		}
		for i := range buf {
			buf[i] ^= 0x5A
		}
		return nil
	})
	return buf[:len(b)]
}

func (l *loans) colour(c *pdft.FontColor) *pdft.FontColor {
	if l == nil || c == nil {
		return c
	}
	orig := *c
	l.checks = append(l.checks, func() error {
		if *c != orig {
			return fmt.Errorf("the caller's colour was changed from %v to %v", orig, *c)
		}
		c.R, c.G, c.B = 255-c.R, (c.G+100)%256, 255-c.B
		return nil
	})
	return c
}

func (l *loans) rect(r *gopdf.Rect) *gopdf.Rect {
	if l == nil || r == nil {
		return r
	}
	orig := *r
	l.checks = append(l.checks, func() error {
		if *r != orig {
			return fmt.Errorf("the caller's rectangle was changed from %v to %v", orig, *r)
		}
		r.W, r.H = r.W*2+1, r.H/2+3
		return nil
	})
	return r
}

type lentBreaker struct {
	b textbreak.TextBreaker
	l *loans
}

func (b lentBreaker) BreakTextToToken(s string) ([]string, error) {
	toks, err := b.b.BreakTextToToken(s)
	orig := append([]string(nil), toks...)
	b.l.checks = append(b.l.checks, func() error {
		if !reflect.DeepEqual(append([]string(nil), toks...), orig) {
			return fmt.Errorf("the breaker's tokens %q were changed to %q", orig, toks)
		}
		for i := range toks {
			toks[i] = "spoilt"
		}
		return nil
	})
	return toks, err
}

func (l *loans) breaker(b textbreak.TextBreaker) textbreak.TextBreaker {
	if l == nil || b == nil {
		return b
	}
	return lentBreaker{b, l}
}

// back checks and spoils what was lent.
func (l *loans) back() error {
	if l == nil {
		return nil
	}
	var first error
	for _, f := range l.checks {
		if err := f(); err != nil && first == nil {
			first = err
		}
	}
	l.checks = nil
	return first
}

type callerCase struct {
	Hist   *Hist       `json:"hist,omitempty"`
	Render *renderCase `json:"render,omitempty"`
	Go     *GoHist     `json:"go,omitempty"`
}

func initCaller() {
	register("C26", 12000, 60000, "Non-trivial: at least one insertion was made from data that was changed by the caller afterwards. Cases are random histories (with protection), rendered fields and documents built from scratch.",
		func(t *rapid.T) callerCase {
			var c callerCase
			switch k := ir(t, 0, 9, "what"); {
			case k < 6:
				h := drawHist(t, HistOpt{Pages: 3, Ops: 9, RealPct: 2, Fonts: 2, Imgs: 2, BadImg: true, Kinds: []string{"text", "text", "text", "img", "img", "img", "wrap", "wrap", "setfont", "dup", "save", "prot", "border", "measure"}})
				c.Hist = &h
			case k < 8:
				r := drawRender(t)
				c.Render = &r
			default:
				g := drawGo(t, 16)
				c.Go = &g
			}
			return c
		}, runCaller)
}

func runCaller(c callerCase, x *Ctx) error {
	switch {
	case c.Hist != nil:
		h := c.Hist
		a, bad := runOps(h, h.Ops, x)
		if bad {
			x.discard = true
			return nil
		}
		want, err := meaningDec(a.data, a.r.m.prot, true)
		if err != nil {
			x.discard = true
			return nil
		}
		tpl := h.Tpl.Build()
		l := &loans{}
		r := &runner{m: newModel(h, tpl), pdf: &pdft.PDFt{}, x: x, noCheck: true, loans: l}
		if err := r.pdf.OpenFrom(readerOf(l.bytes("template", tpl.Data))); err != nil {
			return fmt.Errorf("opening the template failed: %v", err)
		}
		if err := l.back(); err != nil {
			return err
		}
		r.run(h.Ops)
		if err := r.m.issues.pick("loan"); err != nil {
			return err
		}
		if !r.stopped {
			r.do(HOp{K: "save"})
		}
		if err := r.m.issues.pick("*"); err != nil {
			return fmt.Errorf("with the caller changing its data after the calls: %v", err)
		}
		got, err := meaningDec(r.last, r.m.prot, true)
		if err != nil {
			return fmt.Errorf("with the caller changing its data after the calls: %v", err)
		}
		if d := diffMeaning(want, got); d != "" {
			return fmt.Errorf("the caller changing its data after the calls changes the document: %s", d)
		}
		if r.m.texts+r.m.images > 0 {
			x.NT()
		}
		r.labels()
	case c.Render != nil:
		x.Label("fields")
		return runRender(*c.Render, x, func(f render.FieldInfos) {
			for i := range f {
				f[i] = render.FieldInfo{Key: f[i].Key + "?", PageNum: 1, X: 1, Y: 2, W: 3, H: 4, Size: 99, Font: "?"}
			}
		})
	case c.Go != nil:
		x.Label("from scratch")
		want, ok := soloGo(c.Go, x)
		if !ok {
			x.discard = true
			return nil
		}
		l := &loans{}
		r := newGoLoan(c.Go, x, l)
		if err := l.back(); err != nil {
			return err
		}
		for _, op := range append(append([]HOp{}, c.Go.Ops...), HOp{K: "get"}) {
			r.do(op)
			if err := l.back(); err != nil {
				return err
			}
		}
		if err := r.m.issues.pick("*"); err != nil {
			return fmt.Errorf("with the caller changing its data after the calls: %v", err)
		}
		got, err := meaningDec(r.last, c.Go.Prot, true)
		if err != nil {
			return fmt.Errorf("with the caller changing its data after the calls: %v", err)
		}
		if d := diffMeaning(want, got); d != "" {
			return fmt.Errorf("the caller changing its data after the calls changes the document: %s", d)
		}
		if r.m.marks > 0 {
			x.NT()
		}
	}
	return nil
}
