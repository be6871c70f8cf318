package main

// Properties decided by comparing runs with each other.

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/signintech/pdft"
	"pgregory.net/rapid"
)

// evLine describes a mark independent of numbering and names.
func (d *Doc) evLine(e Ev, style bool) string {
	switch e.Kind {
	case "glyph":
		id := ""
		if emb, err := d.ReadEmbFont(e.Font); err == nil {
			id = emb.T.Identity
		} else {
			id = d.digest(e.Font)
		}
		return fmt.Sprintf("glyph %s code %x gid %d size %.4f at %.3f %.3f rise %.3f colour %.3f %s", id, e.Code, e.Gid, e.Size, e.X, e.Y, e.Rise, e.FillC, e.Env)
	case "image":
		return fmt.Sprintf("image %s at %.3f %s", d.digest(e.XObj), e.M, e.Env)
	case "path":
		s := "path " + e.Paint
		for _, g := range e.Segs {
			s += fmt.Sprintf(" %s%.3f", g.Op, g.P)
		}
		if strings.ContainsAny(e.Paint, "fB") {
			s += fmt.Sprintf(" fill %.3f", e.FillC)
		}
		if style {
			s += fmt.Sprintf(" %s lw %.3f dash %s", e.Stroke, e.LW, e.Dash)
		}
		return s + e.Env
	}
	return e.Kind + " " + e.What
}

// drawnOf lists what the pages of a saved file draw after the template's own
// content; sorted ignores the order of marks.
func drawnOf(data []byte, tops func(i int) ([]COp, int), style, sorted bool) ([]string, error) {
	doc, err := ReadPDF(data)
	if err != nil {
		return nil, err
	}
	pages, err := doc.Pages()
	if err != nil {
		return nil, err
	}
	var out []string
	for i, p := range pages {
		ops, err := doc.PageOps(p)
		if err != nil {
			return nil, err
		}
		tpl, add := tops(i)
		split, why := splitTemplate(ops, tpl)
		if split < 0 {
			return nil, fmt.Errorf("page %d: %s", i+1, why)
		}
		split -= add
		evs, err := doc.Interpret(p, ops, split)
		if err != nil {
			return nil, err
		}
		var l []string
		for _, e := range evs {
			if e.At >= split {
				l = append(l, fmt.Sprintf("page %d: %s", i+1, doc.evLine(e, style)))
			}
		}
		if sorted {
			sort.Strings(l)
		}
		out = append(out, fmt.Sprintf("page %d", i+1))
		out = append(out, l...)
	}
	return out, nil
}

// drawn is drawnOf for the pages of a model.
func (m *model) drawn(data []byte, style, sorted bool) ([]string, error) {
	return drawnOf(data, func(i int) ([]COp, int) {
		if i >= len(m.pages) {
			return nil, 0
		}
		o, err := m.tpl.Doc.PageOps(m.pages[i].src)
		if err != nil {
			panic(harnessBug(err.Error()))
		}
		return o, 0
	}, style, sorted)
}

// decoded reads a saved file, decrypting it when protected.
func decoded(data []byte, prot *HOp, owner bool) (*Doc, error) {
	d, err := ReadPDF(data)
	if err != nil {
		return nil, err
	}
	if prot == nil {
		if d.Trailer["Encrypt"] != nil {
			return nil, fmt.Errorf("the file is encrypted without protection set")
		}
		return d, nil
	}
	h, err := d.Security()
	if err != nil {
		return nil, err
	}
	var key []byte
	var ok bool
	if owner && prot.St != "" {
		key, ok = h.Owner([]byte(prot.St))
		if !ok {
			return nil, fmt.Errorf("the owner password is not accepted")
		}
	} else {
		key, ok = h.User([]byte(prot.S))
		if !ok {
			return nil, fmt.Errorf("the user password is not accepted")
		}
	}
	return d.Decrypt(key), nil
}

func meaningDec(data []byte, prot *HOp, owner bool) ([]string, error) {
	d, err := decoded(data, prot, owner)
	if err != nil {
		return nil, err
	}
	return d.Meaning()
}

// outcome of running operations: what calls returned and the last saved file
type outcome struct {
	r    *runner
	data []byte
	errs string
}

// runOps runs a history without comparing it to the model; the model only
// serves to resolve page numbers.  stop is true when the outcome is not usable.
func runOps(h *Hist, ops []HOp, x *Ctx) (*outcome, bool) {
	tpl := h.Tpl.Build()
	r := &runner{m: newModel(h, tpl), pdf: &pdft.PDFt{}, x: x, noCheck: true}
	if err := openTpl(r.pdf, tpl.Data, 0, x.dir); err != nil {
		return nil, true
	}
	r.run(ops)
	if !r.stopped {
		r.do(HOp{K: "save"})
	}
	if r.stopped || r.last == nil {
		return nil, true
	}
	return &outcome{r: r, data: r.last}, false
}

func without(ops []HOp, kinds ...string) []HOp {
	var out []HOp
	for _, o := range ops {
		keep := true
		for _, k := range kinds {
			keep = keep && o.K != k
		}
		if keep {
			out = append(out, o)
		}
	}
	return out
}

func count(ops []HOp, kinds ...string) int { return len(ops) - len(without(ops, kinds...)) }

// labels shared by the properties of this file
func (r *runner) labels() {
	if r.m.texts > 0 {
		r.x.Label("text")
	}
	if r.m.images > 0 {
		r.x.Label("image")
	}
	if r.m.pageops > 0 {
		r.x.Label("pageop")
	}
}

func init() {
	initProtection()
	initRepeat()
	initReopen()
}

type protCase struct {
	Perm  int    `json:"perm"`
	User  []byte `json:"user"`
	Owner []byte `json:"owner"`
	Tpl   int    `json:"tpl"`
	Try   []byte `json:"try"`
	Twice bool   `json:"twice"`
	Perm2 int    `json:"perm2"`
	Text  bool   `json:"text"`
	Go    bool   `json:"go"`
}

func drawPW(t *rapid.T, name string) []byte {
	switch uniform(t, 6, name) {
	case 0:
		return []byte{}
	case 1:
		return []byte(oneof(t, []string{"user", "owner", "0123456789abcdef0123456789abcdef", "0123456789abcdef0123456789abcdefX", "(", "\\()\r\n", "a"}, name))
	case 2: // ends with the start of the padding
		return append([]byte("pw"), stdPad[:ir(t, 0, 30, name)]...)
	}
	n := ir(t, 1, 40, name)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(uniform(t, 256, name))
	}
	return b
}

func initProtection() {
	register("C13", 60000, 80000, "Non-trivial: the saved file carries an encryption dictionary whose passwords and permissions were tested. Passwords are random bytes, lengths 0 to 40, with and without shared prefixes, padding bytes and special characters; wrong passwords are drawn near the right ones.",
		func(t *rapid.T) protCase {
			c := protCase{Perm: ir(t, 0, 63, "perm"), User: drawPW(t, "user"), Owner: drawPW(t, "owner"), Tpl: ir(t, 0, 5, "tpl")}
			if chance(t, 30, "low") {
				c.Perm = c.Perm &^ 3
			}
			if chance(t, 10, "wide") {
				c.Perm = ir(t, -5000, 5000, "wperm")
			}
			if chance(t, 10, "same") {
				c.Owner = append([]byte{}, c.User...)
			}
			c.Try = drawPW(t, "try")
			c.Twice = chance(t, 20, "twice")
			c.Perm2 = ir(t, 0, 63, "perm2")
			c.Text = chance(t, 30, "txt")
			c.Go = chance(t, 25, "go")
			return c
		}, runProt)

	register("C14", 14000, 80000, "Non-trivial: protection was set and at least one text or image inserted; the decrypted file is compared with the file the same history gives without protection."+drawnRule,
		func(t *rapid.T) Hist {
			h := drawHist(t, HistOpt{Pages: 3, Ops: 9, RealPct: 3, Fonts: 2, Imgs: 2, Kinds: []string{"text", "text", "img", "img", "wrap", "setfont", "dup", "rm", "prot", "save", "border"}})
			op := (&HistOpt{}).drawOp(t, &h, []rune{'a'}, "prot")
			at := ir(t, 0, len(h.Ops), "protat")
			h.Ops = append(h.Ops[:at:at], append([]HOp{op}, h.Ops[at:]...)...)
			if chance(t, 5, "base") {
				h.Tpl.Base = oneof(t, []int{250, 250, 250, 250, 250, 65530, 70000, 131070}, "basev")
			}
			return h
		}, func(h Hist, x *Ctx) error {
			a, bad := runOps(&h, h.Ops, x)
			if bad {
				x.discard = true
				return nil
			}
			b, bad := runOps(&h, without(h.Ops, "prot"), x)
			if bad {
				x.discard = true
				return nil
			}
			prot := a.r.m.prot
			want, err := meaningOf(b.data)
			if err != nil {
				x.discard = true // the unprotected file is other properties' business
				return nil
			}
			for _, owner := range []bool{false, true} {
				got, err := meaningDec(a.data, prot, owner)
				if err != nil {
					return fmt.Errorf("the protected file cannot be read: %v", err)
				}
				if d := diffMeaning(want, got); d != "" {
					return fmt.Errorf("the decrypted file differs from the unprotected one: %s", d)
				}
			}
			// nothing in the clear
			enc, err := ReadPDF(a.data)
			if err != nil {
				return err
			}
			dec, _ := decoded(a.data, prot, false)
			clear := ""
			for _, id := range sortedIDs(dec.Objs) {
				o := dec.Objs[id]
				if s, ok := o.(*Stream); ok && len(s.Raw) >= 8 {
					if e, ok := enc.Objs[id].(*Stream); ok && bytes.Equal(e.Raw, s.Raw) {
						clear = fmt.Sprintf("the data of stream %d is not encrypted", id)
					}
				}
			}
			if clear != "" {
				return fmt.Errorf("%s", clear)
			}
			// without a password to open it with, it is not a template
			var p pdft.PDFt
			if openTpl(&p, a.data, 0, x.dir) == nil {
				return fmt.Errorf("the protected file was opened as a template without a password")
			}
			p = pdft.PDFt{}
			if openTpl(&p, updated(a.data), 0, x.dir) == nil {
				return fmt.Errorf("the protected file, with an update appended, was opened as a template without a password")
			}
			if a.r.m.texts+a.r.m.images > 0 {
				x.NT()
			}
			a.r.labels()
			if h.Tpl.Base > 0 {
				x.Label("large object numbers")
			}
			return nil
		})
}

func sortedIDs(m map[int]Obj) []int {
	var l []int
	for k := range m {
		l = append(l, k)
	}
	sort.Ints(l)
	return l
}

func runProt(c protCase, x *Ctx) error {
	var data []byte
	if c.Go {
		b, err := goProtected(c.Perm, c.User, c.Owner)
		if err != nil {
			return fmt.Errorf("building a protected document failed: %v", err)
		}
		data = b
		x.Label("from scratch")
	} else {
		spec := TplSpec{Tree: TplNode{Page: -1, Kids: []TplNode{{Page: 0}}}, Pages: []TplPage{{Contents: 1, Media: 1, Parts: []TplPart{{Snip: []int{c.Tpl}}}}}, Medias: [][4]float64{{0, 0, 595, 842}}, Junk: c.Tpl}
		tpl := spec.Build()
		pdf := &pdft.PDFt{}
		if err := openTpl(pdf, tpl.Data, 0, x.dir); err != nil {
			return fmt.Errorf("opening the template failed: %v", err)
		}
		if c.Twice {
			if err := pdf.SetProtection(c.Perm2, []byte("first"), []byte("one")); err != nil {
				return fmt.Errorf("SetProtection failed: %v", err)
			}
			if c.Text {
				if _, err := savePdf(pdf, 0, x.dir); err != nil {
					return fmt.Errorf("saving failed: %v", err)
				}
			}
		}
		if err := pdf.SetProtection(apiPerm(c.Perm), c.User, c.Owner); err != nil {
			return fmt.Errorf("SetProtection failed: %v", err)
		}
		b, err := savePdf(pdf, 0, x.dir)
		if err != nil {
			return fmt.Errorf("saving failed: %v", err)
		}
		data = b
	}
	d, err := ReadPDF(data)
	if err != nil {
		return err
	}
	h, err := d.Security()
	if err != nil {
		return err
	}
	key, ok := h.User(c.User)
	if !ok {
		return fmt.Errorf("the user password %q is not accepted", c.User)
	}
	up := padPW(c.User)
	if len(c.Owner) > 0 {
		k2, ok := h.Owner(c.Owner)
		if !ok {
			return fmt.Errorf("the owner password %q is not accepted", c.Owner)
		}
		if !bytes.Equal(key, k2) {
			return fmt.Errorf("user and owner password give different keys")
		}
	}
	dec := d.Decrypt(key)
	if ps, err := dec.Pages(); err != nil || len(ps) != 1 {
		return fmt.Errorf("the decrypted file has no page: %v", err)
	} else if _, err := dec.PageOps(ps[0]); err != nil {
		return fmt.Errorf("the decrypted page: %v", err)
	}
	// wrong ones
	tries := [][]byte{{}, c.Try, []byte("first"), []byte("one")}
	for _, p := range [][]byte{c.User, c.Owner} {
		if len(p) > 0 {
			tries = append(tries, p[:len(p)-1])
			q := append([]byte{}, p...)
			q[0] ^= 1
			tries = append(tries, q)
			q = append([]byte{}, p...)
			q[len(q)-1] ^= 0x20
			tries = append(tries, q)
		}
		tries = append(tries, append(append([]byte{}, p...), 'x'))
	}
	op := padPW(c.Owner)
	tries = append(tries, c.User, c.Owner)
	for _, p := range tries {
		pp := padPW(p)
		if _, ok := h.User(p); ok != bytes.Equal(pp, up) {
			return fmt.Errorf("as user password %q is accepted: %v (the user password is %q)", p, ok, c.User)
		}
		wantOwner := len(c.Owner) > 0 && bytes.Equal(pp, op)
		if _, ok := h.Owner(p); ok != wantOwner {
			return fmt.Errorf("as owner password %q is accepted: %v (the owner password is %q)", p, ok, c.Owner)
		}
	}
	// permissions: bits 3..6, all others as the standard says
	want := int32(-64) | int32(c.Perm&0x3C)
	if int32(h.P) != want {
		return fmt.Errorf("the permissions are %d (%#x), %#x asked for", h.P, uint32(h.P), c.Perm&0x3C)
	}
	x.NT()
	return nil
}

func initRepeat() {
	register("C15", 12000, 60000, "Non-trivial: the history contains at least one save, count or measurement before its end and at least one insertion or page operation."+drawnRule,
		func(t *rapid.T) Hist {
			return drawHist(t, HistOpt{Pages: 3, Ops: 12, RealPct: 3, Fonts: 2, Imgs: 2, Kinds: []string{"text", "text", "text", "img", "wrap", "setfont", "dup", "rm", "save", "save", "count", "measure", "measure", "border", "prot"}})
		}, func(h Hist, x *Ctx) error {
			// all saves once more, then compare in pairs
			var pairs [][2][]byte
			var prots []*HOp
			var again func(r *runner) func(b []byte)
			again = func(r *runner) func(b []byte) {
				return func(b []byte) {
					r.onSave = nil
					c, err := savePdf(r.pdf, (len(pairs)+h.Tpl.Seed)%3, x.dir)
					if err != nil {
						c = nil
					}
					pairs = append(pairs, [2][]byte{b, c})
					prots = append(prots, r.m.prot)
					r.onSave = again(r)
				}
			}
			tpl := h.Tpl.Build()
			r := &runner{m: newModel(&h, tpl), pdf: &pdft.PDFt{}, x: x, noCheck: true}
			if err := openTpl(r.pdf, tpl.Data, 0, x.dir); err != nil {
				x.discard = true
				return nil
			}
			r.onSave = again(r)
			r.run(h.Ops)
			if !r.stopped {
				r.do(HOp{K: "save"})
			}
			if r.stopped {
				if err := r.m.issues.pick("ret:save", "count", "measure"); err != nil {
					return err
				}
				x.discard = true
				return nil
			}
			if err := r.m.issues.pick("count", "measure"); err != nil {
				return err
			}
			for i, p := range pairs {
				if p[1] == nil {
					return fmt.Errorf("save %d repeated at once failed", i+1)
				}
				a, err := meaningDec(p[0], prots[i], false)
				if err != nil {
					return err
				}
				b, err := meaningDec(p[1], prots[i], false)
				if err != nil {
					return fmt.Errorf("save %d repeated at once: %v", i+1, err)
				}
				if d := diffMeaning(a, b); d != "" {
					return fmt.Errorf("save %d repeated at once differs: %s", i+1, d)
				}
			}
			// without saves
			final, err := meaningDec(r.last, r.m.prot, false)
			if err != nil {
				return err
			}
			b, bad := runOps(&h, without(h.Ops, "save"), x)
			if bad {
				return fmt.Errorf("the history works with saves in it and fails without")
			}
			want, err := meaningDec(b.data, b.r.m.prot, false)
			if err != nil {
				x.discard = true
				return nil
			}
			if d := diffMeaning(want, final); d != "" {
				return fmt.Errorf("with saves in between the final file differs: %s", d)
			}
			// without queries: the same is drawn
			c, bad := runOps(&h, without(h.Ops, "save", "count", "measure", "prot"), x)
			if bad {
				return fmt.Errorf("the history works with queries in it and fails without")
			}
			dn, bad := runOps(&h, without(h.Ops, "save", "prot"), x)
			if bad {
				return fmt.Errorf("the history works with protection and fails without")
			}
			w, err := c.r.m.drawn(c.data, true, false)
			if err != nil {
				x.discard = true
				return nil
			}
			g, err := dn.r.m.drawn(dn.data, true, false)
			if err != nil {
				return err
			}
			if d := diffMeaning(w, g); d != "" {
				return fmt.Errorf("with queries in between something else is drawn: %s", d)
			}
			if count(h.Ops, "save", "count", "measure") > 0 && r.m.texts+r.m.images+r.m.pageops > 0 {
				x.NT()
			}
			r.labels()
			if len(pairs) > 1 {
				x.Label("several saves")
			}
			return nil
		})
}

type splitCase struct {
	Hist
	At  int `json:"at"`
	Pre int `json:"pre,omitempty"` // rounds of saving and opening again before the first
}

func initReopen() {
	register("C16", 12000, 100000, "Non-trivial: something was inserted or edited before and something after the document was saved and opened again."+drawnRule+" The point of the split is drawn too.",
		func(t *rapid.T) splitCase {
			c := splitCase{Hist: drawHist(t, HistOpt{Pages: 3, Ops: 12, RealPct: 3, Fonts: 2, Imgs: 2, Kinds: []string{"text", "text", "text", "text", "img", "img", "wrap", "setfont", "dup", "rm", "border", "count", "measure", "save"}})}
			if chance(t, 15, "pre") {
				c.Pre = ir(t, 1, 3, "pren")
			}
			// mostly with insertions on both sides
			if chance(t, 70, "both") {
				var chars []rune
				for i := range c.Fonts {
					chars = append(chars, c.Fonts[i].chars()...)
				}
				for i, n := 0, ir(t, 1, 4, "nboth"); i < n; i++ {
					c.Ops = append(c.Ops, (&HistOpt{Pages: 3}).drawOp(t, &c.Hist, chars, oneof(t, []string{"text", "text", "img", "wrap"}, "bothk")))
				}
				var at []int
				for i, op := range c.Ops {
					if op.K == "text" || op.K == "img" || op.K == "wrap" {
						at = append(at, i)
					}
				}
				c.At = oneof(t, at, "splitat")
				return c
			}
			c.At = ir(t, 0, len(c.Ops), "split")
			return c
		}, runSplit)
}

// updated appends an incremental update (of nothing) to a saved file.
func updated(data []byte) []byte {
	tr := bytes.LastIndex(data, []byte("trailer"))
	sx := bytes.LastIndex(data, []byte("startxref"))
	if tr < 0 || sx < tr {
		return data
	}
	prev := strings.TrimSpace(strings.TrimSuffix(strings.TrimSpace(string(data[sx+9:])), "%%EOF"))
	out := append([]byte{}, data...)
	at := len(out)
	dict := strings.TrimSpace(string(data[tr+7 : sx]))
	dict = strings.TrimSuffix(dict, ">>") + "/Prev " + prev + "\n>>"
	return append(out, fmt.Sprintf("xref\n0 1\n0000000000 65535 f \ntrailer\n%s\nstartxref\n%d\n%%%%EOF\n", dict, at)...)
}

func runSplit(c splitCase, x *Ctx) error {
	h := &c.Hist
	at := min(c.At, len(h.Ops))
	// in one go
	tpl := h.Tpl.Build()
	for k := 0; k < c.Pre; k++ {
		r := &runner{m: newModel(h, tpl), pdf: &pdft.PDFt{}, x: x}
		if err := openTpl(r.pdf, tpl.Data, 0, x.dir); err != nil {
			if k == 0 {
				x.discard = true
				return nil
			}
			return fmt.Errorf("the document saved %d times cannot be opened again: %v", k, err)
		}
		r.run(h.Ops[:at])
		if !r.stopped {
			r.do(HOp{K: "save"})
		}
		if err := r.m.issues.pick("*"); err != nil || r.stopped || r.unsure {
			if k > 0 && err != nil && !r.unsure {
				return fmt.Errorf("editing the document saved %d times: %v", k, err)
			}
			x.discard = true
			return nil
		}
		doc, err := ReadPDF(r.last)
		if err != nil {
			return fmt.Errorf("the saved file cannot be read: %v", err)
		}
		pages, err := doc.Pages()
		if err != nil {
			return fmt.Errorf("the saved file cannot be read: %v", err)
		}
		tpl = &Tpl{Data: r.last, Doc: doc, Pages: pages}
		x.Label("several rounds")
	}
	dump("tpl.pdf", tpl.Data)
	r1 := &runner{m: newModel(h, tpl), pdf: &pdft.PDFt{}, x: x, noCheck: true}
	if err := openTpl(r1.pdf, tpl.Data, 0, x.dir); err != nil {
		x.discard = true
		return nil
	}
	r1.run(h.Ops[:at])
	if r1.stopped {
		x.discard = true
		return nil
	}
	first, err := savePdf(r1.pdf, 0, x.dir)
	if err != nil {
		x.discard = true
		return nil
	}
	dump("first.pdf", first)
	doc1, err := ReadPDF(first)
	if err != nil {
		return fmt.Errorf("the saved file cannot be read: %v", err)
	}
	pages1, err := doc1.Pages()
	if err != nil {
		return fmt.Errorf("the saved file cannot be read: %v", err)
	}
	for i, p := range pages1 {
		if _, err := doc1.PageOps(p); err != nil {
			return fmt.Errorf("page %d of the saved file cannot be read: %v", i+1, err)
		}
	}
	half := r1.m.texts + r1.m.images + r1.m.pageops
	// what the first round drew, per page
	state := []HOp{}
	var lastFont *HOp
	for i := range h.Ops[:at] {
		op := h.Ops[i]
		switch op.K {
		case "font":
			dup := false
			for _, o := range state {
				dup = dup || h.Names[o.F] == h.Names[op.F]
			}
			if !dup {
				state = append(state, op)
			}
		case "setfont":
			known := false
			for _, o := range state {
				known = known || h.Names[o.F] == h.Names[op.F]
			}
			if known {
				o := op
				lastFont = &o
			}
		}
	}
	if lastFont != nil {
		state = append(state, *lastFont)
	}
	if r1.m.border {
		state = append(state, HOp{K: "border", V: 1})
	}
	// reopen: the saved file is the template of a second history
	tpl2 := &Tpl{Data: first, Doc: doc1, Pages: pages1}
	r2 := &runner{m: newModel(h, tpl2), pdf: &pdft.PDFt{}, x: x}
	if err := openTpl(r2.pdf, first, 0, x.dir); err != nil {
		return fmt.Errorf("the saved file cannot be opened again: %v", err)
	}
	if n := r2.pdf.GetNumberOfPage(); n != len(r1.m.pages) {
		return fmt.Errorf("the saved file has %d pages when opened again instead of %d", n, len(r1.m.pages))
	}
	// whether pages have content is decided by the first save
	for i := range r2.m.pages {
		r2.m.pages[i].hasC = hasKey(pages1[i].D, "Contents")
	}
	r2.run(state)
	if r2.stopped {
		return fmt.Errorf("after opening again: %v", r2.m.issues.pick("*"))
	}
	// continue on the first
	pend := map[*mPage]bool{}
	for _, p := range r1.m.pages {
		if len(p.ins) > 0 {
			pend[p] = true
		}
	}
	same := true
	for _, op := range h.Ops[at:] {
		if op.K == "dup" {
			if n, ok := r1.m.targetNum(op.P); ok && same && n <= len(r2.m.pages) {
				if pend[r1.m.pages[n-1]] {
					same = false // pending insertions are not copied, saved ones are
				}
				if r1.m.pages[n-1].hasC != r2.m.pages[n-1].hasC {
					same = false
				}
			}
		}
		if same {
			r1.do(op)
			if r1.stopped {
				x.discard = true
				return nil
			}
		}
		r2.do(op)
		if r2.unsure {
			x.discard = true
			return nil
		}
		if r2.stopped {
			if same {
				return fmt.Errorf("after opening again: %v", r2.m.issues.pick("*"))
			}
			x.discard = true
			return nil
		}
	}
	r2.do(HOp{K: "save"})
	if err := r2.m.issues.pick("*"); err != nil {
		// is it the second round's fault?
		if same {
			if e := r1.oneGo(); e != nil {
				x.discard = true
				return nil
			}
		}
		return fmt.Errorf("editing the saved file: %v", err)
	}
	if same {
		full, err := savePdf(r1.pdf, 0, x.dir)
		if err != nil {
			x.discard = true
			return nil
		}
		want, err := r1.m.drawn(full, false, false)
		if err != nil {
			x.discard = true
			return nil
		}
		// marks of both rounds in the twice saved file
		got, err := drawnOf(r2.last, func(i int) ([]COp, int) {
			if i >= len(r2.m.pages) {
				return nil, 0
			}
			src := r2.m.pages[i].src
			o, err := doc1.PageOps(src)
			if err != nil {
				panic(harnessBug(err.Error()))
			}
			t, err := tpl.Doc.PageOps(r1.m.pages[i].src)
			if err != nil {
				panic(harnessBug(err.Error()))
			}
			s, _ := splitTemplate(o, t)
			if s < 0 {
				s = 0
			}
			return o, len(o) - s
		}, false, false)
		if err != nil {
			return fmt.Errorf("the file edited twice: %v", err)
		}
		if d := diffMeaning(want, got); d != "" {
			return fmt.Errorf("saving and opening again in between changes what is drawn: %s", d)
		}
		x.Label("compared with one go")
	}
	rest := r2.m.texts + r2.m.images + r2.m.pageops
	if half > 0 && rest > 0 {
		x.NT()
	}
	r2.labels()
	return nil
}

// oneGo checks what the runner would save against its model.
func (r *runner) oneGo() error {
	r.noCheck = false
	r.do(HOp{K: "save"})
	return r.m.issues.pick("*")
}
