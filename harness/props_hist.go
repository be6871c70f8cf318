package main

// Properties decided by running a history against the model.

import "pgregory.net/rapid"

// histProp registers a property that owns some aspects of the comparison.
func histProp(id string, quick, thorough int, rule string, opt HistOpt, nt func(m *model, r *runner) bool, aspects ...string) *Prop {
	return register(id, quick, thorough, rule, func(t *rapid.T) Hist { return drawHist(t, opt) }, func(h Hist, x *Ctx) error {
		r := runHist(&h, x)
		return r.verdict(nt, aspects...)
	})
}

// every file saved must be readable and what can be done must succeed, whatever the property
var common = []string{"struct", "open", "crypt", "ret:save", "ret:font", "ret:setfont", "ret:text", "ret:wrap", "ret:img", "ret:dup", "ret:rm", "ret:keep", "ret:measure"}

func (r *runner) verdict(nt func(m *model, r *runner) bool, aspects ...string) error {
	m := r.m
	if r.unsure {
		r.x.discard = true
		return nil
	}
	if err := m.issues.pick(aspects...); err != nil {
		return err
	}
	if err := m.issues.pick(common...); err != nil {
		return err
	}
	if len(m.issues) > 0 {
		r.x.discard = true // another property's business
		return nil
	}
	if nt == nil || nt(m, r) {
		r.x.NT()
	}
	if m.texts > 0 {
		r.x.Label("text")
	}
	if m.images > 0 {
		r.x.Label("image")
	}
	if m.pageops > 0 {
		r.x.Label("pageop")
	}
	if r.nsave > 1 {
		r.x.Label("several saves")
	}
	if m.h.Tpl.Update > 0 {
		r.x.Label("updated template")
	}
	if len(m.h.Tpl.Pages) > 1 {
		r.x.Label("several pages")
	}
	for _, f := range m.h.Fonts {
		if f.Real != "" {
			r.x.Label("real font")
			break
		}
	}
	return nil
}

func rep(n int, s ...string) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, s...)
	}
	return out
}
func cat(l ...[]string) []string {
	var out []string
	for _, x := range l {
		out = append(out, x...)
	}
	return out
}

const drawnRule = " Cases are drawn at random: a template (page tree, attributes, resources, content streams, formatting), fonts, images and a list of operations."

func init() {
	some := func(m *model, r *runner) bool { return m.texts+m.images+m.pageops > 0 }
	histProp("C01", 25000, 150000, "Non-trivial: at least one insertion or page operation succeeded before a save that was read back."+drawnRule,
		HistOpt{Pages: 5, Ops: 9, RealPct: 4, Kinds: append([]string{"prot"}, baseKinds...)}, some, "struct", "open", "draw", "ret:save", "crypt", "font")
	histProp("C02", 25000, 150000, "Non-trivial: something was inserted and the template has content or resources to keep."+drawnRule,
		HistOpt{Pages: 4, Ops: 6, Kinds: []string{"text", "text", "img", "img", "save", "wrap", "setfont"}},
		func(m *model, r *runner) bool { return m.texts+m.images > 0 && len(m.h.Tpl.Pages) > 0 },
		"tplattr", "tplres", "tplcontent", "open", "pages", "draw")
	histProp("C03", 25000, 150000, "Non-trivial: at least one page operation succeeded."+drawnRule,
		HistOpt{Pages: 6, Ops: 9, Kinds: []string{"dup", "dup", "rm", "keep", "count", "text", "img", "save"}},
		func(m *model, r *runner) bool { return m.pageops > 0 },
		"pages", "count", "tplcontent", "tplattr", "tplres", "ret:dup", "ret:rm", "ret:keep", "err:dup", "err:rm", "err:keep", "glyphs", "images", "posy", "imgpos")
	histProp("C04", 25000, 150000, "Non-trivial: a page was duplicated and something was inserted."+drawnRule,
		HistOpt{Pages: 3, Ops: 10, Kinds: []string{"dup", "dup", "dup", "text", "text", "text", "img", "img", "rm", "save"}},
		func(m *model, r *runner) bool { return m.pageops > 0 && m.texts+m.images > 0 },
		"glyphs", "images", "imgpos", "pixels", "tplattr", "tplres", "tplcontent", "pages", "ret:dup", "draw", "env", "imgenv", "posx", "posy")
	histProp("C05", 25000, 150000, "Non-trivial: at least two texts were inserted."+drawnRule,
		HistOpt{Pages: 3, Ops: 12, RealPct: 8, Fonts: 3, Kinds: []string{"text", "text", "text", "text", "text", "setfont", "setfont", "img", "dup", "save", "font", "measure", "wrap"}},
		func(m *model, r *runner) bool { return m.texts > 1 },
		"glyphs", "font", "size", "colour", "env", "order", "draw", "ret:text", "err:text", "ret:setfont", "err:setfont", "ret:font", "err:font")
	histProp("C06", 25000, 150000, "Non-trivial: at least one text was inserted."+drawnRule,
		HistOpt{Pages: 4, Ops: 8, RealPct: 8, Fonts: 2, Imgs: 1, Kinds: []string{"text", "text", "text", "text", "text", "setfont", "dup", "rm", "measure", "save"}},
		func(m *model, r *runner) bool { return m.texts > 0 }, "posx", "posy")
	histProp("C07", 25000, 150000, "Non-trivial: at least one text was inserted."+drawnRule,
		HistOpt{Pages: 2, Ops: 10, RealPct: 12, Fonts: 2, Imgs: 1, Kinds: []string{"text", "text", "measure", "measure", "setfont", "save"}},
		func(m *model, r *runner) bool { return m.texts > 0 }, "adv", "W", "measure", "ret:measure", "err:measure")
	histProp("C08", 25000, 150000, "Non-trivial: a wrapped text made at least two lines."+drawnRule,
		HistOpt{Pages: 2, Ops: 7, RealPct: 8, Fonts: 2, Imgs: 1, Kinds: []string{"wrap", "wrap", "wrap", "wrap", "setfont", "text"}},
		func(m *model, r *runner) bool { return m.lines > m.texts },
		"glyphs", "wrapposx", "wrapposy", "ret:wrap", "err:wrap")
	histProp("C09", 25000, 150000, "Non-trivial: at least one text was inserted, so that a font was embedded."+drawnRule,
		HistOpt{Pages: 2, Ops: 7, RealPct: 6, Fonts: 3, Imgs: 1, Kinds: []string{"text", "text", "text", "setfont", "save", "measure", "wrap"}},
		func(m *model, r *runner) bool { return m.texts > 0 }, "fontprog", "font", "glyphs", "draw")
	histProp("C10", 25000, 150000, "Non-trivial: at least one text was inserted."+drawnRule,
		HistOpt{Pages: 2, Ops: 7, RealPct: 8, Fonts: 2, Imgs: 1, Kinds: []string{"text", "text", "text", "setfont", "save", "measure", "wrap"}},
		func(m *model, r *runner) bool { return m.texts > 0 }, "tounicode", "draw", "glyphs")
	histProp("C11", 25000, 150000, "Non-trivial: at least one image was inserted and decoded from the saved file."+drawnRule,
		HistOpt{Pages: 2, Ops: 4, Fonts: 1, Imgs: 3, BadImg: true, BigImg: true, Kinds: []string{"img", "img", "img", "save"}},
		func(m *model, r *runner) bool { return m.images > 0 }, "pixels", "ret:img", "err:img", "draw")
	histProp("C12", 25000, 150000, "Non-trivial: at least two images were inserted."+drawnRule,
		HistOpt{Pages: 3, Ops: 10, Fonts: 1, Imgs: 4, Twins: true, Kinds: []string{"img", "img", "img", "img", "img", "dup", "rm", "text", "save"}},
		func(m *model, r *runner) bool { return m.images > 1 },
		"images", "imgpos", "imgenv", "imgcache", "pixels", "order", "draw", "ret:img", "err:img")
	histProp("C22", 25000, 150000, "Non-trivial: an override was installed and text drawn with that font."+drawnRule,
		HistOpt{Pages: 2, Ops: 8, RealPct: 8, Fonts: 2, Imgs: 1, Kinds: []string{"kern", "rise", "text", "text", "text", "text", "measure", "setfont", "wrap", "save"}},
		func(m *model, r *runner) bool {
			for _, p := range m.pages {
				for _, in := range p.ins {
					if in.font != nil && (in.font.kern != nil || in.font.rise != nil) && len(in.text) > 1 {
						return true
					}
				}
			}
			return false
		}, "kern", "rise", "kernargs", "riseargs", "measure", "adv", "posx", "posy", "wrapposx", "wrapposy", "draw", "glyphs", "ret:kern", "err:kern", "ret:rise", "err:rise", "ret:text")
	histProp("C27", 25000, 150000, "Non-trivial: at least one text was inserted with borders shown or an underline style."+drawnRule,
		HistOpt{Pages: 3, Ops: 10, RealPct: 4, Fonts: 2, Imgs: 1, Kinds: []string{"border", "border", "text", "text", "text", "setfont", "setfont", "dup", "save", "wrap", "img"}},
		func(m *model, r *runner) bool {
			for _, p := range m.pages {
				for _, in := range p.ins {
					if in.underline || in.border {
						return true
					}
				}
			}
			return false
		}, "border", "underline")
}
