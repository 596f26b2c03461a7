package main

import (
	"bytes"
	"strings"
	"unicode/utf8"

	"github.com/ilius/go-table/runewidth"
	"pgregory.net/rapid"
)

// ---- C27 -----------------------------------------------------------------

type CondOp struct {
	Op     string // flags (package flags), new, set (object I), lut (object I), copy (object I), query
	I      int
	EA, St bool
	Str    S
}

type CondCase struct{ Ops []CondOp }

func genCondHist(t *rapid.T) CondCase {
	var c CondCase
	luts := 0
	for i, n := 0, genInt(t, "ops", 2, 16); i < n; i++ {
		op := CondOp{Op: pick(t, "op", []string{"new", "new", "new", "flags", "flags", "set", "set", "set", "query", "query", "copy"}), I: genInt(t, "i", 0, 9)}
		if luts < 2 && chance(t, "lut", 1) {
			luts++
			op.Op = "lut"
		}
		switch op.Op {
		case "flags", "set":
			op.EA, op.St = rapid.Bool().Draw(t, "ea"), rapid.Bool().Draw(t, "st")
		case "query":
			op.Str = S(genText(t, 3, true))
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// condProbe has runes of every kind of width under the four settings.
const condProbe = "a☆①é世─❤\U0001F600½☺\U0001F321\u0301\u200b¡☀⌚"

func checkCondHist(c CondCase) Outcome {
	if len(c.Ops) > 60 {
		return Outcome{Skip: true}
	}
	d := runewidth.DefaultCondition
	save := *d
	saveEA, saveSt := runewidth.EastAsianWidth, runewidth.StrictEmojiNeutral
	defer func() {
		*d = save
		runewidth.EastAsianWidth, runewidth.StrictEmojiNeutral = saveEA, saveSt
	}()
	type model struct {
		c      *runewidth.Condition
		ea, st bool
		lut    bool
		dirty  bool // settings changed under a lookup table: no claim about widths
	}
	ms := []*model{{c: d, ea: d.EastAsianWidth, st: d.StrictEmojiNeutral, lut: modeLUT}}
	flagEA, flagSt := saveEA, saveSt
	made, differ := 0, map[[2]bool]bool{}
	for step, op := range c.Ops {
		if op.I < 0 {
			return Outcome{Skip: true}
		}
		m := ms[op.I%len(ms)]
		switch op.Op {
		case "flags":
			flagEA, flagSt = op.EA, op.St
			runewidth.EastAsianWidth, runewidth.StrictEmojiNeutral = op.EA, op.St
			// whether the default settings follow the flags is not claimed
			ms[0].ea, ms[0].st, ms[0].dirty = d.EastAsianWidth, d.StrictEmojiNeutral, ms[0].dirty || ms[0].lut && (d.EastAsianWidth != ms[0].ea || d.StrictEmojiNeutral != ms[0].st)
		case "new":
			n := runewidth.NewCondition()
			for i, x := range ms {
				if x.c == n {
					return fail("step %d: a new settings object is object %d again", step, i)
				}
			}
			ms = append(ms, &model{c: n, ea: flagEA, st: flagSt})
			made++
			differ[[2]bool{flagEA, flagSt}] = true
		case "set":
			m.dirty = m.dirty || m.lut && (m.ea != op.EA || m.st != op.St)
			m.ea, m.st = op.EA, op.St
			m.c.EastAsianWidth, m.c.StrictEmojiNeutral = op.EA, op.St
		case "lut":
			m.c.CreateLUT()
			m.lut, m.dirty = true, false
		case "copy":
			cp := *m.c
			ms = append(ms, &model{c: &cp, ea: m.ea, st: m.st, lut: m.lut, dirty: m.dirty})
		case "query":
			if !m.dirty {
				if got, want := m.c.StringWidth(string(op.Str)), refStringWidth(string(op.Str), m.ea, m.st); got != want {
					return fail("step %d: %s has width %d on object %d (East-Asian %v, strict emoji %v), want %d", step, short(string(op.Str)), got, op.I%len(ms), m.ea, m.st, want)
				}
			}
		default:
			return Outcome{Skip: true}
		}
		if runewidth.EastAsianWidth != flagEA || runewidth.StrictEmojiNeutral != flagSt {
			return fail("step %d (%s): the package flags changed by themselves", step, op.Op)
		}
		for i, m := range ms {
			if m.c.EastAsianWidth != m.ea || m.c.StrictEmojiNeutral != m.st {
				return fail("step %d (%s): object %d has East-Asian %v and strict emoji %v, want %v and %v (flags %v and %v)", step, op.Op, i, m.c.EastAsianWidth, m.c.StrictEmojiNeutral, m.ea, m.st, flagEA, flagSt)
			}
			if m.dirty {
				continue
			}
			for _, r := range condProbe {
				if got, want := m.c.RuneWidth(r), refRuneWidth(r, m.ea, m.st); got != want {
					return fail("step %d (%s): rune %U has width %d on object %d (East-Asian %v, strict emoji %v), want %d", step, op.Op, r, got, i, m.ea, m.st, want)
				}
			}
			if got, want := m.c.StringWidth(condProbe), refStringWidth(condProbe, m.ea, m.st); got != want {
				return fail("step %d (%s): the probe text has width %d on object %d, want %d", step, op.Op, got, i, want)
			}
		}
	}
	o := Outcome{NonTrivial: made > 0 && len(c.Ops) > made}
	if len(differ) > 1 {
		o.Classes = append(o.Classes, "made-under-different-flags")
	}
	if made > 1 {
		o.Classes = append(o.Classes, "several-new")
	}
	return o
}

var _ = register(&Prop{
	ID: "C27", Quick: 30000, Thorough: 900000,
	Rule: "histories of flag changes, new objects, setting changes, copies and lookup tables; settings and widths of every object checked after each step; non-trivial: a new object and some other operation",
}, genCondHist, checkCondHist)

// ---- C28 -----------------------------------------------------------------

// Paint inserts escape sequences into a cell or title.
type Paint struct {
	Row, Col int // Row -1: the title, -2: the short title
	Seqs     []S
	At       []int // rune positions in the plain text, modulo its length + 1
}

type ColourCase struct {
	G      GridCase
	Titles []S
	Shorts []S
	Paints []Paint
}

// paint inserts the sequences; text stays whole characters.
func paint(s string, p Paint) string {
	n := utf8.RuneCountInString(s)
	ins := make([]string, n+1)
	for i, q := range p.Seqs {
		ins[p.At[i]%(n+1)] += string(q)
	}
	var b strings.Builder
	k := 0
	for i := 0; i < len(s); {
		b.WriteString(ins[k])
		_, size := utf8.DecodeRuneInString(s[i:])
		b.WriteString(s[i : i+size])
		i += size
		k++
	}
	b.WriteString(ins[n])
	return b.String()
}

func checkColour(c ColourCase) Outcome {
	if len(c.G.Big) > 0 || c.G.Auto > 0 || len(c.Titles) != len(c.G.Cols) || len(c.Shorts) != len(c.G.Cols) {
		return Outcome{Skip: true}
	}
	plain, ok := c.G.build()
	if !ok {
		return Outcome{Skip: true}
	}
	noEsc := func(s string) bool { return !strings.ContainsAny(s, "\x1b\u009b") }
	for _, r := range c.G.Rows {
		for _, s := range r {
			if !noEsc(string(s)) {
				return Outcome{Skip: true}
			}
		}
	}
	for i := range c.Titles {
		if !noEsc(string(c.Titles[i])) || !noEsc(string(c.Shorts[i])) || strings.Contains(string(c.Titles[i]+c.Shorts[i]), "\n") {
			return Outcome{Skip: true}
		}
	}
	if !noEsc(string(c.G.Sep)) {
		return Outcome{Skip: true}
	}
	col := c.G
	col.Rows = nil
	for _, r := range c.G.Rows {
		col.Rows = append(col.Rows, append([]S(nil), r...))
	}
	titles, shorts := append([]S(nil), c.Titles...), append([]S(nil), c.Shorts...)
	painted := 0
	for _, p := range c.Paints {
		if len(p.Seqs) != len(p.At) || p.Col < 0 || p.Col >= len(c.G.Cols) || p.Row < -2 || p.Row >= len(col.Rows) {
			return Outcome{Skip: true}
		}
		for i, q := range p.Seqs {
			if p.At[i] < 0 || q == "" || refStrip(string(q)) != "" || !wellFormed(string(q)) {
				return Outcome{Skip: true}
			}
			painted++
		}
		var s *S
		switch p.Row {
		case -1:
			s = &titles[p.Col]
		case -2:
			s = &shorts[p.Col]
		default:
			s = &col.Rows[p.Row][p.Col]
		}
		if !noEsc(string(*s)) {
			continue // painted already
		}
		before := *s
		if *s = S(paint(string(before), p)); refStrip(string(*s)) != string(before) {
			return Outcome{Skip: true}
		}
	}
	painting, ok := col.build()
	if !ok {
		return Outcome{Skip: true}
	}
	give := func(g *grid, ti, sh []S) {
		for i, x := range g.tab.Columns {
			x.Title, x.ShortTitle = string(ti[i]), string(sh[i])
		}
	}
	give(plain, c.Titles, c.Shorts)
	give(painting, titles, shorts)
	for _, x := range c.G.Cols {
		if a, b := plain.tab.Width(string(x.Name)), painting.tab.Width(string(x.Name)); a != b {
			return fail("column %q is %d wide without colour and %d with it", string(x.Name), a, b)
		}
	}
	if a, b := plain.tab.TableWidth(2), painting.tab.TableWidth(2); a != b {
		return fail("the table is %d wide without colour and %d with it", a, b)
	}
	if a, b := plain.tab.FormatHeader(string(c.G.Sep)), painting.tab.FormatHeader(string(c.G.Sep)); refStrip(b) != a {
		return fail("the header is %s without colour and %s with it", short(a), short(b))
	}
	for i := range plain.rows {
		a, err1 := plain.tab.AlignFormattedItem(append([]string(nil), plain.rows[i]...))
		b, err2 := painting.tab.AlignFormattedItem(append([]string(nil), painting.rows[i]...))
		if err1 != nil || err2 != nil {
			return fail("aligning row %d failed: %v, %v", i, err1, err2)
		}
		for j := range a {
			if refStrip(b[j]) != a[j] {
				return fail("row %d column %d is %s without colour and %s with it", i, j, short(a[j]), short(b[j]))
			}
		}
	}
	lines := 0
	for k := 0; k < 4; k++ {
		var a, b bytes.Buffer
		renderTo(&a, plain.tab, plain.rows, c.G.W, string(c.G.Sep), k&1 != 0, k&2 != 0)
		renderTo(&b, painting.tab, painting.rows, c.G.W, string(c.G.Sep), k&1 != 0, k&2 != 0)
		if refStrip(b.String()) != a.String() {
			return fail("the grid (compact %v, vertical %v) is %s without colour and %s with it", k&1 != 0, k&2 != 0, short(a.String()), short(b.String()))
		}
		if k == 0 {
			lines = countLines(a.String())
		}
	}
	o := Outcome{NonTrivial: painted > 0 && plain.n > 0, Classes: gridClasses(plain, lines)}
	if painted > 0 {
		o.Classes = append(o.Classes, "painted")
	}
	return o
}

func genColour(t *rapid.T) ColourCase {
	noEsc := func(t *rapid.T, _, _ int) string {
		if rapid.Bool().Draw(t, "simple") {
			return strings.Repeat("x", genInt(t, "len", 0, 12))
		}
		return genCell(t, false)
	}
	c := ColourCase{G: genGrid(t, gridOpts{cell: noEsc, maxAlign: alCenter})}
	c.G.Auto, c.G.AutoSeed = 0, 0
	for range c.G.Cols {
		c.Titles = append(c.Titles, S(genCell(t, false)))
		c.Shorts = append(c.Shorts, S(genWord(t)))
	}
	if len(c.G.Cols) == 0 {
		return c
	}
	for i, n := 0, genInt(t, "paints", 1, 8); i < n; i++ {
		p := Paint{Row: genInt(t, "row", -2, len(c.G.Rows)-1), Col: genInt(t, "col", 0, len(c.G.Cols)-1)}
		k := genInt(t, "seqs", 1, 4)
		if chance(t, "colourful", 2) {
			k = genInt(t, "seqs", 5, 60)
		}
		for j := 0; j < k; j++ {
			p.Seqs = append(p.Seqs, S(genEscape(t)))
			p.At = append(p.At, genInt(t, "at", 0, 20))
		}
		c.Paints = append(c.Paints, p)
	}
	return c
}

var _ = register(&Prop{
	ID: "C28", Quick: 120000, Thorough: 2500000,
	Rule: "tables and grids rendered twice, with and without escape sequences inserted at drawn positions of cells and titles; non-trivial: a sequence was inserted and there are items",
}, genColour, checkColour)
