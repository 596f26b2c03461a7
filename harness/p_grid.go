package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"os"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"syscall"

	table "github.com/ilius/go-table"
	"pgregory.net/rapid"
)

// BigCell replaces a cell by N times a character, so that very wide cells stay
// small in a replay file.
type BigCell struct{ Row, Col, N int }

// GridCase is one call of a grid layout on a table that has formatted the rows.
type GridCase struct {
	Cols     []ColSpec
	Rows     [][]S
	Auto     int // further rows made from AutoSeed, so that long lists stay small in a replay file
	AutoSeed int
	Big      []BigCell
	Upd      []int // widths merged in per column
	W        int
	Sep      S
	Compact  bool
	Vertical bool
	Out      int `json:",omitempty"` // what is written to: 0 a buffer, 1 a writer that is nothing else, 2 a strings.Builder, 3 a bufio.Writer, 4 a pipe, 5 a file
}

// collect gives a writer of the kind and what was written to it in the end.
func collect(kind int) (io.Writer, func() string) {
	switch kind {
	case 1:
		var b bytes.Buffer
		return struct{ io.Writer }{&b}, b.String
	case 2:
		var b strings.Builder
		return &b, b.String
	case 3:
		var b bytes.Buffer
		w := bufio.NewWriterSize(&b, 16)
		return w, func() string {
			if err := w.Flush(); err != nil {
				panic(err)
			}
			return b.String()
		}
	case 4:
		r, w, err := os.Pipe()
		must(err)
		c := make(chan []byte)
		go func() {
			b, err := io.ReadAll(r)
			must(err)
			r.Close()
			c <- b
		}()
		return w, func() string { w.Close(); return string(<-c) }
	case 5:
		f, err := os.CreateTemp("", "verif-grid-")
		must(err)
		os.Remove(f.Name())
		return f, func() string {
			_, err := f.Seek(0, io.SeekStart)
			if err != nil {
				return "error: " + err.Error()
			}
			b, err := io.ReadAll(f)
			must(err)
			f.Close()
			return string(b)
		}
	}
	var b bytes.Buffer
	return &b, b.String
}

type rowList [][]string

func (l rowList) Len() int           { return len(l) }
func (l rowList) Get(i int) []string { return l[i] }

func inDomain(s string) bool { return wellFormed(s) && !strings.Contains(s, "\n") }

// grid is a case made concrete: the table, its rows and the model's view of them.
type grid struct {
	c     GridCase
	tab   *table.Table
	rows  rowList
	cellW [][]int
	colW  []int // table-wide width per column
	n     int
	m     int // bytes of the separator
	w     int // effective maximum width
}

// autoCell makes a cell of a long list: mostly short, rarely wide, the very
// last one often wide.
func autoCell(seed, row, col int, last bool) string {
	h := uint32(seed)*2654435761 + uint32(row)*40503 + uint32(col)*9176 + 12345
	h ^= h >> 15
	h *= 2246822519
	h ^= h >> 13
	s := fmt.Sprintf("r%dc%d", row, col)
	if seed%8 == 4 { // small ones: many of them fit on a line
		return strconv.FormatInt(int64(row*4+col%4), 36) + ">"
	}
	switch {
	case last && seed%2 == 1:
		s += strings.Repeat("y", 12+int(h%20))
	case h%251 == 0:
		s += strings.Repeat("z", 8+int(h>>8)%40)
	case h%11 == 0:
		s += "さ"
	case h%13 == 0:
		return ""
	case h%17 == 0:
		s += "\x1b[1m\x1b[0m"
	}
	return s + ">"
}

func (c GridCase) build() (*grid, bool) {
	if len(c.Upd) != len(c.Cols) || len(c.Rows) > 2000 || c.Auto < 0 || c.Auto > 10000 || !inDomain(string(c.Sep)) {
		return nil, false
	}
	g := &grid{c: c, n: len(c.Rows) + c.Auto, m: len(c.Sep), w: max(0, min(65535, c.W))}
	byName := map[string]int{}
	for i, x := range c.Cols {
		if x.Align < 0 || x.Align >= nAl || c.Upd[i] < 0 || c.Upd[i] > 65535 {
			return nil, false
		}
		byName[string(x.Name)] = max(byName[string(x.Name)], c.Upd[i])
	}
	for _, r := range c.Rows {
		if len(r) != len(c.Cols) {
			return nil, false
		}
		g.rows = append(g.rows, strs(r))
	}
	for i := len(c.Rows); i < g.n; i++ {
		row := make([]string, len(c.Cols))
		for j := range row {
			row[j] = autoCell(c.AutoSeed, i, j, i == g.n-1)
		}
		g.rows = append(g.rows, row)
	}
	for _, b := range c.Big {
		if b.Row < 0 || b.Row >= g.n || b.Col < 0 || b.Col >= len(c.Cols) || b.N < 0 || b.N > 80000 {
			return nil, false
		}
		g.rows[b.Row][b.Col] = strings.Repeat("x", b.N)
	}
	g.tab = g.fresh()
	for _, r := range g.rows {
		ws := make([]int, len(r))
		for j, s := range r {
			if !inDomain(s) {
				return nil, false
			}
			ws[j] = refCell(s)
			nm := string(c.Cols[j].Name)
			byName[nm] = max(byName[nm], ws[j])
		}
		g.cellW = append(g.cellW, ws)
	}
	for _, x := range c.Cols {
		g.colW = append(g.colW, byName[string(x.Name)])
	}
	return g, true
}

// fresh builds another table with the same columns, rows and widths.
func (g *grid) fresh() *table.Table {
	t := buildTable(g.c.Cols)
	for _, r := range g.rows {
		if _, err := t.FormatItem(append([]string(nil), r...)); err != nil {
			panic(err)
		}
	}
	for i, u := range g.c.Upd {
		if u > 0 {
			t.UpdateWidth(map[string]uint16{string(g.c.Cols[i].Name): uint16(u)})
		}
	}
	return t
}

func renderTo(out io.Writer, t *table.Table, rows table.FormattedItemList, w int, sep string, compact, vertical bool) {
	if vertical {
		t.MergeRowsVertical(out, rows, w, sep, compact)
	} else {
		t.MergeRowsHorizontal(out, rows, w, sep, compact)
	}
}

func (g *grid) render(w int, compact bool) string {
	b, text := collect(g.c.Out)
	renderTo(b, g.tab, g.rows, w, string(g.c.Sep), compact, g.c.Vertical)
	return text()
}

func (g *grid) lines() ([]string, error) {
	out := g.render(g.c.W, g.c.Compact)
	if out == "" {
		return nil, nil
	}
	if !strings.HasSuffix(out, "\n") {
		return nil, fmt.Errorf("the output does not end with a newline: %s", short(out))
	}
	return strings.Split(out[:len(out)-1], "\n"), nil
}

func ceilDiv(a, b int) int { return (a + b - 1) / b }

// inner is the width of one item at table-wide column widths.
func (g *grid) inner() int {
	w := max(0, len(g.colW)-1)
	for _, x := range g.colW {
		w += x
	}
	return w
}

// at returns the item index at a line and position of a grid with k items per
// line (horizontal) or L lines (vertical), -1 if there is none.
func (g *grid) at(line, pos, k, nlines int) int {
	i := line*k + pos
	if g.c.Vertical {
		i = pos*nlines + line
	}
	if i >= g.n {
		return -1
	}
	return i
}

// tight returns the widest cell per position and column for k positions.
func (g *grid) tight(k int) [][]int {
	nl := ceilDiv(g.n, k)
	ws := make([][]int, k)
	for p := range ws {
		ws[p] = make([]int, len(g.colW))
		for l := 0; l < nl; l++ {
			if i := g.at(l, p, k, nl); i >= 0 {
				for j, w := range g.cellW[i] {
					ws[p][j] = max(ws[p][j], w)
				}
			}
		}
	}
	return ws
}

func (g *grid) tightTotal(k int) int {
	t := g.m*(k-1) + max(0, len(g.colW)-1)*k
	for _, p := range g.tight(k) {
		for _, w := range p {
			t += w
		}
	}
	return t
}

// ks are the numbers of items per line that give nlines lines; all numbers
// from n on are the same grid.
func (g *grid) ks(nlines int) []int {
	var out []int
	for k := 1; k <= g.n; k++ {
		if ceilDiv(g.n, k) == nlines {
			out = append(out, k)
		}
	}
	return out
}

// ---- generation ----------------------------------------------------------

var asciiSeps = []string{" ", "  ", "", "|", " | ", "   ", "--", ", ", "        ", "----------------", strings.Repeat("=", 40), "%", " % ", "%%", "&", "\\"}
var otherSeps = []string{"│", " │ ", "\t", "世", "\u00a0", "é"}

type gridOpts struct {
	cell     func(t *rapid.T, row, col int) string
	asciiSep bool
	minCols  int
	maxAlign int
	big      bool
	mid      bool // cells of up to 3000 cells width
}

func genGrid(t *rapid.T, o gridOpts) GridCase {
	var c GridCase
	c.Cols = genCols(t, o.minCols, 4, o.maxAlign)
	n := 0
	nkind := genInt(t, "nkind", 0, 9)
	if len(c.Cols) > 5 {
		nkind = -1
		n = genInt(t, "n", 0, 7)
	}
	switch nkind {
	case 0:
		n = genInt(t, "n", 0, 2)
	case 1, 2, 3, 4, 5:
		n = genInt(t, "n", 1, 9)
	case 6, 7, 8:
		n = genInt(t, "n", 5, 25)
	default:
		n = genInt(t, "n", 20, 70)
	}
	dups := chance(t, "dups", 6)
	for i := 0; i < n; i++ {
		row := []S{}
		same := 0 // that many cells equal those of the item before
		if dups && i > 0 && rapid.Bool().Draw(t, "dup") {
			same = genInt(t, "same", 1, max(1, len(c.Cols)))
		}
		for j := range c.Cols {
			if j < same {
				row = append(row, c.Rows[i-1][j])
			} else {
				row = append(row, S(o.cell(t, i, j)))
			}
		}
		c.Rows = append(c.Rows, row)
	}
	if chance(t, "long", 1) && len(c.Cols) < 12 {
		c.Auto = pick(t, "auto", []int{60, 130, 260, 300, 520, 600, 1030, 1100, 1500})
		c.AutoSeed = genInt(t, "autoseed", 0, 1<<20)
	}
	for range c.Cols {
		u := 0
		if chance(t, "upd", 15) {
			u = genInt(t, "updw", 0, 25)
			if o.big && chance(t, "bigupd", 15) {
				u = pick(t, "bigw", []int{20000, 32767, 32768, 40000, 65535, 65534})
			}
		}
		c.Upd = append(c.Upd, u)
	}
	if o.big && n > 0 && len(c.Cols) > 0 && chance(t, "bigcells", 6) {
		for i, k := 0, genInt(t, "nbig", 1, 6); i < k; i++ {
			c.Big = append(c.Big, BigCell{genInt(t, "row", 0, n-1), genInt(t, "col", 0, len(c.Cols)-1),
				pick(t, "biglen", []int{100, 5000, 16384, 20000, 30000, 32768, 60000, 65534, 65535})})
		}
	}
	if o.mid && n > 0 && len(c.Cols) > 0 && chance(t, "midcells", 2) {
		for i, k := 0, genInt(t, "nmid", 1, 4); i < k; i++ {
			c.Big = append(c.Big, BigCell{genInt(t, "row", 0, n-1), genInt(t, "col", 0, len(c.Cols)-1),
				pick(t, "midlen", []int{60, 100, 127, 128, 254, 255, 256, 257, 300, 511, 513, 1000, 1025, 3000})})
		}
	}
	if o.asciiSep || rapid.Bool().Draw(t, "asciisep") {
		c.Sep = S(pick(t, "sep", asciiSeps))
	} else {
		c.Sep = S(pick(t, "sep", otherSeps))
	}
	if chance(t, "longsep", 1) {
		c.Sep = S(strings.Repeat(pick(t, "sepunit", []string{"-", " ", "=-"}), pick(t, "seplen", []int{60, 64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 520, 1030})))
	}
	c.Compact = rapid.Bool().Draw(t, "compact")
	c.Vertical = rapid.Bool().Draw(t, "vertical")
	c.W = genGridWidth(t, c)
	if chance(t, "out", 6) {
		c.Out = genInt(t, "outkind", 1, 5)
	}
	return c
}

// genGridWidth draws maximum widths around the decision points.
func genGridWidth(t *rapid.T, c GridCase) int {
	g, ok := c.build()
	if !ok {
		panic("generator left its domain")
	}
	if c.Auto > 0 {
		// the number of items per line stays small, and with it the work
		c.Auto = 0
		w := genInt(t, "w", 0, 300)
		if g.n <= 700 && len(c.Cols) < 4 && chance(t, "widegrid", 25) {
			return genInt(t, "w", 300, 4000)
		}
		if short := genGridWidth(t, c); short >= 0 && short < 400 && rapid.Bool().Draw(t, "fromshort") {
			w = short
		}
		if k := genInt(t, "k", 0, 12); k > 0 && k*(g.inner()+g.m) < 400 {
			w = k*g.inner() + (k-1)*g.m + genInt(t, "delta", -1, 1)
		}
		if k := genInt(t, "tightk", 0, 40); k > 0 {
			if tt := g.tightTotal(k); tt < 400 {
				w = tt + genInt(t, "tdelta", -1, 1)
			}
		}
		return w
	}
	delta := func() int { return genInt(t, "delta", -1, 1) }
	switch genInt(t, "wkind", 0, 11) {
	case 0:
		return genInt(t, "w", 0, 10)
	case 1, 2:
		return genInt(t, "w", 0, 120)
	case 3, 4, 5:
		k := genInt(t, "k", 1, max(1, min(g.n+2, 12)))
		return k*g.inner() + (k-1)*g.m + delta()
	case 6, 7, 8:
		if g.n == 0 {
			return 80
		}
		top := min(g.n, 30)
		if g.n > 30 && chance(t, "anyk", 30) {
			top = g.n
		}
		k := genInt(t, "k", 1, top)
		return g.tightTotal(k) + delta()
	case 9:
		return pick(t, "special", []int{80, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 65535, 65534, 65536, 65537, 65536 + 80, 100000, 32767, 32768, 60000})
	case 10:
		return pick(t, "edge", []int{0, -1, -80, 1, math.MaxInt, math.MinInt, math.MaxInt32, math.MinInt32, big32(0), big32(40), -65536, -65500})
	}
	return g.inner() + genInt(t, "more", 0, 3*g.inner()+10)
}

// big32 is 2^32 + d, on a 32-bit platform the largest number that fits.
func big32(d int64) int {
	if strconv.IntSize == 32 {
		return math.MaxInt32
	}
	return int(1<<32 + d)
}

func plainCell(t *rapid.T, _, _ int) string {
	switch genInt(t, "cellkind", 0, 5) {
	case 0, 1, 2:
		return strings.Repeat("x", genInt(t, "len", 0, 12))
	case 3:
		return genWord(t)
	}
	return genCell(t, true)
}

func gridClasses(g *grid, nlines int) []string {
	var cl []string
	if g.c.Vertical {
		cl = append(cl, "vertical")
	} else {
		cl = append(cl, "horizontal")
	}
	if g.c.Compact {
		cl = append(cl, "compact")
	}
	switch {
	case g.n == 0:
		cl = append(cl, "no-items")
	case nlines == 1:
		cl = append(cl, "one-line")
	case nlines == g.n:
		cl = append(cl, "one-per-line")
	default:
		cl = append(cl, "multi-grid")
	}
	if len(g.c.Cols) > 1 {
		cl = append(cl, "multi-column")
	}
	if g.c.Auto > 0 {
		cl = append(cl, "long-list")
	}
	return cl
}

// ---- C08 -----------------------------------------------------------------

// tokenCell is unique per row and column (but see dups in genGrid) and starts and ends with a character
// that no separator contains. Some cells are empty.
func tokenCell(t *rapid.T, row, col int) string {
	s := fmt.Sprintf("r%dc%d", row, col)
	switch genInt(t, "tok", 0, 7) {
	case 0:
		return ""
	case 1, 2:
		mid := genCell(t, true)
		return s + "<" + mid + ">"
	case 3:
		if chance(t, "wide", 2) {
			return s + strings.Repeat("x", genCount(t)) + ">"
		}
		return s + strings.Repeat("x", genInt(t, "len", 0, 15)) + ">"
	case 4:
		return s + " two  words>"
	}
	return s + ">"
}

var tokenRE = regexp.MustCompile(`(?s)^r[0-9]+c[0-9]+([^0-9].*)?>$`)

func checkOrder(c GridCase) Outcome {
	g, ok := c.build()
	if !ok || len(c.Cols) == 0 || len(c.Big) > 0 {
		return Outcome{Skip: true}
	}
	sepStrip := strings.ReplaceAll(string(c.Sep), " ", "")
	for _, r := range g.rows {
		for _, s := range r {
			if s != "" && !tokenRE.MatchString(s) {
				return Outcome{Skip: true}
			}
		}
	}
	for _, x := range c.Cols {
		if x.Align > alCenter {
			return Outcome{Skip: true}
		}
	}
	if strings.ContainsAny(string(c.Sep), "r<>0123456789") {
		return Outcome{Skip: true}
	}
	lines, err := g.lines()
	if err != nil {
		return fail("%v", err)
	}
	if g.n == 0 {
		if len(lines) > 0 {
			return fail("an empty list printed %q", lines)
		}
		return Outcome{Classes: gridClasses(g, 0)}
	}
	if len(lines) == 0 {
		return fail("nothing was printed for %d items", g.n)
	}
	var last string
	matched := false
	for _, k := range g.ks(len(lines)) {
		last = ""
		for l, line := range lines {
			if e := matchLine(g, line, l, k, len(lines), sepStrip); e != "" {
				last = fmt.Sprintf("with %d items per line, line %d %s: %s", k, l, short(line), e)
				break
			}
		}
		if last == "" {
			matched = true
			break
		}
	}
	if !matched {
		if last == "" {
			last = fmt.Sprintf("no grid of %d items has %d lines", g.n, len(lines))
		}
		return fail("items are not printed once each in order: %s\noutput: %s", last, short(strings.Join(lines, "\n")))
	}
	return Outcome{NonTrivial: g.n > 1 && len(lines) < g.n, Classes: gridClasses(g, len(lines))}
}

// matchLine checks that a line holds exactly its items' cells in order with
// only padding and separators between them.
func matchLine(g *grid, line string, l, k, nl int, sepStrip string) string {
	pos := 0
	needSep, needMin := 0, 0
	gap := func(end bool) string {
		start := pos
		for pos < len(line) && (line[pos] == ' ' || sepStrip != "" && strings.IndexByte(sepStrip, line[pos]) >= 0) {
			pos++
		}
		got := strings.ReplaceAll(line[start:pos], " ", "")
		want := strings.Repeat(sepStrip, needSep)
		if got != want && !(end && got == want+sepStrip) || pos-start < needMin {
			return fmt.Sprintf("between cells stands %q (%d separators and at least %d bytes expected)", line[start:pos], needSep, needMin)
		}
		needSep, needMin = 0, 0
		return ""
	}
	any := false
	for p := 0; ; p++ {
		if !g.c.Vertical && p >= k {
			break
		}
		i := g.at(l, p, k, nl)
		if i < 0 {
			break
		}
		if p > 0 {
			needSep++
			needMin += g.m
		}
		any = true
		for j, s := range g.rows[i] {
			if j > 0 {
				needMin++
			}
			if s == "" {
				continue
			}
			if e := gap(false); e != "" {
				return e
			}
			if !strings.HasPrefix(line[pos:], s) {
				return fmt.Sprintf("expected cell %d of item %d (%s) at byte %d", j, i, short(s), pos)
			}
			pos += len(s)
		}
	}
	if !any {
		return "no item belongs here"
	}
	if e := gap(true); e != "" {
		return e
	}
	if pos != len(line) {
		return fmt.Sprintf("unexpected text %s", short(line[pos:]))
	}
	return ""
}

var _ = register(&Prop{
	ID: "C08", Quick: 300000, Thorough: 4000000,
	Rule: "grids of 0..70 items (1%: up to 1500) with unique tokens in every non-empty cell (6%: with repeated items), widths around every decision point; non-trivial: more items than lines, several items",
}, func(t *rapid.T) GridCase {
	return genGrid(t, gridOpts{cell: tokenCell, minCols: 1, maxAlign: alCenter})
}, checkOrder)

// ---- C09 -----------------------------------------------------------------

func checkLineWidth(c GridCase) Outcome {
	g, ok := c.build()
	if !ok {
		return Outcome{Skip: true}
	}
	for _, x := range c.Cols {
		if x.Align > alCenter {
			return Outcome{Skip: true}
		}
	}
	for _, b := range c.Big {
		if b.N > 65535 {
			return Outcome{Skip: true}
		}
	}
	lines, err := g.lines()
	if err != nil {
		return fail("%v", err)
	}
	o := Outcome{}
	over := false
	for l, line := range lines {
		lw := refStringWidth(refStrip(line), modeEA, true)
		if lw > g.w {
			// allowed only for a single item when one item at column width exceeds the maximum
			if len(lines) == g.n && g.inner() > g.w {
				over = true
				continue
			}
			return fail("line %d is %d cells wide, the maximum is %d (%d items on %d lines, one item takes %d): %s", l, lw, g.w, g.n, len(lines), g.inner(), short(line))
		}
	}
	o.NonTrivial = len(lines) < g.n
	o.Classes = gridClasses(g, len(lines))
	if over {
		o.Classes = append(o.Classes, "single-item-wider")
	}
	if len(c.Big) > 0 {
		o.Classes = append(o.Classes, "big-cells")
	}
	if c.W > 65535 || c.W < 0 {
		o.Classes = append(o.Classes, "clamped-width")
	}
	return o
}

var _ = register(&Prop{
	ID: "C09", Quick: 60000, Thorough: 4000000,
	Rule: "grids with maximum widths at, just below and just above every possible line width, negative and above 65535, cells up to 65535 cells wide; non-trivial: several items share a line",
}, func(t *rapid.T) GridCase {
	return genGrid(t, gridOpts{cell: plainCell, maxAlign: alCenter, big: true})
}, checkLineWidth)

// ---- C10 -----------------------------------------------------------------

func checkLineUp(c GridCase) Outcome {
	g, ok := c.build()
	if !ok {
		return Outcome{Skip: true}
	}
	lines, err := g.lines()
	if err != nil {
		return fail("%v", err)
	}
	if g.n == 0 {
		if len(lines) > 0 {
			return fail("an empty list printed %q", lines)
		}
		return Outcome{Classes: gridClasses(g, 0)}
	}
	uniform := make([][]int, g.n)
	for i := range uniform {
		uniform[i] = g.colW
	}
	how, first := "", ""
search:
	for _, k := range g.ks(len(lines)) {
		tries := []struct {
			name string
			ws   [][]int
		}{{"uniform", uniform}}
		if c.Compact {
			tries = append(tries, struct {
				name string
				ws   [][]int
			}{"tight", g.tight(k)})
		}
		for _, try := range tries {
			bad := false
			for l := range lines {
				want := g.line(l, k, len(lines), try.ws)
				if lines[l] != want && lines[l] != want+string(c.Sep) {
					bad = true
					if first == "" {
						first = fmt.Sprintf("line %d is %s; with %d per line and %s widths it would be %s", l, short(lines[l]), k, try.name, short(want))
					}
					break
				}
			}
			if !bad {
				how = try.name
				break search
			}
		}
	}
	if how == "" {
		return fail("the output (%d lines for %d items) is no aligned grid: %s", len(lines), g.n, first)
	}
	return Outcome{NonTrivial: len(lines) > 1 && len(lines) < g.n, Classes: append(gridClasses(g, len(lines)), how)}
}

func (g *grid) line(l, k, nl int, ws [][]int) string {
	var items []string
	for p := 0; g.c.Vertical || p < k; p++ {
		i := g.at(l, p, k, nl)
		if i < 0 {
			break
		}
		cells := make([]string, len(g.colW))
		for j, s := range g.rows[i] {
			cells[j] = refAlign(g.c.Cols[j].Align, s, ws[p][j])
		}
		items = append(items, strings.Join(cells, " "))
	}
	return strings.Join(items, string(g.c.Sep))
}

var _ = register(&Prop{
	ID: "C10", Quick: 500000, Thorough: 4000000,
	Rule: "grids with built-in, custom and absent alignments compared with the model's uniform grid or, in compact mode, the grid of widest cells per position; non-trivial: several lines with several items",
}, func(t *rapid.T) GridCase {
	return genGrid(t, gridOpts{cell: plainCell, maxAlign: nAl - 1, big: false, mid: true})
}, checkLineUp)

// ---- C11 -----------------------------------------------------------------

type DenseCase struct {
	G    GridCase
	More int // how much wider the second rendering may be
}

func countLines(s string) int { return strings.Count(s, "\n") }

func checkDense(c DenseCase) Outcome {
	g, ok := c.G.build()
	if !ok || c.More < 0 || c.More > 200000 || len(c.G.Cols) == 0 || g.n == 0 {
		return Outcome{Skip: true}
	}
	for i := 0; i < g.m; i++ {
		if c.G.Sep[i] < ' ' || c.G.Sep[i] > '~' {
			return Outcome{Skip: true}
		}
	}
	sum := 0
	for _, w := range g.colW {
		sum += w
	}
	if sum == 0 || sum > 65535 {
		return Outcome{Skip: true}
	}
	w := c.G.W
	plain := countLines(g.render(w, false))
	gmax := max(1, (g.w+g.m)/(g.inner()+g.m))
	if want := ceilDiv(g.n, gmax); plain != want {
		return fail("%d items of width %d with a separator of %d and maximum width %d: %d fit on a line, so %d lines are needed; printed %d", g.n, g.inner(), g.m, g.w, gmax, want, plain)
	}
	o := Outcome{NonTrivial: gmax > 1 && plain > 1, Classes: gridClasses(g, plain)}
	compact := countLines(g.render(w, true))
	if compact > plain {
		return fail("compact needs %d lines, non-compact %d (maximum width %d)", compact, plain, g.w)
	}
	if compact < plain {
		o.Classes = append(o.Classes, "compact-saves")
		o.NonTrivial = true
	}
	if compact > 1 {
		// items per line of the compact grid
		k := ceilDiv(g.n, compact)
		if ceilDiv(g.n, gmax) == compact {
			k = max(k, gmax)
		}
		if !g.c.Vertical && ceilDiv(g.n, gmax) != compact {
			// several numbers per line may give this many lines; the grid shows which
			k = 0
			out := strings.Split(g.render(w, true), "\n")
			for _, cand := range g.ks(compact) {
				if want := g.line(0, cand, compact, g.tight(cand)); out[0] == want || out[0] == want+string(g.c.Sep) {
					k = cand
				}
			}
			if k == 0 {
				o.Classes = append(o.Classes, "undetermined")
			}
		}
		if k > 0 && ceilDiv(g.n, k+1) < compact {
			if t := g.tightTotal(k + 1); t <= g.w {
				return fail("the compact grid uses %d lines of %d items; %d items per line would take only %d cells of %d and fewer lines", compact, k, k+1, t, g.w)
			}
		}
	}
	for _, cm := range []bool{false, true} {
		a, b := countLines(g.render(g.w, cm)), countLines(g.render(g.w+c.More, cm))
		if b > a {
			return fail("maximum width %d needs %d lines but %d needs %d (compact %v)", g.w, a, g.w+c.More, b, cm)
		}
		if w > 65535 && g.render(w, cm) != g.render(65535, cm) {
			return fail("maximum width %d is not treated as 65535", w)
		}
		if w < 0 && g.render(w, cm) != g.render(0, cm) {
			return fail("maximum width %d is not treated as 0", w)
		}
	}
	return o
}

var _ = register(&Prop{
	ID: "C11", Quick: 150000, Thorough: 3000000,
	Rule: "grids rendered in both modes and at two widths, line counts compared with the number of items that fit; non-trivial: several items per line on several lines, or compact mode saves lines",
}, func(t *rapid.T) DenseCase {
	c := DenseCase{G: genGrid(t, gridOpts{cell: plainCell, minCols: 1, maxAlign: alCenter, asciiSep: true, big: true})}
	c.More = genInt(t, "more", 0, 40)
	if c.G.Auto == 0 && chance(t, "muchmore", 10) {
		c.More = genInt(t, "more", 0, 70000)
	}
	return c
}, checkDense)

// ---- C12 -----------------------------------------------------------------

func genDegenerate(t *rapid.T) GridCase {
	var c GridCase
	c.Cols = genCols(t, 0, 3, alCenter)
	n := pick(t, "n", []int{0, 0, 1, 1, 2, 3, 4, 5, 7, 13, 60})
	mode := genInt(t, "cells", 0, 4)
	for i := 0; i < n; i++ {
		row := []S{}
		for range c.Cols {
			s := ""
			switch mode {
			case 1:
				s = pick(t, "zero", []string{"", "\u200b", "\x1b[0m", "\u0301", "\x00"})
			case 2:
				s = pick(t, "tiny", []string{"", "x", "世"})
			case 3:
				s = genCell(t, true)
			case 4:
				s = "same"
			}
			row = append(row, S(s))
		}
		c.Rows = append(c.Rows, row)
	}
	for range c.Cols {
		c.Upd = append(c.Upd, pick(t, "upd", []int{0, 0, 0, 1, 5, 32768, 65534, 65535}))
	}
	if n > 0 && len(c.Cols) > 0 && chance(t, "big", 5) {
		for i, k := 0, genInt(t, "nbig", 1, 4); i < k; i++ {
			c.Big = append(c.Big, BigCell{genInt(t, "row", 0, n-1), genInt(t, "col", 0, len(c.Cols)-1), pick(t, "biglen", []int{30000, 65535, 70000})})
		}
	}
	c.Sep = S(pick(t, "sep", []string{"", "", " ", "  ", "|", "│", "\t", strings.Repeat("-", 300)}))
	if chance(t, "hugesep", 1) {
		c.Sep = S(strings.Repeat("=", pick(t, "seplen", []int{65534, 65535, 65536, 70000})))
	}
	c.Compact = rapid.Bool().Draw(t, "compact")
	c.Vertical = rapid.Bool().Draw(t, "vertical")
	c.W = pick(t, "w", []int{0, 1, 2, 3, 10, 80, 1000, 32767, 32768, 65534, 65535, 65536, 65537, 131071, math.MaxInt32, math.MaxInt32 - 1, big32(-1 << 31), big32(0), -1, -2, -65535, -65536, -1 << 31, math.MaxInt, math.MinInt})
	if genInt(t, "long", 0, 249) == 250/2 && len(c.Cols) < 3 { // thousands of items
		c.Auto = pick(t, "auto", []int{700, 2500, 4100, 6000, 9000})
		c.AutoSeed = genInt(t, "autoseed", 0, 1<<20)
		c.Big = nil
		for i := range c.Upd { // or the output would be huge
			c.Upd[i] = min(c.Upd[i], 5)
		}
		c.W = pick(t, "narrow", []int{0, 1, 10, 80, 300, 1000, 2000})
		if len(c.Cols) == 0 || c.Sep == "" {
			c.Sep = " "
		}
		if len(c.Cols) > 0 && rapid.Bool().Draw(t, "crowd") { // many more on a line than at table-wide widths
			c.Cols, c.Upd, c.Rows, c.Big = c.Cols[:1], []int{40000}, nil, nil
			c.W, c.Compact = pick(t, "wide", []int{500, 1000, 2000}), true
		}
	}
	return c
}

func checkReturns(c GridCase) Outcome {
	g, ok := c.build()
	if !ok {
		return Outcome{Skip: true}
	}
	if c.Auto > 600 && (!c.Compact || c.W < 500 || len(c.Rows) > 0) && g.inner() > 1000 {
		return Outcome{Skip: true} // a huge output
	}
	_ = g.render(c.W, c.Compact)
	g.tab.FormatHeader(string(c.Sep))
	g.tab.TableWidth(uint16(len(c.Sep)))
	g.tab.TableWidth(65535)
	for i, r := range g.rows {
		if i > 300 {
			break
		}
		if _, err := g.tab.AlignFormattedItem(append([]string(nil), r...)); err != nil {
			return fail("aligning a row of the right length failed: %v", err)
		}
		if _, err := g.tab.FormatItemBasic(r, string(c.Sep)); err != nil {
			return fail("plain formatting failed: %v", err)
		}
	}
	o := Outcome{NonTrivial: g.n == 0 || g.inner() == 0 || c.Sep == "" || c.W <= 0 || c.W >= 65535 || len(c.Cols) == 0, Classes: gridClasses(g, -1)}
	if len(c.Cols) == 0 {
		o.Classes = append(o.Classes, "no-columns")
	}
	if c.Sep == "" {
		o.Classes = append(o.Classes, "no-separator")
	}
	if g.inner() == 0 {
		o.Classes = append(o.Classes, "zero-width")
	}
	if c.W < 0 {
		o.Classes = append(o.Classes, "negative-width")
	}
	if c.W > 65535 {
		o.Classes = append(o.Classes, "huge-width")
	}
	return o
}

var _ = register(&Prop{
	ID: "C12", Quick: 80000, Thorough: 1500000,
	Rule: "all rendering calls over degenerate argument combinations (no columns, no items, empty cells, empty or 70000-byte separators, negative, zero and maximal widths); a case that needs 60 s of CPU counts as not returning; non-trivial: at least one argument is degenerate",
}, genDegenerate, checkReturns)

// ---- C13 -----------------------------------------------------------------

type FaultCase struct {
	G     GridCase
	Kind  int // 0 byte budget, 1 n-th write accepts nothing, 2 n-th write accepts all and fails, 3 n-th write accepts At bytes
	At    int // byte budget, or index of the failing write
	Part  int
	Error int
	Str   bool // the writer also offers WriteString and WriteByte
}

type ptrErr struct{ s string }

func (e *ptrErr) Error() string { return e.s }

type valErr struct{ a, b int }

func (e valErr) Error() string { return fmt.Sprint(e.a, e.b) }

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

var faultErrors = []error{errors.New("disk full"), io.EOF, io.ErrClosedPipe, io.ErrShortWrite, &ptrErr{"p"}, valErr{1, 2}, timeoutErr{}, fmt.Errorf("wrapped: %w", io.EOF), io.ErrUnexpectedEOF, errors.New(""),
	syscall.EPIPE, syscall.EINTR, syscall.EAGAIN, syscall.ENOSPC, os.ErrClosed, os.ErrDeadlineExceeded, context.Canceled, io.ErrNoProgress, &fs.PathError{Op: "write", Path: "x", Err: syscall.EPIPE},
	(*nilErr)(nil), sliceErr{"a", "b"}, errors.Join(io.EOF, io.ErrClosedPipe)}

type nilErr struct{}

func (e *nilErr) Error() string { return "nil" }

// sliceErr cannot be compared with ==.
type sliceErr []string

func (e sliceErr) Error() string { return strings.Join(e, " ") }

func sameError(a any, b error) bool {
	e, ok := a.(error)
	if !ok || reflect.TypeOf(e) != reflect.TypeOf(b) {
		return false
	}
	if !reflect.TypeOf(b).Comparable() {
		return reflect.DeepEqual(e, b)
	}
	return e == b
}

type faultWriter struct {
	c      *FaultCase
	err    error
	buf    bytes.Buffer
	calls  int
	failed int
	after  int
}

func (w *faultWriter) Write(p []byte) (int, error) {
	if w.failed > 0 {
		w.after++
		return 0, w.err
	}
	call := w.calls
	w.calls++
	n, bad := len(p), false
	switch w.c.Kind {
	case 0:
		if w.buf.Len()+len(p) > w.c.At {
			n, bad = w.c.At-w.buf.Len(), true
		}
	case 1:
		if call == w.c.At {
			n, bad = 0, true
		}
	case 2:
		bad = call == w.c.At
	case 3:
		if call == w.c.At {
			n, bad = min(len(p), w.c.Part), true
		}
	}
	w.buf.Write(p[:n])
	if bad {
		w.failed++
		return n, w.err
	}
	return n, nil
}

// faultStringWriter offers more ways to write, all of which fail alike.
type faultStringWriter struct{ *faultWriter }

func (w faultStringWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w faultStringWriter) WriteByte(b byte) error {
	_, err := w.Write([]byte{b})
	return err
}

// checkFile renders to a closed file (kind 4) or to a pipe without a reader (5).
func checkFile(c FaultCase, g *grid) Outcome {
	healthy := g.render(c.G.W, c.G.Compact)
	r, w, err := os.Pipe()
	must(err)
	want := error(syscall.EPIPE)
	r.Close()
	if c.Kind == 4 {
		w.Close()
		want = os.ErrClosed
	} else {
		defer w.Close()
	}
	var got any
	panicked := true
	func() {
		defer func() {
			if panicked {
				got = recover()
			}
		}()
		renderTo(w, g.tab, g.rows, c.G.W, string(c.G.Sep), c.G.Compact, c.G.Vertical)
		panicked = false
	}()
	if healthy == "" {
		if panicked {
			return fail("panic %v although nothing is to be written", got)
		}
		return Outcome{}
	}
	if e, ok := got.(error); !panicked || !ok || !errors.Is(e, want) {
		return fail("writing to a file that fails with %q: panicked %v, %v", want, panicked, got)
	}
	return Outcome{NonTrivial: true, Classes: []string{fmt.Sprintf("fault-kind%d", c.Kind)}}
}

func checkFault(c FaultCase) (o Outcome) {
	g, ok := c.G.build()
	if ok && (c.Kind == 4 || c.Kind == 5) {
		return checkFile(c, g)
	}
	if !ok || c.Kind < 0 || c.Kind > 3 || c.At < 0 || c.Part < 0 || c.Error < 0 || c.Error >= len(faultErrors) {
		return Outcome{Skip: true}
	}
	healthy := g.render(c.G.W, c.G.Compact)
	w := &faultWriter{c: &c, err: faultErrors[c.Error]}
	var got any
	panicked := true
	func() {
		defer func() {
			if panicked {
				got = recover()
			}
		}()
		var out io.Writer = w
		if c.Str {
			out = faultStringWriter{w}
		}
		renderTo(out, g.tab, g.rows, c.G.W, string(c.G.Sep), c.G.Compact, c.G.Vertical)
		panicked = false
	}()
	if !strings.HasPrefix(healthy, w.buf.String()) {
		return fail("the writer accepted %s, which is no prefix of the healthy output %s", short(w.buf.String()), short(healthy))
	}
	if w.after > 0 {
		return fail("%d writes after the failed one", w.after)
	}
	if w.failed == 0 {
		if panicked {
			return fail("panic %v although no write failed", got)
		}
		if w.buf.String() != healthy {
			return fail("a second rendering gave %s, not %s", short(w.buf.String()), short(healthy))
		}
		return Outcome{Classes: []string{"no-fault-reached"}}
	}
	if !panicked {
		return fail("the writer failed with %q after accepting %d of %d bytes, yet the call returned normally", w.err, w.buf.Len(), len(healthy))
	}
	if !sameError(got, w.err) {
		return fail("the writer failed with %T %q, the panic value is %T %v", w.err, w.err, got, got)
	}
	o.NonTrivial = true
	o.Classes = append(gridClasses(g, countLines(healthy)), fmt.Sprintf("fault-kind%d", c.Kind))
	if w.calls > 1 {
		o.Classes = append(o.Classes, "later-write")
	}
	return o
}

var _ = register(&Prop{
	ID: "C13", Quick: 500000, Thorough: 4000000,
	Rule: "grids written to a writer that fails at a drawn write or byte, accepting nothing, a part or everything, with 22 kinds of error, or to a closed file or broken pipe; non-trivial: the fault is reached",
}, func(t *rapid.T) FaultCase {
	c := FaultCase{G: genGrid(t, gridOpts{cell: plainCell, maxAlign: alCenter})}
	c.Kind = genInt(t, "kind", 0, 3)
	if chance(t, "file", 4) {
		c.Kind = genInt(t, "filekind", 4, 5)
		return c
	}
	c.Str = rapid.Bool().Draw(t, "stringwriter")
	c.Error = genInt(t, "error", 0, len(faultErrors)-1)
	if c.Kind == 0 {
		// anywhere in the output, which is about inner() per item
		g, _ := c.G.build()
		c.At = genInt(t, "budget", 0, max(1, g.n*(g.inner()+g.m+1)))
	} else {
		c.At = genInt(t, "write", 0, max(0, min(5, len(c.G.Rows)-1)))
		if chance(t, "late", 30) {
			c.At = genInt(t, "latewrite", 0, 60)
		}
		if c.G.Auto > 0 {
			c.At = genInt(t, "latewrite", 0, c.G.Auto)
		}
		c.Part = genInt(t, "part", 0, 30)
	}
	return c
}, checkFault)

// ---- C14 -----------------------------------------------------------------

type RenderOp struct {
	Op       string // header, width, grid; fail (a grid whose writer fails); or a change: row, edit, merge, title, align, col
	Sep      S
	W        int
	Compact  bool
	Vertical bool
	Part     int // grid: only Part items (0: all), from item From on
	From     int
	Row      []S // row, edit: the cells (as many as the table has columns by then)
	I        int // edit: which item; merge, title, align: which column
	Title    S
	Short    S
	Within   int // grid: the writer renders another grid when it gets its Within-th write (0: never)
}

// reentrant is a writer that does something else in the middle.
type reentrant struct {
	bytes.Buffer
	n  int
	do func()
}

func (w *reentrant) Write(p []byte) (int, error) {
	if w.n--; w.n == 0 {
		w.do()
	}
	return w.Buffer.Write(p)
}

// inner is the grid rendered by the writer.
func (r RenderOp) inner() RenderOp {
	r.Within = 0
	r.W = r.W/2 + 3
	if r.I&1 != 0 {
		r.W *= 3
	}
	r.Compact = r.Compact != (r.I&2 != 0)
	r.Vertical = r.Vertical != (r.I&4 != 0)
	return r
}

type RenderCase struct {
	G      GridCase
	Titles []S
	Ops    []RenderOp
}

func (r RenderOp) renders() bool { return r.Op == "header" || r.Op == "width" || r.Op == "grid" }

// shown is a table and the list shown with it.
type shown struct {
	tab   *table.Table
	list  rowList
	inner []string // what was rendered in the middle of something else
}

func newShown(c RenderCase, g *grid) *shown {
	st := &shown{tab: g.fresh()}
	for i, col := range st.tab.Columns {
		col.Title = string(c.Titles[i])
	}
	for _, r := range g.rows {
		st.list = append(st.list, append([]string(nil), r...))
	}
	return st
}

func (st *shown) render(r RenderOp) string {
	switch r.Op {
	case "header":
		return st.tab.FormatHeader(string(r.Sep))
	case "width":
		return fmt.Sprint(st.tab.TableWidth(uint16(r.W)))
	}
	b := reentrant{n: r.Within, do: func() { st.inner = append(st.inner, st.render(r.inner()), st.tab.FormatHeader("|")) }}
	rows := st.list
	if r.Part > 0 && r.Part < len(rows) {
		from := r.From % (len(rows) - r.Part + 1)
		rows = rows[from : from+r.Part]
	}
	renderTo(&b, st.tab, rows, r.W, string(r.Sep), r.Compact, r.Vertical)
	return b.String()
}

// renderFailing renders to a writer whose r.Within-th write fails.
func (st *shown) renderFailing(r RenderOp) (failed bool) {
	w := &failAt{n: r.Within}
	defer func() {
		x := recover()
		if x != nil && x != errFailAt {
			panic(x)
		}
		failed = x != nil
	}()
	renderTo(w, st.tab, st.list, r.W, string(r.Sep), r.Compact, r.Vertical)
	return false
}

var errFailAt = errors.New("no space left")

type failAt struct{ n int }

func (w *failAt) Write(p []byte) (int, error) {
	if w.n--; w.n <= 0 {
		return 0, errFailAt
	}
	return len(p), nil
}

// change applies what the caller does between renderings; false: not possible.
func (st *shown) change(r RenderOp) bool {
	cols := st.tab.Columns
	switch r.Op {
	case "row", "edit":
		if len(r.Row) != len(cols) || r.Op == "edit" && len(st.list) == 0 {
			return false
		}
		row, err := st.tab.FormatItem(strs(r.Row))
		if err != nil {
			panic(err)
		}
		if r.Op == "row" {
			st.list = append(st.list, row)
		} else {
			copy(st.list[r.I%len(st.list)], row)
		}
		return true
	case "col":
		st.tab.AddColumn(&table.Column{Name: fmt.Sprintf("x%d", len(cols)), Getter: fixedGetter{len(cols)}, Alignment: libAlign(r.I % (alCenter + 1)), Title: string(r.Title), ShortTitle: string(r.Short)})
		st.list = nil // its items have too few cells now
		return true
	}
	if len(cols) == 0 {
		return false
	}
	col := cols[r.I%len(cols)]
	switch r.Op {
	case "merge":
		st.tab.UpdateWidth(map[string]uint16{col.Name: uint16(max(0, min(65535, r.W)))})
	case "title":
		col.Title, col.ShortTitle = string(r.Title), string(r.Short)
	case "align":
		col.Alignment = libAlign(r.W % (alCenter + 1))
	}
	return true
}

func checkReadOnly(c RenderCase) Outcome {
	g, ok := c.G.build()
	if !ok || len(c.Titles) != len(c.G.Cols) || len(c.Ops) > 40 {
		return Outcome{Skip: true}
	}
	for _, op := range c.Ops {
		switch op.Op {
		case "header", "width", "grid", "row", "edit", "merge", "title", "align", "col", "fail":
		default:
			return Outcome{Skip: true}
		}
		if !inDomain(string(op.Sep)) || op.Part < 0 || op.From < 0 || op.I < 0 || op.Within < 0 || op.Op == "align" && op.W < 0 || !wellFormed(string(op.Title)) || !wellFormed(string(op.Short)) {
			return Outcome{Skip: true}
		}
		for _, s := range op.Row {
			if !inDomain(string(s)) {
				return Outcome{Skip: true}
			}
		}
	}
	st := newShown(c, g)
	type colSnap struct {
		p           *table.Column
		name, t, st string
		al          uintptr
		getter      table.Getter
	}
	snap := func() (s []colSnap, widths map[string]uint16, items [][]string, names int) {
		widths = map[string]uint16{}
		for _, col := range st.tab.Columns {
			x := colSnap{p: col, name: col.Name, t: col.Title, st: col.ShortTitle, getter: col.Getter}
			if col.Alignment != nil {
				x.al = reflect.ValueOf(col.Alignment).Pointer()
			}
			s = append(s, x)
			widths[col.Name] = st.tab.Width(col.Name)
		}
		for _, n := range append([]string{"never-seen"}, colNames...) {
			widths[n] = st.tab.Width(n)
		}
		for _, r := range st.list {
			items = append(items, append([]string(nil), r...))
		}
		return s, widths, items, len(st.tab.ColumnByName)
	}
	kinds := map[string]bool{}
	changes := false
	var kept keptTexts
	for k, op := range c.Ops {
		if op.Op == "fail" {
			s0, w0, i0, n0 := snap()
			if st.renderFailing(op) {
				kinds["failed"] = true
			}
			s1, w1, i1, n1 := snap()
			if !reflect.DeepEqual(i0, i1) || !reflect.DeepEqual(w0, w1) || !reflect.DeepEqual(s0, s1) || n0 != n1 {
				return fail("step %d: a grid whose writer failed changed the items, widths or columns", k)
			}
			continue
		}
		if !op.renders() {
			if st.change(op) {
				changes = true
				kinds[op.Op] = true
			}
			continue
		}
		// alone: a table nothing was rendered from, with the same changes made to it
		alone := newShown(c, g)
		for _, x := range c.Ops[:k] {
			if !x.renders() && x.Op != "fail" {
				alone.change(x)
			}
		}
		plain := op
		plain.Within = 0
		want := alone.render(plain)
		s0, w0, i0, n0 := snap()
		st.inner = nil
		got := st.render(op)
		kept.add(got)
		if len(st.inner) > 0 {
			kinds["within"] = true
			if in := alone.render(op.inner()); st.inner[0] != in {
				return fail("step %d: the grid %+v, rendered while writing another one, is %s; alone it is %s", k, op.inner(), short(st.inner[0]), short(in))
			}
			if in := alone.tab.FormatHeader("|"); st.inner[1] != in {
				return fail("step %d: the header, rendered while writing a grid, is %s; alone it is %s", k, short(st.inner[1]), short(in))
			}
		}
		if got != want {
			return fail("step %d (%+v) gives %s; alone it gives %s", k, op, short(got), short(want))
		}
		s1, w1, i1, n1 := snap()
		if !reflect.DeepEqual(i0, i1) {
			return fail("step %d (%+v) changed the items", k, op)
		}
		if !reflect.DeepEqual(w0, w1) {
			return fail("step %d (%+v) changed the column widths from %v to %v", k, op, w0, w1)
		}
		if !reflect.DeepEqual(s0, s1) || n0 != n1 {
			return fail("step %d (%+v) changed the columns", k, op)
		}
		kinds[fmt.Sprint(op.Op, op.Vertical, op.Compact)] = true
	}
	if m := kept.changed(); m != "" {
		return fail("%s", m)
	}
	o := Outcome{NonTrivial: len(kinds) >= 2 && g.n > 0}
	for k := range kinds {
		o.Classes = append(o.Classes, k)
	}
	if changes {
		o.Classes = append(o.Classes, "changes-in-between")
	}
	return o
}

var _ = register(&Prop{
	ID: "C14", Quick: 120000, Thorough: 900000,
	Rule: "sequences of up to 10 rendering calls and changes (rows, edits, widths, titles, alignments, columns) on one table, each rendering compared with the same one on a table of its own that saw only the changes, with items, widths and columns compared around each; non-trivial: two or more kinds of call on a non-empty list",
}, func(t *rapid.T) RenderCase {
	c := RenderCase{G: genGrid(t, gridOpts{cell: plainCell, maxAlign: alCenter})}
	for range c.G.Cols {
		c.Titles = append(c.Titles, genTitle(t))
	}
	changing := rapid.Bool().Draw(t, "changing")
	ncols := len(c.G.Cols)
	var again *RenderOp
	for i, n := 0, genInt(t, "ops", 2, 10); i < n; i++ {
		if changing && rapid.Bool().Draw(t, "change") {
			op := RenderOp{Op: pick(t, "op", []string{"row", "row", "edit", "merge", "title", "align", "col"}), I: genInt(t, "i", 0, 9)}
			switch op.Op {
			case "row", "edit":
				for j := 0; j < ncols; j++ {
					op.Row = append(op.Row, S(plainCell(t, 0, j)))
				}
			case "merge", "align":
				op.W = genInt(t, "w", 0, 30)
			case "title", "col":
				op.Title, op.Short = genTitle(t), genTitle(t)
				if op.Op == "col" {
					ncols++
				}
			}
			c.Ops = append(c.Ops, op)
			if again != nil && rapid.Bool().Draw(t, "again") {
				c.Ops = append(c.Ops, *again)
			}
			continue
		}
		op := RenderOp{Op: pick(t, "op", []string{"grid", "grid", "grid", "header", "width"}), Sep: S(pick(t, "sep", asciiSeps)),
			Compact: rapid.Bool().Draw(t, "compact"), Vertical: rapid.Bool().Draw(t, "vertical")}
		op.W = genGridWidth(t, c.G)
		if op.Op == "width" {
			op.W = genInt(t, "margin", 0, 5)
		}
		if op.Op == "grid" && chance(t, "within", 15) {
			op.Within = genInt(t, "write", 1, 6)
			op.I = genInt(t, "i", 0, 7)
		}
		if op.Op == "grid" && chance(t, "fail", 8) {
			op.Op, op.Within = "fail", genInt(t, "write", 1, 4)
		}
		if op.Op == "grid" && chance(t, "part", 20) {
			op.Part = genInt(t, "items", 0, len(c.G.Rows))
			op.From = genInt(t, "from", 0, 9)
		}
		c.Ops = append(c.Ops, op)
		again = &c.Ops[len(c.Ops)-1]
		if op.Op == "grid" && op.Part > 0 && rapid.Bool().Draw(t, "otherpart") {
			op.From = genInt(t, "from", 0, 9)
			c.Ops = append(c.Ops, op)
		}
	}
	return c
}, checkReadOnly)
