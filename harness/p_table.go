package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"time"

	table "github.com/ilius/go-table"
	"pgregory.net/rapid"
)

// textSeps has what means something to formatting, regular expressions, CSV, HTML or JSON.
var textSeps = []string{"", ",", "\t", " | ", "::", "\n", "世", " ", "  ", "|", "│", "%", "%s", "%d ", "%%", "$1", "\\", "\"", "'", "&", "<", "{{.}}", "\r\n", "\x00", "\x1b[1m", " % ", "\xff", ", ", ";"}

var colNames = []string{"a", "b", "name", "size", "", "ü", "mtime", "a ", "A", "Name", " a", "modification-time", "modification-date", "a\x00", "u\u0308"}

type ColSpec struct {
	Name  S
	Align int
}

func genCols(t *rapid.T, lo, hi, maxAlign int) []ColSpec {
	n := genInt(t, "ncols", lo, hi)
	if chance(t, "many", 1) {
		n = genManyCols(t)
	}
	cols := make([]ColSpec, n)
	for i := range cols {
		cols[i].Name = S(fmt.Sprintf("c%d", i))
		if chance(t, "oddname", 10) {
			cols[i].Name = S(pick(t, "name", colNames))
		}
		cols[i].Align = genInt(t, "align", 0, maxAlign)
	}
	return cols
}

// colTypes are declared types of columns. Nothing promised here depends on them.
var colTypes = []reflect.Type{nil, reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(time.Time{}), reflect.TypeOf(1.5), reflect.TypeOf(true), reflect.TypeOf([]byte(nil)), reflect.TypeOf(uint16(0)), reflect.TypeOf(&tokenItem{})}

func colType(i int) reflect.Type { return colTypes[i%len(colTypes)] }

func buildTable(cols []ColSpec) *table.Table {
	spec := table.NewTableSpec()
	if len(cols)%2 == 0 {
		spec.TimeFormat = "2006-01-02"
	}
	for i, c := range cols {
		spec.AddColumn(&table.Column{Type: colType(i*7 + len(cols) + len(c.Name)), Name: string(c.Name), Getter: fixedGetter{i}, Alignment: libAlign(c.Align), Title: string(c.Name)})
	}
	return table.NewTable(spec)
}

func strs(xs []S) []string {
	out := make([]string, len(xs))
	for i, x := range xs {
		out[i] = string(x)
	}
	return out
}

// ---- C04 -----------------------------------------------------------------

type WOp struct {
	Op    string // format, update, reuse (merge a map passed before), mutate (change such a map)
	T     int
	Cells []S
	Rep   int // format: the first cell is repeated this often (if above 1)
	Times int // format: the row is formatted this often (if above 1)
	Fail  int // format: column whose getter fails, -1 none
	Stage int // 0 Value, 1 Format
	Names []S
	Ws    []int
	Map   int // reuse, mutate: which of the maps passed before
}

type WCase struct {
	Names []S
	Ops   []WOp
}

type failGetter struct {
	col   int
	fail  *int
	stage *int
}

var errGetter = errors.New("getter failed")

func (g failGetter) Value(item any) (any, error) {
	if *g.fail == g.col && *g.stage == 0 {
		return nil, errGetter
	}
	return item.([]string)[g.col], nil
}
func (g failGetter) ValueString(string, any) (string, error) { return "", nil }
func (g failGetter) Format(_ any, v any) (string, error) {
	if *g.fail == g.col && *g.stage == 1 {
		return "", errGetter
	}
	return v.(string), nil
}

func genWHist(t *rapid.T) WCase {
	var c WCase
	n := genInt(t, "ncols", 0, 5)
	for i := 0; i < n; i++ {
		c.Names = append(c.Names, S(pick(t, "name", colNames)))
	}
	if chance(t, "many", 1) {
		for k := genManyCols(t); n < k; n++ {
			c.Names = append(c.Names, S(fmt.Sprintf("col%d", n)))
		}
	}
	longRows := false
	for i, k := 0, genInt(t, "ops", 1, 20); i < k; i++ {
		op := WOp{T: genInt(t, "table", 0, 2), Fail: -1}
		switch genInt(t, "op", 0, 9) {
		case 0, 1, 2, 3, 4:
			op.Op = "format"
			for j := 0; j < n; j++ {
				op.Cells = append(op.Cells, S(genCell(t, true)))
			}
			if n > 0 && chance(t, "wide", 2) {
				op.Rep = genCount(t)
				if op.Cells[0] = S(genWord(t)); chance(t, "verywide", 10) {
					op.Rep = pick(t, "rep", []int{32767, 32768, 65534, 65535, 65536, 70000})
				}
			}
			if n > 0 && chance(t, "fails", 20) {
				op.Fail = genInt(t, "failcol", 0, n-1)
				op.Stage = genInt(t, "stage", 0, 1)
			}
			if n < 6 && op.Rep < 2 && !longRows && chance(t, "times", 1) {
				longRows = true
				op.Times = genCount(t)
			}
		default:
			op.Op = "update"
			if r := genInt(t, "mapop", 0, 5); r == 5 {
				op.Op = "mutate"
			} else if r >= 3 {
				op.Op = "reuse"
			}
			op.Map = genInt(t, "map", 0, 3)
			m := genInt(t, "nupd", 0, 3)
			if chance(t, "manynames", 1) {
				m = genManyCols(t)
			}
			for j := 0; j < m; j++ {
				nm := pick(t, "name", colNames)
				if j > 2 || n > 5 {
					nm = fmt.Sprintf("col%d", genInt(t, "namenr", 0, max(m, n)))
				}
				op.Names = append(op.Names, S(nm))
				w := genInt(t, "w", 0, 40)
				if chance(t, "big", 10) {
					w = genInt(t, "bigw", 0, 65535)
				}
				op.Ws = append(op.Ws, w)
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func checkWHist(c WCase) Outcome {
	failCol, stage := -1, 0
	spec := table.NewTableSpec()
	for i, n := range c.Names {
		spec.AddColumn(&table.Column{Type: colType(i), Name: string(n), Getter: failGetter{i, &failCol, &stage}})
	}
	tables := []*table.Table{table.NewTable(spec), table.NewTable(spec), table.NewTable(spec)}
	low := make([]map[string]int, 3)
	high := make([]map[string]int, 3)
	last := make([]map[string]int, 3)
	for i := range low {
		low[i], high[i], last[i] = map[string]int{}, map[string]int{}, map[string]int{}
	}
	up := func(m map[string]int, k string, v int) {
		if v > m[k] {
			m[k] = v
		}
	}
	grew, both, failed := 0, map[string]bool{}, false
	var maps []map[string]uint16
	var snaps []string
	names := append([]string{"never-seen"}, colNames...)
	for i := 0; i < len(c.Names); i++ {
		if strings.HasPrefix(string(c.Names[i]), "col") {
			names = append(names, string(c.Names[i]))
		}
	}
	for step, op := range c.Ops {
		if op.T < 0 || op.T > 2 {
			return Outcome{Skip: true}
		}
		t := tables[op.T]
		switch op.Op {
		case "format":
			if len(op.Cells) != len(c.Names) || op.Fail >= len(c.Names) {
				return Outcome{Skip: true}
			}
			if op.Rep > 1 && len(op.Cells) > 0 {
				if op.Rep > 80000 || len(op.Cells[0])*op.Rep > 4<<20 {
					return Outcome{Skip: true}
				}
				op.Cells = append([]S{S(strings.Repeat(string(op.Cells[0]), op.Rep))}, op.Cells[1:]...)
			}
			for _, s := range op.Cells {
				if !wellFormed(string(s)) {
					return Outcome{Skip: true}
				}
			}
			if op.Times < 0 || op.Times > 20000 {
				return Outcome{Skip: true}
			}
			failCol, stage = op.Fail, op.Stage
			_, err := t.FormatItem(strs(op.Cells))
			for k := 1; k < op.Times; k++ {
				_, err = t.FormatItem(strs(op.Cells))
			}
			if (err != nil) != (op.Fail >= 0) {
				return fail("step %d: formatting returned error %v although the failing column is %d", step, err, op.Fail)
			}
			for i, s := range op.Cells {
				if op.Fail < 0 {
					up(low[op.T], string(c.Names[i]), refCell(string(s)))
				}
				// a rejected row may or may not have widened columns before the failing one
				if op.Fail < 0 || i < op.Fail {
					up(high[op.T], string(c.Names[i]), refCell(string(s)))
				}
			}
			both["f"] = true
			failed = failed || op.Fail >= 0
		case "update", "reuse", "mutate":
			if len(op.Names) != len(op.Ws) || op.Map < 0 {
				return Outcome{Skip: true}
			}
			m, at := map[string]uint16{}, len(maps)
			if op.Op != "update" && len(maps) > 0 {
				at = op.Map % len(maps)
				m = maps[at]
			} else {
				maps, snaps = append(maps, m), append(snaps, "")
			}
			for i, n := range op.Names {
				if op.Ws[i] < 0 || op.Ws[i] > 65535 {
					return Outcome{Skip: true}
				}
				if op.Op != "reuse" {
					m[string(n)] = uint16(op.Ws[i])
				}
			}
			snaps[at] = fmt.Sprint(m)
			if op.Op != "mutate" { // otherwise only the caller's copy changes
				for n, w := range m {
					up(low[op.T], n, int(w))
					up(high[op.T], n, int(w))
				}
				t.UpdateWidth(m)
				t.UpdateWidth(nil)
			} else {
				both["m"] = true
			}
			both["u"] = true
		default:
			return Outcome{Skip: true}
		}
		for i, m := range maps {
			if now := fmt.Sprint(m); now != snaps[i] {
				return fail("step %d: the caller's map of widths changed from %s to %s", step, snaps[i], now)
			}
		}
		for i := range tables {
			for _, n := range names {
				w := int(tables[i].Width(n))
				if w < low[i][n] || w > high[i][n] {
					return fail("step %d: table %d column %q has width %d; the widest thing seen is between %d and %d", step, i, n, w, low[i][n], high[i][n])
				}
				if w < last[i][n] {
					return fail("step %d: table %d column %q shrank from %d to %d", step, i, n, last[i][n], w)
				}
				if w > last[i][n] {
					grew++
				}
				last[i][n] = w
			}
		}
	}
	o := Outcome{NonTrivial: grew >= 2}
	if both["f"] && both["u"] {
		o.Classes = append(o.Classes, "format+merge")
	}
	if both["m"] {
		o.Classes = append(o.Classes, "callers-map-changed")
	}
	if failed {
		o.Classes = append(o.Classes, "rejected-row")
	}
	return o
}

var _ = register(&Prop{
	ID: "C04", Quick: 400000, Thorough: 2500000,
	Rule: "histories of format (20% failing) and width-merge operations over three tables sharing a specification, widths of all names checked after every step; non-trivial: at least two width increases",
}, genWHist, checkWHist)

// ---- C05 -----------------------------------------------------------------

type RowCase struct {
	Cols   []ColSpec
	Rows   [][]S
	Big    []BigCell
	Upd    []int // widths merged in per column, 0 none
	Margin int
	Bad    []S // row of a wrong length
	Before int // that many rows of empty cells are formatted first
}

func genRows(t *rapid.T) RowCase {
	c := RowCase{Cols: genCols(t, 0, 5, nAl-1)}
	for i, n := 0, genInt(t, "rows", 0, 5); i < n; i++ {
		row := []S{}
		for range c.Cols {
			row = append(row, S(genCell(t, true)))
		}
		c.Rows = append(c.Rows, row)
	}
	for range c.Cols {
		u := 0
		if chance(t, "upd", 20) {
			u = genInt(t, "updw", 1, 60)
			if chance(t, "big", 10) {
				u = genInt(t, "bigw", 1, 65535)
			}
		}
		c.Upd = append(c.Upd, u)
	}
	if len(c.Rows) > 0 && len(c.Cols) > 0 && chance(t, "bigcell", 1) {
		c.Big = append(c.Big, BigCell{genInt(t, "row", 0, len(c.Rows)-1), genInt(t, "col", 0, len(c.Cols)-1),
			pick(t, "biglen", []int{100, 254, 255, 256, 257, 300, 1000, 5000, 32767, 32768, 65534, 65535, 65536, 70000})})
	}
	c.Margin = genInt(t, "margin", 0, 6)
	if chance(t, "bigmargin", 5) {
		c.Margin = genInt(t, "bm", 0, 65535)
	}
	if chance(t, "before", 1) && len(c.Cols) < 6 {
		c.Before = genCount(t)
	}
	k := genInt(t, "badlen", 0, 7)
	if chance(t, "longbad", 8) {
		k = genInt(t, "longbadlen", 8, 70)
	} else if chance(t, "nearbad", 20) {
		k = max(0, len(c.Cols)+pick(t, "off", []int{-1, 1}))
	}
	for i := 0; i < k; i++ {
		c.Bad = append(c.Bad, S(genWord(t)))
	}
	return c
}

func checkRows(c RowCase) Outcome {
	if len(c.Upd) != len(c.Cols) || c.Margin < 0 || c.Margin > 65535 {
		return Outcome{Skip: true}
	}
	for _, x := range c.Cols {
		if x.Align < 0 || x.Align >= nAl {
			return Outcome{Skip: true}
		}
	}
	rows := [][]S{}
	for _, r := range c.Rows {
		rows = append(rows, append([]S(nil), r...))
	}
	for _, b := range c.Big {
		if b.Row < 0 || b.Row >= len(rows) || b.Col < 0 || b.Col >= len(rows[b.Row]) || b.N < 0 || b.N > 80000 {
			return Outcome{Skip: true}
		}
		rows[b.Row][b.Col] = S(strings.Repeat("x", b.N))
	}
	c.Rows = rows
	t := buildTable(c.Cols)
	width := map[string]int{}
	var formatted [][]string
	if c.Before < 0 || c.Before > 20000 {
		return Outcome{Skip: true}
	}
	for k := 0; k < c.Before; k++ {
		if _, err := t.FormatItem(make([]string, len(c.Cols))); err != nil {
			return fail("formatting failed: %v", err)
		}
	}
	// the table width and the latest row are right at every stage
	stage := func() string {
		tw := 0
		for i, col := range c.Cols {
			if i > 0 {
				tw += c.Margin
			}
			tw += width[string(col.Name)]
		}
		if got := int(t.TableWidth(uint16(c.Margin))); got != min(tw, 65535) {
			return fmt.Sprintf("table width for margin %d is %d, want %d (column widths %v)", c.Margin, got, min(tw, 65535), width)
		}
		if n := len(formatted); n > 0 {
			got, err := t.AlignFormattedItem(append([]string(nil), formatted[n-1]...))
			if err != nil || len(got) != len(c.Cols) {
				return fmt.Sprintf("aligning row %d gave %d cells, error %v", n-1, len(got), err)
			}
			for i, col := range c.Cols {
				want := string(c.Rows[n-1][i])
				if col.Align != alNone {
					want = refAlign(col.Align, want, width[string(col.Name)])
				}
				if got[i] != want {
					return fmt.Sprintf("after formatting row %d its column %d (alignment %d, width %d) is %s, want %s", n-1, i, col.Align, width[string(col.Name)], short(got[i]), short(want))
				}
			}
		}
		return ""
	}
	for _, r := range c.Rows {
		if len(r) != len(c.Cols) {
			return Outcome{Skip: true}
		}
		for _, s := range r {
			if !wellFormed(string(s)) {
				return Outcome{Skip: true}
			}
		}
		f, err := t.FormatItem(strs(r))
		if err != nil {
			return fail("formatting failed: %v", err)
		}
		formatted = append(formatted, f)
		for i, s := range r {
			n := string(c.Cols[i].Name)
			width[n] = max(width[n], refCell(string(s)))
		}
		if e := stage(); e != "" {
			return fail("%s", e)
		}
	}
	for i, u := range c.Upd {
		if u < 0 || u > 65535 {
			return Outcome{Skip: true}
		}
		n := string(c.Cols[i].Name)
		t.UpdateWidth(map[string]uint16{n: uint16(u)})
		width[n] = max(width[n], u)
		if u > 0 && len(c.Cols) < 20 {
			if e := stage(); e != "" {
				return fail("%s", e)
			}
		}
	}
	tw := 0
	allAligned := true
	for i, col := range c.Cols {
		if i > 0 {
			tw += c.Margin
		}
		tw += width[string(col.Name)]
		allAligned = allAligned && col.Align != alNone
	}
	tw = min(tw, 65535)
	if got := int(t.TableWidth(uint16(c.Margin))); got != tw {
		return fail("table width for margin %d is %d, want %d (column widths %v)", c.Margin, got, tw, width)
	}
	pads := false
	var aligned keptTexts
	for ri, f := range formatted {
		got, err := t.AlignFormattedItem(append([]string(nil), f...))
		if err != nil {
			return fail("aligning row %d failed: %v", ri, err)
		}
		if len(got) != len(c.Cols) {
			return fail("aligned row has %d cells, want %d", len(got), len(c.Cols))
		}
		for i, col := range c.Cols {
			want := string(c.Rows[ri][i])
			if col.Align != alNone {
				want = refAlign(col.Align, want, width[string(col.Name)])
			}
			if got[i] != want {
				return fail("row %d column %d (alignment %d, width %d): got %s, want %s", ri, i, col.Align, width[string(col.Name)], short(got[i]), short(want))
			}
			pads = pads || want != string(c.Rows[ri][i])
		}
		aligned.add(got...)
	}
	if m := aligned.changed(); m != "" {
		return fail("%s", m)
	}
	o := Outcome{NonTrivial: pads}
	if len(c.Bad) != len(c.Cols) {
		in := strs(c.Bad)
		keep := strs(c.Bad)
		got, err := t.AlignFormattedItem(in)
		if err == nil {
			return fail("a row of %d cells was accepted by a table of %d columns: %q", len(c.Bad), len(c.Cols), got)
		}
		if len(got) != 0 {
			return fail("a rejected row still returned cells %q", got)
		}
		if !reflect.DeepEqual(in, keep) {
			return fail("a rejected row was modified: %q", in)
		}
		o.Classes = append(o.Classes, "wrong-length")
	}
	if allAligned && len(c.Cols) > 0 {
		o.Classes = append(o.Classes, "all-aligned")
	}
	if tw == 65535 {
		o.Classes = append(o.Classes, "saturated")
	}
	return o
}

var _ = register(&Prop{
	ID: "C05", Quick: 800000, Thorough: 4000000,
	Rule: "tables of 0..5 columns with rows, merged widths, margin and a row of another length; non-trivial: some cell is padded",
}, genRows, checkRows)

// ---- C06 -----------------------------------------------------------------

type FmtCase struct {
	Cols  []S   // names
	Vals  []S   // per column: what the getter formats
	Plain []S   // per column: its value string
	Kinds []int // per column: what the getter extracts, see extracted
	Item  int   // see itemOf
	Sep   S
	Fail  int // column failing, -1 none
	Stg   int // 0 Value, 1 Format, 2 ValueString
	Err   int
	Again []FmtRound // further calls, the getters now giving something else
	Nest  *FmtNest   // a getter that itself uses the table in the middle of a call
	Extra int        // that many calls before the last round

	Type       int // which declared types the columns have
	TimeFormat S
}

// FmtNest: while column Col is at stage Stg of a call, its getter formats another item.
type FmtNest struct {
	Col, Stg int
	Round    FmtRound
	Item     int
}

type FmtRound struct {
	Vals, Plain []S
	Kinds       []int
	Fail, Stg   int
	Sep         S
	Other       bool // on another table with the same specification
}

type tokenItem struct{ vals []string }
type tokenValue struct {
	item any
	col  int
}

var theTime = time.Date(2024, 2, 29, 23, 59, 58, 123456789, time.UTC)

type stringer struct{ n int }

func (s stringer) String() string { return fmt.Sprint("stringer ", s.n) }

var errAsValue = errors.New("an error as value")

const nExtracted, nItems = 17, 8

// extracted is what a getter extracts: anything, also nil and nil pointers.
func extracted(kind, col int, item any) any {
	switch kind {
	case 1:
		return nil
	case 2:
		return (*tokenItem)(nil)
	case 3:
		return ""
	case 4:
		return col
	case 5:
		return []string{"not", "comparable"}
	case 6:
		return errAsValue
	case 7:
		return "text"
	case 8:
		return item
	case 9:
		return theTime
	case 10:
		return &theTime
	case 11:
		return time.Duration(90+col) * time.Second
	case 12:
		return stringer{col}
	case 13:
		return []byte("bytes")
	case 14:
		return col%2 == 0
	case 15:
		return time.Time{}
	case 16:
		return 1.5
	}
	return tokenValue{item, col}
}

func itemOf(kind int, vals []string) any {
	switch kind {
	case 1:
		return nil
	case 2:
		return vals
	case 3:
		return strings.Join(vals, "/")
	case 4:
		return map[string]int{"x": len(vals)}
	case 5:
		return (*tokenItem)(nil)
	case 6:
		return theTime
	case 7:
		return stringer{len(vals)}
	}
	return &tokenItem{vals: vals}
}

// sameValue compares dynamic type and value, pointers by identity.
func sameValue(a, b any) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if a != nil && reflect.TypeOf(a).Kind() == reflect.Pointer {
		return reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer()
	}
	return reflect.DeepEqual(a, b)
}

type tokenGetter struct {
	col  int
	name string
	c    *FmtCase
	item any
	bad  *string
	err  error
	hook func(col, stage int)
}

func (g *tokenGetter) value() any { return extracted(g.c.Kinds[g.col], g.col, g.item) }

func (g *tokenGetter) Value(item any) (any, error) {
	if !sameValue(item, g.item) {
		*g.bad = fmt.Sprintf("column %d: Value got item %v", g.col, item)
	}
	g.hook(g.col, 0)
	if g.c.Fail == g.col && g.c.Stg == 0 {
		return nil, g.err
	}
	return g.value(), nil
}

func (g *tokenGetter) Format(item any, v any) (string, error) {
	if !sameValue(item, g.item) || !sameValue(v, g.value()) {
		*g.bad = fmt.Sprintf("column %d: Format got value %v and item %v instead of %v and %v", g.col, v, item, g.value(), g.item)
	}
	g.hook(g.col, 1)
	if g.c.Fail == g.col && g.c.Stg == 1 {
		return "partial", g.err
	}
	return string(g.c.Vals[g.col]), nil
}

func (g *tokenGetter) ValueString(name string, item any) (string, error) {
	if name != g.name || !sameValue(item, g.item) {
		*g.bad = fmt.Sprintf("column %d (%q): ValueString got name %q item %v", g.col, g.name, name, item)
	}
	g.hook(g.col, 2)
	if g.c.Fail == g.col && g.c.Stg == 2 {
		return "partial", g.err
	}
	return string(g.c.Plain[g.col]), nil
}

func genFmt(t *rapid.T) FmtCase {
	c := FmtCase{Fail: -1}
	n := genInt(t, "ncols", 0, 6)
	if chance(t, "many", 1) {
		n = genManyCols(t)
	}
	val := func() S {
		if rapid.Bool().Draw(t, "simpleval") {
			return S(pick(t, "v", []string{"", "", "x", "1,2", " "}))
		}
		return S(genText(t, 3, true))
	}
	for i := 0; i < n; i++ {
		nm := fmt.Sprintf("c%d", i)
		if chance(t, "dup", 15) {
			nm = pick(t, "name", colNames)
		}
		c.Cols = append(c.Cols, S(nm))
		c.Vals = append(c.Vals, val())
		c.Plain = append(c.Plain, val())
		k := 0
		if rapid.Bool().Draw(t, "oddvalue") {
			k = genInt(t, "extracted", 0, nExtracted-1)
		}
		c.Kinds = append(c.Kinds, k)
	}
	if chance(t, "odditem", 30) {
		c.Item = genInt(t, "item", 0, nItems-1)
	}
	c.Sep = S(pick(t, "sep", textSeps))
	c.Type = genInt(t, "types", 0, len(colTypes)-1)
	c.TimeFormat = S(pick(t, "timeformat", []string{"", "", "2006-01-02", "15:04", "x"}))
	if n > 0 && chance(t, "fails", 45) {
		c.Fail = genInt(t, "col", 0, n-1)
		c.Stg = genInt(t, "stage", 0, 2)
		c.Err = genInt(t, "error", 0, len(faultErrors)-1)
	}
	for i, k := 0, genInt(t, "again", 0, 3); i < k; i++ {
		r := FmtRound{Vals: c.Vals, Plain: c.Plain, Kinds: c.Kinds, Fail: c.Fail, Stg: c.Stg, Sep: c.Sep, Other: rapid.Bool().Draw(t, "other")}
		if n <= 12 && rapid.Bool().Draw(t, "newvals") {
			r.Vals, r.Plain, r.Kinds = nil, nil, nil
			for j := 0; j < n; j++ {
				r.Vals, r.Plain, r.Kinds = append(r.Vals, val()), append(r.Plain, val()), append(r.Kinds, genInt(t, "extracted", 0, nExtracted-1))
			}
		}
		if n > 0 && rapid.Bool().Draw(t, "newfail") {
			r.Fail, r.Stg = genInt(t, "col", -1, n-1), genInt(t, "stage", 0, 2)
		}
		if rapid.Bool().Draw(t, "newsep") {
			r.Sep = S(pick(t, "sep", textSeps))
		}
		c.Again = append(c.Again, r)
	}
	if n < 6 && chance(t, "extra", 1) && rapid.Bool().Draw(t, "reallyextra") {
		c.Extra = genCount(t)
	}
	if n > 0 && n <= 12 && chance(t, "nest", 12) {
		r := FmtRound{Fail: -1, Sep: S(pick(t, "sep", textSeps)), Other: rapid.Bool().Draw(t, "other")}
		if chance(t, "nestfails", 25) {
			r.Fail, r.Stg = genInt(t, "col", -1, n-1), genInt(t, "stage", 0, 2)
		}
		for j := 0; j < n; j++ {
			r.Vals, r.Plain, r.Kinds = append(r.Vals, val()), append(r.Plain, val()), append(r.Kinds, genInt(t, "extracted", 0, nExtracted-1))
		}
		c.Nest = &FmtNest{Col: genInt(t, "nestcol", 0, n-1), Stg: genInt(t, "neststage", 0, 2), Round: r, Item: genInt(t, "nestitem", 0, nItems-1)}
	}
	return c
}

func (r FmtRound) ok(n int) bool {
	if len(r.Vals) != n || len(r.Plain) != n || len(r.Kinds) != n || r.Fail < -1 || r.Fail >= n || r.Stg < 0 || r.Stg > 2 {
		return false
	}
	for _, k := range r.Kinds {
		if k < 0 || k >= nExtracted {
			return false
		}
	}
	return true
}

func checkFmt(c FmtCase) Outcome {
	n := len(c.Cols)
	if c.Item < 0 || c.Item >= nItems || c.Err < 0 || c.Err >= len(faultErrors) {
		return Outcome{Skip: true}
	}
	rounds := append([]FmtRound{{Vals: c.Vals, Plain: c.Plain, Kinds: c.Kinds, Fail: c.Fail, Stg: c.Stg, Sep: c.Sep}}, c.Again...)
	for _, r := range rounds {
		if !r.ok(n) {
			return Outcome{Skip: true}
		}
	}
	if c.Extra < 0 || c.Extra > 20000 || c.Type < 0 {
		return Outcome{Skip: true}
	}
	if x := c.Nest; x != nil && (!x.Round.ok(n) || x.Item < 0 || x.Item >= nItems) {
		return Outcome{Skip: true}
	}
	vals0 := strs(c.Vals)
	item := itemOf(c.Item, strs(c.Vals))
	bad := ""
	theErr := faultErrors[c.Err]
	spec := table.NewTableSpec()
	spec.TimeFormat = string(c.TimeFormat)
	var getters []*tokenGetter
	var hook func(col, stage int)
	for i, nm := range c.Cols {
		g := &tokenGetter{col: i, name: string(nm), c: &c, item: item, bad: &bad, err: theErr, hook: func(col, stage int) { hook(col, stage) }}
		getters = append(getters, g)
		spec.AddColumn(&table.Column{Name: string(nm), Getter: g, Alignment: libAlign(i % 4), Title: string(nm), ShortTitle: "s", Type: colType(i*5 + c.Type)})
	}
	tabs := []*table.Table{table.NewTable(spec), table.NewTable(spec)}
	tabs[0].UpdateWidth(map[string]uint16{"c0": 30, "c1": 7})
	var kept [][]string
	var keptWant [][]string
	set := func(r FmtRound, item any) *table.Table {
		c.Vals, c.Plain, c.Kinds, c.Fail, c.Stg, c.Sep = r.Vals, r.Plain, r.Kinds, r.Fail, r.Stg, r.Sep
		for _, g := range getters {
			g.item = item
		}
		if r.Other {
			return tabs[1]
		}
		return tabs[0]
	}
	cells := func(t *table.Table, item any, keep bool, what string) error {
		got, err := t.FormatItem(item)
		if bad != "" {
			return errors.New(bad)
		}
		if c.Fail >= 0 && c.Stg < 2 {
			if !sameError(err, theErr) {
				return fmt.Errorf("%s: getter of column %d failed at stage %d with %v; formatting returned error %v", what, c.Fail, c.Stg, theErr, err)
			}
			if len(got) != 0 {
				return fmt.Errorf("%s: formatting failed but returned cells %q", what, got)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("%s: formatting failed: %v", what, err)
		}
		if len(got) != len(c.Vals) {
			return fmt.Errorf("%s: formatting gave %d cells for %d columns", what, len(got), len(c.Vals))
		}
		for i := range got {
			if got[i] != string(c.Vals[i]) {
				return fmt.Errorf("%s: cell %d is %q, its getter formatted %q", what, i, got[i], string(c.Vals[i]))
			}
		}
		if keep { // the row is the caller's: to keep, or to overwrite
			kept, keptWant = append(kept, got), append(keptWant, strs(c.Vals))
		} else {
			for i := range got {
				got[i] = "overwritten"
			}
		}
		return nil
	}
	var plains keptTexts
	plain := func(t *table.Table, item any, what string) error {
		plain, err := t.FormatItemBasic(item, string(c.Sep))
		if bad != "" {
			return errors.New(bad)
		}
		if c.Fail >= 0 && c.Stg == 2 {
			if !sameError(err, theErr) {
				return fmt.Errorf("%s: value-string getter of column %d failed with %v; plain formatting returned error %v", what, c.Fail, theErr, err)
			}
			if plain != "" {
				return fmt.Errorf("%s: plain formatting failed but returned %q", what, plain)
			}
			return nil
		}
		plains.add(plain)
		want := strings.Join(strs(c.Plain), string(c.Sep))
		if err != nil || plain != want {
			return fmt.Errorf("%s: plain row is %q (error %v), want %q", what, plain, err, want)
		}
		return nil
	}
	nested, depth := 0, 0
	hook = func(col, stage int) {
		x := c.Nest
		if x == nil || depth > 0 || x.Col != col || x.Stg != stage {
			return
		}
		depth++
		nested++
		outer := FmtRound{Vals: c.Vals, Plain: c.Plain, Kinds: c.Kinds, Fail: c.Fail, Stg: c.Stg, Sep: c.Sep}
		outerItem := getters[0].item
		inner := itemOf(x.Item, strs(x.Round.Vals))
		t := set(x.Round, inner)
		err := cells(t, inner, nested%2 == 0, "within a getter")
		if err == nil {
			err = plain(t, inner, "within a getter")
		}
		if err != nil {
			bad = err.Error()
		}
		set(outer, outerItem)
		depth--
	}
	for round, r := range rounds {
		t := set(r, item)
		what := fmt.Sprintf("call %d", round)
		if round == len(rounds)-1 {
			for k := 0; k < c.Extra; k++ {
				if err := cells(t, item, false, "an extra call"); err != nil {
					return fail("%v", err)
				}
				if err := plain(t, item, "an extra call"); err != nil {
					return fail("%v", err)
				}
			}
		}
		if err := cells(t, item, round%2 == 0, what); err != nil {
			return fail("%v", err)
		}
		if err := plain(t, item, what); err != nil {
			return fail("%v", err)
		}
	}
	for i := range kept {
		if strings.Join(kept[i], "\x00\x00") != strings.Join(keptWant[i], "\x00\x00") {
			return fail("a row formatted earlier was changed by a later call: %q, want %q", kept[i], keptWant[i])
		}
	}
	if m := plains.changed(); m != "" {
		return fail("%s", m)
	}
	if !reflect.DeepEqual(item, itemOf(c.Item, vals0)) {
		return fail("the item was modified")
	}
	o := Outcome{NonTrivial: len(c.Cols) >= 2}
	if c.Fail >= 0 {
		o.Classes = append(o.Classes, fmt.Sprintf("fault-stage%d", c.Stg))
	} else {
		o.Classes = append(o.Classes, "healthy")
	}
	if nested > 0 {
		o.Classes = append(o.Classes, "nested")
	}
	return o
}

var _ = register(&Prop{
	ID: "C06", Quick: 1200000, Thorough: 4000000,
	Rule: "column sets with token values (identity of item and value checked inside the getters; items and values also nil, nil pointers and uncomparable), separators, in 45% a getter failing at a drawn column and stage, and in 12% a getter that formats another item on the same or another table; non-trivial: two or more columns",
}, genFmt, checkFmt)

// ---- C07 -----------------------------------------------------------------

type HeadCol struct {
	Name, Title, Short S
	W                  int
	Align              int
}

// HeadStage is an earlier state in which the header was shown: titles and
// widths given to the columns from the first on.
type HeadStage struct {
	Titles, Shorts []S
	Ws             []int
	Sep            S
}

type HeadCase struct {
	Earlier []HeadStage
	Cols    []HeadCol
	Sep     S
}

func genTitle(t *rapid.T) S {
	switch genInt(t, "title", 0, 4) {
	case 0:
		return S(pick(t, "fixed", []string{"", "Name", "N", "Modified Time", "名前", "サイズ", "\x1b[1mName\x1b[0m", "Größe", "\u009b1mX\u009bm", "Имя"}))
	case 1, 2:
		return S(genWord(t))
	}
	return S(genCell(t, true))
}

func genHead(t *rapid.T) HeadCase {
	var c HeadCase
	n := genInt(t, "ncols", 0, 5)
	if chance(t, "many", 1) {
		n = genManyCols(t)
	}
	for i := 0; i < n; i++ {
		h := HeadCol{Name: S(fmt.Sprintf("c%d", i)), Title: genTitle(t), Short: genTitle(t), Align: genInt(t, "align", 0, nAl-1)}
		switch genInt(t, "wkind", 0, 5) {
		case 0:
			h.W = 0
		case 1, 2:
			h.W = max(0, refCell(string(h.Title))+genInt(t, "dw", -2, 4))
		case 3:
			h.W = max(0, refCell(string(h.Short))+genInt(t, "dw", -2, 3))
		case 4:
			h.W = genInt(t, "w", 0, 30)
		case 5:
			h.W = genInt(t, "w", 0, 3)
		}
		if chance(t, "wide", 1) {
			h.W = pick(t, "widew", []int{127, 128, 254, 255, 256, 257, 300, 1023, 1024, 32767, 32768, 65534, 65535})
		}
		h.W = min(h.W, 65535)
		if chance(t, "oddname", 3) {
			h.Name = S(pick(t, "name", colNames))
		}
		c.Cols = append(c.Cols, h)
	}
	if chance(t, "earlier", 25) {
		for i, k := 0, genInt(t, "stages", 1, 3); i < k; i++ {
			var e HeadStage
			for range c.Cols {
				e.Titles = append(e.Titles, genTitle(t))
				e.Shorts = append(e.Shorts, S(genWord(t)))
				e.Ws = append(e.Ws, genInt(t, "w", 0, 8))
				if len(e.Ws) > 8 {
					break
				}
			}
			e.Sep = S(pick(t, "sep", textSeps))
			c.Earlier = append(c.Earlier, e)
		}
	}
	c.Sep = S(pick(t, "sep", textSeps))
	return c
}

func checkHead(c HeadCase) Outcome {
	spec := table.NewTableSpec()
	width := map[S]int{}
	for i, h := range c.Cols {
		if !wellFormed(string(h.Title)) || !wellFormed(string(h.Short)) {
			return Outcome{Skip: true}
		}
		if h.W < 0 || h.W > 65535 || h.Align < 0 || h.Align >= nAl {
			return Outcome{Skip: true}
		}
		spec.AddColumn(&table.Column{Type: colType(i), Name: string(h.Name), Alignment: libAlign(h.Align)})
	}
	t := table.NewTable(spec)
	o := Outcome{}
	var headers keptTexts
	show := func(titles, shorts []S, sep S) string {
		want := ""
		for i, h := range c.Cols {
			v, sh := string(titles[i]), string(shorts[i])
			spec.Columns[i].Title, spec.Columns[i].ShortTitle = v, sh
			w := width[h.Name]
			switch {
			case w == 0:
				want += v
				o.Classes = append(o.Classes, "no-width")
			case refCell(v) <= w:
				want += refAlign(alCenter, v, w)
				if !isASCII(v) || hasEscape(v) {
					o.Classes = append(o.Classes, "title-fits-nonascii")
				} else {
					o.Classes = append(o.Classes, "title-fits")
				}
				o.NonTrivial = o.NonTrivial || v != ""
			case refCell(sh) <= w:
				want += refAlign(alCenter, sh, w)
				o.Classes = append(o.Classes, "short-title")
				o.NonTrivial = true
			default:
				want += spaces(w)
				o.Classes = append(o.Classes, "blank")
				o.NonTrivial = true
			}
			want += string(sep)
		}
		want += "\n"
		got := t.FormatHeader(string(sep))
		if got != want {
			return fmt.Sprintf("header is %s, want %s", short(got), short(want))
		}
		headers.add(got)
		return ""
	}
	widen := func(i, w int) {
		n := c.Cols[i].Name
		t.UpdateWidth(map[string]uint16{string(n): uint16(w)})
		width[n] = max(width[n], w)
	}
	var titles, shorts []S
	for _, h := range c.Cols {
		titles, shorts = append(titles, h.Title), append(shorts, h.Short)
	}
	for k, e := range c.Earlier {
		if len(e.Ws) > len(c.Cols) || len(e.Titles) != len(e.Ws) || len(e.Shorts) != len(e.Ws) {
			return Outcome{Skip: true}
		}
		ti, sh := append([]S(nil), titles...), append([]S(nil), shorts...)
		for i, w := range e.Ws {
			if w < 0 || w > 65535 || !wellFormed(string(e.Titles[i])) || !wellFormed(string(e.Shorts[i])) {
				return Outcome{Skip: true}
			}
			if w > 0 {
				widen(i, w)
			}
			ti[i], sh[i] = e.Titles[i], e.Shorts[i]
		}
		if m := show(ti, sh, e.Sep); m != "" {
			return fail("stage %d: %s", k, m)
		}
	}
	if len(c.Earlier) > 0 {
		o.Classes = append(o.Classes, "shown-before")
	}
	for i, h := range c.Cols {
		if h.W > 0 {
			widen(i, h.W)
		}
	}
	if m := show(titles, shorts, c.Sep); m != "" {
		return fail("%s", m)
	}
	if m := headers.changed(); m != "" {
		return fail("%s", m)
	}
	return o
}

var _ = register(&Prop{
	ID: "C07", Quick: 800000, Thorough: 5000000,
	Rule: "titles, short titles and column widths around each other's displayed width; non-trivial: a column with a width and something to decide",
}, genHead, checkHead)

// ---- C26 -----------------------------------------------------------------

type RegOp struct {
	Op   string // add, many (N columns), nilspec, table (another table on the spec), again (a column added before)
	Spec int
	Name S
	Via  bool // add through a table built on the spec
	N    int
}

type RegCase struct{ Ops []RegOp }

func genReg(t *rapid.T) RegCase {
	var c RegCase
	for i, n := 0, genInt(t, "ops", 1, 25); i < n; i++ {
		op := RegOp{Op: "add", Spec: genInt(t, "spec", 0, 2), Name: S(pick(t, "name", colNames)), Via: rapid.Bool().Draw(t, "via")}
		if chance(t, "nil", 15) {
			op = RegOp{Op: "nilspec"}
		} else if chance(t, "many", 1) {
			op.Op, op.N = "many", genManyCols(t)
		} else if chance(t, "some", 4) {
			op.Op, op.N = "many", genInt(t, "n", 2, 40)
		} else if chance(t, "again", 8) {
			op.Op, op.N = "again", genInt(t, "which", 0, 30)
		} else if chance(t, "table", 15) {
			op.Op = "table"
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func checkReg(c RegCase) Outcome {
	type model struct {
		spec *table.TableSpec
		tabs []*table.Table
		cols []*table.Column
	}
	newM := func() *model {
		s := table.NewTableSpec()
		return &model{spec: s, tabs: []*table.Table{table.NewTable(s), table.NewTable(s)}}
	}
	ms := []*model{newM(), newM(), newM()}
	adds, dup, late, again := 0, false, false, false
	for step, op := range c.Ops {
		switch op.Op {
		case "nilspec":
			t := table.NewTable(nil)
			if t.ColumnCount() != 0 || t.TableSpec == nil {
				return fail("step %d: a table without specification has %d columns", step, t.ColumnCount())
			}
			ms = append(ms, &model{spec: t.TableSpec, tabs: []*table.Table{t}})
		case "table":
			if op.Spec < 0 || op.Spec > 2 || len(c.Ops) > 200 {
				return Outcome{Skip: true}
			}
			m := ms[(op.Spec+step)%len(ms)]
			t := table.NewTable(m.spec)
			if op.Via {
				// the newest table is the one later additions go through
				m.tabs = append([]*table.Table{t}, m.tabs...)
			} else {
				m.tabs = append(m.tabs, t)
			}
			late = late || len(m.cols) > 0
		case "again": // a column that is there already, here or in another specification
			if op.Spec < 0 || op.Spec > 2 || op.N < 0 || len(c.Ops) > 200 {
				return Outcome{Skip: true}
			}
			m, from := ms[(op.Spec+step)%len(ms)], ms[(op.Spec+step+op.N/3%2)%len(ms)]
			if len(from.cols) == 0 {
				continue
			}
			col := from.cols[len(from.cols)-1-op.N%len(from.cols)]
			if op.Via {
				m.tabs[0].AddColumn(col)
			} else {
				m.spec.AddColumn(col)
			}
			m.cols = append(m.cols, col)
			adds++
			again = true
		case "add", "many":
			if op.Spec < 0 || op.Spec > 2 || op.N < 0 || op.N > 1000 || len(c.Ops) > 200 {
				return Outcome{Skip: true}
			}
			m := ms[(op.Spec+step)%len(ms)]
			for k := 0; k < op.N || k == 0 && op.Op == "add"; k++ {
				col := &table.Column{Name: string(op.Name)}
				if op.Op == "many" && k > 0 {
					col.Name = fmt.Sprintf("%s%d", op.Name, k)
				}
				if op.Via {
					m.tabs[0].AddColumn(col)
				} else {
					m.spec.AddColumn(col)
				}
				for _, x := range m.cols {
					dup = dup || x.Name == col.Name
				}
				m.cols = append(m.cols, col)
				adds++
				if op.Op == "add" {
					break
				}
			}
		default:
			return Outcome{Skip: true}
		}
		for mi, m := range ms {
			views := []*table.TableSpec{m.spec}
			for _, t := range m.tabs {
				views = append(views, t.TableSpec)
			}
			for vi, v := range views {
				if v.ColumnCount() != len(m.cols) || len(v.Columns) != len(m.cols) {
					return fail("step %d: specification %d view %d counts %d columns, %d were added", step, mi, vi, v.ColumnCount(), len(m.cols))
				}
				latest := map[string]*table.Column{}
				for i, col := range m.cols {
					if v.Columns[i] != col {
						return fail("step %d: column %d is not the one added", step, i)
					}
					latest[col.Name] = col
				}
				for n, col := range latest {
					if !v.HasColumn(n) || v.ColumnByName[n] != col {
						return fail("step %d: name %q does not resolve to the latest column of that name", step, n)
					}
				}
				for _, n := range append([]string{"never-added"}, colNames...) {
					if v.HasColumn(n) != (latest[n] != nil) {
						return fail("step %d: HasColumn(%q) = %v", step, n, v.HasColumn(n))
					}
					if v.ColumnByName[n] != latest[n] {
						return fail("step %d: name %q resolves to another column than the latest added", step, n)
					}
				}
				if len(v.ColumnByName) != len(latest) {
					return fail("step %d: %d names registered, %d added", step, len(v.ColumnByName), len(latest))
				}
			}
		}
	}
	o := Outcome{NonTrivial: adds >= 2}
	if dup {
		o.Classes = append(o.Classes, "duplicate-name")
	}
	if again {
		o.Classes = append(o.Classes, "same-column-again")
	}
	if late {
		o.Classes = append(o.Classes, "table-on-used-spec")
	}
	if len(ms) > 3 {
		o.Classes = append(o.Classes, "nil-spec")
	}
	return o
}

var _ = register(&Prop{
	ID: "C26", Quick: 250000, Thorough: 2000000, Modes: []string{"ea0"},
	Rule: "histories of additions through specifications and tables; non-trivial: two or more additions",
}, genReg, checkReg)
