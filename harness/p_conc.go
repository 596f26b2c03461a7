package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
	"sync"

	table "github.com/ilius/go-table"
	"github.com/ilius/go-table/runewidth"
	"pgregory.net/rapid"
)

// ConcOp is one operation of a goroutine. Str indexes the shared strings.
type ConcOp struct {
	Op   string // align, format, row, header, grid, width, rune, cond, flood
	Str  int
	W    int
	Kind int
	N    int
	EA   bool
	V    bool
	C    bool
}

type ConcCase struct {
	Strs  []S
	Procs [][]ConcOp // one list per goroutine
}

func genConc(t *rapid.T) ConcCase {
	var c ConcCase
	n := genInt(t, "nstr", 1, 10)
	for i := 0; i < n; i++ {
		c.Strs = append(c.Strs, S(genCell(t, true)))
	}
	procs := genInt(t, "procs", 2, 6)
	flood := chance(t, "flood", 8)
	lut := chance(t, "lut", 1)
	for p := 0; p < procs; p++ {
		var ops []ConcOp
		for i, k := 0, genInt(t, "ops", 3, 25); i < k; i++ {
			op := ConcOp{
				Op:  pick(t, "op", []string{"align", "align", "align", "format", "format", "row", "header", "grid", "grid", "width", "rune", "cond", "basic", "tablewidth", "merge", "newtable", "newcond"}),
				Str: genInt(t, "str", 0, n-1), W: genInt(t, "w", 0, 60), Kind: genInt(t, "kind", alLeft, alCenter),
				N: genInt(t, "n", 0, 4), EA: rapid.Bool().Draw(t, "ea"), V: rapid.Bool().Draw(t, "v"), C: rapid.Bool().Draw(t, "c"),
			}
			ops = append(ops, op)
		}
		if lut {
			ops = append(ops, ConcOp{Op: "lut", Str: genInt(t, "str", 0, n-1), Kind: alLeft, EA: rapid.Bool().Draw(t, "ea"), V: rapid.Bool().Draw(t, "v")})
		}
		if flood {
			// enough distinct strings together to push others out of any cache
			ops = append(ops, ConcOp{Op: "flood", N: genInt(t, "floodn", 500, 4000), Kind: alLeft})
		}
		c.Procs = append(c.Procs, ops)
	}
	return c
}

// concState is what one goroutine owns.
type concState struct {
	tab   *table.Table
	rows  rowList
	width []int
	cond  *runewidth.Condition
}

// checkConc runs the case concurrently. Results are compared with the model;
// when they differ, what counts is whether the same operations one after the
// other, in a fresh process, agree with it.
func checkConc(c ConcCase) Outcome {
	o := runConc(c, false)
	if o.Err != "" {
		b, err := json.Marshal(c)
		must(err)
		if _, code := inFresh(string(b), "seq", modeName()); code == exitFail {
			return Outcome{NonTrivial: true, Classes: []string{"differs-sequentially-too"}}
		}
	}
	return o
}

func runConc(c ConcCase, seq bool) Outcome {
	if len(c.Procs) > 16 || len(c.Strs) == 0 {
		return Outcome{Skip: true}
	}
	strs := strs(c.Strs)
	for _, s := range strs {
		if !inDomain(s) {
			return Outcome{Skip: true}
		}
	}
	valid := true
	for _, ops := range c.Procs {
		for _, op := range ops {
			if op.Str < 0 || op.Str >= len(strs) || op.W < 0 || op.W > 65535 || op.Kind < alLeft || op.Kind > alCenter || op.N < 0 || op.N > 20000 {
				valid = false
			}
		}
	}
	if !valid {
		return Outcome{Skip: true}
	}
	// one read-only specification shared by all tables
	aligns := []int{alNone, alRight, alCenter}
	spec := table.NewTableSpec()
	for i, a := range aligns {
		spec.AddColumn(&table.Column{Name: fmt.Sprintf("c%d", i), Title: "Title " + strs[0], ShortTitle: "T", Getter: fixedGetter{i}, Alignment: libAlign(a)})
	}
	title := "Title " + strs[0]
	errs := make([]string, len(c.Procs))
	start := make(chan struct{})
	if seq {
		close(start)
	}
	var wg sync.WaitGroup
	for p := range c.Procs {
		wg.Add(1)
		run := func(p int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[p] = fmt.Sprintf("goroutine %d: panic: %v", p, r)
				}
			}()
			st := &concState{tab: table.NewTable(spec), width: make([]int, len(aligns)), cond: &runewidth.Condition{StrictEmojiNeutral: true}}
			<-start
			for i, op := range c.Procs[p] {
				if e := st.do(p, op, strs, aligns, title); e != "" {
					errs[p] = fmt.Sprintf("goroutine %d step %d (%+v): %s", p, i, op, e)
					return
				}
			}
		}
		if seq {
			run(p)
		} else {
			go run(p)
		}
	}
	if !seq {
		close(start)
	}
	wg.Wait()
	for _, e := range errs {
		if e != "" {
			return fail("%s", e)
		}
	}
	o := Outcome{NonTrivial: len(c.Procs) >= 2}
	o.Classes = append(o.Classes, fmt.Sprintf("goroutines%d", len(c.Procs)))
	for _, ops := range c.Procs {
		for _, op := range ops {
			if op.Op == "flood" {
				o.Classes = append(o.Classes, "flood")
				return o
			}
		}
	}
	return o
}

func (st *concState) do(p int, op ConcOp, strs []string, aligns []int, title string) string {
	s := strs[op.Str]
	switch op.Op {
	case "align":
		if got, want := libAlign(op.Kind)(s, uint16(op.W)), refAlign(op.Kind, s, op.W); got != want {
			return fmt.Sprintf("aligned to %s, want %s", short(got), short(want))
		}
	case "format":
		row := []string{s, strs[(op.Str+op.N)%len(strs)], fmt.Sprint(op.W)}
		got, err := st.tab.FormatItem(row)
		if err != nil || strings.Join(got, "\x00") != strings.Join(row, "\x00") {
			return fmt.Sprintf("formatted %q, error %v", got, err)
		}
		st.rows = append(st.rows, got)
		for i, x := range row {
			st.width[i] = max(st.width[i], refCell(x))
		}
	case "row":
		if len(st.rows) == 0 {
			return ""
		}
		row := st.rows[op.N%len(st.rows)]
		got, err := st.tab.AlignFormattedItem(append([]string(nil), row...))
		if err != nil {
			return err.Error()
		}
		for i := range row {
			want := row[i]
			if aligns[i] != alNone {
				want = refAlign(aligns[i], row[i], st.width[i])
			}
			if got[i] != want {
				return fmt.Sprintf("cell %d aligned to %s, want %s", i, short(got[i]), short(want))
			}
		}
	case "header":
		want := ""
		for _, w := range st.width {
			switch {
			case w == 0:
				want += title
			case refCell(title) <= w:
				want += refAlign(alCenter, title, w)
			default:
				want += refAlign(alCenter, "T", w)
			}
			want += "|"
		}
		if got := st.tab.FormatHeader("|"); got != want+"\n" {
			return fmt.Sprintf("header %s, want %s", short(got), short(want+"\n"))
		}
	case "grid":
		// the exact output for one item per line; otherwise that all lines fit
		var b bytes.Buffer
		renderTo(&b, st.tab, st.rows, op.W, "  ", op.C, op.V)
		inner := 2 + st.width[0] + st.width[1] + st.width[2]
		n := strings.Count(b.String(), "\n")
		gmax := max(1, (op.W+2)/(inner+2))
		want := ceilDiv(len(st.rows), gmax)
		if !op.C && n != want || n > want {
			return fmt.Sprintf("grid of %d items took %d lines, want %d", len(st.rows), n, want)
		}
		if !op.C && gmax == 1 {
			exp := ""
			for _, r := range st.rows {
				for i, x := range r {
					if i > 0 {
						exp += " "
					}
					exp += refAlign(aligns[i], x, st.width[i])
				}
				exp += "\n"
			}
			if b.String() != exp {
				return fmt.Sprintf("grid is %s, want %s", short(b.String()), short(exp))
			}
		}
	case "width":
		vis := refStrip(s)
		if got, want := runewidth.StringWidth(vis), refStringWidth(vis, modeEA, true); got != want {
			return fmt.Sprintf("width %d, want %d", got, want)
		}
	case "rune":
		for _, r := range s {
			if got, want := runewidth.DefaultCondition.RuneWidth(r), refRuneWidth(r, modeEA, true); got != want {
				return fmt.Sprintf("rune %U has width %d, want %d", r, got, want)
			}
		}
	case "cond":
		// settings of one's own
		*st.cond = runewidth.Condition{EastAsianWidth: op.EA, StrictEmojiNeutral: op.V}
		vis := refStrip(s)
		if got, want := st.cond.StringWidth(vis), refStringWidth(vis, op.EA, op.V); got != want {
			return fmt.Sprintf("own settings: width %d, want %d", got, want)
		}
	case "basic":
		row := []string{s, strs[(op.Str+op.N)%len(strs)], fmt.Sprint(op.W)}
		if got, err := st.tab.FormatItemBasic(row, "|"); err != nil || got != strings.Join(row, "|") {
			return fmt.Sprintf("plain row %s, error %v", short(got), err)
		}
	case "tablewidth":
		want := min(65535, op.W*2+st.width[0]+st.width[1]+st.width[2])
		if got := int(st.tab.TableWidth(uint16(op.W))); got != want {
			return fmt.Sprintf("table width %d, want %d", got, want)
		}
	case "merge":
		i := op.N % len(aligns)
		st.tab.UpdateWidth(map[string]uint16{fmt.Sprintf("c%d", i): uint16(op.W)})
		st.width[i] = max(st.width[i], op.W)
		for i, w := range st.width {
			if got := int(st.tab.Width(fmt.Sprintf("c%d", i))); got != w {
				return fmt.Sprintf("column %d has width %d, want %d", i, got, w)
			}
		}
	case "newtable":
		t := table.NewTable(nil)
		if op.V {
			t = table.NewTable(table.NewTableSpec())
		}
		for i := 0; i <= op.N; i++ {
			t.AddColumn(&table.Column{Name: fmt.Sprintf("n%d", i), Title: s, Getter: fixedGetter{i}, Alignment: libAlign(op.Kind)})
		}
		if t.ColumnCount() != op.N+1 || !t.HasColumn("n0") || t.HasColumn(fmt.Sprintf("n%d", op.N+1)) {
			return fmt.Sprintf("a new table with %d columns counts %d", op.N+1, t.ColumnCount())
		}
		row := make([]string, op.N+1)
		for i := range row {
			row[i] = strs[(op.Str+i)%len(strs)]
		}
		got, err := t.FormatItem(row)
		if err == nil {
			got, err = t.AlignFormattedItem(got)
		}
		if err != nil || strings.Join(got, "\x00") != strings.Join(row, "\x00") {
			return fmt.Sprintf("formatted %q on a new table, error %v", got, err)
		}
	case "newcond", "lut":
		c := runewidth.NewCondition()
		if c.EastAsianWidth != modeEA || !c.StrictEmojiNeutral {
			return fmt.Sprintf("new settings %+v", *c)
		}
		ea, strict := modeEA, true
		if op.Op == "lut" {
			ea, strict = op.EA, op.V
			c.EastAsianWidth, c.StrictEmojiNeutral = ea, strict
			c.CreateLUT()
		}
		for _, r := range s + "☆①❤" {
			if got, want := c.RuneWidth(r), refRuneWidth(r, ea, strict); got != want {
				return fmt.Sprintf("own new settings: rune %U has width %d, want %d", r, got, want)
			}
		}
	case "flood":
		for k := 0; k < op.N; k++ {
			x := fmt.Sprintf("%d-%d-世%d", p, k, op.N)
			if got, want := table.AlignmentLeft(x, 25), refAlign(alLeft, x, 25); got != want {
				return fmt.Sprintf("flood: %s aligned to %s", short(x), short(got))
			}
			if k%64 == 0 {
				if got, want := table.AlignmentLeft(s, 40), refAlign(alLeft, s, 40); got != want {
					return fmt.Sprintf("flood: %s aligned to %s", short(s), short(got))
				}
			}
		}
	default:
		return ""
	}
	return ""
}

var _ = register(&Prop{
	ID: "C15", Quick: 9000, Thorough: 400000, Race: true, Repeat: 60,
	Rule: "2 to 6 goroutines released together, each with its own table over one shared specification and a list of align/format/merge/render/measure/create operations on shared strings, under the race detector; 8% of cases flood the shared cache; results compared with the model; non-trivial: two or more goroutines",
}, genConc, checkConc)
