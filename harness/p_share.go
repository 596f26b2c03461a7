package main

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	table "github.com/ilius/go-table"
	"github.com/ilius/go-table/runewidth"
	"pgregory.net/rapid"
)

// ---- C31 -----------------------------------------------------------------

// ShareOp is one rendering of the shared table.
type ShareOp struct {
	Op       string // header, tablewidth, width, grid, row, basic
	W        int
	Sep      S
	Compact  bool
	Vertical bool
	Row      int
}

type ShareCase struct {
	G     GridCase
	Procs [][]ShareOp
}

func (g *grid) shareOp(t *table.Table, op ShareOp) string {
	switch op.Op {
	case "header":
		return t.FormatHeader(string(op.Sep))
	case "tablewidth":
		return fmt.Sprint(t.TableWidth(uint16(op.W)))
	case "width":
		s := fmt.Sprint(t.ColumnCount())
		for _, c := range g.c.Cols {
			s += fmt.Sprint(" ", t.Width(string(c.Name)), t.HasColumn(string(c.Name)))
		}
		return s
	case "row", "basic":
		if g.n == 0 {
			return ""
		}
		row := append([]string(nil), g.rows[op.Row%g.n]...)
		if op.Op == "basic" {
			s, err := t.FormatItemBasic(row, string(op.Sep))
			return fmt.Sprint(s, err)
		}
		out, err := t.AlignFormattedItem(row)
		return fmt.Sprintf("%q %v", out, err)
	}
	var b bytes.Buffer
	renderTo(&b, t, g.rows, op.W, string(op.Sep), op.Compact, op.Vertical)
	return b.String()
}

func checkShare(c ShareCase) Outcome {
	g, ok := c.G.build()
	if !ok || len(c.Procs) < 2 || len(c.Procs) > 16 || g.n > 300 {
		return Outcome{Skip: true}
	}
	want := make([][]string, len(c.Procs))
	for p, ops := range c.Procs {
		for _, op := range ops {
			if op.W < 0 || op.W > 65535 || op.Row < 0 || !inDomain(string(op.Sep)) {
				return Outcome{Skip: true}
			}
			want[p] = append(want[p], g.shareOp(g.fresh(), op))
		}
	}
	tab := g.fresh()
	errs := make([]string, len(c.Procs))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for p := range c.Procs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[p] = fmt.Sprintf("goroutine %d: panic: %v", p, r)
				}
			}()
			<-start
			for i, op := range c.Procs[p] {
				if got := g.shareOp(tab, op); got != want[p][i] {
					errs[p] = fmt.Sprintf("goroutine %d step %d (%+v): %s, alone it gives %s", p, i, op, short(got), short(want[p][i]))
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, e := range errs {
		if e != "" {
			return fail("%s", e)
		}
	}
	return Outcome{NonTrivial: g.n > 0 && len(c.G.Cols) > 0, Classes: []string{fmt.Sprintf("goroutines%d", len(c.Procs))}}
}

var _ = register(&Prop{
	ID: "C31", Quick: 12000, Thorough: 300000, Race: true, Repeat: 60,
	Rule: "one table with its rows, 2 to 6 goroutines released together that only render it (headers, widths, aligned rows, grids), under the race detector, each result compared with that of the call on a table of its own; non-trivial: the table has columns and rows",
}, func(t *rapid.T) ShareCase {
	c := ShareCase{G: genGrid(t, gridOpts{cell: plainCell, maxAlign: nAl - 1})}
	c.G.Auto = 0
	for p, n := 0, genInt(t, "procs", 2, 6); p < n; p++ {
		ops := []ShareOp{}
		for i, k := 0, genInt(t, "ops", 1, 6); i < k; i++ {
			op := ShareOp{Op: pick(t, "op", []string{"header", "tablewidth", "width", "grid", "grid", "grid", "row", "basic"}),
				Sep: S(pick(t, "sep", []string{" ", "", "|", " | ", "│"})), Compact: rapid.Bool().Draw(t, "compact"), Vertical: rapid.Bool().Draw(t, "vertical"), Row: genInt(t, "row", 0, 30)}
			if op.Op == "grid" {
				op.W = max(0, min(65535, genGridWidth(t, c.G)))
			} else {
				op.W = genInt(t, "w", 0, 8)
			}
			ops = append(ops, op)
		}
		c.Procs = append(c.Procs, ops)
	}
	return c
}, checkShare)

// ---- C32 -----------------------------------------------------------------

// ReleaseCase builds tables, uses them and lets go of them.
type ReleaseCase struct {
	Tables int
	Cols   []ColSpec
	Rows   [][]S
	Ops    []ShareOp // also: fail (a writer that fails), merge, getter (one that fails)
	Conds  int       // settings objects
	LUT    bool
	Keep   []bool // per table: its rows outlive it
	Shared bool   // one specification for all tables
}

// tracked counts the objects that have not been collected yet.
type tracker struct{ live, made atomic.Int64 }

func track[T any](tr *tracker, p *T) *T {
	tr.live.Add(1)
	tr.made.Add(1)
	runtime.SetFinalizer(p, func(*T) { tr.live.Add(-1) })
	return p
}

// These are larger than what the allocator packs together, so that each can
// be collected on its own.
type heldGetter struct {
	i    int
	fail *bool
	pad  [4]*int
}

// heldError is what they fail with; it refers to what failed, as errors do.
type heldError struct {
	by, item any
	pad      [4]*int
}

func (e *heldError) Error() string { return "held" }

func (g *heldGetter) Value(item any) (any, error) {
	it := item.(*heldItem)
	if *g.fail && g.i == len(it.cells)-1 {
		return nil, &heldError{by: g, item: item}
	}
	return it.cells[g.i], nil
}
func (g *heldGetter) ValueString(_ string, item any) (string, error) {
	v, err := g.Value(item)
	s, _ := v.(string)
	return s, err
}
func (g *heldGetter) Format(_ any, v any) (string, error) { return v.(string), nil }

type heldItem struct {
	cells []string
	pad   [4]*int
}

type heldList struct {
	rows [][]string
	pad  [4]*int
}

func (l *heldList) Len() int           { return len(l.rows) }
func (l *heldList) Get(i int) []string { return l.rows[i] }

type heldWriter struct {
	n    int
	fail bool
	pad  [4]*int
}

func (w *heldWriter) Write(p []byte) (int, error) {
	if w.fail {
		return 0, &heldError{by: w}
	}
	w.n += len(p)
	return len(p), nil
}

type heldAlign struct {
	n   int
	pad [4]*int
}

func (a *heldAlign) align(s string, w uint16) string {
	a.n++
	return table.AlignmentRight(s, w)
}

//go:noinline
func (c ReleaseCase) use(tr *tracker, k int, shared *table.TableSpec) [][]string {
	failing := false
	spec := shared
	if spec == nil {
		spec = track(tr, table.NewTableSpec())
		for i, x := range c.Cols {
			a := track(tr, &heldAlign{})
			col := track(tr, &table.Column{Name: string(x.Name), Title: string(x.Name), ShortTitle: "s", Getter: track(tr, &heldGetter{i: i, fail: &failing}), Alignment: a.align})
			spec.AddColumn(col)
		}
	}
	t := track(tr, table.NewTable(spec))
	l := track(tr, &heldList{})
	for _, r := range c.Rows {
		it := track(tr, &heldItem{cells: strs(r)})
		row, err := t.FormatItem(it)
		if err != nil {
			panic(err)
		}
		l.rows = append(l.rows, row)
	}
	for _, op := range c.Ops {
		it := track(tr, &heldItem{cells: make([]string, len(c.Cols))})
		switch op.Op {
		case "header":
			t.FormatHeader(string(op.Sep))
		case "tablewidth":
			t.TableWidth(uint16(op.W))
		case "row":
			if len(l.rows) > 0 {
				t.AlignFormattedItem(l.rows[op.Row%len(l.rows)])
			}
		case "basic":
			t.FormatItemBasic(it, string(op.Sep))
		case "getter":
			failing = shared == nil
			t.FormatItem(it)
			t.FormatItemBasic(it, string(op.Sep))
			failing = false
		case "merge":
			if len(c.Cols) > 0 {
				t.UpdateWidth(map[string]uint16{string(c.Cols[0].Name): uint16(op.W)})
			}
		default:
			w := track(tr, &heldWriter{fail: op.Op == "fail"})
			func() {
				defer func() {
					r := recover()
					if _, held := r.(*heldError); r != nil && !held {
						panic(r)
					}
				}()
				var out io.Writer = w
				renderTo(out, t, l, op.W, string(op.Sep), op.Compact, op.Vertical)
			}()
		}
	}
	for i := 0; i < c.Conds; i++ {
		d := track(tr, runewidth.NewCondition())
		if c.LUT && i == 0 {
			d.CreateLUT()
		}
		d.StringWidth("☆世")
	}
	if c.Keep[k] {
		return l.rows
	}
	return nil
}

func checkRelease(c ReleaseCase) Outcome {
	if c.Tables < 0 || c.Tables > 20 || len(c.Keep) != c.Tables || c.Conds < 0 || c.Conds > 20 {
		return Outcome{Skip: true}
	}
	for _, r := range c.Rows {
		if len(r) != len(c.Cols) {
			return Outcome{Skip: true}
		}
		for _, s := range r {
			if !inDomain(string(s)) {
				return Outcome{Skip: true}
			}
		}
	}
	for _, op := range c.Ops {
		if op.W < 0 || op.W > 65535 || op.Row < 0 || !inDomain(string(op.Sep)) {
			return Outcome{Skip: true}
		}
	}
	tr := &tracker{}
	var kept [][][]string
	var shared *table.TableSpec
	if c.Shared { // not tracked, and kept until the end
		shared = table.NewTableSpec()
		no := false
		for i, x := range c.Cols {
			shared.AddColumn(&table.Column{Name: string(x.Name), Title: string(x.Name), Getter: &heldGetter{i: i, fail: &no}, Alignment: libAlign(alCenter)})
		}
	}
	// in a goroutine of its own, so that no stack frame still refers to anything
	done := make(chan any)
	go func() {
		defer func() { done <- recover() }()
		for k := 0; k < c.Tables; k++ {
			kept = append(kept, c.use(tr, k, shared))
		}
	}()
	if r := <-done; r != nil {
		panic(r)
	}
	// what a pool keeps goes after two collections; finalizers run in the background
	for i := 0; i < 60 && tr.live.Load() > 0; i++ {
		runtime.GC()
		if i > 2 {
			time.Sleep(time.Duration(i) * time.Millisecond)
		}
	}
	live := tr.live.Load()
	runtime.KeepAlive(kept)
	runtime.KeepAlive(shared)
	if live > 0 {
		return fail("%d of %d objects (tables, specifications, columns, getters, alignments, items, lists, writers, settings) are still kept after the last use", live, tr.made.Load())
	}
	return Outcome{NonTrivial: c.Tables > 0 && (len(c.Rows) > 0 || len(c.Ops) > 0)}
}

var _ = register(&Prop{
	ID: "C32", Quick: 6000, Thorough: 100000,
	Rule: "tables with getters, alignments, items, lists, writers and settings objects built, used (also with failing getters and writers) and dropped; a finalizer on each object tells when it is collected; non-trivial: something was formatted or rendered",
}, func(t *rapid.T) ReleaseCase {
	c := ReleaseCase{Tables: genInt(t, "tables", 1, 3), Cols: genCols(t, 0, 4, alCenter), Shared: chance(t, "shared", 25)}
	if len(c.Cols) > 5 {
		c.Cols = c.Cols[:5]
	}
	for i, n := 0, genInt(t, "rows", 0, 6); i < n; i++ {
		row := []S{}
		for j := range c.Cols {
			row = append(row, S(plainCell(t, i, j)))
		}
		c.Rows = append(c.Rows, row)
	}
	for i, n := 0, genInt(t, "ops", 0, 6); i < n; i++ {
		c.Ops = append(c.Ops, ShareOp{Op: pick(t, "op", []string{"header", "tablewidth", "row", "basic", "grid", "grid", "grid", "fail", "merge", "getter"}),
			W: genInt(t, "w", 0, 60), Sep: S(pick(t, "sep", []string{" ", "", "|", strings.Repeat("-", 20)})), Compact: rapid.Bool().Draw(t, "compact"), Vertical: rapid.Bool().Draw(t, "vertical"), Row: genInt(t, "row", 0, 6)})
	}
	if chance(t, "conds", 20) {
		c.Conds = genInt(t, "nconds", 1, 2)
		c.LUT = chance(t, "lut", 10)
	}
	for i := 0; i < c.Tables; i++ {
		c.Keep = append(c.Keep, chance(t, "keep", 30))
	}
	return c
}, checkRelease)
