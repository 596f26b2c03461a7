// Package peer answers one request about the code under test. The same
// package is compiled into the checks and into programs for other platforms,
// whose answers are compared.
package peer

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"reflect"
	"strings"

	table "github.com/ilius/go-table"
	"github.com/ilius/go-table/runewidth"
	"github.com/ilius/go-table/runewidth/uniseg"
)

// ProbeText has ambiguous, wide, narrow and emoji characters.
const ProbeText = "☆①é世─❤\U0001F600½"

// Col is a column; Align is 0 none, 1 left, 2 right, 3 centred, 4 one of its own.
type Col struct {
	Name, Title []byte
	Align       int
}

type Request struct {
	Op       string     // grid, text, rune, runes (W of them)
	Cols     []Col      `json:",omitempty"`
	Rows     [][][]byte `json:",omitempty"`
	Upd      []int      `json:",omitempty"`
	W        int32
	Sep      []byte
	Compact  bool
	Vertical bool
	Text     []byte
	Rune     int32
	EA       bool
	Strict   bool
	LUT      bool
}

// Mode sets the settings of the process; it answers in these only.
func Mode(ea, lut bool) {
	runewidth.DefaultCondition.EastAsianWidth = ea
	runewidth.EastAsianWidth = ea
	if lut {
		runewidth.CreateLUT()
	}
}

// Settings come only in four kinds, created once: a lookup table is large.
var settings = map[[3]bool]*runewidth.Condition{}

func (r Request) condition() *runewidth.Condition {
	k := [3]bool{r.EA, r.Strict, r.LUT}
	c := settings[k]
	if c == nil {
		c = &runewidth.Condition{EastAsianWidth: r.EA, StrictEmojiNeutral: r.Strict}
		if r.LUT {
			c.CreateLUT()
		}
		settings[k] = c
	}
	return c
}

type cell struct{ i int }

func (g cell) Value(item any) (any, error)                    { return item.([]string)[g.i], nil }
func (g cell) ValueString(_ string, item any) (string, error) { return item.([]string)[g.i], nil }
func (g cell) Format(_ any, v any) (string, error)            { return v.(string), nil }

type list [][]string

func (l list) Len() int           { return len(l) }
func (l list) Get(i int) []string { return l[i] }

func alignment(kind int) table.Alignment {
	switch kind {
	case 1:
		return table.AlignmentLeft
	case 2:
		return table.AlignmentRight
	case 3:
		return table.AlignmentCenter
	case 4:
		return func(s string, w uint16) string { return fmt.Sprintf("<%d:%s>", w, s) }
	}
	return nil
}

// Answer computes everything the request is about, as one text.
func Answer(r Request) (out string) {
	defer func() {
		if e := recover(); e != nil {
			out = fmt.Sprintf("panic: %v", e)
		}
	}()
	switch r.Op {
	case "grid":
		return grid(r)
	case "text":
		return text(r)
	case "runes":
		c := r.condition()
		h := fnv.New64a()
		for x := r.Rune; x < r.Rune+r.W; x++ {
			fmt.Fprintln(h, c.RuneWidth(x))
		}
		return fmt.Sprint(h.Sum64())
	case "rune":
		c := r.condition()
		return fmt.Sprintf("width=%d default=%d", c.RuneWidth(r.Rune), runewidth.DefaultCondition.RuneWidth(r.Rune))
	}
	return "unknown operation"
}

func grid(r Request) string {
	spec := table.NewTableSpec()
	for i, c := range r.Cols {
		spec.AddColumn(&table.Column{Type: reflect.TypeOf(i), Name: string(c.Name), Title: string(c.Title), Getter: cell{i}, Alignment: alignment(c.Align)})
	}
	t := table.NewTable(spec)
	var b bytes.Buffer
	var rows list
	for _, src := range r.Rows {
		row := make([]string, len(src))
		for i := range src {
			row[i] = string(src[i])
		}
		f, err := t.FormatItem(row)
		if err != nil {
			return "error: " + err.Error()
		}
		rows = append(rows, f)
	}
	for i, u := range r.Upd {
		if u > 0 {
			t.UpdateWidth(map[string]uint16{string(r.Cols[i].Name): uint16(u)})
		}
	}
	sep := string(r.Sep)
	if r.Vertical {
		t.MergeRowsVertical(&b, rows, int(r.W), sep, r.Compact)
	} else {
		t.MergeRowsHorizontal(&b, rows, int(r.W), sep, r.Compact)
	}
	for i, row := range rows {
		if i < 3 {
			if a, err := t.AlignFormattedItem(row); err != nil {
				return "error: " + err.Error()
			} else {
				fmt.Fprintf(&b, "aligned=%q", a)
			}
			if one, err := t.FormatItemBasic([]string(row), sep); err != nil {
				return "error: " + err.Error()
			} else {
				fmt.Fprintf(&b, " row=%q\n", one)
			}
		}
	}
	fmt.Fprintf(&b, "header=%q", t.FormatHeader(sep))
	for _, c := range r.Cols {
		fmt.Fprintf(&b, " width=%d", t.Width(string(c.Name)))
	}
	fmt.Fprintf(&b, " tablewidth=%d", t.TableWidth(uint16(len(sep))))
	return b.String()
}

func text(r Request) string {
	var b strings.Builder
	s := string(r.Text)
	c := r.condition()
	fmt.Fprintf(&b, "string=%d default=%d", c.StringWidth(s), runewidth.StringWidth(s))
	g := uniseg.NewGraphemes(s)
	for g.Next() {
		fmt.Fprintf(&b, " %U", g.Runes())
	}
	for _, chained := range []bool{true, false} {
		state, rest := -1, s
		for n := 0; len(rest) > 0 && n <= len(s); n++ {
			var cl string
			var bounds int
			cl, rest, bounds, state = uniseg.StepString(rest, state)
			fmt.Fprintf(&b, " %d/%d", len(cl), bounds>>uniseg.ShiftWidth)
			if !chained {
				state = -1
			}
		}
	}
	w := uint16(r.W)
	fmt.Fprintf(&b, " left=%q right=%q centre=%q", table.AlignmentLeft(s, w), table.AlignmentRight(s, w), table.AlignmentCenter(s, w))
	return b.String()
}
