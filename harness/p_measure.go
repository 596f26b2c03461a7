package main

import (
	"fmt"
	"hash/fnv"
	"io"
	"runtime"
	"strconv"
	"strings"
	"time"

	table "github.com/ilius/go-table"
	"github.com/ilius/go-table/runewidth"
	"pgregory.net/rapid"
)

// fixedGetter formats an item that is a []string by position.
type fixedGetter struct{ col int }

func (g fixedGetter) Value(item any) (any, error) { return item.([]string)[g.col], nil }
func (g fixedGetter) ValueString(_ string, item any) (string, error) {
	return item.([]string)[g.col], nil
}
func (g fixedGetter) Format(_ any, v any) (string, error) { return v.(string), nil }

// measure observes the width the library attributes to s, through the API.
func measure(s string) int {
	spec := table.NewTableSpec()
	spec.AddColumn(&table.Column{Name: "c", Getter: fixedGetter{0}})
	t := table.NewTable(spec)
	if _, err := t.FormatItem([]string{s}); err != nil {
		panic(err)
	}
	return int(t.Width("c"))
}

func libAlign(kind int) table.Alignment {
	switch kind {
	case alLeft:
		return table.AlignmentLeft
	case alRight:
		return table.AlignmentRight
	case alCenter:
		return table.AlignmentCenter
	case alDots, alBars, alCaps:
		return func(s string, w uint16) string { return refAlign(kind, s, int(w)) }
	}
	return nil
}

// ---- C01 -----------------------------------------------------------------

type AlignCase struct {
	Str    S
	Repeat int // Str repeated, for very wide texts
	Width  int
	Kind   int
}

func genAlign(t *rapid.T) AlignCase {
	c := AlignCase{Kind: genInt(t, "kind", alLeft, alCenter), Repeat: 1}
	switch genInt(t, "strkind", 0, 3) {
	case 0:
		c.Str = S(genText(t, 6, true))
	case 1, 2:
		c.Str = S(genCell(t, true))
	case 3:
		var b strings.Builder
		for i, n := 0, genInt(t, "runes", 0, 12); i < n; i++ {
			b.WriteRune(genRune(t))
		}
		c.Str = S(b.String())
	}
	if chance(t, "huge", 1) {
		c.Repeat = genInt(t, "repeat", 2, 30000)
	} else if chance(t, "longer", 2) {
		c.Repeat = genCount(t)
	}
	w := refCell(strings.Repeat(string(c.Str), c.Repeat))
	switch genInt(t, "widthkind", 0, 9) {
	case 0:
		c.Width = w
	case 1:
		c.Width = w - 1
	case 2, 3, 4, 5:
		c.Width = w + genInt(t, "more", 1, 12)
	case 6:
		c.Width = genInt(t, "small", 0, 4)
	case 7, 8:
		c.Width = genInt(t, "mid", 0, 200)
	default:
		c.Width = genInt(t, "large", 0, 65535)
		if rapid.Bool().Draw(t, "special") {
			c.Width = pick(t, "specialwidth", []int{63, 64, 65, 80, 100, 127, 128, 255, 256, 257, 999, 1000, 1023, 1024, 4096, 10000, 32766, 32767, 32768, 65534, 65535})
		}
	}
	c.Width = max(0, min(65535, c.Width))
	return c
}

func checkAlign(c AlignCase) Outcome {
	if c.Kind < alLeft || c.Kind > alCenter || c.Width < 0 || c.Width > 65535 || c.Repeat < 0 || c.Repeat > 70000 || len(c.Str)*c.Repeat > 2<<20 {
		return Outcome{Skip: true}
	}
	s := strings.Repeat(string(c.Str), c.Repeat)
	if !wellFormed(s) {
		return Outcome{Skip: true}
	}
	w := refCell(s)
	got := libAlign(c.Kind)(s, uint16(c.Width))
	if want := refAlign(c.Kind, s, c.Width); got != want {
		return fail("align kind %d of %s (displayed width %d) to %d: got %s, want %s", c.Kind, short(s), w, c.Width, short(got), short(want))
	}
	if len(s) < 5000 {
		// what was returned stays as it is when others of the same size follow
		var kept keptTexts
		kept.add(got)
		other := strings.Map(func(r rune) rune {
			if r > ' ' && r < 0x7f {
				return 'o'
			}
			return r
		}, s)
		for k := alLeft; k <= alCenter; k++ {
			kept.add(libAlign(k)(other, uint16(c.Width)))
		}
		if m := kept.changed(); m != "" {
			return fail("%s", m)
		}
	}
	o := Outcome{NonTrivial: c.Width > w && s != ""}
	switch {
	case c.Width > w:
		o.Classes = append(o.Classes, "pads")
	case c.Width == w:
		o.Classes = append(o.Classes, "exact")
	default:
		o.Classes = append(o.Classes, "over")
	}
	if hasEscape(s) {
		o.Classes = append(o.Classes, "escapes")
	}
	if !isASCII(s) {
		o.Classes = append(o.Classes, "non-ascii")
	}
	if (c.Width-w)%2 != 0 && c.Kind == alCenter && c.Width > w {
		o.Classes = append(o.Classes, "odd-centre")
	}
	return o
}

func short(s string) string {
	if len(s) > 400 {
		return fmt.Sprintf("%+q...(%d bytes)", s[:400], len(s))
	}
	return fmt.Sprintf("%+q", s)
}

var _ = register(&Prop{
	ID: "C01", Quick: 160000, Thorough: 12000000,
	Rule: "text x target width x alignment drawn by rapid; non-trivial: non-empty text that needs padding",
}, genAlign, checkAlign)

// ---- C02 -----------------------------------------------------------------

type Seg struct {
	Esc bool
	S   S
	N   int // repetitions of S (text only)
}

type WidthCase struct{ Segs []Seg }

func genWidth(t *rapid.T) WidthCase {
	var c WidthCase
	n := genInt(t, "segs", 0, 8)
	for i := 0; i < n; i++ {
		if rapid.Bool().Draw(t, "esc") {
			c.Segs = append(c.Segs, Seg{Esc: true, S: S(genEscape(t)), N: 1})
		} else {
			s := ""
			if rapid.Bool().Draw(t, "single") {
				s = string(genRune(t))
			} else {
				s = genText(t, 3, true)
			}
			c.Segs = append(c.Segs, Seg{S: S(s), N: 1})
		}
	}
	if chance(t, "many", 1) { // many sequences, or one after much text
		more := genInt(t, "more", 1, 60)
		if chance(t, "verymany", 5) {
			more = pick(t, "verymore", []int{100, 129, 257, 300})
		}
		for i, k := 0, more; i < k; i++ {
			c.Segs = append(c.Segs, Seg{Esc: true, S: S(genEscape(t)), N: 1}, Seg{S: S(genWord(t)), N: 1})
			if i == 0 {
				c.Segs = append(c.Segs, Seg{S: S(pick(t, "unit", longUnits)), N: genCount(t)})
			}
		}
	}
	if n > 0 && chance(t, "wide", 2) {
		i := genInt(t, "which", 0, n-1)
		if !c.Segs[i].Esc {
			w := max(1, refCell(string(c.Segs[i].S)))
			k := pick(t, "times", []int{65535, 65535, 65535, 65535, 65535, 65535, 65535, 131071, 196607, 262143}) / w
			c.Segs[i].N = max(1, k+genInt(t, "around", -3, 5000))
			if len(c.Segs[i].S)*c.Segs[i].N > 1<<20 {
				c.Segs[i].N = 1
			}
		}
	}
	return c
}

func checkWidth(c WidthCase) Outcome {
	full, vis := "", ""
	nesc := 0
	for _, s := range c.Segs {
		if s.N < 0 || s.N > 300000 || len(s.S)*s.N > 2<<20 {
			return Outcome{Skip: true}
		}
		str := string(s.S)
		if s.Esc {
			if refStrip(str) != "" || str == "" || s.N != 1 || !wellFormed(str) {
				return Outcome{Skip: true}
			}
			nesc++
		} else {
			if strings.ContainsAny(str, "\x1b\u009b") {
				return Outcome{Skip: true}
			}
			str = strings.Repeat(str, s.N)
			vis += str
		}
		full += str
	}
	want := min(65535, refStringWidth(vis, modeEA, true))
	if got := measure(full); got != want {
		return fail("%s is attributed width %d; its visible text %s occupies %d cells", short(full), got, short(vis), want)
	}
	if got := measure(vis); got != want {
		return fail("visible text %s is attributed width %d, occupies %d cells", short(vis), got, want)
	}
	if want < 60000 {
		a := table.AlignmentRight(full, uint16(want+5))
		if a != spaces(5)+full {
			return fail("aligning %s (visible width %d) to %d gave %s", short(full), want, want+5, short(a))
		}
	}
	o := Outcome{NonTrivial: nesc > 0 && want > 0}
	if nesc > 0 {
		o.Classes = append(o.Classes, "escapes")
	}
	if strings.Contains(full, "\u009b") {
		o.Classes = append(o.Classes, "c1-csi")
	}
	if want == 65535 {
		o.Classes = append(o.Classes, "saturated")
	}
	if !isASCII(vis) {
		o.Classes = append(o.Classes, "non-ascii")
	}
	return o
}

var _ = register(&Prop{
	ID: "C02", Quick: 500000, Thorough: 8000000,
	Rule: "text pieces and escape sequences interleaved (sequence positions arbitrary, also inside grapheme clusters); 2% of cases around 65535 cells; non-trivial: at least one sequence and visible width > 0",
}, genWidth, checkWidth)

// ---- C03 -----------------------------------------------------------------

type HistOp struct {
	Op string // measure, derive (a variation of a string measured before), collide (two strings with equal hashes), pool, flood, set, swap (other default settings object)
	S  S
	N  int
	EA bool
	St bool
}

type HistCase struct{ Ops []HistOp }

const nDerive = 15

func genHist(t *rapid.T) HistCase {
	var c HistCase
	n := genInt(t, "ops", 1, 14)
	floods := 0
	for i := 0; i < n; i++ {
		switch genInt(t, "op", 0, 9) {
		case 0, 1, 2, 3, 4:
			if rapid.Bool().Draw(t, "derive") {
				c.Ops = append(c.Ops, HistOp{Op: "derive", N: genInt(t, "base", 0, 20)*nDerive + genInt(t, "how", 0, nDerive-1),
					S: S(pick(t, "piece", []string{" ", "  ", "x", "\u0301", "\u200d", "\ufe0f", "☆", "世", "\x1b[0m", "\t", "\u1161", "🇯", "👩"}))})
			} else {
				s := genCell(t, true)
				if chance(t, "longbase", 10) {
					s += strings.Repeat(pick(t, "unit", longUnits), genCount(t)) + genWord(t)
				}
				c.Ops = append(c.Ops, HistOp{Op: "measure", S: S(s)})
			}
		case 5:
			c.Ops = append(c.Ops, HistOp{Op: "collide", N: genInt(t, "pair", 0, len(collisions)-1), EA: rapid.Bool().Draw(t, "swapped")})
		case 6:
			c.Ops = append(c.Ops, HistOp{Op: "pool", N: genInt(t, "times", 1, 3)})
		case 7:
			if floods < 2 && chance(t, "reallyflood", 30) {
				floods++
				c.Ops = append(c.Ops, HistOp{Op: "flood", N: genInt(t, "n", 9000, 13000)})
			} else {
				c.Ops = append(c.Ops, HistOp{Op: "flood", N: genInt(t, "n", 1, 50)})
			}
		default:
			c.Ops = append(c.Ops, HistOp{Op: pick(t, "how", []string{"set", "set", "set", "swap"}), EA: rapid.Bool().Draw(t, "ea"), St: rapid.Bool().Draw(t, "strict")})
		}
	}
	return c
}

// collisions are pairs of different width that common 32-bit hashes, or sums
// of bytes times powers of 31 or 33, cannot tell apart.
var collisions = [][2]string{
	{"e2tc911", "2gxl世"}, {"7ktoav5", "algt世"}, // CRC-32
	{"h4m4ogo", "5s6o世"}, {"3w2dp3b", "50py世"}, // CRC-32C
	{"g2dhvi2", "7jmt世"}, {"ku5kkra", "paix世"}, // FNV-1
	{"98rlxak", "rolj世"}, {"p6ffjdu", "mw78世"}, // FNV-1a
	{"7hhyqnr", "a338世"}, {"japlww5", "rnp8世"}, {"bvqsziv", "swc8世"}, // low half of 64-bit FNV-1, FNV-1a
	{"jsdph77", "jsdp世"}, {"5c3v8sr", "5c36世"}, // low half of CRC-64
	{"ywwrytji", "f0b世96"}, {"vfyiebll", "g10世30"}, // Adler-32
	{"e1cobwu", "csck世"}, {"70dl9cn", "ezl6世"}, {"aé", "dbg"}, {"aé", "dhk"}, // times 33, times 31
}

// derive makes a string that a careless memory of widths could confuse with base.
func derive(base, piece string, how int) string {
	rs := []rune(base)
	switch how {
	case 0, 1, 2:
		return base + piece
	case 3:
		return piece + base
	case 4:
		if len(rs) > 0 {
			return string(rs[:len(rs)-1])
		}
	case 5:
		if len(rs) > 0 {
			return string(rs[1:])
		}
	case 6:
		return strings.ToUpper(base)
	case 7: // same length and ends
		b := []byte(base)
		for i := len(b) / 3; i < len(b)*2/3; i++ {
			if b[i] < 0x80 && b[i] >= 'a' {
				b[i] = 0x01
			}
		}
		return string(b)
	case 8:
		return strings.TrimSpace(base)
	case 9:
		return base + base
	case 10: // the same characters
		for i, j := 0, len(rs)-1; i < j; i, j = i+1, j-1 {
			rs[i], rs[j] = rs[j], rs[i]
		}
		return string(rs)
	case 11: // same length and ends, one byte in the middle differs
		b := []byte(base)
		for i := len(b) / 2; i < len(b); i++ {
			if b[i] < 0x80 && b[i] >= 'a' {
				b[i] = 0x01
				break
			}
		}
		return string(b)
	case 12: // bytes changed evenly
		b := []byte(base)
		for i := range b {
			if i%16 == 7 && b[i] < 0x80 && b[i] >= 'a' {
				b[i] = 0x01
			}
		}
		return string(b)
	case 13:
		return base + "\x00"
	case 14:
		return strings.Map(func(r rune) rune { return r &^ 0x80 }, base)
	}
	return base + piece
}

func checkHist(c HistCase) Outcome {
	d := runewidth.DefaultCondition
	ea0, st0 := d.EastAsianWidth, d.StrictEmojiNeutral
	defer func(d *runewidth.Condition) {
		runewidth.DefaultCondition = d
		d.EastAsianWidth, d.StrictEmojiNeutral = ea0, st0
	}(d)
	d.EastAsianWidth, d.StrictEmojiNeutral = modeEA, true
	var o Outcome
	// strings of this case alone, so that a failure does not hinge on earlier cases
	h := fnv.New32a()
	fmt.Fprint(h, c.Ops)
	salt := fmt.Sprintf("%x", h.Sum32())
	pool := []string{"", "\x1b[0m", "\u200b", "☆" + salt, salt, "①b" + salt, "\x1b[1m☆é\x1b[0m" + salt}
	// The model says what to expect; when the library disagrees, what counts is
	// whether a fresh process agrees with it.
	fresh := func(s string) int {
		out, code := inFresh(s, "fresh", modeName(), fmt.Sprint(d.EastAsianWidth), fmt.Sprint(d.StrictEmojiNeutral))
		n, err := strconv.Atoi(out)
		if code != 0 || err != nil {
			return -1
		}
		return n
	}
	meas := func(s string, step int) string {
		want := refCellWith(s, d.EastAsianWidth, d.StrictEmojiNeutral)
		got := measure(s)
		if got != want {
			want = fresh(s)
		}
		if got != want {
			return fmt.Sprintf("step %d: %s measured %d, in a fresh process %d (east-asian %v, strict emoji %v)", step, short(s), got, want, d.EastAsianWidth, d.StrictEmojiNeutral)
		}
		// second observation point, and the repeat is served from memory
		if w := want + 3; w <= 65535 {
			if a := table.AlignmentLeft(s, uint16(w)); a != s+"   " {
				return fmt.Sprintf("step %d: aligning %s to %d gave %s", step, short(s), w, short(a))
			}
		}
		return ""
	}
	flooded, repeated, changed, derived := false, false, false, false
	for i, op := range c.Ops {
		switch op.Op {
		case "measure":
			if !wellFormed(string(op.S)) {
				return Outcome{Skip: true}
			}
			pool = append(pool, string(op.S))
			if e := meas(string(op.S), i); e != "" {
				return fail("%s", e)
			}
		case "derive":
			if op.N < 0 {
				return Outcome{Skip: true}
			}
			base := pool[len(pool)-1-(op.N/nDerive)%len(pool)]
			s := derive(base, string(op.S), op.N%nDerive)
			if !wellFormed(s) {
				continue
			}
			// the base just before and just after, so that either can be taken for the other
			for _, x := range []string{base, s, base} {
				if e := meas(x, i); e != "" {
					return fail("%s", e)
				}
			}
			pool = append(pool, s)
			derived = true
		case "collide":
			if op.N < 0 || op.N >= len(collisions) {
				return Outcome{Skip: true}
			}
			a, b := collisions[op.N][0], collisions[op.N][1]
			if op.EA {
				a, b = b, a
			}
			// other strings may be between them by now
			for _, x := range []string{a, b, a} {
				if e := meas(x, i); e != "" {
					return fail("%s", e)
				}
			}
			pool = append(pool, a, b)
			derived = true
		case "pool":
			if op.N < 0 || op.N > 100 {
				return Outcome{Skip: true}
			}
			for k := 0; k < op.N; k++ {
				for j := range pool {
					s := pool[j]
					if k%2 == 1 {
						s = pool[len(pool)-1-j]
					}
					if e := meas(s, i); e != "" {
						return fail("%s", e)
					}
				}
			}
			repeated = true
		case "flood":
			if op.N < 0 || op.N > 100000 {
				return Outcome{Skip: true}
			}
			for k := 0; k < op.N; k++ {
				s := fmt.Sprintf("%s%dさ%d", salt, i, k)
				if k%3 == 0 {
					s = fmt.Sprintf("%d☆%d%s", k, i, salt)
				}
				want := refCellWith(s, d.EastAsianWidth, d.StrictEmojiNeutral)
				if got := measure(s); got != want && got != fresh(s) {
					return fail("step %d: flood string %s measured %d, want %d", i, short(s), got, want)
				}
			}
			flooded = flooded || op.N > 10000
		case "set":
			if d.EastAsianWidth != op.EA || d.StrictEmojiNeutral != op.St {
				changed = true
			}
			d.EastAsianWidth, d.StrictEmojiNeutral = op.EA, op.St
		case "swap":
			if d.EastAsianWidth != op.EA || d.StrictEmojiNeutral != op.St {
				changed = true
			}
			d = &runewidth.Condition{EastAsianWidth: op.EA, StrictEmojiNeutral: op.St}
			runewidth.DefaultCondition = d
		default:
			return Outcome{Skip: true}
		}
	}
	for _, s := range pool {
		if e := meas(s, len(c.Ops)); e != "" {
			return fail("%s", e)
		}
	}
	o.NonTrivial = repeated || flooded || changed || derived
	if derived {
		o.Classes = append(o.Classes, "derived")
	}
	if flooded {
		o.Classes = append(o.Classes, "flood>10000")
	}
	if repeated {
		o.Classes = append(o.Classes, "repeats")
	}
	if changed {
		o.Classes = append(o.Classes, "settings-changed")
	}
	return o
}

var _ = register(&Prop{
	ID: "C03", Quick: 40000, Thorough: 300000, Modes: []string{"ea0", "ea1"},
	Rule: "histories of measure/measure-a-variation/re-measure/flood/change-settings operations; non-trivial: strings measured again after others, a flood past 10000 strings, or after a settings change",
}, genHist, checkHist)

// ---- C25 -----------------------------------------------------------------

type MemCase struct {
	Len  int // bytes per string
	Via  int // 0 left, 1 right, 2 centre alignment, 3 formatting, 4 header, 5 a table per string, 6 a grid per string, 7 width of the string, 8 with the settings changing
	Salt int
	Kind int // 0 ASCII, 1 wide, 2 nothing but escape sequences, 3 nothing but zero-width characters, 4 coloured, 5 not UTF-8, 6 combining
}

// memText makes the i-th distinct string of a kind.
func memText(c MemCase, pad string, i int) string {
	switch c.Kind {
	case 2:
		return fmt.Sprintf("\x1b[%d;%d;%dm%s", c.Salt%1000, i/1000, i%1000, pad)
	case 3:
		digits := []rune("\u200b\u200c\u2060\u0301")
		var b strings.Builder
		for _, x := range []int{c.Salt & 0xffff, i} {
			for k := 0; k < 20; k += 2 {
				b.WriteRune(digits[x>>k&3])
			}
		}
		return b.String() + pad
	case 4:
		return fmt.Sprintf("\x1b[1m%d/%d%s", c.Salt, i, pad)
	}
	return fmt.Sprintf("%d/%d/%s", c.Salt, i, pad)
}

func heapInUse() uint64 {
	runtime.GC()
	runtime.GC()
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.HeapAlloc
}

func checkMem(c MemCase) Outcome {
	if c.Len < 0 || c.Len > 4000 || c.Via < 0 || c.Via > 8 || c.Kind < 0 || c.Kind > 6 {
		return Outcome{Skip: true}
	}
	const flushN, batch = 11000, 4000
	suspect := false
	unit := []string{"x", "世", "\x1b[1m", "\u200b", "x\x1b[0m", "\xff", "\u0301"}[c.Kind]
	pad := strings.Repeat(unit, c.Len/len(unit))
	spec := table.NewTableSpec()
	col := &table.Column{Name: "c", Getter: fixedGetter{0}}
	spec.AddColumn(col)
	tb := table.NewTable(spec)
	tb.UpdateWidth(map[string]uint16{"c": 60000})
	spec2 := table.NewTableSpec()
	hcol := &table.Column{Name: "c"}
	spec2.AddColumn(hcol)
	htb := table.NewTable(spec2)
	htb.UpdateWidth(map[string]uint16{"c": 5})
	gtb := table.NewTable(spec)
	gtb.UpdateWidth(map[string]uint16{"c": 50})
	d := runewidth.DefaultCondition
	defer func(ea, st bool) { d.EastAsianWidth, d.StrictEmojiNeutral = ea, st }(d.EastAsianWidth, d.StrictEmojiNeutral)
	use := func(i int) {
		s := memText(c, pad, i)
		switch c.Via {
		case 0:
			table.AlignmentLeft(s, 1)
		case 1:
			table.AlignmentRight(s, 1)
		case 2:
			table.AlignmentCenter(s, 1)
		case 3:
			_, _ = tb.FormatItem([]string{s})
		case 4:
			hcol.Title = s
			htb.FormatHeader(" ")
		case 5:
			_ = measure(s)
		case 6:
			gtb.MergeRowsVertical(io.Discard, rowList{{s}, {"x"}}, 10, " ", i%2 == 0)
			gtb.MergeRowsHorizontal(io.Discard, rowList{{s}, {"x"}}, 70, " ", i%2 == 0)
		case 7:
			runewidth.StringWidth(s)
		case 8:
			d.EastAsianWidth, d.StrictEmojiNeutral = i%2 == 0, i%3 == 0
			table.AlignmentLeft(s, 1)
		}
	}
	// the cache of widths may hold any strings: fill it with short ones, so that
	// only what is kept besides it counts
	flushes := 0
	flush := func() {
		for i := 0; i < flushN; i++ {
			table.AlignmentLeft(fmt.Sprintf("%010d.%04d.%06d", c.Salt, flushes, i), 1)
		}
		flushes++
	}
	flush()
	h1 := heapInUse()
	t0 := cpuNow()
	for i := 0; i < batch; i++ {
		use(i)
	}
	cost := cpuNow() - t0
	flush()
	h2 := heapInUse()
	// even a table of hashes takes this much per string
	grew := func(n int) bool { return h2 > h1 && h2-h1 > uint64(6*n) }
	bad := grew(batch)
	full, rest := 200000, 400000
	if n := 150 << 20 / (c.Len + 1); n < full+rest {
		full, rest = n*2/5, n*3/5
	}
	// no more than some 15 seconds of CPU time
	if n := int(15*time.Second/(cost+1)) * batch; n < full+rest {
		full, rest = n*2/5, n*3/5
	}
	if bad && full < 2*flushN {
		return Outcome{Classes: []string{"too-slow-to-tell"}}
	}
	if bad {
		// a large but bounded memory would be full after this many, also one
		// that grows by doubling
		for i := batch; i < full; i++ {
			use(i)
		}
		// one that is emptied now and then goes up and down; only if all of the
		// later heaps are larger than all of the earlier ones does it grow
		parts := []int{3, 5, 4, 2, 6, 60, 5, 3, 7, 5} // percent
		next := full
		var lo, hi uint64
		for k, part := range parts {
			for n := rest * part / 100; n > 0; n-- {
				use(next)
				next++
			}
			flush()
			flush()
			h := heapInUse()
			if k < len(parts)/2 {
				lo = max(lo, h)
			} else if hi == 0 || h < hi {
				hi = h
			}
		}
		h1, h2 = lo, hi
		bad = h2 > h1+(1<<20) && grew(rest/2)
		suspect = true
	}
	hcol.Title = ""
	runtime.KeepAlive(tb)
	runtime.KeepAlive(htb)
	if bad {
		return fail("after %d distinct strings the heap was at most %d bytes; %d more left it at no less than %d: memory grows with the number of strings", full+rest/5, h1, rest*4/5, h2)
	}
	o := Outcome{NonTrivial: true, Classes: []string{fmt.Sprintf("via%d", c.Via), fmt.Sprintf("kind%d", c.Kind)}}
	if suspect {
		o.Classes = append(o.Classes, "grew-at-first")
	}
	return o
}

var _ = register(&Prop{
	ID: "C25", Quick: 320, Thorough: 4000, Modes: []string{"ea0", "ea1"},
	Rule: "4000 distinct strings of up to 3000 bytes per case (text, wide, only escapes, only zero-width characters, coloured, not UTF-8, combining) through one entry point; retained heap after GC, with the cache of widths full of short strings, compared before and after (and, if it grew by 6 bytes per string, between 200000 and 600000, ten times); non-trivial: every case",
}, func(t *rapid.T) MemCase {
	n := pick(t, "len", []int{0, 8, 30, 60, 120, 200, 300, 500, 700, 1030, 1500, 3000})
	return MemCase{Len: n, Via: genInt(t, "via", 0, 8), Salt: genInt(t, "salt", 0, 1<<30), Kind: genInt(t, "kind", 0, 6)}
}, checkMem)
