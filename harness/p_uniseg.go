package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/ilius/go-table/runewidth/uniseg"
	"pgregory.net/rapid"
)

// TextCase is a plain byte string.
type TextCase struct{ Str S }

// genClassText draws strings out of grapheme-break classes, with and without
// invalid bytes, long runs and plain text.
func genClassText(t *rapid.T) string {
	if chance(t, "long", 3) { // long runs, also inside one cluster
		s := genText(t, 2, true)
		for i, n := 0, genInt(t, "runs", 1, 3); i < n; i++ {
			unit := pick(t, "unit", longUnits)
			if rapid.Bool().Draw(t, "anyunit") {
				unit = string(genClassRune(t, genInt(t, "class", 0, nGCB-1)))
				if rapid.Bool().Draw(t, "pair") {
					unit += string(genClassRune(t, genInt(t, "class", 0, nGCB-1)))
				}
			}
			s += strings.Repeat(unit, genCount(t))
			s += string(genClassRune(t, genInt(t, "class", 0, nGCB-1)))
		}
		return s
	}
	switch genInt(t, "textkind", 0, 9) {
	case 0:
		return genText(t, 8, true)
	case 1:
		n := genInt(t, "bytes", 0, 12)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(genInt(t, "byte", 0, 255))
		}
		return string(b)
	case 2: // flags, emoji, jamo
		return strings.Repeat(pick(t, "unit", []string{"\U0001F1E6", "\u1100", "\U0001F468\u200d", "\u0301", "\u0600", "\r\n", "\U0001F44D\U0001F3FD", "\u200d", "\uAC00", "\u11a8"}), genInt(t, "times", 1, 9)) + genText(t, 2, true)
	}
	var b strings.Builder
	for i, n := 0, genInt(t, "n", 1, 12); i < n; i++ {
		switch genInt(t, "el", 0, 11) {
		case 0:
			b.WriteString(pick(t, "bad", []string{"\xff", "\x80", "\xc3", "\xe3\x81", "\xed\xa0\x80", "\xf4\x90\x80\x80"}))
		case 1:
			b.WriteRune(genRune(t))
		case 2:
			b.WriteString(pick(t, "vs", []string{"\ufe0e", "\ufe0f", "\u20e3", "\u200c", "\U000E0020", "\ufffd"}))
		default:
			b.WriteRune(genClassRune(t, genInt(t, "class", 0, nGCB-1)))
		}
	}
	return b.String()
}

// gcbRep has one representative per class for enumeration.
var gcbRep = [nGCB]rune{'a', '\r', '\n', 0x00AD, 0x0301, 0x200D, 0x1F1E6, 0x0600, 0x0903, 0x1100, 0x1160, 0x11A8, 0xAC00, 0xAC01, 0x2764}

// forClassStrings enumerates all strings over the classes up to length max,
// split over the shards.
func forClassStrings(w *worker, max int, reps []rune, f func(string) bool) {
	n := 0
	var rec func(prefix string, left int) bool
	rec = func(prefix string, left int) bool {
		if prefix != "" {
			if n%w.spec.NShards == w.spec.Shard {
				if !f(prefix) {
					return false
				}
			}
			n++
		}
		if left == 0 {
			return true
		}
		for _, r := range reps {
			if !rec(prefix+string(r), left-1) {
				return false
			}
		}
		return true
	}
	rec("", max)
}

// forRunes enumerates every rune a string can hold, split over the shards.
func forRunes(w *worker, f func(rune) bool) {
	for r := rune(w.spec.Shard); r <= 0x10FFFF; r += rune(w.spec.NShards) {
		if r >= 0xD800 && r <= 0xDFFF {
			continue
		}
		if !f(r) {
			return
		}
	}
}

// contexts a code point is tried in
var runeContexts = []func(string) string{
	func(x string) string { return x },
	func(x string) string { return "a" + x },
	func(x string) string { return x + "a" },
	func(x string) string { return "a" + x + "a" },
	func(x string) string { return x + "\u0301" },
	func(x string) string { return "\u0600" + x },
	func(x string) string { return x + "\u200d\u2764" },
	func(x string) string { return "\u2764\u200d" + x },
	func(x string) string { return x + x + x },
	func(x string) string { return "\U0001F1E6" + x + "\U0001F1E6" },
	func(x string) string { return "\u1100" + x },
	func(x string) string { return "\uac00" + x },
	func(x string) string { return "\uac01" + x },
	func(x string) string { return x + "\u11a8" },
	func(x string) string { return x + "\u1160" },
	func(x string) string { return x + "\uac00" },
	func(x string) string { return "\r" + x },
	func(x string) string { return x + "\n" },
	func(x string) string { return x + "\u0903" },
	func(x string) string { return x + "\ufe0f" },
	func(x string) string { return x + "\ufe0e" },
}

func textSweep(check func(string) Outcome, classLen, classLenThorough int) func(w *worker) {
	return func(w *worker) {
		n := classLen
		if w.spec.Tier == "thorough" {
			n = classLenThorough
		}
		bad := ""
		var count int64
		eval := func(s string) bool {
			count++
			if o := safely(func() Outcome { return check(s) }); o.Err != "" {
				bad = s
				return false
			}
			return true
		}
		forClassStrings(w, n, gcbRep[:], eval)
		if bad == "" {
			forRunes(w, func(r rune) bool {
				for _, ctx := range runeContexts {
					if !eval(ctx(string(r))) {
						return false
					}
				}
				return true
			})
		}
		w.bulk(count, count)
		w.stats.Classes["sweep"] += count
		if bad != "" {
			w.do(TextCase{S(bad)})
		}
	}
}

func safely(f func() Outcome) (o Outcome) {
	defer func() {
		if r := recover(); r != nil {
			o = fail("panic: %v", r)
		}
	}()
	return f()
}

// ---- C16 -----------------------------------------------------------------

func checkLossless(s string) Outcome {
	g := uniseg.NewGraphemes(s)
	if rs := g.Runes(); len(rs) != 0 {
		return fail("before the first cluster of %s the iterator reports %q", short(s), string(rs))
	}
	off, n := 0, 0
	var kept [][]rune // of all clusters; those of long strings are not kept
	for g.Next() {
		rs := g.Runes()
		if len(s) <= 2000 {
			kept = append(kept, rs)
		}
		if len(rs) == 0 {
			return fail("cluster %d of %s is empty", n, short(s))
		}
		for _, r := range rs {
			want, size := utf8.DecodeRuneInString(s[off:])
			if size == 0 || r != want {
				return fail("cluster %d of %s reports rune %U at byte %d, the string has %U", n, short(s), r, off, want)
			}
			off += size
		}
		n++
		if n > len(s) {
			return fail("%s (%d bytes) gave more than %d clusters", short(s), len(s), len(s))
		}
	}
	if off != len(s) {
		return fail("the clusters of %s cover %d of %d bytes", short(s), off, len(s))
	}
	at := 0
	for i, rs := range kept {
		for _, r := range rs {
			want, size := utf8.DecodeRuneInString(s[at:])
			if size == 0 || r != want {
				return fail("the runes reported for cluster %d of %s changed to %q later", i, short(s), string(rs))
			}
			at += size
		}
	}
	for i := 0; i < 3; i++ {
		if rs := g.Runes(); len(rs) != 0 {
			return fail("after the last cluster of %s the iterator reports %q", short(s), string(rs))
		}
		if g.Next() {
			return fail("the iterator over %s restarts after its end", short(s))
		}
	}
	steps := 0
	rest, state := s, -1
	for rest != "" {
		c, r, _, ns := uniseg.StepString(rest, state)
		if c == "" {
			return fail("stepping through %s gave an empty cluster before %s", short(s), short(rest))
		}
		if !splits(rest, c, r) {
			return fail("stepping split %s into %s and %s", short(rest), short(c), short(r))
		}
		rest, state = r, ns
		if steps++; steps > len(s) {
			return fail("stepping through %s does not end", short(s))
		}
	}
	if steps != n {
		return fail("stepping through %s gave %d clusters, the iterator %d", short(s), steps, n)
	}
	if c, r, _, _ := uniseg.StepString("", -1); c != "" || r != "" {
		return fail("stepping through nothing gave %q, %q", c, r)
	}
	return Outcome{NonTrivial: n >= 2 && !isASCII(s), Classes: textClasses(s, n)}
}

func textClasses(s string, n int) []string {
	var cl []string
	if !utf8.ValidString(s) {
		cl = append(cl, "invalid-utf8")
	}
	if n > 0 && n < utf8.RuneCountInString(s) {
		cl = append(cl, "multi-rune-cluster")
	}
	if n >= 2 {
		cl = append(cl, "several-clusters")
	}
	return cl
}

func genTextCase(t *rapid.T) TextCase { return TextCase{S(genClassText(t))} }

var _ = func() bool {
	p := register(&Prop{
		ID: "C16", Quick: 600000, Thorough: 12000000, Modes: []string{"ea0"},
		Rule: "strings over all grapheme-break classes, random bytes and text, plus a sweep (all class sequences up to length 4, every code point in 21 contexts); non-trivial: two or more clusters, not ASCII (sweep: every string)",
	}, genTextCase, func(c TextCase) Outcome { return checkLossless(string(c.Str)) })
	p.sweep = textSweep(checkLossless, 4, 6)
	return true
}()

// ---- C17 -----------------------------------------------------------------

func libClusters(s string) []string {
	var out []string
	rest, state := s, -1
	for rest != "" {
		var c string
		c, rest, _, state = uniseg.StepString(rest, state)
		out = append(out, c)
		if len(out) > len(s) {
			panic("stepping does not end")
		}
	}
	return out
}

func checkBoundaries(s string) Outcome {
	want := refClusters(s)
	got := libClusters(s)
	if strings.Join(want, "\x00|") != strings.Join(got, "\x00|") || len(want) != len(got) {
		return fail("clusters of %s are %s, UAX #29 gives %s", short(s), quoteAll(got), quoteAll(want))
	}
	g := uniseg.NewGraphemes(s)
	for i := range want {
		if !g.Next() || string(g.Runes()) != string([]rune(want[i])) {
			return fail("iterator cluster %d of %s is %s, UAX #29 gives %s", i, short(s), short(string(g.Runes())), short(want[i]))
		}
	}
	n := len(want)
	return Outcome{NonTrivial: n < utf8.RuneCountInString(s), Classes: textClasses(s, n)}
}

// splits reports whether a followed by b is s.
func splits(s, a, b string) bool {
	return len(a)+len(b) == len(s) && s[:len(a)] == a && s[len(a):] == b
}

func quoteAll(xs []string) string {
	var out []string
	for i, x := range xs {
		if i == 40 {
			out = append(out, "...")
			break
		}
		out = append(out, short(x))
	}
	return "[" + strings.Join(out, " ") + "]"
}

var _ = func() bool {
	p := register(&Prop{
		ID: "C17", Quick: 600000, Thorough: 12000000, Modes: []string{"ea0"},
		Rule: "strings over all classes compared with UAX #29 evaluated by the model, plus a sweep (all class sequences up to length 5, every code point in 21 contexts); non-trivial: some cluster has several runes (sweep: every string)",
	}, genTextCase, func(c TextCase) Outcome { return checkBoundaries(string(c.Str)) })
	p.sweep = textSweep(checkBoundaries, 5, 6)
	return true
}()

// ---- C18 -----------------------------------------------------------------

type ResumeCase struct {
	Str   S
	Fresh []bool // per step: start afresh instead of passing the state
	Tail  S
}

func checkResume(c ResumeCase) Outcome {
	s := string(c.Str)
	type step struct {
		c string
		w int
	}
	walk := func(str string, fresh func(i int) bool) ([]step, string) {
		var out []step
		rest, state := str, -1
		for i := 0; rest != ""; i++ {
			if fresh(i) {
				state = -1
			}
			cl, r, b, ns := uniseg.StepString(rest, state)
			if cl == "" || !splits(rest, cl, r) {
				return nil, fmt.Sprintf("step %d split %s into %s and %s", i, short(rest), short(cl), short(r))
			}
			out = append(out, step{cl, b >> uniseg.ShiftWidth})
			rest, state = r, ns
		}
		return out, ""
	}
	chained, e := walk(s, func(int) bool { return false })
	if e != "" {
		return fail("%s", e)
	}
	same := func(name string, got []step) string {
		if len(got) != len(chained) {
			return fmt.Sprintf("%s stepping through %s gives %d clusters, chained %d", name, short(s), len(got), len(chained))
		}
		for i := range got {
			if got[i] != chained[i] {
				return fmt.Sprintf("%s stepping through %s: cluster %d is %s (width %d), chained %s (width %d)", name, short(s), i, short(got[i].c), got[i].w, short(chained[i].c), chained[i].w)
			}
		}
		return ""
	}
	fresh, e := walk(s, func(int) bool { return true })
	if e == "" {
		e = same("fresh", fresh)
	}
	if e != "" {
		return fail("%s", e)
	}
	mixed, e := walk(s, func(i int) bool { return len(c.Fresh) > 0 && c.Fresh[i%len(c.Fresh)] })
	if e == "" {
		e = same("mixed", mixed)
	}
	if e != "" {
		return fail("%s", e)
	}
	g := uniseg.NewGraphemes(s)
	for i := range chained {
		if !g.Next() || string(g.Runes()) != string([]rune(chained[i].c)) {
			return fail("the iterator's cluster %d of %s differs from the step's %s", i, short(s), short(chained[i].c))
		}
	}
	if g.Next() {
		return fail("the iterator over %s has more clusters than steps", short(s))
	}
	// following text leaves completed clusters alone (the tail must not complete a truncated rune)
	if len(c.Tail) > 0 && utf8.RuneStart(c.Tail[0]) {
		longer, e := walk(s+string(c.Tail), func(int) bool { return false })
		if e != "" {
			return fail("%s", e)
		}
		for i := 0; i+1 < len(chained); i++ {
			if longer[i] != chained[i] {
				return fail("cluster %d of %s is %s (width %d); followed by %s it is %s (width %d)", i, short(s), short(chained[i].c), chained[i].w, short(string(c.Tail)), short(longer[i].c), longer[i].w)
			}
		}
	}
	return Outcome{NonTrivial: len(chained) >= 2 && !isASCII(s), Classes: textClasses(s, len(chained))}
}

var _ = func() bool {
	p := register(&Prop{
		ID: "C18", Quick: 400000, Thorough: 9000000, Modes: []string{"ea0"},
		Rule: "strings over all classes walked chained, fresh, mixed, through the iterator and with following text, plus a sweep as in C17 with the string split after its first clusters; non-trivial: two or more clusters, not ASCII (sweep: every string)",
	}, func(t *rapid.T) ResumeCase {
		c := ResumeCase{Str: S(genClassText(t)), Fresh: rapid.SliceOfN(rapid.Bool(), 0, 5).Draw(t, "fresh")}
		if rapid.Bool().Draw(t, "tail") {
			c.Tail = S(genClassText(t))
		}
		return c
	}, checkResume)
	p.sweep = func(w *worker) {
		n := 4
		if w.spec.Tier == "thorough" {
			n = 5
		}
		var bad *ResumeCase
		var count int64
		eval := func(s string) bool {
			for _, tail := range []string{"", "\u0301", "\U0001F1E6", "\u2764"} {
				c := ResumeCase{Str: S(s), Fresh: []bool{true, false}, Tail: S(tail)}
				count++
				if o := safely(func() Outcome { return checkResume(c) }); o.Err != "" {
					bad = &c
					return false
				}
			}
			return true
		}
		forClassStrings(w, n, gcbRep[:], eval)
		if bad == nil {
			forRunes(w, func(r rune) bool {
				for _, ctx := range runeContexts[3:11] {
					c := ResumeCase{Str: S(ctx(string(r))), Fresh: []bool{false, true}}
					count++
					if o := safely(func() Outcome { return checkResume(c) }); o.Err != "" {
						bad = &c
						return false
					}
				}
				return true
			})
		}
		w.bulk(count, count)
		w.stats.Classes["sweep"] += count
		if bad != nil {
			w.do(*bad)
		}
	}
	return true
}()

// ---- C19 -----------------------------------------------------------------

func checkStepWidth(s string) Outcome {
	rest, state := s, -1
	n, wide := 0, false
	for rest != "" {
		c, r, b, ns := uniseg.StepString(rest, state)
		if c == "" || !splits(rest, c, r) {
			return fail("step split %s into %s and %s", short(rest), short(c), short(r))
		}
		got, want := b>>uniseg.ShiftWidth, refStepWidth(c)
		if got != want {
			return fail("cluster %s of %s has reported width %d, the documented rules give %d", short(c), short(s), got, want)
		}
		wide = wide || want != 1
		rest, state = r, ns
		n++
	}
	return Outcome{NonTrivial: wide, Classes: textClasses(s, n)}
}

var _ = func() bool {
	p := register(&Prop{
		ID: "C19", Quick: 600000, Thorough: 12000000, Modes: []string{"ea0"},
		Rule: "reported width of every cluster against the documented rules over Unicode 14 data, plus a sweep (all class sequences up to length 4, every code point in 21 contexts); non-trivial: some cluster's width is not 1 (sweep: every string)",
	}, genTextCase, func(c TextCase) Outcome { return checkStepWidth(string(c.Str)) })
	p.sweep = textSweep(checkStepWidth, 4, 6)
	return true
}()
