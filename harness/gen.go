package main

import (
	"strings"

	"pgregory.net/rapid"
)

func pick[T any](t *rapid.T, label string, xs []T) T {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(t, label)]
}

func chance(t *rapid.T, label string, percent int) bool {
	// high values are the rare branch, so that shrinking goes to false
	return rapid.IntRange(0, 99).Draw(t, label) >= 100-percent
}

func genInt(t *rapid.T, label string, lo, hi int) int {
	return rapid.IntRange(lo, hi).Draw(t, label)
}

func inRange(t *rapid.T, rs []rng) rune {
	x := rs[genInt(t, "range", 0, len(rs)-1)]
	if x.lo == x.hi {
		return x.lo
	}
	switch genInt(t, "end", 0, 3) {
	case 0:
		return x.lo
	case 1:
		return x.hi
	}
	return rune(genInt(t, "rune", int(x.lo), int(x.hi)))
}

// genClassRune draws a code point of one grapheme-break class.
func genClassRune(t *rapid.T, class int) rune { return inRange(t, gcbRanges[class]) }

var wideNames = []string{"wide13", "ambig13", "combining13", "emoji13", "epres14", "wide14", "narrow13"}

// genRune draws any rune a Go string can hold. ESC and U+009B are excluded:
// they are the business of genEscape.
func genRune(t *rapid.T) rune {
	var r rune
	switch genInt(t, "runekind", 0, 9) {
	case 0, 1, 2:
		r = rune(genInt(t, "ascii", 0x21, 0x7E))
	case 3, 4:
		r = genClassRune(t, genInt(t, "class", 0, nGCB-1))
	case 5, 6:
		r = inRange(t, flagRanges[pick(t, "table", wideNames)])
	case 7, 8:
		r = pick(t, "edge", edgeRunes)
	default:
		r = rune(genInt(t, "any", 0, 0x10FFFF))
	}
	if r == 0x1B || r == 0x9B || r >= 0xD800 && r <= 0xDFFF {
		return 'x'
	}
	return r
}

var snippets = []string{
	"a", "foo", "README.md", "さの.png", "世界", "한국어", "👩‍🍳", "👨‍👨‍👧", "🇯🇵", "🇯🇵🇩🇪", "e\u0301", "1\ufe0f\u20e3",
	"❤\ufe0f", "❤\ufe0e", "\u1100\u1161\u11a8", "ｱｲｳ", "☆", "│", "\u0600\u0661", "क\u094dष\u093f", "\u200b", "\u00ad", "\u2e3a", "👍🏽",
	"\u0e01\u0e33", "العربية", "\ufffd", "①", "½", "\u0903", "\u200d",
}

// longUnits are repeated for long strings: text, and characters that join.
var longUnits = []string{"x", "ab ", "世", "☆", "é", "e\u0301", "\u0301", "\U0001F1E6", "👩\u200d", "\u1100", "\uac00\u11a8", "\u0600", "\xff", "\u200b", "y世"}

// genCount draws how often something is repeated: around the sizes at which
// code tends to change its ways.
func genCount(t *rapid.T) int {
	n := pick(t, "count", []int{3, 7, 10, 15, 16, 17, 20, 24, 31, 32, 33, 40, 50, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025})
	if chance(t, "verylong", 5) {
		n = pick(t, "longcount", []int{2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 10001})
	}
	return n
}

// genManyCols draws a number of columns beyond the usual few.
func genManyCols(t *rapid.T) int {
	return pick(t, "manycols", []int{6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 70, 100, 128, 130, 256, 260})
}

// genText draws visible text without escape sequences. nl: may contain line breaks.
func genText(t *rapid.T, maxPieces int, nl bool) string {
	var b strings.Builder
	n := genInt(t, "pieces", 0, maxPieces)
	for i := 0; i < n; i++ {
		switch genInt(t, "piece", 0, 8) {
		case 0, 1:
			k := genInt(t, "len", 1, 7)
			for j := 0; j < k; j++ {
				b.WriteByte(byte(genInt(t, "c", 'a', 'z')))
			}
		case 2:
			b.WriteString(spaces(genInt(t, "sp", 1, 3)))
		case 3, 4:
			b.WriteString(pick(t, "snippet", snippets))
		case 5, 6:
			k := genInt(t, "nrunes", 1, 4)
			for j := 0; j < k; j++ {
				b.WriteRune(genRune(t))
			}
		case 7:
			b.WriteString(pick(t, "ctl", []string{"\t", "\x00", "\x07", "\r", "\x7f", "\u0085", "\u2028"}))
		case 8: // invalid UTF-8
			b.WriteString(pick(t, "bad", []string{"\xff", "\x80", "\xc3", "\xe3\x81", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\xaf"}))
		}
	}
	s := b.String()
	if chance(t, "long", 1) {
		s += strings.Repeat(pick(t, "unit", longUnits), genCount(t)) + pick(t, "snippet", snippets)
	}
	if !nl {
		s = strings.ReplaceAll(s, "\n", "_")
	}
	return s
}

// genWord draws short well-behaved text: no spaces, no controls, no joining
// across its ends.
func genWord(t *rapid.T) string {
	return pick(t, "word", []string{"", "a", "bc", "name", "longer-name", "世", "さの", "é", "한국", "☆", "Ωμέγα", "ﾊ", "x.go", "12345", "50%", "%d", "%s%v", "a\\b", "$1", "<b>", "a&b", "\"q\"", "null", "0", "-1.5", "1e5"})
}

var finals = strings.Split("ABCDEFGHIJKLMNORZcfghijklmnqry=><", "")

// genEscape draws a complete escape sequence.
func genEscape(t *rapid.T) string {
	params := func() string {
		n := genInt(t, "nparam", 0, 5)
		if chance(t, "many", 5) {
			n = genInt(t, "nparam", 6, 20)
		}
		var ps []string
		for i := 0; i < n; i++ {
			k := genInt(t, "digits", 0, 4)
			if i == 0 && k == 0 {
				k = 1
			}
			d := ""
			for j := 0; j < k; j++ {
				d += string(rune('0' + genInt(t, "d", 0, 9)))
			}
			ps = append(ps, d)
		}
		return strings.Join(ps, ";")
	}
	switch genInt(t, "esc", 0, 9) {
	case 8, 9: // anything the grammar allows
		s := pick(t, "intro", []string{"\x1b", "\u009b"})
		for i, n := 0, genInt(t, "npunct", 0, 3); i < n; i++ {
			s += pick(t, "punct", []string{"[", "(", ")", "#", ";", "?"})
		}
		return s + params() + pick(t, "final", finals)
	case 0:
		return "\x1b[0m"
	case 1:
		return "\x1b[" + params() + "m"
	case 2:
		return "\x1b[38;5;" + pick(t, "col", []string{"1", "15", "208"}) + "m"
	case 3:
		return "\x1b[38;2;255;128;0m"
	case 4:
		return "\u009b" + params() + pick(t, "fin", []string{"m", "K", "H"})
	case 5:
		return "\x1b[" + params() + pick(t, "fin", []string{"A", "B", "H", "J", "K", "G", "f", "h", "l", "n", "r", "c", "R", "Z", "g", "y", "q"})
	case 6:
		return "\x1b[?" + pick(t, "priv", []string{"25", "1049", "7"}) + pick(t, "hl", []string{"h", "l"})
	}
	return pick(t, "simple", []string{"\x1b(B", "\x1bc", "\x1b=", "\x1b>", "\x1bM", "\x1b[m", "\x1b[;m", "\u009bm", "\x1b)0\x1b[0m"[:3] + "A", "\x1b<"})
}

// genCell draws a table cell: text with or without escape sequences, no newline.
func genCell(t *rapid.T, escapes bool) string {
	if genInt(t, "simplecell", 0, 2) == 0 {
		return genWord(t)
	}
	if !escapes || genInt(t, "withesc", 0, 2) > 0 {
		return genText(t, 4, false)
	}
	var b strings.Builder
	n := genInt(t, "segs", 1, 4)
	if chance(t, "colourful", 1) { // every character in a colour of its own
		for i, k := 0, genCount(t); i < k; i++ {
			b.WriteString(pick(t, "colour", []string{"\x1b[1m", "\x1b[38;5;208m", "\u009b31m", "\x1b[0m"}) + "x")
			if i > 70 {
				b.WriteString(strings.Repeat("\x1b[3;4m☆", k-i))
				break
			}
		}
	}
	for i := 0; i < n; i++ {
		b.WriteString(genEscape(t))
		b.WriteString(genText(t, 2, false))
	}
	if rapid.Bool().Draw(t, "reset") {
		b.WriteString("\x1b[0m")
	}
	return b.String()
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func hasEscape(s string) bool { return refStrip(s) != s }

// wellFormed reports whether s holds only complete escape sequences: the
// domain of everything said about cells. Shrinking may leave it.
func wellFormed(s string) bool {
	for i := 0; i < len(s); {
		n := 0
		if s[i] == 0x1b {
			n = 1
		} else if strings.HasPrefix(s[i:], "\u009b") {
			n = 2
		}
		if n == 0 {
			i++
			continue
		}
		j := i + n
		for j < len(s) && strings.IndexByte("[()#;?", s[j]) >= 0 {
			j++
		}
		digits, first := 0, true
		for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == ';') {
			if s[j] == ';' {
				if first {
					return false // "[()#;?" has consumed leading ones
				}
				digits = 0
			} else if digits++; digits > 4 {
				return false
			}
			first = false
			j++
		}
		if j >= len(s) || !isFinal(s[j]) {
			return false
		}
		i = j + 1
	}
	return true
}
