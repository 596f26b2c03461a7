package main

// The independent model: Unicode classes from Perl's UCD (data/ucd.txt, see
// tools/gendata.py), UAX #29 segmentation, rune/string/cell widths, the
// escape-sequence grammar and the alignment functions. Nothing in this file
// calls the library under test.

import (
	_ "embed"
	"fmt"
	"strings"
	"unicode/utf8"
)

//go:embed data/ucd.txt
var ucdText string

const (
	gOther = iota
	gCR
	gLF
	gControl
	gExtend
	gZWJ
	gRI
	gPrepend
	gSpacingMark
	gL
	gV
	gT
	gLV
	gLVT
	gExtPict
	nGCB
)

var gcbNames = map[string]uint8{
	"CR": gCR, "LF": gLF, "Control": gControl, "Extend": gExtend, "ZWJ": gZWJ, "RI": gRI,
	"Prepend": gPrepend, "SpacingMark": gSpacingMark, "L": gL, "V": gV, "T": gT, "LV": gLV, "LVT": gLVT, "ExtPict": gExtPict,
}

const (
	fWide14 = 1 << iota
	fEPres14
	fWide13
	fAmbig13
	fNarrow13
	fEmoji13
	fCombining13
	fNonprint
)

type rng struct{ lo, hi rune }

var (
	gcbOf      [0x110000]uint8
	flagOf     [0x110000]uint8
	gcbRanges  [nGCB][]rng // ranges per class (gOther: a few hand-picked ones)
	flagRanges = map[string][]rng{}
	edgeRunes  []rune // first and last code point of every range of every table, and their neighbours
)

var nonprintRanges = []rng{
	{0, 0x1F}, {0x7F, 0x9F}, {0xAD, 0xAD}, {0x70F, 0x70F}, {0x180B, 0x180E}, {0x200B, 0x200F}, {0x2028, 0x202E},
	{0x206A, 0x206F}, {0xD800, 0xDFFF}, {0xFEFF, 0xFEFF}, {0xFFF9, 0xFFFB}, {0xFFFE, 0xFFFF},
}

func init() {
	bits := map[string]uint8{
		"wide14": fWide14, "epres14": fEPres14, "wide13": fWide13, "ambig13": fAmbig13,
		"narrow13": fNarrow13, "emoji13": fEmoji13, "combining13": fCombining13,
	}
	addEdge := func(lo, hi rune) {
		for _, r := range []rune{lo - 1, lo, hi, hi + 1} {
			if r >= 0 && r <= 0x10FFFF && !(r >= 0xD800 && r <= 0xDFFF) {
				edgeRunes = append(edgeRunes, r)
			}
		}
	}
	for _, line := range strings.Split(strings.TrimSpace(ucdText), "\n") {
		var name, val string
		var lo, hi rune
		if _, err := fmt.Sscanf(line, "%s %X %X %s", &name, &lo, &hi, &val); err != nil {
			panic("bad ucd.txt: " + line)
		}
		addEdge(lo, hi)
		if name == "gcb" {
			c, ok := gcbNames[val]
			if !ok {
				panic("bad gcb " + val)
			}
			for r := lo; r <= hi; r++ {
				gcbOf[r] = c
			}
			gcbRanges[c] = append(gcbRanges[c], rng{lo, hi})
			continue
		}
		b, ok := bits[name]
		if !ok {
			panic("bad ucd.txt name " + name)
		}
		for r := lo; r <= hi; r++ {
			flagOf[r] |= b
		}
		flagRanges[name] = append(flagRanges[name], rng{lo, hi})
	}
	for _, x := range nonprintRanges {
		for r := x.lo; r <= x.hi; r++ {
			flagOf[r] |= fNonprint
		}
		addEdge(x.lo, x.hi)
	}
	gcbRanges[gOther] = []rng{{0x20, 0x7E}, {0xA1, 0xA8}, {0x3B1, 0x3C9}, {0x3042, 0x3096}, {0x4E00, 0x4E50}, {0x915, 0x939}, {0xFF01, 0xFF5E}, {0x2500, 0x257F}, {0x2E3A, 0x2E3B}, {0xE000, 0xE010}, {0x20000, 0x20010}}
	// drop surrogates: they cannot occur in a Go string
	for c := range gcbRanges {
		var out []rng
		for _, x := range gcbRanges[c] {
			if x.lo >= 0xD800 && x.hi <= 0xDFFF {
				continue
			}
			out = append(out, x)
		}
		gcbRanges[c] = out
	}
}

// ---- UAX #29 -------------------------------------------------------------

// refClusters splits s into extended grapheme clusters by the rules
// GB1..GB999 (Unicode 14), evaluated at every boundary over the whole prefix.
func refClusters(s string) []string {
	if s == "" {
		return nil
	}
	var out []string
	start := 0
	prev := -1       // class before the boundary
	riRun := 0       // number of RI directly before the boundary
	pictExt := false // text before the boundary ends in ExtPict Extend*
	pictZWJ := false // text before the boundary ends in ExtPict Extend* ZWJ
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		cur := int(gcbOf[r])
		if prev >= 0 && refBreak(prev, cur, riRun, pictZWJ) {
			out = append(out, s[start:i])
			start = i
		}
		if cur == gRI {
			riRun++
		} else {
			riRun = 0
		}
		pictZWJ = cur == gZWJ && pictExt
		switch {
		case cur == gExtPict:
			pictExt = true
		case cur == gExtend && pictExt:
		default:
			pictExt = false
		}
		prev = cur
		i += n
	}
	return append(out, s[start:])
}

func refBreak(a, b, riRun int, pictZWJ bool) bool {
	ctl := func(c int) bool { return c == gCR || c == gLF || c == gControl }
	switch {
	case a == gCR && b == gLF: // GB3
		return false
	case ctl(a): // GB4
		return true
	case ctl(b): // GB5
		return true
	case a == gL && (b == gL || b == gV || b == gLV || b == gLVT): // GB6
		return false
	case (a == gLV || a == gV) && (b == gV || b == gT): // GB7
		return false
	case (a == gLVT || a == gT) && b == gT: // GB8
		return false
	case b == gExtend || b == gZWJ: // GB9
		return false
	case b == gSpacingMark: // GB9a
		return false
	case a == gPrepend: // GB9b
		return false
	case pictZWJ && b == gExtPict: // GB11
		return false
	case a == gRI && b == gRI && riRun%2 == 1: // GB12, GB13
		return false
	}
	return true // GB999
}

// ---- widths --------------------------------------------------------------

// refRuneWidth is the UAX #11 width of r in cells (runewidth, Unicode 13).
func refRuneWidth(r rune, ea, strict bool) int {
	if r < 0 || r > 0x10FFFF {
		return 0
	}
	f := flagOf[r]
	switch {
	case f&(fNonprint|fCombining13) != 0:
		return 0
	case f&fNarrow13 != 0:
		return 1
	case f&fWide13 != 0:
		return 2
	case ea && f&fAmbig13 != 0:
		return 2
	case ea && !strict && f&fEmoji13 != 0:
		return 2
	}
	return 1
}

func refStringWidth(s string, ea, strict bool) int {
	w := 0
	if isASCII(s) { // every character is its own cluster but CR LF, which has no width
		for i := 0; i < len(s); i++ {
			w += refRuneWidth(rune(s[i]), ea, strict)
		}
		return w
	}
	for _, c := range refClusters(s) {
		for _, r := range c {
			if x := refRuneWidth(r, ea, strict); x > 0 {
				w += x
				break
			}
		}
	}
	return w
}

// refStepWidth is the documented monospace width of a cluster (uniseg, Unicode 14).
func refStepWidth(cluster string) int {
	w := 0
	first := -1
	for i, r := range []rune(cluster) {
		c := int(gcbOf[r])
		if i == 0 {
			first, w = c, refUnisegRune(r)
			continue
		}
		switch {
		case r == 0xFE0F:
			w = 2
		case first == gExtPict && r == 0xFE0E:
			w = 1
		case first == gExtPict:
			w = 2
		case first == gRI || first == gL:
		default:
			w += refUnisegRune(r)
		}
	}
	return w
}

func refUnisegRune(r rune) int {
	switch gcbOf[r] {
	case gControl, gCR, gLF, gExtend, gZWJ:
		return 0
	case gRI:
		return 2
	case gExtPict:
		if flagOf[r]&fEPres14 != 0 {
			return 2
		}
		return 1
	}
	switch {
	case r == 0x2E3A:
		return 3
	case r == 0x2E3B:
		return 4
	case flagOf[r]&fWide14 != 0:
		return 2
	}
	return 1
}

// ---- escape sequences ----------------------------------------------------

// refStrip removes complete escape sequences: ESC or U+009B, any of "[()#;?",
// optionally numbers of up to 4 digits separated by ';', and a final character.
// The generators only produce sequences this simple scan and a backtracking
// matcher agree on (final character a letter, '=', '>' or '<').
func refStrip(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		n := 0
		if s[i] == 0x1b {
			n = 1
		} else if strings.HasPrefix(s[i:], "\u009b") {
			n = 2
		}
		if n > 0 {
			j := i + n
			for j < len(s) && strings.IndexByte("[()#;?", s[j]) >= 0 {
				j++
			}
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == ';') {
				j++
			}
			if j < len(s) && isFinal(s[j]) {
				i = j + 1
				continue
			}
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String()
}

func isFinal(c byte) bool {
	switch {
	case c >= 'A' && c <= 'O', c == 'R', c == 'Z', c == 'c', c >= 'f' && c <= 'n', c == 'q', c == 'r', c == 'y', c == '=', c == '>', c == '<':
		return true
	}
	return false
}

// mode of this process: set once at start-up
var (
	modeEA  bool
	modeLUT bool
)

// refCell is the displayed width of a cell under the settings of this process.
func refCell(s string) int { return refCellWith(s, modeEA, true) }

func refCellWith(s string, ea, strict bool) int {
	w := refStringWidth(refStrip(s), ea, strict)
	if w > 65535 {
		w = 65535
	}
	return w
}

// ---- alignment -----------------------------------------------------------

const (
	alNone = iota
	alLeft
	alRight
	alCenter
	alDots // custom: right-pads with '.'
	alBars // custom: left-pads with '_'
	alCaps // custom: not only pads but also changes x to X
	nAl
)

func spaces(n int) string { return strings.Repeat(" ", n) }

func refAlign(kind int, s string, width int) string {
	n := width - refCell(s)
	if n < 0 {
		n = 0
	}
	switch kind {
	case alRight:
		return spaces(n) + s
	case alCenter:
		return spaces(n-n/2) + s + spaces(n/2)
	case alDots:
		return s + strings.Repeat(".", n)
	case alCaps:
		return strings.ReplaceAll(s, "x", "X") + spaces(n)
	case alBars:
		return strings.Repeat("_", n) + s
	}
	return s + spaces(n)
}
