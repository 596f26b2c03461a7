package main

import (
	"fmt"
	"math"
	"os"
	"strings"

	table "github.com/ilius/go-table"
	"github.com/ilius/go-table/runewidth"
	"pgregory.net/rapid"
)

// ---- C20 -----------------------------------------------------------------

type RuneCase struct {
	R      int32
	EA, St bool
}

func checkRune(c RuneCase) Outcome {
	cond := &runewidth.Condition{EastAsianWidth: c.EA, StrictEmojiNeutral: c.St}
	got, want := cond.RuneWidth(rune(c.R)), refRuneWidth(rune(c.R), c.EA, c.St)
	if got != want {
		return fail("rune %#x has width %d with East-Asian %v and strict emoji %v; UAX #11 gives %d", c.R, got, c.EA, c.St, want)
	}
	o := Outcome{NonTrivial: want != 1}
	switch {
	case c.R < 0 || c.R > 0x10FFFF:
		o.Classes = append(o.Classes, "out-of-range")
	default:
		o.Classes = append(o.Classes, fmt.Sprintf("width%d", want))
	}
	return o
}

var _ = func() bool {
	p := register(&Prop{
		ID: "C20", Quick: 400000, Thorough: 8000000, Modes: []string{"ea0"},
		Rule: "sweep over every code point and 4000 values outside the range in all four settings, plus random 32-bit values; non-trivial: width is not 1",
	}, func(t *rapid.T) RuneCase {
		c := RuneCase{EA: rapid.Bool().Draw(t, "ea"), St: rapid.Bool().Draw(t, "st")}
		switch genInt(t, "kind", 0, 3) {
		case 0:
			c.R = int32(genRune(t))
		case 1:
			c.R = rapid.Int32().Draw(t, "any")
		case 2:
			c.R = int32(genInt(t, "in", -1000, 0x110400))
		case 3:
			c.R = int32(pick(t, "edge", edgeRunes))
		}
		return c
	}, checkRune)
	p.sweep = func(w *worker) {
		var n, nt int64
		for b := 0; b < 4; b++ {
			cond := &runewidth.Condition{EastAsianWidth: b&1 != 0, StrictEmojiNeutral: b&2 != 0}
			one := func(r rune) bool {
				n++
				want := refRuneWidth(r, cond.EastAsianWidth, cond.StrictEmojiNeutral)
				if want != 1 {
					nt++
				}
				if cond.RuneWidth(r) != want {
					w.bulk(n, nt)
					w.do(RuneCase{int32(r), cond.EastAsianWidth, cond.StrictEmojiNeutral})
					return false
				}
				return true
			}
			for r := rune(w.spec.Shard); r <= 0x10FFFF+2000; r += rune(w.spec.NShards) {
				if !one(r) {
					return
				}
			}
			for r := rune(-1 - w.spec.Shard); r > -2000; r -= rune(w.spec.NShards) {
				if !one(r) {
					return
				}
			}
			for _, r := range []rune{math.MinInt32, math.MaxInt32, math.MinInt32 + 'a', 0x110000, 0x7FFFFFFE, -0x110000} {
				if !one(r) {
					return
				}
			}
		}
		w.bulk(n, nt)
		w.stats.Classes["sweep"] += n
	}
	return true
}()

// ---- C21 -----------------------------------------------------------------

type SumCase struct {
	Str    S
	EA, St bool
	LUT    bool
	Repeat int
}

func checkSum(c SumCase) Outcome {
	if c.Repeat < 0 || c.Repeat*len(c.Str) > 1<<20 {
		return Outcome{Skip: true}
	}
	s := strings.Repeat(string(c.Str), c.Repeat)
	cond := conds(c.EA, c.St, c.LUT)
	want := refStringWidth(s, c.EA, c.St)
	if got := cond.StringWidth(s); got != want {
		return fail("string %s has width %d with East-Asian %v, strict emoji %v, lookup table %v; its clusters add up to %d", short(s), got, c.EA, c.St, c.LUT, want)
	}
	wantD := refStringWidth(s, modeEA, true)
	if got := runewidth.StringWidth(s); got != wantD {
		return fail("package-level width of %s is %d, the default settings (East-Asian %v) give %d", short(s), got, modeEA, wantD)
	}
	if got := runewidth.DefaultCondition.StringWidth(s); got != wantD {
		return fail("default settings' width of %s is %d, want %d", short(s), got, wantD)
	}
	n := len(refClusters(string(c.Str)))
	o := Outcome{NonTrivial: n >= 2 && !isASCII(s), Classes: textClasses(string(c.Str), n)}
	if c.LUT {
		o.Classes = append(o.Classes, "lookup-table")
	}
	if c.EA && want != refStringWidth(s, false, true) {
		o.Classes = append(o.Classes, "ea-matters")
	}
	return o
}

var condCache = map[[3]bool]*runewidth.Condition{}

func conds(ea, st, lut bool) *runewidth.Condition {
	k := [3]bool{ea, st, lut}
	if condCache[k] == nil {
		c := &runewidth.Condition{EastAsianWidth: ea, StrictEmojiNeutral: st}
		if lut {
			c.CreateLUT()
		}
		condCache[k] = c
	}
	return condCache[k]
}

var _ = register(&Prop{
	ID: "C21", Quick: 800000, Thorough: 12000000,
	Rule: "strings over all grapheme classes and width tables in all four settings with and without lookup table, and through the package-level function; non-trivial: two or more clusters, not ASCII",
}, func(t *rapid.T) SumCase {
	c := SumCase{EA: rapid.Bool().Draw(t, "ea"), St: rapid.Bool().Draw(t, "st"), LUT: rapid.Bool().Draw(t, "lut"), Repeat: 1}
	switch genInt(t, "kind", 0, 3) {
	case 0:
		c.Str = S(genText(t, 8, true))
	case 1, 2:
		c.Str = S(genClassText(t))
	case 3:
		var b strings.Builder
		for i, n := 0, genInt(t, "n", 1, 12); i < n; i++ {
			b.WriteRune(genRune(t))
		}
		c.Str = S(b.String())
	}
	if chance(t, "long", 2) {
		c.Repeat = genInt(t, "repeat", 0, 3000)
	}
	return c
}, checkSum)

// ---- C22 -----------------------------------------------------------------

type LutOp struct {
	Op     string // set, create, query, copy, new
	Cond   int
	To     int
	EA, St bool
	Str    S
}

type LutCase struct{ Ops []LutOp }

func genLut(t *rapid.T) LutCase {
	var c LutCase
	for i, n := 0, genInt(t, "ops", 2, 10); i < n; i++ {
		op := LutOp{Op: pick(t, "op", []string{"set", "set", "create", "create", "query", "query", "copy", "new"}), Cond: genInt(t, "cond", 0, 3)}
		switch op.Op {
		case "set":
			op.EA, op.St = rapid.Bool().Draw(t, "ea"), rapid.Bool().Draw(t, "st")
		case "new":
			op.EA, op.St = rapid.Bool().Draw(t, "ea"), rapid.Bool().Draw(t, "st")
		case "copy":
			op.To = genInt(t, "to", 1, 3)
		case "query":
			op.Str = S(genText(t, 3, true))
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// lutProbe holds runes whose width depends on the settings, and others.
var lutProbe = func() []rune {
	rs := []rune{0, 'a', '\n', 0x7f, 0xA1, 0xAD, 0x300, 0x1100, 0x2600, 0x2601, 0x2764, 0x3042, 0xAC00, 0x1F300, 0x1F321, 0x1F336, 0x10FFFF, 0x10FFFE, 0xFFFD, 0x20000, 0xE000, 0xF0000}
	for i := 0; i < len(edgeRunes); i += 23 {
		rs = append(rs, edgeRunes[i])
	}
	return append(rs, -1, 0x110000, 0x110001, math.MaxInt32, math.MinInt32)
}()

func checkLut(c LutCase) Outcome {
	if len(c.Ops) > 60 {
		return Outcome{Skip: true}
	}
	d := runewidth.DefaultCondition
	save := *d
	saveEA, saveSt := runewidth.EastAsianWidth, runewidth.StrictEmojiNeutral
	defer func() {
		*d = save
		runewidth.EastAsianWidth, runewidth.StrictEmojiNeutral = saveEA, saveSt
	}()
	type model struct {
		c      *runewidth.Condition
		ea, st bool
		lut    bool // has a lookup table
		dirty  bool // settings changed since it was created: no claim until it is created again
	}
	ms := []*model{
		{c: d, ea: d.EastAsianWidth, st: d.StrictEmojiNeutral, lut: modeLUT},
		{c: &runewidth.Condition{StrictEmojiNeutral: true}, st: true},
		{c: &runewidth.Condition{EastAsianWidth: true}, ea: true},
		{c: runewidth.NewCondition(), ea: runewidth.EastAsianWidth, st: runewidth.StrictEmojiNeutral},
	}
	probe := func(m *model, step int, i int) string {
		if m.c.EastAsianWidth != m.ea || m.c.StrictEmojiNeutral != m.st {
			return fmt.Sprintf("step %d: settings of object %d changed by themselves", step, i)
		}
		if m.dirty {
			return ""
		}
		for _, r := range lutProbe {
			if got, want := m.c.RuneWidth(r), refRuneWidth(r, m.ea, m.st); got != want {
				return fmt.Sprintf("step %d: rune %#x has width %d on object %d (East-Asian %v, strict emoji %v, lookup table %v), want %d", step, r, got, i, m.ea, m.st, m.lut, want)
			}
		}
		return ""
	}
	created, recreated, copied := 0, false, false
	for step, op := range c.Ops {
		if op.Cond < 0 || op.Cond > 3 || op.To < 0 || op.To > 3 {
			return Outcome{Skip: true}
		}
		m := ms[op.Cond]
		switch op.Op {
		case "set":
			if m.lut && (m.ea != op.EA || m.st != op.St) {
				m.dirty = true
			}
			m.ea, m.st = op.EA, op.St
			m.c.EastAsianWidth, m.c.StrictEmojiNeutral = op.EA, op.St
		case "create":
			m.c.CreateLUT()
			recreated = recreated || m.dirty
			m.lut, m.dirty = true, false
			created++
		case "copy":
			if op.To == 0 || op.To == op.Cond {
				continue
			}
			cp := *m.c
			ms[op.To] = &model{c: &cp, ea: m.ea, st: m.st, lut: m.lut, dirty: m.dirty}
			copied = copied || m.lut
		case "new":
			if op.Cond == 0 {
				continue
			}
			runewidth.EastAsianWidth, runewidth.StrictEmojiNeutral = op.EA, op.St
			ms[op.Cond] = &model{c: runewidth.NewCondition(), ea: op.EA, st: op.St}
		case "query":
			if m.dirty {
				continue
			}
			if got, want := m.c.StringWidth(string(op.Str)), refStringWidth(string(op.Str), m.ea, m.st); got != want {
				return fail("step %d: string %s has width %d on object %d (lookup table %v), want %d", step, short(string(op.Str)), got, op.Cond, m.lut, want)
			}
			if op.Cond == 0 {
				if got, want := runewidth.StringWidth(string(op.Str)), refStringWidth(string(op.Str), m.ea, m.st); got != want {
					return fail("step %d: package-level width of %s is %d, want %d", step, short(string(op.Str)), got, want)
				}
			}
		default:
			return Outcome{Skip: true}
		}
		for i, m := range ms {
			if e := probe(m, step, i); e != "" {
				return fail("%s", e)
			}
		}
	}
	o := Outcome{NonTrivial: created > 0}
	if recreated {
		o.Classes = append(o.Classes, "recreated-after-change")
	}
	if copied {
		o.Classes = append(o.Classes, "copied-with-table")
	}
	if created > 1 {
		o.Classes = append(o.Classes, "several-created")
	}
	return o
}

var _ = func() bool {
	p := register(&Prop{
		ID: "C22", Quick: 1200, Thorough: 60000,
		Rule: "histories of setting changes, table creations, copies and queries over four settings objects (one the default), about 200 runes of every object checked after each step, plus a sweep over all runes for every transition between settings; non-trivial: at least one table created",
	}, genLut, checkLut)
	p.sweep = func(w *worker) {
		// every rune after creating a table under one setting and again under another
		var n int64
		for t := w.spec.Shard; t < 16; t += w.spec.NShards {
			a, b := t/4, t%4
			c := &runewidth.Condition{EastAsianWidth: a&1 != 0, StrictEmojiNeutral: a&2 != 0}
			c.CreateLUT()
			c.EastAsianWidth, c.StrictEmojiNeutral = b&1 != 0, b&2 != 0
			c.CreateLUT()
			for r := rune(-64); r <= 0x110040; r++ {
				n++
				if c.RuneWidth(r) != refRuneWidth(r, b&1 != 0, b&2 != 0) {
					w.bulk(n, n)
					w.do(LutSweepCase(r, a, b))
					return
				}
			}
		}
		w.bulk(n, n)
		w.stats.Classes["sweep"] += n
	}
	return true
}()

// LutSweepCase is the history that shows a mismatch found by the sweep.
func LutSweepCase(r rune, a, b int) LutCase {
	return LutCase{Ops: []LutOp{
		{Op: "set", Cond: 1, EA: a&1 != 0, St: a&2 != 0}, {Op: "create", Cond: 1},
		{Op: "set", Cond: 1, EA: b&1 != 0, St: b&2 != 0}, {Op: "create", Cond: 1},
		{Op: "query", Cond: 1, Str: S(string(r))},
	}}
}

// ---- C23 -----------------------------------------------------------------

type LocaleCase struct {
	LcAll, LcCtype, Lang S
	Unset                []bool // unset instead of empty, per variable
	Noise                S      // value of variables that do not count
}

var mbCharsets = []string{"utf-8", "utf8", "jis", "eucjp", "euckr", "euccn", "sjis", "cp932", "cp51932", "cp936", "cp949", "cp950", "big5", "gbk", "gb2312"}

// refEastAsian is the rule of C23 for one locale name.
func refEastAsian(loc string) bool {
	if loc == "C" || loc == "POSIX" || strings.HasPrefix(loc, "C.") || strings.HasPrefix(loc, "C-") {
		return false
	}
	cs := loc
	if rest, ok := langTerritory(loc); ok {
		cs = rest
	}
	cs = strings.ToLower(cs)
	if strings.HasSuffix(cs, "@cjk_narrow") {
		return false
	}
	cs, _, _ = strings.Cut(cs, "@")
	for _, x := range mbCharsets {
		if cs == x {
			if x == "utf-8" || x == "utf8" {
				return strings.HasPrefix(loc, "ja") || strings.HasPrefix(loc, "ko") || strings.HasPrefix(loc, "zh")
			}
			return true
		}
	}
	return false
}

// langTerritory splits xx[x][_YY].charset (charset not empty and without a leading line break).
func langTerritory(s string) (string, bool) {
	lower := func(i int) bool { return i < len(s) && s[i] >= 'a' && s[i] <= 'z' }
	upper := func(i int) bool { return i < len(s) && s[i] >= 'A' && s[i] <= 'Z' }
	if !lower(0) || !lower(1) {
		return "", false
	}
	i := 2
	if lower(2) {
		i = 3
	}
	if i < len(s) && s[i] == '_' {
		if !upper(i+1) || !upper(i+2) {
			return "", false
		}
		i += 3
	}
	if i+1 < len(s) && s[i] == '.' {
		return s[i+1:], true
	}
	return "", false
}

func genLocale(t *rapid.T) string {
	caseMix := func(s string) string {
		switch genInt(t, "case", 0, 3) {
		case 1:
			return strings.ToUpper(s)
		case 2:
			b := []byte(s)
			for i := range b {
				if rapid.Bool().Draw(t, "up") {
					b[i] = strings.ToUpper(string(b[i]))[0]
				}
			}
			return string(b)
		}
		return s
	}
	switch genInt(t, "lockind", 0, 13) {
	case 12, 13:
		return pick(t, "usual", []string{"ja_JP.UTF-8", "zh_CN.UTF-8", "ko_KR.UTF-8", "zh_TW.UTF-8", "en_US.UTF-8", "ja_JP.eucJP", "zh_CN.GB2312", "ko_KR.eucKR", "zh_TW.Big5", "zh_HK.Big5", "C.UTF-8", "de_DE.UTF-8", "ja_JP.SJIS", "zh_CN.GBK", "zh_CN.GB18030", "th_TH.UTF-8", "ru_RU.UTF-8", "ja_JP.utf8", "zh_SG.UTF-8", "ja", "ko", "zh"})
	case 10, 11: // nearly a locale
		b := []byte(pick(t, "base", []string{"ja_JP.eucJP", "ko_KR.eucKR", "zh_CN.GB2312", "ja_JP.UTF-8", "zh_TW.Big5", "ja.sjis", "zh_TW.utf8@cjk_narrow", "C.UTF-8", "POSIX", "kok_IN.utf8", "jav_ID.euckr", "en_US.CP949", "de_DE.CP51932@euro", "eucjp", "CP936"}))
		for i, n := 0, genInt(t, "edits", 1, 3); i < n && len(b) > 0; i++ {
			at := genInt(t, "at", 0, len(b)-1)
			ch := pick(t, "ch", []byte("aAzZ_.@-0 9jJcC/:"))
			switch genInt(t, "edit", 0, 3) {
			case 0:
				b[at] = ch
			case 1:
				b = append(b[:at], b[at+1:]...)
			case 2:
				b = append(b[:at], append([]byte{ch}, b[at:]...)...)
			case 3:
				b = append(b, ch)
			}
		}
		return string(b)
	case 0:
		return ""
	case 1:
		return pick(t, "fixed", []string{"C", "POSIX", "C.UTF-8", "C-EUCJP", "C.eucjp", "c.eucjp", "CP932", "Cx.eucjp", "posix", "C ", "utf8", "eucjp", "ja", "ja_JP", "japanese", "zh", "ko_KR@x", "C.", "C_JP.eucjp", "C@x", "sjis@cjk_narrow", "@cjk_narrow", "@", ".", "ja.", "ja_JP."})
	case 2:
		return genText(t, 2, false)
	}
	lang := pick(t, "lang", []string{"ja", "ko", "zh", "en", "de", "fr", "kok", "jav", "zha", "tha", "vi", "JA", "Ja", "j", "zhao", "xja"})
	terr := pick(t, "terr", []string{"", "_JP", "_KR", "_CN", "_TW", "_US", "_DE", "_jp", "_JPN", "_", "-JP"})
	cs := ""
	switch genInt(t, "cskind", 0, 4) {
	case 0:
		cs = pick(t, "other", []string{"", ".", ".ISO-8859-1", ".ascii", ".utf16", ".utf-16", ".utf", ".koi8-r", ".euctw", ".gb18030", ".ujis", ".big5hkscs", ".cp1252", ".shift_jis", ".utf8x", ".xutf8", ".euc-jp", ".gb", "..utf8", ".u"})
	default:
		cs = "." + caseMix(pick(t, "cs", mbCharsets))
	}
	mod := pick(t, "mod", []string{"", "", "", "@cjk_narrow", "@CJK_NARROW", "@euro", "@cjk_narrow2", "@x@cjk_narrow", "@cjk_narrow@x", "@", "cjk_narrow", "@cjk_wide", "@" + strings.Repeat("m", 300), strings.Repeat("m", 80)})
	return lang + terr + cs + mod
}

func setOrUnset(k, v string, unset bool) {
	if unset && v == "" {
		os.Unsetenv(k)
	} else {
		os.Setenv(k, v)
	}
}

func (c LocaleCase) valid() bool {
	for _, s := range []S{c.LcAll, c.LcCtype, c.Lang} {
		if strings.ContainsAny(string(s), "\x00\n\r\u0085\u2028") {
			return false
		}
	}
	return len(c.Unset) == 3 && !strings.ContainsAny(string(c.Noise), "\x00\n\r\u0085\u2028")
}

var noiseVars = []string{"LANGUAGE", "LC_MESSAGES", "LC_COLLATE", "TERM", "LC_LANG"}

func (c LocaleCase) winner() string {
	for _, s := range []S{c.LcAll, c.LcCtype, c.Lang} {
		if s != "" {
			return string(s)
		}
	}
	return ""
}

func checkLocale(c LocaleCase) Outcome {
	if !c.valid() {
		return Outcome{Skip: true}
	}
	setOrUnset("LC_ALL", string(c.LcAll), c.Unset[0])
	setOrUnset("LC_CTYPE", string(c.LcCtype), c.Unset[1])
	setOrUnset("LANG", string(c.Lang), c.Unset[2])
	for _, v := range append([]string{"RUNEWIDTH_EASTASIAN"}, noiseVars...) {
		setOrUnset(v, string(c.Noise), true)
	}
	loc := c.winner()
	want := refEastAsian(loc)
	if got := runewidth.IsEastAsian(); got != want {
		return fail("LC_ALL=%q LC_CTYPE=%q LANG=%q: East Asian = %v, want %v (locale %q)", string(c.LcAll), string(c.LcCtype), string(c.Lang), got, want, loc)
	}
	o := Outcome{NonTrivial: loc != ""}
	if want {
		o.Classes = append(o.Classes, "east-asian")
	}
	va := map[bool]bool{}
	for _, s := range []S{c.LcAll, c.LcCtype, c.Lang} {
		va[refEastAsian(string(s))] = true
	}
	if len(va) == 2 {
		o.Classes = append(o.Classes, "variables-disagree")
	}
	if strings.Contains(loc, "@") {
		o.Classes = append(o.Classes, "modifier")
	}
	return o
}

func genLocaleCase(t *rapid.T) LocaleCase {
	c := LocaleCase{Unset: []bool{false, false, false}}
	clean := func(s string) S {
		return S(strings.NewReplacer("\x00", "0", "\n", "n", "\r", "r", "\u0085", "-", "\u2028", "_").Replace(s))
	}
	if chance(t, "all", 45) {
		c.LcAll = clean(genLocale(t))
	}
	if chance(t, "ctype", 55) {
		c.LcCtype = clean(genLocale(t))
	}
	if chance(t, "lang", 75) {
		c.Lang = clean(genLocale(t))
	}
	for i := range c.Unset {
		c.Unset[i] = rapid.Bool().Draw(t, "unset")
	}
	if chance(t, "noise", 30) {
		c.Noise = clean(genLocale(t))
		if rapid.Bool().Draw(t, "usual") {
			c.Noise = S(pick(t, "usualvalue", []string{"ja_JP.UTF-8", "zh_CN.UTF-8", "ko_KR.UTF-8", "ja_JP.eucJP", "zh_TW.Big5", "ja", "C", "en_US.UTF-8"}))
		}
		if chance(t, "flag", 20) {
			c.Noise = S(pick(t, "flagvalue", []string{"0", "1"}))
		}
	}
	return c
}

var _ = register(&Prop{
	ID: "C23", Quick: 1500000, Thorough: 12000000, Modes: []string{"ea0"},
	Rule: "values of the three variables built from languages, territories, character sets and modifiers (valid, misspelt, differently cased, missing) and arbitrary text, compared with the written rule; non-trivial: some variable is set",
}, genLocaleCase, checkLocale)

// ---- C24 -----------------------------------------------------------------

type EnvCase struct {
	Loc  LocaleCase
	Var  S
	Unst bool // RUNEWIDTH_EASTASIAN not in the environment at all
	Text S
	W    int
}

func (c EnvCase) valid() bool {
	return c.Loc.valid() && !strings.Contains(string(c.Var), "\x00") && inDomain(string(c.Text)) && !strings.Contains(string(c.Text), "\x00") &&
		c.W >= 0 && c.W <= 200 && !(c.Unst && c.Var != "")
}

func (c EnvCase) environment() []string {
	var env []string
	add := func(k string, v S, unset bool) {
		if !(unset && v == "") {
			env = append(env, k+"="+string(v))
		}
	}
	add("LC_ALL", c.Loc.LcAll, c.Loc.Unset[0])
	add("LC_CTYPE", c.Loc.LcCtype, c.Loc.Unset[1])
	add("LANG", c.Loc.Lang, c.Loc.Unset[2])
	add("RUNEWIDTH_EASTASIAN", c.Var, c.Unst)
	for _, v := range noiseVars {
		add(v, c.Loc.Noise, true)
	}
	return env
}

func checkEnv(c EnvCase) Outcome {
	if !c.valid() {
		return Outcome{Skip: true}
	}
	env := c.environment()
	out, err := runProbe(env, string(c.Text), c.W)
	if err != nil {
		return fail("a process with environment %q could not report its settings: %v", env, err)
	}
	want := refEastAsian(c.Loc.winner())
	if c.Var != "" {
		want = c.Var == "1"
	}
	exp := probeExpect(want, string(c.Text), c.W)
	if out != exp {
		return fail("environment %q: the process reports %s; East-Asian width must be %v: %s", env, out, want, exp)
	}
	o := Outcome{NonTrivial: c.Var != "" || c.Loc.winner() != ""}
	if want {
		o.Classes = append(o.Classes, "on")
	}
	switch {
	case c.Unst:
		o.Classes = append(o.Classes, "variable-unset")
	case c.Var == "":
		o.Classes = append(o.Classes, "variable-empty")
	case c.Var == "1":
		o.Classes = append(o.Classes, "variable-1")
	default:
		o.Classes = append(o.Classes, "variable-other")
	}
	if c.Var != "" && want != refEastAsian(c.Loc.winner()) {
		o.Classes = append(o.Classes, "variable-overrides-locale")
	}
	return o
}

// probeText has ambiguous, wide, narrow and emoji characters.
const probeText = "☆①é世─❤\U0001F600½"

func probeReport(ea, defEA, defSt, newEA, newSt, st bool, w int, dw int, cell, text string, tw int) string {
	return fmt.Sprintf("flag=%v default=%v/%v new=%v/%v strict=%v width=%d/%d cell=%q text=%q tablewidth=%d", ea, defEA, defSt, newEA, newSt, st, w, dw, cell, text, tw)
}

func probeExpect(ea bool, text string, w int) string {
	cellW := func(s string) int { return min(65535, refStringWidth(refStrip(s), ea, true)) }
	pad := func(s string, n int) string { return s + spaces(max(0, n-cellW(s))) }
	pw := refStringWidth(probeText, ea, true)
	return probeReport(ea, ea, true, ea, true, true, pw, pw, pad(probeText, 40), pad(text, w), cellW(text))
}

// probeMain runs in a fresh process with the environment under test.
func probeMain(args []string) {
	text := args[0]
	w := 0
	fmt.Sscan(args[1], &w)
	n := runewidth.NewCondition()
	d := runewidth.DefaultCondition
	spec := table.NewTableSpec()
	spec.AddColumn(&table.Column{Name: "c", Getter: fixedGetter{0}})
	t := table.NewTable(spec)
	if _, err := t.FormatItem([]string{text}); err != nil {
		panic(err)
	}
	fmt.Println(probeReport(runewidth.EastAsianWidth, d.EastAsianWidth, d.StrictEmojiNeutral, n.EastAsianWidth, n.StrictEmojiNeutral, runewidth.StrictEmojiNeutral,
		runewidth.StringWidth(probeText), n.StringWidth(probeText), table.AlignmentLeft(probeText, 40), table.AlignmentLeft(text, uint16(w)), int(t.TableWidth(0))))
}

var _ = register(&Prop{
	ID: "C24", Quick: 12000, Thorough: 60000, Modes: []string{"ea0"},
	Rule: "one fresh process per case with a drawn environment, reporting its settings, widths and padding; non-trivial: the variable or a locale is set",
}, genEnv, checkEnv)

func genEnv(t *rapid.T) EnvCase {
	c := EnvCase{Loc: genLocaleCase(t), W: genInt(t, "w", 0, 40)}
	switch genInt(t, "var", 0, 4) {
	case 0, 1:
		c.Unst = rapid.Bool().Draw(t, "unset")
	case 2:
		c.Var = "1"
	case 3:
		c.Var = "0"
	case 4:
		c.Var = S(pick(t, "other", []string{"true", "yes", "01", "1 ", " 1", "11", "2", "on", "no", "-1", "１", " ", "TRUE", "1\n"}))
	}
	c.Text = S(strings.ReplaceAll(genCell(t, true), "\x00", "0"))
	return c
}
