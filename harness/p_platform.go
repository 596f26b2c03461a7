package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"
	"verifharness/peer"
)

// check.sh builds programs for other platforms into VERIF_PEERS: x386 (32 bits),
// js (WebAssembly, run by node), appengine (that build tag) and windows (the
// Windows code with a stand-in for the system calls).

func peerCommand(plat string, args ...string) ([]string, error) {
	dir := os.Getenv("VERIF_PEERS")
	if dir == "" {
		must(errors.New("VERIF_PEERS is not set"))
	}
	if b, err := os.ReadFile(filepath.Join(dir, plat+".broken")); err == nil {
		return nil, fmt.Errorf("the package builds here but not for %s: %s", plat, head(b, 1500))
	}
	bin := filepath.Join(dir, plat)
	if plat == "js" {
		b, err := os.ReadFile(filepath.Join(dir, "wasm_exec"))
		must(err)
		return append([]string{"node", strings.TrimSpace(string(b)), bin}, args...), nil
	}
	return append([]string{bin}, args...), nil
}

// skippedPlatform tells that programs for the platform do not run in this sandbox.
func skippedPlatform(plat string) bool {
	b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_PEERS"), "skipped"))
	if errors.Is(err, fs.ErrNotExist) {
		return false
	}
	must(err)
	return slices.Contains(strings.Fields(string(b)), plat)
}

type peerProc struct {
	cmd *exec.Cmd
	in  *os.File
	out *bufio.Reader
	err bytes.Buffer
}

var peerProcs = map[string]*peerProc{}

func startPeer(plat string) (*peerProc, error) {
	if p := peerProcs[plat]; p != nil {
		return p, nil
	}
	args, err := peerCommand(plat, strconv.FormatBool(modeEA), strconv.FormatBool(modeLUT))
	if err != nil {
		return nil, err
	}
	p := &peerProc{cmd: exec.Command(args[0], args[1:]...)}
	p.cmd.Env = cleanEnv()
	ir, iw, err := os.Pipe()
	must(err)
	or, ow, err := os.Pipe()
	must(err)
	p.cmd.Stdin, p.cmd.Stdout, p.cmd.Stderr = ir, ow, &p.err
	must(p.cmd.Start())
	ir.Close()
	ow.Close()
	p.in, p.out = iw, bufio.NewReaderSize(or, 1<<16)
	peerProcs[plat] = p
	return p, nil
}

// ask gets the answer of another platform. A program that dies, or gives no
// answer for two minutes, is an error.
func ask(plat string, r peer.Request) (string, error) {
	p, err := startPeer(plat)
	if err != nil {
		return "", err
	}
	b, err := json.Marshal(r)
	must(err)
	timer := time.AfterFunc(120*time.Second, func() { p.cmd.Process.Kill() })
	go p.in.Write(append(b, '\n'))
	l, err := p.out.ReadBytes('\n')
	if err == nil && timer.Stop() {
		var ans []byte
		must(json.Unmarshal(l, &ans))
		return string(ans), nil
	}
	p.in.Close()
	delete(peerProcs, plat)
	if !timer.Stop() {
		p.cmd.Wait()
		return "", errors.New("no answer within two minutes")
	}
	werr := p.cmd.Wait()
	if nodeDied(plat, werr, p.err.Bytes()) {
		return "", errNode
	}
	return "", fmt.Errorf("it ended instead of answering: %v: %s", werr, head(p.err.Bytes(), 1500))
}

var errNode = errors.New("node died")

// Long or odd locale names make node itself crash before it runs anything.
// nodeDied tells the death of node itself from that of the program it runs.
func nodeDied(plat string, err error, stderr []byte) bool {
	return plat == "js" && err != nil && !bytes.Contains(stderr, []byte("panic:")) && !bytes.Contains(stderr, []byte("fatal error:"))
}

// ---- C29 -----------------------------------------------------------------

type PlatCase struct {
	Plat            string
	Op              string
	G               *GridCase `json:",omitempty"`
	Text            S
	W               int32
	Rune            int32
	EA, Strict, LUT bool
}

func (c PlatCase) request() (peer.Request, bool) {
	r := peer.Request{Op: c.Op, W: c.W, EA: c.EA, Strict: c.Strict, LUT: c.LUT, Rune: c.Rune}
	switch c.Op {
	case "grid":
		if c.G == nil {
			return r, false
		}
		g, ok := c.G.build()
		if !ok {
			return r, false
		}
		for _, x := range c.G.Cols {
			r.Cols = append(r.Cols, peer.Col{Name: []byte(x.Name), Title: []byte(x.Name), Align: min(x.Align, 4)})
		}
		for _, row := range g.rows {
			var cells [][]byte
			for _, s := range row {
				cells = append(cells, []byte(s))
			}
			r.Rows = append(r.Rows, cells)
		}
		r.Upd, r.Sep, r.Compact, r.Vertical = c.G.Upd, []byte(c.G.Sep), c.G.Compact, c.G.Vertical
		r.W = int32(max(math.MinInt32, min(math.MaxInt32, c.G.W)))
	case "text":
		r.Text = []byte(c.Text)
		return r, c.W >= 0 && c.W <= 65535
	case "runes":
		return r, c.W > 0 && c.W <= 1<<16 && c.Rune >= -1<<20 && c.Rune <= 1<<21
	}
	return r, true
}

var platforms = []string{"x386", "js", "appengine"}

func checkPlatform(c PlatCase) Outcome {
	r, ok := c.request()
	if !ok || !slices.Contains(platforms, c.Plat) {
		return Outcome{Skip: true}
	}
	if skippedPlatform(c.Plat) {
		return Outcome{Classes: []string{"not-run-here-" + c.Plat}}
	}
	here := peer.Answer(r)
	there, err := ask(c.Plat, r)
	for i := 0; err == errNode && i < 3; i++ {
		there, err = ask(c.Plat, r)
	}
	if err == errNode {
		return Outcome{Classes: []string{"node-died"}}
	}
	if err != nil {
		return fail("platform %s: %v", c.Plat, err)
	}
	if there != here {
		return fail("platform %s gives %s, this one %s", c.Plat, short(there), short(here))
	}
	return Outcome{NonTrivial: c.Op != "grid" || len(c.G.Rows)+c.G.Auto > 0, Classes: []string{c.Op + "-" + c.Plat}}
}

var _ = register(&Prop{
	ID: "C29", Quick: 150000, Thorough: 2000000,
	Rule:  "grids (with headers, rows, widths), texts (widths, clusters, padding) and characters, the answers of a 32-bit, a WebAssembly and an appengine build compared with those of this one; sweep: every character in blocks; non-trivial: not an empty list",
	sweep: sweepPlatforms,
}, func(t *rapid.T) PlatCase {
	c := PlatCase{Plat: pick(t, "plat", []string{"x386", "x386", "js", "appengine"})}
	c.EA, c.Strict, c.LUT = rapid.Bool().Draw(t, "ea"), rapid.Bool().Draw(t, "strict"), rapid.Bool().Draw(t, "lut")
	switch genInt(t, "op", 0, 9) {
	case 0:
		c.Op = "rune"
		c.Rune = int32(genRune(t))
		if chance(t, "odd", 30) {
			c.Rune = pick(t, "oddrune", []int32{-1, 0, math.MaxInt32, math.MinInt32, 0x110000, 0xD800, 0xDFFF, 0xFFFD, 0x10FFFF, 0x1FFFFF, -0x300, 1 << 30})
		}
	case 1, 2, 3:
		c.Op = "text"
		c.W = int32(genInt(t, "w", 0, 40))
		if chance(t, "wide", 10) {
			c.W = pick(t, "widew", []int32{255, 256, 300, 1000, 32767, 32768, 65535})
		}
		if rapid.Bool().Draw(t, "classes") {
			c.Text = S(genClassText(t))
		} else {
			c.Text = S(genText(t, 6, true) + genCell(t, true))
		}
	default:
		c.Op = "grid"
		g := genGrid(t, gridOpts{cell: plainCell, maxAlign: nAl - 1, big: true, mid: true})
		c.G = &g
	}
	return c
}, checkPlatform)

func sweepPlatforms(w *worker) {
	const block = 1 << 14
	n := 0
	for _, p := range platforms {
		for from := int32(0); from < 0x120000; from += block {
			for k := range 8 {
				n++
				if n%w.spec.NShards != w.spec.Shard {
					continue
				}
				if !w.do(PlatCase{Plat: p, Op: "runes", Rune: from, W: block, EA: k&1 > 0, Strict: k&2 > 0, LUT: k&4 > 0}) {
					return
				}
			}
		}
	}
}

// ---- C30 -----------------------------------------------------------------

type OtherCase struct {
	Plat  string
	Loc   LocaleCase
	Var   S
	Unst  bool
	CP    int // the console's output code page (windows)
	Other int // what the other code pages are
	Text  S
	W     int
}

var eastAsianPages = []int{932, 51932, 936, 949, 950}

func checkOther(c OtherCase) Outcome {
	e := EnvCase{Loc: c.Loc, Var: c.Var, Unst: c.Unst, Text: c.Text, W: c.W}
	if !e.valid() || !slices.Contains([]string{"js", "appengine", "windows"}, c.Plat) || c.CP < 0 || c.Other < 0 || c.CP > 1<<31 || c.Other > 1<<31 {
		return Outcome{Skip: true}
	}
	if skippedPlatform(c.Plat) {
		return Outcome{Classes: []string{"not-run-here-" + c.Plat}}
	}
	args, err := peerCommand(c.Plat, "probe", strconv.QuoteToASCII(string(c.Text)), strconv.Itoa(c.W))
	if err != nil {
		return fail("%v", err)
	}
	env := e.environment()
	loc := false
	if c.Plat == "windows" {
		env = append(env, fmt.Sprint("VERIF_OUTPUT_CP=", c.CP), fmt.Sprint("VERIF_OTHER_CP=", c.Other))
		loc = slices.Contains(eastAsianPages, c.CP)
	}
	want := loc
	if c.Var != "" {
		want = c.Var == "1"
	}
	var b []byte
	var eb bytes.Buffer
	for i := 0; i < 4; i++ {
		ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
		cmd := exec.CommandContext(ctx, args[0], args[1:]...)
		cmd.Env = append(env, "PATH="+os.Getenv("PATH"))
		eb.Reset()
		cmd.Stderr = &eb
		b, err = cmd.Output()
		late := ctx.Err() != nil
		cancel()
		if late || !nodeDied(c.Plat, err, eb.Bytes()) {
			break
		}
		if i == 3 {
			return Outcome{Classes: []string{"node-died"}}
		}
	}
	if err != nil {
		return fail("platform %s: a process with environment %q could not report its settings: %v: %s", c.Plat, env, err, head(eb.Bytes(), 1500))
	}
	out := strings.TrimSuffix(string(b), "\n")
	pw := refStringWidth(peer.ProbeText, want, true)
	cell := string(c.Text) + spaces(max(0, c.W-min(65535, refStringWidth(refStrip(string(c.Text)), want, true))))
	exp := fmt.Sprintf("locale=%v flag=%v default=%v new=%v strict=true/true/true width=%d/%d cell=%q", loc, want, want, want, pw, pw, cell)
	if out != exp {
		return fail("platform %s, environment %q: the process reports %s, must be %s", c.Plat, env, out, exp)
	}
	o := Outcome{NonTrivial: c.Var != "" || c.Loc.winner() != "" || c.Plat == "windows", Classes: []string{c.Plat}}
	if want {
		o.Classes = append(o.Classes, c.Plat+"-on")
	}
	if c.Plat != "windows" && refEastAsian(c.Loc.winner()) {
		o.Classes = append(o.Classes, "east-asian-locale-ignored")
	}
	return o
}

var _ = register(&Prop{
	ID: "C30", Quick: 6000, Thorough: 60000, Modes: []string{"ea0"},
	Rule: "one fresh process per case, with a drawn environment and (Windows stand-in) code pages, reporting its settings, widths and padding; non-trivial: a code page, the variable or a locale is set",
}, func(t *rapid.T) OtherCase {
	var c OtherCase
	switch k := genInt(t, "plat", 0, 99); {
	case k < 3:
		c.Plat = "js"
	case k < 45:
		c.Plat = "appengine"
	default:
		c.Plat = "windows"
		page := func() int {
			switch genInt(t, "pagekind", 0, 4) {
			case 0, 1:
				return pick(t, "east", eastAsianPages)
			case 2:
				return pick(t, "page", []int{0, 65001, 437, 850, 1252, 874, 1361, 20932, 20936, 50220, 50225, 51936, 51949, 51950, 52936, 54936, 10001, 10002, 10003, 10008, 1200, 708, 932 + 65536, 936 << 1})
			case 3:
				return pick(t, "near", eastAsianPages) + genInt(t, "by", -3, 3)
			}
			return genInt(t, "any", 1, 65535)
		}
		c.CP, c.Other = page(), page()
	}
	e := genEnv(t)
	c.Loc, c.Var, c.Unst, c.Text, c.W = e.Loc, e.Var, e.Unst, e.Text, e.W
	return c
}, checkOther)
