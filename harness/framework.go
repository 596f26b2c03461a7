package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/ilius/go-table/runewidth"
	"pgregory.net/rapid"
)

// S is a string that survives JSON byte for byte.
type S string

func (s S) MarshalJSON() ([]byte, error) {
	return json.Marshal(strconv.QuoteToASCII(string(s)))
}

func (s *S) UnmarshalJSON(b []byte) error {
	var q string
	if err := json.Unmarshal(b, &q); err != nil {
		return err
	}
	u, err := strconv.Unquote(q)
	if err != nil {
		return err
	}
	*s = S(u)
	return nil
}

// Outcome of one case.
type Outcome struct {
	Err        string // "" if the property held
	Skip       bool   // case outside the domain (only shrinking produces these)
	NonTrivial bool
	Classes    []string
}

func fail(format string, args ...any) Outcome {
	return Outcome{Err: fmt.Sprintf(format, args...)}
}

// Prop is one registered property.
type Prop struct {
	ID       string
	Rule     string
	Quick    int // generated cases, all workers together
	Thorough int
	Race     bool // needs the race-detector build
	Modes    []string
	Repeat   int // how often a replay runs the case (schedule-dependent ones)

	gen    func(*rapid.T) any
	check  func(any) Outcome
	decode func([]byte) (any, error)
	// sweep enumerates cases deterministically. It reports bulk evaluations
	// with w.bulk and suspicious cases with w.do.
	sweep func(w *worker)
}

var props = map[string]*Prop{}

func register[C any](p *Prop, gen func(*rapid.T) C, check func(C) Outcome) *Prop {
	p.gen = func(t *rapid.T) any { return gen(t) }
	p.check = func(c any) (o Outcome) {
		defer func() {
			if r := recover(); r != nil {
				o = fail("panic: %v\n%s", r, trimStack(debug.Stack()))
			}
		}()
		return check(c.(C))
	}
	p.decode = func(b []byte) (any, error) {
		var c C
		d := json.NewDecoder(bytes.NewReader(b))
		d.DisallowUnknownFields()
		err := d.Decode(&c)
		return c, err
	}
	if len(p.Modes) == 0 {
		p.Modes = []string{"ea0", "ea1", "ea0lut", "ea1lut"}
	}
	if p.Repeat == 0 {
		p.Repeat = 1
	}
	if props[p.ID] != nil {
		panic("duplicate " + p.ID)
	}
	props[p.ID] = p
	return p
}

func trimStack(b []byte) string {
	if len(b) > 1500 {
		b = b[:1500]
	}
	return string(b)
}

// ---- replay files --------------------------------------------------------

type Replay struct {
	Property string          `json:"property"`
	Kind     string          `json:"kind"` // "case" or "run"
	Mode     string          `json:"mode"`
	Case     json.RawMessage `json:"case,omitempty"`
	Run      *RunSpec        `json:"run,omitempty"`
	Message  string          `json:"message"`
	How      string          `json:"how,omitempty"`
}

type RunSpec struct {
	Tier    string `json:"tier"`
	Seed    uint64 `json:"seed"`
	Shard   int    `json:"shard"`
	NShards int    `json:"nshards"`
	Checks  int    `json:"checks"`
	Mode    string `json:"mode"`
}

// ---- worker --------------------------------------------------------------

type Stats struct {
	Evaluations int64            `json:"evaluations"`
	Bulk        int64            `json:"bulk"` // evaluations done inside sweeps, each distinct by construction
	BulkNT      int64            `json:"bulk_nontrivial"`
	NonTrivial  int64            `json:"nontrivial"`
	Skipped     int64            `json:"skipped"`
	Corpus      int64            `json:"corpus"`
	Classes     map[string]int64 `json:"classes"`
	Samples     []json.RawMessage
	Hashes      []uint64 `json:"-"`
}

type worker struct {
	p        *Prop
	spec     RunSpec
	out      string // prefix of output files
	stats    Stats
	seen     map[uint64]struct{}
	cur      []byte // mmap: length + JSON of the current case
	caseNo   atomic.Int64
	caseCPU  atomic.Int64
	failCase json.RawMessage
	failMsg  string
	quiet    bool
	cpuLimit time.Duration
}

func (w *worker) bulk(n, nontrivial int64) {
	w.stats.Evaluations += n
	w.stats.Bulk += n
	w.stats.BulkNT += nontrivial
	w.stats.NonTrivial += nontrivial
}

const curSize = 4 << 20

func cpuNow() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func (w *worker) openCur() {
	f, err := os.OpenFile(w.out+".cur", os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	must(err)
	must(f.Truncate(curSize))
	m, err := syscall.Mmap(int(f.Fd()), 0, curSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	must(err)
	w.cur = m
	f.Close()
}

func (w *worker) setCur(b []byte) {
	if len(b)+8 > curSize {
		binary.LittleEndian.PutUint64(w.cur, 0)
		return
	}
	binary.LittleEndian.PutUint64(w.cur, 0)
	copy(w.cur[8:], b)
	binary.LittleEndian.PutUint64(w.cur, uint64(len(b)))
}

func readCur(path string) json.RawMessage {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 8 {
		return nil
	}
	n := binary.LittleEndian.Uint64(b)
	if n == 0 || int(n) > len(b)-8 {
		return nil
	}
	return json.RawMessage(b[8 : 8+n])
}

// runawayCPU is the CPU time in seconds after which a case counts as not
// returning. The costliest generated case takes well under a second.
const runawayCPU = 60

// watchdog turns a case that burns CPU without returning, or memory without
// end, into a failure. Only CPU time counts: a busy machine cannot trip it.
// A case that is blocked (a deadlock) uses none: it is one during which the
// watchdog itself ran for as long while the process used next to no CPU time.
func (w *worker) watchdog() {
	var idleNo int64
	var idleCPU time.Duration
	idle := 0
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(100 * time.Millisecond)
		no, c0 := w.caseNo.Load(), w.caseCPU.Load()
		if c0 == 0 {
			continue
		}
		now := cpuNow()
		used := now - time.Duration(c0)
		if no != idleNo || now-idleCPU > time.Second {
			idleNo, idleCPU, idle = no, now, 0
		}
		if idle++; idle > int(w.cpuLimit/(100*time.Millisecond)) && w.caseNo.Load() == no && w.caseCPU.Load() == c0 {
			w.writeFailure(readCur(w.out+".cur"), fmt.Sprintf("runaway: the case is blocked: it did not finish within %v, using next to no CPU time", w.cpuLimit))
			os.Exit(exitFail)
		}
		metrics.Read(s)
		heap := s[0].Value.Uint64()
		if used > w.cpuLimit || (heap > 3<<30 && used > time.Second) {
			if w.caseNo.Load() != no || w.caseCPU.Load() != c0 {
				continue
			}
			msg := fmt.Sprintf("runaway: the case did not finish within %v of CPU time (heap %d MiB)", used.Round(time.Second), heap>>20)
			w.writeFailure(readCur(w.out+".cur"), msg)
			os.Exit(exitFail)
		}
	}
}

const (
	exitFail = 10 // the case, or the run, violated the property
	exitSkip = 11 // the case is outside the domain
)

func (w *worker) writeFailure(c json.RawMessage, msg string) {
	r := Replay{Property: w.p.ID, Kind: "case", Mode: w.spec.Mode, Case: c, Message: msg}
	b, err := json.MarshalIndent(r, "", " ")
	must(err)
	must(os.WriteFile(w.out+".fail", b, 0o644))
}

// do evaluates one case; false if it failed.
func (w *worker) do(c any) bool {
	b, err := json.Marshal(c)
	must(err)
	w.setCur(b)
	w.caseNo.Add(1)
	w.caseCPU.Store(int64(cpuNow()) | 1)
	o := w.p.check(c)
	w.caseCPU.Store(0)
	w.stats.Evaluations++
	if o.Skip {
		w.stats.Skipped++
		return true
	}
	for _, k := range o.Classes {
		w.stats.Classes[k]++
	}
	if o.NonTrivial {
		w.stats.NonTrivial++
		h := fnv.New64a()
		h.Write([]byte(w.spec.Mode))
		h.Write(b)
		w.seen[h.Sum64()] = struct{}{}
		if n := len(w.stats.Samples); n < 3 && len(b) < 1500 && w.stats.NonTrivial%37 == 1 {
			w.stats.Samples = append(w.stats.Samples, append(json.RawMessage(nil), b...))
		}
	}
	if o.Err != "" {
		w.failCase = append(json.RawMessage(nil), b...)
		w.failMsg = o.Err
		return false
	}
	return true
}

func (w *worker) finish() {
	for h := range w.seen {
		w.stats.Hashes = append(w.stats.Hashes, h)
	}
	sort.Slice(w.stats.Hashes, func(i, j int) bool { return w.stats.Hashes[i] < w.stats.Hashes[j] })
	buf := make([]byte, 8*len(w.stats.Hashes))
	for i, h := range w.stats.Hashes {
		binary.LittleEndian.PutUint64(buf[8*i:], h)
	}
	must(os.WriteFile(w.out+".hash", buf, 0o644))
	b, err := json.Marshal(w.stats)
	must(err)
	must(os.WriteFile(w.out+".stats", b, 0o644))
	if w.failCase != nil {
		w.writeFailure(w.failCase, w.failMsg)
		os.Exit(exitFail)
	}
	os.Exit(0)
}

// tb is the rapid.TB of a worker.
type tb struct{ failed bool }

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "verif" }
func (t *tb) Logf(f string, a ...any)   {}
func (t *tb) Log(a ...any)              {}
func (t *tb) Skipf(f string, a ...any)  { t.SkipNow() }
func (t *tb) Skip(a ...any)             { t.SkipNow() }
func (t *tb) SkipNow()                  { runtime.Goexit() }
func (t *tb) Errorf(f string, a ...any) { t.failed = true; fmt.Fprintf(os.Stderr, f+"\n", a...) }
func (t *tb) Error(a ...any)            { t.failed = true; fmt.Fprintln(os.Stderr, a...) }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); runtime.Goexit() }
func (t *tb) Fatal(a ...any)            { t.Error(a...); runtime.Goexit() }
func (t *tb) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

func modeName() string {
	n := "ea0"
	if modeEA {
		n = "ea1"
	}
	if modeLUT {
		n += "lut"
	}
	return n
}

func applyMode(mode string) {
	modeEA = mode == "ea1" || mode == "ea1lut"
	modeLUT = mode == "ea0lut" || mode == "ea1lut"
	runewidth.DefaultCondition.EastAsianWidth = modeEA
	runewidth.EastAsianWidth = modeEA
	if modeLUT {
		runewidth.CreateLUT()
	}
}

func workerMain(p *Prop, spec RunSpec, out string, corpus []json.RawMessage) {
	w := &worker{p: p, spec: spec, out: out, seen: map[uint64]struct{}{}, cpuLimit: runawayCPU * time.Second}
	w.stats.Classes = map[string]int64{}
	began := time.Now()
	w.openCur()
	applyMode(spec.Mode)
	go w.watchdog()
	for _, b := range corpus {
		c, err := p.decode(b)
		if err != nil {
			fmt.Fprintf(os.Stderr, "corpus case of %s does not decode: %v\n", p.ID, err)
			os.Exit(2)
		}
		w.stats.Corpus++
		if !w.do(c) {
			w.finish()
		}
	}
	if p.sweep != nil {
		p.sweep(w)
		if w.failCase != nil {
			w.finish()
		}
	}
	if spec.Checks > 0 {
		testing.Init()
		must(flag.CommandLine.Parse(nil))
		set := func(k, v string) { must(flag.Set(k, v)) }
		set("rapid.nofailfile", "true")
		set("rapid.shrinktime", "20s")
		// in chunks, so that a slow machine shortens the run instead of breaking it
		limit := 300 * time.Second
		if spec.Tier == "thorough" {
			limit = 3 * time.Hour
		}
		chunk := max(1, min(spec.Checks, spec.Checks/50+20))
		for done, i := 0, uint64(0); done < spec.Checks; done, i = done+chunk, i+1 {
			if time.Since(began) > limit {
				w.stats.Classes["stopped-early-by-time-limit"]++
				break
			}
			set("rapid.checks", strconv.Itoa(min(chunk, spec.Checks-done)))
			set("rapid.seed", strconv.FormatUint((spec.Seed+i*0x9E3779B97F4A7C15)>>1|1, 10))
			t := &tb{}
			fin := make(chan bool)
			go func() {
				defer close(fin)
				rapid.Check(t, func(rt *rapid.T) {
					if !w.do(p.gen(rt)) {
						rt.Fatal("property violated")
					}
				})
			}()
			<-fin
			if t.failed && w.failCase == nil {
				fmt.Fprintln(os.Stderr, "rapid failed without a failing case (generator problem)")
				os.Exit(2)
			}
			if w.failCase != nil {
				break
			}
		}
	}
	w.finish()
}

// replayMain runs one case in this process.
func replayMain(p *Prop, r *Replay, out string, cpu time.Duration) {
	w := &worker{p: p, spec: RunSpec{Mode: r.Mode}, out: out, seen: map[uint64]struct{}{}, cpuLimit: cpu}
	w.stats.Classes = map[string]int64{}
	w.openCur()
	c, err := p.decode(r.Case)
	if err != nil {
		os.Exit(exitSkip)
	}
	applyMode(r.Mode)
	go w.watchdog()
	for i := 0; i < p.Repeat; i++ {
		if !w.do(c) {
			w.writeFailure(w.failCase, w.failMsg)
			os.Exit(exitFail)
		}
		if w.stats.Skipped > 0 {
			os.Exit(exitSkip)
		}
	}
	os.Exit(0)
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(2)
	}
}

// keptTexts has strings the library returned and copies of them: they are the
// caller's and must not change afterwards.
type keptTexts struct{ is, was []string }

func (k *keptTexts) add(ss ...string) {
	if len(k.is) > 200 {
		return
	}
	for _, s := range ss {
		k.is, k.was = append(k.is, s), append(k.was, strings.Clone(s))
	}
}

func (k *keptTexts) changed() string {
	for i := range k.is {
		if k.is[i] != k.was[i] {
			return fmt.Sprintf("the text returned by a call was changed by a later one: it was %s and is %s", short(k.was[i]), short(k.is[i]))
		}
	}
	return ""
}
