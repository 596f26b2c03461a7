package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/ilius/go-table/runewidth"
)

const usage = `usage:
  harness run PROPERTY     (VERIF_SEED, VERIF_TIER from the environment)
  harness replay FILE
  harness list`

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, usage)
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		for _, id := range sortedIDs() {
			fmt.Println(id, props[id].Race)
		}
	case "run":
		runParent(mustProp(os.Args[2]))
	case "replay":
		os.Exit(replayParent(os.Args[2]))
	case "worker": // worker PROP SPECJSON OUT CORPUS
		var spec RunSpec
		must(json.Unmarshal([]byte(os.Args[3]), &spec))
		workerMain(mustProp(os.Args[2]), spec, os.Args[4], loadCorpus(os.Args[5]))
	case "one": // one FILE OUT CPUSECONDS
		r := loadReplay(os.Args[2])
		sec, err := strconv.Atoi(os.Args[4])
		must(err)
		replayMain(mustProp(r.Property), r, os.Args[3], time.Duration(sec)*time.Second)
	case "probe":
		probeMain(os.Args[2:])
	case "fresh": // fresh MODE EA STRICT, string on standard input: measure it
		b, err := io.ReadAll(os.Stdin)
		must(err)
		applyMode(os.Args[2])
		runewidth.DefaultCondition.EastAsianWidth = os.Args[3] == "true"
		runewidth.DefaultCondition.StrictEmojiNeutral = os.Args[4] == "true"
		fmt.Println(measure(string(b)))
	case "seq": // seq MODE, case of C15 on standard input: run it without concurrency
		b, err := io.ReadAll(os.Stdin)
		must(err)
		applyMode(os.Args[2])
		var c ConcCase
		must(json.Unmarshal(b, &c))
		if runConc(c, true).Err != "" {
			os.Exit(exitFail)
		}
	default:
		fmt.Fprintln(os.Stderr, usage)
		os.Exit(2)
	}
}

func sortedIDs() []string {
	var ids []string
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

func mustProp(id string) *Prop {
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(2)
	}
	return p
}

func loadReplay(path string) *Replay {
	b, err := os.ReadFile(path)
	must(err)
	var r Replay
	must(json.Unmarshal(b, &r))
	return &r
}

func loadCorpus(path string) []json.RawMessage {
	f, err := os.Open(path)
	if errors.Is(err, os.ErrNotExist) {
		return nil
	}
	must(err)
	defer f.Close()
	var out []json.RawMessage
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 16<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if l != "" && !strings.HasPrefix(l, "//") {
			out = append(out, json.RawMessage(l))
		}
	}
	must(sc.Err())
	return out
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// modeEnv has variables that nothing may depend on; half of the modes have them.
func modeEnv(mode string) []string {
	if !strings.HasSuffix(mode, "lut") {
		return nil
	}
	return []string{"COLUMNS=37", "LINES=7", "NO_COLOR=1", "TERM=dumb", "CLICOLOR=0", "FORCE_COLOR=1", "COLORTERM=truecolor", "TZ=Asia/Tokyo", "CI=1", "WT_SESSION=1", "TERM_PROGRAM=vscode"}
}

// cleanEnv is the environment of every child: no locale influence.
func cleanEnv(extra ...string) []string {
	var env []string
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "COLUMNS", "LINES", "NO_COLOR", "TERM", "CLICOLOR", "FORCE_COLOR", "COLORTERM", "TZ", "CI", "WT_SESSION", "TERM_PROGRAM", "LANG", "LC_ALL", "LC_CTYPE", "RUNEWIDTH_EASTASIAN", "GORACE", "GOTRACEBACK", "GOMAXPROCS":
			continue
		}
		if strings.HasPrefix(k, "RAPID_") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "LANG=C.UTF-8", "GORACE=halt_on_error=1 exitcode=66")
	return append(env, extra...)
}

type childResult struct {
	code   int // -1: killed or could not run
	stderr string
	fail   *Replay
	killed bool
}

func tail(b []byte, n int) string {
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}

func head(b []byte, n int) string {
	if len(b) > n {
		b = b[:n]
	}
	return string(b)
}

func runChild(ctx context.Context, out string, env []string, args ...string) childResult {
	self, err := os.Executable()
	must(err)
	cmd := exec.CommandContext(ctx, self, args...)
	cmd.Env = env
	var eb bytes.Buffer
	cmd.Stderr = &eb
	err = cmd.Run()
	res := childResult{stderr: head(eb.Bytes(), 4000)}
	if ctx.Err() != nil {
		res.code, res.killed = -1, true
		return res
	}
	var ee *exec.ExitError
	switch {
	case err == nil:
	case errors.As(err, &ee):
		res.code = ee.ExitCode()
	default:
		res.code = -1
		res.stderr += err.Error()
	}
	if b, e := os.ReadFile(out + ".fail"); e == nil {
		var r Replay
		if json.Unmarshal(b, &r) == nil {
			res.fail = &r
		}
	}
	return res
}

// crashMessage recognises a fatal error of the Go runtime or a race report:
// verdicts about the code, unlike a kill from outside.
func crashMessage(r childResult) string {
	switch {
	case r.code == 66 && strings.Contains(r.stderr, "DATA RACE"):
		return "data race:\n" + r.stderr
	case r.code == 2 && (strings.Contains(r.stderr, "fatal error: ") || strings.Contains(r.stderr, "panic: ")) &&
		!strings.Contains(r.stderr, "out of memory") && !strings.Contains(r.stderr, "cannot allocate"):
		return "crash:\n" + r.stderr
	}
	return ""
}

// verdict of running one case in a fresh process: failing message or "".
func tryCase(rp *Replay, dir string, cpu int) (string, bool) {
	b, err := json.Marshal(rp)
	must(err)
	in := filepath.Join(dir, "try.json")
	out := filepath.Join(dir, "try")
	must(os.WriteFile(in, b, 0o644))
	os.Remove(out + ".fail")
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	r := runChild(ctx, out, cleanEnv(modeEnv(rp.Mode)...), "one", in, out, strconv.Itoa(cpu))
	if r.code == exitFail && r.fail != nil {
		return r.fail.Message, true
	}
	if m := crashMessage(r); m != "" {
		return m, true
	}
	return "", false
}

func seedFor(id string, seed, shard int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", id, seed, shard)
	return h.Sum64()&0x7fffffffffffffff | 1
}

func runParent(p *Prop) {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := 1
	if v := os.Getenv("VERIF_SEED"); v != "" {
		n, err := strconv.Atoi(v)
		if err != nil {
			h := fnv.New32a()
			h.Write([]byte(v))
			n = int(h.Sum32())
		}
		seed = n
	}
	total := p.Quick
	budget := 700 * time.Second
	if tier == "thorough" {
		total = p.Thorough
		budget = 4 * time.Hour
	}
	const nshards = 8
	tmp, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	must(err)
	defer os.RemoveAll(tmp)
	corpus := filepath.Join(verifDir(), "corpus", p.ID+".jsonl")

	ctx, cancel := context.WithTimeout(context.Background(), budget)
	defer cancel()
	results := make([]childResult, nshards)
	specs := make([]RunSpec, nshards)
	outs := make([]string, nshards)
	var wg sync.WaitGroup
	for i := 0; i < nshards; i++ {
		specs[i] = RunSpec{
			Tier: tier, Seed: seedFor(p.ID, seed, i), Shard: i, NShards: nshards,
			Checks: (total + nshards - 1) / nshards, Mode: p.Modes[i%len(p.Modes)],
		}
		outs[i] = filepath.Join(tmp, fmt.Sprintf("w%d", i))
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sp, err := json.Marshal(specs[i])
			must(err)
			results[i] = runChild(ctx, outs[i], cleanEnv(modeEnv(specs[i].Mode)...), "worker", p.ID, string(sp), outs[i], corpus)
			if results[i].code != 0 && results[i].code != -1 {
				// one failure is enough: give the others a moment, then stop them
				go func() { time.Sleep(20 * time.Second); cancel() }()
			}
		}(i)
	}
	wg.Wait()

	// collect candidate failures
	var cands []*Replay
	var runCands []int
	var trouble []string
	for i, r := range results {
		switch {
		case r.code == 0:
		case r.code == exitFail && r.fail != nil && r.fail.Case != nil:
			cands = append(cands, r.fail)
			runCands = append(runCands, i)
		case crashMessage(r) != "":
			if c := readCur(outs[i] + ".cur"); c != nil {
				cands = append(cands, &Replay{Property: p.ID, Kind: "case", Mode: specs[i].Mode, Case: append(json.RawMessage(nil), c...), Message: crashMessage(r)})
			}
			runCands = append(runCands, i)
		case r.killed:
			trouble = append(trouble, fmt.Sprintf("worker %d stopped (budget or another worker's failure)", i))
		default:
			trouble = append(trouble, fmt.Sprintf("worker %d: exit %d: %s", i, r.code, r.stderr))
		}
	}
	violation := ""
	if len(cands)+len(runCands) > 0 {
		sort.SliceStable(cands, func(i, j int) bool { return len(cands[i].Case) < len(cands[j].Case) })
		for _, c := range cands {
			msg, bad := tryCase(c, tmp, runawayCPU)
			if !bad {
				continue
			}
			c.Message = msg
			c = minimise(c, tmp)
			violation = writeReplay(p, c)
			fmt.Printf("%s violated: %s\ncase: %s\n", p.ID, head([]byte(c.Message), 3000), head(c.Case, 3000))
			break
		}
		if violation == "" {
			// not reproducible from a single case: the history of the run matters
			for _, i := range runCands {
				rp := &Replay{Property: p.ID, Kind: "run", Mode: specs[i].Mode, Run: &specs[i]}
				if msg, bad := tryRun(rp, tmp); bad {
					rp.Message = msg
					violation = writeReplay(p, rp)
					fmt.Printf("%s violated (needs the whole run): %s\n", p.ID, head([]byte(msg), 3000))
					break
				}
			}
		}
		if violation == "" {
			trouble = append(trouble, "a worker reported a failure that does not reproduce: "+head([]byte(cands2(cands)), 2000))
		}
	}
	writeEvidence(p, tier, seed, specs, results, outs, start, violation != "")
	if violation != "" {
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, violation)
		os.RemoveAll(tmp)
		os.Exit(1)
	}
	if len(trouble) > 0 {
		fmt.Fprintln(os.Stderr, "check inconclusive:", strings.Join(trouble, "\n"))
		os.RemoveAll(tmp)
		os.Exit(3)
	}
	fmt.Printf("%s held (%s, seed %d, %.1fs)\n", p.ID, tier, seed, time.Since(start).Seconds())
}

func cands2(cs []*Replay) string {
	if len(cs) == 0 {
		return "(no case)"
	}
	return cs[0].Message + " " + string(cs[0].Case)
}

func tryRun(rp *Replay, dir string) (string, bool) {
	out := filepath.Join(dir, "tryrun")
	os.Remove(out + ".fail")
	sp, err := json.Marshal(rp.Run)
	must(err)
	ctx, cancel := context.WithTimeout(context.Background(), 600*time.Second)
	defer cancel()
	corpus := filepath.Join(verifDir(), "corpus", rp.Property+".jsonl")
	r := runChild(ctx, out, cleanEnv(modeEnv(rp.Run.Mode)...), "worker", rp.Property, string(sp), out, corpus)
	if r.code == exitFail && r.fail != nil {
		return r.fail.Message + "\nlast case: " + string(r.fail.Case), true
	}
	if m := crashMessage(r); m != "" {
		return m, true
	}
	return "", false
}

func writeReplay(p *Prop, r *Replay) string {
	dir := filepath.Join(verifDir(), "replays")
	must(os.MkdirAll(dir, 0o755))
	path := filepath.Join(dir, p.ID+".json")
	r.How = "bash /verif/check.sh replay " + path
	b, err := json.MarshalIndent(r, "", " ")
	must(err)
	must(os.WriteFile(path, b, 0o644))
	return path
}

func replayParent(path string) int {
	r := loadReplay(path)
	p := mustProp(r.Property)
	tmp, err := os.MkdirTemp("", "verif-replay-")
	must(err)
	defer os.RemoveAll(tmp)
	var msg string
	var bad bool
	if r.Kind == "run" {
		msg, bad = tryRun(r, tmp)
	} else {
		msg, bad = tryCase(r, tmp, runawayCPU)
	}
	if bad {
		fmt.Println(msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	fmt.Println("replay passes")
	return 0
}

// ---- evidence ------------------------------------------------------------

func writeEvidence(p *Prop, tier string, seed int, specs []RunSpec, results []childResult, outs []string, start time.Time, violated bool) {
	var sum Stats
	sum.Classes = map[string]int64{}
	var hashes []uint64
	var samples []any
	modes := map[string]bool{}
	for i := range outs {
		b, err := os.ReadFile(outs[i] + ".stats")
		if err != nil {
			continue
		}
		var s Stats
		must(json.Unmarshal(b, &s))
		modes[specs[i].Mode] = true
		sum.Evaluations += s.Evaluations
		sum.Bulk += s.Bulk
		sum.BulkNT += s.BulkNT
		sum.NonTrivial += s.NonTrivial
		sum.Skipped += s.Skipped
		sum.Corpus += s.Corpus
		for k, v := range s.Classes {
			sum.Classes[k] += v
		}
		if len(samples) < 6 {
			for _, x := range s.Samples {
				samples = append(samples, map[string]any{"mode": specs[i].Mode, "case": x})
			}
		}
		hb, err := os.ReadFile(outs[i] + ".hash")
		must(err)
		for j := 0; j+8 <= len(hb); j += 8 {
			hashes = append(hashes, binary.LittleEndian.Uint64(hb[j:]))
		}
	}
	sort.Slice(hashes, func(i, j int) bool { return hashes[i] < hashes[j] })
	distinct := int64(0)
	for i, h := range hashes {
		if i == 0 || h != hashes[i-1] {
			distinct++
		}
	}
	var ms []string
	for m := range modes {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	viol := 0
	if violated {
		viol = 1
	}
	if samples == nil {
		samples = []any{}
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":                       sum.Evaluations,
			"distinct_nontrivial":               distinct + sum.BulkNT,
			"rule":                              p.Rule,
			"samples":                           samples,
			"generated_cases":                   sum.Evaluations - sum.Bulk - sum.Corpus,
			"enumerated_by_sweep":               sum.Bulk,
			"corpus_cases":                      sum.Corpus,
			"out_of_domain":                     sum.Skipped,
			"classes":                           sum.Classes,
			"modes_east_asian_and_lookup_table": ms,
		},
		"assumptions": []string{
			"the oracle is the independent model in harness/model.go over Unicode data from Perl's UCD (data/ucd.txt)",
			"a pass means no counterexample among the cases explored, not their absence",
		},
		"wall_s": time.Since(start).Seconds(), "violations": viol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	dir := filepath.Join(verifDir(), "evidence")
	must(os.MkdirAll(dir, 0o755))
	must(os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644))
}

// runProbe starts this program afresh with exactly the given environment.
func runProbe(env []string, text string, w int) (string, error) {
	self, err := os.Executable()
	must(err)
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, "probe", text, strconv.Itoa(w))
	cmd.Env = env
	if env == nil {
		cmd.Env = []string{"X=1"}
	}
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, head(eb.Bytes(), 1500))
	}
	return strings.TrimSuffix(string(out), "\n"), nil
}

// inFresh runs this program afresh on some input and returns its output and exit code.
func inFresh(input string, args ...string) (string, int) {
	self, err := os.Executable()
	must(err)
	cmd := exec.Command(self, args...)
	cmd.Env = cleanEnv()
	cmd.Stdin = strings.NewReader(input)
	out, err := cmd.Output()
	code := 0
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		code = ee.ExitCode()
	} else {
		must(err)
	}
	return strings.TrimSpace(string(out)), code
}
