package main

import (
	"bytes"
	"encoding/json"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// minimise shrinks a failing case on its JSON form, running every candidate in
// a fresh process. rapid has usually shrunk it before; this also covers
// crashes, hangs, races, sweeps and corpus cases, which rapid cannot shrink.
func minimise(r *Replay, dir string) *Replay {
	deadline := time.Now().Add(45 * time.Second)
	cpu := runawayCPU
	runaway := false
	if strings.HasPrefix(r.Message, "runaway") {
		cpu, runaway = 6, true
	}
	best := *r
	var tree any
	if decodeTree(r.Case, &tree) != nil {
		return r
	}
	for improved := true; improved && time.Now().Before(deadline); {
		improved = false
		for _, cand := range candidates(tree) {
			if time.Now().After(deadline) {
				break
			}
			b, err := json.Marshal(cand)
			if err != nil || len(b) > len(best.Case) && len(best.Case) > 0 || bytes.Equal(b, best.Case) {
				continue
			}
			try := best
			try.Case = b
			if msg, bad := tryCase(&try, dir, cpu); bad {
				try.Message = msg
				best, tree = try, cand
				improved = true
				break
			}
		}
	}
	if runaway {
		msg, bad := tryCase(&best, dir, runawayCPU)
		if !bad {
			return r
		}
		best.Message = msg
	}
	return &best
}

func decodeTree(b []byte, v *any) error {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	return d.Decode(v)
}

// candidates returns simpler variants of a JSON tree, boldest first.
func candidates(t any) []any {
	var out []any
	switch v := t.(type) {
	case []any:
		n := len(v)
		for size := n; size >= 1; size /= 2 {
			for i := 0; i+size <= n; i += size {
				c := append(append([]any{}, v[:i]...), v[i+size:]...)
				out = append(out, c)
			}
		}
		for i := range v {
			for _, x := range candidates(v[i]) {
				c := append([]any{}, v...)
				c[i] = x
				out = append(out, c)
			}
		}
	case map[string]any:
		keys := make([]string, 0, len(v))
		for k := range v {
			keys = append(keys, k)
		}
		sortStrings(keys)
		for _, k := range keys {
			for _, x := range candidates(v[k]) {
				c := map[string]any{}
				for kk, vv := range v {
					c[kk] = vv
				}
				c[k] = x
				out = append(out, c)
			}
		}
	case json.Number:
		n, err := v.Int64()
		if err != nil || n == 0 {
			break
		}
		tries := []int64{0, 1, n / 2, n - n/4, n - 1}
		if n < 0 {
			tries = []int64{0, -1, n / 2, n - n/4, n + 1}
		}
		for _, m := range tries {
			if abs(m) < abs(n) {
				out = append(out, json.Number(strconv.FormatInt(m, 10)))
			}
		}
	case bool:
		if v {
			out = append(out, false)
		}
	case string:
		s, err := strconv.Unquote(v)
		quoted := err == nil && strings.HasPrefix(v, `"`)
		if !quoted {
			s = v
		}
		add := func(x string) {
			if quoted {
				x = strconv.QuoteToASCII(x)
			}
			out = append(out, x)
		}
		if s == "" {
			break
		}
		add("")
		var parts []string
		for i := 0; i < len(s); {
			_, n := utf8.DecodeRuneInString(s[i:])
			parts = append(parts, s[i:i+n])
			i += n
		}
		for size := len(parts) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(parts); i += size {
				add(strings.Join(parts[:i], "") + strings.Join(parts[i+size:], ""))
				if len(out) > 60 {
					break
				}
			}
		}
	}
	return out
}

func abs(n int64) int64 {
	if n < 0 {
		return -n
	}
	return n
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}
