// Package vh is the verification harness: generators, reference models and the
// runner. It does not import the code under test.
package vh

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// T is the source of all random choices.
type T = rapid.T

// Ctx collects what one execution of a check observed.
type Ctx struct {
	labels  []string
	trivial bool
	nt      bool
	skipped string
}

// Label classifies the case.
func (c *Ctx) Label(l string) { c.labels = append(c.labels, l) }

// LabelIf classifies the case if cond holds.
func (c *Ctx) LabelIf(cond bool, l string) {
	if cond {
		c.labels = append(c.labels, l)
	}
}

// NonTrivial marks the case as non-trivial under the check's stated rule.
func (c *Ctx) NonTrivial(cond bool) {
	if cond {
		c.nt = true
	}
}

// Skip says that the oracle makes no claim on this case (counted separately).
func (c *Ctx) Skip(why string) { c.skipped = why }

type sample struct {
	Check string          `json:"check"`
	Case  json.RawMessage `json:"case"`
}

type stats struct {
	Check      string         `json:"check"`
	Rule       string         `json:"rule"`
	Evals      int            `json:"evals"`
	Corpus     int            `json:"corpus"`
	NonTrivial int            `json:"nontrivial"`
	Skipped    map[string]int `json:"skipped"`
	Labels     map[string]int `json:"labels"`
	Samples    []sample       `json:"samples"`
	Deadline   bool           `json:"deadline"`
	Failed     string         `json:"failed"`
	WallS      float64        `json:"wall_s"`
	hashes     map[uint64]struct{}
}

// Case file written for every failure; the last one written is the shrunk one.
type caseFile struct {
	Property string          `json:"property"`
	Check    string          `json:"check"`
	Error    string          `json:"error,omitempty"`
	Case     json.RawMessage `json:"case"`
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

var (
	outDir    = os.Getenv("VH_OUT")
	shard     = envInt("VH_SHARD", 0)
	nShards   = envInt("VH_SHARDS", 1)
	seed      = envInt("VH_SEED", 1)
	scale     = envInt("VH_SCALE", 100) // percent of the quick case budget
	record    = os.Getenv("VH_RECORD") != ""
	replay    = os.Getenv("VH_REPLAY")
	corpusDir = os.Getenv("VH_CORPUS")
	hangSecs  = envInt("VH_HANG", 60)
	deadline  = time.Now().Add(time.Duration(envInt("VH_DEADLINE", 300)) * time.Second)
	started   = time.Now()
)

const (
	exitHang = 97
	exitMem  = 98
)

var curCase atomic.Value // func() caseFile
var curStart atomic.Int64

func init() {
	debug.SetMaxStack(64 << 20)
}

func writeJSON(path string, v interface{}) {
	b, err := json.Marshal(v)
	if err == nil {
		tmp := path + ".tmp"
		if os.WriteFile(tmp, b, 0o644) == nil {
			_ = os.Rename(tmp, path)
		}
	}
}

func caseJSON(prop, check string, c interface{}, msg string) caseFile {
	b, _ := json.Marshal(c)
	return caseFile{Property: prop, Check: check, Error: msg, Case: b}
}

// StartWatchdog ends the process when a single case runs for far too long or
// memory grows without bound, leaving the case behind.
func StartWatchdog() {
	go func() {
		var ms runtime.MemStats
		for {
			time.Sleep(500 * time.Millisecond)
			s := curStart.Load()
			if s == 0 {
				continue
			}
			code := 0
			if time.Since(time.Unix(0, s)) > time.Duration(hangSecs)*time.Second {
				code = exitHang
			} else {
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > 2500<<20 {
					code = exitMem
				}
			}
			if code != 0 {
				if f, ok := curCase.Load().(func() caseFile); ok && outDir != "" {
					cf := f()
					if code == exitHang {
						cf.Error = "the case does not terminate"
					} else {
						cf.Error = "the case uses memory without bound"
					}
					writeJSON(filepath.Join(outDir, fmt.Sprintf("stuck-%d.json", shard)), cf)
				}
				os.Exit(code)
			}
		}
	}()
}

// Spec describes one generated check.
type Spec[C any] struct {
	Prop  string // property id
	Name  string // check name, unique within the property
	Rule  string // when a case counts as non-trivial
	Cases int    // cases over all shards in the quick tier
	Gen   func(*T) C
	Check func(*Ctx, C) error
	// If the oracle stands on any bytes: the text of a case, for the fuzzer to change.
	Get func(C) []byte
	Set func(C, []byte) C
}

func runOracle[C any](s Spec[C], c C) (ctx *Ctx, err error) {
	ctx = &Ctx{}
	curCase.Store(func() caseFile { return caseJSON(s.Prop, s.Name, c, "") })
	curStart.Store(time.Now().UnixNano())
	defer func() {
		curStart.Store(0)
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	err = s.Check(ctx, c)
	return
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

var fuzzF *testing.F

// Fuzz runs a check's generator on the bytes of Go's coverage-guided fuzzer.
func Fuzz(f *testing.F, test func(*testing.T)) {
	fuzzF = f
	test(nil)
}

// fuzzSeed gives the random choices a fuzzing run starts with.
func fuzzSeed(name string, i int) []byte {
	r := rand.New(rand.NewSource(int64(chunkSeed(name, i))))
	b := make([]byte, 1024<<(i%4))
	r.Read(b)
	return b
}

// Run executes the check: a replay file, or the saved corpus and then generated cases.
func Run[C any](t *testing.T, s Spec[C]) {
	if replay != "" {
		runReplay(t, s)
		return
	}
	st := &stats{Check: s.Name, Rule: s.Rule, Skipped: map[string]int{}, Labels: map[string]int{}, hashes: map[uint64]struct{}{}}
	begin := time.Now()
	failPath := filepath.Join(outDir, fmt.Sprintf("fail-%s-%d.json", s.Name, shard))
	recPath := filepath.Join(outDir, fmt.Sprintf("record-%d.json", shard))
	flush := func(name string) {
		st.WallS = time.Since(begin).Seconds()
		if outDir != "" {
			writeJSON(filepath.Join(outDir, "stats-"+name+".json"), st)
			buf := make([]byte, 0, 8*len(st.hashes))
			for h := range st.hashes {
				buf = binary.LittleEndian.AppendUint64(buf, h)
			}
			_ = os.WriteFile(filepath.Join(outDir, "hash-"+name+".bin"), buf, 0o644)
		}
	}
	if fuzzF == nil {
		defer func() { flush(fmt.Sprintf("%s-%d", s.Name, shard)) }()
	}
	nextSample := 1
	one := func(c C, corpus bool) error {
		if record && outDir != "" {
			writeJSON(recPath, caseJSON(s.Prop, s.Name, c, ""))
		}
		ctx, err := runOracle(s, c)
		if err != nil {
			msg := err.Error()
			if outDir != "" {
				writeJSON(failPath, caseJSON(s.Prop, s.Name, c, msg))
			}
			st.Failed = msg
			return err
		}
		if st.Failed != "" {
			return nil // shrinking
		}
		if corpus {
			st.Corpus++
			return nil
		}
		st.Evals++
		if ctx.skipped != "" {
			st.Skipped[ctx.skipped]++
			return nil
		}
		for _, l := range ctx.labels {
			st.Labels[l]++
		}
		if ctx.nt {
			b, _ := json.Marshal(c)
			h := fnv.New64a()
			h.Write([]byte(s.Name))
			h.Write(b)
			st.hashes[h.Sum64()] = struct{}{}
			st.NonTrivial++
			if st.NonTrivial == nextSample && len(st.Samples) < 4 && len(b) < 3000 {
				st.Samples = append(st.Samples, sample{s.Name, b})
			}
			if st.NonTrivial >= nextSample {
				nextSample *= 7
			}
		}
		return nil
	}

	if corpusDir != "" && shard == 0 {
		files, _ := filepath.Glob(filepath.Join(corpusDir, s.Prop, s.Name+"*.json"))
		sort.Strings(files)
		for _, f := range files {
			for _, cf := range readCases(f) {
				if cf.Check != s.Name {
					continue
				}
				var c C
				if err := json.Unmarshal(cf.Case, &c); err != nil {
					t.Fatalf("HARNESS: %s: %v", f, err)
				}
				if err := one(c, true); err != nil {
					t.Fatalf("saved case %s: %v", f, err)
				}
			}
		}
	}

	if fuzzF != nil {
		f := fuzzF
		fuzzF = nil
		last := time.Now()
		tick := func() {
			if time.Since(last) > 5*time.Second {
				last = time.Now()
				flush(fmt.Sprintf("fuzz-%s-%d", s.Name, os.Getpid()))
			}
		}
		if s.Set != nil {
			cases := make([]C, 256)
			for i := range cases {
				cases[i] = rapid.Custom(s.Gen).Example(int(chunkSeed(s.Name, i) >> 2))
				f.Add(s.Get(cases[i]), uint8(i))
			}
			f.Fuzz(func(t *testing.T, b []byte, k uint8) {
				if len(b) > 4096 {
					b = b[:4096]
				}
				if err := one(s.Set(cases[k], append([]byte(nil), b...)), false); err != nil {
					t.Fatal(err)
				}
				st.Failed = ""
				tick()
			})
			return
		}
		for i := 0; i < 48; i++ {
			f.Add(fuzzSeed(s.Name, i))
		}
		f.Fuzz(rapid.MakeFuzz(func(rt *rapid.T) {
			if err := one(s.Gen(rt), false); err != nil {
				rt.Fatalf("%v", err)
			}
			st.Failed = ""
			tick()
		}))
		return
	}

	total := (s.Cases*scale/100 + nShards - 1) / nShards
	chunk := 500
	n := 0
	for i := 0; n < total; i++ {
		if time.Now().After(deadline) {
			st.Deadline = true
			return
		}
		k := chunk
		if total-n < k {
			k = total - n
		}
		_ = flag.Set("rapid.checks", strconv.Itoa(k))
		_ = flag.Set("rapid.seed", strconv.FormatUint(chunkSeed(s.Name, i), 10))
		ok := t.Run(strconv.Itoa(i), func(t *testing.T) {
			rapid.Check(t, func(rt *rapid.T) {
				c := s.Gen(rt)
				if err := one(c, false); err != nil {
					rt.Fatalf("%v", err)
				}
			})
		})
		if !ok {
			if st.Failed == "" {
				st.Failed = "HARNESS: generator failure"
			}
			return
		}
		n += k
	}
}

func chunkSeed(name string, i int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d/%d", name, seed, shard, i)
	v := h.Sum64() >> 1
	if v == 0 {
		v = 1
	}
	return v
}

func readCases(path string) []caseFile {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var list []caseFile
	if json.Unmarshal(b, &list) == nil {
		return list
	}
	var cf caseFile
	if json.Unmarshal(b, &cf) == nil {
		return []caseFile{cf}
	}
	return nil
}

func runReplay[C any](t *testing.T, s Spec[C]) {
	for _, cf := range readCases(replay) {
		if cf.Property != s.Prop || cf.Check != s.Name {
			continue
		}
		var c C
		if err := json.Unmarshal(cf.Case, &c); err != nil {
			t.Fatalf("HARNESS: %v", err)
		}
		fmt.Printf("REPLAYING %s/%s\n", s.Prop, s.Name)
		reps := envInt("VH_REPEAT", 1)
		for i := 0; i < reps; i++ {
			if _, err := runOracle(s, c); err != nil {
				t.Fatalf("REPRODUCED: %v", err)
			}
		}
	}
}
