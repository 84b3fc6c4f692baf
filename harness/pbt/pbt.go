// Package pbt is the thin layer every check in this harness is written on. It
// drives pgregory.net/rapid with a seed and case count taken from the
// environment, counts the generated cases, writes the evidence file and turns
// a shrunk failure into a replay file and a VIOLATION line.
//
// Environment (set by /verif/check):
//
//	VERIF_PROPERTY  property id
//	VERIF_SEED      seed for every random choice
//	VERIF_TIER      quick | thorough
//	VERIF_ROOT      /verif
//	VERIF_OUT       path of a JSON result the wrapper reads
//	VERIF_REPLAY    replay file (replay mode)
package pbt

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// InfraExit is the exit code for failures of the machinery (not of the code
// under test).
const InfraExit = 3

type replayFile struct {
	Property string `json:"property"`
	Test     string `json:"test"`
	Seed     uint64 `json:"seed"`
	Tier     string `json:"tier"`
	Message  string `json:"message"`
	Case     string `json:"case,omitempty"`
	FailFile string `json:"rapid_failfile,omitempty"`
	How      string `json:"how_to_replay"`
}

type violation struct {
	Test    string `json:"test"`
	Replay  string `json:"replay"`
	Message string `json:"message"`
}

type state struct {
	mu          sync.Mutex
	id          string
	rule        string
	seed        uint64
	tier        string
	root        string
	start       time.Time
	evals       int64
	perTest     map[string]int64
	nontrivial  map[uint64]struct{}
	classes     map[string]int64
	samples     []string
	sampleSeen  map[string]int
	excluded    map[string]int64
	violations  []violation
	known       map[string]string
	knownHit    []string
	assumptions []string
	currentCase atomic.Value
	inCase      atomic.Int64 // unix nanos of the start of a guarded case
}

var st = &state{
	perTest:    map[string]int64{},
	nontrivial: map[uint64]struct{}{},
	classes:    map[string]int64{},
	sampleSeen: map[string]int{},
	excluded:   map[string]int64{},
	known:      map[string]string{},
}

// Thorough reports whether this is a thorough run.
func Thorough() bool { return st.tier == "thorough" }

// Seed returns the run's seed.
func Seed() uint64 { return st.seed }

// Scratch returns a fresh directory inside the check's own scratch directory.
func Scratch(prefix string) string {
	base := os.Getenv("VERIF_WORK")
	d, err := os.MkdirTemp(base, prefix)
	if err != nil {
		Infra("mkdtemp: %v", err)
	}
	return d
}

// Infra aborts the run as an error of the check.
func Infra(format string, args ...interface{}) {
	fmt.Printf("INFRASTRUCTURE ERROR: "+format+"\n", args...)
	os.Exit(InfraExit)
}

// Main is called from TestMain of each check.
func Main(m *testing.M, rule string) {
	st.rule = rule
	st.start = time.Now()
	st.id = os.Getenv("VERIF_PROPERTY")
	st.tier = os.Getenv("VERIF_TIER")
	if st.tier != "thorough" {
		st.tier = "quick"
	}
	st.root = os.Getenv("VERIF_ROOT")
	if st.root == "" {
		st.root = "/verif"
	}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			h := fnv.New64a()
			h.Write([]byte(s))
			n = h.Sum64()
		}
		st.seed = n
	} else {
		st.seed = 1
	}
	loadKnown()
	flag.Parse()
	code := m.Run()
	writeEvidence()
	for _, k := range st.knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", st.id, k)
	}
	if code == 0 && len(st.violations) == 0 {
		os.Exit(0)
	}
	if len(st.violations) == 0 {
		fmt.Println("INFRASTRUCTURE ERROR: tests failed without a recorded violation")
		os.Exit(InfraExit)
	}
	for _, v := range st.violations {
		fmt.Printf("VIOLATION property=%s replay=%s\n", st.id, v.Replay)
	}
	os.Exit(1)
}

func loadKnown() {
	f, err := os.Open(filepath.Join(st.root, "known_findings.txt"))
	if err != nil {
		return
	}
	defer f.Close()
	re := regexp.MustCompile(`^known: property=(\S+) key=(\S+) (.*)$`)
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		if m := re.FindStringSubmatch(sc.Text()); m != nil && m[1] == st.id {
			st.known[m[2]] = m[3]
		}
	}
}

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        uint64                 `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions,omitempty"`
	WallS       float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`
}

func writeEvidence() {
	if os.Getenv("VERIF_REPLAY") != "" {
		return
	}
	st.mu.Lock()
	defer st.mu.Unlock()
	var samples []string
	samples = append(samples, st.samples...)
	cov := map[string]interface{}{
		"evaluations":         st.evals,
		"distinct_nontrivial": len(st.nontrivial),
		"rule":                st.rule,
		"samples":             samples,
		"per_check":           st.perTest,
		"classes":             st.classes,
	}
	if len(st.excluded) > 0 {
		cov["excluded_by_known_finding_or_domain"] = st.excluded
	}
	ev := &evidence{st.id, st.tier, st.seed, "exploration", cov, st.assumptions, time.Since(st.start).Seconds(), len(st.violations)}
	data, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		Infra("evidence: %v", err)
	}
	dir := filepath.Join(st.root, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, st.id+".json"), data, 0o644); err != nil {
		Infra("evidence: %v", err)
	}
}

// Assume records an assumption in the evidence file.
func Assume(s string) { st.assumptions = append(st.assumptions, s) }

// T is the per-case handle.
type T struct {
	*rapid.T
	test string
	desc string
}

// Case records the generated case: key identifies it (and is its written-out
// form), nontrivial says whether it counts by the check's rule.
func (t *T) Case(nontrivial bool, key string) {
	t.desc = key
	st.currentCase.Store(key)
	if nontrivial {
		h := fnv.New64a()
		h.Write([]byte(t.test))
		h.Write([]byte{0})
		h.Write([]byte(key))
		st.mu.Lock()
		st.nontrivial[h.Sum64()] = struct{}{}
		n := st.sampleSeen[t.test]
		st.sampleSeen[t.test] = n + 1
		// A few samples per test: the 1st, 10th and 100th non-trivial ones.
		if n == 0 || n == 10 || n == 100 {
			s := key
			if len(s) > 1200 {
				s = s[:1200] + "...(truncated)"
			}
			st.samples = append(st.samples, t.test+": "+strings.ToValidUTF8(s, "?"))
		}
		st.mu.Unlock()
	}
}

// Sub counts one of several inputs tried within a case, such as one file of a
// batch, as an evaluation of its own.
func (t *T) Sub(nontrivial bool, key string) {
	st.mu.Lock()
	st.evals++
	st.perTest[t.test+"/inputs"]++
	if nontrivial {
		h := fnv.New64a()
		h.Write([]byte(t.test))
		h.Write([]byte{1})
		h.Write([]byte(key))
		st.nontrivial[h.Sum64()] = struct{}{}
		n := st.sampleSeen[t.test+"/inputs"]
		st.sampleSeen[t.test+"/inputs"] = n + 1
		if n == 0 || n == 10 || n == 100 {
			if len(key) > 1200 {
				key = key[:1200] + "...(truncated)"
			}
			st.samples = append(st.samples, t.test+" input: "+strings.ToValidUTF8(key, "?"))
		}
	}
	st.mu.Unlock()
}

// Class counts a label for the distribution of generated cases.
func (t *T) Class(label string) {
	st.mu.Lock()
	st.classes[t.test+"/"+label]++
	st.mu.Unlock()
}

// Excluded counts a case left out because of a recorded finding.
func (t *T) Excluded(label string) { Excluded(label) }

// Excluded counts an input left out because of a recorded finding.
func Excluded(label string) {
	st.mu.Lock()
	st.excluded[label]++
	st.mu.Unlock()
}

var lastFail sync.Map

func (t *T) note(msg string) {
	lastFail.Store(t.test, [2]string{msg, t.desc})
}

// Fatalf records the message and fails the case.
func (t *T) Fatalf(format string, args ...interface{}) {
	t.Helper()
	msg := fmt.Sprintf(format, args...)
	t.note(msg)
	t.T.Fatalf("%s\ncase: %s", msg, t.desc)
}

// Errorf is Fatalf: a case stops at the first disagreement.
func (t *T) Errorf(format string, args ...interface{}) { t.Helper(); t.Fatalf(format, args...) }

// Option adjusts one Check.
type Option func(*options)

type options struct {
	limit        time.Duration
	memory       bool
	thoroughMult int
}

// MustTerminate makes a case that runs for more than two minutes (typical cases
// take well under a millisecond) or eats more than 8 GiB a violation.
func MustTerminate() Option {
	return func(o *options) { o.limit, o.memory = 2*time.Minute, true }
}

// ThoroughMult sets how many times the quick count a thorough run makes.
func ThoroughMult(n int) Option { return func(o *options) { o.thoroughMult = n } }

var safeName = regexp.MustCompile(`[^A-Za-z0-9_.-]`)

func mix(seed uint64, name string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s", seed, name)
	s := h.Sum64() >> 1
	if s == 0 {
		s = 1
	}
	return s
}

// Check runs prop on n generated cases (times the thorough multiplier).
func Check(t *testing.T, n int, prop func(t *T), opts ...Option) {
	t.Helper()
	o := &options{thoroughMult: 20, limit: 5 * time.Minute}
	for _, f := range opts {
		f(o)
	}
	if Thorough() {
		n *= o.thoroughMult
	}
	if v := os.Getenv("VERIF_SCALE"); v != "" {
		f, err := strconv.ParseFloat(v, 64)
		if err == nil {
			n = int(float64(n) * f)
			if n < 1 {
				n = 1
			}
		}
	}
	name := t.Name()
	set := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			Infra("flag %s: %v", k, err)
		}
	}
	set("rapid.checks", strconv.Itoa(n))
	set("rapid.seed", strconv.FormatUint(mix(st.seed, name), 10))
	set("rapid.shrinktime", "20s")
	dir := filepath.Join("testdata", "rapid", safeName.ReplaceAllString(name, "_"))
	os.RemoveAll("testdata")
	if rp := os.Getenv("VERIF_REPLAY"); rp != "" {
		rf := loadReplay(rp)
		if rf.Test != name {
			t.Skip("not the replayed test")
		}
		if rf.FailFile != "" {
			tmp := filepath.Join(Scratch("replay"), "x.fail")
			if err := os.WriteFile(tmp, []byte(rf.FailFile), 0o644); err != nil {
				Infra("%v", err)
			}
			set("rapid.failfile", tmp)
			set("rapid.checks", "1")
		} else {
			set("rapid.seed", strconv.FormatUint(mix(rf.Seed, name), 10))
		}
	}
	stop := make(chan struct{})
	go watchdog(name, o, stop)
	defer func() {
		close(stop)
		if t.Failed() {
			recordFailure(t, name, dir)
		}
	}()
	var count int64
	rapid.Check(t, func(rt *rapid.T) {
		pt := &T{T: rt, test: name}
		atomic.AddInt64(&count, 1)
		st.mu.Lock()
		st.evals++
		st.perTest[name]++
		st.mu.Unlock()
		st.inCase.Store(time.Now().UnixNano())
		defer st.inCase.Store(0)
		defer func() {
			if r := recover(); r != nil {
				msg := fmt.Sprintf("panic: %v", r)
				// rapid's own control-flow panics are not failures to note.
				tn := fmt.Sprintf("%T", r)
				if !strings.HasPrefix(tn, "rapid.") && !strings.HasPrefix(tn, "*rapid.") {
					buf := make([]byte, 8192)
					buf = buf[:runtime.Stack(buf, false)]
					pt.note(msg + "\n" + string(buf))
				}
				panic(r)
			}
		}()
		prop(pt)
	})
}

func loadReplay(p string) *replayFile {
	data, err := os.ReadFile(p)
	if err != nil {
		Infra("%v", err)
	}
	rf := &replayFile{}
	if err := json.Unmarshal(data, rf); err != nil {
		Infra("%v", err)
	}
	return rf
}

func recordFailure(t *testing.T, name, dir string) {
	msg, desc := "see rapid output", ""
	if v, ok := lastFail.Load(name); ok {
		p := v.([2]string)
		msg, desc = p[0], p[1]
	}
	ff := ""
	if fs, _ := filepath.Glob(filepath.Join("testdata", "rapid", "*", "*.fail")); len(fs) > 0 {
		sort.Strings(fs)
		data, err := os.ReadFile(fs[len(fs)-1])
		if err == nil {
			ff = string(data)
		}
	}
	os.RemoveAll("testdata")
	addViolation(name, msg, desc, ff)
}

func addViolation(name, msg, desc, ff string) {
	if os.Getenv("VERIF_REPLAY") != "" {
		st.violations = append(st.violations, violation{name, os.Getenv("VERIF_REPLAY"), msg})
		return
	}
	rdir := filepath.Join(st.root, "replays")
	os.MkdirAll(rdir, 0o755)
	p := filepath.Join(rdir, fmt.Sprintf("%s-%s-seed%d.json", st.id, safeName.ReplaceAllString(name, "_"), st.seed))
	rf := &replayFile{st.id, name, st.seed, st.tier, msg, strings.ToValidUTF8(desc, "?"), ff,
		"cd /verif && ./check replay " + p}
	data, err := json.MarshalIndent(rf, "", " ")
	if err != nil {
		Infra("replay: %v", err)
	}
	if err := os.WriteFile(p, data, 0o644); err != nil {
		Infra("replay: %v", err)
	}
	st.violations = append(st.violations, violation{name, p, msg})
}

func watchdog(name string, o *options, stop chan struct{}) {
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case <-stop:
			return
		case <-tick.C:
		}
		why := ""
		if s := st.inCase.Load(); s != 0 && time.Since(time.Unix(0, s)) > o.limit {
			why = fmt.Sprintf("the call did not return within %v", o.limit)
		} else if o.memory {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 8<<30 {
				why = "the call allocated more than 8 GiB"
			}
		}
		if why != "" {
			cc, _ := st.currentCase.Load().(string)
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			addViolation(name, why+"\n"+string(buf), cc, "")
			writeEvidence()
			for _, v := range st.violations {
				fmt.Printf("VIOLATION property=%s replay=%s\n", st.id, v.Replay)
			}
			os.Exit(1)
		}
	}
}

// Regression runs a plain (not generated) check: a minimised input from an
// earlier failure, or an example fixed by a specification. f returns "" if the
// property holds.
func Regression(t *testing.T, name string, f func() string) {
	t.Helper()
	t.Run(name, func(t *testing.T) {
		if rp := os.Getenv("VERIF_REPLAY"); rp != "" && loadReplay(rp).Test != t.Name() {
			t.Skip("not the replayed test")
		}
		st.mu.Lock()
		st.evals++
		st.perTest["regressions"]++
		st.mu.Unlock()
		msg := func() (msg string) {
			defer func() {
				if r := recover(); r != nil {
					buf := make([]byte, 8192)
					buf = buf[:runtime.Stack(buf, false)]
					msg = fmt.Sprintf("panic: %v\n%s", r, buf)
				}
			}()
			return f()
		}()
		if msg != "" {
			addViolation(t.Name(), msg, name, "")
			t.Errorf("%s", msg)
		}
	})
}

// Known re-runs a recorded finding. f returns "" if the defect is gone. If it
// is still there and listed under key, a KNOWN-FINDING line is printed;
// if it is there and not listed, it is a violation.
func Known(t *testing.T, key string, f func() string) {
	t.Helper()
	t.Run("known_"+key, func(t *testing.T) {
		if rp := os.Getenv("VERIF_REPLAY"); rp != "" && loadReplay(rp).Test != t.Name() {
			t.Skip("not the replayed test")
		}
		st.mu.Lock()
		st.evals++
		st.perTest["known_findings"]++
		st.mu.Unlock()
		msg := func() (msg string) {
			defer func() {
				if r := recover(); r != nil {
					msg = fmt.Sprintf("panic: %v", r)
				}
			}()
			return f()
		}()
		if msg == "" {
			return
		}
		if d, ok := st.known[key]; ok {
			st.knownHit = append(st.knownHit, fmt.Sprintf("key=%s %s", key, d))
			return
		}
		addViolation(t.Name(), msg, key, "")
		t.Errorf("%s", msg)
	})
}
