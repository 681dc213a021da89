// Package vt is the reporting layer shared by every check: it counts the
// generated cases, records violations with a replay file, and writes the
// evidence file and a result file that the runner turns into an exit status.
package vt

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"
)

// TB is what *rapid.T and *testing.T share.
type TB interface {
	Helper()
	Fatalf(format string, args ...interface{})
	Logf(format string, args ...interface{})
}

// Seed is VERIF_SEED mapped to a non-zero value.
func Seed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		s = 1
	}
	return s
}

func RapidSeed() uint64 {
	// spread, never zero (rapid treats 0 as "random")
	x := uint64(Seed())*0x9E3779B97F4A7C15 + 0xD1B54A32D192ED03
	if x == 0 {
		x = 1
	}
	return x
}

func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func Tier() string {
	if Thorough() {
		return "thorough"
	}
	return "quick"
}

// N picks the case count for the tier.
func N(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

func VerifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func RepoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

type Rep struct {
	ID    string
	rule  string
	notes []string

	mu       sync.Mutex
	evals    int
	distinct map[uint64]struct{}
	classes  map[string]int
	samples  []interface{}
	viol     int
	violMsg  string
	replay   string
	start    time.Time
	assume   []string
	extra    map[string]interface{}
	known    []string
	done     bool
}

// Start begins the check of one property. rule says how cases are made and
// what makes one non-trivial.
func Start(t *testing.T, id, rule string) *Rep {
	logrus.SetLevel(logrus.PanicLevel)
	r := &Rep{ID: id, rule: rule, distinct: map[uint64]struct{}{}, classes: map[string]int{}, start: time.Now(), extra: map[string]interface{}{}}
	t.Cleanup(func() { r.Finish(t) })
	return r
}

func (r *Rep) Assume(s ...string) { r.assume = append(r.assume, s...) }

func (r *Rep) Extra(k string, v interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.extra[k] = v
}

func (r *Rep) Add(k string, n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	v, _ := r.extra[k].(int)
	r.extra[k] = v + n
}

// Case counts one evaluated case; key identifies it for the distinct count.
func (r *Rep) Case(nontrivial bool, key string, sample func() interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	if !nontrivial {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(key))
	k := h.Sum64()
	if _, ok := r.distinct[k]; ok {
		return
	}
	r.distinct[k] = struct{}{}
	n := len(r.distinct)
	// keep samples spread over the run: 1st, 10th, 100th...
	if (n == 3 || n == 30 || n == 300 || n == 1) && sample != nil && len(r.samples) < 5 {
		r.samples = append(r.samples, sample())
	}
}

// Sample adds a sample, of which a few are kept.
func (r *Rep) Sample(s interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 5 {
		r.samples = append(r.samples, s)
	}
}

// Class counts a label (distribution of the generator).
func (r *Rep) Class(labels ...string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, l := range labels {
		r.classes[l]++
	}
}

func (r *Rep) ReplayPath() string {
	d := filepath.Join(VerifDir(), "replays")
	os.MkdirAll(d, 0777)
	return filepath.Join(d, r.ID+".json")
}

// Fail records a violation (the last one recorded is the shrunk one) and
// fails the test.
func (r *Rep) Fail(t TB, caseData interface{}, format string, args ...interface{}) {
	t.Helper()
	msg := fmt.Sprintf(format, args...)
	r.Record(caseData, msg)
	t.Fatalf("VIOLATED %s: %s", r.ID, msg)
}

// Record records a violation without failing the test.
func (r *Rep) Record(caseData interface{}, msg string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.viol++
	r.violMsg = msg
	r.replay = r.ReplayPath()
	doc := map[string]interface{}{
		"property": r.ID,
		"what":     msg,
		"case":     caseData,
		"seed":     Seed(),
		"tier":     Tier(),
		"rerun":    fmt.Sprintf("cd /verif && VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s", Seed(), Tier(), r.ID),
	}
	b, err := json.MarshalIndent(doc, "", " ")
	if err != nil {
		doc["case"] = fmt.Sprintf("%+v", caseData)
		b, _ = json.MarshalIndent(doc, "", " ")
	}
	os.WriteFile(r.replay, append(b, '\n'), 0666)
}

func (r *Rep) Violated() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.viol > 0
}

// Guard runs code under test and turns a panic into a violation.
func (r *Rep) Guard(t TB, caseData interface{}, f func()) {
	t.Helper()
	var p interface{}
	var stack []byte
	func() {
		defer func() {
			if p = recover(); p != nil {
				stack = debug.Stack()
			}
		}()
		f()
	}()
	if p != nil {
		r.Fail(t, caseData, "panic: %v\n%s", p, trimStack(stack))
	}
}

func trimStack(b []byte) string {
	ls := strings.Split(string(b), "\n")
	if len(ls) > 24 {
		ls = ls[:24]
	}
	return strings.Join(ls, "\n")
}

// KnownFinding prints the line for a listed finding that still fails.
func (r *Rep) KnownFinding(what string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.known = append(r.known, what)
}

// KnownOnce is KnownFinding, once per id.
func (r *Rep) KnownOnce(id, what string) {
	line := "[" + id + "] " + what
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, k := range r.known {
		if k == line {
			return
		}
	}
	r.known = append(r.known, line)
}

// Check runs a rapid property with the run's seed and n cases. salt separates
// several rapid properties of one check.
func (r *Rep) Check(t *testing.T, salt uint64, n int, prop func(*rapid.T)) {
	t.Helper()
	flag.Set("rapid.checks", strconv.Itoa(n))
	seed := RapidSeed() + salt*7919
	if seed == 0 {
		seed = 1
	}
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "20s")
	rapid.Check(t, prop)
}

type result struct {
	Property  string   `json:"property"`
	Violation bool     `json:"violation"`
	Replay    string   `json:"replay"`
	What      string   `json:"what"`
	Known     []string `json:"known"`
	Finished  bool     `json:"finished"`
}

// Finish writes the evidence and result files.
func (r *Rep) Finish(t *testing.T) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.done {
		return
	}
	r.done = true
	viol := 0
	if r.viol > 0 {
		viol = 1
	}
	cov := map[string]interface{}{
		"evaluations":         r.evals,
		"distinct_nontrivial": len(r.distinct),
		"rule":                r.rule,
		"samples":             r.samples,
		"distribution":        r.sortedClasses(),
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": r.ID, "tier": Tier(), "seed": Seed(), "level": "exploration",
		"coverage": cov, "assumptions": r.assume,
		"wall_s": time.Since(r.start).Seconds(), "violations": viol,
	}
	if r.assume == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		t.Errorf("evidence: %v", err)
	}
	os.MkdirAll(filepath.Join(VerifDir(), "evidence"), 0777)
	if err := os.WriteFile(filepath.Join(VerifDir(), "evidence", r.ID+".json"), append(b, '\n'), 0666); err != nil {
		t.Errorf("evidence: %v", err)
	}
	res := result{Property: r.ID, Violation: r.viol > 0, Replay: r.replay, What: r.violMsg, Known: r.known, Finished: true}
	b, _ = json.Marshal(res)
	if p := os.Getenv("VERIF_RESULT"); p != "" {
		os.WriteFile(p, b, 0666)
	}
}

func (r *Rep) sortedClasses() map[string]int {
	ks := make([]string, 0, len(r.classes))
	for k := range r.classes {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	m := map[string]int{}
	for _, k := range ks {
		m[k] = r.classes[k]
	}
	return m
}

// Finding is one line of KNOWN_FINDINGS.
type Finding struct{ Status, Property, ID, What string }

// Known reports whether the committed known-findings file lists id as a known
// (unrepaired) finding of the property.
func Known(property, id string) (string, bool) {
	b, err := os.ReadFile(filepath.Join(VerifDir(), "KNOWN_FINDINGS"))
	if err != nil {
		return "", false
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		pre := fmt.Sprintf("known: property=%s id=%s ", property, id)
		if strings.HasPrefix(l, pre) {
			return strings.TrimPrefix(l, pre), true
		}
	}
	return "", false
}

// Parallel runs f for 0..n-1 on all cores and returns the error of the lowest
// index (panics are errors).
func Parallel(n int, f func(i int) error) (int, error) {
	errs := make([]error, n)
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			defer func() {
				if p := recover(); p != nil {
					errs[i] = fmt.Errorf("panic: %v\n%s", p, trimStack(debug.Stack()))
				}
			}()
			errs[i] = f(i)
		}(i)
	}
	wg.Wait()
	for i, e := range errs {
		if e != nil {
			return i, e
		}
	}
	return -1, nil
}

// Infra is an error of the machinery, not of the code under test.
type Infra struct{ Err error }

func (e Infra) Error() string { return "infrastructure: " + e.Err.Error() }

// Scratch makes a directory under the run's scratch directory.
func Scratch(name string) string {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	d, err := os.MkdirTemp(base, name)
	if err != nil {
		panic(err)
	}
	return d
}

// FailErr fails with err, telling infrastructure errors from violations.
func (r *Rep) FailErr(t TB, caseData interface{}, err error) {
	t.Helper()
	if e, ok := err.(Infra); ok {
		fmt.Fprintln(os.Stderr, "ERROR:", e)
		os.Exit(3)
	}
	r.Fail(t, caseData, "%v", err)
}
