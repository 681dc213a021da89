package svcparse_test

import (
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"

	cmp "github.com/teamlint/baron/zzverif/parsecmp"
	"github.com/teamlint/baron/zzverif/svctext"
	"github.com/teamlint/baron/zzverif/vt"
)

// Child process: parse one file under a CPU and memory limit.
func TestMain(m *testing.M) {
	if f := os.Getenv("VERIF_PARSE_FILE"); f != "" {
		syscall.Setrlimit(syscall.RLIMIT_CPU, &syscall.Rlimit{Cur: 15, Max: 16})
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30})
		b, err := os.ReadFile(f)
		if err != nil {
			os.Exit(3)
		}
		func() {
			defer func() { recover() }()
			cmp.Parse(string(b))
		}()
		os.Exit(0)
	}
	os.Exit(m.Run())
}

// endless parses text in a process of its own and reports whether that process
// was ended by its CPU or memory limit (a text of some kilobytes needs neither).
func endless(text string) bool {
	f, err := os.CreateTemp("", "c06")
	if err != nil {
		panic(err)
	}
	defer os.Remove(f.Name())
	f.WriteString(text)
	f.Close()
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "VERIF_PARSE_FILE="+f.Name())
	err = cmd.Run()
	if err == nil {
		return false
	}
	ee, ok := err.(*exec.ExitError)
	if !ok {
		panic(err)
	}
	ws := ee.Sys().(syscall.WaitStatus)
	if ws.Signaled() {
		return ws.Signal() == syscall.SIGXCPU || ws.Signal() == syscall.SIGKILL
	}
	return ws.ExitStatus() == 2 // the Go runtime ran out of its memory limit
}

// watchdog reports a text the parser does not come back from.
type watchdog struct {
	mu    sync.Mutex
	text  string
	since time.Time
	on    bool
}

func (w *watchdog) begin(text string) {
	w.mu.Lock()
	w.text, w.since, w.on = text, time.Now(), true
	w.mu.Unlock()
}

func (w *watchdog) end() { w.mu.Lock(); w.on = false; w.mu.Unlock() }

func (w *watchdog) run(rep *vt.Rep, finish func()) {
	for retries := 0; ; {
		time.Sleep(100 * time.Millisecond)
		w.mu.Lock()
		on, text, age := w.on, w.text, time.Since(w.since)
		w.mu.Unlock()
		if !on || age < 300*time.Millisecond {
			continue
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if age < 8*time.Second && ms.HeapAlloc < 5<<30 {
			continue
		}
		if endless(text) {
			rep.Record(shrinkEndless(text), "the parser does not terminate on this text (it used up its CPU or memory limit)")
			finish()
			os.Exit(1)
		}
		// The machine is busy: the text is parsed quickly by a process of its own.
		if retries++; retries > 12 {
			fmt.Fprintln(os.Stderr, "inconclusive: parsing takes long here but terminates on its own")
			os.Exit(3)
		}
		w.mu.Lock()
		w.since = time.Now()
		w.mu.Unlock()
	}
}

func shrinkEndless(text string) string {
	deadline := time.Now().Add(100 * time.Second)
	for size := len(text) / 2; size > 0 && time.Now().Before(deadline); size /= 2 {
		for at := 0; at+size <= len(text) && time.Now().Before(deadline); {
			if c := text[:at] + text[at+size:]; endless(c) {
				text = c
			} else {
				at += size
			}
		}
	}
	return text
}

var chunks = []string{"", "{", "}", "\"", "'", "\\", "/*", "*/", "//", "\n", "(", ")", ";", ":", "rpc", "service", "option", "returns", "additional_bindings {", "custom {", "custom", "get: \"/x\"", "stream", "\x00", "\xff\xfe", "世", "service X {", " ", ".", "=", "service", "additional_bindings"}

func mutate(t *rapid.T, s string) string {
	n := rapid.IntRange(1, 6).Draw(t, "nmut")
	for i := 0; i < n; i++ {
		a := rapid.IntRange(0, len(s)).Draw(t, "at")
		l := rapid.SampledFrom([]int{0, 0, 1, 1, 2, 5, 20}).Draw(t, "len")
		b := min(len(s), a+l)
		ins := rapid.SampledFrom(chunks).Draw(t, "ins")
		switch rapid.IntRange(0, 3).Draw(t, "op") {
		case 0:
			s = s[:a] + s[b:]
		case 1:
			s = s[:a] + s[a:b] + s[a:]
		default:
			s = s[:a] + ins + s[b:]
		}
	}
	return s
}

func TestC06(t *testing.T) {
	rep := vt.Start(t, "C06", "arbitrary texts (random bytes; assembled fragments; definitions in random layouts with random deletions, insertions and duplications), which must be parsed or rejected without a panic or endless run; and definitions cut off at every kind of place inside the service block, which must be rejected; non-trivial: the text has a service keyword")
	rep.Assume("a parse of a text of a few kilobytes that uses up 15 s of CPU time or 6 GB is taken for endless")
	var wd watchdog
	go wd.run(rep, func() { rep.Finish(t) })
	try := func(rt *rapid.T, text string) (p cmp.Parsed) {
		var pan interface{}
		var stack string
		func() {
			defer func() {
				if pan = recover(); pan != nil {
					stack = string(debug.Stack())
				}
			}()
			wd.begin(text)
			defer wd.end()
			p = cmp.Parse(text)
		}()
		if pan != nil {
			rep.Fail(rt, text, "panic: %v\n%s", pan, stack)
		}
		return p
	}
	rep.Check(t, 61, vt.N(40000, 1000000), func(rt *rapid.T) {
		var text string
		switch k := rapid.IntRange(0, 5).Draw(rt, "kind"); k {
		case 0:
			text = string(rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(rt, "bytes"))
			rep.Class("bytes")
		case 1:
			text = strings.Join(rapid.SliceOfN(rapid.SampledFrom(chunks), 0, 40).Draw(rt, "chunks"), rapid.SampledFrom([]string{"", " "}).Draw(rt, "sp"))
			rep.Class("fragments")
		case 2:
			text = "service X { rpc A(B) returns (C) { option (google.api.http) = { " + strings.Join(rapid.SliceOfN(rapid.SampledFrom(chunks), 0, 30).Draw(rt, "chunks"), " ")
			rep.Class("option fragments")
		default:
			s := svctext.GenMax(3).Draw(rt, "svc")
			if rapid.Bool().Draw(rt, "sur") {
				before, after := svctext.Surround(rt, true)
				text = before + svctext.Layout(rt, s.Tokens(), true) + after
			} else {
				text = svctext.Plain(s.Tokens())
			}
			text = mutate(rt, text)
			rep.Class("mutated")
		}
		p := try(rt, text)
		rep.Case(strings.Contains(text, "service"), text, func() interface{} { return text })
		if p.Err == nil && p.Svc == nil {
			rep.Fail(rt, text, "neither a service nor an error")
		}
		if p.Err == nil {
			rep.Class("accepted")
		} else {
			rep.Class("rejected")
		}
	})
	rep.Check(t, 62, vt.N(15000, 300000), func(rt *rapid.T) {
		s := svctext.GenMax(3).Draw(rt, "svc")
		before := ""
		if rapid.Bool().Draw(rt, "sur") {
			before, _ = svctext.Surround(rt, true)
		}
		def := strings.TrimRight(svctext.Layout(rt, s.Tokens(), true), " \n\t")
		cut := rapid.IntRange(0, len(def)-1).Draw(rt, "cut")
		text := before + def[:cut]
		p := try(rt, text)
		rep.Class("cut off")
		rep.Case(cut > 8, text, func() interface{} { return text })
		if p.Err == nil {
			rep.Fail(rt, text, "a definition cut off before its closing brace is accepted as %v", cmp.Actual(p.Svc))
		}
	})
}
