package cli

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/teamlint/baron/zzverif/baroncli"
	"github.com/teamlint/baron/zzverif/vt"
)

// unmade is one start of a command that was built without version data.
type unmade struct {
	Args     []string
	Reply    string
	Rest     string // input after the reply
	Yes, No  bool
	Off      bool // GO111MODULE=off
	MakeRC   int
	BaronRC  int
	NoMake   bool
	NoBaron  bool
	Defs     bool
	EndOfAll bool // no line end after the reply
}

var (
	unmadeOnce sync.Once
	unmadeExes [3]string
	unmadeErr  error
)

// buildUnmade builds the command without version data, without the version and
// without the date.
func buildUnmade() ([3]string, error) {
	unmadeOnce.Do(func() {
		d := vt.Scratch("unmade")
		for i, flags := range []string{"", "-X main.date=d1", "-X main.version=v1"} {
			unmadeExes[i] = filepath.Join(d, fmt.Sprint(i), "baron")
			cmd := exec.Command("go", "build", "-ldflags", flags, "-o", unmadeExes[i], "github.com/teamlint/baron/cmd/baron")
			cmd.Dir = filepath.Join(os.Getenv("VERIF_SCRATCH"), "harness")
			if out, e := cmd.CombinedOutput(); e != nil {
				unmadeErr = vt.Infra{Err: fmt.Errorf("building the command: %v\n%s", e, out)}
				return
			}
		}
	})
	return unmadeExes, unmadeErr
}

func genUnmade(rt *rapid.T) unmade {
	var x unmade
	x.Args = rapid.SliceOfN(rapid.SampledFrom([]string{"api/e.proto", "./api/e.proto", "-v", "--client", "-o", "out/", "", "a b", "-h", "-V", "--start", "foo", "--", "-s", "$HOME", "`id`", "*", "'q'", "\"", "\\", "a\tb", "ü", "-nosuch", "y"}), 0, 6).Draw(rt, "args")
	ws := rapid.SampledFrom([]string{"", "", "", " ", "\t", "  "})
	switch rapid.IntRange(0, 9).Draw(rt, "reply") {
	case 0, 1, 2, 3, 4:
		x.Yes = true
		x.Reply = ws.Draw(rt, "before") + rapid.SampledFrom([]string{"y", "Y", "yes", "YES", "Yes", "yEs", "yES"}).Draw(rt, "yes") + ws.Draw(rt, "after")
	case 5: // an empty answer: the question names a default, the command does not take it
		x.Reply = ws.Draw(rt, "blank")
	default:
		x.No = true
		x.Reply = ws.Draw(rt, "before") + rapid.OneOf(
			rapid.SampledFrom([]string{"n", "N", "no", "NO", "ye", "yess", "yesyes", "ny", "y,", "yes!", "-y", "'y'", "ja", "1", "true", "ok", "j", "Y.", "yes/no", "es", "s", "Ye", "ｙ", "y\x00", "q", "quit"}),
			rapid.StringMatching(`[a-xz0-9][a-z]{0,4}`),
		).Draw(rt, "no") + rapid.SampledFrom([]string{"", "", " ", " y", " yes"}).Draw(rt, "more")
	}
	switch rapid.IntRange(0, 5).Draw(rt, "end") {
	case 0:
		x.EndOfAll = true
	case 1:
		x.Reply += "\r\n"
	default:
		x.Reply += "\n"
	}
	if !x.EndOfAll {
		x.Rest = rapid.SampledFrom([]string{"", "y\n", "n\n", "more\ninput\n", "\n\n", "no end", "\x00\xff", strings.Repeat("long line ", 2000)}).Draw(rt, "rest")
	}
	x.Off = rapid.IntRange(0, 5).Draw(rt, "off") > 0
	x.MakeRC = rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2}).Draw(rt, "make rc")
	x.BaronRC = rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(rt, "baron rc")
	x.NoMake = rapid.IntRange(0, 14).Draw(rt, "no make") == 0
	x.NoBaron = rapid.IntRange(0, 14).Draw(rt, "no baron") == 0
	x.Defs = rapid.IntRange(0, 2).Draw(rt, "defs") > 0
	return x
}

const unmadeFake = `#!/bin/bash
{ printf '%s\0' NAME "$PWD" "$@"; printf '\n\0'; } >> "$UNMADE_LOG"
[ NAME = make ] && exit $UNMADE_MAKE
echo "said by NAME" >&2
cat
exit $UNMADE_BARON
`

func (x unmade) check(which int) error {
	exes, err := buildUnmade()
	if err != nil {
		return err
	}
	w, err := baroncli.New()
	if err != nil {
		return err
	}
	defer w.Close()
	if x.Defs {
		w.Write("api/e.proto", "syntax = \"proto3\";\npackage e;\noption go_package = \"example.com/x/e\";\nmessage A { string s = 1; }\nservice Echo { rpc Do (A) returns (A); }\n")
	}
	side := vt.Scratch("side")
	defer os.RemoveAll(side)
	for name, leave := range map[string]bool{"make": x.NoMake, "baron": x.NoBaron} {
		if leave {
			continue
		}
		if err := os.WriteFile(filepath.Join(side, name), []byte(strings.ReplaceAll(unmadeFake, "NAME", name)), 0777); err != nil {
			return vt.Infra{Err: err}
		}
	}
	// the tools that the fakes and the go command need, but no other make
	for _, tool := range []string{"bash", "cat", "go"} {
		p, err := exec.LookPath(tool)
		if err != nil {
			return vt.Infra{Err: err}
		}
		os.Symlink(p, filepath.Join(side, tool))
	}
	before := w.Tree()
	logFile := filepath.Join(side, "log")
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, exes[which], x.Args...)
	cmd.Dir = w.Dir
	cmd.Stdin = strings.NewReader(x.Reply + x.Rest)
	var out, errOut bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errOut
	cmd.WaitDelay = 5 * time.Second
	mode := "off"
	if !x.Off {
		mode = "on"
	}
	cmd.Env = append(os.Environ(), "PATH="+side, "PWD="+w.Dir, "GOFLAGS=", "GO111MODULE="+mode,
		"UNMADE_LOG="+logFile, fmt.Sprint("UNMADE_MAKE=", x.MakeRC), fmt.Sprint("UNMADE_BARON=", x.BaronRC))
	err = cmd.Run()
	if ctx.Err() != nil {
		return fmt.Errorf("does not end")
	}
	rc := 0
	if err != nil {
		rc = -1
		if e, ok := err.(*exec.ExitError); ok {
			rc = e.ExitCode()
		} else if err != exec.ErrWaitDelay && !strings.Contains(err.Error(), "broken pipe") {
			return vt.Infra{Err: err}
		} else {
			rc = cmd.ProcessState.ExitCode()
		}
	}
	said := fmt.Sprintf("exit %d\n%s%s", rc, out.String(), errOut.String())
	if d := diffTrees(before, w.Tree(), func(string) bool { return false }); d != "" {
		return fmt.Errorf("files changed: %s\n%s", d, said)
	}
	var runs []string
	if b, err := os.ReadFile(logFile); err == nil {
		for _, r := range strings.Split(strings.TrimSuffix(string(b), "\n\x00"), "\n\x00") {
			runs = append(runs, r)
		}
	}
	if len(runs) == 0 {
		if rc == 0 {
			return fmt.Errorf("nothing was done but the exit status is 0\n%s", said)
		}
		if x.Yes && x.Off && !x.NoMake {
			return fmt.Errorf("make was not run after yes\n%s", said)
		}
		return nil
	}
	if x.No {
		return fmt.Errorf("%q were run after the answer %q\n%s", runs, x.Reply, said)
	}
	repo, err := filepath.EvalSymlinks(vt.RepoDir())
	if err != nil {
		return vt.Infra{Err: err}
	}
	first := strings.Split(strings.TrimSuffix(runs[0], "\x00"), "\x00")
	if len(first) != 2 || first[0] != "make" {
		return fmt.Errorf("the first command is %q, not make\n%s", first, said)
	}
	if at, _ := filepath.EvalSymlinks(first[1]); at != repo {
		return fmt.Errorf("make ran in %s, not in baron's directory\n%s", first[1], said)
	}
	if x.MakeRC != 0 {
		if len(runs) > 1 {
			return fmt.Errorf("%q was run after make had failed\n%s", runs[1:], said)
		}
		if rc == 0 {
			return fmt.Errorf("make failed, the exit status is 0\n%s", said)
		}
		return nil
	}
	if x.NoBaron {
		if rc == 0 {
			return fmt.Errorf("no baron was installed, the exit status is 0\n%s", said)
		}
		return nil
	}
	if len(runs) != 2 {
		return fmt.Errorf("the commands run are %q, not make and baron\n%s", runs, said)
	}
	want := "baron\x00" + w.Dir + "\x00"
	for _, a := range x.Args {
		want += a + "\x00"
	}
	if runs[1] != want {
		return fmt.Errorf("baron was run as %q instead of %q\n%s", runs[1], want, said)
	}
	if !strings.HasSuffix(out.String(), x.Rest) || !strings.Contains(errOut.String(), "said by baron") {
		return fmt.Errorf("the installed baron does not have the input and outputs of the command: it should have passed on %q\n%s", x.Rest, said)
	}
	if (rc == 0) != (x.BaronRC == 0) {
		return fmt.Errorf("baron ended with %d, the command with %d\n%s", x.BaronRC, rc, said)
	}
	return nil
}

func TestC40(t *testing.T) {
	rep := vt.Start(t, "C40", "a command built without version, date or both is started with random arguments and gets a random answer to its question (yes and no in all spellings, other words, nothing, with or without line end and further input); make and the baron it installs are stand-ins that record how they are run and fail at random; non-trivial: the answer is yes")
	rep.Assume("an empty answer is not judged beyond what it leaves behind: nothing, or what yes does", "baron is found through GOPATH (GO111MODULE=off); if it is not found, the command has to fail")
	rep.Check(t, 40, vt.N(500, 5000), func(rt *rapid.T) {
		x := genUnmade(rt)
		which := rapid.IntRange(0, 2).Draw(rt, "built")
		rep.Class(fmt.Sprintf("yes=%v", x.Yes), fmt.Sprintf("no=%v", x.No), fmt.Sprintf("found=%v", x.Off), fmt.Sprintf("make=%d", x.MakeRC), fmt.Sprintf("baron=%d", x.BaronRC))
		rep.Case(x.Yes && x.Off, fmt.Sprintf("%+v %d", x, which), func() interface{} { return x })
		if err := x.check(which); err != nil {
			rep.FailErr(rt, x, err)
		}
	})
}
