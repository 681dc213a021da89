package svcparse_test

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/teamlint/baron/svcdef/svcparse"
	"github.com/teamlint/baron/zzverif/svctext"
	"github.com/teamlint/baron/zzverif/vt"
)

func cursorText(t *rapid.T) string {
	var b strings.Builder
	for _, p := range svctext.Pieces(t) {
		b.WriteString(p.Text)
	}
	if rapid.Bool().Draw(t, "def") {
		s := svctext.GenMax(2).Draw(t, "svc")
		b.WriteString("\n" + svctext.Layout(t, s.Tokens(), true))
	}
	return b.String()
}

type history struct {
	Text string
	Ops  []string
}

func TestC05(t *testing.T) {
	rep := vt.Start(t, "C05", "random histories of reads and push-backs (single steps, to an earlier position, filtered token reads, at both ends of the input) on a rune reader, a unit scanner and a token lexer over random texts, compared step by step with an index into the sequence read straight through by a fresh one; non-trivial: the history has a push-back that succeeds")
	n := vt.N(6000, 100000)

	rep.Check(t, 51, n, func(rt *rapid.T) {
		h := &history{Text: cursorText(rt)}
		rs := []rune(h.Text)
		rr := svcparse.NewRuneReader(strings.NewReader(h.Text))
		pos, backs := 0, 0
		lineAt := func(p int) int { return 1 + strings.Count(string(rs[:p]), "\n") }
		rep.Guard(rt, h, func() {
			ops := rapid.SliceOfN(rapid.SampledFrom([]string{"r", "r", "r", "u", "R", "U"}), 1, 60).Draw(rt, "ops")
			for _, o := range ops {
				for k := 0; k < map[string]int{"r": 1, "u": 1, "R": 12, "U": 9}[o]; k++ {
					h.Ops = append(h.Ops, o)
					if o == "r" || o == "R" {
						r, err := rr.ReadRune()
						if pos == len(rs) {
							if err == nil {
								rep.Fail(rt, h, "read at the end gave %q", r)
							}
						} else if err != nil || r != rs[pos] {
							rep.Fail(rt, h, "read at %d gave %q, %v; want %q", pos, r, err, rs[pos])
						} else {
							pos++
						}
					} else {
						err := rr.UnreadRune()
						if pos == 0 {
							if err == nil {
								rep.Fail(rt, h, "unread at the start succeeded")
							}
						} else if err != nil {
							rep.Fail(rt, h, "unread at %d: %v", pos, err)
						} else {
							pos--
							backs++
						}
					}
					if rr.RunePos != pos || rr.LineNo != lineAt(pos) {
						rep.Fail(rt, h, "position %d line %d, want %d line %d", rr.RunePos, rr.LineNo, pos, lineAt(pos))
					}
				}
			}
		})
		rep.Class("runes")
		rep.Case(backs > 0, fmt.Sprint("r", *h), func() interface{} { return *h })
	})

	type state struct {
		val         string
		line, depth int
		def, body   bool
	}
	rep.Check(t, 52, n, func(rt *rapid.T) {
		h := &history{Text: cursorText(rt)}
		backs := 0
		rep.Guard(rt, h, func() {
			var seq []state
			fresh := svcparse.NewSvcScanner(strings.NewReader(h.Text))
			start := state{"", fresh.GetLineNumber(), fresh.BraceLevel, fresh.InDefinition, fresh.InBody}
			for {
				u, err := fresh.ReadUnit()
				if err != nil {
					break
				}
				seq = append(seq, state{string(u), fresh.GetLineNumber(), fresh.BraceLevel, fresh.InDefinition, fresh.InBody})
			}
			scn := svcparse.NewSvcScanner(strings.NewReader(h.Text))
			pos := 0
			ops := rapid.SliceOfN(rapid.SampledFrom([]string{"r", "r", "r", "u", "R", "U", "p"}), 1, 40).Draw(rt, "ops")
			for _, o := range ops {
				if o == "p" {
					to := rapid.IntRange(0, pos).Draw(rt, "to")
					h.Ops = append(h.Ops, fmt.Sprintf("p%d", to))
					if err := scn.UnReadToPosition(to); err != nil {
						rep.Fail(rt, h, "push back to %d: %v", to, err)
					}
					if to < pos {
						backs++
					}
					pos = to
				}
				for k := 0; k < map[string]int{"r": 1, "u": 1, "R": 9, "U": 7}[o]; k++ {
					h.Ops = append(h.Ops, o)
					if o == "r" || o == "R" {
						u, err := scn.ReadUnit()
						if pos == len(seq) {
							if err == nil {
								rep.Fail(rt, h, "read at the end gave %q", string(u))
							}
						} else if err != nil || string(u) != seq[pos].val {
							rep.Fail(rt, h, "unit %d is %q, %v; want %q", pos, string(u), err, seq[pos].val)
						} else {
							pos++
						}
					} else {
						err := scn.UnreadUnit()
						if pos == 0 {
							if err == nil {
								rep.Fail(rt, h, "unread at the start succeeded")
							}
						} else if err != nil {
							rep.Fail(rt, h, "unread at %d: %v", pos, err)
						} else {
							pos--
							backs++
						}
					}
				}
				want := start
				if pos > 0 {
					want = seq[pos-1]
				}
				got := state{want.val, scn.GetLineNumber(), scn.BraceLevel, scn.InDefinition, scn.InBody}
				if scn.UnitPos != pos || got != want {
					rep.Fail(rt, h, "at unit %d: position %d, state %+v; want %+v", pos, scn.UnitPos, got, want)
				}
			}
		})
		rep.Class("units")
		rep.Case(backs > 0, fmt.Sprint("s", *h), func() interface{} { return *h })
	})

	type tok struct {
		tk   svcparse.Token
		val  string
		line int
	}
	rep.Check(t, 53, n, func(rt *rapid.T) {
		h := &history{Text: cursorText(rt)}
		backs := 0
		rep.Guard(rt, h, func() {
			var seq []tok
			fresh := svcparse.NewSvcLexer(strings.NewReader(h.Text))
			for {
				tk, val := fresh.GetToken()
				if tk == svcparse.EOF {
					break
				}
				seq = append(seq, tok{tk, val, fresh.GetLineNumber()})
			}
			lex := svcparse.NewSvcLexer(strings.NewReader(h.Text))
			pos := 0
			next := func(skip map[svcparse.Token]bool) tok {
				for pos < len(seq) {
					pos++
					if !skip[seq[pos-1].tk] {
						return seq[pos-1]
					}
				}
				return tok{tk: svcparse.EOF}
			}
			ops := rapid.SliceOfN(rapid.SampledFrom([]string{"r", "r", "r", "u", "w", "c", "w", "U", "p"}), 1, 60).Draw(rt, "ops")
			for _, o := range ops {
				switch o {
				case "p":
					to := rapid.IntRange(0, pos).Draw(rt, "to")
					h.Ops = append(h.Ops, fmt.Sprintf("p%d", to))
					if err := lex.UnGetToPosition(to); err != nil {
						rep.Fail(rt, h, "push back to %d: %v", to, err)
					}
					if to < pos {
						backs++
					}
					pos = to
				case "r", "w", "c":
					h.Ops = append(h.Ops, o)
					var tk svcparse.Token
					var val string
					skip := map[svcparse.Token]bool{}
					switch o {
					case "r":
						tk, val = lex.GetToken()
					case "w":
						tk, val = lex.GetTokenIgnoreWhitespace()
						skip[svcparse.WHITESPACE] = true
					case "c":
						tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
						skip[svcparse.WHITESPACE] = true
						skip[svcparse.COMMENT] = true
					}
					w := next(skip)
					if tk != w.tk || val != w.val {
						rep.Fail(rt, h, "token is %v %q, want %v %q", tk, val, w.tk, w.val)
					}
					if w.tk != svcparse.EOF && lex.GetLineNumber() != w.line {
						rep.Fail(rt, h, "token %q reported in line %d, want %d", val, lex.GetLineNumber(), w.line)
					}
				case "u", "U":
					for k := 0; k < map[string]int{"u": 1, "U": 6}[o]; k++ {
						h.Ops = append(h.Ops, o)
						err := lex.UnGetToken()
						if pos == 0 {
							if err == nil {
								rep.Fail(rt, h, "push-back at the start succeeded")
							}
						} else if err != nil {
							rep.Fail(rt, h, "push-back at %d: %v", pos, err)
						} else {
							pos--
							backs++
						}
					}
				}
				if lex.GetPosition() != pos {
					rep.Fail(rt, h, "position %d, want %d", lex.GetPosition(), pos)
				}
			}
		})
		rep.Class("tokens")
		rep.Case(backs > 0, fmt.Sprint("l", *h), func() interface{} { return *h })
	})
}
