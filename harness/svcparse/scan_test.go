package svcparse_test

import (
	"fmt"
	"io"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/teamlint/baron/svcdef/svcparse"
	"github.com/teamlint/baron/zzverif/svctext"
	"github.com/teamlint/baron/zzverif/vt"
)

// place is where a unit may end: line number and brace depth there.
type place struct{ line, depth int }

func TestC04(t *testing.T) {
	rep := vt.Start(t, "C04", "texts assembled from identifiers, symbols, braces, white space, strings and comments (with braces, quotes, stars, slashes and newlines inside), scanned to the end; and definitions in random layouts among other declarations, tokenised to the end; non-trivial: contains a string or a comment")
	rep.Assume("every string and comment of the text is terminated (the scanner drops an unterminated one at the end of the input)")
	rep.Check(t, 41, vt.N(20000, 300000), func(rt *rapid.T) {
		ps := svctext.Pieces(rt)
		text, whole := "", 0
		starts := map[int]int{} // rune offset of a string or comment -> end
		inside := map[int]bool{}
		places := map[int]place{}
		cur := place{1, 0}
		off := 0
		for _, p := range ps {
			rs := []rune(p.Text)
			if p.Whole {
				whole++
				starts[off] = off + len(rs)
				for i := 1; i < len(rs); i++ {
					inside[off+i] = true
				}
			}
			for i, r := range rs {
				if r == '\n' {
					cur.line++
				}
				if !p.Whole && r == '{' {
					cur.depth++
				}
				if !p.Whole && r == '}' {
					cur.depth--
				}
				places[off+i+1] = cur
			}
			off += len(rs)
			text += p.Text
		}
		rep.Class(fmt.Sprintf("strings+comments=%d", min(whole, 8)))
		rep.Case(whole > 0, text, func() interface{} { return text })
		pos := 0
		rep.Guard(rt, text, func() {
			scn := svcparse.NewSvcScanner(strings.NewReader(text))
			all := []rune(text)
			for {
				u, err := scn.ReadUnit()
				if err != nil {
					if err != io.EOF {
						rep.Fail(rt, text, "ReadUnit: %v", err)
					}
					break
				}
				if len(u) == 0 {
					rep.Fail(rt, text, "empty unit at rune %d", pos)
				}
				if pos+len(u) > len(all) || string(all[pos:pos+len(u)]) != string(u) {
					rep.Fail(rt, text, "unit %q at rune %d is not the text there", string(u), pos)
				}
				if end, ok := starts[pos]; ok && end != pos+len(u) {
					rep.Fail(rt, text, "string or comment %q is not one unit: got %q", string(all[pos:end]), string(u))
				}
				pos += len(u)
				if inside[pos] {
					rep.Fail(rt, text, "unit %q ends inside a string or comment", string(u))
				}
				if w := places[pos]; w.line != scn.GetLineNumber() || w.depth != scn.BraceLevel {
					rep.Fail(rt, text, "after unit %q (rune %d): line %d depth %d, want line %d depth %d", string(u), pos, scn.GetLineNumber(), scn.BraceLevel, w.line, w.depth)
				}
			}
			if pos != len(all) {
				rep.Fail(rt, text, "scanned %d of %d runes", pos, len(all))
			}
		})
	})
	rep.Check(t, 42, vt.N(6000, 80000), func(rt *rapid.T) {
		s := svctext.Gen().Draw(rt, "svc")
		before, after := svctext.Surround(rt, true)
		def := svctext.Layout(rt, s.Tokens(), true)
		text := before + def + after
		rep.Class("definition")
		rep.Case(true, text, func() interface{} { return text })
		rep.Guard(rt, text, func() {
			lex := svcparse.NewSvcLexer(strings.NewReader(text))
			pos, line := 0, 1+strings.Count(before, "\n")
			for {
				tk, val := lex.GetToken()
				if tk == svcparse.EOF {
					break
				}
				if tk == svcparse.ILLEGAL || val == "" || !strings.HasPrefix(def[pos:], val) {
					rep.Fail(rt, text, "token %v %q at byte %d of the definition is not the text there", tk, val, pos)
				}
				pos += len(val)
				line += strings.Count(val, "\n")
				if lex.GetLineNumber() != line {
					rep.Fail(rt, text, "after token %q: line %d, want %d", val, lex.GetLineNumber(), line)
				}
			}
			if pos != len(def) {
				rep.Fail(rt, text, "tokens cover %d of %d bytes of the definition, which goes on with %q", pos, len(def), def[pos:min(len(def), pos+40)])
			}
		})
	})
}
