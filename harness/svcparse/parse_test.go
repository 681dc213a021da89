package svcparse_test

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"

	cmp "github.com/teamlint/baron/zzverif/parsecmp"
	"github.com/teamlint/baron/zzverif/svctext"
	"github.com/teamlint/baron/zzverif/vt"
)

func TestC01(t *testing.T) {
	rep := vt.Start(t, "C01", "a random abstract service (rpcs with and without annotations, streaming keywords, qualified types, main/additional/custom bindings, random quoted values) is rendered in a fixed layout and parsed; non-trivial: at least one annotated rpc")
	rep.Assume("supported annotation syntax: one aggregate-form google.api.http option per rpc, double-quoted values, fields before additional_bindings (what the README, tutorial and tests use)")
	rep.Check(t, 1, vt.N(30000, 400000), func(rt *rapid.T) {
		s := svctext.Gen().Draw(rt, "svc")
		text := svctext.Plain(s.Tokens())
		var p cmp.Parsed
		rep.Guard(rt, text, func() { p = cmp.Parse(text) })
		n, add, cust := cmp.NHTTP(s)
		rep.Class(fmt.Sprintf("annotated-rpcs=%d", n), fmt.Sprintf("additional=%d", min(add, 4)), fmt.Sprintf("custom=%d", min(cust, 4)))
		rep.Case(n > 0, text, func() interface{} { return text })
		if p.Err != nil {
			rep.Fail(rt, text, "supported definition rejected: %v", p.Err)
		}
		if d := cmp.Diff(cmp.Expected(s), cmp.Actual(p.Svc)); d != "" {
			rep.Fail(rt, text, "parsed service differs from the definition\n%s", d)
		}
	})
}

func TestC02(t *testing.T) {
	rep := vt.Start(t, "C02", "a random abstract service is rendered in a random layout (white space, comments of both styles with braces, quotes, keywords and stars between any two tokens) and placed among random declarations (messages, enums, options, fields and packages named service); non-trivial: at least one annotated rpc")
	rep.Assume("surrounding declarations use double-quoted strings")
	rep.Check(t, 2, vt.N(20000, 300000), func(rt *rapid.T) {
		s := svctext.Gen().Draw(rt, "svc")
		comments := rapid.IntRange(0, 4).Draw(rt, "comments") > 0
		before, after := "", ""
		if rapid.IntRange(0, 4).Draw(rt, "sur") > 0 {
			before, after = svctext.Surround(rt, comments)
		}
		text := before + svctext.Layout(rt, s.Tokens(), comments) + after
		var p cmp.Parsed
		rep.Guard(rt, text, func() { p = cmp.Parse(text) })
		n, _, _ := cmp.NHTTP(s)
		rep.Class(fmt.Sprintf("annotated-rpcs=%d", n), fmt.Sprintf("comments=%v", comments), fmt.Sprintf("surrounded=%v", before != ""))
		rep.Case(n > 0, text, func() interface{} { return text })
		if p.Err != nil {
			rep.Fail(rt, text, "layout makes the definition unparsable: %v", p.Err)
		}
		if d := cmp.Diff(cmp.Expected(s), cmp.Actual(p.Svc)); d != "" {
			rep.Fail(rt, text, "layout or surroundings change the parsed service\n%s", d)
		}
	})
}
