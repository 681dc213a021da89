package svcdefc

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"testing"

	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"

	"github.com/teamlint/baron/svcdef"
	cmp "github.com/teamlint/baron/zzverif/parsecmp"
	"github.com/teamlint/baron/zzverif/pspec"
	"github.com/teamlint/baron/zzverif/svctext"
	"github.com/teamlint/baron/zzverif/vt"
)

// An op is one analysis: of one text by the service parser, or of definition
// files by svcdef.New.
type op struct {
	Text   string            `json:",omitempty"`
	Go     map[string]string `json:",omitempty"`
	Protos map[string]string `json:",omitempty"`
	Kind   string
}

// run does the analysis and renders its result.
func (o op) run() (out string) {
	defer func() {
		if p := recover(); p != nil {
			out = "panic"
		}
	}()
	if o.Go == nil {
		p := cmp.Parse(o.Text)
		if p.Err != nil {
			return "error: " + p.Err.Error()
		}
		s := strings.Join(cmp.Actual(p.Svc), "\n")
		for _, m := range p.Svc.Methods {
			s += fmt.Sprintf("\n%s: %q", m.Name, m.Description)
			for _, b := range m.HTTPBindings {
				s += fmt.Sprintf("\n  %q", b.Description)
				for _, f := range append(b.Fields, b.CustomHTTPPattern...) {
					s += fmt.Sprintf(" %q", f.Description)
				}
			}
		}
		return s
	}
	sd, err := svcdef.New(readers(o.Go), readers(o.Protos))
	if err != nil {
		// which of several files is reported first is unspecified
		return "error"
	}
	return dump(sd)
}

func readers(m map[string]string) map[string]io.Reader {
	out := map[string]io.Reader{}
	for k, v := range m {
		out[k] = strings.NewReader(v)
	}
	return out
}

func dumpType(t *svcdef.FieldType) string {
	if t == nil {
		return "-"
	}
	s := fmt.Sprintf("%s star=%v array=%v", t.Name, t.StarExpr, t.ArrayType)
	if t.Message != nil {
		s += " message=" + t.Message.Name
	}
	if t.Enum != nil {
		s += " enum=" + t.Enum.Name
	}
	if t.Map != nil {
		s += " map[" + dumpType(t.Map.KeyType) + "]" + dumpType(t.Map.ValueType)
	}
	for _, o := range t.Oneof {
		s += " | " + o.Name + "/" + o.PBFieldName + " " + dumpType(o.Type)
	}
	return s
}

func dump(sd *svcdef.Svcdef) string {
	var ls []string
	for _, m := range sd.Messages {
		s := "message " + m.Name
		for _, f := range m.Fields {
			s += "\n  " + f.Name + "/" + f.PBFieldName + " " + dumpType(f.Type)
		}
		ls = append(ls, s)
	}
	for _, e := range sd.Enums {
		ls = append(ls, "enum "+e.Name)
	}
	sort.Strings(ls)
	if sd.Service != nil {
		ls = append(ls, "service "+sd.Service.Name)
		for _, m := range sd.Service.Methods {
			ls = append(ls, "rpc "+m.Name+" "+dumpType(m.RequestType)+" "+dumpType(m.ResponseType))
			for _, b := range m.Bindings {
				s := "  " + b.Verb + " " + b.Path
				for _, p := range b.Params {
					s += "; " + p.Field.Name + " " + p.Location
				}
				ls = append(ls, s)
			}
		}
	}
	return strings.Join(ls, "\n")
}

// Child process: do one analysis with nothing done before.
func TestMain(m *testing.M) {
	if f := os.Getenv("VERIF_OP_FILE"); f != "" {
		logrus.SetLevel(logrus.PanicLevel)
		var o op
		b, err := os.ReadFile(f)
		if err == nil {
			err = json.Unmarshal(b, &o)
		}
		if err != nil {
			os.Exit(3)
		}
		b, _ = json.Marshal(o.run())
		if os.WriteFile(f+".out", b, 0666) != nil {
			os.Exit(3)
		}
		os.Exit(0)
	}
	os.Exit(m.Run())
}

func (o op) fresh() (string, error) {
	d := vt.Scratch("op")
	defer os.RemoveAll(d)
	b, _ := json.Marshal(o)
	f := d + "/op"
	os.WriteFile(f, b, 0666)
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "VERIF_OP_FILE="+f)
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", vt.Infra{Err: fmt.Errorf("%v: %s", err, out)}
	}
	b, err := os.ReadFile(f + ".out")
	if err != nil {
		return "", vt.Infra{Err: err}
	}
	var s string
	json.Unmarshal(b, &s)
	return s, nil
}

var junk = []string{"", "{", "{{{", "}", "service X {", "service X { rpc A(B) returns (C) { option (google.api.http) = { get: \"/x", "/*", "//", "\"", "service", "message M { string service = 1; }", "}}}}", "service Y { }", "package service;"}

func genText(rt *rapid.T) op {
	s := svctext.GenMax(2).Draw(rt, "svc")
	text := svctext.Layout(rt, s.Tokens(), true)
	if rapid.Bool().Draw(rt, "sur") {
		before, after := svctext.Surround(rt, true)
		text = before + text + after
	}
	switch rapid.IntRange(0, 3).Draw(rt, "damage") {
	case 0:
		return op{Text: text[:rapid.IntRange(0, len(text)).Draw(rt, "cut")], Kind: "truncated text"}
	case 1:
		at := rapid.IntRange(0, len(text)).Draw(rt, "at")
		return op{Text: text[:at] + rapid.SampledFrom(junk).Draw(rt, "ins") + text[at:], Kind: "damaged text"}
	}
	return op{Text: text, Kind: "valid text"}
}

// cutAll truncates one of the files.
func cutOne(rt *rapid.T, m map[string]string) map[string]string {
	out := map[string]string{}
	var ks []string
	for k, v := range m {
		out[k] = v
		ks = append(ks, k)
	}
	sort.Strings(ks)
	k := rapid.SampledFrom(ks).Draw(rt, "file")
	out[k] = out[k][:rapid.IntRange(0, len(out[k])).Draw(rt, "cut")]
	return out
}

func TestC07(t *testing.T) {
	rep := vt.Start(t, "C07", "histories of analyses in one process (parsing valid, truncated and damaged definition texts; building the model from valid and truncated definition files, some of them repeatedly); every result must equal the result of the same analysis in a process of its own; non-trivial: at least three analyses, one of them rejected")
	rep.Assume("which of several errors is reported is not compared for svcdef.New, which reads its files in any order")
	opts := modelOpts
	opts.MaxFiles, opts.MaxMsgs, opts.MaxRpcs = 2, 2, 3
	judge := func(rt *rapid.T, ops []op, want []string) {
		rejected := 0
		var kinds []string
		for i, o := range ops {
			got := o.run()
			if strings.HasPrefix(got, "error") {
				rejected++
			}
			rep.Class(o.Kind)
			kinds = append(kinds, o.Kind)
			if got != want[i] {
				rep.Fail(rt, ops[:i+1], "analysis %d of %d (%s) gives\n%s\nand in a process of its own\n%s", i+1, len(ops), o.Kind, got, want[i])
			}
		}
		b, _ := json.Marshal(ops)
		rep.Case(len(ops) >= 3 && rejected > 0, string(b), func() interface{} {
			return map[string]interface{}{"history": kinds, "first": ops[0]}
		})
	}
	baselines := func(rt *rapid.T, ops []op) []string {
		want := make([]string, len(ops))
		_, err := vt.Parallel(len(ops), func(i int) (err error) {
			want[i], err = ops[i].fresh()
			return err
		})
		if err != nil {
			rep.FailErr(rt, ops, err)
		}
		return want
	}
	rep.Check(t, 71, vt.N(250, 5000), func(rt *rapid.T) {
		ss := rapid.SliceOfN(pspec.Gen(opts), 1, 4).Draw(rt, "specs")
		cs := make([]*pspec.Compiled, len(ss))
		i, err := vt.Parallel(len(ss), func(i int) error {
			c, done, err := Compile(ss[i])
			if err == nil {
				done()
				cs[i] = c
			}
			return err
		})
		if err != nil {
			rep.FailErr(rt, ss[i].Whole(), err)
		}
		n := rapid.IntRange(2, 12).Draw(rt, "n")
		var ops []op
		for len(ops) < n {
			if rapid.IntRange(0, 2).Draw(rt, "what") == 0 {
				ops = append(ops, genText(rt))
				continue
			}
			k := rapid.IntRange(0, len(ss)-1).Draw(rt, "spec")
			o := op{Go: cs[k].GoFile, Protos: map[string]string{}, Kind: "valid model"}
			for i, f := range ss[k].Files {
				o.Protos[cs[k].Protos[i]] = ss[k].Text(f)
			}
			switch rapid.IntRange(0, 5).Draw(rt, "damage") {
			case 0:
				o.Go, o.Kind = cutOne(rt, o.Go), "model with a truncated Go file"
			case 1:
				o.Protos, o.Kind = cutOne(rt, o.Protos), "model with a truncated definition"
			}
			ops = append(ops, o)
		}
		judge(rt, ops, baselines(rt, ops))
	})
	// long histories of texts; the expected results of the valid ones are known
	rep.Check(t, 72, vt.N(2500, 50000), func(rt *rapid.T) {
		n := rapid.IntRange(1, 5).Draw(rt, "n")
		var texts []string
		for i := 0; i < n; i++ {
			o := genText(rt)
			func() {
				defer func() { recover() }()
				cmp.Parse(o.Text)
			}()
			texts = append(texts, o.Text)
			rep.Class(o.Kind)
		}
		s := svctext.GenMax(3).Draw(rt, "last")
		last := svctext.Layout(rt, s.Tokens(), true)
		texts = append(texts, last)
		var p cmp.Parsed
		rep.Guard(rt, texts, func() { p = cmp.Parse(last) })
		if p.Err != nil {
			rep.Fail(rt, texts, "a valid definition is rejected after others were parsed: %v", p.Err)
		}
		if d := cmp.Diff(cmp.Expected(s), cmp.Actual(p.Svc)); d != "" {
			rep.Fail(rt, texts, "after other texts were parsed: %s", d)
		}
		rep.Case(len(s.Rpcs) > 0, strings.Join(texts, "\x00"), func() interface{} { return texts })
	})
}
