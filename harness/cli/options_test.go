package cli

import (
	"fmt"
	"go/parser"
	"go/token"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/teamlint/baron/zzverif/baroncli"
	"github.com/teamlint/baron/zzverif/pspec"
	"github.com/teamlint/baron/zzverif/vt"
)

// options are what a command line means.
type options struct {
	Client    bool
	Verbose   bool
	Debug     bool
	Svcdef    bool
	Transport string
	Out       string // "" means ./
}

// plain is the plainest command line of them.
func (o options) plain(defs []string) (args []string) {
	if o.Client {
		args = append(args, "--client")
	}
	args = append(args, "--transport", o.Transport)
	if o.Out != "" {
		args = append(args, "--svcout", o.Out)
	}
	return append(args, defs...)
}

// spell draws a command line that means the same.
func (o options) spell(rt *rapid.T, defs []string) []string {
	pick := func(what string, of ...string) string { return rapid.SampledFrom(of).Draw(rt, what) }
	var words [][]string
	cluster := ""
	boolean := func(on bool, long, short string) {
		yes := []string{"--" + long, "--" + long + "=true", "--" + long + "=1", "--" + long + "=T"}
		no := []string{"--" + long + "=false", "--" + long + "=0", "--" + long + "=F"}
		if short != "" {
			yes = append(yes, "-"+short, "-"+short, "-"+short+"=true", "CLUSTER")
			no = append(no, "-"+short+"=false")
		}
		switch {
		case on:
			w := pick(long, yes...)
			if w == "CLUSTER" {
				cluster += short
				return
			}
			if rapid.IntRange(0, 4).Draw(rt, "twice") == 0 {
				words = append(words, []string{pick(long, no...), w})
				return
			}
			words = append(words, []string{w})
		case rapid.IntRange(0, 2).Draw(rt, "say no") == 0:
			words = append(words, []string{pick(long, no...)})
		}
	}
	value := func(v, long, short string) []string {
		switch pick(long, "long", "long=", "short", "short=", "joined") {
		case "long":
			return []string{"--" + long, v}
		case "long=":
			return []string{"--" + long + "=" + v}
		case "short":
			return []string{"-" + short, v}
		case "short=":
			return []string{"-" + short + "=" + v}
		}
		return []string{"-" + short + v}
	}
	boolean(o.Client, "client", "c")
	boolean(o.Verbose, "verbose", "v")
	boolean(o.Debug, "debug", "")
	boolean(o.Svcdef, "svcdef", "d")
	boolean(false, "help", "h")
	boolean(false, "version", "V")
	boolean(false, "start", "s")
	if o.Transport != "all" || rapid.Bool().Draw(rt, "say all") {
		var w []string
		if rapid.IntRange(0, 4).Draw(rt, "twice") == 0 {
			w = value(pick("before", "grpc", "nats", "all"), "transport", "t")
		}
		if cluster != "" && len(w) == 0 && rapid.Bool().Draw(rt, "cluster with value") {
			words = append(words, []string{"-" + cluster + "t", o.Transport})
			cluster = ""
		} else {
			words = append(words, append(w, value(o.Transport, "transport", "t")...))
		}
	}
	if o.Out != "" || rapid.Bool().Draw(rt, "say ./") {
		var w []string
		if rapid.IntRange(0, 4).Draw(rt, "twice") == 0 {
			w = value(pick("before", "./elsewhere", "./x/"), "svcout", "o")
		}
		v := o.Out
		if v == "" {
			v = "./"
		}
		words = append(words, append(w, value(v, "svcout", "o")...))
	}
	if cluster != "" {
		words = append(words, []string{"-" + cluster})
	}
	words = rapid.Permutation(words).Draw(rt, "order")
	var out []string
	for i := 0; len(words) > 0 || len(defs) > 0; i++ {
		if len(words) > 0 && (len(defs) == 0 || rapid.IntRange(0, 2).Draw(rt, "option next") > 0) {
			out = append(out, words[0]...)
			words = words[1:]
			continue
		}
		if len(words) == 0 && rapid.IntRange(0, 4).Draw(rt, "--") == 0 {
			out = append(out, "--")
			return append(out, defs...)
		}
		out = append(out, defs[0])
		defs = defs[1:]
	}
	return out
}

// ask is a command line that makes nothing.
type ask struct {
	Args []string
	What string // help, version or error
}

type optCase struct {
	Spec  *pspec.Spec
	Opts  options
	Args  []string // a spelling of them
	Asks  []ask
	Again bool   // the service was made before, and edited
	Gone  string // one of its files is deleted then
}

func (x optCase) describe() interface{} {
	return map[string]interface{}{"definitions": x.Spec.Whole(), "options": x.Opts, "command line": x.Args, "made before": x.Again, "deleted then": x.Gone, "others": x.Asks}
}

func genOptions(rt *rapid.T) (x optCase) {
	for {
		x.Spec = pspec.Gen(pspec.Opts{MaxFiles: 3, MaxMsgs: 2, MaxRpcs: 3, Streaming: true}).Draw(rt, "spec")
		if x.Spec.Service() != nil {
			break
		}
	}
	var defs []string
	for i, f := range x.Spec.Files {
		f.Name = []string{"a", "b_x", "c"}[i]
		defs = append(defs, "api/"+f.Name+".proto")
	}
	x.Spec.Service().Name = "Echo"
	flip := func(n string) bool { return rapid.Bool().Draw(rt, n) }
	x.Opts = options{
		Client: flip("client"), Verbose: flip("verbose"), Svcdef: rapid.IntRange(0, 3).Draw(rt, "svcdef") == 0,
		Debug:     rapid.IntRange(0, 3).Draw(rt, "debug") == 0,
		Transport: rapid.SampledFrom([]string{"all", "all", "grpc", "nats"}).Draw(rt, "transport"),
		Out:       rapid.SampledFrom([]string{"", "", "./", "./out", "./out/", "./deep/er/"}).Draw(rt, "out"),
	}
	x.Args = x.Opts.spell(rt, defs)
	x.Again = flip("again")
	if x.Again {
		x.Gone = rapid.SampledFrom([]string{"", "", "cmd/echo/main.go", "server/endpoints.go", "server/wrapper.go", "server/interrupt.go", "service/wrapper.go", "server/server.go", "service/service.go"}).Draw(rt, "gone")
	}
	for n := rapid.IntRange(1, 3).Draw(rt, "asks"); len(x.Asks) < n; {
		var a ask
		a.What = rapid.SampledFrom([]string{"help", "version", "error"}).Draw(rt, "what")
		switch a.What {
		case "help":
			a.Args = []string{rapid.SampledFrom([]string{"-h", "--help", "--help=true"}).Draw(rt, "ask")}
		case "version":
			a.Args = []string{rapid.SampledFrom([]string{"-V", "--version", "--version=true"}).Draw(rt, "ask")}
		default:
			a.Args = rapid.SampledFrom([][]string{{"--nope"}, {"-x"}, {"--client=perhaps"}, {"-c=2"}, {"--clien"}, {"--grpc"}, {"-cz"}, {"---"}, {"-V=no way"}, {"NOTHING"}, {"LAST -o"}, {"LAST -t"}, {"LAST --svcout"}, {"LAST --transport"}}).Draw(rt, "ask")
		}
		switch w := a.Args[0]; {
		case w == "NOTHING": // no definition
			a.Args = x.Opts.spell(rt, nil)
		case strings.HasPrefix(w, "LAST "): // without a value
			a.Args = append(append([]string{}, defs...), strings.TrimPrefix(w, "LAST "))
		default:
			// anywhere among others, not taken for the value of one
			with := append([]string{}, defs...)
			if flip("with options") {
				with = append(with, "-c", "--transport=grpc")
			}
			if flip("alone") && a.What != "error" {
				with = nil
			}
			at := rapid.IntRange(0, len(with)).Draw(rt, "at")
			a.Args = append(append(append([]string{}, with[:at]...), w), with[at:]...)
		}
		x.Asks = append(x.Asks, a)
	}
	return x
}

// diff is a difference of two trees, except for paths that skip holds for.
func diffTrees(a, b map[string]string, skip func(string) bool) string {
	var all []string
	for p := range a {
		all = append(all, p)
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			all = append(all, p)
		}
	}
	sort.Strings(all)
	for _, p := range all {
		x, inA := a[p]
		y, inB := b[p]
		if (inA != inB || x != y) && (skip == nil || !skip(p)) {
			return fmt.Sprintf("%s: present %v and %v\n--- one\n%s\n--- other\n%s", p, inA, inB, x, y)
		}
	}
	return ""
}

var optionLine = regexp.MustCompile(`(?m)^\s+(?:-(\w), )?\s*--(\w+)\b`)

// imports are the import paths of a Go file.
func imports(src string) (map[string]bool, error) {
	f, err := parser.ParseFile(token.NewFileSet(), "", src, parser.ImportsOnly)
	if err != nil {
		return nil, err
	}
	out := map[string]bool{}
	for _, i := range f.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		out[p] = true
	}
	return out, nil
}

func checkOptions(rep *vt.Rep, x optCase) error {
	base, err := baroncli.New()
	if err != nil {
		return err
	}
	defer base.Close()
	var defs []string
	for _, f := range x.Spec.Files {
		base.Write("api/"+f.Name+".proto", x.Spec.Text(f))
		defs = append(defs, "api/"+f.Name+".proto")
	}
	run := func(w *baroncli.WS, args []string) (baroncli.Result, error) {
		r, err := w.Run(".", args...)
		if err == nil && r.Hung {
			err = fmt.Errorf("baron %q does not end", args)
		}
		return r, err
	}
	printed := ""
	ok := func(w *baroncli.WS, args []string) (map[string]string, error) {
		r, err := run(w, args)
		printed = r.Std
		if err == nil && r.Code != 0 {
			err = fmt.Errorf("baron %q: exit %d\n%s", args, r.Code, r.Out)
		}
		return w.Tree(), err
	}
	svc := map[string]string{"": "echo-service", "./": "echo-service", "./out": "out", "./out/": "out/echo-service", "./deep/er/": "deep/er/echo-service"}[x.Opts.Out]
	if x.Again {
		o := x.Opts
		o.Client = false
		if _, err := ok(base, o.plain(defs)); err != nil {
			return err
		}
		t := base.Tree()
		base.Write(svc+"/service/service.go", t[svc+"/service/service.go"]+"\nfunc mine() int { return 1 }\n")
		if x.Gone != "" {
			if err := base.Remove(svc + "/" + x.Gone); err != nil {
				return fmt.Errorf("baron %q makes no %s", o.plain(defs), x.Gone)
			}
		}
	}
	before := base.Tree()

	for _, a := range x.Asks {
		w, err := base.Copy()
		if err != nil {
			return err
		}
		defer w.Close()
		r, err := run(w, a.Args)
		if err != nil {
			return err
		}
		if d := diffTrees(before, w.Tree(), nil); d != "" {
			return fmt.Errorf("baron %q, which asks for %s, changes files: %s", a.Args, a.What, d)
		}
		if (a.What == "error") != (r.Code != 0) {
			return fmt.Errorf("baron %q: exit %d\n%s", a.Args, r.Code, r.Out)
		}
		switch a.What {
		case "help":
			got := map[string]string{}
			for _, m := range optionLine.FindAllStringSubmatch(r.Out, -1) {
				got[m[2]] = m[1]
			}
			for long, short := range map[string]string{"client": "c", "help": "h", "start": "s", "svcdef": "d", "svcout": "o", "transport": "t", "verbose": "v", "version": "V"} {
				if s, ok := got[long]; !ok || s != short {
					return fmt.Errorf("baron %q does not list -%s, --%s:\n%s", a.Args, short, long, r.Out)
				}
			}
		case "version":
			if !strings.Contains(r.Out, "v1") || !strings.Contains(r.Out, "d1") {
				return fmt.Errorf("baron %q does not print version v1 and date d1:\n%s", a.Args, r.Out)
			}
		case "error":
			if strings.TrimSpace(r.Out) == "" {
				return fmt.Errorf("baron %q says nothing", a.Args)
			}
		}
		rep.Class("asks for " + a.What)
	}

	one, err := base.Copy()
	if err != nil {
		return err
	}
	defer one.Close()
	want, err := ok(one, x.Opts.plain(defs))
	if err != nil {
		return err
	}
	other, err := base.Copy()
	if err != nil {
		return err
	}
	defer other.Close()
	got, err := ok(other, x.Args)
	if err != nil {
		return err
	}
	if d := diffTrees(want, got, nil); d != "" {
		return fmt.Errorf("baron %q and baron %q make different files: %s", x.Opts.plain(defs), x.Args, d)
	}

	// what the options mean
	if !x.Opts.Svcdef && strings.TrimSpace(printed) != "" {
		return fmt.Errorf("baron %q, without --svcdef, prints\n%s", x.Args, printed)
	}
	if x.Opts.Svcdef {
		if strings.TrimSpace(printed) == "" {
			return fmt.Errorf("baron %q prints no definition", x.Args)
		}
		for _, r := range x.Spec.Service().Rpcs {
			for _, b := range r.Bindings {
				if !strings.Contains(printed, strconv.Quote(b.Path)) {
					return fmt.Errorf("baron %q prints a definition without the path %s:\n%s", x.Args, b.Path, printed)
				}
			}
		}
	}
	files := []string{"cmd/echo/main.go", "server/endpoints.go", "server/wrapper.go", "server/interrupt.go", "server/server.go", "service/service.go", "service/wrapper.go"}
	for _, f := range files {
		if _, ok := got[svc+"/"+f]; !ok {
			return fmt.Errorf("baron %q leaves no %s", x.Args, svc+"/"+f)
		}
	}
	client := svc + "/cmd/echo-client/main.go"
	if _, ok := got[client]; ok != x.Opts.Client {
		return fmt.Errorf("baron %q: a client is made: %v", x.Args, ok)
	}
	for _, f := range []string{"api/a.pb.baron.go", svc + "/server/server.go", client} {
		if f == client && !x.Opts.Client {
			continue
		}
		im, err := imports(got[f])
		if err != nil {
			return fmt.Errorf("baron %q: %v in %s\n%s", x.Args, err, f, got[f])
		}
		for path, transport := range map[string]string{"google.golang.org/grpc": "grpc", "github.com/nats-io/nats.go": "nats"} {
			if f == "api/a.pb.baron.go" && len(x.Spec.Service().Rpcs) == 0 {
				continue
			}
			if want := x.Opts.Transport == "all" || x.Opts.Transport == transport; im[path] != want {
				return fmt.Errorf("baron %q: %s imports %s: %v", x.Args, f, path, im[path])
			}
		}
	}

	// the client is the only difference that -c makes
	flipped := x.Opts
	flipped.Client = !flipped.Client
	third, err := base.Copy()
	if err != nil {
		return err
	}
	defer third.Close()
	without, err := ok(third, flipped.plain(defs))
	if err != nil {
		return err
	}
	if d := diffTrees(got, without, func(p string) bool { return strings.HasPrefix(p, filepath.Dir(client)+"/") }); d != "" {
		return fmt.Errorf("baron with and without --client (%q) differ in more than the client: %s", x.Args, d)
	}
	rep.Case(len(x.Args) > len(defs)+1, fmt.Sprint(x.Args, x.Again, x.Gone), x.describe)
	rep.Class("transport "+x.Opts.Transport, "svcout "+x.Opts.Out, fmt.Sprintf("made before: %v", x.Again), "deleted: "+x.Gone)
	for n, on := range map[string]bool{"client": x.Opts.Client, "verbose": x.Opts.Verbose, "debug": x.Opts.Debug, "svcdef": x.Opts.Svcdef} {
		if on {
			rep.Class(n)
		}
	}
	return nil
}

func TestC38(t *testing.T) {
	rep := vt.Start(t, "C38", "random options in random spellings (long, short, joined, clustered, with =, said twice, turned off again, before, between and after the definitions, behind --), compared with the plainest command line of the same meaning; and command lines that ask for help or the version or are wrong, which must leave every file alone; in new modules and where the service was made before; non-trivial: more than one option besides the definitions")
	rep.Check(t, 38, vt.N(30, 400), func(rt *rapid.T) {
		xs := rapid.SliceOfN(rapid.Custom(genOptions), 8, 16).Draw(rt, "cases")
		i, err := vt.Parallel(len(xs), func(i int) error { return checkOptions(rep, xs[i]) })
		if err != nil {
			rep.FailErr(rt, xs[i].describe(), err)
		}
	})
}

var reportLine = regexp.MustCompile(`(?m)^.*\bmsg="(->|\*>|=>|>>) ([^"\n]*)"`)

// checkReport follows a history of runs and compares what each says about
// files with what it did.
func checkReport(rep *vt.Rep, steps []step) error {
	w, err := baroncli.New()
	if err != nil {
		return err
	}
	defer w.Close()
	changes := 0
	for n, x := range steps {
		args := append(append([]string{}, x.Args...), x.Order...)
		what := fmt.Sprintf("run %d, baron %v", n+1, args)
		for p, t := range x.Files {
			w.Write("api/"+p, t)
		}
		if err := setTimes(w, x.Times); err != nil {
			return vt.Infra{Err: err}
		}
		before := w.Through()
		r, err := w.Run(".", args...)
		if err != nil {
			return err
		}
		after := w.Through()
		if x.Damage != "" {
			continue // what it would have done
		}
		if r.Code != 0 {
			return fmt.Errorf("%s: exit %d\n%s", what, r.Code, r.Out)
		}
		marks := map[string]string{}
		for _, m := range reportLine.FindAllStringSubmatch(r.Out, -1) {
			p, err := filepath.Rel(w.Dir, m[2])
			if err != nil {
				return err
			}
			if marks[p] != "" {
				return fmt.Errorf("%s names %s twice\n%s", what, p, r.Out)
			}
			marks[p] = m[1]
			rep.Class("said " + m[1])
		}
		svc := ""
		for p := range marks {
			if strings.HasSuffix(p, "/service/service.go") {
				svc = strings.TrimSuffix(p, "/service/service.go")
			}
		}
		if svc == "" {
			return fmt.Errorf("%s does not name the service file\n%s", what, r.Out)
		}
		owned := func(p string) bool { return strings.HasPrefix(p, "api/") || p == svc+"/server/server.go" }
		for p, m := range marks {
			was, b := before[p]
			is, a := after[p]
			want := "->"
			switch {
			case b && owned(p):
				want = "*>"
			case b && was == is:
				want = "=>"
			case b:
				want = ">>"
				changes++
			}
			if !a {
				return fmt.Errorf("%s names %s, which is not there\n%s", what, p, r.Out)
			}
			if m != want {
				return fmt.Errorf("%s: %q for %s, which was there %v, and is the same %v\n--- before\n%s\n--- after\n%s\n%s", what, m, p, b, was == is, was, is, r.Out)
			}
		}
		for p, is := range after {
			if was, b := before[p]; (!b || was != is) && !strings.HasSuffix(p, "/") && marks[p] == "" {
				return fmt.Errorf("%s does not name %s, which it makes or changes\n%s", what, p, r.Out)
			}
		}
		for p := range x.Has {
			if marks["api/"+p+".pb.go"] == "" {
				return fmt.Errorf("%s does not name api/%s.pb.go\n%s", what, p, r.Out)
			}
		}
		for _, f := range []string{"cmd/" + strings.TrimSuffix(svc, "-service") + "/main.go", "server/endpoints.go", "server/wrapper.go", "server/interrupt.go", "server/server.go", "service/service.go", "service/wrapper.go"} {
			if marks[svc+"/"+f] == "" {
				return fmt.Errorf("%s does not name %s/%s\n%s", what, svc, f, r.Out)
			}
		}
		if x.Edit {
			sp := svc + "/service/service.go"
			text := after[sp]
			if n%2 == 0 {
				text += fmt.Sprintf("\n// note %d of mine\nfunc mine%d() int { return %d }\n", n, n, n)
			}
			// it may be all that the next run changes
			end := []string{"\n", "", "\n\n\n", " \n", "\n\t\n"}[(n+len(steps))%5]
			rep.Class(fmt.Sprintf("the file of the user ends in %q", end))
			w.Write(sp, strings.TrimRight(text, "\n")+end)
		}
		for _, m := range x.Mine {
			f := svc + "/" + strings.ReplaceAll(m[0], "NAME", strings.TrimSuffix(svc, "-service"))
			if _, ok := after[f]; ok {
				w.Write(f, m[1])
				rep.Class(fmt.Sprintf("a file of the user becomes %q", m[1]))
			}
		}
		x.disturb(rep, w, svc)
		rep.Class("change: " + x.How)
	}
	rep.Case(changes > 0, fmt.Sprint(steps), func() interface{} { return describeAll(steps) })
	return nil
}

func TestC39(t *testing.T) {
	rep := vt.Start(t, "C39", "random histories of runs in one module (as for C34, with edits of the user in between); every line of the output that names a file is compared with what became of that file, and every file made or changed must be named; non-trivial: a file of the user is modified by a run")
	rep.Check(t, 39, vt.N(40, 500), func(rt *rapid.T) {
		hs := rapid.SliceOfN(rapid.Custom(genHistory), 4, 12).Draw(rt, "histories")
		i, err := vt.Parallel(len(hs), func(i int) error { return checkReport(rep, hs[i]) })
		if err != nil {
			rep.FailErr(rt, describeAll(hs[i]), err)
		}
	})
}
