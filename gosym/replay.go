package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

type overlayOpts struct {
	native bool
	sync   bool
	runner string // package directory that gets the replay test
	names  []string
}

func writeFile(path string, data []byte) error {
	os.MkdirAll(filepath.Dir(path), 0755)
	return os.WriteFile(path, data, 0644)
}

// symOf is the import path of the harnesses' library for code in the directory.
func symOf(dir string) string {
	if strings.HasPrefix(dir, "register/") {
		return modPrefix + "register/verifsym"
	}
	return symPath
}

// buildOverlay maps repository paths to harness files and rewritten sources.
func buildOverlay(files []*harnessFile, tmp string, o overlayOpts) (map[string]string, error) {
	ov := map[string]string{}
	sub := fmt.Sprintf("ov-%v-%v", o.native, o.sync)
	vs := filepath.Join(verifRoot, "harness/common/pkg/verifsym")
	filepath.Walk(vs, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			rel, _ := filepath.Rel(vs, p)
			ov[filepath.Join(repoRoot, "common/pkg/verifsym", rel)] = p
			if !strings.Contains(rel, "/") { // a copy for the module that does not require common
				ov[filepath.Join(repoRoot, "register/verifsym", rel)] = p
			}
		}
		return nil
	})
	edited := map[string][]byte{}
	read := func(p string) ([]byte, error) {
		if d, ok := edited[p]; ok {
			return d, nil
		}
		return os.ReadFile(p)
	}
	for _, h := range files {
		place := filepath.Join(repoRoot, h.dir, "zz_verif_"+filepath.Base(h.path))
		ov[place] = h.path
		if o.native {
			if d, err := os.ReadFile(h.path); err == nil && !strings.HasPrefix(h.dir, "register/") {
				if nd := rewriteNative(place, d, o.sync && !strings.Contains(h.dir, "/verifsym")); nd != nil {
					edited[place] = nd
				}
			}
		}
		for _, rep := range h.repl {
			if err := renameDecl(filepath.Join(repoRoot, h.dir), rep, read, edited); err != nil {
				return nil, err
			}
		}
	}
	for _, h := range files {
		for _, rd := range h.redir {
			if err := redirect(filepath.Join(repoRoot, h.dir), rd[0], rd[1], read, edited); err != nil {
				return nil, err
			}
		}
	}
	if o.native {
		for _, m := range []string{"common", "client", "gateway", "provider", "gateway-admin", "provider-admin"} {
			filepath.Walk(filepath.Join(repoRoot, m), func(p string, fi os.FileInfo, err error) error {
				if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
					return nil
				}
				d, err := read(p)
				if err != nil {
					return nil
				}
				if nd := rewriteNative(p, d, o.sync); nd != nil {
					edited[p] = nd
				}
				return nil
			})
		}
	}
	for p, d := range edited {
		rel, _ := filepath.Rel(repoRoot, p)
		dst := filepath.Join(tmp, sub, rel)
		if err := writeFile(dst, d); err != nil {
			return nil, err
		}
		ov[p] = dst
	}
	if o.runner != "" {
		name := packageName(filepath.Join(repoRoot, o.runner))
		var sb strings.Builder
		fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"testing\"\n\n\t\"%s\"\n)\n\nfunc TestVerifReplay(t *testing.T) {\n\tverifsym.Main(map[string]func(){\n", name, symOf(o.runner))
		for _, n := range o.names {
			fmt.Fprintf(&sb, "\t\t%q: %s,\n", n, n)
		}
		sb.WriteString("\t})\n}\n")
		dst := filepath.Join(tmp, sub, o.runner, "zz_verif_replay_test.go")
		if err := writeFile(dst, []byte(sb.String())); err != nil {
			return nil, err
		}
		ov[filepath.Join(repoRoot, o.runner, "zz_verif_replay_test.go")] = dst
		// existing tests (and their TestMain) stay out of the replay binary
		tests, _ := filepath.Glob(filepath.Join(repoRoot, o.runner, "*_test.go"))
		for _, t := range tests {
			ov[t] = ""
		}
	}
	return ov, nil
}

func packageName(dir string) string {
	ms, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, m := range ms {
		if strings.HasSuffix(m, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), m, nil, parser.PackageClauseOnly)
		if err == nil {
			return f.Name.Name
		}
	}
	return filepath.Base(dir)
}

// renameDecl renames function "Recv.Name" or "Name" in dir so that a harness can supply it.
func renameDecl(dir, what string, read func(string) ([]byte, error), edited map[string][]byte) error {
	recv, name := "", what
	if i := strings.IndexByte(what, '.'); i >= 0 {
		recv, name = what[:i], what[i+1:]
	}
	ms, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, m := range ms {
		if strings.HasSuffix(m, "_test.go") {
			continue
		}
		d, err := read(m)
		if err != nil {
			continue
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, m, d, parser.SkipObjectResolution)
		if err != nil {
			continue
		}
		for _, dc := range f.Decls {
			fd, ok := dc.(*ast.FuncDecl)
			if !ok || fd.Name.Name != name {
				continue
			}
			r := ""
			if fd.Recv != nil && len(fd.Recv.List) == 1 {
				t := fd.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				if id, ok := t.(*ast.Ident); ok {
					r = id.Name
				}
			}
			if r != recv {
				continue
			}
			off := fset.Position(fd.Name.Pos()).Offset
			nd := append([]byte{}, d[:off]...)
			nd = append(nd, []byte(name+"VerifOrig")...)
			nd = append(nd, d[off+len(name):]...)
			edited[m] = nd
			return nil
		}
	}
	// gone: what the harness supplies stands beside the code, or the harness does not compile
	return nil
}

// redirect sends the uses of "import/path.Func" in dir to a function of the harness.
var majorRe = regexp.MustCompile(`^v[0-9]+$`)

func redirect(dir, what, to string, read func(string) ([]byte, error), edited map[string][]byte) error {
	i := strings.LastIndexByte(what, '.')
	pkg, name := what[:i], what[i+1:]
	ms, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	found := false
	for _, m := range ms {
		if strings.HasSuffix(m, "_test.go") {
			continue
		}
		d, err := read(m)
		if err != nil {
			continue
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, m, d, parser.SkipObjectResolution)
		if err != nil {
			continue
		}
		alias := ""
		for _, im := range f.Imports {
			if im.Path.Value == strconv.Quote(pkg) {
				base := pkg
				if majorRe.MatchString(filepath.Base(base)) {
					base = filepath.Dir(base)
				}
				alias = strings.TrimPrefix(filepath.Base(base), "go-")
				if im.Name != nil {
					alias = im.Name.Name
				}
			}
		}
		if alias == "" {
			continue
		}
		var at []int
		ast.Inspect(f, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok && s.Sel.Name == name {
				if x, ok := s.X.(*ast.Ident); ok && x.Name == alias {
					at = append(at, fset.Position(s.Pos()).Offset)
				}
			}
			return true
		})
		if len(at) == 0 {
			continue
		}
		found = true
		nd := append([]byte{}, d...)
		for i := len(at) - 1; i >= 0; i-- {
			nd = append(nd[:at[i]:at[i]], append([]byte(to), nd[at[i]+len(alias)+1+len(name):]...)...)
		}
		edited[m] = append(nd, []byte("\nvar _ = "+alias+"."+name+"\n")...)
	}
	_ = found // without a use there is nothing to send elsewhere
	return nil
}

// rewriteNative replaces time.Now, and package sync for schedule replays; nil if nothing changes.
func rewriteNative(path string, d []byte, doSync bool) []byte {
	hasNow := bytes.Contains(d, []byte("time.Now"))
	hasSync := doSync && bytes.Contains(d, []byte(`"sync"`))
	if !hasNow && !hasSync && !(doSync && (bytes.Contains(d, []byte("go ")) || bytes.Contains(d, []byte("<-")))) {
		return nil
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, d, parser.SkipObjectResolution)
	if err != nil {
		return nil
	}
	type ed struct {
		off, n int
		s      string
	}
	var eds []ed
	now := false
	if hasNow {
		ast.Inspect(f, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok && s.Sel.Name == "Now" {
				if x, ok := s.X.(*ast.Ident); ok && x.Name == "time" {
					off := fset.Position(s.Pos()).Offset
					eds = append(eds, ed{off, len("time.Now"), "verifsym.TimeNow"})
					now = true
				}
			}
			return true
		})
	}
	if doSync {
		for _, e := range nativeThreads(fset, f, d) {
			eds = append(eds, ed{e.off, e.n, e.s})
			now = true
		}
	}
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` && hasSync && im.Name == nil {
			off := fset.Position(im.Pos()).Offset
			eds = append(eds, ed{off, len(im.Path.Value), `sync "` + symPath + `/vsync"`})
		}
	}
	if len(eds) == 0 {
		return nil
	}
	if now {
		off := fset.Position(f.Name.End()).Offset
		eds = append(eds, ed{off, 0, "; import verifsym \"" + symPath + "\""})
	}
	sort.Slice(eds, func(i, j int) bool { return eds[i].off > eds[j].off })
	out := append([]byte{}, d...)
	for _, e := range eds {
		out = append(out[:e.off:e.off], append([]byte(e.s), out[e.off+e.n:]...)...)
	}
	if now {
		if hasNow {
			out = append(out, []byte("\nvar _ time.Duration\n")...)
		}
	}
	return out
}

type textEdit struct {
	off, n int
	s      string
}

// nativeThreads sends go statements and the simple channel operations through the cooperative scheduler.
func nativeThreads(fset *token.FileSet, f *ast.File, d []byte) (eds []textEdit) {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(d[off(n.Pos()):off(n.End())]) }
	recvOf := func(s ast.Stmt) ast.Expr {
		x, ok := s.(*ast.ExprStmt)
		if !ok {
			return nil
		}
		u, ok := x.X.(*ast.UnaryExpr)
		if !ok || u.Op != token.ARROW {
			return nil
		}
		return u.X
	}
	skip := map[ast.Node]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.GoStmt:
			if len(s.Call.Args) == 0 {
				eds = append(eds, textEdit{off(s.Pos()), off(s.Call.Fun.Pos()) - off(s.Pos()), "verifsym.Go("},
					textEdit{off(s.Call.Lparen), off(s.Call.End()) - off(s.Call.Lparen), ")"})
			} else if !s.Call.Ellipsis.IsValid() {
				eds = append(eds, textEdit{off(s.Pos()), off(s.Call.Fun.Pos()) - off(s.Pos()), "verifsym.GoCall("},
					textEdit{off(s.Call.Lparen), 1, ", "})
			}
		case *ast.SendStmt:
			if !skip[s] {
				eds = append(eds, textEdit{off(s.Pos()), off(s.End()) - off(s.Pos()), "verifsym.Send(" + text(s.Chan) + ", " + text(s.Value) + ")"})
			}
		case *ast.ExprStmt:
			if c := recvOf(s); c != nil && !skip[s] {
				eds = append(eds, textEdit{off(s.Pos()), off(s.End()) - off(s.Pos()), "verifsym.Recv(" + text(c) + ")"})
			}
		case *ast.SelectStmt:
			args, simple := "", len(s.Body.List) > 0
			for _, c := range s.Body.List {
				cc := c.(*ast.CommClause)
				if cc.Comm != nil {
					skip[cc.Comm] = true
				}
				if cc.Comm == nil || recvOf(cc.Comm) == nil {
					simple = false
				}
			}
			if !simple {
				return true
			}
			for i, c := range s.Body.List {
				cc := c.(*ast.CommClause)
				args += ", " + text(recvOf(cc.Comm))
				eds = append(eds, textEdit{off(cc.Comm.Pos()), off(cc.Comm.End()) - off(cc.Comm.Pos()), fmt.Sprint(i)})
			}
			eds = append(eds, textEdit{off(s.Pos()), len("select"), "switch verifsym.Select(" + args[2:] + ")"})
		}
		return true
	})
	return
}

// ---- native execution ----

type nInput struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  string `json:"val"`
}

type nCase struct {
	Harness string   `json:"harness"`
	Tier    string   `json:"tier"`
	Inputs  []nInput `json:"inputs"`
	Sched   []int    `json:"sched"`
	Want    string   `json:"want"`
}

type nOutcome struct {
	Failed  []string `json:"failed"`
	Panic   string   `json:"panic"`
	Assumed bool     `json:"assumed"`
	Missing []string `json:"missing"`
	Obs     []string `json:"obs"`
	Done    bool     `json:"done"`
	crashed string
	race    bool
}

type replayer struct {
	files []*harnessFile
	tmp   string
	opt   options
	bins  map[string]string
	errs  map[string]error
}

func (rp *replayer) binary(dir string, sync, race bool) (string, error) {
	key := fmt.Sprintf("%s|%v|%v", dir, sync, race)
	if rp.bins == nil {
		rp.bins, rp.errs = map[string]string{}, map[string]error{}
	}
	if b, ok := rp.bins[key]; ok {
		return b, rp.errs[key]
	}
	var names []string
	for _, h := range rp.files {
		if h.dir == dir {
			for _, s := range h.specs {
				names = append(names, s.Name)
			}
		}
	}
	sort.Strings(names)
	ov, err := buildOverlay(rp.files, rp.tmp, overlayOpts{native: true, sync: sync, runner: dir, names: names})
	bin := filepath.Join(rp.tmp, fmt.Sprintf("replay-%d.test", len(rp.bins)))
	if err == nil {
		ovf := filepath.Join(rp.tmp, fmt.Sprintf("ov-%d.json", len(rp.bins)))
		d, _ := json.Marshal(map[string]interface{}{"Replace": ov})
		writeFile(ovf, d)
		args := []string{"test", "-c", "-vet=off", "-ldflags=-s -w", "-overlay", ovf, "-o", bin}
		if race {
			args = append(args, "-race")
		}
		args = append(args, "./"+strings.TrimPrefix(strings.TrimPrefix(dir, moduleOf(dir)), "/"))
		cmd := exec.Command(go123+"/bin/go", args...)
		cmd.Dir = filepath.Join(repoRoot, moduleOf(dir))
		cmd.Env = goEnv(cmd.Dir)
		out, e := cmd.CombinedOutput()
		if e != nil {
			err = fmt.Errorf("native build of %s: %v\n%s", dir, e, tail(string(out), 1500))
		}
	}
	rp.bins[key], rp.errs[key] = bin, err
	return bin, err
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func toCase(h string, tier string, ins []Input, sched []int, want string) nCase {
	c := nCase{Harness: h, Tier: tier, Sched: sched, Want: want}
	for _, i := range ins {
		c.Inputs = append(c.Inputs, nInput{i.Name, i.Kind, i.Val})
	}
	return c
}

// run executes cases natively, in one process.
func (rp *replayer) run(dir string, cs []nCase, sync, race bool, limit time.Duration) ([]nOutcome, error) {
	bin, err := rp.binary(dir, sync, race)
	if err != nil {
		return nil, err
	}
	work, err := os.MkdirTemp(rp.tmp, "run-*")
	if err != nil {
		return nil, err
	}
	cf := filepath.Join(work, "case.json")
	d, _ := json.Marshal(cs)
	writeFile(cf, d)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run", "^TestVerifReplay$", "-test.timeout", fmt.Sprint(limit))
	cmd.Dir = work
	cmd.Env = append(os.Environ(), "VERIF_CASE="+cf, "HOME="+work, "GORACE=exitcode=66")
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	rerr := cmd.Run()
	var res []nOutcome
	if b, err := os.ReadFile(cf + ".out"); err == nil {
		json.Unmarshal(b, &res)
	}
	isRace := strings.Contains(buf.String(), "WARNING: DATA RACE")
	for i := range res {
		res[i].race = isRace
	}
	if len(res) < len(cs) {
		o := nOutcome{race: isRace}
		if rerr != nil {
			o.crashed = tail(buf.String(), 4000)
			if ctx.Err() != nil {
				o.crashed = "timeout"
			}
		}
		res = append(res, o)
	}
	return res, nil
}

type confirmed struct {
	v    Violation
	spec Spec
	out  nOutcome
}

type repReport struct {
	conf        []confirmed
	unconfirmed []string
	validated   int
	mismatched  []string
	samples     []map[string]interface{}
	notes       []string
	loadS       float64
}

func matches(v Violation, o nOutcome) bool {
	if v.Kind != "panic" && v.Label != "data-race" {
		for _, f := range o.Failed { // before any assumption failed
			if f == v.Label {
				return true
			}
		}
	}
	if o.Assumed {
		return false
	}
	if v.Label == "data-race" {
		return o.race
	}
	if v.Kind == "panic" {
		return o.Panic != "" || strings.Contains(o.crashed, "panic:") || strings.Contains(o.crashed, "fatal error:") ||
			strings.Contains(v.Detail, "deadlock") && o.crashed == "timeout"
	}
	return crashedInRepo(o.crashed)
}

var frameRe = regexp.MustCompile(`(?m)^\t(/\S+\.go):\d+`)

// crashedInRepo: the process ended with a panic of the code under test in another goroutine, before the assertion was
// reached.
func crashedInRepo(out string) bool {
	i := strings.Index(out, "panic: ")
	if i < 0 {
		return false
	}
	for _, m := range frameRe.FindAllStringSubmatch(out[i:], -1) {
		if strings.HasPrefix(m[1], repoRoot+"/") {
			b := filepath.Base(m[1])
			return !strings.HasPrefix(b, "stub_") && !strings.HasPrefix(b, "lib_") && !harnessRe.MatchString(b) && !strings.Contains(m[1], "/verifsym/")
		}
	}
	return false
}

var harnessRe = regexp.MustCompile(`^c\d\d_`)

func (rp *replayer) confirm(runs []*harnessRun) *repReport {
	rep := &repReport{}
	if rp.opt.noReplay {
		for _, h := range runs {
			for _, v := range h.res.Violations {
				rep.unconfirmed = append(rep.unconfirmed, h.spec.Name+": "+v.Label)
			}
		}
		return rep
	}
	for _, h := range runs {
		done := map[string]bool{}
		tried := map[string]int{}
		for _, v := range h.res.Violations {
			if done[v.Label] {
				continue
			}
			tried[v.Label]++
			race := v.Label == "data-race"
			ok := false
			n := 1
			if race || len(v.Sched) > 0 {
				n = 2
			}
			var last nOutcome
			for k := 0; k < n+4 && !ok; k++ {
				c := toCase(v.Harness, rp.opt.tier, v.Inputs, v.Sched, v.Label)
				useSync := len(v.Sched) > 0 && !race
				if race {
					c.Sched = nil
				}
				out, err := rp.run(h.spec.Dir, []nCase{c}, useSync, race, 60*time.Second)
				if err != nil {
					rep.notes = append(rep.notes, err.Error())
					break
				}
				last = out[0]
				ok = matches(v, last)
			}
			if ok {
				done[v.Label] = true
				rep.conf = append(rep.conf, confirmed{v, h.spec, last})
			} else {
				b, _ := json.Marshal(last)
				rep.notes = append(rep.notes, fmt.Sprintf("counterexample to %s in %s not reproduced natively: %s %s", v.Label, h.spec.Name, tail(string(b), 600), last.crashed))
			}
		}
		for l := range tried {
			if !done[l] {
				rep.unconfirmed = append(rep.unconfirmed, h.spec.Name+": "+l)
			}
		}
	}
	// validate the encoding: run sampled paths natively and compare
	for _, h := range runs {
		if len(h.res.Samples) == 0 {
			continue
		}
		var cs []nCase
		var idx []int
		for i, s := range h.res.Samples {
			if len(s.Sched) > 0 {
				continue // schedules need the other binary; the violations exercise it
			}
			cs = append(cs, toCase(h.spec.Name, rp.opt.tier, s.Inputs, nil, ""))
			idx = append(idx, i)
		}
		if len(cs) == 0 {
			continue
		}
		var out []nOutcome
		var err error
		if rp.isFresh(h.spec) {
			for _, c := range cs {
				var o []nOutcome
				if o, err = rp.run(h.spec.Dir, []nCase{c}, false, false, 60*time.Second); err != nil {
					break
				}
				out = append(out, o...)
			}
		} else {
			out, err = rp.run(h.spec.Dir, cs, false, false, 120*time.Second)
		}
		if err != nil {
			rep.notes = append(rep.notes, err.Error())
			continue
		}
		for i, o := range out {
			if i >= len(cs) {
				break
			}
			s := h.res.Samples[idx[i]]
			bad := ""
			switch {
			case o.crashed != "":
				bad = "crashed: " + o.crashed
			case o.Panic != "":
				bad = "panicked: " + o.Panic
			case o.Assumed:
				bad = "assumption does not hold"
			case len(o.Missing) > 0:
				bad = fmt.Sprint("inputs not on the path: ", o.Missing)
			case len(o.Failed) > 0:
				// fails natively though it held symbolically
				bad = fmt.Sprint("assertions fail: ", o.Failed)
			case strings.Join(o.Obs, "\n") != strings.Join(s.Obs, "\n"):
				bad = fmt.Sprintf("observed %v, predicted %v", o.Obs, s.Obs)
			}
			if bad != "" {
				rep.mismatched = append(rep.mismatched, h.spec.Name+": "+bad)
				if rp.opt.verbose {
					fmt.Println("  MISMATCH", h.spec.Name, bad, cs[i].Inputs)
				}
				continue
			}
			rep.validated++
			if len(rep.samples) < 8 {
				in := map[string]string{}
				for _, x := range cs[i].Inputs {
					in[x.Name] = tail(x.Val, 80)
				}
				rep.samples = append(rep.samples, map[string]interface{}{"harness": h.spec.Name, "inputs": in, "observed": o.Obs})
			}
		}
	}
	return rep
}

// isFresh reports whether a file of the harness asks for a process of its own per run.
func (rp *replayer) isFresh(s Spec) bool {
	for _, h := range rp.files {
		if h.dir == s.Dir && h.fresh {
			return true
		}
	}
	return false
}
