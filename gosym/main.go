package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var verifRoot = "/verif"

// Spec is one harness function.
type Spec struct {
	Prop, Name, Dir, File string
	Thorough              bool // only in the thorough tier
	TimeQ, TimeT          float64
	MaxPaths              int64
	Preempt               int
	StepLimit             int64
}

type harnessFile struct {
	path, dir string
	with      []string
	fresh     bool
	repl      []string
	redir     [][2]string // calls of a package's function go to a function of the harness
	specs     []Spec
}

var reFunc = regexp.MustCompile(`(?m)^func (Verif(C\d\d)_\w+)\(\)`)

func readHarness(path string) (*harnessFile, error) {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	rel, _ := filepath.Rel(filepath.Join(verifRoot, "harness"), path)
	h := &harnessFile{path: path, dir: filepath.Dir(rel)}
	pend := Spec{}
	num := func(s string) float64 { f, _ := strconv.ParseFloat(s, 64); return f }
	for _, line := range strings.Split(string(data), "\n") {
		if strings.HasPrefix(line, "//verif:") {
			f := strings.Fields(strings.TrimPrefix(line, "//verif:"))
			switch f[0] {
			case "with":
				h.with = append(h.with, f[1:]...)
			case "replace":
				h.repl = append(h.repl, strings.Join(f[1:], " "))
			case "body": // the standard package is executed from source
				for _, q := range f[1:] {
					delete(denyBodies, q)
				}
			case "redirect":
				if len(f) != 3 {
					return nil, fmt.Errorf("%s: %s", path, line)
				}
				h.redir = append(h.redir, [2]string{f[1], f[2]})
			case "fresh": // global state: one process per native run
				h.fresh = true
			case "thorough":
				pend.Thorough = true
			case "time":
				pend.TimeQ = num(f[1])
				pend.TimeT = num(f[len(f)-1])
			case "paths":
				pend.MaxPaths = int64(num(f[1]))
			case "steps":
				pend.StepLimit = int64(num(f[1]))
			default:
				return nil, fmt.Errorf("%s: unknown directive %s", path, line)
			}
			continue
		}
		if m := reFunc.FindStringSubmatch(line); m != nil {
			s := pend
			s.Prop, s.Name, s.Dir, s.File = m[2], m[1], h.dir, path
			if s.TimeQ == 0 {
				s.TimeQ, s.TimeT = 60, 300
			}
			h.specs = append(h.specs, s)
			pend = Spec{}
		}
	}
	return h, nil
}

// findHarness lists the harness files of a property (and the library files they need).
func findHarness(prop string) (files []*harnessFile, err error) {
	root := filepath.Join(verifRoot, "harness")
	seen := map[string]bool{}
	add := func(p string) error { return addHarness(p, seen, &files) }
	pre := strings.ToLower(prop) + "_"
	err = filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !fi.IsDir() && strings.HasPrefix(fi.Name(), pre) && strings.HasSuffix(fi.Name(), ".go") {
			return add(p)
		}
		return nil
	})
	return
}

func moduleOf(dir string) string { return strings.SplitN(dir, "/", 2)[0] }

func importPath(dir string) string { return modPrefix + dir }

type options struct {
	prop, tier, only string
	verbose          bool
	workers          int
	noReplay         bool
	scale            float64
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "selftest" {
		return
	}
	var o options
	flag.StringVar(&o.prop, "prop", "", "property id")
	flag.StringVar(&o.tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&o.only, "only", "", "regexp of harness names")
	flag.BoolVar(&o.verbose, "v", false, "verbose")
	flag.IntVar(&o.workers, "j", runtime.NumCPU(), "workers")
	flag.BoolVar(&o.noReplay, "noreplay", false, "skip native replay")
	flag.Float64Var(&o.scale, "scale", 1, "time scale")
	flag.StringVar(&verifRoot, "root", "/verif", "verif directory")
	flag.Parse()
	os.Exit(runCheck(o))
}

type harnessRun struct {
	spec Spec
	res  *Result
}

func runCheck(o options) int {
	t0 := time.Now()
	files, err := findHarness(o.prop)
	if err != nil || len(files) == 0 {
		fmt.Fprintf(os.Stderr, "no harness for %s: %v\n", o.prop, err)
		return 2
	}
	known := loadKnown(o.prop)
	knownLabels := map[string]bool{}
	for _, k := range known {
		knownLabels[k.Label] = true
	}
	var notes []string
	files, bad := usable(o, files)
	for _, b := range bad {
		notes = append(notes, b)
		fmt.Fprintln(os.Stderr, "NOTE", b)
	}
	var specs []Spec
	for _, h := range files {
		for _, s := range h.specs {
			if s.Prop == o.prop && (!s.Thorough || o.tier == "thorough") &&
				(o.only == "" || regexp.MustCompile(o.only).MatchString(s.Name)) {
				specs = append(specs, s)
			}
		}
	}
	sort.SliceStable(specs, func(i, j int) bool { return specs[i].Dir+specs[i].Name < specs[j].Dir+specs[j].Name })
	byMod := map[string][]Spec{}
	var mods []string
	for _, s := range specs {
		m := moduleOf(s.Dir)
		if byMod[m] == nil {
			mods = append(mods, m)
		}
		byMod[m] = append(byMod[m], s)
	}
	var runs []*harnessRun
	tmp, err := os.MkdirTemp("", "gosym-*")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	rp := &replayer{files: files, tmp: tmp, opt: o}
	loadS := 0.0
	for _, m := range mods {
		overlay, err := buildOverlay(files, tmp, overlayOpts{})
		if err != nil {
			notes = append(notes, fmt.Sprintf("harness of %s cannot be placed: %v", m, err))
			continue
		}
		pk := map[string]bool{}
		for _, s := range byMod[m] {
			pk[importPath(s.Dir)] = true
		}
		tl := time.Now()
		l, err := Load(filepath.Join(repoRoot, m), sortedKeys(pk), overlay)
		loadS += time.Since(tl).Seconds()
		if err != nil {
			notes = append(notes, fmt.Sprintf("module %s does not load with the harness: %v", m, err))
			fmt.Fprintln(os.Stderr, "NOTE", notes[len(notes)-1])
			continue
		}
		for _, s := range byMod[m] {
			fn := findFunc(l, importPath(s.Dir), s.Name)
			if fn == nil {
				notes = append(notes, "no function "+s.Name)
				continue
			}
			lim := s.TimeQ
			if o.tier == "thorough" {
				lim = s.TimeT
			}
			lim *= o.scale
			e := &Engine{l: l, prog: l.prog, tier: o.tier, res: newResult(s.Name), maxPaths: 2000000, maxSteps: 30000000,
				tmoMs: 20000, workers: o.workers, verbose: o.verbose, maxViol: 4, nSamples: 12, known: knownLabels,
				deadline: time.Now().Add(time.Duration(lim * float64(time.Second)))}
			if s.MaxPaths > 0 {
				e.maxPaths = s.MaxPaths
			}
			if s.StepLimit > 0 {
				e.maxSteps = s.StepLimit
			}
			res := e.Explore(fn)
			sortViol(res.Violations)
			runs = append(runs, &harnessRun{s, res})
			fmt.Printf("%s: %d paths (%d pruned), %d obligations, %d discharged, %d unknown, %d queries (%.1fs solver, %d repeated), %d steps, %.1fs%s\n",
				s.Name, res.Paths, res.Aborted, res.Obligations, res.Discharged, res.Unknown, res.St.Queries, float64(res.St.SolverNs)/1e9, res.St.Hits, res.Steps, res.WallS, trunc(res.Truncated))
			for _, k := range sortedKeys(res.Unsupported) {
				fmt.Printf("  not encoded: %s (%d paths)\n", k, res.Unsupported[k])
			}
			for _, v := range res.Violations {
				if o.verbose {
					fmt.Printf("  counterexample %s %s %s %v\n", v.Label, v.Kind, v.Detail, v.Inputs)
				}
			}
		}
	}
	rep := rp.confirm(runs)
	rep.loadS = loadS
	rep.notes = append(notes, rep.notes...)
	code := report(o, runs, rep, known, time.Since(t0).Seconds())
	return code
}

// usable drops harness files that no longer compile against the current tree
// (for example because an unexported function they call was renamed).
func usable(o options, files []*harnessFile) (keep []*harnessFile, notes []string) {
	try := func(fs []*harnessFile) error {
		tmp, err := os.MkdirTemp("", "gosym-*")
		if err != nil {
			return err
		}
		defer os.RemoveAll(tmp)
		overlay, err := buildOverlay(fs, tmp, overlayOpts{})
		if err != nil {
			return err
		}
		pk := map[string]map[string]bool{}
		for _, f := range fs {
			m := moduleOf(f.dir)
			if pk[m] == nil {
				pk[m] = map[string]bool{}
			}
			pk[m][importPath(f.dir)] = true
		}
		for _, m := range sortedKeys(pk) {
			if err := vetLoad(filepath.Join(repoRoot, m), sortedKeys(pk[m]), overlay, tmp); err != nil {
				return err
			}
		}
		return nil
	}
	if try(files) == nil {
		return files, nil
	}
	pre := strings.ToLower(o.prop) + "_"
	ok := map[string]bool{}
	for _, f := range files {
		if !strings.HasPrefix(filepath.Base(f.path), pre) {
			continue
		}
		fs, err := closureOf(f.path)
		if err == nil {
			err = try(fs)
		}
		if err != nil {
			notes = append(notes, fmt.Sprintf("harness %s does not compile against this tree and is left out: %v", strings.TrimPrefix(f.path, verifRoot+"/"), err))
			continue
		}
		for _, g := range fs {
			ok[g.path] = true
		}
	}
	for _, f := range files {
		if ok[f.path] {
			keep = append(keep, f)
		}
	}
	return keep, notes
}

// vetLoad compiles the packages with the overlay.
func vetLoad(dir string, pkgs []string, overlay map[string]string, tmp string) error {
	ovf := filepath.Join(tmp, "vet-overlay.json")
	data, _ := json.Marshal(map[string]interface{}{"Replace": overlay})
	if err := os.WriteFile(ovf, data, 0o644); err != nil {
		return err
	}
	cmd := exec.Command(go123+"/bin/go", append([]string{"build", "-o", os.DevNull, "-overlay", ovf}, pkgs...)...)
	cmd.Dir = dir
	cmd.Env = goEnv(cmd.Dir)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v: %.600s", err, out)
	}
	return nil
}

func closureOf(path string) ([]*harnessFile, error) {
	var files []*harnessFile
	seen := map[string]bool{}
	err := addHarness(path, seen, &files)
	return files, err
}

func addHarness(p string, seen map[string]bool, files *[]*harnessFile) error {
	if seen[p] {
		return nil
	}
	seen[p] = true
	h, err := readHarness(p)
	if err != nil {
		return err
	}
	*files = append(*files, h)
	// a stub stands alone
	var libs []string
	if !strings.HasPrefix(filepath.Base(p), "stub_") {
		libs, _ = filepath.Glob(filepath.Join(filepath.Dir(p), "lib_*.go"))
	}
	for _, l := range libs {
		if err := addHarness(l, seen, files); err != nil {
			return err
		}
	}
	for _, w := range h.with {
		if err := addHarness(filepath.Join(verifRoot, "harness", w), seen, files); err != nil {
			return err
		}
	}
	return nil
}

func trunc(s string) string {
	if s == "" {
		return ""
	}
	return " [" + s + "]"
}

func findFunc(l *Loader, pkg, name string) *ssa.Function {
	tp := l.tpkgs[pkg]
	if tp == nil {
		return nil
	}
	p := l.prog.Package(tp)
	if p == nil {
		return nil
	}
	p.Build()
	return p.Func(name)
}

// ---- known findings ----

type Known struct {
	Property, Label, What string
}

// loadKnown reads known_findings.txt. Lines: "known: property=ID label=\"...\" what" and "fixed: property=ID commit what".
func loadKnown(prop string) []Known {
	data, err := os.ReadFile(filepath.Join(verifRoot, "known_findings.txt"))
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^known: property=(\S+) label="([^"]+)" (.*)$`)
	var out []Known
	for _, line := range strings.Split(string(data), "\n") {
		if m := re.FindStringSubmatch(line); m != nil && m[1] == prop {
			out = append(out, Known{Property: m[1], Label: m[2], What: m[3]})
		}
	}
	return out
}
