package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// harness is one symbolic driver function VF_<property>_<name>.
type harness struct {
	Name, Prop, Pkg string
	file            string
	Bounds          string
	Outside         string
	Thorough        bool // only run in the thorough tier
	Budget          [2]int
	MaxSteps        int
	MaxSymLen       int
	Reach           []string
	run             *Run
	native          []*nativeResult
	samples         int
	validated       int
	diverged        []string
	wall            time.Duration
}

type replayCase struct {
	ID      int
	Harness string
	Tier    string
	Inputs  map[string]uint64
}

type nativeResult struct {
	ID      int
	Status  string
	Msg     string
	Fails   []string
	Obs     []string
	Missing []string
	Reached []string
}

var (
	fCheck    = flag.String("check", "", "property id")
	fTier     = flag.String("tier", "", "quick or thorough")
	fRepo     = flag.String("repo", "/repo", "repository")
	fVerif    = flag.String("verif", "/verif", "verification directory")
	fOnly     = flag.String("only", "", "regexp selecting harnesses (debugging)")
	fJobs     = flag.Int("jobs", 0, "harnesses explored at the same time")
	fVerbose  = flag.Bool("v", false, "verbose")
	fTrace    = flag.Bool("trace", false, "trace calls")
	fSolver   = flag.String("solver", "z3", "SMT solver")
	fBudget   = flag.Int("budget", 0, "override the budget of each harness (seconds)")
	fWorkers  = flag.Int("workers", 0, "workers per harness")
	fNoNative = flag.Bool("nonative", false, "skip native replay (debugging)")
	fReplay   = flag.String("replay", "", "replay a recorded counterexample")
	fProf     = flag.String("prof", "", "cpu profile")
	fSelf     = flag.Bool("selftest", false, "load every harness and build the replay binaries, then stop")
	fNoEvid   = flag.Bool("noevidence", false, "do not write evidence")
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	cleanup()
	os.Exit(2)
}

var scratch string

func cleanup() {
	if scratch != "" {
		os.RemoveAll(scratch)
	}
}

var directive = regexp.MustCompile(`^vf:(\w+)\s*(.*)$`)

// discover parses the harness directories.
func discover(verif string) (map[string][]string, map[string]*harness) {
	files := map[string][]string{}
	hs := map[string]*harness{}
	for _, pkg := range []string{"mint", "syntax"} {
		dir := filepath.Join(verif, "harness", pkg)
		ents, err := os.ReadDir(dir)
		if err != nil {
			die("%v", err)
		}
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			full := filepath.Join(dir, e.Name())
			files[pkg] = append(files[pkg], full)
			fs := token.NewFileSet()
			af, err := parser.ParseFile(fs, full, nil, parser.ParseComments)
			if err != nil {
				die("%v", err)
			}
			for _, d := range af.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "VF_") {
					continue
				}
				parts := strings.SplitN(fd.Name.Name, "_", 3)
				h := &harness{Name: fd.Name.Name, Prop: parts[1], Pkg: pkg, file: full, Budget: [2]int{60, 400}}
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						m := directive.FindStringSubmatch(strings.TrimSpace(strings.TrimPrefix(c.Text, "//")))
						if m == nil {
							continue
						}
						switch m[1] {
						case "bounds":
							h.Bounds = strings.TrimSpace(h.Bounds + " " + m[2])
						case "outside":
							h.Outside = strings.TrimSpace(h.Outside + " " + m[2])
						case "thorough":
							h.Thorough = true
						case "budget":
							fmt.Sscanf(m[2], "%d %d", &h.Budget[0], &h.Budget[1])
						case "steps":
							h.MaxSteps, _ = strconv.Atoi(m[2])
						case "symlen":
							h.MaxSymLen, _ = strconv.Atoi(m[2])
						case "reach":
							h.Reach = append(h.Reach, strings.Fields(m[2])...)
						default:
							die("%s: unknown directive vf:%s", fd.Name.Name, m[1])
						}
					}
				}
				hs[h.Name] = h
			}
		}
	}
	return files, hs
}

// restrict keeps the files that hold harnesses of one property, and those that
// hold none (shared helpers).
func restrict(files map[string][]string, all map[string]*harness, prop string) (map[string][]string, map[string]*harness) {
	nf := map[string][]string{}
	nh := map[string]*harness{}
	for n, h := range all {
		if h.Prop == prop {
			nh[n] = h
		}
	}
	for pkg, fs := range files {
		for _, f := range fs {
			mine, other := false, false
			for _, h := range all {
				if h.file == f {
					if h.Prop == prop {
						mine = true
					} else {
						other = true
					}
				}
			}
			if mine || !other {
				nf[pkg] = append(nf[pkg], f)
			}
		}
	}
	return nf, nh
}

// setup writes the overlay files into the scratch directory.
type overlaySet struct {
	loadJSON, testJSON string
	load               map[string]string
	hfiles             map[string]bool
	modfile            string
}

var timeRe = regexp.MustCompile(`\btime\.(Now|Since|Until)\(`)

func makeOverlays(repo, verif string, files map[string][]string, hs map[string]*harness) *overlaySet {
	o := &overlaySet{load: map[string]string{}, hfiles: map[string]bool{}}
	test := map[string]string{}
	dirOf := map[string]string{"mint": repo, "syntax": filepath.Join(repo, "syntax")}
	must := func(err error) {
		if err != nil {
			die("%v", err)
		}
	}
	write := func(name, content string) string {
		p := filepath.Join(scratch, name)
		must(os.WriteFile(p, []byte(content), 0644))
		return p
	}
	rt, err := os.ReadFile(filepath.Join(verif, "harness/rt/vfrt.go.tmpl"))
	must(err)
	rp, err := os.ReadFile(filepath.Join(verif, "harness/rt/vfreplay_test.go.tmpl"))
	must(err)
	for pkg, dir := range dirOf {
		r := write(pkg+"_vfrt.go", strings.Replace(string(rt), "package PKG", "package "+pkg, 1))
		add := func(target, src string) {
			o.load[target] = src
			test[target] = src
			o.hfiles[target] = true
		}
		add(filepath.Join(dir, "zz_verif_rt.go"), r)
		for _, f := range files[pkg] {
			add(filepath.Join(dir, "zz_verif_"+filepath.Base(f)), f)
		}
		t := write(pkg+"_replay_test.go", strings.Replace(string(rp), "package PKG", "package "+pkg, 1))
		test[filepath.Join(dir, "zz_verif_replay_test.go")] = t
		var sb strings.Builder
		fmt.Fprintf(&sb, "package %s\n\nvar vfHarnesses = map[string]func(){\n", pkg)
		for _, n := range sortedKeys(hs) {
			if hs[n].Pkg == pkg {
				fmt.Fprintf(&sb, "\t%q: %s,\n", n, n)
			}
		}
		sb.WriteString("}\n")
		test[filepath.Join(dir, "zz_verif_reg_test.go")] = write(pkg+"_reg_test.go", sb.String())
		ents, err := os.ReadDir(dir)
		must(err)
		for _, e := range ents {
			n := e.Name()
			if !strings.HasSuffix(n, ".go") || e.IsDir() {
				continue
			}
			full := filepath.Join(dir, n)
			if strings.HasSuffix(n, "_test.go") {
				test[full] = ""
				continue
			}
			data, err := os.ReadFile(full)
			must(err)
			if timeRe.Match(data) {
				nd := timeRe.ReplaceAllString(string(data), "vfTime$1(")
				nd += "\nvar _ time.Duration\n"
				test[full] = write(pkg+"_time_"+n, nd)
			}
		}
	}
	wj := func(name string, m map[string]string) string {
		b, _ := json.Marshal(map[string]interface{}{"Replace": m})
		return write(name, string(b))
	}
	o.loadJSON = wj("load.json", o.load)
	o.testJSON = wj("test.json", test)
	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	must(err)
	o.modfile = write("vf.mod", string(gm))
	gs, err := os.ReadFile(filepath.Join(verif, "engine/mint.sum"))
	must(err)
	write("vf.sum", string(gs))
	return o
}

type replayer struct {
	o    *overlaySet
	mu   sync.Mutex
	bins map[string]string
	errs map[string]error
	repo string
	n    int
}

func (r *replayer) build(pkg string) (string, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if b, ok := r.bins[pkg]; ok {
		return b, r.errs[pkg]
	}
	b := filepath.Join(scratch, "replay_"+pkg)
	arg := "."
	if pkg == "syntax" {
		arg = "./syntax"
	}
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-o", b, "-modfile="+r.o.modfile, "-overlay="+r.o.testJSON, arg)
	cmd.Dir = r.repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		err = fmt.Errorf("building the replay binary: %v\n%s", err, out)
	}
	r.bins[pkg] = b
	r.errs[pkg] = err
	return b, err
}

// replay runs the cases natively.
func (r *replayer) replay(pkg string, cases []replayCase) (map[int]*nativeResult, error) {
	bin, err := r.build(pkg)
	if err != nil {
		return nil, err
	}
	res := map[int]*nativeResult{}
	left := cases
	for len(left) > 0 {
		r.mu.Lock()
		r.n++
		n := r.n
		r.mu.Unlock()
		dir := filepath.Join(scratch, fmt.Sprintf("run%d", n))
		os.MkdirAll(dir, 0755)
		cf, of := filepath.Join(dir, "cases.json"), filepath.Join(dir, "out.json")
		b, _ := json.Marshal(left)
		os.WriteFile(cf, b, 0644)
		cmd := exec.Command("/bin/bash", "-c", "ulimit -v 12000000; exec \"$0\" -test.run '^TestVerifReplay$' -test.timeout 300s", bin)
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "VF_CASES="+cf, "VF_OUT="+of, "GODEBUG=", "MINT_LOG=")
		out, _ := cmd.CombinedOutput()
		od, _ := os.ReadFile(of)
		sc := bufio.NewScanner(bytes.NewReader(od))
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for sc.Scan() {
			var nr nativeResult
			if json.Unmarshal(sc.Bytes(), &nr) == nil {
				c := nr
				res[nr.ID] = &c
			}
		}
		var rest []replayCase
		for _, c := range left {
			if res[c.ID] == nil {
				rest = append(rest, c)
			}
		}
		if len(rest) > 0 {
			// the first unanswered case brought the process down, unless an earlier one hung
			hung := len(rest) < len(left) && res[left[len(left)-len(rest)-1].ID] != nil && res[left[len(left)-len(rest)-1].ID].Status == "hang"
			if !hung {
				msg := string(out)
				if len(msg) > 3000 {
					msg = msg[:3000]
				}
				res[rest[0].ID] = &nativeResult{ID: rest[0].ID, Status: "crash", Msg: msg}
				rest = rest[1:]
			}
		}
		left = rest
		os.RemoveAll(dir)
	}
	return res, nil
}

// reproduces reports whether a native result shows the violation v.
func reproduces(v *Violation, n *nativeResult) bool {
	if n == nil {
		return false
	}
	switch v.Kind {
	case "assert":
		for _, f := range n.Fails {
			if f == v.Msg {
				return true
			}
		}
		return n.Status == "panic" || n.Status == "crash" || n.Status == "hang"
	case "panic":
		return n.Status == "panic" || n.Status == "crash" || n.Status == "hang"
	case "hang":
		return n.Status == "hang" || n.Status == "crash" || n.Status == "panic"
	}
	return false
}

type known struct{ prop, harness, match, text string }

func loadKnown(verif string) []known {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^known: property=(\S+) harness=(\S+) match="([^"]*)" (.*)$`)
	var ks []known
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil {
			ks = append(ks, known{m[1], m[2], m[3], m[4]})
		}
	}
	return ks
}

func main() {
	flag.Parse()
	if *fCheck == "" && *fReplay == "" && !*fSelf {
		fmt.Fprintln(os.Stderr, "usage: gosym -check ID [-tier quick|thorough]")
		os.Exit(2)
	}
	if *fTier == "" {
		*fTier = os.Getenv("VERIF_TIER")
	}
	if *fTier != "thorough" {
		*fTier = "quick"
	}
	start := time.Now()
	var err error
	scratch, err = os.MkdirTemp("", "gosym")
	if err != nil {
		die("%v", err)
	}
	defer cleanup()
	startProf()
	files, all := discover(*fVerif)
	if *fSelf {
		o := makeOverlays(*fRepo, *fVerif, files, all)
		rp := &replayer{o: o, bins: map[string]string{}, errs: map[string]error{}, repo: *fRepo}
		if _, err := loadProgram(*fRepo, o.modfile, o.loadJSON, o.load, o.hfiles); err != nil {
			die("loading the program: %v", err)
		}
		for pkg := range files {
			if _, err := rp.build(pkg); err != nil {
				die("%v", err)
			}
		}
		fmt.Printf("engine ready: %d harnesses\n", len(all))
		cleanup()
		os.Exit(0)
	}
	if *fReplay != "" {
		os.Exit(doReplay(files, all))
	}
	var hs []*harness
	var only *regexp.Regexp
	if *fOnly != "" {
		only = regexp.MustCompile(*fOnly)
	}
	for _, n := range sortedKeys(all) {
		h := all[n]
		if h.Prop != *fCheck || h.Thorough && *fTier == "quick" && only == nil {
			continue
		}
		if only != nil && !only.MatchString(n) {
			continue
		}
		hs = append(hs, h)
	}
	if len(hs) == 0 {
		die("no harness for %s", *fCheck)
	}
	files, all = restrict(files, all, *fCheck)
	o := makeOverlays(*fRepo, *fVerif, files, all)
	rp := &replayer{o: o, bins: map[string]string{}, errs: map[string]error{}, repo: *fRepo}
	if !*fNoNative {
		pk := map[string]bool{}
		for _, h := range hs {
			pk[h.Pkg] = true
		}
		for k := range pk {
			go rp.build(k)
		}
	}
	p, err := loadProgram(*fRepo, o.modfile, o.loadJSON, o.load, o.hfiles)
	if err != nil {
		die("loading the program: %v", err)
	}
	loadT := time.Since(start)
	limit := 170 * time.Second
	if *fTier == "thorough" {
		limit = 780 * time.Second
	}
	hunt := os.Getenv("GOSYM_HUNT") != "" // mutation testing: stop at the first violation
	if n, err := strconv.Atoi(os.Getenv("GOSYM_LIMIT")); err == nil && n > 0 {
		limit = time.Duration(n) * time.Second
	}
	end := start.Add(limit)
	nw := *fWorkers
	if nw == 0 {
		nw = runtime.NumCPU()
	}
	jobs := *fJobs
	if jobs == 0 {
		jobs = 2
		if len(hs) >= 6 {
			jobs = 4
		}
	}
	if jobs > len(hs) {
		jobs = len(hs)
	}
	solPool := make(chan []*Solver, jobs)
	for j := 0; j < jobs; j++ {
		var sols []*Solver
		for i := 0; i < nw; i++ {
			s, err := newSolver(*fSolver, 20000)
			if err != nil {
				die("starting %s: %v", *fSolver, err)
			}
			sols = append(sols, s)
		}
		solPool <- sols
	}
	// Several rounds, so that no harness starves the others: every harness gets
	// an equal share of the time left, and what it did not use is left for the
	// unfinished ones in the next round.
	if hunt {
		go func() {
			for {
				time.Sleep(100 * time.Millisecond)
				for _, h := range hs {
					if r := h.run; r != nil && len(r.violations) > 0 {
						v := r.violations[0]
						fmt.Printf("HUNT %s: %s: %s\n", h.Name, v.Kind, v.Msg)
						cleanup()
						os.Exit(1)
					}
				}
			}
		}()
	}
	todo := hs
	for round := 0; len(todo) > 0 && (round == 0 || time.Until(end) > 2*time.Second); round++ {
		share := time.Until(end) * time.Duration(jobs) / time.Duration(len(todo))
		if round < 2 {
			share /= 2
		}
		if share < 3*time.Second {
			share = 3 * time.Second
		}
		var wg sync.WaitGroup
		sem := make(chan struct{}, jobs)
		for _, h := range todo {
			wg.Add(1)
			sem <- struct{}{}
			go func(h *harness) {
				defer wg.Done()
				defer func() { <-sem }()
				sols := <-solPool
				defer func() { solPool <- sols }()
				t0 := time.Now()
				exploreHarness(p, h, sols, end, share)
				h.wall += time.Since(t0)
			}(h)
		}
		wg.Wait()
		var next []*harness
		for _, h := range todo {
			if h.run.resumable() && h.wall < h.budget() {
				next = append(next, h)
			}
		}
		todo = next
	}
	if *fVerbose {
		for _, h := range hs {
			r := h.run
			fmt.Printf("# %s: %.1fs paths=%d ok=%d infeasible=%d unsupported=%d unknown=%d hang=%d forks=%d steps=%d queries=%d solver=%.1fs asserts=%d ifconv=%d depth=%d viol=%d reached=%v picks=%v %s\n", h.Name, h.wall.Seconds(), r.paths, r.okPaths, r.infeasible,
				r.unsupported, r.unknownPaths, r.hangs, r.forks, r.steps, r.queries, r.solverTime.Seconds(), r.asserts, r.ifConvs, r.maxDepth, len(r.violations), r.reached, r.picks, r.incomplete)
			for m, n := range r.unsupMsgs {
				fmt.Printf("#   unsupported x%d: %s\n", n, m)
			}
			if r.internalErr != "" {
				fmt.Printf("#   internal: %s\n", r.internalErr)
			}
		}
	}
	close(solPool)
	for sols := range solPool {
		for _, s := range sols {
			s.close()
		}
	}
	exploreT := time.Since(start)
	code := report(p, rp, hs, start, loadT, exploreT)
	stopProf()
	cleanup()
	os.Exit(code)
}

// budget is the time one harness may take in total.
func (h *harness) budget() time.Duration {
	b := h.Budget[0]
	if *fTier == "thorough" {
		b = h.Budget[1]
	}
	if *fBudget > 0 {
		b = *fBudget
	}
	return time.Duration(b) * time.Second
}

func exploreHarness(p *Program, h *harness, sols []*Solver, end time.Time, share time.Duration) {
	if h.run == nil {
		path := modPath
		if h.Pkg == "syntax" {
			path = modPath + "/syntax"
		}
		fn := p.pkgs[path].Func(h.Name)
		if fn == nil {
			die("harness %s not found", h.Name)
		}
		r := newRun(p, fn, *fTier)
		r.traceOn = *fTrace
		if h.MaxSteps > 0 {
			r.maxSteps = h.MaxSteps
		}
		if h.MaxSymLen > 0 {
			r.maxSymLen = h.MaxSymLen
		}
		h.run = r
	}
	r := h.run
	b := h.budget() - h.wall
	if b > share {
		b = share
	}
	r.deadline = time.Now().Add(b)
	if r.deadline.After(end) {
		r.deadline = end
	}
	r.explore(sols)
}

var _ = ssa.NaiveForm

func report(p *Program, rp *replayer, hs []*harness, start time.Time, loadT, exploreT time.Duration) int {
	kn := loadKnown(*fVerif)
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		seed, _ = strconv.ParseInt(s, 10, 64)
	}
	rng := rand.New(rand.NewSource(seed))
	nSamples := 40
	if *fTier == "thorough" {
		nSamples = 200
	}
	violations := 0
	knownSeen := map[string]bool{}
	var unconfirmed []string
	var violLines []string
	nativeErr := ""
	for _, h := range hs {
		r := h.run
		var cases []replayCase
		var vs []*Violation
		groups := map[string][]int{}
		for i, v := range r.violations {
			vs = append(vs, v)
			cases = append(cases, replayCase{ID: i, Harness: h.Name, Tier: *fTier, Inputs: v.Inputs})
			k := v.Kind + "|" + v.Msg
			groups[k] = append(groups[k], i)
		}
		perm := rng.Perm(len(r.samples))
		if len(perm) > nSamples {
			perm = perm[:nSamples]
		}
		sampleIdx := map[int]*Sample{}
		for j, k := range perm {
			id := 100000 + j
			sampleIdx[id] = r.samples[k]
			cases = append(cases, replayCase{ID: id, Harness: h.Name, Tier: *fTier, Inputs: r.samples[k].Inputs})
		}
		if len(cases) == 0 || *fNoNative {
			for _, v := range vs {
				fmt.Printf("candidate %s: %s: %s (%s) %v\n", h.Name, v.Kind, v.Msg, v.Where, v.Inputs)
			}
			continue
		}
		res, err := rp.replay(h.Pkg, cases)
		if err != nil {
			nativeErr = err.Error()
			fmt.Printf("# replay impossible: %v\n", err)
			continue
		}
		for id, s := range sampleIdx {
			n := res[id]
			h.samples++
			if n == nil {
				continue
			}
			if n.Status == "ok" && len(n.Fails) == 0 && strings.Join(n.Obs, ";") == strings.Join(s.Obs, ";") {
				h.validated++
			} else {
				d := fmt.Sprintf("%s: inputs %v: native %s %s fails=%v obs=%v, engine obs=%v", h.Name, s.Inputs, n.Status, firstLine(n.Msg), n.Fails, n.Obs, s.Obs)
				h.diverged = append(h.diverged, d)
			}
		}
		var gk []string
		for k := range groups {
			gk = append(gk, k)
		}
		sort.Strings(gk)
		for _, k := range gk {
			done := false
			for _, i := range groups[k] {
				v := vs[i]
				n := res[i]
				if !reproduces(v, n) {
					continue
				}
				done = true
				isKnown := false
				for _, kf := range kn {
					if kf.prop == h.Prop && kf.harness == h.Name && strings.Contains(v.Msg+" "+v.Where, kf.match) {
						isKnown = true
						key := kf.harness + kf.match
						if !knownSeen[key] {
							knownSeen[key] = true
							fmt.Printf("KNOWN-FINDING: property=%s %s\n", kf.prop, kf.text)
						}
						break
					}
				}
				if isKnown {
					break
				}
				violations++
				path := writeReplay(h, v, n)
				violLines = append(violLines, fmt.Sprintf("VIOLATION property=%s replay=%s", h.Prop, path))
				fmt.Printf("%s: %s: %s\n", h.Name, v.Kind, v.Msg)
				if v.Where != "" {
					fmt.Printf("  at %s\n", v.Where)
				}
				fmt.Printf("  native replay: %s %s fails=%q\n", n.Status, n.Msg, n.Fails)
				break
			}
			if !done {
				v := vs[groups[k][0]]
				n := res[groups[k][0]]
				s := fmt.Sprintf("%s: %s: %s at %s inputs %v", h.Name, v.Kind, v.Msg, v.Where, v.Inputs)
				if n != nil {
					s += fmt.Sprintf(" (native: %s %s fails=%v missing=%v obs=%v)", n.Status, firstLine(n.Msg), n.Fails, n.Missing, n.Obs)
				}
				unconfirmed = append(unconfirmed, s)
				fmt.Printf("# unconfirmed candidate (not reported): %s\n", s)
			}
		}
	}
	for _, h := range hs {
		for _, d := range h.diverged {
			fmt.Printf("# model/native divergence: %s\n", d)
			if !*fVerbose {
				break
			}
		}
		r := h.run
		if r.incomplete != "" {
			fmt.Printf("# %s: %s\n", h.Name, r.incomplete)
		}
		if r.unsupported > 0 {
			fmt.Printf("# %s: %d paths not decided (unsupported): %v\n", h.Name, r.unsupported, r.unsupMsgs)
		}
		if r.internalErr != "" && !*fVerbose {
			fmt.Printf("# %s: engine error: %s\n", h.Name, firstLine(r.internalErr))
		}
		for _, w := range h.Reach {
			if r.reached[w] == 0 {
				fmt.Printf("# %s: witness %q not reached\n", h.Name, w)
			}
		}
	}
	if !*fNoEvid {
		writeEvidence(p, hs, seed, start, loadT, exploreT, violations, unconfirmed, nativeErr)
	}
	for _, l := range violLines {
		fmt.Println(l)
	}
	if violations > 0 {
		return 1
	}
	fmt.Printf("%s %s: no violation within the stated bounds (%d harnesses, %.1fs)\n", *fCheck, *fTier, len(hs), time.Since(start).Seconds())
	return 0
}

type replayFile struct {
	Property, Harness, Pkg, Tier string
	Kind, Message, Where         string
	Inputs                       map[string]uint64
	Native                       *nativeResult
	Howto                        string
}

func writeReplay(h *harness, v *Violation, n *nativeResult) string {
	dir := filepath.Join(*fVerif, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	b, _ := json.MarshalIndent(replayFile{h.Prop, h.Name, h.Pkg, *fTier, v.Kind, v.Msg, v.Where, v.Inputs, n,
		"run: /verif/run.sh -replay <this file>   (executes the harness natively on the real code with these inputs)"}, "", " ")
	sum := sha256.Sum256(b)
	f := filepath.Join(dir, fmt.Sprintf("%s-%x.json", h.Name, sum[:4]))
	os.WriteFile(f, b, 0644)
	return f
}

func doReplay(files map[string][]string, all map[string]*harness) int {
	b, err := os.ReadFile(*fReplay)
	if err != nil {
		die("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		die("%v", err)
	}
	files, all = restrict(files, all, rf.Property)
	o := makeOverlays(*fRepo, *fVerif, files, all)
	rp := &replayer{o: o, bins: map[string]string{}, errs: map[string]error{}, repo: *fRepo}
	res, err := rp.replay(rf.Pkg, []replayCase{{ID: 0, Harness: rf.Harness, Tier: rf.Tier, Inputs: rf.Inputs}})
	cleanupLater := func() { cleanup() }
	defer cleanupLater()
	if err != nil {
		die("%v", err)
	}
	n := res[0]
	fmt.Printf("%s: %s: %s\nnative: %s %s\nfails: %q\nobs: %q\n", rf.Harness, rf.Kind, rf.Message, n.Status, n.Msg, n.Fails, n.Obs)
	cleanup()
	if reproduces(&Violation{Kind: rf.Kind, Msg: rf.Message}, n) {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, *fReplay)
		return 1
	}
	return 0
}

func round(f float64) float64 { return float64(int(f*1000)) / 1000 }

func writeEvidence(p *Program, hs []*harness, seed int64, start time.Time, loadT, exploreT time.Duration, violations int, unconfirmed []string, nativeErr string) {
	var states, transitions, validated, sampled, queries, nsat, nunsat, nunk, asserts, infeas, unsup int
	var steps int64
	var solver time.Duration
	funcs := map[string]int{}
	intr := map[string]bool{}
	var samples []interface{}
	var hsOut []interface{}
	complete := true
	var assumptions []string
	for _, h := range hs {
		r := h.run
		states += r.okPaths
		transitions += r.forks
		validated += h.validated
		sampled += h.samples
		queries += r.queries
		nsat += r.nSat
		nunsat += r.nUnsat
		nunk += r.nUnk
		asserts += r.asserts
		infeas += r.infeasible
		unsup += r.unsupported
		steps += r.steps
		solver += r.solverTime
		for c, n := range r.cov {
			if c.fn != nil && c.fn.Pkg != nil {
				pos := p.fset.Position(c.fn.Pos())
				if p.hfiles[pos.Filename] {
					continue
				}
				funcs[shortFn(c.named)] += n
			}
		}
		for i, s := range r.samples {
			if i >= 3 {
				break
			}
			samples = append(samples, map[string]interface{}{"harness": h.Name, "inputs": trimInputs(s.Inputs), "observations": trimObs(s.Obs)})
		}
		full := r.incomplete == "" && r.unsupported == 0 && r.unknownPaths == 0 && len(r.picks) == 0
		if !full {
			complete = false
		}
		hsOut = append(hsOut, map[string]interface{}{
			"harness": h.Name, "bounds": h.Bounds, "outside_bounds": h.Outside, "parameters": r.params, "paths_completed": r.okPaths, "paths_infeasible": r.infeasible,
			"forks": r.forks, "max_decisions_on_a_path": r.maxDepth, "instructions_executed": r.steps, "queries": r.queries, "sat": r.nSat, "unsat": r.nUnsat,
			"unknown": r.nUnk, "solver_s": round(r.solverTime.Seconds()), "assertions_evaluated": r.asserts, "assertions_sent_to_solver": r.assertQueries, "wall_s": round(h.wall.Seconds()),
			"exhausted_within_bounds": full, "incomplete": r.incomplete, "unsupported_paths": r.unsupMsgs, "sizes_fixed_to_one_value": r.picks, "witnesses_reached": r.reached,
			"paths_replayed_natively": h.samples, "paths_replayed_agreeing": h.validated,
		})
		if len(h.diverged) > 0 {
			assumptions = append(assumptions, fmt.Sprintf("%d replayed paths of %s disagreed with the model", len(h.diverged), h.Name))
		}
	}
	_ = intr
	var fl []string
	for k := range funcs {
		if strings.Contains(k, "mint") {
			fl = append(fl, k)
		}
	}
	sort.Strings(fl)
	assumptions = append(assumptions,
		"Cryptographic primitives are ideal: hashes, HMAC, AEAD, signatures and key agreement are injective and unforgeable; AES-GCM/ECDSA/X25519 themselves are not analysed.",
		"x509 parsing/verification, reflection, fmt and the Go runtime are modelled (native calls on concrete values or hand-written models); the models are validated by replaying sampled paths natively.",
		"Bounds are those listed per harness; nothing is claimed outside them.")
	lev := "model_checking"
	ev := map[string]interface{}{
		"property": *fCheck, "tier": *fTier, "seed": seed, "level": lev, "wall_s": round(time.Since(start).Seconds()), "violations": violations,
		"assumptions": assumptions,
		"coverage": map[string]interface{}{
			"states": states, "transitions": transitions, "traces_validated_against_impl": validated, "samples": samples, "exhaustive": complete,
			"explanation":        "states = completed symbolic paths (each stands for all inputs satisfying its path condition); transitions = branch points where the solver found both outcomes feasible and the path forked.",
			"functions_encoded":  fl,
			"functions_count":    len(fl),
			"harnesses":          hsOut,
			"queries_discharged": queries, "queries_sat": nsat, "queries_unsat": nunsat, "queries_unknown": nunk, "solver_s": round(solver.Seconds()), "solver": *fSolver,
			"assertions_evaluated": asserts, "infeasible_paths": infeas, "undecided_paths": unsup, "instructions_executed": steps,
			"paths_replayed_natively": sampled, "load_s": round(loadT.Seconds()), "explore_s": round(exploreT.Seconds()),
			"unconfirmed_candidates": unconfirmed, "native_replay_error": nativeErr,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0755)
	os.WriteFile(filepath.Join(*fVerif, "evidence", *fCheck+".json"), append(b, '\n'), 0644)
}

func trimInputs(m map[string]uint64) map[string]uint64 {
	if len(m) <= 60 {
		return m
	}
	o := map[string]uint64{}
	for i, k := range sortedKeys(m) {
		if i >= 60 {
			break
		}
		o[k] = m[k]
	}
	return o
}

func trimObs(o []string) []string {
	var r []string
	for i, s := range o {
		if i >= 20 {
			break
		}
		if len(s) > 200 {
			s = s[:200] + "..."
		}
		r = append(r, s)
	}
	return r
}
