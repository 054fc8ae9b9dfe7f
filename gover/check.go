package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode"
)

type nativeReport struct {
	Harness  string
	Runs     int
	Ran      int
	Distinct int
	Samples  []string
	Fail     string
	Iter     int
	Input    string
}

type checker struct {
	prop, tier string
	seed       int64
	verif      string
	repo       string
	ov         *Overlay
	P          *Prog
	pkgs       []string
	bins       map[string]string // package -> compiled native runner
	fns        map[string]map[string]bool
	native     map[string]*nativeReport // package.harness
	t0         time.Time
	problems   []string // reasons without a failing input
	failedH    map[string]bool
	results    []*Result
	boundedH   map[string]bool
	notes      []string
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	c := &checker{bins: map[string]string{}, native: map[string]*nativeReport{}, failedH: map[string]bool{}, t0: time.Now(), boundedH: map[string]bool{}, fns: map[string]map[string]bool{}}
	fs.StringVar(&c.repo, "repo", "/repo", "")
	fs.StringVar(&c.verif, "verif", "/verif", "")
	fs.StringVar(&c.tier, "tier", "", "quick or thorough")
	fs.Parse(args)
	c.prop = fs.Arg(0)
	if c.tier == "" {
		c.tier = os.Getenv("VERIF_TIER")
	}
	if c.tier != "thorough" {
		c.tier = "quick"
	}
	c.seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	tmpDir, _ = os.MkdirTemp("", "gover")
	defer os.RemoveAll(tmpDir)
	os.Remove(c.evidencePath())
	return c.run()
}

func (c *checker) evidencePath() string { return filepath.Join(c.verif, "evidence", c.prop+".json") }

func (c *checker) problem(f string, a ...interface{}) {
	c.problems = append(c.problems, fmt.Sprintf(f, a...))
}

// packages whose contracts speak about the property
func (c *checker) packagesOf() []string {
	set := map[string]bool{}
	re := regexp.MustCompile(`(?m)^//gv:props.*\b` + c.prop + `\b`)
	for f, b := range c.ov.text {
		if strings.HasSuffix(f, "_test.go") || !strings.Contains(filepath.Base(f), "zz_gv_") {
			continue
		}
		if re.Match(b) {
			rel, _ := filepath.Rel(c.repo, filepath.Dir(f))
			set[rel] = true
		}
	}
	return sortedSet(set)
}

func (c *checker) run() int {
	var err error
	c.ov, err = newOverlay(c.repo, filepath.Join(c.verif, "contracts"))
	if err != nil {
		fmt.Println("contracts:", err)
		return 1
	}
	c.pkgs = c.packagesOf()
	if len(c.pkgs) == 0 {
		fmt.Println("no contracts for", c.prop)
		return 1
	}
	c.P, err = Load(c.ov, c.pkgs)
	if err != nil {
		c.problem("the packages cannot be loaded: %v", err)
		return c.finish()
	}
	for _, d := range c.ov.dropped {
		c.notes = append(c.notes, fmt.Sprintf("dropped: %s.%s (%s %s): %s", d.pkg, d.name, d.kind, d.target, d.why))
		last := d.target[strings.LastIndexByte(d.target, '.')+1:]
		if d.kind != "inv" && last != "" && unicode.IsUpper([]rune(last)[0]) {
			c.problem("the contract %s of %s does not fit the code any more: %s", d.name, d.target, d.why)
		}
	}
	// contracts of the property
	want := map[string]bool{}
	for _, h := range c.P.harnesses {
		for _, p := range h.props {
			if p == c.prop {
				want[h.name] = true
			}
		}
	}
	c.runNative(want, 1)
	c.prove(want)
	if len(c.problems) > 0 && !c.anyNative() {
		// look harder for an input that fails
		c.runNative(c.all(), 6)
	}
	return c.finish()
}

func (c *checker) all() map[string]bool {
	m := map[string]bool{}
	for _, h := range c.P.harnesses {
		for _, p := range h.props {
			if p == c.prop {
				m[h.name] = true
			}
		}
	}
	for n := range c.failedH {
		m[n] = true
	}
	return m
}

func (c *checker) anyNative() bool {
	for _, r := range c.native {
		if r.Fail != "" {
			return true
		}
	}
	return false
}

// prove verifies the harnesses and every contract they rest on
func (c *checker) prove(want map[string]bool) {
	byName := map[string]*Harness{}
	for _, h := range c.P.harnesses {
		byName[h.name] = h
	}
	cfg := Config{quick: 5, slow: 60, deadline: c.t0.Add(600 * time.Second)}
	if c.tier == "thorough" {
		cfg = Config{quick: 10, slow: 300, deadline: c.t0.Add(3 * time.Hour)}
	}
	if os.Getenv("GV_DEADLINE") != "" {
		s, _ := strconv.Atoi(os.Getenv("GV_DEADLINE"))
		cfg.deadline = c.t0.Add(time.Duration(s) * time.Second)
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 6)
	started := map[string]bool{}
	var start func(n string)
	start = func(n string) { // with mu held
		h := byName[n]
		if started[n] || h == nil || h.kind == "spec" || h.kind == "trusted" {
			return
		}
		started[n] = true
		if h.kind == "bounded" {
			c.boundedH[n] = true
			return
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			r := Verify(c.P, h, cfg)
			<-sem
			mu.Lock()
			defer mu.Unlock()
			c.results = append(c.results, r)
			for u := range r.Used {
				start(u)
			}
		}()
	}
	mu.Lock()
	var ns []string
	for n := range want {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		start(n)
	}
	mu.Unlock()
	wg.Wait()
	sort.Slice(c.results, func(i, j int) bool { return c.results[i].Harness < c.results[j].Harness })
	for _, r := range c.results {
		if r.Err != "" {
			c.failedH[r.Harness] = true
			c.problem("contract %s of %s: no proof: %s", r.Harness, r.Target, r.Err)
		}
		if r.Vacuous {
			c.failedH[r.Harness] = true
			c.problem("contract %s of %s: nothing satisfies its preconditions and returns", r.Harness, r.Target)
		}
		for _, o := range r.failed() {
			c.failedH[r.Harness] = true
			c.problem("contract %s of %s: obligation %s \"%s\" at %s:%d [%s] is not discharged (%s %s)", r.Harness, r.Target, o.kind, o.name, o.pos.Filename, o.pos.Line, o.cas, o.status, o.out)
		}
	}
}

// ---- native runs ----

func (c *checker) build(pkg string) error {
	if _, ok := c.bins[pkg]; ok {
		return nil
	}
	dir := filepath.Join(tmpDir, "native", strings.ReplaceAll(pkg, "/", "_"))
	os.MkdirAll(dir, 0755)
	for try := 0; ; try++ {
		rep := map[string]string{}
		i := 0
		for dst, b := range c.ov.text {
			rel, _ := filepath.Rel(c.repo, filepath.Dir(dst))
			if strings.HasSuffix(dst, "_test.go") && rel != pkg {
				continue
			}
			i++
			f := filepath.Join(dir, fmt.Sprintf("f%d.go", i))
			os.WriteFile(f, b, 0644)
			rep[dst] = f
		}
		// the table of harnesses
		fns := map[string]bool{}
		for _, h := range c.P.harnesses {
			if h.pkg == pkg && h.kind != "spec" && h.opts["nonative"] == "" {
				fns[strings.TrimPrefix(h.name, h.pkg+".")] = true
			}
		}
		c.fns[pkg] = fns
		var b bytes.Buffer
		pn := ""
		for _, p := range c.P.prog.AllPackages() {
			if p.Pkg.Path() == modPath+"/"+pkg {
				pn = p.Pkg.Name()
			}
		}
		fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"testing\"\n\n\tgvnative \"%s/native\"\n)\n\nfunc TestZZGV(t *testing.T) {\n\tgvnative.Main(t, map[string]interface{}{\n", pn, gvPath)
		for _, n := range sortedSet(fns) {
			fmt.Fprintf(&b, "\t\t%q: %s,\n", n, n)
		}
		b.WriteString("\t})\n}\n")
		mf := filepath.Join(dir, "main.go")
		os.WriteFile(mf, b.Bytes(), 0644)
		rep[filepath.Join(c.repo, pkg, "zz_gv_main_test.go")] = mf
		// the package's own tests stay out (some do not compile)
		own, _ := filepath.Glob(filepath.Join(c.repo, pkg, "*_test.go"))
		for _, f := range own {
			if _, ok := rep[f]; !ok {
				rep[f] = ""
			}
		}
		ovf := filepath.Join(dir, "overlay.json")
		js, _ := json.Marshal(map[string]interface{}{"Replace": rep})
		os.WriteFile(ovf, js, 0644)
		bin := filepath.Join(dir, "run.test")
		cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", bin, "./"+pkg)
		cmd.Dir = c.repo
		cmd.Env = append(os.Environ(), "GOPROXY=off", "CGO_ENABLED=0", "GOWORK=off")
		out, err := cmd.CombinedOutput()
		if err == nil {
			c.bins[pkg] = bin
			return nil
		}
		// declarations that do not compile any more
		back := map[string]string{}
		for dst, f := range rep {
			back[filepath.Base(f)] = dst
		}
		dropped := false
		for _, l := range strings.Split(string(out), "\n") {
			m := regexp.MustCompile(`^(\S+\.go):(\d+):\d+: (.*)`).FindStringSubmatch(l)
			if m == nil {
				continue
			}
			n, _ := strconv.Atoi(m[2])
			f := m[1]
			if !filepath.IsAbs(f) {
				f = filepath.Join(c.repo, f)
			}
			if _, ok := c.ov.text[f]; !ok {
				f = back[filepath.Base(m[1])]
			}
			if c.ov.drop(f, n, m[3]) {
				dropped = true
				break
			}
		}
		if !dropped || try > 20 {
			return fmt.Errorf("%s", string(out))
		}
	}
}

func (c *checker) runNative(want map[string]bool, factor int) {
	byPkg := map[string][]string{}
	kinds := map[string]string{}
	sem := make(chan bool, 8)
	for _, h := range c.P.harnesses {
		kinds[h.name] = h.kind
		if want[h.name] && h.kind != "spec" && h.opts["nonative"] == "" {
			byPkg[h.pkg] = append(byPkg[h.pkg], strings.TrimPrefix(h.name, h.pkg+"."))
		}
	}
	iters, ms := 20000*factor, 2500*factor
	if c.tier == "thorough" {
		iters, ms = 1000000*factor, 60000*factor
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for pkg, ns := range byPkg {
		if err := c.build(pkg); err != nil {
			c.problem("the contracts of %s do not build natively: %v", pkg, err)
			continue
		}
		sort.Strings(ns)
		// some harnesses in parallel; those that stand in for proofs get more time
		k := 4
		parts := make([][]string, k)
		j := 0
		for _, n := range ns {
			if kinds[pkg+"."+n] == "bounded" {
				parts = append(parts, []string{n})
				continue
			}
			parts[j%k] = append(parts[j%k], n)
			j++
		}
		for i, part := range parts {
			if len(part) == 0 {
				continue
			}
			iters, ms := iters, ms
			if i >= k && factor == 1 {
				iters, ms = iters*8, ms*8
			}
			wg.Add(1)
			go func(pkg string, part []string, i int) {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				rs := c.exec(pkg, part, iters, ms, -1, fmt.Sprint(i))
				mu.Lock()
				for _, r := range rs {
					r.Harness = pkg + "." + r.Harness
					if o := c.native[r.Harness]; o == nil || r.Fail != "" || r.Runs > o.Runs {
						c.native[r.Harness] = r
					}
				}
				mu.Unlock()
			}(pkg, part, i)
		}
	}
	wg.Wait()
}

// exec runs harnesses; a crash of the process is attributed to the input that was running
func (c *checker) exec(pkg string, hs []string, iters, ms, iter int, tag string) []*nativeReport {
	var out []*nativeReport
	left := append([]string{}, hs...)
	for len(left) > 0 {
		rs, crash := c.exec1(pkg, left, iters, ms, iter, tag, "")
		out = append(out, rs...)
		done := map[string]bool{}
		for _, r := range rs {
			done[r.Harness] = true
		}
		var rest []string
		for _, n := range left {
			if !done[n] {
				rest = append(rest, n)
			}
		}
		if crash == "" || len(rest) == len(left) && len(rs) > 0 {
			break
		}
		if len(rs) > 0 && rs[len(rs)-1].Fail != "" && strings.Contains(rs[len(rs)-1].Fail, "does not return") {
			left = rest
			continue
		}
		if len(rest) == 0 {
			break
		}
		// which input was it: once more, writing down where we are
		tf := filepath.Join(tmpDir, "trace"+tag+strings.ReplaceAll(pkg, "/", "_"))
		_, crash2 := c.exec1(pkg, rest[:1], iters, 0, iter, tag, tf)
		r := &nativeReport{Harness: rest[0], Fail: "the process is killed: " + crash}
		if crash2 != "" {
			b, _ := os.ReadFile(tf)
			w := strings.Fields(string(b))
			if len(w) == 2 {
				r.Iter, _ = strconv.Atoi(w[1])
			}
			r.Fail = "the process is killed: " + crash2
			out = append(out, r)
		}
		left = rest[1:]
	}
	return out
}

func (c *checker) exec1(pkg string, hs []string, iters, ms, iter int, tag, trace string) (rs []*nativeReport, crash string) {
	of := filepath.Join(tmpDir, "out"+tag+strings.ReplaceAll(pkg, "/", "_"))
	os.Remove(of)
	dir := filepath.Join(tmpDir, "cwd"+tag)
	os.MkdirAll(dir, 0755)
	cmd := exec.Command("timeout", "600", c.bins[pkg], "-test.run", "^TestZZGV$", "-test.timeout", "0")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GV_OUT="+of, "GV_SEED="+fmt.Sprint(c.seed), fmt.Sprintf("GV_ITERS=%d", iters), fmt.Sprintf("GV_MS=%d", ms),
		"GV_HARNESS="+strings.Join(hs, ","), "GOMEMLIMIT=2GiB", "GV_DIR="+dir)
	if iter >= 0 {
		cmd.Env = append(cmd.Env, fmt.Sprintf("GV_ITER=%d", iter))
	}
	if trace != "" {
		cmd.Env = append(cmd.Env, "GV_TRACE="+trace)
	}
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	txt, _ := os.ReadFile(of)
	dec := json.NewDecoder(bytes.NewReader(txt))
	for {
		r := &nativeReport{}
		if dec.Decode(r) != nil {
			break
		}
		rs = append(rs, r)
	}
	if err != nil {
		s := b.String()
		if i := strings.Index(s, "fatal error"); i >= 0 {
			s = s[i:]
		}
		if len(s) > 400 {
			s = s[:400]
		}
		crash = err.Error() + " " + s
	}
	return
}

// ---- reporting ----

type finding struct{ prop, match, text string }

func (c *checker) findings() []finding {
	b, _ := os.ReadFile(filepath.Join(c.verif, "known_findings.txt"))
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C01 match=<text in the report> | <what fails>
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		var f finding
		head, text, _ := strings.Cut(strings.TrimPrefix(l, "known: "), " | ")
		f.text = text
		for _, w := range strings.Fields(head) {
			if v, ok := strings.CutPrefix(w, "property="); ok {
				f.prop = v
			}
			if v, ok := strings.CutPrefix(w, "match="); ok {
				f.match = v
			}
		}
		if f.match != "" {
			out = append(out, f)
		}
	}
	return out
}

func (c *checker) finish() int {
	type report struct {
		Property string          `json:"property"`
		Tier     string          `json:"tier"`
		Seed     int64           `json:"seed"`
		Package  string          `json:"package,omitempty"`
		Harness  string          `json:"harness,omitempty"`
		Iter     int             `json:"iteration"`
		Input    string          `json:"input,omitempty"`
		Fail     string          `json:"failure,omitempty"`
		Problems []string        `json:"undischarged,omitempty"`
		Notes    []string        `json:"notes,omitempty"`
		How      string          `json:"how_to_replay"`
		Others   []*nativeReport `json:"other_failing_inputs,omitempty"`
	}
	var bad []*nativeReport
	known := map[string]bool{}
	isKnown := func(s string) bool {
		for _, f := range c.findings() {
			if f.prop == c.prop && strings.Contains(s, f.match) {
				if !known[f.text] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, f.text)
				}
				known[f.text] = true
				return true
			}
		}
		return false
	}
	var hs []string
	for n := range c.native {
		hs = append(hs, n)
	}
	sort.Strings(hs)
	for _, n := range hs {
		if r := c.native[n]; r.Fail != "" && !isKnown(n+" "+r.Fail) {
			bad = append(bad, r)
		}
	}
	var probs []string
	for _, p := range c.problems {
		if !isKnown(p) {
			probs = append(probs, p)
		}
	}
	c.evidence(len(bad), probs)
	for _, r := range c.results {
		nt, bad := 0, len(r.failed())
		for _, o := range r.Obls {
			if !o.trivial {
				nt++
			}
		}
		fmt.Printf("  %-44s obligations=%d (solver %d) undischarged=%d cases=%d %.1fs %s\n", r.Harness, len(r.Obls), nt, bad, r.Cases, r.Secs, r.Err)
	}
	if len(bad) == 0 && len(probs) == 0 {
		fmt.Printf("%s holds: %d contracts verified in %.0fs\n", c.prop, len(c.results), time.Since(c.t0).Seconds())
		return 0
	}
	dir := filepath.Join(c.verif, "replay")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, c.prop+".json")
	rep := report{Property: c.prop, Tier: c.tier, Seed: c.seed, Problems: probs, Notes: c.notes, How: "/verif/check.sh replay " + path}
	tail := " no-failing-input-found"
	if len(bad) > 0 {
		b := bad[0]
		rep.Harness = b.Harness[strings.LastIndexByte(b.Harness, '.')+1:]
		rep.Package = strings.TrimSuffix(b.Harness, "."+rep.Harness)
		rep.Iter, rep.Input, rep.Fail = b.Iter, b.Input, b.Fail
		rep.Others = bad[1:]
		tail = ""
		fmt.Printf("contract %s fails on (%s): %s\n", b.Harness, cutS(b.Input, 1500), cutS(b.Fail, 1500))
	}
	for i, p := range probs {
		if i == 12 {
			fmt.Printf("... and %d more\n", len(probs)-12)
			break
		}
		fmt.Println(cutS(p, 600))
	}
	js, _ := json.MarshalIndent(rep, "", " ")
	os.WriteFile(path, js, 0644)
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", c.prop, path, tail)
	return 1
}

func cutS(s string, n int) string {
	if len(s) > n {
		return strings.ToValidUTF8(s[:n], "") + "..."
	}
	return strings.ToValidUTF8(s, "?")
}

func (c *checker) evidence(nbad int, probs []string) {
	total, valid, solver := 0, 0, 0.0
	back := map[string]int{}
	var fns []map[string]interface{}
	trusted, assumed, inlined, notes := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, r := range c.results {
		v, s := 0, 0.0
		for _, o := range r.Obls {
			total++
			if o.status == "valid" {
				valid++
				v++
				back[o.backend]++
			}
			s += o.secs
		}
		solver += s
		fns = append(fns, map[string]interface{}{"contract": r.Harness, "kind": r.Kind, "function": r.Target, "cases": r.Cases, "obligations": len(r.Obls), "discharged": v, "solver_s": round2(s)})
		for k := range r.Trusted {
			trusted[k] = true
		}
		for k := range r.Assumed {
			assumed[k] = true
		}
		for k := range r.Inlined {
			inlined[k] = true
		}
		for k := range r.Notes {
			notes[k] = true
		}
	}
	for _, n := range c.notes {
		notes[n] = true
	}
	evals, ran, distinct := 0, 0, 0
	var samples []interface{}
	runs := map[string]string{}
	var hs []string
	for n := range c.native {
		hs = append(hs, n)
	}
	sort.Strings(hs)
	for _, n := range hs {
		r := c.native[n]
		evals += r.Runs
		ran += r.Ran
		distinct += r.Distinct
		runs[n] = fmt.Sprintf("%d inputs, %d met the preconditions, %d distinct", r.Runs, r.Ran, r.Distinct)
		if len(samples) < 12 && len(r.Samples) > 0 {
			samples = append(samples, map[string]string{"contract": n, "input": cutS(r.Samples[0], 300)})
		}
	}
	tb := append(sortedSet(trusted), sortedSet(assumed)...)
	tb = append(tb, "gover (the verification condition generator in /verif/gover)", "golang.org/x/tools go/ssa as the semantics of the source", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2", "the contract files in /verif/contracts state the property")
	level := "proof"
	if len(c.results) == 0 {
		level = "exploration"
	}
	if len(samples) == 0 {
		samples = append(samples, "none: no native runs")
	}
	cov := map[string]interface{}{
		"obligations": total, "discharged": valid, "checker_cmd": "/verif/check.sh " + c.prop, "trusted_base": tb,
		"functions_under_contract": fns, "discharged_by": back, "solver_s": round2(solver),
		"inlined_functions": limit(sortedSet(inlined), 120), "notes": limit(sortedSet(notes), 60),
		"evaluations": evals, "distinct_nontrivial": distinct,
		"rule":    "native companion (bounded, not counted as proved): generated arguments per contract, the real compiled code run under the same contract; non-trivial: the preconditions hold and the printed arguments differ",
		"samples": samples, "native_runs": runs, "bounded_only": sortedSet(c.boundedH),
		"undischarged": limit(probs, 20), "failing_inputs": nbad,
	}
	ev := map[string]interface{}{"property": c.prop, "tier": c.tier, "seed": c.seed, "level": level, "coverage": cov, "wall_s": round2(time.Since(c.t0).Seconds())}
	os.MkdirAll(filepath.Dir(c.evidencePath()), 0755)
	js, _ := json.MarshalIndent(ev, "", " ")
	if len(js) > 60000 {
		delete(cov, "inlined_functions")
		cov["functions_under_contract"] = len(fns)
		js, _ = json.MarshalIndent(ev, "", " ")
	}
	os.WriteFile(c.evidencePath(), js, 0644)
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

func limit(s []string, n int) []string {
	if len(s) > n {
		s = append(s[:n:n], fmt.Sprintf("... and %d more", len(s)-n))
	}
	return s
}

func cmdReplay(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Println(err)
		return 1
	}
	var rep struct {
		Property, Package, Harness string
		Seed                       int64
		Iteration                  int
		Undischarged               []string
	}
	json.Unmarshal(b, &rep)
	tmpDir, _ = os.MkdirTemp("", "gover")
	defer os.RemoveAll(tmpDir)
	for _, u := range rep.Undischarged {
		fmt.Println(u)
	}
	if rep.Harness == "" {
		fmt.Println("no failing input is known; run the check to see the undischarged obligations again")
		return 1
	}
	c := &checker{prop: rep.Property, seed: rep.Seed, repo: "/repo", verif: "/verif", bins: map[string]string{}, fns: map[string]map[string]bool{}}
	c.ov, err = newOverlay(c.repo, filepath.Join(c.verif, "contracts"))
	if err == nil {
		c.P, err = Load(c.ov, []string{rep.Package})
	}
	if err == nil {
		err = c.build(rep.Package)
	}
	if err != nil {
		fmt.Println(err)
		return 1
	}
	code := 0
	for _, r := range c.exec(rep.Package, []string{rep.Harness}, rep.Iteration+1, 0, rep.Iteration, "r") {
		fmt.Printf("%s(%s): %s\n", r.Harness, r.Input, r.Fail)
		if r.Fail != "" {
			code = 1
		}
	}
	if code == 0 {
		fmt.Println("the input does not fail")
	}
	return code
}
