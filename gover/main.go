package main

// gover check -prop C01 : verify the contracts of a property against the
// current source of /repo.

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

var verifDir = "/verif"

// overlayFiles maps the contract files into the packages they talk about.
func overlayFiles() (map[string]string, error) {
	out := map[string]string{}
	for dir, pkg := range map[string]string{"vc": "v0/internal/vc", "raml": "v0/pkg/raml", "iraml": "v0/internal/raml", "rbuild": "v0/pkg/raml/rbuild", "rparse": "v0/pkg/raml/rparse"} {
		fs, _ := filepath.Glob(filepath.Join(verifDir, "contracts", dir, "*.go"))
		for _, f := range fs {
			b := filepath.Base(f)
			if dir != "vc" {
				b = "zz_verif_" + b
			}
			out[filepath.Join(repoDir, pkg, b)] = f
		}
	}
	return out, nil
}

func overlayBytes() (map[string][]byte, error) {
	fs, err := overlayFiles()
	if err != nil {
		return nil, err
	}
	out := map[string][]byte{}
	for k, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		out[k] = b
	}
	return out, nil
}

// overlayUsed: the contract files as loaded.
var overlayUsed map[string][]byte

// replayer builds the program that runs contracts concretely.
type replayer struct {
	dir, bin, dict string
	err            error
}

func buildReplayer(hs []*Harness) *replayer {
	r := &replayer{}
	dir, err := os.MkdirTemp("", "gover-replay")
	if err != nil {
		r.err = err
		return r
	}
	r.dir = dir
	fs, _ := overlayFiles()
	i := 0
	for dst, b := range overlayUsed {
		if o, err := os.ReadFile(fs[dst]); err != nil || !bytes.Equal(o, b) {
			i++
			fs[dst] = filepath.Join(dir, fmt.Sprintf("contracts%d.go", i))
			os.WriteFile(fs[dst], b, 0644)
		}
	}
	fs[filepath.Join(repoDir, "v0/internal/vcrun/main.go")] = filepath.Join(verifDir, "contracts/vcrun/main.go")
	var b strings.Builder
	pk := map[string]string{pkgRaml: "raml", pkgInt: "iraml", pkgBuild: "rbuild", pkgParse: "rparse"}
	used := map[string]bool{pkgRaml: true, pkgInt: true, pkgBuild: true, pkgParse: true}
	b.WriteString("package main\n\nimport (\n\t\"reflect\"\n\n\t\"" + pkgVC + "\"\n")
	for _, p := range []string{pkgInt, pkgRaml, pkgBuild, pkgParse} {
		if used[p] {
			fmt.Fprintf(&b, "\t%s %q\n", pk[p], p)
		}
	}
	b.WriteString(")\n\nfunc contracts() map[string]interface{} {\n\treturn map[string]interface{}{\n")
	for _, h := range hs {
		fmt.Fprintf(&b, "\t\t%q: %s.%s,\n", h.Name, pk[h.Pkg], h.Name)
	}
	b.WriteString("\t}\n}\n\nfunc gens() map[reflect.Type]func(*vc.Rand) interface{} {\n\tm := raml.VcGens()\n\tfor k, g := range iraml.VcGens() {\n\t\tm[k] = g\n\t}\n\treturn m\n}\n")
	reg := filepath.Join(dir, "registry.go")
	if r.err = os.WriteFile(reg, []byte(b.String()), 0644); r.err != nil {
		return r
	}
	fs[filepath.Join(repoDir, "v0/internal/vcrun/registry.go")] = reg
	j, _ := json.Marshal(map[string]interface{}{"Replace": fs})
	ov := filepath.Join(dir, "overlay.json")
	if r.err = os.WriteFile(ov, j, 0644); r.err != nil {
		return r
	}
	r.bin = filepath.Join(dir, "vcrun")
	r.dict = filepath.Join(dir, "dict.json")
	writeDict(r.dict)
	cmd := exec.Command("go", "build", "-overlay", ov, "-o", r.bin, "./v0/internal/vcrun")
	cmd.Dir = repoDir
	cmd.Env = append(os.Environ(), "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOTOOLCHAIN=local")
	o, err := cmd.CombinedOutput()
	if err != nil {
		r.err = fmt.Errorf("%v: %s", err, o)
	}
	return r
}

func (r *replayer) close() {
	if r != nil && r.dir != "" {
		os.RemoveAll(r.dir)
	}
}

type replayResult struct {
	Contract string   `json:"contract"`
	Seed     int64    `json:"seed"`
	Label    string   `json:"label"`
	Panic    string   `json:"panic,omitempty"`
	Inputs   []string `json:"inputs"`
	Tried    int      `json:"tried"`
	Skipped  int      `json:"skipped"`
	Failed   bool     `json:"failed"`
}

func (r *replayer) run(contract string, seed int64, n int, t time.Duration) (res replayResult, err error) {
	if r.err != nil {
		return res, r.err
	}
	prog := filepath.Join(r.dir, "progress-"+contract)
	cmd := exec.Command("timeout", "-k", "5", fmt.Sprint(int(t.Seconds())+40), r.bin, "-seed", fmt.Sprint(seed), "-n", fmt.Sprint(n), "-t", t.String(), "-dict", r.dict, "-progress", prog, contract)
	var why bytes.Buffer
	cmd.Stderr = &why
	o, err := cmd.Output()
	if len(o) == 0 {
		// a crash that cannot be recovered (stack exhaustion, concurrent map
		// access): the input that was running
		x, _, _ := strings.Cut(why.String(), "\n\n")
		if i := strings.Index(x, "fatal error:"); i >= 0 {
			if b, e := os.ReadFile(prog); e == nil && json.Unmarshal(b, &res) == nil {
				res.Label, res.Panic = "no panic", firstLine(x[i:])
				return res, nil
			}
		}
		return res, fmt.Errorf("replay of %s: %v", contract, err)
	}
	return res, json.Unmarshal([]byte(strings.SplitN(string(o), "\n", 2)[0]), &res)
}

// bounded runs a contract, and gives up on it when the verifier itself does
// not come back after the time limit.
func bounded(p *Program, h *Harness, limit time.Duration) *Report {
	done := make(chan *Report, 1)
	go func() { done <- runHarness(p, h, limit) }()
	select {
	case r := <-done:
		return r
	case <-time.After(max(limit, 0) + 30*time.Second):
		return &Report{H: h, Err: "time budget exceeded by one step of the execution"}
	}
}

func main() {
	prop := flag.String("prop", "", "property")
	only := flag.String("only", "", "contracts whose name contains this")
	verbose := flag.Bool("v", false, "list obligations")
	noReplay := flag.Bool("noreplay", false, "")
	fuzz := flag.Int("fuzz", 0, "only replay every contract with n drawn inputs")
	par := flag.Int("j", runtime.NumCPU(), "")
	limit := flag.Duration("limit", 400*time.Second, "time limit per contract")
	deep := flag.Bool("deep", false, "also the contracts named _deep, and run every contract on drawn inputs")
	flag.StringVar(&verifDir, "verif", verifDir, "")
	flag.StringVar(&repoDir, "repo", repoDir, "the tree to verify (the registered checks use /repo)")
	replay := flag.String("replay", "", "run this contract on one drawn input")
	kase := flag.Int64("case", 0, "the case to replay")
	lits := flag.String("literals", "", "write the literals of the source to this file (gover/literals.json is that of the verified tree)")
	flag.Parse()
	if *lits != "" {
		writeDict(*lits)
		return
	}
	debug.SetGCPercent(300)
	if *deep && *limit < 20*time.Minute {
		*limit = 20 * time.Minute
	}
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed := int64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)

	ob, err := overlayBytes()
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	p, lost, err := loadFitting(ob)
	c := &checkRun{prop: *prop, tier: tier, seed: seed, t0: t0, verbose: *verbose}
	if err != nil {
		c.loadFailed(err)
		os.Exit(1)
	}
	loadT := time.Since(t0)
	overlayUsed = ob
	all := harnesses(p, "")
	var hs []*Harness
	for _, h := range all {
		if (*prop == "" || h.Prop == *prop) && strings.Contains(h.Name, *only) && (*deep || !strings.HasSuffix(h.Name, "_deep")) {
			hs = append(hs, h)
		}
	}
	if *replay != "" {
		r := buildReplayer(all)
		defer r.close()
		if r.err != nil {
			fmt.Println(r.err)
			os.Exit(1)
		}
		cmd := exec.Command(r.bin, "-dict", r.dict, "-case", fmt.Sprint(*kase), *replay)
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		if cmd.Run() != nil {
			os.Exit(1)
		}
		return
	}
	if *verbose {
		fmt.Printf("loaded in %v, %d contracts\n", loadT, len(hs))
	}
	if *fuzz > 0 {
		r := buildReplayer(all)
		defer r.close()
		if r.err != nil {
			fmt.Println(r.err)
			return
		}
		var wg sync.WaitGroup
		sem := make(chan bool, *par)
		var mu sync.Mutex
		for _, h := range hs {
			wg.Add(1)
			sem <- true
			go func(h *Harness) {
				defer func() { <-sem; wg.Done() }()
				res, err := r.run(h.Name, seed, *fuzz, 20*time.Second)
				mu.Lock()
				defer mu.Unlock()
				if err != nil || res.Failed || res.Skipped == res.Tried || *verbose {
					fmt.Printf("%s: %+v %v\n", h.Name, res, err)
				}
			}(h)
		}
		wg.Wait()
		return
	}
	// what is not discharged by then counts as failed, and is replayed
	end := t0.Add(540 * time.Second)
	if *deep {
		end = t0.Add(24 * time.Hour)
	}
	runAll := func(hs []*Harness) []*Report {
		reps := make([]*Report, len(hs))
		var wg sync.WaitGroup
		sem := make(chan bool, *par)
		for i, h := range hs {
			wg.Add(1)
			sem <- true
			go func(i int, h *Harness) {
				defer func() { <-sem; wg.Done() }()
				reps[i] = bounded(p, h, min(*limit, time.Until(end)))
				if *verbose {
					fmt.Printf("%-60s %4d obligations %6.2fs (solver %.2fs, %d queries) %s\n", h.Name, len(reps[i].Obls), reps[i].Wall.Seconds(), reps[i].Solver.Seconds(), reps[i].Queries, firstLine(reps[i].Err))
				}
			}(i, h)
		}
		wg.Wait()
		return reps
	}
	reps := runAll(hs)
	if *prop != "" && *only == "" {
		// the contracts of other properties that these rely on
		done := map[string]bool{}
		for _, h := range hs {
			done[h.Name] = true
		}
		for news := reps; ; {
			hs = supporting(all, news, done, *prop)
			if len(hs) == 0 {
				break
			}
			news = runAll(hs)
			for _, r := range news {
				r.Support = true
			}
			reps = append(reps, news...)
		}
	}
	for _, n := range sortedKeys(lost) {
		if n[2:5] == *prop && strings.Contains(n, *only) {
			reps = append(reps, &Report{H: &Harness{Prop: *prop, Name: n}, Err: "the contract does not fit the source: " + lost[n]})
		}
	}
	for r, why := range cycles(reps) {
		r.Obls = append(r.Obls, &Oblig{Label: "calls on the same node do not form a cycle", Status: "failed", Detail: why, By: "structural descent"})
	}
	c.reps, c.all, c.noReplay = reps, all, *noReplay
	if *deep && !*noReplay {
		c.runConcrete(*par)
	}
	os.Exit(c.finish())
}

func firstLine(s string) string { return strings.SplitN(s, "\n", 2)[0] }

type checkRun struct {
	prop, tier string
	seed       int64
	t0         time.Time
	verbose    bool
	noReplay   bool
	reps       []*Report
	all        []*Harness
	ran        int                      // drawn inputs on which contracts were run
	ranBad     map[string]*replayResult // inputs on which a contract fails although it is discharged
}

// runConcrete runs every contract on drawn inputs against the compiled code:
// a guard against a mistake in the verifier itself.
func (c *checkRun) runConcrete(par int) {
	r := buildReplayer(c.all)
	defer r.close()
	c.ranBad = map[string]*replayResult{}
	if r.err != nil {
		fmt.Println("replay:", r.err)
		return
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	sem := make(chan bool, par)
	for _, rep := range c.reps {
		wg.Add(1)
		sem <- true
		go func(n string) {
			defer func() { <-sem; wg.Done() }()
			res, err := r.run(n, c.seed, 4000, 10*time.Second)
			mu.Lock()
			defer mu.Unlock()
			if err == nil {
				c.ran += res.Tried - res.Skipped
				if res.Failed {
					c.ranBad[n] = &res
				}
			}
		}(rep.H.Name)
	}
	wg.Wait()
}

func (c *checkRun) replayPath(name string) string {
	d := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(d, 0755)
	return filepath.Join(d, c.prop+"-"+name+".txt")
}

func (c *checkRun) loadFailed(err error) {
	path := c.replayPath("load")
	os.WriteFile(path, []byte("the contracts of "+c.prop+" cannot be read together with the source of /repo (obligation: every function under contract exists with its contracted signature)\n"+err.Error()+"\n"), 0644)
	fmt.Println(err)
	fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", c.prop, path)
	c.evidence(0, 0, nil, 1)
}

type finding struct {
	h     *Report
	obls  []*Oblig
	text  string
	input *replayResult
}

func (c *checkRun) finish() int {
	var bad []*finding
	total, ok := 0, 0
	for _, r := range c.reps {
		f := &finding{h: r}
		for _, o := range r.Obls {
			total++
			if o.Status == "discharged" {
				ok++
			} else {
				f.obls = append(f.obls, o)
			}
		}
		if r.Err != "" {
			total++
			f.text = "not verified: " + r.Err
		} else if r.NoEnd && len(f.obls) == 0 {
			total++
			f.text = "vacuous: no input reaches the end of the contract"
		} else if len(r.Obls) == 0 {
			total++
			f.text = "vacuous: no obligation was generated"
		} else if x := c.ranBad[r.H.Name]; x != nil && len(f.obls) == 0 {
			total++
			f.text = "fails on a drawn input although every obligation is discharged"
			f.input = x
		}
		if f.text != "" || len(f.obls) > 0 {
			bad = append(bad, f)
		}
	}
	if len(c.reps) == 0 {
		fmt.Println("no contracts for", c.prop)
		return 1
	}
	if c.verbose || len(bad) > 0 {
		for _, f := range bad {
			fmt.Printf("FAILED %s %s\n", f.h.H.Name, f.text)
			for i, o := range f.obls {
				if i > 3 && !c.verbose {
					break
				}
				fmt.Printf("   obligation %q %s %s\n", o.Label, o.Pos, indent(o.Detail, c.verbose))
			}
		}
	}
	fmt.Printf("%s: %d contracts, %d obligations, %d discharged, %.1fs\n", c.prop, len(c.reps), total, ok, time.Since(c.t0).Seconds())
	if len(bad) > 0 {
		c.report(bad)
	}
	c.evidence(total, ok, bad, len(bad))
	if len(bad) > 0 {
		return 1
	}
	return 0
}

func indent(s string, full bool) string {
	if !full {
		s = firstLine(s)
	}
	return s
}

// report searches failing inputs of the failed contracts and prints the
// violation lines.
func (c *checkRun) report(bad []*finding) {
	var r *replayer
	if !c.noReplay {
		r = buildReplayer(c.all)
		defer r.close()
		if r.err != nil {
			fmt.Println("replay:", r.err)
		}
		if r.err == nil {
			budget := 50 * time.Second
			var wg sync.WaitGroup
			sem := make(chan bool, 8)
			t1 := time.Now()
			for _, f := range bad {
				wg.Add(1)
				sem <- true
				go func(f *finding) {
					defer func() { <-sem; wg.Done() }()
					if f.input != nil {
						return
					}
					if time.Since(t1) > 3*budget {
						return
					}
					each := 20 * time.Second
					if len(bad) > 40 {
						each = 12 * time.Second
					}
					res, err := r.run(f.h.H.Name, c.seed, 100000, each)
					if err == nil && res.Failed {
						f.input = &res
					}
				}(f)
			}
			wg.Wait()
		}
	}
	sort.SliceStable(bad, func(i, j int) bool { return bad[i].input != nil && bad[j].input == nil })
	for i, f := range bad {
		path := c.replayPath(f.h.H.Name)
		var b strings.Builder
		fmt.Fprintf(&b, "property %s, contract %s\n", c.prop, f.h.H.Name)
		if f.text != "" {
			fmt.Fprintln(&b, f.text)
		}
		if f.input != nil {
			fmt.Fprintf(&b, "failing input (found by running the contract on the compiled code, case %d):\n", f.input.Seed)
			for _, s := range f.input.Inputs {
				fmt.Fprintln(&b, "  ", s)
			}
			fmt.Fprintf(&b, "violated: %s %s\n", f.input.Label, f.input.Panic)
			fmt.Fprintf(&b, "replay: /verif/gover.sh replay %s %d\n", f.h.H.Name, f.input.Seed)
		}
		for _, o := range f.obls {
			fmt.Fprintf(&b, "\nfailed obligation: %s %s\n%s\n", o.Label, o.Pos, o.Detail)
		}
		os.WriteFile(path, []byte(b.String()), 0644)
		if i >= 8 {
			continue
		}
		if f.input != nil {
			fmt.Printf("   failing input: %s (%s %s)\n", strings.Join(f.input.Inputs, " ; "), f.input.Label, f.input.Panic)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", c.prop, path)
		}
	}
}

func (c *checkRun) evidence(total, ok int, bad []*finding, nbad int) {
	funcs, assume := map[string]bool{}, map[string]bool{}
	by := map[string]int{}
	loops := 0
	var solver time.Duration
	queries := 0
	var names, support []string
	for _, r := range c.reps {
		for f := range r.Funcs {
			if strings.Contains(f, "lib-go-raml") && !strings.Contains(f, "internal/vc") {
				funcs[strings.ReplaceAll(f, modPath, "v0")] = true
			}
		}
		for a := range r.Assume {
			assume[a] = true
		}
		for _, o := range r.Obls {
			by[o.By]++
		}
		loops += r.Loops
		solver += r.Solver
		queries += r.Queries
		if r.Support {
			support = append(support, r.H.Name)
		} else {
			names = append(names, fmt.Sprintf("%s: %d obligations", r.H.Name, len(r.Obls)))
		}
	}
	real := map[string]bool{}
	for f := range funcs {
		b := f[strings.LastIndex(f, ".")+1:]
		if !strings.HasPrefix(b, "Vc") && !strings.HasPrefix(b, "vc") {
			real[f] = true
		}
	}
	tb := append([]string{
		"gover: the deductive verifier in /verif/gover (symbolic execution of the SSA form of the current source, loop summaries checked for induction)",
		"golang.org/x/tools/go/ssa as the semantics of the source",
		"z3 4.8.12 (cvc5, z3-new on unknown)"}, trusted...)
	if len(names) > 40 {
		names = append(names[:40], fmt.Sprintf("... %d more contracts", len(names)-40))
	}
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "proof",
		"coverage": map[string]interface{}{
			"obligations": total, "discharged": ok,
			"checker_cmd":          "gover check -prop " + c.prop,
			"trusted_base":         tb,
			"contracts":            len(c.reps),
			"contract_list":        names,
			"supporting_contracts": support,
			"functions_verified":   len(real),
			"functions":            keysOf(real),
			"discharged_by":        by,
			"loops_by_invariant":   loops,
			"solver_queries":       queries,
			"solver_seconds":       float64(int(solver.Seconds()*100)) / 100,
		},
		"assumptions": keysOf(assume),
		"wall_s":      time.Since(c.t0).Seconds(),
		"violations":  nbad,
	}
	if c.ran > 0 {
		ev["coverage"].(map[string]interface{})["contracts_also_run_on_drawn_inputs"] = c.ran
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	os.WriteFile(filepath.Join(verifDir, "evidence", c.prop+".json"), append(b, '\n'), 0644)
}

var trusted []string

func keysOf(m map[string]bool) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
