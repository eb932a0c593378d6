package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode/utf8"
)

// PropCfg is what props.json says about one property besides its contracts.
type PropCfg struct {
	Packages []string // packages with a falsifier TestFalsify_<id>
	Bounded  []string // functions checked only on sampled inputs: always run the falsifier
	Flags    []string // for go test
	Note     string
	Theorems []string
}

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int                    `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions"`
	WallS       float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`
}

var globalAssumptions = []string{
	"the Go type int is a mathematical integer (lengths and counters never reach 2^63)",
	"distinct pointer parameters, and distinct references reached through fields, maps or slices, denote distinct objects unless a contract says otherwise",
	"partial correctness: termination is shown only where a contract has a decreases clause",
	"no stack overflow, no memory exhaustion",
	"the verifier itself (go/types, go/ssa, the executor in /verif/tool) and the SMT solvers z3 5.3, z3 4.8 and cvc5 1.1 are trusted",
}

type failure struct {
	Harness, What, Detail string
}

func checkCmd(args []string) int {
	f := flag.NewFlagSet("check", flag.ExitOnError)
	repo, cdir := flags(args, f)
	prop := f.String("prop", "", "")
	tier := f.String("tier", "quick", "")
	root := f.String("root", "/verif", "")
	f.Parse(args)
	t0 := time.Now()
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)

	cfgs := map[string]*PropCfg{}
	if b, err := os.ReadFile(filepath.Join(*root, "props.json")); err == nil {
		if err := json.Unmarshal(b, &cfgs); err != nil {
			fmt.Fprintln(os.Stderr, "props.json:", err)
			return 2
		}
	}
	cfg := cfgs[*prop]
	if cfg == nil {
		cfg = &PropCfg{}
	}
	w, err := LoadWorld(*repo, *cdir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var hs []*Harness
	var notes, trusted []string
	var fails []failure
	for _, h := range w.hs {
		if h.Kind != "contract" && h.Kind != "lemma" && h.Kind != "theorem" {
			continue
		}
		has := false
		for _, p := range h.Props {
			has = has || p == *prop
		}
		if !has {
			continue
		}
		if h.Missing != "" || h.fn == nil {
			if h.Kind == "contract" && !ast.IsExported(lastName(h.Target)) {
				notes = append(notes, fmt.Sprintf("contract %s of the internal function %s does not apply to this tree (%s): the function's body is verified inside its callers instead", h.Name, h.Target, h.Missing))
				continue
			}
			fails = append(fails, failure{h.Name, "contract does not apply", h.Missing})
			continue
		}
		hs = append(hs, h)
	}
	if len(hs) == 0 && len(fails) == 0 {
		fmt.Fprintf(os.Stderr, "no contracts for %s\n", *prop)
		return 2
	}
	deadline = t0.Add(600 * time.Second)
	if *tier == "thorough" {
		deadline = t0.Add(3600 * time.Second)
	}
	reps := make([]*Report, len(hs))
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	for i, h := range hs {
		i, h := i, h
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			reps[i] = w.generate(h)
			<-sem
			discharge(reps[i], *tier)
		}()
	}
	wg.Wait()
	pool.close()

	known := readKnown(filepath.Join(*root, "KNOWN_FINDINGS"), *prop)
	byBack := map[string]int{}
	kinds := map[string]int{}
	total, done := 0, 0
	solverMs := int64(0)
	var funcs, samples []string
	used, inl, assume, nats := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	per := []map[string]interface{}{}
	var knownHits []string
	for _, r := range reps {
		ok := 0
		for _, o := range r.Obls {
			total++
			kinds[o.Kind]++
			solverMs += o.Ms
			if o.Result == "unsat" {
				ok++
				done++
				b := o.Solver
				if b == "" {
					b = "simplifier"
				}
				byBack[b]++
				continue
			}
			if k := known[o.Label]; k != "" {
				knownHits = append(knownHits, k)
				continue
			}
			if o.Result == "not tried" {
				continue
			}
			fails = append(fails, failure{r.H.Name, o.Kind + ": " + o.Label, fmt.Sprintf("at %s\nresult of the last back end (%s): %s\npath: %s\nmodel:\n%s", o.Pos, o.Solver, o.Result, strings.Join(o.path, " "), trunc2(o.Model, 6000))})
		}
		if r.Err != "" {
			fails = append(fails, failure{r.H.Name, "not verifiable", r.Err})
		} else if ok < len(r.Obls) && late() {
			fails = append(fails, failure{r.H.Name, "out of time", "obligations are left undischarged"})
		} else if len(r.Obls) == 0 {
			fails = append(fails, failure{r.H.Name, "vacuous", "no obligation was generated"})
		}
		t := r.H.Target
		if t == "" {
			t = r.H.Kind
		}
		funcs = append(funcs, fmt.Sprintf("%s (%s): %d/%d", t, r.H.Name, ok, len(r.Obls)))
		if len(samples) < 6 && len(r.Obls) > 0 {
			o := r.Obls[len(r.Obls)-1]
			samples = append(samples, fmt.Sprintf("%s %s at %s: %s by %s in %d ms", o.Kind, o.Label, o.Pos, o.Result, o.Solver, o.Ms))
		}
		per = append(per, map[string]interface{}{"contract": r.H.Name, "function": t, "obligations": len(r.Obls), "discharged": ok, "generate_ms": r.Dur.Milliseconds(), "paths": r.Paths})
		for _, x := range r.Used {
			used[x] = true
		}
		for _, x := range r.Inlined {
			inl[x] = true
		}
		for _, x := range r.Assume {
			assume[x] = true
		}
		for _, x := range r.Natives {
			nats[x] = true
		}
	}
	// contracts relied upon but discharged elsewhere, and trusted ones
	mine := map[string]bool{}
	for _, h := range hs {
		mine[h.Name] = true
	}
	var elsewhere []string
	for _, h := range w.hs {
		if !used[h.Name] || mine[h.Name] {
			continue
		}
		switch h.Kind {
		case "contract", "lemma", "theorem":
			elsewhere = append(elsewhere, fmt.Sprintf("%s (%s), discharged by the check of %s", h.Name, h.Target, strings.Join(h.Props, " ")))
		default:
			trusted = append(trusted, fmt.Sprintf("%s contract %s of %s, not verified", h.Kind, h.Name, h.Target))
		}
	}
	for n := range nats {
		trusted = append(trusted, "built-in model of "+n)
	}
	sort.Strings(trusted)

	cover := map[string]bool{}
	for _, r := range reps {
		if r.H.target != nil {
			cover[shortName(r.H.target)] = true
		}
		for _, x := range r.Inlined {
			cover[x] = true
		}
	}
	for _, b := range w.uncovered(*prop, cover) {
		fails = append(fails, failure{"monitor", b, ""})
	}

	// bounded stand-ins and the search for a failing input
	runF := len(cfg.Packages) > 0
	falsified, fout, fcmd := "", "", ""
	fcases := 0
	if runF {
		iters := 1
		if len(fails) > 0 {
			iters = 4
		}
		if *tier == "thorough" {
			iters = 20
		}
		falsified, fout, fcmd, fcases = falsify(*root, *repo, *prop, cfg, seed, iters)
		falsified, fout = printable(falsified), printable(fout)
	}
	for _, k := range knownHits {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k)
	}

	ev := &evidence{Property: *prop, Tier: *tier, Seed: seed, Level: "proof", WallS: time.Since(t0).Seconds()}
	cov := map[string]interface{}{
		"obligations": total, "discharged": done,
		"checker_cmd":              fmt.Sprintf("/verif/check.sh %s %s", *prop, *tier),
		"trusted_base":             append([]string{"/verif/tool (verification-condition generator)", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2"}, trusted...),
		"functions_under_contract": funcs, "by_back_end": byBack, "by_kind": kinds, "solver_ms": solverMs,
		"contracts": per, "bodies_verified_inline": keys(inl), "contracts_discharged_elsewhere": elsewhere,
		"samples": samples, "notes": append(notes, w.Dropped...), "known_findings": knownHits,
	}
	if len(cfg.Bounded) > 0 {
		cov["bounded_not_proved"] = cfg.Bounded
	}
	if runF {
		cov["bounded_cases"] = fcases
	}
	ev.Coverage = cov
	ev.Assumptions = append(append([]string{}, globalAssumptions...), keys(assume)...)
	if cfg.Note != "" {
		ev.Assumptions = append(ev.Assumptions, cfg.Note)
	}
	rc := 0
	if len(fails) > 0 || falsified != "" {
		rc = 1
		ev.Violations = len(fails)
		if falsified != "" && len(fails) == 0 {
			ev.Violations = 1
		}
	}
	os.MkdirAll(filepath.Join(*root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*root, "evidence", *prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d contracts, %d/%d obligations discharged, %.1fs\n", *prop, len(hs), done, total, time.Since(t0).Seconds())
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	if rc == 0 {
		return 0
	}
	os.MkdirAll(filepath.Join(*root, "replay"), 0o755)
	rp := filepath.Join(*root, "replay", *prop+".txt")
	var rb bytes.Buffer
	fmt.Fprintf(&rb, "property %s\n\n", *prop)
	if falsified != "" {
		fmt.Fprintf(&rb, "failing input on the real code:\n%s\n\nrerun with:\n%s\n\n", falsified, fcmd)
	} else if fout != "" {
		fmt.Fprintf(&rb, "the search for a failing input found none:\n%s\n\n", trunc2(fout, 3000))
	}
	for i, x := range fails {
		if i < 8 {
			fmt.Printf("failed obligation: %s: %s\n", x.Harness, trunc2(x.What, 300))
			if d, _, _ := strings.Cut(x.Detail, "\n"); d != "" {
				fmt.Println("   ", trunc2(d, 300))
			}
		}
		fmt.Fprintf(&rb, "failed obligation %d: %s: %s\n%s\n\n", i+1, x.Harness, x.What, x.Detail)
	}
	os.WriteFile(rp, rb.Bytes(), 0o644)
	if falsified != "" {
		fmt.Println("failing input:", trunc2(falsified, 600))
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rp)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", *prop, rp)
	}
	return 1
}

// printable keeps what the searches print from making the report binary.
func printable(s string) string {
	return strings.Map(func(r rune) rune {
		if r == utf8.RuneError || r < ' ' && r != '\n' && r != '\t' || r == 0x7F {
			return '?'
		}
		return r
	}, s)
}

func trunc2(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func lastName(s string) string {
	if i := strings.LastIndex(s, "."); i >= 0 {
		return s[i+1:]
	}
	return s
}

// readKnown: lines "finding: property=C01 obligation=[label] text"
func readKnown(path, prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		i, j := strings.Index(l, "obligation=["), strings.Index(l, "]")
		if i < 0 || j < i {
			continue
		}
		m[l[i+len("obligation=["):j]] = strings.TrimSpace(l[j+1:])
	}
	return m
}

// falsify runs the property's test on the real code, laid over the repository.
func falsify(root, repo, prop string, cfg *PropCfg, seed, iters int) (found, out, cmdline string, cases int) {
	ov := map[string]map[string]string{"Replace": {}}
	for _, p := range cfg.Packages {
		dir := filepath.Join(repo, p)
		fs, _ := filepath.Glob(filepath.Join(dir, "*_test.go"))
		for _, f := range fs {
			ov["Replace"][f] = ""
		}
		fs, _ = filepath.Glob(filepath.Join(root, "falsify", p, "*_test.go"))
		for _, f := range fs {
			ov["Replace"][filepath.Join(dir, filepath.Base(f))] = f
		}
	}
	tmp, err := os.MkdirTemp("", "vtf")
	if err != nil {
		return "", err.Error(), "", 0
	}
	defer os.RemoveAll(tmp)
	b, _ := json.Marshal(ov)
	of := filepath.Join(root, "replay", "overlay-"+prop+".json")
	os.MkdirAll(filepath.Dir(of), 0o755)
	os.WriteFile(of, b, 0o644)
	args := []string{"test", "-overlay", of, "-vet=off", "-count=1", "-timeout", "240s", "-v", "-run", "^TestFalsify_" + prop + "$"}
	args = append(args, cfg.Flags...)
	for _, p := range cfg.Packages {
		args = append(args, "./"+p)
	}
	cmdline = fmt.Sprintf("cd %s && VERIF_SEED=%d VERIF_ITERS=%d GOFLAGS=-mod=mod GOPROXY=off GOWORK=off go %s", repo, seed, iters, strings.Join(args, " "))
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = repo
	cmd.Env = append(goEnv(), fmt.Sprintf("VERIF_SEED=%d", seed), fmt.Sprintf("VERIF_ITERS=%d", iters), "TMPDIR="+tmp)
	o, _ := cmd.CombinedOutput()
	out = string(o)
	for _, l := range strings.Split(out, "\n") {
		if i := strings.Index(l, "FALSIFIED: "); i >= 0 && found == "" {
			found = l[i+len("FALSIFIED: "):]
		}
		if strings.Contains(l, "WARNING: DATA RACE") && found == "" {
			found = "data race: " + trunc2(out[strings.Index(out, l):], 1500)
		}
		if (strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ")) && found == "" && !strings.Contains(l, "timed out") {
			found = "the process died: " + trunc2(out[strings.Index(out, l):], 1500)
		}
		if i := strings.Index(l, "CASES: "); i >= 0 {
			n := 0
			fmt.Sscan(l[i+len("CASES: "):], &n)
			cases += n
		}
	}
	return
}

// falsifyCmd runs only the search for a failing input.
func falsifyCmd(args []string) int {
	f := flag.NewFlagSet("falsify", flag.ExitOnError)
	repo, _ := flags(args, f)
	prop := f.String("prop", "", "")
	root := f.String("root", "/verif", "")
	iters := f.Int("iters", 1, "")
	v := f.Bool("v", false, "")
	f.Parse(args)
	cfgs := map[string]*PropCfg{}
	b, _ := os.ReadFile(filepath.Join(*root, "props.json"))
	if err := json.Unmarshal(b, &cfgs); err != nil || cfgs[*prop] == nil {
		fmt.Println("no falsifier", err)
		return 2
	}
	t0 := time.Now()
	found, out, cmd, n := falsify(*root, *repo, *prop, cfgs[*prop], 1, *iters)
	if found == "" && n == 0 || *v {
		fmt.Println(out, cmd)
	}
	fmt.Printf("%s: %d cases, %.1fs, found: %s\n", *prop, n, time.Since(t0).Seconds(), found)
	if found != "" {
		return 1
	}
	return 0
}
