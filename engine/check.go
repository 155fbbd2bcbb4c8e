package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type replayResult struct {
	Index   int               `json:"index"`
	Outcome string            `json:"outcome"`
	Msg     string            `json:"msg"`
	Known   string            `json:"known"`
	Obs     map[string]string `json:"obs"`
	Stack   string            `json:"stack"`
}

type checker struct {
	root, prop, pkg, tier string
	seed                  int
	scratch               string
	bin                   string
	buildErr              string
}

// buildReplay compiles the harness package natively against the current source tree.
func (c *checker) buildReplay(names []string) error {
	var b strings.Builder
	fmt.Fprintf(&b, "package main\n\nimport (\n\t\"verif/harness/replay\"\n\th \"verif/harness/%s\"\n)\n\nfunc main() {\n\treplay.Main(map[string]func(){\n", c.pkg)
	for _, n := range names {
		fmt.Fprintf(&b, "\t\t%q: h.%s,\n", n, n)
	}
	b.WriteString("\t})\n}\n")
	src := filepath.Join(c.scratch, "main.go")
	if err := os.WriteFile(src, []byte(b.String()), 0o644); err != nil {
		return err
	}
	virt := filepath.Join(c.root, "harness", "zz_replay_"+c.pkg, "main.go")
	ov, _ := json.Marshal(map[string]any{"Replace": map[string]string{virt: src}})
	ovf := filepath.Join(c.scratch, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0o644); err != nil {
		return err
	}
	c.bin = filepath.Join(c.scratch, "replay")
	cmd := exec.Command("/opt/veriftools/go1.27.3/bin/go", "build", "-overlay", ovf, "-o", c.bin, "./zz_replay_"+c.pkg)
	cmd.Dir = filepath.Join(c.root, "harness")
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("replay build: %v: %s", err, clip(string(out), 600))
	}
	return nil
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// runReplay runs items natively; a result with Outcome "" was not produced (crash or time-out).
func (c *checker) runReplay(items []*CEX, reps int, tmo time.Duration) ([]replayResult, bool) {
	f := filepath.Join(c.scratch, fmt.Sprintf("items-%d.json", time.Now().UnixNano()))
	b, _ := json.Marshal(items)
	os.WriteFile(f, b, 0o644)
	defer os.Remove(f)
	ctx, cancel := context.WithTimeout(context.Background(), tmo)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/bin/bash", "-c", "ulimit -v 6000000; exec \"$0\" \"$1\" \"$2\"", c.bin, f, fmt.Sprint(reps))
	cmd.Dir = c.scratch
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=2GiB", "VERIF_TIER="+c.tier)
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	cmd.Run()
	res := make([]replayResult, len(items))
	sc := bufio.NewScanner(&ob)
	sc.Buffer(make([]byte, 1<<20), 64<<20)
	for sc.Scan() {
		var r replayResult
		if json.Unmarshal(sc.Bytes(), &r) == nil && r.Index < len(res) {
			res[r.Index] = r
		}
	}
	if ctx.Err() == nil {
		// a fatal runtime error (stack overflow, out of memory) ends the process
		for i := range res {
			if res[i].Outcome == "" {
				e := eb.String()
				if strings.Contains(e, "fatal error") || strings.Contains(e, "stack exceeds") || strings.Contains(e, "goroutine ") {
					res[i].Outcome, res[i].Msg, res[i].Stack = "panic", "fatal: "+clip(e, 200), clip(e, 1500)
				}
				break
			}
		}
	}
	return res, ctx.Err() != nil
}

// reachLabels lists the labels of fn itself, or with deep also those of the harness functions it calls.
func reachLabels(fn *ssa.Function, deep bool) []string {
	seen := map[string]bool{}
	done := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if done[f] {
			return
		}
		done[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if s := c.Common().StaticCallee(); s != nil {
						if s.String() == symPkg+"Reach" {
							if k, ok := c.Common().Args[0].(*ssa.Const); ok {
								seen[constant.StringVal(k.Value)] = true
							}
						} else if s.Pkg == fn.Pkg && deep {
							walk(s)
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && g.Pkg == fn.Pkg && (deep || g.Parent() != nil) {
						walk(g)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(fn)
	var r []string
	for k := range seen {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func loadKnown(root, prop string) map[string]string {
	b, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	m := map[string]string{}
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=C01 id=<id> <what fails>
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "finding:" || f[1] != "property="+prop || !strings.HasPrefix(f[2], "id=") {
			continue
		}
		m[strings.TrimPrefix(f[2], "id=")] = strings.Join(f[3:], " ")
	}
	return m
}

func checkCmd(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("property", "", "")
	root := fs.String("root", "/verif", "")
	only := fs.String("run", "", "")
	strict := fs.Bool("strict", false, "developer mode: exit 3 when anything is inconclusive")
	secs := fs.Int("t", 0, "")
	jobs := fs.Int("j", runtime.NumCPU(), "")
	fs.Parse(args)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	c := &checker{root: *root, prop: *prop, pkg: strings.ToLower(*prop), tier: tier, seed: seed}
	t0 := time.Now()
	budget := 420 * time.Second
	if tier == "thorough" {
		budget = 3000 * time.Second
	}
	if *secs > 0 {
		budget = time.Duration(*secs) * time.Second
	}
	dl := t0.Add(budget)
	var err error
	c.scratch, err = os.MkdirTemp("", "symx-")
	if err != nil {
		fmt.Println("cannot make a scratch directory:", err)
		return 2
	}
	defer os.RemoveAll(c.scratch)

	var notes []string
	note := func(f string, a ...any) {
		s := fmt.Sprintf(f, a...)
		notes = append(notes, s)
		fmt.Println("NOTE:", s)
	}
	cov := map[string]any{}
	ev := map[string]any{"property": *prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov}
	violations := 0
	writeEv := func() {
		if len(notes) > 0 {
			cov["notes"] = notes
		}
		ev["wall_s"] = time.Since(t0).Seconds()
		ev["violations"] = violations
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(c.root, "evidence"), 0o755)
		os.WriteFile(filepath.Join(c.root, "evidence", *prop+".json"), append(b, '\n'), 0o644)
	}
	cov["states"], cov["transitions"], cov["traces_validated_against_impl"] = 0, 0, 0
	cov["samples"] = []any{}

	e, err := loadEngine(filepath.Join(c.root, "harness"), "verif/harness/"+c.pkg, "github.com/benedoc-inc/pdfer", tier)
	if err != nil {
		note("INCONCLUSIVE: the harness does not load against the current tree, nothing was decided: %v", err)
		writeEv()
		if *strict {
			return 3
		}
		return 0
	}
	fns := e.harnessFns(*only)
	var names []string
	for _, f := range e.harnessFns("") {
		names = append(names, f.Name())
	}
	buildDone := make(chan error, 1)
	go func() { buildDone <- c.buildReplay(names) }()

	// explore: every harness on its own work list, sharing the processors
	tmo := 20000
	if tier == "thorough" {
		tmo = 60000
	}
	exs := make([]*Explorer, len(fns))
	walls := make([]time.Duration, len(fns))
	e.sem = make(chan struct{}, *jobs)
	slots := make(chan struct{}, 4)
	var wg sync.WaitGroup
	for i, fn := range fns {
		wg.Add(1)
		go func() {
			defer wg.Done()
			slots <- struct{}{}
			defer func() { <-slots }()
			t := time.Now()
			exs[i] = e.explore(fn, *jobs, dl, tmo)
			walls[i] = time.Since(t)
		}()
	}
	wg.Wait()
	if err := <-buildDone; err != nil {
		note("INCONCLUSIVE: %v", err)
		writeEv()
		if *strict {
			return 3
		}
		return 0
	}

	allLabels := map[string]bool{}
	known := loadKnown(c.root, *prop)
	reportedKnown := map[string]bool{}
	incon := false
	var hs []map[string]any
	funcs := map[string]bool{}
	stubs := map[string]int{}
	bounds := []string{}
	var samples []any
	var states, trans, valid, mism, queries, qunk int
	var qtime time.Duration
	var asserts, assertsFold, assertsSolver int
	for i, fn := range fns {
		ex := exs[i]
		h := map[string]any{"harness": fn.Name(), "paths": ex.Paths, "paths_completed": ex.Ended, "wall_s": walls[i].Seconds(), "assertions": ex.Asserts,
			"assertions_discharged_by_solver": ex.AssertUnsat, "assertions_discharged_by_rewriting": ex.AssertFold, "symbolic_branches": ex.Branches,
			"byte_domain_decisions": ex.BrDom, "byte_domain_decisions_confirmed_by_solver": ex.Audits, "solver_queries": ex.Queries, "solver_sat": ex.QSat, "solver_unsat": ex.QUnsat, "solver_unknown": ex.QUnk, "solver_s": ex.QTime.Seconds(), "confirmed_by_second_solver": ex.Confirmed, "second_solver_s": ex.ConfTime.Seconds(), "models_rejected": ex.BadModels, "reach": ex.Reach, "instruction_blocks": ex.Steps}
		var bs []string
		for b := range ex.Bounds {
			bs = append(bs, b)
			bounds = append(bounds, fn.Name()+": "+b)
		}
		sort.Strings(bs)
		h["bounds"] = bs
		states += ex.Paths
		trans += ex.Branches
		queries += ex.Queries
		qunk += ex.QUnk
		qtime += ex.QTime
		asserts += ex.Asserts
		assertsFold += ex.AssertFold
		assertsSolver += ex.AssertUnsat
		for f := range ex.Funcs {
			funcs[f] = true
		}
		for k, v := range ex.Stubs {
			stubs[k] += v
		}
		complete := !ex.TimedOut && ex.Aborted == 0
		if ex.TimedOut {
			note("%s: REDUCED BOUND, stopped at the time limit with paths left", fn.Name())
			incon = true
		}
		if ex.Aborted > 0 {
			h["aborted"] = ex.Abort
			note("%s: REDUCED BOUND, %d paths without verdict: %s", fn.Name(), ex.Aborted, clip(fmt.Sprint(ex.Abort), 400))
			incon = true
		}
		var missing []string
		for _, l := range reachLabels(fn, true) {
			if _, ok := allLabels[l]; !ok {
				allLabels[l] = false
			}
			if ex.Reach[l] > 0 {
				allLabels[l] = true
			}
		}
		if len(ex.Reach) == 0 && len(ex.CEXs) == 0 {
			missing = append(missing, "(any label)")
		}
		for _, l := range reachLabels(fn, false) {
			if ex.Reach[l] == 0 {
				missing = append(missing, l)
			}
		}
		if len(missing) > 0 && len(ex.CEXs) == 0 {
			h["not_reached"] = missing
			note("%s: labels not reached (vacuous there): %v", fn.Name(), missing)
			incon = true
		}
		h["exhausted_within_bounds"] = complete
		hs = append(hs, h)

		// validate the encoding: sampled completed paths re-run natively
		ws := ex.Witness
		if len(ws) > 0 {
			res, _ := c.runReplay(ws, 1, 60*time.Second)
			for k, r := range res {
				if ws[k].Extra != nil {
					// the path depends on an uninterpreted function: native values may differ
					if r.Outcome == "ok" && sameObs(ws[k].Obs, r.Obs) {
						valid++
					}
					continue
				}
				switch {
				case r.Outcome == "ok" && sameObs(ws[k].Obs, r.Obs):
					valid++
				default:
					mism++
					if mism <= 3 {
						note("%s: encoding disagrees with the real code on a sampled path: native %s %s; inputs %s; %s", fn.Name(), r.Outcome, clip(r.Msg, 200), clip(fmtModel(ws[k]), 400), clip(obsDiff(ws[k].Obs, r.Obs), 600))
					}
				}
			}
			if len(samples) < 12 {
				w := ws[len(ws)/2]
				samples = append(samples, map[string]any{"harness": fn.Name(), "inputs": clip(fmtModel(w), 400)})
			}
		}

		// counterexamples: only what the real code reproduces counts
		byKey := map[string][]*CEX{}
		var keys []string
		for _, x := range ex.CEXs {
			k := x.Kind + "|" + x.Msg + "|" + x.Known
			if byKey[k] == nil {
				keys = append(keys, k)
			}
			byKey[k] = append(byKey[k], x)
		}
		sort.Strings(keys)
		reported := 0
		for _, k := range keys {
			done := false
			for _, x := range byKey[k] {
				reps := 1
				if ex.MapOrd {
					reps = 400
				}
				res, to := c.runReplay([]*CEX{x}, reps, 20*time.Second)
				r := res[0]
				if to {
					r.Outcome, r.Msg = "hang", "no answer within 20 s"
				}
				if r.Outcome != "fail" && r.Outcome != "panic" && r.Outcome != "hang" {
					continue
				}
				done = true
				if r.Outcome == "fail" && r.Known != "" && known[r.Known] != "" {
					if !reportedKnown[r.Known] {
						reportedKnown[r.Known] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", *prop, r.Known, known[r.Known])
					}
					break
				}
				violations++
				reported++
				if reported > 5 {
					break
				}
				rp := filepath.Join(c.root, "evidence", "replay", fmt.Sprintf("%s-%s-%d.json", *prop, fn.Name(), reported))
				os.MkdirAll(filepath.Dir(rp), 0o755)
				b, _ := json.MarshalIndent(map[string]any{"property": *prop, "harness": fn.Name(), "engine_kind": x.Kind, "engine_msg": x.Msg, "native_outcome": r.Outcome, "native_msg": r.Msg, "native_stack": r.Stack,
					"model": x.Model, "choices": x.Choices, "how_to_rerun": "symx replay -property " + *prop + " " + rp}, "", " ")
				os.WriteFile(rp, b, 0o644)
				fmt.Printf("%s %s: %s (%s); inputs %s\n", fn.Name(), r.Outcome, clip(r.Msg, 300), x.Kind, clip(fmtModel(x), 500))
				fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rp)
				break
			}
			if !done {
				note("%s: counterexample not reproduced by the real code, not reported: %s; inputs %s", fn.Name(), clip(k, 300), clip(fmtModel(byKey[k][0]), 300))
				incon = true
			}
		}
	}
	for id, txt := range known {
		if !reportedKnown[id] && *only == "" {
			note("known finding %s did not show in this run: %s", id, txt)
			incon = true
		}
	}
	for l, ok := range allLabels {
		if !ok && *only == "" && violations == 0 {
			note("label %q of a shared harness function was not reached by any harness", l)
			incon = true
		}
	}
	if mism > 0 {
		note("%d sampled paths where encoding and real code disagree", mism)
		incon = true
	}
	cov["states"], cov["transitions"], cov["traces_validated_against_impl"] = states, trans, valid
	cov["samples"] = samples
	cov["harnesses"] = hs
	cov["assertions"] = asserts
	cov["assertions_discharged_by_rewriting"] = assertsFold
	cov["assertions_discharged_by_solver"] = assertsSolver
	cov["solver_queries"] = queries
	cov["solver_unknown"] = qunk
	cov["solver_s"] = qtime.Seconds()
	cov["encoding_mismatches"] = mism
	var fl []string
	nstd := 0
	for f := range funcs {
		if strings.Contains(f, "benedoc-inc/pdfer") {
			fl = append(fl, strings.ReplaceAll(f, "github.com/benedoc-inc/pdfer/", ""))
		} else if !strings.Contains(f, "verif/harness") {
			nstd++
		}
	}
	sort.Strings(fl)
	cov["functions_encoded"] = fl
	cov["standard_library_functions_encoded"] = nstd
	sort.Strings(bounds)
	cov["bounds"] = bounds
	cov["stubs"] = stubs
	cov["exhaustive_within_bounds"] = !incon
	cov["explanation"] = "states = symbolic execution paths explored, transitions = symbolic branch decisions, traces_validated_against_impl = sampled completed paths whose solver model, run natively against the real build, gave the outputs the encoding predicts"
	ev["assumptions"] = []string{
		"inputs outside the listed bounds are not covered",
		"library stand-ins listed under stubs (hashes, AES and RC4 on symbolic data as injective / invertible uninterpreted functions, deflate on symbolic data as stored blocks, fmt and log formatting models) behave as documented in DESIGN.md",
		"go/ssa, the engine's instruction semantics (validated by the replayed traces) and z3 are trusted",
	}
	writeEv()
	verdict := "holds on every path explored"
	if violations > 0 {
		verdict = fmt.Sprintf("%d violation(s)", violations)
	}
	fmt.Printf("%s %s: %s; %d harnesses, %d paths, %d branches, %d assertions (%d by solver), %d queries %.1fs solver, %d traces validated, %.1fs\n", *prop, tier, verdict, len(fns), states, trans, asserts, assertsSolver, queries, qtime.Seconds(), valid, time.Since(t0).Seconds())
	if violations > 0 {
		return 1
	}
	if *strict && incon {
		return 3
	}
	return 0
}

func sameObs(a, b map[string]string) bool {
	for k, v := range a {
		if v != "?" && b[k] != v {
			return false
		}
	}
	return true
}

func obsDiff(a, b map[string]string) string {
	s := ""
	for k, v := range a {
		if v != "?" && b[k] != v {
			s += fmt.Sprintf("%s: engine %s native %s; ", k, v, b[k])
		}
	}
	return s
}

func replayCmd(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	prop := fs.String("property", "", "")
	root := fs.String("root", "/verif", "")
	reps := fs.Int("n", 1, "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var x CEX
	json.Unmarshal(b, &x)
	c := &checker{root: *root, prop: *prop, pkg: strings.ToLower(*prop), tier: "quick"}
	c.scratch, _ = os.MkdirTemp("", "symx-")
	defer os.RemoveAll(c.scratch)
	if err := c.buildReplay([]string{x.Harness}); err != nil {
		fmt.Println(err)
		return 2
	}
	res, to := c.runReplay([]*CEX{&x}, *reps, 20*time.Second)
	fmt.Printf("timeout=%v outcome=%s msg=%s\n%s\n", to, res[0].Outcome, res[0].Msg, res[0].Stack)
	for k, v := range res[0].Obs {
		fmt.Println(k, v)
	}
	if to || res[0].Outcome == "fail" || res[0].Outcome == "panic" {
		return 1
	}
	return 0
}
