package main

// gosym check: runs the jobs of a property, confirms counterexamples on the real
// build, validates witnesses, applies the known-findings file, writes evidence.

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// confirm replays a counterexample on the native build.
func (r *Runner) confirm(v *Violation) {
	j := v.Job
	v.Status = "unconfirmed"
	base := natCase{Harness: j.Harness, P: j.P, S: j.S, In: v.Inputs, Iters: 1, Seconds: 20}
	try := func(c natCase, race bool, to time.Duration) bool {
		res, err := r.native(j.Pkg, race, []natCase{c}, to)
		if err != nil {
			v.Status = "unconfirmed: " + err.Error()
			return false
		}
		v.Replay = &res[0]
		switch res[0].Verdict {
		case "FAIL", "PANIC", "CRASH", "RACE", "HANG":
			v.Status = "confirmed"
			if v.Replay.Used == nil {
				v.Replay.Used = c.In
			}
			return true
		}
		return false
	}
	if v.Kind == "race" {
		c := base
		c.Iters, c.Seconds = 50, 20
		if try(c, true, 60*time.Second) {
			return
		}
	}
	if try(base, false, 60*time.Second) {
		return
	}
	if j.Order || len(v.Order) > 0 {
		for _, p := range []int{0, 2, 1} {
			c := base
			c.Iters, c.Seconds, c.Procs = 1000000, 15, p
			if try(c, false, 60*time.Second) {
				return
			}
		}
	}
	c := base
	c.Iters, c.Seconds = 3000, 5
	if try(c, false, 40*time.Second) {
		return
	}
	c.Free, c.Iters, c.Seconds = true, 30000, 15
	try(c, false, 60*time.Second)
}

type known struct {
	prop, harness, label string
	params               map[string]string
	what                 string
}

var knownRe = regexp.MustCompile(`(\w+)=("[^"]*"|\S+)`)

// loadKnown reads known-findings.txt: lines "known: property=ID harness=H label="..." [param=value ...] :: what fails".
func (r *Runner) loadKnown() []known {
	b, err := os.ReadFile(filepath.Join(r.verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, ln := range strings.Split(string(b), "\n") {
		ln = strings.TrimSpace(ln)
		if !strings.HasPrefix(ln, "known:") {
			continue
		}
		head, what, _ := strings.Cut(strings.TrimPrefix(ln, "known:"), "::")
		k := known{params: map[string]string{}, what: strings.TrimSpace(what)}
		for _, m := range knownRe.FindAllStringSubmatch(head, -1) {
			v := strings.Trim(m[2], `"`)
			switch m[1] {
			case "property":
				k.prop = v
			case "harness":
				k.harness = v
			case "label":
				k.label = v
			default:
				k.params[m[1]] = v
			}
		}
		out = append(out, k)
	}
	return out
}

func (k *known) matches(prop string, v *Violation) bool {
	if k.prop != prop || k.harness != v.Job.Harness || k.label != v.Label {
		return false
	}
	for n, x := range k.params {
		if strings.HasPrefix(n, "in_") {
			if y, ok := v.Replay.Used[n[3:]]; !ok || strconv.FormatUint(y, 10) != x {
				return false
			}
			continue
		}
		if s, ok := v.Job.S[n]; ok {
			if s != x {
				return false
			}
			continue
		}
		if y, ok := v.Job.P[n]; !ok || strconv.Itoa(y) != x {
			return false
		}
	}
	return true
}

func (r *Runner) cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	id := fs.String("prop", "", "")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "")
	verbose := fs.Bool("v", false, "")
	budget := fs.Int("budget", 0, "seconds")
	only := fs.String("only", "", "regexp of job names")
	par := fs.Int("p", runtime.NumCPU(), "")
	fs.Parse(args)
	if *tier != "thorough" {
		*tier = "quick"
	}
	pd := findProp(*id)
	if pd == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		return 2
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	if *budget == 0 {
		*budget = 600
		if *tier == "thorough" {
			*budget = 3300
		}
	}
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(20 << 30)
	t0 := time.Now()
	deadline := t0.Add(time.Duration(*budget) * time.Second)
	g := &gen{tier: *tier, seed: seed}
	pd.Jobs(g)
	jobs := g.jobs
	if *only != "" {
		re := regexp.MustCompile(*only)
		var js []*Job
		for _, j := range jobs {
			if re.MatchString(j.String()) {
				js = append(js, j)
			}
		}
		jobs = js
	}
	for _, j := range jobs {
		j.Prop = pd.ID
	}
	sort.SliceStable(jobs, func(a, b int) bool { return jobs[a].Cost > jobs[b].Cost })
	// build the native replay binaries alongside
	pkgs := map[string]bool{}
	for _, j := range jobs {
		pkgs[j.Pkg] = true
	}
	for p := range pkgs {
		go r.bin(p, false)
	}

	var mu sync.Mutex
	var results []*JobResult
	var confirmed, unconf, knownV []*Violation
	knownHits := map[string]bool{}
	kn := r.loadKnown()
	next, skipped := 0, 0
	inflight := map[*Job]bool{}
	stop := false
	free := *par
	cond := sync.NewCond(&mu)
	sem := make(chan struct{}, 2) // native confirmations at once
	var wg sync.WaitGroup
	handle := func(v *Violation) {
		sem <- struct{}{}
		r.confirm(v)
		<-sem
		mu.Lock()
		defer mu.Unlock()
		if v.Status != "confirmed" {
			unconf = append(unconf, v)
			return
		}
		for i := range kn {
			if kn[i].matches(pd.ID, v) {
				knownHits[kn[i].what] = true
				knownV = append(knownV, v)
				return
			}
		}
		confirmed = append(confirmed, v)
		stop = true
	}
	for w := 0; w < *par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next >= len(jobs) {
					mu.Unlock()
					return
				}
				if time.Now().After(deadline) {
					skipped++
					next++
					mu.Unlock()
					continue
				}
				j := jobs[next]
				next++
				wt := j.Weight
				if wt < 1 {
					wt = 1
				}
				if wt > *par {
					wt = *par
				}
				for free < wt {
					cond.Wait()
				}
				free -= wt
				if stop {
					free += wt
					cond.Broadcast()
					mu.Unlock()
					return
				}
				mu.Unlock()
				if left := int(time.Until(deadline).Seconds()) + 20; j.Secs == 0 || j.Secs > left {
					if j.Secs == 0 {
						j.Secs = 150
						if *tier == "thorough" {
							j.Secs = 900
						}
					}
					if j.Secs > left {
						j.Secs = left
					}
				}
				mu.Lock()
				inflight[j] = true
				mu.Unlock()
				res := r.runJob(j, nil)
				mu.Lock()
				delete(inflight, j)
				free += wt
				cond.Broadcast()
				results = append(results, res)
				if *verbose || os.Getenv("GOSYM_VERBOSE") != "" {
					fmt.Fprintf(os.Stderr, "%7.1fs %-60s wall %.2fs folded %d solved %d viol %d incon %v reach %d\n", time.Since(t0).Seconds(), j, res.Wall.Seconds(), res.Folded, res.Solved, len(res.Viols), res.Incon, len(res.Reach))
				}
				mu.Unlock()
				for _, v := range res.Viols {
					mu.Lock()
					st := stop
					mu.Unlock()
					if st {
						break
					}
					handle(v)
				}
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	tick := time.NewTicker(200 * time.Millisecond)
loop:
	for {
		select {
		case <-done:
			break loop
		case <-tick.C:
			mu.Lock()
			s := stop
			mu.Unlock()
			if s {
				break loop // in-flight jobs are abandoned
			}
			if time.Now().After(deadline.Add(40 * time.Second)) {
				mu.Lock()
				for j := range inflight {
					results = append(results, &JobResult{Job: j, Incon: []string{"abandoned: no result in time"}})
				}
				stop = true
				mu.Unlock()
				break loop
			}
		}
	}
	tick.Stop()
	mu.Lock()
	results = append([]*JobResult(nil), results...)
	found := len(confirmed) > 0
	mu.Unlock()

	// witness validation: a model that reaches the end of the harness must run
	// through the real build as well
	validated := 0
	if !found {
		byPkg := map[string][]*JobResult{}
		for _, res := range results {
			byPkg[res.Job.Pkg] = append(byPkg[res.Job.Pkg], res)
		}
		for pkg, rs := range byPkg {
			var cases []natCase
			var from []*JobResult
			for _, res := range rs {
				for _, l := range sortedKeys(res.Reach) {
					cases = append(cases, natCase{Harness: res.Job.Harness, P: res.Job.P, S: res.Job.S, In: res.Reach[l], Iters: 1})
					from = append(from, res)
				}
				if res.CertBad == 0 {
					for _, in := range res.InconIn {
						cases = append(cases, natCase{Harness: res.Job.Harness, P: res.Job.P, S: res.Job.S, In: in, Iters: 200, Seconds: 2})
						from = append(from, res)
					}
				}
			}
			if len(cases) == 0 {
				continue
			}
			nr, err := r.native(pkg, false, cases, 120*time.Second)
			if err != nil {
				fmt.Fprintln(os.Stderr, "native replay:", err)
				continue
			}
			for i, c := range nr {
				switch c.Verdict {
				case "OK":
					validated++
				case "FAIL", "PANIC", "CRASH", "HANG":
					c := c
					lab := c.Msg
					if c.Verdict == "PANIC" {
						lab = "panic: " + c.Msg
					}
					v := &Violation{Label: lab, Kind: "witness", Inputs: cases[i].In, Job: from[i].Job, Replay: &c, Status: "confirmed"}
					if c.Used == nil {
						c.Used = cases[i].In
					}
					kno := false
					for k := range kn {
						if kn[k].matches(pd.ID, v) {
							knownHits[kn[k].what] = true
							kno = true
						}
					}
					if !kno {
						confirmed = append(confirmed, v)
					}
				}
			}
		}
	}

	// report
	for _, w := range sortedKeys(knownHits) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", pd.ID, w)
	}
	code := 0
	repDir := filepath.Join(r.verif, "replays")
	for i, v := range confirmed {
		if i >= 3 {
			break
		}
		os.MkdirAll(repDir, 0755)
		path := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", pd.ID, i+1))
		in := v.Replay.Used
		b, _ := json.MarshalIndent(map[string]any{
			"property": pd.ID, "harness": v.Job.Harness, "pkg": v.Job.Pkg, "params": v.Job.P, "sparams": v.Job.S,
			"inputs": in, "schedule": v.Order, "label": v.Label, "kind": v.Kind, "at": v.Pos, "native": v.Replay,
			"rerun": "bin/gosym replay " + path,
		}, "", " ")
		os.WriteFile(path, b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", pd.ID, path)
		fmt.Printf("  %s: %s (job %s; native replay: %s %s)\n", v.Kind, v.Label, v.Job, v.Replay.Verdict, v.Replay.Msg)
		code = 1
	}
	sum := r.evidence(pd, *tier, seed, time.Since(t0), jobs, results, skipped, validated, confirmed, unconf, knownHits)
	if len(unconf) > 0 {
		for _, v := range unconf {
			fmt.Printf("note: unconfirmed counterexample (not reported): %s %s in %s [%s]\n", v.Kind, v.Label, v.Job, v.Status)
		}
	}
	fmt.Println(sum)
	if code == 0 && len(results) > 0 {
		dec := 0
		for _, res := range results {
			dec += res.Folded + res.Solved
		}
		if dec == 0 {
			for _, res := range results {
				for _, m := range res.Incon {
					fmt.Fprintln(os.Stderr, m)
				}
				break
			}
			fmt.Fprintln(os.Stderr, "nothing could be decided")
			return 2
		}
	}
	return code
}

func (r *Runner) cmdReplay(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var x struct {
		Harness, Pkg, Kind string
		Params             map[string]int
		Sparams            map[string]string
		Inputs             map[string]uint64
	}
	if err := json.Unmarshal(b, &x); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	it := 1
	if x.Kind == "race" || x.Kind == "schedule" {
		it = 200
	}
	res, err := r.native(x.Pkg, x.Kind == "race", []natCase{{Harness: x.Harness, P: x.Params, S: x.Sparams, In: x.Inputs, Iters: it, Seconds: 20}}, 60*time.Second)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	o, _ := json.MarshalIndent(res, "", " ")
	fmt.Println(string(o))
	if res[0].Verdict == "OK" || res[0].Verdict == "SKIP" {
		return 0
	}
	return 1
}

func (r *Runner) evidence(pd *PropDef, tier string, seed int, wall time.Duration, jobs []*Job, results []*JobResult, skipped, validated int, confirmed, unconf []*Violation, kh map[string]bool) string {
	obl, folded, solved, vac, complete := 0, 0, 0, 0, 0
	var instr, steps int64
	paths, cert, nodes, bits := 0, 0, 0, 0
	fns := map[string]int64{}
	lib := map[string]bool{}
	harn := map[string]int{}
	stubs := map[string]int{}
	labels := map[string]int{}
	var incon []string
	var samples []any
	sort.Slice(results, func(a, b int) bool { return results[a].Job.String() < results[b].Job.String() })
	solverMax := time.Duration(0)
	for _, res := range results {
		n := 0
		for l, k := range res.Asserts {
			n += k
			labels[l] += k
		}
		obl += n
		folded += res.Folded
		solved += res.Solved
		instr += res.Instr
		steps += res.Steps
		paths += res.Paths
		cert += res.Cert
		nodes += res.Nodes
		bits += res.Bits
		if res.Wall > solverMax {
			solverMax = res.Wall
		}
		harn[res.Job.Harness]++
		for _, s := range res.Job.Stubs {
			stubs[s]++
		}
		if res.Job.Order {
			stubs["arrival order of channel messages symbolic"]++
		}
		if len(res.Reach) == 0 && len(res.Viols) == 0 {
			vac++
		}
		if len(res.Incon) == 0 && len(res.Reach) > 0 {
			complete++
		}
		for _, m := range res.Incon {
			if len(incon) < 20 {
				if len(m) > 300 {
					m = m[:300]
				}
				incon = append(incon, res.Job.String()+": "+m)
			}
		}
		for f, k := range res.Covered {
			if i := strings.Index(f, "github.com/yeqown/go-qrcode"); i >= 0 {
				if !strings.Contains(f, ".vx") {
					fns[f] += k
				}
			} else if strings.Contains(f, "github.com/") {
				lib[f] = true
			}
		}
		if len(samples) < 6 && len(res.Reach) > 0 {
			var in any
			for _, l := range sortedKeys(res.Reach) {
				m := res.Reach[l]
				if len(m) > 40 {
					k2 := map[string]uint64{}
					for _, k := range sortedKeys(m)[:40] {
						k2[k] = m[k]
					}
					m = k2
				}
				in = m
				break
			}
			samples = append(samples, map[string]any{"job": res.Job.String(), "symbolic_bits": res.Bits, "obligations": n, "folded": res.Folded, "sent_to_solver": res.Solved, "instructions": res.Instr, "witness_replayed_on_the_real_build": in, "wall_s": res.Wall.Seconds()})
		}
	}
	var fl []string
	for _, f := range sortedKeys(fns) {
		fl = append(fl, strings.ReplaceAll(f, "github.com/yeqown/go-qrcode", "go-qrcode"))
	}
	if len(fl) > 220 {
		fl = append(fl[:220], fmt.Sprintf("... and %d more", len(fl)-220))
	}
	if len(samples) == 0 {
		samples = append(samples, "no job finished")
	}
	var us []string
	for _, v := range unconf {
		if len(us) < 10 {
			us = append(us, v.Label+" in "+v.Job.String())
		}
	}
	cov := map[string]any{
		"states":                              paths,
		"transitions":                         instr,
		"traces_validated_against_impl":       validated,
		"samples":                             samples,
		"obligations":                         obl,
		"discharged":                          folded + solved - len(confirmed) - len(unconf) - len(incon),
		"discharged_by_normalisation":         folded,
		"discharged_by_solver_query":          solved,
		"rewriting_steps_taken":               steps,
		"rewriting_steps_confirmed_by_solver": cert,
		"solver_queries":                      stats.Queries,
		"solver_unsat":                        stats.UnsatN,
		"solver_sat":                          stats.SatN,
		"solver_unknown":                      stats.UnknownN,
		"solver_cache_hits":                   stats.CacheHits,
		"solver_seconds":                      float64(stats.SolverNs) / 1e9,
		"formula_nodes":                       nodes,
		"symbolic_input_bits":                 bits,
		"jobs":                                len(jobs),
		"jobs_run":                            len(results),
		"jobs_fully_decided":                  complete,
		"jobs_without_reachability_witness":   vac,
		"jobs_not_started_in_time":            skipped,
		"harnesses":                           harn,
		"stubs":                               stubs,
		"assertions":                          labels,
		"functions_encoded":                   fl,
		"library_functions_encoded":           len(lib),
		"bounds":                              pd.Bounds,
		"outside_the_bounds":                  pd.Outside,
		"inconclusive":                        incon,
		"unconfirmed_counterexamples":         us,
		"known_findings_seen":                 sortedKeys(kh),
		"deciding_procedure":                  "symbolic execution of the Go SSA of /repo (re-read on this run); path conditions and assertions as bit-vector formulas, normalised over GF(2) and small truth tables, decided by z3 5.3 (second opinion cvc5); counterexamples and reachability witnesses replayed on the native build",
	}
	ev := map[string]any{
		"property": pd.ID, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": pd.Assume, "wall_s": wall.Seconds(), "violations": len(confirmed),
	}
	if pd.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	if len(b) > 60000 {
		cov["samples"] = samples[:1]
		cov["functions_encoded"] = len(fl)
		b, _ = json.MarshalIndent(ev, "", " ")
	}
	os.MkdirAll(filepath.Join(r.verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(r.verif, "evidence", pd.ID+".json"), b, 0644)
	return fmt.Sprintf("%s %s: %d/%d jobs decided, %d obligations (%d folded, %d by query), %d queries %.1fs, %d witnesses validated, %d inconclusive, %d skipped, %d vacuous, wall %.1fs",
		pd.ID, tier, complete, len(jobs), obl, folded, solved, stats.Queries, float64(stats.SolverNs)/1e9, validated, len(incon), skipped, vac, wall.Seconds())
}
