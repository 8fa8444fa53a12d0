package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"strconv"
	"strings"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|job ...")
		os.Exit(2)
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif, _ = filepath.Abs(filepath.Join(filepath.Dir(os.Args[0]), ".."))
		if _, err := os.Stat(filepath.Join(verif, "harness")); err != nil {
			verif = "/verif"
		}
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	work, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	r := &Runner{repo: repo, verif: verif, work: work, progs: map[string]*progEnt{}, bins: map[string]*binEnt{}}
	code := 0
	if f := os.Getenv("GOSYM_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	switch os.Args[1] {
	case "job":
		code = r.cmdJob(os.Args[2:])
	case "check":
		code = r.cmdCheck(os.Args[2:])
	case "replay":
		code = r.cmdReplay(os.Args[2:])
	case "props":
		for _, p := range propDefs {
			fmt.Println(p.ID)
		}
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		code = 2
	}
	os.RemoveAll(work)
	pprof.StopCPUProfile()
	os.Exit(code)
}

// cmdJob runs a single job for development: gosym job -pkg root -h vxhFoo ver=1 ...
func (r *Runner) cmdJob(args []string) int {
	fs := flag.NewFlagSet("job", flag.ExitOnError)
	pkg := fs.String("pkg", "root", "")
	h := fs.String("h", "", "")
	stubs := fs.String("stubs", "", "")
	race := fs.Bool("race", false, "")
	order := fs.Bool("order", false, "")
	conc := fs.Bool("conc", false, "run concretely (all inputs at their lower bound)")
	secs := fs.Int("secs", 300, "")
	raw := fs.Int("lim", 0, "")
	cov := fs.Bool("cov", false, "")
	fs.Parse(args)
	j := &Job{Pkg: *pkg, Harness: *h, P: map[string]int{}, S: map[string]string{}, Race: *race, Order: *order, Secs: *secs, Lim: *raw}
	if *stubs != "" {
		j.Stubs = strings.Split(*stubs, ",")
	}
	var cv map[string]uint64
	if *conc {
		cv = map[string]uint64{}
	}
	for _, a := range fs.Args() {
		k, v, _ := strings.Cut(a, "=")
		if n, err := strconv.Atoi(v); err == nil {
			if cv != nil {
				cv[k] = uint64(n)
			}
			j.P[k] = n
		} else {
			j.S[k] = v
		}
	}
	res := r.runJob(j, cv)
	fmt.Printf("job %s: wall %v instr %d nodes %d inputs %d bits %d paths %d folded %d solved %d cert %d/%d\n", j, res.Wall, res.Instr, res.Nodes, res.Inputs, res.Bits, res.Paths, res.Folded, res.Solved, res.Cert, res.Steps)
	fmt.Printf("  stats: queries %d hits %d unsat %d sat %d unknown %d solver %.2fs\n", stats.Queries, stats.CacheHits, stats.UnsatN, stats.SatN, stats.UnknownN, float64(stats.SolverNs)/1e9)
	for _, k := range sortedKeys(res.Asserts) {
		fmt.Println("  assert", k, res.Asserts[k])
	}
	for k, v := range res.Reach {
		fmt.Println("  reach", k, v)
	}
	for _, m := range res.Incon {
		fmt.Println("  INCONCLUSIVE", m)
	}
	for _, v := range res.Viols {
		fmt.Println("  VIOL", v.Kind, v.Label, v.Pos, v.Inputs, v.Order)
		r.confirm(v)
		fmt.Println("    ", v.Status, v.Replay)
	}
	for _, o := range res.Obs {
		fmt.Println("  obs", o)
	}
	if *cov {
		for _, k := range sortedKeys(res.Covered) {
			fmt.Println("  cov", k, res.Covered[k])
		}
	}
	return 0
}
