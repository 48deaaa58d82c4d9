package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type job struct {
	c   Case
	scn *Scn
	dur time.Duration
}

// Bounds on one run: a check that has found enough stops, and a case or a run
// that takes far longer than any on sound code is reported as undecided.
const (
	enoughViolations = 60
	runTime          = 6 * time.Minute
	caseTime         = 45 * time.Second
)

// runCases analyses the cases; counted says which reports settle the outcome.
func runCases(cs []Case, counted func(Viol) bool) []job {
	jobs := make([]job, len(cs))
	start := time.Now()
	var found atomic.Int64
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				t := time.Now()
				if found.Load() >= enoughViolations {
					jobs[i] = job{cs[i], &Scn{skipped: true, obl: map[string]int{}}, 0}
					continue
				}
				if t.Sub(start) > runTime {
					jobs[i] = job{cs[i], &Scn{skipped: true, obl: map[string]int{}}, 0}
					for _, q := range cs[i].Props {
						jobs[i].scn.viol = append(jobs[i].scn.viol, Viol{Prop: q, Case: cs[i].ID, What: "cannot be established: the run's time is up", Pos: "?"})
					}
					continue
				}
				jobs[i] = job{cs[i], cs[i].Run(), 0}
				for _, v := range jobs[i].scn.viol {
					if counted(v) {
						found.Add(1)
						if strings.Contains(v.What, "budget exhausted") {
							found.Add(enoughViolations / 6)
						}
					}
				}
				jobs[i].dur = time.Since(t)
				if jobs[i].scn != nil {
					if e := jobs[i].scn.e; e != nil {
						jobs[i].scn.funcs = map[string]bool{}
						for f := range e.tr.funcs {
							jobs[i].scn.funcs[f.String()] = true
						}
					}
					jobs[i].scn.e = nil
					jobs[i].scn.outs = nil
					jobs[i].scn.st = nil
				}
			}
		}()
	}
	for i := range cs {
		ch <- i
	}
	close(ch)
	wg.Wait()
	return jobs
}

func main() {
	repo := flag.String("repo", "/repo", "")
	vers := flag.String("vers", "v1,v2,v3", "")
	filter := flag.String("case", "", "")
	prop := flag.String("property", "", "")
	tier := flag.String("tier", "quick", "")
	verbose := flag.Bool("v", false, "")
	verif := flag.String("verif", "/verif", "")
	list := flag.String("list", "", "file naming the cases to run")
	dumpFuncs := flag.String("dumpfuncs", "", "file to write case/function pairs to")
	stop := flag.Bool("stop", false, "stop once enough violations are found")
	debug := flag.Bool("debug", false, "run contract cases directly, without evidence")
	flag.BoolVar(&debugLoop, "dloop", false, "")
	flag.BoolVar(&debugElem, "delem", false, "")
	flag.BoolVar(&panicThrough, "dpanic", false, "")
	flag.Parse()
	if !*debug {
		os.Exit(runCheck(*prop, *tier, *repo, *verif))
	}
	var cases []Case
	for _, v := range strings.Split(*vers, ",") {
		t := time.Now()
		p, err := loadProgram(*repo, *repo+"/"+v, v)
		if err != nil {
			fmt.Println("load:", err)
			os.Exit(3)
		}
		fmt.Println("loaded", v, time.Since(t))
		cases = append(cases, buildCases(p, v, *tier)...)
	}
	var sel []Case
	var want map[string]bool
	if *list != "" {
		b, err := os.ReadFile(*list)
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		want = map[string]bool{}
		for _, l := range strings.Split(string(b), "\n") {
			want[l] = true
		}
	}
	for _, c := range cases {
		if want != nil && !want[c.ID] {
			continue
		}
		if *filter != "" && !strings.Contains(c.ID, *filter) {
			continue
		}
		if *prop != "" {
			ok := false
			for _, q := range c.Props {
				ok = ok || q == *prop
			}
			if !ok {
				continue
			}
		}
		sel = append(sel, c)
	}
	fmt.Println(len(sel), "of", len(cases), "cases")
	t := time.Now()
	jobs := runCases(sel, func(v Viol) bool { return *stop && v.Key == "" })
	nv := 0
	tot := map[string]int{}
	for _, j := range jobs {
		for k, n := range j.scn.obl {
			tot[k] += n
		}
		nv += len(j.scn.viol)
		if *verbose {
			fmt.Println(j.c.ID, j.dur)
		}
		for _, v := range j.scn.viol {
			fmt.Printf("%s %s [%s %s] %s\n", v.Prop, v.Case, v.Pos, v.Fn, v.What)
		}
	}
	if *dumpFuncs != "" {
		var b strings.Builder
		for _, j := range jobs {
			for f := range j.scn.funcs {
				fmt.Fprintf(&b, "%s\t%s\n", j.c.ID, f)
			}
		}
		if err := os.WriteFile(*dumpFuncs, []byte(b.String()), 0o644); err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
	}
	odd := map[string]int{}
	for _, j := range jobs {
		has := map[string]bool{}
		for _, q := range j.c.Props {
			has[q] = true
			if j.scn.obl[q] == 0 {
				odd["no obligation of "+q+" in "+j.c.ID]++
			}
		}
		for q := range j.scn.obl {
			if !has[q] {
				odd["unlisted "+q+" in "+j.c.ID]++
			}
		}
	}
	for i, k := range sortedKeys(odd) {
		if i >= 0 {
			fmt.Println(k)
		}
	}
	fmt.Println("odd", len(odd))
	sort.Slice(jobs, func(i, k int) bool { return jobs[i].dur > jobs[k].dur })
	for i := 0; i < 5 && i < len(jobs); i++ {
		fmt.Println("slow:", jobs[i].c.ID, jobs[i].dur)
	}
	fmt.Println("violations", nv, "obligations", tot, time.Since(t))
}
