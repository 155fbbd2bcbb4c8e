package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"time"
)

func main() {
	initIntrinsics()
	initAtomics()
	debug.SetMaxStack(4 << 30)
	debug.SetGCPercent(200)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: symx check|explore ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "explore":
		exploreCmd(os.Args[2:])
	case "check":
		os.Exit(checkCmd(os.Args[2:]))
	case "replay":
		os.Exit(replayCmd(os.Args[2:]))
	}
}

func exploreCmd(args []string) {
	fs := flag.NewFlagSet("explore", flag.ExitOnError)
	dir := fs.String("dir", "/verif/harness", "")
	pkg := fs.String("pkg", "", "")
	filter := fs.String("run", "", "")
	tier := fs.String("tier", "quick", "")
	secs := fs.Int("t", 60, "")
	workers := fs.Int("j", 8, "")
	fs.Parse(args)
	t0 := time.Now()
	e, err := loadEngine(*dir, "verif/harness/"+*pkg, "github.com/benedoc-inc/pdfer", *tier)
	if err != nil {
		fmt.Println("ERR", err)
		os.Exit(2)
	}
	fmt.Println("loaded", time.Since(t0))
	for _, fn := range e.harnessFns(*filter) {
		t1 := time.Now()
		ex := e.explore(fn, *workers, time.Now().Add(time.Duration(*secs)*time.Second), 20000)
		fmt.Printf("%-34s paths=%d ended=%d aborted=%d timeout=%v asserts=%d (fold %d, unsat %d) br=%d dom=%d slv=%d q=%d(%d/%d/%d) qt=%v steps=%d wall=%v\n", fn.Name(), ex.Paths, ex.Ended, ex.Aborted, ex.TimedOut, ex.Asserts, ex.AssertFold, ex.AssertUnsat, ex.Branches, ex.BrDom, ex.BrSolver, ex.Queries, ex.QSat, ex.QUnsat, ex.QUnk, ex.QTime.Round(time.Millisecond), ex.Steps, time.Since(t1).Round(time.Millisecond))
		fmt.Println("   reach:", ex.Reach)
		if len(ex.Abort) > 0 {
			fmt.Println("   aborts:", ex.Abort)
		}
		var ks []string
		for k := range ex.cexKeys {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println("   CEX", k, "x", ex.cexKeys[k])
			shown := 0
			for _, c := range ex.CEXs {
				if c.Kind+"|"+c.Msg+"|"+c.Known == k && shown < 2 {
					fmt.Println("      ", fmtModel(c))
					shown++
				}
			}
		}
		_ = ks
	}
	ks := []string{}
	for k := range forkProf {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return forkProf[ks[i]] > forkProf[ks[j]] })
	for i, k := range ks {
		if i < 25 {
			fmt.Println("   FORKS", forkProf[k], k)
		}
	}
}

func fmtModel(c *CEX) string {
	var ks []string
	for k := range c.Model {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf("%s=%d ", k, c.Model[k])
	}
	ks = nil
	for k := range c.Choices {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		s += fmt.Sprintf("%s:%d ", k, c.Choices[k])
	}
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}


