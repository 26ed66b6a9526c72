package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa/ssautil"
)

func main() {
	debug.SetMemoryLimit(22 << 30)
	if len(os.Args) > 1 && os.Args[1] == "dev" {
		dev(os.Args[2:])
		return
	}
	if len(os.Args) > 3 && os.Args[1] == "check" {
		os.Exit(check(os.Args[2], os.Args[3]))
	}
	if len(os.Args) > 2 && os.Args[1] == "replay" {
		os.Exit(replayCmd(os.Args[2]))
	}
	fmt.Println("usage: engine check ID quick|thorough | replay FILE | dev ...")
	os.Exit(2)
}

// dev: explore one harness and print details.
func dev(args []string) {
	fs := flag.NewFlagSet("dev", flag.ExitOnError)
	pkg := fs.String("pkg", "", "")
	h := fs.String("h", "", "")
	w := fs.Int("w", 1, "")
	secs := fs.Int("t", 60, "")
	paths := fs.Int("paths", 100000, "")
	tier := fs.String("tier", "quick", "")
	nat := fs.Bool("n", false, "compare with native runs")
	prof := fs.String("prof", "", "")
	fs.Parse(args)
	t0 := time.Now()
	P, sp, err := load(*pkg)
	if err != nil {
		fmt.Println("LOAD", err)
		os.Exit(2)
	}
	fmt.Println("# loaded", time.Since(t0))
	if d := os.Getenv("VSSA"); d != "" {
		for f := range ssautil.AllFunctions(P.prog) {
			if f.String() == d {
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	for _, name := range strings.Split(*h, ",") {
		t1 := time.Now()
		ex := newExplorer(P, sp, name, *tier, *w, time.Duration(*secs)*time.Second, int64(*paths))
		if ex == nil {
			fmt.Println("no harness", name)
			continue
		}
		err := ex.run()
		fmt.Printf("== %s err=%v paths=%d kinds=%v forks=%d queries=%d (sat %d unsat %d unk %d) solver=%v steps=%d wall=%v trunc=%q\n", name, err, ex.npaths.Load(), ex.endKinds, ex.forks,
			ex.queries, ex.sat, ex.unsat, ex.unk, ex.solverDur, ex.steps, time.Since(t1), ex.truncated)
		fmt.Printf("   asserts checked=%d trivial=%d discharged=%d unknown=%d %v fns=%d\n", ex.asserts.checked, ex.asserts.trivially, ex.asserts.discharged, ex.asserts.unknown, ex.asserts.byMsg, len(ex.fns))
		for k, v := range ex.endMsgs {
			fmt.Println("   end:", v, k)
		}
		for i, r := range ex.results {
			if i < 12 {
				fmt.Println("   path", r.Kind, r.Vals, r.Obs, r.Reached, r.Steps)
			}
		}
		for _, c := range ex.cexs {
			fmt.Println("   CEX", c.Kind, c.Msg, c.Vals, c.Detail)
		}
		if *nat {
			n, err := buildNative(*pkg, *tier)
			if err != nil {
				fmt.Println("NATIVE", err)
				continue
			}
			var jobs []nativeJob
			for _, r := range ex.results {
				jobs = append(jobs, nativeJob{name, r.Vals})
			}
			t2 := time.Now()
			res, err := n.run(jobs, time.Now().Add(5*time.Minute))
			n.close()
			bad := 0
			for i, r := range res {
				p := ex.results[i]
				if p.Kind == "done" && (strings.Join(p.Obs, "|") != strings.Join(r.Obs, "|") || strings.Join(p.Reached, "|") != strings.Join(r.Reached, "|")) || len(r.Fails) > 0 || r.Crash != "" {
					bad++
					if bad < 5 {
						fmt.Printf("   MISMATCH vals=%v\n      engine %q %v\n      native %q %v fails=%v crash=%s\n", p.Vals, p.Obs, p.Reached, r.Obs, r.Reached, r.Fails, r.Crash)
					}
				}
			}
			fmt.Println("   native:", len(res), "runs", bad, "mismatches", err, time.Since(t2))
		}
		if len(ex.poisoned) > 0 {
			fmt.Println("   poisoned:", sortedKeys(ex.poisoned))
		}
	}
}
