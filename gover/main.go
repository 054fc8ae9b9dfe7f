package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func envMap() map[ssa.Value]Val { return map[ssa.Value]Val{} }

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gover verify|check|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "verify":
		cmdVerify(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func cmdVerify(args []string) {
	fs := flag.NewFlagSet("verify", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	con := fs.String("contracts", "/verif/contracts", "")
	pkgs := fs.String("pkgs", "ipnet", "")
	hn := fs.String("h", "", "harness name substring")
	all := fs.Bool("v", false, "print every obligation")
	keep := fs.Bool("keep", false, "")
	quick := fs.Int("quick", 5, "")
	slow := fs.Int("slow", 30, "")
	fs.Parse(args)
	tmpDir, _ = os.MkdirTemp("", "gover")
	if pf := os.Getenv("GV_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		time.AfterFunc(50*time.Second, func() { pprof.StopCPUProfile(); f.Close(); os.Exit(3) })
	}
	if !*keep {
		defer os.RemoveAll(tmpDir)
	} else {
		fmt.Println("tmp:", tmpDir)
	}
	t0 := time.Now()
	ov, err := newOverlay(*repo, *con)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	P, err := Load(ov, strings.Split(*pkgs, ","))
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(1)
	}
	for _, d := range ov.dropped {
		fmt.Printf("dropped: %s.%s: %s\n", d.pkg, d.name, d.why)
	}
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	var wg sync.WaitGroup
	res := make([]*Result, len(P.harnesses))
	sem := make(chan bool, 4)
	for i, h := range P.harnesses {
		if *hn != "" && !strings.Contains(h.name, *hn) {
			continue
		}
		if h.kind == "spec" || h.kind == "trusted" || h.kind == "bounded" {
			continue
		}
		wg.Add(1)
		go func(i int, h *Harness) {
			defer wg.Done()
			sem <- true
			res[i] = Verify(P, h, Config{*quick, *slow, time.Now().Add(20 * time.Minute), *keep})
			<-sem
		}(i, h)
	}
	wg.Wait()
	for _, r := range res {
		if r == nil {
			continue
		}
		nf := len(r.failed())
		st := "ok"
		if r.Err != "" || nf > 0 || r.Vacuous {
			st = "FAIL"
		}
		nt := 0
		ss := 0.0
		for _, o := range r.Obls {
			if !o.trivial {
				nt++
			}
			ss += o.secs
		}
		fmt.Printf("%-4s %-40s cases=%d obls=%d nontrivial=%d gen=%.1fs total=%.1fs solver=%.1fs covers=%d/%d\n", st, r.Harness, r.Cases, len(r.Obls), nt, r.GenSecs, r.Secs, ss, r.CoverSat, r.CoverN)
		if r.Err != "" {
			fmt.Println("     error:", r.Err)
		}
		if r.Vacuous {
			fmt.Println("     VACUOUS")
		}
		n := 0
		for _, o := range r.Obls {
			if o.status != "valid" || *all {
				n++
				if n > 15 && !*all {
					fmt.Println("     ...")
					break
				}
				f := ""
				if o.status != "valid" {
					f = o.model
				}
				fmt.Printf("     %s %s %s (%s:%d) [%s] %s %s %.2fs %s inst=%d\n", o.status, o.kind, o.name, o.pos.Filename[strings.LastIndex(o.pos.Filename, "/")+1:], o.pos.Line, o.cas, o.backend, o.out, o.secs, f, o.insts)
			}
		}
	}
}
