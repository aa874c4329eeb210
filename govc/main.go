package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc verify|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "verify":
		cmdVerify(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	case "names": // how spec/names.json was made
		cmdNames("/repo", "/verif")
	case "dict": // how spec/dict.json was made
		fmt.Println(jsonStr(dictionary("/repo")))
	case "static":
		cmdStatic(os.Args[2:])
	case "driver": // prints the driver of a y.go: how spec/driver.txt was made
		b, err := os.ReadFile(os.Args[2])
		if err == nil {
			var y *yparser
			if y, err = parseY(b); err == nil {
				fmt.Print(y.driver())
				return
			}
		}
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func cmdVerify(args []string) {
	fs := flag.NewFlagSet("verify", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	fn := fs.String("fn", "", "substring of the function name")
	all := fs.Bool("v", false, "print discharged obligations too")
	to := fs.Int("t", 5, "seconds per query")
	quick := fs.Bool("first", false, "stop at the first function that fails, without a second try")
	dump := fs.Bool("dump", false, "print failing obligations in full")
	fs.Parse(args)
	if f := os.Getenv("GOVC_PROF"); f != "" {
		o, _ := os.Create(f)
		pprof.StartCPUProfile(o)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	w, err := loadWorld(*repo, *verif)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	defer w.close()
	fmt.Printf("loaded in %v, %d contracts, missing %v left out %v\n", time.Since(t0).Round(time.Millisecond), len(w.clist), w.missing, w.leftOut)
	bad := 0
	w.first = *quick
	for _, c := range w.clist {
		if bad > 0 && *quick {
			break
		}
		if c.fn == nil || !strings.Contains(c.Name, *fn) {
			continue
		}
		t1 := time.Now()
		r := w.verify(c, time.Duration(*to)*time.Second, nil)
		t2 := time.Now()
		nb := 0
		for _, o := range r.Obls {
			if o.Result != "unsat" {
				nb++
			}
		}
		bad += nb
		fmt.Printf("%-60s paths %4d obligations %4d failed %3d  %v %s\n", r.Name, r.Paths, len(r.Obls), nb, t2.Sub(t1).Round(time.Millisecond), r.Trusted)
		for _, o := range r.Obls {
			if o.Result != "unsat" || *all {
				fmt.Printf("   %-8s [%s] %s %s fuel=%d %dms %s\n", o.Result, o.Kind, o.Name, o.Where, o.Fuel, o.Millis, firstLine(o.Output))
				if o.Result != "unsat" && *dump {
					for _, p := range o.PC {
						fmt.Println("        |", p)
					}
					for _, q := range o.Quants {
						fmt.Println("        forall", q.vars, q.body)
					}
					fmt.Println("        =>", o.Goal)
				}
			}
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}

func cmdStatic(args []string) {
	fs := flag.NewFlagSet("static", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	fs.Parse(args)
	w, err := loadWorld(*repo, *verif)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	defer w.close()
	for _, k := range fs.Args() {
		for _, o := range w.staticObligations(k) {
			fmt.Printf("%s %s: %s\n", o.Fn, o.Name, o.Static)
		}
	}
}

func firstLine(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}
