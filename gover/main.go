package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	B = newBank()
	initSorts()
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	fl := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	repo := fl.String("repo", "/repo", "")
	verif := fl.String("verif", "/verif", "")
	unit := fl.String("unit", "", "")
	prop := fl.String("prop", "", "")
	tier := fl.String("tier", "quick", "")
	verbose := fl.Bool("v", false, "")
	vv := fl.Bool("vv", false, "")
	inv := fl.String("inv", "", "debug invariant")
	dump := fl.String("dump", "", "dump queries of failed obligations")
	fl.Parse(os.Args[2:])
	debugInv = *inv
	if pf := os.Getenv("GOVER_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	switch os.Args[1] {
	case "externs":
		p, err := loadProgram(*repo, nil)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		p.externs()
	case "check":
		os.Exit(runCheck(*repo, *verif, *prop, *tier))
	case "replay":
		os.Exit(runReplay(*repo, *verif, *prop, fl.Arg(0), fl.Arg(1)))
	case "unit":
		files, _ := filepath.Glob(filepath.Join(*verif, "contracts", "*.go"))
		p, err := loadProgram(*repo, files)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		p.solver = newSolver()
		for _, u := range p.units {
			if *unit != "" && u.name != *unit || *prop != "" && !u.hasProp(*prop) {
				continue
			}
			t0 := time.Now()
			r := p.verify(u, *prop)
			f := r.failed()
			fmt.Printf("%s: %d obligations, %d failed, %d paths, %.1fs %s %s\n", u.name, len(r.Obls), len(f), r.Paths, time.Since(t0).Seconds(), r.Err, r.Vacuous)
			if *verbose {
				fmt.Printf("   queries %d cpu %.1f\n", p.solver.Queries, p.solver.CPU)
				for _, i := range r.Inv {
					fmt.Println("   inv", i)
				}
				fmt.Println("   inlined", strings.Join(r.Inlined, " "))
			}
			for i, o := range f {
				if i > 20 {
					break
				}
				fmt.Printf("  FAIL %s %s %s [%s by %s]\n", o.Kind, o.Name, o.Pos, o.Status, o.Solver)
				if *vv {
					for _, a := range o.Assume {
						fmt.Println("      ", a)
					}
				}
				if *verbose {
					fmt.Println("    |-", o.Goal)
				}
				if *dump != "" {
					os.WriteFile(fmt.Sprintf("%s.%s.%d.smt2", *dump, u.name, i), []byte(o.Text), 0644)
					os.WriteFile(fmt.Sprintf("%s.%s.%d.model", *dump, u.name, i), []byte(o.Model), 0644)
				}
			}
		}
	}
}
