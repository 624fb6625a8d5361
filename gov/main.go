package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	prop := flag.String("prop", "", "")
	fns := flag.String("func", "", "")
	tier := flag.String("tier", "quick", "")
	dump := flag.Bool("dump", false, "")
	all := flag.Bool("all", false, "")
	secs := flag.Int("secs", 60, "")
	rep := flag.String("replay", "", "run only the concrete driver of a property")
	save := flag.Bool("savehints", false, "")
	flag.Parse()
	if *rep != "" {
		r := replay(*verif, *repo, *rep, *tier)
		fmt.Println(r.output)
		fmt.Println("ran", r.ran, "found", r.found)
		return
	}
	p, err := loadProgram(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gov:", err)
		if *prop != "" {
			reportBroken(*verif, *prop, *tier, err.Error())
		}
		os.Exit(2)
	}
	loadSpecs(*verif + "/contracts")
	prepare(p)
	buildPreludes(*verif)
	if *dump {
		for _, k := range sortedKeys(p.fns) {
			fmt.Println(k, sortedKeys(p.effs[p.fns[k]]))
		}
		return
	}
	loadHints(*verif + "/contracts/hints.json")
	jobs := buildJobs(p)
	if *all || *fns != "" {
		want := map[string]bool{}
		for _, k := range sortedKeys(jobs) {
			if *all {
				want[k] = true
			}
			for _, f := range strings.Split(*fns, ";") {
				if f != "" && (k == f || strings.HasSuffix(f, "*") && strings.HasPrefix(k, strings.TrimSuffix(f, "*"))) {
					want[k] = true
				}
			}
		}
		for _, l := range specs.lemmas { // assume them here unless asked for
			if len(l.Props) == 0 {
				want["lemma "+l.Name] = true
			} else if !want["lemma "+l.Name] {
				l.Proved, l.RealOnly = true, true
			}
		}
		runJobs(p, jobs, want, time.Duration(*secs)*time.Second)
		if *save {
			saveHints()
		}
		bad := 0
		for _, k := range sortedKeys(want) {
			r := jobs[k].Res
			fmt.Printf("%-50s %4d ok %d failed %s %dms paths %d %s\n", k, len(r.Obls)+r.NOK-len(r.failed()), len(r.failed()), r.Mode, r.Ms, r.Paths, r.Unsupported)
			for _, o := range r.failed() {
				fmt.Printf("     FAILED %s/%s at %s [%s]\n", o.Kind, o.Name, o.Pos, strings.Join(o.Props, ","))
			}
			if !r.ok() {
				bad++
			}
		}
		if bad > 0 {
			os.Exit(1)
		}
		return
	}
	if *prop != "" {
		os.Exit(checkProp(p, jobs, *verif, *repo, *prop, *tier))
	}
}

