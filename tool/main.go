package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type checkFn func(w *World, tier string) *Report

var checks = map[string]checkFn{}

func main() {
	debug.SetGCPercent(500)
	debug.SetMemoryLimit(8 << 30)
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	dump := flag.Bool("v", false, "verbose")
	rule := flag.String("rule", "", "debug: verify one grammar rule (or all) and print everything")
	flag.Parse()
	if *rule != "" {
		w, err := Load(*repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		if *rule == "lex" {
			os.Exit(debugLex(w))
		}
		os.Exit(debugGrammar(w, *rule))
	}
	if *prop == "all" {
		os.Exit(runAll(*tier, *repo, *verif, *dump))
	}
	seed := 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		seed, _ = strconv.Atoi(s)
	}
	os.Exit(runCheck(*prop, *tier, *repo, *verif, seed, *dump))
}

func runCheck(prop, tier, repo, verif string, seed int, dump bool) (code int) {
	start := time.Now()
	defer func() {
		if x := recover(); x != nil {
			fmt.Fprintf(os.Stderr, "%v\n%s\n", x, debug.Stack())
			r := newReport(prop, "analysis failed")
			r.Coverage["failed"] = 1
			r.add("analysis", "internal-error", "-", "the analysis could not be completed: %v", x)
			code = r.finish(verif, tier, seed, start, dump)
		}
	}()
	c := checks[prop]
	if c == nil {
		fmt.Println("unknown property", prop)
		return 2
	}
	w, err := Load(repo)
	if err != nil {
		r := newReport(prop, "analysis failed")
		r.Coverage["failed"] = 1
		r.add("analysis", "load", "-", "cannot load the repository: %v", err)
		return r.finish(verif, tier, seed, start, dump)
	}
	r := c(w, tier)
	r.Coverage["functions_in_repo"] = len(w.repoFuncs())
	r.Coverage["packages"] = len(w.Pkgs)
	return r.finish(verif, tier, seed, start, dump)
}

// runAll is the debugging mode of the mutation campaign: every check over one load of the
// repository; it prints the properties that report something and exits 1 if there is any.
func runAll(tier, repo, verif string, dump bool) int {
	w, err := Load(repo)
	if err != nil {
		fmt.Println("load", err)
		return 1
	}
	ids := []string{}
	for p := range checks {
		ids = append(ids, p)
	}
	rank := func(p string) int { return strings.Index("C24 C17 C20 C21 C12 C13 C14 C15 C18 C01", p) + 1 }
	sort.Slice(ids, func(i, j int) bool {
		a, b := rank(ids[i]), rank(ids[j])
		if (a == 0) != (b == 0) {
			return b == 0
		}
		if a != b {
			return a < b
		}
		return ids[i] < ids[j]
	})
	code := 0
	for _, p := range ids {
		if code != 0 && !dump {
			break
		}
		func() {
			start := time.Now()
			defer func() {
				if x := recover(); x != nil {
					fmt.Println("CAUGHT", p, "internal", x)
					code = 1
				}
			}()
			if checks[p](w, tier).finish(verif, tier, 1, start, false) != 0 {
				fmt.Println("CAUGHT", p)
				code = 1
			}
		}()
	}
	return code
}
