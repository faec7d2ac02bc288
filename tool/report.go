package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Finding is one violation of a property at a specific construct.
type Finding struct {
	Prop  string   `json:"property"`
	Rule  string   `json:"rule"`
	Key   string   `json:"key"` // rule + construct, stable under line shifts
	Where string   `json:"where"`
	Msg   string   `json:"what"`
	Trace []string `json:"trace,omitempty"`
}

// Report is the result of one check.
type Report struct {
	Prop        string
	Explanation string
	Coverage    map[string]interface{}
	Assumptions []string
	Findings    []Finding
}

func newReport(prop, expl string) *Report {
	return &Report{Prop: prop, Explanation: expl, Coverage: map[string]interface{}{}}
}

func (r *Report) add(rule, key, where, format string, a ...interface{}) {
	r.Findings = append(r.Findings, Finding{Prop: r.Prop, Rule: rule, Key: rule + "/" + key, Where: where, Msg: fmt.Sprintf(format, a...)})
}

// atLeast fails the check when fewer instances than confirmed by hand were analysed.
func (r *Report) atLeast(what string, n, min int) {
	r.Coverage[what] = n
	if n < min {
		r.add("coverage", what, "-", "only %d %s analysed (at least %d expected): the analysis lost its subject", n, what, min)
	}
}

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
	Commit   string `json:"commit,omitempty"`
}

func loadKnown(path string) ([]knownFinding, error) {
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var k struct {
		Findings []knownFinding `json:"findings"`
	}
	if err := json.Unmarshal(b, &k); err != nil {
		return nil, err
	}
	return k.Findings, nil
}

// finish prints the verdict, writes evidence, and returns the exit code.
func (r *Report) finish(verif, tier string, seed int, start time.Time, dump bool) int {
	known, err := loadKnown(filepath.Join(verif, "known_findings.json"))
	if err != nil {
		r.add("known-findings", "unreadable", "known_findings.json", "%v", err)
	}
	isKnown := map[string]string{}
	for _, k := range known {
		if k.Status == "known" && k.Property == r.Prop {
			isKnown[k.Key] = k.What
		}
	}
	sort.SliceStable(r.Findings, func(i, j int) bool {
		if r.Findings[i].Key != r.Findings[j].Key {
			return r.Findings[i].Key < r.Findings[j].Key
		}
		return r.Findings[i].Where < r.Findings[j].Where
	})
	var bad []Finding
	seenKnown := map[string]bool{}
	for _, f := range r.Findings {
		if w, ok := isKnown[f.Key]; ok {
			if !seenKnown[f.Key] {
				seenKnown[f.Key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", r.Prop, w, f.Where)
			}
			continue
		}
		bad = append(bad, f)
	}
	ev := map[string]interface{}{
		"property": r.Prop, "tier": tier, "seed": seed, "level": "other", "wall_s": time.Since(start).Seconds(),
	}
	cov := map[string]interface{}{"explanation": r.Explanation}
	for k, v := range r.Coverage {
		cov[k] = v
	}
	cov["known_findings_seen"] = len(seenKnown)
	ev["coverage"] = cov
	if len(r.Assumptions) > 0 {
		ev["assumptions"] = r.Assumptions
	}
	var vs []string
	for _, f := range bad {
		vs = append(vs, f.Where+": "+f.Msg)
	}
	ev["violations"] = len(bad)
	edir := filepath.Join(verif, "evidence")
	os.MkdirAll(edir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(edir, r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	if len(bad) == 0 {
		fmt.Printf("OK property=%s (%d known findings)\n", r.Prop, len(seenKnown))
		return 0
	}
	replay := filepath.Join(edir, r.Prop+".replay.txt")
	var sb strings.Builder
	for _, f := range bad {
		fmt.Fprintf(&sb, "%s  %s\n  key: %s\n  %s\n", f.Where, f.Rule, f.Key, f.Msg)
		for _, t := range f.Trace {
			fmt.Fprintf(&sb, "    %s\n", t)
		}
		sb.WriteString("\n")
	}
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	n := len(bad)
	if n > 12 && !dump {
		n = 12
	}
	for _, f := range bad[:n] {
		fmt.Printf("%s: [%s] %s\n", f.Where, f.Key, f.Msg)
		if dump {
			for _, t := range f.Trace {
				fmt.Printf("      %s\n", t)
			}
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)
	return 1
}
