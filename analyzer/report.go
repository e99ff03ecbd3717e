package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Violation is one construct that breaks a property.
type Violation struct {
	Key string // rule and construct, independent of line numbers
	Pos string
	Msg string
}

// Report collects what one check did.
type Report struct {
	id          string
	p           *Prog
	rule        string
	obligations int
	discharged  int
	paths       int
	functions   map[string]bool
	counts      map[string]int
	floors      map[string]int
	viol        []Violation
	seen        map[string]bool
	samples     []string
	assume      []string
	thorough    bool
}

func newReport(id string, p *Prog) *Report {
	return &Report{id: id, p: p, functions: map[string]bool{}, counts: map[string]int{}, floors: map[string]int{}, seen: map[string]bool{}}
}

// fail records a violation.
func (r *Report) fail(key string, pos token.Pos, format string, a ...any) {
	r.failAt(key, r.p.pos(pos), format, a...)
}

func (r *Report) failAt(key, pos, format string, a ...any) {
	if r.seen[key] {
		return
	}
	r.seen[key] = true
	r.viol = append(r.viol, Violation{key, pos, fmt.Sprintf(format, a...)})
}

// ob records one obligation and whether it holds.
func (r *Report) ob(ok bool, key string, pos token.Pos, format string, a ...any) bool {
	r.obligations++
	if ok {
		r.discharged++
		if len(r.samples) < 12 {
			r.samples = append(r.samples, key)
		}
		return true
	}
	r.fail(key, pos, format, a...)
	return false
}

func (r *Report) count(name string, n int) { r.counts[name] += n }

// floor requires that at least n instances of something were analysed.
func (r *Report) floor(name string, n int) { r.floors[name] = n }

func (r *Report) undecided(what string, u *Undecided) {
	fn := ""
	if u.Fn != nil {
		fn = u.Fn.Name()
	}
	r.obligations++
	r.fail("undecided:"+what, u.Pos, "cannot decide %s: %s (in %s)", what, u.Msg, fn)
}

func (r *Report) covers(e *Engine) {
	for fn := range e.Inlined {
		r.functions[fn.String()] = true
	}
}

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"` // known, or fixed
	Commit   string `json:"commit,omitempty"`
}

func loadKnown(path string) ([]knownFinding, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var out struct {
		Findings []knownFinding `json:"findings"`
	}
	if err := json.Unmarshal(b, &out); err != nil {
		return nil, err
	}
	return out.Findings, nil
}

// finish prints the verdict, writes the evidence and returns the exit code.
func (r *Report) finish(verif string, start time.Time) int {
	for name, n := range r.floors {
		if r.counts[name] < n {
			r.failAt("floor:"+name, "-", "only %d %s analysed, expected at least %d", r.counts[name], name, n)
		}
	}
	known, err := loadKnown(filepath.Join(verif, "known_findings.json"))
	if err != nil {
		fmt.Println("cannot read known findings:", err)
		return 2
	}
	var open []Violation
	sort.SliceStable(r.viol, func(i, j int) bool { return r.viol[i].Key < r.viol[j].Key })
	nk := 0
	for _, v := range r.viol {
		isKnown := false
		for _, k := range known {
			if k.Status == "known" && k.Property == r.id && k.Key == v.Key {
				isKnown = true
				fmt.Printf("KNOWN-FINDING: property=%s %s [%s at %s]\n", r.id, k.What, k.Key, v.Pos)
			}
		}
		if isKnown {
			nk++
		} else {
			open = append(open, v)
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var fns []string
	for f := range r.functions {
		fns = append(fns, strings.TrimPrefix(f, r.p.module+"/"))
	}
	sort.Strings(fns)
	ev := map[string]any{
		"property": r.id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation":   r.rule,
			"obligations":   r.obligations,
			"discharged":    r.discharged,
			"paths":         r.paths,
			"functions":     len(fns),
			"function_list": fns,
			"instances":     r.counts,
			"samples":       r.samples,
			"known":         nk,
		},
		"assumptions": r.assume,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(open),
	}
	if r.assume == nil {
		ev["assumptions"] = []string{}
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, r.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	rp := filepath.Join(dir, r.id+".violations.txt")
	os.Remove(rp)
	if len(open) == 0 {
		fmt.Printf("OK property=%s obligations=%d discharged=%d paths=%d functions=%d known=%d\n", r.id, r.obligations, r.discharged, r.paths, len(fns), nk)
		return 0
	}
	var sb strings.Builder
	for _, v := range open {
		fmt.Fprintf(&sb, "%s: %s\n  rule instance: %s\n", v.Pos, v.Msg, v.Key)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, rp)
	return 1
}
