package main

import (
	"flag"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type checkFn func(r *Report, c *Ctx)

// Ctx is what a check may use.
type Ctx struct {
	p      *Prog
	model  *Model
	err    error
	dm     *dagModel
	dmErr  error
	lexm   *LexModel
	lexErr error
}

func (c *Ctx) m(r *Report) *Model {
	if c.model == nil && c.err == nil {
		c.model, c.err = buildModel(c.p)
	}
	if c.err != nil {
		r.failAt("grammar", "-", "the grammar cannot be read: %v", c.err)
		return nil
	}
	return c.model
}

var checks = map[string]checkFn{}

func withModel(f func(r *Report, m *Model)) checkFn {
	return func(r *Report, c *Ctx) {
		if m := c.m(r); m != nil {
			f(r, m)
		}
	}
}

func init() {
	checks["E12"] = withModel(checkChildren)
	checks["E13"] = withModel(checkCloneContent)
	checks["E14"] = withModel(checkCloneSharing)
	checks["E15"] = withModel(checkReadOnly)
}

func runCheck(id, repo, verif string, p *Prog, c *Ctx) (code int) {
	start := time.Now()
	r := newReport(id, p)
	if os.Getenv("AN_PROOFS") != "" {
		defer func() { println(id, "longest proof", longestProof, "all", proofWork) }()
	}
	r.thorough = os.Getenv("VERIF_TIER") == "thorough"
	func() {
		defer func() {
			if x := recover(); x != nil {
				if os.Getenv("AN_TRACE") != "" {
					panic(x)
				}
				r.failAt("analysis", "-", "the analysis cannot process this code: %v", x)
			}
		}()
		checks[id](r, c)
	}()
	return r.finish(verif, start)
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: an check ID... | dump FUNC")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("an", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "output")
	fs.Parse(os.Args[2:])
	p, err := loadProg(*repo)
	switch os.Args[1] {
	case "check":
		ids := fs.Args()
		if len(ids) == 1 && ids[0] == "all" {
			ids = nil
			for id := range checks {
				ids = append(ids, id)
			}
			sort.Strings(ids)
		}
		code := 0
		if err != nil {
			for _, id := range ids {
				fmt.Println("the program cannot be analysed:", err)
				fmt.Printf("VIOLATION property=%s replay=%s\n", id, "-")
			}
			os.Exit(1)
		}
		c := &Ctx{p: p}
		for _, id := range ids {
			if checks[id] == nil {
				fmt.Println("no check", id)
				os.Exit(2)
			}
			if x := runCheck(id, *repo, *verif, p, c); x > code {
				code = x
			}
		}
		os.Exit(code)
	case "dump":
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		dump(p, fs.Arg(0))
	case "dag":
		dm, err := newDagModel(p)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		dm.dump(fs.Args())
	case "flats":
		r := newReport("", p)
		l := (&Ctx{p: p}).lex(r)
		if l == nil {
			os.Exit(2)
		}
		l.dumpFlats(r, fs.Args())
	case "shapes":
		m, err := buildModel(p)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, t := range m.Types {
			fmt.Printf("%s node=%v capture=%v zero=%v prod=%v\n", t.Name, t.IsNode, t.Capture, m.zero[t.Name], t.Prod)
			for _, s := range t.Shapes {
				fmt.Println("    ", t.shapeName(s))
			}
		}
	}
}

func dump(p *Prog, name string) {
	parts := strings.Split(name, ".")
	var fn *ssa.Function
	m, _ := buildModel(p)
	switch {
	case len(parts) == 2 && parts[0] == "etx":
		fn = p.spkg[p.etx.PkgPath].Func(parts[1])
	case len(parts) == 3 && parts[0] == "etx":
		t := p.etx.Types.Scope().Lookup(parts[1]).Type()
		fn = p.method(t, parts[2])
		if nt := m.of(t); nt != nil && fn != nil {
			for _, s := range m.analysedShapes(nt) {
				fmt.Println("=== shape", nt.shapeName(s))
				_, outs, und := m.runNode(fn, nt, s, nil)
				if und != nil {
					fmt.Println("undecided:", und.Msg, p.pos(und.Pos))
				}
				dumpOutcomes(p, outs)
			}
			return
		}
	case parts[0] == "dag":
		d := p.instDag()
		t := types.Type(d.graph)
		if parts[1] == "Set" {
			t = d.set
		}
		fn = p.method(t, parts[2])
	}
	if fn == nil {
		fmt.Println("no such function")
		os.Exit(2)
	}
	e := p.engine()
	p.parserHooks(e)
	outs, und := e.runFn(fn, func(st *State) []*Term { return e.symArgs(fn) })
	if und != nil {
		fmt.Println("undecided:", und.Msg, p.pos(und.Pos))
	}
	dumpOutcomes(p, outs)
}
