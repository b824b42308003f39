package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/consensys/gurvy/bn256/fr"
	"golang.org/x/tools/go/ssa"
)

// Case is one native run of a harness on concrete inputs.
type Case struct {
	F       map[string]string `json:"f"`
	B       map[string]bool   `json:"b"`
	V       map[string]int64  `json:"v"`
	Choices map[string]int64  `json:"choices"`
	Params  map[string]int64  `json:"params"`
	Harness string            `json:"harness"`
	Label   string            `json:"label"`
	// for the report only
	Property string   `json:"property,omitempty"`
	Kind     string   `json:"kind,omitempty"`
	Msg      string   `json:"message,omitempty"`
	Script   []int    `json:"schedule,omitempty"`
	Goal     string   `json:"goal,omitempty"`
	Verified string   `json:"confirmed_by,omitempty"`
	Expect   []string `json:"-"`
}

// Outcome of a native run.
type Outcome struct {
	Harness string   `json:"harness"`
	Failed  []string `json:"failed"`
	Panic   string   `json:"panic"`
	Assumed bool     `json:"assumed"`
	Trace   []string `json:"trace"`
}

func feDec(e fr.Element) string {
	var b big.Int
	e.ToBigIntRegular(&b)
	return b.String()
}

func newCase(in *Inst, a *Asg, choices map[string]int64) *Case {
	c := &Case{F: map[string]string{}, B: map[string]bool{}, V: map[string]int64{}, Choices: map[string]int64{}, Params: in.P, Harness: in.Pkg + "." + in.Fn}
	if a != nil {
		for k, v := range a.F {
			c.F[k] = feDec(v)
		}
		for k, v := range a.B {
			c.B[k] = v
		}
		for k, v := range a.V {
			c.V[k] = int64(v)
		}
	}
	for k, v := range choices {
		c.Choices[k] = v
	}
	return c
}

// validationCase evaluates the comparisons of the current path under a concrete assignment on that path.
func (m *Machine) validationCase(in *Inst) *Case {
	var a *Asg
	if len(m.pc) == 0 {
		a = m.baseAsg(0)
	} else if ws := m.witnesses(); len(ws) > 0 {
		a = ws[0].asg.clone()
	} else {
		return nil
	}
	c := newCase(in, a, m.choices)
	ev := m.st.newEval(a)
	for _, t := range m.cmps {
		c.Expect = append(c.Expect, feDec(ev.term(t)))
	}
	return c
}

// native builds the replay program: the harnesses compiled together with the real code.
type natRunner struct {
	bin string
	err error
}

func (e *Env) buildNative(p *Program, pkgs []string, race bool) *natRunner {
	var sb, mp strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"gkr-mimc/zz_verif/vx\"\n")
	for _, pk := range pkgs {
		sp := p.prog.ImportedPackage("gkr-mimc/zz_verif/" + pk)
		if sp == nil {
			continue
		}
		var names []string
		for n, mb := range sp.Members {
			if f, ok := mb.(*ssa.Function); ok && n[0] >= 'A' && n[0] <= 'Z' && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 0 && f.Signature.Recv() == nil {
				names = append(names, n)
			}
		}
		if len(names) == 0 {
			continue
		}
		sort.Strings(names)
		fmt.Fprintf(&sb, "\t\"gkr-mimc/zz_verif/%s\"\n", pk)
		for _, n := range names {
			fmt.Fprintf(&mp, "\t\t\"%s.%s\": %s.%s,\n", pk, n, pk, n)
		}
	}
	dump := ""
	if hasGad(p) {
		sb.WriteString("\t\"gkr-mimc/zz_verif/gad\"\n\t\"os\"\n\t\"strconv\"\n")
		dump = "\tif os.Args[1] == \"-dump\" {\n\t\tvar p []int\n\t\tfor _, a := range os.Args[4:] {\n\t\t\tn, _ := strconv.Atoi(a)\n\t\t\tp = append(p, n)\n\t\t}\n\t\tgad.Dump(os.Args[3], p, os.Args[2])\n\t\treturn\n\t}\n"
	}
	fmt.Fprintf(&sb, ")\n\nfunc main() {\n"+dump+"\tvx.Main(map[string]func(){\n%s\t})\n}\n", mp.String())
	main := filepath.Join(e.Work, "main.go")
	if err := os.WriteFile(main, []byte(sb.String()), 0o644); err != nil {
		return &natRunner{err: err}
	}
	ov := map[string]string{}
	for k, v := range e.Overlay {
		ov[k] = v
	}
	ov[filepath.Join(e.Repo, "zz_verif", "zz_main", "main.go")] = main
	j, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	of := filepath.Join(e.Work, "overlay_native.json")
	os.WriteFile(of, j, 0o644)
	bin := filepath.Join(e.Work, "replay")
	args := []string{"build", "-mod=mod", "-modfile=" + e.ModFile, "-overlay=" + of, "-o", bin}
	if race {
		bin += "_race"
		args[len(args)-1] = bin
		args = append(args, "-race")
	}
	cmd := exec.Command("go", append(args, "./zz_verif/zz_main")...)
	cmd.Dir = e.Repo
	cmd.Env = append(os.Environ(), "GOSUMDB=off", "GOPROXY=off", "GOFLAGS=-mod=mod")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return &natRunner{err: fmt.Errorf("%v: %s", err, out)}
	}
	return &natRunner{bin: bin}
}

// run executes cases natively. A crash of the whole process or a timeout is reported as err.
func (n *natRunner) run(dir string, cases []*Case, to time.Duration, env ...string) ([]Outcome, string, error) {
	if n.err != nil {
		return nil, "", n.err
	}
	d, err := os.MkdirTemp(dir, "run")
	if err != nil {
		return nil, "", err
	}
	defer os.RemoveAll(d)
	j, _ := json.Marshal(cases)
	in, outf := filepath.Join(d, "in.json"), filepath.Join(d, "out.json")
	os.WriteFile(in, j, 0o644)
	cmd := exec.Command(n.bin, in, outf)
	cmd.Dir = d
	cmd.Env = append(os.Environ(), env...)
	var sb strings.Builder
	cmd.Stdout, cmd.Stderr = &sb, &sb
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(to):
		cmd.Process.Kill()
		<-done
		return nil, tail(sb.String(), 2000), fmt.Errorf("timeout after %s", to)
	}
	b, rerr := os.ReadFile(outf)
	if rerr != nil {
		return nil, tail(sb.String(), 2000), fmt.Errorf("the run crashed: %v", err)
	}
	var res []Outcome
	if err := json.Unmarshal(b, &res); err != nil {
		return nil, "", err
	}
	return res, tail(sb.String(), 2000), nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// reexec executes the harness on concrete inputs under the given scheduling decisions, in the executor.
func reexec(p *Program, ho *hashOracle, in *Inst, o *Oblig) (bool, string) {
	c := *in
	c.Conc = false
	c.Way = o.Way
	c.Cfg.LogEvents = o.Way != nil
	c.Cfg.Pin = o.Cex
	c.Cfg.Script = o.Script
	c.Cfg.StubHash = false
	r := runInst(p, ho, &c, 1)
	for _, v := range r.Viol {
		if v.Label == o.Label {
			return true, v.Msg
		}
	}
	return false, strings.Join(r.Undec, "; ")
}
