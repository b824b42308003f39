package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "check" {
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(runCheck(os.Args[2], tier))
	}
	if len(os.Args) > 1 && os.Args[1] == "list" {
		var l []map[string]interface{}
		for _, c := range checks() {
			l = append(l, map[string]interface{}{"id": c.ID, "level": registry()[c.ID].Level, "bounds": c.Bounds, "outside": c.Outside, "trusted": c.Trusted, "technique": c.Technique, "deep": len(c.Deep) > 0})
		}
		j, _ := json.MarshalIndent(l, "", " ")
		fmt.Println(string(j))
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "run" {
		e := newEnv()
		defer e.close()
		t0 := time.Now()
		p, err := e.load("./zz_verif/" + os.Args[2])
		if err != nil {
			fatal(err)
		}
		fmt.Println("load", time.Since(t0))
		var once sync.Once
		var nat *natRunner
		p.sys = &systems{m: map[string]*system{}, dir: e.Work, nat: func() *natRunner {
			once.Do(func() { nat = e.buildNative(p, []string{os.Args[2]}, false) })
			return nat
		}}
		in := &Inst{Pkg: os.Args[2], Fn: os.Args[3], P: map[string]int64{}}
		for _, a := range os.Args[4:] {
			kv := strings.SplitN(a, "=", 2)
			switch kv[0] {
			case "stub":
				in.Cfg.StubHash = kv[1] == "1"
				continue
			case "dev":
				in.Cfg.Deviations, _ = strconv.Atoi(kv[1])
				continue
			case "preempt":
				in.Cfg.Preempt = true
				continue
			case "conc":
				in.Conc = true
				continue
			}
			n, _ := strconv.Atoi(kv[1])
			in.P[kv[0]] = int64(n)
		}
		r := runInst(p, newHashOracle(p), in, 1)
		fmt.Printf("%+v\n", *r.Stats)
		if r.Conc != nil {
			fmt.Printf("%+v\n", *r.Conc)
		}
		fmt.Printf("queries %d unsat %d sat %d unk %d time %s max %s wall %s\n", r.Queries, r.NUnsat, r.NSat, r.NUnk, r.SolverT, r.MaxQ, r.Wall)
		for _, u := range r.Undec {
			fmt.Println("UNDEC", u)
		}
		for _, v := range r.Viol {
			fmt.Println("VIOL", v.Label, v.Kind, v.Msg, v.Goal)
		}
	}
}
