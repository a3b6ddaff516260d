// Command gotitsa decides properties of /repo from its source.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	debug.SetGCPercent(800)
	debug.SetMemoryLimit(2 << 30)
	if pf := os.Getenv("SA_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		go func() { time.Sleep(60 * time.Second); pprof.StopCPUProfile(); f.Close(); os.Exit(3) }()
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gotitsa PROPERTY|all [-v]")
		os.Exit(2)
	}
	repo := os.Getenv("GOTIT_REPO")
	if repo == "" {
		repo = "/repo"
	}
	out := os.Getenv("GOTIT_VERIF")
	if out == "" {
		out = "/verif"
	}
	verbose := false
	var ids []string
	for _, a := range os.Args[1:] {
		switch {
		case a == "-v":
			verbose = true
		case a == "all":
			for _, c := range checks {
				ids = append(ids, c.ID)
			}
		default:
			ids = append(ids, a)
		}
	}
	go watchdog(ids, out)
	prog, err := load(repo)
	if err != nil {
		// the code under test does not type-check: nothing can be decided
		fmt.Fprintln(os.Stderr, "cannot load", repo+":", err)
		for _, id := range ids {
			rp := filepath.Join(out, "evidence", id+".violation.txt")
			_ = os.MkdirAll(filepath.Dir(rp), 0o755)
			_ = os.WriteFile(rp, []byte("the source cannot be type-checked, nothing can be decided:\n"+err.Error()+"\n"), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		}
		os.Exit(1)
	}
	code := 0
	for _, id := range ids {
		var chk *Check
		for _, c := range checks {
			if c.ID == id {
				chk = c
			}
		}
		if chk == nil {
			fmt.Fprintln(os.Stderr, "unknown property", id, "- known:", strings.Join(checkIDs(), " "))
			os.Exit(2)
		}
		if rc := runCheck(prog, chk, out, verbose); rc > code {
			code = rc
		}
	}
	os.Exit(code)
}

// watchdog ends an analysis that does not finish: what cannot be decided within
// these bounds is not claimed to hold.
func watchdog(ids []string, out string) {
	start := time.Now()
	for {
		time.Sleep(2 * time.Second)
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		why := ""
		if m.HeapAlloc > 20<<30 {
			why = "it needs more than 20 GB of memory"
		}
		if time.Since(start) > time.Duration(len(ids))*700*time.Second {
			why = "it takes more than 700 s"
		}
		if why == "" {
			continue
		}
		for _, id := range ids {
			rp := filepath.Join(out, "evidence", id+".violation.txt")
			_ = os.MkdirAll(filepath.Dir(rp), 0o755)
			_ = os.WriteFile(rp, []byte("undecided: the analysis was ended, "+why+"\n"), 0o644)
			fmt.Printf("undecided: the analysis was ended, %s\nVIOLATION property=%s replay=%s\n", why, id, rp)
		}
		os.Exit(1)
	}
}

func checkIDs() []string {
	var r []string
	for _, c := range checks {
		r = append(r, c.ID)
	}
	return r
}
