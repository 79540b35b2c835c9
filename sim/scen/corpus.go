package scen

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"verifsim/corpus"
)

// RunCorpus replays a recorded integration-test file; it returns mismatches.
func RunCorpus(dialect, path string, verbose bool) (steps, ok int, bad []string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return 0, 0, []string{err.Error()}
	}
	var st []corpus.Step
	if err := json.Unmarshal(b, &st); err != nil {
		return 0, 0, []string{err.Error()}
	}
	t := *Tools[dialect]
	t.DBName = t.Name + "_test"
	Tools[dialect+"_corpus"] = &t
	var in *Inst
	failed := map[string]bool{}
	for _, s := range st {
		if s.Kind == "reset" {
			in = NewInst(dialect + "_corpus")
			continue
		}
		if in == nil {
			in = NewInst(dialect + "_corpus")
		}
		steps++
		var got string
		var code int
		switch s.Kind {
		case "apply":
			_, p := in.Apply(s.Schema)
			got = p.Stdout.String() + p.Stderr.String()
			code = p.ExitCode
			if p.Panic != "" {
				got += p.Panic
			}
		case "run":
			switch s.Args[0] {
			case t.Name:
				var fl []string
				stdin := true
				for k := 1; k < len(s.Args); k++ {
					a := s.Args[k]
					if strings.HasPrefix(a, "-u") || strings.HasPrefix(a, "-U") || strings.HasPrefix(a, "-P") || a == t.DBName {
						continue
					}
					if a == "--file" || a == "-f" {
						k++
						stdin = false
						continue
					}
					fl = append(fl, a)
				}
				if len(s.Args) == 1 || len(fl) > 0 && fl[0] == "--help" {
					steps--
					continue
				}
				w, err := in.Run(RunOpt{}, Call{Schema: s.Schema, Stdin: stdin, Flags: fl})
				if err != nil {
					bad = append(bad, err.Error())
					continue
				}
				got = w.Procs[0].Stdout.String() + w.Procs[0].Stderr.String()
				code = w.Procs[0].ExitCode
			case "mysql", "psql", "sqlcmd", "sqlite3":
				sql := s.Args[len(s.Args)-1]
				if err := in.Srv.Admin(t.DBName, sql); err != nil {
					bad = append(bad, fmt.Sprintf("%s: admin %q: %v", s.Test, sql, err))
				} else {
					ok++
				}
				continue
			default:
				steps--
				continue
			}
		}
		good := (code != 0) == s.Fail
		if s.HasExpect && got != s.Expect && !strings.HasPrefix(s.Expect, "@@") {
			good = false
		}
		if good {
			ok++
		} else if !failed[s.Test] || verbose {
			failed[s.Test] = true
			bad = append(bad, fmt.Sprintf("%s: exit %d\n--- schema\n%s\n--- want\n%s--- got\n%s--- state\n%s\n", s.Test, code, s.Schema, s.Expect, got, in.Srv.State(t.DBName, false)))
		}
	}
	return
}
