package prop

import (
	"math/rand"
	"sort"
	"strings"

	"verifsim/gen"
	"verifsim/kern"
	"verifsim/scen"
)

// tune leaves out the edits each command does not claim to support, and those
// covered by a recorded finding instead.
func tune(g *gen.G) {
	off := map[string][]string{
		scen.MySQL: {},
		scen.PG:    {},
		scen.MSSQL: {"coltype", "colnull", "movecol", "chident", "ixpart"},
		// README: tables and views as a whole; columns can be added and dropped
		scen.SQLite: {"coltype", "colnull", "coldef", "addfk", "dropfk", "chfk", "droppk", "addpk", "unique", "check", "movecol"},
	}[g.D]
	for _, o := range off {
		g.Off[o] = true
	}
}

func newGen(r *rand.Rand, d string) *gen.G {
	g := gen.New(d, r)
	tune(g)
	return g
}

func history(r *rand.Rand, d string, n, edits int) []gen.Schema {
	return makeHistory(newGen(r, d), n, edits)
}

func init() {
	for id, d := range map[string]string{"C05": scen.MySQL, "C06": scen.PG, "C07": scen.MSSQL, "C08": scen.SQLite} {
		reg(&Prop{ID: id, Dialects: []string{d}, Level: "exploration",
			Gen: func(r *rand.Rand, d string) *Scenario {
				g := newGen(r, d)
				delete(g.Off, "chident")
				delete(g.Off, "ixpart")
				sc := &Scenario{ByTool: true, Hist: makeHistory(g, 2+r.Intn(4), 3), OrdSeed: r.Uint64()>>1 | 1, MapSeed: r.Uint64() >> 1}
				if r.Intn(3) == 0 {
					// one of the earlier runs is cut short
					sc.Again = make([][]kern.Fault, len(sc.Hist))
					i := r.Intn(len(sc.Hist))
					sc.Again[i] = []kern.Fault{{Proc: 0, Op: 5 + r.Intn(40), Kind: anyKind(r, d), Arg: anyStep(r)}}
				}
				return sc
			},
			Judge: judgeConverge, Quick: 32000, Thorough: 640000,
			Rule: "a history of 2-5 desired schemas from a seeded generator (tables, columns, keys, indexes, foreign keys, views, triggers, policies and edits between them), each applied by the real command to the simulated server, a third of the histories with a crash, lost connection or refused statement in one run; non-trivial: every step was accepted by the server model and judged"})
	}
}

// judgeConverge: after every successful run the server holds exactly what the
// desired schema describes, and running again changes nothing.
func judgeConverge(l *Lab, sc *Scenario) (*Violation, error) {
	for i, h := range sc.Hist {
		want, err := fresh(sc.Dialect, h, sc.Setup)
		if err != nil {
			return nil, skip("desired schema refused by an empty server: %v", err)
		}
		call := scen.Call{Schema: h.SQL()}
		if i < len(sc.Again) && len(sc.Again[i]) > 0 {
			o := l.Run(scen.RunOpt{Faults: sc.Again[i]}, call)
			if o.P.Panic != "" && o.P.ExitCode == 2 {
				return vio("panic", "step %d: the command panicked: %s", i, head(o.P.Panic)), nil
			}
		}
		o := l.Run(scen.RunOpt{}, call)
		if v := clean(o, i); v != nil {
			return v, nil
		}
		if o.Struct != want {
			return vio("state", "step %d: the run reported success but the schema is not the desired one\n--- plan\n%s--- desired schema describes\n%s\n--- server has\n%s", i, o.P.Stdout.String(), want, o.Struct), nil
		}
		o2 := l.Run(scen.RunOpt{MapSeed: sc.MapSeed + 1}, call)
		if v := clean(o2, i); v != nil {
			v.Kind = "rerun-" + v.Kind
			return v, nil
		}
		if o2.P.Stdout.String() != nothing || len(Mutations(o2.W)) > 0 {
			return vio("rerun", "step %d: running the same schema again is not a no-op:\n%s", i, o2.P.Stdout.String()), nil
		}
		if o2.State != o.State {
			return vio("rerun-state", "step %d: the second run changed the server", i), nil
		}
	}
	return nil, nil
}

func head(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 24 {
		l = l[:24]
	}
	return strings.Join(l, "\n")
}

// clean: a run without faults ends by itself with status 0.
func clean(o *Out, i int) *Violation {
	switch {
	case o.P.Panic != "":
		return vio("panic", "step %d: the command panicked: %s", i, head(o.P.Panic))
	case o.P.Hung:
		return vio("hang", "step %d: the command did not finish", i)
	case o.P.ExitCode != 0:
		return vio("fail", "step %d: a desired schema the server accepts could not be applied: %s\n--- output\n%s", i, o.P.Stderr.String(), o.P.Stdout.String())
	}
	return nil
}

func sortedData(m map[string]scen.Data) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func sortedCols(m map[string][]string) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}
