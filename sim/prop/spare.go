package prop

import (
	"math/rand"
	"strings"

	"verifsim/kern"
	"verifsim/scen"
)

func init() {
	reg(&Prop{ID: "C22", Dialects: dialects, Level: "fault_enumeration",
		Gen: func(r *rand.Rand, d string) *Scenario {
			sc := &Scenario{Hist: pair(r, d, true), MapSeed: r.Uint64() >> 1, OrdSeed: r.Uint64()>>1 | 1}
			if r.Intn(3) == 0 {
				sc.Rows = 1 + r.Intn(3)
			}
			return sc
		},
		Variants: func(l *Lab, r *rand.Rand, max int) []*Scenario {
			b := beginAt(l.Base().W.Trace)
			return append([]*Scenario{l.Sc}, withFaults(l, r, max, func(i int, e kern.Event, k string) bool {
				return i >= b && e.K != "stdout"
			})...)
		},
		Judge: judgeSpare, MaxVar: 3, Quick: 9000, Thorough: 180000,
		Rule: "an apply to a schema some edits away, or to what an interrupted apply left behind; the server's schema after each statement is compared with the one before it, and the plan is repeated without each statement that had no effect and without each pair of statements on the same object"})
}

// judgeSpare: no statement of the plan leaves the schema as it is, and no two
// of them only undo one another.
func judgeSpare(l *Lab, sc *Scenario) (*Violation, error) {
	want, err := fresh(sc.Dialect, sc.Hist[len(sc.Hist)-1], sc.Setup)
	if err != nil {
		return nil, skip("desired schema refused by an empty server: %v", err)
	}
	if len(sc.Faults) > 0 {
		l.Run(scen.RunOpt{Faults: sc.Faults}, l.call())
	}
	save := l.In.Srv.Save()
	states := []string{l.In.Srv.State(l.db(), false)}
	o := l.Run(scen.RunOpt{}, l.call())
	if o.P.ExitCode != 0 || o.Struct != want {
		return nil, skip("not applied (convergence is C05-C08)")
	}
	var plan []string
	for _, e := range Execs(o.W, 0) {
		plan = append(plan, e.T)
	}
	// reached runs the plan without the statements i and j.
	reached := func(i, j int) bool {
		l.In.Srv.Restore(save)
		for k, s := range plan {
			if k != i && k != j && l.In.Srv.Admin(l.db(), s) != nil {
				return false
			}
		}
		return l.In.Srv.State(l.db(), false) == want
	}
	l.In.Srv.Restore(save)
	for _, s := range plan {
		if err := l.In.Srv.Admin(l.db(), s); err != nil {
			return nil, skip("the plan does not run statement by statement: %v", err)
		}
		states = append(states, l.In.Srv.State(l.db(), false))
	}
	if states[len(plan)] != want {
		return nil, skip("the plan does not run statement by statement")
	}
	show := func() string { return strings.Join(plan, ";\n") }
	for i := range plan {
		if states[i] == states[i+1] && reached(i, i) {
			return vio("no-effect", "a statement changes nothing and is not needed: %s\n--- plan\n%s", plan[i], show()), nil
		}
	}
	// a comment in a view's text is part of it for the command, though not of what the view is
	text := sc.Hist[0].SQL() + l.desired()
	commented := strings.Contains(text, "/*") || strings.Contains(text, "--")
	for i := range plan {
		for j := i + 1; j < len(plan); j++ {
			if about(plan[i], plan[j]) && !(strings.HasPrefix(plan[i], "DROP VIEW") && commented) && reached(i, j) && !reached(i, i) && !reached(j, j) {
				return vio("undone", "two statements only undo one another: %s\nand %s\n--- plan\n%s", plan[i], plan[j], show()), nil
			}
		}
	}
	return nil, nil
}

// about tells whether two statements name the same thing.
func about(a, b string) bool {
	names := map[string]bool{}
	split := func(r rune) bool { return strings.ContainsRune(" \t\n().,;`\"[]'", r) }
	for _, w := range strings.FieldsFunc(strings.ToLower(a), split) {
		switch w {
		case "alter", "table", "add", "drop", "create", "column", "index", "constraint", "view", "on", "as", "default", "null", "not", "key", "primary", "foreign", "references", "unique", "change", "set", "dbo", "public":
		default:
			names[w] = true
		}
	}
	for _, w := range strings.FieldsFunc(strings.ToLower(b), split) {
		if names[w] {
			return true
		}
	}
	return false
}
