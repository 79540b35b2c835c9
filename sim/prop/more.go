package prop

import (
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strings"

	"verifsim/gen"
	"verifsim/kern"
	"verifsim/scen"
)

// schedules makes a schedule: uniform, or long runs with a few switches.
func schedule(r *rand.Rand, n int) []int {
	o := make([]int, n)
	switch r.Intn(3) {
	case 0:
		for i := range o {
			o[i] = r.Intn(6)
		}
	default:
		cur := r.Intn(6)
		for i := range o {
			if r.Intn(3+r.Intn(30)) == 0 {
				cur = r.Intn(6)
			}
			o[i] = cur
		}
	}
	return o
}

func init() {
	reg(&Prop{ID: "C14", Dialects: dialects, Level: "exploration",
		Gen: func(r *rand.Rand, d string) *Scenario {
			sc := &Scenario{Hist: pair(r, d, false), MapSeed: r.Uint64() >> 1, OrdSeed: r.Uint64()>>1 | 1, Procs: 2 + r.Intn(2), X: map[string]string{"mode": "same"}}
			if r.Intn(3) == 0 {
				sc.X["mode"] = "readers"
			}
			return sc
		},
		Variants: func(l *Lab, r *rand.Rand, max int) []*Scenario {
			var vs []*Scenario
			n := len(l.Base().W.Trace)
			for i := 0; i < max; i++ {
				v := l.Sc.clone()
				v.Choices = schedule(r, n*v.Procs)
				if r.Intn(3) == 0 {
					k := []string{"kill", "killack", "drop", "dropack", "err"}[r.Intn(5)]
					v.Faults = []kern.Fault{{Proc: r.Intn(v.Procs), Op: r.Intn(n + 1), Kind: k, Arg: r.Intn(1000)}}
				}
				vs = append(vs, v)
			}
			return vs
		},
		Judge: judgeConcurrent, MaxVar: 24, Quick: 2000, Thorough: 48000,
		Rule: "two or three runs of the command at once against one server (all applying the same schema, or one applying and the others exporting or dry-running), interleaved operation by operation under a seeded schedule, a third of them with one process crashing or losing its connection"})

	reg(&Prop{ID: "C15", Dialects: dialects, Level: "fault_enumeration",
		Gen: func(r *rand.Rand, d string) *Scenario {
			return &Scenario{Hist: shared(r, d), Rows: 1 + r.Intn(4), MapSeed: r.Uint64() >> 1, OrdSeed: r.Uint64()>>1 | 1}
		},
		Variants: func(l *Lab, r *rand.Rand, max int) []*Scenario {
			b := beginAt(l.Base().W.Trace)
			return withFaults(l, r, max, func(i int, e kern.Event, k string) bool { return i >= b && e.K != "stdout" })
		},
		Judge: judgeRows, MaxVar: 12, Quick: 9000, Thorough: 180000,
		Rule: "tables with rows, applied with and without a crash or failure at operations of the apply; rows of tables and columns that both schemas have are compared value by value"})

	reg(&Prop{ID: "C16", Dialects: dialects, Level: "exploration",
		Gen: func(r *rand.Rand, d string) *Scenario {
			g := newGen(r, d)
			for _, o := range exportOff[d] {
				g.Off[o] = true
			}
			h := makeHistory(g, 3, 3)
			if d == scen.PG && notExported(h) { // recorded: exported twice, or without the options
				h = g.History(3, 3)
			}
			sc := &Scenario{Hist: h, MapSeed: r.Uint64() >> 1, OrdSeed: r.Uint64()>>1 | 1, ByTool: true, X: map[string]string{"rows": fmt.Sprint(r.Intn(3))}}
			if r.Intn(2) == 0 {
				sc.ByTool, sc.Hist = false, h[2:]
			}
			return sc
		},
		Judge: judgeExport, Quick: 32000, Thorough: 480000,
		Rule: "schemas put in place directly or by the command itself are exported; the export is applied to the server it came from and to an empty one"})

	reg(&Prop{ID: "C17", Dialects: dialects, Level: "exploration",
		Gen: func(r *rand.Rand, d string) *Scenario {
			sc := &Scenario{Hist: pair(r, d, true), MapSeed: r.Uint64() >> 1, OrdSeed: r.Uint64()>>1 | 1}
			switch r.Intn(4) {
			case 0:
				sc.Flags = []string{"--export"}
			case 1:
				sc.Flags = []string{"--dry-run"}
			case 2:
				sc.Flags = []string{"--skip-drop"}
			}
			return sc
		},
		Variants: func(l *Lab, r *rand.Rand, max int) []*Scenario {
			vs := withFaults(l, r, max, func(i int, e kern.Event, k string) bool { return true })
			for i := 0; i < 3; i++ {
				vs = append(vs, l.Sc.clone())
			}
			for _, v := range vs {
				v.X = map[string]string{"map": fmt.Sprint(r.Uint32())}
			}
			return vs
		},
		Judge: judgeDeterministic, MaxVar: 6, Quick: 4800, Thorough: 90000,
		Rule: "the same run, faults included, repeated with other map iteration orders, other latencies and another clock"})

	reg(&Prop{ID: "C19", Dialects: dialects, Level: "exploration",
		Gen: genTarget,
		Variants: func(l *Lab, r *rand.Rand, max int) []*Scenario {
			vs := []*Scenario{l.Sc}
			n := l.Sc.clone()
			n.Faults = []kern.Fault{{Op: 0, Kind: "refuse"}}
			if l.Sc.X["prompt"] != "" {
				n.Faults[0].Op = 1 // the prompt comes before the connection
			}
			vs = append(vs, n)
			for i := 0; i < max; i++ {
				n := l.Sc.clone()
				n.Faults = []kern.Fault{{Op: r.Intn(12), Kind: []string{"badconn", "drop", "err"}[r.Intn(3)], Arg: r.Intn(1000)}}
				if l.Sc.Dialect == scen.SQLite {
					n.Faults[0].Kind, n.Faults[0].Arg = anyKind(r, l.Sc.Dialect), anyStep(r)
				}
				vs = append(vs, n)
			}
			return vs
		},
		Judge: judgeTarget, MaxVar: 3, Quick: 16000, Thorough: 240000,
		Rule: "users, passwords (from options and from the environment, with special characters), hosts, ports, sockets and database names in every option form; several databases on the server, connections refused and lost"})

	reg(&Prop{ID: "C20", Dialects: dialects, Level: "fault_enumeration",
		Gen: func(r *rand.Rand, d string) *Scenario {
			h := history(r, d, 3, 2)
			sc := &Scenario{Hist: h[1:], Other: h[0], Rows: r.Intn(3), MapSeed: r.Uint64() >> 1}
			// the catalogs keep their own order here: a shuffle of more rows is another shuffle
			if r.Intn(2) == 0 {
				sc.Other = history(r, d, 1, 2)[0]
			}
			switch r.Intn(6) {
			case 0:
				sc.Flags = []string{"--export"}
			case 1:
				sc.Flags = []string{"--dry-run"}
			}
			return sc
		},
		Variants: func(l *Lab, r *rand.Rand, max int) []*Scenario { return withFaults(l, r, max, any1) },
		Judge:    judgeIsolated, MaxVar: 8, Quick: 4200, Thorough: 90000,
		Rule: "a second database on the same server with tables, indexes, views and rows of the same or similar names, faults at operations of the run"})

	reg(&Prop{ID: "C21", Dialects: dialects, Level: "fault_enumeration",
		Gen: func(r *rand.Rand, d string) *Scenario {
			sc := &Scenario{Hist: pair(r, d, true), Rows: r.Intn(3), MapSeed: r.Uint64() >> 1, OrdSeed: r.Uint64()>>1 | 1, Stdin: r.Intn(2) == 0, Chunk: r.Intn(200)}
			switch r.Intn(5) {
			case 0:
				sc.Flags = []string{"--export"}
			case 1:
				sc.Flags = []string{"--dry-run"}
			case 2:
				sc.Flags = []string{"--skip-drop"}
			}
			return sc
		},
		Variants: func(l *Lab, r *rand.Rand, max int) []*Scenario {
			vs := withFaults(l, r, max, any1)
			// everything fails from some point on
			n := len(l.Base().W.Trace)
			for i := 0; i < 6; i++ {
				v := l.Sc.clone()
				from, k := r.Intn(n+1), []string{"err", "drop", "badconn", "dropack", "rowerr", "eio"}[r.Intn(6)]
				if l.Sc.Dialect == scen.SQLite {
					k = []string{"err", "disk-ioerr", "disk-full", "disk-busy", "rowerr", "eio"}[r.Intn(6)]
				}
				arg := r.Intn(24) + kern.RowSteps*r.Intn(4)
				if i >= 3 { // always the same error
					k = "err"
				}
				for j := from; j < from+3*n+100; j++ {
					if i < 3 {
						arg = r.Intn(8) + kern.RowSteps*r.Intn(4)
					}
					v.Faults = append(v.Faults, kern.Fault{Op: j, Kind: k, Arg: arg})
				}
				vs = append(vs, v)
			}
			return vs
		},
		Judge: judgeEnds, MaxVar: 30, Quick: 2700, Thorough: 36000,
		Rule: "every kind of run with a fault at every operation, two faults, and every operation failing from some point on"})
}

// exportOff is what the recorded findings on exports are about.
var exportOff = map[string][]string{
	scen.PG: {"seqopts"},
}

var comments = regexp.MustCompile(`(?m)^--.*$|(?s)/\*.*?\*/`)

func sortedStmts(s string) string {
	var o []string
	s = comments.ReplaceAllString(s, "") // SQL Server keeps the comment before a statement
	for _, x := range strings.Split(s, ";\n") {
		x = strings.TrimSpace(x)
		if w := strings.Fields(x); len(w) > 2 && strings.EqualFold(w[0]+w[1], "createtrigger") {
			continue // SQL Server keeps the text, and the command writes its own
		}
		// constraints may come in any order
		var rest, cons []string
		for _, ln := range strings.Split(strings.TrimSpace(x), "\n") {
			ln = strings.TrimSuffix(ln, ",")
			if strings.HasPrefix(strings.TrimSpace(ln), "CONSTRAINT ") {
				cons = append(cons, ln)
			} else {
				rest = append(rest, ln)
			}
		}
		sort.Strings(cons)
		o = append(o, strings.Join(append(rest, cons...), "\n"))
	}
	sort.Strings(o)
	return strings.Join(o, "\n")
}

// tableRe reads a table's name: the default schema left out, any other kept, quotes removed.
const tableRe = "(?:[`\"\\[]?(?:public|dbo)[`\"\\]]?\\.)?((?:[`\"\\[]?\\w+[`\"\\]]?\\.)?[`\"\\[]?\\w+)"

var unquote = strings.NewReplacer("`", "", `"`, "", "[", "", "]", "")

var (
	createRe = regexp.MustCompile("(?i)CREATE TABLE " + tableRe)
	refRe    = regexp.MustCompile("(?i)REFERENCES " + tableRe)
)

// forward: the export mentions a table as a foreign key's target before it creates it.
func forward(text string) bool {
	seen := map[string]bool{}
	for _, s := range strings.Split(text, ";\n") {
		for _, m := range createRe.FindAllStringSubmatch(s, -1) {
			seen[unquote.Replace(m[1])] = true
		}
		for _, m := range refRe.FindAllStringSubmatch(s, -1) {
			if !seen[unquote.Replace(m[1])] {
				return true
			}
		}
	}
	return false
}

// judgeConcurrent runs several commands at once.
func judgeConcurrent(l *Lab, sc *Scenario) (*Violation, error) {
	want, err := fresh(sc.Dialect, sc.Hist[len(sc.Hist)-1], sc.Setup)
	if err != nil {
		return nil, skip("desired schema refused by an empty server: %v", err)
	}
	start := l.In.Srv.State(l.db(), false)
	b := l.Base()
	if b.P.ExitCode != 0 || b.Struct != want {
		return nil, skip("not applied even when alone (convergence is C05-C08)")
	}
	l.Reset()
	calls := []scen.Call{l.call()}
	for i := 1; i < sc.Procs; i++ {
		c := l.call()
		if sc.X["mode"] == "readers" {
			c.Flags = []string{"--dry-run"}
			if i == 2 {
				c.Flags = []string{"--export"}
				c.NoSchema = true
			}
		}
		calls = append(calls, c)
	}
	o := l.Run(scen.RunOpt{Faults: sc.Faults, Choices: sc.Choices}, calls...)
	if v := ended(o); v != nil {
		return v, nil
	}
	ok, wrote := 0, 0
	for _, p := range o.W.Procs {
		reader := sc.X["mode"] == "readers" && p.ID > 0
		var done, began bool
		for _, e := range o.W.Trace {
			if e.P != p.ID {
				continue
			}
			switch e.K {
			case "begin":
				began = true
			case "commit":
				done = e.Done && e.Err == ""
			}
			if reader && e.Mut {
				return vio("reader-wrote", "process %d, a reader, sent %s", p.ID, e.T), nil
			}
		}
		if p.Killed {
			continue
		}
		if p.ExitCode != 0 {
			if strings.TrimSpace(p.Stderr.String()) == "" {
				return vio("silent", "process %d: exit status %d without a message", p.ID, p.ExitCode), nil
			}
			continue
		}
		if reader {
			continue
		}
		for _, e := range Execs(o.W, p.ID) {
			if !e.Done || e.Err != "" {
				return vio("lied", "process %d: exit status 0 although a statement failed: %s: %s", p.ID, e.T, e.Err), nil
			}
			wrote++
		}
		if began && !done {
			return vio("lied", "process %d: exit status 0 although its transaction was not committed", p.ID), nil
		}
		ok++
	}
	if sc.X["mode"] == "readers" && len(sc.Faults) == 0 {
		if o.W.Procs[0].ExitCode != 0 {
			return vio("disturbed", "readers made the apply fail: %s", o.W.Procs[0].Stderr.String()), nil
		}
		if o.Struct != want {
			return vio("disturbed", "with readers around the apply reports success without reaching the desired schema\n--- desired\n%s\n--- server has\n%s", want, o.Struct), nil
		}
	}
	if ok > 0 && o.Struct != want && trans(sc.Dialect) {
		return vio("state", "a run reported success but the schema is not the desired one\n--- desired\n%s\n--- server has\n%s", want, o.Struct), nil
	}
	if trans(sc.Dialect) && o.Struct != want && o.Struct != start {
		return vio("mixed", "concurrent runs left a schema that is neither the old nor the desired one\n--- old\n%s\n--- desired\n%s\n--- server has\n%s", start, want, o.Struct), nil
	}
	mid := o.Struct
	o = l.Run(scen.RunOpt{}, l.call())
	if v := ended(o); v != nil {
		return v, nil
	}
	if o.P.ExitCode != 0 || o.Struct != want {
		return vio("stuck", "after concurrent runs a run alone does not reach the desired schema: exit %d %s\n--- before\n%s\n--- desired\n%s\n--- server has\n%s", o.P.ExitCode, o.P.Stderr.String(), mid, want, o.Struct), nil
	}
	o = l.Run(scen.RunOpt{}, l.call())
	if o.P.ExitCode != 0 || o.P.Stdout.String() != nothing {
		return vio("rerun", "after concurrent runs and a run alone another one is not a no-op: %s%s", o.P.Stdout.String(), o.P.Stderr.String()), nil
	}
	return nil, nil
}

func trans(d string) bool { return d != scen.MySQL }

// judgeRows: rows survive.
func judgeRows(l *Lab, sc *Scenario) (*Violation, error) {
	in := scen.NewInst(sc.Dialect)
	for _, x := range sc.Setup {
		in.Srv.Admin(l.db(), x)
	}
	if err := in.Srv.Admin(l.db(), sc.Hist[len(sc.Hist)-1].SQL()); err != nil {
		return nil, skip("desired schema refused by an empty server: %v", err)
	}
	want := in.Srv.Data(l.db())
	before := l.In.Srv.Data(l.db())
	for t, x := range before {
		for c, v := range x.Cols {
			before[t].Cols[c] = append([]string{}, v...)
		}
	}
	o := l.Run(scen.RunOpt{Faults: sc.Faults}, l.call())
	if v := ended(o); v != nil {
		return v, nil
	}
	after := l.In.Srv.Data(l.db())
	n := 0
	for _, t := range sortedData(before) {
		w, both := want[t]
		if !both {
			continue
		}
		if _, ok := after[t]; !ok {
			return vio("table", "table %s is in both schemas and is gone", t), nil
		}
		for _, c := range sortedCols(before[t].Cols) {
			if _, ok := w.Cols[c]; !ok {
				continue
			}
			if _, ok := after[t].Cols[c]; !ok {
				return vio("column", "column %s.%s is in both schemas and is gone", t, c), nil
			}
			n++
		}
	}
	if n == 0 {
		return nil, skip("nothing in common")
	}
	return kept(before, after, func(t, c string) bool {
		w, ok := want[t]
		if !ok {
			return false
		}
		_, ok = w.Cols[c]
		return ok
	}), nil
}

// judgeExport: what is exported describes the schema.
func judgeExport(l *Lab, sc *Scenario) (*Violation, error) {
	if sc.ByTool {
		for i := range sc.Hist {
			if o := l.Run(scen.RunOpt{}, scen.Call{Schema: sc.Hist[i].SQL()}); o.P.ExitCode != 0 {
				return nil, skip("could not be applied (convergence is C05-C08)")
			}
		}
	} else if err := l.In.Srv.Admin(l.db(), l.desired()); err != nil {
		return nil, skip("schema refused by an empty server: %v", err)
	}
	nrows := 0
	fmt.Sscan(sc.X["rows"], &nrows)
	l.In.Srv.Seed(l.db(), nrows)
	have, rows := l.In.Srv.State(l.db(), false), l.In.Srv.State(l.db(), true)
	cols := columnsInOrder(l)
	o := l.Run(scen.RunOpt{}, scen.Call{Flags: []string{"--export"}, NoSchema: true})
	if v := ended(o); v != nil {
		return v, nil
	}
	if o.P.ExitCode != 0 {
		return vio("export", "the schema cannot be exported: %s\n%s", o.P.Stderr.String(), have), nil
	}
	if o.State != rows {
		return vio("changed", "an export changed the database"), nil
	}
	text := o.P.Stdout.String()
	// onto itself
	o = l.Run(scen.RunOpt{MapSeed: sc.MapSeed + 3}, scen.Call{Schema: text})
	if v := ended(o); v != nil {
		return v, nil
	}
	if o.P.ExitCode != 0 {
		return vio("unreadable", "an export cannot be read back: %s\n--- export\n%s", o.P.Stderr.String(), text), nil
	}
	if o.P.Stdout.String() != nothing || o.State != rows {
		return vio("not-noop", "an export applied to the database it describes is not a no-op:\n%s\n--- export\n%s", o.P.Stdout.String(), text), nil
	}
	// onto an empty database
	if forward(text) && sc.X["forward"] == "" {
		if l.St != nil {
			l.St.Notes["not restored: a foreign key's target is exported later (recorded finding)"]++
		}
		return nil, nil
	}
	l.In.Srv.Restore(scen.NewInst(sc.Dialect).Srv.Save())
	for _, s := range sc.Setup {
		l.In.Srv.Admin(l.db(), s)
	}
	o = l.Run(scen.RunOpt{}, scen.Call{Schema: text})
	if v := ended(o); v != nil {
		return v, nil
	}
	if o.P.ExitCode != 0 {
		return vio("restore", "an export cannot be applied to an empty database: %s\n--- export\n%s", o.P.Stderr.String(), text), nil
	}
	if o.Struct != have {
		return vio("lossy", "an export applied to an empty database does not make the same schema\n--- exported from\n%s\n--- made\n%s\n--- export\n%s", have, o.Struct, text), nil
	}
	if c := columnsInOrder(l); c != cols {
		return vio("lossy", "an export applied to an empty database makes the columns in another order\n--- exported from\n%s\n--- made\n%s\n--- export\n%s", cols, c, text), nil
	}
	o2 := l.Run(scen.RunOpt{}, scen.Call{Flags: []string{"--export"}, NoSchema: true})
	if o2.P.Stdout.String() != text {
		if sortedStmts(text) == sortedStmts(o2.P.Stdout.String()) {
			return nil, nil // in another order, which the catalog does not settle
		}
		return vio("unstable", "an export of the restored schema differs\n--- first\n%s\n--- second\n%s", text, o2.P.Stdout.String()), nil
	}
	return nil, nil
}

// columnsInOrder lists the columns of every table as they come; PostgreSQL's
// and SQL Server's states leave the order out, as they cannot change it.
func columnsInOrder(l *Lab) string {
	db := l.In.Srv.DB(l.db())
	if db == nil {
		return ""
	}
	var o []string
	for _, t := range db.Tables {
		s := t.Schema + "." + t.Name + ":"
		for _, c := range t.Cols {
			s += " " + c.Name
		}
		o = append(o, s)
	}
	sort.Strings(o)
	return strings.Join(o, "\n")
}

// judgeDeterministic: only the inputs matter.
func judgeDeterministic(l *Lab, sc *Scenario) (*Violation, error) {
	var ms uint64
	fmt.Sscan(sc.X["map"], &ms)
	a := l.Run(scen.RunOpt{Faults: sc.Faults}, l.call())
	if v := ended(a); v != nil {
		return v, nil
	}
	l.Reset()
	b := l.Run(scen.RunOpt{Faults: sc.Faults, MapSeed: ms + 1, Seed: sc.Seed + ms + 5}, l.call())
	if v := ended(b); v != nil {
		return v, nil
	}
	if a.P.Stdout.String() != b.P.Stdout.String() {
		return vio("output", "the same run prints different things\n--- once\n%s\n--- again\n%s", a.P.Stdout.String(), b.P.Stdout.String()), nil
	}
	if a.P.ExitCode != b.P.ExitCode {
		return vio("exit", "the same run exits with %d and with %d", a.P.ExitCode, b.P.ExitCode), nil
	}
	if a.State != b.State {
		return vio("state", "the same run has different effects\n--- once\n%s\n--- again\n%s", a.State, b.State), nil
	}
	x, y := Execs(a.W, 0), Execs(b.W, 0)
	for i := range x {
		if i >= len(y) || x[i].T != y[i].T {
			return vio("statements", "the same run sends different statements: %s", x[i].T), nil
		}
	}
	if len(x) != len(y) {
		return vio("statements", "the same run sends different statements: %s", y[len(x)].T), nil
	}
	return nil, nil
}

// judgeIsolated: other databases neither change nor matter.
func judgeIsolated(l *Lab, sc *Scenario) (*Violation, error) {
	others := l.others()
	o := l.Run(scen.RunOpt{Faults: sc.Faults}, l.call())
	if v := ended(o); v != nil {
		return v, nil
	}
	if o.Others != others {
		return vio("others", "another database was changed\n--- before\n%s\n--- after\n%s", others, o.Others), nil
	}
	if sc.Other == nil {
		return nil, skip("no other database")
	}
	alone := sc.clone()
	alone.Other = nil
	al, err := NewLab(alone, l.St)
	if err != nil {
		return nil, err
	}
	x := al.Run(scen.RunOpt{Faults: sc.Faults}, al.call())
	if x.P.Stdout.String() != o.P.Stdout.String() {
		return vio("leak", "another database on the server changes the output\n--- alone\n%s%s\n--- with it\n%s%s", x.P.Stdout.String(), x.P.Stderr.String(), o.P.Stdout.String(), o.P.Stderr.String()), nil
	}
	if x.State != o.State {
		return vio("leak", "another database on the server changes the result\n--- alone\n%s\n--- with it\n%s", x.State, o.State), nil
	}
	return nil, nil
}

// judgeEnds: whatever fails, the run ends by itself, with a status, soon.
func judgeEnds(l *Lab, sc *Scenario) (*Violation, error) {
	b, v := quietBase(l)
	if v != nil {
		return v, nil
	}
	o := b
	if len(sc.Faults) > 0 {
		o = l.Run(scen.RunOpt{Faults: sc.Faults}, l.call())
	}
	if v := ended(o); v != nil {
		return v, nil
	}
	if o.P.Killed {
		return nil, nil
	}
	if n, m := o.P.Ops(), 3*b.P.Ops()+60; n > m {
		return vio("endless", "%d operations where a run without faults takes %d", n, b.P.Ops()), nil
	}
	if c := o.P.ExitCode; c != 0 && c != 1 {
		return vio("status", "exit status %d", c), nil
	}
	// nothing was left open: no transaction neither committed nor rolled back, unless its connection or process is gone
	return nil, nil
}

// connection targets

var weird = []string{"p@ss", "a:b", "x/y", "a b", "q?z=1", "100%", "a#b", "&x=1", "'q'", "\"", "\\", "ü", "+", "a+b", "%41", "$HOME", ";", "=", "app", "", "[x]", "tcp(h:1)"}

func genTarget(r *rand.Rand, d string) *Scenario {
	g := newGen(r, d)
	g.Off["view"] = true // a view's text names its database
	sc := &Scenario{Hist: []gen.Schema{{}, g.History(1, 1)[0]}, MapSeed: r.Uint64() >> 1, X: map[string]string{}}
	x := sc.X
	ch := func(a ...string) string { return a[r.Intn(len(a))] }
	if r.Intn(8) == 0 { // a command line that names nothing to connect to
		x["bad"] = ch("nodb", "twodb", "unknown", "help", "version")
		if d != scen.SQLite {
			x["bad"] = ch(x["bad"], x["bad"], "port", "noterm")
			if x["bad"] == "port" {
				x["badport"] = ch("x", "-1", "", "1x", "3306.0", " 1")
			}
		}
	}
	if d == scen.SQLite {
		x["db"] = ch("app", "app2", "App", "other_db", "app.db", "a", "app-x", "my db", "a%41", "h#1", "a&b", "a+b", "sub/app", "app.sql", "'q'", "ü", "[x]", "-", "1")
		x["form"] = fmt.Sprint(r.Intn(1 << 10))
		x["flag"] = ch("", "--export", "--dry-run")
		return sc
	}
	if r.Intn(4) > 0 {
		x["user"] = ch("alice", "deploy", "u1", "svc_user", "a.b")
		if r.Intn(3) == 0 {
			x["user"] = "u" + ch("-x", "@corp", " y", "+z", "%41", ":k")
			if d == scen.MySQL && strings.ContainsAny(x["user"], ":") {
				x["user"] = "u.k" // the driver's own DSN format ends the user at a colon
			}
		}
	}
	if r.Intn(3) > 0 {
		x["pass"] = ch(weird...) + ch("", "s3cret", "x")
	}
	if r.Intn(4) == 0 {
		x["env"] = ch(weird...)
		x["hasenv"] = "1"
	}
	if r.Intn(5) == 0 {
		x["prompt"], x["typed"] = "1", ch(weird...)+ch("", "t1ped")
	}
	if r.Intn(3) > 0 {
		x["host"] = ch("db1.example.com", "10.1.2.3", "localhost", "db-2")
	}
	if r.Intn(2) == 0 {
		x["port"] = ch("1", "3306", "5432", "1433", "15000", "65535")
	}
	if d == scen.MySQL && r.Intn(3) == 0 {
		x["socket"] = ch("/tmp/mysql.sock", "/var/run/my sql/s.sock", "/s")
	}
	if d == scen.PG && r.Intn(5) == 0 {
		x["host"] = ch("/tmp", "/var", "/dev/shm")
	}
	if d == scen.PG && r.Intn(3) == 0 {
		x["sslmode"] = ch("disable", "require", "verify-full")
	}
	if d == scen.PG && r.Intn(5) == 0 {
		x["sslrootcert"] = ch("/etc/ssl/ca.pem", "/a b/root.crt", "/x&y=1/r", "root+ca.pem", "/p%41")
	}
	if strings.HasPrefix(x["pass"], "\"") {
		x["pass"] = "p" + x["pass"] // the option parser reads a leading quote itself
	}
	x["db"] = ch("app", "app2", "App", "other_db", "app_test", "a", "app-x")
	if d == scen.PG && r.Intn(4) == 0 {
		x["db"] = ch("my db", "a%41", "q?x=1", "h#1", "a&b", "a+b", "sl/ash")
	}
	x["form"] = fmt.Sprint(r.Intn(1 << 10))
	switch r.Intn(3) {
	case 0:
		x["flag"] = "--export"
	case 1:
		x["flag"] = "--dry-run"
	}
	return sc
}

func judgeTarget(l *Lab, sc *Scenario) (*Violation, error) {
	x := sc.X
	var form int
	fmt.Sscan(x["form"], &form)
	names := []string{"app", "app2", "App", "other_db", "app_test", "a", "app-x", x["db"], "tmp/" + x["db"], "x"}
	seen := map[string]bool{}
	for _, n := range names {
		if !seen[n] {
			seen[n] = true
			l.In.Srv.CreateDB(n)
		}
	}
	type opt struct{ short, long, key string }
	var opts []opt
	want := kern.Target{DB: x["db"], Net: "tcp"}
	env := map[string]string{}
	evar := ""
	host, port := "127.0.0.1", ""
	switch sc.Dialect {
	case scen.MySQL:
		opts = []opt{{"-u", "--user", "user"}, {"-p", "--password", "pass"}, {"-h", "--host", "host"}, {"-P", "--port", "port"}, {"-S", "--socket", "socket"}}
		want.Driver, want.User, port, evar = "mysql", "root", "3306", "MYSQL_PWD"
	case scen.PG:
		opts = []opt{{"-U", "--user", "user"}, {"-W", "--password", "pass"}, {"-h", "--host", "host"}, {"-p", "--port", "port"}}
		want.Driver, want.User, port, evar = "postgres", "postgres", "5432", "PGPASSWORD"
		if s := x["sslmode"]; s != "" {
			env["PGSSLMODE"] = s
		}
		if s := x["sslrootcert"]; s != "" {
			env["PGSSLROOTCERT"] = s
		}
	case scen.MSSQL:
		opts = []opt{{"-U", "--user", "user"}, {"-P", "--password", "pass"}, {"-h", "--host", "host"}, {"-p", "--port", "port"}}
		want.Driver, want.User, port, evar = "sqlserver", "sa", "1433", "MSSQL_PWD"
	case scen.SQLite: // a file is all there is to name
		want.Driver, want.Net = "sqlite3", ""
	}
	var args []string
	for i, o := range opts {
		v, ok := x[o.key]
		if !ok {
			continue
		}
		switch {
		case form>>uint(2*i)&3 == 0 && v != "" && !strings.HasPrefix(v, "="):
			args = append(args, o.short+v)
		case form>>uint(2*i)&3 == 1:
			args = append(args, o.long+"="+v)
		default:
			if v == "" || strings.HasPrefix(v, "-") {
				args = append(args, o.long+"="+v)
			} else {
				args = append(args, o.long, v)
			}
		}
		switch o.key {
		case "user":
			want.User = v
		case "pass":
			want.Password = v
		case "host":
			host = v
		case "port":
			port = v
		}
	}
	if x["hasenv"] != "" {
		env[evar] = x["env"]
		want.Password = x["env"]
	}
	call := scen.Call{Schema: l.desired(), Env: env}
	if x["prompt"] != "" || x["bad"] == "noterm" {
		args = append(args, "--password-prompt")
		if x["bad"] != "noterm" {
			t := x["typed"]
			call.Typed, want.Password = &t, t
		}
	}
	if want.Addr = host + ":" + port; sc.Dialect == scen.SQLite {
		want.Addr = ""
	}
	if sc.Dialect == scen.MySQL && x["socket"] != "" {
		want.Net, want.Addr = "unix", x["socket"]
	}
	if sc.Dialect == scen.PG && strings.HasPrefix(host, "/") {
		want.Net, want.Addr = "unix", host+"/.s.PGSQL."+port
	}
	switch x["bad"] {
	case "twodb":
		args = append(args, names[form%5])
	case "unknown":
		args = append(args, []string{"--bogus", "-Z", "--databases=x", "--drop"}[form%4])
	case "help", "version":
		args = append(args, "--"+x["bad"])
	case "port":
		args = append(args, "--port="+x["badport"])
	}
	if x["bad"] == "nodb" || x["bad"] != "" && x["bad"] != "twodb" && form&256 != 0 {
	} else if form&512 != 0 {
		args = append([]string{x["db"]}, args...)
	} else {
		args = append(args, x["db"])
	}
	if x["flag"] != "" {
		args = append(args, x["flag"])
	}
	call.RawArgs = append(args, "--file", "{schema}")
	l.In.Srv.Account(want.User, want.Password)
	before := map[string]string{}
	for _, n := range l.In.Srv.Databases() {
		before[n] = l.In.Srv.State(n, true)
	}
	w, err := l.In.Run(scen.RunOpt{Seed: sc.Seed, MapSeed: sc.MapSeed, Faults: sc.Faults}, call)
	if err != nil {
		return nil, err
	}
	l.note(w)
	if l.St != nil {
		l.St.Runs++
		l.St.Hashes[w.TraceHash()] = true
		for _, f := range w.Procs[0].FaultsHit {
			l.St.Faults[f.Kind]++
		}
	}
	p := w.Procs[0]
	if v := ended(&Out{W: w, P: p}); v != nil {
		return v, nil
	}
	if b := x["bad"]; b != "" {
		for _, n := range l.In.Srv.Databases() {
			if s, ok := before[n]; !ok || l.In.Srv.State(n, true) != s {
				return vio("bad-line", "%v changed database %s", args, n), nil
			}
		}
		for _, e := range w.Trace {
			if e.K == "connect" {
				return vio("bad-line", "%v connects: %s", args, e.T), nil
			}
		}
		if help := b == "help" || b == "version"; !p.Killed && len(p.FaultsHit) == 0 && (p.ExitCode == 0) != help {
			return vio("bad-line", "%v: exit status %d", args, p.ExitCode), nil
		}
		if b == "help" && p.Stdout.Len() == 0 && len(p.FaultsHit) == 0 {
			return vio("bad-line", "%v prints nothing", args), nil
		}
		return nil, nil
	}
	if len(w.Targets) == 0 && !p.Killed {
		return vio("no-connection", "%v: the command did not connect to anything: exit %d %s", args, p.ExitCode, p.Stderr.String()), nil
	}
	for _, t := range w.Targets {
		ok := t.Driver == want.Driver && t.Net == want.Net && t.Addr == want.Addr && t.User == want.User && t.Password == want.Password && t.DB == want.DB
		if ok && sc.Dialect == scen.PG && x["sslmode"] != "" && t.Extra["sslmode"] != x["sslmode"] {
			ok = false
		}
		if ok && sc.Dialect == scen.PG && t.Extra["sslrootcert"] != x["sslrootcert"] {
			ok = false
		}
		if !ok {
			return vio("target", "%v with environment %v connects to\n%s\nbut was asked for\n%s", args, env, t, want), nil
		}
	}
	dbs := l.In.Srv.Databases()
	sort.Strings(dbs)
	for _, n := range dbs {
		if n != x["db"] && l.In.Srv.State(n, true) != before[n] {
			return vio("wrong-db", "%v changed database %s", args, n), nil
		}
	}
	if len(sc.Faults) > 0 && sc.Faults[0].Kind == "refuse" && p.ExitCode == 0 {
		return vio("lied", "%v: exit status 0 although the connection was refused", args), nil
	}
	if len(sc.Faults) == 0 && p.ExitCode != 0 {
		return vio("fail", "%v: exit status %d: %s", args, p.ExitCode, p.Stderr.String()), nil
	}
	return nil, nil
}
