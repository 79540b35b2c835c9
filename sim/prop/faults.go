package prop

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"strings"

	"verifsim/gen"
	"verifsim/kern"
	"verifsim/scen"
)

// kindsFor lists the faults that can strike one seam operation.
var kindsFor = map[string][]string{
	"connect": {"refuse", "err", "kill", "killack"},
	"query":   {"err", "drop", "dropack", "rowerr", "badconn", "kill", "killack"},
	"exec":    {"err", "drop", "dropack", "badconn", "kill", "killack"},
	"begin":   {"err", "drop", "badconn", "kill", "killack"},
	"commit":  {"err", "drop", "dropack", "badconn", "kill", "killack"},
	"read":    {"eio", "short", "kill"},
	"stdout":  {"kill", "killack", "enospc"},
	"ping":    {"err", "drop", "kill"},
}

// retried faults are those database/sql hides by trying again.
func tolerated(k string) bool {
	return k == "badconn" || k == "short" || k == "enospc" || k == "disk-busy"
}

// onDisk are the faults of a database that is a file.
var onDisk = []string{"disk-ioerr", "disk-full", "disk-power", "disk-busy"}

// kinds are the faults that can strike an operation: an embedded database has
// no network but a disk.
func kinds(d, op string) (o []string) {
	if d != scen.SQLite {
		return kindsFor[op]
	}
	for _, k := range kindsFor[op] {
		if k != "drop" && k != "dropack" && k != "badconn" {
			o = append(o, k)
		}
	}
	return
}

// vary draws which of the possible errors it is.
func vary(e kern.Event, i, n int) int {
	h := fnv.New32a()
	fmt.Fprint(h, e.K, e.T, i, n)
	return int(h.Sum32() % 1000)
}

// points enumerates every single fault of the fault-free run that keep accepts.
func points(d string, tr []kern.Event, keep func(i int, e kern.Event, kind string) bool) (o []kern.Fault) {
	for i, e := range tr {
		if e.N < 0 {
			continue
		}
		for step := 0; step < e.Disk; step++ {
			for _, k := range onDisk {
				if !keep(i, e, k) {
					continue
				}
				// what is lost is drawn from the step
				o = append(o, kern.Fault{Proc: e.P, Op: e.N, Kind: k, Arg: step + kern.DiskSteps*((step*7+i*13+len(tr))%97)})
			}
		}
		for _, k := range kinds(d, e.K) {
			if !keep(i, e, k) {
				continue
			}
			f := kern.Fault{Proc: e.P, Op: e.N, Kind: k}
			if k == "rowerr" {
				at := []int{0}
				if e.Rows > 0 {
					at = append(at, e.Rows) // after the last row
				}
				if e.Rows > 1 {
					at = append(at, e.Rows/2)
				}
				for j, n := range at {
					// half of them by a lost connection, the others by an error
					f.Arg = n
					if v := vary(e, i+j, len(tr)); v%2 > 0 {
						f.Arg += kern.RowSteps * (1 + v/2%50)
					}
					o = append(o, f)
				}
				continue
			}
			if k == "err" {
				f.Arg = vary(e, i, len(tr))
			}
			o = append(o, f)
		}
	}
	return
}

// spread picks at most max of the fault points: everything if that fits, and
// otherwise a sample over all of the run with every kind in it.
func spread(r *rand.Rand, f []kern.Fault, max int) []kern.Fault {
	if len(f) <= max {
		return f
	}
	by := map[string][]kern.Fault{}
	var names []string
	for _, x := range f {
		if by[x.Kind] == nil {
			names = append(names, x.Kind)
		}
		by[x.Kind] = append(by[x.Kind], x)
	}
	var o []kern.Fault
	for len(o) < max {
		n := names[r.Intn(len(names))]
		if len(by[n]) == 0 {
			continue
		}
		k := r.Intn(len(by[n]))
		o = append(o, by[n][k])
		by[n] = append(by[n][:k:k], by[n][k+1:]...)
	}
	return o
}

// withFaults makes one scenario per single fault, the fault-free one first,
// and some with two faults.
func withFaults(l *Lab, r *rand.Rand, max int, keep func(i int, e kern.Event, kind string) bool) []*Scenario {
	base := l.Base()
	vs := []*Scenario{l.Sc}
	fs := points(l.Sc.Dialect, base.W.Trace, keep)
	for _, f := range spread(r, fs, max-1) {
		v := l.Sc.clone()
		v.Faults = []kern.Fault{f}
		vs = append(vs, v)
	}
	// a tolerated fault first, then another: the second run of an operation
	if len(fs) > 1 {
		for i := 0; i < max/8; i++ {
			a, b := fs[r.Intn(len(fs))], fs[r.Intn(len(fs))]
			if !tolerated(a.Kind) {
				continue
			}
			b.Op = a.Op + 1 + r.Intn(4)
			v := l.Sc.clone()
			v.Faults = []kern.Fault{a, b}
			vs = append(vs, v)
		}
	}
	return vs
}

func any1(i int, e kern.Event, k string) bool { return true }

// beginAt is where the run's first transaction or mutating statement starts.
func beginAt(tr []kern.Event) int {
	for i, e := range tr {
		if e.K == "begin" || e.K == "exec" || e.Mut {
			return i
		}
	}
	return len(tr)
}

// pair makes a starting schema and a desired one some edits away from it.
func pair(r *rand.Rand, d string, big bool) []gen.Schema {
	edits := 1 + r.Intn(4)
	if big && r.Intn(4) == 0 {
		edits = 8 + r.Intn(40)
	}
	h := history(r, d, 2, edits)
	switch r.Intn(8) {
	case 0:
		h = []gen.Schema{{}, h[1]} // into an empty database
	case 1:
		if d != scen.MySQL && d != scen.PG { // dropping referenced tables is a recorded finding
			h = []gen.Schema{h[0], {}}
		}
	}
	return h
}

// shared is a pair that has tables in common, most often.
func shared(r *rand.Rand, d string) []gen.Schema {
	g := newGen(r, d)
	g.Data = true
	edits := 1 + r.Intn(5)
	if r.Intn(4) == 0 {
		edits = 8 + r.Intn(30)
	}
	return makeHistory(g, 2, edits)
}

var both = []string{scen.MySQL, scen.PG}

// anyKind is a fault for an operation that is not known beforehand.
func anyKind(r *rand.Rand, d string) string {
	k := []string{"kill", "killack", "drop", "dropack", "err"}
	if d == scen.SQLite {
		k = []string{"kill", "killack", "disk-power", "disk-power", "disk-ioerr", "disk-full", "err"}
	}
	return k[r.Intn(len(k))]
}

func anyStep(r *rand.Rand) int { return r.Intn(12) + kern.DiskSteps*r.Intn(1000) }

func ended(o *Out) *Violation {
	for _, p := range o.W.Procs {
		if p.Panic != "" {
			return vio("panic", "the command panicked: %s", head(p.Panic))
		}
		if p.Hung {
			return vio("hang", "the command did not finish")
		}
	}
	return nil
}

func hasErr(o *Out, p int) bool {
	for _, e := range o.W.Trace {
		if e.P == p && e.Err != "" {
			return true
		}
	}
	return false
}

func committed(o *Out) (done, tried bool) {
	for _, e := range o.W.Trace {
		if e.K == "commit" {
			tried = true
			done = done || e.Done
		}
	}
	return
}

func quietBase(l *Lab) (*Out, *Violation) {
	b := l.Base()
	if v := ended(b); v != nil {
		return nil, v
	}
	return b, nil
}

func init() {
	flags := func(r *rand.Rand) []string {
		switch r.Intn(6) {
		case 0:
			return []string{"--skip-drop"}
		}
		return nil
	}
	applyGen := func(rows int, big bool) func(r *rand.Rand, d string) *Scenario {
		return func(r *rand.Rand, d string) *Scenario {
			sc := &Scenario{Hist: pair(r, d, big), Flags: flags(r), MapSeed: r.Uint64() >> 1, OrdSeed: r.Uint64()>>1 | 1}
			if rows > 0 && r.Intn(2) == 0 {
				sc.Rows = 1 + r.Intn(rows)
			}
			if r.Intn(3) == 0 {
				sc.Stdin = true
			}
			if r.Intn(3) == 0 {
				sc.Chunk = 1 + r.Intn(400)
			}
			return sc
		}
	}

	reg(&Prop{ID: "C01", Dialects: transactional, Level: "fault_enumeration",
		Gen: applyGen(3, true),
		Variants: func(l *Lab, r *rand.Rand, max int) []*Scenario {
			return withFaults(l, r, max, any1)
		},
		Judge: judgeAtomic, MaxVar: 40, Quick: 2000, Thorough: 48000,
		Rule: "starting schema, rows and desired schema from a seeded generator (plans of up to dozens of statements); the apply is run with a fault at every operation it performs (refused or failing statement, connection lost before or after the effect, kill before or after), sampled when there are more than the budget; non-trivial: judged run"})

	reg(&Prop{ID: "C02", Dialects: dialects, Level: "fault_enumeration",
		Gen: func(r *rand.Rand, d string) *Scenario {
			sc := applyGen(3, true)(r, d)
			switch r.Intn(8) {
			case 0:
				sc.Flags = []string{"--export"}
			case 1:
				sc.Flags = []string{"--dry-run"}
			}
			return sc
		},
		Variants: func(l *Lab, r *rand.Rand, max int) []*Scenario {
			return withFaults(l, r, max, func(i int, e kern.Event, k string) bool { return k != "kill" && k != "killack" && k != "disk-power" })
		},
		Judge: judgeHonest, MaxVar: 40, Quick: 2700, Thorough: 48000,
		Rule: "as C01 with dry runs and exports mixed in, every failure short of a kill at every operation"})

	reg(&Prop{ID: "C03", Dialects: dialects, Level: "fault_enumeration",
		Gen: applyGen(3, true),
		Variants: func(l *Lab, r *rand.Rand, max int) []*Scenario {
			b := beginAt(l.Base().W.Trace)
			return withFaults(l, r, max, func(i int, e kern.Event, k string) bool { return i >= b-2 })
		},
		Judge: judgeDiscipline, MaxVar: 30, Quick: 2400, Thorough: 36000,
		Rule: "as C01, faults at every operation from the start of the apply on; the order of outputs, statements and transaction boundaries is checked event by event"})

	reg(&Prop{ID: "C04", Dialects: dialects, Level: "fault_enumeration",
		Gen: func(r *rand.Rand, d string) *Scenario {
			return &Scenario{Hist: history(r, d, 2, 1+r.Intn(3)), MapSeed: r.Uint64() >> 1, OrdSeed: r.Uint64()>>1 | 1}
		},
		Variants: func(l *Lab, r *rand.Rand, max int) []*Scenario {
			base := l.Base()
			b := beginAt(base.W.Trace)
			fs := points(l.Sc.Dialect, base.W.Trace, func(i int, e kern.Event, k string) bool { return i >= b && !tolerated(k) })
			var vs []*Scenario
			for _, f := range spread(r, fs, max) {
				v := l.Sc.clone()
				v.Again = [][]kern.Fault{{f}}
				for n := r.Intn(3); n > 0; n-- {
					// and the runs after it are cut short as well
					v.Again = append(v.Again, []kern.Fault{{Op: r.Intn(len(base.W.Trace) + 2), Kind: anyKind(r, l.Sc.Dialect), Arg: anyStep(r)}})
				}
				vs = append(vs, v)
			}
			return vs
		},
		Judge: judgeRecover, MaxVar: 24, Quick: 1500, Thorough: 36000,
		Rule: "an apply cut short by a crash or failure at every operation from its transaction's start on, often followed by one or two more interrupted runs, then a run without faults, then another; non-trivial: the last two runs were judged"})

	roGen := func(r *rand.Rand, d string) *Scenario {
		sc := applyGen(3, true)(r, d)
		sc.Flags = [][]string{{"--dry-run"}, {"--export"}, {"--dry-run", "--skip-drop"}, {"--dry-run", "--export"}, {"--export", "--skip-drop"}}[r.Intn(5)]
		if r.Intn(2) == 0 {
			sc.Other = history(r, d, 1, 2)[0]
		}
		return sc
	}
	reg(&Prop{ID: "C09", Dialects: dialects, Level: "fault_enumeration", Gen: roGen,
		Variants: func(l *Lab, r *rand.Rand, max int) []*Scenario { return withFaults(l, r, max, any1) },
		Judge:    judgeReadOnly, MaxVar: 30, Quick: 3600, Thorough: 60000,
		Rule: "dry runs and exports, alone and combined with the other flags, with a fault at every operation"})

	reg(&Prop{ID: "C10", Dialects: dialects, Level: "exploration",
		Gen:   applyGen(3, true),
		Judge: judgeDryRun, Quick: 24000, Thorough: 400000,
		Rule: "a dry run and an apply from the same state, with different map iteration orders, read sizes and input channels"})

	reg(&Prop{ID: "C11", Dialects: dialects, Level: "fault_enumeration",
		Gen: func(r *rand.Rand, d string) *Scenario {
			sc := applyGen(3, true)(r, d)
			sc.Flags = []string{"--skip-drop"}
			return sc
		},
		Variants: func(l *Lab, r *rand.Rand, max int) []*Scenario {
			return withFaults(l, r, max, func(i int, e kern.Event, k string) bool { return e.K != "read" })
		},
		Judge: judgeSkipDrop, MaxVar: 12, Quick: 3600, Thorough: 60000,
		Rule: "schemas with tables, columns, indexes, keys, views and policies gone or changed, applied with --skip-drop, with faults"})

	reg(&Prop{ID: "C12", Dialects: dialects, Level: "fault_enumeration",
		Gen: func(r *rand.Rand, d string) *Scenario {
			sc := applyGen(2, false)(r, d)
			switch r.Intn(3) {
			case 0:
				sc.Flags = []string{"--export"}
			case 1:
				sc.Flags = append(sc.Flags, "--dry-run")
			}
			return sc
		},
		Variants: func(l *Lab, r *rand.Rand, max int) []*Scenario {
			b := beginAt(l.Base().W.Trace)
			return withFaults(l, r, max, func(i int, e kern.Event, k string) bool {
				return i < b && (e.K == "query" || e.K == "connect" || e.K == "ping")
			})
		},
		Judge: judgeIntrospect, MaxVar: 60, Quick: 1800, Thorough: 32000,
		Rule: "a fault at every catalog query and at every kind of place in its result (before, between and after the rows)"})

	reg(&Prop{ID: "C13", Dialects: dialects, Level: "fault_enumeration",
		Gen: func(r *rand.Rand, d string) *Scenario {
			sc := applyGen(2, false)(r, d)
			if r.Intn(5) == 0 {
				sc.Flags = []string{"--dry-run"}
			}
			return sc
		},
		Variants: func(l *Lab, r *rand.Rand, max int) []*Scenario {
			vs := []*Scenario{}
			add := func(k, v string) *Scenario {
				c := l.Sc.clone()
				c.X = map[string]string{k: v}
				vs = append(vs, c)
				return c
			}
			add("input", "missing")
			add("input", "device")
			for i := 0; i < 3; i++ {
				add("garbage", fmt.Sprint(r.Intn(len(garbage))))
				vs[len(vs)-1].X["at"] = fmt.Sprint(r.Intn(len(l.Sc.Hist[len(l.Sc.Hist)-1]) + 1))
			}
			for i := 0; i < 4; i++ {
				add("input", []string{"cut", "paren"}[i%2])
				vs[len(vs)-1].X["at"] = fmt.Sprint(r.Intn(100000))
			}
			for i := 0; i < 3; i++ {
				add("input", "other")
				v := vs[len(vs)-1]
				v.Chunk, v.Stdin = 1+r.Intn(60), r.Intn(2) == 0
			}
			for i := 0; i < 2; i++ {
				v := add("input", "large")
				v.X["at"] = fmt.Sprint(r.Intn(len(l.Sc.Hist[len(l.Sc.Hist)-1]) + 1))
				v.X["bytes"] = fmt.Sprint(1<<uint(8+r.Intn(13)) + r.Intn(5000) - 200)
				v.X["line"] = fmt.Sprint([]int{0, 80, 5000, 1 << 30}[r.Intn(4)])
				v.Chunk, v.Stdin = []int{0, 1000, 4096, 65536}[r.Intn(4)], r.Intn(2) == 0
			}
			fs := points(l.Sc.Dialect, l.Base().W.Trace, func(i int, e kern.Event, k string) bool { return e.K == "read" })
			for _, f := range spread(r, fs, max) {
				v := l.Sc.clone()
				v.Faults = []kern.Fault{f}
				vs = append(vs, v)
			}
			return vs
		},
		Judge: judgeInput, MaxVar: 12, Quick: 3000, Thorough: 48000,
		Rule: "schema input that cannot be read (I/O error after every read, missing file, a terminal) or parsed (garbage statements at every position), and input delivered in other ways (short reads of any size, standard input instead of a file) or among up to a megabyte of comments and empty lines"})
}

var dialects = []string{scen.MySQL, scen.PG, scen.MSSQL, scen.SQLite}
var transactional = []string{scen.PG, scen.MSSQL, scen.SQLite}

// judgeAtomic: all of the plan or none of it.
func judgeAtomic(l *Lab, sc *Scenario) (*Violation, error) {
	b, v := quietBase(l)
	if v != nil {
		return v, nil
	}
	if b.P.ExitCode != 0 && b.State != l.Old {
		return vio("partial", "a run that failed (%s) left part of its plan behind\n--- before\n%s\n--- after\n%s", strings.TrimSpace(b.P.Stderr.String()), l.Old, b.State), nil
	}
	if len(sc.Faults) == 0 {
		return nil, nil
	}
	o := l.Run(scen.RunOpt{Faults: sc.Faults}, l.call())
	if v := ended(o); v != nil {
		return v, nil
	}
	if o.State != l.Old && (b.P.ExitCode != 0 || o.State != b.State) {
		return vio("partial", "neither all nor nothing was applied (killed %v, exit %d)\n--- before\n%s\n--- complete\n%s\n--- after\n%s", o.P.Killed, o.P.ExitCode, l.Old, b.State, o.State), nil
	}
	done, _ := committed(o)
	if done && b.P.ExitCode == 0 && o.State != b.State {
		return vio("lost", "the transaction was committed but the schema is the old one"), nil
	}
	if !done && o.State != l.Old && !doubt(o) {
		return vio("early", "changes are there although the transaction was not committed\n--- before\n%s\n--- after\n%s", l.Old, o.State), nil
	}
	return nil, nil
}

// doubt: the power went while the commit was being written out.
func doubt(o *Out) bool {
	for _, e := range o.W.Trace {
		if e.K == "commit" && e.Fault == "disk-power" {
			return true
		}
	}
	return false
}

// judgeHonest: status 0 means it worked, anything else is explained.
func judgeHonest(l *Lab, sc *Scenario) (*Violation, error) {
	b, v := quietBase(l)
	if v != nil {
		return v, nil
	}
	o := b
	if len(sc.Faults) > 0 {
		o = l.Run(scen.RunOpt{Faults: sc.Faults}, l.call())
	}
	if v := ended(o); v != nil {
		return v, nil
	}
	if o.P.Killed {
		return nil, skip("killed")
	}
	if o.P.ExitCode != 0 {
		if strings.TrimSpace(o.P.Stderr.String()) == "" {
			return vio("silent", "exit status %d without a message\n%s", o.P.ExitCode, o.P.Stdout.String()), nil
		}
		if !hasErr(o, 0) && b.P.ExitCode == 0 {
			return vio("spurious", "exit status %d although nothing went wrong: %s", o.P.ExitCode, o.P.Stderr.String()), nil
		}
		return nil, nil
	}
	for _, e := range Execs(o.W, 0) {
		if !e.Done {
			return vio("lied", "exit status 0 although a statement failed: %s: %s", e.T, e.Err), nil
		}
	}
	if done, tried := committed(o); len(Execs(o.W, 0)) > 0 && (!tried || !done) {
		return vio("lied", "exit status 0 although the transaction was not committed"), nil
	}
	for _, e := range o.W.Trace {
		if e.K == "commit" && e.Err != "" {
			return vio("lied", "exit status 0 although the commit was not confirmed: %s", e.Err), nil
		}
	}
	if b.P.ExitCode != 0 {
		return vio("lied", "exit status 0 with faults where the run without faults fails: %s", b.P.Stderr.String()), nil
	}
	if o.State != b.State {
		return vio("lied", "exit status 0, but the schema is not what a run without faults makes of it\n--- without faults\n%s\n--- with\n%s", b.State, o.State), nil
	}
	if !o.P.StdoutFull && o.P.Stdout.String() != b.P.Stdout.String() {
		return vio("lied", "exit status 0, but the output is not that of a run without faults\n--- without faults\n%s\n--- with\n%s", b.P.Stdout.String(), o.P.Stdout.String()), nil
	}
	return nil, nil
}

// judgeDiscipline checks the apply event by event.
func judgeDiscipline(l *Lab, sc *Scenario) (*Violation, error) {
	b, v := quietBase(l)
	if v != nil {
		return v, nil
	}
	o := b
	if len(sc.Faults) > 0 {
		o = l.Run(scen.RunOpt{Faults: sc.Faults}, l.call())
		if v := ended(o); v != nil {
			return v, nil
		}
	}
	var plan []string
	for _, e := range Execs(b.W, 0) {
		plan = append(plan, e.T)
	}
	pos, sess, failed, over := 0, 0, "", false
	out := ""
	began := 0
	for _, e := range o.W.Trace {
		switch {
		case e.K == "stdout":
			if e.Done {
				out += e.T
			}
		case e.K == "begin":
			if e.Done && e.Err == "" { // an answer that is lost leaves the command without a transaction
				began++
			}
		case (e.K == "exec" || e.K == "query" && e.Mut) && e.Fault == "kill" && !e.Done:
			// killed before sending it
		case e.K == "exec" || e.K == "query" && e.Mut:
			switch {
			case failed != "":
				return vio("after-failure", "a statement was sent after %s: %s", failed, e.T), nil
			case over:
				return vio("after-end", "a statement was sent after the transaction's end: %s", e.T), nil
			case pos >= len(plan):
				return vio("extra", "a statement was sent beyond the plan: %s", e.T), nil
			case e.T != plan[pos]:
				return vio("order", "statement %d of the plan is\n%s\nbut what was sent is\n%s", pos, plan[pos], e.T), nil
			case !e.Tx || began == 0:
				return vio("no-tx", "a statement was sent outside the transaction: %s", e.T), nil
			case sess != 0 && e.Sess != sess:
				return vio("session", "the plan was spread over several connections"), nil
			case !o.P.StdoutFull && !strings.HasSuffix(out, e.T+";\n"):
				return vio("unprinted", "a statement was sent before it was printed: %s\n--- printed so far\n%s", e.T, out), nil
			}
			pos, sess = pos+1, e.Sess
			if e.Err != "" {
				failed = "statement " + e.T + " failed"
			}
		case e.K == "commit":
			if failed != "" {
				return vio("commit-after-failure", "the transaction was committed after %s", failed), nil
			}
			if pos != len(plan) {
				return vio("commit-early", "the transaction was committed after %d of %d statements", pos, len(plan)), nil
			}
			over = true
		case e.K == "rollback":
			over = true
		}
	}
	if began > 1 {
		return vio("transactions", "%d transactions in one run", began), nil
	}
	full := b.P.Stdout.String()
	if !o.P.StdoutFull && !strings.HasPrefix(full, o.P.Stdout.String()) {
		return vio("output", "the output is not the beginning of what a complete run prints\n--- complete\n%s\n--- printed\n%s", full, o.P.Stdout.String()), nil
	}
	if b.P.ExitCode == 0 && pos == len(plan) && failed == "" && !over && !o.P.Killed && !o.P.StdoutFull && began > 0 {
		return vio("open", "every statement succeeded but the transaction was left open"), nil
	}
	if failed != "" && !o.P.Killed && o.P.ExitCode == 0 {
		return vio("lied", "exit status 0 after %s", failed), nil
	}
	// what is printed, in full: the plan in order, skipped ones marked
	if len(sc.Faults) == 0 && len(plan) > 0 {
		rest := strings.TrimPrefix(full, "-- Apply --\n")
		k := 0
		for rest != "" {
			switch {
			case k < len(plan) && strings.HasPrefix(rest, plan[k]+";\n"):
				rest = rest[len(plan[k])+2:]
				k++
			case strings.HasPrefix(rest, "-- Skipped: "):
				i := strings.Index(rest, ";\n")
				if i < 0 {
					return vio("output", "unfinished output: %s", rest), nil
				}
				rest = rest[i+2:]
			default:
				return vio("output", "printed but not sent, or not in the order of sending:\n%s\n--- sent\n%s", rest, strings.Join(plan, "\n")), nil
			}
		}
		if k != len(plan) {
			return vio("unprinted", "a statement was sent but never printed: %s", plan[k]), nil
		}
	}
	return nil, nil
}

// judgeRecover: after any interruptions, one run that is left alone finishes
// the job and the next finds nothing to do.
func judgeRecover(l *Lab, sc *Scenario) (*Violation, error) {
	want, err := fresh(sc.Dialect, sc.Hist[len(sc.Hist)-1], sc.Setup)
	if err != nil {
		return nil, skip("desired schema refused by an empty server: %v", err)
	}
	check := func() error {
		return nil
	}
	if err := check(); err != nil {
		return nil, err
	}
	if b := l.Base(); b.P.ExitCode != 0 || b.Struct != want {
		return nil, skip("not applied even without interruptions (convergence is C05-C08)")
	}
	l.Reset()
	for _, f := range sc.Again {
		o := l.Run(scen.RunOpt{Faults: f}, l.call())
		if v := ended(o); v != nil {
			return v, nil
		}
		if err := check(); err != nil {
			return nil, err
		}
	}
	mid := l.In.Srv.State(l.db(), false)
	o := l.Run(scen.RunOpt{}, l.call())
	if v := ended(o); v != nil {
		return v, nil
	}
	if o.P.ExitCode != 0 {
		return vio("stuck", "after an interrupted run the schema cannot be applied any more: %s\n--- after the interruption\n%s\n--- desired\n%s", o.P.Stderr.String(), mid, want), nil
	}
	if o.Struct != want {
		return vio("diverged", "after an interrupted run another one reports success without reaching the desired schema\n--- after the interruption\n%s\n--- desired\n%s\n--- server has\n%s", mid, want, o.Struct), nil
	}
	o = l.Run(scen.RunOpt{}, l.call())
	if o.P.ExitCode != 0 || o.P.Stdout.String() != nothing {
		return vio("rerun", "the run after the recovery is not a no-op:\n%s%s", o.P.Stdout.String(), o.P.Stderr.String()), nil
	}
	return nil, nil
}

// judgeReadOnly: a dry run or export changes nothing whatever happens.
func judgeReadOnly(l *Lab, sc *Scenario) (*Violation, error) {
	others := l.others()
	o := l.Run(scen.RunOpt{Faults: sc.Faults}, l.call())
	if v := ended(o); v != nil {
		return v, nil
	}
	for _, e := range o.W.Trace {
		if e.Mut {
			return vio("mutation", "%v sent a statement that is not a plain read: %s", sc.Flags, e.T), nil
		}
	}
	if o.State != l.Old {
		return vio("changed", "%v changed the database\n--- before\n%s\n--- after\n%s", sc.Flags, l.Old, o.State), nil
	}
	if o.Others != others {
		return vio("others", "%v changed another database", sc.Flags), nil
	}
	return nil, nil
}

// judgeDryRun: what --dry-run shows is what an apply executes.
func judgeDryRun(l *Lab, sc *Scenario) (*Violation, error) {
	c := l.call()
	c.Flags = append([]string{"--dry-run"}, sc.Flags...)
	c.Stdin, c.Chunk = !sc.Stdin, 0
	dry := l.Run(scen.RunOpt{MapSeed: sc.MapSeed + 77}, c)
	if v := ended(dry); v != nil {
		return v, nil
	}
	l.Reset()
	b := l.Base()
	if v := ended(b); v != nil {
		return v, nil
	}
	d, a := dry.P.Stdout.String(), b.P.Stdout.String()
	if (d == nothing) != (a == nothing) {
		return vio("differs", "the dry run and the apply disagree on whether there is anything to do\n--- dry run\n%s\n--- apply\n%s", d, a), nil
	}
	if d == nothing {
		if len(Execs(b.W, 0)) > 0 {
			return vio("hidden", "statements were executed although there was nothing to do"), nil
		}
		return nil, nil
	}
	if dry.P.ExitCode != 0 {
		if b.P.ExitCode == 0 || len(Execs(b.W, 0)) > 0 {
			return vio("differs", "the dry run fails (%s) and the apply does not", strings.TrimSpace(dry.P.Stderr.String())), nil
		}
		return nil, nil
	}
	d = strings.TrimPrefix(d, "-- dry run --\n")
	a = strings.TrimPrefix(a, "-- Apply --\n")
	if b.P.ExitCode == 0 && a != d {
		return vio("differs", "the apply's plan is not the dry run's\n--- dry run\n%s\n--- apply\n%s", d, a), nil
	}
	if !strings.HasPrefix(d, a) {
		return vio("differs", "the apply's plan is not the dry run's\n--- dry run\n%s\n--- apply (which failed)\n%s", d, a), nil
	}
	// statements sent are those shown, in order, except the ones marked as skipped
	rest := d
	for _, e := range Execs(b.W, 0) {
		for strings.HasPrefix(rest, "-- Skipped: ") {
			rest = rest[strings.Index(rest, ";\n")+2:]
		}
		if !strings.HasPrefix(rest, e.T+";\n") {
			return vio("differs", "a statement was executed that the dry run does not show there: %s\n--- dry run\n%s", e.T, d), nil
		}
		rest = rest[len(e.T)+2:]
	}
	for strings.HasPrefix(rest, "-- Skipped: ") {
		rest = rest[strings.Index(rest, ";\n")+2:]
	}
	if b.P.ExitCode == 0 && rest != "" {
		return vio("differs", "shown by the dry run but not executed: %s", rest), nil
	}
	return nil, nil
}

// judgeSkipDrop: nothing is dropped, the rest happens.
func judgeSkipDrop(l *Lab, sc *Scenario) (*Violation, error) {
	objs := l.In.Srv.Objects(l.db())
	data := l.In.Srv.Data(l.db())
	// what the run would do without the flag
	c := l.call()
	c.Flags = []string{"--dry-run"}
	full := l.Run(scen.RunOpt{}, c)
	if v := ended(full); v != nil {
		return v, nil
	}
	l.Reset()
	o := l.Run(scen.RunOpt{Faults: sc.Faults}, l.call())
	if v := ended(o); v != nil {
		return v, nil
	}
	for _, e := range Execs(o.W, 0) {
		if scen.IsDrop(e.T) {
			return vio("dropped", "--skip-drop executed: %s", e.T), nil
		}
	}
	have := map[string]bool{}
	for _, x := range l.In.Srv.Objects(l.db()) {
		have[x] = true
	}
	for _, x := range objs {
		if !have[x] && !strings.HasPrefix(x, "check ") {
			return vio("gone", "--skip-drop: %s is gone", x), nil
		}
	}
	if v := kept(data, l.In.Srv.Data(l.db()), nil); v != nil {
		return v, nil
	}
	if full.P.ExitCode == 0 && full.P.Stdout.String() != nothing {
		plan := strings.TrimPrefix(full.P.Stdout.String(), "-- dry run --\n")
		rest := plan
		out := o.P.Stdout.String()
		shown := ""
		drops := func() { // the drops which come next
			for {
				s, after, ok := strings.Cut(rest, ";\n")
				if !ok || !scen.IsDrop(s) {
					return
				}
				if rest = after; shown == "" && !strings.Contains(out, "-- Skipped: "+s+";\n") {
					shown = s
				}
			}
		}
		for _, e := range Execs(o.W, 0) {
			drops()
			if !strings.HasPrefix(rest, e.T+";\n") {
				return vio("other", "with --skip-drop a statement was executed that is not the next of the plan without its drops: %s\n--- plan\n%s", e.T, plan), nil
			}
			rest = strings.TrimPrefix(rest, e.T+";\n")
		}
		drops()
		if o.P.ExitCode == 0 && !o.P.Killed && rest != "" {
			return vio("missing", "with --skip-drop this was not executed although it drops nothing: %s", rest), nil
		}
		if o.P.ExitCode == 0 && !o.P.Killed && !o.P.StdoutFull && shown != "" {
			return vio("unsaid", "with --skip-drop nothing says that this was left out: %s\n%s", shown, out), nil
		}
	}
	return nil, nil
}

// kept compares rows of tables and columns present on both sides.
func kept(a, b map[string]scen.Data, only func(t, c string) bool) *Violation {
	for _, t := range sortedData(a) {
		y, ok := b[t]
		if !ok {
			continue
		}
		x := a[t]
		if x.N != y.N {
			return vio("rows", "table %s had %d rows and has %d", t, x.N, y.N)
		}
		for _, c := range sortedCols(x.Cols) {
			w, ok := y.Cols[c]
			if !ok || only != nil && !only(t, c) {
				continue
			}
			if strings.Join(x.Cols[c], "\x00") != strings.Join(w, "\x00") {
				return vio("values", "the values of %s.%s were %q and are %q", t, c, x.Cols[c], w)
			}
		}
	}
	return nil
}

// judgeIntrospect: a catalog that cannot be read in full stops the run.
func judgeIntrospect(l *Lab, sc *Scenario) (*Violation, error) {
	b, v := quietBase(l)
	if v != nil {
		return v, nil
	}
	if len(sc.Faults) == 0 {
		return nil, nil
	}
	o := l.Run(scen.RunOpt{Faults: sc.Faults}, l.call())
	if v := ended(o); v != nil {
		return v, nil
	}
	if !o.P.Killed && o.P.Stdout.String() == b.P.Stdout.String() && o.State == b.State && o.P.ExitCode == b.P.ExitCode {
		// tried again, and read after all
		if b.P.ExitCode != 0 && b.P.Stderr.String() != o.P.Stderr.String() {
			return nil, skip("the run without faults fails the same way")
		}
		return nil, nil
	}
	for _, e := range o.W.Trace {
		if e.Fault != "" && e.K != "query" && e.K != "connect" && e.K != "ping" {
			return nil, skip("a second fault struck later")
		}
	}
	if o.P.ExitCode == 0 && !o.P.Killed {
		return vio("swallowed", "the catalog could not be read (%s) but the run went on\n--- output without the fault\n%s\n--- with\n%s", sc.Faults[0].Kind, b.P.Stdout.String(), o.P.Stdout.String()), nil
	}
	if m := Mutations(o.W); len(m) > 0 {
		return vio("went-on", "statements were sent although the catalog could not be read: %s", m[0].T), nil
	}
	if o.State != l.Old {
		return vio("changed", "the schema was changed although the catalog could not be read"), nil
	}
	if s := o.P.Stdout.String(); s != "" {
		return vio("output", "output although the catalog could not be read: %s", s), nil
	}
	return nil, nil
}

// garbage is what no schema may contain.
var garbage = []string{
	"CREATE TABEL zz (a int)",
	"CREATE TABLE zz (a int",
	"CREATE TABLE zz (a int,, b int)",
	"CREATE TABLE zz (a int) ) ",
	"CREATE TABLE zz (a int 'x)",
	"CREATE TABLE (a int)",
	"this is not SQL",
	"CREATE INDEX ON",
	"ALTER TABLE nosuchtable ADD INDEX zi (a)",
	"CREATE TABLE zz",
	"<<<<<<< HEAD",
	"SELECT * FROM",
	"INSERT INTO zz VALUES (1)",
	"DELETE FROM zz",
	"\x00\x01\x02",
	"DROP",
	"CREATE VIEW zz",
	"CREATE UNIQUE INDEX zi",
	"CREATE TRIGGER zt",
	"CREATE POLICY zp",
	"CREATE TABLE zz ()",
	"CREATE TABLE zz (a)",
	"CREATE TABLE zz (a int default)",
	"CREATE TABLE zz (a notatype)",
	"CREATE TABLE zz (a int not)",
	"CREATE TABLE zz (a int, primary key)",
	"CREATE TABLE zz (a int /* b int)",
	"CREATE TABLE zz (`a int)",
	"CREATE TABLE zz (\"a int)",
	"CREATE TABLE zz ([a int)",
	// statements of SQL that do not describe a schema
	"DROP TABLE zz",
	"DROP VIEW zz",
	"DROP INDEX zi ON zz",
	"SET NAMES utf8",
	"SET search_path TO app",
	"USE app",
	"GO",
	"DELIMITER //",
	"PRAGMA foreign_keys = ON",
	"TRUNCATE TABLE zz",
	"ALTER TABLE zz DROP COLUMN a",
	"ALTER TABLE zz ADD COLUMN a int",
	"ALTER TABLE zz RENAME TO yy",
	"RENAME TABLE zz TO yy",
	"BEGIN",
	"COMMIT",
	"START TRANSACTION",
	"GRANT ALL ON zz TO u",
	"UPDATE zz SET a = 1",
	"SELECT 1",
	"SHOW TABLES",
	"CREATE DATABASE zz",
	"CREATE USER u",
	"CREATE SEQUENCE zs",
	"CREATE EXTENSION citext",
	"COMMENT ON TABLE zz IS 'x'",
	"CREATE TABLE zz LIKE yy",
	"CREATE TABLE zz AS SELECT 1",
}

// unclosed: a quoted name, a string or a comment is begun and not ended.
func unclosed(s string) bool {
	for _, q := range []string{"'", "\"", "`", "[", "/*"} {
		if strings.Count(s, q)%2 == 1 {
			return true
		}
	}
	return false
}

// inside lists the places of a schema at which a parenthesis, a string, a quoted name or a comment
// is open, and those of the parentheses themselves.
func inside(d, s string) (open, parens []int) {
	depth := 0
	for i := 0; i < len(s); {
		end := ""
		switch c := s[i]; {
		case strings.HasPrefix(s[i:], "/*"):
			end = "*/"
		case strings.HasPrefix(s[i:], "--"):
			end = "\n"
		case c == '\'' || c == '"' || c == '`':
			end = string(c)
		case c == '[' && d == scen.MSSQL:
			end = "]"
		case c == '(':
			parens = append(parens, i)
			depth++
		case c == ')':
			parens = append(parens, i)
			depth--
		}
		if end == "" {
			i++
			if depth > 0 {
				open = append(open, i)
			}
			continue
		}
		j := i + 1
		if end == "*/" {
			j++
		}
		for j < len(s) && !strings.HasPrefix(s[j:], end) {
			if s[j] == '\\' && d == scen.MySQL && (end == "'" || end == "\"") {
				j++
			}
			j++
			if j <= len(s) && (depth > 0 || end != "\n") {
				open = append(open, j)
			}
		}
		i = j + len(end)
		if i > len(s) {
			i = len(s)
		}
	}
	return
}

func judgeInput(l *Lab, sc *Scenario) (*Violation, error) {
	if i, ok := sc.X["garbage"]; ok {
		var k, at int
		fmt.Sscan(i, &k)
		fmt.Sscan(sc.X["at"], &at)
		h := sc.Hist[len(sc.Hist)-1]
		if at > len(h) || unclosed(garbage[k]) {
			at = len(h) // what follows could close it
		}
		c := l.call()
		g := gen.Schema{{Head: garbage[k]}}
		c.Schema = append(append(append(gen.Schema{}, h[:at]...), g...), h[at:]...).SQL()
		o := l.Run(scen.RunOpt{}, c)
		if v := ended(o); v != nil {
			return v, nil
		}
		if o.P.ExitCode == 0 {
			return vio("accepted", "a desired schema containing %q was accepted:\n%s", garbage[k], o.P.Stdout.String()), nil
		}
		if strings.TrimSpace(o.P.Stderr.String()) == "" {
			return vio("silent", "a desired schema containing %q was refused without a message", garbage[k]), nil
		}
		if len(Mutations(o.W)) > 0 || o.State != l.Old {
			return vio("executed", "a desired schema containing %q was refused, but only after something was executed", garbage[k]), nil
		}
		return nil, nil
	}
	switch sc.X["input"] {
	case "cut", "paren":
		c := l.call()
		s := c.Schema
		open, parens := inside(sc.Dialect, s)
		if sc.X["input"] == "paren" {
			open = parens
		}
		if len(open) == 0 {
			return nil, skip("nowhere to cut")
		}
		var at int
		fmt.Sscan(sc.X["at"], &at)
		at = open[at%len(open)]
		if sc.X["input"] == "paren" {
			c.Schema = s[:at] + s[at+1:]
		} else {
			c.Schema = s[:at]
		}
		return refused(l, l.Run(scen.RunOpt{}, c), "it is cut off or mutilated:\n"+c.Schema)
	case "missing", "device":
		c := l.call()
		c.Stdin = false
		c.NoFile = sc.X["input"] == "missing"
		c.CharDev = !c.NoFile
		return refused(l, l.Run(scen.RunOpt{}, c), "there is no input ("+sc.X["input"]+")")
	case "large":
		var at, bytes, line int
		fmt.Sscan(sc.X["at"], &at)
		fmt.Sscan(sc.X["bytes"], &bytes)
		fmt.Sscan(sc.X["line"], &line)
		h := sc.Hist[len(sc.Hist)-1]
		if at > len(h) {
			at = len(h)
		}
		ref := sc.clone()
		ref.Chunk, ref.Stdin = 0, false
		l.Sc = ref
		l.Reset()
		a := l.Run(scen.RunOpt{}, l.call())
		l.Sc = sc
		l.Reset()
		c := l.call()
		c.Schema = h[:at].SQL() + "\n" + filler(bytes, line) + "\n" + h[at:].SQL()
		b := l.Run(scen.RunOpt{}, c)
		if v := ended(b); v != nil {
			return v, nil
		}
		if a.P.Stdout.String() != b.P.Stdout.String() || a.P.ExitCode != b.P.ExitCode || a.State != b.State {
			return vio("delivery", "%d bytes of comments or empty lines before statement %d (stdin %v, reads of %d bytes) change the result\n--- without\n%s%s\n--- with\n%s%s", bytes, at+1, sc.Stdin, sc.Chunk, a.P.Stdout.String(), a.P.Stderr.String(), b.P.Stdout.String(), b.P.Stderr.String()), nil
		}
		return nil, nil
	case "other":
		ref := sc.clone()
		ref.Chunk, ref.Stdin = 0, false
		l.Sc = ref
		l.Reset()
		a := l.Run(scen.RunOpt{}, l.call())
		l.Sc = sc
		l.Reset()
		b := l.Run(scen.RunOpt{}, l.call())
		if a.P.Stdout.String() != b.P.Stdout.String() || a.P.ExitCode != b.P.ExitCode || a.State != b.State {
			return vio("delivery", "the same schema delivered differently (stdin %v, reads of %d bytes) has another result\n--- file at once\n%s%s\n--- this way\n%s%s", sc.Stdin, sc.Chunk, a.P.Stdout.String(), a.P.Stderr.String(), b.P.Stdout.String(), b.P.Stderr.String()), nil
		}
		return nil, nil
	}
	b, v := quietBase(l)
	if v != nil {
		return v, nil
	}
	o := l.Run(scen.RunOpt{Faults: sc.Faults}, l.call())
	if v := ended(o); v != nil {
		return v, nil
	}
	for _, f := range o.P.FaultsHit {
		if f.Kind == "eio" || f.Kind == "kill" {
			return refused(l, o, "the input could not be read ("+f.Kind+")")
		}
	}
	if o.P.Stdout.String() != b.P.Stdout.String() || o.P.ExitCode != b.P.ExitCode || o.State != b.State {
		return vio("delivery", "a short read changes the result\n--- without\n%s\n--- with\n%s%s", b.P.Stdout.String(), o.P.Stdout.String(), o.P.Stderr.String()), nil
	}
	return nil, nil
}

// filler is text that means nothing: empty lines, or comment lines of the given length.
func filler(bytes, line int) string {
	if line <= 4 {
		return strings.Repeat(" \n\t\n", bytes/4)
	}
	var b strings.Builder
	for b.Len() < bytes {
		n := line
		if n > bytes-b.Len() {
			n = bytes - b.Len()
		}
		b.WriteString("-- " + strings.Repeat("x", n) + "\n")
	}
	return b.String()
}

func refused(l *Lab, o *Out, why string) (*Violation, error) {
	if v := ended(o); v != nil {
		return v, nil
	}
	if o.P.ExitCode == 0 && !o.P.Killed {
		return vio("accepted", "exit status 0 although %s\n%s", why, o.P.Stdout.String()), nil
	}
	if len(Mutations(o.W)) > 0 || o.State != l.Old {
		return vio("executed", "something was executed although %s\n%s", why, o.P.Stdout.String()), nil
	}
	if !o.P.Killed && strings.TrimSpace(o.P.Stderr.String()) == "" {
		return vio("silent", "no message although %s", why), nil
	}
	if s := o.P.Stdout.String(); s != "" {
		return vio("output", "output although %s: %s", why, s), nil
	}
	return nil, nil
}
