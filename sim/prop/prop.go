// Package prop holds the properties: how scenarios are made, run and judged.
package prop

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strings"
	"time"

	"verifsim/gen"
	"verifsim/kern"
	"verifsim/scen"
)

// Scenario is one simulated run, complete: replaying it repeats it exactly.
type Scenario struct {
	Prop     string            `json:"property"`
	Dialect  string            `json:"dialect"`
	Variant  string            `json:"variant,omitempty"`
	Seed     uint64            `json:"seed"`
	Hist     []gen.Schema      `json:"history"` // all but the last are in place; the last is applied under test
	ByTool   bool              `json:"by_tool,omitempty"`
	Other    gen.Schema        `json:"other_db,omitempty"`
	Setup    []string          `json:"setup,omitempty"` // statements run on the server before anything else
	Rows     int               `json:"rows,omitempty"`
	Flags    []string          `json:"flags,omitempty"`
	Stdin    bool              `json:"stdin,omitempty"`
	Chunk    int               `json:"chunk,omitempty"`
	Procs    int               `json:"procs,omitempty"`
	Faults   []kern.Fault      `json:"faults,omitempty"`
	Again    [][]kern.Fault    `json:"again,omitempty"` // faults of the runs that follow
	Choices  []int             `json:"schedule,omitempty"`
	MapSeed  uint64            `json:"map_seed,omitempty"`
	OrdSeed  uint64            `json:"catalog_order_seed,omitempty"`
	X        map[string]string `json:"x,omitempty"`
	Expected *Violation        `json:"violation,omitempty"`
	Trace    []string          `json:"trace,omitempty"`
}

// Violation is a property broken by a scenario.
type Violation struct {
	Kind   string `json:"kind"`
	Detail string `json:"detail"`
}

var ptr = regexp.MustCompile(`0x[0-9a-f]{6,}|goroutine \d+`)

func vio(kind, f string, a ...interface{}) *Violation {
	return &Violation{Kind: kind, Detail: ptr.ReplaceAllString(fmt.Sprintf(f, a...), "0x..")}
}

// Stat is what a batch of runs covered.
type Stat struct {
	Runs     int            `json:"runs"`
	Evals    int            `json:"evals"`
	Skipped  int            `json:"skipped"`
	SimNs    int64          `json:"sim_ns"`
	Ops      int            `json:"ops"`
	Faults   map[string]int `json:"faults"`
	Hashes   map[string]bool
	Cases    map[string]bool
	States   map[string]bool
	Scheds   map[string]bool
	Edits    map[string]int `json:"edits"`
	Notes    map[string]int `json:"notes"`
	Samples  []string       `json:"samples"`
	SkipWhy  map[string]int `json:"skip_why"`
	BadDet   int            `json:"bad_det"`
	BadSeeds []int          `json:"bad_seeds"`
}

func NewStat() *Stat {
	return &Stat{Faults: map[string]int{}, Hashes: map[string]bool{}, Cases: map[string]bool{}, States: map[string]bool{}, Scheds: map[string]bool{}, Edits: map[string]int{}, Notes: map[string]int{}, SkipWhy: map[string]int{}}
}

func (s *Stat) Merge(o *Stat) {
	s.Runs += o.Runs
	s.Evals += o.Evals
	s.Skipped += o.Skipped
	s.SimNs += o.SimNs
	s.Ops += o.Ops
	s.BadDet += o.BadDet
	s.BadSeeds = append(s.BadSeeds, o.BadSeeds...)
	for k, v := range o.Faults {
		s.Faults[k] += v
	}
	for k := range o.Hashes {
		s.Hashes[k] = true
	}
	for k := range o.Cases {
		s.Cases[k] = true
	}
	for k := range o.States {
		s.States[k] = true
	}
	for k := range o.Scheds {
		s.Scheds[k] = true
	}
	for k, v := range o.Edits {
		s.Edits[k] += v
	}
	for k, v := range o.Notes {
		s.Notes[k] += v
	}
	for k, v := range o.SkipWhy {
		s.SkipWhy[k] += v
	}
	if len(s.Samples) < 4 {
		s.Samples = append(s.Samples, o.Samples...)
	}
}

func hash(s string) string {
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:8])
}

// Lab is an installation brought to the scenario's starting state.
type Lab struct {
	In    *scen.Inst
	Sc    *Scenario
	St    *Stat
	save  interface{}
	Old   string // state before, with rows
	Fresh string // state the desired schema describes, from an empty server
	FErr  error
	base  *Out
	log   []string
}

// Out is one simulated run and where it left the server.
type Out struct {
	W      *kern.World
	P      *kern.Proc
	State  string // structure and rows
	Struct string // structure only
	Others string // every other database
}

func (l *Lab) db() string { return l.In.T.DBName }

func order(seed uint64) func(n int) []int {
	if seed == 0 {
		return nil
	}
	r := rand.New(rand.NewSource(int64(seed)))
	return func(n int) []int { return r.Perm(n) }
}

type errSkip struct{ why string }

func (e *errSkip) Error() string { return e.why }

func skip(f string, a ...interface{}) error { return &errSkip{fmt.Sprintf(f, a...)} }

// otherDB is listed before or after the one that is worked on.
func (sc *Scenario) otherDB() string {
	if sc.MapSeed%2 == 1 {
		return "another"
	}
	return "other"
}

// NewLab builds the server and puts the starting schema in place.
func NewLab(sc *Scenario, st *Stat) (*Lab, error) {
	l := &Lab{Sc: sc, St: st}
	l.In = scen.NewInst(sc.Dialect)
	for _, s := range sc.Setup {
		if err := l.In.Srv.Admin(l.db(), s); err != nil {
			return nil, skip("setup: %v", err)
		}
	}
	if sc.Other != nil {
		l.In.Srv.CreateDB(sc.otherDB())
		if err := l.In.Srv.Admin(sc.otherDB(), strings.ReplaceAll(sc.Other.SQL(), l.db()+".", sc.otherDB()+".")); err != nil {
			return nil, skip("other db: %v", err)
		}
	}
	if !sc.ByTool {
		for i := 0; i+1 < len(sc.Hist); i++ {
			if err := l.In.Srv.Admin(l.db(), sc.Hist[i].SQL()); err != nil {
				return nil, skip("start schema refused: %v", err)
			}
		}
	}
	if sc.Rows > 0 {
		l.In.Srv.Seed(l.db(), sc.Rows)
		if sc.Other != nil {
			l.In.Srv.Seed(sc.otherDB(), sc.Rows)
		}
	}
	l.mark()
	return l, nil
}

func (l *Lab) mark() {
	l.Old = l.In.Srv.State(l.db(), true)
	l.save = l.In.Srv.Save()
	l.base = nil
}

func (l *Lab) Reset() { l.In.Srv.Restore(l.save) }

// fresh is the state an empty server is in after running the schema itself.
func fresh(dialect string, s gen.Schema, setup []string) (string, error) {
	in := scen.NewInst(dialect)
	for _, x := range setup {
		if err := in.Srv.Admin(in.T.DBName, x); err != nil {
			return "", err
		}
	}
	if err := in.Srv.Admin(in.T.DBName, s.SQL()); err != nil {
		return "", err
	}
	return in.Srv.State(in.T.DBName, false), nil
}

func (l *Lab) others() string {
	var o []string
	for _, n := range l.In.Srv.Databases() {
		if n != l.db() {
			o = append(o, "database "+n+"\n"+l.In.Srv.State(n, true))
		}
	}
	sort.Strings(o)
	return strings.Join(o, "\n")
}

func (l *Lab) desired() string { return l.Sc.Hist[len(l.Sc.Hist)-1].SQL() }

func (l *Lab) call() scen.Call {
	c := scen.Call{Schema: l.desired(), Flags: l.Sc.Flags, Stdin: l.Sc.Stdin, Chunk: l.Sc.Chunk}
	for _, f := range c.Flags {
		if f == "--export" {
			c.NoSchema = true
		}
	}
	return c
}

// Run performs one simulated run from wherever the server is now.
func (l *Lab) Run(o scen.RunOpt, calls ...scen.Call) *Out {
	l.In.Srv.SetOrder(order(l.Sc.OrdSeed))
	if o.MapSeed == 0 {
		o.MapSeed = l.Sc.MapSeed
	}
	if o.Seed == 0 {
		o.Seed = l.Sc.Seed
	}
	w, err := l.In.Run(o, calls...)
	l.In.Srv.SetOrder(nil)
	if err != nil {
		panic(fmt.Sprintf("simulator: %v", err))
	}
	out := &Out{W: w, P: w.Procs[0], State: l.In.Srv.State(l.db(), true), Struct: l.In.Srv.State(l.db(), false), Others: l.others()}
	if st := l.St; st != nil {
		st.Runs++
		st.SimNs += w.ClockNs
		for _, p := range w.Procs {
			st.Ops += p.Ops()
			for _, f := range p.FaultsHit {
				st.Faults[f.Kind]++
			}
		}
		for _, e := range w.Trace {
			if e.K == "exec" {
				st.Edits[stmtKind(e.T)]++
			}
		}
		st.Hashes[w.TraceHash()] = true
		st.States[hash(out.State)] = true
		if len(w.Procs) > 1 {
			st.Scheds[hash(fmt.Sprint(w.Sched))] = true
		}
	}
	l.note(w)
	return out
}

// stmtKind is a statement's leading keywords.
func stmtKind(t string) string {
	var o []string
	for _, f := range strings.Fields(strings.ToUpper(t)) {
		f = strings.TrimRight(strings.SplitN(f, "(", 2)[0], ",;")
		switch f {
		case "CREATE", "ALTER", "DROP", "TABLE", "VIEW", "INDEX", "TRIGGER", "POLICY", "UNIQUE", "OR", "REPLACE", "ADD", "COLUMN", "CHANGE", "CONSTRAINT", "PRIMARY", "FOREIGN", "KEY", "SET", "DEFAULT", "NOT", "NULL", "TYPE", "CHECK", "GENERATED", "IDENTITY", "FIRST", "AFTER", "ONLY", "CLUSTERED", "NONCLUSTERED":
			o = append(o, f)
		}
		if f == "AS" || f == "ON" || len(o) >= 7 || len(o) == 2 && o[0] == "CREATE" && o[1] != "OR" && o[1] != "UNIQUE" {
			break
		}
	}
	return strings.Join(o, " ")
}

// note keeps the last runs' traces for the replay file.
func (l *Lab) note(w *kern.World) {
	var o []string
	for _, p := range w.Procs {
		o = append(o, fmt.Sprintf("run: process %d: %s", p.ID, strings.Join(p.Args, " ")))
	}
	for _, e := range w.Trace {
		t := strings.Join(strings.Fields(e.T), " ")
		if len(t) > 160 {
			t = t[:160] + "..."
		}
		s := fmt.Sprintf("p%d #%d %s", e.P, e.N, e.K)
		if t != "" {
			s += " " + t
		}
		if e.Fault != "" {
			s += " FAULT=" + e.Fault
		}
		if e.Err != "" {
			s += " -> " + e.Err
		} else if !e.Done {
			s += " -> (not done)"
		}
		o = append(o, s)
	}
	for _, p := range w.Procs {
		s := fmt.Sprintf("process %d: exit %d", p.ID, p.ExitCode)
		if p.Killed {
			s = fmt.Sprintf("process %d: killed", p.ID)
		}
		if e := strings.TrimSpace(p.Stderr.String()); e != "" {
			s += " stderr: " + ptr.ReplaceAllString(e, "0x..")
		}
		o = append(o, s)
	}
	l.log = append(l.log, o...)
	if len(l.log) > 400 {
		l.log = l.log[len(l.log)-400:]
	}
}

// Base is the same run without faults, from the starting state.
func (l *Lab) Base() *Out {
	if l.base == nil {
		l.Reset()
		l.base = l.Run(scen.RunOpt{}, l.call())
		l.Reset()
	}
	return l.base
}

// Execs are the mutating statements proc p got as far as sending.
func Execs(w *kern.World, p int) []kern.Event {
	var o []kern.Event
	for _, e := range w.Trace {
		if e.P == p && (e.K == "exec" || e.K == "query" && e.Mut) {
			o = append(o, e)
		}
	}
	return o
}

// Mutations are statements that changed, or could have changed, the server.
func Mutations(w *kern.World) []kern.Event {
	var o []kern.Event
	for _, e := range w.Trace {
		if e.K == "exec" || e.Mut {
			o = append(o, e)
		}
	}
	return o
}

const nothing = "-- Nothing is modified --\n"

// Prop is one property's machinery.
type Prop struct {
	ID       string
	Dialects []string
	Gen      func(r *rand.Rand, d string) *Scenario
	// Variants lists the explicit runs to explore from one starting point.
	Variants func(l *Lab, r *rand.Rand, max int) []*Scenario
	Judge    func(l *Lab, sc *Scenario) (*Violation, error)
	Level    string
	Rule     string
	MaxVar   int // variants per starting point, quick
	Quick    int // starting points, quick
	Thorough int
}

var All = map[string]*Prop{}

func reg(p *Prop) { All[p.ID] = p }

// Explore runs one seed: generate, set up, explore its variants.
func (p *Prop) Explore(seed uint64, maxVar int, st *Stat) (found []*Scenario) {
	d := p.Dialects[int(seed*2654435761>>16)%len(p.Dialects)]
	r := rand.New(rand.NewSource(int64(seed*7919 + 13)))
	sc := p.Gen(r, d)
	if sc == nil {
		st.Skipped++
		return
	}
	sc.Prop, sc.Dialect, sc.Seed = p.ID, d, seed
	l, err := NewLab(sc, st)
	if err != nil {
		st.Skipped++
		st.SkipWhy[trunc(err.Error())]++
		return
	}
	vs := []*Scenario{sc}
	if p.Variants != nil {
		vs = p.Variants(l, r, maxVar)
	}
	for _, v := range vs {
		l.Sc = v
		l.log = nil
		l.Reset()
		st.Evals++
		x, err := p.Judge(l, v)
		if err != nil {
			st.Evals--
			st.Skipped++
			st.SkipWhy[trunc(err.Error())]++
			continue
		}
		if x != nil {
			v.Expected, v.Trace = x, l.log
			found = append(found, v)
			return
		}
		st.Cases[v.key(l.log)] = true
		if len(st.Samples) == 0 {
			st.Samples = append(st.Samples, v.brief())
		}
	}
	return
}

func trunc(s string) string {
	if len(s) > 90 {
		s = s[:90]
	}
	return s
}

func (sc *Scenario) brief() string {
	c := *sc
	c.Trace = nil
	b, _ := json.Marshal(&c)
	s := string(b)
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

// key tells a judged case from others: what was given and what happened.
func (sc *Scenario) key(log []string) string {
	c := *sc
	c.Seed, c.MapSeed, c.OrdSeed, c.Trace, c.Expected = 0, 0, 0, nil, nil
	b, _ := json.Marshal(&c)
	return hash(string(b) + strings.Join(log, "\n"))
}

func (sc *Scenario) clone() *Scenario {
	b, err := json.Marshal(sc)
	if err != nil {
		panic(err)
	}
	n := &Scenario{}
	if err := json.Unmarshal(b, n); err != nil {
		panic(err)
	}
	return n
}

// Replay runs a recorded scenario once.
func Replay(sc *Scenario, st *Stat) (v *Violation, log []string, err error) {
	p := All[sc.Prop]
	if p == nil {
		return nil, nil, fmt.Errorf("no property %s", sc.Prop)
	}
	l, err := NewLab(sc, st)
	if err != nil {
		return nil, nil, err
	}
	v, err = p.Judge(l, sc)
	return v, l.log, err
}

// Minimise cuts a failing scenario down while it keeps failing the same way.
func Minimise(sc *Scenario, budget int, until time.Time) *Scenario {
	if sc.Expected == nil {
		return sc
	}
	best := sc.clone()
	kind, sig := sc.Expected.Kind, firstLine(sc.Expected.Detail)
	try := func(c *Scenario) bool {
		if budget <= 0 || time.Now().After(until) {
			return false
		}
		budget--
		v, log, err := Replay(c, nil)
		if err != nil || v == nil || v.Kind != kind || firstLine(v.Detail) != sig {
			return false
		}
		c.Expected, c.Trace = v, log
		best = c
		return true
	}
	for changed := true; changed && budget > 0; {
		changed = false
		cut := func(mk func(c *Scenario) bool) {
			c := best.clone()
			if mk(c) && try(c) {
				changed = true
			}
		}
		for i := 0; i+1 < len(best.Hist); i++ {
			if best.ByTool {
				i := i
				cut(func(c *Scenario) bool { c.Hist = append(c.Hist[:i:i], c.Hist[i+1:]...); return len(c.Hist) > 0 })
			}
		}
		cut(func(c *Scenario) bool { ok := c.Other != nil; c.Other = nil; return ok })
		cut(func(c *Scenario) bool { ok := c.Rows > 1; c.Rows = 1; return ok })
		cut(func(c *Scenario) bool { ok := c.Rows > 0; c.Rows = 0; return ok })
		cut(func(c *Scenario) bool { ok := c.OrdSeed != 0; c.OrdSeed = 0; return ok })
		cut(func(c *Scenario) bool { ok := c.Chunk != 0; c.Chunk = 0; return ok })
		for i := range best.Faults {
			i := i
			cut(func(c *Scenario) bool {
				if i >= len(c.Faults) {
					return false
				}
				c.Faults = append(c.Faults[:i:i], c.Faults[i+1:]...)
				return true
			})
		}
		for i := range best.Again {
			i := i
			cut(func(c *Scenario) bool {
				if i >= len(c.Again) {
					return false
				}
				c.Again = append(c.Again[:i:i], c.Again[i+1:]...)
				return true
			})
		}
		if len(best.Choices) > 0 {
			cut(func(c *Scenario) bool { c.Choices = nil; return true })
			cut(func(c *Scenario) bool { c.Choices = c.Choices[:len(c.Choices)/2]; return true })
			for i := range best.Choices {
				i := i
				if best.Choices[i] != 0 {
					cut(func(c *Scenario) bool {
						if i >= len(c.Choices) {
							return false
						}
						c.Choices[i] = 0
						return true
					})
				}
			}
		}
		// statements: the same one in every step, then one by one
		heads := map[string]bool{}
		for _, h := range best.Hist {
			for _, s := range h {
				heads[s.Head] = true
			}
		}
		var hs []string
		for h := range heads {
			hs = append(hs, h)
		}
		sort.Strings(hs)
		for _, h := range hs {
			h := h
			cut(func(c *Scenario) bool {
				for i := range c.Hist {
					var o gen.Schema
					for _, s := range c.Hist[i] {
						if s.Head != h {
							o = append(o, s)
						}
					}
					c.Hist[i] = o
				}
				return true
			})
		}
		for i := range best.Hist {
			for j := len(best.Hist[i]) - 1; j >= 0; j-- {
				i, j := i, j
				cut(func(c *Scenario) bool {
					if i >= len(c.Hist) || j >= len(c.Hist[i]) {
						return false
					}
					c.Hist[i] = append(c.Hist[i][:j:j], c.Hist[i][j+1:]...)
					return true
				})
			}
		}
		els := map[string]bool{}
		for _, h := range best.Hist {
			for _, s := range h {
				for _, e := range s.Elems {
					els[s.Head+"\x00"+e] = true
				}
			}
		}
		hs = nil
		for h := range els {
			hs = append(hs, h)
		}
		sort.Strings(hs)
		for _, h := range hs {
			h := h
			cut(func(c *Scenario) bool {
				for i := range c.Hist {
					for j := range c.Hist[i] {
						s := &c.Hist[i][j]
						var o []string
						for _, e := range s.Elems {
							if s.Head+"\x00"+e != h {
								o = append(o, e)
							}
						}
						if s.Elems != nil && len(o) == 0 {
							return false
						}
						s.Elems = o
					}
				}
				return true
			})
		}
		for i := range best.Hist {
			for j := range best.Hist[i] {
				for k := len(best.Hist[i][j].Elems) - 1; k >= 0; k-- {
					i, j, k := i, j, k
					cut(func(c *Scenario) bool {
						if i >= len(c.Hist) || j >= len(c.Hist[i]) || k >= len(c.Hist[i][j].Elems) || len(c.Hist[i][j].Elems) < 2 {
							return false
						}
						e := c.Hist[i][j].Elems
						c.Hist[i][j].Elems = append(e[:k:k], e[k+1:]...)
						return true
					})
				}
			}
		}
	}
	return best
}

var stepNo = regexp.MustCompile(`step \d+|line \d+|position \d+|op \d+|#\d+`)

// firstLine is what a cut-down scenario must still report.
func firstLine(s string) string {
	if i := strings.Index(s, "\n"); i >= 0 {
		s = s[:i]
	}
	return stepNo.ReplaceAllString(s, "")
}
