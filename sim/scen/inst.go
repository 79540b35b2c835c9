// Package scen builds simulated installations (a server, its databases, the
// command under test), runs scenarios in them and judges what happened.
package scen

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verifsim/dbm"
	"verifsim/kern"
)

const (
	MySQL  = "mysql"
	PG     = "postgres"
	MSSQL  = "mssql"
	SQLite = "sqlite3"
)

// Backend is what the harness needs from a simulated server besides serving.
type Backend interface {
	kern.Server
	Admin(db, sql string) error // run a script with no faults and no trace
	State(db string, rows bool) string
	Databases() []string
	DB(name string) *dbm.DB // nil for the real SQLite engine
	Save() interface{}
	Restore(interface{})
	SetOrder(f func(n int) []int)
	CreateDB(name string)
	Seed(db string, n int) // rows in every table
	Account(user, pass string)
	Data(db string) map[string]Data
	Objects(db string) []string
}

// Tool describes one of the commands.
type Tool struct {
	Name    string
	Driver  string
	Main    func()
	NewSrv  func() Backend
	DBName  string // the database argument
	ConnArg []string
	Env     map[string]string
}

var Tools = map[string]*Tool{}

// Inst is one simulated installation.
type Inst struct {
	T   *Tool
	Srv Backend
	Dir string
	n   int
}

var Scratch string

func scratch() string {
	if Scratch == "" {
		d, err := os.MkdirTemp("", "simfs-")
		if err != nil {
			panic(err)
		}
		Scratch = d
	}
	return Scratch
}

// Cleanup removes this process's scratch directory.
func Cleanup() {
	if Scratch != "" && strings.Contains(Scratch, "simfs-") {
		os.RemoveAll(Scratch)
		Scratch = ""
	}
}

func NewInst(dialect string) *Inst {
	t := Tools[dialect]
	if t == nil {
		panic("no tool for " + dialect)
	}
	i := &Inst{T: t, Srv: t.NewSrv(), Dir: scratch()}
	i.Srv.CreateDB(t.DBName)
	return i
}

// Call is one invocation of the command.
type Call struct {
	Schema   string            `json:"schema"`
	Stdin    bool              `json:"stdin,omitempty"`
	Flags    []string          `json:"flags,omitempty"`
	Chunk    int               `json:"chunk,omitempty"`
	NoFile   bool              `json:"nofile,omitempty"`  // --file names a file that is not there
	Typed    *string           `json:"typed,omitempty"`   // the password typed at the terminal
	CharDev  bool              `json:"chardev,omitempty"` // stdin is a terminal-like device
	RawArgs  []string          `json:"rawargs,omitempty"` // replaces every argument
	Env      map[string]string `json:"env,omitempty"`
	NoSchema bool              `json:"noschema,omitempty"` // no schema input at all (export)
}

func (i *Inst) proc(w *kern.World, c Call) (*kern.Proc, error) {
	i.n++
	path := filepath.Join(i.Dir, fmt.Sprintf("schema%d.sql", len(w.Procs)))
	if err := os.WriteFile(path, []byte(c.Schema), 0644); err != nil {
		return nil, err
	}
	p := &kern.Proc{Main: i.T.Main, ReadChunk: c.Chunk, Env: map[string]string{}}
	for k, v := range i.T.Env {
		p.Env[k] = v
	}
	for k, v := range c.Env {
		p.Env[k] = v
	}
	p.Args, p.Typed = []string{i.T.Name}, c.Typed
	if c.RawArgs != nil {
		p.Args = append(p.Args, c.RawArgs...)
		for k := range p.Args {
			p.Args[k] = strings.ReplaceAll(p.Args[k], "{schema}", path)
		}
	} else {
		p.Args = append(p.Args, i.T.ConnArg...)
		p.Args = append(p.Args, i.T.DBName)
		switch {
		case c.NoFile:
			p.Args = append(p.Args, "--file", path+".missing")
		case c.NoSchema, c.Stdin, c.CharDev:
		default:
			p.Args = append(p.Args, "--file", path)
		}
		p.Args = append(p.Args, c.Flags...)
	}
	if c.Stdin {
		p.Stdin = path
	}
	return p, nil
}

// RunOpt controls one simulated run.
type RunOpt struct {
	Faults  []kern.Fault
	Choices []int
	Seed    uint64
	MapSeed uint64
	OpHook  func(p *kern.Proc, n int, kind, text string)
	Refuse  func(t kern.Target) error
}

// Run executes the calls (more than one: concurrently) against the installation.
func (i *Inst) Run(o RunOpt, calls ...Call) (*kern.World, error) {
	w := kern.NewWorld(o.Seed)
	w.Servers[i.T.Driver] = i.Srv
	w.Faults, w.Choices, w.OpHook, w.Refuse = o.Faults, o.Choices, o.OpHook, o.Refuse
	for _, c := range calls {
		p, err := i.proc(w, c)
		if err != nil {
			return nil, err
		}
		w.AddProc(p)
	}
	if pre, ok := i.Srv.(interface{ Attach(*kern.World) }); ok {
		pre.Attach(w)
	}
	os.VerifMapRand(true, o.MapSeed)
	err := w.Run()
	os.VerifMapRand(false, 0)
	return w, err
}

// Apply is a plain fault-free run.
func (i *Inst) Apply(schema string, flags ...string) (*kern.World, *kern.Proc) {
	w, err := i.Run(RunOpt{}, Call{Schema: schema, Flags: flags})
	if err != nil {
		panic(err)
	}
	return w, w.Procs[0]
}

// SeedModel puts n rows in every table of a modelled database.
func SeedModel(d *dbm.DB, n int) {
	if d == nil {
		return
	}
	for ti, t := range d.Tables {
		for r := 0; r < n; r++ {
			row := map[int]string{}
			for _, c := range t.Cols {
				fk := false
				for _, f := range t.FKs {
					for _, x := range f.Cols {
						fk = fk || x == c.Name
					}
				}
				if !c.NotNull && !fk && (r+c.ID+ti)%4 == 3 {
					continue
				}
				row[c.ID] = fmt.Sprint(r + 1)
			}
			t.Rows = append(t.Rows, row)
		}
	}
}
