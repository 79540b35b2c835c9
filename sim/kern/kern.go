// Package kern is the deterministic simulator: it owns every process, every
// connection, the clock, and the order in which anything happens.
package kern

import (
	"bytes"
	"crypto/sha256"
	"database/sql"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/term"
)

// Fault is one injected fault: what happens at the Op-th seam operation of Proc.
type Fault struct {
	Proc int    `json:"proc"`
	Op   int    `json:"op"`
	Kind string `json:"kind"`
	Arg  int    `json:"arg,omitempty"`
}

// Event is one seam operation as it happened.
type Event struct {
	P     int    `json:"p"`
	N     int    `json:"n"`
	K     string `json:"k"` // connect begin query exec commit rollback close stdout read
	T     string `json:"t,omitempty"`
	Tx    bool   `json:"tx,omitempty"`
	Sess  int    `json:"s,omitempty"`
	Rows  int    `json:"rows,omitempty"`
	Mut   bool   `json:"mut,omitempty"` // the statement is not a plain read
	Done  bool   `json:"done,omitempty"`
	Err   string `json:"err,omitempty"`
	Fault string `json:"fault,omitempty"`
	Disk  int    `json:"disk,omitempty"` // file operations the request took
}

// ErrWait is returned by a session operation that has to wait for another
// session's lock; the proc is parked until some session ends a transaction.
var ErrWait = errors.New("lock wait")

// Result of a statement.
type Result struct {
	Cols []string
	Rows [][]interface{}
	Mut  bool
}

// Session is one server-side connection.
type Session interface {
	Exec(sql string, args []interface{}) (*Result, error)
	Begin() error
	Commit() error
	Rollback() error
	// Abort tells the session that the request in hand failed (kind: query,
	// exec, begin, commit, rollback) before it had any effect of its own.
	Abort(kind string, err error)
	// Close ends the session; anything uncommitted is rolled back.
	Close()
}

// Target is what a client asked to be connected to, as read off the wire or
// out of the real driver's own DSN parser.
type Target struct {
	Driver, Net, Addr, User, Password, DB string
	Extra                                 map[string]string
}

func (t Target) String() string {
	return fmt.Sprintf("%s %s %s user=%q pass=%q db=%q %v", t.Driver, t.Net, t.Addr, t.User, t.Password, t.DB, t.Extra)
}

// Server accepts connections.
type Server interface {
	Connect(t Target) (Session, error)
	// Error makes a server-side error of the class an injected fault calls for.
	// There are several for each kind of operation; n chooses one.
	Error(kind string, n int) error
	// MapErr turns a simulated server error into the real driver's error type.
	BytesForText() bool
	PrepareWithArgs() bool
}

// Disk is a server whose files are simulated: between Arm and Disarm the fault
// strikes the request's (Arg%DiskSteps)-th file operation.
type Disk interface {
	Arm(f *Fault)
	Disarm() (ops int, hit bool, slept int64)
}

// RowSteps separates the row at which a result breaks off from the choice of the error.
const RowSteps = 10000

// DiskSteps separates a disk fault's step from the seed of what is lost.
const DiskSteps = 100000

// Proc is one run of one of the commands.
type Proc struct {
	ID     int
	Main   func()
	Args   []string
	Env    map[string]string
	Stdin  string  // path
	Typed  *string // what is typed where a password is asked for; nil: there is no terminal
	Stdout bytes.Buffer
	Stderr bytes.Buffer

	ExitCode int
	Exited   bool // ended by itself (return, os.Exit or panic)
	Killed   bool // ended by an injected kill
	Panic    string
	Hung     bool

	w          *World
	ops        int
	dead       bool
	stdin      *os.File
	stdout     *os.File
	stderr     *os.File
	sessions   map[int]*simConn
	doneOnce   sync.Once
	done       chan struct{}
	goroutine  chan struct{}
	parked     bool
	grant      chan struct{}
	waitLock   int
	FaultsHit  []Fault
	ReadChunk  int
	StdoutFull bool
}

// World is one simulated run.
type World struct {
	mu       sync.Mutex
	Servers  map[string]Server // driver name -> server
	Refuse   func(t Target) error
	Procs    []*Proc
	Trace    []Event
	Faults   []Fault
	Targets  []Target
	ClockNs  int64
	lat      uint64
	nextSess int
	cur      *Proc
	conc     bool
	req      chan *Proc
	LockVer  int
	Sched    []int // the schedule choices that were made
	Choices  []int // choices to replay; exhausted: first eligible
	Hang     time.Duration
	OnKill   func(p *Proc, f *Fault)
	OpHook   func(p *Proc, n int, kind, text string)
}

var (
	hookMu sync.Mutex
	world  *World
	files  = map[*os.File]*Proc{}
	kinds  = map[*os.File]string{}
)

func NewWorld(seed uint64) *World {
	return &World{Servers: map[string]Server{}, lat: seed*2862933555777941757 + 3037000493, Hang: 20 * time.Second}
}

func (w *World) latency(max int64) {
	w.lat ^= w.lat << 13
	w.lat ^= w.lat >> 7
	w.lat ^= w.lat << 17
	w.ClockNs += int64(w.lat % uint64(max))
}

func Install() {
	os.VerifExit = func(code int) {
		hookMu.Lock()
		w := world
		hookMu.Unlock()
		if w == nil || w.cur == nil {
			return
		}
		p := w.cur
		if !p.dead {
			p.ExitCode, p.Exited = code, true
			w.end(p)
		}
		runtime.Goexit()
	}
	os.VerifRead = func(f *os.File, b []byte, real func([]byte) (int, error)) (int, error, bool) {
		hookMu.Lock()
		p := files[f]
		w := world
		hookMu.Unlock()
		if w == nil {
			return 0, nil, false
		}
		if p == nil {
			// a file the command opened by itself
			if w.cur == nil || !strings.Contains(f.Name(), "simfs-") {
				return 0, nil, false
			}
			p = w.cur
		}
		n, err := p.read(f, b, real)
		return n, err, true
	}
	os.VerifWrite = func(f *os.File, b []byte) (int, error, bool) {
		hookMu.Lock()
		p, k := files[f], kinds[f]
		hookMu.Unlock()
		if p == nil {
			return 0, nil, false
		}
		n, err := p.write(k, b)
		return n, err, true
	}
	term.VerifRead = func(fd int) ([]byte, error, bool) {
		hookMu.Lock()
		w := world
		hookMu.Unlock()
		if w == nil || w.cur == nil {
			return nil, nil, false
		}
		if w.cur.Typed == nil || fd != 0 {
			return nil, errors.New("inappropriate ioctl for device"), true
		}
		return []byte(*w.cur.Typed), nil, true
	}
	sql.VerifOpen = verifOpen
	time.VerifNow = func() (int64, bool) {
		hookMu.Lock()
		w := world
		hookMu.Unlock()
		if w == nil || w.cur == nil {
			return 0, false
		}
		return epoch + w.ClockNs, true
	}
}

// epoch is when every simulated run starts.
const epoch = int64(1767225600) * 1e9

// end marks p as no longer running; its sessions drop on the server.
func (w *World) end(p *Proc) {
	if p.dead {
		return
	}
	p.dead = true
	for i := 0; i <= w.nextSess; i++ {
		if c, ok := p.sessions[i]; ok {
			c.dropSession()
		}
	}
	w.LockVer++
	p.doneOnce.Do(func() { close(p.done) })
}

func (w *World) faultAt(p *Proc, n int) *Fault {
	for i := range w.Faults {
		if w.Faults[i].Proc == p.ID && w.Faults[i].Op == n {
			return &w.Faults[i]
		}
	}
	return nil
}

// op is the seam: every observable action of a process comes through here.
// It returns the event index and the fault to apply, if any.
func (p *Proc) op(kind, text string) (int, *Fault, bool) {
	w := p.w
	if p.dead {
		return 0, nil, false
	}
	if w.conc {
		w.req <- p
		<-p.grant
		if p.dead {
			return 0, nil, false
		}
	}
	w.mu.Lock()
	n := p.ops
	p.ops++
	f := w.faultAt(p, n)
	ev := Event{P: p.ID, N: n, K: kind, T: text}
	if f != nil {
		ev.Fault = f.Kind
	}
	w.Trace = append(w.Trace, ev)
	i := len(w.Trace) - 1
	switch kind {
	case "connect":
		w.latency(20e6)
	case "stdout", "read":
		w.latency(5e4)
	default:
		w.latency(4e6)
	}
	w.mu.Unlock()
	if w.OpHook != nil {
		w.OpHook(p, n, kind, text)
	}
	if f != nil {
		if !strings.HasPrefix(f.Kind, "disk-") {
			p.FaultsHit = append(p.FaultsHit, *f)
		}
		if f.Kind == "kill" {
			p.kill(f)
		}
	}
	return i, f, true
}

// kill ends the process on the spot, as SIGKILL would.
func (p *Proc) kill(f *Fault) {
	p.Killed = true
	if p.w.OnKill != nil {
		p.w.OnKill(p, f)
	}
	p.w.end(p)
	runtime.Goexit()
}

func (p *Proc) read(f *os.File, b []byte, real func([]byte) (int, error)) (int, error) {
	i, flt, ok := p.op("read", "")
	if !ok {
		return 0, &os.PathError{Op: "read", Path: f.Name(), Err: syscall.EIO}
	}
	max := len(b)
	if p.ReadChunk > 0 && p.ReadChunk < max {
		max = p.ReadChunk
	}
	if flt != nil {
		switch flt.Kind {
		case "eio":
			p.w.Trace[i].Err = "EIO"
			return 0, &os.PathError{Op: "read", Path: f.Name(), Err: syscall.EIO}
		case "short":
			if k := flt.Arg%7 + 1; k < max {
				max = k
			}
		}
	}
	n, err := real(b[:max])
	p.w.Trace[i].Rows = n
	p.w.Trace[i].Done = true
	if err != nil && err != io.EOF {
		p.w.Trace[i].Err = err.Error()
	}
	return n, err
}

func (p *Proc) write(kind string, b []byte) (int, error) {
	if p.dead {
		return len(b), nil
	}
	if kind == "stderr" {
		p.Stderr.Write(b)
		return len(b), nil
	}
	i, flt, ok := p.op("stdout", string(b))
	if !ok {
		return len(b), nil
	}
	if flt != nil && flt.Kind == "enospc" {
		p.StdoutFull = true
	}
	if p.StdoutFull {
		p.w.Trace[i].Err = "ENOSPC"
		return 0, &os.PathError{Op: "write", Path: "/dev/stdout", Err: syscall.ENOSPC}
	}
	p.Stdout.Write(b)
	p.w.Trace[i].Done = true
	if flt != nil && flt.Kind == "killack" {
		p.kill(flt)
	}
	return len(b), nil
}

type stderrW struct{}

func (stderrW) Write(b []byte) (int, error) {
	hookMu.Lock()
	w := world
	hookMu.Unlock()
	if w != nil && w.cur != nil {
		return w.cur.write("stderr", b)
	}
	return os.NewFile(2, "stderr").Write(b)
}

var devNull *os.File

func (w *World) AddProc(p *Proc) *Proc {
	p.ID = len(w.Procs)
	p.w = w
	p.sessions = map[int]*simConn{}
	p.done = make(chan struct{})
	p.goroutine = make(chan struct{})
	p.grant = make(chan struct{})
	p.waitLock = -1
	w.Procs = append(w.Procs, p)
	return p
}

func (w *World) switchTo(p *Proc) {
	w.cur = p
	os.Args = append([]string{}, p.Args...)
	os.Stdin, os.Stdout, os.Stderr = p.stdin, p.stdout, p.stderr
}

func (w *World) start(p *Proc) error {
	var err error
	path := p.Stdin
	if path == "" {
		path = "/dev/null"
	}
	if p.stdin, err = os.Open(path); err != nil {
		return err
	}
	// distinct handles; all writes are intercepted before they reach a descriptor
	p.stdout = os.NewFile(uintptr(1000000+2*p.ID), "/dev/stdout")
	p.stderr = os.NewFile(uintptr(1000001+2*p.ID), "/dev/stderr")
	if p.stdout == nil || p.stderr == nil {
		return fmt.Errorf("no file handle")
	}
	hookMu.Lock()
	files[p.stdin], kinds[p.stdin] = p, "stdin"
	files[p.stdout], kinds[p.stdout] = p, "stdout"
	files[p.stderr], kinds[p.stderr] = p, "stderr"
	hookMu.Unlock()
	return nil
}

func (w *World) launch(p *Proc) {
	go func() {
		defer close(p.goroutine)
		defer func() {
			// a panic in the command: the runtime would print it and exit 2
			if r := recover(); r != nil {
				if !p.dead {
					p.Panic = fmt.Sprintf("%v\n%s", r, debug.Stack())
					p.Stderr.WriteString(fmt.Sprintf("panic: %v\n", r))
					p.ExitCode, p.Exited = 2, true
					w.end(p)
				}
			}
		}()
		if w.conc {
			w.req <- p
			<-p.grant
		}
		p.Main()
		if !p.dead {
			p.ExitCode, p.Exited = 0, true
			w.end(p)
		}
	}()
}

// Run executes all procs: one proc runs alone; several interleave at their
// seam operations under the schedule in w.Choices.
func (w *World) Run() error {
	saveArgs, saveIn, saveOut, saveErr := os.Args, os.Stdin, os.Stdout, os.Stderr
	saveEnv := map[string]*string{}
	for _, p := range w.Procs {
		for k, v := range p.Env {
			if _, ok := saveEnv[k]; !ok {
				if o, had := os.LookupEnv(k); had {
					saveEnv[k] = &o
				} else {
					saveEnv[k] = nil
				}
			}
			os.Setenv(k, v)
		}
	}
	hookMu.Lock()
	world = w
	hookMu.Unlock()
	log.SetOutput(stderrW{})
	defer func() {
		hookMu.Lock()
		world = nil
		for _, p := range w.Procs {
			for _, f := range []*os.File{p.stdin, p.stdout, p.stderr} {
				delete(files, f)
				delete(kinds, f)
			}
		}
		hookMu.Unlock()
		w.cur = nil
		os.Args, os.Stdin, os.Stdout, os.Stderr = saveArgs, saveIn, saveOut, saveErr
		log.SetOutput(os.Stderr)
		for k, v := range saveEnv {
			if v == nil {
				os.Unsetenv(k)
			} else {
				os.Setenv(k, *v)
			}
		}
		for _, p := range w.Procs {
			if p.stdin != nil {
				p.stdin.Close()
			}
		}
	}()
	for _, p := range w.Procs {
		if err := w.start(p); err != nil {
			return err
		}
	}
	if len(w.Procs) == 1 {
		p := w.Procs[0]
		w.switchTo(p)
		w.launch(p)
		select {
		case <-p.done:
		case <-time.After(w.Hang):
			p.Hung = true
			w.end(p)
		}
		w.reap(p)
		return nil
	}
	w.conc = true
	w.req = make(chan *Proc)
	for _, p := range w.Procs {
		w.launch(p)
	}
	return w.schedule()
}

func (w *World) reap(p *Proc) {
	select {
	case <-p.goroutine:
	case <-time.After(2 * time.Second):
		Tainted = true
	}
}

// Tainted is set when a goroutine of a finished process could not be reaped;
// the worker is then replaced before its next run.
var Tainted bool

func (w *World) schedule() error {
	running := 0 // launched and not parked
	for range w.Procs {
		running++
	}
	pending := map[int]int{}
	finished := map[int]bool{}
	step := 0
	for {
		// wait until everybody is parked or done
		for running > 0 {
			var doneCh []*Proc
			for _, p := range w.Procs {
				if !finished[p.ID] && pending[p.ID] == 0 {
					doneCh = append(doneCh, p)
				}
			}
			var c0, c1, c2 chan struct{}
			if len(doneCh) > 0 {
				c0 = doneCh[0].goroutine
			}
			if len(doneCh) > 1 {
				c1 = doneCh[1].goroutine
			}
			if len(doneCh) > 2 {
				c2 = doneCh[2].goroutine
			}
			fin := func(p *Proc) { finished[p.ID] = true; running-- }
			select {
			case p := <-w.req:
				pending[p.ID]++
				running--
			case <-c0:
				fin(doneCh[0])
			case <-c1:
				fin(doneCh[1])
			case <-c2:
				fin(doneCh[2])
			case <-time.After(w.Hang):
				for _, p := range doneCh {
					p.Hung = true
					w.end(p)
				}
				Tainted = true
				return nil
			}
		}
		var el []*Proc
		for _, p := range w.Procs {
			if pending[p.ID] > 0 && (p.waitLock < 0 || p.waitLock != w.LockVer) {
				el = append(el, p)
			}
		}
		if len(el) == 0 {
			left := 0
			for _, p := range w.Procs {
				if pending[p.ID] > 0 {
					left++
				}
			}
			if left == 0 {
				return nil
			}
			return fmt.Errorf("deadlock among simulated processes")
		}
		k := 0
		if step < len(w.Choices) {
			k = w.Choices[step] % len(el)
		}
		w.Sched = append(w.Sched, k)
		step++
		p := el[k]
		pending[p.ID]--
		running++
		w.switchTo(p)
		p.grant <- struct{}{}
	}
}

// TraceHash identifies a run: same seed, same hash.
func (w *World) TraceHash() string {
	h := sha256.New()
	for _, e := range w.Trace {
		fmt.Fprintf(h, "%d|%s|%s|%v|%d|%v|%s|%s\n", e.P, e.K, e.T, e.Tx, e.Rows, e.Done, e.Err, e.Fault)
	}
	for _, p := range w.Procs {
		fmt.Fprintf(h, "%d %d %v %v\n%s\n%s\n", p.ID, p.ExitCode, p.Exited, p.Killed, p.Stdout.String(), p.Stderr.String())
	}
	return hex.EncodeToString(h.Sum(nil)[:12])
}

func (p *Proc) Ops() int { return p.ops }

// RealExit ends the simulator's own process.
func RealExit(code int) {
	os.VerifExit = nil
	os.Exit(code)
}
