package kern

import (
	"context"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
)

type connector struct {
	p      *Proc
	drv    string
	dsn    string
	target Target
	perr   error
	real   driver.Driver
}

// TargetOf extracts, with the real driver's own code, what a DSN connects to.
var TargetOf = map[string]func(dsn string, real driver.Driver) (Target, error){}

func verifOpen(name, dsn string, real driver.Driver) (driver.Connector, error) {
	hookMu.Lock()
	w := world
	hookMu.Unlock()
	if w == nil || w.cur == nil {
		return nil, nil
	}
	if real == nil {
		return nil, fmt.Errorf("sql: unknown driver %q (forgotten import?)", name)
	}
	c := &connector{p: w.cur, drv: name, dsn: dsn, real: real}
	if f := TargetOf[name]; f != nil {
		c.target, c.perr = f(dsn, real)
		if c.perr != nil && name == "mysql" {
			return nil, c.perr // the real driver parses the DSN in Open
		}
	}
	return c, nil
}

func (c *connector) Driver() driver.Driver { return c.real }

func (c *connector) Connect(ctx context.Context) (driver.Conn, error) {
	w := c.p.w
	i, f, ok := c.p.op("connect", c.target.String())
	if !ok {
		return nil, errors.New("process ended")
	}
	if c.perr != nil {
		w.Trace[i].Err = c.perr.Error()
		return nil, c.perr
	}
	w.Targets = append(w.Targets, c.target)
	srv := w.Servers[c.drv]
	fail := func(err error) (driver.Conn, error) {
		w.Trace[i].Err = err.Error()
		return nil, err
	}
	if f != nil {
		switch f.Kind {
		case "err":
			if srv != nil {
				return fail(srv.Error("connect", f.Arg))
			}
		case "refuse", "drop", "badconn", "dropack":
			return fail(&net.OpError{Op: "dial", Net: c.target.Net, Err: errors.New("connect: connection refused")})
		}
	}
	if srv == nil {
		return fail(fmt.Errorf("no server for driver %s", c.drv))
	}
	if w.Refuse != nil {
		if err := w.Refuse(c.target); err != nil {
			return fail(err)
		}
	}
	s, err := srv.Connect(c.target)
	if err != nil {
		return fail(err)
	}
	w.nextSess++
	sc := &simConn{p: c.p, srv: srv, s: s, id: w.nextSess}
	c.p.sessions[sc.id] = sc
	w.Trace[i].Done, w.Trace[i].Sess = true, sc.id
	if f != nil && f.Kind == "killack" {
		c.p.kill(f)
	}
	return sc, nil
}

type simConn struct {
	p      *Proc
	srv    Server
	s      Session
	id     int
	intx   bool
	broken bool
	gone   bool
	last   int // event of the last exchange
}

func (c *simConn) dropSession() {
	if !c.gone {
		c.gone = true
		if v, ok := c.s.(interface{ Vanish() }); ok {
			v.Vanish()
		} else {
			c.s.Close()
		}
		c.p.w.LockVer++
	}
}

func (c *simConn) lost() error {
	c.broken = true
	c.dropSession()
	return c.srv.Error("lost", 0)
}

// do runs one request/response exchange under the fault plan.
func (c *simConn) do(kind, text string, run func() (*Result, error)) (*Result, *Fault, error) {
	w := c.p.w
	c.last = -1
	if c.broken {
		if c.p.dead {
			return nil, nil, errors.New("process ended")
		}
		return nil, nil, driver.ErrBadConn
	}
	i, f, ok := c.p.op(kind, text)
	if !ok {
		return nil, nil, errors.New("process ended")
	}
	ev := func() *Event { return &w.Trace[i] }
	c.last = i
	ev().Sess, ev().Tx = c.id, c.intx
	if f != nil {
		switch f.Kind {
		case "err":
			e := c.srv.Error(kind, f.Arg)
			ev().Err = e.Error()
			c.s.Abort(kind, e)
			return nil, f, e
		case "drop":
			e := c.lost()
			ev().Err = e.Error()
			return nil, f, e
		case "badconn":
			// the server had closed the idle connection; found before anything is sent
			c.broken = true
			c.dropSession()
			ev().Err = "bad connection"
			return nil, f, driver.ErrBadConn
		}
	}
	disk, _ := c.srv.(Disk)
	var df *Fault
	if f != nil && strings.HasPrefix(f.Kind, "disk-") {
		df = f
	}
	if disk != nil {
		disk.Arm(df)
	}
	r, err := run()
	if disk != nil {
		n, hit, slept := disk.Disarm()
		w.ClockNs += slept
		ev().Disk = n
		if df != nil {
			if !hit {
				ev().Fault = ""
				f = nil
			} else {
				c.p.FaultsHit = append(c.p.FaultsHit, *df)
				if df.Kind == "disk-power" {
					ev().Err = "power lost"
					c.p.kill(df)
				}
			}
		}
	}
	for err == ErrWait {
		if !w.conc {
			err = errors.New("lock wait with a single process")
			break
		}
		c.p.waitLock = w.LockVer
		w.req <- c.p
		<-c.p.grant
		c.p.waitLock = -1
		if c.p.dead {
			return nil, nil, errors.New("process ended")
		}
		r, err = run()
	}
	if r != nil {
		ev().Mut = r.Mut
		ev().Rows = len(r.Rows)
	}
	if err != nil {
		ev().Err = err.Error()
	} else {
		ev().Done = true
	}
	if f != nil {
		switch f.Kind {
		case "killack":
			c.p.kill(f)
		case "dropack":
			e := c.lost()
			ev().Err = e.Error()
			return nil, f, e
		}
	}
	return r, f, err
}

func vals(a []driver.NamedValue) []interface{} {
	var o []interface{}
	for _, x := range a {
		switch v := x.Value.(type) {
		case []byte:
			o = append(o, string(v))
		default:
			o = append(o, v)
		}
	}
	return o
}

func (c *simConn) query(q string, a []interface{}) (driver.Rows, error) {
	r, f, err := c.do("query", sqlText(q, a), func() (*Result, error) { return c.s.Exec(q, a) })
	if err != nil {
		return nil, err
	}
	rows := &simRows{c: c, r: r, fail: -1, ev: c.last}
	if f != nil && f.Kind == "rowerr" {
		rows.fail, rows.err = 0, f.Arg/RowSteps
		if n := len(r.Rows); n > 0 {
			rows.fail = f.Arg % RowSteps % (n + 1)
		}
	}
	return rows, nil
}

func sqlText(q string, a []interface{}) string {
	if len(a) == 0 {
		return q
	}
	return fmt.Sprintf("%s /* args %v */", q, a)
}

func (c *simConn) exec(q string, a []interface{}) (driver.Result, error) {
	_, _, err := c.do("exec", sqlText(q, a), func() (*Result, error) { return c.s.Exec(q, a) })
	if err != nil {
		return nil, err
	}
	return driver.ResultNoRows, nil
}

func (c *simConn) QueryContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Rows, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if len(a) > 0 && c.srv.PrepareWithArgs() {
		return nil, driver.ErrSkip
	}
	return c.query(q, vals(a))
}

func (c *simConn) ExecContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Result, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if len(a) > 0 && c.srv.PrepareWithArgs() {
		return nil, driver.ErrSkip
	}
	return c.exec(q, vals(a))
}

func (c *simConn) Ping(ctx context.Context) error {
	_, _, err := c.do("ping", "", func() (*Result, error) { return nil, nil })
	return err
}

type simStmt struct {
	c *simConn
	q string
}

func (c *simConn) Prepare(q string) (driver.Stmt, error) {
	if c.broken {
		return nil, driver.ErrBadConn
	}
	return &simStmt{c, q}, nil
}
func (s *simStmt) Close() error  { return nil }
func (s *simStmt) NumInput() int { return -1 }
func dvals(a []driver.Value) []interface{} {
	var o []interface{}
	for _, v := range a {
		if b, ok := v.([]byte); ok {
			o = append(o, string(b))
		} else {
			o = append(o, v)
		}
	}
	return o
}
func (s *simStmt) Exec(a []driver.Value) (driver.Result, error) { return s.c.exec(s.q, dvals(a)) }
func (s *simStmt) Query(a []driver.Value) (driver.Rows, error)  { return s.c.query(s.q, dvals(a)) }

func (c *simConn) Close() error {
	if c.p.dead || c.gone {
		c.dropSession()
		return nil
	}
	c.p.w.mu.Lock()
	c.p.w.Trace = append(c.p.w.Trace, Event{P: c.p.ID, N: -1, K: "close", Sess: c.id, Done: true})
	c.p.w.mu.Unlock()
	c.gone = true
	c.s.Close()
	c.p.w.LockVer++
	return nil
}

func (c *simConn) Begin() (driver.Tx, error) {
	return c.BeginTx(context.Background(), driver.TxOptions{})
}

func (c *simConn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	_, _, err := c.do("begin", "", func() (*Result, error) { return nil, c.s.Begin() })
	if err != nil {
		return nil, err
	}
	c.intx = true
	return &simTx{c}, nil
}

func (c *simConn) ResetSession(ctx context.Context) error {
	if c.broken {
		return driver.ErrBadConn
	}
	return nil
}
func (c *simConn) IsValid() bool { return !c.broken }

type simTx struct{ c *simConn }

func (t *simTx) Commit() error {
	_, _, err := t.c.do("commit", "", func() (*Result, error) {
		t.c.p.w.LockVer++
		return nil, t.c.s.Commit()
	})
	t.c.intx = false
	return err
}
func (t *simTx) Rollback() error {
	_, _, err := t.c.do("rollback", "", func() (*Result, error) {
		t.c.p.w.LockVer++
		return nil, t.c.s.Rollback()
	})
	t.c.intx = false
	return err
}

type simRows struct {
	c    *simConn
	r    *Result
	i    int
	fail int
	err  int // the server's error that ends it, or 0: the connection is lost
	ev   int
}

func (r *simRows) Columns() []string { return r.r.Cols }
func (r *simRows) Close() error      { return nil }
func (r *simRows) Next(dest []driver.Value) error {
	if r.c.p.dead {
		return errors.New("process ended")
	}
	if r.i == r.fail {
		var err error
		if r.err > 0 {
			err = r.c.srv.Error("query", r.err-1)
			r.c.s.Abort("query", err)
		} else {
			r.c.broken = true
			r.c.dropSession()
			err = r.c.srv.Error("lost", 0)
		}
		r.c.p.w.Trace[r.ev].Err = err.Error()
		return err
	}
	if r.i >= len(r.r.Rows) {
		return io.EOF
	}
	for j, v := range r.r.Rows[r.i] {
		switch x := v.(type) {
		case string:
			if r.c.srv.BytesForText() {
				dest[j] = []byte(x)
			} else {
				dest[j] = x
			}
		default:
			dest[j] = x
		}
	}
	r.i++
	return nil
}

// Stmts renders the statements of a trace, for messages.
func Stmts(tr []Event, p int) []string {
	var o []string
	for _, e := range tr {
		if e.P == p && e.K == "exec" {
			o = append(o, strings.TrimSpace(e.T))
		}
	}
	return o
}
