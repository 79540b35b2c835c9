// Package mssrv simulates a SQL Server database as far as schema management is
// concerned: transactional DDL, the catalog views the client's introspection
// reads, and the way the server stores and shows defaults, checks and views.
package mssrv

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	mssql "github.com/denisenkom/go-mssqldb"
	"verifsim/dbm"
	"verifsim/kern"
	"verifsim/minisql"
	. "verifsim/sqlx"
)

type Server struct {
	Addr     string
	Accounts map[string]string
	DBs      map[string]*dbm.DB
	Order    func(n int) []int
	lock     map[string]*sess
}

func New() *Server {
	return &Server{Accounts: map[string]string{"sa": ""}, DBs: map[string]*dbm.DB{}, lock: map[string]*sess{}}
}

func NewDB(name string) *dbm.DB {
	d := dbm.NewDB(name)
	d.Schemas["dbo"] = true
	return d
}

func errf(n int32, f string, a ...interface{}) error {
	return mssql.Error{Number: n, State: 1, Class: 16, Message: fmt.Sprintf(f, a...), ServerName: "sim", LineNo: 1}
}

type msErr struct{ e error }

func bad(n int32, f string, a ...interface{}) { panic(msErr{errf(n, f, a...)}) }

func (s *Server) BytesForText() bool    { return false }
func (s *Server) PrepareWithArgs() bool { return false }

var failures = map[string][]error{
	"connect": {errf(18456, "Login failed for user 'u'."), errf(4060, "Cannot open database \"app\" that was requested by the login. The login failed."), errf(17809, "Could not connect because the maximum number of '10' user connections has already been reached."), errf(18451, "Login failed for user 'u'. Only administrators may connect at this time.")},
	"query": {errf(1222, "Lock request time out period exceeded."), errf(1205, "Transaction (Process ID 52) was deadlocked on lock resources with another process and has been chosen as the deadlock victim. Rerun the transaction."), errf(229, "The SELECT permission was denied on the object 'columns', database 'mssqlsystemresource', schema 'sys'."),
		errf(208, "Invalid object name 'sys.identity_columns'."), errf(601, "Could not continue scan with NOLOCK due to data movement."), errf(207, "Invalid column name 'is_incremental'."), errf(701, "There is insufficient system memory in resource pool 'default' to run this query."), errf(297, "The user does not have permission to perform this action.")},
	"exec": {errf(1222, "Lock request time out period exceeded."), errf(1205, "Transaction (Process ID 52) was deadlocked on lock resources with another process and has been chosen as the deadlock victim. Rerun the transaction."), errf(229, "The REFERENCES permission was denied on the object 't', database 'app', schema 'dbo'."),
		errf(3906, "Failed to update database \"app\" because the database is read-only."), errf(1105, "Could not allocate space for object 'dbo.t' in database 'app' because the 'PRIMARY' filegroup is full."), errf(2714, "There is already an object named 't' in the database."), errf(3701, "Cannot drop the table 't', because it does not exist or you do not have permission."),
		errf(1913, "The operation failed because an index or statistics with name 'i' already exists on table 'dbo.t'."), errf(3728, "'c' is not a constraint."), errf(2705, "Column names in each table must be unique. Column name 'c' in table 'dbo.t' is specified more than once."), errf(4902, "Cannot find the object \"dbo.t\" because it does not exist or you do not have permissions."),
		errf(4924, "ALTER TABLE DROP COLUMN failed because column 'c' does not exist in table 't'."), errf(1505, "The CREATE UNIQUE INDEX statement terminated because a duplicate key was found for the object name 'dbo.t' and the index name 'i'."), errf(547, "The ALTER TABLE statement conflicted with the FOREIGN KEY constraint \"f\"."), errf(1088, "Cannot find the object \"t\" because it does not exist or you do not have permissions.")},
}

// Error is one of the errors the server has for such an operation.
func (s *Server) Error(kind string, n int) error {
	if kind == "lost" {
		return fmt.Errorf("read tcp 127.0.0.1:40000->127.0.0.1:1433: read: connection reset by peer")
	}
	l := failures[kind]
	if l == nil {
		l = failures["exec"][:1]
	}
	return l[n%len(l)]
}

func (s *Server) Connect(t kern.Target) (kern.Session, error) {
	if s.Addr != "" && t.Net+" "+t.Addr != s.Addr {
		return nil, fmt.Errorf("Unable to open tcp connection with host '%s': dial %s %s: connect: connection refused", t.Addr, t.Net, t.Addr)
	}
	pw, ok := s.Accounts[t.User]
	if !ok || pw != t.Password {
		return nil, errf(18456, "Login failed for user '%s'.", t.User)
	}
	n := t.DB
	if s.DBs[n] == nil {
		return nil, errf(4060, "Cannot open database \"%s\" that was requested by the login. The login failed.", t.DB)
	}
	return &sess{s: s, db: n}, nil
}

type sess struct {
	s    *Server
	db   string
	intx bool
	work *dbm.DB
}

func (c *sess) unlock() {
	if c.s.lock[c.db] == c {
		delete(c.s.lock, c.db)
	}
}
func (c *sess) Begin() error { c.intx = true; return nil }
func (c *sess) Commit() error {
	if c.work != nil {
		c.s.DBs[c.db] = c.work
	}
	c.Rollback()
	return nil
}
func (c *sess) Rollback() error {
	c.intx, c.work = false, nil
	c.unlock()
	return nil
}

// Abort: an interrupted statement leaves the transaction open, without it.
func (c *sess) Abort(kind string, err error) {
	var e mssql.Error
	if kind == "commit" || kind == "rollback" || errors.As(err, &e) && e.Number == 1205 {
		c.Rollback() // the victim of a deadlock loses its transaction
	}
}
func (c *sess) Close() { c.Rollback() }

func (c *sess) cur() *dbm.DB {
	if c.work != nil {
		return c.work
	}
	return c.s.DBs[c.db]
}

func readOnly(p *P) bool { return p.PeekKw("select") || p.IsOp(0, "(") }

// wholeBatch: statements that have to be the only one of their batch.
func wholeBatch(p *P) bool {
	return p.PeekKw("create view") || p.PeekKw("create trigger") || p.PeekKw("create or alter view") || p.PeekKw("create or alter trigger") || p.PeekKw("alter view") || p.PeekKw("alter trigger")
}

// Exec runs one batch.
func (c *sess) Exec(sql string, args []interface{}) (*kern.Result, error) {
	p, err := NewP(sql, MSSQL)
	if err != nil {
		return &kern.Result{Mut: true}, errf(102, "Incorrect syntax near '%s'.", err)
	}
	var parts []string
	mut := false
	if wholeBatch(p) {
		parts, mut = []string{sql}, true
	} else {
		st := 0
		for i, t := range p.T {
			if t.K == 0 || t.K == 'o' && t.S == ";" {
				if i > st {
					parts = append(parts, p.Text(st, i))
					p.I = st
					if !readOnly(p) {
						mut = true
					}
				}
				st = i + 1
			}
		}
	}
	if len(parts) == 0 {
		return &kern.Result{}, nil
	}
	// schema locks: readers of the catalog wait for an uncommitted change too
	if o := c.s.lock[c.db]; o != nil && o != c {
		return nil, kern.ErrWait
	}
	was := c.work
	if mut {
		c.s.lock[c.db] = c
		c.work = c.cur().Clone()
	}
	var res *kern.Result
	for k, q := range parts {
		if k > 0 {
			p, _ := NewP(q, MSSQL)
			if wholeBatch(p) {
				err = errf(111, "'CREATE VIEW' must be the first statement in a query batch.")
				break
			}
		}
		res, err = c.one(q, args)
		if err != nil {
			break
		}
	}
	if res == nil {
		res = &kern.Result{}
	}
	res.Mut = mut
	if err != nil {
		c.work = was
		if !c.intx {
			c.Rollback()
		}
		return res, err
	}
	if mut && !c.intx {
		c.s.DBs[c.db] = c.work
		c.Rollback()
	}
	return res, nil
}

func (c *sess) one(sql string, args []interface{}) (res *kern.Result, err error) {
	p, _ := NewP(sql, MSSQL)
	if readOnly(p) {
		cols, rows, e := minisql.Query(sql, c.s.env(c.cur(), args))
		if e != nil {
			return nil, errf(102, "%s", e)
		}
		return &kern.Result{Cols: cols, Rows: rows}, nil
	}
	perr := Parse(sql, MSSQL, func(p *P) {
		defer func() {
			if r := recover(); r != nil {
				if m, ok := r.(msErr); ok {
					err = m.e
					p.I = len(p.T) - 1
					return
				}
				panic(r)
			}
		}()
		x := &ex{s: c.s, db: c.work, p: p, batch: sql}
		x.stmt()
	})
	if err == nil && perr != nil {
		err = errf(102, "Incorrect syntax: %s", perr)
	}
	return &kern.Result{}, err
}

// AdminExec runs a batch in one database outside any simulated process.
func (s *Server) AdminExec(db, sql string) error {
	c := &sess{s: s, db: db}
	_, err := c.Exec(sql, nil)
	return err
}

type ex struct {
	s     *Server
	db    *dbm.DB
	p     *P
	batch string
}

func (x *ex) qn() (sch, name string) {
	p := x.p
	q := p.QName()
	if len(q) == 3 && strings.EqualFold(q[0], x.db.Name) {
		q = q[1:]
	}
	switch len(q) {
	case 1:
		return "dbo", q[0]
	case 2:
		for s := range x.db.Schemas {
			if strings.EqualFold(s, q[0]) {
				return s, q[1]
			}
		}
		bad(2760, "The specified schema name \"%s\" either does not exist or you do not have permission to use it.", q[0])
	}
	p.Fail()
	return
}

func find(d *dbm.DB, sch, n string) *dbm.Table {
	for _, t := range d.Tables {
		if strings.EqualFold(t.Schema, sch) && strings.EqualFold(t.Name, n) {
			return t
		}
	}
	return nil
}
func findView(d *dbm.DB, sch, n string) *dbm.View {
	for _, t := range d.Views {
		if strings.EqualFold(t.Schema, sch) && strings.EqualFold(t.Name, n) {
			return t
		}
	}
	return nil
}

func (x *ex) table(op string) *dbm.Table {
	sch, n := x.qn()
	t := find(x.db, sch, n)
	if t == nil {
		if findView(x.db, sch, n) != nil {
			bad(4909, "Cannot alter '%s' because it is not a table.", n)
		}
		if op == "DROP" {
			bad(3701, "Cannot drop the table '%s', because it does not exist or you do not have permission.", n)
		}
		bad(4902, "Cannot find the object \"%s\" because it does not exist or you do not have permissions.", n)
	}
	return t
}

// objects (tables, views, triggers, constraints) share one namespace per schema
func (x *ex) taken(sch, n string) bool {
	if find(x.db, sch, n) != nil || findView(x.db, sch, n) != nil {
		return true
	}
	for _, g := range x.db.Triggers {
		if strings.EqualFold(g.Schema, sch) && strings.EqualFold(g.Name, n) {
			return true
		}
	}
	for _, t := range x.db.Tables {
		if !strings.EqualFold(t.Schema, sch) {
			continue
		}
		for _, i := range t.Idx {
			if i.Con && strings.EqualFold(i.Name, n) {
				return true
			}
		}
		if t.FK(n, true) != nil {
			return true
		}
		for _, c := range t.Checks {
			if strings.EqualFold(c.Name, n) {
				return true
			}
		}
		for _, c := range t.Cols {
			if strings.EqualFold(c.Get("dfn"), n) {
				return true
			}
		}
	}
	return false
}

func (x *ex) newName(t *dbm.Table, n string) {
	if x.taken(t.Schema, n) {
		bad(2714, "There is already an object named '%s' in the database.", n)
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (x *ex) auto(kind string, t *dbm.Table, col string) string {
	h := fmt.Sprintf("%08X", uint32(x.db.NewID())*2654435761)
	switch kind {
	case "PK", "UQ":
		return fmt.Sprintf("%s__%s__%s%s", kind, cut(t.Name, 8), fmt.Sprintf("%08X", uint32(t.ID)*40503), h)
	}
	if col == "" {
		return fmt.Sprintf("%s__%s__%s", kind, cut(t.Name, 9), h)
	}
	return fmt.Sprintf("%s__%s__%s__%s", kind, cut(t.Name, 9), cut(col, 5), h)
}

// AutoName tells names the server made up from names it was given.
func AutoName(kind, n string) bool {
	for _, k := range []string{"PK__", "UQ__", "DF__", "CK__", "FK__"} {
		if strings.HasPrefix(n, k) {
			return true
		}
	}
	return false
}

func (x *ex) stmt() {
	p := x.p
	switch {
	case p.Kw("create table"):
		x.createTable()
	case p.PeekKw("create unique") || p.PeekKw("create clustered") || p.PeekKw("create nonclustered") || p.PeekKw("create index"):
		x.createIndex()
	case p.Kw("create view"):
		x.createView(false)
	case p.Kw("create or alter view"):
		x.createView(true)
	case p.Kw("create trigger"):
		x.createTrigger(false)
	case p.Kw("create or alter trigger"):
		x.createTrigger(true)
	case p.Kw("create schema"):
		n := p.Ident()
		if x.db.Schemas[n] {
			bad(2714, "There is already an object named '%s' in the database.", n)
		}
		x.db.Schemas[n] = true
	case p.Kw("drop table"):
		ie := p.Kw("if exists")
		p.Commas(func() {
			i := p.I
			sch, n := x.qn()
			if find(x.db, sch, n) == nil && ie {
				return
			}
			p.I = i
			x.dropTable(x.table("DROP"))
		})
	case p.Kw("drop view"):
		ie := p.Kw("if exists")
		p.Commas(func() {
			sch, n := x.qn()
			v := findView(x.db, sch, n)
			if v == nil {
				if ie {
					return
				}
				bad(3701, "Cannot drop the view '%s', because it does not exist or you do not have permission.", n)
			}
			var o []*dbm.View
			for _, y := range x.db.Views {
				if y != v {
					o = append(o, y)
				}
			}
			x.db.Views = o
		})
	case p.Kw("drop trigger"):
		ie := p.Kw("if exists")
		sch, n := x.qn()
		var o []*dbm.Trigger
		for _, g := range x.db.Triggers {
			if !strings.EqualFold(g.Schema, sch) || !strings.EqualFold(g.Name, n) {
				o = append(o, g)
			}
		}
		if len(o) == len(x.db.Triggers) && !ie {
			bad(3701, "Cannot drop the trigger '%s', because it does not exist or you do not have permission.", n)
		}
		x.db.Triggers = o
	case p.Kw("drop index"):
		ie := p.Kw("if exists")
		n := p.Name()
		p.MustKw("on")
		t := x.table("")
		i := t.Index(n, true)
		if i == nil {
			if ie {
				return
			}
			bad(3701, "Cannot drop the index '%s.%s', because it does not exist or you do not have permission.", t.Name, n)
		}
		if i.Con {
			bad(3723, "An explicit DROP INDEX is not allowed on index '%s.%s'. It is being used for %s KEY constraint enforcement.", t.Name, n, i.Kind)
		}
		x.needUnique(t, i, 3723)
		x.rmIdx(t, i)
	case p.Kw("alter table"):
		x.alter()
	default:
		p.Fail()
	}
}

func (x *ex) rmIdx(t *dbm.Table, i *dbm.Index) {
	var o []*dbm.Index
	for _, y := range t.Idx {
		if y != i {
			o = append(o, y)
		}
	}
	t.Idx = o
}

// needUnique refuses to remove a key a foreign key refers to.
func (x *ex) needUnique(t *dbm.Table, i *dbm.Index, n int32) {
	if i.Kind != "PRIMARY" && i.Kind != "UNIQUE" {
		return
	}
	for _, o := range x.db.Tables {
		for _, f := range o.FKs {
			if refs(f, t) && sameSet(f.RefCols, i.Names()) {
				bad(n, "The constraint '%s' is being referenced by table '%s', foreign key constraint '%s'.", i.Name, o.Name, f.Name)
			}
		}
	}
}

func refs(f *dbm.FK, t *dbm.Table) bool {
	return strings.EqualFold(f.RefSch, t.Schema) && strings.EqualFold(f.RefTable, t.Name)
}

func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	k := func(s []string) string {
		o := []string{}
		for _, y := range s {
			o = append(o, strings.ToLower(y))
		}
		sort.Strings(o)
		return strings.Join(o, ",")
	}
	return k(a) == k(b)
}

func (x *ex) dropTable(t *dbm.Table) {
	for _, o := range x.db.Tables {
		for _, f := range o.FKs {
			if o != t && refs(f, t) {
				bad(3726, "Could not drop object '%s' because it is referenced by a FOREIGN KEY constraint.", t.Name)
			}
		}
	}
	var o []*dbm.Table
	for _, y := range x.db.Tables {
		if y != t {
			o = append(o, y)
		}
	}
	x.db.Tables = o
	var g []*dbm.Trigger
	for _, y := range x.db.Triggers {
		if !strings.EqualFold(y.Table, t.Schema+"."+t.Name) {
			g = append(g, y)
		}
	}
	x.db.Triggers = g
}

func (x *ex) createTable() {
	p := x.p
	sch, n := x.qn()
	if x.taken(sch, n) {
		bad(2714, "There is already an object named '%s' in the database.", n)
	}
	t := &dbm.Table{ID: x.db.NewID(), Schema: sch, Name: n}
	x.db.Tables = append(x.db.Tables, t)
	var later []def
	p.List(func() {
		if p.IsOp(0, ")") { // a trailing comma is accepted
			return
		}
		if f, ok := x.constraint(t); ok {
			later = append(later, f)
			return
		}
		later = append(later, x.column(t)...)
	})
	x.partition()
	x.run(t, later)
	if len(t.Cols) == 0 {
		p.Fail()
	}
}

// partition skips ON filegroup and TEXTIMAGE_ON
func (x *ex) partition() (on string) {
	p := x.p
	for {
		switch {
		case p.Kw("on"), p.Kw("textimage_on"):
			n := p.Ident()
			if p.IsOp(0, "(") && strings.EqualFold(n, "ps_app") { // a partition scheme that is there
				on = n + "(" + strings.ToLower(strings.Join(p.IdentList(), ",")) + ")"
				continue
			}
			if !strings.EqualFold(n, "primary") && !strings.EqualFold(n, "default") {
				bad(1921, "Invalid filegroup '%s' specified.", n)
			}
		default:
			return on
		}
	}
}

// def is a constraint or index to be made once the table's columns are there.
type def struct {
	rank int // keys first
	pk   bool
	cl   string // CLUSTERED, NONCLUSTERED or not said
	f    func(cl string)
}

func (x *ex) run(t *dbm.Table, ds []def) {
	// an unspecified primary key is clustered unless something else is
	cl := 0
	for _, i := range t.Idx {
		if i.A["type"] == "CLUSTERED" {
			cl++
		}
	}
	for _, d := range ds {
		if d.cl == "CLUSTERED" {
			cl++
		}
	}
	sort.SliceStable(ds, func(i, j int) bool { return ds[i].rank < ds[j].rank })
	for _, d := range ds {
		c := d.cl
		if c == "" {
			c = "NONCLUSTERED"
			if d.pk && cl == 0 {
				c = "CLUSTERED"
			}
		}
		d.f(c)
	}
}

func (x *ex) clustered() string {
	switch {
	case x.p.Kw("clustered"):
		return "CLUSTERED"
	case x.p.Kw("nonclustered"):
		return "NONCLUSTERED"
	}
	return ""
}

func (x *ex) idxCols(i *dbm.Index) {
	p := x.p
	p.List(func() {
		c := dbm.IdxCol{Name: p.Name()}
		if p.Kw("desc") {
			c.Desc = true
		} else {
			p.Kw("asc")
		}
		i.Cols = append(i.Cols, c)
	})
}

var idxOpts = []string{"pad_index", "fillfactor", "ignore_dup_key", "statistics_norecompute", "statistics_incremental", "allow_row_locks", "allow_page_locks"}
var idxDef = []string{"OFF", "0", "OFF", "OFF", "OFF", "ON", "ON"}

func (x *ex) idxTail(i *dbm.Index) {
	p := x.p
	for k, o := range idxOpts {
		i.A[o] = idxDef[k]
	}
	if p.Kw("include") {
		i.A["include"] = strings.Join(p.IdentList(), ",")
	}
	if p.Kw("where") {
		bad(102, "filtered indexes are outside the simulation")
	}
	if p.Kw("with") {
		p.List(func() {
			n := strings.ToLower(p.Ident())
			ok := false
			for _, o := range idxOpts {
				ok = ok || o == n
			}
			if !ok {
				bad(155, "'%s' is not a recognized CREATE INDEX option.", n)
			}
			p.MustOp("=")
			if n == "fillfactor" {
				v := p.Num()
				if v == "0" || strings.HasPrefix(v, "-") || len(v) > 3 || len(v) == 3 && v != "100" {
					bad(129, "Fillfactor %s is not a valid percentage; fillfactor must be between 1 and 100.", v)
				}
				i.A[n] = v
				return
			}
			switch {
			case p.Kw("on"):
				i.A[n] = "ON"
			case p.Kw("off"):
				i.A[n] = "OFF"
			default:
				p.Fail()
			}
		})
	}
	i.A["space"] = x.partition()
}

func isNFR(p *P) bool { return p.Kw("not for replication") }

// constraint parses a table constraint or an index inside a table's definition.
func (x *ex) constraint(t *dbm.Table) (def, bool) {
	p := x.p
	name := ""
	if p.Kw("constraint") {
		name = p.Name()
	} else if !(p.PeekKw("primary key") || p.PeekKw("unique") || p.PeekKw("foreign key") || p.PeekKw("check") && p.IsOp(1, "(") || p.PeekKw("check not for") || p.PeekKw("index")) {
		return def{}, false
	}
	switch {
	case p.Kw("primary key"):
		i := &dbm.Index{Name: name, Kind: "PRIMARY", Con: true, A: map[string]string{}}
		cl := x.clustered()
		x.idxCols(i)
		x.idxTail(i)
		return def{0, true, cl, func(c string) { x.addIndex(t, i, c) }}, true
	case p.Kw("unique"):
		i := &dbm.Index{Name: name, Kind: "UNIQUE", Con: true, A: map[string]string{}}
		cl := x.clustered()
		x.idxCols(i)
		x.idxTail(i)
		return def{0, false, cl, func(c string) { x.addIndex(t, i, c) }}, true
	case p.Kw("foreign key"):
		f := &dbm.FK{Name: name}
		f.Cols = p.IdentList()
		x.refs(f)
		return def{2, false, "-", func(string) { x.addFK(t, f) }}, true
	case p.Kw("check"):
		return x.check(t, name, ""), true
	case name == "" && p.Kw("index"):
		i := &dbm.Index{Name: p.Name(), A: map[string]string{}}
		if p.Kw("unique") {
			i.Kind = "UNIQUE"
		}
		cl := x.clustered()
		x.idxCols(i)
		x.idxTail(i)
		return def{1, false, cl, func(c string) { x.addIndex(t, i, c) }}, true
	}
	p.Fail()
	return def{}, false
}

func (x *ex) refs(f *dbm.FK) {
	p := x.p
	p.MustKw("references")
	f.RefSch, f.RefTable = x.qn()
	if p.IsOp(0, "(") {
		f.RefCols = p.IdentList()
	}
	f.OnDelete, f.OnUpdate = "NO_ACTION", "NO_ACTION"
	act := func() string {
		switch {
		case p.Kw("no action"):
			return "NO_ACTION"
		case p.Kw("cascade"):
			return "CASCADE"
		case p.Kw("set null"):
			return "SET_NULL"
		case p.Kw("set default"):
			return "SET_DEFAULT"
		}
		p.Fail()
		return ""
	}
	for {
		switch {
		case p.Kw("on delete"):
			f.OnDelete = act()
		case p.Kw("on update"):
			f.OnUpdate = act()
		case isNFR(p):
			f.NFR = true
		default:
			return
		}
	}
}

func (x *ex) addFK(t *dbm.Table, f *dbm.FK) {
	r := find(x.db, f.RefSch, f.RefTable)
	nm := f.Name
	if r == nil {
		bad(1767, "Foreign key '%s' references invalid table '%s'.", nm, f.RefTable)
	}
	f.RefSch, f.RefTable = r.Schema, r.Name
	if len(f.RefCols) == 0 {
		pk := r.PK()
		if pk == nil {
			bad(1773, "Foreign key '%s' has implicit reference to object '%s' which does not have a primary key defined on it.", nm, r.Name)
		}
		f.RefCols = pk.Names()
	}
	if len(f.Cols) != len(f.RefCols) {
		bad(8139, "Number of referencing columns in foreign key differs from number of referenced columns, table '%s'.", t.Name)
	}
	for i := range f.Cols {
		c := t.Col(f.Cols[i], true)
		if c == nil {
			bad(1769, "Foreign key '%s' references invalid column '%s' in referencing table '%s'.", nm, f.Cols[i], t.Name)
		}
		rc := r.Col(f.RefCols[i], true)
		if rc == nil {
			bad(1770, "Foreign key '%s' references invalid column '%s' in referenced table '%s'.", nm, f.RefCols[i], r.Name)
		}
		f.Cols[i], f.RefCols[i] = c.Name, rc.Name
		if c.Type != rc.Type {
			bad(1778, "Column '%s.%s' is not the same data type as referencing column '%s.%s' in foreign key '%s'.", r.Name, rc.Name, t.Name, c.Name, nm)
		}
		if c.NotNull && (f.OnDelete == "SET_NULL" || f.OnUpdate == "SET_NULL") {
			bad(1761, "Cannot create the foreign key \"%s\" with the SET NULL referential action, because one or more referencing columns are not nullable.", nm)
		}
		if c.Get("identity") != "" && f.OnUpdate != "NO_ACTION" {
			bad(1760, "Cascading update on an identity column")
		}
	}
	ok := false
	for _, i := range r.Idx {
		if (i.Kind == "PRIMARY" || i.Kind == "UNIQUE") && sameSet(i.Names(), f.RefCols) {
			ok = true
		}
	}
	if !ok {
		bad(1776, "There are no primary or candidate keys in the referenced table '%s' that match the referencing column list in the foreign key '%s'.", r.Name, nm)
	}
	if f.Name == "" {
		f.Name = x.auto("FK", t, f.Cols[0])
	} else {
		x.newName(t, f.Name)
	}
	casc := func(g *dbm.FK) bool { return g.OnDelete != "NO_ACTION" || g.OnUpdate != "NO_ACTION" }
	if casc(f) {
		// no cycles and no two ways between two tables
		edges := map[*dbm.Table][]*dbm.Table{}
		for _, o := range x.db.Tables {
			for _, g := range o.FKs {
				if casc(g) {
					edges[find(x.db, g.RefSch, g.RefTable)] = append(edges[find(x.db, g.RefSch, g.RefTable)], o)
				}
			}
		}
		edges[r] = append(edges[r], t)
		for _, s := range x.db.Tables {
			n := map[*dbm.Table]int{}
			var walk func(y *dbm.Table, d int)
			walk = func(y *dbm.Table, d int) {
				for _, z := range edges[y] {
					n[z]++
					if n[z] > 1 || z == s || d > 50 {
						bad(1785, "Introducing FOREIGN KEY constraint '%s' on table '%s' may cause cycles or multiple cascade paths.", f.Name, t.Name)
					}
					walk(z, d+1)
				}
			}
			walk(s, 0)
		}
	}
	for _, row := range t.Rows {
		null := false
		var vals []string
		for _, cn := range f.Cols {
			v, ok := row[t.Col(cn, false).ID]
			null = null || !ok
			vals = append(vals, v)
		}
		hit := null
		for _, rr := range r.Rows {
			m := true
			for i, rc := range f.RefCols {
				if v, ok := rr[r.Col(rc, false).ID]; !ok || v != vals[i] {
					m = false
				}
			}
			hit = hit || m
		}
		if !hit {
			bad(547, "The ALTER TABLE statement conflicted with the FOREIGN KEY constraint \"%s\".", f.Name)
		}
	}
	t.FKs = append(t.FKs, f)
}

func (x *ex) addIndex(t *dbm.Table, i *dbm.Index, cl string) {
	i.A["type"] = cl
	var names []string
	for k := range i.Cols {
		c := t.Col(i.Cols[k].Name, true)
		if c == nil {
			bad(1911, "Column name '%s' does not exist in the target table or view.", i.Cols[k].Name)
		}
		i.Cols[k].Name = c.Name
		for _, n := range names {
			if n == c.Name {
				bad(1909, "Cannot use duplicate column names in index. Column name '%s' listed more than once.", n)
			}
		}
		names = append(names, c.Name)
		if b := base(c.Type); b == "text" || b == "ntext" || b == "image" || b == "xml" || strings.HasSuffix(c.Type, "(max)") {
			bad(1919, "Column '%s' in table '%s' is of a type that is invalid for use as a key column in an index.", c.Name, t.Name)
		}
		if i.Kind == "PRIMARY" {
			if !c.NotNull && c.Get("maybe") == "" {
				bad(8111, "Cannot define PRIMARY KEY constraint on nullable column in table '%s'.", t.Name)
			}
			c.NotNull = true
		}
	}
	if inc := i.A["include"]; inc != "" {
		if cl == "CLUSTERED" {
			bad(10601, "Cannot specify included columns for a clustered index.")
		}
		var o []string
		for _, n := range strings.Split(inc, ",") {
			c := t.Col(n, true)
			if c == nil {
				bad(1911, "Column name '%s' does not exist in the target table or view.", n)
			}
			o = append(o, c.Name)
			for _, k := range names {
				if k == c.Name {
					bad(1909, "Cannot use duplicate column names in index. Column name '%s' listed more than once.", n)
				}
			}
			names = append(names, c.Name)
		}
		i.A["include"] = strings.Join(o, ",")
	}
	if i.A["ignore_dup_key"] == "ON" && i.Kind == "" {
		bad(1916, "CREATE INDEX options nonunique and ignore_dup_key are mutually exclusive.")
	}
	if i.Kind == "PRIMARY" && t.PK() != nil {
		bad(1779, "Table '%s' already has a primary key defined on it.", t.Name)
	}
	if cl == "CLUSTERED" {
		for _, o := range t.Idx {
			if o.A["type"] == "CLUSTERED" {
				bad(1902, "Cannot create more than one clustered index on table '%s'. Drop the existing clustered index '%s' before creating another.", t.Name, o.Name)
			}
		}
	}
	if i.Name == "" {
		k := "UQ"
		if i.Kind == "PRIMARY" {
			k = "PK"
		}
		i.Name = x.auto(k, t, "")
	} else if i.Con {
		x.newName(t, i.Name)
	}
	if t.Index(i.Name, true) != nil {
		bad(1913, "The operation failed because an index or statistics with name '%s' already exists on table '%s'.", i.Name, t.Name)
	}
	if i.Kind != "" {
		dup := map[string]bool{}
		for _, r := range t.Rows {
			k := ""
			for _, c := range i.Cols {
				v, ok := r[t.Col(c.Name, false).ID]
				k += fmt.Sprint(v, ok) + "\x00"
			}
			if dup[k] {
				bad(1505, "The CREATE UNIQUE INDEX statement terminated because a duplicate key was found for the object name '%s' and the index name '%s'.", t.Name, i.Name)
			}
			dup[k] = true
		}
	}
	t.Idx = append(t.Idx, i)
}

func (x *ex) check(t *dbm.Table, name, col string) def {
	p := x.p
	nfr := isNFR(p)
	p.MustOp("(")
	e := p.Expr()
	p.MustOp(")")
	return def{2, false, "-", func(string) {
		cols := map[string]bool{}
		e.Walk(func(y *E) {
			if y.Op == "col" {
				c := t.Col(y.V, true)
				if c == nil {
					bad(207, "Invalid column name '%s'.", y.V)
				}
				cols[c.Name] = true
			}
		})
		if !isCond(e) {
			bad(4145, "An expression of non-boolean type specified in a context where a condition is expected.")
		}
		if col != "" {
			for c := range cols {
				if !strings.EqualFold(c, col) {
					bad(8141, "Column CHECK constraint for column '%s' references another column, table '%s'.", col, t.Name)
				}
			}
		}
		var cl []string
		for c := range cols {
			cl = append(cl, c)
		}
		sort.Strings(cl)
		if name == "" {
			name = x.auto("CK", t, col)
		} else {
			x.newName(t, name)
		}
		// a check over exactly one column is that column's
		own := ""
		if col != "" {
			own = t.Col(col, true).Name
		} else if len(cl) == 1 {
			own = cl[0]
		}
		t.Checks = append(t.Checks, &dbm.Check{Name: name, Expr: "(" + show(e, t) + ")", Col: own, NFR: nfr})
	}}
}

func (x *ex) setDef(t *dbm.Table, c *dbm.Col, name string, e *E) {
	if c.HasDef {
		bad(1781, "Column already has a DEFAULT bound to it.")
	}
	if c.Get("identity") != "" {
		bad(1754, "Defaults cannot be created on columns with an IDENTITY attribute. Table '%s', column '%s'.", t.Name, c.Name)
	}
	e.Walk(func(y *E) {
		if y.Op == "col" {
			bad(128, "The name \"%s\" is not permitted in this context. Valid expressions are constants, constant expressions, and (in some contexts) variables. Column names are not permitted.", y.V)
		}
	})
	if name == "" {
		name = x.auto("DF", t, c.Name)
	} else {
		x.newName(t, name)
		if !AutoName("default", name) {
			c.Set("defname", name)
		}
	}
	c.Set("dfn", name)
	c.HasDef, c.Def = true, "("+show(unparen(e), t)+")"
}

func (x *ex) column(t *dbm.Table) []def {
	p := x.p
	name := p.Name()
	if t.Col(name, true) != nil {
		bad(2705, "Column names in each table must be unique. Column name '%s' in table '%s' is specified more than once.", name, t.Name)
	}
	c := &dbm.Col{Name: name}
	t.NextInc++
	c.ID = t.NextInc // column ids are never reused
	c.Type = x.typ()
	t.Cols = append(t.Cols, c)
	var later []def
	con := ""
	null := false
	c.Set("maybe", "1") // a primary key may still make it not null
	var defs []func()
	for {
		if p.Kw("constraint") {
			con = p.Name()
			continue
		}
		switch {
		case p.PeekKw("not for replication"):
			p.Fail()
		case p.Kw("not null"):
			c.NotNull = true
		case p.Kw("null"):
			null = true
		case p.Kw("collate"):
			c.Set("collate", p.Ident())
		case p.Kw("identity"):
			s, i := "1", "1"
			if p.IsOp(0, "(") {
				p.MustOp("(")
				s = p.Num()
				p.MustOp(",")
				i = p.Num()
				p.MustOp(")")
			}
			switch b := base(c.Type); b {
			case "int", "bigint", "smallint", "tinyint", "decimal", "numeric":
			default:
				bad(2749, "Identity column '%s' must be of data type int, bigint, smallint, tinyint, or decimal or numeric with a scale of 0, unencrypted, and constrained to be nonnullable.", name)
			}
			for _, o := range t.Cols {
				if o.Get("identity") != "" {
					bad(2744, "Multiple identity columns specified for table '%s'. Only one identity column per table is allowed.", t.Name)
				}
			}
			c.Set("identity", s+","+i)
			c.NotNull = true
			if isNFR(p) {
				c.Set("identnfr", "1")
			}
		case p.Kw("default"):
			n := con
			e := p.Expr()
			defs = append(defs, func() { x.setDef(t, c, n, e) })
		case p.Kw("primary key"):
			i := &dbm.Index{Name: con, Kind: "PRIMARY", Con: true, A: map[string]string{}, Cols: []dbm.IdxCol{{Name: name}}}
			cl := x.clustered()
			x.idxTail(i)
			later = append(later, def{0, true, cl, func(cl string) { x.addIndex(t, i, cl) }})
		case p.Kw("unique"):
			i := &dbm.Index{Name: con, Kind: "UNIQUE", Con: true, A: map[string]string{}, Cols: []dbm.IdxCol{{Name: name}}}
			cl := x.clustered()
			x.idxTail(i)
			later = append(later, def{0, false, cl, func(cl string) { x.addIndex(t, i, cl) }})
		case p.Kw("check"):
			later = append(later, x.check(t, con, name))
		case p.PeekKw("references"), p.PeekKw("foreign key references"):
			p.Kw("foreign key")
			f := &dbm.FK{Name: con, Cols: []string{name}}
			x.refs(f)
			later = append(later, def{2, false, "-", func(string) { x.addFK(t, f) }})
		default:
			if con != "" {
				p.Fail()
			}
			if null {
				if c.NotNull {
					bad(8147, "Could not create IDENTITY attribute on nullable column '%s', table '%s'.", name, t.Name)
				}
				c.Set("maybe", "")
			}
			later = append(later, def{3, false, "-", func(string) { c.Set("maybe", "") }})
			for _, d := range defs {
				d()
			}
			return later
		}
		con = ""
	}
}

func (x *ex) createIndex() {
	p := x.p
	p.MustKw("create")
	i := &dbm.Index{A: map[string]string{}}
	if p.Kw("unique") {
		i.Kind = "UNIQUE"
	}
	cl := x.clustered()
	if cl == "" {
		cl = "NONCLUSTERED"
	}
	p.MustKw("index")
	i.Name = p.Name()
	p.MustKw("on")
	sch, n := x.qn()
	t := find(x.db, sch, n)
	if t == nil {
		bad(1088, "Cannot find the object \"%s\" because it does not exist or you do not have permissions.", n)
	}
	x.idxCols(i)
	x.idxTail(i)
	x.addIndex(t, i, cl)
}

func (x *ex) alter() {
	p := x.p
	t := x.table("")
	if p.Kw("with check") || p.Kw("with nocheck") {
	}
	switch {
	case p.Kw("add"):
		var later []def
		var fresh []*dbm.Col
		p.Commas(func() {
			if con := p.I; p.PeekKw("constraint") || p.PeekKw("default") {
				name := ""
				if p.Kw("constraint") {
					name = p.Name()
				}
				if p.Kw("default") {
					e := p.Expr()
					p.MustKw("for")
					cn := p.Name()
					c := t.Col(cn, true)
					if c == nil {
						bad(1752, "Column '%s' in table '%s' is invalid for creating a default constraint.", cn, t.Name)
					}
					x.setDef(t, c, name, e)
					return
				}
				p.I = con
			}
			if !p.PeekKw("index") {
				if d, ok := x.constraint(t); ok {
					later = append(later, d)
					return
				}
			}
			later = append(later, x.column(t)...)
			fresh = append(fresh, t.Cols[len(t.Cols)-1])
		})
		x.run(t, later)
		for _, c := range fresh {
			if c.NotNull && !c.HasDef && c.Get("identity") == "" && len(t.Rows) > 0 {
				bad(4901, "ALTER TABLE only allows columns to be added that can contain nulls, or have a DEFAULT definition specified, or the column being added is an identity or timestamp column. Column '%s' cannot be added to non-empty table '%s'.", c.Name, t.Name)
			}
			for k, r := range t.Rows {
				switch {
				case c.Get("identity") != "":
					r[c.ID] = fmt.Sprint(k + 1)
				case c.HasDef && c.NotNull && c.Def != "(NULL)":
					r[c.ID] = strings.Trim(c.Def, "()")
				}
			}
		}
	case p.Kw("drop column"):
		ie := p.Kw("if exists")
		p.Commas(func() {
			n := p.Name()
			c := t.Col(n, true)
			if c == nil {
				if ie {
					return
				}
				bad(4924, "ALTER TABLE DROP COLUMN failed because column '%s' does not exist in table '%s'.", n, t.Name)
			}
			x.dropCol(t, c)
		})
	case p.Kw("drop"):
		p.Kw("constraint")
		ie := p.Kw("if exists")
		p.Commas(func() { x.dropCon(t, p.Name(), ie) })
	case p.Kw("alter column"):
		n := p.Name()
		c := t.Col(n, true)
		if c == nil {
			bad(4924, "ALTER TABLE ALTER COLUMN failed because column '%s' does not exist in table '%s'.", n, t.Name)
		}
		ty := x.typ()
		nn := false
		if p.Kw("not null") {
			nn = true
		} else {
			p.Kw("null")
		}
		if ty != c.Type {
			for _, i := range t.Idx {
				if i.Has(c.Name, true) || strings.Contains(","+i.A["include"]+",", ","+c.Name+",") {
					bad(5074, "The index '%s' is dependent on column '%s'.", i.Name, c.Name)
				}
			}
			if c.HasDef || usedInCheck(t, c) {
				bad(5074, "The object '%s' is dependent on column '%s'.", c.Get("dfn"), c.Name)
			}
		}
		if !nn {
			if pk := t.PK(); pk != nil && pk.Has(c.Name, true) {
				bad(5074, "The object '%s' is dependent on column '%s'.", pk.Name, c.Name)
			}
		}
		if nn {
			for _, r := range t.Rows {
				if _, ok := r[c.ID]; !ok {
					bad(515, "Cannot insert the value NULL into column '%s', table '%s'; column does not allow nulls. UPDATE fails.", c.Name, t.Name)
				}
			}
		}
		c.Type, c.NotNull = ty, nn
	default:
		p.Fail()
	}
}

func usedInCheck(t *dbm.Table, c *dbm.Col) bool {
	for _, k := range t.Checks {
		if strings.Contains(strings.ToLower(k.Expr), "["+strings.ToLower(c.Name)+"]") {
			return true
		}
	}
	return false
}

func (x *ex) dropCol(t *dbm.Table, c *dbm.Col) {
	dep := func(n string) {
		bad(5074, "The object '%s' is dependent on column '%s'.", n, c.Name)
	}
	if c.HasDef {
		dep(c.Get("dfn"))
	}
	for _, i := range t.Idx {
		if i.Has(c.Name, true) || strings.Contains(","+i.A["include"]+",", ","+c.Name+",") {
			dep(i.Name)
		}
	}
	if usedInCheck(t, c) {
		dep("a check constraint")
	}
	for _, o := range x.db.Tables {
		for _, f := range o.FKs {
			for k, n := range f.Cols {
				if o == t && n == c.Name || refs(f, t) && f.RefCols[k] == c.Name {
					dep(f.Name)
				}
			}
		}
	}
	if len(t.Cols) == 1 {
		bad(4923, "ALTER TABLE DROP COLUMN failed because '%s' is the only data column in table '%s'. A table must have at least one data column.", c.Name, t.Name)
	}
	var o []*dbm.Col
	for _, y := range t.Cols {
		if y != c {
			o = append(o, y)
		}
	}
	t.Cols = o
	for _, r := range t.Rows {
		delete(r, c.ID)
	}
}

func (x *ex) dropCon(t *dbm.Table, n string, ie bool) {
	for _, c := range t.Cols {
		if c.HasDef && strings.EqualFold(c.Get("dfn"), n) {
			c.HasDef, c.Def = false, ""
			c.Set("dfn", "")
			c.Set("defname", "")
			return
		}
	}
	for k, c := range t.Checks {
		if strings.EqualFold(c.Name, n) {
			t.Checks = append(append([]*dbm.Check{}, t.Checks[:k]...), t.Checks[k+1:]...)
			return
		}
	}
	for k, f := range t.FKs {
		if strings.EqualFold(f.Name, n) {
			t.FKs = append(append([]*dbm.FK{}, t.FKs[:k]...), t.FKs[k+1:]...)
			return
		}
	}
	for _, i := range t.Idx {
		if i.Con && strings.EqualFold(i.Name, n) {
			x.needUnique(t, i, 3725)
			x.rmIdx(t, i)
			return
		}
	}
	if !ie {
		bad(3728, "'%s' is not a constraint.", n)
	}
}
