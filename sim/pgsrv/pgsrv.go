// Package pgsrv simulates a PostgreSQL server as far as schema management is
// concerned: transactional DDL, the system catalogs and the expression
// deparser the client's introspection reads.
package pgsrv

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/lib/pq"
	"verifsim/dbm"
	"verifsim/kern"
	"verifsim/minisql"
	. "verifsim/sqlx"
)

type Server struct {
	Addr     string
	Accounts map[string]string
	DBs      map[string]*dbm.DB
	Order    func(n int) []int
	lock     map[string]*sess
}

func New() *Server {
	return &Server{Accounts: map[string]string{"postgres": ""}, DBs: map[string]*dbm.DB{}, lock: map[string]*sess{}}
}

func NewDB(name string) *dbm.DB {
	d := dbm.NewDB(name)
	d.Schemas["public"] = true
	return d
}

func errf(code, f string, a ...interface{}) error {
	return &pq.Error{Severity: "ERROR", Code: pq.ErrorCode(code), Message: fmt.Sprintf(f, a...)}
}

type pgErr struct{ e error }

func bad(code, f string, a ...interface{}) { panic(pgErr{errf(code, f, a...)}) }

func (s *Server) BytesForText() bool    { return false }
func (s *Server) PrepareWithArgs() bool { return false }

var failures = map[string][]error{
	"connect": {errf("53300", "sorry, too many clients already"), errf("57P03", "the database system is starting up"), errf("28P01", "password authentication failed for user \"u\""), errf("42501", "permission denied for database \"app\"")},
	"query": {errf("57014", "canceling statement due to user request"), errf("42501", "permission denied for relation pg_policies"), errf("42P01", "relation \"pg_policies\" does not exist"), errf("42883", "function array_position(smallint[], smallint) does not exist"),
		errf("53200", "out of memory"), errf("55P03", "canceling statement due to lock timeout"), errf("42703", "column c.is_identity does not exist"), errf("40001", "could not serialize access due to concurrent update"), errf("XX000", "cache lookup failed for relation 16384")},
	"exec": {errf("57014", "canceling statement due to user request"), errf("40P01", "deadlock detected"), errf("55P03", "canceling statement due to lock timeout"), errf("53100", "could not extend file \"base/1/2\": No space left on device"),
		errf("42501", "must be owner of relation t"), errf("25006", "cannot execute ALTER TABLE in a read-only transaction"), errf("42P07", "relation \"t\" already exists"), errf("42710", "policy \"p\" for table \"t\" already exists"), errf("42701", "column \"c\" of relation \"t\" already exists"),
		errf("42704", "index \"i\" does not exist"), errf("42703", "column \"c\" of relation \"t\" does not exist"), errf("42P01", "relation \"t\" does not exist"), errf("23505", "could not create unique index \"i\""), errf("23502", "column \"c\" contains null values"),
		errf("2BP01", "cannot drop table t because other objects depend on it"), errf("0A000", "cannot alter type of a column used by a view or rule"), errf("42804", "column \"c\" cannot be cast automatically to type bigint"), errf("40001", "could not serialize access due to concurrent update")},
	"commit": {errf("57014", "canceling statement due to user request"), errf("40001", "could not serialize access due to read/write dependencies among transactions"), errf("23503", "insert or update on table \"t\" violates foreign key constraint \"f\""), errf("53100", "could not write to file \"pg_xact\": No space left on device")},
}

// Error is one of the errors the server has for such an operation.
func (s *Server) Error(kind string, n int) error {
	if kind == "lost" {
		return fmt.Errorf("read tcp 127.0.0.1:40000->127.0.0.1:5432: read: connection reset by peer")
	}
	l := failures[kind]
	if l == nil {
		l = failures["exec"][:1]
	}
	return l[n%len(l)]
}

func (s *Server) Connect(t kern.Target) (kern.Session, error) {
	if s.Addr != "" && t.Net+" "+t.Addr != s.Addr {
		return nil, fmt.Errorf("dial %s %s: connect: connection refused", t.Net, t.Addr)
	}
	pw, ok := s.Accounts[t.User]
	if !ok || pw != t.Password {
		return nil, errf("28P01", "password authentication failed for user \"%s\"", t.User)
	}
	if s.DBs[t.DB] == nil {
		return nil, errf("3D000", "database \"%s\" does not exist", t.DB)
	}
	return &sess{s: s, db: t.DB}, nil
}

type sess struct {
	s       *Server
	db      string
	intx    bool
	aborted bool
	work    *dbm.DB // the transaction's own state, once it changed anything
}

func (c *sess) unlock() {
	if c.s.lock[c.db] == c {
		delete(c.s.lock, c.db)
	}
}
func (c *sess) Begin() error {
	c.intx = true
	return nil
}
func (c *sess) Commit() error {
	defer func() { c.intx, c.aborted, c.work = false, false, nil; c.unlock() }()
	if c.aborted {
		return fmt.Errorf("pq: Could not complete operation in a failed transaction")
	}
	if c.work != nil {
		c.s.DBs[c.db] = c.work
	}
	return nil
}
func (c *sess) Rollback() error {
	c.intx, c.aborted, c.work = false, false, nil
	c.unlock()
	return nil
}
func (c *sess) Abort(kind string, err error) {
	switch kind {
	case "commit", "rollback":
		c.Rollback()
	case "begin":
	default:
		if c.intx {
			c.aborted = true
		}
	}
}
func (c *sess) Close() { c.Rollback() }

func (c *sess) cur() *dbm.DB {
	if c.work != nil {
		return c.work
	}
	return c.s.DBs[c.db]
}

func readOnly(p *P) bool {
	return p.PeekKw("select") || p.IsOp(0, "(") || p.PeekKw("show") || p.PeekKw("with")
}

// Exec runs a simple query: one or more statements; several form one
// transaction when none is open.
func (c *sess) Exec(sql string, args []interface{}) (*kern.Result, error) {
	p, err := NewP(sql, PG)
	if err != nil {
		c.Abort("exec", nil)
		return &kern.Result{Mut: true}, errf("42601", "%s", err)
	}
	// split into statements at top-level semicolons
	var parts []string
	st := 0
	mut := false
	for i, t := range p.T {
		if t.K == 0 || t.K == 'o' && t.S == ";" {
			if i > st {
				parts = append(parts, p.Text(st, i))
				p.I = st
				if !readOnly(p) {
					mut = true
				}
			}
			st = i + 1
		}
	}
	if c.aborted {
		return &kern.Result{Mut: mut}, errf("25P02", "current transaction is aborted, commands ignored until end of transaction block")
	}
	if len(parts) == 0 {
		return &kern.Result{}, nil
	}
	if len(parts) > 1 && len(args) > 0 {
		c.Abort("exec", nil)
		return &kern.Result{Mut: mut}, errf("42601", "cannot insert multiple commands into a prepared statement")
	}
	if mut {
		if o := c.s.lock[c.db]; o != nil && o != c {
			return nil, kern.ErrWait
		}
		c.s.lock[c.db] = c
		if c.work == nil {
			c.work = c.s.DBs[c.db].Clone()
		} else {
			c.work = c.work.Clone()
		}
	}
	var res *kern.Result
	for _, q := range parts {
		res, err = c.one(q, args)
		if err != nil {
			break
		}
	}
	if res == nil {
		res = &kern.Result{}
	}
	res.Mut = mut
	if err != nil {
		if c.intx {
			c.aborted = true
		} else {
			c.Rollback()
		}
		return res, err
	}
	if mut && !c.intx {
		c.s.DBs[c.db] = c.work
		c.work = nil
		c.unlock()
	}
	return res, nil
}

func (c *sess) one(sql string, args []interface{}) (res *kern.Result, err error) {
	p, _ := NewP(sql, PG)
	if readOnly(p) {
		cols, rows, e := minisql.Query(sql, c.s.env(c.cur(), args))
		if e != nil {
			return nil, errf("42601", "%s", e)
		}
		return &kern.Result{Cols: cols, Rows: rows}, nil
	}
	perr := Parse(sql, PG, func(p *P) {
		defer func() {
			if r := recover(); r != nil {
				if m, ok := r.(pgErr); ok {
					err = m.e
					p.I = len(p.T) - 1
					return
				}
				panic(r)
			}
		}()
		x := &ex{c: c, s: c.s, db: c.work, p: p}
		x.stmt()
	})
	if err == nil && perr != nil {
		err = errf("42601", "%s", perr)
	}
	return &kern.Result{}, err
}

// AdminExec runs a script in one database outside any simulated process.
func (s *Server) AdminExec(db, sql string) error {
	c := &sess{s: s, db: db}
	_, err := c.Exec(sql, nil)
	return err
}

type ex struct {
	c  *sess
	s  *Server
	db *dbm.DB
	p  *P
}

func (x *ex) qn() (sch, name string) {
	q := x.p.QIdent()
	switch len(q) {
	case 1:
		return "public", q[0]
	case 2:
		if !x.db.Schemas[q[0]] {
			bad("3F000", "schema \"%s\" does not exist", q[0])
		}
		return q[0], q[1]
	}
	x.p.Fail()
	return
}

func (x *ex) table() *dbm.Table {
	sch, n := x.qn()
	t := x.db.Table(sch, n)
	if t == nil {
		if x.db.View(sch, n) != nil {
			bad("42809", "\"%s\" is not a table", n)
		}
		bad("42P01", "relation \"%s\" does not exist", n)
	}
	return t
}

// relation names share one namespace per schema
func (x *ex) relExists(sch, n string) bool {
	if x.db.Table(sch, n) != nil || x.db.View(sch, n) != nil {
		return true
	}
	for _, t := range x.db.Tables {
		if t.Schema == sch {
			if t.Index(n, false) != nil {
				return true
			}
			for _, c := range t.Cols {
				if c.Get("seq") == n {
					return true
				}
			}
		}
	}
	return false
}

// nameLen is how long a name can be; what is beyond it is cut off.
const nameLen = 63

// objectName is makeObjectName: the longer one of the two names is cut until
// all of it fits.
func objectName(one, two, label string) string {
	over, n, m := len(label)+1, len(one), len(two)
	if two != "" {
		over++
	}
	for n+m > nameLen-over {
		if n > m {
			n--
		} else {
			m--
		}
	}
	s := one[:n]
	if two != "" {
		s += "_" + two[:m]
	}
	return s + "_" + label
}

func (x *ex) freeRel(sch, one, two, label string) string {
	n := objectName(one, two, label)
	for i := 1; x.relExists(sch, n); i++ {
		n = objectName(one, two, fmt.Sprintf("%s%d", label, i))
	}
	return n
}

func (x *ex) conExists(t *dbm.Table, n string) bool {
	for _, i := range t.Idx {
		if i.Con && i.Name == n {
			return true
		}
	}
	if t.FK(n, false) != nil {
		return true
	}
	for _, c := range t.Checks {
		if c.Name == n {
			return true
		}
	}
	return false
}

func (x *ex) freeCon(t *dbm.Table, two, label string) string {
	n := objectName(t.Name, two, label)
	// ChooseConstraintName looks for the name anywhere in the schema
	taken := func(n string) bool {
		for _, o := range x.db.Tables {
			if o.Schema == t.Schema && x.conExists(o, n) {
				return true
			}
		}
		return x.conExists(t, n)
	}
	for i := 1; taken(n); i++ {
		n = objectName(t.Name, two, fmt.Sprintf("%s%d", label, i))
	}
	return n
}

func (x *ex) stmt() {
	p := x.p
	switch {
	case p.Kw("create table"):
		x.createTable()
	case p.PeekKw("create unique index") || p.PeekKw("create index"):
		x.createIndex()
	case p.Kw("create policy"):
		x.createPolicy()
	case p.Kw("create or replace view"):
		x.createView(true)
	case p.Kw("create view"):
		x.createView(false)
	case p.Kw("create schema"):
		ine := p.Kw("if not exists")
		n := p.Ident()
		if x.db.Schemas[n] && !ine {
			bad("42P06", "schema \"%s\" already exists", n)
		}
		x.db.Schemas[n] = true
	case p.Kw("create extension"):
		p.Kw("if not exists")
		switch n := p.Ident(); n {
		case "citext":
			x.db.Types["citext"] = "S"
		case "pg_buffercache":
			x.db.Views = append(x.db.Views, &dbm.View{Schema: "public", Name: "pg_buffercache", Def: " SELECT p.bufferid\n   FROM pg_buffercache_pages() p(bufferid integer);", Text: "ext"})
		default:
			bad("58P01", "could not open extension control file for %s", n)
		}
	case p.Kw("drop extension"):
		p.Kw("if exists")
		switch n := p.Ident(); n {
		case "citext":
			delete(x.db.Types, "citext")
		case "pg_buffercache":
			x.rmView("public", "pg_buffercache")
		}
	case p.Kw("drop table"):
		ie := p.Kw("if exists")
		var ts []*dbm.Table
		p.Commas(func() {
			i := p.I
			sch, n := x.qn()
			if x.db.Table(sch, n) == nil && ie {
				return
			}
			p.I = i
			ts = append(ts, x.table())
		})
		casc := p.Kw("cascade")
		if !casc {
			p.Kw("restrict")
		}
		x.dropTables(ts, casc)
	case p.Kw("drop view"):
		ie := p.Kw("if exists")
		p.Commas(func() {
			sch, n := x.qn()
			v := x.db.View(sch, n)
			if v == nil {
				if ie {
					return
				}
				if x.db.Table(sch, n) != nil {
					bad("42809", "\"%s\" is not a view", n)
				}
				bad("42P01", "view \"%s\" does not exist", n)
			}
			if v.Text == "ext" {
				bad("2BP01", "cannot drop view %s because extension requires it", n)
			}
			for _, o := range x.db.Views {
				for _, dp := range o.Deps {
					if dp == sch+"."+n || strings.HasPrefix(dp, sch+"."+n+".") {
						bad("2BP01", "cannot drop view %s because other objects depend on it", n)
					}
				}
			}
			x.rmView(sch, n)
		})
	case p.Kw("drop index"):
		p.Kw("concurrently")
		ie := p.Kw("if exists")
		sch, n := x.qn()
		for _, t := range x.db.Tables {
			if t.Schema != sch {
				continue
			}
			if i := t.Index(n, false); i != nil {
				if i.Con {
					bad("2BP01", "cannot drop index %s because constraint %s on table %s requires it", n, n, t.Name)
				}
				x.needUnique(t, i, false)
				t.Idx = rmIdx(t.Idx, i)
				return
			}
		}
		if !ie {
			bad("42704", "index \"%s\" does not exist", n)
		}
	case p.Kw("drop policy"):
		ie := p.Kw("if exists")
		n := p.Ident()
		p.MustKw("on")
		t := x.table()
		var o []*dbm.Policy
		for _, y := range t.Policies {
			if y.Name != n {
				o = append(o, y)
			}
		}
		if len(o) == len(t.Policies) && !ie {
			bad("42704", "policy \"%s\" for table \"%s\" does not exist", n, t.Name)
		}
		t.Policies = o
	case p.Kw("alter table"):
		x.alter()
	default:
		p.Fail()
	}
}

func rmIdx(a []*dbm.Index, i *dbm.Index) []*dbm.Index {
	var o []*dbm.Index
	for _, y := range a {
		if y != i {
			o = append(o, y)
		}
	}
	return o
}

func (x *ex) rmView(sch, n string) {
	var o []*dbm.View
	for _, v := range x.db.Views {
		if v.Schema != sch || v.Name != n {
			o = append(o, v)
		}
	}
	x.db.Views = o
}

func (x *ex) dropTables(ts []*dbm.Table, casc bool) {
	in := map[*dbm.Table]bool{}
	for _, t := range ts {
		in[t] = true
	}
	for _, t := range ts {
		for _, v := range x.db.Views {
			for _, dp := range v.Deps {
				if dp == t.Schema+"."+t.Name {
					if !casc {
						bad("2BP01", "cannot drop table %s because other objects depend on it", t.Name)
					}
					bad("0A000", "DROP TABLE CASCADE over views is outside the simulation")
				}
			}
		}
		for _, o := range x.db.Tables {
			if in[o] {
				continue
			}
			for _, f := range o.FKs {
				if f.RefSch == t.Schema && f.RefTable == t.Name && !casc {
					bad("2BP01", "cannot drop table %s because other objects depend on it", t.Name)
				}
			}
			if casc {
				var fs []*dbm.FK
				for _, f := range o.FKs {
					if f.RefSch != t.Schema || f.RefTable != t.Name {
						fs = append(fs, f)
					}
				}
				o.FKs = fs
			}
		}
	}
	var o []*dbm.Table
	for _, t := range x.db.Tables {
		if !in[t] {
			o = append(o, t)
		}
	}
	x.db.Tables = o
}

// needUnique refuses to remove a unique index a foreign key needs.
func (x *ex) needUnique(t *dbm.Table, i *dbm.Index, casc bool) {
	if i.Kind != "PRIMARY" && i.Kind != "UNIQUE" {
		return
	}
	for _, o := range x.db.Tables {
		for _, f := range o.FKs {
			if f.RefSch == t.Schema && f.RefTable == t.Name && sameSet(f.RefCols, i.Names()) && i.A["where"] == "" {
				// does another unique index serve?
				bad("2BP01", "cannot drop index %s because other objects depend on it", i.Name)
			}
		}
	}
}

func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	x := append([]string{}, a...)
	y := append([]string{}, b...)
	sort.Strings(x)
	sort.Strings(y)
	return strings.Join(x, ",") == strings.Join(y, ",")
}

func (x *ex) depOf(t *dbm.Table, pretty bool) *dep {
	return &dep{pretty: pretty, prefix: func(qual []string, col string) (string, string) {
		if len(qual) > 0 && qual[len(qual)-1] != t.Name {
			bad("42P01", "missing FROM-clause entry for table \"%s\"", qual[len(qual)-1])
		}
		c := t.Col(col, false)
		if c == nil {
			bad("42703", "column \"%s\" does not exist", col)
		}
		return q(col), c.Type
	}}
}

func (x *ex) createTable() {
	p := x.p
	ine := p.Kw("if not exists")
	sch, n := x.qn()
	if x.relExists(sch, n) {
		if ine {
			p.SkipParens()
			return
		}
		bad("42P07", "relation \"%s\" already exists", n)
	}
	t := &dbm.Table{ID: x.db.NewID(), Schema: sch, Name: n}
	x.db.Tables = append(x.db.Tables, t)
	var later []func()
	if p.IsOp(0, "(") && p.IsOp(1, ")") {
		p.I += 2
	} else {
		p.List(func() {
			if f, ok := x.constraint(t); ok {
				later = append(later, f)
				return
			}
			later = append(later, x.column(t)...)
		})
	}
	x.order(t, later)
	if p.Kw("with") {
		p.SkipParens()
	}
}

// order runs deferred constraint creation: primary keys, uniques, then checks and foreign keys
func (x *ex) order(t *dbm.Table, later []func()) {
	for _, f := range later {
		f()
	}
}

func (x *ex) actions(f *dbm.FK) {
	p := x.p
	f.OnDelete, f.OnUpdate = "NO ACTION", "NO ACTION"
	act := func() string {
		switch {
		case p.Kw("no action"):
			return "NO ACTION"
		case p.Kw("restrict"):
			return "RESTRICT"
		case p.Kw("cascade"):
			return "CASCADE"
		case p.Kw("set null"):
			return "SET NULL"
		case p.Kw("set default"):
			return "SET DEFAULT"
		}
		p.Fail()
		return ""
	}
	for {
		switch {
		case p.Kw("on delete"):
			f.OnDelete = act()
		case p.Kw("on update"):
			f.OnUpdate = act()
		case p.Kw("match simple"), p.Kw("not deferrable"), p.Kw("deferrable"), p.Kw("initially deferred"), p.Kw("initially immediate"):
		default:
			return
		}
	}
}

func (x *ex) addFK(t *dbm.Table, f *dbm.FK) {
	r := x.db.Table(f.RefSch, f.RefTable)
	if r == nil {
		bad("42P01", "relation \"%s\" does not exist", f.RefTable)
	}
	if len(f.RefCols) == 0 {
		pk := r.PK()
		if pk == nil {
			bad("42704", "there is no primary key for referenced table \"%s\"", r.Name)
		}
		f.RefCols = pk.Names()
	}
	if len(f.Cols) != len(f.RefCols) {
		bad("42830", "number of referencing and referenced columns for foreign key disagree")
	}
	for i, cn := range f.Cols {
		c := t.Col(cn, false)
		if c == nil {
			bad("42703", "column \"%s\" referenced in foreign key constraint does not exist", cn)
		}
		rc := r.Col(f.RefCols[i], false)
		if rc == nil {
			bad("42703", "column \"%s\" referenced in foreign key constraint does not exist", f.RefCols[i])
		}
		if !(strip(c.Type) == strip(rc.Type) || isNum(c.Type) && isNum(rc.Type) || isStr(c.Type) && isStr(rc.Type)) {
			bad("42804", "foreign key constraint \"%s\" cannot be implemented", f.Name)
		}
	}
	ok := false
	for _, i := range r.Idx {
		if (i.Kind == "PRIMARY" || i.Kind == "UNIQUE") && i.A["where"] == "" && sameSet(i.Names(), f.RefCols) {
			ok = true
		}
	}
	if !ok {
		bad("42830", "there is no unique constraint matching given keys for referenced table \"%s\"", r.Name)
	}
	if f.Name == "" {
		f.Name = x.freeCon(t, strings.Join(f.Cols, "_"), "fkey")
	} else if x.conExists(t, f.Name) {
		bad("42710", "constraint \"%s\" for relation \"%s\" already exists", f.Name, t.Name)
	}
	// existing rows must satisfy it
	for _, row := range t.Rows {
		vals := make([]string, 0, len(f.Cols))
		null := false
		for _, cn := range f.Cols {
			v, ok := row[t.Col(cn, false).ID]
			if !ok {
				null = true
			}
			vals = append(vals, v)
		}
		if null {
			continue
		}
		hit := false
		for _, rr := range r.Rows {
			m := true
			for i, rc := range f.RefCols {
				if v, ok := rr[r.Col(rc, false).ID]; !ok || v != vals[i] {
					m = false
				}
			}
			hit = hit || m
		}
		if !hit {
			bad("23503", "insert or update on table \"%s\" violates foreign key constraint \"%s\"", t.Name, f.Name)
		}
	}
	t.FKs = append(t.FKs, f)
}

func (x *ex) addIndex(t *dbm.Table, i *dbm.Index) {
	if i.Name == "" {
		suffix := "idx"
		switch {
		case i.Kind == "PRIMARY":
			suffix = "pkey"
		case i.Con:
			suffix = "key"
		}
		if i.Kind == "PRIMARY" {
			i.Name = x.freeRel(t.Schema, t.Name, "", suffix)
		} else {
			var ns []string
			for _, c := range i.Cols {
				if c.Expr != "" {
					ns = append(ns, "expr")
				} else {
					ns = append(ns, c.Name)
				}
			}
			i.Name = x.freeRel(t.Schema, t.Name, strings.Join(ns, "_"), suffix)
		}
	} else if x.relExists(t.Schema, i.Name) {
		bad("42P07", "relation \"%s\" already exists", i.Name)
	} else if i.Con && x.conExists(t, i.Name) {
		bad("42710", "constraint \"%s\" for relation \"%s\" already exists", i.Name, t.Name)
	}
	seen := map[string]bool{}
	for _, c := range i.Cols {
		if c.Expr != "" {
			continue
		}
		col := t.Col(c.Name, false)
		if col == nil {
			bad("42703", "column \"%s\" does not exist", c.Name)
		}
		if seen[c.Name] && i.Con {
			bad("42701", "column \"%s\" appears twice in constraint", c.Name)
		}
		seen[c.Name] = true
		if b := strip(col.Type); (b == "json" || b == "point" || b == "polygon" || b == "xml") && i.A["using"] == "btree" {
			bad("42704", "data type %s has no default operator class for access method \"btree\"", b)
		}
		if i.Kind == "PRIMARY" {
			if !col.NotNull {
				for _, r := range t.Rows {
					if _, ok := r[col.ID]; !ok {
						bad("23502", "column \"%s\" contains null values", col.Name)
					}
				}
			}
			col.NotNull = true
		}
	}
	if i.Kind == "PRIMARY" && t.PK() != nil {
		bad("42P16", "multiple primary keys for table \"%s\" are not allowed", t.Name)
	}
	if (i.Kind == "PRIMARY" || i.Kind == "UNIQUE") && i.A["where"] == "" {
		dup := map[string]bool{}
		for _, r := range t.Rows {
			k := ""
			null := false
			for _, c := range i.Cols {
				col := t.Col(c.Name, false)
				if col == nil {
					null = true
					break
				}
				v, ok := r[col.ID]
				if !ok {
					null = true
				}
				k += v + "\x00"
			}
			if !null && dup[k] {
				bad("23505", "could not create unique index \"%s\"", i.Name)
			}
			dup[k] = true
		}
	}
	t.Idx = append(t.Idx, i)
}

func (x *ex) checkExpr(t *dbm.Table, name, col string) func() {
	p := x.p
	p.MustOp("(")
	e := p.Expr()
	p.MustOp(")")
	nfr := p.Kw("no inherit")
	return func() {
		cols := map[string]bool{}
		e.Walk(func(y *E) {
			if y.Op == "col" {
				cols[y.V] = true
			}
		})
		if ty := x.depOf(t, false).typeOf(e); ty != "boolean" && ty != "unknown" {
			bad("42804", "argument of CHECK must be type boolean, not type %s", ty)
		}
		x.depOf(t, false).render(e, false)
		if name == "" {
			b := ""
			if len(cols) == 1 {
				for c := range cols {
					b = c
				}
			}
			name = x.freeCon(t, b, "check")
		} else if x.conExists(t, name) {
			bad("42710", "constraint \"%s\" for relation \"%s\" already exists", name, t.Name)
		}
		var cl []string
		for c := range cols {
			cl = append(cl, c)
		}
		sort.Strings(cl)
		s := "CHECK (" + x.depOf(t, true).render(e, false) + ")"
		if nfr {
			s += " NO INHERIT"
		}
		t.Checks = append(t.Checks, &dbm.Check{Name: name, Expr: s, Col: strings.Join(cl, ","), NFR: nfr})
	}
}

// constraint parses a table constraint.
func (x *ex) constraint(t *dbm.Table) (func(), bool) {
	p := x.p
	name := ""
	if p.Kw("constraint") {
		name = p.Ident()
	} else if !(p.PeekKw("primary key") || p.PeekKw("unique") && p.IsOp(1, "(") || p.PeekKw("foreign key") || p.PeekKw("check") && p.IsOp(1, "(")) {
		return nil, false
	}
	switch {
	case p.Kw("primary key"):
		cols := p.IdentList()
		return func() { x.addIndex(t, mkIdx(name, "PRIMARY", true, cols)) }, true
	case p.Kw("unique"):
		cols := p.IdentList()
		return func() { x.addIndex(t, mkIdx(name, "UNIQUE", true, cols)) }, true
	case p.Kw("foreign key"):
		f := &dbm.FK{Name: name, Cols: p.IdentList()}
		x.refs(f)
		return func() { x.addFK(t, f) }, true
	case p.Kw("check"):
		return x.checkExpr(t, name, ""), true
	}
	p.Fail()
	return nil, false
}

func mkIdx(name, kind string, con bool, cols []string) *dbm.Index {
	i := &dbm.Index{Name: name, Kind: kind, Con: con, A: map[string]string{"using": "btree"}}
	for _, c := range cols {
		i.Cols = append(i.Cols, dbm.IdxCol{Name: c})
	}
	return i
}

func (x *ex) refs(f *dbm.FK) {
	p := x.p
	p.MustKw("references")
	f.RefSch, f.RefTable = x.qn()
	if p.IsOp(0, "(") {
		f.RefCols = p.IdentList()
	}
	x.actions(f)
}

func (x *ex) column(t *dbm.Table) []func() {
	p := x.p
	name := p.Ident()
	if t.Col(name, false) != nil {
		bad("42701", "column \"%s\" specified more than once", name)
	}
	c := &dbm.Col{ID: len(t.Cols) + 1, Name: name}
	for _, o := range t.Cols {
		if o.ID >= c.ID {
			c.ID = o.ID + 1
		}
	}
	if t.NextInc >= c.ID {
		c.ID = t.NextInc + 1
	}
	t.NextInc = c.ID // attnums are never reused
	ty, serial := x.typ()
	c.Type = ty
	t.Cols = append(t.Cols, c)
	var later []func()
	if p.Kw("collate") {
		c.Set("collate", p.Ident())
	}
	if serial {
		c.NotNull = true
		seq := x.freeRel(t.Schema, t.Name, name, "seq")
		c.Set("seq", seq)
		c.HasDef, c.Def = true, "nextval"
		c.Set("defshow", "nextval('"+seqName(t.Schema, seq)+"'::regclass)")
	}
	con := ""
	null := false
	for {
		if p.Kw("constraint") {
			con = p.Ident()
			continue
		}
		switch {
		case p.Kw("not null"):
			if null {
				bad("42601", "conflicting NULL/NOT NULL declarations for column \"%s\"", name)
			}
			c.NotNull = true
		case p.Kw("null"):
			if c.NotNull {
				bad("42601", "conflicting NULL/NOT NULL declarations for column \"%s\"", name)
			}
			null = true
		case p.Kw("default"):
			if c.HasDef {
				bad("42601", "multiple default values specified for column \"%s\"", name)
			}
			x.deflt(c)
		case p.Kw("primary key"):
			n := con
			later = append(later, func() { x.addIndex(t, mkIdx(n, "PRIMARY", true, []string{name})) })
		case p.Kw("unique"):
			n := con
			later = append(later, func() { x.addIndex(t, mkIdx(n, "UNIQUE", true, []string{name})) })
		case p.Kw("check"):
			later = append(later, x.checkExpr(t, con, name))
		case p.PeekKw("references"):
			f := &dbm.FK{Name: con, Cols: []string{name}}
			x.refs(f)
			later = append(later, func() { x.addFK(t, f) })
		case p.PeekKw("generated"):
			x.identity(t, c)
		default:
			return later
		}
		con = ""
	}
}

func seqName(sch, seq string) string {
	if sch == "public" {
		return q(seq)
	}
	return q(sch) + "." + q(seq)
}

func (x *ex) identity(t *dbm.Table, c *dbm.Col) {
	p := x.p
	p.MustKw("generated")
	k := ""
	switch {
	case p.Kw("always"):
		k = "ALWAYS"
	case p.Kw("by default"):
		k = "BY DEFAULT"
	default:
		p.Fail()
	}
	p.MustKw("as identity")
	opts := x.sequence(c)
	if b := c.Type; b != "integer" && b != "bigint" && b != "smallint" {
		bad("22023", "identity column type must be smallint, integer, or bigint")
	}
	if c.Get("identity") != "" {
		bad("42601", "multiple identity specifications for column")
	}
	if c.HasDef {
		bad("42601", "both default and identity specified for column \"%s\"", c.Name)
	}
	c.NotNull = true
	c.Set("identity", k)
	c.Set("seqopts", opts)
	c.Set("seq", x.freeRel(t.Schema, t.Name, c.Name, "seq"))
}

// sequence reads the options of the sequence of an identity column: what differs
// from the defaults, in a form of its own.
func (x *ex) sequence(c *dbm.Col) string {
	p := x.p
	if !p.IsOp(0, "(") {
		return ""
	}
	p.MustOp("(")
	max := map[string]int64{"smallint": 1<<15 - 1, "integer": 1<<31 - 1, "bigint": 1<<63 - 1}[c.Type]
	v := map[string]int64{}
	set := func(k string, n int64) {
		if _, ok := v[k]; ok {
			bad("42601", "conflicting or redundant options")
		}
		v[k] = n
	}
	num := func() int64 {
		n, err := strconv.ParseInt(p.Num(), 10, 64)
		if err != nil {
			p.Fail()
		}
		return n
	}
	no := map[string]bool{}
	for !p.IsOp(0, ")") {
		switch {
		case p.Kw("start"):
			p.Kw("with")
			set("start", num())
		case p.Kw("increment"):
			p.Kw("by")
			set("inc", num())
		case p.Kw("minvalue"):
			set("min", num())
		case p.Kw("maxvalue"):
			set("max", num())
		case p.Kw("cache"):
			set("cache", num())
		case p.Kw("no minvalue"):
			set("min", 0)
			no["min"] = true
		case p.Kw("no maxvalue"):
			set("max", 0)
			no["max"] = true
		case p.Kw("no cycle"):
			set("cycle", 0)
		case p.Kw("cycle"):
			set("cycle", 1)
		default:
			p.Fail()
		}
	}
	p.MustOp(")")
	inc, ok := v["inc"]
	if !ok {
		inc = 1
	}
	if inc == 0 {
		bad("22023", "INCREMENT must not be zero")
	}
	dmin, dmax := int64(1), max
	if inc < 0 {
		dmin, dmax = -max-1, -1
	}
	mn, ok := v["min"]
	if !ok || no["min"] {
		mn = dmin
	}
	mx, ok := v["max"]
	if !ok || no["max"] {
		mx = dmax
	}
	if mn < -max-1 || mx > max {
		bad("22023", "MINVALUE or MAXVALUE is out of range for sequence data type %s", c.Type)
	}
	if mn >= mx {
		bad("22023", "MINVALUE (%d) must be less than MAXVALUE (%d)", mn, mx)
	}
	dst := mn
	if inc < 0 {
		dst = mx
	}
	st, ok := v["start"]
	if !ok {
		st = dst
	}
	if st < mn {
		bad("22023", "START value (%d) cannot be less than MINVALUE (%d)", st, mn)
	}
	if st > mx {
		bad("22023", "START value (%d) cannot be greater than MAXVALUE (%d)", st, mx)
	}
	if n, ok := v["cache"]; ok && n < 1 {
		bad("22023", "CACHE (%d) must be greater than zero", n)
	}
	var o []string
	put := func(k string, n, d int64) {
		if n != d {
			o = append(o, fmt.Sprintf("%s=%d", k, n))
		}
	}
	put("start", st, dst)
	put("inc", inc, 1)
	put("min", mn, dmin)
	put("max", mx, dmax)
	if n, ok := v["cache"]; ok {
		put("cache", n, 1)
	}
	put("cycle", v["cycle"], 0)
	return strings.Join(o, " ")
}

// bexpr parses a DEFAULT expression, which may not swallow NOT NULL.
func (x *ex) deflt(c *dbm.Col) {
	p := x.p
	if c.Get("identity") != "" {
		bad("42601", "both default and identity specified for column \"%s\"", c.Name)
	}
	// find where the expression ends: at a column-constraint keyword or , or ) at depth 0
	st, d := p.I, 0
	for {
		t := p.Cur()
		if t.K == 0 {
			break
		}
		if t.K == 'o' && t.S == "(" {
			d++
		}
		if t.K == 'o' && t.S == ")" {
			if d == 0 {
				break
			}
			d--
		}
		if d == 0 && t.K == 'o' && (t.S == "," || t.S == ";") {
			break
		}
		if d == 0 && p.I > st && t.K == 'i' && !t.Quoted {
			w := strings.ToLower(t.S)
			if w == "not" || w == "null" || w == "primary" || w == "unique" || w == "check" || w == "references" || w == "constraint" || w == "generated" || w == "collate" {
				break
			}
		}
		p.I++
	}
	if p.I == st {
		p.Fail()
	}
	txt := p.Text(st, p.I)
	var e *E
	if err := Parse(txt, PG, func(q *P) { e = q.Expr() }); err != nil {
		bad("42601", "%s", err)
	}
	x.setDef(c, e)
}

func (x *ex) setDef(c *dbm.Col, e *E) {
	d := &dep{prefix: func(qual []string, col string) (string, string) {
		bad("0A000", "cannot use column reference in DEFAULT expression")
		return "", ""
	}}
	for e.Op == "paren" {
		e = e.A[0]
	}
	if e.Op == "null" || e.Op == "cast" && e.A[0].Op == "null" {
		// DEFAULT NULL is stored as no default (a cast null is kept)
		if e.Op == "cast" {
			c.HasDef, c.Def = true, "NULL"
			c.Set("defshow", "NULL::"+canonCast(e.V))
			return
		}
		c.HasDef, c.Def = false, ""
		c.Set("defshow", "")
		return
	}
	// type agreement
	t := d.typeOf(e)
	ok := t == "unknown" || castable(t, c.Type) || t == "unknown"
	if isNum(c.Type) && isStr(t) || c.Type == "boolean" && t != "boolean" && t != "unknown" || isTime(c.Type) && isNum(t) {
		ok = false
	}
	if !ok {
		bad("42804", "column \"%s\" is of type %s but default expression is of type %s", c.Name, c.Type, t)
	}
	inner := e
	for inner.Op == "cast" || inner.Op == "paren" {
		inner = inner.A[0]
	}
	if inner.Op == "str" {
		b := strip(c.Type)
		if isNum(c.Type) && !regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?$`).MatchString(inner.V) {
			bad("22P02", "invalid input syntax for type %s: \"%s\"", b, inner.V)
		}
		if b == "boolean" && !regexp.MustCompile(`^(?i:t|f|true|false|yes|no|on|off|0|1)$`).MatchString(inner.V) {
			bad("22P02", "invalid input syntax for type boolean: \"%s\"", inner.V)
		}
	}
	c.HasDef = true
	show := d.as(e, c.Type)
	if e.Op == "un" || e.Op == "num" || e.Op == "call" || e.Op == "cast" || e.Op == "bool" {
		show = d.render(e, false)
	}
	c.Set("defshow", show)
	// what the default evaluates to, for comparison
	neg := ""
	for inner.Op == "un" && inner.V == "-" {
		neg = "-"
		inner = inner.A[0]
		for inner.Op == "cast" || inner.Op == "paren" {
			inner = inner.A[0]
		}
	}
	switch inner.Op {
	case "num":
		c.Def = normNum(neg + inner.V)
	case "str":
		c.Def = "'" + inner.V + "'"
		if isNum(c.Type) {
			c.Def = normNum(neg + inner.V)
		}
		if c.Type == "boolean" {
			c.Def = strings.ToLower(inner.V)
		}
	default:
		c.Def = strings.ToLower(show)
	}
}

func normNum(s string) string {
	if strings.Contains(s, ".") && !strings.ContainsAny(s, "eE") {
		s = strings.TrimRight(s, "0")
		s = strings.TrimSuffix(s, ".")
	}
	return s
}

func (x *ex) createIndex() {
	p := x.p
	p.MustKw("create")
	kind := ""
	if p.Kw("unique") {
		kind = "UNIQUE"
	}
	p.MustKw("index")
	if p.Kw("concurrently") && x.c.intx {
		bad("25001", "CREATE INDEX CONCURRENTLY cannot run inside a transaction block")
	}
	ine := p.Kw("if not exists")
	name := ""
	if !p.PeekKw("on") {
		name = p.Ident()
	}
	p.MustKw("on")
	p.Kw("only")
	t := x.table()
	if ine && x.relExists(t.Schema, name) {
		p.I = len(p.T) - 1
		return
	}
	i := &dbm.Index{Name: name, Kind: kind, A: map[string]string{"using": "btree"}}
	if p.Kw("using") {
		i.A["using"] = p.Ident()
		switch i.A["using"] {
		case "btree", "hash", "gin", "gist", "brin":
		default:
			bad("42704", "access method \"%s\" does not exist", i.A["using"])
		}
	}
	p.List(func() {
		var ic dbm.IdxCol
		if p.Cur().K == 'i' && !p.IsOp(1, "(") && !p.IsOp(1, "::") {
			ic.Name = p.Ident()
			if p.Kw("collate") {
				p.Ident()
			}
		} else {
			par := p.IsOp(0, "(")
			var e *E
			if par {
				p.MustOp("(")
				e = p.Expr()
				p.MustOp(")")
			} else {
				e = p.Expr()
			}
			r := x.depOf(t, false).render(e, false)
			if e.Op != "call" && !strings.HasPrefix(r, "(") {
				r = "(" + r + ")"
			}
			ic.Expr = r
		}
		if p.Cur().K == 'i' && !p.PeekKw("asc") && !p.PeekKw("desc") && !p.PeekKw("nulls") {
			i.A["opclass"] += ic.Name + ":" + p.Ident() + " "
		}
		if p.Kw("desc") {
			ic.Desc = true
		} else {
			p.Kw("asc")
		}
		if p.Kw("nulls first") || p.Kw("nulls last") {
			bad("0A000", "NULLS FIRST/LAST is outside the simulation")
		}
		i.Cols = append(i.Cols, ic)
	})
	if p.Kw("where") {
		e := p.Expr()
		i.A["where"] = x.depOf(t, false).render(e, false)
		if !strings.HasPrefix(i.A["where"], "(") {
			// a bare boolean column
		}
	}
	x.addIndex(t, i)
}

func indexDef(t *dbm.Table, i *dbm.Index) string {
	s := "CREATE "
	if i.Kind != "" {
		s += "UNIQUE "
	}
	s += "INDEX " + q(i.Name) + " ON " + q(t.Schema) + "." + q(t.Name) + " USING " + i.A["using"] + " ("
	var cs []string
	for _, c := range i.Cols {
		n := q(c.Name)
		if c.Expr != "" {
			n = c.Expr
		}
		for _, o := range strings.Fields(i.A["opclass"]) {
			if strings.HasPrefix(o, c.Name+":") {
				n += " " + strings.TrimPrefix(o, c.Name+":")
			}
		}
		if c.Desc {
			n += " DESC"
		}
		cs = append(cs, n)
	}
	s += strings.Join(cs, ", ") + ")"
	if w := i.A["where"]; w != "" {
		s += " WHERE " + w
	}
	return s
}

func (x *ex) createPolicy() {
	p := x.p
	y := &dbm.Policy{Name: p.Ident(), Permissive: "PERMISSIVE", Cmd: "ALL"}
	p.MustKw("on")
	t := x.table()
	for _, o := range t.Policies {
		if o.Name == y.Name {
			bad("42710", "policy \"%s\" for table \"%s\" already exists", y.Name, t.Name)
		}
	}
	if p.Kw("as") {
		switch {
		case p.Kw("permissive"):
		case p.Kw("restrictive"):
			y.Permissive = "RESTRICTIVE"
		default:
			p.Fail()
		}
	}
	if p.Kw("for") {
		w := p.Ident()
		switch w {
		case "all", "select", "insert", "update", "delete":
			y.Cmd = strings.ToUpper(w)
		default:
			p.Fail()
		}
	}
	if p.Kw("to") {
		p.Commas(func() { y.Roles = append(y.Roles, p.Ident()) })
	} else {
		y.Roles = []string{"public"}
	}
	for _, r := range y.Roles {
		switch r {
		case "public", "postgres", "current_user", "session_user", "reader", "writer":
		default:
			bad("42704", "role \"%s\" does not exist", r)
		}
	}
	sort.Strings(y.Roles)
	pe := func() string {
		p.MustOp("(")
		e := p.Expr()
		p.MustOp(")")
		r := x.depOf(t, false).render(e, false)
		if !strings.HasPrefix(r, "(") && e.Op != "bool" && e.Op != "call" && e.Op != "col" {
			r = "(" + r + ")"
		}
		return r
	}
	if p.Kw("using") {
		if y.Cmd == "INSERT" {
			bad("42601", "only WITH CHECK expression allowed for INSERT")
		}
		y.Using = pe()
	}
	if p.Kw("with check") {
		if y.Cmd == "SELECT" || y.Cmd == "DELETE" {
			bad("42601", "WITH CHECK cannot be applied to SELECT or DELETE")
		}
		y.Check = pe()
	}
	t.Policies = append(t.Policies, y)
}
