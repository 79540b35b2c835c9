// Package mysrv simulates a MySQL 5.7 server as far as schema management is
// concerned: DDL commits by itself, statement by statement, and the catalog
// views and SHOW statements report what the real server reports.
package mysrv

import (
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/go-sql-driver/mysql"
	"verifsim/dbm"
	"verifsim/kern"
	"verifsim/minisql"
	. "verifsim/sqlx"
)

type Account struct{ Password string }

type Server struct {
	Addr     string // net/addr it listens on
	Accounts map[string]string
	DBs      map[string]*dbm.DB
	Order    func(n int) []int // permutes listings that have no defined order
	Charset  string
}

func New() *Server {
	return &Server{Accounts: map[string]string{"root": ""}, DBs: map[string]*dbm.DB{}, Charset: "utf8mb4"}
}

func errf(n uint16, f string, a ...interface{}) error {
	return &mysql.MySQLError{Number: n, Message: fmt.Sprintf(f, a...)}
}

type myErr struct{ e error }

func bad(n uint16, f string, a ...interface{}) { panic(myErr{errf(n, f, a...)}) }

func (s *Server) BytesForText() bool    { return true }
func (s *Server) PrepareWithArgs() bool { return true }

var failures = map[string][]error{
	"connect": {errf(1040, "Too many connections"), errf(1045, "Access denied for user 'root'@'localhost' (using password: YES)"), errf(1129, "Host '127.0.0.1' is blocked because of many connection errors"), errf(1053, "Server shutdown in progress")},
	"query": {errf(1205, "Lock wait timeout exceeded; try restarting transaction"), errf(1146, "Table 'app.t' doesn't exist"), errf(1142, "SELECT command denied to user 'u'@'localhost' for table 't'"),
		errf(1356, "View 'app.v' references invalid table(s) or column(s) or function(s) or definer/invoker of view lack rights to use them"), errf(3024, "Query execution was interrupted, maximum statement execution time exceeded"),
		errf(1317, "Query execution was interrupted"), errf(1021, "Disk full (/tmp/#sql); waiting for someone to free some space..."), errf(1051, "Unknown table 'app.t'")},
	"exec": {errf(1205, "Lock wait timeout exceeded; try restarting transaction"), errf(1213, "Deadlock found when trying to get lock; try restarting transaction"), errf(1317, "Query execution was interrupted"),
		errf(1142, "ALTER command denied to user 'u'@'localhost' for table 't'"), errf(1114, "The table 't' is full"), errf(1290, "The MySQL server is running with the --read-only option so it cannot execute this statement"),
		errf(1050, "Table 't' already exists"), errf(1061, "Duplicate key name 'k'"), errf(1060, "Duplicate column name 'c'"), errf(1091, "Can't DROP 'c'; check that column/key exists"), errf(1146, "Table 'app.t' doesn't exist"),
		errf(1051, "Unknown table 'app.t'"), errf(1062, "Duplicate entry '1' for key 'k'"), errf(1227, "Access denied; you need (at least one of) the SUPER privilege(s) for this operation"), errf(1264, "Out of range value for column 'c' at row 1"), errf(1265, "Data truncated for column 'c' at row 1"), errf(1831, "Duplicate index 'k' defined on the table 'app.t'")},
}

// Error is one of the errors the server has for such an operation.
func (s *Server) Error(kind string, n int) error {
	if kind == "lost" {
		return mysql.ErrInvalidConn
	}
	l := failures[kind]
	if l == nil {
		l = failures["exec"][:1]
	}
	return l[n%len(l)]
}

func (s *Server) Connect(t kern.Target) (kern.Session, error) {
	if s.Addr != "" && t.Net+" "+t.Addr != s.Addr {
		return nil, fmt.Errorf("dial %s %s: connect: connection refused", t.Net, t.Addr)
	}
	pw, ok := s.Accounts[t.User]
	if !ok || pw != t.Password {
		return nil, errf(1045, "Access denied for user '%s'@'localhost'", t.User)
	}
	if t.DB != "" && s.DBs[t.DB] == nil {
		return nil, errf(1049, "Unknown database '%s'", t.DB)
	}
	return &sess{s: s, db: t.DB}, nil
}

type sess struct {
	s  *Server
	db string
}

func (c *sess) Begin() error                 { return nil }
func (c *sess) Commit() error                { return nil }
func (c *sess) Rollback() error              { return nil }
func (c *sess) Abort(kind string, err error) {}
func (c *sess) Close()                       {}

func (c *sess) Exec(sql string, args []interface{}) (*kern.Result, error) {
	return c.s.Exec(c.db, sql, args)
}

// Exec runs one statement; DDL is atomic and durable on its own.
func (s *Server) Exec(dbname, sql string, args []interface{}) (res *kern.Result, err error) {
	db := s.DBs[dbname]
	if db == nil {
		return nil, errf(1046, "No database selected")
	}
	work := db
	perr := Parse(sql, MySQL, func(p *P) {
		defer func() {
			if r := recover(); r != nil {
				if m, ok := r.(myErr); ok {
					err = m.e
					return
				}
				panic(r)
			}
		}()
		if p.EOF() {
			bad(1065, "Query was empty")
		}
		if p.PeekKw("SELECT") || p.IsOp(0, "(") {
			err = fmt.Errorf("select")
			return
		}
		if p.PeekKw("SHOW") {
			res = s.show(db, p)
			return
		}
		if p.PeekKw("BEGIN") || p.PeekKw("START") || p.PeekKw("COMMIT") || p.PeekKw("ROLLBACK") || p.PeekKw("SET") || p.PeekKw("USE") {
			p.I = len(p.T) - 1
			res = &kern.Result{}
			return
		}
		work = db.Clone()
		res = &kern.Result{Mut: true}
		x := &ex{s: s, db: work, sql: sql, p: p}
		x.stmt()
		p.Op(";")
		if !p.EOF() {
			p.Fail()
		}
	})
	if err != nil && err.Error() == "select" {
		env := s.env(dbname, args)
		cols, rows, e := minisql.Query(sql, env)
		if e != nil {
			return nil, errf(1064, "%s", e)
		}
		return &kern.Result{Cols: cols, Rows: rows}, nil
	}
	if err != nil {
		return res, err
	}
	if perr != nil {
		return &kern.Result{Mut: true}, errf(1064, "You have an error in your SQL syntax: %s", perr)
	}
	if work != db {
		s.DBs[dbname] = work
	}
	return res, nil
}

func like(p *P) (string, bool) {
	if p.Kw("LIKE") {
		t := p.Cur()
		p.I++
		return t.S, true
	}
	return "", false
}

func (s *Server) show(db *dbm.DB, p *P) *kern.Result {
	start := p.I
	p.MustKw("SHOW")
	rest := func(r *minisql.Rel) *kern.Result {
		// LIKE / WHERE / FROM db
		if pat, ok := like(p); ok {
			var o [][]minisql.Val
			for _, row := range r.Rows {
				if minisql.Like(minisql.Str(row[0]), pat) {
					o = append(o, row)
				}
			}
			r.Rows = o
		}
		if p.PeekKw("WHERE") {
			from := p.Cur().Pos
			txt := p.Text(p.I, len(p.T)-1)
			_ = from
			txt = strings.TrimSuffix(strings.TrimSpace(txt), ";")
			env := &minisql.Env{D: MySQL, NoCase: true, Table: func(n []string) (*minisql.Rel, bool) { return r, true }}
			_, rows, err := minisql.Query("SELECT * FROM shown "+txt, env)
			if err != nil {
				bad(1064, "%s", err)
			}
			r.Rows = rows
			p.I = len(p.T) - 1
		}
		p.Op(";")
		if !p.EOF() {
			p.Fail()
		}
		return &kern.Result{Cols: r.Cols, Rows: r.Rows}
	}
	from := func() *dbm.DB {
		if p.Kw("FROM") || p.Kw("IN") {
			n := p.Ident()
			if s.DBs[n] == nil {
				bad(1049, "Unknown database '%s'", n)
			}
			return s.DBs[n]
		}
		return db
	}
	switch {
	case p.Kw("FULL TABLES") || p.Kw("TABLES"):
		full := p.T[start+1].S
		d := from()
		r := &minisql.Rel{Cols: []string{"Tables_in_" + d.Name}}
		if strings.EqualFold(full, "full") {
			r.Cols = append(r.Cols, "Table_type")
		}
		var names [][2]string
		for _, t := range d.Tables {
			names = append(names, [2]string{t.Name, "BASE TABLE"})
		}
		for _, v := range d.Views {
			names = append(names, [2]string{v.Name, "VIEW"})
		}
		sort.Slice(names, func(i, j int) bool { return names[i][0] < names[j][0] })
		for _, n := range names {
			row := []minisql.Val{n[0]}
			if len(r.Cols) > 1 {
				row = append(row, n[1])
			}
			r.Rows = append(r.Rows, row)
		}
		r.Rows = s.permute(r.Rows)
		return rest(r)
	case p.Kw("CREATE TABLE"):
		q := p.QIdent()
		d, name := db, q[len(q)-1]
		if len(q) == 2 {
			if d = s.DBs[q[0]]; d == nil {
				bad(1049, "Unknown database '%s'", q[0])
			}
		}
		t := d.Table("", name)
		if t == nil {
			if v := d.View("", name); v != nil {
				p.Op(";")
				return &kern.Result{Cols: []string{"View", "Create View", "character_set_client", "collation_connection"}, Rows: [][]interface{}{{v.Name, "CREATE ALGORITHM=UNDEFINED DEFINER=`root`@`localhost` SQL SECURITY DEFINER VIEW `" + v.Name + "` AS " + v.Def, "utf8mb4", "utf8mb4_general_ci"}}}
			}
			bad(1146, "Table '%s.%s' doesn't exist", d.Name, name)
		}
		p.Op(";")
		if !p.EOF() {
			p.Fail()
		}
		return &kern.Result{Cols: []string{"Table", "Create Table"}, Rows: [][]interface{}{{t.Name, ShowCreate(t)}}}
	case p.Kw("CREATE VIEW"):
		q := p.QIdent()
		v := db.View("", q[len(q)-1])
		if v == nil {
			bad(1146, "no view")
		}
		p.Op(";")
		return &kern.Result{Cols: []string{"View", "Create View", "character_set_client", "collation_connection"}, Rows: [][]interface{}{{v.Name, "CREATE ALGORITHM=UNDEFINED DEFINER=`root`@`localhost` SQL SECURITY DEFINER VIEW `" + v.Name + "` AS " + v.Def, "utf8mb4", "utf8mb4_general_ci"}}}
	case p.Kw("TRIGGERS"):
		d := from()
		r := &minisql.Rel{Cols: []string{"Trigger", "Event", "Table", "Statement", "Timing", "Created", "sql_mode", "Definer", "character_set_client", "collation_connection", "Database Collation"}}
		ts := append([]*dbm.Trigger{}, d.Triggers...)
		for _, t := range ts {
			r.Rows = append(r.Rows, []minisql.Val{t.Name, t.Event, t.Table, t.Stmt, t.Timing, "2021-01-01 00:00:00.00", "ONLY_FULL_GROUP_BY", "root@localhost", "utf8mb4", "utf8mb4_general_ci", "utf8mb4_general_ci"})
		}
		r.Rows = s.permute(r.Rows)
		if pat, ok := like(p); ok {
			var o [][]minisql.Val
			for _, row := range r.Rows {
				if minisql.Like(minisql.Str(row[2]), pat) {
					o = append(o, row)
				}
			}
			r.Rows = o
		}
		return rest(r)
	}
	p.Fail()
	return nil
}

func (s *Server) permute(rows [][]minisql.Val) [][]minisql.Val {
	if s.Order == nil || len(rows) < 2 {
		return rows
	}
	var o [][]minisql.Val
	for _, i := range s.Order(len(rows)) {
		o = append(o, rows[i])
	}
	return o
}

func (s *Server) env(cur string, args []interface{}) *minisql.Env {
	var av []minisql.Val
	for _, a := range args {
		av = append(av, a)
	}
	var dbs []string
	for n := range s.DBs {
		dbs = append(dbs, n)
	}
	sort.Strings(dbs)
	return &minisql.Env{D: MySQL, NoCase: true, Args: av,
		Func: func(name string, a []minisql.Val) (minisql.Val, error) {
			switch strings.ToLower(name) {
			case "database", "schema":
				return cur, nil
			case "version":
				return "5.7.34", nil
			}
			return nil, fmt.Errorf("FUNCTION %s does not exist", name)
		},
		Table: func(n []string) (*minisql.Rel, bool) {
			sch, tab := "", n[len(n)-1]
			if len(n) > 1 {
				sch = n[0]
			}
			if !strings.EqualFold(sch, "information_schema") {
				return nil, false
			}
			r := &minisql.Rel{}
			switch strings.ToLower(tab) {
			case "views":
				r.Cols = []string{"TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "VIEW_DEFINITION", "CHECK_OPTION", "IS_UPDATABLE", "DEFINER", "SECURITY_TYPE"}
				for _, dn := range dbs {
					for _, v := range s.DBs[dn].Views {
						r.Rows = append(r.Rows, []minisql.Val{"def", dn, v.Name, v.Def, "NONE", "YES", "root@localhost", "DEFINER"})
					}
				}
			case "tables":
				r.Cols = []string{"TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "TABLE_TYPE", "ENGINE", "VERSION", "TABLE_ROWS", "TABLE_COLLATION", "TABLE_COMMENT"}
				for _, dn := range dbs {
					for _, v := range s.DBs[dn].Tables {
						r.Rows = append(r.Rows, []minisql.Val{"def", dn, v.Name, "BASE TABLE", "InnoDB", int64(10), int64(0), "utf8mb4_general_ci", ""})
					}
					for _, v := range s.DBs[dn].Views {
						r.Rows = append(r.Rows, []minisql.Val{"def", dn, v.Name, "VIEW", nil, nil, nil, nil, "VIEW"})
					}
				}
			case "triggers":
				r.Cols = []string{"TRIGGER_CATALOG", "TRIGGER_SCHEMA", "TRIGGER_NAME", "EVENT_MANIPULATION", "EVENT_OBJECT_CATALOG", "EVENT_OBJECT_SCHEMA", "EVENT_OBJECT_TABLE", "ACTION_ORDER", "ACTION_CONDITION", "ACTION_STATEMENT", "ACTION_ORIENTATION", "ACTION_TIMING", "CREATED", "SQL_MODE", "DEFINER", "CHARACTER_SET_CLIENT", "COLLATION_CONNECTION", "DATABASE_COLLATION"}
				for _, dn := range dbs {
					for _, t := range s.DBs[dn].Triggers {
						r.Rows = append(r.Rows, []minisql.Val{"def", dn, t.Name, t.Event, "def", dn, t.Table, int64(1), nil, t.Stmt, "ROW", t.Timing, "2021-01-01 00:00:00.00", "ONLY_FULL_GROUP_BY", "root@localhost", "utf8mb4", "utf8mb4_general_ci", "utf8mb4_general_ci"})
					}
				}
			case "columns":
				r.Cols = []string{"TABLE_SCHEMA", "TABLE_NAME", "COLUMN_NAME", "ORDINAL_POSITION", "COLUMN_TYPE", "IS_NULLABLE"}
				for _, dn := range dbs {
					for _, t := range s.DBs[dn].Tables {
						for i, c := range t.Cols {
							nn := "YES"
							if c.NotNull {
								nn = "NO"
							}
							r.Rows = append(r.Rows, []minisql.Val{dn, t.Name, c.Name, int64(i + 1), c.Type, nn})
						}
					}
				}
			default:
				return nil, false
			}
			r.Rows = s.permute(r.Rows)
			return r, true
		}}
}

func bt(s string) string { return "`" + strings.ReplaceAll(s, "`", "``") + "`" }
func str(s string) string {
	return "'" + strings.NewReplacer("\\", "\\\\", "'", "''", "\n", "\\n", "\r", "\\r", "\x00", "\\0").Replace(s) + "'"
}

// ShowCreate renders a table as SHOW CREATE TABLE does.
func ShowCreate(t *dbm.Table) string {
	var l []string
	for _, c := range t.Cols {
		s := "  " + bt(c.Name) + " " + c.Type
		if cs := c.Get("charset"); cs != "" {
			if cs != t.Charset || c.Get("collate") != t.Collate {
				s += " CHARACTER SET " + cs
			}
			if c.Get("collate") != defColl(cs) {
				s += " COLLATE " + c.Get("collate")
			}
		}
		if c.NotNull {
			s += " NOT NULL"
		} else if strings.HasPrefix(c.Type, "timestamp") {
			s += " NULL"
		}
		if c.HasDef {
			s += " DEFAULT " + c.Def
		} else if !c.NotNull && c.Get("nodef") == "" {
			s += " DEFAULT NULL"
		}
		if u := c.Get("onupdate"); u != "" {
			s += " ON UPDATE " + u
		}
		if c.Get("auto") != "" {
			s += " AUTO_INCREMENT"
		}
		if m := c.Get("comment"); m != "" {
			s += " COMMENT " + str(m)
		}
		l = append(l, s)
	}
	for _, x := range sortIdx(t) {
		s := "  "
		switch x.Kind {
		case "PRIMARY":
			s += "PRIMARY KEY"
		case "UNIQUE":
			s += "UNIQUE KEY " + bt(x.Name)
		case "":
			s += "KEY " + bt(x.Name)
		default:
			s += x.Kind + " KEY " + bt(x.Name)
		}
		var cs []string
		for _, c := range x.Cols {
			q := bt(c.Name)
			if c.Len != "" {
				q += "(" + c.Len + ")"
			}
			cs = append(cs, q)
		}
		s += " (" + strings.Join(cs, ",") + ")"
		if x.A["using"] != "" {
			s += " USING " + x.A["using"]
		}
		if x.A["comment"] != "" {
			s += " COMMENT " + str(x.A["comment"])
		}
		if x.A["parser"] != "" {
			s += " /*!50100 WITH PARSER " + bt(x.A["parser"]) + " */ "
		}
		l = append(l, s)
	}
	fks := append([]*dbm.FK{}, t.FKs...)
	sort.Slice(fks, func(i, j int) bool { return fks[i].Name < fks[j].Name })
	q := func(a []string) string {
		var o []string
		for _, x := range a {
			o = append(o, bt(x))
		}
		return strings.Join(o, ", ")
	}
	for _, f := range fks {
		s := fmt.Sprintf("  CONSTRAINT %s FOREIGN KEY (%s) REFERENCES %s (%s)", bt(f.Name), q(f.Cols), bt(f.RefTable), q(f.RefCols))
		if f.OnDelete != "" {
			s += " ON DELETE " + f.OnDelete
		}
		if f.OnUpdate != "" {
			s += " ON UPDATE " + f.OnUpdate
		}
		l = append(l, s)
	}
	s := "CREATE TABLE " + bt(t.Name) + " (\n" + strings.Join(l, ",\n") + "\n) ENGINE=InnoDB"
	if t.NextInc > 1 {
		s += fmt.Sprintf(" AUTO_INCREMENT=%d", t.NextInc)
	}
	s += " DEFAULT CHARSET=" + t.Charset
	if t.Collate != defColl(t.Charset) {
		s += " COLLATE=" + t.Collate
	}
	if t.Opts != "" {
		s += " COMMENT=" + str(t.Opts)
	}
	return s
}

func sortIdx(t *dbm.Table) []*dbm.Index {
	xs := append([]*dbm.Index{}, t.Idx...)
	rank := func(x *dbm.Index) int {
		switch x.Kind {
		case "PRIMARY":
			return 0
		case "UNIQUE":
			for _, c := range x.Cols {
				if cc := t.Col(c.Name, true); cc != nil && !cc.NotNull {
					return 2
				}
			}
			return 1
		case "FULLTEXT":
			return 4
		}
		return 3
	}
	sort.SliceStable(xs, func(i, j int) bool { return rank(xs[i]) < rank(xs[j]) })
	return xs
}

func defColl(cs string) string {
	switch cs {
	case "latin1":
		return "latin1_swedish_ci"
	case "binary":
		return "binary"
	}
	return cs + "_general_ci"
}

var collRe = regexp.MustCompile(`^(utf8mb4|utf8|latin1|ascii|binary|sjis|ucs2)(_[a-z0-9_]+)?$`)

type ex struct {
	s   *Server
	db  *dbm.DB
	sql string
	p   *P
}

func (x *ex) tname() string {
	q := x.p.QName()
	if len(q) == 2 {
		if q[0] != x.db.Name {
			// DDL aimed at another database
			o := x.s.DBs[q[0]]
			if o == nil {
				bad(1049, "Unknown database '%s'", q[0])
			}
			bad(1142, "DDL on another database is outside the simulation: %s", strings.Join(q, "."))
		}
	}
	return q[len(q)-1]
}

func (x *ex) table(n string) *dbm.Table {
	t := x.db.Table("", n)
	if t == nil {
		if x.db.View("", n) != nil {
			bad(1347, "'%s.%s' is not BASE TABLE", x.db.Name, n)
		}
		bad(1146, "Table '%s.%s' doesn't exist", x.db.Name, n)
	}
	return t
}

func (x *ex) stmt() {
	p := x.p
	switch {
	case p.Kw("CREATE TABLE"):
		x.createTable()
	case p.PeekKw("CREATE UNIQUE") || p.PeekKw("CREATE INDEX") || p.PeekKw("CREATE FULLTEXT") || p.PeekKw("CREATE SPATIAL"):
		p.MustKw("CREATE")
		kind := x.idxKind()
		p.MustKw("INDEX")
		name := p.Name()
		using := x.using()
		p.MustKw("ON")
		t := x.table(x.tname())
		ix := &dbm.Index{Name: name, Kind: kind, Cols: x.idxCols()}
		x.idxOpts(ix)
		if using != "" {
			ix.A = map[string]string{"using": using}
		}
		x.addIndex(t, ix)
	case p.Kw("ALTER TABLE"):
		x.alter()
	case p.Kw("DROP TABLE"):
		ie := p.Kw("IF EXISTS")
		p.Commas(func() {
			n := x.tname()
			if x.db.Table("", n) == nil {
				if ie {
					return
				}
				bad(1051, "Unknown table '%s.%s'", x.db.Name, n)
			}
			x.dropTable(n)
		})
		_ = p.Kw("CASCADE") || p.Kw("RESTRICT")
	case p.Kw("DROP VIEW"):
		ie := p.Kw("IF EXISTS")
		p.Commas(func() {
			n := x.tname()
			if x.db.View("", n) == nil {
				if ie {
					return
				}
				if x.db.Table("", n) != nil {
					bad(1347, "'%s.%s' is not VIEW", x.db.Name, n)
				}
				bad(1051, "Unknown table '%s.%s'", x.db.Name, n)
			}
			var o []*dbm.View
			for _, v := range x.db.Views {
				if v.Name != n {
					o = append(o, v)
				}
			}
			x.db.Views = o
		})
	case p.Kw("DROP INDEX"):
		n := p.Name()
		p.MustKw("ON")
		x.dropIndex(x.table(x.tname()), n)
	case p.Kw("DROP TRIGGER"):
		ie := p.Kw("IF EXISTS")
		n := x.tname()
		k := len(x.db.Triggers)
		var o []*dbm.Trigger
		for _, v := range x.db.Triggers {
			if v.Name != n {
				o = append(o, v)
			}
		}
		x.db.Triggers = o
		if len(o) == k && !ie {
			bad(1360, "Trigger does not exist")
		}
	case p.PeekKw("CREATE"):
		p.MustKw("CREATE")
		repl := p.Kw("OR REPLACE")
		if p.Kw("ALGORITHM") {
			p.MustOp("=")
			p.Ident()
		}
		if p.Kw("DEFINER") {
			p.MustOp("=")
			p.I += 3
		}
		if p.Kw("SQL SECURITY") {
			p.Ident()
		}
		switch {
		case p.Kw("VIEW"):
			x.createView(repl)
		case p.Kw("TRIGGER"):
			x.createTrigger()
		default:
			p.Fail()
		}
	case p.Kw("RENAME TABLE"):
		from := x.tname()
		p.MustKw("TO")
		to := x.tname()
		t := x.table(from)
		if x.db.Table("", to) != nil || x.db.View("", to) != nil {
			bad(1050, "Table '%s' already exists", to)
		}
		t.Name = to
	default:
		p.Fail()
	}
}

func (x *ex) createTrigger() {
	p := x.p
	name := x.tname()
	timing := ""
	switch {
	case p.Kw("BEFORE"):
		timing = "BEFORE"
	case p.Kw("AFTER"):
		timing = "AFTER"
	default:
		p.Fail()
	}
	ev := ""
	for _, e := range []string{"INSERT", "UPDATE", "DELETE"} {
		if p.Kw(e) {
			ev = e
		}
	}
	if ev == "" {
		p.Fail()
	}
	p.MustKw("ON")
	t := x.table(x.tname())
	p.MustKw("FOR EACH ROW")
	for _, g := range x.db.Triggers {
		if g.Name == name {
			bad(1359, "Trigger already exists")
		}
	}
	from := p.I
	if p.EOF() {
		p.Fail()
	}
	switch {
	case p.PeekKw("INSERT"), p.PeekKw("UPDATE"), p.PeekKw("DELETE"), p.PeekKw("SET"), p.PeekKw("BEGIN"), p.PeekKw("IF"), p.PeekKw("CALL"), p.PeekKw("REPLACE"):
	default:
		p.Fail()
	}
	if p.PeekKw("INSERT") {
		x.checkInsert()
	}
	p.I = len(p.T) - 1
	body := strings.TrimSpace(p.Text(from, p.I))
	body = strings.TrimSpace(strings.TrimSuffix(body, ";"))
	x.db.Triggers = append(x.db.Triggers, &dbm.Trigger{Name: name, Timing: timing, Event: ev, Table: t.Name, Stmt: body})
}

// checkInsert parses INSERT INTO t [(cols)] VALUES (...) far enough to reject garbage.
func (x *ex) checkInsert() {
	p := x.p
	p.MustKw("INSERT")
	p.Kw("INTO")
	p.QName()
	if p.IsOp(0, "(") {
		p.MustOp("(")
		p.Commas(func() { p.Name() })
		p.MustOp(")")
	}
	if p.Kw("VALUES") || p.Kw("VALUE") {
		p.MustOp("(")
		p.Commas(func() { p.Expr() })
		p.MustOp(")")
		p.Op(";")
		if !p.EOF() {
			p.Fail()
		}
	}
}

func (x *ex) createView(repl bool) {
	p := x.p
	name := x.tname()
	var cols []string
	if p.IsOp(0, "(") {
		cols = p.IdentList()
	}
	p.MustKw("AS")
	sel := p.Select()
	if p.Kw("WITH") {
		p.I = len(p.T) - 1
	}
	_ = cols
	if x.db.Table("", name) != nil {
		if repl {
			bad(1347, "'%s.%s' is not VIEW", x.db.Name, name)
		}
		bad(1050, "Table '%s' already exists", name)
	}
	def := x.renderView(sel, name)
	if v := x.db.View("", name); v != nil {
		if !repl {
			bad(1050, "Table '%s' already exists", name)
		}
		v.Def = def
		return
	}
	x.db.Views = append(x.db.Views, &dbm.View{Name: name, Def: def})
}

func (x *ex) idxKind() string {
	p := x.p
	switch {
	case p.Kw("UNIQUE"):
		return "UNIQUE"
	case p.Kw("FULLTEXT"):
		return "FULLTEXT"
	case p.Kw("SPATIAL"):
		return "SPATIAL"
	}
	return ""
}

func (x *ex) using() string {
	if x.p.Kw("USING") {
		return strings.ToUpper(x.p.Ident())
	}
	return ""
}

func (x *ex) idxCols() []dbm.IdxCol {
	p := x.p
	var o []dbm.IdxCol
	p.MustOp("(")
	p.Commas(func() {
		c := dbm.IdxCol{Name: p.Name()}
		if p.Op("(") {
			c.Len = p.Num()
			p.MustOp(")")
		}
		_ = p.Kw("ASC") || p.Kw("DESC") // parsed and ignored by 5.7
		o = append(o, c)
	})
	p.MustOp(")")
	return o
}

func (x *ex) idxOpts(i *dbm.Index) {
	p := x.p
	set := func(k, v string) {
		if i.A == nil {
			i.A = map[string]string{}
		}
		i.A[k] = v
	}
	for {
		switch {
		case p.Kw("USING"):
			set("using", strings.ToUpper(p.Ident()))
		case p.Kw("COMMENT"):
			set("comment", p.Cur().S)
			p.I++
		case p.Kw("WITH PARSER"):
			if i.Kind != "FULLTEXT" {
				bad(1064, "WITH PARSER on a non-fulltext index")
			}
			set("parser", p.Ident())
		case p.Kw("KEY_BLOCK_SIZE"):
			p.Op("=")
			p.Num()
		default:
			return
		}
	}
}

func (x *ex) addIndex(t *dbm.Table, i *dbm.Index) {
	if i.Kind == "PRIMARY" {
		i.Name = "PRIMARY"
		if t.PK() != nil {
			bad(1068, "Multiple primary key defined")
		}
	} else if strings.EqualFold(i.Name, "PRIMARY") {
		bad(1280, "Incorrect index name '%s'", i.Name)
	}
	seen := map[string]bool{}
	for k := range i.Cols {
		c := t.Col(i.Cols[k].Name, true)
		if c == nil {
			bad(1072, "Key column '%s' doesn't exist in table", i.Cols[k].Name)
		}
		if seen[c.Name] {
			bad(1060, "Duplicate column name '%s'", c.Name)
		}
		seen[c.Name] = true
		i.Cols[k].Name = c.Name
		base := baseType(c.Type)
		if i.Kind != "FULLTEXT" && i.Kind != "SPATIAL" {
			if isBlob(base) && i.Cols[k].Len == "" {
				bad(1170, "BLOB/TEXT column '%s' used in key specification without a key length", c.Name)
			}
			if i.Cols[k].Len != "" && !isBlob(base) && !isChar(base) {
				bad(1089, "Incorrect prefix key")
			}
			if base == "json" {
				bad(3152, "JSON column '%s' cannot be used in key specification", c.Name)
			}
			if isChar(base) && i.Cols[k].Len != "" {
				n, _ := strconv.Atoi(i.Cols[k].Len)
				m := typeLen(c.Type)
				if m > 0 && n > m {
					bad(1089, "Incorrect prefix key; the used key part isn't a string, the used length is longer than the key part")
				}
				if m > 0 && n == m {
					i.Cols[k].Len = ""
				}
			}
		}
		if i.Kind == "FULLTEXT" {
			if !isChar(base) && !(isBlob(base) && strings.HasSuffix(base, "text")) {
				bad(1283, "Column '%s' cannot be part of FULLTEXT index", c.Name)
			}
			i.Cols[k].Len = ""
		}
		if i.Kind == "PRIMARY" {
			if c.A["null"] != "" {
				bad(1171, "All parts of a PRIMARY KEY must be NOT NULL; if you need NULL in a key, use UNIQUE instead")
			}
			if !c.NotNull {
				c.NotNull = true
				if c.HasDef && c.Def == "NULL" {
					c.HasDef, c.Def = false, ""
				}
				for _, r := range t.Rows {
					if _, ok := r[c.ID]; !ok {
						bad(1138, "Invalid use of NULL value")
					}
				}
			}
		}
	}
	if i.Name == "" {
		base := i.Cols[0].Name
		i.Name = base
		for n := 2; t.Index(i.Name, true) != nil; n++ {
			i.Name = fmt.Sprintf("%s_%d", base, n)
		}
	}
	if o := t.Index(i.Name, true); o != nil {
		bad(1061, "Duplicate key name '%s'", i.Name)
	}
	if i.Kind == "UNIQUE" || i.Kind == "PRIMARY" {
		got := map[string]bool{}
		for _, r := range t.Rows {
			k, null := "", false
			for _, c := range i.Cols {
				v, ok := r[t.Col(c.Name, true).ID]
				if !ok {
					null = true
				}
				k += v + "\x00"
			}
			if !null && got[k] {
				bad(1062, "Duplicate entry for key '%s'", i.Name)
			}
			got[k] = true
		}
	}
	t.Idx = append(t.Idx, i)
	// an index generated for a foreign key gives way to an explicit one
	if !i.Gen && i.Kind != "FULLTEXT" {
		var o []*dbm.Index
		for _, e := range t.Idx {
			if e != i && e.Gen && prefix(i, names(e)) {
				continue
			}
			o = append(o, e)
		}
		t.Idx = o
	}
}

func names(i *dbm.Index) []string { return i.Names() }

func prefix(i *dbm.Index, cols []string) bool {
	if i.Kind == "FULLTEXT" || len(i.Cols) < len(cols) {
		return false
	}
	for k, c := range cols {
		if !strings.EqualFold(i.Cols[k].Name, c) || i.Cols[k].Len != "" {
			return false
		}
	}
	return true
}

func findPrefix(t *dbm.Table, cols []string, not *dbm.Index) *dbm.Index {
	for _, i := range t.Idx {
		if i != not && prefix(i, cols) {
			return i
		}
	}
	return nil
}

func (x *ex) addFK(t *dbm.Table, f *dbm.FK, idxName string) {
	if f.Name == "" {
		for n := 1; ; n++ {
			f.Name = fmt.Sprintf("%s_ibfk_%d", t.Name, n)
			if t.FK(f.Name, true) == nil {
				break
			}
		}
	}
	for _, o := range x.db.Tables {
		if o.FK(f.Name, true) != nil {
			bad(1022, "Can't write; duplicate key in table '%s' (foreign key name '%s')", t.Name, f.Name)
		}
	}
	rt := x.db.Table("", f.RefTable)
	if f.RefTable == t.Name {
		rt = t
	}
	if rt == nil {
		bad(1215, "Cannot add foreign key constraint (missing table %s)", f.RefTable)
	}
	if len(f.Cols) != len(f.RefCols) {
		bad(1239, "Incorrect foreign key definition: Key reference and table reference don't match")
	}
	for k := range f.Cols {
		c := t.Col(f.Cols[k], true)
		if c == nil {
			bad(1072, "Key column '%s' doesn't exist in table", f.Cols[k])
		}
		rc := rt.Col(f.RefCols[k], true)
		if rc == nil {
			bad(1215, "Cannot add foreign key constraint (no column %s)", f.RefCols[k])
		}
		f.Cols[k], f.RefCols[k] = c.Name, rc.Name
		if !fkTypes(c, rc) {
			bad(1215, "Cannot add foreign key constraint (type mismatch %s vs %s)", c.Type, rc.Type)
		}
		if (f.OnDelete == "SET NULL" || f.OnUpdate == "SET NULL") && c.NotNull {
			bad(1830, "Column '%s' cannot be NOT NULL: needed in a foreign key constraint '%s' SET NULL", c.Name, f.Name)
		}
	}
	if findPrefix(rt, f.RefCols, nil) == nil {
		bad(1215, "Cannot add foreign key constraint (no index on referenced columns)")
	}
	if findPrefix(t, f.Cols, nil) == nil {
		n := idxName
		if n == "" {
			n = f.Name
		}
		var ic []dbm.IdxCol
		for _, c := range f.Cols {
			ic = append(ic, dbm.IdxCol{Name: c})
		}
		x.addIndex(t, &dbm.Index{Name: n, Cols: ic, Gen: true})
	}
	t.FKs = append(t.FKs, f)
}

func fkTypes(a, b *dbm.Col) bool {
	ba, bb := baseType(a.Type), baseType(b.Type)
	if isChar(ba) && isChar(bb) {
		return a.Get("charset") == b.Get("charset") && a.Get("collate") == b.Get("collate")
	}
	return ba == bb && strings.Contains(a.Type, "unsigned") == strings.Contains(b.Type, "unsigned")
}

func (x *ex) dropTable(n string) {
	for _, t := range x.db.Tables {
		if t.Name == n {
			continue
		}
		for _, f := range t.FKs {
			if f.RefTable == n {
				bad(1217, "Cannot delete or update a parent row: a foreign key constraint fails (%s of %s)", f.Name, t.Name)
			}
		}
	}
	var o []*dbm.Table
	for _, t := range x.db.Tables {
		if t.Name != n {
			o = append(o, t)
		}
	}
	x.db.Tables = o
	var g []*dbm.Trigger
	for _, t := range x.db.Triggers {
		if t.Table != n {
			g = append(g, t)
		}
	}
	x.db.Triggers = g
}

func (x *ex) dropIndex(t *dbm.Table, n string) {
	i := t.Index(n, true)
	if i == nil {
		bad(1091, "Can't DROP '%s'; check that column/key exists", n)
	}
	x.needFK(t, i)
	if i.Kind == "PRIMARY" {
		x.needAuto(t, i)
	}
	x.rmIndex(t, i)
	x.needAuto(t, nil)
}

func (x *ex) rmIndex(t *dbm.Table, i *dbm.Index) {
	var o []*dbm.Index
	for _, e := range t.Idx {
		if e != i {
			o = append(o, e)
		}
	}
	t.Idx = o
}

func (x *ex) needFK(t *dbm.Table, i *dbm.Index) {
	for _, f := range t.FKs {
		if prefix(i, f.Cols) && findPrefix(t, f.Cols, i) == nil {
			bad(1553, "Cannot drop index '%s': needed in a foreign key constraint", i.Name)
		}
	}
	for _, o := range x.db.Tables {
		for _, f := range o.FKs {
			if f.RefTable == t.Name && prefix(i, f.RefCols) && findPrefix(t, f.RefCols, i) == nil {
				bad(1553, "Cannot drop index '%s': needed in a foreign key constraint", i.Name)
			}
		}
	}
}

func (x *ex) needAuto(t *dbm.Table, not *dbm.Index) {
	k := 0
	for _, c := range t.Cols {
		if c.Get("auto") == "" {
			continue
		}
		k++
		ok := false
		for _, i := range t.Idx {
			if i != not && i.Kind != "FULLTEXT" && strings.EqualFold(i.Cols[0].Name, c.Name) {
				ok = true
			}
		}
		if !ok || k > 1 {
			bad(1075, "Incorrect table definition; there can be only one auto column and it must be defined as a key")
		}
	}
}

func (x *ex) fkRef() (tab string, cols []string, del, upd string) {
	p := x.p
	p.MustKw("REFERENCES")
	tab = x.tname()
	p.MustOp("(")
	p.Commas(func() { cols = append(cols, p.Name()) })
	p.MustOp(")")
	for {
		switch {
		case p.Kw("ON DELETE"):
			del = x.act()
		case p.Kw("ON UPDATE"):
			upd = x.act()
		default:
			return
		}
	}
}

func (x *ex) act() string {
	p := x.p
	for _, a := range []string{"CASCADE", "RESTRICT", "SET NULL", "NO ACTION", "SET DEFAULT"} {
		if p.Kw(a) {
			if a == "SET DEFAULT" {
				bad(1215, "Cannot add foreign key constraint (SET DEFAULT)")
			}
			if a == "RESTRICT" {
				return "" // InnoDB's default
			}
			return a
		}
	}
	p.Fail()
	return ""
}

// tableElem parses one element of CREATE TABLE, or what follows ALTER TABLE ADD.
func (x *ex) constraint(t *dbm.Table) (run func(), ok bool) {
	p := x.p
	name := ""
	save := p.I
	if p.Kw("CONSTRAINT") {
		if !p.PeekKw("FOREIGN") && !p.PeekKw("PRIMARY") && !p.PeekKw("UNIQUE") && !p.PeekKw("CHECK") {
			name = p.Name()
		}
	}
	switch {
	case p.Kw("PRIMARY KEY"):
		u := x.using()
		i := &dbm.Index{Kind: "PRIMARY", Cols: x.idxCols()}
		x.idxOpts(i)
		_ = u
		return func() { x.addIndex(t, i) }, true
	case p.Kw("FOREIGN KEY"):
		f := &dbm.FK{Name: name}
		in := ""
		if !p.IsOp(0, "(") {
			in = p.Name()
		}
		p.MustOp("(")
		p.Commas(func() { f.Cols = append(f.Cols, p.Name()) })
		p.MustOp(")")
		f.RefTable, f.RefCols, f.OnDelete, f.OnUpdate = x.fkRef()
		if name != "" {
			// 5.7 names the generated index after the constraint
			if in == "" {
				in = name
			} else {
				in = name
			}
		}
		return func() { x.addFK(t, f, in) }, true
	case p.Kw("CHECK"):
		p.MustOp("(")
		p.Expr()
		p.MustOp(")")
		return func() {}, true // parsed and ignored by 5.7
	}
	if p.PeekKw("UNIQUE") || p.PeekKw("INDEX") || p.PeekKw("KEY") || p.PeekKw("FULLTEXT") || p.PeekKw("SPATIAL") {
		kind := x.idxKind()
		if !(p.Kw("INDEX") || p.Kw("KEY")) && kind == "" {
			p.Fail()
		}
		i := &dbm.Index{Kind: kind, Name: name}
		if !p.IsOp(0, "(") && !p.PeekKw("USING") {
			i.Name = p.Name()
		}
		u := x.using()
		i.Cols = x.idxCols()
		x.idxOpts(i)
		if u != "" {
			if i.A == nil {
				i.A = map[string]string{}
			}
			i.A["using"] = u
		}
		return func() { x.addIndex(t, i) }, true
	}
	if name != "" || p.I != save {
		p.Fail()
	}
	return nil, false
}

func (x *ex) createTable() {
	p := x.p
	ine := p.Kw("IF NOT EXISTS")
	n := x.tname()
	if x.db.Table("", n) != nil || x.db.View("", n) != nil {
		if ine {
			p.I = len(p.T) - 1
			return
		}
		bad(1050, "Table '%s' already exists", n)
	}
	t := &dbm.Table{Name: n, Charset: x.s.Charset, Collate: defColl(x.s.Charset), NextInc: 1, ID: x.db.NewID()}
	var post []func()
	var fks []func()
	p.MustOp("(")
	p.Commas(func() {
		isFK := p.PeekKw("FOREIGN") || p.PeekKw("CONSTRAINT") && (p.IsKw(2, "FOREIGN") || p.IsKw(1, "FOREIGN"))
		if run, ok := x.constraint(t); ok {
			if isFK {
				fks = append(fks, run)
			} else {
				post = append(post, run)
			}
			return
		}
		c, keys := x.column(t)
		if t.Col(c.Name, true) != nil {
			bad(1060, "Duplicate column name '%s'", c.Name)
		}
		t.Cols = append(t.Cols, c)
		post = append(post, keys...)
	})
	p.MustOp(")")
	for !p.EOF() && !p.IsOp(0, ";") {
		switch {
		case p.Kw("ENGINE"):
			p.Op("=")
			p.Ident()
		case p.Kw("AUTO_INCREMENT"):
			p.Op("=")
			t.NextInc, _ = strconv.Atoi(p.Num())
		case p.Kw("DEFAULT CHARSET") || p.Kw("CHARSET") || p.Kw("DEFAULT CHARACTER SET") || p.Kw("CHARACTER SET"):
			p.Op("=")
			cs := strings.ToLower(x.word())
			if !collRe.MatchString(cs) {
				bad(1115, "Unknown character set: '%s'", cs)
			}
			t.Charset, t.Collate = cs, defColl(cs)
		case p.Kw("DEFAULT COLLATE") || p.Kw("COLLATE"):
			p.Op("=")
			t.Collate = strings.ToLower(x.word())
			if !collRe.MatchString(t.Collate) {
				bad(1273, "Unknown collation: '%s'", t.Collate)
			}
			t.Charset = collRe.FindStringSubmatch(t.Collate)[1]
		case p.Kw("COMMENT"):
			p.Op("=")
			t.Opts = p.Cur().S
			p.I++
		case p.Kw("ROW_FORMAT"):
			p.Op("=")
			p.Ident()
		default:
			p.Fail()
		}
		p.Op(",")
	}
	if len(t.Cols) == 0 {
		bad(1113, "A table must have at least 1 column")
	}
	for _, c := range t.Cols {
		fixCharset(t, c)
	}
	x.db.Tables = append(x.db.Tables, t)
	for _, f := range post {
		f()
	}
	x.needAuto(t, nil)
	for _, f := range fks {
		f()
	}
}

func (x *ex) word() string {
	t := x.p.Cur()
	if t.K == 's' || t.K == 'i' {
		x.p.I++
		return t.S
	}
	x.p.Fail()
	return ""
}

func fixCharset(t *dbm.Table, c *dbm.Col) {
	b := baseType(c.Type)
	if isChar(b) || b == "enum" || b == "set" || strings.HasSuffix(b, "text") {
		if c.Get("collate") == "*bin" { // the binary collation of its character set
			if c.Get("charset") == "" {
				c.Set("charset", t.Charset)
			}
			c.Set("collate", c.Get("charset")+"_bin")
		}
		if c.Get("charset") == "" {
			if co := c.Get("collate"); co != "" {
				m := collRe.FindStringSubmatch(co)
				if m == nil {
					bad(1273, "Unknown collation: '%s'", co)
				}
				c.Set("charset", m[1])
			} else {
				c.Set("charset", t.Charset)
				c.Set("collate", t.Collate)
			}
		} else if !collRe.MatchString(c.Get("charset")) {
			bad(1115, "Unknown character set: '%s'", c.Get("charset"))
		}
		if c.Get("collate") == "" {
			c.Set("collate", defColl(c.Get("charset")))
		} else if !strings.HasPrefix(c.Get("collate"), c.Get("charset")) {
			bad(1253, "COLLATION '%s' is not valid for CHARACTER SET '%s'", c.Get("collate"), c.Get("charset"))
		}
	} else {
		c.Set("charset", "")
		c.Set("collate", "")
	}
}

func baseType(t string) string {
	if i := strings.IndexAny(t, "( "); i >= 0 {
		return t[:i]
	}
	return t
}
func isChar(b string) bool { return b == "varchar" || b == "char" }
func isBlob(b string) bool {
	return strings.HasSuffix(b, "text") || strings.HasSuffix(b, "blob")
}
func typeLen(t string) int {
	a, b := strings.Index(t, "("), strings.Index(t, ")")
	if a < 0 || b < a {
		return 0
	}
	n, _ := strconv.Atoi(t[a+1 : b])
	return n
}

var intW = map[string][2]int{"tinyint": {4, 3}, "smallint": {6, 5}, "mediumint": {9, 8}, "int": {11, 10}, "bigint": {20, 20}}

func (x *ex) column(t *dbm.Table) (*dbm.Col, []func()) {
	p := x.p
	c := &dbm.Col{Name: p.Name(), ID: x.db.NewID()}
	tt := p.Cur()
	if tt.K != 'i' || tt.Quoted {
		p.Fail()
	}
	p.I++
	b := strings.ToLower(tt.S)
	unsigned, zerofill := false, false
	args := []string{}
	readArgs := func() {
		if p.Op("(") {
			p.Commas(func() {
				k := p.Cur()
				if k.K == 's' {
					args = append(args, str(k.S))
					p.I++
				} else {
					args = append(args, p.Num())
				}
			})
			p.MustOp(")")
		}
	}
	switch b {
	case "integer":
		b = "int"
	case "numeric", "dec", "fixed":
		b = "decimal"
	case "bool", "boolean":
		b = "tinyint"
		args = []string{"1"}
	case "real":
		b = "double"
	case "character":
		b = "char"
		if p.Kw("VARYING") {
			b = "varchar"
		}
	case "double":
		p.Kw("PRECISION")
	}
	readArgs()
	for {
		if p.Kw("UNSIGNED") {
			unsigned = true
		} else if p.Kw("ZEROFILL") {
			unsigned, zerofill = true, true
		} else if p.Kw("SIGNED") {
		} else {
			break
		}
	}
	num := false
	fsp := func() {
		if len(args) > 1 {
			p.Fail()
		}
		if len(args) == 1 {
			if args[0] == "0" {
				args = nil
			} else if n, e := strconv.Atoi(args[0]); e != nil || n > 6 {
				bad(1426, "Too-big precision specified")
			}
		}
	}
	switch b {
	case "tinyint", "smallint", "mediumint", "int", "bigint":
		num = true
		if len(args) > 1 {
			p.Fail()
		}
		if len(args) == 0 {
			k := 0
			if unsigned {
				k = 1
			}
			args = []string{strconv.Itoa(intW[b][k])}
		}
	case "decimal":
		num = true
		if len(args) == 0 {
			args = []string{"10"}
		}
		if len(args) == 1 {
			args = append(args, "0")
		}
		if len(args) > 2 {
			p.Fail()
		}
	case "float", "double":
		num = true
		if len(args) == 1 && b == "float" {
			n, _ := strconv.Atoi(args[0])
			if n > 24 {
				b = "double"
			}
			args = nil
		}
	case "bit":
		if len(args) == 0 {
			args = []string{"1"}
		}
	case "char", "binary":
		if len(args) == 0 {
			args = []string{"1"}
		}
	case "varchar", "varbinary":
		if len(args) != 1 {
			p.Fail()
		}
	case "text", "tinytext", "mediumtext", "longtext", "blob", "tinyblob", "mediumblob", "longblob":
		args = nil
	case "json", "date":
		if len(args) != 0 {
			p.Fail()
		}
	case "time", "datetime", "timestamp":
		fsp()
	case "year":
		args = []string{"4"}
	case "enum", "set":
		if len(args) == 0 {
			p.Fail()
		}
	case "point", "geometry", "polygon", "linestring":
	default:
		p.Fail()
	}
	if unsigned && !num {
		p.Fail()
	}
	c.Type = b
	if len(args) > 0 {
		c.Type += "(" + strings.Join(args, ",") + ")"
	}
	if unsigned {
		c.Type += " unsigned"
	}
	if zerofill {
		c.Type += " zerofill"
	}
	if isBlob(b) || b == "json" || b == "point" || b == "geometry" || b == "polygon" || b == "linestring" {
		c.Set("nodef", "1")
	}
	var keys []func()
	nullSet := false
loop:
	for {
		switch {
		case p.Kw("NOT NULL"):
			c.NotNull, nullSet = true, true
		case p.Kw("NULL"):
			c.NotNull, nullSet = false, true
			c.Set("null", "1")
		case p.Kw("DEFAULT"):
			x.deflt(c, b)
		case p.Kw("ON UPDATE"):
			c.Set("onupdate", x.now())
			if b != "timestamp" && b != "datetime" {
				bad(1294, "Invalid ON UPDATE clause for '%s' column", c.Name)
			}
		case p.Kw("AUTO_INCREMENT"):
			if !num || b == "decimal" {
				bad(1063, "Incorrect column specifier for column '%s'", c.Name)
			}
			c.Set("auto", "1")
		case p.Kw("COMMENT"):
			c.Set("comment", x.strLit())
		case p.Kw("CHARACTER SET") || p.Kw("CHARSET"):
			c.Set("charset", strings.ToLower(x.word()))
		case p.Kw("BINARY"):
			c.Set("collate", "*bin")
		case p.Kw("COLLATE"):
			c.Set("collate", strings.ToLower(x.word()))
		case p.Kw("PRIMARY KEY"):
			keys = append(keys, func() { x.addIndex(t, &dbm.Index{Kind: "PRIMARY", Cols: []dbm.IdxCol{{Name: c.Name}}}) })
		case p.Kw("UNIQUE"):
			p.Kw("KEY")
			keys = append(keys, func() { x.addIndex(t, &dbm.Index{Kind: "UNIQUE", Cols: []dbm.IdxCol{{Name: c.Name}}}) })
		case p.Kw("KEY"):
			keys = append(keys, func() { x.addIndex(t, &dbm.Index{Kind: "PRIMARY", Cols: []dbm.IdxCol{{Name: c.Name}}}) })
		case p.Kw("REFERENCES"):
			p.I--
			x.fkRef() // parsed and ignored inline by InnoDB
		case p.Kw("CHECK"):
			p.MustOp("(")
			p.Expr()
			p.MustOp(")")
		default:
			break loop
		}
	}
	if b == "timestamp" && !nullSet {
		c.NotNull = true
		if !c.HasDef && c.Get("onupdate") == "" {
			first := true
			for _, o := range t.Cols {
				if baseType(o.Type) == "timestamp" {
					first = false
				}
			}
			if first {
				c.HasDef, c.Def = true, "CURRENT_TIMESTAMP"
				c.Set("onupdate", "CURRENT_TIMESTAMP")
			} else {
				c.HasDef, c.Def = true, "'0000-00-00 00:00:00'"
			}
		}
	}
	if c.HasDef && c.Def == "NULL" {
		if c.NotNull {
			bad(1067, "Invalid default value for '%s'", c.Name)
		}
		c.HasDef, c.Def = false, ""
	}
	if c.Get("auto") != "" {
		if c.HasDef {
			bad(1067, "Invalid default value for '%s'", c.Name)
		}
		c.NotNull = true
	}
	return c, keys
}

func (x *ex) strLit() string {
	t := x.p.Cur()
	if t.K != 's' {
		x.p.Fail()
	}
	x.p.I++
	return t.S
}

func (x *ex) now() string {
	p := x.p
	if !(p.Kw("CURRENT_TIMESTAMP") || p.Kw("NOW") || p.Kw("LOCALTIME") || p.Kw("LOCALTIMESTAMP")) {
		p.Fail()
	}
	s := "CURRENT_TIMESTAMP"
	if p.Op("(") {
		if !p.IsOp(0, ")") {
			s += "(" + p.Num() + ")"
		}
		p.MustOp(")")
	}
	return s
}

func (x *ex) deflt(c *dbm.Col, b string) {
	p := x.p
	c.HasDef = true
	if p.Kw("NULL") {
		c.Def = "NULL"
		return
	}
	if c.Get("nodef") != "" {
		bad(1101, "BLOB, TEXT, GEOMETRY or JSON column '%s' can't have a default value", c.Name)
	}
	if p.PeekKw("CURRENT_TIMESTAMP") || p.PeekKw("NOW") || p.PeekKw("LOCALTIME") || p.PeekKw("LOCALTIMESTAMP") {
		if b != "timestamp" && b != "datetime" {
			bad(1067, "Invalid default value for '%s'", c.Name)
		}
		c.Def = x.now()
		if typeLen(c.Type) != typeLen(c.Def) {
			bad(1067, "Invalid default value for '%s'", c.Name)
		}
		return
	}
	if p.Kw("TRUE") {
		c.Def = "'1'"
		return
	}
	if p.Kw("FALSE") {
		c.Def = "'0'"
		return
	}
	t := p.Cur()
	neg := ""
	if p.Op("-") {
		neg = "-"
		t = p.Cur()
	} else if p.Op("+") {
		t = p.Cur()
	}
	switch t.K {
	case 'n':
		p.I++
		v := neg + t.S
		_, isInt := intW[b]
		switch {
		case isInt && !strings.ContainsAny(v, ".eE"):
			if v = strings.TrimLeft(t.S, "0"); v == "" {
				v, neg = "0", ""
			}
			c.Def = "'" + neg + v + "'"
		case isInt:
			f, e := strconv.ParseFloat(v, 64)
			if e != nil {
				bad(1067, "Invalid default value for '%s'", c.Name)
			}
			c.Def = "'" + strconv.FormatInt(int64(f), 10) + "'"
		case b == "decimal":
			f, e := strconv.ParseFloat(v, 64)
			if e != nil {
				bad(1067, "Invalid default value for '%s'", c.Name)
			}
			c.Def = "'" + strconv.FormatFloat(f, 'f', scaleOf(c.Type), 64) + "'"
		case b == "float" || b == "double":
			f, e := strconv.ParseFloat(v, 64)
			if e != nil {
				bad(1067, "Invalid default value for '%s'", c.Name)
			}
			c.Def = "'" + strconv.FormatFloat(f, 'g', -1, 64) + "'"
		case b == "bit":
			n, _ := strconv.Atoi(v)
			c.Def = "b'" + strconv.FormatInt(int64(n), 2) + "'"
		case b == "char" || b == "varchar":
			c.Def = str(v)
		default:
			bad(1067, "Invalid default value for '%s'", c.Name)
		}
	case 's':
		p.I++
		_, isInt := intW[b]
		if isInt {
			f, ok := new(big.Int).SetString(neg+t.S, 10)
			if !ok {
				bad(1067, "Invalid default value for '%s'", c.Name)
			}
			c.Def = "'" + f.String() + "'"
		} else if b == "decimal" {
			f, e := strconv.ParseFloat(t.S, 64)
			if e != nil {
				bad(1067, "Invalid default value for '%s'", c.Name)
			}
			c.Def = "'" + strconv.FormatFloat(f, 'f', scaleOf(c.Type), 64) + "'"
		} else {
			if b == "enum" && !strings.Contains(c.Type, str(t.S)) {
				bad(1067, "Invalid default value for '%s'", c.Name)
			}
			c.Def = str(t.S)
		}
	case 'b':
		p.I++
		c.Def = "b'" + strings.TrimLeft(t.S, "0")
		if c.Def == "b'" {
			c.Def += "0"
		}
		c.Def += "'"
		if _, isInt := intW[b]; isInt {
			n, _ := strconv.ParseInt(t.S, 2, 64)
			c.Def = "'" + strconv.FormatInt(n, 10) + "'"
		}
	default:
		p.Fail()
	}
}

func scaleOf(t string) int {
	i, j := strings.Index(t, ","), strings.Index(t, ")")
	if i < 0 || j < i {
		return 0
	}
	n, _ := strconv.Atoi(t[i+1 : j])
	return n
}

func (x *ex) place(t *dbm.Table, c *dbm.Col, cur int) {
	// cur: position to keep when no placement is given (-1: last)
	p := x.p
	rm := func() {
		var o []*dbm.Col
		for _, e := range t.Cols {
			if e != c {
				o = append(o, e)
			}
		}
		t.Cols = o
	}
	ins := func(i int) {
		rm()
		t.Cols = append(t.Cols, nil)
		copy(t.Cols[i+1:], t.Cols[i:])
		t.Cols[i] = c
	}
	switch {
	case p.Kw("FIRST"):
		ins(0)
	case p.Kw("AFTER"):
		n := p.Name()
		if strings.EqualFold(n, c.Name) {
			bad(1054, "Unknown column '%s' in '%s'", n, t.Name)
		}
		if t.Col(n, true) == nil {
			bad(1054, "Unknown column '%s' in '%s'", n, t.Name)
		}
		rm()
		for i, e := range t.Cols {
			if strings.EqualFold(e.Name, n) {
				ins(i + 1)
				break
			}
		}
	default:
		if cur < 0 {
			ins(len(t.Cols))
		} else {
			ins(cur)
		}
	}
}

func (x *ex) alter() {
	p := x.p
	t := x.table(x.tname())
	p.Commas(func() { x.alterOne(t) })
	x.needAuto(t, nil)
}

func (x *ex) alterOne(t *dbm.Table) {
	p := x.p
	switch {
	case p.Kw("ADD"):
		if run, ok := x.constraint(t); ok {
			run()
			return
		}
		p.Kw("COLUMN")
		c, keys := x.column(t)
		if t.Col(c.Name, true) != nil {
			bad(1060, "Duplicate column name '%s'", c.Name)
		}
		fixCharset(t, c)
		x.place(t, c, -1)
		for _, r := range t.Rows {
			if c.HasDef {
				r[c.ID] = strings.Trim(c.Def, "'")
			} else if c.NotNull {
				r[c.ID] = "<implicit>"
			}
		}
		for _, k := range keys {
			k()
		}
	case p.PeekKw("CHANGE") || p.PeekKw("MODIFY"):
		change := p.Kw("CHANGE")
		if !change {
			p.MustKw("MODIFY")
		}
		p.Kw("COLUMN")
		old := ""
		if change {
			old = p.Name()
		} else {
			old = p.Cur().S
		}
		o := t.Col(old, true)
		if o == nil {
			bad(1054, "Unknown column '%s' in '%s'", old, t.Name)
		}
		pos := 0
		for i, e := range t.Cols {
			if e == o {
				pos = i
			}
		}
		// parse against the table without the old column so a timestamp
		// default sees the right neighbours
		c, keys := x.column(t)
		fixCharset(t, c)
		if !strings.EqualFold(c.Name, o.Name) && t.Col(c.Name, true) != nil {
			bad(1060, "Duplicate column name '%s'", c.Name)
		}
		c.ID = o.ID
		pk := t.PK()
		if pk != nil && pk.Has(o.Name, true) {
			if c.Get("null") != "" {
				bad(1171, "All parts of a PRIMARY KEY must be NOT NULL; if you need NULL in a key, use UNIQUE instead")
			}
			c.NotNull = true
		}
		if !fkTypes(c, o) || c.Type != o.Type {
			for _, f := range t.FKs {
				for k := range f.Cols {
					if strings.EqualFold(f.Cols[k], o.Name) {
						if rt := x.db.Table("", f.RefTable); rt != nil && !fkTypes(c, rt.Col(f.RefCols[k], true)) {
							bad(1832, "Cannot change column '%s': used in a foreign key constraint '%s'", o.Name, f.Name)
						}
					}
				}
			}
			for _, ot := range x.db.Tables {
				for _, f := range ot.FKs {
					for k := range f.RefCols {
						if f.RefTable == t.Name && strings.EqualFold(f.RefCols[k], o.Name) && !fkTypes(c, ot.Col(f.Cols[k], true)) {
							bad(1833, "Cannot change column '%s': used in a foreign key constraint '%s' of table '%s'", o.Name, f.Name, ot.Name)
						}
					}
				}
			}
		}
		if c.NotNull && !o.NotNull {
			for _, f := range t.FKs {
				for k := range f.Cols {
					if strings.EqualFold(f.Cols[k], o.Name) && (f.OnDelete == "SET NULL" || f.OnUpdate == "SET NULL") {
						bad(1830, "Column '%s' cannot be NOT NULL: needed in a foreign key constraint '%s' SET NULL", c.Name, f.Name)
					}
				}
			}
			for _, r := range t.Rows {
				if _, ok := r[c.ID]; !ok {
					bad(1138, "Invalid use of NULL value")
				}
			}
		}
		if (baseType(c.Type) == "varchar" || baseType(c.Type) == "char") && typeLen(c.Type) > 0 {
			for _, r := range t.Rows {
				if len(r[c.ID]) > typeLen(c.Type) {
					bad(1406, "Data too long for column '%s'", c.Name)
				}
			}
		}
		for _, i := range t.Idx {
			if !i.Has(o.Name, true) || i.Kind == "FULLTEXT" {
				continue
			}
			for _, ic := range i.Cols {
				if strings.EqualFold(ic.Name, o.Name) {
					if isBlob(baseType(c.Type)) && ic.Len == "" {
						bad(1170, "BLOB/TEXT column '%s' used in key specification without a key length", c.Name)
					}
					if ic.Len != "" && !isBlob(baseType(c.Type)) && !isChar(baseType(c.Type)) {
						bad(1089, "Incorrect prefix key")
					}
				}
			}
		}
		t.Cols[pos] = c
		if c.Name != o.Name {
			for _, i := range t.Idx {
				for k := range i.Cols {
					if strings.EqualFold(i.Cols[k].Name, o.Name) {
						i.Cols[k].Name = c.Name
					}
				}
			}
			for _, f := range t.FKs {
				for k := range f.Cols {
					if strings.EqualFold(f.Cols[k], o.Name) {
						f.Cols[k] = c.Name
					}
				}
			}
		}
		x.place(t, c, pos)
		for _, k := range keys {
			k()
		}
	case p.Kw("DROP"):
		switch {
		case p.Kw("PRIMARY KEY"):
			pk := t.PK()
			if pk == nil {
				bad(1091, "Can't DROP 'PRIMARY'; check that column/key exists")
			}
			x.needFK(t, pk)
			x.rmIndex(t, pk)
		case p.Kw("INDEX") || p.Kw("KEY"):
			n := p.Name()
			i := t.Index(n, true)
			if i == nil {
				bad(1091, "Can't DROP '%s'; check that column/key exists", n)
			}
			x.needFK(t, i)
			x.rmIndex(t, i)
		case p.Kw("FOREIGN KEY"):
			n := p.Name()
			f := t.FK(n, true)
			if f == nil {
				bad(1091, "Can't DROP '%s'; check that column/key exists", n)
			}
			var o []*dbm.FK
			for _, e := range t.FKs {
				if e != f {
					o = append(o, e)
				}
			}
			t.FKs = o
		case p.Kw("CONSTRAINT"):
			bad(1064, "DROP CONSTRAINT is not supported by 5.7")
		default:
			p.Kw("COLUMN")
			n := p.Name()
			c := t.Col(n, true)
			if c == nil {
				bad(1091, "Can't DROP '%s'; check that column/key exists", n)
			}
			if len(t.Cols) == 1 {
				bad(1090, "You can't delete all columns with ALTER TABLE; use DROP TABLE instead")
			}
			for _, f := range t.FKs {
				for _, fc := range f.Cols {
					if strings.EqualFold(fc, n) {
						bad(1828, "Cannot drop column '%s': needed in a foreign key constraint '%s'", n, f.Name)
					}
				}
			}
			for _, o := range x.db.Tables {
				for _, f := range o.FKs {
					for _, fc := range f.RefCols {
						if f.RefTable == t.Name && strings.EqualFold(fc, n) {
							bad(1829, "Cannot drop column '%s': needed in a foreign key constraint '%s' of table '%s'", n, f.Name, o.Name)
						}
					}
				}
			}
			var cs []*dbm.Col
			for _, e := range t.Cols {
				if e != c {
					cs = append(cs, e)
				}
			}
			t.Cols = cs
			var is []*dbm.Index
			for _, i := range t.Idx {
				if i.Has(n, true) {
					var ic []dbm.IdxCol
					for _, e := range i.Cols {
						if !strings.EqualFold(e.Name, n) {
							ic = append(ic, e)
						}
					}
					i.Cols = ic
				}
				if len(i.Cols) > 0 {
					is = append(is, i)
				}
			}
			t.Idx = is
			for _, r := range t.Rows {
				delete(r, c.ID)
			}
		}
	case p.Kw("ALTER"):
		p.Kw("COLUMN")
		n := p.Name()
		c := t.Col(n, true)
		if c == nil {
			bad(1054, "Unknown column '%s' in '%s'", n, t.Name)
		}
		if p.Kw("DROP DEFAULT") {
			c.HasDef, c.Def = false, ""
			if !c.NotNull {
				c.Set("nodef", "1")
			}
		} else {
			p.MustKw("SET DEFAULT")
			x.deflt(c, baseType(c.Type))
		}
	case p.Kw("RENAME"):
		_ = p.Kw("TO") || p.Kw("AS")
		t.Name = x.tname()
	default:
		p.Fail()
	}
}
