package scen

import (
	"context"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/k0kubun/sqldef/verifcmd/sqlite3def"
	sqlite3 "github.com/mattn/go-sqlite3"
	"verifsim/dbm"
	"verifsim/kern"
	"verifsim/litevfs"
)

// liteBackend is the real SQLite engine on an in-memory file system; a root is
// one installation's files.
type liteBackend struct {
	root int
	n    int // connections so far
	seen map[string]liteState
}

// liteState is what a database was last seen to hold.
type liteState struct {
	ver      uint32
	all, ddl string
}
type liteSave struct {
	root int
	seen map[string]liteState
}

var (
	liteReady bool
	liteRoots int
	liteConns int
	liteLive  []int // roots, oldest first
)

func init() {
	Tools[SQLite] = &Tool{Name: "sqlite3def", Driver: "sqlite3", Main: sqlite3def.Main, DBName: "app",
		Env: map[string]string{}, NewSrv: func() Backend { return newLite() }}
	kern.TargetOf["sqlite3"] = func(dsn string, _ driver.Driver) (kern.Target, error) {
		return kern.Target{Driver: "sqlite3", DB: dsn}, nil
	}
}

func newRoot() int {
	liteRoots++
	liteLive = append(liteLive, liteRoots)
	if len(liteLive) > 400 {
		for _, r := range liteLive[:100] {
			litevfs.Wipe(r)
		}
		liteLive = append([]int{}, liteLive[100:]...)
	}
	return liteRoots
}

func newLite() *liteBackend {
	if !liteReady {
		if !litevfs.Register() {
			panic("simulator: cannot register the file system")
		}
		liteReady = true
	}
	return &liteBackend{root: newRoot(), seen: map[string]liteState{}}
}

type liteConn struct {
	b    *liteBackend
	id   int
	c    *sqlite3.SQLiteConn
	tx   driver.Tx
	gone bool
}

func (b *liteBackend) open(name string) (*liteConn, error) {
	liteConns++
	b.n++
	litevfs.Enter(b.root, liteConns)
	litevfs.Seed(uint32(b.n))
	c, err := (&sqlite3.SQLiteDriver{}).Open(name)
	if err != nil {
		return nil, err
	}
	return &liteConn{b: b, id: liteConns, c: c.(*sqlite3.SQLiteConn)}, nil
}

func (b *liteBackend) Connect(t kern.Target) (kern.Session, error) {
	c, err := b.open(t.DB)
	if err != nil {
		return nil, err
	}
	return c, nil
}
func (b *liteBackend) Error(kind string, n int) error {
	switch kind {
	case "lost":
		return sqlite3.Error{Code: sqlite3.ErrIoErr}
	case "query":
		return sqlite3.Error{Code: []sqlite3.ErrNo{sqlite3.ErrFull, sqlite3.ErrCorrupt, sqlite3.ErrNotADB, sqlite3.ErrNomem, sqlite3.ErrInterrupt, sqlite3.ErrBusy, sqlite3.ErrLocked, sqlite3.ErrSchema}[n%8]}
	case "exec":
		return sqlite3.Error{Code: []sqlite3.ErrNo{sqlite3.ErrFull, sqlite3.ErrReadonly, sqlite3.ErrBusy, sqlite3.ErrLocked, sqlite3.ErrNomem, sqlite3.ErrInterrupt, sqlite3.ErrCorrupt, sqlite3.ErrSchema, sqlite3.ErrError}[n%9]}
	}
	return sqlite3.Error{Code: []sqlite3.ErrNo{sqlite3.ErrFull, sqlite3.ErrBusy, sqlite3.ErrLocked, sqlite3.ErrReadonly}[n%4]}
}
func (b *liteBackend) BytesForText() bool    { return false }
func (b *liteBackend) PrepareWithArgs() bool { return false }

func (b *liteBackend) Attach(w *kern.World) { b.calm(); litevfs.Flush(b.root) }

func (b *liteBackend) calm() { litevfs.Calm() }

// Arm and Disarm bracket one request.
func (b *liteBackend) Arm(f *kern.Fault) {
	if f == nil {
		litevfs.Arm(0, 0, 0)
		return
	}
	k := map[string]int{"disk-ioerr": litevfs.IOErr, "disk-full": litevfs.Full, "disk-busy": litevfs.Busy, "disk-power": litevfs.Power}[f.Kind]
	litevfs.Arm(f.Arg%kern.DiskSteps+1, k, uint32(f.Arg/kern.DiskSteps))
}
func (b *liteBackend) Disarm() (int, bool, int64) {
	n := litevfs.Ops()
	return n, litevfs.Disarm(), litevfs.Slept() * 1000
}

func (c *liteConn) enter() { litevfs.Enter(c.b.root, c.id) }

func isRead(q string) bool {
	f := strings.Fields(q)
	if len(f) == 0 {
		return true
	}
	switch strings.ToLower(strings.TrimRight(f[0], "(")) {
	case "select", "explain", "values":
		return true
	}
	return false
}

func (c *liteConn) Exec(q string, args []interface{}) (*kern.Result, error) {
	c.enter()
	var nv []driver.NamedValue
	for i, a := range args {
		nv = append(nv, driver.NamedValue{Ordinal: i + 1, Value: a})
	}
	if !isRead(q) {
		_, err := c.c.ExecContext(context.Background(), q, nv)
		return &kern.Result{Mut: true}, err
	}
	rows, err := c.c.QueryContext(context.Background(), q, nv)
	if err != nil {
		return nil, err
	}
	defer rows.Close()
	r := &kern.Result{Cols: append([]string{}, rows.Columns()...)}
	for {
		v := make([]driver.Value, len(r.Cols))
		switch err := rows.Next(v); {
		case err == io.EOF:
			return r, nil
		case err != nil:
			return r, err
		}
		var o []interface{}
		for _, x := range v {
			if y, ok := x.([]byte); ok {
				x = string(y)
			}
			o = append(o, x)
		}
		r.Rows = append(r.Rows, o)
	}
}
func (c *liteConn) Begin() error {
	c.enter()
	tx, err := c.c.Begin()
	c.tx = tx
	return err
}
func (c *liteConn) Commit() error {
	c.enter()
	if c.tx == nil {
		return errors.New("no transaction")
	}
	return c.tx.Commit()
}
func (c *liteConn) Rollback() error {
	c.enter()
	if c.tx == nil {
		return errors.New("no transaction")
	}
	return c.tx.Rollback()
}
func (c *liteConn) Abort(kind string, err error) {
	if kind == "commit" && c.tx != nil {
		c.enter()
		c.tx.Rollback()
	}
}
func (c *liteConn) Close() {
	if !c.gone {
		c.gone = true
		c.enter()
		c.c.Close()
	}
}

// Vanish: the process is gone, with its locks but not with what it wrote.
func (c *liteConn) Vanish() {
	if !c.gone {
		c.gone = true
		litevfs.Vanish(c.id)
		c.enter()
		litevfs.Ghost(true)
		c.c.Close()
		litevfs.Ghost(false)
	}
}

func (b *liteBackend) with(db string, f func(c *liteConn) error) error {
	b.calm()
	c, err := b.open(db)
	if err != nil {
		return err
	}
	defer c.Close()
	return f(c)
}

func (b *liteBackend) CreateDB(n string) { litevfs.Touch(b.root, "/"+n) }

func (b *liteBackend) Admin(db, sql string) error {
	return b.with(db, func(c *liteConn) error {
		_, err := c.c.ExecContext(context.Background(), sql, nil)
		return err
	})
}

func must(r *kern.Result, err error) [][]interface{} {
	if err != nil {
		panic(fmt.Sprintf("simulator: sqlite: %v", err))
	}
	return r.Rows
}

func quoteLite(n string) string { return `"` + strings.ReplaceAll(n, `"`, `""`) + `"` }

type liteObj struct{ typ, name, tbl, sql string }

func (c *liteConn) master() []liteObj {
	var o []liteObj
	for _, r := range must(c.Exec("select type, name, tbl_name, coalesce(sql, '') from sqlite_master order by type, lower(name), name", nil)) {
		o = append(o, liteObj{r[0].(string), r[1].(string), r[2].(string), r[3].(string)})
	}
	return o
}

// State reads everything back, through a connection of its own, unless the
// files are as they were the last time.
func (b *liteBackend) State(db string, rows bool) string {
	x, ok := b.seen[db]
	if !ok || x.ver != litevfs.Version(b.root) {
		x = b.read(db)
		x.ver = litevfs.Version(b.root) // reading may have rolled something back
		b.seen[db] = x
	}
	if rows {
		return x.all
	}
	return x.ddl
}

func (b *liteBackend) read(db string) (st liteState) {
	var ddl, all []string
	add := func(f string, a ...interface{}) {
		s := fmt.Sprintf(f, a...)
		ddl, all = append(ddl, s), append(all, s)
	}
	err := b.with(db, func(c *liteConn) error {
		objs := c.master()
		for _, m := range objs {
			if strings.HasPrefix(m.name, "sqlite_autoindex") {
				continue
			}
			if strings.HasPrefix(m.name, "sqlite_") {
				all = append(all, "table "+m.name)
				continue
			}
			if m.typ == "view" { // the command writes view names in lower case; SQLite does not care
				m.name, m.tbl = strings.ToLower(m.name), strings.ToLower(m.tbl)
			}
			add("%s %s on %s", m.typ, m.name, m.tbl)
			if m.typ != "table" {
				p := ""
				if m.typ == "view" {
					p = c.program(m, objs)
				}
				if p == "" {
					p = normSQL(m.sql)
				}
				add("  %s", p)
				continue
			}
			for _, r := range must(c.Exec("select name, type, \"notnull\", dflt_value, pk, hidden from pragma_table_xinfo("+quoteText(m.name)+") order by name", nil)) {
				add("  column %v %v notnull=%v default=%v pk=%v hidden=%v", r[0], strings.ToLower(fmt.Sprint(r[1])), r[2], r[3], r[4], r[5])
			}
			for _, r := range must(c.Exec("select \"unique\", origin, partial, (select group_concat(coalesce(name,'?')||' '||desc||' '||coll) from pragma_index_xinfo(l.name)) from pragma_index_list("+quoteText(m.name)+") l order by 2, 1, 4", nil)) {
				add("  index %v", r)
			}
			for _, r := range must(c.Exec("select \"table\", \"from\", \"to\", on_update, on_delete from pragma_foreign_key_list("+quoteText(m.name)+") order by 1, 2, 3", nil)) {
				add("  references %v", r)
			}
			for _, r := range must(c.Exec("select * from "+quoteLite(m.name), nil)) {
				all = append(all, fmt.Sprintf("  row %q", fmt.Sprint(r)))
			}
		}
		for _, r := range must(c.Exec("select * from pragma_integrity_check", nil)) {
			if r[0] != "ok" {
				add("CORRUPT %v", r[0])
			}
		}
		return nil
	})
	if err != nil {
		add("unreadable: %v", err)
	}
	st.ddl, st.all = strings.Join(ddl, "\n"), strings.Join(all, "\n")
	return
}

// program is what the engine makes of a view, in a database with the same
// tables that has no history: two texts that mean the same have the same.
func (c *liteConn) program(m liteObj, objs []liteObj) string {
	var setup, key []string
	for _, o := range objs {
		switch o.typ {
		case "table":
			if strings.HasPrefix(o.name, "sqlite_") {
				continue
			}
			var cs []string
			for _, r := range must(c.Exec("select name, type from pragma_table_info("+quoteText(o.name)+") order by lower(name)", nil)) {
				cs = append(cs, quoteLite(fmt.Sprint(r[0]))+" "+fmt.Sprint(r[1]))
			}
			setup = append(setup, "create table "+quoteLite(o.name)+" ("+strings.Join(cs, ", ")+")")
		case "view":
			setup = append(setup, o.sql)
		}
	}
	sort.Strings(setup)
	key = append(key, strings.ToLower(m.name))
	k := strings.Join(append(key, setup...), "\x00")
	if p, ok := litePrograms[k]; ok {
		return p
	}
	p := compile(m.name, setup)
	if len(litePrograms) > 20000 {
		litePrograms = map[string]string{}
	}
	litePrograms[k] = p
	return p
}

var litePrograms = map[string]string{}

func compile(view string, setup []string) string {
	d, err := (&sqlite3.SQLiteDriver{}).Open(":memory:")
	if err != nil {
		return ""
	}
	defer d.Close()
	c := &liteConn{c: d.(*sqlite3.SQLiteConn)}
	for _, q := range setup {
		if _, err := c.c.ExecContext(context.Background(), q, nil); err != nil {
			return ""
		}
	}
	get := func(q string) ([][]interface{}, bool) {
		rows, err := c.c.Query(q, nil)
		if err != nil {
			return nil, false
		}
		defer rows.Close()
		var out [][]interface{}
		for {
			r := make([]driver.Value, len(rows.Columns()))
			if err := rows.Next(r); err != nil {
				return out, err == io.EOF
			}
			var x []interface{}
			for _, v := range r {
				if b, ok := v.([]byte); ok {
					v = string(b)
				}
				x = append(x, v)
			}
			out = append(out, x)
		}
	}
	// a column without a name of its own is called by its text, as it is written
	cols, ok := get("select group_concat(case when name glob '*[^a-zA-Z0-9_ $]*' then '?' else name end) from pragma_table_info(" + quoteText(view) + ")")
	if !ok || len(cols) == 0 {
		return ""
	}
	ops, ok := get("explain select * from " + quoteLite(view))
	if !ok {
		return ""
	}
	var o strings.Builder
	fmt.Fprintf(&o, "columns %v", cols[0])
	for _, r := range ops {
		if r[1] == "Transaction" { // carries the schema's version
			continue
		}
		fmt.Fprintf(&o, "\n    %v %v %v %v %q %v", r[1], r[2], r[3], r[4], fmt.Sprint(r[5]), r[6])
	}
	return o.String()
}

func quoteText(n string) string { return "'" + strings.ReplaceAll(n, "'", "''") + "'" }

// normSQL folds what two ways of writing a definition may differ in.
func normSQL(s string) string {
	var o strings.Builder
	for i, part := range strings.Split(s, "'") {
		if i%2 == 0 {
			part = strings.NewReplacer("`", "", `"`, "", "[", "", "]", "", "<>", "!=").Replace(part)
			part = strings.ToLower(strings.Join(strings.Fields(part), " "))
			part = strings.TrimSuffix(strings.ReplaceAll(part, " asc ", " "), " asc")
		} else {
			part = "'" + part + "'"
		}
		o.WriteString(part)
	}
	return o.String()
}

func (b *liteBackend) Databases() []string {
	var o []string
	for _, f := range litevfs.Files(b.root) {
		if !strings.HasSuffix(f, "-journal") {
			o = append(o, strings.TrimPrefix(f, "/"))
		}
	}
	return o
}
func (b *liteBackend) DB(string) *dbm.DB { return nil }
func (b *liteBackend) Save() interface{} {
	s := liteSave{root: newRoot(), seen: map[string]liteState{}}
	litevfs.Copy(b.root, s.root)
	for k, v := range b.seen {
		if v.ver == litevfs.Version(b.root) {
			s.seen[k] = v
		}
	}
	return s
}
func (b *liteBackend) Restore(x interface{}) {
	s := x.(liteSave)
	for _, l := range liteLive {
		if l == s.root {
			litevfs.Copy(s.root, b.root)
			b.seen = map[string]liteState{}
			for k, v := range s.seen {
				v.ver = litevfs.Version(b.root)
				b.seen[k] = v
			}
			return
		}
	}
	panic("simulator: sqlite: a saved state is gone")
}
func (b *liteBackend) SetOrder(func(int) []int)  {}
func (b *liteBackend) Account(user, pass string) {}

func (b *liteBackend) Seed(db string, n int) {
	err := b.with(db, func(c *liteConn) error {
		for ti, m := range c.master() {
			if m.typ != "table" || strings.HasPrefix(m.name, "sqlite_") {
				continue
			}
			cols := must(c.Exec("select name, type, \"notnull\", pk from pragma_table_info("+quoteText(m.name)+")", nil))
			for r := 0; r < n; r++ {
				var names, vs []string
				for ci, k := range cols {
					nn, pk := fmt.Sprint(k[2]) == "1", fmt.Sprint(k[3]) != "0"
					if !nn && !pk && (r+ci+ti)%4 == 3 {
						continue
					}
					names = append(names, quoteLite(k[0].(string)))
					vs = append(vs, fmt.Sprint(r+1))
				}
				q := "INSERT OR IGNORE INTO " + quoteLite(m.name) + " DEFAULT VALUES"
				if len(names) > 0 {
					q = fmt.Sprintf("INSERT OR IGNORE INTO %s (%s) VALUES (%s)", quoteLite(m.name), strings.Join(names, ", "), strings.Join(vs, ", "))
				}
				if _, err := c.Exec(q, nil); err != nil {
					return err
				}
			}
		}
		return nil
	})
	if err != nil {
		panic(fmt.Sprintf("simulator: sqlite: seeding: %v", err))
	}
}

func (b *liteBackend) Data(db string) map[string]Data {
	o := map[string]Data{}
	b.with(db, func(c *liteConn) error {
		for _, m := range c.master() {
			if m.typ != "table" || strings.HasPrefix(m.name, "sqlite_") {
				continue
			}
			r, err := c.Exec("select * from "+quoteLite(m.name), nil)
			rows := must(r, err)
			x := Data{N: len(rows), Cols: map[string][]string{}}
			for i, n := range r.Cols {
				var v []string
				for _, row := range rows {
					if row[i] == nil {
						v = append(v, "NULL")
					} else {
						v = append(v, fmt.Sprint(row[i]))
					}
				}
				x.Cols[n] = v
			}
			o[m.name] = x
		}
		return nil
	})
	return o
}

func (b *liteBackend) Objects(db string) []string {
	var o []string
	b.with(db, func(c *liteConn) error {
		for _, m := range c.master() {
			if strings.HasPrefix(m.name, "sqlite_") {
				continue
			}
			o = append(o, m.typ+" "+m.name)
			if m.typ == "table" {
				for _, r := range must(c.Exec("select name from pragma_table_info("+quoteText(m.name)+")", nil)) {
					o = append(o, "column "+m.name+"."+r[0].(string))
				}
			}
		}
		return nil
	})
	sort.Strings(o)
	return o
}
