package scen

import (
	"database/sql/driver"
	"fmt"
	"net/url"
	"strings"

	mssql "github.com/denisenkom/go-mssqldb"
	"github.com/k0kubun/sqldef/verifcmd/mssqldef"
	"verifsim/dbm"
	"verifsim/kern"
	"verifsim/mssrv"
)

type msBackend struct{ *mssrv.Server }

func init() {
	Tools[MSSQL] = &Tool{Name: "mssqldef", Driver: "sqlserver", Main: mssqldef.Main, DBName: "app", ConnArg: []string{"-Usa"},
		NewSrv: func() Backend { return &msBackend{mssrv.New()} }}
	kern.TargetOf["sqlserver"] = msTarget
}

// msTarget reads the URL form of the DSN as the driver documents it, once the
// driver itself has accepted it.
func msTarget(dsn string, real driver.Driver) (kern.Target, error) {
	t := kern.Target{Driver: "sqlserver", Net: "tcp", Extra: map[string]string{}}
	if _, err := mssql.NewConnector(dsn); err != nil {
		return t, err
	}
	u, err := url.Parse(dsn)
	if err != nil {
		return t, err
	}
	if u.Scheme != "sqlserver" {
		return t, fmt.Errorf("scheme %s is not recognized", u.Scheme)
	}
	if u.User != nil {
		t.User = u.User.Username()
		t.Password, _ = u.User.Password()
	}
	port := u.Port()
	if port == "" {
		port = "1433"
	}
	t.Addr = u.Hostname() + ":" + port
	for k, v := range u.Query() {
		switch strings.ToLower(k) {
		case "database":
			t.DB = v[0]
		case "user id":
			t.User = v[0]
		case "password":
			t.Password = v[0]
		default:
			t.Extra[strings.ToLower(k)] = v[0]
		}
	}
	return t, nil
}

func (b *msBackend) CreateDB(n string) {
	b.DBs[n] = mssrv.NewDB(n)
	b.DBs[n].Schemas["s1"] = true
}

func (b *msBackend) Admin(db, sql string) error {
	for _, s := range SplitSQL(sql, false) {
		if err := b.AdminExec(db, s); err != nil {
			return err
		}
	}
	return nil
}

var msDump = dbm.DumpOpt{IgnoreColOrder: true, SkipColA: map[string]bool{"dfn": true},
	AutoName: func(kind, n string, t *dbm.Table) bool { return mssrv.AutoName(kind, n) || unnamedCheck(kind, n, t) }}

// unnamedCheck: the command's own name for a check that was given none.
func unnamedCheck(kind, n string, t *dbm.Table) bool {
	if kind == "check" {
		for _, c := range t.Cols {
			if n == t.Name[strings.LastIndex(t.Name, ".")+1:]+"_"+c.Name+"_check" {
				return true
			}
		}
	}
	return false
}

func (b *msBackend) State(db string, rows bool) string {
	if b.DBs[db] == nil {
		return "(no database)"
	}
	o := msDump
	o.Rows = rows
	return b.DBs[db].Dump(o)
}
func (b *msBackend) DB(n string) *dbm.DB { return b.DBs[n] }
func (b *msBackend) Databases() []string {
	var o []string
	for n := range b.DBs {
		o = append(o, n)
	}
	return o
}
func (b *msBackend) Save() interface{}              { return saveDBs(b.DBs) }
func (b *msBackend) Restore(x interface{})          { b.DBs = saveDBs(x.(map[string]*dbm.DB)) }
func (b *msBackend) SetOrder(f func(int) []int)     { b.Order = f }
func (b *msBackend) Account(user, pass string)      { b.Accounts[user] = pass }
func (b *msBackend) Seed(db string, n int)          { SeedModel(b.DBs[db], n) }
func (b *msBackend) Data(db string) map[string]Data { return ModelData(b.DBs[db]) }
func (b *msBackend) Objects(db string) []string     { return ModelObjects(b.DBs[db]) }
