package scen

import (
	"database/sql/driver"
	"fmt"
	"net/url"
	"strings"

	"github.com/k0kubun/sqldef/verifcmd/psqldef"
	"github.com/lib/pq"
	"verifsim/dbm"
	"verifsim/kern"
	"verifsim/pgsrv"
)

type pgBackend struct{ *pgsrv.Server }

func init() {
	Tools[PG] = &Tool{Name: "psqldef", Driver: "postgres", Main: psqldef.Main, DBName: "app", ConnArg: []string{"-Upostgres"},
		Env: map[string]string{"PGSSLMODE": "disable"}, NewSrv: func() Backend { return &pgBackend{pgsrv.New()} }}
	kern.TargetOf["postgres"] = pgTarget
}

// pgTarget reads the DSN with the real driver's own URL parser.
func pgTarget(dsn string, real driver.Driver) (kern.Target, error) {
	t := kern.Target{Driver: "postgres", Net: "tcp", Extra: map[string]string{}}
	conv := dsn
	if strings.HasPrefix(dsn, "postgres://") || strings.HasPrefix(dsn, "postgresql://") {
		c, err := pq.ParseURL(dsn)
		if err != nil {
			return t, err
		}
		conv = c
	}
	host, port := "localhost", "5432"
	// key='value' pairs
	i := 0
	for i < len(conv) {
		for i < len(conv) && conv[i] == ' ' {
			i++
		}
		eq := strings.IndexByte(conv[i:], '=')
		if eq < 0 {
			break
		}
		k := conv[i : i+eq]
		i += eq + 1
		v := ""
		if i < len(conv) && conv[i] == '\'' {
			i++
			for i < len(conv) && conv[i] != '\'' {
				if conv[i] == '\\' && i+1 < len(conv) {
					i++
				}
				v += conv[i : i+1]
				i++
			}
			i++
		} else {
			for i < len(conv) && conv[i] != ' ' {
				if conv[i] == '\\' && i+1 < len(conv) {
					i++
				}
				v += conv[i : i+1]
				i++
			}
		}
		switch k {
		case "host":
			host = v
		case "port":
			port = v
		case "user":
			t.User = v
		case "password":
			t.Password = v
		case "dbname":
			t.DB = v
		default:
			t.Extra[k] = v
		}
	}
	if strings.HasPrefix(host, "/") {
		t.Net, t.Addr = "unix", host+"/.s.PGSQL."+port
	} else {
		t.Addr = host + ":" + port
	}
	if t.User == "" {
		return t, fmt.Errorf("pq: no user")
	}
	return t, nil
}

func (b *pgBackend) CreateDB(n string) {
	b.DBs[n] = pgsrv.NewDB(n)
	b.DBs[n].Schemas["s1"] = true // a second schema; the command does not create schemas
}

var _ = url.Parse

func (b *pgBackend) Admin(db, sql string) error {
	for _, s := range SplitSQL(sql, false) {
		if err := b.AdminExec(db, s); err != nil {
			return err
		}
	}
	return nil
}

var pgDump = dbm.DumpOpt{IgnoreColOrder: true, SkipColA: map[string]bool{"defshow": true, "seq": true}}

func (b *pgBackend) State(db string, rows bool) string {
	if b.DBs[db] == nil {
		return "(no database)"
	}
	o := pgDump
	o.Rows = rows
	return b.DBs[db].Dump(o)
}
func (b *pgBackend) DB(n string) *dbm.DB { return b.DBs[n] }
func (b *pgBackend) Databases() []string {
	var o []string
	for n := range b.DBs {
		o = append(o, n)
	}
	return o
}
func (b *pgBackend) Save() interface{}          { return saveDBs(b.DBs) }
func (b *pgBackend) Restore(x interface{})      { b.DBs = saveDBs(x.(map[string]*dbm.DB)) }
func (b *pgBackend) SetOrder(f func(int) []int) { b.Order = f }
func (b *pgBackend) Account(user, pass string)  { b.Accounts[user] = pass }
func (b *pgBackend) Seed(db string, n int)      { SeedModel(b.DBs[db], n) }
