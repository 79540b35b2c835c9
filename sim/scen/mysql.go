package scen

import (
	"database/sql/driver"
	"strings"

	gomysql "github.com/go-sql-driver/mysql"
	"github.com/k0kubun/sqldef/verifcmd/mysqldef"
	"verifsim/dbm"
	"verifsim/kern"
	"verifsim/mysrv"
)

type myBackend struct{ *mysrv.Server }

func init() {
	Tools[MySQL] = &Tool{Name: "mysqldef", Driver: "mysql", Main: mysqldef.Main, DBName: "app", ConnArg: []string{"-uroot"},
		NewSrv: func() Backend { return &myBackend{mysrv.New()} }}
	kern.TargetOf["mysql"] = func(dsn string, real driver.Driver) (kern.Target, error) {
		c, err := gomysql.ParseDSN(dsn)
		if err != nil {
			return kern.Target{}, err
		}
		return kern.Target{Driver: "mysql", Net: c.Net, Addr: c.Addr, User: c.User, Password: c.Passwd, DB: c.DBName, Extra: c.Params}, nil
	}
}

func (b *myBackend) CreateDB(n string) { b.DBs[n] = dbm.NewDB(n) }

func (b *myBackend) Admin(db, sql string) error {
	for _, s := range SplitSQL(sql, true) {
		if _, err := b.Exec(db, s, nil); err != nil {
			return err
		}
	}
	return nil
}

func (b *myBackend) State(db string, rows bool) string {
	if b.DBs[db] == nil {
		return "(no database)"
	}
	return b.DBs[db].Dump(dbm.DumpOpt{Rows: rows, SkipColA: map[string]bool{"null": true, "nodef": true}})
}
func (b *myBackend) DB(n string) *dbm.DB { return b.DBs[n] }
func (b *myBackend) Databases() []string {
	var o []string
	for n := range b.DBs {
		o = append(o, n)
	}
	return o
}
func (b *myBackend) Save() interface{} { return saveDBs(b.DBs) }
func (b *myBackend) Restore(x interface{}) {
	b.DBs = saveDBs(x.(map[string]*dbm.DB))
}
func (b *myBackend) SetOrder(f func(int) []int) { b.Order = f }

func saveDBs(m map[string]*dbm.DB) map[string]*dbm.DB {
	o := map[string]*dbm.DB{}
	for k, v := range m {
		o[k] = v.Clone()
	}
	return o
}

// SplitSQL splits a script at top-level semicolons (BEGIN ... END bodies stay whole).
func SplitSQL(s string, backslash bool) []string {
	var out []string
	depth := 0
	start := 0
	i := 0
	word := func(at int) string {
		j := at
		for j < len(s) && (s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] == '_') {
			j++
		}
		return strings.ToUpper(s[at:j])
	}
	for i < len(s) {
		c := s[i]
		switch {
		case c == '\'' || c == '"' || c == '`':
			j := i + 1
			for j < len(s) && s[j] != c {
				if backslash && s[j] == '\\' && c != '`' {
					j++
				}
				j++
			}
			i = j + 1
			continue
		case c == '[' && i > 0 && (s[i-1] == ' ' || s[i-1] == '.' || s[i-1] == '(' || s[i-1] == ','):
			j := strings.IndexByte(s[i:], ']')
			if j > 0 {
				i += j
			}
		case c == '-' && i+1 < len(s) && s[i+1] == '-':
			for i < len(s) && s[i] != '\n' {
				i++
			}
			continue
		case c == '/' && i+1 < len(s) && s[i+1] == '*':
			j := strings.Index(s[i+2:], "*/")
			if j < 0 {
				i = len(s)
			} else {
				i += j + 4
			}
			continue
		case c == ';' && depth == 0:
			if t := strings.TrimSpace(s[start:i]); !blank(t) {
				out = append(out, t)
			}
			start = i + 1
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_':
			w := word(i)
			if w == "BEGIN" || w == "CASE" {
				depth++
			} else if w == "END" && depth > 0 {
				depth--
			}
			i += len(w)
			continue
		}
		i++
	}
	if t := strings.TrimSpace(s[start:]); !blank(t) {
		out = append(out, t)
	}
	return out
}

// blank: nothing but comments.
func blank(s string) bool {
	for {
		s = strings.TrimSpace(s)
		switch {
		case strings.HasPrefix(s, "--"):
			i := strings.IndexByte(s, '\n')
			if i < 0 {
				return true
			}
			s = s[i:]
		case strings.HasPrefix(s, "/*") && !strings.HasPrefix(s, "/*!"):
			i := strings.Index(s, "*/")
			if i < 0 {
				return true
			}
			s = s[i+2:]
		default:
			return s == ""
		}
	}
}
func (b *myBackend) Seed(db string, n int)     { SeedModel(b.DBs[db], n) }
func (b *myBackend) Account(user, pass string) { b.Accounts[user] = pass }
