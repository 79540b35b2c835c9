// Package gen makes desired schemas and histories of edits to them.
package gen

import (
	"fmt"
	"math/rand"
	"strings"
)

// Stmt is one statement of a desired schema, kept in pieces so that a failing
// scenario can be cut down piece by piece.
type Stmt struct {
	Pre   string   `json:"p,omitempty"` // a comment before it
	Head  string   `json:"h"`
	Elems []string `json:"e,omitempty"`
	Tail  string   `json:"t,omitempty"`
	Lay   int      `json:"l,omitempty"` // how it is laid out
}

func (s Stmt) SQL() string {
	if s.Elems == nil {
		if s.Lay == 2 {
			return s.Pre + strings.ReplaceAll(s.Head, "\n", "\r\n")
		}
		return s.Pre + s.Head
	}
	o := s.Pre + s.Head
	switch s.Lay {
	case 1:
		return o + "(" + strings.Join(s.Elems, ",") + ")" + s.Tail
	case 2:
		return o + "\r\n(\r\n\t" + strings.Join(s.Elems, ",\r\n\t") + "\r\n)\r\n" + s.Tail
	case 3:
		return o + " ( -- it's a list; \"really\n  " + strings.Join(s.Elems, ", -- note: that's it; and more\n  ") + " -- the (end\n)" + s.Tail
	case 4:
		return o + " /* what's; in it */ (\n\n    " + strings.Join(s.Elems, "\n  , /* and; \"so on */ ") + "\n\n)" + s.Tail
	}
	return o + " (\n  " + strings.Join(s.Elems, ",\n  ") + "\n)" + s.Tail
}

type Schema []Stmt

func (s Schema) SQL() string {
	var o []string
	for _, t := range s {
		o = append(o, t.SQL()+";\n")
	}
	return strings.Join(o, "\n")
}

type Col struct {
	Name, Type, Def, Check, OnUpd, Comment, Ident string
	Coll                                          string // MySQL: character set and collation
	NotNull, Unique, Auto                         bool
	CkNFR                                         bool // SQL Server: NOT FOR REPLICATION; PostgreSQL: NO INHERIT
	CkAnon                                        bool // SQL Server: the server names the check
}
type Idx struct {
	Name   string
	Cols   []string
	Unique bool
	Where  string
	Style  int            // 0: inside CREATE TABLE, 1: CREATE INDEX, 2: ALTER TABLE ... ADD INDEX
	Clust  string         // SQL Server: clustered or nonclustered
	Desc   []string       // the columns kept in descending order
	Incl   []string       // SQL Server: INCLUDE (...)
	Opts   []string       // SQL Server: WITH (...)
	Part   int            // SQL Server: 1 ON [PRIMARY], 2 on a partition scheme
	Len    map[string]int // MySQL: how much of a column is indexed
}
type FK struct {
	Name          string
	Cols, RefCols []string
	Ref           string
	OnDel, OnUpd  string
	Alter         bool   // ALTER TABLE ... ADD instead of inside CREATE TABLE
	NFR           bool   // SQL Server: NOT FOR REPLICATION
	Index         string // MySQL: the name of its index
}
type Policy struct {
	Name, Text                    string
	Perm, Cmd, Roles, Using, With string
}
type Table struct {
	Name     string
	Cols     []*Col
	PK       []string
	PKName   string
	PKInline bool
	PKNon    bool     // SQL Server: not clustered
	PKOpts   []string // SQL Server: WITH (...)
	Idx      []*Idx
	FKs      []*FK
	Policies []*Policy
	Opts     string
	Fixed    *Stmt // SQLite: as it was written when the table was made
}
type View struct {
	Name, Table, Def string
	Cols             []string
	With             string // a joined table
	WithCol          string
}
type Trigger struct{ Name, Table, Text, Time, Event, Body string }
type S struct {
	Tables   []*Table
	Views    []*View
	Triggers []*Trigger
}

func (s *S) Clone() *S {
	n := &S{}
	for _, t := range s.Tables {
		x := *t
		x.Cols, x.Idx, x.FKs, x.Policies = nil, nil, nil, nil
		for _, c := range t.Cols {
			y := *c
			x.Cols = append(x.Cols, &y)
		}
		for _, c := range t.Idx {
			y := *c
			x.Idx = append(x.Idx, &y)
		}
		for _, c := range t.FKs {
			y := *c
			x.FKs = append(x.FKs, &y)
		}
		for _, c := range t.Policies {
			y := *c
			x.Policies = append(x.Policies, &y)
		}
		n.Tables = append(n.Tables, &x)
	}
	for _, v := range s.Views {
		y := *v
		n.Views = append(n.Views, &y)
	}
	for _, v := range s.Triggers {
		y := *v
		n.Triggers = append(n.Triggers, &y)
	}
	return n
}

func (s *S) table(n string) *Table {
	for _, t := range s.Tables {
		if t.Name == n {
			return t
		}
	}
	return nil
}
func (t *Table) col(n string) *Col {
	for _, c := range t.Cols {
		if c.Name == n {
			return c
		}
	}
	return nil
}

// bare is a table's name as part of another name.
func bare(n string) string {
	n = strings.ReplaceAll(n, ".", "_")
	if len(n) > 30 {
		n = n[:20] + fmt.Sprint(len(n))
	}
	return n
}

// long names: what PostgreSQL names after them, it cuts.
var longTables = []string{"customer_relationship_management_contact_import_batches",
	"incoming_goods_quality_inspection_measurement_protocol_lines", "the_sixty_three_characters_that_a_name_can_have_on_postgresql_x"}
var longCols = []string{"number_of_unread_notifications_of_the_customer", "preferred_means_of_transport", "confirmation_period_in_working_days"}

// wild names need quotes wherever they are written.
var wildCols = []string{"order", "group", "key", "userName", "first name", "a-b", "Title", "select", "from", "2fa", "default", "größe", "desc", "x$y"}
var wildTables = []string{"order", "group", "UserData", "line items", "a-table", "table", "user", "3d"}

func isWild(n string) bool {
	for i, c := range n {
		if !(c >= 'a' && c <= 'z' || c == '_' || i > 0 && c >= '0' && c <= '9') {
			return true
		}
	}
	return in(wildCols, n) || in(wildTables, n)
}

// nm is a name as it has to be written at least.
func (g *G) nm(n string) string {
	if sc, t, ok := strings.Cut(n, "."); ok {
		return g.nm(sc) + "." + g.nm(t)
	}
	if !isWild(n) {
		return n
	}
	return g.quoted(n)
}

func (g *G) quoted(n string) string {
	switch g.D {
	case "mysql":
		return "`" + n + "`"
	case "mssql":
		return "[" + n + "]"
	}
	return `"` + n + `"`
}

func in(a []string, s string) bool {
	for _, x := range a {
		if x == s {
			return true
		}
	}
	return false
}

// G generates for one dialect.
type G struct {
	D    string
	R    *rand.Rand
	DB   string
	n    int
	prev *S
	Off  map[string]bool // edit kinds left out
	ops  []string        // the edits this history is about; nil: all
	sel  []int           // the column kinds it uses; nil: all
	with map[string]bool // objects it starts with
	wild bool            // it has names that need quotes
	long bool            // it has long names
	Log  []string        // edits made
	Data bool            // about the columns of tables that stay
}

func New(d string, r *rand.Rand) *G { return &G{D: d, R: r, DB: "app", Off: map[string]bool{}} }

func (g *G) pick(a []string) string { return a[g.R.Intn(len(a))] }
func (g *G) p(n int) bool           { return g.R.Intn(100) < n }

var tableNames = strings.Fields("users posts comments orders items tags accounts events teams a_list zones")
var colNames = strings.Fields("name age title body price state email created_at updated_at owner_id score kind flag note rank_no amount data tier code status level date comment year text action")

type kindT struct {
	types []string // interchangeable types, narrow to wide
	defs  []string
	class string // num str time blob bool json
}

func (g *G) kinds() []kindT {
	switch g.D {
	case "mysql":
		return []kindT{
			{[]string{"tinyint(4)", "smallint(6)", "int(11)", "bigint(20)"}, []string{"0", "1", "-5", "42"}, "num"},
			{[]string{"int", "bigint"}, []string{"0", "7"}, "num"},
			{[]string{"bigint(20) unsigned"}, []string{"18446744073709551615"}, "num"},
			{[]string{"int(10) unsigned", "bigint(20) unsigned"}, []string{"0", "10"}, "num"},
			{[]string{"varchar(20)", "varchar(40)", "varchar(100)", "varchar(255)"}, []string{"''", "'abc'", "'x y'", "'it''s'", "'a;b'", "'--'", "'ABC'", "'C:\\\\temp'", "'größe'", "'\"q\"'", "'two\nlines'", "'a\\nb'", "'x  y'", "'it\\'s'", "'%d %'", "'`b`'"}, "str"},
			{[]string{"char(10)", "char(40)", "varchar(60)"}, []string{"'k'", "'ß'", "'0'"}, "str"},
			{[]string{"bit(8)"}, []string{"b'101'", "b'0'"}, "num"},
			{[]string{"set('a','b')", "set('a','b','c')", "set('a','c')"}, []string{"'a'", "'a,b'"}, "str"},
			{[]string{"mediumint(9)"}, []string{"0", "-3"}, "num"},
			{[]string{"double"}, []string{"1.5", "-2", "0"}, "num"},
			{[]string{"decimal(8,2)", "decimal(10,2)"}, []string{"1.50", "-0.25"}, "num"},
			{[]string{"time"}, []string{"'00:00:00'"}, "time"},
			{[]string{"tinytext", "text"}, nil, "blob"},
			{[]string{"enum('x y','it''s')", "enum('x y','it''s','a,b')"}, []string{"'x y'", "'it''s'"}, "str"},
			{[]string{"text", "mediumtext", "longtext"}, nil, "blob"},
			{[]string{"datetime", "datetime(3)", "datetime(6)"}, nil, "time"},
			{[]string{"time", "time(3)"}, nil, "time"},
			{[]string{"float", "float(7,3)", "double", "double precision"}, nil, "num"},
			{[]string{"numeric(8,2)", "numeric(10,1)", "decimal(12)", "decimal"}, []string{"0", "5"}, "num"},
			{[]string{"year", "year(4)"}, nil, "time"},
			{[]string{"real"}, nil, "num"},
			{[]string{"binary", "binary(4)"}, nil, "str"},
			{[]string{"datetime"}, []string{"CURRENT_TIMESTAMP", "'2020-01-01 00:00:00'"}, "time"},
			{[]string{"date"}, []string{"'2020-01-01'"}, "time"},
			{[]string{"float", "double"}, nil, "num"},
			{[]string{"decimal(8,2)", "decimal(10,2)", "decimal(10,3)", "decimal(12,2)"}, []string{"0", "1.5"}, "num"},
			{[]string{"json"}, nil, "blob"},
			{[]string{"blob", "longblob"}, nil, "blob"},
			{[]string{"enum('a','b')", "enum('a','b','c')", "enum('a','c')", "enum('b','a')", "enum('a','B')"}, []string{"'a'"}, "str"},
			{[]string{"varbinary(16)", "varbinary(64)"}, nil, "str"},
			{[]string{"boolean"}, []string{"false", "true"}, "num"},
			{[]string{"tinyint(1)"}, []string{"0", "1"}, "num"},
			{[]string{"tinyblob", "mediumblob"}, nil, "blob"},
			{[]string{"point", "geometry"}, nil, "blob"},
			{[]string{"smallint unsigned", "mediumint unsigned"}, []string{"3"}, "num"},
			{[]string{"int(8) unsigned zerofill", "int(8) unsigned", "int(8) zerofill"}, []string{"3"}, "num"},
			{[]string{"character varying(20)", "character(15)"}, []string{"'v'"}, "str"},
			{[]string{"double(7,3)", "double(9,3)"}, []string{"0.125", "1e2", ".5"}, "num"},
			{[]string{"bool", "integer"}, []string{"0"}, "num"},
			{[]string{"decimal(5)", "decimal(5,2)"}, []string{"2", "-1"}, "num"},
			{[]string{"polygon", "linestring"}, nil, "blob"},
			{[]string{"datetime(3)"}, []string{"CURRENT_TIMESTAMP(3)"}, "time"},
			{[]string{"bit", "bit(1)", "bit(12)"}, nil, "num"},
		}
	case "postgres":
		return []kindT{
			{[]string{"smallint", "integer", "bigint"}, []string{"0", "1", "42", "-1"}, "num"},
			{[]string{"int", "bigint"}, []string{"0", "7"}, "num"},
			{[]string{"varchar(20)", "varchar(40)", "character varying(100)", "text"}, []string{"''", "'abc'", "'x y'", "'it''s'", "'a;b'", "'--'", "'ABC'", "'C:\\temp'", "'größe'", "'\"q\"'", "'two\nlines'", "'a\\nb'", "'x  y'", "'%d %'", "'`b`'", "'a::b'"}, "str"},
			{[]string{"text"}, []string{"''", "'t'", "'now()'", "'-1'"}, "str"},
			{[]string{"char(10)", "character(20)"}, []string{"'k'", "'ß'"}, "str"},
			{[]string{"numeric"}, []string{"1.5", "0", "-0.25"}, "num"},
			{[]string{"double precision"}, []string{"1.5", "-2"}, "num"},
			{[]string{"jsonb"}, []string{"'{}'", "'[]'", "'{\"a\": 1}'"}, "blob"},
			{[]string{"text[]"}, []string{"'{}'"}, "blob"},
			{[]string{"date"}, []string{"'2020-01-01'"}, "time"},
			{[]string{"time with time zone"}, nil, "time"},
			{[]string{"timestamp(3)"}, nil, "time"},
			{[]string{"boolean"}, []string{"true", "false"}, "bool"},
			{[]string{"bool"}, []string{"true", "false"}, "bool"},
			{[]string{"timestamp"}, []string{"CURRENT_TIMESTAMP", "now()"}, "time"},
			{[]string{"timestamp", "date"}, nil, "time"},
			{[]string{"timestamp with time zone"}, []string{"CURRENT_TIMESTAMP"}, "time"},
			{[]string{"date"}, []string{"CURRENT_DATE"}, "time"},
			{[]string{"time"}, nil, "time"},
			{[]string{"numeric(10,2)", "numeric(12,3)", "decimal(10,2)", "numeric", "decimal"}, []string{"0", "1.5"}, "num"},
			{[]string{"real", "double precision", "float"}, nil, "num"},
			{[]string{"timestamp", "timestamp(3)", "timestamp with time zone", "timestamp(0) with time zone"}, nil, "time"},
			{[]string{"time", "time(3)"}, nil, "time"},
			{[]string{"varchar(10)", "varchar"}, nil, "str"},
			{[]string{"bit", "bit(3)"}, nil, "blob"},
			{[]string{"timestamp with time zone[]"}, nil, "blob"},
			{[]string{"json", "jsonb"}, nil, "blob"},
			{[]string{"uuid"}, nil, "str"},
			{[]string{"text[]"}, nil, "blob"},
			{[]string{"integer[]"}, nil, "blob"},
			{[]string{"varchar(20)[]", "varchar[]"}, nil, "blob"},
			{[]string{"numeric(5,2)[]"}, nil, "blob"},
			{[]string{"boolean[]"}, nil, "blob"},
			{[]string{"uuid[]"}, nil, "blob"},
			{[]string{"date[]"}, nil, "blob"},
			{[]string{"jsonb[]"}, nil, "blob"},
			{[]string{"double precision[]"}, nil, "blob"},
			{[]string{"smallint[]"}, nil, "blob"},
			{[]string{"bigint[]"}, nil, "blob"},
			{[]string{"point"}, nil, "blob"},
			{[]string{"polygon"}, nil, "blob"},
			{[]string{"money"}, nil, "num"},
			{[]string{"decimal(5)", "numeric(5)"}, []string{".5", "1e2"}, "num"},
			{[]string{"char", "character"}, nil, "str"},
			{[]string{"time(3) with time zone"}, nil, "time"},
			{[]string{"char(3)[]"}, nil, "blob"},
		}
	case "mssql":
		return []kindT{
			{[]string{"int"}, []string{"0", "1", "42", "-1"}, "num"},
			{[]string{"bigint"}, []string{"0", "7"}, "num"},
			{[]string{"decimal(10,2)"}, []string{"0", "1.5", "-0.25"}, "num"},
			{[]string{"float"}, []string{"0", "1.5"}, "num"},
			{[]string{"datetime"}, []string{"getdate()"}, "time"},
			{[]string{"varchar(30)"}, []string{"'it''s'", "'a;b'", "'größe'", "'x  y'", "'\"q\"'", "'[x]'", "'(1)'", "'two\nlines'", "'C:\\temp'"}, "str"},
			{[]string{"smallint"}, []string{"0"}, "num"},
			{[]string{"tinyint"}, nil, "num"},
			{[]string{"bit"}, []string{"0", "1"}, "num"},
			{[]string{"varchar(20)"}, []string{"''", "'abc'"}, "str"},
			{[]string{"varchar(100)"}, nil, "str"},
			{[]string{"nvarchar(50)"}, nil, "str"},
			{[]string{"char(10)"}, []string{"'k'"}, "str"},
			{[]string{"text"}, nil, "blob"},
			{[]string{"datetime"}, nil, "time"},
			{[]string{"date"}, nil, "time"},
			{[]string{"decimal(10,2)"}, nil, "num"},
			{[]string{"float"}, nil, "num"},
			{[]string{"numeric"}, nil, "num"},
			{[]string{"nchar(10)"}, []string{"'k'"}, "str"},
			{[]string{"nvarchar(10)"}, []string{"'n'"}, "str"},
			{[]string{"time"}, nil, "time"},
			{[]string{"time(3)"}, nil, "time"},
			{[]string{"datetime2"}, nil, "time"},
			{[]string{"datetimeoffset(1)"}, nil, "time"},
			{[]string{"smalldatetime"}, nil, "time"},
			{[]string{"money"}, nil, "num"},
			{[]string{"varbinary(20)", "binary(5)"}, nil, "str"},
			{[]string{"ntext"}, nil, "blob"},
			{[]string{"smallmoney"}, nil, "num"},
			{[]string{"real"}, nil, "num"},
			{[]string{"numeric(8,3)", "decimal"}, []string{".5", "1e2"}, "num"},
			{[]string{"datetimeoffset", "time(0)", "datetimeoffset(7)", "time(7)"}, nil, "time"},
			{[]string{"char", "nchar", "binary"}, nil, "str"},
			{[]string{"int"}, []string{"(5)", "((6))"}, "num"},
		}
	}
	return []kindT{
		{[]string{"integer"}, []string{"0", "1", "42"}, "num"},
		{[]string{"bigint"}, []string{"0", "7"}, "num"},
		{[]string{"text"}, []string{"''", "'abc'", "'a;b'", "'/*'", "'it''s'", "'größe'", "'x  y'", "'two\nlines'", "'C:\\temp'"}, "str"},
		{[]string{"varchar(20)"}, []string{"'abc'"}, "str"},
		{[]string{"varchar(100)"}, nil, "str"},
		{[]string{"real"}, nil, "num"},
		{[]string{"blob"}, nil, "blob"},
		{[]string{"datetime"}, nil, "time"},
		{[]string{"boolean"}, nil, "num"},
	}
}

func (g *G) kindOf(t string) *kindT {
	ks := g.kinds()
	for i := range ks {
		if in(ks[i].types, t) {
			return &ks[i]
		}
	}
	return &kindT{class: "num"}
}

func (g *G) newCol(t *Table) *Col {
	name := ""
	for i := 0; ; i++ {
		name = g.pick(colNames)
		if g.wild && g.p(40) {
			name = g.pick(wildCols)
			if g.D == "postgres" && in([]string{"key", "x$y"}, name) {
				name = "value" // known findings: the server doesn't quote these, but the parser wants them quoted
			}
			if g.D != "postgres" && name == "Title" {
				name = "pageTitle" // known finding: the same name in another case
			}
		}
		if g.long && g.p(30) {
			name = g.pick(longCols)
		}
		if i > 5 {
			g.n++
			name = fmt.Sprintf("c%d", g.n)
		}
		if t.col(name) == nil {
			break
		}
	}
	ks := g.kinds()
	k := ks[g.R.Intn(len(ks))]
	if g.p(50) {
		k = ks[g.R.Intn(4)%len(ks)]
	}
	if g.sel != nil && g.p(70) {
		k = ks[g.sel[g.R.Intn(len(g.sel))]]
	}
	c := &Col{Name: name, Type: g.pick(k.types)}
	c.NotNull = g.p(40)
	g.setDef(c, &k)
	if g.D == "mysql" && g.Data && g.p(10) {
		c.Type, c.Def = "datetime", "CURRENT_TIMESTAMP"
	}
	if g.D == "mysql" && g.p(10) && !g.Off["comment"] {
		c.Comment = g.pick(comments)
	}
	if g.p(12) {
		g.collate(t, c)
	}
	if g.D == "mysql" && c.Type == "datetime" && c.Def == "CURRENT_TIMESTAMP" && g.p(40) {
		c.OnUpd = "CURRENT_TIMESTAMP"
	}
	if (g.D == "postgres" || g.D == "mssql") && k.class == "num" && c.Def == "" && g.p(15) && !g.Off["check"] && !strings.HasPrefix(c.Type, "bit") {
		c.Check = g.check(c)
		c.CkNFR, c.CkAnon = g.p(15), g.p(30)
	}
	if g.p(30) && inlineUnique(name) && !g.Off["unique"] && k.class != "blob" && g.D != "mssql" {
		c.Unique = true
	}
	return c
}

// collate gives a column another character set or collation. What is left out of
// the declaration isn't compared, so nothing that was given is left out later.
func (g *G) collate(t *Table, c *Col) bool {
	if g.D != "mysql" || g.Off["collate"] || c.Unique || c.Def != "" && strings.Trim(c.Def, "'abcxyk ") != "" {
		return false
	}
	if !strings.HasPrefix(c.Type, "varchar") && !strings.HasPrefix(c.Type, "char") && !strings.HasSuffix(c.Type, "text") {
		return false
	}
	cs := func(x string) string { return strings.TrimSpace(strings.TrimPrefix(x, "CHARACTER SET")) }
	n := g.pick([]string{"CHARACTER SET latin1", "CHARACTER SET ascii", "CHARACTER SET sjis", "CHARACTER SET utf8mb4", "CHARACTER SET utf8", "COLLATE utf8mb4_bin", "COLLATE latin1_bin", "CHARACTER SET latin1 COLLATE latin1_bin", "CHARACTER SET utf8mb4 COLLATE utf8mb4_bin", "COLLATE utf8_unicode_ci", "CHARACTER SET utf8 COLLATE utf8_bin", "BINARY"})
	if n == "BINARY" && !strings.Contains(strings.ToLower(t.Opts), "charset=") || n == c.Coll {
		return false
	}
	if o := strings.ToLower(t.Opts) + " "; strings.Contains(o, "charset="+cs(n)+" ") && (strings.Contains(o, "collate=") || c.Coll == "BINARY") {
		return false
	}
	if strings.HasPrefix(c.Coll, cs(n)+" ") || strings.HasPrefix(c.Coll, n+" ") || strings.HasPrefix(c.Coll, "COLLATE "+cs(n)+"_") {
		return false // only the collation would be left out
	}
	c.Coll = n
	return true
}

var comments = []string{"note", "the thing", "it''s", "%d; of 5", "a\\\\b", "größe", "Note", "note ", "The Thing"}

// inlineUnique: columns that may be declared UNIQUE, and are in no index.
func inlineUnique(n string) bool { return n == "email" || n == "code" }

func (g *G) check(c *Col) string {
	op := g.pick([]string{">", "<", ">=", "<="})
	if g.D == "mssql" {
		return fmt.Sprintf("([%s]%s(%d))", c.Name, op, g.R.Intn(50)+1)
	}
	return fmt.Sprintf("(%s %s %d)", g.nm(c.Name), op, g.R.Intn(50)+1)
}

func (g *G) setDef(c *Col, k *kindT) {
	if d := c.Def; k.class == "str" && len(k.defs) > 3 && len(d) > 3 && d[0] == '\'' && g.p(30) {
		// almost the same
		d = strings.Trim(d, "'")
		if !strings.ContainsAny(d, "'\\%\n") {
			c.Def = "'" + g.pick([]string{strings.ToLower(d), strings.ToUpper(d), d + " ", " " + d, d + "x", "x" + d, strings.ReplaceAll(d, " ", "  ")}) + "'"
			return
		}
	}
	c.Def = ""
	if len(k.defs) > 0 && g.p(45) {
		c.Def = g.pick(k.defs)
		if strings.HasPrefix(c.Type, "tinyint(4)") && c.Def == "300" {
			c.Def = "1"
		}
	}
}

func (g *G) indexable(t *Table) []string {
	var o []string
	for _, c := range t.Cols {
		k := g.kindOf(c.Type)
		if k.class == "blob" || c.Type == "json" || inlineUnique(c.Name) {
			continue
		}
		o = append(o, c.Name)
	}
	return o
}

func (g *G) pkType() string {
	switch g.D {
	case "mysql":
		return g.pick([]string{"bigint(20)", "int(11)", "bigint", "bigint(20) unsigned", "int"})
	case "postgres":
		return g.pick([]string{"bigint", "integer", "bigserial", "serial"})
	case "mssql":
		return g.pick([]string{"bigint", "int"})
	}
	return "integer"
}

func (g *G) newTable(s *S) *Table {
	name := ""
	for i := 0; ; i++ {
		name = g.pick(tableNames)
		if g.wild && g.p(35) {
			name = g.pick(wildTables)
			if g.D == "postgres" && name == "user" {
				name = "user2" // known finding: not quoted in a view
			}
		}
		if g.long && g.p(50) {
			name = g.pick(longTables)
		}
		if g.D == "sqlite3" && g.p(10) {
			name = g.pick([]string{"sqlitedata", "sqlite", "Users2", "main_data", "T_9"})
		}
		if i > 5 {
			g.n++
			name = fmt.Sprintf("t%d", g.n)
		}
		if (g.D == "postgres" || g.D == "mssql") && g.p(15) && !g.Off["schemas"] {
			name = "s1." + name
			if len(s.Tables) > 0 && g.p(40) {
				name = "s1." + strings.ReplaceAll(s.Tables[g.R.Intn(len(s.Tables))].Name, ".", "_") // the same name in two schemas
				if strings.HasPrefix(name, "s1.s1_") {
					continue
				}
			}
		}
		if s.table(name) == nil && !s.hasView(name) && (g.prev == nil || g.prev.table(name) == nil) {
			break
		}
	}
	t := &Table{Name: name}
	if g.D == "mysql" && g.p(30) && !g.Off["tableopts"] {
		t.Opts = " " + g.pick([]string{"ENGINE=InnoDB DEFAULT CHARSET=utf8mb4", "ENGINE=InnoDB DEFAULT CHARSET=utf8mb4", "engine=innodb default charset=utf8mb4",
			"DEFAULT CHARSET=latin1", "ENGINE=InnoDB CHARSET=utf8", "DEFAULT CHARSET=utf8mb4 COLLATE=utf8mb4_bin", "DEFAULT CHARSET=ascii", "ENGINE=InnoDB DEFAULT CHARSET=utf8mb4 COMMENT='the table'"})
	}
	if g.p(85) {
		c := &Col{Name: "id", Type: g.pkType(), NotNull: true}
		if g.D == "mysql" && g.p(40) {
			c.Auto = true
		}
		if g.D == "mssql" && g.p(30) && !g.Off["identity"] {
			c.Ident = g.ident()
		}
		if g.D == "postgres" && !strings.Contains(c.Type, "serial") && g.p(20) && !g.Off["identity"] {
			c.Ident = g.ident()
		}
		t.Cols = append(t.Cols, c)
		t.PK = []string{"id"}
		t.PKInline = g.p(60)
		if g.p(12) && !g.Off["compositepk"] && !g.Off["fk2"] { // what keys of two columns can refer to
			k := &Col{Name: "part_no", Type: map[string]string{"postgres": "bigint", "sqlite3": "integer"}[g.D], NotNull: true}
			if k.Type == "" {
				k.Type = "int"
			}
			if g.p(50) {
				t.Cols = append([]*Col{k}, t.Cols...)
			} else {
				t.Cols = append(t.Cols, k)
			}
			t.PK, t.PKInline = append(t.PK, k.Name), false
		}
	}
	for i := g.R.Intn(4) + 1; i > 0; i-- {
		t.Cols = append(t.Cols, g.newCol(t))
	}
	if len(t.PK) == 0 && g.p(40) {
		ix := g.indexable(t)
		if len(ix) >= 2 && !g.Off["compositepk"] {
			t.PK = []string{ix[0], ix[1]}
			for _, n := range t.PK {
				t.col(n).NotNull = true
			}
		}
	}
	for i := g.R.Intn(3); i > 0; i-- {
		g.addIdx(t)
	}
	if len(s.Tables) > 0 && g.p(35) {
		g.addFK(s, t)
	}
	if g.D == "sqlite3" && t.PKInline && g.p(40) {
		t.col("id").Auto = true
	}
	if g.D == "sqlite3" && t.PKInline && g.p(50) {
		t.col("id").NotNull = false
	}
	if g.D == "mssql" && len(t.PK) > 0 {
		for _, x := range t.Idx {
			if x.Clust == "clustered" {
				x.Clust = ""
			}
		}
		if !t.PKInline && g.p(70) || g.p(50) {
			t.PKName = "pk_" + bare(t.Name)
			t.PKInline, t.PKNon = false, g.p(20)
			g.pkOpts(t)
		}
	}
	if g.D == "postgres" && len(t.PK) > 0 && g.p(15) && !g.Off["pkname"] {
		t.PKName, t.PKInline = "pk_"+bare(t.Name), false
	}
	return t
}

func (s *S) hasView(n string) bool {
	for _, v := range s.Views {
		if v.Name == n {
			return true
		}
	}
	return false
}

func (g *G) addIdx(t *Table) bool {
	if g.Off["index"] || g.D == "sqlite3" {
		return false
	}
	cs := g.indexable(t)
	if len(cs) == 0 {
		return false
	}
	g.R.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
	n := 1
	if len(cs) > 1 && g.p(35) {
		n = 2
	}
	if n > 2 && g.p(20) {
		n = 3
	}
	g.n++
	x := &Idx{Name: fmt.Sprintf("index_%s_%s%d", bare(t.Name), bare(cs[0]), g.n), Cols: append([]string{}, cs[:n]...), Unique: g.p(30)}
	if keyLike(x) {
		x.Unique = false
	}
	switch g.D {
	case "mysql":
		x.Style = g.R.Intn(3)
		g.prefix(t, x)
	case "postgres":
		x.Style = 1
		if g.p(15) && !g.Off["partial"] {
			g.where(t, x)
		}
	case "mssql":
		x.Style = g.R.Intn(2)
		if g.p(30) {
			x.Clust = "nonclustered"
		}
		if !g.Off["ixopts"] {
			if len(t.PK) == 0 && g.p(20) && !g.clustered(t) {
				x.Clust = "clustered"
			}
			if x.Clust != "clustered" && x.Style == 1 && g.p(15) {
				g.include(t, x)
			}
			if g.p(15) {
				g.ixOpts(x)
			}
		}
		if !g.Off["ixpart"] && !x.Unique && x.Clust != "clustered" && g.p(12) {
			x.Part = 1 + g.R.Intn(2)
		}
	}
	if (g.D == "postgres" || g.D == "mssql") && g.p(25) && !g.Off["desc"] {
		g.desc(x)
	}
	t.Idx = append(t.Idx, x)
	return true
}

// prefix limits how much of some columns is indexed.
func (g *G) prefix(t *Table, x *Idx) {
	if g.Off["prefix"] || !g.p(20) {
		return
	}
	x.Len = map[string]int{}
	for _, c := range x.Cols {
		if ty := t.col(c).Type; g.p(60) && (strings.HasPrefix(ty, "varchar") || strings.HasPrefix(ty, "char")) {
			x.Len[c] = 3 + g.R.Intn(4)
		}
	}
	for _, c := range t.Cols {
		if strings.HasSuffix(c.Type, "text") && g.p(50) && !in(x.Cols, c.Name) && !inlineUnique(c.Name) {
			x.Cols = append(x.Cols, c.Name)
			x.Len[c.Name] = 3 + g.R.Intn(4)
			break
		}
	}
}

// clustered: the table's rows are kept in the order of an index already.
func (g *G) clustered(t *Table) bool {
	for _, t := range []*Table{t, g.was(t)} {
		if t == nil {
			continue
		}
		for _, x := range t.Idx {
			if x.Clust == "clustered" {
				return true
			}
		}
	}
	return false
}

func (g *G) was(t *Table) *Table {
	if g.prev == nil {
		return nil
	}
	return g.prev.table(t.Name)
}

// desc puts some of an index's columns in descending order.
func (g *G) desc(x *Idx) {
	x.Desc = nil
	for _, c := range x.Cols {
		if g.p(50) {
			x.Desc = append(x.Desc, c)
		}
	}
}

// include makes up the columns an index carries along.
func (g *G) include(t *Table, x *Idx) {
	x.Incl = nil
	for _, i := range g.R.Perm(len(t.Cols)) {
		c := t.Cols[i]
		if !in(x.Cols, c.Name) && g.kindOf(c.Type).class != "blob" && len(x.Incl) < 2 && g.p(70) {
			x.Incl = append(x.Incl, c.Name)
		}
	}
}

// ixOpts makes up an index's options. Which ones are given stays: leaving one
// out again means whatever the server has.
func (g *G) ixOpts(x *Idx) {
	val := map[string][]string{"pad_index": {"ON", "OFF"}, "fillfactor": {"10", "80", "90"}, "ignore_dup_key": {"OFF"},
		"statistics_norecompute": {"ON", "OFF"}, "allow_row_locks": {"ON", "OFF"}, "allow_page_locks": {"ON", "OFF"}}
	if len(x.Opts) == 0 {
		ks := []string{"pad_index", "fillfactor", "statistics_norecompute", "allow_row_locks", "allow_page_locks"}
		for _, i := range g.R.Perm(len(ks))[:1+g.R.Intn(3)] {
			x.Opts = append(x.Opts, ks[i]+" = "+g.pick(val[ks[i]]))
		}
		return
	}
	o := append([]string{}, x.Opts...)
	i := g.R.Intn(len(o))
	k := strings.Fields(o[i])[0]
	o[i] = k + " = " + g.pick(val[k])
	x.Opts = o
}

func (g *G) pkOpts(t *Table) {
	if g.D == "mssql" && g.p(25) && !g.Off["ixopts"] && !g.Off["pkopts"] {
		x := &Idx{}
		g.ixOpts(x)
		t.PKOpts = x.Opts
	}
}

// pkName names a primary key, or not; a key that stays keeps its name.
func (g *G) pkName(t *Table, prev *S) {
	if g.D != "mssql" && g.D != "postgres" {
		return
	}
	t.PKName, t.PKNon, t.PKOpts = "", false, nil
	if g.p(40) && !g.Off["pkname"] {
		t.PKName, t.PKInline, t.PKNon = g.pick([]string{"pk_", "pk2_"})+bare(t.Name), false, g.D == "mssql" && g.p(20)
		g.pkOpts(t)
	}
	if p := prev.table(t.Name); p != nil && strings.Join(p.PK, ",") == strings.Join(t.PK, ",") {
		t.PKName, t.PKInline, t.PKNon, t.PKOpts = p.PKName, p.PKInline, p.PKNon, p.PKOpts
	}
}

// cascades: SQL Server refuses a second cascade path; one foreign key with
// actions at a time makes none.
func (g *G) cascades(s *S) bool {
	for _, s := range []*S{s, g.prev} {
		if s == nil {
			continue
		}
		for _, t := range s.Tables {
			for _, f := range t.FKs {
				for _, a := range []string{f.OnDel, f.OnUpd} {
					if a != "" && a != "NO ACTION" {
						return true
					}
				}
			}
		}
	}
	return false
}

// where makes up an index's predicate.
func (g *G) where(t *Table, x *Idx) {
	for _, c := range t.Cols {
		if g.kindOf(c.Type).class == "num" && c.Type != "numeric" && !strings.Contains(c.Type, "real") && !strings.Contains(c.Type, "double") {
			x.Where = fmt.Sprintf("(%s > %d)", g.nm(c.Name), g.R.Intn(30))
			break
		}
	}
}

// keyLike: a foreign key could come to depend on this index instead of the
// primary key, and dropping it would be refused; not what is examined here.
//
// Nor over the columns of a primary key of two: which of the two the server
// lets a foreign key depend on is its own affair, and the other one cannot be
// dropped in the same go.
func keyLike(x *Idx) bool {
	return len(x.Cols) == 1 && keyCol(x.Cols[0]) || len(x.Cols) == 2 && in(x.Cols, "id") && in(x.Cols, "part_no")
}

// keyCol: columns that may become a primary key of their own.
func keyCol(n string) bool { return in([]string{"id", "state", "title", "kind", "amount"}, n) }

func (g *G) addFK(s *S, t *Table) bool {
	if g.Off["fk"] {
		return false
	}
	// to a table that comes earlier and has a one-column primary key
	var refs []*Table
	for _, r := range s.Tables {
		if r == t {
			break
		}
		fits := !g.Off["fk2"] && in(r.PK, "part_no") && g.p(60)
		for _, k := range r.PK {
			c := r.col(k)
			fits = fits && c.Coll == "" && c.OnUpd == "" && c.Def == "" && g.kindOf(c.Type).class == "num" && !strings.Contains(c.Type, "bit") &&
				!strings.Contains(c.Type, "float") && !strings.Contains(c.Type, "real") && !strings.Contains(c.Type, "double")
		}
		if len(r.PK) == 1 || len(r.PK) == 2 && fits {
			refs = append(refs, r)
		}
	}
	if len(refs) == 0 {
		return false
	}
	r := refs[g.R.Intn(len(refs))]
	f := &FK{Ref: r.Name, RefCols: append([]string{}, r.PK...)}
	c := &Col{NotNull: g.p(50)}
	for _, k := range r.PK {
		ty := r.col(k).Type
		if ty == "bigserial" {
			ty = "bigint"
		}
		if ty == "serial" {
			ty = "integer"
		}
		cn := strings.TrimSuffix(bare(r.Name), "s") + "_" + k
		if len(r.PK) == 1 {
			cn = strings.TrimSuffix(bare(r.Name), "s") + "_id"
		}
		if t.col(cn) != nil {
			return false
		}
		f.Cols = append(f.Cols, cn)
		c = &Col{Name: cn, Type: ty, NotNull: c.NotNull}
		t.Cols = append(t.Cols, c)
	}
	if n := len(t.Cols); len(r.PK) == 2 && g.p(50) { // the columns in another order than the key's
		t.Cols[n-1], t.Cols[n-2] = t.Cols[n-2], t.Cols[n-1]
	}
	cn := f.Cols[0]
	f.Name = "fk_" + bare(t.Name) + "_" + cn
	if g.D == "postgres" && g.p(20) {
		f.Name = "fk_" + cn // other tables' may have the same
	}
	if g.p(40) {
		f.OnDel = g.fkAction(s, c, true)
	}
	if g.p(25) {
		f.OnUpd = g.fkAction(s, c, false)
	}
	f.Alter = g.D == "postgres" && g.p(30)
	f.NFR = g.D == "mssql" && g.p(25)
	t.FKs = append(t.FKs, f)
	if g.D == "mysql" && g.p(15) && !g.Off["fkindex"] {
		g.n++
		f.Index = fmt.Sprintf("index_%s_%d", cn, g.n)
	} else if g.D == "mysql" {
		g.n++
		t.Idx = append(t.Idx, &Idx{Name: fmt.Sprintf("index_%s_%d", cn, g.n), Cols: append([]string{}, f.Cols...)})
	}
	return true
}

// fkAction says what happens to the rows that refer to one that goes or
// changes.
func (g *G) fkAction(s *S, c *Col, del bool) string {
	if g.D == "mssql" && g.cascades(s) {
		return g.pick([]string{"", "NO ACTION"})
	}
	l := []string{"CASCADE", "CASCADE", "NO ACTION"}
	if g.D != "mssql" {
		l = append(l, "RESTRICT")
	}
	if g.D == "postgres" || g.D == "mssql" && !c.NotNull {
		l = append(l, "SET DEFAULT")
	}
	if !c.NotNull && (del || g.D != "mssql") {
		l = append(l, "SET NULL", "SET NULL")
	}
	return g.pick(l)
}

// sameAct: MySQL and the standard have more than one word for doing nothing.
func (g *G) sameAct(a, b string) bool {
	n := func(a string) string {
		if a == "" || g.D == "mysql" && a == "RESTRICT" {
			return "NO ACTION"
		}
		return a
	}
	return n(a) == n(b)
}

// moveFK makes another table, or another column, the end of a foreign key.
func (g *G) moveFK(s *S, t *Table, f *FK) string {
	if len(f.Cols) > 1 {
		if g.D == "mysql" || g.D == "mssql" || t.col(f.Cols[0]).Type != t.col(f.Cols[1]).Type {
			return ""
		}
		f.Cols = []string{f.Cols[1], f.Cols[0]}
		return "chfk"
	}
	c := t.col(f.Cols[0])
	if g.p(65) {
		type end struct{ t, c string }
		var l []end
		for _, r := range s.Tables {
			if r == t {
				break
			}
			p := g.prev.table(r.Name)
			if g.D == "mssql" && strings.Contains(r.Name, ".") {
				continue
			}
			if len(r.PK) == 1 && r.col(r.PK[0]).Type == c.Type && (p == nil || len(p.PK) == 1 && p.PK[0] == r.PK[0]) {
				l = append(l, end{r.Name, r.PK[0]})
			}
			if p == nil {
				continue
			}
			for _, x := range r.Idx {
				k := r.col(x.Cols[0])
				if len(x.Cols) != 1 || !x.Unique || x.Where != "" || k.Type != c.Type || k.Coll != c.Coll || x.Len[k.Name] != 0 || k.OnUpd != "" {
					continue
				}
				for _, y := range p.Idx {
					if y.Name == x.Name && y.Unique && y.Where == "" && strings.Join(y.Cols, ",") == k.Name && y.Len[k.Name] == 0 && p.col(k.Name).Type == k.Type {
						l = append(l, end{r.Name, k.Name})
					}
				}
			}
		}
		for i := range l {
			if l[i].t == f.Ref && l[i].c == f.RefCols[0] {
				l = append(l[:i], l[i+1:]...)
				break
			}
		}
		if len(l) > 0 {
			e := l[g.R.Intn(len(l))]
			f.Ref, f.RefCols = e.t, []string{e.c}
			return "chfk"
		}
	}
	if g.D == "postgres" || g.D == "mssql" {
		for _, i := range g.R.Perm(len(t.Cols)) {
			n, p := t.Cols[i], g.prev.table(t.Name)
			if n != c && n.Type == c.Type && !(n.NotNull && strings.Contains(f.OnDel+f.OnUpd, "SET NULL")) && !in(t.PK, n.Name) && n.Ident == "" && (p == nil || p.col(n.Name) != nil && p.col(n.Name).Type == n.Type) {
				f.Cols = []string{n.Name}
				return "chfk"
			}
		}
		return ""
	}
	for _, x := range t.Idx {
		n := t.col(x.Cols[0])
		if n != c && n.Type == c.Type && x.Len[n.Name] == 0 && !(n.NotNull && f.OnDel == "SET NULL") && !in(t.PK, n.Name) && n.OnUpd == "" {
			f.Cols = []string{n.Name}
			return "chfk"
		}
	}
	return ""
}

func (g *G) addView(s *S) bool {
	if g.Off["view"] || len(s.Tables) == 0 {
		return false
	}
	t := s.Tables[g.R.Intn(len(s.Tables))]
	if strings.Contains(t.Name, ".") {
		return false
	}
	g.n++
	v := &View{Name: fmt.Sprintf("view_%s%d", bare(t.Name), g.n), Table: t.Name}
	v.Cols = []string{t.Cols[0].Name}
	if len(t.Cols) > 1 && g.p(60) {
		v.Cols = append(v.Cols, t.Cols[1].Name)
	}
	g.viewDef(s, v)
	s.Views = append(s.Views, v)
	return true
}

func (g *G) numCol(t *Table) *Col {
	for _, i := range g.R.Perm(len(t.Cols)) {
		c := t.Cols[i]
		ty := c.Type
		if strings.HasPrefix(ty, "int") || strings.HasPrefix(ty, "bigint") || ty == "smallint" || ty == "serial" || ty == "bigserial" {
			if strings.HasSuffix(ty, "[]") {
				continue
			}
			return c
		}
	}
	return nil
}

func (g *G) viewDef(s *S, v *View) {
	t := s.table(v.Table)
	used := append([]string{}, v.Cols...)
	where := ""
	if c := g.numCol(t); c != nil && g.p(60) && g.D == "mssql" {
		used = append(used, c.Name)
		where = fmt.Sprintf(" where %s %s %d", g.nm(c.Name), g.pick([]string{">", "<", ">=", "="}), g.R.Intn(90))
	}
	switch g.D {
	case "mysql", "postgres":
		v.Def = g.canonView(s, t, v, &used)
	case "sqlite3":
		if g.p(60) {
			v.Def = g.richView(s, t, &used)
		} else {
			v.Def = g.liteView(s, t, v, &used)
		}
	default:
		var cs []string
		for _, c := range v.Cols {
			cs = append(cs, g.nm(c))
		}
		v.Def = fmt.Sprintf("select %s from dbo.%s%s", strings.Join(cs, ", "), g.nm(t.Name), where)
	}
	v.Cols = used
}

// canonView: MySQL and PostgreSQL rewrite a view; only what is written as they do compares equal.
func (g *G) canonView(s *S, t *Table, v *View, used *[]string) string {
	my := g.D == "mysql"
	x := g.nm(t.Name)
	from := x
	if my {
		from = g.DB + "." + x + " as x"
		x = "x"
	}
	var cs []string
	for _, c := range v.Cols {
		if my {
			cs = append(cs, fmt.Sprintf("x.%s as %s", g.nm(c), g.nm(c)))
		} else {
			cs = append(cs, x+"."+g.nm(c))
		}
	}
	v.With = ""
	if o := s.Tables[g.R.Intn(len(s.Tables))]; g.p(15) && o != t && !strings.Contains(o.Name, ".") {
		a, b := g.numCol(t), g.numCol(o)
		if a != nil && b != nil && kindOf(a.Type) == kindOf(b.Type) {
			v.With, v.WithCol = o.Name, b.Name
			*used = append(*used, a.Name)
			j := g.pick([]string{"join", "left join"})
			if my {
				from = fmt.Sprintf("(%s %s %s.%s as y on ((x.%s = y.%s)))", from, j, g.DB, g.nm(o.Name), g.nm(a.Name), g.nm(b.Name))
			} else {
				from = fmt.Sprintf("(%s %s %s on ((%s.%s = %s.%s)))", from, j, g.nm(o.Name), x, g.nm(a.Name), g.nm(o.Name), g.nm(b.Name))
			}
		}
	}
	num := func() string {
		c := g.numCol(t)
		if c == nil {
			return ""
		}
		*used = append(*used, c.Name)
		return fmt.Sprintf("(%s.%s %s %d)", x, g.nm(c.Name), g.pick([]string{">", "<", ">=", "="}), g.R.Intn(90))
	}
	str := func() string {
		for _, i := range g.R.Perm(len(t.Cols)) {
			c := t.Cols[i]
			s := "'" + g.pick([]string{"open", "open", "Open", "OPEN", "x y", "x  y", "it''s", "a;b", "--", "a\n\tb", "a\n--b;\nc"}) + "'"
			switch {
			case my && strings.HasPrefix(c.Type, "varchar"):
				*used = append(*used, c.Name)
				return fmt.Sprintf("(x.%s = %s)", g.nm(c.Name), s)
			case !my && c.Type == "text":
				*used = append(*used, c.Name)
				return fmt.Sprintf("(%s.%s = %s::text)", x, g.nm(c.Name), s)
			}
		}
		return ""
	}
	where, tail := "", ""
	switch g.R.Intn(10) {
	case 0, 1, 2:
		where = num()
	case 3, 4, 5:
		where = str()
	case 6, 7:
		if where = num(); where != "" {
			o := str()
			if o == "" || g.p(30) {
				o = num()
			}
			where = fmt.Sprintf("(%s %s %s)", where, g.pick([]string{"and", "or"}), o)
		}
	case 8:
		c := t.Cols[g.R.Intn(len(t.Cols))].Name
		*used = append(*used, c)
		where = fmt.Sprintf("(%s.%s is not null)", x, g.nm(c))
	}
	if where != "" {
		where = " where " + where
	}
	d := ""
	switch g.R.Intn(9) {
	case 0:
		tail = fmt.Sprintf(" order by %s.%s%s", x, g.nm(v.Cols[0]), g.pick([]string{"", " desc"}))
	case 1:
		tail = fmt.Sprintf(" limit %d", g.R.Intn(5)+1)
	case 2:
		d = "distinct "
	}
	return fmt.Sprintf("select %s%s from %s%s%s", d, strings.Join(cs, ", "), from, where, tail)
}

func kindOf(ty string) string { return strings.Fields(strings.Split(ty, "(")[0])[0] }

// liteView: SQLite keeps a view as it was written, so it may be anything.
func (g *G) liteView(s *S, t *Table, v *View, used *[]string) string {
	tn := g.nm(t.Name)
	var cs []string
	for _, c := range v.Cols {
		switch g.R.Intn(5) {
		case 0:
			cs = append(cs, tn+"."+g.nm(c)+" as "+g.nm("x_"+c))
		case 1:
			cs = append(cs, g.pick([]string{"upper", "max", "length"})+"("+tn+"."+g.nm(c)+")")
		default:
			cs = append(cs, tn+"."+g.nm(c))
		}
	}
	from := tn
	if g.p(20) {
		o := s.Tables[g.R.Intn(len(s.Tables))]
		from += fmt.Sprintf(" %s %s as o on %s.%s = o.%s", g.pick([]string{"join", "left join"}), g.nm(o.Name), tn, g.nm(v.Cols[0]), g.nm(o.Cols[0].Name))
		if o == t {
			*used = append(*used, o.Cols[0].Name)
		} else {
			from = tn
		}
	}
	c := t.Cols[g.R.Intn(len(t.Cols))].Name
	*used = append(*used, c)
	c = tn + "." + g.nm(c)
	where := ""
	switch g.R.Intn(7) {
	case 0:
		where = fmt.Sprintf(" where %s %s %d", c, g.pick([]string{">", "<", ">=", "<=", "=", "<>"}), g.R.Intn(90))
	case 1:
		where = fmt.Sprintf(" where %s = '%s'", c, g.pick([]string{"open", "Open", "x y", "it''s", "a;b", "--", "x  y", "a\n\tb", "a\n--b\nc"}))
	case 2:
		where = fmt.Sprintf(" where %s is %s", c, g.pick([]string{"null", "not null"}))
	case 3:
		where = fmt.Sprintf(" where %s in (%d, %d)", c, g.R.Intn(9), g.R.Intn(9))
	case 4:
		where = fmt.Sprintf(" where %s > %d %s %s < %d", c, g.R.Intn(20), g.pick([]string{"and", "or"}), c, 50+g.R.Intn(30))
	}
	tail := ""
	switch g.R.Intn(6) {
	case 0:
		tail = " order by " + c + g.pick([]string{"", " desc", " asc"})
	case 1:
		tail = " group by " + c
	case 2:
		tail = fmt.Sprintf(" limit %d", g.R.Intn(5)+1)
	}
	return fmt.Sprintf("select %s%s from %s%s%s", g.pick([]string{"", "", "distinct "}), strings.Join(cs, ", "), from, where, tail)
}

// rich makes the parts of a query out of everything the command's parser knows.
type rich struct {
	*G
	cols []string // what can be named
	subs []string // tables with a column, for subqueries
}

func (r *rich) col() string { return r.cols[r.R.Intn(len(r.cols))] }

func (r *rich) lit() string {
	switch r.R.Intn(5) {
	case 0:
		return "'" + r.pick([]string{"open", "Open", "x y", "it''s", "a;b", "--", "x  y", "%a_", "", "a\n--b\nc", "a\\\\b", "\\\\"}) + "'"
	case 1:
		return r.pick([]string{"1.5", "0.25", "10.0", "1e3", "2.5e-2", "0x1f", "x'41'", "null", "true", "1E2", ".5"})
	}
	return fmt.Sprint(r.R.Intn(90))
}

func (r *rich) expr(d int) string {
	if d <= 0 {
		if r.p(60) {
			return r.col()
		}
		return r.lit()
	}
	switch r.R.Intn(14) {
	case 0:
		return fmt.Sprintf("(%s %s %s)", r.expr(d-1), r.pick([]string{"+", "-", "*", "/", "%", "&", "|", "<<", ">>"}), r.expr(d-1))
	case 1:
		return fmt.Sprintf("%s %s %s", r.expr(0), r.pick([]string{"+", "-", "*"}), r.expr(0))
	case 2:
		return fmt.Sprintf("%s(%s)", r.pick([]string{"upper", "length", "abs", "trim"}), r.expr(d-1))
	case 3:
		return fmt.Sprintf("coalesce(%s, %s)", r.expr(d-1), r.expr(0))
	case 4:
		return fmt.Sprintf("ifnull(%s, %s)", r.col(), r.lit())
	case 5:
		e := ""
		if r.p(50) {
			e = " else " + r.expr(0)
		}
		return fmt.Sprintf("case when %s then %s%s end", r.cond(d-1), r.expr(0), e)
	case 6:
		e, w := "", ""
		if r.p(50) {
			e = " else " + r.expr(0)
		}
		if r.p(40) {
			w = fmt.Sprintf(" when %s then %s", r.lit(), r.lit())
		}
		return fmt.Sprintf("case %s when %s then %s%s%s end", r.col(), r.lit(), r.expr(0), w, e)
	case 7:
		return "-" + r.col()
	case 8:
		return fmt.Sprintf("substr(%s, %d, %d)", r.col(), 1+r.R.Intn(3), 1+r.R.Intn(5))
	case 9:
		switch r.R.Intn(5) {
		case 0:
			return fmt.Sprintf("cast(%s as char)", r.col())
		case 1:
			return fmt.Sprintf("~%s", r.col())
		case 2:
			return fmt.Sprintf("%s collate nocase", r.col())
		case 3:
			return fmt.Sprintf("- (%s + %s)", r.col(), r.lit())
		case 4:
			return fmt.Sprintf("(%s > %s)", r.col(), r.lit())
		}
	}
	return r.expr(0)
}

func (r *rich) cond(d int) string {
	if d > 0 {
		switch r.R.Intn(8) {
		case 0, 1:
			return fmt.Sprintf("%s %s %s", r.cond(d-1), r.pick([]string{"and", "or"}), r.cond(d-1))
		case 2:
			return fmt.Sprintf("(%s %s %s)", r.cond(d-1), r.pick([]string{"and", "or"}), r.cond(d-1))
		case 3:
			return fmt.Sprintf("not (%s)", r.cond(d-1))
		}
	}
	switch r.R.Intn(10) {
	case 0:
		return fmt.Sprintf("%s %s %s and %s", r.col(), r.pick([]string{"between", "not between"}), r.lit(), r.lit())
	case 1:
		return fmt.Sprintf("%s %s (%s, %s)", r.col(), r.pick([]string{"in", "not in"}), r.lit(), r.lit())
	case 2:
		e := ""
		if r.p(40) {
			e = " escape '!'"
		}
		return fmt.Sprintf("%s %s '%s'%s", r.col(), r.pick([]string{"like", "not like"}), r.pick([]string{"a%", "%b_", "A%", "10!%"}), e)
	case 3:
		return fmt.Sprintf("%s is %s", r.col(), r.pick([]string{"null", "not null"}))
	case 4:
		if len(r.subs) > 0 {
			return fmt.Sprintf("%s %s (%s)", r.col(), r.pick([]string{"in", "not in"}), r.subs[r.R.Intn(len(r.subs))])
		}
	case 5:
		if len(r.subs) > 0 {
			return fmt.Sprintf("%s (%s)", r.pick([]string{"exists", "not exists"}), r.subs[r.R.Intn(len(r.subs))])
		}
	}
	return fmt.Sprintf("%s %s %s", r.expr(d), r.pick([]string{">", "<", ">=", "<=", "=", "<>", "!="}), r.expr(d))
}

// richView is a query with any of what the command's parser can read and has to write again.
func (g *G) richView(s *S, t *Table, used *[]string) string {
	r := &rich{G: g}
	tn := g.nm(t.Name)
	pick := func(t *Table, as string) []string {
		var o []string
		for i := 0; i < 2; i++ {
			c := t.Cols[g.R.Intn(len(t.Cols))].Name
			*used = append(*used, c)
			o = append(o, as+"."+g.nm(c))
		}
		return o
	}
	core := func(n int) string {
		as := tn
		from := tn
		if g.p(40) {
			as = "a"
			from = tn + " as a"
		}
		r.cols = pick(t, as)
		inner := pick(t, "z")
		r.subs = []string{
			fmt.Sprintf("select %s from %s as z", inner[0], tn),
			fmt.Sprintf("select %s from %s as z where %s = %s", inner[0], tn, inner[1], r.cols[0]),
			fmt.Sprintf("select max(%s) from %s as z", inner[1], tn),
		}
		switch g.R.Intn(8) {
		case 0, 1:
			o := pick(t, "b")
			from += fmt.Sprintf(" %s %s as b on %s = %s", g.pick([]string{"join", "left join", "inner join", "left outer join"}), tn, r.cols[0], o[0])
			r.cols = append(r.cols, o...)
		case 2:
			o := pick(t, "b")
			from += fmt.Sprintf(", %s as b", tn)
			r.cols = append(r.cols, o...)
		case 3:
			o := pick(t, "b")
			from += fmt.Sprintf(" %s %s as b %s", g.pick([]string{"join", "left join"}), tn, "using ("+r.cols[0][strings.Index(r.cols[0], ".")+1:]+")")
			r.cols = append(r.cols, o...)
		case 4:
			from += fmt.Sprintf(" natural join %s as b", tn)
		case 5:
			o := pick(t, "c")
			from += fmt.Sprintf(", (select %s as %s from %s as c where %s is not null) as d", o[0], "dx", tn, o[1])
			r.cols = append(r.cols, "d.dx")
		}
		group := g.p(25)
		var out []string
		for i := 0; i < n; i++ {
			e := ""
			switch {
			case group && g.p(60):
				e = fmt.Sprintf("%s(%s%s)", g.pick([]string{"count", "max", "min", "sum", "group_concat"}), g.pick([]string{"", "distinct "}), r.col())
				if g.p(20) {
					e = "count(*)"
				}
			case g.p(12):
				e = "(" + r.subs[2] + ")"
			default:
				e = r.expr(1 + g.R.Intn(2))
			}
			out = append(out, fmt.Sprintf("%s as x%d", e, i))
		}
		q := "select " + g.pick([]string{"", "", "", "", "", "distinct ", "/* all; of -- them */ "}) + strings.Join(out, ", ") + " from " + from
		if g.p(70) {
			q += " where " + r.cond(g.R.Intn(3))
		}
		if group {
			q += " group by " + r.cols[0]
			if g.p(50) {
				q += ", " + r.cols[1]
			}
			if g.p(50) {
				q += fmt.Sprintf(" having %s(%s) %s %d", g.pick([]string{"count", "max", "sum"}), r.cols[1], g.pick([]string{">", "<", "="}), g.R.Intn(9))
				if g.p(30) {
					q += " and " + r.cond(0)
				}
			}
		}
		return q
	}
	n := 1 + g.R.Intn(3)
	q := core(n)
	compound := false
	for g.p(20) {
		compound = true
		q += " " + g.pick([]string{"union", "union all"}) + " " + core(n)
	}
	if g.p(35) {
		by := func() string {
			if compound {
				return "x0"
			}
			return r.col()
		}
		q += " order by " + by() + g.pick([]string{"", " desc", " asc"})
		if g.p(40) && !compound {
			q += ", " + by() + g.pick([]string{"", " desc", " asc"})
		}
	}
	if g.p(30) {
		q += fmt.Sprintf(" limit %d", 1+g.R.Intn(5))
		if g.p(50) {
			q += fmt.Sprintf(" offset %d", g.R.Intn(4))
		}
	}
	return q
}

func (g *G) trigText(s *S, tr *Trigger) {
	t := s.table(tr.Table)
	what := -1
	if tr.Text != "" {
		what = g.R.Intn(3) // change one part
		if g.D == "mysql" && g.p(25) {
			what = 3
		}
	}
	if what == 3 {
		t = s.Tables[g.R.Intn(len(s.Tables))]
		tr.Table = t.Name
	}
	if what < 0 || what == 0 {
		tr.Event = g.pick([]string{"INSERT", "UPDATE", "DELETE"})
	}
	if what < 0 || what == 1 {
		tr.Time = "AFTER"
		if g.D == "mysql" {
			tr.Time = g.pick([]string{"BEFORE", "AFTER"})
		}
	}
	if what < 0 || what == 2 {
		tr.Body = fmt.Sprintf("insert into audit_log(what, n) values ('%s', %d)", g.pick([]string{"x", "insert", "gone"}), g.R.Intn(100))
	}
	if g.D == "mysql" {
		tr.Text = fmt.Sprintf("CREATE TRIGGER %s %s %s ON %s FOR EACH ROW %s", g.nm(tr.Name), tr.Time, tr.Event, g.nm(t.Name), tr.Body)
		return
	}
	tr.Text = fmt.Sprintf("CREATE TRIGGER %s ON %s %s %s AS %s", g.nm(tr.Name), g.nm(t.Name), tr.Time, tr.Event, tr.Body)
}

func (g *G) addTrigger(s *S) bool {
	if g.Off["trigger"] || len(s.Tables) == 0 || g.D == "postgres" || g.D == "sqlite3" {
		return false
	}
	g.n++
	tr := &Trigger{Name: fmt.Sprintf("trg_%d", g.n), Table: s.Tables[g.R.Intn(len(s.Tables))].Name}
	g.trigText(s, tr)
	s.Triggers = append(s.Triggers, tr)
	return true
}

func (g *G) addPolicy(t *Table) bool {
	if g.D != "postgres" || g.Off["policy"] {
		return false
	}
	g.n++
	p := &Policy{Name: fmt.Sprintf("p_%s%d", bare(t.Name), g.n)}
	if !g.policyText(t, p) {
		return false
	}
	t.Policies = append(t.Policies, p)
	return true
}

// ident makes up what makes the server count a column.
func (g *G) ident() string {
	if g.D == "mssql" {
		s := g.pick([]string{"IDENTITY(1,1)", "IDENTITY(1,1)", "IDENTITY(10,5)", "IDENTITY(1000,1)"})
		if g.p(15) {
			s += " NOT FOR REPLICATION"
		}
		return s
	}
	s := g.pick([]string{"GENERATED ALWAYS AS IDENTITY", "GENERATED BY DEFAULT AS IDENTITY"})
	if g.Off["seqopts"] || g.p(50) {
		return s
	}
	var o []string
	opt := func(n int, f string, a ...interface{}) {
		if g.p(n) {
			o = append(o, fmt.Sprintf(f, a...))
		}
	}
	opt(40, g.pick([]string{"START WITH %d", "START %d"}), 10+g.R.Intn(90))
	opt(40, g.pick([]string{"INCREMENT BY %d", "INCREMENT %d"}), 2+g.R.Intn(9))
	opt(25, g.pick([]string{"MINVALUE %d", "MINVALUE -%d"}), 2+g.R.Intn(8))
	if len(o) == 0 || !strings.HasPrefix(o[len(o)-1], "MINV") {
		opt(15, "NO MINVALUE")
	}
	if g.p(25) {
		opt(100, "MAXVALUE %d", 10000+g.R.Intn(9000))
	} else {
		opt(15, "NO MAXVALUE")
	}
	opt(20, "CACHE %d", 2+g.R.Intn(30))
	opt(30, g.pick([]string{"CYCLE", "NO CYCLE"}))
	if len(o) == 0 {
		return s
	}
	g.R.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
	return s + " (" + strings.Join(o, " ") + ")"
}

// policyText makes up the parts that are not fixed yet and writes it out.
func (g *G) policyText(t *Table, p *Policy) bool {
	c := g.numCol(t)
	if c == nil {
		return false
	}
	more := func() string {
		conds := []string{"(true)", "(false)", fmt.Sprintf("(%s IS NOT NULL)", g.nm(c.Name)),
			fmt.Sprintf("((%s > %d) AND (%s < 9000))", g.nm(c.Name), g.R.Intn(50), g.nm(c.Name)),
			fmt.Sprintf("((%s = %d) OR (%s IS NULL))", g.nm(c.Name), g.R.Intn(50), g.nm(c.Name))}
		for _, c := range t.Cols {
			if c.Type == "text" {
				conds = append(conds, fmt.Sprintf("(%s = 'k%d'::text)", g.nm(c.Name), g.R.Intn(9)), fmt.Sprintf("(%s = CURRENT_USER)", g.nm(c.Name)))
			}
		}
		return g.pick(conds)
	}
	using := func() string {
		if g.p(30) {
			return more()
		}
		return fmt.Sprintf(g.pick([]string{"(%s > %d)", "((%s > %d))"}), g.nm(c.Name), g.R.Intn(50))
	}
	with := func() string {
		if g.p(30) {
			return more()
		}
		return fmt.Sprintf("(%s < %d)", g.nm(c.Name), 50+g.R.Intn(50))
	}
	perms, cmds, roles := []string{"PERMISSIVE", "RESTRICTIVE"}, []string{"ALL", "SELECT", "UPDATE", "DELETE", "INSERT"}, []string{"PUBLIC", "PUBLIC", "reader", "writer", "reader, writer", "reader, writer", "writer, reader"}
	what := -1
	if p.Text != "" {
		what = g.R.Intn(5) // change one part
	}
	if what < 0 || what == 0 {
		p.Perm = g.pick(perms)
	}
	if what < 0 || what == 1 {
		p.Cmd = g.pick(cmds)
	}
	if what < 0 || what == 2 {
		p.Roles = g.pick(roles)
	}
	if what < 0 && g.p(80) || what == 3 && (p.Using == "" || g.p(70)) {
		p.Using = using()
	} else if what == 3 {
		p.Using = ""
	}
	if what < 0 && g.p(40) || what == 4 && (p.With == "" || g.p(60)) {
		p.With = with()
	} else if what == 4 {
		p.With = ""
	}
	switch p.Cmd {
	case "INSERT":
		p.Using = ""
		if p.With == "" {
			p.With = with()
		}
	case "SELECT", "DELETE":
		p.With = ""
		if p.Using == "" {
			p.Using = using()
		}
	}
	if p.Using+p.With == "" {
		p.Using = using()
	}
	p.Text = fmt.Sprintf("CREATE POLICY %s ON %s", g.nm(p.Name), g.nm(t.Name))
	if p.Perm != "PERMISSIVE" || g.p(70) {
		p.Text += " AS " + p.Perm
	}
	if p.Cmd != "ALL" || g.p(70) {
		p.Text += " FOR " + p.Cmd
	}
	p.Text += " TO " + p.Roles
	if p.Using != "" {
		p.Text += " USING " + p.Using
	}
	if p.With != "" {
		p.Text += " WITH CHECK " + p.With
	}
	return true
}

// themes: what a history can be about.
var themes = []struct{ ops, with string }{
	{"addindex dropindex chindex chindex chindex", "index"},
	{"addfk dropfk chfk chfk droptable addtable", "fk"},
	{"addview dropview chview chview dropcol addcol", "view"},
	{"addtrigger chtrigger chtrigger chtrigger", "trigger"},
	{"addpolicy droppolicy chpolicy chpolicy chpolicy", "policy"},
	{"coltype colnull coldef addcol dropcol", ""},
	{"movecol movecol addcol dropcol coltype", ""},
	{"droppk addpk chpk chpk renamepk colnull auto identity addid addid", ""},
	{"check check coldef identity colnull unique", ""},
	{"colcollate colcollate colcollate coltype movecol addcol", ""},
	{"addtable droptable reorder", "fk"},
}

// Theme decides what the history is about, half of the time.
func (g *G) Theme() {
	g.ops, g.sel, g.with = nil, nil, map[string]bool{}
	if g.Data && g.p(70) {
		g.ops = strings.Fields("coltype colnull coldef movecol movecol movecol comment addcol dropcol chpk identity check unique addindex reorder")
	} else if g.p(60) {
		t := themes[g.R.Intn(len(themes))]
		g.ops = strings.Fields(t.ops)
		g.with[t.with] = true
	}
	g.wild = !g.Off["wild"] && g.p(20)
	g.long = g.D == "postgres" && !g.Off["long"] && g.p(10)
	if g.p(50) {
		for i := 0; i < 3; i++ {
			g.sel = append(g.sel, g.R.Intn(len(g.kinds())))
		}
	}
}

// Initial makes a first schema.
func (g *G) Initial() *S {
	g.Theme()
	s := &S{}
	for i := g.R.Intn(3) + 1; i > 0; i-- {
		s.Tables = append(s.Tables, g.newTable(s))
	}
	some := func(k string, n int) int {
		switch {
		case g.with[k]:
			return 1 + g.R.Intn(2)
		case g.p(n):
			return 1
		}
		return 0
	}
	any := func() *Table { return s.Tables[g.R.Intn(len(s.Tables))] }
	for i := some("index", 0); i > 0; i-- {
		g.addIdx(any())
	}
	for i := some("fk", 0); i > 0; i-- {
		g.addFK(s, any())
	}
	for i := some("view", 40); i > 0; i-- {
		g.addView(s)
	}
	for i := some("trigger", 20); i > 0; i-- {
		g.addTrigger(s)
	}
	for i := some("policy", 30); i > 0; i-- {
		g.addPolicy(any())
	}
	return s
}

func (g *G) fkTo(s *S, name string) bool {
	for _, t := range s.Tables {
		for _, f := range t.FKs {
			if f.Ref == name {
				return true
			}
		}
	}
	return false
}

// uses says what else mentions a column.
func (g *G) uses(s *S, t *Table, c string) (pk, ix, fk, view, other bool) {
	pk = in(t.PK, c)
	for _, x := range t.Idx {
		ix = ix || in(x.Cols, c) || in(x.Incl, c) || strings.Contains(x.Where, "("+g.nm(c)+" ")
	}
	for _, o := range s.Tables {
		for _, f := range o.FKs {
			fk = fk || o == t && in(f.Cols, c) || f.Ref == t.Name && in(f.RefCols, c)
		}
	}
	for _, v := range s.Views {
		view = view || v.Table == t.Name && in(v.Cols, c) || v.With == t.Name && v.WithCol == c
	}
	for _, p := range t.Policies {
		other = other || strings.Contains(p.Text, "("+g.nm(c)+" ")
	}
	return
}

// Edit makes one change to s; prev is the schema that is already applied.
func (g *G) Edit(s *S, prev *S) string {
	g.prev = prev
	for try := 0; try < 60; try++ {
		before := s.Clone()
		if k := g.edit(s, prev); k != "" && !(g.D == "mysql" && (takesOverFKIndex(s, prev) || notNullUnderFK(s, prev))) {
			g.Log = append(g.Log, k)
			return k
		}
		*s = *before
	}
	return ""
}

// notNullUnderFK tells whether a column is made NOT NULL which a foreign key of prev sets to NULL,
// for the command drops foreign keys after that (recorded).
func notNullUnderFK(s, prev *S) bool {
	for _, p := range prev.Tables {
		t := s.table(p.Name)
		if t == nil {
			continue
		}
		for _, f := range p.FKs {
			for _, n := range f.Cols {
				if c := t.col(n); c != nil && (c.NotNull || in(t.PK, n)) && strings.Contains(f.OnDel+f.OnUpd, "SET NULL") {
					return true
				}
			}
		}
	}
	return false
}

// takesOverFKIndex tells whether s adds an index that can serve a foreign key that prev has and s
// does not, for MySQL then drops the index it had made for the foreign key by itself, or moves a
// foreign key with a named index to other columns.
func takesOverFKIndex(s, prev *S) bool {
	for _, p := range prev.Tables {
		t := s.table(p.Name)
		if t == nil {
			continue
		}
		for _, f := range p.FKs {
			gone := true
			for _, x := range t.FKs {
				if x.Name == f.Name && x.Index == f.Index && x.Index != "" && strings.Join(x.Cols, ",") != strings.Join(f.Cols, ",") {
					return true // the index stays, under a name the foreign key still has
				}
				if x.Name == f.Name && x.Index == f.Index && strings.Join(x.Cols, ",") == strings.Join(f.Cols, ",") {
					gone = false
				}
			}
			if !gone || len(f.Cols) == 0 {
				continue
			}
			for _, x := range t.Idx {
				had := false
				for _, y := range p.Idx {
					had = had || y.Name == x.Name
				}
				if !had && x.Cols[0] == f.Cols[0] {
					return true
				}
			}
			if len(t.PK) > 0 && t.PK[0] == f.Cols[0] && (len(p.PK) == 0 || p.PK[0] != f.Cols[0]) {
				return true
			}
		}
	}
	return false
}

func (g *G) edit(s *S, prev *S) string {
	var t *Table
	if len(s.Tables) > 0 {
		t = s.Tables[g.R.Intn(len(s.Tables))]
	}
	if g.ops != nil && g.p(75) {
		return g.editOf(g.pick(g.ops), t, s, prev)
	}
	ops := strings.Fields("addtable droptable addcol addcol dropcol coltype colnull coldef addindex dropindex chindex addfk dropfk chfk droppk addpk chpk renamepk addview dropview chview addtrigger chtrigger addpolicy droppolicy chpolicy comment colcollate movecol check unique identity reorder auto addid")
	return g.editOf(g.pick(ops), t, s, prev)
}

func (g *G) editOf(k string, t *Table, s, prev *S) string {
	if g.Off[k] {
		return ""
	}
	if t == nil && k != "addtable" {
		return ""
	}
	switch k {
	case "addtable":
		if len(s.Tables) >= 5 {
			return ""
		}
		s.Tables = append(s.Tables, g.newTable(s))
	case "droptable":
		if g.fkTo(s, t.Name) {
			return ""
		}
		var vs []*View
		for _, v := range s.Views {
			if v.Table != t.Name && v.With != t.Name {
				vs = append(vs, v)
			}
		}
		if g.Off["dropview"] && len(vs) < len(s.Views) {
			return ""
		}
		s.Views = vs
		for _, v := range s.Triggers {
			if v.Table == t.Name {
				return ""
			}
		}
		var o []*Table
		for _, x := range s.Tables {
			if x != t {
				o = append(o, x)
			}
		}
		s.Tables = o
	case "addcol":
		if len(t.Cols) > 8 {
			return ""
		}
		c := g.newCol(t)
		if p := prev.table(t.Name); p != nil && p.col(c.Name) != nil {
			return "" // dropped and added again in one step: that is another column
		}
		if g.D == "sqlite3" {
			c.Unique = false
			if c.NotNull && c.Def == "" {
				c.NotNull = false
			}
		}
		i := g.R.Intn(len(t.Cols) + 1)
		t.Cols, t.Fixed = append(t.Cols[:i], append([]*Col{c}, t.Cols[i:]...)...), nil
	case "dropcol":
		if len(t.Cols) < 2 {
			return ""
		}
		i := g.R.Intn(len(t.Cols))
		c := t.Cols[i]
		pk, ix, fk, view, other := g.uses(s, t, c.Name)
		if pk || ix || fk || view || other {
			return ""
		}
		if p := prev.table(t.Name); p != nil && p.col(c.Name) != nil {
			if pk, ix, fk, view, other = g.uses(prev, p, c.Name); pk || fk || view || other || ix {
				if g.Off["dropcolix"] || pk || fk || view || other {
					return ""
				}
			}
			if p.col(c.Name).Check != "" && g.Off["dropcolcheck"] {
				return ""
			}
		}
		t.Cols, t.Fixed = append(t.Cols[:i:i], t.Cols[i+1:]...), nil
	case "coltype":
		c := t.Cols[g.R.Intn(len(t.Cols))]
		_, _, fk, view, other := g.uses(s, t, c.Name)
		if p := prev.table(t.Name); p != nil && p.col(c.Name) != nil {
			_, _, fk2, view2, other2 := g.uses(prev, p, c.Name)
			fk, view, other = fk || fk2, view || view2, other || other2
		}
		if fk || view || other || c.Auto || c.Ident != "" || strings.Contains(c.Type, "serial") {
			return ""
		}
		kd := g.kindOf(c.Type)
		if len(kd.types) < 2 {
			return ""
		}
		n := g.pick(kd.types)
		if n == c.Type || c.OnUpd != "" || g.D == "mysql" && c.Def == "CURRENT_TIMESTAMP" {
			return ""
		}
		if c.Coll != "" && !strings.Contains(n, "char") && !strings.HasSuffix(n, "text") {
			return ""
		}
		c.Type = n
	case "colcollate":
		c := t.Cols[g.R.Intn(len(t.Cols))]
		_, _, fk, _, _ := g.uses(s, t, c.Name)
		if p := prev.table(t.Name); p != nil && p.col(c.Name) != nil && p.col(c.Name).Coll != c.Coll {
			return "" // once
		}
		if fk || !g.collate(t, c) {
			return ""
		}
	case "colnull":
		c := t.Cols[g.R.Intn(len(t.Cols))]
		if in(t.PK, c.Name) || c.Ident != "" || c.Auto || strings.Contains(c.Type, "serial") {
			return ""
		}
		for _, f := range t.FKs {
			if in(f.Cols, c.Name) {
				return ""
			}
		}
		if p := prev.table(t.Name); p != nil && in(p.PK, c.Name) && g.D != "mysql" && g.D != "postgres" {
			return "" // recorded finding: leaving the key and becoming nullable at once
		}
		c.NotNull = !c.NotNull
	case "coldef":
		c := t.Cols[g.R.Intn(len(t.Cols))]
		if c.Auto || c.Ident != "" || strings.Contains(c.Type, "serial") || c.OnUpd != "" {
			return ""
		}
		o := c.Def
		g.setDef(c, g.kindOf(c.Type))
		if c.Def == o {
			return ""
		}
	case "addindex":
		if !g.addIdx(t) {
			return ""
		}
	case "dropindex":
		if len(t.Idx) == 0 {
			return ""
		}
		i := g.R.Intn(len(t.Idx))
		if g.idxForFK(s, prev, t, t.Idx[i]) {
			return ""
		}
		t.Idx = append(t.Idx[:i:i], t.Idx[i+1:]...)
	case "chindex":
		if len(t.Idx) == 0 {
			return ""
		}
		x := t.Idx[g.R.Intn(len(t.Idx))]
		if g.idxForFK(s, prev, t, x) {
			return ""
		}
		old := *x
		switch g.R.Intn(10) {
		case 9:
			switch {
			case g.D != "mssql":
				return ""
			case x.Clust == "clustered":
				x.Clust = g.pick([]string{"", "nonclustered"})
			case len(t.PK) == 0 && !g.clustered(t) && (g.was(t) == nil || len(g.was(t).PK) == 0) && len(x.Incl) == 0:
				x.Clust = "clustered"
			default:
				return ""
			}
		case 8: // a shorter or a longer prefix
			if len(x.Len) == 0 {
				return ""
			}
			l := map[string]int{}
			for _, c := range x.Cols {
				if x.Len[c] > 0 {
					l[c] = 3 + g.R.Intn(4)
				}
			}
			x.Len = l
		case 6:
			if g.D != "postgres" && g.D != "mssql" || g.Off["desc"] {
				return ""
			}
			g.desc(x)
		case 7:
			if g.D != "mssql" || g.Off["ixopts"] {
				return ""
			}
			if len(x.Opts) > 0 && g.p(60) {
				g.ixOpts(x)
			} else if x.Clust != "clustered" && x.Style == 1 {
				g.include(t, x)
			}
		case 0:
			x.Unique = !x.Unique
		case 1: // another order
			if len(x.Cols) < 2 {
				return ""
			}
			x.Cols = append(append([]string{}, x.Cols[1:]...), x.Cols[0])
		case 2: // one column more
			cs := g.indexable(t)
			c := g.pick(append(cs, ""))
			if c == "" || in(x.Cols, c) || len(x.Cols) > 3 {
				return ""
			}
			x.Cols = append(append([]string{}, x.Cols...), c)
		case 3: // one column less
			if len(x.Cols) < 2 {
				return ""
			}
			x.Cols = append([]string{}, x.Cols[:len(x.Cols)-1]...)
		case 4: // a predicate
			if g.D != "postgres" || g.Off["partial"] {
				return ""
			}
			if x.Where != "" && g.p(40) {
				x.Where = ""
			} else {
				g.where(t, x)
			}
		case 5:
			cs := g.indexable(t)
			g.R.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
			n := 1 + g.R.Intn(2)
			if n > len(cs) {
				n = len(cs)
			}
			x.Cols = append([]string{}, cs[:n]...)
		}
		x.Unique = x.Unique && !keyLike(x)
		for _, c := range x.Incl {
			if in(x.Cols, c) {
				x.Incl = old.Incl
				x.Cols, x.Unique = old.Cols, old.Unique
			}
		}
		if strings.Join(old.Cols, ",") == strings.Join(x.Cols, ",") && old.Unique == x.Unique && old.Where == x.Where && strings.Join(old.Desc, ",") == strings.Join(x.Desc, ",") && strings.Join(old.Incl, ",") == strings.Join(x.Incl, ",") && strings.Join(old.Opts, ",") == strings.Join(x.Opts, ",") && fmt.Sprint(old.Len) == fmt.Sprint(x.Len) {
			return ""
		}
		if g.idxForFK(s, prev, t, x) {
			*x = old
			return ""
		}
	case "addfk":
		if len(t.Cols) > 8 || !g.addFK(s, t) {
			return ""
		}
	case "dropfk":
		if len(t.FKs) == 0 {
			return ""
		}
		i := g.R.Intn(len(t.FKs))
		t.FKs = append(t.FKs[:i:i], t.FKs[i+1:]...)
	case "chfk":
		if len(t.FKs) == 0 {
			return ""
		}
		f := t.FKs[g.R.Intn(len(t.FKs))]
		if g.p(50) && g.D != "sqlite3" {
			return g.moveFK(s, t, f)
		}
		od, ou := f.OnDel, f.OnUpd
		c := t.col(f.Cols[0])
		f.OnDel, f.OnUpd = "", ""
		if g.p(65) {
			f.OnDel = g.fkAction(s, c, true)
		}
		if g.p(50) {
			f.OnUpd = g.fkAction(s, c, false)
		}
		nfr := f.NFR
		if g.D == "mssql" && g.p(25) {
			f.NFR = !f.NFR
		}
		if g.sameAct(f.OnDel, od) && g.sameAct(f.OnUpd, ou) && f.NFR == nfr {
			return ""
		}
	case "droppk":
		if len(t.PK) == 0 || g.fkTo(s, t.Name) || g.fkTo(prev, t.Name) || g.pkForFK(s, prev, t) {
			return ""
		}
		for _, c := range t.PK {
			x := t.col(c)
			if x.Auto && g.D == "mysql" && len(t.PK) == 1 && g.p(50) {
				x.Auto = false
			}
			if x.Auto || x.Ident != "" || strings.Contains(x.Type, "serial") {
				return ""
			}
		}
		t.PK, t.PKInline, t.PKName, t.PKNon, t.PKOpts = nil, false, "", false, nil
	case "renamepk":
		if t.PKName == "" || g.Off["pkname"] || g.fkTo(s, t.Name) || g.fkTo(prev, t.Name) {
			return ""
		}
		if g.D == "mssql" && len(t.PKOpts) > 0 && g.p(50) {
			x := &Idx{Opts: t.PKOpts}
			g.ixOpts(x)
			t.PKOpts = x.Opts
		} else if g.D == "mssql" && g.p(40) {
			t.PKNon = !t.PKNon
		} else if strings.HasPrefix(t.PKName, "pk_") {
			t.PKName = "pk2_" + bare(t.Name)
		} else {
			t.PKName = "pk_" + bare(t.Name)
		}
	case "addpk":
		if len(t.PK) > 0 {
			return ""
		}
		if p := prev.table(t.Name); p != nil && len(p.PK) > 0 && g.Off["chpk"] {
			return ""
		}
		ix := g.indexable(t)
		var ok []string
		for _, n := range ix {
			if t.col(n).NotNull && keyCol(n) {
				ok = append(ok, n)
			}
		}
		if len(ok) == 0 {
			return ""
		}
		t.PK = []string{ok[0]}
		t.PKInline = g.p(50)
		if g.D == "mssql" && g.clustered(t) {
			t.PK, t.PKInline = nil, false
			return ""
		}
		g.pkName(t, prev)
	case "chpk":
		// other columns make the primary key
		if len(t.PK) == 0 || g.D == "sqlite3" || g.fkTo(s, t.Name) || g.fkTo(prev, t.Name) || g.pkForFK(s, prev, t) {
			return ""
		}
		for _, tt := range []*Table{t, prev.table(t.Name)} {
			if tt == nil {
				continue
			}
			for _, n := range tt.PK {
				if x := tt.col(n); x.Auto || x.Ident != "" || strings.Contains(x.Type, "serial") {
					return ""
				}
			}
		}
		var keys []string
		for _, n := range g.indexable(t) {
			if t.col(n).NotNull {
				keys = append(keys, n)
			}
		}
		g.R.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		if n := 1 + g.R.Intn(3); n < len(keys) {
			keys = keys[:n]
		}
		if len(keys) == 0 || len(keys) == 1 && !keyCol(keys[0]) || strings.Join(keys, ",") == strings.Join(t.PK, ",") {
			return ""
		}
		t.PK, t.PKInline = keys, len(keys) == 1 && g.p(40)
		g.pkName(t, prev)
	case "addid":
		if (g.D == "postgres" || g.D == "mssql") && !g.Off["identity"] && g.p(50) {
			// a column that the server counts, beside the primary key
			for _, x := range []*Table{t, prev.table(t.Name)} {
				if x == nil {
					continue
				}
				for _, c := range x.Cols {
					if c.Ident != "" && g.D == "mssql" || strings.HasPrefix(c.Name, "no") {
						return ""
					}
				}
			}
			g.n++
			t.Cols = append(t.Cols, &Col{Name: fmt.Sprintf("no%d", g.n), Type: g.pkType(), NotNull: true})
			if c := t.Cols[len(t.Cols)-1]; !strings.Contains(c.Type, "serial") {
				c.Ident = g.ident()
			}
			return k
		}
		// a column of its own for the primary key, counted by the server
		if g.D != "mysql" && g.D != "postgres" || len(t.PK) > 0 || t.col("id") != nil {
			return ""
		}
		if p := prev.table(t.Name); p != nil && (len(p.PK) > 0 || p.col("id") != nil) {
			return ""
		}
		c := &Col{Name: "id", Type: g.pkType(), NotNull: true, Auto: g.D == "mysql" && g.p(80)}
		t.Cols = append([]*Col{c}, t.Cols...)
		t.PK, t.PKInline = []string{"id"}, g.p(50)
	case "addview":
		if len(s.Views) > 2 || !g.addView(s) {
			return ""
		}
	case "dropview":
		if len(s.Views) == 0 {
			return ""
		}
		i := g.R.Intn(len(s.Views))
		s.Views = append(s.Views[:i:i], s.Views[i+1:]...)
	case "chview":
		if len(s.Views) == 0 {
			return ""
		}
		v := s.Views[g.R.Intn(len(s.Views))]
		o := v.Def
		if strings.Contains(v.Def, "'") && g.p(50) {
			// nothing but the case of a string
			n := o
			for _, a := range [][2]string{{"'open'", "'Open'"}, {"'Open'", "'OPEN'"}, {"'OPEN'", "'open'"}, {"'x y'", "'X y'"}} {
				if n = strings.Replace(o, a[0], a[1], 1); n != o {
					break
				}
			}
			v.Def = n
			if n != o {
				break
			}
		}
		tt := s.table(v.Table)
		if g.D == "postgres" {
			// columns may only be added at the end
			n := strings.Count(v.Def[:strings.Index(v.Def, " from ")], ",") + 1
			v.Cols = v.Cols[:n]
		} else {
			v.Cols = []string{tt.Cols[g.R.Intn(len(tt.Cols))].Name}
		}
		g.viewDef(s, v)
		if o == v.Def {
			return ""
		}
	case "addtrigger":
		if len(s.Triggers) > 1 || !g.addTrigger(s) {
			return ""
		}
	case "chtrigger":
		if len(s.Triggers) == 0 {
			return ""
		}
		tr := s.Triggers[g.R.Intn(len(s.Triggers))]
		o := tr.Text
		g.trigText(s, tr)
		if o == tr.Text {
			return ""
		}
	case "addpolicy":
		if len(t.Policies) > 1 || !g.addPolicy(t) {
			return ""
		}
	case "droppolicy":
		if len(t.Policies) == 0 {
			return ""
		}
		i := g.R.Intn(len(t.Policies))
		t.Policies = append(t.Policies[:i:i], t.Policies[i+1:]...)
	case "chpolicy":
		if len(t.Policies) == 0 {
			return ""
		}
		p := t.Policies[g.R.Intn(len(t.Policies))]
		o := p.Text
		if or := p.Roles; g.p(25) && or != "PUBLIC" {
			// one more, or one less
			if strings.Contains(or, ",") {
				or = g.pick([]string{"reader", "writer"})
			} else {
				or = "reader, writer"
			}
			p.Text, p.Roles = strings.Replace(o, " TO "+p.Roles, " TO "+or, 1), or
			break
		}
		if !g.policyText(t, p) || p.Text == o {
			return ""
		}
	case "comment":
		if g.D != "mysql" {
			return ""
		}
		c := t.Cols[g.R.Intn(len(t.Cols))]
		o := c.Comment
		c.Comment = g.pick(append(comments, "", "", ""))
		if o == c.Comment {
			return ""
		}
	case "movecol":
		if g.D != "mysql" || len(t.Cols) < 2 {
			return ""
		}
		i, j := g.R.Intn(len(t.Cols)), g.R.Intn(len(t.Cols))
		if i == j {
			return ""
		}
		c := t.Cols[i]
		r := append(append([]*Col{}, t.Cols[:i]...), t.Cols[i+1:]...)
		t.Cols = append(r[:j:j], append([]*Col{c}, r[j:]...)...)
	case "check":
		if g.D != "postgres" && g.D != "mssql" {
			return ""
		}
		c := g.numCol(t)
		if c == nil || c.Ident != "" || strings.Contains(c.Type, "serial") || in(t.PK, c.Name) {
			return ""
		}
		o, on := c.Check, c.CkNFR
		switch {
		case o != "" && g.p(40):
			c.Check, c.CkNFR = "", false
		case o != "" && g.p(30):
			c.CkNFR = !c.CkNFR
		default:
			c.Check, c.CkNFR = g.check(c), g.p(20)
		}
		if o == c.Check && on == c.CkNFR {
			return ""
		}
	case "unique":
		if g.D != "mysql" && g.D != "postgres" {
			return "" // not supported for a column that exists
		}
		c := t.Cols[g.R.Intn(len(t.Cols))]
		if in(t.PK, c.Name) || g.kindOf(c.Type).class == "blob" || !inlineUnique(c.Name) {
			return ""
		}
		c.Unique = !c.Unique
	case "identity":
		if g.D == "mssql" && !g.Off["chident"] && len(t.Cols) > 1 {
			// the column is made again
			c := t.Cols[g.R.Intn(len(t.Cols))]
			pk, ix, fk, view, other := g.uses(s, t, c.Name)
			p := prev.table(t.Name)
			if c.Ident == "" || pk || ix || fk || view || other || c.Unique || p == nil || p.col(c.Name) == nil || p.col(c.Name).Ident != c.Ident || len(p.Cols) < 2 {
				return ""
			}
			pk, ix, fk, view, other = g.uses(prev, p, c.Name)
			if pk || ix || fk || view || other || p.col(c.Name).Unique {
				return ""
			}
			if strings.HasSuffix(c.Ident, " NOT FOR REPLICATION") {
				c.Ident = strings.TrimSuffix(c.Ident, " NOT FOR REPLICATION")
			} else {
				c.Ident += " NOT FOR REPLICATION"
			}
			return k
		}
		if g.D != "postgres" {
			return ""
		}
		c := g.numCol(t)
		if c == nil || c.Def != "" || !c.NotNull || strings.Contains(c.Type, "serial") {
			return ""
		}
		o := c.Ident
		switch {
		case o == "":
			if p := prev.table(t.Name); p != nil && p.col(c.Name) != nil && p.col(c.Name).Ident != "" {
				return "" // it goes and comes back with other options, which aren't changed
			}
			c.Ident = g.ident()
		case g.p(50):
			c.Ident = ""
		case strings.Contains(o, "ALWAYS"):
			c.Ident = strings.Replace(o, "ALWAYS", "BY DEFAULT", 1)
		default:
			c.Ident = strings.Replace(o, "BY DEFAULT", "ALWAYS", 1)
		}
		if o == c.Ident {
			return ""
		}
	case "reorder":
		if len(s.Tables) < 2 {
			return ""
		}
		// any order that keeps referenced tables first
		i := g.R.Intn(len(s.Tables) - 1)
		for _, f := range s.Tables[i+1].FKs {
			if f.Ref == s.Tables[i].Name {
				return ""
			}
		}
		s.Tables[i], s.Tables[i+1] = s.Tables[i+1], s.Tables[i]
	case "auto":
		if g.D != "mysql" || len(t.PK) != 1 || g.fkTo(s, t.Name) || g.fkTo(prev, t.Name) {
			return ""
		}
		c := t.col(t.PK[0])
		if g.kindOf(c.Type).class != "num" || c.Def != "" || !strings.Contains(c.Type, "int") {
			return ""
		}
		c.Auto = !c.Auto
	}
	return k
}

// pkForFK tells whether a foreign key of t uses its primary key as the index that MySQL asks for.
func (g *G) pkForFK(s, prev *S, t *Table) bool {
	if g.D != "mysql" {
		return false
	}
	for _, tt := range []*Table{s.table(t.Name), prev.table(t.Name)} {
		if tt == nil {
			continue
		}
		for _, f := range tt.FKs {
			if len(f.Cols) > 0 && len(tt.PK) > 0 && f.Cols[0] == tt.PK[0] {
				return true
			}
		}
	}
	return false
}

func (g *G) idxForFK(s, prev *S, t *Table, x *Idx) bool {
	for _, tt := range []*Table{t, prev.table(t.Name)} {
		if tt == nil || g.D != "mysql" {
			continue
		}
		for _, f := range tt.FKs {
			if len(f.Cols) > 0 && in(x.Cols, f.Cols[0]) {
				return true
			}
		}
	}
	for _, s := range []*S{s, prev} {
		for _, o := range s.Tables {
			for _, f := range o.FKs {
				if f.Ref == t.Name && x.Cols[0] == f.RefCols[0] {
					return true
				}
			}
		}
	}
	return false
}
