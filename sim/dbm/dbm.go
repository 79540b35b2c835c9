// Package dbm is the simulated servers' storage model: tables, columns, keys,
// views, triggers, policies and the rows in them.
package dbm

import (
	"fmt"
	"sort"
	"strings"
)

type Col struct {
	ID      int
	Name    string
	Type    string // canonical full type
	NotNull bool
	HasDef  bool
	Def     string // canonical default
	A       map[string]string
}

func (c *Col) Get(k string) string { return c.A[k] }
func (c *Col) Set(k, v string) {
	n := map[string]string{}
	for a, b := range c.A {
		n[a] = b
	}
	if v == "" {
		delete(n, k)
	} else {
		n[k] = v
	}
	c.A = n
}

type IdxCol struct {
	Name string
	Len  string
	Desc bool
	Expr string
}

type Index struct {
	Name string
	Kind string // PRIMARY UNIQUE "" FULLTEXT SPATIAL
	Con  bool   // backs a constraint
	Cols []IdxCol
	Gen  bool // made for a foreign key, not asked for
	A    map[string]string
}

func (x *Index) Has(col string, fold bool) bool {
	for _, c := range x.Cols {
		if c.Name == col || fold && strings.EqualFold(c.Name, col) {
			return true
		}
	}
	return false
}
func (x *Index) Names() []string {
	var o []string
	for _, c := range x.Cols {
		o = append(o, c.Name)
	}
	return o
}

type FK struct {
	Name     string
	Cols     []string
	RefSch   string
	RefTable string
	RefCols  []string
	OnDelete string
	OnUpdate string
	NFR      bool
}

type Check struct {
	Name, Expr, Col string
	NFR             bool
}

type Policy struct {
	Name, Cmd, Using, Check string
	Permissive              string
	Roles                   []string
}

type Table struct {
	ID       int
	Schema   string
	Name     string
	Cols     []*Col
	Idx      []*Index
	FKs      []*FK
	Checks   []*Check
	Policies []*Policy
	Charset  string
	Collate  string
	Opts     string
	Rows     []map[int]string
	NextInc  int
}

type View struct {
	Schema, Name, Def string
	Deps              []string // schema.table or schema.table.column it needs
	Text              string
}

type Trigger struct {
	Name, Schema, Timing, Event, Table, Stmt, Full string
}

type DB struct {
	Name     string
	Tables   []*Table // creation order
	Views    []*View
	Triggers []*Trigger
	Schemas  map[string]bool
	Types    map[string]string
	Misc     []string
	nextID   int
}

func NewDB(name string) *DB {
	return &DB{Name: name, Schemas: map[string]bool{}, Types: map[string]string{}}
}

func (d *DB) NewID() int { d.nextID++; return d.nextID }

func (d *DB) Table(schema, name string) *Table {
	for _, t := range d.Tables {
		if t.Schema == schema && t.Name == name {
			return t
		}
	}
	return nil
}
func (d *DB) View(schema, name string) *View {
	for _, t := range d.Views {
		if t.Schema == schema && t.Name == name {
			return t
		}
	}
	return nil
}
func (t *Table) Col(name string, fold bool) *Col {
	for _, c := range t.Cols {
		if c.Name == name || fold && strings.EqualFold(c.Name, name) {
			return c
		}
	}
	return nil
}
func (t *Table) Index(name string, fold bool) *Index {
	for _, c := range t.Idx {
		if c.Name == name || fold && strings.EqualFold(c.Name, name) {
			return c
		}
	}
	return nil
}
func (t *Table) PK() *Index {
	for _, c := range t.Idx {
		if c.Kind == "PRIMARY" {
			return c
		}
	}
	return nil
}
func (t *Table) FK(name string, fold bool) *FK {
	for _, c := range t.FKs {
		if c.Name == name || fold && strings.EqualFold(c.Name, name) {
			return c
		}
	}
	return nil
}

func cpMap(m map[string]string) map[string]string {
	if m == nil {
		return nil
	}
	o := map[string]string{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

func (t *Table) Clone() *Table {
	n := *t
	n.Cols = nil
	for _, c := range t.Cols {
		x := *c
		x.A = cpMap(c.A)
		n.Cols = append(n.Cols, &x)
	}
	n.Idx = nil
	for _, c := range t.Idx {
		x := *c
		x.A = cpMap(c.A)
		x.Cols = append([]IdxCol{}, c.Cols...)
		n.Idx = append(n.Idx, &x)
	}
	n.FKs = nil
	for _, c := range t.FKs {
		x := *c
		x.Cols = append([]string{}, c.Cols...)
		x.RefCols = append([]string{}, c.RefCols...)
		n.FKs = append(n.FKs, &x)
	}
	n.Checks = nil
	for _, c := range t.Checks {
		x := *c
		n.Checks = append(n.Checks, &x)
	}
	n.Policies = nil
	for _, c := range t.Policies {
		x := *c
		x.Roles = append([]string{}, c.Roles...)
		n.Policies = append(n.Policies, &x)
	}
	n.Rows = nil
	for _, r := range t.Rows {
		m := map[int]string{}
		for k, v := range r {
			m[k] = v
		}
		n.Rows = append(n.Rows, m)
	}
	return &n
}

func (d *DB) Clone() *DB {
	n := *d
	n.Tables, n.Views, n.Triggers = nil, nil, nil
	for _, t := range d.Tables {
		n.Tables = append(n.Tables, t.Clone())
	}
	for _, v := range d.Views {
		x := *v
		n.Views = append(n.Views, &x)
	}
	for _, v := range d.Triggers {
		x := *v
		n.Triggers = append(n.Triggers, &x)
	}
	n.Schemas = map[string]bool{}
	for k, v := range d.Schemas {
		n.Schemas[k] = v
	}
	n.Types = cpMap(d.Types)
	n.Misc = append([]string{}, d.Misc...)
	return &n
}

func sortedA(m map[string]string, skip map[string]bool) string {
	var k []string
	for x := range m {
		if !skip[x] {
			k = append(k, x)
		}
	}
	sort.Strings(k)
	s := ""
	for _, x := range k {
		s += " " + x + "=" + m[x]
	}
	return s
}

// DumpOpt says which differences a comparison looks through.
type DumpOpt struct {
	IgnoreColOrder bool
	SkipColA       map[string]bool // column attributes left out
	SkipIdxA       map[string]bool
	SkipOpts       bool
	AutoName       func(kind, name string, t *Table) bool // name was invented by the server
	SkipGenIdx     bool
	Rows           bool
}

// Dump renders the state canonically: equal states, equal text.
func (d *DB) Dump(o DumpOpt) string {
	var out []string
	nm := func(kind, n string, t *Table) string {
		if o.AutoName != nil && o.AutoName(kind, n, t) {
			return "<auto>"
		}
		return n
	}
	for _, t := range d.Tables {
		var b []string
		for _, c := range t.Cols {
			s := fmt.Sprintf("  col %s %s", c.Name, c.Type)
			if c.NotNull {
				s += " notnull"
			}
			if c.HasDef {
				s += " default " + c.Def
			}
			b = append(b, s+sortedA(c.A, o.SkipColA))
		}
		if o.IgnoreColOrder {
			sort.Strings(b)
		}
		var x []string
		for _, i := range t.Idx {
			if o.SkipGenIdx && i.Gen {
				continue
			}
			s := fmt.Sprintf("  index %s %s", nm("index", i.Name, t), i.Kind)
			for _, c := range i.Cols {
				s += fmt.Sprintf(" (%s%s%s desc=%v)", c.Name, c.Expr, c.Len, c.Desc)
			}
			x = append(x, s+sortedA(i.A, o.SkipIdxA))
		}
		for _, f := range t.FKs {
			x = append(x, fmt.Sprintf("  fk %s %v -> %s.%s %v del=%s upd=%s nfr=%v", nm("fk", f.Name, t), f.Cols, f.RefSch, f.RefTable, f.RefCols, strings.TrimPrefix(f.OnDelete, "NO ACTION"), strings.TrimPrefix(f.OnUpdate, "NO ACTION"), f.NFR))
		}
		for _, f := range t.Checks {
			x = append(x, fmt.Sprintf("  check %s %s nfr=%v", nm("check", f.Name, t), f.Expr, f.NFR))
		}
		for _, p := range t.Policies {
			r := append([]string{}, p.Roles...)
			sort.Strings(r)
			x = append(x, fmt.Sprintf("  policy %s %s %s %v using %s check %s", p.Name, p.Permissive, p.Cmd, r, p.Using, p.Check))
		}
		sort.Strings(x)
		h := "table " + t.Schema + "." + t.Name
		if !o.SkipOpts {
			h += fmt.Sprintf(" [%s %s %s]", t.Charset, t.Collate, t.Opts)
		}
		body := h + "\n" + strings.Join(append(b, x...), "\n")
		if o.Rows {
			for _, r := range t.Rows {
				var cs []string
				for _, c := range t.Cols {
					if v, ok := r[c.ID]; ok {
						cs = append(cs, c.Name+"="+v)
					} else {
						cs = append(cs, c.Name+" is null")
					}
				}
				sort.Strings(cs)
				body += "\n  row " + strings.Join(cs, ", ")
			}
		}
		out = append(out, body)
	}
	sort.Strings(out)
	var vs []string
	for _, v := range d.Views {
		vs = append(vs, "view "+v.Schema+"."+v.Name+" as "+v.Def)
	}
	for _, g := range d.Triggers {
		vs = append(vs, fmt.Sprintf("trigger %s.%s %s %s on %s: %s", g.Schema, g.Name, g.Timing, g.Event, g.Table, g.Stmt))
	}
	sort.Strings(vs)
	out = append(out, vs...)
	return strings.Join(out, "\n")
}
