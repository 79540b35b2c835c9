package pgsrv

import (
	"fmt"
	"strings"

	"verifsim/dbm"
	. "verifsim/sqlx"
)

func (x *ex) alter() {
	p := x.p
	p.Kw("if exists")
	p.Kw("only")
	t := x.table()
	p.Commas(func() { x.alterOne(t) })
}

func (x *ex) col(t *dbm.Table, n string) *dbm.Col {
	c := t.Col(n, false)
	if c == nil {
		bad("42703", "column \"%s\" of relation \"%s\" does not exist", n, t.Name)
	}
	return c
}

func (x *ex) viewUses(t *dbm.Table, col string) bool {
	for _, v := range x.db.Views {
		for _, d := range v.Deps {
			if d == t.Schema+"."+t.Name+"."+col {
				return true
			}
		}
	}
	return false
}

func (x *ex) alterOne(t *dbm.Table) {
	p := x.p
	switch {
	case p.PeekKw("add"):
		p.MustKw("add")
		if f, ok := x.constraint(t); ok {
			f()
			return
		}
		p.Kw("column")
		if p.Kw("if not exists") {
			if t.Col(p.Fold(p.Cur()), false) != nil {
				bad("0A000", "ADD COLUMN IF NOT EXISTS is outside the simulation")
			}
		}
		for _, f := range x.addCol(t) {
			f()
		}
	case p.Kw("drop constraint"):
		ie := p.Kw("if exists")
		n := p.Ident()
		p.Kw("cascade")
		for _, i := range t.Idx {
			if i.Con && i.Name == n {
				x.needUnique(t, i, false)
				t.Idx = rmIdx(t.Idx, i)
				return
			}
		}
		if f := t.FK(n, false); f != nil {
			var o []*dbm.FK
			for _, g := range t.FKs {
				if g != f {
					o = append(o, g)
				}
			}
			t.FKs = o
			return
		}
		for k, c := range t.Checks {
			if c.Name == n {
				t.Checks = append(append([]*dbm.Check{}, t.Checks[:k]...), t.Checks[k+1:]...)
				return
			}
		}
		if !ie {
			bad("42704", "constraint \"%s\" of relation \"%s\" does not exist", n, t.Name)
		}
	case p.PeekKw("drop"):
		p.MustKw("drop")
		p.Kw("column")
		ie := p.Kw("if exists")
		n := p.Ident()
		p.Kw("restrict")
		if t.Col(n, false) == nil && ie {
			return
		}
		x.dropCol(t, x.col(t, n))
	case p.PeekKw("alter"):
		p.MustKw("alter")
		p.Kw("column")
		c := x.col(t, p.Ident())
		switch {
		case p.Kw("set data type") || p.Kw("type"):
			x.alterType(t, c)
		case p.Kw("set not null"):
			if !c.NotNull {
				for _, r := range t.Rows {
					if _, ok := r[c.ID]; !ok {
						bad("23502", "column \"%s\" contains null values", c.Name)
					}
				}
			}
			c.NotNull = true
		case p.Kw("drop not null"):
			if pk := t.PK(); pk != nil && pk.Has(c.Name, false) {
				bad("42P16", "column \"%s\" is in a primary key", c.Name)
			}
			if c.Get("identity") != "" {
				bad("42601", "column \"%s\" of relation \"%s\" is an identity column", c.Name, t.Name)
			}
			c.NotNull = false
		case p.Kw("set default"):
			if c.Get("identity") != "" {
				bad("42601", "column \"%s\" of relation \"%s\" is an identity column", c.Name, t.Name)
			}
			x.deflt(c)
			if c.Def != "nextval" && c.Get("seq") != "" && !strings.HasPrefix(c.Get("defshow"), "nextval(") {
				// the owned sequence stays
			}
		case p.Kw("drop default"):
			if c.Get("identity") != "" {
				bad("42601", "column \"%s\" of relation \"%s\" is an identity column", c.Name, t.Name)
			}
			c.HasDef, c.Def = false, ""
			c.Set("defshow", "")
		case p.Kw("add"):
			if !c.NotNull {
				bad("55000", "column \"%s\" of relation \"%s\" must be declared NOT NULL before identity can be added", c.Name, t.Name)
			}
			if c.Get("identity") != "" {
				bad("55000", "column \"%s\" of relation \"%s\" is already an identity column", c.Name, t.Name)
			}
			if c.HasDef {
				bad("55000", "column \"%s\" of relation \"%s\" already has a default value", c.Name, t.Name)
			}
			x.identity(t, c)
		case p.Kw("set generated"):
			if c.Get("identity") == "" {
				bad("55000", "column \"%s\" of relation \"%s\" is not an identity column", c.Name, t.Name)
			}
			switch {
			case p.Kw("always"):
				c.Set("identity", "ALWAYS")
			case p.Kw("by default"):
				c.Set("identity", "BY DEFAULT")
			default:
				p.Fail()
			}
		case p.Kw("drop identity"):
			ie := p.Kw("if exists")
			if c.Get("identity") == "" && !ie {
				bad("55000", "column \"%s\" of relation \"%s\" is not an identity column", c.Name, t.Name)
			}
			if c.Get("identity") != "" {
				c.Set("identity", "")
				c.Set("seq", "")
				c.Set("seqopts", "")
			}
		default:
			p.Fail()
		}
	case p.Kw("enable row level security"), p.Kw("disable row level security"):
		// not modelled: nothing the client manages depends on it
	case p.Kw("rename to"):
		n := p.Ident()
		if x.relExists(t.Schema, n) {
			bad("42P07", "relation \"%s\" already exists", n)
		}
		t.Name = n
	default:
		p.Fail()
	}
}

func (x *ex) addCol(t *dbm.Table) []func() {
	n := len(t.Cols)
	later := x.column(t)
	c := t.Cols[n]
	for i, r := range t.Rows {
		switch {
		case c.Get("identity") != "" || c.Def == "nextval":
			r[c.ID] = fmt.Sprint(i + 1)
		case c.HasDef:
			r[c.ID] = c.Def
		case c.NotNull:
			bad("23502", "column \"%s\" contains null values", c.Name)
		}
	}
	return later
}

func (x *ex) dropCol(t *dbm.Table, c *dbm.Col) {
	if x.viewUses(t, c.Name) {
		bad("2BP01", "cannot drop column %s of table %s because other objects depend on it", c.Name, t.Name)
	}
	var ix []*dbm.Index
	for _, i := range t.Idx {
		hit := i.Has(c.Name, false)
		for _, y := range i.Cols {
			if y.Expr != "" && strings.Contains(y.Expr, q(c.Name)) {
				hit = true
			}
		}
		if strings.Contains(" "+i.A["where"]+" ", q(c.Name)) && i.A["where"] != "" {
			hit = hit || mentions(i.A["where"], c.Name)
		}
		if hit {
			x.needUnique(t, i, false)
			continue
		}
		ix = append(ix, i)
	}
	t.Idx = ix
	for _, o := range x.db.Tables {
		var fs []*dbm.FK
		for _, f := range o.FKs {
			if o == t && has(f.Cols, c.Name) {
				continue
			}
			if f.RefSch == t.Schema && f.RefTable == t.Name && has(f.RefCols, c.Name) {
				bad("2BP01", "cannot drop column %s because other objects depend on it", c.Name)
			}
			fs = append(fs, f)
		}
		o.FKs = fs
	}
	var cs []*dbm.Check
	for _, k := range t.Checks {
		if !has(strings.Split(k.Col, ","), c.Name) {
			cs = append(cs, k)
		}
	}
	t.Checks = cs
	var ps []*dbm.Policy
	for _, y := range t.Policies {
		if mentions(y.Using, c.Name) || mentions(y.Check, c.Name) {
			bad("2BP01", "cannot drop column %s of table %s because other objects depend on it", c.Name, t.Name)
		}
		ps = append(ps, y)
	}
	t.Policies = ps
	var o []*dbm.Col
	for _, y := range t.Cols {
		if y != c {
			o = append(o, y)
		}
	}
	t.Cols = o
	for _, r := range t.Rows {
		delete(r, c.ID)
	}
}

func mentions(expr, col string) bool {
	if expr == "" {
		return false
	}
	ts, err := Lex(expr, PG)
	if err != nil {
		return false
	}
	for i, t := range ts {
		if t.K == 'i' && t.S == col && (i == 0 || ts[i-1].S != "::") { // the name of a type is none of a column
			return true
		}
	}
	return false
}

func has(a []string, s string) bool {
	for _, x := range a {
		if x == s {
			return true
		}
	}
	return false
}

func (x *ex) alterType(t *dbm.Table, c *dbm.Col) {
	p := x.p
	ty, serial := x.typ()
	if serial {
		bad("42704", "type \"serial\" does not exist")
	}
	if p.Kw("using") {
		p.Expr()
	}
	if x.viewUses(t, c.Name) {
		bad("0A000", "cannot alter type of a column used by a view or rule")
	}
	for _, y := range t.Policies {
		if mentions(y.Using, c.Name) || mentions(y.Check, c.Name) {
			bad("0A000", "cannot alter type of a column used in a policy definition")
		}
	}
	if !castable(c.Type, ty) {
		bad("42804", "column \"%s\" cannot be cast automatically to type %s", c.Name, ty)
	}
	if c.HasDef && c.Def != "nextval" {
		dt := c.Type
		if isNum(ty) != isNum(dt) && !isStr(ty) {
			bad("42804", "default for column \"%s\" cannot be cast automatically to type %s", c.Name, ty)
		}
	}
	if c.Get("identity") != "" && ty != "integer" && ty != "bigint" && ty != "smallint" {
		bad("22023", "identity column type must be smallint, integer, or bigint")
	}
	if n, ok := charLen(ty).(int64); ok {
		for _, r := range t.Rows {
			if v, has := r[c.ID]; has && int64(len(v)) > n {
				bad("22001", "value too long for type %s", ty)
			}
		}
	}
	// foreign keys over the column must still be implementable
	for _, o := range x.db.Tables {
		for _, f := range o.FKs {
			for i := range f.Cols {
				var oc *dbm.Col
				if o == t && f.Cols[i] == c.Name {
					if r := x.db.Table(f.RefSch, f.RefTable); r != nil {
						oc = r.Col(f.RefCols[i], false)
					}
				}
				if f.RefSch == t.Schema && f.RefTable == t.Name && f.RefCols[i] == c.Name && oc == nil {
					oc = o.Col(f.Cols[i], false)
				}
				if oc != nil && !(strip(oc.Type) == strip(ty) || isNum(oc.Type) && isNum(ty) || isStr(oc.Type) && isStr(ty)) {
					bad("42804", "foreign key constraint \"%s\" cannot be implemented", f.Name)
				}
			}
		}
	}
	c.Type = ty
}
