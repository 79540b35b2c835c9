package pgsrv

import (
	"strings"

	"verifsim/dbm"
	. "verifsim/sqlx"
)

type vsrc struct {
	name   string // how columns are prefixed
	sch, t string
	cols   []string
	types  map[string]string
}

func (x *ex) srcs(fs []From) []vsrc {
	var o []vsrc
	for _, f := range fs {
		if len(f.Group) > 0 {
			o = append(o, x.srcs(f.Group)...)
			continue
		}
		if f.Sub != nil {
			bad("0A000", "subqueries in FROM are outside the simulation")
		}
		sch, n := "public", f.Name[len(f.Name)-1]
		if len(f.Name) == 2 {
			sch = f.Name[0]
		}
		s := vsrc{sch: sch, t: n, name: n, types: map[string]string{}}
		if f.Alias != "" {
			s.name = f.Alias
		}
		if t := x.db.Table(sch, n); t != nil {
			for _, c := range t.Cols {
				s.cols = append(s.cols, c.Name)
				s.types[c.Name] = c.Type
			}
		} else if v := x.db.View(sch, n); v != nil {
			for _, c := range strings.Split(v.Text, "\x00") {
				nt := strings.SplitN(c, "|", 2)
				s.cols = append(s.cols, nt[0])
				if len(nt) > 1 {
					s.types[nt[0]] = nt[1]
				}
			}
		} else {
			bad("42P01", "relation \"%s\" does not exist", n)
		}
		for _, p := range o {
			if p.name == s.name {
				bad("42712", "table name \"%s\" specified more than once", s.name)
			}
		}
		o = append(o, s)
	}
	return o
}

func (x *ex) createView(repl bool) {
	p := x.p
	sch, n := x.qn()
	p.MustKw("as")
	sel := p.Select()
	old := x.db.View(sch, n)
	if old == nil && x.relExists(sch, n) {
		if x.db.Table(sch, n) != nil && repl {
			bad("42809", "\"%s\" is not a view", n)
		}
		bad("42P07", "relation \"%s\" already exists", n)
	}
	if old != nil && !repl {
		bad("42P07", "relation \"%s\" already exists", n)
	}
	v := &dbm.View{Schema: sch, Name: n}
	deps := map[string]bool{}
	cols := x.view(sel, v, deps)
	for d := range deps {
		v.Deps = append(v.Deps, d)
	}
	var cs []string
	seen := map[string]bool{}
	for _, c := range cols {
		cs = append(cs, c[0]+"|"+c[1])
		if seen[c[0]] {
			bad("42701", "column \"%s\" specified more than once", c[0])
		}
		seen[c[0]] = true
	}
	v.Text = strings.Join(cs, "\x00")
	if old != nil {
		oc := strings.Split(old.Text, "\x00")
		if len(oc) > len(cs) {
			bad("42P16", "cannot drop columns from view")
		}
		for i := range oc {
			if oc[i] != cs[i] {
				a, b := strings.SplitN(oc[i], "|", 2), strings.SplitN(cs[i], "|", 2)
				if a[0] != b[0] {
					bad("42P16", "cannot change name of view column \"%s\" to \"%s\"", a[0], b[0])
				}
				bad("42P16", "cannot change data type of view column \"%s\"", a[0])
			}
		}
		*old = *v
		return
	}
	x.db.Views = append(x.db.Views, v)
}

func (x *ex) view(s *Select, v *dbm.View, deps map[string]bool) (cols [][2]string) {
	if s.Union != nil || s.Top != nil {
		bad("0A000", "set operations are outside the simulation")
	}
	ss := x.srcs(s.From)
	for _, r := range ss {
		deps[r.sch+"."+r.t] = true
	}
	d := &dep{prefix: func(qual []string, col string) (string, string) {
		var hit *vsrc
		for i := range ss {
			r := &ss[i]
			if len(qual) > 0 && qual[len(qual)-1] != r.name {
				continue
			}
			if _, ok := r.types[col]; ok {
				if hit != nil {
					bad("42702", "column reference \"%s\" is ambiguous", col)
				}
				hit = r
			}
		}
		if hit == nil {
			if len(qual) > 0 {
				ok := false
				for _, r := range ss {
					ok = ok || r.name == qual[len(qual)-1]
				}
				if !ok {
					bad("42P01", "missing FROM-clause entry for table \"%s\"", qual[len(qual)-1])
				}
			}
			bad("42703", "column \"%s\" does not exist", col)
		}
		deps[hit.sch+"."+hit.t+"."+col] = true
		return q(hit.name) + "." + q(col), hit.types[col]
	}}
	var items []string
	for _, it := range s.Items {
		e := it.X
		for e.Op == "paren" {
			e = e.A[0]
		}
		if e.Op == "star" {
			for i := range ss {
				r := &ss[i]
				if len(e.Qual) > 0 && e.Qual[len(e.Qual)-1] != r.name {
					continue
				}
				for _, c := range r.cols {
					items = append(items, q(r.name)+"."+q(c))
					cols = append(cols, [2]string{c, r.types[c]})
					deps[r.sch+"."+r.t+"."+c] = true
				}
			}
			continue
		}
		txt := d.render(e, false)
		name := it.Alias
		own := "?column?"
		switch e.Op {
		case "col":
			own = e.V
		case "call":
			own = e.V
		case "cast":
			own = strings.Fields(strip(canonCast(e.V)))[0]
			if e.A[0].Op == "col" {
				own = e.A[0].V
			}
		case "bool":
			own = "bool"
		}
		if name == "" {
			name = own
		}
		if e.Op == "col" {
			if name != own {
				txt += " AS " + q(name)
			}
		} else {
			txt += " AS " + q(name)
		}
		t := d.typeOf(e)
		if t == "unknown" {
			t = "text"
		}
		items = append(items, txt)
		cols = append(cols, [2]string{name, t})
	}
	b := " SELECT "
	if s.Distinct {
		b += "DISTINCT "
	}
	b += strings.Join(items, ",\n    ")
	if len(s.From) > 0 {
		b += "\n   FROM " + x.fromText(s.From, d)
	}
	if s.Where != nil {
		b += "\n  WHERE " + d.render(s.Where, false)
	}
	if len(s.GroupBy) > 0 {
		var g []string
		for _, e := range s.GroupBy {
			g = append(g, d.render(e, false))
		}
		b += "\n  GROUP BY " + strings.Join(g, ", ")
	}
	if s.Having != nil {
		b += "\n HAVING " + d.render(s.Having, false)
	}
	if len(s.Order) > 0 {
		var g []string
		for _, o := range s.Order {
			t := d.render(o.X, false)
			if o.Desc {
				t += " DESC"
			}
			g = append(g, t)
		}
		b += "\n  ORDER BY " + strings.Join(g, ", ")
	}
	if s.Limit != nil {
		b += "\n LIMIT " + d.render(s.Limit, false)
	}
	v.Def = b + ";"
	return cols
}

func (x *ex) fromText(fs []From, d *dep) string {
	one := func(f From) string {
		if len(f.Group) > 0 {
			return x.fromText(f.Group, d)
		}
		n := f.Name[len(f.Name)-1]
		s := q(n)
		if len(f.Name) == 2 && f.Name[0] != "public" {
			s = q(f.Name[0]) + "." + s
		}
		if f.Alias != "" && f.Alias != n {
			s += " " + q(f.Alias)
		}
		return s
	}
	var parts []string
	cur := one(fs[0])
	for _, f := range fs[1:] {
		switch f.Join {
		case "cross":
			parts = append(parts, cur)
			cur = one(f)
			continue
		}
		j := "JOIN"
		switch f.Join {
		case "left":
			j = "LEFT JOIN"
		case "right":
			j = "RIGHT JOIN"
		case "full":
			j = "FULL JOIN"
		}
		on := d.render(f.On, false)
		if !strings.HasPrefix(on, "(") {
			on = "(" + on + ")"
		} else {
			on = "(" + on + ")"
		}
		cur = "(" + cur + "\n     " + j + " " + one(f) + " ON " + on + ")"
	}
	return strings.Join(append(parts, cur), ",\n    ")
}
