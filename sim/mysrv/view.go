package mysrv

import (
	"strings"

	. "verifsim/sqlx"
)

// renderView writes a view body the way INFORMATION_SCHEMA.VIEWS reports it.
func (x *ex) renderView(s *Select, vname string) string {
	r := &vr{x: x}
	return r.sel(s)
}

type vr struct {
	x   *ex
	all []vsrc
}

type vsrc struct {
	alias string
	full  string // what a qualified column prints as
	cols  []string
}

func (r *vr) srcs(fs []From) []vsrc {
	var o []vsrc
	for i := range fs {
		f := &fs[i]
		switch {
		case f.Group != nil:
			o = append(o, r.srcs(f.Group)...)
		case f.Sub != nil:
			bad(1349, "View's SELECT contains a subquery in the FROM clause")
		default:
			n := f.Name[len(f.Name)-1]
			if len(f.Name) == 2 && f.Name[0] != r.x.db.Name {
				bad(1146, "Table '%s' is in another database", strings.Join(f.Name, "."))
			}
			v := vsrc{alias: f.Alias}
			if v.alias == "" {
				v.alias = n
				v.full = bt(r.x.db.Name) + "." + bt(n)
			} else {
				v.full = bt(v.alias)
			}
			if t := r.x.db.Table("", n); t != nil {
				for _, c := range t.Cols {
					v.cols = append(v.cols, c.Name)
				}
			} else if w := r.x.db.View("", n); w != nil {
				v.cols = viewCols(w.Def)
			} else {
				bad(1146, "Table '%s.%s' doesn't exist", r.x.db.Name, n)
			}
			o = append(o, v)
		}
	}
	return o
}

func viewCols(def string) []string {
	var o []string
	Parse(def, MySQL, func(p *P) {
		s := p.Select()
		for _, it := range s.Items {
			o = append(o, it.Alias)
		}
		p.I = len(p.T) - 1
	})
	return o
}

func (r *vr) from(fs []From) string {
	one := func(f *From) string {
		if f.Group != nil {
			return r.from(f.Group)
		}
		s := bt(r.x.db.Name) + "." + bt(f.Name[len(f.Name)-1])
		if f.Alias != "" {
			s += " " + bt(f.Alias)
		}
		return s
	}
	s := one(&fs[0])
	for i := 1; i < len(fs); i++ {
		j := "join"
		if strings.HasPrefix(strings.ToUpper(fs[i].Join), "LEFT") {
			j = "left join"
		}
		s = "(" + s + " " + j + " " + one(&fs[i])
		if fs[i].On != nil {
			s += " on(" + r.expr(fs[i].On, r.all) + ")"
		}
		s += ")"
	}
	return s
}

func (r *vr) col(q []string, name string, ss []vsrc) string {
	for _, v := range ss {
		if len(q) > 0 && !(q[len(q)-1] == v.alias) {
			continue
		}
		for _, c := range v.cols {
			if strings.EqualFold(c, name) {
				return v.full + "." + bt(c)
			}
		}
	}
	bad(1054, "Unknown column '%s' in 'field list'", name)
	return ""
}

func (r *vr) sel(s *Select) string {
	r.all = r.srcs(s.From)
	var items []string
	for _, it := range s.Items {
		if it.X.Op == "star" {
			for _, v := range r.all {
				if len(it.X.Qual) > 0 && it.X.Qual[len(it.X.Qual)-1] != v.alias {
					continue
				}
				for _, c := range v.cols {
					items = append(items, v.full+"."+bt(c)+" AS "+bt(c))
				}
			}
			continue
		}
		a := it.Alias
		if a == "" {
			if it.X.Op == "col" {
				a = it.X.V
			} else {
				a = "expr"
			}
		}
		items = append(items, r.expr(it.X, r.all)+" AS "+bt(a))
	}
	seen := map[string]bool{}
	for _, i := range items {
		a := i[strings.LastIndex(i, " AS "):]
		if seen[strings.ToLower(a)] {
			bad(1060, "Duplicate column name %s", a)
		}
		seen[strings.ToLower(a)] = true
	}
	o := "select "
	if s.Distinct {
		o += "distinct "
	}
	o += strings.Join(items, ",")
	if len(s.From) > 0 {
		o += " from " + r.from(s.From)
	}
	if s.Where != nil {
		o += " where " + r.expr(s.Where, r.all)
	}
	if len(s.GroupBy) > 0 {
		var g []string
		for _, e := range s.GroupBy {
			g = append(g, r.expr(e, r.all))
		}
		o += " group by " + strings.Join(g, ",")
	}
	if s.Having != nil {
		o += " having " + r.expr(s.Having, r.all)
	}
	if len(s.Order) > 0 {
		var g []string
		for _, e := range s.Order {
			t := r.expr(e.X, r.all)
			if e.Desc {
				t += " desc"
			}
			g = append(g, t)
		}
		o += " order by " + strings.Join(g, ",")
	}
	if s.Limit != nil {
		o += " limit " + r.expr(s.Limit, nil)
	}
	if s.Union != nil {
		bad(1064, "union views are outside the simulation")
	}
	return o
}

func (r *vr) expr(e *E, ss []vsrc) string {
	ex := func(x *E) string { return r.expr(x, ss) }
	switch e.Op {
	case "num":
		return e.V
	case "str":
		return str(e.V)
	case "null":
		return "NULL"
	case "bool":
		return e.V
	case "paren":
		return ex(e.A[0])
	case "col":
		return r.col(e.Qual, e.V, ss)
	case "un":
		if strings.EqualFold(e.V, "not") {
			return "(not(" + ex(e.A[0]) + "))"
		}
		return e.V + ex(e.A[0])
	case "bin":
		op := strings.ToLower(e.V)
		if op == "and" || op == "or" {
			var parts []string
			var walk func(x *E)
			walk = func(x *E) {
				for x.Op == "paren" {
					x = x.A[0]
				}
				if x.Op == "bin" && strings.ToLower(x.V) == op {
					walk(x.A[0])
					walk(x.A[1])
					return
				}
				parts = append(parts, ex(x))
			}
			walk(e)
			return "(" + strings.Join(parts, " "+op+" ") + ")"
		}
		if op == "!=" {
			op = "<>"
		}
		return "(" + ex(e.A[0]) + " " + op + " " + ex(e.A[1]) + ")"
	case "isnull":
		if e.Neg {
			return "(" + ex(e.A[0]) + " is not null)"
		}
		return "isnull(" + ex(e.A[0]) + ")"
	case "call":
		var a []string
		for _, x := range e.A {
			if x.Op == "star" {
				a = append(a, "0")
			} else {
				a = append(a, ex(x))
			}
		}
		return strings.ToLower(e.V) + "(" + strings.Join(a, ",") + ")"
	}
	bad(1064, "expression is outside the simulation")
	return ""
}
