package mssrv

import (
	"strings"

	"verifsim/dbm"
	. "verifsim/sqlx"
)

// key writes an expression so that two that mean the same read the same.
func key(e *E) string {
	e = unparen(e)
	var o []string
	for _, a := range e.A {
		o = append(o, key(a))
	}
	n := ""
	if e.Neg && e.Op != "call" {
		n = "not "
	}
	v := e.V
	switch e.Op {
	case "str":
		return "'" + v + "'"
	case "num":
		return v
	case "col", "star":
		return strings.ToLower(strings.Join(append(append([]string{}, e.Qual...), v), "."))
	}
	s := "(" + n + e.Op + " " + strings.ToLower(v) + " " + strings.Join(o, " ")
	if e.Sel != nil {
		s += selKey(e.Sel)
	}
	return s + ")"
}

func selKey(s *Select) string {
	o := "select"
	if s.Distinct {
		o += " distinct"
	}
	if s.Top != nil {
		o += " top " + key(s.Top)
	}
	for _, i := range s.Items {
		o += " " + key(i.X)
		if i.Alias != "" {
			o += " as " + strings.ToLower(i.Alias)
		}
		o += ","
	}
	var from func(fs []From) string
	from = func(fs []From) string {
		o := ""
		for _, f := range fs {
			o += " " + f.Join + " "
			switch {
			case f.Group != nil:
				o += "(" + from(f.Group) + ")"
			case f.Sub != nil:
				o += "(" + selKey(f.Sub) + ")"
			default:
				o += strings.ToLower(strings.Join(f.Name, "."))
			}
			if f.Alias != "" {
				o += " as " + strings.ToLower(f.Alias)
			}
			if f.On != nil {
				o += " on " + key(f.On)
			}
		}
		return o
	}
	o += " from" + from(s.From)
	if s.Where != nil {
		o += " where " + key(s.Where)
	}
	for _, g := range s.GroupBy {
		o += " group " + key(g)
	}
	if s.Having != nil {
		o += " having " + key(s.Having)
	}
	for _, g := range s.Order {
		o += " order " + key(g.X)
		if g.Desc {
			o += " desc"
		}
	}
	if s.Union != nil {
		o += " union"
		if s.UnionAll {
			o += " all"
		}
		o += " " + selKey(s.Union)
	}
	return o
}

type vsrc struct {
	name string
	cols []string
}

func (x *ex) srcs(fs []From) []vsrc {
	var o []vsrc
	for _, f := range fs {
		if f.Group != nil {
			o = append(o, x.srcs(f.Group)...)
			continue
		}
		if f.Sub != nil {
			o = append(o, vsrc{f.Alias, x.bind(f.Sub)})
			continue
		}
		sch, n := "dbo", f.Name[len(f.Name)-1]
		if len(f.Name) > 1 {
			sch = f.Name[len(f.Name)-2]
		}
		v := vsrc{name: n}
		if f.Alias != "" {
			v.name = f.Alias
		}
		if t := find(x.db, sch, n); t != nil {
			for _, c := range t.Cols {
				v.cols = append(v.cols, c.Name)
			}
		} else if w := findView(x.db, sch, n); w != nil {
			v.cols = strings.Split(w.Deps[0], ",")
		} else {
			bad(208, "Invalid object name '%s'.", strings.Join(f.Name, "."))
		}
		for _, p := range o {
			if strings.EqualFold(p.name, v.name) {
				bad(1013, "The objects in the FROM clause have the same exposed names. Use correlation names to distinguish them.")
			}
		}
		o = append(o, v)
	}
	return o
}

// bind resolves a select's names and gives its columns.
func (x *ex) bind(s *Select) []string {
	ss := x.srcs(s.From)
	res := func(e *E) {
		if e == nil {
			return
		}
		e.Walk(func(y *E) {
			if y.Sel != nil {
				bad(102, "subqueries in expressions are outside the simulation")
			}
			if y.Op != "col" {
				return
			}
			n := 0
			for _, v := range ss {
				if len(y.Qual) > 0 && !strings.EqualFold(y.Qual[len(y.Qual)-1], v.name) {
					continue
				}
				for _, c := range v.cols {
					if strings.EqualFold(c, y.V) {
						n++
					}
				}
			}
			switch {
			case n == 0 && len(y.Qual) > 0:
				bad(4104, "The multi-part identifier \"%s\" could not be bound.", strings.Join(append(append([]string{}, y.Qual...), y.V), "."))
			case n == 0:
				bad(207, "Invalid column name '%s'.", y.V)
			case n > 1:
				bad(209, "Ambiguous column name '%s'.", y.V)
			}
		})
	}
	var out []string
	for _, i := range s.Items {
		if i.X.Op == "star" {
			for _, v := range ss {
				if len(i.X.Qual) == 0 || strings.EqualFold(i.X.Qual[len(i.X.Qual)-1], v.name) {
					out = append(out, v.cols...)
				}
			}
			continue
		}
		res(i.X)
		n := i.Alias
		if n == "" && unparen(i.X).Op == "col" {
			n = unparen(i.X).V
		}
		out = append(out, n)
	}
	for _, f := range s.From {
		res(f.On)
	}
	for _, e := range append([]*E{s.Where, s.Having}, s.GroupBy...) {
		res(e)
	}
	if s.Limit != nil {
		bad(102, "Incorrect syntax near 'limit'.")
	}
	if s.Union != nil && len(x.bind(s.Union)) != len(out) {
		bad(205, "All queries combined using a UNION, INTERSECT or EXCEPT operator must have an equal number of expressions in their target lists.")
	}
	return out
}

func (x *ex) createView(alter bool) {
	p := x.p
	sch, n := x.qn()
	p.MustKw("as")
	sel := p.Select()
	old := findView(x.db, sch, n)
	if old == nil && x.taken(sch, n) || old != nil && !alter {
		bad(2714, "There is already an object named '%s' in the database.", n)
	}
	cols := x.bind(sel)
	seen := map[string]bool{}
	for i, c := range cols {
		if c == "" {
			bad(4511, "Create View or Function failed because no column name was specified for column %d.", i+1)
		}
		if seen[strings.ToLower(c)] {
			bad(4506, "Column names in each view or function must be unique. Column name '%s' in view or function '%s' is specified more than once.", c, n)
		}
		seen[strings.ToLower(c)] = true
	}
	if len(sel.Order) > 0 && sel.Top == nil {
		bad(1033, "The ORDER BY clause is invalid in views, inline functions, derived tables, subqueries, and common table expressions, unless TOP, OFFSET or FOR XML is also specified.")
	}
	text := x.batch
	if alter {
		if i := strings.Index(strings.ToLower(text), "or alter"); i >= 0 {
			text = text[:i] + text[i+len("or alter"):]
		}
	}
	v := &dbm.View{Schema: sch, Name: n, Def: selKey(sel), Text: text, Deps: []string{strings.Join(cols, ",")}}
	if old != nil {
		*old = *v
		return
	}
	x.db.Views = append(x.db.Views, v)
}

func (x *ex) createTrigger(alter bool) {
	p := x.p
	sch, n := x.qn()
	p.MustKw("on")
	ts, tn := x.qn()
	t := find(x.db, ts, tn)
	if t == nil {
		bad(8197, "The object '%s' does not exist or is invalid for this operation.", tn)
	}
	g := &dbm.Trigger{Schema: sch, Name: n, Table: t.Schema + "." + t.Name, Timing: "AFTER"}
	switch {
	case p.Kw("after"), p.Kw("for"):
	case p.Kw("instead of"):
		g.Timing = "INSTEAD OF"
	default:
		p.Fail()
	}
	var ev []string
	p.Commas(func() {
		switch {
		case p.Kw("insert"):
			ev = append(ev, "INSERT")
		case p.Kw("update"):
			ev = append(ev, "UPDATE")
		case p.Kw("delete"):
			ev = append(ev, "DELETE")
		default:
			p.Fail()
		}
	})
	g.Event = strings.Join(ev, ",")
	if isNFR(p) {
		g.Event += " not for replication"
	}
	p.MustKw("as")
	st := p.I
	if p.EOF() {
		p.Fail()
	}
	g.Stmt = tokens(p, st)
	p.I = len(p.T) - 1
	g.Full = x.batch
	if alter { // the words "or alter" are not kept
		if i := strings.Index(strings.ToLower(g.Full), "or alter"); i >= 0 {
			g.Full = g.Full[:i] + g.Full[i+len("or alter"):]
		}
	}
	for i, o := range x.db.Triggers {
		if strings.EqualFold(o.Schema, sch) && strings.EqualFold(o.Name, n) {
			if !alter {
				bad(2714, "There is already an object named '%s' in the database.", n)
			}
			if !strings.EqualFold(o.Table, g.Table) {
				bad(2103, "Cannot alter trigger '%s' because its schema is different from the schema of the target table or view.", n)
			}
			x.db.Triggers[i] = g
			return
		}
	}
	if x.taken(sch, n) {
		bad(2714, "There is already an object named '%s' in the database.", n)
	}
	x.db.Triggers = append(x.db.Triggers, g)
}

// tokens is the rest of the batch with nothing but its meaning left.
func tokens(p *P, st int) string {
	var o []string
	for _, t := range p.T[st:] {
		switch {
		case t.K == 0 || t.K == 'o' && t.S == ";":
		case t.K == 's':
			o = append(o, "'"+t.S+"'")
		case t.K == 'i':
			o = append(o, strings.ToLower(t.S))
		default:
			o = append(o, t.S)
		}
	}
	return strings.Join(o, " ")
}
