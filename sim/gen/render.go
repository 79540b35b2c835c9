package gen

import (
	"fmt"
	"strings"
)

// Render writes the schema out, in one of the many ways to write it.
func (g *G) Render(s *S) Schema {
	var out Schema
	up := g.p(50)
	kw := func(x string) string {
		if up {
			return strings.ToUpper(x)
		}
		return strings.ToLower(x)
	}
	qt := g.p(30)
	lq := g.pick([]string{"`", `"`})
	q := func(n string) string {
		switch {
		case !qt:
			return g.nm(n)
		case g.D == "mysql":
			return "`" + n + "`"
		case g.D == "mssql":
			return "[" + n + "]"
		case g.D == "postgres":
			return `"` + n + `"`
		case g.D == "sqlite3":
			return lq + n + lq
		}
		return n
	}
	ql := func(a []string) string {
		var o []string
		for _, x := range a {
			o = append(o, q(x))
		}
		return strings.Join(o, ", ")
	}
	pub := g.D == "postgres" && g.p(25)
	tn := func(n string) string {
		if strings.Contains(n, ".") {
			return g.nm(n)
		}
		if pub {
			return "public." + g.nm(n)
		}
		if g.D == "mssql" && g.p(20) {
			return "dbo." + g.nm(n)
		}
		if g.D == "postgres" || g.D == "mssql" {
			return g.nm(n)
		}
		return q(n)
	}
	var after []Stmt
	for _, t := range s.Tables {
		if t.Fixed != nil {
			out = append(out, *t.Fixed)
			continue
		}
		st := Stmt{Head: kw("create table") + " " + tn(t.Name), Elems: []string{}}
		pkDone := false
		for _, c := range t.Cols {
			e := q(c.Name) + " " + c.Type
			if c.Coll != "" {
				e += " " + c.Coll
			}
			if c.Ident != "" && g.D == "mssql" {
				e += " " + c.Ident
			}
			inl := t.PKInline && len(t.PK) == 1 && t.PK[0] == c.Name
			if c.NotNull && !(inl && g.D != "sqlite3" && g.p(30)) {
				e += " " + kw("not null")
			}
			if c.Def != "" {
				e += " " + kw("default") + " " + c.Def
			}
			if c.Ident != "" && g.D == "postgres" {
				e += " " + c.Ident
			}
			if c.OnUpd != "" {
				e += " ON UPDATE " + c.OnUpd
			}
			if c.Auto && g.D == "mysql" {
				e += " " + kw("auto_increment")
			}
			if inl {
				e += " " + kw("primary key")
				pkDone = true
				if c.Auto && g.D == "sqlite3" {
					e += " " + kw("autoincrement")
				}
			}
			if c.Unique {
				e += " " + kw("unique")
				if g.D == "mysql" {
					e += " " + kw("key")
				}
			}
			if c.Comment != "" {
				e += " " + kw("comment") + " '" + c.Comment + "'"
			}
			if c.Check != "" {
				if g.D == "mssql" && !c.CkAnon {
					e += " " + kw("constraint") + " [ck_" + bare(t.Name) + "_" + c.Name + "]"
				}
				e += " " + kw("check") + " "
				if g.D == "mssql" && c.CkNFR {
					e += kw("not for replication") + " "
				}
				e += c.Check
				if g.D == "postgres" && c.CkNFR {
					e += " " + kw("no inherit")
				}
			}
			st.Elems = append(st.Elems, e)
		}
		if len(t.PK) > 0 && !pkDone {
			e := kw("primary key") + " (" + ql(t.PK) + ")"
			if t.PKName != "" {
				cl := ""
				if t.PKNon {
					cl = kw(" nonclustered")
				} else if g.p(50) && g.D == "mssql" {
					cl = kw(" clustered")
				}
				e = kw("constraint") + " " + q(t.PKName) + " " + kw("primary key") + cl + " (" + ql(t.PK) + ")"
				if len(t.PKOpts) > 0 {
					e += " " + kw("with") + " (" + strings.Join(t.PKOpts, ", ") + ")"
				}
			}
			st.Elems = append(st.Elems, e)
		}
		for _, x := range t.Idx {
			u, tail := "", ""
			cols := ql(x.Cols)
			if len(x.Len) > 0 {
				var o []string
				for _, c := range x.Cols {
					o = append(o, q(c))
					if n := x.Len[c]; n > 0 {
						o[len(o)-1] += fmt.Sprintf("(%d)", n)
					}
				}
				cols = strings.Join(o, ", ")
			}
			if len(x.Desc) > 0 {
				var o []string
				for _, c := range x.Cols {
					if in(x.Desc, c) {
						o = append(o, q(c)+" "+kw("desc"))
					} else {
						o = append(o, q(c))
					}
				}
				cols = strings.Join(o, ", ")
			}
			if len(x.Incl) > 0 {
				tail += " " + kw("include") + " (" + ql(x.Incl) + ")"
			}
			if len(x.Opts) > 0 {
				tail += " " + kw("with") + " (" + strings.Join(x.Opts, ", ") + ")"
			}
			switch x.Part {
			case 1:
				tail += " " + kw("on") + " [PRIMARY]"
			case 2:
				tail += " " + kw("on") + " [ps_app] (" + q(x.Cols[0]) + ")"
			}
			cl := ""
			if x.Clust != "" {
				cl = kw(x.Clust) + " "
			}
			if x.Unique {
				u = kw("unique") + " "
			}
			switch x.Style {
			case 0:
				if g.D == "mssql" {
					st.Elems = append(st.Elems, kw("index")+" "+q(x.Name)+" "+u+cl+"("+cols+")"+tail)
					continue
				}
				st.Elems = append(st.Elems, u+kw("key")+" "+q(x.Name)+" ("+cols+")")
			case 1:
				w := ""
				if x.Where != "" {
					w = " " + kw("where") + " " + x.Where
				}
				after = append(after, Stmt{Head: kw("create") + " " + u + cl + kw("index") + " " + q(x.Name) + " " + kw("on") + " " + tn(t.Name) + " (" + cols + ")" + w + tail})
			case 2:
				after = append(after, Stmt{Head: kw("alter table") + " " + tn(t.Name) + " " + kw("add") + " " + u + kw("index") + " " + q(x.Name) + "(" + cols + ")"})
			}
		}
		for _, f := range t.FKs {
			ix := ""
			if f.Index != "" {
				ix = " " + q(f.Index)
			}
			e := kw("constraint") + " " + q(f.Name) + " " + kw("foreign key") + ix + " (" + ql(f.Cols) + ") " + kw("references") + " " + tn(f.Ref) + " (" + ql(f.RefCols) + ")"
			if f.OnDel != "" {
				e += " " + kw("on delete") + " " + f.OnDel
			}
			if f.OnUpd != "" {
				e += " " + kw("on update") + " " + f.OnUpd
			}
			if f.NFR {
				e += " " + kw("not for replication")
			}
			if f.Alter {
				after = append(after, Stmt{Head: kw("alter table only") + " " + tn(t.Name) + " " + kw("add") + " " + e})
				continue
			}
			st.Elems = append(st.Elems, e)
		}
		for _, p := range t.Policies {
			after = append(after, Stmt{Head: p.Text})
		}
		st.Tail = t.Opts
		if g.D == "sqlite3" {
			x := st
			t.Fixed = &x
		}
		out = append(out, st)
		if g.p(50) {
			out = append(out, after...)
			after = nil
		}
	}
	out = append(out, after...)
	for _, v := range s.Views {
		out = append(out, Stmt{Head: "CREATE VIEW " + g.nm(v.Name) + " AS " + v.Def})
	}
	for _, v := range s.Triggers {
		out = append(out, Stmt{Head: v.Text})
	}
	_ = fmt.Sprint
	if !g.Off["layout"] && g.p(40) {
		for i := range out {
			g.layout(&out[i])
		}
	}
	return out
}

// layout writes a statement another way, which means the same.
func (g *G) layout(st *Stmt) {
	if g.p(15) {
		st.Pre = g.pick([]string{"-- that's; it\n", "--\n-- CREATE TABLE nothing (id int);\n\n", "\n\n", "/* the next one */ ", "/*\n * what's; next\n */\n"})
	}
	if g.p(60) {
		st.Lay = g.R.Intn(5)
	}
	if st.Elems == nil && !strings.Contains(strings.ToUpper(st.Head), "TRIGGER") && g.p(60) {
		st.Head = g.spread(st.Head)
	}
}

// spread breaks the lines of a statement at some of its spaces outside of quotes.
func (g *G) spread(s string) string {
	var b strings.Builder
	q := byte(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case q != 0:
			if c == q {
				q = 0
			}
		case c == '\'' || c == '"' || c == '`':
			q = c
		case c == '[':
			q = ']'
		case c == ' ' && g.p(30):
			b.WriteString(g.pick([]string{"\n", "  ", "\n    ", "\t", " \n"}))
			continue
		}
		b.WriteByte(c)
	}
	return b.String()
}

// History makes n successive schemas.
func (g *G) History(n, maxEdits int) []Schema {
	var out []Schema
	s := g.Initial()
	out = append(out, g.Render(s))
	for len(out) < n {
		prev := s
		s = s.Clone()
		for i := g.R.Intn(maxEdits) + 1; i > 0; i-- {
			g.Edit(s, prev)
		}
		out = append(out, g.Render(s))
	}
	return out
}
