package pgsrv

import (
	"fmt"
	"sort"
	"strings"

	"verifsim/dbm"
	"verifsim/minisql"
)

func (s *Server) permute(rows [][]minisql.Val) [][]minisql.Val {
	if s.Order == nil || len(rows) < 2 {
		return rows
	}
	var o [][]minisql.Val
	for _, i := range s.Order(len(rows)) {
		o = append(o, rows[i])
	}
	return o
}

type con struct {
	sch, name, typ string
	t              *dbm.Table
	i              *dbm.Index
	f              *dbm.FK
	k              *dbm.Check
	key            []minisql.Val
}

func cons(db *dbm.DB) []con {
	var o []con
	for _, t := range db.Tables {
		att := func(cs []string) []minisql.Val { return attnums(t, cs) }
		for _, i := range t.Idx {
			if i.Con {
				ty := "u"
				if i.Kind == "PRIMARY" {
					ty = "p"
				}
				o = append(o, con{t.Schema, i.Name, ty, t, i, nil, nil, att(i.Names())})
			}
		}
		for _, f := range t.FKs {
			o = append(o, con{t.Schema, f.Name, "f", t, nil, f, nil, att(f.Cols)})
		}
		for _, k := range t.Checks {
			o = append(o, con{t.Schema, k.Name, "c", t, nil, nil, k, att(strings.Split(k.Col, ","))})
		}
	}
	return o
}

func attnums(t *dbm.Table, cs []string) []minisql.Val {
	var r []minisql.Val
	for _, c := range cs {
		if y := t.Col(c, false); y != nil {
			r = append(r, int64(y.ID))
		}
	}
	return r
}

// actCode is pg_constraint's letter for what a foreign key does.
func actCode(a string) string {
	if c, ok := map[string]string{"RESTRICT": "r", "CASCADE": "c", "SET NULL": "n", "SET DEFAULT": "d"}[a]; ok {
		return c
	}
	return "a"
}

func conTypeName(t string) string {
	return map[string]string{"u": "UNIQUE", "p": "PRIMARY KEY", "f": "FOREIGN KEY", "c": "CHECK"}[t]
}

func qcols(cs []string) string {
	var o []string
	for _, c := range cs {
		o = append(o, q(c))
	}
	return strings.Join(o, ", ")
}

func (s *Server) env(db *dbm.DB, args []interface{}) *minisql.Env {
	var av []minisql.Val
	for _, a := range args {
		av = append(av, a)
	}
	cs := cons(db)
	oid := func(t *dbm.Table) int64 { return int64(16384 + t.ID) }
	typeOf := func(t string) string { return t }
	return &minisql.Env{Perm: s.Order, Args: av, D: 1, // PG
		Func: func(name string, a []minisql.Val) (minisql.Val, error) {
			switch strings.ToLower(name) {
			case "current_schema":
				return "public", nil
			case "current_database":
				return db.Name, nil
			case "version":
				return "PostgreSQL 13.3", nil
			case "format_type":
				return a[0], nil
			case "pg_get_viewdef":
				return nil, fmt.Errorf("pg_get_viewdef is outside the simulation")
			case "pg_get_constraintdef":
				if a[0] == nil {
					return nil, nil
				}
				n := a[0].(int64) - 30000
				if n < 0 || int(n) >= len(cs) {
					return nil, nil
				}
				c := cs[n]
				switch c.typ {
				case "c":
					return c.k.Expr, nil
				case "u":
					return "UNIQUE (" + qcols(c.i.Names()) + ")", nil
				case "p":
					return "PRIMARY KEY (" + qcols(c.i.Names()) + ")", nil
				case "f":
					d := "FOREIGN KEY (" + qcols(c.f.Cols) + ") REFERENCES "
					if c.f.RefSch != "public" {
						d += q(c.f.RefSch) + "."
					}
					d += q(c.f.RefTable) + "(" + qcols(c.f.RefCols) + ")"
					if c.f.OnUpdate != "NO ACTION" {
						d += " ON UPDATE " + c.f.OnUpdate
					}
					if c.f.OnDelete != "NO ACTION" {
						d += " ON DELETE " + c.f.OnDelete
					}
					return d, nil
				}
			case "quote_ident":
				return q(minisql.Str(a[0])), nil
			case "array_length":
				l, _ := a[0].([]minisql.Val)
				if len(l) == 0 {
					return nil, nil
				}
				return int64(len(l)), nil
			case "array_position":
				l, _ := a[0].([]minisql.Val)
				for i, v := range l {
					if v != nil && v == a[1] {
						return int64(i + 1), nil
					}
				}
				return nil, nil
			}
			return nil, fmt.Errorf("function %s does not exist", name)
		},
		Table: func(n []string) (*minisql.Rel, bool) {
			sch, tab := "pg_catalog", strings.ToLower(n[len(n)-1])
			if len(n) > 1 {
				sch = strings.ToLower(n[0])
			}
			r := &minisql.Rel{}
			add := func(v ...minisql.Val) { r.Rows = append(r.Rows, v) }
			cols := func(s string) { r.Cols = strings.Fields(s) }
			switch sch + "." + tab {
			case "information_schema.tables":
				cols("table_catalog table_schema table_name table_type")
				for _, t := range db.Tables {
					add(db.Name, t.Schema, t.Name, "BASE TABLE")
				}
				for _, v := range db.Views {
					add(db.Name, v.Schema, v.Name, "VIEW")
				}
				add(db.Name, "pg_catalog", "pg_class", "BASE TABLE")
				add(db.Name, "pg_catalog", "pg_views", "VIEW")
				add(db.Name, "information_schema", "tables", "VIEW")
				add(db.Name, "information_schema", "sql_features", "BASE TABLE")
			case "information_schema.views":
				cols("table_catalog table_schema table_name view_definition")
				for _, v := range db.Views {
					add(db.Name, v.Schema, v.Name, v.Def)
				}
			case "information_schema.columns":
				cols("table_catalog table_schema table_name column_name ordinal_position column_default is_nullable data_type character_maximum_length identity_generation is_identity udt_name")
				for _, t := range db.Tables {
					for _, c := range t.Cols {
						var def, ident minisql.Val
						isid := "NO"
						if d := c.Get("defshow"); d != "" {
							def = d
						}
						if g := c.Get("identity"); g != "" {
							ident, isid = g, "YES"
						}
						nn := "YES"
						if c.NotNull {
							nn = "NO"
						}
						add(db.Name, t.Schema, t.Name, c.Name, int64(c.ID), def, nn, s.dataType(c.Type, db.Types), charLen(c.Type), ident, isid, strip(c.Type))
					}
				}
				for _, v := range db.Views {
					for i, c := range strings.Split(v.Text, "\x00") {
						nt := strings.SplitN(c, "|", 2)
						if len(nt) == 2 {
							add(db.Name, v.Schema, v.Name, nt[0], int64(i+1), nil, "YES", s.dataType(nt[1], db.Types), charLen(nt[1]), nil, "NO", strip(nt[1]))
						}
					}
				}
			case "information_schema.table_constraints":
				cols("constraint_schema constraint_name table_schema table_name constraint_type")
				for _, c := range cs {
					add(c.sch, c.name, c.t.Schema, c.t.Name, conTypeName(c.typ))
				}
				for _, t := range db.Tables {
					for _, c := range t.Cols {
						if c.NotNull {
							add(t.Schema, fmt.Sprintf("2200_%d_%d_not_null", oid(t), c.ID), t.Schema, t.Name, "CHECK")
						}
					}
				}
			case "information_schema.key_column_usage":
				cols("constraint_schema constraint_name table_schema table_name column_name ordinal_position position_in_unique_constraint")
				for _, c := range cs {
					var ns []string
					switch c.typ {
					case "u", "p":
						ns = c.i.Names()
					case "f":
						ns = c.f.Cols
					}
					for i, cn := range ns {
						var pos minisql.Val
						if c.typ == "f" {
							rt := db.Table(c.f.RefSch, c.f.RefTable)
							for _, ix := range rt.Idx {
								if ix.Con && sameSet(ix.Names(), c.f.RefCols) {
									for k, y := range ix.Names() {
										if y == c.f.RefCols[i] {
											pos = int64(k + 1)
										}
									}
								}
							}
						}
						add(c.sch, c.name, c.t.Schema, c.t.Name, cn, int64(i+1), pos)
					}
				}
			case "information_schema.constraint_column_usage":
				cols("table_schema table_name column_name constraint_schema constraint_name")
				for _, c := range cs {
					switch c.typ {
					case "u", "p":
						for _, y := range c.i.Names() {
							add(c.t.Schema, c.t.Name, y, c.sch, c.name)
						}
					case "c":
						for _, y := range strings.Split(c.k.Col, ",") {
							add(c.t.Schema, c.t.Name, y, c.sch, c.name)
						}
					case "f":
						for _, y := range c.f.RefCols {
							add(c.f.RefSch, c.f.RefTable, y, c.sch, c.name)
						}
					}
				}
			case "information_schema.referential_constraints":
				cols("constraint_schema constraint_name unique_constraint_schema unique_constraint_name update_rule delete_rule match_option")
				for _, c := range cs {
					if c.typ == "f" {
						un := ""
						if rt := db.Table(c.f.RefSch, c.f.RefTable); rt != nil {
							for _, ix := range rt.Idx {
								if ix.Con && sameSet(ix.Names(), c.f.RefCols) {
									un = ix.Name
								}
							}
						}
						add(c.sch, c.name, c.f.RefSch, un, c.f.OnUpdate, c.f.OnDelete, "NONE")
					}
				}
			case "pg_catalog.pg_views":
				cols("schemaname viewname viewowner definition")
				for _, v := range db.Views {
					add(v.Schema, v.Name, "postgres", v.Def)
				}
				add("pg_catalog", "pg_views", "postgres", " SELECT n.nspname AS schemaname;")
				add("information_schema", "tables", "postgres", " SELECT 1;")
			case "pg_catalog.pg_tables":
				cols("schemaname tablename tableowner")
				for _, t := range db.Tables {
					add(t.Schema, t.Name, "postgres")
				}
			case "pg_catalog.pg_indexes":
				cols("schemaname tablename indexname tablespace indexdef")
				for _, t := range db.Tables {
					for _, i := range t.Idx {
						add(t.Schema, t.Name, i.Name, nil, indexDef(t, i))
					}
				}
			case "pg_catalog.pg_policies":
				cols("schemaname tablename policyname permissive roles cmd qual with_check")
				for _, t := range db.Tables {
					for _, y := range t.Policies {
						var u, w minisql.Val
						if y.Using != "" {
							u = y.Using
						}
						if y.Check != "" {
							w = y.Check
						}
						add(t.Schema, t.Name, y.Name, y.Permissive, "{"+strings.Join(y.Roles, ",")+"}", y.Cmd, u, w)
					}
				}
			case "pg_catalog.pg_class":
				cols("oid relname relnamespace relkind relrowsecurity")
				for _, t := range db.Tables {
					add(oid(t), t.Name, "ns:"+t.Schema, "r", false)
					for k, i := range t.Idx {
						add(int64(100000+t.ID*100+k), i.Name, "ns:"+t.Schema, "i", false)
					}
				}
				for k, v := range db.Views {
					add(int64(900000+k), v.Name, "ns:"+v.Schema, "v", false)
				}
			case "pg_catalog.pg_namespace":
				cols("oid nspname")
				var ns []string
				for n := range db.Schemas {
					ns = append(ns, n)
				}
				sort.Strings(ns)
				for _, n := range append(ns, "pg_catalog", "information_schema") {
					add("ns:"+n, n)
				}
			case "pg_catalog.pg_attribute":
				cols("attrelid attname atttypid atttypmod attnum attnotnull attisdropped atthasdef attidentity")
				for _, t := range db.Tables {
					for _, c := range t.Cols {
						id := ""
						switch c.Get("identity") {
						case "ALWAYS":
							id = "a"
						case "BY DEFAULT":
							id = "d"
						}
						add(oid(t), c.Name, typeOf(c.Type), int64(-1), int64(c.ID), c.NotNull, false, c.HasDef, id)
					}
					add(oid(t), "ctid", "tid", int64(-1), int64(-1), true, false, false, "")
				}
			case "pg_catalog.pg_type":
				cols("oid typname")
				seen := map[string]bool{}
				for _, t := range db.Tables {
					for _, c := range t.Cols {
						if !seen[c.Type] {
							seen[c.Type] = true
							add(c.Type, strip(c.Type))
						}
					}
				}
				add("tid", "tid")
			case "pg_catalog.pg_attrdef":
				cols("oid adrelid adnum adbin")
				for _, t := range db.Tables {
					for _, c := range t.Cols {
						if c.HasDef {
							add(int64(1), oid(t), int64(c.ID), c.Get("defshow"))
						}
					}
				}
			case "pg_catalog.pg_constraint":
				cols("oid conname connamespace contype conrelid conkey confrelid confkey confupdtype confdeltype")
				for k, c := range cs {
					ref, rkey, upd, del := int64(0), minisql.Val(nil), " ", " "
					if c.f != nil {
						r := db.Table(c.f.RefSch, c.f.RefTable)
						ref, rkey = oid(r), attnums(r, c.f.RefCols)
						upd, del = actCode(c.f.OnUpdate), actCode(c.f.OnDelete)
					}
					add(int64(30000+k), c.name, "ns:"+c.sch, c.typ, oid(c.t), c.key, ref, rkey, upd, del)
				}
			case "pg_catalog.pg_index":
				cols("indexrelid indrelid indisunique indisprimary indkey")
				for _, t := range db.Tables {
					for k, i := range t.Idx {
						var key []minisql.Val
						for _, y := range i.Names() {
							if c := t.Col(y, false); c != nil {
								key = append(key, int64(c.ID))
							}
						}
						add(int64(100000+t.ID*100+k), oid(t), i.Kind != "", i.Kind == "PRIMARY", key)
					}
				}
			default:
				return nil, false
			}
			return r, true
		}}
}
