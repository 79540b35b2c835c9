package mssrv

import (
	"fmt"
	"strings"

	"verifsim/dbm"
	"verifsim/minisql"
)

type obj struct {
	id        int64
	sch, name string
	typ       string
	def       string
	parent    int64
}

func tid(t *dbm.Table) int64 { return 100000000 + int64(t.ID)*1000 }

func (s *Server) env(db *dbm.DB, args []interface{}) *minisql.Env {
	var objs []obj
	byName := map[string]int64{}
	add := func(o obj) {
		objs = append(objs, o)
		byName[strings.ToLower(o.sch+"."+o.name)] = o.id
	}
	for _, t := range db.Tables {
		id := tid(t)
		add(obj{id, t.Schema, t.Name, "U", "", 0})
		n := id
		for _, c := range t.Cols {
			if c.HasDef {
				add(obj{id + int64(c.ID), t.Schema, c.Get("dfn"), "D", c.Def, id})
			}
		}
		n = id + 400
		for _, k := range t.Checks {
			n++
			add(obj{n, t.Schema, k.Name, "C", k.Expr, id})
		}
		n = id + 600
		for _, f := range t.FKs {
			n++
			add(obj{n, t.Schema, f.Name, "F", "", id})
		}
		n = id + 800
		for _, i := range t.Idx {
			n++
			if i.Con {
				k := "UQ"
				if i.Kind == "PRIMARY" {
					k = "PK"
				}
				add(obj{n, t.Schema, i.Name, k, "", id})
			}
		}
	}
	for k, v := range db.Views {
		add(obj{900000000 + int64(k), v.Schema, v.Name, "V", v.Text, 0})
	}
	for k, g := range db.Triggers {
		add(obj{950000000 + int64(k), g.Schema, g.Name, "TR", g.Full, byName[strings.ToLower(g.Table)]})
	}
	var schemas []string
	for n := range db.Schemas {
		schemas = append(schemas, n)
	}
	schID := func(n string) int64 {
		if n == "dbo" {
			return 1
		}
		h := int64(5)
		for _, c := range n {
			h = h*31 + int64(c)
		}
		return h % 100000
	}
	byID := func(v minisql.Val) *obj {
		n, ok := v.(int64)
		if !ok {
			return nil
		}
		for i := range objs {
			if objs[i].id == n {
				return &objs[i]
			}
		}
		return nil
	}
	idx := func(t *dbm.Table) (ids []int64, heap bool) {
		n := int64(2)
		heap = true
		for _, i := range t.Idx {
			if i.A["type"] == "CLUSTERED" {
				ids = append(ids, 1)
				heap = false
				continue
			}
			ids = append(ids, n)
			n++
		}
		return
	}
	on := func(v string) minisql.Val { return v == "ON" }
	int_ := func(v string) minisql.Val {
		var n int64
		neg := strings.HasPrefix(v, "-")
		for _, c := range strings.TrimPrefix(v, "-") {
			n = n*10 + int64(c-'0')
		}
		if neg {
			n = -n
		}
		return n
	}
	var av []minisql.Val
	for _, a := range args {
		av = append(av, a)
	}
	return &minisql.Env{Perm: s.Order, Args: av, D: 2, NoCase: true, // MSSQL
		Func: func(name string, a []minisql.Val) (minisql.Val, error) {
			switch strings.ToLower(name) {
			case "schema_name":
				if len(a) == 0 {
					return "dbo", nil
				}
				for _, n := range schemas {
					if schID(n) == a[0] {
						return n, nil
					}
				}
				return nil, nil
			case "schema_id":
				return schID(minisql.Str(a[0])), nil
			case "db_name":
				return db.Name, nil
			case "object_id":
				parts := splitName(minisql.Str(a[0]))
				if len(parts) == 1 {
					parts = append([]string{"dbo"}, parts...)
				}
				id, ok := byName[strings.ToLower(strings.Join(parts[len(parts)-2:], "."))]
				if !ok {
					return nil, nil
				}
				if len(a) > 1 && !strings.EqualFold(byID(id).typ, strings.TrimSpace(minisql.Str(a[1]))) {
					return nil, nil
				}
				return id, nil
			case "object_name":
				if o := byID(a[0]); o != nil {
					return o.name, nil
				}
				return nil, nil
			case "object_definition":
				if o := byID(a[0]); o != nil && o.def != "" {
					return o.def, nil
				}
				return nil, nil
			case "object_schema_name":
				if o := byID(a[0]); o != nil {
					return o.sch, nil
				}
				return nil, nil
			case "col_name":
				for _, t := range db.Tables {
					if tid(t) == a[0] {
						for _, c := range t.Cols {
							if int64(c.ID) == a[1] {
								return c.Name, nil
							}
						}
					}
				}
				return nil, nil
			}
			return nil, fmt.Errorf("'%s' is not a recognized built-in function name.", name)
		},
		Table: func(n []string) (*minisql.Rel, bool) {
			if len(n) < 2 {
				return nil, false
			}
			r := &minisql.Rel{}
			add := func(v ...minisql.Val) { r.Rows = append(r.Rows, v) }
			cols := func(s string) { r.Cols = strings.Fields(s) }
			switch strings.ToLower(n[len(n)-2] + "." + n[len(n)-1]) {
			case "sys.objects", "sys.all_objects":
				cols("object_id name schema_id type type_desc parent_object_id is_ms_shipped")
				for _, o := range objs {
					add(o.id, o.name, schID(o.sch), o.typ, o.typ, o.parent, false)
				}
			case "sys.tables":
				cols("object_id name schema_id type is_ms_shipped")
				for _, t := range db.Tables {
					add(tid(t), t.Name, schID(t.Schema), "U", false)
				}
			case "sys.schemas":
				cols("schema_id name")
				for _, n := range schemas {
					add(schID(n), n)
				}
			case "sys.types":
				cols("user_type_id name system_type_id")
				for i, n := range typeNames {
					add(int64(i+1), n, int64(i+1))
				}
			case "sys.columns":
				cols("object_id column_id name user_type_id system_type_id max_length precision scale is_nullable is_identity default_object_id collation_name is_computed")
				for _, t := range db.Tables {
					for _, c := range t.Cols {
						df := int64(0)
						if c.HasDef {
							df = tid(t) + int64(c.ID)
						}
						ty := int64(0)
						for i, n := range typeNames {
							if n == base(c.Type) {
								ty = int64(i + 1)
							}
						}
						var prec, scale int64
						if i := strings.IndexByte(c.Type, '('); i > 0 {
							a := strings.Split(strings.TrimSuffix(c.Type[i+1:], ")"), ",")
							prec = int_(strings.ReplaceAll(a[0], "max", "0")).(int64)
							if len(a) > 1 {
								scale = int_(a[1]).(int64)
							}
						}
						prec, scale = precision(base(c.Type), prec, scale)
						add(tid(t), int64(c.ID), c.Name, ty, ty, maxLength(c.Type), prec, scale, !c.NotNull, c.Get("identity") != "", df, nil, false)
					}
				}
			case "sys.identity_columns":
				cols("object_id column_id name seed_value increment_value is_not_for_replication")
				for _, t := range db.Tables {
					for _, c := range t.Cols {
						if id := c.Get("identity"); id != "" {
							p := strings.Split(id, ",")
							add(tid(t), int64(c.ID), c.Name, int_(p[0]), int_(p[1]), c.Get("identnfr") == "1")
						}
					}
				}
			case "sys.default_constraints":
				cols("object_id name parent_object_id parent_column_id definition")
				for _, t := range db.Tables {
					for _, c := range t.Cols {
						if c.HasDef {
							add(tid(t)+int64(c.ID), c.Get("dfn"), tid(t), int64(c.ID), c.Def)
						}
					}
				}
			case "sys.check_constraints":
				cols("object_id name parent_object_id parent_column_id definition is_not_for_replication")
				for _, t := range db.Tables {
					for k, c := range t.Checks {
						pc := int64(0)
						if y := t.Col(c.Col, true); y != nil {
							pc = int64(y.ID)
						}
						add(tid(t)+401+int64(k), c.Name, tid(t), pc, c.Expr, c.NFR)
					}
				}
			case "sys.key_constraints":
				cols("object_id name parent_object_id type unique_index_id")
				for _, t := range db.Tables {
					ids, _ := idx(t)
					for k, i := range t.Idx {
						if i.Con {
							ty := "UQ"
							if i.Kind == "PRIMARY" {
								ty = "PK"
							}
							add(tid(t)+801+int64(k), i.Name, tid(t), ty, ids[k])
						}
					}
				}
			case "sys.indexes":
				cols("object_id name index_id type type_desc is_unique is_primary_key is_unique_constraint fill_factor is_padded ignore_dup_key allow_row_locks allow_page_locks has_filter filter_definition is_disabled")
				for _, t := range db.Tables {
					ids, heap := idx(t)
					if heap {
						add(tid(t), nil, int64(0), int64(0), "HEAP", false, false, false, int64(0), false, false, true, true, false, nil, false)
					}
					for _, clus := range []bool{true, false} {
						for k, i := range t.Idx {
							if (ids[k] == 1) != clus {
								continue
							}
							ty := int64(2)
							if clus {
								ty = 1
							}
							add(tid(t), i.Name, ids[k], ty, i.A["type"], i.Kind != "", i.Kind == "PRIMARY", i.Kind == "UNIQUE" && i.Con, int_(i.A["fillfactor"]), on(i.A["pad_index"]), on(i.A["ignore_dup_key"]), on(i.A["allow_row_locks"]), on(i.A["allow_page_locks"]), false, nil, false)
						}
					}
				}
			case "sys.stats":
				cols("object_id name stats_id auto_created user_created no_recompute is_incremental")
				for _, t := range db.Tables {
					ids, _ := idx(t)
					for k, i := range t.Idx {
						add(tid(t), i.Name, ids[k], false, false, on(i.A["statistics_norecompute"]), on(i.A["statistics_incremental"]))
					}
				}
			case "sys.index_columns":
				cols("object_id index_id index_column_id column_id key_ordinal partition_ordinal is_descending_key is_included_column")
				for _, t := range db.Tables {
					ids, _ := idx(t)
					for k, i := range t.Idx {
						n := int64(0)
						for _, c := range i.Cols {
							n++
							add(tid(t), ids[k], n, int64(t.Col(c.Name, false).ID), n, int64(0), c.Desc, false)
						}
						for _, c := range strings.Split(i.A["include"], ",") {
							if y := t.Col(c, false); y != nil {
								n++
								add(tid(t), ids[k], n, int64(y.ID), int64(0), int64(0), false, true)
							}
						}
					}
				}
			case "sys.foreign_keys":
				cols("object_id name schema_id parent_object_id referenced_object_id delete_referential_action_desc update_referential_action_desc is_not_for_replication is_disabled")
				for _, t := range db.Tables {
					for k, f := range t.FKs {
						add(tid(t)+601+int64(k), f.Name, schID(t.Schema), tid(t), tid(find(db, f.RefSch, f.RefTable)), f.OnDelete, f.OnUpdate, f.NFR, false)
					}
				}
			case "sys.foreign_key_columns":
				cols("constraint_object_id constraint_column_id parent_object_id parent_column_id referenced_object_id referenced_column_id")
				for _, t := range db.Tables {
					for k, f := range t.FKs {
						rt := find(db, f.RefSch, f.RefTable)
						for j := range f.Cols {
							add(tid(t)+601+int64(k), int64(j+1), tid(t), int64(t.Col(f.Cols[j], true).ID), tid(rt), int64(rt.Col(f.RefCols[j], true).ID))
						}
					}
				}
			case "sys.views":
				cols("object_id name schema_id type")
				for _, o := range objs {
					if o.typ == "V" {
						add(o.id, o.name, schID(o.sch), "V")
					}
				}
			case "sys.triggers":
				cols("object_id name parent_id type is_disabled is_ms_shipped")
				for _, o := range objs {
					if o.typ == "TR" {
						add(o.id, o.name, o.parent, "TR", false, false)
					}
				}
			case "sys.sql_modules", "sys.all_sql_modules":
				cols("object_id definition")
				for _, o := range objs {
					if o.typ == "V" || o.typ == "TR" {
						add(o.id, o.def)
					}
				}
			default:
				return nil, false
			}
			return r, true
		}}
}

var typeNames = strings.Fields("int bigint smallint tinyint bit money smallmoney real float date datetime smalldatetime datetime2 datetimeoffset time text ntext image uniqueidentifier xml timestamp sql_variant sysname decimal numeric char varchar nchar nvarchar binary varbinary geography geometry hierarchyid")

// splitName reads a name as OBJECT_ID does.
func splitName(s string) []string {
	var o []string
	for s != "" {
		if s[0] == '[' {
			j := strings.IndexByte(s, ']')
			if j < 0 {
				return []string{""}
			}
			o = append(o, s[1:j])
			s = strings.TrimPrefix(s[j+1:], ".")
			continue
		}
		j := strings.IndexByte(s, '.')
		if j < 0 {
			o = append(o, s)
			break
		}
		o = append(o, s[:j])
		s = s[j+1:]
	}
	return o
}
