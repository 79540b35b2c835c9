package scen

import (
	"sort"
	"strings"

	"verifsim/dbm"
)

// Data is a table's rows, column by column.
type Data struct {
	N    int
	Cols map[string][]string
}

func key(schema, name string) string {
	if schema == "" || schema == "public" || schema == "dbo" {
		return name
	}
	return schema + "." + name
}

// ModelData reads the rows of a modelled database.
func ModelData(d *dbm.DB) map[string]Data {
	o := map[string]Data{}
	if d == nil {
		return o
	}
	for _, t := range d.Tables {
		x := Data{N: len(t.Rows), Cols: map[string][]string{}}
		for _, c := range t.Cols {
			var v []string
			for _, r := range t.Rows {
				s, ok := r[c.ID]
				if !ok {
					s = "NULL"
				}
				v = append(v, s)
			}
			x.Cols[c.Name] = v
		}
		o[key(t.Schema, t.Name)] = x
	}
	return o
}

// ModelObjects lists everything a DROP could take away.
func ModelObjects(d *dbm.DB) []string {
	var o []string
	if d == nil {
		return nil
	}
	for _, t := range d.Tables {
		n := key(t.Schema, t.Name)
		o = append(o, "table "+n)
		for _, c := range t.Cols {
			o = append(o, "column "+n+"."+c.Name)
		}
		for _, x := range t.Idx {
			if !x.Gen {
				o = append(o, "index "+n+"."+x.Name)
			}
		}
		for _, x := range t.FKs {
			o = append(o, "foreign key "+n+"."+x.Name)
		}
		for _, x := range t.Policies {
			o = append(o, "policy "+n+"."+x.Name)
		}
		for _, x := range t.Checks {
			o = append(o, "check "+n+"."+x.Name)
		}
	}
	for _, v := range d.Views {
		o = append(o, "view "+key(v.Schema, v.Name))
	}
	for _, v := range d.Triggers {
		o = append(o, "trigger "+v.Name)
	}
	sort.Strings(o)
	return o
}

func (b *myBackend) Data(db string) map[string]Data { return ModelData(b.DBs[db]) }
func (b *myBackend) Objects(db string) []string     { return ModelObjects(b.DBs[db]) }
func (b *pgBackend) Data(db string) map[string]Data { return ModelData(b.DBs[db]) }
func (b *pgBackend) Objects(db string) []string     { return ModelObjects(b.DBs[db]) }

// IsDrop: the statement drops something, going by its keywords and not by the
// names and texts in it.
func IsDrop(s string) bool {
	return HasWord(s, "DROP")
}

// HasWord looks for a keyword outside quotes and comments.
func HasWord(s, w string) bool {
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == '\'' || c == '"' || c == '`':
			j := i + 1
			for j < len(s) && s[j] != c {
				if c == '\'' && s[j] == '\\' {
					j++
				}
				j++
			}
			i = j
		case c == '[':
			if j := strings.IndexByte(s[i:], ']'); j > 0 {
				i += j
			}
		case c == '-' && i+1 < len(s) && s[i+1] == '-':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '$' || c >= 128:
			j := i
			for j < len(s) && (s[j] == '_' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9' || s[j] == '$' || s[j] >= 128) {
				j++
			}
			if strings.EqualFold(s[i:j], w) {
				return true
			}
			i = j
			continue
		}
		i++
	}
	return false
}
