package prop

import (
	"math/rand"
	"strings"

	"verifsim/corpus"
	"verifsim/gen"
	"verifsim/scen"
)

// stmts cuts a schema's text into its statements.
func stmts(d, text string) gen.Schema {
	var o gen.Schema
	for _, s := range scen.SplitSQL(text, d == scen.MySQL) {
		o = append(o, gen.Stmt{Head: s})
	}
	return o
}

// leftOut are schemas of the repository's tests, and changes between them, that
// are recorded findings or beyond what the server models do.
func leftOut(d, test, from, to string) bool {
	has := strings.Contains
	switch {
	case has(strings.ToLower(to), "citext"):
		return true
	case has(from, "BINARY NOT NULL") && !has(to, "BINARY NOT NULL"): // what is left out isn't compared
		return true
	case has(to, "name varchar(20) PRIMARY KEY"): // a nullable column leaves the key later
		return true
	case has(from, "CREATE TRIGGER") && !has(to, "CREATE TRIGGER"): // triggers aren't dropped
		return true
	case has(to, "REFERENCES a (my_text)") && !has(from, "REFERENCES a (my_text)") && from != "": // recorded
		return true
	case d == scen.PG && has(from, "AS IDENTITY") && has(to, "AS IDENTITY"): // the options of a sequence aren't changed
		return true
	case d == scen.MSSQL && has(from, "FILLFACTOR") && !has(to, "FILLFACTOR"): // recorded
		return true
	}
	return false
}

// notExported: a table of the repository's tests declares a column UNIQUE or has options of a sequence.
func notExported(hs []gen.Schema) bool {
	for _, h := range hs {
		for _, s := range h {
			t := strings.ToLower(s.SQL())
			if strings.HasPrefix(t, "create table") && (strings.Contains(t, " unique") || strings.Contains(t, "increment by")) {
				return true
			}
		}
	}
	return false
}

// fromTests makes a history of schemas that one of the repository's integration
// tests goes through, in any order.
func fromTests(r *rand.Rand, d string, n int) []gen.Schema {
	ts := corpus.Tests(scen.Tools[d].Name)
	for try := 0; try < 50; try++ {
		t := ts[r.Intn(len(ts))]
		var h []gen.Schema
		last := ""
		if n == 2 && r.Intn(4) == 0 {
			h = append(h, nil)
		}
		for k := 0; k < 40 && len(h) < n; k++ {
			x := t.Schemas[r.Intn(len(t.Schemas))]
			if x == last && len(t.Schemas) > 1 || leftOut(d, t.Name, last, x) {
				continue
			}
			h, last = append(h, stmts(d, x)), x
		}
		if len(h) == n {
			return h
		}
	}
	return nil
}

// makeHistory makes a history with the generator, out of the repository's tests,
// or both side by side.
func makeHistory(g *gen.G, n, edits int) []gen.Schema {
	h := g.History(n, edits)
	if g.R.Intn(100) >= 12 {
		return h
	}
	c := fromTests(g.R, g.D, n)
	if c == nil {
		return h
	}
	if g.R.Intn(2) == 0 || clash(c, h) {
		return c
	}
	for i := range c {
		c[i] = append(c[i], h[i]...)
	}
	return c
}

// clash: both define something of the same name.
func clash(a, b []gen.Schema) bool {
	names := func(hs []gen.Schema) map[string]bool {
		o := map[string]bool{}
		for _, h := range hs {
			for _, s := range h {
				for _, w := range strings.FieldsFunc(strings.ToLower(s.SQL()), func(c rune) bool {
					return !(c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '_' || c > 127)
				}) {
					o[w] = true
				}
			}
		}
		return o
	}
	x, y := names(a), map[string]bool{}
	for _, h := range b {
		for _, s := range h {
			f := strings.FieldsFunc(strings.ToLower(s.Head), func(c rune) bool {
				return !(c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '_' || c > 127)
			})
			for i := 0; i+1 < len(f); i++ {
				if f[i] == "table" || f[i] == "view" || f[i] == "index" || f[i] == "trigger" {
					y[f[i+1]] = true
					if i+2 < len(f) {
						y[f[i+2]] = true
					}
				}
			}
		}
	}
	for w := range y {
		if x[w] && w != "public" && w != "dbo" && w != "on" && w != "as" {
			return true
		}
	}
	return false
}
