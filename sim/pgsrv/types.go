package pgsrv

import (
	"fmt"
	"regexp"
	"strings"

	. "verifsim/sqlx"
)

// typ parses a column type and returns its canonical (format_type) spelling.
func (x *ex) typ() (name string, serial bool) {
	p := x.p
	t := p.Cur()
	if t.K != 'i' {
		p.Fail()
	}
	w := p.Ident()
	if w == "pg_catalog" || w == "public" {
		if p.Op(".") {
			w = p.Ident()
		}
	}
	mod := func() string {
		if !p.IsOp(0, "(") {
			return ""
		}
		st := p.I
		p.SkipParens()
		s := strings.ReplaceAll(p.Text(st, p.I), " ", "")
		if !regexp.MustCompile(`^\([0-9]+(,[0-9]+)?\)$`).MatchString(s) {
			bad("22023", "invalid type modifier")
		}
		return s
	}
	base := ""
	switch w {
	case "int", "int4", "integer":
		base = "integer"
	case "int8", "bigint":
		base = "bigint"
	case "int2", "smallint":
		base = "smallint"
	case "serial", "serial4":
		base, serial = "integer", true
	case "bigserial", "serial8":
		base, serial = "bigint", true
	case "smallserial", "serial2":
		base, serial = "smallint", true
	case "bool", "boolean":
		base = "boolean"
	case "text", "json", "jsonb", "uuid", "bytea", "inet", "cidr", "macaddr", "xml", "money", "date", "point", "polygon", "tsvector":
		base = w
	case "real", "float4":
		base = "real"
	case "float8":
		base = "double precision"
	case "float":
		base = "double precision"
		if m := mod(); m != "" {
			var n int
			fmt.Sscanf(m, "(%d)", &n)
			if n <= 24 {
				base = "real"
			}
		}
	case "double":
		p.MustKw("precision")
		base = "double precision"
	case "numeric", "decimal":
		base = "numeric"
		if m := mod(); m != "" {
			if !strings.Contains(m, ",") {
				m = strings.TrimSuffix(m, ")") + ",0)"
			}
			base += m
		}
	case "varchar":
		base = "character varying" + mod()
	case "character", "char":
		if p.Kw("varying") {
			base = "character varying" + mod()
		} else {
			m := mod()
			if m == "" {
				m = "(1)"
			}
			base = "character" + m
		}
	case "bpchar":
		base = "bpchar"
	case "bit":
		if p.Kw("varying") {
			base = "bit varying" + mod()
		} else {
			m := mod()
			if m == "" {
				m = "(1)"
			}
			base = "bit" + m
		}
	case "varbit":
		base = "bit varying" + mod()
	case "time", "timestamp":
		m := mod()
		z := " without time zone"
		if p.Kw("with time zone") {
			z = " with time zone"
		} else {
			p.Kw("without time zone")
		}
		base = w + m + z
	case "timestamptz":
		base = "timestamp" + mod() + " with time zone"
	case "timetz":
		base = "time" + mod() + " with time zone"
	case "interval":
		base = "interval" + mod()
	default:
		if x.db.Types[w] != "" {
			base = w
		} else {
			bad("42704", "type \"%s\" does not exist", w)
		}
	}
	for p.IsOp(0, "[") && p.IsOp(1, "]") {
		p.I += 2
		if !strings.HasSuffix(base, "[]") {
			base += "[]"
		}
	}
	if p.IsOp(0, "[") && p.At(1).K == 'n' && p.IsOp(2, "]") {
		p.I += 3
		base += "[]"
	}
	if p.Kw("array") {
		base += "[]"
	}
	return base, serial
}

// strip removes type modifiers: numeric(5,0) -> numeric.
func strip(t string) string {
	if i := strings.IndexByte(t, '('); i >= 0 {
		j := strings.IndexByte(t, ')')
		return t[:i] + t[j+1:]
	}
	return t
}

func (s *Server) dataType(t string, db map[string]string) string {
	if strings.HasSuffix(t, "[]") {
		return "ARRAY"
	}
	b := strip(t)
	if b == "bpchar" {
		return "character"
	}
	if db[b] != "" {
		return "USER-DEFINED"
	}
	return b
}

func charLen(t string) interface{} {
	if strings.HasSuffix(t, "[]") {
		return nil
	}
	if strings.HasPrefix(t, "character") || strings.HasPrefix(t, "bit") {
		var n int64
		if i := strings.IndexByte(t, '('); i >= 0 {
			fmt.Sscanf(t[i:], "(%d)", &n)
			return n
		}
	}
	return nil
}

func isStr(t string) bool {
	b := strip(t)
	return b == "text" || b == "character varying" || b == "character" || b == "bpchar" || b == "citext"
}
func isNum(t string) bool {
	switch strip(t) {
	case "integer", "bigint", "smallint", "numeric", "real", "double precision":
		return true
	}
	return false
}
func isTime(t string) bool {
	b := strip(t)
	return b == "date" || strings.HasPrefix(b, "timestamp")
}

// castable says whether ALTER COLUMN TYPE converts without USING.
func castable(from, to string) bool {
	f, t := strip(from), strip(to)
	switch {
	case f == t:
		return true
	case strings.HasSuffix(f, "[]") || strings.HasSuffix(t, "[]"):
		return isStr(to) && !strings.HasSuffix(t, "[]")
	case isStr(to):
		return true
	case isNum(from) && isNum(to):
		return true
	case isTime(from) && isTime(to):
		return true
	case strings.HasPrefix(f, "timestamp") && strings.HasPrefix(t, "time"):
		return true
	case f == "json" && t == "jsonb" || f == "jsonb" && t == "json":
		return true
	case strings.HasPrefix(f, "time ") && strings.HasPrefix(t, "time "):
		return true
	case strings.HasPrefix(f, "bit") && strings.HasPrefix(t, "bit"):
		return true
	}
	return false
}

func lit(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

var plainID = regexp.MustCompile(`^[a-z_][a-z0-9_$]*$`)

// PostgreSQL quotes identifiers that are reserved words
var pgReserved = map[string]bool{}

func init() {
	for _, w := range strings.Fields("all analyse analyze and any array as asc asymmetric both case cast check collate column constraint create current_date current_time current_timestamp current_user default desc distinct do else end except false fetch for foreign from grant group having in initially intersect into lateral leading limit localtime localtimestamp not null offset on only or order placing primary references returning select session_user some symmetric table then to trailing true union unique user using variadic when where window with left right full inner outer join natural is isnull notnull like ilike similar cross between bigint bit boolean char character coalesce decimal exists float int integer interval nchar none numeric position precision real row smallint substring time timestamp trim values varchar") {
		pgReserved[w] = true
	}
}

func q(id string) string {
	if plainID.MatchString(id) && !pgReserved[id] {
		return id
	}
	return `"` + strings.ReplaceAll(id, `"`, `""`) + `"`
}

// dep renders expressions the way ruleutils does.
type dep struct {
	pretty bool
	prefix func(qual []string, col string) (string, string) // rendered column, its type
}

func (d *dep) typeOf(e *E) string {
	switch e.Op {
	case "col":
		_, t := d.prefix(e.Qual, e.V)
		return t
	case "num":
		if strings.Contains(e.V, ".") {
			return "numeric"
		}
		return "integer"
	case "str":
		return "unknown"
	case "cast":
		return canonCast(e.V)
	case "paren":
		return d.typeOf(e.A[0])
	case "bool", "isnull", "in", "between", "istrue", "exists":
		return "boolean"
	case "un":
		if e.V == "not" {
			return "boolean"
		}
		return d.typeOf(e.A[0])
	case "bin":
		switch e.V {
		case "and", "or", "=", "<>", "<", ">", "<=", ">=", "like":
			return "boolean"
		case "||":
			return "text"
		}
		return d.typeOf(e.A[0])
	case "call":
		switch e.V {
		case "lower", "upper", "concat", "trim", "btrim":
			return "text"
		case "length", "char_length":
			return "integer"
		case "count":
			return "bigint"
		case "now", "current_timestamp":
			return "timestamp with time zone"
		case "current_date":
			return "date"
		case "current_time":
			return "time with time zone"
		case "localtime":
			return "time without time zone"
		case "localtimestamp":
			return "timestamp without time zone"
		case "current_user":
			return "name"
		case "coalesce", "max", "min", "sum", "abs":
			if len(e.A) > 0 {
				return d.typeOf(e.A[0])
			}
		}
		return "text"
	}
	return "unknown"
}

func canonCast(t string) string {
	x := &ex{db: nil}
	p, err := NewP(t, PG)
	if err != nil {
		return t
	}
	x.p = p
	defer func() { recover() }()
	r := t
	func() {
		defer func() { recover() }()
		r, _ = x.typ()
	}()
	return r
}

// as renders e coerced to type t (implicitly).
func (d *dep) as(e *E, t string) string {
	for e.Op == "paren" {
		e = e.A[0]
	}
	switch e.Op {
	case "str":
		b := strip(t)
		if isNum(t) {
			if strings.HasPrefix(e.V, "-") {
				return lit(e.V) + "::" + b
			}
			return e.V
		}
		if b == "boolean" {
			return strings.ToLower(e.V)
		}
		if b == "character" {
			b = "bpchar"
		}
		if t == "unknown" || t == "" || t == "name" {
			b = "text"
		}
		return lit(e.V) + "::" + b
	}
	s := d.render(e, false)
	return s
}

func (d *dep) cast(s, t string, simple bool) string {
	if d.pretty && simple {
		return s + "::" + t
	}
	return "(" + s + ")::" + t
}

func (d *dep) textArg(e *E) string {
	t := d.typeOf(e)
	if t == "unknown" {
		return d.as(e, "text")
	}
	if strip(t) == "character varying" {
		c := e
		for c.Op == "paren" {
			c = c.A[0]
		}
		return d.cast(d.render(e, false), "text", c.Op == "col")
	}
	return d.render(e, true)
}

// render: sub says whether the expression sits inside a non-boolean operator.
func (d *dep) render(e *E, sub bool) string {
	par := func(s string) string {
		if d.pretty && !sub {
			return s
		}
		return "(" + s + ")"
	}
	switch e.Op {
	case "paren":
		return d.render(e.A[0], sub)
	case "num":
		return e.V
	case "str":
		return d.as(e, "text")
	case "null":
		return "NULL"
	case "bool":
		return e.V
	case "col":
		s, _ := d.prefix(e.Qual, e.V)
		return s
	case "un":
		if e.V == "not" {
			return par("NOT " + d.render(e.A[0], false))
		}
		if e.V == "-" {
			a := e.A[0]
			for a.Op == "paren" {
				a = a.A[0]
			}
			if a.Op == "num" {
				// a negative constant
				return "'-" + a.V + "'::" + d.typeOf(a)
			}
		}
		return par(e.V + " " + d.render(e.A[0], true))
	case "cast":
		a := e.A[0]
		for a.Op == "paren" {
			a = a.A[0]
		}
		t := canonCast(e.V)
		if a.Op == "str" {
			return lit(a.V) + "::" + t
		}
		return d.cast(d.render(a, false), t, a.Op == "col" || a.Op == "call")
	case "bin":
		switch e.V {
		case "and", "or":
			var parts []string
			var walk func(y *E)
			walk = func(y *E) {
				for y.Op == "paren" {
					y = y.A[0]
				}
				if y.Op == "bin" && y.V == e.V {
					walk(y.A[0])
					walk(y.A[1])
					return
				}
				r := d.render(y, false)
				if d.pretty && y.Op == "bin" && y.V == "or" {
					r = "(" + r + ")"
				}
				parts = append(parts, r)
			}
			walk(e)
			return par(strings.Join(parts, " "+strings.ToUpper(e.V)+" "))
		case "=", "<>", "<", ">", "<=", ">=", "like", "||":
			lt, rt := d.typeOf(e.A[0]), d.typeOf(e.A[1])
			op := e.V
			if op == "like" {
				op = "~~"
				if e.Neg {
					op = "!~~"
				}
			}
			var l, r string
			if strip(lt) == "character varying" || strip(rt) == "character varying" || op == "~~" || op == "!~~" || op == "||" {
				l, r = d.textArg(e.A[0]), d.textArg(e.A[1])
			} else {
				if lt == "unknown" {
					l = d.as(e.A[0], rt)
				} else {
					l = d.render(e.A[0], true)
				}
				if rt == "unknown" {
					r = d.as(e.A[1], lt)
				} else {
					r = d.render(e.A[1], true)
				}
			}
			return par(l + " " + op + " " + r)
		}
		return par(d.render(e.A[0], true) + " " + e.V + " " + d.render(e.A[1], true))
	case "isnull":
		n := " IS NULL"
		if e.Neg {
			n = " IS NOT NULL"
		}
		return par(d.render(e.A[0], true) + n)
	case "istrue":
		n := " IS "
		if e.Neg {
			n = " IS NOT "
		}
		return par(d.render(e.A[0], true) + n + strings.ToUpper(e.V))
	case "between":
		op1, op2, c := ">=", "<=", "and"
		if e.Neg {
			op1, op2, c = "<", ">", "or"
		}
		return d.render(&E{Op: "bin", V: c, A: []*E{{Op: "bin", V: op1, A: []*E{e.A[0], e.A[1]}}, {Op: "bin", V: op2, A: []*E{e.A[0], e.A[2]}}}}, sub)
	case "in":
		if e.Sel != nil {
			bad("0A000", "subqueries here are outside the simulation")
		}
		t := d.typeOf(e.A[0])
		l := d.render(e.A[0], true)
		vc := strip(t) == "character varying"
		var a []string
		for _, y := range e.A[1:] {
			if vc {
				a = append(a, d.as(y, "character varying"))
			} else {
				a = append(a, d.as(y, t))
			}
		}
		op := " = ANY ("
		if e.Neg {
			op = " <> ALL ("
		}
		if vc {
			l = d.cast(l, "text", true)
			arr := "ARRAY[" + strings.Join(a, ", ") + "]"
			return par(l + op + "(" + arr + ")::text[])")
		}
		return par(l + op + "ARRAY[" + strings.Join(a, ", ") + "])")
	case "any":
		return par(d.render(e.A[0], true) + " " + e.V + " ANY (" + d.render(e.A[1], false) + ")")
	case "array":
		var a []string
		for _, y := range e.A {
			a = append(a, d.as(y, "text"))
		}
		return "ARRAY[" + strings.Join(a, ", ") + "]"
	case "call":
		switch e.V {
		case "current_user", "session_user", "current_timestamp", "current_date", "current_time", "localtime", "localtimestamp":
			return strings.ToUpper(e.V)
		}
		var a []string
		for _, y := range e.A {
			switch e.V {
			case "lower", "upper", "length", "char_length", "btrim", "trim":
				a = append(a, d.textArg(y))
			default:
				if y.Op == "star" {
					a = append(a, "*")
				} else {
					a = append(a, d.as(y, "text"))
				}
			}
		}
		n := e.V
		if n == "coalesce" || n == "greatest" || n == "least" || n == "nullif" {
			n = strings.ToUpper(n)
		}
		if n == "trim" {
			n = "btrim"
		}
		return n + "(" + strings.Join(a, ", ") + ")"
	case "case":
		bad("0A000", "CASE here is outside the simulation")
	}
	bad("0A000", "expression %s is outside the simulation", e.Op)
	return ""
}
