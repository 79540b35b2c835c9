package mssrv

import (
	"strings"

	"verifsim/dbm"
	. "verifsim/sqlx"
)

func base(t string) string {
	if i := strings.IndexByte(t, '('); i >= 0 {
		return t[:i]
	}
	return t
}

// typ parses a column's type into its canonical form.
func (x *ex) typ() string {
	p := x.p
	if p.Cur().K != 'i' {
		p.Fail()
	}
	n := strings.ToLower(p.Ident())
	if n == "sys" && p.Op(".") {
		n = strings.ToLower(p.Ident())
	}
	switch n {
	case "integer":
		n = "int"
	case "dec":
		n = "decimal"
	case "character", "char":
		n = "char"
		if p.Kw("varying") {
			n = "varchar"
		}
	case "national":
		n = "nchar"
		if !p.Kw("character") {
			p.MustKw("char")
		}
		if p.Kw("varying") {
			n = "nvarchar"
		}
	case "double":
		p.MustKw("precision")
		n = "float"
	case "rowversion":
		n = "timestamp"
	}
	var args []string
	if p.IsOp(0, "(") {
		p.List(func() {
			if p.Kw("max") {
				args = append(args, "max")
				return
			}
			args = append(args, p.Num())
		})
	}
	arg := func(max int, d string) string {
		if len(args) > max {
			bad(2716, "Column, parameter, or variable: Cannot specify a column width on data type %s.", n)
		}
		for len(args) < 1 && d != "" {
			args = append(args, strings.Split(d, ",")...)
		}
		if d != "" {
			ds := strings.Split(d, ",")
			for len(args) < len(ds) {
				args = append(args, "0")
			}
		}
		if len(args) == 0 {
			return n
		}
		return n + "(" + strings.Join(args, ",") + ")"
	}
	switch n {
	case "int", "bigint", "smallint", "tinyint", "bit", "money", "smallmoney", "real", "date", "datetime", "smalldatetime", "text", "ntext", "image", "uniqueidentifier", "xml", "timestamp", "sql_variant", "sysname", "geography", "geometry", "hierarchyid":
		return arg(0, "")
	case "decimal", "numeric":
		return arg(2, "18,0")
	case "float":
		arg(1, "53")
		if len(args[0]) == 1 || args[0] <= "24" && len(args[0]) == 2 {
			return "real"
		}
		return "float"
	case "char", "varchar", "nchar", "nvarchar", "binary", "varbinary":
		return arg(1, "1")
	case "time", "datetime2", "datetimeoffset":
		return arg(1, "7")
	}
	bad(2715, "Column, parameter, or variable: Cannot find data type %s.", n)
	return ""
}

// precision is what sys.columns says of the precision and scale of a type with
// these arguments.
func precision(n string, p, s int64) (int64, int64) {
	switch n {
	case "decimal", "numeric":
		return p, s
	case "time", "datetime2", "datetimeoffset":
		b := map[string]int64{"time": 8, "datetime2": 19, "datetimeoffset": 26}[n]
		if p > 0 {
			return b + 1 + p, p
		}
		return b, 0
	case "tinyint":
		return 3, 0
	case "smallint":
		return 5, 0
	case "int", "smallmoney", "date":
		return 10, map[string]int64{"smallmoney": 4}[n]
	case "bigint", "money":
		return 19, map[string]int64{"money": 4}[n]
	case "float":
		return 53, 0
	case "real":
		return 24, 0
	case "bit":
		return 1, 0
	case "datetime":
		return 23, 3
	case "smalldatetime":
		return 16, 0
	}
	return 0, 0
}

// maxLength is what sys.columns.max_length says.
func maxLength(t string) int64 {
	n, a := base(t), ""
	if i := strings.IndexByte(t, '('); i >= 0 {
		a = strings.TrimSuffix(t[i+1:], ")")
	}
	num := func() int64 {
		if a == "max" {
			return -1
		}
		var v int64
		for _, c := range strings.Split(a, ",")[0] {
			v = v*10 + int64(c-'0')
		}
		return v
	}
	switch n {
	case "tinyint", "bit":
		return 1
	case "smallint":
		return 2
	case "int", "real", "smallmoney", "smalldatetime":
		return 4
	case "bigint", "money", "float", "datetime", "timestamp":
		return 8
	case "date":
		return 3
	case "text", "ntext", "image", "uniqueidentifier":
		return 16
	case "char", "varchar", "binary", "varbinary":
		return num()
	case "nchar", "nvarchar":
		if v := num(); v > 0 {
			return 2 * v
		}
		return -1
	case "decimal", "numeric":
		switch v := num(); {
		case v <= 9:
			return 5
		case v <= 19:
			return 9
		case v <= 28:
			return 13
		}
		return 17
	case "time":
		return []int64{3, 3, 3, 4, 4, 5, 5, 5}[num()]
	case "datetime2":
		return []int64{6, 6, 6, 7, 7, 8, 8, 8}[num()]
	case "datetimeoffset":
		return []int64{8, 8, 8, 9, 9, 10, 10, 10}[num()]
	case "sysname":
		return 256
	}
	return -1
}

func unparen(e *E) *E {
	for e.Op == "paren" {
		e = e.A[0]
	}
	return e
}

func isCond(e *E) bool {
	e = unparen(e)
	switch e.Op {
	case "isnull", "in", "between", "exists", "any":
		return true
	case "un":
		return e.V == "not" && isCond(e.A[0])
	case "bin":
		switch e.V {
		case "and", "or":
			return isCond(e.A[0]) && isCond(e.A[1])
		case "=", "<>", "<", ">", "<=", ">=", "like":
			return true
		}
	}
	return false
}

func lvl(e *E) int {
	switch e.Op {
	case "bin":
		switch e.V {
		case "or":
			return 1
		case "and":
			return 2
		case "+", "-", "&", "|":
			return 6
		case "*", "/", "%":
			return 7
		}
		return 4
	case "un":
		if e.V == "not" {
			return 3
		}
		return 9
	case "in":
		if e.Neg {
			return 2
		}
		return 1
	case "between":
		if e.Neg {
			return 3
		}
		return 2
	case "isnull":
		return 4
	}
	return 9
}

// show writes an expression the way SQL Server stores it.
func show(e *E, t *dbm.Table) string {
	e = unparen(e)
	sub := func(a *E, min int) string {
		a = unparen(a)
		s := show(a, t)
		if lvl(a) < min {
			return "(" + s + ")"
		}
		return s
	}
	switch e.Op {
	case "num":
		return "(" + e.V + ")"
	case "str":
		s := "'" + strings.ReplaceAll(e.V, "'", "''") + "'"
		if len(e.Qual) > 0 {
			s = "N" + s
		}
		return s
	case "hex":
		return "0x" + e.V
	case "null":
		return "NULL"
	case "col":
		if t != nil {
			if c := t.Col(e.V, true); c != nil {
				return "[" + c.Name + "]"
			}
		}
		return "[" + e.V + "]"
	case "un":
		if e.V == "not" {
			return "NOT " + sub(e.A[0], 3)
		}
		if a := unparen(e.A[0]); a.Op == "num" && e.V == "-" {
			return "(-" + a.V + ")"
		} else if a.Op == "num" {
			return "(" + a.V + ")"
		}
		return e.V + sub(e.A[0], 9)
	case "bin":
		l := lvl(e)
		switch e.V {
		case "and", "or":
			return sub(e.A[0], l) + " " + strings.ToUpper(e.V) + " " + sub(e.A[1], l)
		case "like":
			n := ""
			if e.Neg {
				n = "not "
			}
			return sub(e.A[0], 5) + " " + n + "like " + sub(e.A[1], 5)
		}
		return sub(e.A[0], l) + e.V + sub(e.A[1], l+1)
	case "isnull":
		n := " IS NULL"
		if e.Neg {
			n = " IS NOT NULL"
		}
		return sub(e.A[0], 5) + n
	case "between":
		a := sub(e.A[0], 5)
		s := a + ">=" + sub(e.A[1], 5) + " AND " + a + "<=" + sub(e.A[2], 5)
		if e.Neg {
			return "NOT (" + s + ")"
		}
		return s
	case "in":
		if e.Sel != nil {
			bad(1046, "Subqueries are not allowed in this context. Only scalar expressions are allowed.")
		}
		var o []string
		op, j := "=", " OR "
		if e.Neg {
			op, j = "<>", " AND "
		}
		for i := len(e.A) - 1; i > 0; i-- {
			o = append(o, sub(e.A[0], 5)+op+sub(e.A[i], 5))
		}
		return strings.Join(o, j)
	case "call":
		n := e.V
		if n == "current_timestamp" {
			n = "getdate"
		}
		var o []string
		for _, a := range e.A {
			o = append(o, show(a, t))
		}
		return n + "(" + strings.Join(o, ",") + ")"
	case "cast":
		return "CONVERT([" + base(e.V) + "]" + strings.TrimPrefix(e.V, base(e.V)) + "," + show(e.A[0], t) + ")"
	}
	bad(102, "expression of kind %s is outside the simulation", e.Op)
	return ""
}
