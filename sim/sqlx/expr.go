package sqlx

import "strings"

type E struct {
	Op   string // col num str bit null bool star param call bin un case cast list isnull in between any exists subq paren array default
	V    string
	Qual []string
	A    []*E
	Sel  *Select
	Neg  bool
}

type From struct {
	Name  []string
	Alias string
	Join  string // "" first, inner, left, right, full, cross
	On    *E
	Sub   *Select
	Group []From // parenthesised join group
}

type Item struct {
	X     *E
	Alias string
	HasAs bool
}

type Order struct {
	X    *E
	Desc bool
}

type Select struct {
	Distinct bool
	Top      *E
	Items    []Item
	From     []From
	Where    *E
	GroupBy  []*E
	Having   *E
	Order    []Order
	Limit    *E
	Offset   *E
	Union    *Select
	UnionAll bool
}

var reserved = map[string]bool{}
var reservedBy = map[Dialect]map[string]bool{}

func init() {
	for _, w := range strings.Fields("select from where table create primary foreign references order group default check unique constraint and or not null column grant values on join inner left union case when then else end in as distinct having into set update delete insert drop alter with to like") {
		reserved[w] = true
	}
	mk := func(s string) map[string]bool {
		m := map[string]bool{}
		for _, w := range strings.Fields(s) {
			m[w] = true
		}
		return m
	}
	reservedBy[MySQL] = mk("key keys index limit desc asc range rank read write int integer bigint varchar char double float option condition interval lock match show ssl schema schemas database character by add all analyze before between both call cascade change character collate convert cross database div each exists explain false for force fulltext if ignore infile is iterate kill leading leave lines load long loop mod natural optimize outer procedure purge regexp release rename repeat replace require restrict return revoke right sql starting straight_join terminated trailing trigger true undo unlock unsigned usage use using when while xor zerofill")
	reservedBy[PG] = mk("user limit desc asc all analyze any array both cast collate end except false fetch for initially intersect leading localtime offset only placing returning session_user some symmetric trailing true using variadic window do current_user current_date current_time current_timestamp")
	delete(reserved, "values")
	delete(reserved, "set")
	reservedBy[MSSQL] = mk("key index user desc asc plan public open close view proc rule option file schema percent identity all any by exec exists function go if is kill merge of off order pivot print procedure read return save trigger truncate use while")
	reservedBy[SQLite] = mk("index")
}

func (p *P) isReserved(t Tok) bool {
	if t.K != 'i' || t.Quoted {
		return false
	}
	l := strings.ToLower(t.S)
	return reserved[l] || reservedBy[p.D][l]
}

// Name is Ident but refuses unquoted reserved words.
func (p *P) Name() string {
	if p.isReserved(p.Cur()) {
		p.Fail()
	}
	return p.Ident()
}
func (p *P) QName() []string {
	r := []string{p.Name()}
	for p.Op(".") {
		r = append(r, p.Ident())
	}
	return r
}

var binPrec = map[string]int{"or": 1, "xor": 1, "and": 2, "=": 4, "<>": 4, "!=": 4, "<": 4, ">": 4, "<=": 4, ">=": 4, "like": 4, "~~": 4, "!~~": 4,
	"||": 5, "&": 5, "|": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (p *P) Expr() *E { return p.expr(0) }

func (p *P) expr(min int) *E {
	var l *E
	if p.Kw("not") {
		l = &E{Op: "un", V: "not", A: []*E{p.expr(3)}}
	} else {
		l = p.unary()
	}
	for {
		t := p.Cur()
		op := ""
		if t.K == 'o' {
			op = t.S
		} else if t.K == 'i' && !t.Quoted {
			op = strings.ToLower(t.S)
		}
		switch {
		case op == "is" && min <= 4:
			p.I++
			neg := p.Kw("not")
			switch {
			case p.Kw("null"):
				l = &E{Op: "isnull", A: []*E{l}, Neg: neg}
			case p.Kw("true"):
				l = &E{Op: "istrue", V: "true", A: []*E{l}, Neg: neg}
			case p.Kw("false"):
				l = &E{Op: "istrue", V: "false", A: []*E{l}, Neg: neg}
			default:
				p.Fail()
			}
			continue
		case (op == "in" || op == "between" || (op == "not" && (p.IsKw(1, "in") || p.IsKw(1, "between") || p.IsKw(1, "like") || p.IsKw(1, "ilike")))) && min <= 4:
			neg := p.Kw("not")
			if p.Kw("in") {
				if p.IsOp(0, "(") && p.IsKw(1, "select") {
					p.MustOp("(")
					s := p.Select()
					p.MustOp(")")
					l = &E{Op: "in", A: []*E{l}, Sel: s, Neg: neg}
				} else {
					e := &E{Op: "in", A: []*E{l}, Neg: neg}
					p.List(func() { e.A = append(e.A, p.Expr()) })
					l = e
				}
			} else if p.Kw("between") {
				a := p.expr(5)
				p.MustKw("and")
				b := p.expr(5)
				l = &E{Op: "between", A: []*E{l, a, b}, Neg: neg}
			} else {
				p.I++
				l = &E{Op: "bin", V: "like", A: []*E{l, p.expr(5)}, Neg: neg}
			}
			continue
		case op == "::":
			p.I++
			l = &E{Op: "cast", V: p.typeName(), A: []*E{l}}
			continue
		case op == "ilike":
			op = "like"
		}
		pr, ok := binPrec[op]
		if !ok || pr < min || (op == "&" && p.D == PG) {
			return l
		}
		p.I++
		if (p.IsKw(0, "any") || p.IsKw(0, "all") || p.IsKw(0, "some")) && p.IsOp(1, "(") {
			p.I++
			p.MustOp("(")
			if p.IsKw(0, "select") {
				s := p.Select()
				p.MustOp(")")
				l = &E{Op: "in", A: []*E{l}, Sel: s}
				continue
			}
			arr := p.Expr()
			p.MustOp(")")
			l = &E{Op: "any", V: op, A: []*E{l, arr}}
			continue
		}
		r := p.expr(pr + 1)
		if op == "!=" {
			op = "<>"
		}
		if op == "~~" {
			op = "like"
		}
		l = &E{Op: "bin", V: op, A: []*E{l, r}}
	}
}

// typeName parses a data type name in a cast.
func (p *P) typeName() string {
	t := p.Cur()
	if t.K != 'i' {
		p.Fail()
	}
	s := strings.ToLower(p.Ident())
	for p.Op(".") {
		s = strings.ToLower(p.Ident())
	}
	switch s {
	case "double":
		if p.Kw("precision") {
			s = "double precision"
		}
	case "character", "char", "bit":
		if p.Kw("varying") {
			if s == "bit" {
				s = "bit varying"
			} else {
				s = "character varying"
			}
		}
	}
	if p.IsOp(0, "(") {
		st := p.I
		p.SkipParens()
		s += strings.ReplaceAll(p.Text(st, p.I), " ", "")
	}
	if s == "timestamp" || s == "time" || strings.HasPrefix(s, "timestamp(") || strings.HasPrefix(s, "time(") {
		if p.Kw("with time zone") {
			s += " with time zone"
		} else if p.Kw("without time zone") {
			s += " without time zone"
		}
	}
	for p.IsOp(0, "[") && p.IsOp(1, "]") {
		p.I += 2
		s += "[]"
	}
	return s
}

func (p *P) unary() *E {
	t := p.Cur()
	if t.K == 'o' && (t.S == "-" || t.S == "+" || t.S == "~") {
		p.I++
		return &E{Op: "un", V: t.S, A: []*E{p.unary()}}
	}
	e := p.primary()
	for p.IsOp(0, "::") {
		p.I++
		e = &E{Op: "cast", V: p.typeName(), A: []*E{e}}
	}
	for p.D == PG && p.IsOp(0, "[") {
		p.I++
		i := p.Expr()
		p.MustOp("]")
		e = &E{Op: "index", A: []*E{e, i}}
	}
	if p.Kw("collate") {
		c := p.Ident()
		e = &E{Op: "collate", V: c, A: []*E{e}}
	}
	return e
}

func (p *P) primary() *E {
	t := p.Cur()
	switch t.K {
	case 'n':
		p.I++
		if p.D == MSSQL && len(t.S) > 1 && (t.S[1] == 'x' || t.S[1] == 'X') {
			return &E{Op: "hex", V: t.S[2:]}
		}
		return &E{Op: "num", V: t.S}
	case 's':
		p.I++
		if p.D == MSSQL && (p.Src[t.Pos] == 'N' || p.Src[t.Pos] == 'n') {
			return &E{Op: "str", V: t.S, Qual: []string{"N"}}
		}
		return &E{Op: "str", V: t.S}
	case 'b':
		p.I++
		return &E{Op: "bit", V: t.S}
	case 'x':
		p.I++
		return &E{Op: "hex", V: t.S}
	case 'p':
		p.I++
		return &E{Op: "param", V: t.S}
	case 'o':
		if t.S == "(" {
			if p.IsKw(1, "select") {
				p.I++
				s := p.Select()
				p.MustOp(")")
				return &E{Op: "subq", Sel: s}
			}
			p.I++
			e := p.Expr()
			if p.IsOp(0, ",") {
				l := &E{Op: "list", A: []*E{e}}
				for p.Op(",") {
					l.A = append(l.A, p.Expr())
				}
				p.MustOp(")")
				return l
			}
			p.MustOp(")")
			return &E{Op: "paren", A: []*E{e}}
		}
		if t.S == "*" {
			p.I++
			return &E{Op: "star"}
		}
	case 'i':
		if !t.Quoted {
			l := strings.ToLower(t.S)
			switch l {
			case "null":
				p.I++
				return &E{Op: "null"}
			case "true", "false":
				if p.D != MSSQL {
					p.I++
					return &E{Op: "bool", V: l}
				}
			case "case":
				p.I++
				e := &E{Op: "case"}
				if !p.IsKw(0, "when") {
					e.V = "simple"
					e.A = append(e.A, p.Expr())
				}
				for p.Kw("when") {
					e.A = append(e.A, p.Expr())
					p.MustKw("then")
					e.A = append(e.A, p.Expr())
				}
				if p.Kw("else") {
					e.Neg = true // has else
					e.A = append(e.A, p.Expr())
				}
				p.MustKw("end")
				return e
			case "cast", "convert":
				if p.IsOp(1, "(") && l == "cast" {
					p.I += 2
					a := p.Expr()
					p.MustKw("as")
					ty := p.typeName()
					p.MustOp(")")
					return &E{Op: "cast", V: ty, A: []*E{a}}
				}
				if p.IsOp(1, "(") && l == "convert" && p.D == MSSQL {
					p.I += 2
					ty := p.typeName()
					p.MustOp(",")
					a := p.Expr()
					p.MustOp(")")
					return &E{Op: "cast", V: ty, A: []*E{a}}
				}
			case "exists":
				if p.IsOp(1, "(") {
					p.I += 2
					s := p.Select()
					p.MustOp(")")
					return &E{Op: "exists", Sel: s}
				}
			case "array":
				if p.IsOp(1, "[") {
					p.I += 2
					e := &E{Op: "array"}
					for !p.IsOp(0, "]") {
						e.A = append(e.A, p.Expr())
						if !p.Op(",") {
							break
						}
					}
					p.MustOp("]")
					return e
				}
			case "current_timestamp", "current_date", "current_time", "current_user", "session_user", "localtime", "localtimestamp":
				p.I++
				e := &E{Op: "call", V: l}
				if p.IsOp(0, "(") {
					e.Neg = true // had parens
					p.MustOp("(")
					for !p.IsOp(0, ")") {
						e.A = append(e.A, p.Expr())
						if !p.Op(",") {
							break
						}
					}
					p.MustOp(")")
				}
				return e
			}
			if p.isReserved(t) && !p.IsOp(1, "(") {
				p.Fail()
			}
		}
		st := p.I
		q := p.qcol()
		if p.IsOp(0, "(") && !(p.T[st].Quoted) {
			p.I++
			name := strings.ToLower(q[len(q)-1])
			e := &E{Op: "call", V: name, Neg: true}
			p.Kw("distinct")
			if name == "schema_name" || true {
				for !p.IsOp(0, ")") {
					e.A = append(e.A, p.Expr())
					if !p.Op(",") {
						break
					}
				}
			}
			p.MustOp(")")
			return e
		}
		if q[len(q)-1] == "*" {
			return &E{Op: "star", Qual: q[:len(q)-1]}
		}
		return &E{Op: "col", V: q[len(q)-1], Qual: q[:len(q)-1]}
	}
	p.Fail()
	return nil
}

func (p *P) qcol() []string {
	r := []string{p.Ident()}
	for p.IsOp(0, ".") {
		p.I++
		if p.Op("*") {
			return append(r, "*")
		}
		r = append(r, p.Ident())
	}
	return r
}

func (p *P) Select() *Select {
	if p.Op("(") {
		s := p.Select()
		p.MustOp(")")
		return s
	}
	p.MustKw("select")
	s := &Select{}
	if p.Kw("distinct") {
		s.Distinct = true
	} else {
		p.Kw("all")
	}
	if p.D == MSSQL && p.Kw("top") {
		if p.Op("(") {
			s.Top = p.Expr()
			p.MustOp(")")
		} else {
			s.Top = p.primary()
		}
	}
	for {
		var it Item
		if p.D == MSSQL && p.Cur().K == 'i' && p.IsOp(1, "=") {
			it.Alias = p.Ident()
			it.HasAs = true
			p.I++
			it.X = p.Expr()
		} else {
			it.X = p.Expr()
			if p.Kw("as") {
				it.HasAs = true
				if p.Cur().K == 's' {
					it.Alias = p.Cur().S
					p.I++
				} else {
					it.Alias = p.Ident()
				}
			} else if t := p.Cur(); t.K == 'i' && (t.Quoted || !p.clauseKw()) {
				it.Alias = p.Ident()
				it.HasAs = true
			}
		}
		s.Items = append(s.Items, it)
		if !p.Op(",") {
			break
		}
	}
	if p.Kw("from") {
		s.From = p.fromList()
	}
	if p.Kw("where") {
		s.Where = p.Expr()
	}
	if p.Kw("group by") {
		for {
			s.GroupBy = append(s.GroupBy, p.Expr())
			if !p.Op(",") {
				break
			}
		}
	}
	if p.Kw("having") {
		s.Having = p.Expr()
	}
	if p.Kw("union") {
		s.UnionAll = p.Kw("all")
		s.Union = p.Select()
	}
	if p.Kw("order by") {
		for {
			o := Order{X: p.Expr()}
			if p.Kw("desc") {
				o.Desc = true
			} else {
				p.Kw("asc")
			}
			if p.Kw("nulls first") || p.Kw("nulls last") {
			}
			s.Order = append(s.Order, o)
			if !p.Op(",") {
				break
			}
		}
	}
	if p.Kw("limit") {
		s.Limit = p.Expr()
	}
	if p.Kw("offset") {
		s.Offset = p.Expr()
		p.Kw("rows")
	}
	return s
}

func (p *P) clauseKw() bool {
	for _, k := range []string{"from", "where", "group", "having", "order", "limit", "union", "on", "join", "inner", "left", "right", "full", "cross", "with", "offset", "using", "natural", "go"} {
		if p.IsKw(0, k) {
			return true
		}
	}
	return false
}

func (p *P) fromList() []From {
	var fs []From
	fs = append(fs, p.fromOne(""))
	for {
		j := ""
		switch {
		case p.Op(","):
			j = "cross"
		case p.Kw("inner join"), p.Kw("join"):
			j = "inner"
		case p.Kw("left outer join"), p.Kw("left join"):
			j = "left"
		case p.Kw("right outer join"), p.Kw("right join"):
			j = "right"
		case p.Kw("full outer join"), p.Kw("full join"):
			j = "full"
		case p.Kw("cross join"):
			j = "cross"
		default:
			return fs
		}
		f := p.fromOne(j)
		if j != "cross" {
			p.MustKw("on")
			f.On = p.Expr()
		}
		fs = append(fs, f)
	}
}

func (p *P) fromOne(join string) From {
	f := From{Join: join}
	if p.IsOp(0, "(") {
		if p.IsKw(1, "select") {
			p.MustOp("(")
			f.Sub = p.Select()
			p.MustOp(")")
		} else {
			p.MustOp("(")
			f.Group = p.fromList()
			p.MustOp(")")
			return f
		}
	} else {
		p.Kw("only")
		f.Name = p.QName()
	}
	if p.Kw("as") {
		f.Alias = p.Ident()
	} else if t := p.Cur(); t.K == 'i' && (t.Quoted || !p.clauseKw()) {
		f.Alias = p.Ident()
	}
	if p.D == MSSQL && p.Kw("with") {
		p.SkipParens()
	} else if p.D == MSSQL && p.IsOp(0, "(") && p.IsKw(1, "nolock") {
		p.SkipParens()
	}
	return f
}

// Walk visits every expression below e.
func (e *E) Walk(f func(*E)) {
	if e == nil {
		return
	}
	f(e)
	for _, a := range e.A {
		a.Walk(f)
	}
}
