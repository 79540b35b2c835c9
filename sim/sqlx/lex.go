// Package sqlx is the simulated servers' own SQL front end. It shares no code
// with the repository's sqlparser, so the two cannot agree by construction.
package sqlx

import (
	"fmt"
	"strings"
)

type Dialect int

const (
	MySQL Dialect = iota
	PG
	MSSQL
	SQLite
)

type Tok struct {
	K      byte // 'i' ident, 'n' number, 's' string, 'o' operator/punct, 'p' param, 0 eof
	S      string
	Quoted bool
	Pos    int
	End    int
}

func isIdStart(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}
func isId(c byte) bool { return isIdStart(c) || c >= '0' && c <= '9' || c == '$' }

// Lex splits SQL text into tokens. MySQL versioned comments (/*! */) are code.
// clip cuts a name off where PostgreSQL does.
func clip(s string, d Dialect) string {
	if d == PG && len(s) > 63 {
		return s[:63]
	}
	return s
}

func Lex(sql string, d Dialect) ([]Tok, error) {
	var out []Tok
	i := 0
	inVer := false
	for i < len(sql) {
		c := sql[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '-' && i+1 < len(sql) && sql[i+1] == '-':
			for i < len(sql) && sql[i] != '\n' {
				i++
			}
		case d == MySQL && c == '#':
			for i < len(sql) && sql[i] != '\n' {
				i++
			}
		case c == '/' && i+1 < len(sql) && sql[i+1] == '*':
			if d == MySQL && i+2 < len(sql) && sql[i+2] == '!' {
				i += 3
				for i < len(sql) && sql[i] >= '0' && sql[i] <= '9' {
					i++
				}
				inVer = true
				continue
			}
			j := strings.Index(sql[i+2:], "*/")
			if j < 0 {
				return nil, fmt.Errorf("unterminated comment")
			}
			i += j + 4
		case inVer && c == '*' && i+1 < len(sql) && sql[i+1] == '/':
			inVer = false
			i += 2
		case c == '\'' || (c == '"' && d == MySQL) || ((c == 'N' || c == 'n' || c == 'E' || c == 'e' || c == 'B' || c == 'b' || c == 'x' || c == 'X') && i+1 < len(sql) && sql[i+1] == '\''):
			st := i
			pfx := byte(0)
			if c != '\'' && c != '"' {
				pfx = c | 0x20
				i++
			}
			q := sql[i]
			i++
			var b strings.Builder
			closed := false
			for i < len(sql) {
				if sql[i] == '\\' && (d == MySQL || pfx == 'e') && i+1 < len(sql) {
					switch n := sql[i+1]; n {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					case 'r':
						b.WriteByte('\r')
					case 'b':
						b.WriteByte('\b')
					case '0':
						b.WriteByte(0)
					case 'Z':
						b.WriteByte(26)
					default:
						b.WriteByte(n)
					}
					i += 2
					continue
				}
				if sql[i] == q {
					if i+1 < len(sql) && sql[i+1] == q {
						b.WriteByte(q)
						i += 2
						continue
					}
					closed = true
					i++
					break
				}
				b.WriteByte(sql[i])
				i++
			}
			if !closed {
				return nil, fmt.Errorf("unterminated string")
			}
			k := byte('s')
			if pfx == 'b' {
				k = 'b'
			} else if pfx == 'x' {
				k = 'x'
			}
			out = append(out, Tok{K: k, S: b.String(), Pos: st, End: i})
		case c == '`' && (d == MySQL || d == SQLite), c == '"', c == '[' && (d == MSSQL || d == SQLite):
			st := i
			end := c
			if c == '[' {
				end = ']'
			}
			i++
			var b strings.Builder
			closed := false
			for i < len(sql) {
				if sql[i] == end {
					if i+1 < len(sql) && sql[i+1] == end {
						b.WriteByte(end)
						i += 2
						continue
					}
					closed = true
					i++
					break
				}
				b.WriteByte(sql[i])
				i++
			}
			if !closed {
				return nil, fmt.Errorf("unterminated quoted identifier")
			}
			if b.Len() == 0 {
				return nil, fmt.Errorf("zero-length delimited identifier")
			}
			out = append(out, Tok{K: 'i', S: clip(b.String(), d), Quoted: true, Pos: st, End: i})
		case c >= '0' && c <= '9' || (c == '.' && i+1 < len(sql) && sql[i+1] >= '0' && sql[i+1] <= '9'):
			st := i
			if d == MSSQL && c == '0' && i+2 < len(sql) && (sql[i+1] == 'x' || sql[i+1] == 'X') {
				for i += 2; i < len(sql) && strings.IndexByte("0123456789abcdefABCDEF", sql[i]) >= 0; i++ {
				}
				out = append(out, Tok{K: 'n', S: sql[st:i], Pos: st, End: i})
				continue
			}
			for i < len(sql) && (sql[i] >= '0' && sql[i] <= '9' || sql[i] == '.') {
				i++
			}
			if i < len(sql) && (sql[i] == 'e' || sql[i] == 'E') && i+1 < len(sql) && (sql[i+1] >= '0' && sql[i+1] <= '9' || sql[i+1] == '-' || sql[i+1] == '+') {
				i += 2
				for i < len(sql) && sql[i] >= '0' && sql[i] <= '9' {
					i++
				}
			}
			if i < len(sql) && isIdStart(sql[i]) {
				return nil, fmt.Errorf("syntax error near %q", sql[st:])
			}
			out = append(out, Tok{K: 'n', S: sql[st:i], Pos: st, End: i})
		case c == '$' && d == PG && i+1 < len(sql) && sql[i+1] >= '0' && sql[i+1] <= '9':
			st := i
			i++
			for i < len(sql) && sql[i] >= '0' && sql[i] <= '9' {
				i++
			}
			out = append(out, Tok{K: 'p', S: sql[st+1 : i], Pos: st, End: i})
		case c == '?':
			out = append(out, Tok{K: 'p', S: "", Pos: i, End: i + 1})
			i++
		case c == '@' && d == MSSQL && i+1 < len(sql) && isIdStart(sql[i+1]):
			st := i
			i++
			for i < len(sql) && isId(sql[i]) {
				i++
			}
			out = append(out, Tok{K: 'p', S: sql[st:i], Pos: st, End: i})
		case isIdStart(c):
			st := i
			for i < len(sql) && isId(sql[i]) {
				i++
			}
			out = append(out, Tok{K: 'i', S: clip(sql[st:i], d), Pos: st, End: i})
		default:
			op := string(c)
			for _, o := range []string{"::", "<>", "!=", "<=", ">=", "||", "&&", "!~~", "~~"} {
				if strings.HasPrefix(sql[i:], o) && len(o) > len(op) {
					op = o
				}
			}
			if !strings.Contains("()[],.;=<>!+-*/%:|&~^@", op[:1]) {
				return nil, fmt.Errorf("syntax error near %q", sql[i:])
			}
			out = append(out, Tok{K: 'o', S: op, Pos: i, End: i + len(op)})
			i += len(op)
		}
	}
	if inVer {
		return nil, fmt.Errorf("unterminated versioned comment")
	}
	out = append(out, Tok{Pos: len(sql), End: len(sql)})
	return out, nil
}

// P is a token cursor.
type P struct {
	T   []Tok
	I   int
	D   Dialect
	Src string
}

type SyntaxError struct{ Msg string }

func (e *SyntaxError) Error() string { return e.Msg }

func NewP(sql string, d Dialect) (*P, error) {
	t, err := Lex(sql, d)
	if err != nil {
		return nil, &SyntaxError{err.Error()}
	}
	return &P{T: t, D: d, Src: sql}, nil
}

// Parse runs f with panics of *SyntaxError converted to errors; with the
// requirement that all input (bar one optional ;) is consumed.
func Parse(sql string, d Dialect, f func(p *P)) (err error) {
	p, err := NewP(sql, d)
	if err != nil {
		return err
	}
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(*SyntaxError); ok {
				err = se
				return
			}
			panic(r)
		}
	}()
	f(p)
	for p.Op(";") {
	}
	if p.Cur().K != 0 {
		p.Fail()
	}
	return nil
}

func (p *P) Cur() Tok { return p.T[p.I] }
func (p *P) At(n int) Tok {
	if p.I+n < len(p.T) {
		return p.T[p.I+n]
	}
	return p.T[len(p.T)-1]
}
func (p *P) EOF() bool { return p.Cur().K == 0 }
func (p *P) Fail() {
	near := p.Src[p.Cur().Pos:]
	if len(near) > 60 {
		near = near[:60]
	}
	panic(&SyntaxError{fmt.Sprintf("syntax error at or near %q", near)})
}
func (p *P) Failf(f string, a ...interface{}) { panic(&SyntaxError{fmt.Sprintf(f, a...)}) }

func (p *P) IsKw(n int, kw string) bool {
	t := p.At(n)
	return t.K == 'i' && !t.Quoted && strings.EqualFold(t.S, kw)
}

// Kw accepts a sequence of space separated keywords.
func (p *P) Kw(kws string) bool {
	parts := strings.Fields(kws)
	for i, k := range parts {
		if !p.IsKw(i, k) {
			return false
		}
	}
	p.I += len(parts)
	return true
}
func (p *P) PeekKw(kws string) bool {
	i := p.I
	ok := p.Kw(kws)
	p.I = i
	return ok
}
func (p *P) MustKw(kws string) {
	if !p.Kw(kws) {
		p.Fail()
	}
}
func (p *P) IsOp(n int, op string) bool { t := p.At(n); return t.K == 'o' && t.S == op }
func (p *P) Op(op string) bool {
	if p.IsOp(0, op) {
		p.I++
		return true
	}
	return false
}
func (p *P) MustOp(op string) {
	if !p.Op(op) {
		p.Fail()
	}
}

// Ident accepts an identifier, folding it as the dialect does.
func (p *P) Ident() string {
	t := p.Cur()
	if t.K != 'i' {
		p.Fail()
	}
	p.I++
	return p.Fold(t)
}
func (p *P) Fold(t Tok) string {
	if p.D == PG && !t.Quoted {
		return strings.ToLower(t.S)
	}
	return t.S
}

// QIdent accepts a possibly qualified name.
func (p *P) QIdent() []string {
	r := []string{p.Ident()}
	for p.Op(".") {
		r = append(r, p.Ident())
	}
	return r
}

// Int accepts a possibly negative integer literal.
func (p *P) Num() string {
	neg := ""
	if p.Op("-") {
		neg = "-"
	} else {
		p.Op("+")
	}
	t := p.Cur()
	if t.K != 'n' {
		p.Fail()
	}
	p.I++
	return neg + t.S
}

// List parses "( item, item )".
func (p *P) List(f func()) {
	p.MustOp("(")
	for {
		f()
		if !p.Op(",") {
			break
		}
	}
	p.MustOp(")")
}

// Commas parses "item, item" without parentheses.
func (p *P) Commas(f func()) {
	for {
		f()
		if !p.Op(",") {
			return
		}
	}
}
func (p *P) IdentList() []string {
	var r []string
	p.List(func() { r = append(r, p.Ident()) })
	return r
}

// Text returns source text between two token indexes.
func (p *P) Text(from, to int) string {
	if from >= to {
		return ""
	}
	return p.Src[p.T[from].Pos:p.T[to-1].End]
}

// SkipParens consumes a balanced parenthesised group.
func (p *P) SkipParens() {
	p.MustOp("(")
	d := 1
	for d > 0 {
		t := p.Cur()
		if t.K == 0 {
			p.Fail()
		}
		if t.K == 'o' && t.S == "(" {
			d++
		}
		if t.K == 'o' && t.S == ")" {
			d--
		}
		p.I++
	}
}
