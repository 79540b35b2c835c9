// Package minisql evaluates the SELECTs the adapters send against the
// simulated servers' catalog relations.
package minisql

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"

	"verifsim/sqlx"
)

type Val = interface{} // nil, bool, int64, string, []Val

type Rel struct {
	Cols []string
	Rows [][]Val
}

type Env struct {
	D      sqlx.Dialect
	Table  func(name []string) (*Rel, bool) // catalog relation lookup
	Func   func(name string, args []Val) (Val, error)
	Args   []Val
	Perm   func(n int) []int // permutation of unordered result rows; nil = natural
	NoCase bool              // case-insensitive string comparison (MySQL, MSSQL catalogs)
}

type qerr struct{ m string }

func (q *qerr) Error() string { return q.m }
func fail(f string, a ...interface{}) {
	panic(&qerr{fmt.Sprintf(f, a...)})
}

var cacheMu sync.Mutex
var cache = map[string]*sqlx.Select{}

// ParseSelect parses (and caches) a SELECT statement.
func ParseSelect(sql string, d sqlx.Dialect) (*sqlx.Select, error) {
	key := string(rune('0'+int(d))) + sql
	cacheMu.Lock()
	s := cache[key]
	cacheMu.Unlock()
	if s != nil {
		return s, nil
	}
	err := sqlx.Parse(sql, d, func(p *sqlx.P) { s = p.Select() })
	if err != nil {
		return nil, err
	}
	cacheMu.Lock()
	if len(cache) > 2000 {
		cache = map[string]*sqlx.Select{}
	}
	cache[key] = s
	cacheMu.Unlock()
	return s, nil
}

func Query(sql string, env *Env) (cols []string, rows [][]Val, err error) {
	s, err := ParseSelect(sql, env.D)
	if err != nil {
		return nil, nil, err
	}
	return Run(s, env)
}

func Run(s *sqlx.Select, env *Env) (cols []string, rows [][]Val, err error) {
	defer func() {
		if r := recover(); r != nil {
			if q, ok := r.(*qerr); ok {
				err = q
				return
			}
			panic(r)
		}
	}()
	r := env.sel(s, nil)
	return r.Cols, r.Rows, nil
}

type src struct {
	alias string // lower-case
	full  string
	cols  map[string]int
	names []string
	off   int
}
type scope struct {
	srcs  []src
	row   []Val
	outer *scope
}

func (sc *scope) find(q []string, name string) (int, bool, *scope) {
	ln := strings.ToLower(name)
	for s := sc; s != nil; s = s.outer {
		hit, n := -1, 0
		for i := range s.srcs {
			if len(q) > 0 {
				ql := strings.ToLower(q[len(q)-1])
				if s.srcs[i].alias != ql && s.srcs[i].full != strings.ToLower(strings.Join(q, ".")) {
					continue
				}
			}
			if j, ok := s.srcs[i].cols[ln]; ok {
				hit = s.srcs[i].off + j
				n++
			}
		}
		if n > 1 {
			fail("column reference %q is ambiguous", name)
		}
		if n == 1 {
			return hit, true, s
		}
	}
	return 0, false, nil
}

func (env *Env) load(f *sqlx.From, outer *scope) ([]src, [][]Val) {
	if f.Group != nil {
		sc, rows := env.from(f.Group, nil, outer)
		return sc, rows
	}
	var r *Rel
	full := ""
	alias := strings.ToLower(f.Alias)
	if f.Sub != nil {
		r = env.sel(f.Sub, outer)
	} else {
		var ok bool
		r, ok = env.Table(f.Name)
		full = strings.ToLower(strings.Join(f.Name, "."))
		if !ok {
			fail("relation %q does not exist", full)
		}
		if alias == "" {
			alias = strings.ToLower(f.Name[len(f.Name)-1])
		} else {
			full = alias
		}
	}
	m := map[string]int{}
	for i, c := range r.Cols {
		m[strings.ToLower(c)] = i
	}
	return []src{{alias: alias, full: full, cols: m, names: r.Cols}}, r.Rows
}

func conj(e *sqlx.E, out []*sqlx.E) []*sqlx.E {
	if e == nil {
		return out
	}
	if e.Op == "bin" && e.V == "and" {
		return conj(e.A[1], conj(e.A[0], out))
	}
	if e.Op == "paren" && e.A[0].Op == "bin" && e.A[0].V == "and" {
		return conj(e.A[0], out)
	}
	return append(out, e)
}

// resolvable reports whether all columns of e resolve in sc.
func (env *Env) resolvable(e *sqlx.E, sc *scope) bool {
	ok := true
	e.Walk(func(x *sqlx.E) {
		if x.Sel != nil {
			ok = false
		}
		if x.Op == "col" {
			func() {
				defer func() {
					if recover() != nil {
						ok = false
					}
				}()
				if _, f, _ := sc.find(x.Qual, x.V); !f {
					ok = false
				}
			}()
		}
	})
	return ok
}

func (env *Env) from(fs []sqlx.From, where *sqlx.E, outer *scope) ([]src, [][]Val) {
	var srcs []src
	var rows [][]Val
	width := 0
	pending := conj(where, nil)
	hasOuterRight := false
	for _, f := range fs {
		if f.Join == "right" || f.Join == "full" {
			hasOuterRight = true
		}
	}
	applied := map[*sqlx.E]bool{}
	for i := range fs {
		f := &fs[i]
		ns, nrows := env.load(f, outer)
		nw := 0
		for j := range ns {
			ns[j].off += width
			nw += len(ns[j].names)
		}
		if len(nrows) > 0 && nw != len(nrows[0]) {
			nw = len(nrows[0])
		}
		srcs = append(srcs[:len(srcs):len(srcs)], ns...)
		if i == 0 {
			rows = nrows
		} else {
			sc := &scope{srcs: srcs, outer: outer}
			leftSc := &scope{srcs: srcs[:len(srcs)-len(ns)], outer: outer}
			rightSc := &scope{srcs: ns, outer: nil}
			ons := conj(f.On, nil)
			// hash join on the first equality between the sides
			var lk, rk *sqlx.E
			for _, c := range ons {
				if c.Op == "bin" && c.V == "=" {
					a, b := c.A[0], c.A[1]
					if a.Op == "col" && b.Op == "col" {
						if env.resolvable(a, leftSc) && env.resolvable(b, rightSc) && !env.resolvable(b, leftSc) {
							lk, rk = a, b
							break
						}
						if env.resolvable(b, leftSc) && env.resolvable(a, rightSc) && !env.resolvable(a, leftSc) {
							lk, rk = b, a
							break
						}
					}
				}
			}
			var idx map[string][]int
			if lk != nil {
				idx = map[string][]int{}
				pad := make([]Val, width)
				for ri, r := range nrows {
					sc.row = append(pad[:width:width], r...)
					v := env.eval(rk, sc)
					if v != nil {
						k := env.key(v)
						idx[k] = append(idx[k], ri)
					}
				}
			}
			all := make([]int, len(nrows))
			for j := range all {
				all[j] = j
			}
			var out [][]Val
			rmatched := make([]bool, len(nrows))
			for _, l := range rows {
				cand := all
				if lk != nil {
					leftSc.row = l
					v := env.eval(lk, leftSc)
					if v == nil {
						cand = nil
					} else {
						cand = idx[env.key(v)]
					}
				}
				m := false
				for _, ri := range cand {
					row := make([]Val, 0, width+nw)
					row = append(append(row, l...), nrows[ri]...)
					sc.row = row
					ok := true
					for _, c := range ons {
						if !truth(env.eval(c, sc)) {
							ok = false
							break
						}
					}
					if ok {
						m = true
						rmatched[ri] = true
						out = append(out, row)
					}
				}
				if !m && (f.Join == "left" || f.Join == "full") {
					row := make([]Val, width+nw)
					copy(row, l)
					out = append(out, row)
				}
			}
			if f.Join == "right" || f.Join == "full" {
				for ri, r := range nrows {
					if !rmatched[ri] {
						row := make([]Val, width, width+nw)
						out = append(out, append(row, r...))
					}
				}
			}
			rows = out
		}
		width += nw
		if !hasOuterRight {
			// push WHERE conjuncts down as soon as they resolve (only if no later
			// outer join could reintroduce rows: left joins keep left rows, safe)
			sc := &scope{srcs: srcs, outer: outer}
			for _, c := range pending {
				if applied[c] || !env.resolvable(c, sc) {
					continue
				}
				// a conjunct on the nullable side of a left join must wait for
				// the join itself, which has happened by now.
				applied[c] = true
				var keep [][]Val
				for _, r := range rows {
					sc.row = r
					if truth(env.eval(c, sc)) {
						keep = append(keep, r)
					}
				}
				rows = keep
			}
		}
	}
	if where != nil {
		sc := &scope{srcs: srcs, outer: outer}
		var keep [][]Val
		for _, r := range rows {
			sc.row = r
			ok := true
			for _, c := range pending {
				if applied[c] {
					continue
				}
				if !truth(env.eval(c, sc)) {
					ok = false
					break
				}
			}
			if ok {
				keep = append(keep, r)
			}
		}
		// validate column references even when there are no rows
		if len(rows) == 0 {
			for _, c := range pending {
				env.check(c, sc)
			}
		}
		rows = keep
	}
	return srcs, rows
}

func (env *Env) check(e *sqlx.E, sc *scope) {
	e.Walk(func(x *sqlx.E) {
		if x.Op == "col" && x.Sel == nil {
			if _, ok, _ := sc.find(x.Qual, x.V); !ok {
				fail("column %q does not exist", strings.Join(append(append([]string{}, x.Qual...), x.V), "."))
			}
		}
	})
}

func (env *Env) sel(s *sqlx.Select, outer *scope) *Rel {
	var srcs []src
	rows := [][]Val{{}}
	if s.From != nil {
		srcs, rows = env.from(s.From, s.Where, outer)
	}
	sc := &scope{srcs: srcs, outer: outer}
	out := &Rel{}
	type col struct {
		x   *sqlx.E
		idx int
	}
	var cols []col
	agg := len(s.GroupBy) > 0
	for _, it := range s.Items {
		if it.X.Op == "star" {
			for _, sr := range srcs {
				if len(it.X.Qual) > 0 && sr.alias != strings.ToLower(it.X.Qual[len(it.X.Qual)-1]) {
					continue
				}
				for j, n := range sr.names {
					cols = append(cols, col{idx: sr.off + j})
					out.Cols = append(out.Cols, n)
				}
			}
			continue
		}
		name := it.Alias
		if name == "" {
			if it.X.Op == "col" {
				name = it.X.V
			} else if it.X.Op == "call" {
				name = it.X.V
				if isAgg(it.X.V) {
					agg = true
				}
			} else {
				name = "?column?"
			}
		} else if it.X.Op == "call" && isAgg(it.X.V) {
			agg = true
		}
		cols = append(cols, col{x: it.X})
		out.Cols = append(out.Cols, name)
		env.check(it.X, sc)
	}
	for _, o := range s.Order {
		if o.X.Op == "col" && len(o.X.Qual) == 0 {
			continue
		}
		if o.X.Op != "num" {
			env.check(o.X, sc)
		}
	}
	type orow struct {
		v    []Val
		keys []Val
	}
	var ors []orow
	emit := func(group [][]Val) {
		v := make([]Val, len(cols))
		if len(group) > 0 {
			sc.row = group[0]
		}
		for i, c := range cols {
			if c.x == nil {
				v[i] = sc.row[c.idx]
			} else if agg {
				v[i] = env.evalAgg(c.x, sc, group)
			} else {
				v[i] = env.eval(c.x, sc)
			}
		}
		var keys []Val
		for _, o := range s.Order {
			if o.X.Op == "num" {
				n, _ := strconv.Atoi(o.X.V)
				if n < 1 || n > len(v) {
					fail("ORDER BY position %d is not in select list", n)
				}
				keys = append(keys, v[n-1])
				continue
			}
			if o.X.Op == "col" && len(o.X.Qual) == 0 {
				k, found := Val(nil), false
				for i, cn := range out.Cols {
					if strings.EqualFold(cn, o.X.V) {
						k, found = v[i], true
					}
				}
				if found {
					keys = append(keys, k)
					continue
				}
			}
			keys = append(keys, env.eval(o.X, sc))
		}
		ors = append(ors, orow{v, keys})
	}
	if agg {
		groups := map[string][][]Val{}
		var order []string
		for _, r := range rows {
			sc.row = r
			k := ""
			for _, g := range s.GroupBy {
				k += env.key(env.eval(g, sc)) + "\x00"
			}
			if _, ok := groups[k]; !ok {
				order = append(order, k)
			}
			groups[k] = append(groups[k], r)
		}
		if len(s.GroupBy) == 0 && len(order) == 0 {
			emit(nil)
		}
		for _, k := range order {
			sc.row = groups[k][0]
			if s.Having != nil && !truth(env.evalAgg(s.Having, sc, groups[k])) {
				continue
			}
			emit(groups[k])
		}
	} else {
		for _, r := range rows {
			emit([][]Val{r})
		}
	}
	if s.Distinct {
		seen := map[string]bool{}
		var k2 []orow
		for _, r := range ors {
			k := ""
			for _, v := range r.v {
				k += env.key(v) + "\x00"
			}
			if !seen[k] {
				seen[k] = true
				k2 = append(k2, r)
			}
		}
		ors = k2
	}
	if outer == nil && env.Perm != nil && len(ors) > 1 {
		p := env.Perm(len(ors))
		if p != nil {
			n := make([]orow, len(ors))
			for i, j := range p {
				n[i] = ors[j]
			}
			ors = n
		}
	}
	if len(s.Order) > 0 {
		sort.SliceStable(ors, func(i, j int) bool {
			for k, o := range s.Order {
				c := cmp(ors[i].keys[k], ors[j].keys[k])
				if c != 0 {
					return (c < 0) != o.Desc
				}
			}
			return false
		})
	}
	lim := -1
	if s.Limit != nil {
		lim = int(toInt(env.eval(s.Limit, sc)))
	}
	if s.Top != nil {
		lim = int(toInt(env.eval(s.Top, sc)))
	}
	if lim >= 0 && len(ors) > lim {
		ors = ors[:lim]
	}
	for _, r := range ors {
		out.Rows = append(out.Rows, r.v)
	}
	if s.Union != nil {
		u := env.sel(s.Union, outer)
		out.Rows = append(out.Rows, u.Rows...)
	}
	return out
}

func isAgg(n string) bool {
	switch n {
	case "count", "min", "max", "string_agg", "array_agg", "group_concat":
		return true
	}
	return false
}

func (env *Env) evalAgg(e *sqlx.E, sc *scope, group [][]Val) Val {
	if e.Op == "call" && isAgg(e.V) {
		switch e.V {
		case "count":
			if len(e.A) == 0 || e.A[0].Op == "star" {
				return int64(len(group))
			}
			n := int64(0)
			for _, r := range group {
				sc.row = r
				if env.eval(e.A[0], sc) != nil {
					n++
				}
			}
			return n
		case "string_agg", "group_concat", "array_agg":
			var parts []string
			for _, r := range group {
				sc.row = r
				if v := env.eval(e.A[0], sc); v != nil {
					parts = append(parts, Str(v))
				}
			}
			sep := ","
			if len(e.A) > 1 {
				sep = Str(env.eval(e.A[1], sc))
			}
			return strings.Join(parts, sep)
		default:
			var best Val
			for _, r := range group {
				sc.row = r
				v := env.eval(e.A[0], sc)
				if v == nil {
					continue
				}
				if best == nil || (e.V == "min") == (cmp(v, best) < 0) {
					best = v
				}
			}
			return best
		}
	}
	if e.Op == "bin" || e.Op == "paren" || e.Op == "un" {
		c := *e
		c.A = nil
		for _, a := range e.A {
			v := env.evalAgg(a, sc, group)
			c.A = append(c.A, &sqlx.E{Op: "const", A: nil, V: "", Sel: nil, Qual: nil, Neg: false})
			consts.Store(c.A[len(c.A)-1], v)
		}
		r := env.eval(&c, sc)
		for _, a := range c.A {
			consts.Delete(a)
		}
		return r
	}
	if len(group) == 0 {
		return nil
	}
	sc.row = group[0]
	return env.eval(e, sc)
}

var consts sync.Map

func (env *Env) key(v Val) string {
	if v == nil {
		return "\x01null"
	}
	s := Str(v)
	if env.NoCase {
		s = strings.ToLower(s)
	}
	return s
}

func truth(v Val) bool {
	switch x := v.(type) {
	case bool:
		return x
	case int64:
		return x != 0
	}
	return false
}

func Str(v Val) string {
	switch x := v.(type) {
	case nil:
		return ""
	case string:
		return x
	case bool:
		if x {
			return "t"
		}
		return "f"
	case int64:
		return strconv.FormatInt(x, 10)
	case []Val:
		var p []string
		for _, e := range x {
			p = append(p, Str(e))
		}
		return "{" + strings.Join(p, ",") + "}"
	}
	return fmt.Sprint(v)
}

func toInt(v Val) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case bool:
		if x {
			return 1
		}
		return 0
	case string:
		n, _ := strconv.ParseInt(strings.TrimSpace(x), 10, 64)
		return n
	}
	return 0
}

func cmp(a, b Val) int {
	if a == nil || b == nil {
		if a == nil && b == nil {
			return 0
		}
		if a == nil {
			return -1
		}
		return 1
	}
	_, as := a.(string)
	_, bs := b.(string)
	if as && bs {
		return strings.Compare(a.(string), b.(string))
	}
	if as != bs {
		// string vs number/bool
		if s, ok := a.(string); ok {
			if bb, ok := b.(bool); ok {
				return cmp(s == "t" || s == "true" || s == "1", bb)
			}
			n, err := strconv.ParseInt(strings.TrimSpace(s), 10, 64)
			if err != nil {
				return strings.Compare(s, Str(b))
			}
			return cmp(n, b)
		}
		return -cmp(b, a)
	}
	x, y := toInt(a), toInt(b)
	switch {
	case x < y:
		return -1
	case x > y:
		return 1
	}
	return 0
}

func (env *Env) eq(a, b Val) bool {
	if env.NoCase {
		if s, ok := a.(string); ok {
			if t, ok := b.(string); ok {
				return strings.EqualFold(s, t)
			}
		}
	}
	return cmp(a, b) == 0
}

// Like implements SQL LIKE.
func Like(s, pat string) bool {
	if pat == "" {
		return s == ""
	}
	switch pat[0] {
	case '%':
		for i := 0; i <= len(s); i++ {
			if Like(s[i:], pat[1:]) {
				return true
			}
		}
		return false
	case '_':
		return s != "" && Like(s[1:], pat[1:])
	case '\\':
		if len(pat) > 1 {
			return s != "" && s[0] == pat[1] && Like(s[1:], pat[2:])
		}
	}
	return s != "" && s[0] == pat[0] && Like(s[1:], pat[1:])
}

func (env *Env) eval(e *sqlx.E, sc *scope) Val {
	switch e.Op {
	case "const":
		v, _ := consts.Load(e)
		return v
	case "col":
		i, ok, s := sc.find(e.Qual, e.V)
		if !ok {
			fail("column %q does not exist", strings.Join(append(append([]string{}, e.Qual...), e.V), "."))
		}
		return s.row[i]
	case "num":
		n, err := strconv.ParseInt(e.V, 10, 64)
		if err != nil {
			return e.V
		}
		return n
	case "str":
		return e.V
	case "null":
		return nil
	case "bool":
		return e.V == "true"
	case "param":
		if e.V == "" {
			// positional '?': numbering is resolved lazily in textual order
			fail("unnumbered parameter")
		}
		n, _ := strconv.Atoi(strings.TrimLeft(e.V, "@p"))
		if n < 1 || n > len(env.Args) {
			fail("there is no parameter %s", e.V)
		}
		return env.Args[n-1]
	case "paren":
		return env.eval(e.A[0], sc)
	case "collate":
		return env.eval(e.A[0], sc)
	case "cast":
		v := env.eval(e.A[0], sc)
		if v == nil {
			return nil
		}
		switch {
		case strings.HasPrefix(e.V, "int") || e.V == "bigint" || e.V == "oid" || e.V == "smallint":
			return toInt(v)
		case strings.HasPrefix(e.V, "text"), strings.HasPrefix(e.V, "varchar"), strings.HasPrefix(e.V, "char"), strings.HasPrefix(e.V, "nvarchar"), e.V == "name":
			if b, ok := v.(bool); ok {
				return strconv.FormatBool(b)
			}
			return Str(v)
		case strings.HasPrefix(e.V, "bool"), e.V == "bit":
			if s, ok := v.(string); ok {
				return s == "t" || s == "true" || s == "1"
			}
			return truth(v)
		}
		return v
	case "isnull":
		return (env.eval(e.A[0], sc) == nil) != e.Neg
	case "istrue":
		v := env.eval(e.A[0], sc)
		return (v != nil && truth(v) == (e.V == "true")) != e.Neg
	case "un":
		v := env.eval(e.A[0], sc)
		if v == nil {
			return nil
		}
		if e.V == "not" {
			return !truth(v)
		}
		if e.V == "-" {
			return -toInt(v)
		}
		return v
	case "array", "list":
		var r []Val
		for _, a := range e.A {
			r = append(r, env.eval(a, sc))
		}
		return r
	case "any":
		l := env.eval(e.A[0], sc)
		arr, _ := env.eval(e.A[1], sc).([]Val)
		for _, v := range arr {
			if l != nil && v != nil && env.binop(e.V, l, v) == true {
				return true
			}
		}
		return false
	case "index":
		arr, _ := env.eval(e.A[0], sc).([]Val)
		i := int(toInt(env.eval(e.A[1], sc)))
		if i < 1 || i > len(arr) {
			return nil
		}
		return arr[i-1]
	case "in":
		l := env.eval(e.A[0], sc)
		if l == nil {
			return nil
		}
		hit := false
		if e.Sel != nil {
			for _, r := range env.sel(e.Sel, sc).Rows {
				if r[0] != nil && env.eq(l, r[0]) {
					hit = true
				}
			}
		} else {
			for _, a := range e.A[1:] {
				v := env.eval(a, sc)
				if v != nil && env.eq(l, v) {
					hit = true
				}
			}
		}
		return hit != e.Neg
	case "between":
		l, a, b := env.eval(e.A[0], sc), env.eval(e.A[1], sc), env.eval(e.A[2], sc)
		if l == nil || a == nil || b == nil {
			return nil
		}
		return (cmp(l, a) >= 0 && cmp(l, b) <= 0) != e.Neg
	case "exists":
		return len(env.sel(e.Sel, sc).Rows) > 0
	case "subq":
		r := env.sel(e.Sel, sc)
		if len(r.Rows) == 0 {
			return nil
		}
		if len(r.Rows) > 1 {
			fail("more than one row returned by a subquery used as an expression")
		}
		return r.Rows[0][0]
	case "case":
		a := e.A
		var els *sqlx.E
		if e.Neg {
			els = a[len(a)-1]
			a = a[:len(a)-1]
		}
		if e.V == "simple" {
			x := env.eval(a[0], sc)
			a = a[1:]
			for i := 0; i+1 < len(a); i += 2 {
				v := env.eval(a[i], sc)
				if x != nil && v != nil && env.eq(x, v) {
					return env.eval(a[i+1], sc)
				}
			}
		} else {
			for i := 0; i+1 < len(a); i += 2 {
				if truth(env.eval(a[i], sc)) {
					return env.eval(a[i+1], sc)
				}
			}
		}
		if els != nil {
			return env.eval(els, sc)
		}
		return nil
	case "bin":
		if e.V == "and" || e.V == "or" {
			l := env.eval(e.A[0], sc)
			if e.V == "and" && l != nil && !truth(l) {
				return false
			}
			if e.V == "or" && l != nil && truth(l) {
				return true
			}
			r := env.eval(e.A[1], sc)
			if e.V == "and" {
				if r != nil && !truth(r) {
					return false
				}
				if l == nil || r == nil {
					return nil
				}
				return true
			}
			if r != nil && truth(r) {
				return true
			}
			if l == nil || r == nil {
				return nil
			}
			return false
		}
		l := env.eval(e.A[0], sc)
		r := env.eval(e.A[1], sc)
		if l == nil || r == nil {
			if (e.V == "+" || e.V == "||") && env.D == sqlx.MSSQL {
				return nil
			}
			return nil
		}
		v := env.binop(e.V, l, r)
		if b, ok := v.(bool); ok && e.Neg {
			return !b
		}
		return v
	case "call":
		return env.call(e, sc)
	}
	fail("unsupported expression %s", e.Op)
	return nil
}

func (env *Env) binop(op string, l, r Val) Val {
	switch op {
	case "=":
		return env.eq(l, r)
	case "<>":
		return !env.eq(l, r)
	case "<":
		return cmp(l, r) < 0
	case ">":
		return cmp(l, r) > 0
	case "<=":
		return cmp(l, r) <= 0
	case ">=":
		return cmp(l, r) >= 0
	case "like":
		a, b := Str(l), Str(r)
		if env.NoCase || env.D == sqlx.SQLite {
			a, b = strings.ToLower(a), strings.ToLower(b)
		}
		return Like(a, b)
	case "||":
		return Str(l) + Str(r)
	case "+":
		_, ls := l.(string)
		_, rs := r.(string)
		if ls && rs {
			return Str(l) + Str(r)
		}
		return toInt(l) + toInt(r)
	case "-":
		return toInt(l) - toInt(r)
	case "*":
		return toInt(l) * toInt(r)
	}
	fail("unsupported operator %s", op)
	return nil
}

func (env *Env) call(e *sqlx.E, sc *scope) Val {
	var args []Val
	for _, a := range e.A {
		args = append(args, env.eval(a, sc))
	}
	switch e.V {
	case "lower":
		if args[0] == nil {
			return nil
		}
		return strings.ToLower(Str(args[0]))
	case "upper":
		if args[0] == nil {
			return nil
		}
		return strings.ToUpper(Str(args[0]))
	case "coalesce", "isnull", "ifnull":
		for _, a := range args {
			if a != nil {
				return a
			}
		}
		return nil
	case "nullif":
		if args[0] != nil && args[1] != nil && env.eq(args[0], args[1]) {
			return nil
		}
		return args[0]
	case "concat":
		s := ""
		for _, a := range args {
			s += Str(a)
		}
		return s
	case "length", "len", "char_length":
		if args[0] == nil {
			return nil
		}
		return int64(len(Str(args[0])))
	case "trim", "btrim", "ltrim", "rtrim":
		return strings.TrimSpace(Str(args[0]))
	case "replace":
		return strings.ReplaceAll(Str(args[0]), Str(args[1]), Str(args[2]))
	case "quotename":
		return "[" + strings.ReplaceAll(Str(args[0]), "]", "]]") + "]"
	case "quote_ident":
		return Str(args[0])
	}
	v, err := env.Func(e.V, args)
	if err != nil {
		fail("%s", err.Error())
	}
	return v
}
