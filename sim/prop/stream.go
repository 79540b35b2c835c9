package prop

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"

	"github.com/k0kubun/sqldef/sqlparser"
	"verifsim/scen"
)

// a simulated stream: what each read delivers is decided by the scenario.
type stream struct {
	b      []byte
	chunks []int // sizes; 0 is a read of nothing
	i      int
	fail   int // offset at which reading fails, -1: never
	pos    int
	last   bool // the last bytes come together with the end
	reads  int
}

var errStream = errors.New("simulated I/O error")

func (s *stream) Read(p []byte) (int, error) {
	s.reads++
	n := len(p)
	if len(s.chunks) > 0 {
		n = s.chunks[s.i%len(s.chunks)]
		s.i++
	}
	if n > len(p) {
		n = len(p)
	}
	end := len(s.b)
	if s.fail >= 0 && s.fail < end {
		end = s.fail
	}
	if n > end-s.pos {
		n = end - s.pos
	}
	copy(p, s.b[s.pos:s.pos+n])
	s.pos += n
	var err error
	if s.pos == end && (n == 0 && s.reads > 0 || s.last) {
		err = io.EOF
		if s.fail >= 0 && s.fail < len(s.b) {
			err = errStream
		}
	}
	return n, err
}

var streamStmts = []string{
	"select a, b from t where a = 1 and b in (1, 2, 3)",
	"select * from t1 join t2 on t1.id = t2.id order by t1.x desc limit 5",
	"insert into t(a, b) values (1, 'two; not the end'), (3, 'it''s')",
	"update t set a = a + 1 where b = \"x;y\"",
	"delete from t where a is null",
	"select 'long " + strings.Repeat("x", 300) + "' from dual",
	"set autocommit = 1",
	"select /* a comment; with a semicolon */ 1 from t",
	"create table a (id bigint not null auto_increment, name varchar(20) default 'x', primary key (id))",
	"select 1.5e10, 0x1F, -7, 'ünï' from t",
	"select * from t where a = :v1 and b = @@x",
	"select ? from t where a = ? and b = ?",
	"select a from t where b in ::list and c = :v.x",
	"select /*! a, */ b from t",
	"select a from t where x = 'it\\'s' and y = \"a\\\\\" and z = 'tab\\t;\\n'",
	"select `a;b`, `c``d` from `t;`",
	"select a -- a comment; with a semicolon\n from t",
	"select a # another; one\n from t",
	"select a->'$.x', b->>'$.y' from t where a <=> b and c << 2 >= d >> 1 or not e != 1",
	"select x'4142', X'', b'0101', 0xFF, .5, 1., 1e-3, 2E+4 from t",
	"select case a when 1 then 'x;' else 'y' end from t group by a having count(*) > 1 order by 1 limit 2, 3",
	"select a from t union all (select b from u order by b limit 1)",
	"select distinct a.b, c.* from a left join (select 1 from dual) as c on a.x = c.y where exists (select 1 from d)",
	"create unique index ix on t (a, b)",
	"create view v as select a from t where b = ';'",
	"alter table t add index ix (a)",
	"drop table if exists t",
	"show tables",
	"use app",
	"begin",
	"commit",
	"insert into t values ('" + strings.Repeat("a''b\\'", 40) + "')",
	"select \"" + strings.Repeat("\"\"", 60) + "\" from t",
	"select /* " + strings.Repeat("* / ", 80) + "**/ 1 from t",
}

// what is no statement, and ends where it seems to
var streamErrors = []string{
	"selec x from",
	"select 1 from from t",
	"select ) from t",
	"select a from t where",
	"select /*! ) 1, ? from */ a from t",
	"select (((((a from t",
	"insert into",
	"create table x (a int, b no such type here)",
	"create index",
	"select 1 from t limit 1 2 3 ?",
	"select 12ab from t",
	"select x'4' from t",
	"select b'2' from t",
	"select : from t",
	"?",
}

func init() {
	reg(&Prop{ID: "C18", Dialects: []string{scen.MySQL}, Level: "fault_enumeration",
		Gen: func(r *rand.Rand, d string) *Scenario {
			var o []string
			for i := 1 + r.Intn(6); i > 0; i-- {
				if r.Intn(3) == 0 {
					for _, s := range history(r, d, 1, 1)[0] {
						o = append(o, s.SQL())
					}
				} else {
					o = append(o, streamStmts[r.Intn(len(streamStmts))])
				}
			}
			for r.Intn(4) == 0 {
				i := r.Intn(len(o) + 1) // a syntax error in the middle
				o = append(o[:i], append([]string{streamErrors[r.Intn(len(streamErrors))]}, o[i:]...)...)
			}
			if r.Intn(4) == 0 {
				o = append([]string{"select '" + strings.Repeat("y", 4080+r.Intn(40)) + "' from t"}, o...)
			}
			sc := &Scenario{X: map[string]string{"sql": strings.Join(o, []string{";", "; ", ";\n\n", " ;\t"}[r.Intn(4)])}}
			if r.Intn(2) == 0 {
				sc.X["sql"] += ";"
			}
			if r.Intn(5) == 0 {
				// a character is lost: where the statements end is anybody's guess, but a good one
				b := []byte(sc.X["sql"])
				for k := 1 + r.Intn(3); k > 0 && len(b) > 0; k-- {
					i := r.Intn(len(b))
					b = append(b[:i], b[i+1:]...)
				}
				sc.X["sql"] = string(b)
			} else if p, err := json.Marshal(o); err == nil {
				sc.X["parts"] = string(p)
			}
			return sc
		},
		Variants: func(l *Lab, r *rand.Rand, max int) []*Scenario {
			var vs []*Scenario
			n := len(l.Sc.X["sql"])
			for i := 0; i < max; i++ {
				v := l.Sc.clone()
				k := []int{1, 2, 3, 7, 64, 1000, 4096, 5000}[r.Intn(8)]
				var ch []int
				for j := 0; j < 1+r.Intn(6); j++ {
					c := 1 + r.Intn(k)
					if r.Intn(4) == 0 {
						c = k
					}
					if j > 0 && r.Intn(5) == 0 {
						c = 0
					}
					ch = append(ch, c)
				}
				v.Choices = ch
				v.X["fail"] = "-1"
				if r.Intn(2) == 0 {
					v.X["fail"] = fmt.Sprint(r.Intn(n + 1))
				}
				v.X["last"] = fmt.Sprint(r.Intn(2))
				vs = append(vs, v)
			}
			return vs
		},
		Judge: judgeStream, MaxVar: 60, Quick: 3000, Thorough: 80000,
		Rule: "texts of several statements delivered through a simulated reader in pieces of every size, empty reads included, ending cleanly or with an error at a seeded offset"})
}

type parsed struct {
	text string
	err  string
}

// text renders a statement; formatting is not what is judged here.
func text(st sqlparser.Statement) (s string) {
	defer func() {
		if x := recover(); x != nil {
			s = fmt.Sprintf("%T that cannot be formatted", st)
		}
	}()
	return sqlparser.String(st)
}

func parseAll(t *sqlparser.Tokenizer, max int) (o []parsed, end error) {
	for i := 0; i < max; i++ {
		st, err := sqlparser.ParseNext(t)
		if err == io.EOF || errors.Is(err, errStream) || err == io.ErrNoProgress {
			return o, err
		}
		if err != nil {
			o = append(o, parsed{err: err.Error()})
			continue
		}
		o = append(o, parsed{text: text(st)})
	}
	return o, fmt.Errorf("no end")
}

func judgeStream(l *Lab, sc *Scenario) (v *Violation, err error) {
	defer func() {
		if x := recover(); x != nil {
			v, err = vio("panic", "the parser panicked: %v", x), nil
		}
	}()
	sql := sc.X["sql"]
	max := strings.Count(sql, ";") + 5
	want, end := parseAll(sqlparser.NewStringTokenizer(sql, sqlparser.ParserModeMysql), max)
	if end != io.EOF {
		return vio("reference", "the text in one piece does not end: %v", end), nil
	}
	if p := sc.X["parts"]; p != "" {
		// each is what it is alone
		var parts []string
		if err := json.Unmarshal([]byte(p), &parts); err != nil {
			return nil, err
		}
		for i, p := range parts {
			st, err := sqlparser.Parse(p)
			switch {
			case i >= len(want):
				return vio("lost", "statement %d of %d does not come: %s", i, len(parts), p), nil
			case err != nil && want[i].err == "":
				return vio("alone", "statement %d is refused alone, but not among others: %s", i, p), nil
			case err == nil && want[i] != parsed{text: text(st)}:
				return vio("alone", "statement %d is not what it is alone: %s\n--- alone\n%s\n--- among others\n%+v", i, p, text(st), want[i]), nil
			}
		}
		if len(want) > len(parts) {
			return vio("more", "more statements came than were written: %+v", want[len(parts):]), nil
		}
	}
	s := &stream{b: []byte(sql), chunks: sc.Choices, fail: -1, last: sc.X["last"] == "1"}
	if f := sc.X["fail"]; f != "" {
		fmt.Sscan(f, &s.fail)
	}
	fails := s.fail >= 0 && s.fail < len(sql)
	got, gend := parseAll(sqlparser.NewTokenizer(s), max)
	if st := l.St; st != nil {
		st.Runs++
		st.Ops += s.reads
		st.Hashes[hash(fmt.Sprint(sql, sc.Choices, sc.X))] = true
		if fails {
			st.Faults["read error"]++
		}
		for _, c := range sc.Choices {
			if c == 0 {
				st.Faults["empty read"]++
				break
			}
		}
		if len(sc.Choices) > 0 {
			st.Faults["short read"]++
		}
	}
	for i, g := range got {
		if i >= len(want) || g != want[i] {
			w := parsed{text: "(nothing)"}
			if i < len(want) {
				w = want[i]
			}
			return vio("differs", "statement %d of the stream differs\n--- in one piece\n%+v\n--- as a stream\n%+v", i, w, g), nil
		}
	}
	if fails {
		if gend == io.EOF {
			return vio("clean-end", "reading failed after byte %d of %d but the stream ended as if complete", s.fail, len(sql)), nil
		}
		if !errors.Is(gend, errStream) {
			return vio("no-error", "reading failed after byte %d of %d and the parser reports %v", s.fail, len(sql), gend), nil
		}
		return nil, nil
	}
	if gend != io.EOF || len(got) != len(want) {
		return vio("short", "%d statements of %d came through; end: %v", len(got), len(want), gend), nil
	}
	return nil, nil
}
