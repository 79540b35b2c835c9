package prop

import (
	"strings"

	"verifsim/scen"
)

func has(p *Prop, d string) bool {
	for _, x := range p.Dialects {
		if x == d {
			return true
		}
	}
	return false
}

// RealParts lists what runs for real in a simulated run.
func RealParts(p *Prop) []string {
	if p.ID == "C18" {
		return []string{"the SQL tokenizer and parser, from /repo's working tree"}
	}
	o := []string{
		"the command itself: argument parsing, schema parser, plan generator, adapters and orchestration, from /repo's working tree",
		"the Go runtime and standard library, database/sql included",
	}
	if has(p, scen.SQLite) {
		o = append(o, "the SQLite engine and its Go driver")
	}
	return o
}

func servers(p *Prop) string {
	var o []string
	for _, x := range [][2]string{{scen.MySQL, "MySQL"}, {scen.PG, "PostgreSQL"}, {scen.MSSQL, "SQL Server"}} {
		if has(p, x[0]) {
			o = append(o, x[1])
		}
	}
	return strings.Join(o, ", ")
}

// StubParts lists what is simulated.
func StubParts(p *Prop) []string {
	if p.ID == "C18" {
		return []string{"the reader the text comes from"}
	}
	var o []string
	if s := servers(p); s != "" {
		o = append(o,
			"the database servers (models of "+s+": sessions, transactions, locks, catalogs, DDL)",
			"the network protocol clients below database/sql's driver interface; the real driver packages still parse the connection string")
	}
	if has(p, scen.SQLite) {
		o = append(o, "the file system below SQLite (an in-memory VFS with crashes and I/O errors)")
	}
	return append(o, "process exit, file reads and writes of the command, the clock, and map iteration order, which go through the simulator's seams")
}

// Assumptions a check's verdict rests on.
func Assumptions(p *Prop) []string {
	if p.ID == "C18" {
		return []string{"texts and deliveries are those the generator makes"}
	}
	o := []string{"schemas, edits and faults are those the generator makes"}
	if s := servers(p); s != "" {
		o = append(o, "the server models ("+s+") behave as the servers do for the statements and catalog queries that occur; they were compared with the expectations of the repository's integration tests")
	}
	return o
}
