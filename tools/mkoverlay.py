#!/usr/bin/env python3
"""Writes the build inputs of the simulator into SCRATCH: patched copies of a few
standard-library files (the seams), the four real command mains under importable
names, a go.mod made from /repo's, and overlay.json naming them all.
Nothing in /repo is touched. A missing anchor is an error, never a silent no-op."""
import json, os, re, shutil, subprocess, sys, glob

repo, verif, out = sys.argv[1:4]
goroot = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip()
os.makedirs(out, exist_ok=True)
rep = {}

def patch(rel, edits):
    path = os.path.join(goroot, "src", rel)
    s = open(path).read()
    for old, new in edits:
        if s.count(old) != 1:
            sys.exit(f"mkoverlay: anchor {old!r} occurs {s.count(old)} times in {path}")
        s = s.replace(old, new)
    dst = os.path.join(out, rel.replace("/", "_"))
    open(dst, "w").write(s)
    rep[path] = dst

patch("os/proc.go", [("func Exit(code int) {\n", """// VerifExit is the simulator's process-exit seam; nil outside a simulated run.
var VerifExit func(code int)

func Exit(code int) {
	if VerifExit != nil {
		VerifExit(code)
	}
""")])
patch("os/file.go", [
    ("func (f *File) Read(b []byte) (n int, err error) {\n", """// VerifRead and VerifWrite are the simulator's file seams.
var VerifRead func(f *File, b []byte, real func([]byte) (int, error)) (n int, err error, done bool)
var VerifWrite func(f *File, b []byte) (n int, err error, done bool)

func (f *File) Read(b []byte) (n int, err error) {
	if VerifRead != nil {
		if n, err, done := VerifRead(f, b, f.verifRead); done {
			return n, err
		}
	}
	return f.verifRead(b)
}

func (f *File) verifRead(b []byte) (n int, err error) {
"""),
    ("func (f *File) Write(b []byte) (n int, err error) {\n", """func (f *File) Write(b []byte) (n int, err error) {
	if VerifWrite != nil {
		if n, err, done := VerifWrite(f, b); done {
			return n, err
		}
	}
"""),
])
patch("database/sql/sql.go", [("func Open(driverName, dataSourceName string) (*DB, error) {\n", """// VerifOpen is the simulator's connection seam.
var VerifOpen func(driverName, dsn string, real driver.Driver) (c driver.Connector, err error)

func Open(driverName, dataSourceName string) (*DB, error) {
	if VerifOpen != nil {
		driversMu.RLock()
		d := drivers[driverName]
		driversMu.RUnlock()
		c, err := VerifOpen(driverName, dataSourceName, d)
		if err != nil {
			return nil, err
		}
		if c != nil {
			return OpenDB(c), nil
		}
	}
""")])
patch("time/time.go", [("func Now() Time {\n", """// VerifNow is the simulator's clock; nil outside a simulated run.
var VerifNow func() (ns int64, ok bool)

func Now() Time {
	if VerifNow != nil {
		if ns, ok := VerifNow(); ok {
			return Unix(0, ns)
		}
	}
""")])
# the terminal that a password is typed at
gomod = open(f"{repo}/go.mod").read()
m = re.search(r"(?m)^\s*golang\.org/x/term (v\S+)", gomod)
term = os.path.join(os.environ.get("GOMODCACHE", "/root/go/pkg/mod"), "golang.org/x/term@" + m.group(1))
s = open(term + "/term.go").read()
old = "func ReadPassword(fd int) ([]byte, error) {\n"
if s.count(old) != 1:
    sys.exit(f"mkoverlay: anchor {old!r} occurs {s.count(old)} times in {term}")
xterm = os.path.join(out, "xterm")  # a copy: the module cache is no place for an overlay
shutil.rmtree(xterm, ignore_errors=True)
os.makedirs(xterm)
for f in glob.glob(term + "/*.go") + [term + "/go.mod"]:
    if not f.endswith("_test.go"):
        open(os.path.join(xterm, os.path.basename(f)), "w").write(open(f).read())
open(xterm + "/term.go", "w").write(s.replace(old, "// VerifRead is the simulator's terminal.\nvar VerifRead func(fd int) (b []byte, err error, done bool)\n\n" + old + """	if VerifRead != nil {
		if b, err, done := VerifRead(fd); done {
			return b, err
		}
	}
"""))
# map iteration order and map hash seeds come from one per-run value
patch("runtime/rand.go", [("func maps_rand() uint64 {\n\treturn rand()", """func maps_rand() uint64 {
	if verifMapOn {
		return verifMapSeed
	}
	return rand()""" ), ("//go:linkname maps_rand internal/runtime/maps.rand\n", """var verifMapOn bool
var verifMapSeed uint64

//go:linkname verifSetMapRand os.verifSetMapRand
func verifSetMapRand(on bool, v uint64) {
	verifMapSeed, verifMapOn = v, on
}

//go:linkname maps_rand internal/runtime/maps.rand
""")])
# expose it through os
p = os.path.join(out, "os_verif.go")
open(p, "w").write("""package os

import _ "unsafe"

func verifSetMapRand(on bool, v uint64)

// VerifMapRand fixes (or releases) the value behind map seeds and iteration order.
func VerifMapRand(on bool, v uint64) { verifSetMapRand(on, v) }
""")
rep[os.path.join(goroot, "src/os/verif_hook.go")] = p
p = os.path.join(out, "os_verif.s")
open(p, "w").write("")
rep[os.path.join(goroot, "src/os/verif_hook.s")] = p

for cmd in ("mysqldef", "psqldef", "mssqldef", "sqlite3def"):
    n = 0
    for src in sorted(glob.glob(f"{repo}/cmd/{cmd}/*.go")):
        if src.endswith("_test.go"):
            continue
        s = open(src).read()
        s, k = re.subn(r"(?m)^package main\b", f"package {cmd}", s, count=1)
        if k != 1:
            sys.exit(f"mkoverlay: {src} is not package main")
        dst = os.path.join(out, f"{cmd}_{os.path.basename(src)}")
        open(dst, "w").write(s)
        rep[f"{repo}/verifcmd/{cmd}/{os.path.basename(src)}"] = dst
        n += 1
    dst = os.path.join(out, f"{cmd}_export.go")
    open(dst, "w").write(f"package {cmd}\n\n// Main is the command's real main.\nfunc Main() {{ main() }}\n")
    rep[f"{repo}/verifcmd/{cmd}/verif_export.go"] = dst

mod = open(f"{repo}/go.mod").read()
mod = re.sub(r"(?m)^module .*$", "module verifsim", mod, count=1)
m = re.search(r"(?m)^module (\S+)", open(f"{repo}/go.mod").read()).group(1)
mod = re.sub(r"(?m)^go \d.*$", "go 1.21", mod, count=1)
mod += f"\nrequire {m} v0.0.0\nreplace {m} => {repo}\nreplace golang.org/x/term => {os.path.abspath(xterm)}\n"
open(os.path.join(out, "go.mod"), "w").write(mod)
open(os.path.join(out, "go.sum"), "w").write(open(f"{repo}/go.sum").read())
json.dump({"Replace": rep}, open(os.path.join(out, "overlay.json"), "w"), indent=1)
