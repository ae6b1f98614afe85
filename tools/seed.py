#!/usr/bin/env python3
"""Development tool: makes and verifies planted bugs (no check uses it).

  seed.py make SPEC.py     SPEC.py has a list B of dicts: id, property, edits [(file, old, new)], needs, breaks, demo (Go body of main)
  seed.py verify [ID...]   applies each patch to /repo, builds, tests, runs the demo and the check of its property, undoes it
"""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
HEAD = '''package main

import (
	"fmt"
	"os"
	"reflect"
	"strings"
	"time"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/ext"
	"github.com/akm/tparser/log"
	"github.com/akm/tparser/parser"
	"github.com/akm/tparser/token"
)

var _ = reflect.DeepEqual
var _ = strings.ToUpper
var _ token.Type
var _ ast.Node
var _ = time.Second
var _ ext.Strings
var _ astcore.Node

type nolog struct{}

func (nolog) Printf(string, ...interface{}) {}

func init() { log.SetLogger(nolog{}) }

func program(text string) (*ast.Program, error) {
	rs := []rune(text)
	p := parser.NewProgramParser(parser.NewProgramContext("main.dpr"))
	p.SetText(&rs)
	p.NextToken()
	return p.ParseProgram()
}

func unit(text string) (*ast.Unit, error) {
	rs := []rune(text)
	p := parser.NewUnitParser(parser.NewUnitContext(parser.NewProgramContext("main.dpr"), "unit1.pas"))
	p.SetText(&rs)
	p.NextToken()
	return p.ParseUnit()
}

func mustProgram(text string) *ast.Program {
	p, err := program(text)
	must(err == nil, "rejected: %v", err)
	return p
}

func mustUnit(text string) *ast.Unit {
	u, err := unit(text)
	must(err == nil, "rejected: %v", err)
	return u
}

// project writes the files to a scratch directory, goes there and loads main.dpr.
func project(files map[string]string) (*parser.Program, error) {
	d, err := os.MkdirTemp("", "demo")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(d)
	if err := os.Chdir(d); err != nil {
		panic(err)
	}
	defer os.Chdir("/")
	for k, v := range files {
		if i := strings.LastIndex(k, "/"); i > 0 {
			os.MkdirAll(k[:i], 0o755)
		}
		if err := os.WriteFile(k, []byte(v), 0o644); err != nil {
			panic(err)
		}
	}
	return parser.ParseProgram("main.dpr")
}

func must(ok bool, format string, a ...interface{}) {
	if !ok {
		fmt.Printf("FAIL: "+format+"\\n", a...)
		os.Exit(1)
	}
}

func main() {
'''
DEMO = '''#!/bin/bash
# Run in the repository after the build. Exit 0: the behaviour is right.
d="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
t="$(mktemp -d)" || exit 3
trap 'rm -rf -- "$t"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/demo.go"}}' "$PWD" "$d" > "$t/o.json"
go build -overlay "$t/o.json" -o "$t/demo" ./zz_demo || exit 3
timeout 120 "$t/demo"
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)
def clean():
    sh("git -C /repo checkout -- .")
    assert sh("git -C /repo status --short").stdout == "", "repo not clean"
def tests_ok():
    o = tempfile.mktemp(suffix=".json")
    sh("bash /opt/vp/test.sh " + o)
    r = json.load(open(o)); os.unlink(o)
    b = json.load(open("/opt/vp/BASELINE.json"))
    want = set(b["stable"]) if "stable" in b else set(b.get("passed", b))
    got = set(r["passed"])
    return want <= got, sorted(want - got)[:5]
def make(spec):
    g = {}
    exec(open(spec).read(), g)
    ids = []
    for b in g["B"]:
        clean()
        for f, old, new in b["edits"]:
            p = os.path.join("/repo", f); s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        d = os.path.join(S, b["id"]); os.makedirs(d, exist_ok=True)
        diff = sh("git -C /repo diff").stdout
        clean()
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.go", "w").write(HEAD + b["demo"].strip("\n") + "\n}\n")
        sh("gofmt -w %s/demo.go" % d)
        open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        ids.append(b["id"])
    verify(ids)
def verify(ids, full=True):
    for i in ids:
        d = os.path.join(S, i); prop = json.load(open(d + "/meta.json"))["property"]
        clean()
        base = sh("bash %s/demo.sh" % d, cwd="/repo")
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode: print(i, "DOES NOT APPLY", r.stderr); continue
        try:
            b = sh("bash /opt/vp/build.sh")
            t = tests_ok() if b.returncode == 0 else (False, b.stderr[-500:])
            dm = sh("bash %s/demo.sh" % d, cwd="/repo")
            c = sh("bash harness/run.sh check %s quick" % prop, cwd=V)
        finally:
            clean()
        viol = c.returncode == 1 and ("VIOLATION property=%s " % prop) in c.stdout
        flags = []
        if base.returncode: flags.append("DEMO FAILS ON BASE: " + (base.stdout + base.stderr)[-600:])
        if not t[0]: flags.append("TESTS FAIL %s" % (t[1],))
        if dm.returncode == 0: flags.append("DEMO PASSES WITH BUG")
        if dm.returncode == 3: flags.append("DEMO BUILD " + dm.stderr[-500:])
        print("%-28s %s %s %s" % (i, prop, "caught" if viol else "MISSED rc=%d %s" % (c.returncode, c.stderr[-300:]), " ".join(flags)), flush=True)
if __name__ == "__main__":
    if sys.argv[1] == "make": make(sys.argv[2])
    else: verify(sys.argv[2:] or sorted(os.listdir(S)))
