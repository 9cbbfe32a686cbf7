package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	schema "github.com/lestrrat-go/jsschema"
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/builder"
)

func init() {
	register(&check{id: "C24", run: c24, traces: "every command line is run as a real process of the command built from the working tree; exit status, standard output and output file are compared with what the library gives",
		bounds: "60 documents (good, malformed, unbuildable, ungeneratable, large) x pointers (all single ones of 34, all lists of up to 2 of 12 (quick) or up to 3 (thorough), up to 40 pointers) x prefixes x output destinations (standard output, new, longer, shorter, missing directory, directory, full device, closed) x spellings of the options; the server started from the command line; list indices in every spelling; output into the schema file itself and through links",
		notes:  []string{"text on the standard error, what a failing run leaves in its output, text after the JSON document, empty names in pointers and repeated single-valued options are outside the property"}})
}

// cli is one command line and its surroundings.
type cli struct {
	doc    string // the text of the schema file
	noFile bool
	ptrs   []string
	prefix string
	dest   string
	form   int
	extra  []string
}

func (c cli) String() string {
	s := fmt.Sprintf("jsval on %s", trim(c.doc, 400))
	if c.noFile {
		s = "jsval on a missing file"
	}
	if len(c.ptrs) > 0 {
		s += fmt.Sprintf(", pointers %q", c.ptrs)
	}
	if c.prefix != "" {
		s += fmt.Sprintf(", prefix %q", c.prefix)
	}
	return s + ", output to " + c.dest + fmt.Sprintf(", form %d %q", c.form, c.extra)
}

// expect is the model: the library applied to the selected sub-schemas.
func (c cli) expect() (string, bool) {
	if c.noFile || len(c.extra) > 0 {
		return "", false
	}
	var m map[string]interface{}
	if err := json.NewDecoder(strings.NewReader(c.doc)).Decode(&m); err != nil {
		return "", false
	}
	var ss []*schema.Schema
	if len(c.ptrs) == 0 {
		s, err := schema.Read(strings.NewReader(c.doc))
		if err != nil {
			return "", false
		}
		ss = append(ss, s)
	}
	for _, p := range c.ptrs {
		if strings.Contains(p, "%") { // not decoded here, unlike in references
			p = strings.ReplaceAll(p, "%", "%25")
		}
		if p != "" && p[0] != '/' {
			return "", false
		}
		t, ok := pointer(m, "#"+p)
		tm, ok2 := t.(M)
		if !ok || !ok2 {
			return "", false
		}
		s := schema.New()
		if s.Extract(tm) != nil {
			return "", false
		}
		ss = append(ss, s)
	}
	var vs []*jsval.JSVal
	for i, s := range ss {
		v, err := builder.New().BuildWithCtx(s, m)
		if err != nil {
			return "", false
		}
		if c.prefix != "" {
			v.Name = fmt.Sprintf("%s%d", c.prefix, i)
		}
		vs = append(vs, v)
	}
	var b bytes.Buffer
	if jsval.NewGenerator().Process(&b, vs...) != nil {
		return "", false
	}
	return b.String(), true
}

// args spells the command line.
func (c cli) args(file, out string) []string {
	type opt struct{ short, long, val string }
	opts := []opt{{"s", "schema", file}}
	if c.prefix != "" {
		opts = append(opts, opt{"P", "prefix", c.prefix})
	}
	for _, p := range c.ptrs {
		opts = append(opts, opt{"p", "ptr", p})
	}
	if out != "" {
		opts = append(opts, opt{"o", "outfile", out})
	}
	if c.form&4 != 0 { // the other way around, pointers in their order
		var r, ps []opt
		for i := len(opts) - 1; i >= 0; i-- {
			if opts[i].short != "p" {
				r = append(r, opts[i])
			}
		}
		for _, o := range opts {
			if o.short == "p" {
				ps = append(ps, o)
			}
		}
		k := len(r) / 2
		opts = append(append(append([]opt{}, r[:k]...), ps...), r[k:]...)
	}
	var a []string
	for _, o := range opts {
		switch c.form & 3 {
		case 0:
			a = append(a, "-"+o.short, o.val)
		case 1:
			a = append(a, "--"+o.long, o.val)
		case 2:
			a = append(a, "--"+o.long+"="+o.val)
		case 3:
			a = append(a, "-"+o.short+"="+o.val)
		}
	}
	return append(a, c.extra...)
}

func (x *X) runCLI(c cli) {
	x.Tick()
	x.Traces++
	x.States++
	x.Transitions++
	dir, err := os.MkdirTemp(x.scratch, "cli")
	must(err)
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "schema.json")
	if !c.noFile {
		must(os.WriteFile(file, []byte(c.doc), 0644))
	}
	want, ok := c.expect()
	out := ""
	switch c.dest {
	case "new", "longer", "shorter", "relative":
		out = filepath.Join(dir, "out.go")
	case "schema itself":
		out = file
	case "link to the schema":
		out = filepath.Join(dir, "out.go")
		must(os.Symlink("schema.json", out))
	case "hard link to the schema":
		out = filepath.Join(dir, "out.go")
		must(os.Link(file, out))
	case "dangling link":
		out = filepath.Join(dir, "out.go")
		must(os.Symlink("elsewhere.go", out))
	case "link to a file":
		out = filepath.Join(dir, "out.go")
		must(os.WriteFile(filepath.Join(dir, "elsewhere.go"), bytes.Repeat([]byte("old text\n"), len(want)/9+100), 0600))
		must(os.Symlink("elsewhere.go", out))
	case "missing directory":
		out = filepath.Join(dir, "no", "out.go")
		ok = false
	case "directory":
		out = dir
		ok = false
	case "full device":
		out = "/dev/full"
		ok = ok && want == ""
	case "null device":
		out = "/dev/null"
	}
	if c.dest == "longer" {
		must(os.WriteFile(out, bytes.Repeat([]byte("old text\n"), len(want)/9+100), 0644))
	}
	if c.dest == "shorter" {
		must(os.WriteFile(out, []byte("old"), 0644))
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	arg := out
	if c.dest == "relative" {
		arg = "out.go"
	}
	cmd := exec.CommandContext(ctx, os.Getenv("MC_CLI"), c.args(file, arg)...)
	cmd.Dir = dir
	var stdout bytes.Buffer
	cmd.Stdout = &stdout
	switch c.dest {
	case "stdout full":
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		must(err)
		defer f.Close()
		cmd.Stdout = f
		ok = ok && want == ""
	case "stdout broken":
		r, w, err := os.Pipe()
		must(err)
		r.Close()
		defer w.Close()
		cmd.Stdout = w
		ok = ok && want == ""
	case "stdout file":
		f, err := os.Create(filepath.Join(dir, "stdout"))
		must(err)
		defer f.Close()
		cmd.Stdout = f
	}
	err = cmd.Run()
	if ctx.Err() != nil {
		Failf("%s: still running after two minutes", c)
	}
	if ok != (err == nil) {
		Failf("%s: ended with %v although the library %s", c, err, map[bool]string{true: "generates code and it can be written", false: "refuses or the output fails"}[ok])
	}
	if !ok {
		x.rej++
		return
	}
	x.acc++
	got := stdout.String()
	switch c.dest {
	case "new", "longer", "shorter", "relative", "schema itself", "link to the schema", "hard link to the schema", "dangling link", "link to a file":
		if got != "" {
			Failf("%s: standard output has %q", c, trim(got, 300))
		}
		b, err := os.ReadFile(out)
		if err != nil {
			Failf("%s: %v", c, err)
		}
		got = string(b)
	case "stdout file":
		b, err := os.ReadFile(filepath.Join(dir, "stdout"))
		must(err)
		got = string(b)
	case "null device":
		return
	}
	if got != want {
		Failf("%s: the output is (%d bytes)\n%s\ninstead of (%d bytes)\n%s", c, len(got), trim(got, 1500), len(want), trim(want, 1500))
	}
	if strings.Contains(c.dest, "schema") {
		return
	}
	if b, err := os.ReadFile(file); err != nil || string(b) != c.doc {
		Failf("%s: the schema file was changed", c)
	}
}

const hyper = `{"links":[{"schema":{"type":"object","properties":{"a":{"$ref":"#/definitions/s"},"b":{"$ref":"#"}},"required":["a"]}},{"schema":{"type":"array","items":{"$ref":"#/definitions/s"},"minItems":1}},{"schema":{"$ref":"#/definitions/n"}},{"title":"none"}],"definitions":{"s":{"type":"string","maxLength":5},"n":{"type":"number","default":1.5},"a/b":{"type":"boolean"},"m~n":{"type":"null"},"a":{"b":{"type":"integer"}},"10":{"type":"integer","minimum":10},"é b%20c":{"enum":["x"]},"~1":{"type":"array"},"bad":{"type":"nonsense"},"dead":{"not":{"$ref":"#/nowhere"}},"x":3},"type":"object","properties":{"p":{"$ref":"#/links/1/schema"}},"list":[[{"type":"string"},{"type":"number"}]]}`

func c24(x *X) {
	if os.Getenv("MC_CLI") == "" {
		fmt.Fprintln(os.Stderr, "MC_CLI is not set")
		os.Exit(3)
	}
	meta, err := os.ReadFile("/repo/schema.json")
	must(err)
	many := func(n int) string {
		m := M{}
		for i := 0; i < n; i++ {
			m[nm(i)] = M{"type": "string", "minLength": float64(i), "enum": L{nm(i), "%d"}}
		}
		return text(M{"type": "object", "properties": m})
	}
	docs := []string{
		`{}`, `{"type":"string"}`, hyper, string(meta), many(3), many(40), many(700), many(3000),
		`{"type":"object","properties":{"a":{"$ref":"#"}}}`, `{"$ref":"#/definitions/a","definitions":{"a":{"type":"number"}}}`, `{"type":"string","enum":["%d","\u0000","\"","é","\\"],"pattern":"^a%s$"}`,
		` {"type":"string"} `, "\n\n{\"type\":\n\"number\",\t\"minimum\":1.25}\n",
		`{"anyOf":[{"type":"null"},{"not":{"type":"string"}}]}`, `{"oneOf":[{"type":"null"}],"allOf":[{}]}`, `{"default":1.5,"type":"number"}`,
		`{"properties":{"a":{"$ref":"#/definitions/missing"}}}`, `{"$ref":"#"}`, `{"$ref":"#/definitions/a","definitions":{"a":{"$ref":"#/definitions/a"}}}`,
		`{"type":"nonsense"}`, `{"type":3}`, `{"pattern":"(","type":"string"}`, `{"properties":[]}`, `{"required":"a"}`, `{"items":3}`, `{"definitions":{"a":3}}`,
		``, ` `, `{`, `[]`, `null`, `3`, `"x"`, `true`, `{"type":"string",}`, `{'type':'string'}`, "\ufeff{}", `{"type":"string"`, `{"a":1e400}`, "\x00", `{"type":"str`,
	}
	for _, d := range docs {
		x.Case(func() string { return "the document " + trim(d, 200) }, func() {
			for _, dest := range []string{"stdout", "stdout file", "stdout full", "stdout broken", "new", "longer", "shorter", "relative", "missing directory", "directory", "full device", "null device", "schema itself", "link to the schema", "hard link to the schema", "dangling link", "link to a file"} {
				for _, pre := range []string{"", "X", "1bad"} {
					x.runCLI(cli{doc: d, dest: dest, prefix: pre})
				}
			}
			for f := 0; f < 8; f++ {
				for _, p := range [][]string{nil, {""}, {"/definitions/a"}, {"/definitions/a", ""}} {
					x.runCLI(cli{doc: d, dest: "new", prefix: "Val", form: f, ptrs: p})
				}
			}
		})
	}
	all := []string{"", "/links/0/schema", "/links/1/schema", "/links/2/schema", "/definitions/s", "/definitions/n", "/definitions/a~1b", "/definitions/m~0n", "/definitions/a/b", "/definitions/10", "/definitions/~01", "/list/0/1", "/properties/p",
		"/definitions/é b%20c", "/links/3", "/links/0", "/definitions", "/links", "/links/4", "/links/-1", "/links/x", "/links/-", "/nope", "/definitions/s/type", "/definitions/s/type/x", "/definitions/x", "/definitions/bad", "/definitions/dead", "definitions/s", "#/definitions/s", "links", "/definitions/S", "/definitions/é b c", "/list/0", "/list/0/0x1", "/list/0/01", "/list/0/+1", "/list/0/-0", "/list/0/1.0", "/list/0/1e0", "/list/0/ 1", "/list/0/1 ", "/list/0/", "/list/0/18446744073709551617", "/list/0/4294967297", "/list/0/0b1", "/list/0/1_", "/list/0/١", "/list//1", "/links/00/schema", "/definitions/s/", "/definitions//s", "//definitions/s", "/definitions/%73"}
	forms := func(i int) int { return i % 8 }
	for i, p := range all {
		x.Case(func() string { return fmt.Sprintf("the pointer %q", p) }, func() {
			for _, pre := range []string{"", "V", "Xyz", "v", "HyperLink"} {
				for _, dest := range []string{"stdout", "new", "longer"} {
					for f := 0; f < 8; f++ {
						if f%4 == 3 && p == "" {
							continue
						}
						x.runCLI(cli{doc: hyper, ptrs: []string{p}, prefix: pre, dest: dest, form: f})
					}
				}
			}
			for _, q := range all {
				x.runCLI(cli{doc: hyper, ptrs: []string{p, q}, dest: "new", form: forms(i)})
			}
		})
	}
	// lists of pointers
	few := []string{"/links/0/schema", "/links/1/schema", "/links/2/schema", "/definitions/s", "", "/definitions/a~1b", "/definitions/10", "/nope", "/properties/p", "/definitions/bad", "/list/0/1", "/definitions/m~0n"}
	n := 0
	for _, a := range few {
		for _, b := range few {
			x.Case(func() string { return fmt.Sprintf("pointers %q, %q, ...", a, b) }, func() {
				for _, pre := range []string{"", "Schema"} {
					for _, dest := range []string{"stdout", "new"} {
						x.runCLI(cli{doc: hyper, ptrs: []string{a, b}, prefix: pre, dest: dest})
						for _, c := range few {
							n++
							if !x.thorough && dest == "new" && c != few[n%len(few)] {
								continue
							}
							x.runCLI(cli{doc: hyper, ptrs: []string{a, b, c}, prefix: pre, dest: dest, form: []int{0, 1, 4, 5}[n%4]})
						}
					}
				}
			})
		}
	}
	for k := 4; k <= 40; k++ {
		x.Case(func() string { return fmt.Sprintf("%d pointers", k) }, func() {
			m := M{}
			var ps []string
			for i := 0; i < k; i++ {
				m[nm(i)] = M{"type": "number", "maximum": float64(i), "allOf": L{M{"$ref": "#/s/" + nm((i+1)%k)}}}
				if i%3 == 0 {
					m[nm(i)] = M{"type": "string", "maxLength": float64(i)}
				}
				ps = append(ps, "/s/"+nm((i*7)%k))
			}
			for _, pre := range []string{"", "P"} {
				x.runCLI(cli{doc: text(M{"s": m}), ptrs: ps, prefix: pre, dest: "new"})
				x.runCLI(cli{doc: text(M{"s": m}), ptrs: append(append([]string{}, ps...), "/s/none"), prefix: pre, dest: "stdout"})
			}
		})
	}
	x.Case(func() string { return "prefixes" }, func() {
		for _, p := range []string{"A", "a", "V", "_", "x_", "R", "M", "é", "日本", "jsval", "func", "init", "a b", "a-b", "1", "a\"", "a.b", "%d", "%s", "%", "very" + strings.Repeat("Long", 200), "\n", "Validator1"} {
			for _, pt := range [][]string{nil, {"/links/0/schema"}, {"/definitions/s", "/links/1/schema"}} {
				for _, f := range []int{0, 1, 2, 4} {
					x.runCLI(cli{doc: hyper, prefix: p, ptrs: pt, dest: "stdout", form: f})
				}
			}
		}
	})
	x.Case(func() string { return "wrong command lines" }, func() {
		for _, dest := range []string{"stdout", "new"} {
			x.runCLI(cli{noFile: true, dest: dest})
			x.runCLI(cli{noFile: true, dest: dest, ptrs: []string{""}})
			for _, e := range [][]string{{"--nope"}, {"-z"}, {"-o"}, {"-p"}, {"--ptr"}, {"--outfile"}, {"-P"}} {
				x.runCLI(cli{doc: `{"type":"string"}`, dest: dest, extra: e})
			}
		}
		for _, a := range [][]string{{}, {"-s", x.scratch}, {"-o", filepath.Join(x.scratch, "q.go")}, {"-p", "/a"}, {"-s", ""}, {"-s", "/dev/null"}} {
			cmd := exec.Command(os.Getenv("MC_CLI"), a...)
			cmd.Dir = x.scratch
			x.Traces++
			x.States++
			x.Transitions++
			if out, err := cmd.Output(); err == nil {
				Failf("%q: success without a schema; output %q", a, trim(string(out), 300))
			}
		}
	})
	x.Case(func() string { return "the server from the command line" }, func() { x.cliServer() })
}

// cliServer starts the server and asks it for code.
func (x *X) cliServer() {
	hold, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		x.count("no loopback network", 1)
		return
	}
	defer hold.Close()
	// an address that is taken or senseless: it ends and fails
	for _, a := range [][]string{{"server", "-l", hold.Addr().String()}, {"server", "--listen", hold.Addr().String()}, {"server", "-l", "127.0.0.1:999999"}, {"server", "--nope"}} {
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		err := exec.CommandContext(ctx, os.Getenv("MC_CLI"), a...).Run()
		x.Traces++
		x.States++
		x.Transitions++
		if ctx.Err() != nil {
			Failf("%q: still running after a minute", a)
		}
		cancel()
		if err == nil {
			Failf("%q: success", a)
		}
	}
	for try := 0; try < 5; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		addr := l.Addr().String()
		l.Close()
		form := []string{"-l", "--listen"}[try%2]
		cmd := exec.Command(os.Getenv("MC_CLI"), "server", form, addr)
		must(cmd.Start())
		ok := x.askServer(addr)
		cmd.Process.Kill()
		cmd.Wait()
		if ok {
			return
		}
	}
	Failf("the server does not answer on the address it was given (five attempts)")
}

func (x *X) askServer(addr string) bool {
	cl := &http.Client{Timeout: 20 * time.Second}
	for i := 0; i < 100; i++ {
		resp, err := cl.Post("http://"+addr+"/generate.json", "application/json", strings.NewReader(`{"type":"string"}`))
		if err != nil {
			time.Sleep(50 * time.Millisecond)
			continue
		}
		b, err := io.ReadAll(resp.Body)
		resp.Body.Close()
		if err != nil {
			return false
		}
		var r map[string]interface{}
		want, _ := pipeline(`{"type":"string"}`)
		x.Traces++
		x.States++
		x.Transitions++
		if json.Unmarshal(b, &r) != nil || r["success"] != true || r["code"] != want {
			Failf("the server started from the command line answers %s", b)
		}
		return true
	}
	return false
}
