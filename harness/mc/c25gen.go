package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	schema "github.com/lestrrat-go/jsschema"
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/builder"
)

var importDecl = regexp.MustCompile(`(?m)^import (\([^)]*\)|.*)$`)
var packageDecl = regexp.MustCompile(`(?m)^package \w+$`)

// gentest runs the command on a schema and returns what it wrote.
func (x *X) gentest(doc, before string, order int) (string, error) {
	dir, err := os.MkdirTemp(x.scratch, "gentest")
	must(err)
	defer os.RemoveAll(dir)
	must(os.WriteFile(filepath.Join(dir, "s.json"), []byte(doc), 0644))
	out := filepath.Join(dir, "out.go")
	if before != "" {
		must(os.WriteFile(out, []byte(before), 0644))
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("MC_GENTEST"), "s.json", "out.go")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), fmt.Sprintf("MC_ORDER=%d", order))
	err = cmd.Run()
	if ctx.Err() != nil {
		Failf("gentest on %s: still running after two minutes", trim(doc, 400))
	}
	if err != nil {
		return "", err
	}
	b, err := os.ReadFile(out)
	if err != nil {
		Failf("gentest on %s: succeeds and leaves no output: %v", trim(doc, 400), err)
	}
	return string(b), nil
}

// c25gentest: the schema generator command on schemas of every sort and size.
func c25gentest(x *X) {
	if os.Getenv("MC_GENTEST") == "" {
		fmt.Fprintln(os.Stderr, "the schema generator has not been built")
		os.Exit(3)
	}
	type job struct {
		doc  string
		docs []J
	}
	var jobs []job
	own := func(doc string) job { return job{doc, append(docs(), moreDocs()...)} }
	for _, t := range richSchemas() {
		jobs = append(jobs, own(t))
	}
	for _, k := range kwValues() {
		jobs = append(jobs, own(text(schemaOf(nil, k))))
	}
	for _, t := range []string{``, ` `, `{`, `[]`, `1`, `"s"`, `null`, `{}`, `{"type":"x"}`, `{"type":3}`, `{"properties":[]}`, `{"pattern":"("}`, `{"$ref":"#/nowhere"}`, `{"properties":{"a":{"$ref":"#/definitions/a"}}}`, `{"patternProperties":{"(":{}}}`} {
		jobs = append(jobs, own(t))
	}
	// code of every size around powers of two
	for _, n := range []int{1, 2, 7, 30, 64, 120, 250, 500, 1000, 2000, 4000} {
		props, good, bad, last := M{}, M{}, M{}, M{}
		for i := 0; i < n; i++ {
			p := fmt.Sprintf("property%05d", i)
			props[p] = M{"type": "string", "minLength": float64(i % 7)}
			good[p], bad[p] = "0123456789", "0123456789"
		}
		bad[fmt.Sprintf("property%05d", n-1)] = 1.0
		last[fmt.Sprintf("property%05d", n/2)] = 1.0
		jobs = append(jobs, job{text(M{"type": "object", "properties": props, "additionalProperties": false}), []J{good, bad, last, M{}, M{"x": 1.0}, 1.0}})
		var e L
		for i := 0; i < n; i++ {
			e = append(e, fmt.Sprintf("a rather long member of the enumeration, number %d", i))
		}
		jobs = append(jobs, job{text(M{"type": "string", "enum": e}), []J{e[0], e[n-1], e[n/2], "x", "", 1.0}})
		long := strings.Repeat("x", n*70)
		jobs = append(jobs, job{text(M{"enum": L{long, "y"}}), []J{long, long[1:], long + "x", "y", "x"}})
		var items L
		for i := 0; i < n; i++ {
			items = append(items, M{"type": "number", "minimum": float64(i)})
		}
		v, w := make(L, n), make(L, n)
		for i := range v {
			v[i], w[i] = float64(i), float64(i)
		}
		w[n-1] = -1.0
		jobs = append(jobs, job{text(M{"type": "array", "items": items, "additionalItems": false}), []J{v, w, append(append(L{}, v...), 1.0), L{}, 1.0}})
	}
	for i, j := range jobs {
		x.Case(func() string { return fmt.Sprintf("gentest %d on %s", i, trim(j.doc, 300)) }, func() {
			x.count("gentest runs", 1)
			var want string
			if s, err := schema.Read(strings.NewReader(j.doc)); err == nil {
				if v, err := builder.New().Build(s); err == nil {
					var b bytes.Buffer
					if jsval.NewGenerator().Process(&b, v) == nil {
						want = b.String()
					}
				}
			}
			before := []string{"", "old", strings.Repeat("old text\n", len(want)/9+100)}[i%3]
			got, err := x.gentest(j.doc, before, i%8)
			x.Traces++
			x.States++
			if (err == nil) != (want != "") {
				Failf("gentest on %s: ended with %v, the library generates code: %v", trim(j.doc, 400), err, want != "")
			}
			if err != nil {
				x.rej++
				return
			}
			if !packageDecl.MatchString(got) || !strings.Contains(got, `"github.com/lestrrat-go/jsval"`) {
				Failf("gentest on %s: no Go file:\n%s", trim(j.doc, 400), trim(got, 1000))
			}
			body := importDecl.ReplaceAllString(packageDecl.ReplaceAllString(got, ""), "")
			vs, ok, err := runCode(body)
			if err != nil {
				Failf("gentest on %s: %v", trim(j.doc, 400), err)
			}
			if !ok {
				x.count("outputs the evaluator could not handle", 1)
				x.Capped = true
				return
			}
			if len(vs) != 1 {
				Failf("gentest on %s: %d validators", trim(j.doc, 400), len(vs))
			}
			raw, isObj := js(j.doc).(M)
			if !isObj {
				return
			}
			s, env, why := modelSchema(raw, raw)
			if why != "" {
				return
			}
			for _, v := range vs {
				x.verdicts(v, s, env, j.docs, func() string { return "what gentest writes for " + trim(j.doc, 300) })
			}
		})
	}
}
