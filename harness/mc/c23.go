package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing/iotest"
	"time"

	schema "github.com/lestrrat-go/jsschema"
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/builder"
	"github.com/lestrrat-go/jsval/server"
)

func init() {
	register(&check{id: "C23", run: c23, traces: "every sequence of requests is sent to one real server (in process), every answer is compared with what reading, building and generating with the library gives for that request alone",
		bounds: "all sequences of up to 3 (quick) or 4 requests out of 20 (8 in the thorough tier's fourth position) to one server: index, unknown paths, schemas good and bad, malformed and breaking bodies; 1500 posted schemas (up to 2 keywords, all reference kinds, unusual text); bodies that break at every byte or arrive in pieces; bodies of up to 33 MB; 40 paths times 6 methods; one server reached over the loopback network; 17 content types x 17 sets of headers x paths, methods and bodies; schemas that differ in one place, in turn",
		notes:  []string{"the text of failure messages is outside the property"}})
}

// pipeline is the oracle: the library applied to the posted text.
func pipeline(body string) (string, bool) {
	sc, err := schema.Read(strings.NewReader(body))
	if err != nil {
		return "", false
	}
	var m map[string]interface{}
	if err := json.Unmarshal([]byte(body), &m); err != nil {
		// a decoder that stops after the first value may take it
		if err := json.NewDecoder(strings.NewReader(body)).Decode(&m); err != nil {
			return "", false
		}
	}
	v, err := builder.New().BuildWithCtx(sc, m)
	if err != nil {
		return "", false
	}
	var b bytes.Buffer
	if err := jsval.NewGenerator().Process(&b, v); err != nil {
		return "", false
	}
	return b.String(), true
}

var pipe23 = map[string][2]string{}

func pipelineMemo(body string) (string, bool) {
	if len(body) > 20000 {
		return pipeline(body)
	}
	r, ok := pipe23[body]
	if !ok {
		code, ok := pipeline(body)
		r = [2]string{code, fmt.Sprint(ok)}
		pipe23[body] = r
	}
	return r[0], r[1] == "true"
}

func pathOf(target string) string {
	p := target
	if i := strings.IndexAny(p, "?#"); i >= 0 {
		p = p[:i]
	}
	return p
}

// judge compares one answer with the model.
func (x *X) judge(r breq, code int, h http.Header, body string, how func() string) {
	x.States++
	x.Transitions++
	switch pathOf(r.path) {
	case "/":
		if code != 200 || !strings.Contains(strings.ToLower(body), "<html") || !strings.Contains(strings.ToLower(body), "</html>") || !strings.HasPrefix(h.Get("Content-Type"), "text/html") {
			Failf("%s: the index page is answered with %d, %q, %s", how(), code, h, trim(body, 300))
		}
		if !strings.Contains(body, "/generate.json") {
			Failf("%s: the page does not mention the generation path", how())
		}
	case "/generate.json":
		var resp map[string]interface{}
		d := json.NewDecoder(strings.NewReader(body))
		if err := d.Decode(&resp); err != nil || resp == nil || d.Decode(new(J)) != io.EOF {
			Failf("%s: the answer is no JSON object: %d %s", how(), code, trim(body, 500))
		}
		want, ok := pipelineMemo(r.body)
		if r.fail > 0 {
			ok = false
		}
		if code != 200 && ok {
			Failf("%s: status %d", how(), code)
		}
		success, isbool := resp["success"].(bool)
		if !isbool || success != ok {
			Failf("%s: success is %v instead of %v: %s", how(), resp["success"], ok, trim(body, 500))
		}
		if ok {
			x.acc++
			if got, _ := resp["code"].(string); got != want {
				Failf("%s: the code is\n%s\ninstead of\n%s", how(), trim(got, 1500), trim(want, 1500))
			}
			if !strings.HasPrefix(h.Get("Content-Type"), "application/json") {
				Failf("%s: content type %q", how(), h.Get("Content-Type"))
			}
		} else {
			x.rej++
			if m, _ := resp["message"].(string); m == "" {
				Failf("%s: no message: %s", how(), trim(body, 500))
			}
			if c, there := resp["code"]; there && c != "" && c != nil {
				Failf("%s: a failure comes with code: %s", how(), trim(body, 500))
			}
		}
	default:
		if code != 404 {
			Failf("%s: status %d", how(), code)
		}
	}
}

func (x *X) ask(s *server.Server, r breq, how func() string) {
	rec := httptest.NewRecorder()
	s.ServeHTTP(rec, r.http())
	x.judge(r, rec.Code, rec.Header(), rec.Body.String(), how)
}

func c23(x *X) {
	post := func(b string) breq { return breq{"POST", "/generate.json", b, 0} }
	reqs := []breq{
		{"GET", "/", "", 0}, {"GET", "/nothing", "", 0},
		post(`{"type": "string", "minLength": 3}`),
		post(`{"type": "object", "properties": {"a": {"$ref": "#/definitions/a"}}, "definitions": {"a": {"type": "number", "default": 1.5}}}`),
		post(`{"type": "object", "properties": {"a": {"$ref": "#/definitions/a"}}, "definitions": {"a": {"type": "array", "items": {"$ref": "#"}}}}`),
		post(`{"properties": {"a": {"$ref": "#/definitions/missing"}}}`),
		post(``), post(`{`),
		{"POST", "/generate.json", `{"type": "string", "minLength": 3}`, 7},
		post(`{"enum": [1, "a", null]}`),
		post(`[]`), post(`null`), post(`{"type": 7}`), post(`{"type": "nonsense"}`),
		post(`{}`), {"POST", "/", "{}", 0},
		{"GET", "/generate.json", `{"type": "boolean"}`, 0},
		post(`{"type": "string", "default": 7}`), // refused by the generator or not: as the library does
		post(`{"pattern": "(", "type": "string"}`),
		post(`{"type": "object", "patternProperties": {"^%d": {"type": "integer", "maximum": 5}}, "additionalProperties": false}`),
	}
	if x.thorough {
		reqs = append(reqs, post(`{"anyOf": [{"type": "null"}, {"$ref": "#"}]}`), breq{"PUT", "/x/y", "zz", 0})
	}
	for a := range reqs {
		for b := range reqs {
			x.Case(func() string { return fmt.Sprintf("requests %s, %s, ...", reqs[a], reqs[b]) }, func() {
				for c := range reqs {
					lim := 1
					if x.thorough {
						lim = 8
					}
					for d := 0; d < lim; d++ {
						s := server.New()
						seq := []breq{reqs[a], reqs[b], reqs[c]}
						if d > 0 {
							seq = append(seq, reqs[d*2])
						}
						x.Traces++
						for i, r := range seq {
							x.ask(s, r, func() string {
								return fmt.Sprintf("request %d of the sequence %v", i, seq)
							})
						}
					}
				}
			})
		}
	}
	// one server for a long sequence, all pairs next to each other
	x.Case(func() string { return "all pairs of requests in a row to one server" }, func() {
		s := server.New()
		x.Traces++
		for a := range reqs {
			for b := range reqs {
				for _, r := range []breq{reqs[a], reqs[b]} {
					x.ask(s, r, func() string { return fmt.Sprintf("request %s in a long sequence", r) })
				}
			}
		}
	})
	// schemas
	var bodies []string
	for _, t := range append(typeChoices(), nil) {
		for k := 0; k <= 2; k++ {
			if k == 2 && !x.thorough && t != nil {
				continue
			}
			combos(kwAll(), k, func(c []kw) { bodies = append(bodies, text(schemaOf(t, c...))) })
		}
	}
	bodies = append(bodies, richSchemas()...)
	for _, e := range kwValues() {
		bodies = append(bodies, text(schemaOf(nil, e)), text(schemaOf("object", e)))
	}
	for _, o := range oddStrings {
		q := text(o)
		if !strings.Contains(o, "\xff") {
			bodies = append(bodies, `{"enum": [`+q+`]}`, `{"type": "string", "default": `+q+`}`, `{"properties": {`+q+`: {"type": "string"}}}`, `{"required": [`+q+`]}`, `{"title": `+q+`, "type": "number"}`, `{"definitions": {`+q+`: {"type": "number"}}, "type": "null"}`)
		}
	}
	bodies = append(bodies, ` {"type": "string"} `, "\n\t{\"type\": \"string\"}\r\n", `{"type": "string"}{"type": "number"}`, `{"type": "string"} x`, "\ufeff{}", `{"type": "string",}`, `{'type': 'string'}`, `{"type": "string", "type": "number"}`, `{"a": 1e400}`, `true`, `"x"`, `1`, `{"$schema": "http://json-schema.org/draft-04/schema#"}`, `{"type": ["string", "null"]}`, `{"items": []}`, `{"$ref": "#"}`, `{"id": "http://x/"}`, "{\"type\": \"str\xffing\"}", `{"definitions": 3}`, `{"properties": []}`, `{"required": "a"}`, `{"minLength": "a"}`, `{"additionalProperties": 3}`, `{"enum": {}}`, `{"anyOf": {}}`, `{"not": []}`, `{"dependencies": {"a": 3}}`)
	for i := 0; i < len(bodies); i += 50 {
		part := bodies[i:min(i+50, len(bodies))]
		x.Case(func() string { return "posted schemas such as " + part[0] }, func() {
			s := server.New()
			for _, b := range part {
				x.Traces++
				x.ask(s, post(b), func() string { return "posting " + trim(b, 500) })
			}
		})
	}
	// bodies that break or come in pieces
	for _, b := range []string{reqs[2].body, reqs[3].body, reqs[13].body} {
		x.Case(func() string { return "a breaking body: " + b }, func() {
			s := server.New()
			for n := 1; n <= len(b); n++ {
				x.Traces++
				x.ask(s, breq{"POST", "/generate.json", b, n}, func() string { return fmt.Sprintf("%s breaking after %d bytes", b, n) })
			}
			x.ask(s, post(b), func() string { return b + " after many that broke" })
			for how, wrap := range map[string]func(io.Reader) io.Reader{"byte by byte": iotest.OneByteReader, "halves": iotest.HalfReader, "data with EOF": iotest.DataErrReader} {
				rec := httptest.NewRecorder()
				req := httptest.NewRequest("POST", "/generate.json", wrap(strings.NewReader(b)))
				s.ServeHTTP(rec, req)
				x.judge(post(b), rec.Code, rec.Header(), rec.Body.String(), func() string { return b + " " + how })
			}
		})
	}
	for _, n := range []int{100, 1000, 4096, 10000, 32768, 65536, 100000, 300000, 1200000} {
		x.Case(func() string { return fmt.Sprintf("a body of %d bytes", n) }, func() {
			s := server.New()
			for _, b := range []string{`{"title": "` + strings.Repeat("x", n) + `", "type": "string", "minLength": 2}`, `{"type": "string", "minLength": 2` + strings.Repeat(" ", n) + `}`, `{"type": "string", "enum": ["` + strings.Repeat("y", n) + `"]}`} {
				x.Traces++
				x.ask(s, post(b), func() string { return fmt.Sprintf("a schema padded to %d bytes: %s", len(b), trim(b, 100)) })
				x.ask(s, post(b[:len(b)-1]), func() string { return "the same without its end" })
			}
			m := M{}
			for i := 0; i < n/100 && i < 1500; i++ {
				m[nm(i)] = M{"type": "string", "minLength": float64(i)}
			}
			b := text(M{"type": "object", "properties": m})
			x.ask(s, post(b), func() string { return fmt.Sprintf("a schema with %d properties", len(m)) })
		})
	}
	for _, n := range []int{3 << 20, 5 << 20, 9 << 20, 11 << 20, 17 << 20, 33 << 20} {
		x.Case(func() string { return fmt.Sprintf("a body of %d bytes", n) }, func() {
			s := server.New()
			b := `{"title": "` + strings.Repeat("x", n) + `", "type": "string", "minLength": 2}`
			x.Traces++
			x.ask(s, post(b), func() string { return fmt.Sprintf("a schema padded to %d bytes", len(b)) })
			x.ask(s, breq{"POST", "/generate.json", b, n / 2}, func() string { return fmt.Sprintf("a schema padded to %d bytes that breaks off", len(b)) })
		})
	}
	c23headers(x)
	// paths and methods
	x.Case(func() string { return "paths and methods" }, func() {
		s := server.New()
		for _, p := range []string{"/", "/?", "/?a=b", "/generate.json", "/generate.json?x=1", "//", "/x", "/index", "/index.html", "/generate", "/generate.json/", "/Generate.json", "/GENERATE.JSON", "/generatexjson", "/x/generate.json", "/generate.jsonx", "/favicon.ico", "/.", "/..", "/../", "/%20", "/generate%2Ejso", "/~", "/a/b/c", "/robots.txt", "/index.tmpl", "/generate.json%00", "/%", "/generate.html"} {
			for _, m := range []string{"GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS"} {
				for _, b := range []string{"", `{"type": "null"}`} {
					r := breq{m, p, b, 0}
					if strings.HasSuffix(p, "/%") {
						continue
					}
					x.Traces++
					x.ask(s, r, r.String)
				}
			}
		}
	})
	x.Case(func() string { return "over the loopback network" }, func() { x.c23net(reqs) })
}

// c23net: the same through Run, if there is a network to listen on.
func (x *X) c23net(reqs []breq) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		x.count("no loopback network", 1)
		return
	}
	addr := l.Addr().String()
	l.Close()
	s := server.New()
	ended := make(chan error, 1)
	go func() { ended <- s.Run(addr) }()
	up := false
	for i := 0; i < 100 && !up; i++ {
		c, err := net.DialTimeout("tcp", addr, time.Second)
		if err == nil {
			c.Close()
			up = true
			break
		}
		select {
		case <-ended:
			x.count("no loopback network", 1)
			return
		case <-time.After(50 * time.Millisecond):
		}
	}
	if !up {
		x.count("no loopback network", 1)
		return
	}
	cl := &http.Client{Timeout: 30 * time.Second}
	for round := 0; round < 2; round++ {
		for _, r := range reqs {
			if r.fail > 0 {
				continue
			}
			req, err := http.NewRequest(r.method, "http://"+addr+r.path, strings.NewReader(r.body))
			must(err)
			resp, err := cl.Do(req)
			if err != nil {
				x.count("requests without an answer", 1)
				continue
			}
			b, err := io.ReadAll(resp.Body)
			resp.Body.Close()
			if err != nil {
				continue
			}
			x.Traces++
			x.judge(r, resp.StatusCode, resp.Header, string(b), func() string { return "over the network: " + r.String() })
		}
	}
}
