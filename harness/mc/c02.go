package main

import (
	"fmt"
	"net/mail"
	"net/url"
	"strings"
	"time"
)

func init() {
	register(&check{id: "C02", run: c02, traces: validated,
		bounds: "per format: all strings over the format's own alphabet up to a length (5-8), all products of boundary components (octets, groups, labels, date fields), every single edit of valid seeds, long labels/names; x combinations with the other string keywords; unknown format names; 52 shapes of value at lengths at and around powers of two and round numbers up to 100001; 400 names that resemble those of the formats x 14 strings",
		notes:  []string{"RFC 3339, RFC 5322 and URI syntax are taken to be what Go's time, net/mail and net/url parse; host names, IPv4 and IPv6 have grammars of their own in the model"}})
}

func formatOK(f, s string) bool {
	switch f {
	case "date-time", "datetime":
		_, err := time.Parse(time.RFC3339, s)
		return err == nil
	case "email":
		_, err := mail.ParseAddress(s)
		return err == nil
	case "uri":
		_, err := url.Parse(s)
		return err == nil
	case "hostname":
		return hostOK(s)
	case "ipv4":
		return ipv4OK(s)
	case "ipv6":
		return ipv6OK(s)
	}
	return true
}

func hostOK(s string) bool {
	if len(s) == 0 || len(s) > 255 {
		return false
	}
	t := strings.TrimSuffix(s, ".")
	letter := false
	for _, l := range strings.Split(t, ".") {
		if len(l) < 1 || len(l) > 63 || l[0] == '-' || l[len(l)-1] == '-' {
			return false
		}
		for i := 0; i < len(l); i++ {
			c := l[i]
			switch {
			case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c == '_':
				letter = true
			case c >= '0' && c <= '9', c == '-':
			default:
				return false
			}
		}
	}
	return letter
}

func ipv4OK(s string) bool {
	p := strings.Split(s, ".")
	if len(p) != 4 {
		return false
	}
	for _, o := range p {
		if len(o) < 1 || len(o) > 3 || (len(o) > 1 && o[0] == '0') {
			return false
		}
		n := 0
		for i := 0; i < len(o); i++ {
			if o[i] < '0' || o[i] > '9' {
				return false
			}
			n = n*10 + int(o[i]-'0')
		}
		if n > 255 {
			return false
		}
	}
	return true
}

func ipv6OK(s string) bool {
	groups := func(t string, last bool) (int, bool) {
		if t == "" {
			return 0, true
		}
		n := 0
		p := strings.Split(t, ":")
		for i, g := range p {
			if last && i == len(p)-1 && strings.Contains(g, ".") {
				if !ipv4OK(g) {
					return 0, false
				}
				n += 2
				continue
			}
			if len(g) < 1 || len(g) > 4 {
				return 0, false
			}
			for j := 0; j < len(g); j++ {
				c := g[j]
				if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
					return 0, false
				}
			}
			n++
		}
		return n, true
	}
	if !strings.Contains(s, ":") {
		return false
	}
	i := strings.Index(s, "::")
	if i < 0 {
		n, ok := groups(s, true)
		return ok && n == 8
	}
	a, ok1 := groups(s[:i], false)
	b, ok2 := groups(s[i+2:], true)
	return ok1 && ok2 && a+b < 8
}

// edits returns every string one deletion, substitution or insertion away.
func edits(seed string, alpha string) []string {
	out := []string{seed}
	for i := 0; i <= len(seed); i++ {
		if i < len(seed) {
			out = append(out, seed[:i]+seed[i+1:])
			if i+1 < len(seed) {
				out = append(out, seed[:i]+seed[i+1:i+2]+seed[i:i+1]+seed[i+2:])
			}
		}
		for _, c := range alpha {
			out = append(out, seed[:i]+string(c)+seed[i:])
			if i < len(seed) {
				out = append(out, seed[:i]+string(c)+seed[i+1:])
			}
		}
	}
	return out
}

func (x *X) formats(f string, strs []string) {
	seen := map[string]bool{}
	var vals []J
	for _, s := range strs {
		if !seen[s] {
			seen[s] = true
			vals = append(vals, s)
		}
	}
	for len(vals) > 0 {
		n := 1000
		if n > len(vals) {
			n = len(vals)
		}
		s := &Spec{Kind: "string", Format: f}
		chunk := vals[:n]
		x.Case(func() string { return fmt.Sprintf("%s on %d strings from %s", s, len(chunk), show(chunk[0])) }, func() {
			x.gridBody(s, nil, chunk, s.Validator(nil))
		})
		vals = vals[n:]
	}
}

func chars(s string) []string {
	var out []string
	for _, c := range s {
		out = append(out, string(c))
	}
	return out
}

func c02(x *X) {
	x.longFormats()
	x.formatNames()
	d := 0
	if x.thorough {
		d = 1
	}
	// date-time
	var ss []string
	for _, f := range []string{"date-time", "datetime"} {
		ss = nil
		for _, seed := range []string{"2006-01-02T15:04:05Z", "2016-02-29T23:59:59+09:00", "1999-12-31T00:00:00.123-11:30", "0000-01-01T00:00:00Z", "9999-12-31T23:59:59.999999999+14:00"} {
			ss = append(ss, edits(seed, "0123456789-+:.,TZtz /a ")...)
		}
		for _, y := range []string{"1900", "2000", "2015", "2016", "2100"} {
			for m := 0; m <= 13; m++ {
				for dd := 0; dd <= 32; dd++ {
					ss = append(ss, fmt.Sprintf("%s-%02d-%02dT12:00:00Z", y, m, dd))
				}
			}
		}
		for h := 0; h <= 25; h++ {
			for _, mi := range []int{0, 1, 30, 59, 60, 61, 99} {
				for _, se := range []int{0, 1, 30, 58, 59, 60, 61, 99} {
					ss = append(ss, fmt.Sprintf("2015-06-30T%02d:%02d:%02dZ", h, mi, se))
				}
			}
		}
		for h := 0; h <= 25; h++ {
			for _, mi := range []int{0, 1, 30, 45, 59, 60, 61} {
				for _, sg := range "+-" {
					ss = append(ss, fmt.Sprintf("2015-06-30T01:02:03%c%02d:%02d", sg, h, mi), fmt.Sprintf("2015-06-30T01:02:03.5%c%02d%02d", sg, h, mi))
				}
			}
		}
		for n := 0; n <= 24; n++ {
			ss = append(ss, "2015-06-30T01:02:03."+repeat("1", n)+"Z", "2015-06-30T01:02:03"+repeat("1", n), repeat("1", n)+"-06-30T01:02:03Z")
		}
		ss = append(ss, "", "2015-06-30", "01:02:03Z", "2015-06-30T01:02:03", "2015-06-30 01:02:03Z", "2015-06-30t01:02:03z", "Mon, 02 Jan 2006 15:04:05 MST", "20150630T010203Z")
		x.formats(f, ss)
	}
	// email
	ss = stringsOver(chars("a@.\"<> (),\\:"), 4)
	ss = append(ss, stringsOver(chars("a@.<> "), 6+d)...)
	for _, seed := range []string{"a@b", "joe.doe@example.com", "Joe <joe@example.com>", "\"J. D\" <j@x.org>", "a+b@c-d.e", "jürgen@example.de", "joe@[127.0.0.1]", "=?utf-8?q?J=C3=B6rg?= <j@e.de>"} {
		ss = append(ss, edits(seed, "a@.<>\" (),;:[]\\é0\n")...)
	}
	for n := 0; n < 140; n += 1 {
		ss = append(ss, repeat("a", n)+"@b", "a@"+repeat("b", n), "a@"+repeat("b.", n)+"c", repeat("a.", n)+"a@b")
	}
	x.formats("email", ss)
	// hostname
	ss = stringsOver(chars("a1-_.Z"), 6+d)
	for n := 1; n <= 66; n++ {
		l := repeat("a", n)
		ss = append(ss, l, l+".b", "b."+l, "b."+l+".c", l+".", "1."+repeat("1", n), repeat("1", n-1)+"a", "a"+repeat("-", n), "a"+repeat("-", n)+"b", repeat("é", n), "x."+l+"."+l+".y")
	}
	for n := 240; n <= 262; n++ {
		l := repeat(repeat("a", 49)+".", 5)
		if n > len(l) {
			ss = append(ss, l+repeat("b", n-len(l)), l+repeat("b", n-len(l)-1)+".")
		}
		ss = append(ss, repeat("a.", n/2), repeat("a.", n/2)+"a")
	}
	for c := 0; c < 256; c++ {
		b := string([]byte{byte(c)})
		ss = append(ss, "a"+b+"a", b+"a", "a"+b, b, "a."+b, b+".a", "1"+b)
	}
	x.formats("hostname", ss)
	// ipv4
	oct := []string{"0", "1", "9", "10", "99", "100", "255", "256", "260", "999", "00", "01", "", "1a", "-1"}
	ss = nil
	for _, a := range oct {
		for _, b := range oct {
			for _, c := range oct {
				for _, e := range oct {
					ss = append(ss, a+"."+b+"."+c+"."+e)
				}
				ss = append(ss, a+"."+b+"."+c)
			}
		}
	}
	for n := 0; n <= 1000; n++ {
		for p := 0; p < 4; p++ {
			q := []string{"1", "2", "3", "4"}
			q[p] = fmt.Sprint(n)
			ss = append(ss, strings.Join(q, "."))
			q[p] = fmt.Sprintf("%03d", n)
			ss = append(ss, strings.Join(q, "."))
		}
	}
	ss = append(ss, stringsOver(chars("15.0"), 7+d)...)
	for _, seed := range []string{"127.0.0.1", "255.255.255.255", "1.2.3.4.5", "0.0.0.0"} {
		ss = append(ss, edits(seed, "0129.: af-+x١")...)
	}
	ss = append(ss, "::1", "::ffff:1.2.3.4", "1.2.3.4/24", "1.2.3.4:80", "0x7f.0.0.1", "1,2,3,4")
	x.formats("ipv4", ss)
	// ipv6
	ss = stringsOver(chars(":1f.%"), 7+d)
	grp := []string{"", "0", "1", "f", "F", "ffff", "10000", "g", "0000"}
	for _, a := range grp {
		for _, b := range grp {
			for n := 0; n <= 8; n++ {
				for gap := -1; gap <= n; gap++ {
					p := []string{}
					for i := 0; i < n; i++ {
						switch {
						case i == n-1:
							p = append(p, b)
						case i == n/2:
							p = append(p, a)
						default:
							p = append(p, "2")
						}
					}
					for _, v4 := range []string{"-", "1.2.3.4", "256.1.1.1", "01.2.3.4", "1.2.3"} {
						q := append([]string{}, p...)
						if v4 != "-" {
							q = append(q, v4)
						}
						s := strings.Join(q, ":")
						if gap >= 0 {
							g := gap
							if g > len(q) {
								g = len(q)
							}
							s = strings.Join(q[:g], ":") + "::" + strings.Join(q[g:], ":")
						}
						ss = append(ss, s)
					}
				}
			}
		}
	}
	for _, seed := range []string{"::1", "2001:db8::8a2e:370:7334", "1:2:3:4:5:6:7:8", "::ffff:192.0.2.128", "fe80::1%eth0", "FF02::1", "::"} {
		ss = append(ss, edits(seed, "0129abfgAFG:.%- ")...)
	}
	ss = append(ss, "127.0.0.1", "1.2.3.4", "[::1]", "::1/128")
	for c := 0; c < 128; c++ {
		ss = append(ss, "::"+string(rune(c)), string(rune(c))+"::")
	}
	x.formats("ipv6", ss)
	// uri
	ss = stringsOver(chars("a:/%?#[]@ 2\x7f"), 4+d)
	for _, seed := range []string{"http://example.com/a?b=c#d", "urn:isbn:0451450523", "mailto:a@b", "http://[::1]:80/", "http://u:p@h:1/%41", "//h/p", "../x", "http://h:port/", "1http://x", "ht tp://x", "http://a b/", "%zz", "http://[fe80::1%25en0]/"} {
		ss = append(ss, edits(seed, "a:/%?#[]@ 2\n\x7f\"<é")...)
	}
	x.formats("uri", ss)
	// unknown names, and names of other cases
	junk := []string{"", "a", "x y", "::", "1.2.3.4", "2006-01-02T15:04:05Z", "a@b", "%zz", "http://a b/", "日本", repeat("-", 300)}
	for _, f := range []string{"foo", "date", "time", "ipv5", "ip", "URI", "Email", "IPV4", "Date-Time", "dateTime", "regex", "uuid", "host-name", "ip-address", "uri-reference", "idn-email", "ipv4 ", " ipv6", "hostnames", "mail", "phone", "color", "%s"} {
		x.formats(f, junk)
	}
	// combined with the other keywords
	samples := map[string][]string{
		"date-time": {"2006-01-02T15:04:05Z", "2006-01-02T15:04:05.5Z", "2006-01-02", "a", ""},
		"email":     {"a@b", "joe@example.com", "a@", "b", ""},
		"hostname":  {"a", "a.b", "example.com", "-", "1", ""},
		"ipv4":      {"1.2.3.4", "127.0.0.1", "1.2.3", "256.1.1.1", ""},
		"ipv6":      {"::", "::1", "2001:db8::1", ":", "1.2.3.4", ""},
		"uri":       {"/", "http://x/", "a", "%zz", ""},
		"other":     {"", "a", "%zz", "1.2.3.4"},
	}
	for _, f := range []string{"date-time", "email", "hostname", "ipv4", "ipv6", "uri", "other"} {
		var vals []J
		for _, s := range samples[f] {
			vals = append(vals, s, sp(s), namedString(s))
		}
		vals = append(vals, notStrings()...)
		for _, mi := range []*int{nil, ip(0), ip(2), ip(4)} {
			for _, ma := range []*int{nil, ip(1), ip(9), ip(25)} {
				for _, r := range []string{"", "1", "^a", "[.:]"} {
					for _, e := range [][]J{nil, {samples[f][0], samples[f][3]}, {"zzz"}} {
						x.grid(&Spec{Kind: "string", Format: f, MinLen: mi, MaxLen: ma, HasRx: r != "", Rx: r, HasEnum: e != nil, Enum: e}, nil, vals)
					}
				}
			}
		}
	}
}
