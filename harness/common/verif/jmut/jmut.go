//go:build go1.21

// Package jmut enumerates single alterations of a JSON document: every node
// removed, given every other type, emptied, made extreme, lists emptied,
// doubled and grown; and every cut of the text.
package jmut

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// Mut is one alteration.
type Mut struct {
	Where, What string
	Body        []byte
}

func (m Mut) String() string { return m.Where + " " + m.What }

// raw is a JSON text put in the place of a node
type raw string

func (r raw) MarshalJSON() ([]byte, error) { return []byte(r), nil }

var texts = map[string]string{
	"a short hex":    `"2a"`,
	"odd hex":        `"2"`,
	"not hex":        `"zz"`,
	"65 hex digits":  `"` + strings.Repeat("0", 65) + `"`,
	"66 hex digits":  `"` + strings.Repeat("0", 66) + `"`,
	"zeros":          `"` + strings.Repeat("0", 64) + `"`,
	"a long text":    `"` + strings.Repeat("f", 20000) + `"`,
	"base64":         `"AAAA"`,
	"base64 33":      `"` + base64.StdEncoding.EncodeToString(make([]byte, 33)) + `"`,
	"a proof of nil": `"AAAABG51bGwAAAAEbnVsbA=="`,
	"odd text":       `"\u0000\"\\\ud800 \u2028"`,
}

func replacements(v interface{}) map[string]interface{} {
	r := map[string]interface{}{
		"null": nil, "true": true, "false": false, "zero": raw("0"), "minus one": raw("-1"), "a fraction": raw("1.5"), "2^63": raw("9223372036854775808"), "2^64": raw("18446744073709551616"), "-2^63": raw("-9223372036854775808"), "max int64": raw("9223372036854775807"), "max uint64": raw("18446744073709551615"),
		"2^31": raw("2147483648"), "1e400": raw("1e400"), "empty text": "", "empty list": []interface{}{}, "empty object": map[string]interface{}{}, "a list of null": []interface{}{nil}, "a list of lists": []interface{}{[]interface{}{}}, "an object in a list": []interface{}{map[string]interface{}{}},
	}
	if _, ok := v.(string); ok {
		for k, t := range texts {
			r[k] = raw(t)
		}
	}
	if s, ok := v.(string); ok {
		r["cut by one"] = cut(s, 1)
		r["cut by two"] = cut(s, 2)
		r["extended"] = s + "00"
		if b, err := base64.StdEncoding.DecodeString(s); err == nil && len(b) > 0 {
			r["base64 cut"] = base64.StdEncoding.EncodeToString(b[:len(b)-1])
			c := append([]byte{}, b...)
			c[0] ^= 0x80
			r["base64 first byte"] = base64.StdEncoding.EncodeToString(c)
		}
	}
	if l, ok := v.([]interface{}); ok && len(l) > 0 {
		r["doubled"] = append(append([]interface{}{}, l...), l...)
		r["without its first"] = append([]interface{}{}, l[1:]...)
		var many []interface{}
		for i := 0; i < 300; i++ {
			many = append(many, l[i%len(l)])
		}
		r["300 of them"] = many
		r["with null"] = append(append([]interface{}{}, l...), nil)
	}
	return r
}

func cut(s string, n int) string {
	if len(s) < n {
		return ""
	}
	return s[:len(s)-n]
}

type place struct {
	where string
	set   func(v interface{})
	drop  func()
	val   interface{}
}

// places lists all nodes of a document, with how to change each in place
func places(where string, v interface{}, set func(interface{}), drop func(), out *[]place) {
	*out = append(*out, place{where, set, drop, v})
	switch x := v.(type) {
	case map[string]interface{}:
		ks := []string{}
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			k := k
			places(where+"."+k, x[k], func(n interface{}) { x[k] = n }, func() { delete(x, k) }, out)
		}
	case []interface{}:
		for i := range x {
			i := i
			places(fmt.Sprintf("%s[%d]", where, i), x[i], func(n interface{}) { x[i] = n }, nil, out)
		}
	}
}

func parse(b []byte) interface{} {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	if d.Decode(&v) != nil {
		return nil
	}
	return v
}

func sortedKeys(m map[string]interface{}) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// One enumerates every single alteration.
func One(body []byte, f func(m Mut)) {
	root := parse(body)
	var ps []place
	places("", root, func(v interface{}) { root = v }, nil, &ps)
	emit := func(w, what string) {
		b, err := json.Marshal(root)
		if err != nil {
			return
		}
		f(Mut{w, what, b})
	}
	for _, p := range ps {
		save := p.val
		if p.drop != nil {
			p.drop()
			emit(p.where, "removed")
			p.set(save)
		}
		rs := replacements(p.val)
		for _, k := range sortedKeys(rs) {
			p.set(rs[k])
			emit(p.where, k)
			p.set(save)
		}
	}
	// a text inside that is itself base64 of JSON: alter that too
	for _, p := range ps {
		s, ok := p.val.(string)
		if !ok {
			continue
		}
		in, err := base64.StdEncoding.DecodeString(s)
		if err != nil || len(in) < 2 || in[0] != '{' || parse(in) == nil {
			continue
		}
		p := p
		One(in, func(m Mut) {
			p.set(base64.StdEncoding.EncodeToString(m.Body))
			emit(p.where+"/"+m.Where, m.What)
			p.set(s)
		})
	}
}

// Texts enumerates cuts and single-byte changes of the text.
func Texts(body []byte, step int, f func(m Mut)) {
	for i := 0; i < len(body); i += step {
		f(Mut{fmt.Sprint(i), "cut", append([]byte{}, body[:i]...)})
		for _, c := range []byte{0, '"', '}', ']', '9', 0xff} {
			b := append([]byte{}, body...)
			b[i] = c
			f(Mut{fmt.Sprint(i), fmt.Sprintf("byte %q", c), b})
		}
	}
	for i, s := range []string{"", "null", "[]", "{}", "0", `""`, "true", "[null]", strings.Repeat("[", 9000), strings.Repeat(`{"a":`, 9000), "\x00", "{\"nonce\":1}", "[{}]"} {
		f(Mut{"whole", fmt.Sprintf("odd %d", i), []byte(s)})
	}
}

// Two enumerates pairs of alterations from a narrower menu.
func Two(body []byte, menu []string, f func(m Mut)) {
	root := parse(body)
	var ps []place
	places("", root, func(v interface{}) { root = v }, nil, &ps)
	for i, p := range ps {
		if p.where == "" {
			continue
		}
		for _, k := range append([]string{"removed"}, menu...) {
			v, ok := replacements(p.val)[k]
			if k == "removed" {
				if p.drop == nil {
					continue
				}
				p.drop()
			} else if !ok {
				continue
			} else {
				p.set(v)
			}
			for _, q := range ps[i+1:] {
				if strings.HasPrefix(q.where, p.where) {
					continue
				}
				for _, l := range append([]string{"removed"}, menu...) {
					w, ok := replacements(q.val)[l]
					if l == "removed" {
						if q.drop == nil {
							continue
						}
						q.drop()
					} else if !ok {
						continue
					} else {
						q.set(w)
					}
					if b, err := json.Marshal(root); err == nil {
						f(Mut{p.where + " and " + q.where, k + " and " + l, b})
					}
					q.set(q.val)
				}
			}
			p.set(p.val)
		}
	}
}
