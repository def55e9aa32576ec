//go:build go1.21

// Package vconf enumerates the settings given to a component and says what it must run with.
package vconf

import (
	"flag"
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/spf13/pflag"

	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
)

// Kind is the kind of a setting.
type Kind int

// The kinds.
const (
	Str Kind = iota
	Int
	Bool
	Dur
	Amount
	Byte // must be given, or the component does not start
	Addr // the address of this computer: in the environment, on the command line, or neither
)

// Setting is one setting and the fields it decides.
type Setting struct {
	Name    string
	Kind    Kind
	Default interface{}
}

// none is a setting not made.
const none = "\x00"

// class is a value and what comes of it (nil: the default).
type class struct {
	in  string
	out interface{}
}

// classes are the values of a setting, the first an ordinary one.
func (s Setting) classes(thorough bool) []class {
	switch s.Kind {
	case Int:
		return []class{{"7", 7}, {none, 0}, {"0", 0}, {"123456", 123456}}
	case Bool:
		return []class{{"true", true}, {none, false}, {"false", false}}
	case Dur:
		l := []class{{"1250ms", 1250 * time.Millisecond}, {none, nil}, {"7s", 7 * time.Second}, {"1h2m", 62 * time.Minute}, {"abc", nil}, {"5", nil}}
		return l
	case Amount:
		return []class{{"4711", "4711"}, {none, nil}, {"0", "0"}, {"1", "1"}, {"123456789012345678901234567890", "123456789012345678901234567890"},
			{"9223372036854775808", "9223372036854775808"}, {"0.001", nil}, {"1e15", nil}, {"10 FIL", nil}, {"12,5", nil}, {"abc", nil}}
	case Byte:
		return []class{{"2", 2}, {"0", 0}, {"1", 1}, {"255", 255}, {none, refuse}, {"256", refuse}, {"-1", refuse}, {"x", refuse}, {"1.5", refuse}}
	case Addr:
		return []class{{"10.1.2.3", "10.1.2.3"}, {none, nil}, {"--ip=10.9.8.7", "10.9.8.7"}, {"--ip=host.example", "host.example"}}
	}
	return []class{{"value of " + s.Name, "value of " + s.Name}, {none, ""}, {"a=b c:9", "a=b c:9"}, {"0", "0"}}
}

type no struct{}

// refuse is the outcome that the component does not start.
var refuse = no{}

// Check gives a component every way of making two (thorough: three) settings, with all others made or none made.
// read reads them as the component does at its start and writes out each of its fields; fields are the fields each to be
// of the value given (several settings joined with ':').
func Check(t *vh.T, settings []Setting, fields map[string]string, read func() map[string]string) {
	os.Args = os.Args[:1]
	index := map[string]int{}
	for i, s := range settings {
		index[s.Name] = i
		if s.Kind != Addr {
			os.Unsetenv(s.Name)
		}
	}
	os.Unsetenv("IP")
	os.Unsetenv("HOST")
	names := []string{}
	for f := range fields {
		names = append(names, f)
	}
	sort.Strings(names)
	cl := make([][]class, len(settings))
	for i, s := range settings {
		cl[i] = s.classes(t.Thorough())
		t.Count("values of settings", len(cl[i]))
	}
	cur := make([]class, len(settings))
	set := func(i int, c class) {
		cur[i] = c
		n := settings[i].Name
		switch {
		case settings[i].Kind == Addr && strings.HasPrefix(c.in, "--"):
			os.Unsetenv("IP")
			os.Args = []string{os.Args[0], c.in}
		case settings[i].Kind == Addr:
			os.Args = os.Args[:1]
			if c.in == none {
				os.Unsetenv("IP")
			} else {
				os.Setenv("IP", c.in)
			}
		case c.in == none:
			os.Unsetenv(n)
		default:
			os.Setenv(n, c.in)
		}
	}
	value := func(i int) string {
		c := cur[i]
		if c.out == nil {
			return fmt.Sprint(settings[i].Default)
		}
		return fmt.Sprint(c.out)
	}
	k := 0
	var what string
	t.Case(func() string { return what })
	run := func(base string, is ...int) {
		if k++; !t.Mine(k) || t.Over() {
			return
		}
		what = "settings " + base
		refused := false
		for i := range settings {
			refused = refused || cur[i].out == refuse
		}
		for _, i := range is {
			v := cur[i].in
			if v == none {
				v = "not made"
			}
			what += fmt.Sprintf(", %s %q", settings[i].Name, v)
		}
		t.Eval()
		t.Distinct(what)
		t.Sample(what)
		var got map[string]string
		ok := func() (ok bool) {
			defer func() {
				if r := recover(); r != nil {
					ok = false
				}
			}()
			flag.CommandLine = flag.NewFlagSet(os.Args[0], flag.ContinueOnError)
			pflag.CommandLine = pflag.NewFlagSet(os.Args[0], pflag.ContinueOnError)
			got = read()
			return true
		}()
		if refused {
			t.Outcome("refused")
			if ok {
				t.Violate("started", what+": the component starts", what)
			}
			return
		}
		t.Outcome("started")
		if !ok {
			t.Violate("refused", what+": the component does not start", what)
			return
		}
		for _, f := range names {
			exp := []string{}
			for _, n := range strings.Split(fields[f], ":") {
				i, ok := index[n]
				if !ok {
					panic("harness: no setting " + n)
				}
				exp = append(exp, value(i))
			}
			e := strings.Join(exp, ":")
			if g, ok := got[f]; !ok || g != e {
				t.Violate("setting:"+f, fmt.Sprintf("%s: %s is %q instead of %q", what, f, got[f], e), what)
			}
		}
	}
	for _, base := range []string{"all made", "none made"} {
		back := func(i int) {
			c := cl[i][0]
			if base == "none made" && settings[i].Kind != Byte {
				c = cl[i][1]
			}
			set(i, c)
		}
		for i := range settings {
			back(i)
		}
		run(base)
		for i := range settings {
			for _, a := range cl[i] {
				set(i, a)
				run(base, i)
				for j := i + 1; j < len(settings); j++ {
					for _, b := range cl[j] {
						set(j, b)
						run(base, i, j)
						if t.Thorough() {
							for l := j + 1; l < len(settings); l++ {
								for _, c := range cl[l] {
									set(l, c)
									run(base, i, j, l)
								}
								back(l)
							}
						}
					}
					back(j)
				}
				if t.Over() {
					t.NotExhaustive("deadline")
					return
				}
			}
			back(i)
		}
	}
	t.Count("combinations", k)
	t.Note("bound", fmt.Sprintf("%d settings, every %d of them at all their values, the others made or not", len(settings), t.Pick(2, 3)))
}

// Text writes a field out.
func Text(v interface{}) string {
	if b, ok := v.(*big.Int); ok && b == nil {
		return "(nil)"
	}
	return fmt.Sprint(v)
}
