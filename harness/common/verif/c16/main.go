//go:build go1.21

// C16: every message kind, every combination of two boundary values of its
// fields, and every ordered pair of kinds.
package main

import (
	"fmt"
	"reflect"

	"github.com/ConsenSys/fc-retrieval/common/verif/codecs"
	"github.com/ConsenSys/fc-retrieval/common/verif/vh"
)

var t *vh.T

func bad(key, format string, a ...interface{}) {
	d := fmt.Sprintf(format, a...)
	if len(d) > 3000 {
		d = d[:3000]
	}
	t.Violate(key, d, d)
}

func roundtrip(k codecs.Kind, args []reflect.Value, what string) {
	t.Case(func() string { return k.Name + " " + what })
	t.Eval()
	t.Distinct(k.Name + what)
	t.Try("crash:"+k.Name, k.Name+" "+what, func() {
		want := codecs.ShowAll(args)
		msg, err := k.Encode(args)
		if err != nil {
			bad("encode:"+k.Name, "%s does not encode %s: %v", k.Name, want, err)
			return
		}
		if now := codecs.ShowAll(args); fmt.Sprint(now) != fmt.Sprint(want) {
			bad("argument:"+k.Name, "encoding %s changes its arguments from %s to %s", k.Name, want, now)
		}
		show := codecs.Show(msg)
		far, err := codecs.Wire(msg)
		if err != nil {
			bad("wire:"+k.Name, "%s %s: %v", k.Name, want, err)
			return
		}
		if codecs.Show(far) != show {
			bad("wire:"+k.Name, "%s becomes %s on the wire", show, codecs.Show(far))
		}
		for i, x := range []interface{ GetMessageType() int32 }{msg, far} {
			var got []reflect.Value
			if i == 0 {
				got, err = k.Decode(msg)
			} else {
				got, err = k.Decode(far)
			}
			_ = x
			if err != nil {
				bad("decode:"+k.Name, "%s of %s does not decode: %v", k.Name, want, err)
				continue
			}
			if g := codecs.ShowAll(got); fmt.Sprint(g) != fmt.Sprint(want) {
				bad("value:"+k.Name, "%s of %s decodes as %s (over the wire: %v)", k.Name, want, g, i == 1)
			}
		}
		if codecs.Show(msg) != show {
			bad("changed:"+k.Name, "decoding changes the message %s to %s", show, codecs.Show(msg))
		}
	})
}

func sameType(k, other codecs.Kind) bool {
	x, err1 := k.Encode(k.Base())
	y, err2 := other.Encode(other.Base())
	return err1 == nil && err2 == nil && x.GetMessageType() == y.GetMessageType()
}

func main() {
	vh.Main(func(x *vh.T) {
		t = x
		t.Assume("text fields hold valid UTF-8 and encoders get complete arguments (no nil pointers)")
		for n, k := range codecs.Kinds {
			if !t.Mine(n) {
				continue
			}
			in := k.Enc.Type().NumIn()
			out := k.Dec.Type().NumOut() - 1
			if in != out {
				bad("shape:"+k.Name, "%s encodes %d values and decodes %d", k.Name, in, out)
				continue
			}
			base := k.Base()
			roundtrip(k, base, "base")
			dom := make([][]interface{}, in)
			for i := range dom {
				dom[i] = codecs.Domain(k.Enc.Type().In(i), k.Name, i)
			}
			with := func(idx ...int) []reflect.Value {
				a := append([]reflect.Value{}, base...)
				for i := 0; i < len(idx); i += 2 {
					a[idx[i]] = reflect.ValueOf(dom[idx[i]][idx[i+1]])
				}
				return a
			}
			for i := range dom {
				for a := range dom[i] {
					roundtrip(k, with(i, a), fmt.Sprint(i, ":", a))
					for j := i + 1; j < in; j++ {
						for b := range dom[j] {
							roundtrip(k, with(i, a, j, b), fmt.Sprint(i, ":", a, " ", j, ":", b))
							if t.Thorough() {
								for l := j + 1; l < in; l++ {
									for c := range dom[l] {
										roundtrip(k, with(i, a, j, b, l, c), fmt.Sprint(i, ":", a, " ", j, ":", b, " ", l, ":", c))
									}
								}
							}
						}
					}
				}
			}
			// no decoder takes another kind's message
			msgs := [][]reflect.Value{base}
			for i := range dom {
				for a := range dom[i] {
					msgs = append(msgs, with(i, a))
				}
			}
			for o, other := range codecs.Kinds {
				if o == n {
					continue
				}
				for _, a := range msgs {
					t.EvalN(1)
					t.Try("crash:"+other.Name, k.Name+" to "+other.Name, func() {
						msg, err := k.Encode(a)
						if err != nil {
							return
						}
						if _, err := other.Decode(msg); err == nil && !sameType(k, other) {
							bad("mistaken:"+k.Name+"-as-"+other.Name, "a %s message is decoded as %s", k.Name, other.Name)
						}
					})
				}
				if k.Name < other.Name && sameType(k, other) {
					bad("same-type:"+k.Name+"-"+other.Name, "%s and %s share a type number and are taken for each other", k.Name, other.Name)
				}
			}
		}
		t.Sample(map[string]interface{}{"kinds": len(codecs.Kinds)})
	})
}
