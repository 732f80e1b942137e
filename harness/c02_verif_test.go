package zygo

import (
	"strings"
	"testing"
)

func TestVerifC02(t *testing.T) {
	v := vBegin(t, "C02", "random programs of the core language (4-14 top-level forms, expressions nested to depth 5; variables of five kinds under few names, closures, loops with labelled jumps, data updates, failing forms) run form by form and as one text, and the directed programs; values, error/no error and the ordered log of effects are compared with the direct reference evaluator. Non-trivial: distinct programs both evaluators ran to the end.")
	defer v.finish()
	for _, d := range c02directed {
		v.at(d)
		forms := []string{}
		for _, f := range rRead(d) {
			forms = append(forms, rSrc(f))
		}
		m, ok := c02forms(forms)
		if ok && m == "" {
			v.count(d)
		} else if !ok {
			v.fail("reference", "the reference does not run this directed program", d)
		} else {
			v.fail("directed", m, d)
		}
	}
	for i := 0; v.more(); i++ {
		g := newPgen(v.rng, c02mixes[i%len(c02mixes)])
		forms := g.program(4+v.rng.Intn(10), 1+v.rng.Intn(4))
		src := strings.Join(forms, "\n")
		v.at(src)
		m, ok := c02forms(forms)
		if !ok {
			v.tally("reference budget")
			continue
		}
		v.count(src)
		if m != "" {
			small := c02shrink(forms, func(fs []string) bool { m, ok := c02forms(fs); return ok && m != "" })
			m2, _ := c02forms(small)
			v.fail("differs", m2, strings.Join(small, "\n"))
			continue
		}
		// as one text: the value of the last form, or the first error
		tw := newTwin()
		o, want, ok := tw.step(src)
		if !ok {
			continue
		}
		if m := tw.compare(o, want); m != "" {
			small := c02shrink(forms, func(fs []string) (bad bool) {
				defer func() {
					if recover() != nil {
						bad = false
					}
				}()
				tw := newTwin()
				o, want, ok := tw.step(strings.Join(fs, "\n"))
				return ok && tw.compare(o, want) != ""
			})
			v.fail("whole-text", m, strings.Join(small, "\n"))
		}
		if want == "ERROR" {
			v.tally("programs ending in an error")
		} else {
			v.tally("programs ending in a value")
		}
	}
}
