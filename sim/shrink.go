package main

import (
	"time"
)

// shrink minimises a failing scenario: it removes operations, simplifies their
// arguments and the configuration as long as a violation of the same class (and
// the same known-finding signature) remains.
func shrink(p Prop, sc *Scenario, v *Violation, budget time.Duration) (*Scenario, *Violation, int) {
	deadline := time.Now().Add(budget)
	tries := 0
	best, bestV := sc.clone(), v
	test := func(c *Scenario) bool {
		if time.Now().After(deadline) || tries > 20000 {
			return false
		}
		tries++
		nv := runSafe(p, c, NewStats())
		if nv != nil && nv.Class == v.Class && nv.Sig == v.Sig {
			best, bestV = c.clone(), nv
			return true
		}
		return false
	}
	// steps after the violation are irrelevant
	for round := 0; round < 8; round++ {
		before := tries
		changed := false
		// ddmin over operations
		for size := len(best.Ops) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best.Ops); {
				c := best.clone()
				c.Ops = append(c.Ops[:i:i], c.Ops[i+size:]...)
				if test(c) {
					changed = true
				} else {
					i += size
				}
			}
		}
		// search fields
		for i := 0; i < len(best.Strs); {
			c := best.clone()
			c.Strs = append(c.Strs[:i:i], c.Strs[i+1:]...)
			if test(c) {
				changed = true
			} else {
				i++
			}
		}
		// configuration
		for _, k := range sortedKeys(best.Cfg) {
			for _, n := range []int64{0, best.Cfg[k] / 2, best.Cfg[k] - 1} {
				if n < 0 || n >= best.Cfg[k] {
					continue
				}
				c := best.clone()
				c.Cfg[k] = n
				if test(c) {
					changed = true
					break
				}
			}
		}
		// arguments
		for i := 0; i < len(best.Ops); i++ {
			for {
				progress := false
				for _, cand := range simplifications(best.Ops[i]) {
					c := best.clone()
					c.Ops[i] = cand
					if test(c) {
						progress, changed = true, true
						break
					}
				}
				if !progress || time.Now().After(deadline) {
					break
				}
			}
		}
		if !changed || tries == before || time.Now().After(deadline) {
			break
		}
	}
	return best, bestV, tries
}

func simplifications(o Op) []Op {
	var out []Op
	num := func(get func(*Op) *int64) {
		v := *get(&o)
		for _, n := range []int64{0, v / 2, v - 1} {
			if v > 0 && n >= 0 && n < v {
				c := o
				*get(&c) = n
				out = append(out, c)
			}
		}
	}
	if o.F != nil {
		c := o
		c.F = nil
		out = append(out, c)
		for _, n := range []int64{0, o.F.At / 2, o.F.At - 1} {
			if n >= 0 && n < o.F.At {
				c := o
				f := *o.F
				f.At = n
				c.F = &f
				out = append(out, c)
			}
		}
	}
	num(func(o *Op) *int64 { return &o.N })
	num(func(o *Op) *int64 { return &o.M })
	num(func(o *Op) *int64 { return &o.L })
	if len(o.S) > 0 {
		c := o
		c.S = o.S[:len(o.S)/2]
		out = append(out, c)
		c.S = o.S[:len(o.S)-1]
		out = append(out, c)
	}
	if len(o.B) > 0 {
		c := o
		c.B = append([]byte(nil), o.B[:len(o.B)/2]...)
		out = append(out, c)
		c.B = append([]byte(nil), o.B[:len(o.B)-1]...)
		out = append(out, c)
	}
	if o.Rec != nil {
		for _, r := range o.Rec.simpler() {
			c := o
			c.Rec = r
			out = append(out, c)
		}
	}
	return out
}
