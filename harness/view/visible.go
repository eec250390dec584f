package view

import "hbuf/zz_verif/src"

// Visible returns the fields encoding/json sees in a Go struct: those of the
// least depth, if there is just one of it.
func Visible(v *Data, find func(string) *Data) (wires []string, types [][]src.Tok) {
	type cand struct {
		f     Field
		depth int
	}
	var all []cand
	seen := map[string]bool{}
	level := []*Data{v}
	for depth := 0; len(level) > 0; depth++ {
		count := map[string]int{}
		var next []*Data
		for _, d := range level {
			count[d.Name]++
		}
		for _, d := range level {
			if seen[d.Name] {
				continue
			}
			seen[d.Name] = true
			for _, f := range d.Parts["field"] {
				for k := 0; k < count[d.Name] && k < 2; k++ {
					all = append(all, cand{f, depth})
				}
			}
			for _, e := range d.Ext {
				if x := find(e); x != nil {
					next = append(next, x)
				}
			}
		}
		level = next
	}
	var done []string
next:
	for _, c := range all {
		for _, n := range done {
			if n == c.f.Wire {
				continue next
			}
		}
		done = append(done, c.f.Wire)
		min, n := c, 0
		for _, o := range all {
			if o.f.Wire == c.f.Wire {
				if o.depth < min.depth {
					min = o
				}
			}
		}
		for _, o := range all {
			if o.f.Wire == c.f.Wire && o.depth == min.depth {
				n++
			}
		}
		if n == 1 {
			wires = append(wires, min.f.Wire)
			types = append(types, min.f.Type)
		}
	}
	return
}
