package ai

import (
	"fmt"
	"sort"
	"strings"
)

// Dump prints the state (debugging).
func (s *State) Dump() {
	for k, h := range s.Held {
		fmt.Println("   held", k, h.W, h.N, k.Old)
	}
	for k, h := range s.Spawn {
		fmt.Println("   spawn", k, h.W, h.N)
	}
	for k, v := range s.Mem {
		fmt.Println("   mem", k, "=", v, v.hasFn)
	}
	for k, v := range s.Marks {
		fmt.Println("   mark", k, "=", v)
	}
	for k, m := range s.Maps {
		fmt.Println("   map", k, len(m))
	}
	for k, m := range s.Iter {
		fmt.Println("   iter", k, len(m))
	}
	for k, m := range s.Facts {
		fmt.Println("   fact", k, m)
	}
}

// KeyDump shows what propKey depends on.
func (s *State) KeyDump() string {
	var l []string
	for i, f := range s.Frames {
		for r, v := range f.Regs {
			if hasFn(v) {
				l = append(l, fmt.Sprintf("R%d.%s=%v", i, r.Name(), v))
			}
		}
		for _, d := range f.Defers {
			l = append(l, fmt.Sprintf("D%d %v", i, d.fn))
		}
	}
	for k, v := range s.Mem {
		if hasFn(v) {
			l = append(l, fmt.Sprintf("M %v=%v", k, v))
		}
	}
	for k, v := range s.Held {
		l = append(l, fmt.Sprintf("H %v=%x", k, heldBits(v)))
	}
	for k, m := range s.Maps {
		for a, b := range m {
			l = append(l, fmt.Sprintf("MAP %v[%v]=%v", k, a, b))
		}
	}
	for k, m := range s.Iter {
		for a := range m {
			l = append(l, fmt.Sprintf("IT %v %v", k, a))
		}
	}
	for k, v := range s.Marks {
		l = append(l, fmt.Sprintf("MARK %v=%v", k, v))
	}
	for k, v := range s.Spawn {
		l = append(l, fmt.Sprintf("SP %v=%x", k, heldBits(v)))
	}
	sort.Strings(l)
	return strings.Join(l, "\n      ")
}
