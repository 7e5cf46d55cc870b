package ai

import (
	"go/token"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Fact is what is known about an opaque value.
type Fact uint8

// Facts.
const (
	Unknown Fact = iota
	True
	False
	IsNil
	NotNil
	NonEmpty // slice or map known non-empty (implies not nil)
)

// Held describes a held lock.
type Held struct {
	W    bool
	N    int // read count
	Pos  token.Pos
	Site string
	X    int             // extra bits (wait groups)
	At   ssa.Instruction // where (wait groups)
}

type deferred struct {
	instr *ssa.Defer
	fn    *V
	args  []*V
}

// Frame is one activation.
type Frame struct {
	Fn     *ssa.Function
	Regs   map[ssa.Value]*V
	Defers []deferred
	Ctx    int
	Go     bool // the body of a goroutine
}

// Trace is a reverse linked list of branch decisions (for reports, not part of state identity).
type Trace struct {
	Prev *Trace
	Pos  token.Pos
	What string
}

// State is one abstract state.
type State struct {
	Frames []*Frame
	Mem    map[*V]*V
	Facts  map[*V]Fact
	Held   map[*V]Held
	Seq    map[*V][]*V        // known elements of slices (values)
	Maps   map[*V]map[*V]*V   // known entries of maps
	Iter   map[*V]map[*V]bool // visited keys per iterator
	Chan   map[*V]*V          // pending value of channels
	Marks  map[string]*V      // client data
	Spawn  map[*V]Held        // locks acquired by goroutines that may still run
	Tr     *Trace
}

func newState() *State {
	return &State{Mem: map[*V]*V{}, Facts: map[*V]Fact{}, Held: map[*V]Held{}, Seq: map[*V][]*V{},
		Maps: map[*V]map[*V]*V{}, Iter: map[*V]map[*V]bool{}, Chan: map[*V]*V{}, Marks: map[string]*V{}, Spawn: map[*V]Held{}}
}

// Clone copies the state.
func (s *State) Clone() *State {
	n := &State{Tr: s.Tr}
	n.Frames = make([]*Frame, len(s.Frames))
	copy(n.Frames, s.Frames)
	if k := len(n.Frames); k > 0 {
		f := *n.Frames[k-1]
		f.Regs = make(map[ssa.Value]*V, len(f.Regs))
		for r, v := range n.Frames[k-1].Regs {
			f.Regs[r] = v
		}
		f.Defers = append([]deferred(nil), f.Defers...)
		n.Frames[k-1] = &f
	}
	n.Mem = make(map[*V]*V, len(s.Mem))
	for k, v := range s.Mem {
		n.Mem[k] = v
	}
	n.Facts = make(map[*V]Fact, len(s.Facts))
	for k, v := range s.Facts {
		n.Facts[k] = v
	}
	n.Held = make(map[*V]Held, len(s.Held))
	for k, v := range s.Held {
		n.Held[k] = v
	}
	n.Seq = make(map[*V][]*V, len(s.Seq))
	for k, v := range s.Seq {
		n.Seq[k] = v
	}
	n.Maps = make(map[*V]map[*V]*V, len(s.Maps))
	for k, m := range s.Maps {
		mm := make(map[*V]*V, len(m))
		for a, b := range m {
			mm[a] = b
		}
		n.Maps[k] = mm
	}
	n.Iter = make(map[*V]map[*V]bool, len(s.Iter))
	for k, m := range s.Iter {
		mm := make(map[*V]bool, len(m))
		for a, b := range m {
			mm[a] = b
		}
		n.Iter[k] = mm
	}
	n.Chan = make(map[*V]*V, len(s.Chan))
	for k, v := range s.Chan {
		n.Chan[k] = v
	}
	n.Marks = make(map[string]*V, len(s.Marks))
	for k, v := range s.Marks {
		n.Marks[k] = v
	}
	n.Spawn = make(map[*V]Held, len(s.Spawn))
	for k, v := range s.Spawn {
		n.Spawn[k] = v
	}
	return n
}

// Top is the current frame.
func (s *State) Top() *Frame { return s.Frames[len(s.Frames)-1] }

func heldBits(h Held) uint64 {
	x := uint64(h.N)<<1 | uint64(h.X)<<32
	if h.W {
		x |= 1
	}
	return x
}

type hash128 struct{ a, b uint64 }

func (h *hash128) add(parts ...uint64) {
	x := uint64(0x1234567)
	for _, p := range parts {
		x = mix(x ^ mix(p+0x51ed27))
	}
	h.a += x
	h.b += mix(x ^ 0xabcdef987654321)
}

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// hash identifies the state; base gives the number of frames to include (0 = all).
func (e *Engine) hash(s *State) hash128 {
	var h hash128
	for i, f := range s.Frames {
		for r, v := range f.Regs {
			h.add(1, uint64(i), uint64(e.regID(r)), v.h)
		}
		for j, d := range f.Defers {
			h.add(2, uint64(i), uint64(j), uint64(d.instr.Pos()), d.fn.h)
			for k, a := range d.args {
				h.add(3, uint64(i), uint64(j), uint64(k), a.h)
			}
		}
	}
	for k, v := range s.Mem {
		h.add(4, k.h, v.h)
	}
	for k, v := range s.Facts {
		h.add(5, k.h, uint64(v))
	}
	for k, v := range s.Held {
		h.add(6, k.h, heldBits(v))
	}
	for k, v := range s.Seq {
		for _, x := range v {
			h.add(7, k.h, x.h)
		}
	}
	for k, m := range s.Maps {
		h.add(8, k.h)
		for a, b := range m {
			h.add(9, k.h, a.h, b.h)
		}
	}
	for k, m := range s.Iter {
		for a := range m {
			h.add(10, k.h, a.h)
		}
	}
	for k, v := range s.Chan {
		h.add(11, k.h, v.h)
	}
	for k, v := range s.Marks {
		x := uint64(0)
		if v != nil {
			x = v.h
		}
		h.add(12, strHash(k), x)
	}
	for k, v := range s.Spawn {
		h.add(13, k.h, heldBits(v))
	}
	return h
}

// gc drops facts, memory and container knowledge that nothing live refers to.
func (e *Engine) gc(s *State) {
	live := map[*V]bool{}
	var work []*V
	var mark func(v *V)
	mark = func(v *V) {
		if v == nil || live[v] {
			return
		}
		live[v] = true
		work = append(work, v)
		for _, a := range v.Args {
			mark(a)
		}
	}
	for _, f := range s.Frames {
		for _, v := range f.Regs {
			mark(v)
		}
		for _, d := range f.Defers {
			mark(d.fn)
			for _, a := range d.args {
				mark(a)
			}
		}
	}
	for k := range s.Held {
		mark(k)
	}
	for _, v := range s.Marks {
		mark(v)
	}
	// Memory is kept when the root of its address is external or live.
	type ent struct{ k, v *V }
	var pend []ent
	for k, v := range s.Mem {
		pend = append(pend, ent{k, v})
	}
	rootLive := func(k *V) bool {
		r := k.Root()
		switch r.K {
		case KParam, KGlobal:
			return true
		}
		return live[r]
	}
	for changed := true; changed; {
		changed = false
		rest := pend[:0]
		for _, p := range pend {
			if rootLive(p.k) {
				mark(p.k)
				mark(p.v)
				changed = true
			} else {
				rest = append(rest, p)
			}
		}
		pend = rest
		for k, es := range s.Seq {
			if live[k] {
				for _, x := range es {
					if !live[x] {
						mark(x)
						changed = true
					}
				}
			}
		}
		for k, m := range s.Maps {
			if live[k] {
				for a, b := range m {
					if !live[a] || !live[b] {
						mark(a)
						mark(b)
						changed = true
					}
				}
			}
		}
		for k, v := range s.Chan {
			if (live[k] || k.K == KParam) && !live[v] {
				mark(v)
				changed = true
			}
		}
	}
	for _, p := range pend {
		delete(s.Mem, p.k)
	}
	for k := range s.Facts {
		if !live[k] {
			// A fact about an expression is still usable if all its parts are live.
			ok := k.K == KExpr && len(k.Args) > 0
			if ok {
				for _, a := range k.Args {
					if !live[a] && a.K != KConst && a.K != KNil {
						ok = false
					}
				}
			}
			if k.K == KDeref && rootLive(k) && !e.DropDerefFacts {
				ok = true
			}
			if !ok {
				delete(s.Facts, k)
			}
		}
	}
	for k := range s.Seq {
		if !live[k] {
			delete(s.Seq, k)
		}
	}
	for k := range s.Maps {
		if !live[k] {
			delete(s.Maps, k)
		}
	}
	for k := range s.Iter {
		if !live[k] {
			delete(s.Iter, k)
		}
	}
	for k := range s.Chan {
		if !live[k] && k.K != KParam {
			delete(s.Chan, k)
		}
	}
}

// rename replaces old by new everywhere (a site produced a new instance).
func (e *Engine) rename(s *State, old, nw *V) {
	hadNew := e.occurs(s, nw)
	memo := map[*V]*V{}
	var sub func(v *V) *V
	sub = func(v *V) *V {
		if v == nil {
			return nil
		}
		if v == old {
			return nw
		}
		if len(v.Args) == 0 {
			return v
		}
		if r, ok := memo[v]; ok {
			return r
		}
		ch := false
		na := make([]*V, len(v.Args))
		for i, a := range v.Args {
			na[i] = sub(a)
			if na[i] != a {
				ch = true
			}
		}
		r := v
		if ch {
			r = e.in.mk(v.K, v.S, v.Old, v.Fn, v.T, na...)
			r.NonNil = v.NonNil
			r.C = v.C
		}
		memo[v] = r
		return r
	}
	for i, f := range s.Frames {
		var nf *Frame
		get := func() *Frame {
			if nf == nil {
				c := *f
				c.Regs = make(map[ssa.Value]*V, len(f.Regs))
				for r, v := range f.Regs {
					c.Regs[r] = v
				}
				c.Defers = append([]deferred(nil), f.Defers...)
				nf = &c
				s.Frames[i] = nf
			}
			return nf
		}
		for r, v := range f.Regs {
			if n := sub(v); n != v {
				get().Regs[r] = n
			}
		}
		for j, d := range f.Defers {
			nfn := sub(d.fn)
			var nargs []*V
			ch := nfn != d.fn
			for _, a := range d.args {
				n := sub(a)
				if n != a {
					ch = true
				}
				nargs = append(nargs, n)
			}
			if ch {
				get().Defers[j] = deferred{d.instr, nfn, nargs}
			}
		}
		if nf != nil {
			// collapse identical deferred entries created by loops
			var out []deferred
			for j, d := range nf.Defers {
				dup := false
				if j > 0 {
					for _, o := range out {
						if o.instr == d.instr && o.fn == d.fn && sameVs(o.args, d.args) {
							dup = true
						}
					}
				}
				if !dup {
					out = append(out, d)
				}
			}
			nf.Defers = out
		}
	}
	type kv struct{ k, v *V }
	var upd []kv
	for k, v := range s.Mem {
		nk, nv := sub(k), sub(v)
		if nk != k || nv != v {
			upd = append(upd, kv{k, nil})
			upd = append(upd, kv{nk, nv})
		}
	}
	for _, u := range upd {
		if u.v == nil {
			delete(s.Mem, u.k)
		}
	}
	for _, u := range upd {
		if u.v != nil {
			s.Mem[u.k] = u.v
		}
	}
	for k, v := range s.Facts {
		if nk := sub(k); nk != k {
			delete(s.Facts, k)
			if prev, ok := s.Facts[nk]; ok {
				if prev != v {
					delete(s.Facts, nk)
				}
			} else if !hadNew {
				s.Facts[nk] = v
			}
		}
	}
	for k, v := range s.Held {
		if nk := sub(k); nk != k {
			delete(s.Held, k)
			if p, ok := s.Held[nk]; ok {
				if p.W || v.W {
					v.W = true
				}
				if p.N > v.N {
					v.N = p.N
				}
				if !IsWaitGroup(nk) {
					v.X |= p.X
				}
			}
			s.Held[nk] = v
		}
	}
	for k, v := range s.Spawn {
		if nk := sub(k); nk != k {
			delete(s.Spawn, k)
			s.Spawn[nk] = v
		}
	}
	for k, es := range s.Seq {
		ch := sub(k) != k
		var ne []*V
		for _, x := range es {
			n := sub(x)
			if n != x {
				ch = true
			}
			ne = addV(ne, n)
		}
		if ch {
			delete(s.Seq, k)
			nk := sub(k)
			for _, x := range s.Seq[nk] {
				ne = addV(ne, x)
			}
			s.Seq[nk] = ne
		}
	}
	for k, m := range s.Maps {
		ch := sub(k) != k
		nm := map[*V]*V{}
		for a, b := range m {
			na, nb := sub(a), sub(b)
			if na != a || nb != b {
				ch = true
			}
			nm[na] = nb
		}
		if ch {
			delete(s.Maps, k)
			s.Maps[sub(k)] = nm
		}
	}
	for k, m := range s.Iter {
		ch := sub(k) != k
		nm := map[*V]bool{}
		for a := range m {
			na := sub(a)
			if na != a {
				ch = true
			}
			nm[na] = true
		}
		if ch {
			delete(s.Iter, k)
			s.Iter[sub(k)] = nm
		}
	}
	for k, v := range s.Chan {
		nk, nv := sub(k), sub(v)
		if nk != k || nv != v {
			delete(s.Chan, k)
			s.Chan[nk] = nv
		}
	}
	for k, v := range s.Marks {
		if n := sub(v); n != v {
			s.Marks[k] = n
		}
	}
}

// occurs reports whether v appears anywhere in the state.
func (e *Engine) occurs(s *State, v *V) bool {
	memo := map[*V]bool{}
	var has func(x *V) bool
	has = func(x *V) bool {
		if x == nil {
			return false
		}
		if x == v {
			return true
		}
		if len(x.Args) == 0 || x.ID < v.ID {
			return false // interned earlier than v: cannot contain it
		}
		if r, ok := memo[x]; ok {
			return r
		}
		r := false
		for _, a := range x.Args {
			if has(a) {
				r = true
				break
			}
		}
		memo[x] = r
		return r
	}
	for _, f := range s.Frames {
		for _, x := range f.Regs {
			if has(x) {
				return true
			}
		}
		for _, d := range f.Defers {
			if has(d.fn) {
				return true
			}
			for _, a := range d.args {
				if has(a) {
					return true
				}
			}
		}
	}
	for k, x := range s.Mem {
		if has(k) || has(x) {
			return true
		}
	}
	for k := range s.Held {
		if has(k) {
			return true
		}
	}
	for k, es := range s.Seq {
		if has(k) {
			return true
		}
		for _, x := range es {
			if has(x) {
				return true
			}
		}
	}
	for k, m := range s.Maps {
		if has(k) {
			return true
		}
		for a, b := range m {
			if has(a) || has(b) {
				return true
			}
		}
	}
	for k, x := range s.Chan {
		if has(k) || has(x) {
			return true
		}
	}
	for _, x := range s.Marks {
		if has(x) {
			return true
		}
	}
	for k := range s.Facts {
		if has(k) {
			return true
		}
	}
	for k := range s.Iter {
		if has(k) {
			return true
		}
	}
	for k := range s.Spawn {
		if has(k) {
			return true
		}
	}
	return false
}

func addV(l []*V, v *V) []*V {
	for _, x := range l {
		if x == v {
			return l
		}
	}
	return append(l, v)
}

func sameVs(a, b []*V) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// SortedHeld lists held locks in a stable order.
func (s *State) SortedHeld() []*V {
	var l []*V
	for k := range s.Held {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].ID < l[j].ID })
	return l
}
