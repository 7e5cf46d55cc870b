package ai

import (
	"go/constant"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

type joinSite struct {
	b   *ssa.BasicBlock
	ctx int
}

func hasFn(v *V) bool { return v != nil && v.hasFn }

// propKey identifies the property state: states that agree on it are joined.
func (e *Engine) propKey(s *State) hash128 {
	var h hash128
	for i, f := range s.Frames {
		for r, v := range f.Regs {
			if hasFn(v) {
				h.add(1, uint64(i), uint64(e.regID(r)), v.h)
			}
		}
		for j, d := range f.Defers {
			h.add(2, uint64(i), uint64(j), uint64(d.instr.Pos()), d.fn.h)
			for k, a := range d.args {
				h.add(3, uint64(i), uint64(j), uint64(k), a.h)
			}
		}
	}
	for k, v := range s.Mem {
		if hasFn(v) {
			h.add(4, k.h, v.h)
		}
	}
	for k, v := range s.Chan {
		if hasFn(v) {
			h.add(5, k.h, v.h)
		}
	}
	for k, v := range s.Held {
		h.add(6, k.h, heldBits(v))
	}
	for k, m := range s.Maps {
		for a, b := range m {
			h.add(9, k.h, a.h, b.h)
		}
	}
	for k, m := range s.Iter {
		for a := range m {
			h.add(10, k.h, a.h)
		}
	}
	for k, v := range s.Marks {
		x := uint64(0)
		if v != nil {
			x = v.h
		}
		h.add(12, strHash(k), x)
	}
	for k, v := range s.Spawn {
		h.add(13, k.h, heldBits(v))
	}
	if e.KeyExtra != nil {
		h.add(14, e.KeyExtra(e, s))
	}
	return h
}

type vpair struct{ a, b *V }

// join merges two states with the same property key.
func (e *Engine) join(a, b *State, site joinSite) *State {
	n := a.Clone()
	pairs := map[vpair]*V{}
	known := map[*V]bool{}
	for _, j := range e.joins[site] {
		known[j] = true
	}
	siteName := ""
	var jv func(x, y *V, loc func() string) *V
	jv = func(x, y *V, loc func() string) *V {
		if x == y {
			return x
		}
		if x.K == KTuple && y.K == KTuple && len(x.Args) == len(y.Args) {
			vs := make([]*V, len(x.Args))
			for i := range vs {
				i := i
				vs[i] = jv(x.Args[i], y.Args[i], func() string { return loc() + "." + strconv.Itoa(i) })
			}
			return e.Tuple(vs...)
		}
		p := vpair{x, y}
		if v, ok := pairs[p]; ok {
			return v
		}
		if siteName == "" {
			siteName = strconv.Itoa(e.blockID(site.b)) + "/" + strconv.Itoa(site.ctx)
		}
		v := e.in.mk(KSym, "join:"+loc()+"@"+siteName, false, nil, nil)
		pairs[p] = v
		if !known[v] {
			known[v] = true
			e.joins[site] = append(e.joins[site], v)
		}
		return v
	}
	for i := range n.Frames {
		fa, fb := a.Frames[i], b.Frames[i]
		if fa == fb {
			continue
		}
		f := *fa
		f.Regs = make(map[ssa.Value]*V, len(fa.Regs))
		f.Defers = append([]deferred(nil), fa.Defers...)
		rs := make([]ssa.Value, 0, len(fa.Regs))
		for r := range fa.Regs {
			rs = append(rs, r)
		}
		sort.Slice(rs, func(x, y int) bool { return e.regID(rs[x]) < e.regID(rs[y]) })
		for _, r := range rs {
			y, ok := fb.Regs[r]
			if !ok {
				continue
			}
			i, r := i, r
			f.Regs[r] = jv(fa.Regs[r], y, func() string { return r.Name() + ":" + strconv.Itoa(i) + ":" + strconv.Itoa(e.regID(r)) })
		}
		n.Frames[i] = &f
	}
	var ks []*V
	for k := range a.Mem {
		ks = append(ks, k)
	}
	for k := range b.Mem {
		if _, ok := a.Mem[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(x, y int) bool { return ks[x].ID < ks[y].ID })
	var aOcc, bOcc map[*V]bool
	for _, k := range ks {
		x, okx := a.Mem[k]
		y, oky := b.Mem[k]
		if !okx || !oky {
			r := k.Root()
			if r.K == KAlloc || r.K == KSym {
				// object unknown on the other side: keep what we have
				if !okx {
					if aOcc == nil {
						aOcc = e.roots(a)
					}
					if !aOcc[r] {
						n.Mem[k] = y
						continue
					}
				} else {
					if bOcc == nil {
						bOcc = e.roots(b)
					}
					if !bOcc[r] {
						continue
					}
				}
				if k.S == "·havoc" && k.K == KField {
					n.Mem[k] = e.Bool(true)
					continue
				}
			}
			if !okx {
				x = e.absent(a, k)
			} else {
				y = e.absent(b, k)
			}
			if isZeroConst(x) && isZeroish(y) {
				n.Mem[k] = y
				continue
			}
			if isZeroConst(y) && isZeroish(x) {
				n.Mem[k] = x
				continue
			}
		}
		k := k
		n.Mem[k] = jv(x, y, func() string { return "m" + strconv.Itoa(k.ID) })
	}
	for k, x := range a.Chan {
		y, ok := b.Chan[k]
		if !ok {
			if k.K == KParam {
				continue
			}
			delete(n.Chan, k)
			continue
		}
		k := k
		n.Chan[k] = jv(x, y, func() string { return "c" + strconv.Itoa(k.ID) })
	}
	for k, es := range a.Seq {
		if !sameVs(es, b.Seq[k]) {
			if _, ok := b.Seq[k]; ok || e.liveRoot(b, k) {
				delete(n.Seq, k)
			}
		}
	}
	for k, es := range b.Seq {
		if _, ok := a.Seq[k]; !ok && !e.liveRoot(a, k) {
			n.Seq[k] = es
		}
	}
	for k := range a.Maps {
		if _, ok := b.Maps[k]; !ok && e.liveRoot(b, k) {
			delete(n.Maps, k)
		}
	}
	for k, m := range b.Maps {
		if _, ok := a.Maps[k]; !ok && !e.liveRoot(a, k) {
			n.Maps[k] = m
		}
	}
	n.Facts = map[*V]Fact{}
	for k, fa := range a.Facts {
		fb := e.factOf(b, k)
		if m := meet(fa, fb); m != Unknown {
			n.Facts[k] = m
		}
	}
	for p, v := range pairs {
		if m := meet(e.factOf(a, p.a), e.factOf(b, p.b)); m != Unknown {
			if m == True || m == False {
				continue
			}
			n.Facts[v] = m
		} else {
			delete(n.Facts, v)
		}
	}
	return n
}

func (e *Engine) liveRoot(s *State, k *V) bool { return e.occurs(s, k) }

func (e *Engine) roots(s *State) map[*V]bool {
	m := map[*V]bool{}
	var add func(v *V)
	add = func(v *V) {
		if v == nil || m[v] {
			return
		}
		m[v] = true
		for _, a := range v.Args {
			add(a)
		}
	}
	for _, f := range s.Frames {
		for _, v := range f.Regs {
			add(v)
		}
		for _, d := range f.Defers {
			add(d.fn)
			for _, a := range d.args {
				add(a)
			}
		}
	}
	for k, v := range s.Mem {
		add(k)
		add(v)
	}
	for k := range s.Held {
		add(k)
	}
	for _, v := range s.Chan {
		add(v)
	}
	for _, v := range s.Marks {
		add(v)
	}
	return m
}

func isZeroConst(v *V) bool { return v.K == KConst && v.S == "zero" }

func isZeroish(v *V) bool {
	if v.K == KNil {
		return true
	}
	if v.K != KConst || v.C == nil {
		return false
	}
	switch v.C.Kind() {
	case constant.Bool:
		return !constant.BoolVal(v.C)
	case constant.String:
		return constant.StringVal(v.C) == ""
	case constant.Int:
		return constant.Sign(v.C) == 0
	}
	return false
}

// absent is the value of a location that was never written on a path.
func (e *Engine) absent(s *State, k *V) *V {
	r := k
	for {
		if _, hv := s.Mem[e.havocMark(r)]; hv {
			return e.Deref(k)
		}
		if r.K == KField || r.K == KIndex {
			r = r.Args[0]
			continue
		}
		break
	}
	if r.K == KAlloc {
		return e.in.mk(KConst, "zero", false, nil, nil)
	}
	return e.Deref(k)
}

func (e *Engine) factOf(s *State, v *V) Fact {
	if f, ok := s.Facts[v]; ok {
		return f
	}
	if v.K == KConst && v.S == "zero" {
		return Unknown
	}
	switch n := e.NilFact(s, v); n {
	case IsNil, NotNil:
		return n
	}
	return e.Truth(s, v)
}

func meet(a, b Fact) Fact {
	if a == b {
		return a
	}
	nn := func(f Fact) bool { return f == NotNil || f == NonEmpty }
	if nn(a) && nn(b) {
		return NotNil
	}
	return Unknown
}

func (e *Engine) blockID(b *ssa.BasicBlock) int {
	if b == nil {
		return 0
	}
	return e.iid(b.Instrs[0])
}
