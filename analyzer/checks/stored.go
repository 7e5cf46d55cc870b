package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
	"verif/analyzer/load"
)

// What is known about the elements of a segment whose lock is held for writing (bits of Held.X).
const (
	elDirty  = 1 << iota // changed since they were stored
	elStale              // replaced by other elements than the cache has
	elNew                // belong to a segment that was never stored
	elFailed             // storing them failed
	elMut                // changed in place, also in the cache, or given to the cache before they were stored
)

type stored struct {
	c        *Ctx
	r        *Result
	mu       sync.Mutex
	mut      map[*ssa.Function]map[int]int
	seg      *types.Named // Segment
	segs     *types.Named // Segments
	list     *types.Named // List
	elems    *types.Named // Elements
	hSeg     map[string]bool
	holders  map[string][2]string // struct type -> field with the segment, field with its elements
	segFld   string               // field of Segments with the segments
	idFld    string               // field of Segments with its storage key
	cacheFld string               // field of Segments with the cache
	cacheT   types.Type
	sites    map[ssa.Instruction]string
	loaders  map[*ssa.Function]string
	unlocked map[ssa.Instruction]bool
}

func namedType(c *Ctx, name string) *types.Named {
	sp := c.P.SPkg[load.ModPath]
	if sp == nil {
		return nil
	}
	t := sp.Type(name)
	if t == nil {
		return nil
	}
	n, _ := t.Type().(*types.Named)
	return n
}

func newStored(c *Ctx, r *Result) *stored {
	s := &stored{c: c, r: r, seg: namedType(c, "Segment"), segs: namedType(c, "Segments"), list: namedType(c, "List"), elems: namedType(c, "Elements"),
		holders: map[string][2]string{}, sites: map[ssa.Instruction]string{}, unlocked: map[ssa.Instruction]bool{}}
	if s.seg == nil || s.segs == nil || s.list == nil || s.elems == nil {
		return nil
	}
	w := newWorkers(c)
	for _, f := range c.P.Funcs {
		w.mutates(f)
	}
	s.mut = w.mut
	s.findLoaders()
	for _, m := range c.P.SPkg[load.ModPath].Members {
		t, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		st, ok := t.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		sf, ef := "", ""
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if p, ok := f.Type().(*types.Pointer); ok && types.Identical(p.Elem(), s.seg) {
				sf = f.Name()
			}
			if types.Identical(f.Type(), s.elems) {
				ef = f.Name()
			}
		}
		if sf != "" && ef != "" {
			s.holders[t.Type().String()] = [2]string{sf, ef}
		}
	}
	st := s.segs.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if sl, ok := f.Type().(*types.Slice); ok && types.Identical(sl.Elem(), s.seg) {
			s.segFld = f.Name()
		}
		if strings.HasSuffix(f.Type().String(), ".Cache") {
			s.cacheFld, s.cacheT = f.Name(), f.Type()
		}
		if strings.HasSuffix(f.Type().String(), ".SegmentsID") {
			s.idFld = f.Name()
		}
	}
	return s
}

// lockIn: a lock in the object a segment shares with its copies.
func (s *stored) lockIn(field string) bool {
	st := s.seg.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		p, ok := st.Field(i).Type().(*types.Pointer)
		if !ok {
			continue
		}
		if o, ok := p.Elem().Underlying().(*types.Struct); ok {
			for j := 0; j < o.NumFields(); j++ {
				if o.Field(j).Name() == field {
					return true
				}
			}
		}
	}
	return false
}

// findLoaders: functions that read a list of segments or the elements of one and store nothing.
func (s *stored) findLoaders() {
	s.loaders = map[*ssa.Function]string{}
	ops := map[*ssa.Function]map[string]bool{}
	callees := map[*ssa.Function][]*ssa.Function{}
	for _, f := range s.c.P.Funcs {
		ops[f] = map[string]bool{}
		EachInstr(f, func(in ssa.Instruction) {
			switch in := in.(type) {
			case ssa.CallInstruction:
				if op, _ := storeOp(in); op != "" {
					ops[f][op] = true
				}
				if g := in.Common().StaticCallee(); g != nil {
					callees[f] = append(callees[f], g)
				}
			case *ssa.MakeClosure:
				callees[f] = append(callees[f], in.Fn.(*ssa.Function))
			}
		})
	}
	for again := true; again; {
		again = false
		for f, cs := range callees {
			for _, g := range cs {
				for op := range ops[g] {
					if !ops[f][op] {
						ops[f][op] = true
						again = true
					}
				}
			}
		}
	}
	for _, f := range s.c.P.Funcs {
		res := f.Signature.Results()
		if f.Parent() != nil || PkgPath(f) != load.ModPath || res.Len() != 2 || !ai.IsError(res.At(1).Type()) || !ops[f]["Get"] || ops[f]["Set"] || ops[f]["Delete"] {
			continue
		}
		if p, ok := res.At(0).Type().(*types.Pointer); ok && types.Identical(p.Elem(), s.segs) {
			s.loaders[f] = "segments"
		}
		if types.Identical(res.At(0).Type(), s.elems) {
			if rv := f.Signature.Recv(); rv != nil && !isListRecv(rv, s.list) {
				s.loaders[f] = "elements"
			}
		}
	}
	s.r.Counts["loading_functions"] = len(s.loaders)
}

func isListRecv(v *types.Var, list *types.Named) bool {
	p, ok := v.Type().(*types.Pointer)
	return ok && types.Identical(p.Elem(), list)
}

// effect: instructions that make a function worth following.
func (s *stored) effect(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Store:
		if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
			t := fa.X.Type().Underlying().(*types.Pointer).Elem()
			if types.Identical(t, s.seg) || types.Identical(t, s.segs) || s.holders[t.String()][0] != "" {
				return true
			}
		}
		if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
			if sl, ok := ia.X.Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), s.seg) {
				return true
			}
		}
	case ssa.CallInstruction:
		if op, _ := storeOp(in); op != "" {
			return true
		}
	}
	return false
}

// storeOp tells the storage operation a call performs ("Get", "Set", "Delete") and the position of the key argument.
func storeOp(in ssa.CallInstruction) (string, int) {
	m := in.Common().Method
	if m == nil || m.Pkg() == nil || m.Pkg().Path() != load.ModPath+"/blobstore" {
		return "", 0
	}
	switch m.Name() {
	case "Get", "Set", "Delete":
		sig := m.Type().(*types.Signature)
		for i := sig.Params().Len() - 1; i >= 0; i-- {
			if b, ok := sig.Params().At(i).Type().(*types.Basic); ok && b.Kind() == types.String {
				return m.Name(), i
			}
		}
	}
	return "", 0
}

// locks of the segment at address p that are held for writing.
func (s *stored) lockOf(e *ai.Engine, st *ai.State, p *ai.V) *ai.V {
	return s.lockHeldOn(e, st, p, true)
}

// lockHeldOn: the lock of the segment at address p that is held for writing, or for reading only.
func (s *stored) lockHeldOn(e *ai.Engine, st *ai.State, p *ai.V, write bool) *ai.V {
	for kk, h := range st.Held {
		k := bare(kk)
		if h.W != write || k.K != ai.KField || !write && !s.lockIn(k.S) {
			continue
		}
		o := k.Args[0]
		if o == p {
			return kk
		}
		if x := s.viaPtr(e, st, p, o); x {
			return kk
		}
	}
	return nil
}

// viaPtr: one of the pointer fields of the segment at p points to o.
func (s *stored) viaPtr(e *ai.Engine, st *ai.State, p, o *ai.V) bool {
	f := s.seg.Underlying().(*types.Struct)
	for i := 0; i < f.NumFields(); i++ {
		if _, ok := f.Field(i).Type().(*types.Pointer); ok && e.LoadFrom(st, e.Field(p, f.Field(i).Name()), f.Field(i).Type()) == o {
			return true
		}
	}
	return false
}

// holderOf resolves the address of the elements of a locked segment to its lock.
func (s *stored) holderField(ptr *ai.V) (ls *ai.V, isElems, isSeg bool, names [2]string) {
	if ptr == nil || ptr.K != ai.KField {
		return nil, false, false, names
	}
	for _, n := range s.holders {
		if ptr.S == n[1] {
			return ptr.Args[0], true, false, n
		}
		if ptr.S == n[0] {
			return ptr.Args[0], false, true, n
		}
	}
	return nil, false, false, names
}

func stripSlice(v *ai.V) *ai.V {
	for v != nil && v.K == ai.KExpr && v.S == "slice" {
		v = v.Args[0]
	}
	return v
}

// ofValue lists the locks of the segments whose current elements share memory with v.
func (s *stored) ofValue(e *ai.Engine, st *ai.State, v *ai.V) []*ai.V {
	return s.locksOf(e, st, v, true)
}

// sharedOnly: v shares memory with the elements of a segment that is locked for reading only.
func (s *stored) sharedOnly(e *ai.Engine, st *ai.State, v *ai.V) bool {
	return len(s.locksOf(e, st, v, false)) > 0 && len(s.locksOf(e, st, v, true)) == 0
}

func (s *stored) locksOf(e *ai.Engine, st *ai.State, v *ai.V, write bool) []*ai.V {
	v = stripSlice(v)
	if v == nil || v.K == ai.KNil || v.K == ai.KConst {
		return nil
	}
	var out []*ai.V
	for _, n := range s.holders {
		if v.K == ai.KDeref && v.Args[0].K == ai.KField && v.Args[0].S == n[1] {
			if sg := e.LoadFrom(st, e.Field(v.Args[0].Args[0], n[0]), types.NewPointer(s.seg)); sg != nil {
				if l := s.lockHeldOn(e, st, sg, write); l != nil {
					out = append(out, l)
				}
			}
		}
		for k, x := range st.Mem {
			if k.K == ai.KField && k.S == n[1] && stripSlice(x) == v {
				if sg := e.LoadFrom(st, e.Field(k.Args[0], n[0]), types.NewPointer(s.seg)); sg != nil {
					if l := s.lockHeldOn(e, st, sg, write); l != nil {
						out = append(out, l)
					}
				}
			}
		}
	}
	return out
}

func setX(st *ai.State, k *ai.V, set, clear int) {
	h := st.Held[k]
	h.X = h.X&^clear | set
	st.Held[k] = h
}

func (s *stored) changed(e *ai.Engine, st *ai.State, lock *ai.V, in ssa.Instruction, bits int, what string) {
	if lock == nil {
		return
	}
	if bits == elMut && st.Held[lock].X&(elStale|elNew) != 0 {
		bits = 0 // the cache has other elements, or none
	}
	setX(st, lock, elDirty|bits, 0)
	st.Tr = &ai.Trace{Prev: st.Tr, Pos: in.Pos(), What: what + " of " + lock.String()}
	s.mu.Lock()
	s.sites[in] = what
	s.mu.Unlock()
}

// ownerOf finds the Segments whose slice of segments v is.
func (s *stored) ownerOf(e *ai.Engine, st *ai.State, v *ai.V) *ai.V {
	v = stripSlice(v)
	if v.K == ai.KDeref && v.Args[0].K == ai.KField && v.Args[0].S == s.segFld {
		return v.Args[0].Args[0]
	}
	for k, x := range st.Mem {
		if k.K == ai.KField && k.S == s.segFld && stripSlice(x) == v {
			return k.Args[0]
		}
	}
	return nil
}

func unsavedKey(e *ai.Engine, s *ai.V) *ai.V { return e.Expr("unsaved", s) }

func isUnsaved(k *ai.V) bool { k = bare(k); return k.K == ai.KExpr && k.S == "unsaved" }

// bare strips the mark of resources of the goroutine that started this one.
func bare(k *ai.V) *ai.V {
	if ai.IsInherited(k) {
		return k.Args[0]
	}
	return k
}

// segLock: k stands for the lock of a segment.
func segLock(k *ai.V) bool { return !isUnsaved(k) && !ai.IsWaitGroup(bare(k)) && !ai.IsToken(bare(k)) }

func (s *stored) run() {
	c, r := s.c, s.r
	seen := map[string]bool{}
	add := func(rule, what string, root *ssa.Function, in ssa.Instruction, st *ai.State, msg string) {
		pos := "-"
		fn := Short(root)
		if in != nil {
			pos = c.Pos(in.Pos())
			fn = Short(TopFn(in.Parent()))
		} else if st.Tr != nil {
			pos = c.Pos(st.Tr.Pos)
		}
		key := rule + "|" + what + "|" + fn
		s.mu.Lock()
		dup := seen[key]
		seen[key] = true
		s.mu.Unlock()
		if !dup {
			r.Add(Finding{Rule: rule, Key: key, Pos: pos, Msg: msg + "; entry point " + Short(root), Trace: c.TraceOf(st, 50)})
		}
	}
	sets := map[ssa.Instruction]bool{}
	rel := ai.NewRelevance(c.P.Funcs, func(in ssa.Instruction) bool { return ai.LockEffect(in) || s.effect(in) })
	ptrSeg := types.NewPointer(s.seg)
	isList := func(fn *ssa.Function) bool {
		if PkgPath(fn) != load.ModPath || !Exported(fn) || fn.Parent() != nil {
			return false
		}
		if rv := fn.Signature.Recv(); rv != nil {
			p, ok := rv.Type().(*types.Pointer)
			return ok && types.Identical(p.Elem(), s.list)
		}
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			if p, ok := fn.Signature.Results().At(i).Type().(*types.Pointer); ok && types.Identical(p.Elem(), s.list) {
				return true
			}
		}
		return false
	}
	c.Simulate(r, SimOpts{
		Rel:   rel,
		Pkgs:  func(p string) bool { return p == load.ModPath },
		Roots: isList,
		Setup: func(e *ai.Engine, root *ssa.Function) {
			if probe(root) {
				e.MaxSteps = 1
				return
			}
			e.Settled = c.Settled(e)
			e.Hooks.Store = func(e *ai.Engine, st *ai.State, ptr, val *ai.V, in ssa.Instruction) {
				// the elements of a locked segment
				if ls, isE, isS, n := s.holderField(ptr); ls != nil && s.holders[holderType(in)] == n {
					if isE {
						if val.K == ai.KNil || val.K == ai.KConst {
							return
						}
						sg := e.LoadFrom(st, e.Field(ls, n[0]), ptrSeg)
						if sg == nil || sg.K == ai.KNil {
							return
						}
						l := s.lockOf(e, st, sg)
						if l == nil {
							return
						}
						old := e.LoadFrom(st, ptr, s.elems)
						if freshObj(l) {
							s.changed(e, st, l, in, elNew, "elements of a new segment")
						} else if old != nil && old.K != ai.KNil && old.K != ai.KConst && old != val {
							s.changed(e, st, l, in, elStale, "elements replaced")
						}
					} else if isS && freshObj(val) {
						if old := e.LoadFrom(st, e.Field(ls, n[1]), s.elems); old != nil && old.K != ai.KNil && old.K != ai.KConst && freshObj(ls) {
							if l := s.lockOf(e, st, val); l != nil && freshObj(l) && st.Held[l].X == 0 {
								s.changed(e, st, l, in, elNew, "elements of a new segment")
							}
						}
					}
				}
				// elements in place, or the list of segments
				p, fld := ptr, ""
				for p.K == ai.KField {
					fld = p.S
					p = p.Args[0]
				}
				if p.K == ai.KIndex {
					for _, l := range s.ofValue(e, st, p.Args[0]) {
						s.changed(e, st, l, in, elMut, "element changed in place")
					}
					switch fld {
					case "", "Min", "Max", "MinTie", "MaxTie", "ID":
						if isSegAddr(in, s.seg) {
							if o := s.ownerOf(e, st, p.Args[0]); o != nil {
								st.Held[unsavedKey(e, o)] = ai.Held{X: 64, Site: c.Pos(in.Pos()), Pos: in.Pos(), At: in}
							}
						}
					}
				}
				if ptr.K == ai.KField && ptr.S == s.segFld {
					if s2, ok := in.(*ssa.Store); ok {
						if _, made := s2.Val.(*ssa.MakeSlice); !made && isFieldOf(s2.Addr, s.segs) && !(val.K == ai.KDeref && val.Args[0] == ptr) {
							o := ptr.Args[0]
							if !(freshObj(o) && (val.K == ai.KNil || val.K == ai.KConst)) {
								st.Held[unsavedKey(e, o)] = ai.Held{X: 64, Site: c.Pos(in.Pos()), Pos: in.Pos(), At: in}
							}
						}
					}
				}
			}
			e.Hooks.Call = func(cc *ai.CallCtx) ([]ai.Outcome, bool) { return s.call(cc, root, add, sets) }
			failing := func(st *ai.State) {
				_, bad := st.Marks["lost"]
				for k, h := range st.Held {
					bad = bad || isUnsaved(k) || segLock(k) && h.X&(elDirty|elFailed) != 0
				}
				if bad {
					st.Marks["failed"] = e.Bool(true)
				}
			}
			e.Hooks.Send = func(e *ai.Engine, st *ai.State, ch, val *ai.V, in ssa.Instruction) {
				if c, ok := chanOf(in); ok && ai.IsError(c.Type().Underlying().(*types.Chan).Elem()) {
					failing(st)
				}
			}
			e.Hooks.Branch = func(e *ai.Engine, st *ai.State, in *ssa.If, taken bool) {
				cond, t := in.Cond, taken
				for {
					u, ok := cond.(*ssa.UnOp)
					if !ok || u.Op != token.NOT {
						break
					}
					cond, t = u.X, !t
				}
				b, ok := cond.(*ssa.BinOp)
				if !ok || b.Op != token.NEQ && b.Op != token.EQL {
					return
				}
				if k, ok := b.Y.(*ssa.Const); !ok || !k.IsNil() {
					return
				}
				isNil := (b.Op == token.EQL) == t
				if isNil && s.cacheT != nil && types.Identical(b.X.Type(), s.cacheT) {
					// no cache, nothing to keep up to date
					for k, h := range st.Held {
						if segLock(k) && h.X&(elStale|elMut) != 0 {
							setX(st, k, 0, elStale|elMut)
						}
					}
				}
				// an error seen after a change: the operation is failing, what becomes of the error is not decided here
				if !isNil && ai.IsError(b.X.Type()) {
					failing(st)
				}
			}
			e.Hooks.Prune = func(st *ai.State) bool {
				if _, f := st.Marks["failed"]; !f {
					return false
				}
				for k, h := range st.Held {
					if segLock(k) && h.X != 0 {
						return false
					}
				}
				return true
			}
			e.Hooks.Lock = func(ev *ai.LockEvent) {
				if ev.Op != "Unlock" || ev.Was.X == 0 {
					return
				}
				s.mu.Lock()
				s.unlocked[ev.At] = true
				s.mu.Unlock()
				if x := ev.Was.X; x&elNew == 0 {
					if x&elDirty != 0 && x&elMut != 0 {
						add("cache-has-unsaved-change", lostAt(ev.St, c), root, ev.At, ev.St, "a segment is unlocked while the cache has changed elements of it that were not stored")
					} else if x&elDirty == 0 && x&elStale != 0 {
						add("cache-outdated", lostAt(ev.St, c), root, ev.At, ev.St, "a segment is unlocked with changed elements that were stored, while the cache may still have the old ones")
					}
				}
				if ev.Was.X&elDirty != 0 {
					ev.St.Marks["lost"] = e.Const(constant.MakeString(lostAt(ev.St, c)))
				}
			}
		},
		Out: func(e *ai.Engine, root *ssa.Function, outs []ai.Outcome) {
			for _, o := range outs {
				r.Inc("exits_checked", 1)
				if Failed(e, root, o) {
					continue
				}
				if _, f := o.St.Marks["failed"]; f {
					continue
				}
				r.Inc("successful_exits", 1)
				for _, k := range o.St.SortedHeld() {
					h := o.St.Held[k]
					if isUnsaved(k) {
						add("list-of-segments-not-stored", LockClass(k), root, h.At, o.St, fmt.Sprintf("the list of segments of %v is changed at %s but the operation can succeed without storing it", bare(k).Args[0], h.Site))
					} else if h.X&elDirty != 0 && segLock(k) {
						add("elements-not-stored", LockClass(k), root, nil, o.St, "elements of a segment are changed but the operation can succeed without storing them")
					}
				}
				if m, ok := o.St.Marks["lost"]; ok {
					at := constant.StringVal(m.C)
					add("elements-not-stored", at, root, nil, o.St, "a segment is unlocked in "+at+" with changed elements that were not stored, and the operation can succeed")
				}
			}
		},
	})
	r.Counts["change_sites"] = len(s.sites)
	r.Counts["storage_calls"] = len(sets)
	r.Counts["unlock_sites_of_changed_segments"] = len(s.unlocked)
}

// current: v are the elements the segment with the given lock has now.
func (s *stored) current(e *ai.Engine, st *ai.State, v, lock *ai.V) bool {
	if v != nil && v.K == ai.KIface {
		v = v.Args[0]
	}
	for _, l := range s.ofValue(e, st, v) {
		if l == lock {
			return true
		}
	}
	return false
}

func chanOf(in ssa.Instruction) (ssa.Value, bool) {
	switch in := in.(type) {
	case *ssa.Send:
		return in.Chan, true
	}
	return nil, false
}

// lostAt names the innermost named function.
func lostAt(st *ai.State, c *Ctx) string {
	for i := len(st.Frames) - 1; i >= 0; i-- {
		if f := st.Frames[i].Fn; !strings.Contains(f.Name(), "$bound") {
			return Short(TopFn(f))
		}
	}
	return "?"
}

// Failed: the outcome carries an error.
func Failed(e *ai.Engine, root *ssa.Function, o ai.Outcome) bool {
	res := root.Signature.Results()
	n := res.Len()
	if n == 0 || !ai.IsError(res.At(n-1).Type()) || o.Ret == nil {
		return false
	}
	v := o.Ret
	if n > 1 {
		if v.K != ai.KTuple || len(v.Args) != n {
			return false
		}
		v = v.Args[n-1]
	}
	return e.NilFact(o.St, v) == ai.NotNil
}

func freshObj(v *ai.V) bool {
	return v != nil && v.Root().K == ai.KAlloc && !v.Any(func(x *ai.V) bool { return x.K == ai.KIndex })
}

func holderType(in ssa.Instruction) string {
	if st, ok := in.(*ssa.Store); ok {
		if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
			return fa.X.Type().Underlying().(*types.Pointer).Elem().String()
		}
	}
	return ""
}

func isSegAddr(in ssa.Instruction, seg *types.Named) bool {
	st, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	a := st.Addr
	for {
		if p, ok := a.Type().Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), seg) {
			return true
		}
		fa, ok := a.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		a = fa.X
	}
}

func isFieldOf(a ssa.Value, t *types.Named) bool {
	fa, ok := a.(*ssa.FieldAddr)
	return ok && types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), t)
}

func (s *stored) call(cc *ai.CallCtx, root *ssa.Function, add func(rule, what string, root *ssa.Function, in ssa.Instruction, st *ai.State, msg string), sets map[ssa.Instruction]bool) ([]ai.Outcome, bool) {
	e, st := cc.E, cc.St
	if strings.Contains(cc.Name, "(*sync.") || strings.Contains(cc.Name, "(sync.") {
		// only the locks of segments matter here
		k := cc.Args[0]
		return []ai.Outcome{{St: st}}, strings.HasPrefix(cc.Name, "(*sync.WaitGroup)") || !(k.K == ai.KField && s.lockIn(k.S))
	}
	if f := cc.Callee; f != nil {
		if k := s.loaders[f]; k != "" {
			if k == "segments" {
				return []ai.Outcome{{St: st, Ret: e.Tuple(cc.Fresh(st, "loaded", true), e.Nil())}}, true
			}
			bad := st.Clone()
			return []ai.Outcome{{St: st, Ret: e.Tuple(cc.Fresh(st, "loaded", true), e.Nil())}, {St: bad, Ret: e.Tuple(e.Nil(), cc.Fresh(bad, "loaderr", true))}}, true
		}
		sig := f.Signature
		if rv := sig.Recv(); rv != nil && len(cc.Args) == 1 && sig.Results().Len() == 1 {
			if p, ok := rv.Type().(*types.Pointer); ok && types.Identical(p.Elem(), s.seg) {
				if b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String && sig.Params().Len() == 0 {
					return []ai.Outcome{{St: st, Ret: e.Expr("key:"+f.Name(), cc.Args[0])}}, true
				}
			}
		}
		if (f.Name() == "EncodeMsg" || f.Name() == "MarshalMsg") && sig.Recv() != nil {
			v := cc.Args[0]
			if p, ok := sig.Recv().Type().(*types.Pointer); ok && isCollection(p.Elem()) {
				v = e.LoadFrom(st, v, p.Elem())
			}
			st.Marks["enc"] = v
			return nil, false
		}
		// what the callee changes of elements it is given
		for i, bits := range s.mut[f] {
			if bits == 0 || i >= len(cc.Args) || e.Inline(f) {
				continue
			}
			a := cc.Args[i]
			if _, ok := f.Params[i].Type().Underlying().(*types.Pointer); ok {
				if ls, isE, _, n := s.holderField(a); ls != nil && isE {
					if sg := e.LoadFrom(st, e.Field(ls, n[0]), types.NewPointer(s.seg)); sg != nil {
						s.changed(e, st, s.lockOf(e, st, sg), cc.Instr, elMut|elStale, "elements changed by "+Short(f))
					}
				} else if bits&changesElems != 0 {
					for _, l := range s.ofValue(e, st, e.LoadFrom(st, a, s.elems)) {
						s.changed(e, st, l, cc.Instr, elMut, "elements changed by "+Short(f))
					}
				}
			} else if bits&changesElems != 0 {
				for _, l := range s.ofValue(e, st, a) {
					s.changed(e, st, l, cc.Instr, elMut, "elements changed by "+Short(f))
				}
			}
		}
		if strings.HasSuffix(cc.Name, "blobstore.StoreWithSet") && len(cc.Args) == 2 {
			return []ai.Outcome{{St: st, Ret: e.Expr("store", cc.Args[0], cc.Args[1])}}, true
		}
	}
	if cc.Method == nil {
		return nil, false
	}
	// cache
	if rv := cc.Method.Type().(*types.Signature).Recv(); rv != nil && strings.HasSuffix(rv.Type().String(), ".Cache") && len(cc.Args) >= 2 {
		key := cc.Args[1]
		if key.K == ai.KIface {
			key = key.Args[0]
		}
		if key.K == ai.KExpr && strings.HasPrefix(key.S, "key:") && (cc.Method.Name() == "Add" || cc.Method.Name() == "Remove") {
			if l := s.lockOf(e, st, key.Args[0]); l != nil && st.Held[l].X != 0 {
				if cc.Method.Name() == "Remove" {
					setX(st, l, 0, elStale|elMut)
				} else if cur := s.current(e, st, cc.Args[2], l); cur && st.Held[l].X&elDirty != 0 {
					setX(st, l, elMut, elStale)
				} else if cur {
					setX(st, l, 0, elStale|elMut)
				} else {
					setX(st, l, elStale, 0)
				}
			}
		}
		return nil, false
	}
	op, ki := storeOp(cc.Instr)
	if op == "" || ki+1 >= len(cc.Args) {
		return nil, false
	}
	key := cc.Args[ki+1]
	s.mu.Lock()
	sets[cc.Instr] = true
	s.mu.Unlock()
	ok := func(st *ai.State) ai.Outcome {
		if op == "Get" {
			return ai.Outcome{St: st, Ret: e.Tuple(cc.Fresh(st, "blob", true), e.Nil())}
		}
		return ai.Outcome{St: st, Ret: e.Nil()}
	}
	if op == "Get" {
		return []ai.Outcome{ok(st)}, true
	}
	enc := st.Marks["enc"]
	if op == "Set" {
		delete(st.Marks, "enc")
	}
	var lock *ai.V
	if key.K == ai.KExpr && strings.HasPrefix(key.S, "key:") {
		lock = s.lockOf(e, st, key.Args[0])
	}
	// a list of segments: the key is its ID
	for k := range st.Held {
		if !isUnsaved(k) {
			continue
		}
		id := e.LoadFrom(st, e.Field(bare(k).Args[0], s.idFld), nil)
		if id != nil && (id == key || key.K == ai.KExpr && len(key.Args) == 1 && key.Args[0] == id) {
			delete(st.Held, k)
		}
	}
	switch op {
	case "Set":
		if lock != nil && st.Held[lock].X&elDirty != 0 {
			// what is stored must be what the segment holds now
			if !s.current(e, st, enc, lock) {
				break
			}
			if st.Held[lock].X&elNew == 0 {
				for k, h := range st.Held {
					if k != lock && h.X&(elNew|elDirty) == elNew|elDirty && segLock(k) {
						add("overwritten-first", LockClass(k), root, cc.Instr, st, "a segment is overwritten in storage while the elements moved out of it into a new segment are not stored yet, so a failure or crash in between loses them")
					}
				}
			}
			bad := st.Clone()
			setX(bad, lock, elFailed, 0)
			setX(st, lock, 0, elDirty|elFailed|elMut)
			return []ai.Outcome{ok(st), {St: bad, Ret: cc.Fresh(bad, "seterr", true)}}, true
		}
	case "Delete":
		if lock != nil {
			setX(st, lock, 0, elDirty|elNew|elFailed)
		}
		if key.K == ai.KExpr && strings.HasPrefix(key.S, "key:") {
			for k, h := range st.Held {
				if k != lock && h.X&elDirty != 0 && segLock(k) {
					add("deleted-first", LockClass(k), root, cc.Instr, st, "the stored elements of a segment are deleted while those of another changed segment are not stored yet")
				}
			}
		} else {
			for k := range st.Held {
				if isUnsaved(k) && root.Signature.Recv() != nil {
					add("deleted-first", "segments", root, cc.Instr, st, "a stored list of segments is deleted before the one that replaces it is stored")
				}
			}
		}
	}
	return []ai.Outcome{ok(st)}, true
}

func init() {
	register("C10", "path-sensitive typestate over go/ssa (changed elements and segment lists are stored before success)", func(c *Ctx) *Result {
		r := NewResult()
		s := newStored(c, r)
		if s == nil {
			r.Note("types of the list not found")
			r.Floors["entry_points"] = 10
			return r
		}
		r.Explanation = "Every exported operation of a list is an entry point; with its callees, closures, deferred calls and goroutines expanded it is propagated as finite abstract states to a fixpoint. The write lock of each segment carries what is known about the segment's elements: changed since stored, replaced or changed in place since the cache saw them, never stored. Stores into the elements, replacing them, and callees that change them (by a mutation summary) set these; a storage write counts only when the key is the segment's and the value encoded last is the segment's current elements. Changes to a list of segments are tracked the same way until it is stored under its own key."
		r.Rules = []string{
			"elements-not-stored: a segment is unlocked, or the operation ends, with changed elements that were not stored, and the operation can succeed",
			"list-of-segments-not-stored: the list of segments changed and the operation can succeed without storing it",
			"overwritten-first: a segment is overwritten in storage while the elements that moved out of it are in a new segment that is not stored yet",
			"deleted-first: stored elements are deleted while a segment that took them over is not stored yet",
			"cache-has-unsaved-change / cache-outdated: a segment is unlocked while the cache has other elements than storage",
		}
		r.Assumptions = append(r.Assumptions,
			"A storage write either stores the value or reports an error.",
			"A path on which an error was seen after a change, or sent to an error channel, counts as failing; whether the error reaches the caller is decided by C05.",
			"Builtin copy and append change only slices that are later assigned to the segment.",
			"Package variables of basic type that are never assigned keep their initial value.")
		s.run()
		for in, what := range s.sites {
			r.Samples = append(r.Samples, c.Pos(in.Pos())+" "+Short(in.Parent())+": "+what)
		}
		r.Floors["entry_points"] = 10
		r.Floors["change_sites"] = 5
		r.Floors["storage_calls"] = 4
		r.Floors["unlock_sites_of_changed_segments"] = 1
		r.Floors["successful_exits"] = 10
		return r
	})
}
