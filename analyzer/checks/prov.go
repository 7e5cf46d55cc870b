package checks

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Prov says, for the values of one entry point and everything it expands to, which parts of the
// entry point's inputs they are made from. A source is a path below a parameter ("ctx.Payload.ID");
// "~" in front says that it went through a computation; "[0]", "[*]" and "[:]" select elements.
type Prov struct {
	root   *ssa.Function
	expand func(*ssa.Function) bool
	tree   map[*ssa.Function]bool
	order  []*ssa.Function
	src    map[ssa.Value]map[string]bool
	fns    map[ssa.Value]map[*ssa.Function]bool
	ret    map[*ssa.Function][]map[string]bool
	mem    map[ssa.Value]map[string]bool // content of local variables
	memFns map[ssa.Value]map[*ssa.Function]bool
	ch     bool
	// Call overrides the sources of a call.
	Call func(p *Prov, ci ssa.CallInstruction) (map[string]bool, bool)
	// Skip drops arguments that do not count as sources of a result.
	Skip func(v ssa.Value) bool
}

// NewProv computes the sources for root; names maps parameter index to source name.
func NewProv(root *ssa.Function, expand func(*ssa.Function) bool, skip func(ssa.Value) bool) *Prov {
	p := &Prov{root: root, expand: expand, Skip: skip, tree: map[*ssa.Function]bool{}, src: map[ssa.Value]map[string]bool{}, fns: map[ssa.Value]map[*ssa.Function]bool{},
		ret: map[*ssa.Function][]map[string]bool{}, mem: map[ssa.Value]map[string]bool{}, memFns: map[ssa.Value]map[*ssa.Function]bool{}}
	for _, x := range root.Params {
		p.src[x] = map[string]bool{x.Name(): true}
	}
	p.add(root)
	return p
}

// Run computes the fixpoint.
func (p *Prov) Run() *Prov {
	for n := 0; n < 60; n++ {
		p.ch = false
		for i := 0; i < len(p.order); i++ {
			f := p.order[i]
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					p.step(in)
				}
			}
		}
		if !p.ch {
			break
		}
	}
	return p
}

func (p *Prov) add(f *ssa.Function) {
	if !p.tree[f] && len(f.Blocks) > 0 {
		p.tree[f] = true
		p.order = append(p.order, f)
		p.ch = true
	}
}

// Of returns the sources of v.
func (p *Prov) Of(v ssa.Value) map[string]bool {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return nil
	case *ssa.Alloc:
		return p.mem[x]
	case *ssa.FreeVar:
		return p.src[x]
	}
	return p.src[v]
}

// Clean strips the computation marks.
func Clean(m map[string]bool) map[string]bool {
	r := map[string]bool{}
	for k := range m {
		r[strings.TrimPrefix(k, "~")] = true
	}
	return r
}

func (p *Prov) put(v ssa.Value, m map[string]bool) {
	if len(m) == 0 {
		return
	}
	d := p.src[v]
	if d == nil {
		d = map[string]bool{}
		p.src[v] = d
	}
	for k := range m {
		if !d[k] && len(d) < 40 {
			d[k] = true
			p.ch = true
		}
	}
}

func (p *Prov) putFns(v ssa.Value, m map[*ssa.Function]bool) {
	for k := range m {
		d := p.fns[v]
		if d == nil {
			d = map[*ssa.Function]bool{}
			p.fns[v] = d
		}
		if !d[k] {
			d[k] = true
			p.ch = true
		}
	}
}

func (p *Prov) fnsOf(v ssa.Value) map[*ssa.Function]bool {
	switch x := v.(type) {
	case *ssa.Function:
		return map[*ssa.Function]bool{x: true}
	case *ssa.MakeClosure:
		return map[*ssa.Function]bool{x.Fn.(*ssa.Function): true}
	case *ssa.Alloc:
		return p.memFns[x]
	}
	return p.fns[v]
}

func suffix(m map[string]bool, s string, raw bool) map[string]bool {
	r := map[string]bool{}
	for k := range m {
		if raw && strings.HasPrefix(k, "~") {
			r[k] = true
			continue
		}
		if strings.Count(k, ".")+strings.Count(k, "[") > 7 {
			r[k] = true
			continue
		}
		r[k+s] = true
	}
	return r
}

func derived(m map[string]bool) map[string]bool {
	r := map[string]bool{}
	for k := range m {
		if !strings.HasPrefix(k, "~") {
			k = "~" + k
		}
		r[k] = true
	}
	return r
}

func (p *Prov) store(addr ssa.Value, m map[string]bool, fns map[*ssa.Function]bool) {
	for {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			addr = x.X
			continue
		case *ssa.IndexAddr:
			addr = x.X
			continue
		case *ssa.Slice:
			addr = x.X
			continue
		case *ssa.Alloc:
			d := p.mem[x]
			if d == nil {
				d = map[string]bool{}
				p.mem[x] = d
			}
			for k := range m {
				if !d[k] && len(d) < 40 {
					d[k] = true
					p.ch = true
				}
			}
			for k := range fns {
				if p.memFns[x] == nil {
					p.memFns[x] = map[*ssa.Function]bool{}
				}
				if !p.memFns[x][k] {
					p.memFns[x][k] = true
					p.ch = true
				}
			}
			return
		default:
			// a slice, pointer or map that lives in a register
			if _, ok := addr.(ssa.Instruction); ok || len(m) > 0 {
				if _, isP := addr.(*ssa.Parameter); !isP || addr.(*ssa.Parameter).Parent() != p.root {
					p.put(addr, derived(m))
				}
			}
			return
		}
	}
}

func (p *Prov) step(in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Store:
		p.store(x.Addr, p.Of(x.Val), p.fnsOf(x.Val))
	case *ssa.MapUpdate:
		m := derived(p.Of(x.Value))
		for k := range derived(p.Of(x.Key)) {
			m[k] = true
		}
		p.store(x.Map, m, nil)
	case *ssa.Send:
		p.store(x.Chan, derived(p.Of(x.X)), nil)
	case *ssa.UnOp:
		p.put(x, p.Of(x.X))
		p.putFns(x, p.fnsOf(x.X))
	case *ssa.FieldAddr:
		p.put(x, p.field(x.X, x.X.Type(), x.Field))
		p.putFns(x, p.fnsOf(x.X))
	case *ssa.Field:
		p.put(x, p.field(x.X, x.X.Type(), x.Field))
		p.putFns(x, p.fnsOf(x.X))
	case *ssa.IndexAddr:
		p.put(x, suffix(p.Of(x.X), idx(x.Index), false))
		p.putFns(x, p.fnsOf(x.X))
	case *ssa.Index:
		p.put(x, suffix(p.Of(x.X), idx(x.Index), false))
	case *ssa.Lookup:
		k := "[*]"
		if c, ok := x.Index.(*ssa.Const); ok && c.Value != nil {
			k = "[" + c.Value.ExactString() + "]"
		}
		p.put(x, suffix(p.Of(x.X), k, false))
	case *ssa.Slice:
		m := p.Of(x.X)
		if x.Low != nil && !isZero(x.Low) || x.High != nil {
			m = suffix(m, "[:]", false)
		}
		p.put(x, m)
	case *ssa.Phi:
		for _, e := range x.Edges {
			p.put(x, p.Of(e))
			p.putFns(x, p.fnsOf(e))
		}
	case *ssa.ChangeType:
		p.put(x, p.Of(x.X))
		p.putFns(x, p.fnsOf(x.X))
	case *ssa.Convert:
		p.put(x, p.Of(x.X))
	case *ssa.MakeInterface:
		p.put(x, p.Of(x.X))
		p.putFns(x, p.fnsOf(x.X))
	case *ssa.ChangeInterface:
		p.put(x, p.Of(x.X))
	case *ssa.TypeAssert:
		p.put(x, p.Of(x.X))
		p.putFns(x, p.fnsOf(x.X))
	case *ssa.BinOp:
		switch x.Op.String() {
		case "==", "!=", "<", "<=", ">", ">=":
			return
		}
		p.put(x, derived(p.Of(x.X)))
		p.put(x, derived(p.Of(x.Y)))
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if m, ok := p.results(c, x.Index); ok {
				p.put(x, m)
				return
			}
		}
		p.put(x, p.Of(x.Tuple))
	case *ssa.Range:
		p.put(x, p.Of(x.X))
	case *ssa.Next:
		p.put(x, suffix(p.Of(x.Iter), "[*]", false))
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		p.add(f)
		for i, b := range x.Bindings {
			fv := f.FreeVars[i]
			p.put(fv, p.Of(b))
			p.putFns(fv, p.fnsOf(b))
		}
	case *ssa.Return:
		f := x.Parent()
		if p.ret[f] == nil {
			p.ret[f] = make([]map[string]bool, len(x.Results))
		}
		for i, r := range x.Results {
			if p.ret[f][i] == nil {
				p.ret[f][i] = map[string]bool{}
			}
			for k := range p.Of(r) {
				if !p.ret[f][i][k] {
					p.ret[f][i][k] = true
					p.ch = true
				}
			}
		}
	}
	if ci, ok := in.(ssa.CallInstruction); ok {
		p.call(ci)
	}
}

func isZero(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.ExactString() == "0"
}

func idx(v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil {
		return "[" + c.Value.ExactString() + "]"
	}
	return "[*]"
}

func (p *Prov) field(base ssa.Value, t types.Type, i int) map[string]bool {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return p.Of(base)
	}
	if a, ok := base.(*ssa.Alloc); ok {
		return p.mem[a]
	}
	return suffix(p.Of(base), "."+st.Field(i).Name(), true)
}

func (p *Prov) targets(ci ssa.CallInstruction) []*ssa.Function {
	com := ci.Common()
	if com.IsInvoke() {
		return nil
	}
	if f := com.StaticCallee(); f != nil {
		if len(f.Blocks) > 0 && (f.Parent() != nil || p.expand(f)) {
			return []*ssa.Function{f}
		}
		return nil
	}
	var l []*ssa.Function
	for f := range p.fnsOf(com.Value) {
		if len(f.Blocks) > 0 && (f.Parent() != nil || p.expand(f)) {
			l = append(l, f)
		}
	}
	return l
}

// results of a call that is expanded.
func (p *Prov) results(c *ssa.Call, i int) (map[string]bool, bool) {
	if p.Call != nil {
		if _, ok := p.Call(p, c); ok {
			return nil, false
		}
	}
	ts := p.targets(c)
	if len(ts) == 0 {
		return nil, false
	}
	m := map[string]bool{}
	for _, f := range ts {
		if r := p.ret[f]; r != nil && i < len(r) {
			for k := range r[i] {
				m[k] = true
			}
		}
	}
	return m, true
}

func (p *Prov) call(ci ssa.CallInstruction) {
	com := ci.Common()
	v := ci.Value()
	if v != nil && p.Call != nil {
		if m, ok := p.Call(p, ci); ok {
			p.put(v, m)
			return
		}
	}
	if ts := p.targets(ci); len(ts) > 0 {
		for _, f := range ts {
			p.add(f)
			for i, a := range com.Args {
				if i < len(f.Params) {
					p.put(f.Params[i], p.Of(a))
					p.putFns(f.Params[i], p.fnsOf(a))
				}
			}
			if v != nil && f.Signature.Results().Len() == 1 {
				if r := p.ret[f]; r != nil {
					p.put(v, r[0])
				}
			}
		}
		return
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			for _, a := range com.Args {
				p.put(v, p.Of(a))
			}
		case "copy":
			p.store(com.Args[0], derived(p.Of(com.Args[1])), nil)
		}
		return
	}
	if v == nil {
		return
	}
	args := com.Args
	if com.IsInvoke() {
		args = append([]ssa.Value{com.Value}, args...)
	}
	for _, a := range args {
		if p.Skip != nil && p.Skip(a) {
			continue
		}
		p.put(v, derived(p.Of(a)))
	}
}

// Strings renders a set for messages.
func Strings(m map[string]bool) string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sortStrings(l)
	return strings.Join(l, ", ")
}

func sortStrings(l []string) {
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j] < l[i] {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
}
