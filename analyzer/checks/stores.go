package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
	"verif/analyzer/load"
)

const blobPkg = load.ModPath + "/blobstore"

// blobStores decides the contract every blob store has.
type blobStores struct {
	c   *Ctx
	r   *Result
	fns []*ssa.Function // functions of the packages with stores
	ops map[string]map[string]*ssa.Function
	pkg map[string]bool
	// kept: stores that keep something; lower: there is another store or a client below
	kept, lower map[string]bool
	// reads: copies from buffers that are put in a pool
	reads map[ssa.CallInstruction]bool
}

func newBlobStores(c *Ctx, r *Result) *blobStores {
	s := &blobStores{c: c, r: r, ops: map[string]map[string]*ssa.Function{}, pkg: map[string]bool{}, kept: map[string]bool{}, lower: map[string]bool{}, reads: map[ssa.CallInstruction]bool{}}
	sp := c.P.SPkg[blobPkg]
	if sp == nil {
		return nil
	}
	var ifs []*types.Interface
	for _, n := range []string{"Store", "WithSet"} {
		if t := sp.Type(n); t != nil {
			if i, ok := t.Type().Underlying().(*types.Interface); ok {
				ifs = append(ifs, i)
			}
		}
	}
	for _, sp := range c.P.SPkg {
		for _, m := range sp.Members {
			t, ok := m.(*ssa.Type)
			if !ok || types.IsInterface(t.Type()) {
				continue
			}
			for _, i := range ifs {
				pt := types.NewPointer(t.Type())
				if !types.Implements(pt, i) {
					continue
				}
				ms := types.NewMethodSet(pt)
				o := map[string]*ssa.Function{}
				for _, op := range []string{"Get", "Set", "Delete"} {
					if sel := ms.Lookup(t.Object().Pkg(), op); sel != nil {
						if f := sp.Prog.FuncValue(sel.Obj().(*types.Func)); f != nil && len(f.Blocks) > 0 {
							o[op] = f
						}
					}
				}
				if len(o) == 3 {
					s.ops[t.Type().String()] = o
					s.pkg[sp.Pkg.Path()] = true
				}
			}
		}
	}
	for _, f := range c.P.Funcs {
		if s.pkg[PkgPath(f)] {
			s.fns = append(s.fns, f)
		}
	}
	return s
}

func (s *blobStores) names() []string {
	var l []string
	for n := range s.ops {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

// ---- addresses

// aframe is the context a function is expanded in.
type aframe struct {
	fn   *ssa.Function
	up   *aframe
	args map[ssa.Value]aref
	lit  map[ssa.Value]string
	n    int
}

type aref struct {
	v  ssa.Value
	fr *aframe
}

type addresses struct {
	s     *blobStores
	self  types.Type
	found map[string]map[string]token.Pos // kind of container -> addresses
	calls int
}

func (a *addresses) add(kind, addr string, pos token.Pos) {
	if a.found[kind] == nil {
		a.found[kind] = map[string]token.Pos{}
	}
	if _, ok := a.found[kind][addr]; !ok {
		a.found[kind][addr] = pos
	}
}

func product(l, r []string, sep string) []string {
	var out []string
	for _, x := range l {
		for _, y := range r {
			if len(out) < 12 {
				out = append(out, x+sep+y)
			}
		}
	}
	return out
}

// concat is the texts of l followed by those of r.
func concat(l, r []string) []string {
	one := func(x []string) bool { return len(x) == 1 && x[0] == "''" }
	if one(l) {
		return r
	}
	if one(r) {
		return l
	}
	return product(l, r, "+")
}

func isZeroConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.Int && c.Int64() == 0
}

// elems is what is stored in the elements of an array literal.
func (a *addresses) elems(al *ssa.Alloc) []ssa.Value {
	ar, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok || ar.Len() > 16 {
		return nil
	}
	l := make([]ssa.Value, ar.Len())
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		c, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		for _, q := range *ia.Referrers() {
			if st, ok := q.(*ssa.Store); ok && st.Addr == ia {
				if l[c.Int64()] != nil {
					return nil
				}
				l[c.Int64()] = st.Val
			}
		}
	}
	for _, v := range l {
		if v == nil {
			return nil
		}
	}
	return l
}

// varargs is the elements of a slice literal.
func (a *addresses) varargs(v ssa.Value) []ssa.Value {
	if sl, ok := v.(*ssa.Slice); ok && sl.Low == nil && sl.High == nil {
		if al, ok := sl.X.(*ssa.Alloc); ok {
			return a.elems(al)
		}
	}
	return nil
}

// format expands the text functions of the standard library.
func (a *addresses) format(f *ssa.Function, x *ssa.Call, fr *aframe, depth int) []string {
	str := func(v ssa.Value) (string, bool) {
		c, ok := v.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.String {
			return "", false
		}
		return constant.StringVal(c.Value), true
	}
	lit := func(s string) []string { return []string{"'" + s + "'"} }
	switch f.String() {
	case "fmt.Sprintf":
		s, ok := str(x.Call.Args[0])
		args := a.varargs(x.Call.Args[1])
		if !ok || args == nil {
			return []string{"?"}
		}
		out := lit("")
		for s != "" {
			i := strings.IndexByte(s, '%')
			if i < 0 {
				return concat(out, lit(s))
			}
			out = concat(out, lit(s[:i]))
			if i+1 >= len(s) || len(args) == 0 || !strings.ContainsRune("svdqx", rune(s[i+1])) {
				return []string{"?"}
			}
			out = concat(out, a.canon(args[0], fr, depth+1))
			s, args = s[i+2:], args[1:]
		}
		return out
	case "strings.Join", "path.Join", "path/filepath.Join":
		sep, ok := "/", true
		if len(x.Call.Args) == 2 {
			sep, ok = str(x.Call.Args[1])
		}
		args := a.varargs(x.Call.Args[0])
		if !ok || args == nil {
			return []string{"?"}
		}
		out := lit("")
		for i, v := range args {
			if i > 0 {
				out = concat(out, lit(sep))
			}
			out = concat(out, a.canon(v, fr, depth+1))
		}
		return out
	}
	return nil
}

func uniq(l []string) []string {
	sort.Strings(l)
	var out []string
	for i, x := range l {
		if i == 0 || x != l[i-1] {
			out = append(out, x)
		}
	}
	return out
}

func isStringish(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	case *types.Pointer:
		return isStringish(u.Elem())
	}
	return false
}

func isBytes(t types.Type) bool {
	u, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := u.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func (a *addresses) isSelf(t types.Type) bool {
	for {
		if types.Identical(t, a.self) {
			return true
		}
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		t = p.Elem()
	}
}

// resolve follows v through calls and closures to where it comes from.
func (a *addresses) resolve(v ssa.Value, fr *aframe) (ssa.Value, *aframe) {
	for i := 0; i < 30; i++ {
		switch x := v.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			f := fr
			for f != nil && f.fn != x.Parent() {
				f = f.up
			}
			if f == nil {
				return v, fr
			}
			if _, ok := f.lit[x]; ok {
				return v, f
			}
			r, ok := f.args[x]
			if !ok {
				return v, f
			}
			v, fr = r.v, r.fr
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.MakeInterface:
			v = x.X
			continue
		}
		break
	}
	return v, fr
}

// canon renders where a string comes from, one string per possibility; "?" is unknown.
func (a *addresses) canon(v ssa.Value, fr *aframe, depth int) []string {
	v, fr = a.resolve(v, fr)
	if fr != nil {
		if l, ok := fr.lit[v]; ok {
			return []string{l}
		}
	}
	if depth > 14 {
		return []string{"?"}
	}
	if a.isSelf(v.Type()) {
		return []string{"self"}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return []string{"nil"}
		}
		if x.Value.Kind() == constant.String {
			return []string{"'" + constant.StringVal(x.Value) + "'"}
		}
		return []string{"#"}
	case *ssa.BinOp:
		if x.Op == token.ADD && isStringish(x.Type()) {
			return concat(a.canon(x.X, fr, depth+1), a.canon(x.Y, fr, depth+1))
		}
		return []string{"#"}
	case *ssa.Convert:
		return a.canon(x.X, fr, depth+1)
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			return a.canon(x.X, fr, depth+1)
		}
		if isZeroConst(x.High) {
			return []string{"''"}
		}
		return []string{"?"}
	case *ssa.MakeSlice:
		if isZeroConst(x.Len) {
			return []string{"''"}
		}
		return []string{"?"}
	case *ssa.Alloc:
		if l := a.elems(x); len(l) > 0 && isBytes(types.NewSlice(l[0].Type())) {
			var b []byte
			for _, v := range l {
				c, ok := v.(*ssa.Const)
				if !ok {
					return []string{"?"}
				}
				b = append(b, byte(c.Int64()))
			}
			return []string{"'" + string(b) + "'"}
		}
		return []string{"?"}
	case *ssa.Phi:
		var l []string
		for _, e := range x.Edges {
			if e == x {
				continue
			}
			l = append(l, a.canon(e, fr, depth+3)...)
		}
		return uniq(l)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return []string{"#"}
		}
		return a.load(x.X, fr, depth+1)
	case *ssa.Field:
		b, bf := a.resolve(x.X, fr)
		if u, ok := b.(*ssa.UnOp); ok && u.Op == token.MUL {
			return a.loadField(u.X, x.Field, bf, depth+1)
		}
		return a.under(a.canon(b, bf, depth+1), x.X.Type(), x.Field)
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 && a.s.pkg[PkgPath(f)] && fr.n < 6 && isStringish(x.Type()) {
			nf := a.enter(f, x.Call.Args, nil, fr)
			var l []string
			EachInstr(f, func(in ssa.Instruction) {
				if r, ok := in.(*ssa.Return); ok && len(r.Results) == 1 {
					l = append(l, a.canon(r.Results[0], nf, depth+1)...)
				}
			})
			return uniq(l)
		}
		if !isStringish(x.Type()) {
			return []string{"#"}
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return concat(a.canon(x.Call.Args[0], fr, depth+1), a.canon(x.Call.Args[1], fr, depth+1))
		}
		name := "call"
		if f := x.Call.StaticCallee(); f != nil {
			name = f.Name()
			if l := a.format(f, x, fr, depth); l != nil {
				return l
			}
		}
		out := []string{name + "("}
		for i, arg := range x.Call.Args {
			sep := ""
			if i > 0 {
				sep = ","
			}
			out = product(out, a.canon(arg, fr, depth+1), sep)
		}
		return product(out, []string{")"}, "")
	}
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 {
		return []string{"#"}
	}
	return []string{"?"}
}

func (a *addresses) under(base []string, t types.Type, i int) []string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return []string{"?"}
	}
	var l []string
	for _, b := range base {
		if b == "?" || b == "#" {
			l = append(l, "?")
		} else {
			l = append(l, b+"."+st.Field(i).Name())
		}
	}
	return uniq(l)
}

func (a *addresses) load(p ssa.Value, fr *aframe, depth int) []string {
	p, fr = a.resolve(p, fr)
	switch x := p.(type) {
	case *ssa.Alloc:
		var l []string
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == x {
				l = append(l, a.canon(st.Val, fr, depth+1)...)
			}
		}
		if len(l) == 0 {
			return []string{"?"}
		}
		return uniq(l)
	case *ssa.FieldAddr:
		return a.loadField(x.X, x.Field, fr, depth)
	case *ssa.Global:
		return []string{x.Name()}
	}
	return a.canon(p, fr, depth+1)
}

func (a *addresses) loadField(base ssa.Value, i int, fr *aframe, depth int) []string {
	b, bf := a.resolve(base, fr)
	if depth > 14 {
		return []string{"?"}
	}
	if al, ok := b.(*ssa.Alloc); ok {
		var l []string
		for _, r := range *al.Referrers() {
			switch r := r.(type) {
			case *ssa.FieldAddr:
				if r.Field != i {
					continue
				}
				for _, q := range *r.Referrers() {
					if st, ok := q.(*ssa.Store); ok && st.Addr == r {
						l = append(l, a.canon(st.Val, bf, depth+1)...)
					}
				}
			case *ssa.Store:
				if r.Addr != al {
					continue
				}
				v, vf := a.resolve(r.Val, bf)
				if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
					l = append(l, a.loadField(u.X, i, vf, depth+1)...)
				} else {
					l = append(l, a.under(a.canon(v, vf, depth+1), v.Type(), i)...)
				}
			}
		}
		if len(l) > 0 {
			return uniq(l)
		}
		return []string{"?"}
	}
	return a.under(a.canon(b, bf, depth+1), base.Type(), i)
}

func (a *addresses) enter(f *ssa.Function, args []ssa.Value, clo *ssa.MakeClosure, fr *aframe) *aframe {
	nf := &aframe{fn: f, up: fr, args: map[ssa.Value]aref{}, lit: map[ssa.Value]string{}, n: fr.n + 1}
	for i, p := range f.Params {
		if i < len(args) {
			nf.args[p] = aref{args[i], fr}
		}
	}
	if clo != nil {
		for i, b := range clo.Bindings {
			nf.args[f.FreeVars[i]] = aref{b, fr}
		}
	}
	for _, v := range f.FreeVars {
		if a.isSelf(v.Type()) {
			nf.lit[v] = "self"
		}
	}
	return nf
}

func mentions(l []string, w string) bool {
	for _, x := range l {
		if strings.Contains(x, w) {
			return true
		}
	}
	return false
}

// visit collects the addresses used in fn and what it calls.
func (a *addresses) visit(fn *ssa.Function, fr *aframe) {
	a.calls++
	if fr.n > 7 || a.calls > 400 {
		return
	}
	container := func(m ssa.Value) string {
		for _, x := range a.canon(m, fr, 0) {
			return x
		}
		return "?"
	}
	key := func(m, k ssa.Value, pos token.Pos) {
		if !isStringish(k.Type()) {
			return
		}
		for _, x := range a.canon(k, fr, 0) {
			if strings.Contains(x, "SET") || strings.Contains(x, "KEY") {
				a.add("map "+container(m), x, pos)
			}
		}
	}
	EachInstr(fn, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Lookup:
			key(x.X, x.Index, x.Pos())
		case *ssa.MapUpdate:
			key(x.Map, x.Key, x.Pos())
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			// called or handed to someone who calls it
			if !goOnly(x) {
				a.visit(f, a.enter(f, nil, x, fr))
			}
		case ssa.CallInstruction:
			if _, ok := in.(*ssa.Go); ok {
				return
			}
			com := x.Common()
			if b, ok := com.Value.(*ssa.Builtin); ok {
				if b.Name() == "delete" {
					key(com.Args[0], com.Args[1], x.Pos())
				}
				return
			}
			if com.IsInvoke() {
				if op, _ := storeOp(x); op != "" {
					var l []string
					for _, arg := range com.Args {
						if b, ok := arg.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
							c := a.canon(arg, fr, 0)
							if l == nil {
								l = c
							} else {
								l = product(l, c, "|")
							}
						}
					}
					for _, y := range uniq(l) {
						a.add("store", y, x.Pos())
					}
				}
				return
			}
			if f := com.StaticCallee(); f != nil {
				if a.s.pkg[PkgPath(f)] && len(f.Blocks) > 0 {
					if f.Parent() == nil { // closures are visited where they are made
						a.visit(f, a.enter(f, com.Args, nil, fr))
					}
					return
				}
				if pp := PkgPath(f); strings.Contains(strings.SplitN(pp, "/", 2)[0], ".") && !strings.HasPrefix(pp, load.ModPath) {
					for _, arg := range com.Args {
						arg, fr := a.resolve(arg, fr)
						if isStringish(arg.Type()) {
							for _, y := range a.canon(arg, fr, 0) {
								if strings.Contains(y, "SET") || strings.Contains(y, "KEY") {
									a.add("client", y, x.Pos())
								}
							}
						}
					}
				}
				return
			}
			v, vf := a.resolve(com.Value, fr)
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					for _, c := range a.s.c.FFns[fieldRef(fa)] {
						if mc, ok := c.(*ssa.MakeClosure); ok {
							f := mc.Fn.(*ssa.Function)
							nf := a.enter(f, com.Args, nil, fr)
							a.visit(f, nf)
						}
					}
				}
			}
			_ = vf
		}
	})
}

func fieldRef(fa *ssa.FieldAddr) ai.FieldRef {
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	return ai.FieldRef{T: t.String(), F: t.Underlying().(*types.Struct).Field(fa.Field).Name()}
}

// goOnly: the closure is only run as a goroutine.
func goOnly(mc *ssa.MakeClosure) bool {
	for _, r := range *mc.Referrers() {
		if g, ok := r.(*ssa.Go); !ok || g.Call.Value != mc {
			if _, ok := r.(*ssa.DebugRef); !ok {
				return false
			}
		}
	}
	return true
}

func sortedKeys(m map[string]token.Pos) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (s *blobStores) addressing() {
	for _, n := range s.names() {
		per := map[string]*addresses{}
		for op, f := range s.ops[n] {
			recv := f.Signature.Recv().Type()
			if p, ok := recv.(*types.Pointer); ok {
				recv = p.Elem()
			}
			a := &addresses{s: s, self: recv, found: map[string]map[string]token.Pos{}}
			fr := &aframe{fn: f, args: map[ssa.Value]aref{}, lit: map[ssa.Value]string{}}
			var strs []*ssa.Parameter
			for i, p := range f.Params {
				if i == 0 {
					fr.lit[p] = "self"
				} else if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
					strs = append(strs, p)
				}
			}
			switch len(strs) {
			case 1:
				fr.lit[strs[0]] = "KEY"
			case 2:
				fr.lit[strs[0]], fr.lit[strs[1]] = "SET", "KEY"
			}
			a.visit(f, fr)
			per[op] = a
		}
		short := n[strings.LastIndex(n, "/")+1:]
		kinds := map[string]bool{}
		for _, a := range per {
			for k := range a.found {
				kinds[k] = true
			}
		}
		if len(kinds) == 0 {
			continue // keeps nothing
		}
		s.r.Inc("stores_with_addresses", 1)
		s.kept[n] = true
		s.lower[n] = kinds["store"] || kinds["client"]
		twoNames := len(s.ops[n]["Get"].Params) == 4
		for kind := range kinds {
			union := map[string]token.Pos{}
			for op, a := range per {
				for x, pos := range a.found[kind] {
					union[x] = pos
					s.r.Inc("addresses_compared", 1)
					s.r.Samples = append(s.r.Samples, fmt.Sprintf("%s: %s.%s addresses %s with %s", s.c.Pos(pos), short, op, kind, x))
					if strings.Contains(x, "SET+KEY") || strings.Contains(x, "KEY+SET") || strings.Contains(x, "KEY+Itoa") || strings.Contains(x, "KEY+#") {
						s.r.Add(Finding{Rule: "names-run-together", Key: "run-together|" + short + "|" + op, Pos: s.c.Pos(pos),
							Msg: fmt.Sprintf("%s.%s addresses %s with %s: two names joined without a separator, so different blobs can have the same address", short, op, kind, x)})
					}
					if twoNames && kind != "client" && !strings.Contains(x, "?") && !(strings.Contains(x, "SET") && strings.Contains(x, "KEY")) {
						s.r.Add(Finding{Rule: "address-ignores-name", Key: "ignores|" + short + "|" + op + "|" + kind, Pos: s.c.Pos(pos),
							Msg: fmt.Sprintf("%s.%s addresses %s with %s, which does not depend on both the set and the key", short, op, kind, x)})
					}
				}
			}
			if twoNames && kind == "client" && !mentions(sortedKeys(union), "?") {
				for op, a := range per {
					if l := sortedKeys(a.found[kind]); len(l) > 0 && !(mentions(l, "SET") && mentions(l, "KEY")) {
						s.r.Add(Finding{Rule: "address-ignores-name", Key: "ignores|" + short + "|" + op + "|" + kind, Pos: s.c.Pos(s.ops[n][op].Pos()),
							Msg: fmt.Sprintf("%s.%s addresses the client with %v, which does not depend on both the set and the key", short, op, l)})
					}
				}
			}
			ref := per["Set"].found[kind]
			if len(ref) == 0 || mentions(sortedKeys(union), "?") {
				if len(ref) != 0 {
					s.r.Note(fmt.Sprintf("%s: addresses of %s not fully known", short, kind))
				}
				continue
			}
			if strings.HasPrefix(kind, "map ") && !s.holdsData(n, strings.TrimPrefix(kind, "map self.")) {
				// locks and statistics: only where used
				for _, op := range []string{"Get", "Delete"} {
					for x, pos := range per[op].found[kind] {
						if _, ok := ref[x]; !ok {
							s.r.Add(Finding{Rule: "addresses-differ", Key: "differ|" + short + "|" + op + "|" + kind, Pos: s.c.Pos(pos),
								Msg: fmt.Sprintf("%s.%s uses %s with %s while Set uses it with %v", short, op, kind, x, sortedKeys(ref))})
						}
					}
				}
				continue
			}
			for _, op := range []string{"Get", "Delete"} {
				got := sortedKeys(per[op].found[kind])
				if strings.Join(got, " ") != strings.Join(sortedKeys(ref), " ") {
					s.r.Add(Finding{Rule: "addresses-differ", Key: "differ|" + short + "|" + op + "|" + kind, Pos: s.c.Pos(s.ops[n][op].Pos()),
						Msg: fmt.Sprintf("%s.%s addresses %s with %v while Set addresses it with %v", short, op, kind, got, sortedKeys(ref))})
				}
			}
		}
	}
}

// holdsData: the field of the store is a map to blobs or queue entries.
func (s *blobStores) holdsData(typ, field string) bool {
	f := s.ops[typ]["Get"]
	t := f.Signature.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			m, ok := st.Field(i).Type().Underlying().(*types.Map)
			return ok && isDataElem(m.Elem())
		}
	}
	return false
}

func isDataElem(t types.Type) bool {
	return isBytes(t) || strings.HasSuffix(t.String(), "container/list.Element")
}

// ---- who shares the bytes

type aliasing struct {
	s    *blobStores
	objs map[interface{}]map[string]bool
	at   map[string]token.Pos
	ret  map[*ssa.Function][]map[string]bool
	ch   bool
	pers map[string]bool // struct types whose values stay in a store
	puts map[ssa.CallInstruction]ssa.Value
}

func (a *aliasing) of(k interface{}) map[string]bool {
	switch x := k.(type) {
	case *ssa.Const:
		return nil
	case *ssa.Global:
		return a.objs["global:"+x.String()]
	}
	return a.objs[k]
}

func (a *aliasing) put(k interface{}, m map[string]bool) {
	if len(m) == 0 {
		return
	}
	d := a.objs[k]
	if d == nil {
		d = map[string]bool{}
		a.objs[k] = d
	}
	for x := range m {
		if !d[x] {
			d[x] = true
			a.ch = true
		}
	}
}

func cellOf(addr ssa.Value) interface{} {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		r := fieldRef(x)
		return r.T + "." + r.F
	case *ssa.Global:
		return "global:" + x.String()
	case *ssa.IndexAddr:
		// element of a slice of slices
		if u, ok := x.X.(*ssa.UnOp); ok && u.Op == token.MUL {
			return cellOf(u.X)
		}
		return x.X
	}
	return addr
}

func mapCell(m ssa.Value) interface{} {
	if u, ok := m.(*ssa.UnOp); ok && u.Op == token.MUL {
		if k, ok := cellOf(u.X).(string); ok {
			return k + "[*]"
		}
	}
	return m
}

func (a *aliasing) fresh(in ssa.Value) map[string]bool {
	n := "new:" + a.s.c.Pos(in.Pos())
	a.at[n] = in.Pos()
	return map[string]bool{n: true}
}

// outside renames what a callee made to the call.
func (a *aliasing) outside(m map[string]bool, call ssa.Value, callee *ssa.Function) map[string]bool {
	r := map[string]bool{}
	for k := range m {
		if strings.HasPrefix(k, "new:") {
			for x := range a.fresh(call) {
				r[x] = true
			}
		} else {
			r[k] = true
		}
	}
	return r
}

func (a *aliasing) callees(com *ssa.CallCommon) []*ssa.Function {
	if f := com.StaticCallee(); f != nil {
		if len(f.Blocks) > 0 && a.s.pkg[PkgPath(f)] {
			return []*ssa.Function{f}
		}
		return nil
	}
	v := com.Value
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			var l []*ssa.Function
			for _, c := range a.s.c.FFns[fieldRef(fa)] {
				switch c := c.(type) {
				case *ssa.MakeClosure:
					l = append(l, c.Fn.(*ssa.Function))
				case *ssa.Function:
					l = append(l, c)
				}
			}
			return l
		}
	}
	return nil
}

func (a *aliasing) step(in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Store:
		a.put(cellOf(x.Addr), a.of(x.Val))
	case *ssa.MapUpdate:
		a.put(mapCell(x.Map), a.of(x.Value))
	case *ssa.Send:
		a.put(cellOf(x.Chan), a.of(x.X))
	case *ssa.UnOp:
		if x.Op == token.MUL {
			a.put(x, a.of(cellOf(x.X)))
		} else if x.Op == token.ARROW {
			a.put(x, a.of(cellOf(x.X)))
		}
	case *ssa.Field:
		t := x.X.Type()
		a.put(x, a.of(t.String()+"."+t.Underlying().(*types.Struct).Field(x.Field).Name()))
	case *ssa.Lookup:
		a.put(x, a.of(mapCell(x.X)))
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			for _, f := range a.callees(&c.Call) {
				if r := a.ret[f]; x.Index < len(r) {
					a.put(x, a.outside(r[x.Index], c, f))
				}
			}
			if len(a.callees(&c.Call)) == 0 && isBytes(x.Type()) {
				a.put(x, a.fresh(c))
			}
			return
		}
		if n, ok := x.Tuple.(*ssa.Next); ok {
			if r, ok := n.Iter.(*ssa.Range); ok && x.Index == 2 {
				a.put(x, a.of(mapCell(r.X)))
			}
			return
		}
		a.put(x, a.of(x.Tuple))
	case *ssa.Slice:
		a.put(x, a.of(x.X))
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.put(x, a.of(e))
		}
	case *ssa.ChangeType:
		a.put(x, a.of(x.X))
	case *ssa.ChangeInterface:
		a.put(x, a.of(x.X))
	case *ssa.MakeInterface:
		a.put(x, a.of(x.X))
	case *ssa.TypeAssert:
		a.put(x, a.of(x.X))
	case *ssa.MakeSlice:
		if isBytes(x.Type()) {
			a.put(x, a.fresh(x))
		}
	case *ssa.Alloc:
		if ar, ok := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
			if b, ok := ar.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
				a.put(x, a.fresh(x))
			}
		}
	case *ssa.Convert:
		if isBytes(x.Type()) {
			if isBytes(x.X.Type()) {
				a.put(x, a.of(x.X))
			} else {
				a.put(x, a.fresh(x))
			}
		}
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			// both sides of a captured variable
			a.put(f.FreeVars[i], a.of(b))
			a.put(b, a.of(f.FreeVars[i]))
		}
	case *ssa.Return:
		f := x.Parent()
		if a.ret[f] == nil {
			a.ret[f] = make([]map[string]bool, len(x.Results))
		}
		for i, r := range x.Results {
			if a.ret[f][i] == nil {
				a.ret[f][i] = map[string]bool{}
			}
			for k := range a.of(r) {
				if !a.ret[f][i][k] {
					a.ret[f][i][k] = true
					a.ch = true
				}
			}
		}
	case ssa.CallInstruction:
		com := x.Common()
		v := x.Value()
		if b, ok := com.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" && v != nil && isBytes(v.Type()) {
				a.put(v, a.of(com.Args[0]))
				if c, ok := com.Args[0].(*ssa.Const); ok && c.IsNil() || len(a.of(com.Args[0])) == 0 {
					a.put(v, a.fresh(v))
				}
			} else if b.Name() == "append" && v != nil {
				for _, arg := range com.Args {
					a.put(v, a.of(arg))
				}
			}
			return
		}
		cs := a.callees(com)
		for _, f := range cs {
			for i, arg := range com.Args {
				if i < len(f.Params) {
					a.put(f.Params[i], a.of(arg))
				}
			}
			if r := a.ret[f]; v != nil && len(r) == 1 {
				a.put(v, a.outside(r[0], v, f))
			}
		}
		if len(cs) == 0 {
			if f := com.StaticCallee(); f != nil {
				switch n := f.String(); {
				case n == "(*sync.Pool).Put":
					a.puts[x] = com.Args[1]
				case v != nil && strings.HasSuffix(n, "bbolt.Bucket).Get"), v != nil && strings.Contains(n, "badger") && strings.HasSuffix(n, ".Item).Key"):
					a.put(v, map[string]bool{"borrowed:" + a.s.c.Pos(v.Pos()): true})
					return
				}
				if isClient(f) {
					for _, arg := range com.Args {
						if mc, ok := arg.(*ssa.MakeClosure); ok {
							for _, p := range mc.Fn.(*ssa.Function).Params {
								if isBytes(p.Type()) {
									a.put(p, map[string]bool{"borrowed:" + a.s.c.Pos(p.Pos()): true})
								}
							}
						}
					}
				}
			}
			if v != nil && (isBytes(v.Type()) || types.IsInterface(v.Type()) && !ai.IsError(v.Type())) {
				a.put(v, a.fresh(v))
			}
		}
	}
}

func (s *blobStores) sharing() {
	a := &aliasing{s: s, objs: map[interface{}]map[string]bool{}, at: map[string]token.Pos{}, ret: map[*ssa.Function][]map[string]bool{}, pers: map[string]bool{}, puts: map[ssa.CallInstruction]ssa.Value{}}
	// types whose values stay: the stores, what is boxed into containers, what is sent or put in their fields
	for n := range s.ops {
		a.pers[n] = true
	}
	stay := func(t types.Type) {
		for {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
				continue
			}
			break
		}
		if _, ok := t.Underlying().(*types.Struct); ok {
			a.pers[t.String()] = true
		}
	}
	for _, f := range s.fns {
		EachInstr(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Send:
				stay(x.X.Type())
			case *ssa.MapUpdate:
				if _, ok := mapCell(x.Map).(string); ok {
					stay(x.Value.Type())
				}
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					if r := fieldRef(fa); a.pers[r.T] || strings.Contains(r.T, "container/list") {
						if mi, ok := x.Val.(*ssa.MakeInterface); ok {
							stay(mi.X.Type())
						} else {
							stay(x.Val.Type())
						}
					}
				}
			case ssa.CallInstruction:
				if g := x.Common().StaticCallee(); g != nil && strings.HasPrefix(PkgPath(g), "container/") {
					for _, arg := range x.Common().Args {
						if mi, ok := arg.(*ssa.MakeInterface); ok {
							stay(mi.X.Type())
						}
					}
				}
			}
		})
	}
	val := map[string]string{}
	for n, ops := range s.ops {
		for _, p := range ops["Set"].Params {
			if isBytes(p.Type()) {
				v := "value:" + n
				a.put(p, map[string]bool{v: true})
				val[v] = n
			}
		}
	}
	for n := 0; n < 40; n++ {
		a.ch = false
		for _, f := range s.fns {
			EachInstr(f, a.step)
		}
		if !a.ch {
			break
		}
	}
	// cells that stay
	kept := map[string]string{}
	for k, m := range a.objs {
		c, ok := k.(string)
		if !ok {
			continue
		}
		t := strings.TrimSuffix(c, "[*]")
		if !strings.HasPrefix(c, "global:") {
			if i := strings.LastIndex(t, "."); i < 0 || !a.pers[t[:i]] {
				continue
			}
		}
		for o := range m {
			if kept[o] == "" || c < kept[o] {
				kept[o] = c
			}
		}
		s.r.Inc("places_that_keep_bytes", 1)
	}
	short := func(n string) string { return n[strings.LastIndex(n, "/")+1:] }
	for v, n := range val {
		s.r.Inc("values_followed", 1)
		if c := kept[v]; c != "" {
			s.r.Add(Finding{Rule: "value-kept", Key: "value-kept|" + short(n), Pos: s.c.Pos(s.ops[n]["Set"].Pos()),
				Msg: fmt.Sprintf("%s.Set keeps the caller's buffer in %s without copying it; the caller reuses it", short(n), short(c))})
		}
	}
	got := map[string]string{}
	for _, n := range s.names() {
		g := s.ops[n]["Get"]
		r := a.ret[g]
		if len(r) == 0 {
			continue
		}
		s.r.Inc("results_followed", 1)
		for o := range r[0] {
			got[o] = n
			if strings.HasPrefix(o, "borrowed:") {
				s.r.Add(Finding{Rule: "result-shared", Key: "result-borrowed|" + short(n), Pos: strings.TrimPrefix(o, "borrowed:"),
					Msg: fmt.Sprintf("%s.Get returns bytes that belong to the database and are only valid during the transaction", short(n))})
			}
			if c := kept[o]; c != "" {
				s.r.Add(Finding{Rule: "result-shared", Key: "result-shared|" + short(n), Pos: s.c.Pos(g.Pos()),
					Msg: fmt.Sprintf("%s.Get returns the bytes it keeps in %s without copying them", short(n), short(c))})
			}
		}
	}
	recycled := map[string]bool{}
	for _, v := range a.puts {
		for o := range a.of(v) {
			if kept[o] != "" {
				recycled[o] = true
			}
		}
	}
	for _, f := range s.fns {
		EachInstr(f, func(in ssa.Instruction) {
			x, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			if b, ok := x.Common().Value.(*ssa.Builtin); ok && (b.Name() == "append" || b.Name() == "copy") && len(x.Common().Args) == 2 {
				for o := range a.of(x.Common().Args[1]) {
					if recycled[o] {
						s.reads[x] = true
					}
				}
			}
		})
	}
	s.r.Inc("copies_of_recycled_buffers", len(s.reads))
	for ci, v := range a.puts {
		s.r.Inc("recycling_sites", 1)
		for o := range a.of(v) {
			if n := val[o]; n != "" {
				s.r.Add(Finding{Rule: "value-recycled", Key: "value-recycled|" + short(n), Pos: s.c.Pos(ci.Pos()), Msg: "the buffer the caller gave to " + short(n) + ".Set is put in a pool"})
			}
			if n := got[o]; n != "" {
				s.r.Add(Finding{Rule: "result-recycled", Key: "result-recycled|" + short(n), Pos: s.c.Pos(ci.Pos()), Msg: "the bytes " + short(n) + ".Get returns are put in a pool while the caller uses them"})
			}
		}
	}
}

// ---- paths

func (s *blobStores) paths() {
	c, r := s.c, s.r
	var mu sync.Mutex
	seen := map[string]bool{}
	add := func(f Finding) {
		mu.Lock()
		defer mu.Unlock()
		if !seen[f.Key] {
			seen[f.Key] = true
			r.Add(f)
		}
	}
	isPut := func(f *ssa.Function) bool { return f != nil && f.String() == "(*sync.Pool).Put" }
	rel := ai.NewRelevance(c.P.Funcs, func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Lookup:
			return isDataElem(lookupElem(x))
		case *ssa.MapUpdate:
			return isDataElem(x.Map.Type().Underlying().(*types.Map).Elem())
		case ssa.CallInstruction:
			if f := x.Common().StaticCallee(); f != nil && isClient(f) && s.pkg[PkgPath(in.Parent())] {
				return true
			}
			if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "delete" {
				return isDataElem(x.Common().Args[0].Type().Underlying().(*types.Map).Elem())
			}
			if op, _ := storeOp(x); op != "" {
				return true
			}
			return isPut(x.Common().StaticCallee()) || ai.LockEffect(in)
		}
		return ai.LockEffect(in)
	})
	gets := map[*ssa.Function]string{}
	sets := map[*ssa.Function]string{}
	writes := map[*ssa.Function]string{}
	dels := map[*ssa.Function]bool{}
	deep := map[*ssa.Function]bool{}
	for n, ops := range s.ops {
		short := n[strings.LastIndex(n, "/")+1:]
		gets[ops["Get"]] = short
		sets[ops["Set"]], sets[ops["Delete"]] = "Set", "Delete"
		if s.kept[n] {
			writes[ops["Set"]], writes[ops["Delete"]] = short, short
		}
		dels[ops["Delete"]] = true
		deep[ops["Delete"]] = s.lower[n]
	}
	notFound := func(e *ai.Engine) *ai.V {
		if g, ok := c.P.SPkg[blobPkg].Members["ErrBlobNotFound"].(*ssa.Global); ok {
			return e.Deref(e.Global(g))
		}
		return nil
	}
	flags := s.busyFlags()
	sentElems := len(flags) > 0
	called := c.calledInPkg()
	asks := map[*ssa.Function]bool{} // functions that tell whether a request is being written
	for _, f := range c.P.Funcs {
		if s.pkg[PkgPath(f)] && f.Signature.Results().Len() == 1 && lastIsError(f) {
			for _, p := range f.Params {
				asks[f] = asks[f] || types.Identical(p.Type(), f.Signature.Results().At(0).Type()) // passes errors on
			}
		}
		if res := f.Signature.Results(); s.pkg[PkgPath(f)] && res.Len() == 1 && types.Identical(res.At(0).Type().Underlying(), types.Typ[types.Bool]) {
			EachInstr(f, func(in ssa.Instruction) {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					asks[f] = asks[f] || flags[fieldName2(x)]
				case *ssa.Field:
					n, _ := fieldName(x.X.Type(), x.Field)
					asks[f] = asks[f] || flags[n]
				}
			})
		}
	}
	notBusy := func(e *ai.Engine, st *ai.State, cond ssa.Value, taken bool) bool {
		v := e.Eval(st, cond)
		for v.K == ai.KExpr && len(v.Args) > 0 {
			if v.S == "!" {
				v, taken = v.Args[0], !taken
				continue
			}
			if v.S == "==" && len(v.Args) == 2 {
				x, k := v.Args[0], v.Args[1]
				if x.K == ai.KConst {
					x, k = k, x
				}
				if k.K == ai.KConst && k.C != nil && k.C.Kind() == constant.Bool {
					v, taken = x, taken == constant.BoolVal(k.C)
					continue
				}
			}
			break
		}
		if taken {
			return false
		}
		return v.Any(func(v *ai.V) bool {
			return v.K == ai.KField && flags[v.S] || v.K == ai.KExpr && flags[strings.TrimPrefix(v.S, "field:")]
		})
	}
	c.Simulate(r, SimOpts{
		Rel:  rel,
		Pkgs: func(p string) bool { return s.pkg[p] },
		Setup: func(e *ai.Engine, root *ssa.Function) {
			e.Settled = c.Settled(e)
			inl := e.Inline
			e.Inline = func(f *ssa.Function) bool { return asks[f] || inl != nil && inl(f) }
			get := gets[root]
			write, del := writes[root], dels[root]
			accept := func(st *ai.State) { st.Marks["accepted"] = e.Bool(true) }
			e.Hooks.Builtin = func(e *ai.Engine, st *ai.State, name string, in ssa.CallInstruction) {
				if !s.reads[in] || len(st.Held) > 0 {
					return
				}
				add(Finding{Rule: "recycled-unlocked", Key: "read-unlocked|" + Short(TopFn(in.Parent())), Pos: c.Pos(in.Pos()),
					Msg: "a queued buffer that can be put in a pool at any time is copied while no lock is held", Trace: c.TraceOf(st, 30)})
			}
			e.Hooks.Recv = func(e *ai.Engine, st *ai.State, ch *ai.V, in ssa.Instruction) {
				if u, ok := in.(*ssa.UnOp); ok {
					if c, ok := u.X.Type().Underlying().(*types.Chan); ok {
						if x, ok := c.Elem().Underlying().(*types.Struct); ok && x.NumFields() == 0 {
							return
						}
					}
				}
				delete(st.Marks, "written")
			}
			e.Hooks.MapUpd = func(e *ai.Engine, st *ai.State, _, _, val *ai.V, in ssa.Instruction) {
				var m ssa.Value
				switch x := in.(type) {
				case *ssa.MapUpdate:
					m = x.Map
				case ssa.CallInstruction:
					m = x.Common().Args[0]
				}
				mt, ok := m.Type().Underlying().(*types.Map)
				if !ok || !isDataElem(mt.Elem()) {
					return
				}
				if val != nil || del && !deep[root] {
					accept(st)
				}
				if val == nil && sentElems && !called[root] && isQueueElem(mt.Elem()) && s.takesSent(in.Parent()) {
					if _, ok := st.Marks["same"]; !ok {
						add(Finding{Rule: "newer-forgotten", Key: "newer-forgotten|" + Short(TopFn(in.Parent())), Pos: c.Pos(in.Pos()),
							Msg: "after a write, the entry for its name is forgotten without checking that it is the one written: a blob set meanwhile is not found by reads", Trace: c.TraceOf(st, 30)})
					}
				}
				if val == nil && !del && s.waiting(m) != "" {
					r.Inc("dropped_entries_checked", 1)
					if _, ok := st.Marks["written"]; !ok {
						n := s.waiting(m)
						n = n[strings.LastIndex(n, "/")+1:]
						add(Finding{Rule: "dropped-first", Key: "dropped-first|" + n + "|" + Short(TopFn(in.Parent())), Pos: c.Pos(in.Pos()),
							Msg: n + " forgets a blob that is waiting to be written before it is written, so reads miss it or it is lost when the write fails", Trace: c.TraceOf(st, 30)})
					}
				}
			}
			e.Hooks.Branch = func(e *ai.Engine, st *ai.State, in *ssa.If, taken bool) {
				if write != "" && s.skipsWrites(in, taken, del) {
					accept(st) // such loops run at least once
				}
				cond, t := in.Cond, taken
				for {
					u, ok := cond.(*ssa.UnOp)
					if !ok || u.Op != token.NOT {
						break
					}
					cond, t = u.X, !t
				}
				if notBusy(e, st, cond, t) {
					st.Marks["idle"] = e.Bool(true)
				}
				if x, ok := cond.(*ssa.Extract); ok && x.Index == 1 && !t {
					if l, ok := x.Tuple.(*ssa.Lookup); ok && isQueueElem(lookupElem(l)) {
						st.Marks["same"] = e.Bool(true) // nothing to forget
					}
				}
				if x, ok := cond.(*ssa.BinOp); ok && isQueueElem(x.X.Type()) && (x.Op == token.EQL) == t {
					st.Marks["same"] = e.Bool(true)
				}
				if get == "" {
					return
				}
				switch x := cond.(type) {
				case *ssa.Extract:
					l, ok := x.Tuple.(*ssa.Lookup)
					if ok && x.Index == 1 && !t && isDataElem(lookupElem(l)) {
						st.Marks["missing"] = e.Const(constant.MakeString(c.Pos(l.Pos())))
					}
				case *ssa.BinOp:
					k, ok := x.Y.(*ssa.Const)
					if ok && k.IsNil() && (isBytes(x.X.Type()) || clientLookup(x.X)) && (x.Op == token.EQL) == t {
						st.Marks["missing"] = e.Const(constant.MakeString(c.Pos(x.Pos())))
					}
				}
			}
			e.Hooks.Call = func(cc *ai.CallCtx) ([]ai.Outcome, bool) {
				e, st := cc.E, cc.St
				if cc.Callee != nil && (cc.Name == "fmt.Errorf" || cc.Name == "errors.New") {
					return []ai.Outcome{{St: st, Ret: cc.Fresh(st, "newerr", true)}}, true
				}
				if isPut(cc.Callee) {
					w := false
					for _, h := range st.Held {
						w = w || h.W
					}
					r.Inc("recycling_paths", 1)
					if !w {
						add(Finding{Rule: "recycled-unlocked", Key: "recycled-unlocked|" + Short(TopFn(root)), Pos: c.Pos(callerPos(cc)),
							Msg: "a buffer is put in a pool while no lock keeps readers from the entry it came from", Trace: c.TraceOf(st, 30)})
					}
					if _, ok := st.Marks["unlinked"]; !ok {
						st.Marks["recycled"] = e.Const(constant.MakeString(c.Pos(callerPos(cc))))
					}
					return []ai.Outcome{{St: st}}, true
				}
				if cc.Callee != nil && cc.Name == "(*container/list.List).Remove" {
					delete(st.Marks, "recycled")
					st.Marks["unlinked"] = e.Bool(true)
					return nil, false
				}
				if f := cc.Callee; f != nil && strings.HasPrefix(cc.Name, "(*container/list.List).") && strings.HasPrefix(f.Name(), "Push") {
					accept(st)
				}
				if op, _ := storeOp(cc.Instr); op == "Set" || op == "Delete" {
					st.Marks["written"] = e.Bool(true)
					if (op == "Delete") == del {
						accept(st)
					}
					delete(st.Marks, "wfailed") // tried again
					if sets[root] == op {
						bad := st.Clone()
						er := cc.Fresh(bad, "innererr", true)
						bad.Marks["wfailed"] = er
						delete(bad.Marks, "written")
						return []ai.Outcome{{St: st, Ret: e.Nil()}, {St: bad, Ret: er}}, true
					}
				}
				if f := cc.Callee; f != nil && isClient(f) {
					if op := f.Name(); op != "Close" && !strings.HasPrefix(op, "New") {
						accept(st)
					}
					if buffered(f) {
						delete(st.Marks, "written")
					} else if lastIsError(f) && f.Signature.Results().Len() == 1 && !callsBack(cc.Instr) {
						bad := st.Clone()
						st.Marks["written"] = e.Bool(true)
						return []ai.Outcome{{St: st, Ret: e.Nil()}, {St: bad, Ret: cc.Fresh(bad, "clienterr", true)}}, true
					}
				}
				if op, _ := storeOp(cc.Instr); op == "Get" {
					delete(st.Marks, "missing")
					bad := st.Clone()
					er := cc.Fresh(bad, "innererr", true)
					bad.Marks["failed"] = er
					if del {
						accept(bad)
					}
					return []ai.Outcome{{St: st, Ret: e.Tuple(cc.Fresh(st, "blob", true), e.Nil())}, {St: bad, Ret: e.Tuple(e.Nil(), er)}}, true
				}
				if f := cc.Callee; f != nil && len(f.Blocks) == 0 && strings.Contains(strings.SplitN(PkgPath(f), "/", 2)[0], ".") {
					delete(st.Marks, "missing")
				}
				return nil, false
			}
			e.Hooks.Store = func(e *ai.Engine, st *ai.State, ptr, val *ai.V, in ssa.Instruction) {
				if x, ok := in.(*ssa.Store); ok {
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fieldRef(fa).T == "container/list.Element" {
						delete(st.Marks, "recycled")
						accept(st)
						r.Inc("queue_updates_checked", 1)
						if _, ok := st.Marks["idle"]; !ok && len(flags) > 0 && !called[root] && fieldName2(fa) == "Value" {
							add(Finding{Rule: "changed-while-written", Key: "changed-while-written|" + Short(TopFn(in.Parent())), Pos: c.Pos(in.Pos()),
								Msg: "a queued blob is changed without checking that it is not being written just now, so the change is dropped when that write ends", Trace: c.TraceOf(st, 30)})
						}
					}
				}
			}
			swallowed := func(e *ai.Engine, st *ai.State, ret *ai.V, what string) {
				_, ok := st.Marks["failed"]
				if sets[root] != "" {
					_, ok = st.Marks["wfailed"]
				}
				if ok && ret != nil && e.NilFact(st, ret) == ai.IsNil {
					add(Finding{Rule: "error-replaced", Key: "replaced|" + Short(TopFn(root)), Pos: c.Pos(root.Pos()),
						Msg: Short(TopFn(root)) + what + " although the store below it failed", Trace: c.TraceOf(st, 30)})
				}
			}
			e.Hooks.Callback = func(cc *ai.CallCtx, fn *ssa.Function, o ai.Outcome) {
				if (get != "" || sets[root] != "") && lastIsError(fn) && fn.Signature.Results().Len() == 1 {
					swallowed(cc.E, o.St, o.Ret, " reports success to what retries it")
				}
				if o.Ret != nil && o.Ret == notFound(cc.E) {
					delete(o.St.Marks, "missing") // what called it returns this
				}
			}
			e.Hooks.Lock = func(ev *ai.LockEvent) {
				if ev.Op == "Unlock" {
					if m, ok := ev.St.Marks["recycled"]; ok {
						add(Finding{Rule: "recycled-reachable", Key: "recycled-reachable|" + Short(TopFn(ev.At.Parent())), Pos: c.Pos(ev.At.Pos()),
							Msg: "the lock is released while an entry still has the buffer that was put in a pool at " + constant.StringVal(m.C), Trace: c.TraceOf(ev.St, 30)})
						delete(ev.St.Marks, "recycled")
					}
					delete(ev.St.Marks, "unlinked")
				}
				if ev.Op == "Unlock" || ev.Op == "RUnlock" {
					delete(ev.St.Marks, "idle")
					delete(ev.St.Marks, "same")
				}
			}
			if sets[root] != "" {
				e.Hooks.Return = func(e *ai.Engine, st *ai.State, ret *ai.V) {
					swallowed(e, st, ret, " succeeds")
					if write == "" {
						return
					}
					r.Inc("write_exits_checked", 1)
					if ret == nil || e.NilFact(st, ret) != ai.IsNil {
						return
					}
					if _, ok := st.Marks["accepted"]; !ok {
						op := root.Name()
						add(Finding{Rule: "write-dropped", Key: "write-dropped|" + write + "|" + op, Pos: c.Pos(root.Pos()),
							Msg: write + "." + op + " succeeds on a path that neither keeps nor passes it on", Trace: c.TraceOf(st, 30)})
					}
				}
			}
			if get == "" {
				return
			}
			check := func(e *ai.Engine, st *ai.State, ret *ai.V, in token.Pos) {
				if ret == nil || ret.K != ai.KTuple || len(ret.Args) != 2 {
					return
				}
				er := ret.Args[1]
				r.Inc("get_exits_checked", 1)
				if m, ok := st.Marks["missing"]; ok {
					r.Inc("missing_exits_checked", 1)
					if e.NilFact(st, er) == ai.IsNil {
						add(Finding{Rule: "missing-not-reported", Key: "missing|" + get, Pos: constant.StringVal(m.C), Msg: get + ".Get reports a blob that is not there as found", Trace: c.TraceOf(st, 30)})
					} else if er != notFound(e) {
						add(Finding{Rule: "missing-not-reported", Key: "missing|" + get, Pos: constant.StringVal(m.C), Msg: get + ".Get returns another error than ErrBlobNotFound for a blob that is not there", Trace: c.TraceOf(st, 30)})
					}
				}
				if in, ok := st.Marks["failed"]; ok {
					r.Inc("failed_exits_checked", 1)
					if e.NilFact(st, er) == ai.IsNil {
						add(Finding{Rule: "error-replaced", Key: "replaced|" + get, Pos: c.Pos(root.Pos()), Msg: get + ".Get succeeds although the store it reads from failed", Trace: c.TraceOf(st, 30)})
					} else if er != in && er != notFound(e) && strings.Contains(er.String(), "newerr") {
						add(Finding{Rule: "error-replaced", Key: "replaced|" + get, Pos: c.Pos(root.Pos()), Msg: get + ".Get returns another error than the store it reads from, so a missing blob is not recognised", Trace: c.TraceOf(st, 30)})
					}
				}
			}
			e.Hooks.Return = func(e *ai.Engine, st *ai.State, ret *ai.V) { check(e, st, ret, 0) }
		},
	})
	// every Get can tell that a blob is missing
	for n, ops := range s.ops {
		g := ops["Get"]
		nf, inner, clientErr := false, false, false
		s.within(g, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if op, _ := storeOp(ci); op == "Get" {
					inner = true
				}
				if f := ci.Common().StaticCallee(); f != nil && strings.Contains(strings.SplitN(PkgPath(f), "/", 2)[0], ".") && !strings.HasPrefix(PkgPath(f), load.ModPath) {
					clientErr = true
				}
			}
			for _, op := range in.Operands(nil) {
				if gl, ok := (*op).(*ssa.Global); ok && gl.Name() == "ErrBlobNotFound" {
					nf = true
				}
			}
		})
		short := n[strings.LastIndex(n, "/")+1:]
		if clientErr && !inner && !nf {
			r.Add(Finding{Rule: "missing-not-reported", Key: "never|" + short, Pos: c.Pos(g.Pos()), Msg: short + ".Get never returns ErrBlobNotFound"})
		}
	}
}

// clientLookup: v is what a function of a client library found, and it may have found nothing.
func clientLookup(v ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	f := call.Call.StaticCallee()
	if f == nil || !isClient(f) || f.Signature.Results().Len() != 1 || lastIsError(f) {
		return false
	}
	_, ok = f.Signature.Results().At(0).Type().Underlying().(*types.Pointer)
	return ok
}

// isQueueElem: an element of a container/list queue.
func isQueueElem(t types.Type) bool {
	return strings.TrimPrefix(t.String(), "*") == "container/list.Element"
}

// busyFlags: fields of queued requests that are set before the request is handed to whoever writes it.
func (s *blobStores) busyFlags() map[string]bool {
	out := map[string]bool{}
	sends := map[*ssa.Function]bool{}
	for _, f := range s.c.P.Funcs {
		if s.pkg[PkgPath(f)] {
			EachInstr(f, func(in ssa.Instruction) {
				if x, ok := in.(*ssa.Send); ok && isQueueElem(x.X.Type()) {
					sends[TopFn(f)] = true
				}
			})
		}
	}
	if len(sends) == 0 {
		return out
	}
	// in the function that sends, or one it calls
	for i := 0; i < 3; i++ {
		for f := range sends {
			EachInstr(f, func(in ssa.Instruction) {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && len(g.Blocks) > 0 && s.pkg[PkgPath(g)] {
						sends[g] = true
					}
				}
			})
		}
	}
	for f := range sends {
		EachInstr(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			k, ok := st.Val.(*ssa.Const)
			fa, ok2 := st.Addr.(*ssa.FieldAddr)
			if !ok || !ok2 || k.Value == nil || k.Value.Kind() != constant.Bool || !constant.BoolVal(k.Value) {
				return
			}
			for _, q := range s.queued() {
				if types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), q) {
					out[fieldName2(fa)] = true
				}
			}
		})
	}
	return out
}

func fieldName2(fa *ssa.FieldAddr) string {
	n, _ := fieldName(fa.X.Type(), fa.Field)
	return n
}

// queued: the types of what is put in container/list queues.
func (s *blobStores) queued() []types.Type {
	var out []types.Type
	for _, f := range s.c.P.Funcs {
		if !s.pkg[PkgPath(f)] {
			continue
		}
		EachInstr(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			g := ci.Common().StaticCallee()
			if g == nil || !strings.HasPrefix(g.String(), "(*container/list.List).") {
				return
			}
			for _, a := range ci.Common().Args {
				if mi, ok := a.(*ssa.MakeInterface); ok {
					t := mi.X.Type()
					if p, ok := t.Underlying().(*types.Pointer); ok {
						t = p.Elem()
					}
					out = append(out, t)
				}
			}
		})
	}
	return out
}

// takesSent: f, or the function it is part of, gets queue elements from a channel.
func (s *blobStores) takesSent(f *ssa.Function) bool {
	found := false
	for x := f; x != nil; x = x.Parent() {
		EachInstr(x, func(in ssa.Instruction) {
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
				if ch, ok := u.X.Type().Underlying().(*types.Chan); ok && isQueueElem(ch.Elem()) {
					found = true
				}
			}
		})
		for _, p := range x.Params {
			if isQueueElem(p.Type()) {
				found = true
			}
		}
	}
	return found
}

// isClient: a function of another module.
func isClient(f *ssa.Function) bool {
	p := PkgPath(f)
	return strings.Contains(strings.SplitN(p, "/", 2)[0], ".") && !strings.HasPrefix(p, load.ModPath)
}

// buffered: the function only prepares a write.
func buffered(f *ssa.Function) bool {
	if f.Signature.Recv() == nil || f.Name() == "Commit" || f.Name() == "Flush" {
		return false
	}
	t := f.Signature.Recv().Type().String()
	return strings.HasSuffix(t, ".Txn") || strings.HasSuffix(t, ".Tx") || strings.HasSuffix(t, "Batch")
}

// skipsWrites: the edge leaves a loop that writes to the store below.
func (s *blobStores) skipsWrites(in *ssa.If, taken, del bool) bool {
	h := in.Block()
	body := map[*ssa.BasicBlock]bool{h: true}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if body[b] {
			return
		}
		body[b] = true
		for _, p := range b.Preds {
			walk(p)
		}
	}
	for _, p := range h.Preds {
		if h.Dominates(p) {
			walk(p)
		}
	}
	i := 1
	if taken {
		i = 0
	}
	if len(body) == 1 || body[h.Succs[i]] {
		return false
	}
	for b := range body {
		for _, x := range b.Instrs {
			if ci, ok := x.(ssa.CallInstruction); ok {
				if op, _ := storeOp(ci); op == "Set" && !del || op == "Delete" && del {
					return true
				}
			}
		}
	}
	return false
}

func callsBack(in ssa.CallInstruction) bool {
	for _, a := range in.Common().Args {
		if _, ok := a.Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

func lastIsError(f *ssa.Function) bool {
	r := f.Signature.Results()
	return r.Len() > 0 && ai.IsError(r.At(r.Len()-1).Type())
}

// waiting is the store whose map of blobs that are not written yet m is.
func (s *blobStores) waiting(m ssa.Value) string {
	c, ok := mapCell(m).(string)
	if !ok {
		return ""
	}
	t := strings.TrimSuffix(c, "[*]")
	i := strings.LastIndex(t, ".")
	if i < 0 || !s.lower[t[:i]] {
		return ""
	}
	if mt, ok := m.Type().Underlying().(*types.Map); !ok || !isDataElem(mt.Elem()) {
		return ""
	}
	return t[:i]
}

func callerPos(cc *ai.CallCtx) token.Pos { return cc.Instr.Pos() }

func lookupElem(l *ssa.Lookup) types.Type {
	if m, ok := l.X.Type().Underlying().(*types.Map); ok {
		return m.Elem()
	}
	return l.Type()
}

// within visits the instructions of f, its closures and the functions of store packages it calls.
func (s *blobStores) within(f *ssa.Function, visit func(ssa.Instruction)) {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		EachInstr(f, func(in ssa.Instruction) {
			visit(in)
			switch x := in.(type) {
			case *ssa.MakeClosure:
				walk(x.Fn.(*ssa.Function))
			case ssa.CallInstruction:
				if g := x.Common().StaticCallee(); g != nil && s.pkg[PkgPath(g)] {
					walk(g)
				} else if u, ok := x.Common().Value.(*ssa.UnOp); ok && u.Op == token.MUL {
					if fa, ok := u.X.(*ssa.FieldAddr); ok {
						for _, c := range s.c.FFns[fieldRef(fa)] {
							if mc, ok := c.(*ssa.MakeClosure); ok {
								walk(mc.Fn.(*ssa.Function))
							}
						}
					}
				}
			}
		})
	}
	walk(f)
}

func init() {
	register("C11", "provenance of addresses, alias analysis and path-sensitive typestate over go/ssa for every blob store", func(c *Ctx) *Result {
		r := NewResult()
		s := newBlobStores(c, r)
		if s == nil {
			r.Note("blob stores not found")
			r.Floors["stores"] = 6
			return r
		}
		r.Counts["stores"] = len(s.ops)
		r.Explanation = "Every type that implements blobstore.Store or WithSet is found by type checking. For each, (1) the provenance of every string that addresses a map, an inner store or a client is expanded through helpers and closures to an expression over the set and the key, and compared between Get, Set and Delete; (2) a flow-insensitive alias analysis over byte slices decides whether the buffer given to Set, or the bytes returned by Get, are the ones kept in a field, container or channel of the store, or put in a pool; (3) every exported operation is propagated as finite abstract states to a fixpoint, with every inner Get succeeding or failing, to decide what Get returns for missing blobs and failures, and that a pooled buffer is unreachable before the lock that guards its entry is released."
		r.Rules = []string{
			"addresses-differ: Get, Set and Delete of a store do not use the same address for the same blob",
			"address-ignores-name: an address does not depend on both the set and the key",
			"names-run-together: an address joins two names without a separator",
			"value-kept / value-recycled: the buffer of the caller of Set stays in the store or is put in a pool",
			"result-shared / result-recycled: Get returns the bytes the store keeps, or that it puts in a pool",
			"recycled-unlocked / recycled-reachable: a buffer is reused while an entry readers can reach still has it, or copied when it can be reused at the same time",
			"dropped-first: a store forgets a blob that waits to be written before the write succeeded (background write: before it was done)",
			"write-dropped: Set or Delete succeeds on a path that neither keeps the blob nor passes the operation on",
			"missing-not-reported: a blob that is not there is not reported with ErrBlobNotFound",
			"error-replaced: an operation hides the failure of the store below it, or Get returns another error for it",
			"changed-while-written: a queued blob is changed without checking that a saver is not writing it just now",
			"newer-forgotten: a saver that wrote a blob forgets what is queued for it without checking that this is what it wrote",
		}
		r.Assumptions = append(r.Assumptions,
			"Database clients (bolt, badger, dynamodb, aerospike, s3) keep apart what has different addresses and copy what they keep.",
			"Names do not contain the separator that the store puts between them.",
			"Functions of other packages that return bytes return bytes nobody else keeps.")
		r.Floors["stores"] = 6
		r.Floors["addresses_compared"] = 12
		r.Floors["values_followed"] = 6
		r.Floors["results_followed"] = 6
		r.Floors["get_exits_checked"] = 8
		r.Floors["write_exits_checked"] = 12
		s.addressing()
		s.sharing()
		s.paths()
		return r
	})
}
