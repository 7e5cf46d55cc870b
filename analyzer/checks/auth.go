package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
	"verif/analyzer/load"
)

const apiPkg = load.ModPath + "/api"
const appPkg = load.ModPath + "/api/app"

// scopeOf is the documented scope of each endpoint (api/design, README "Security").
var scopeOf = map[string]string{
	"Backup.Delete": "api:manage", "Backup.Status": "api:manage",
	"Elements.Create": "api:update", "Elements.Put": "api:update", "Elements.PutMulti": "api:update",
	"Elements.Delete": "api:delete", "Elements.DeleteMulti": "api:delete",
	"Elements.Get": "api:read", "Elements.GetAround": "api:read", "Elements.GetMulti": "api:read",
	"Health.Health": "api:manage", "Health.Root": "api:manage", "JWT.JWT": "api:manage",
	"Lists.Clone": "api:manage", "Lists.Create": "api:manage", "Lists.Delete": "api:manage", "Lists.GetAll": "api:manage",
	"Lists.Reindex": "api:manage", "Lists.Repair": "api:manage", "Lists.Verify": "api:manage",
	"Lists.Get": "api:read", "Lists.GetPercentile": "api:read", "Lists.GetRange": "api:read",
	"Multilist.Backup": "api:manage", "Multilist.Reindex": "api:manage", "Multilist.Restore": "api:manage", "Multilist.Verify": "api:manage",
	"Multilist.Create": "api:update", "Multilist.Put": "api:update", "Multilist.Delete": "api:delete", "Multilist.Get": "api:read",
}

type route struct {
	ctrl, action, verb, path string
	scopes                   []string
	method                   *types.Func
	pos                      token.Pos
}

func constString(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return "", false
	}
	s := c.Value.ExactString()
	if len(s) >= 2 && s[0] == '"' {
		return strings.Trim(s, `"`), true
	}
	return s, true
}

// sliceConsts are the constant strings stored into a slice literal.
func sliceConsts(v ssa.Value) []string {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []string
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, r := range *ia.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ia {
				if s, ok := constString(st.Val); ok {
					out = append(out, s)
				}
			}
		}
	}
	return out
}

// routes reads the endpoints the generated code mounts.
func (c *Ctx) routes(r *Result) []route {
	var out []route
	for _, f := range c.P.Funcs {
		if f.Parent() != nil || PkgPath(f) != appPkg {
			continue
		}
		f := f
		EachInstr(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || !ci.Common().IsInvoke() || ci.Common().Method.Name() != "Handle" || len(ci.Common().Args) != 3 {
				return
			}
			verb, _ := constString(ci.Common().Args[0])
			path, _ := constString(ci.Common().Args[1])
			rt := route{verb: verb, path: path, pos: in.Pos()}
			seen := map[ssa.Value]bool{}
			var walk func(v ssa.Value)
			walk = func(v ssa.Value) {
				if v == nil || seen[v] {
					return
				}
				seen[v] = true
				switch x := v.(type) {
				case *ssa.Call:
					if g := x.Call.StaticCallee(); g != nil && g.Name() == "handleSecurity" {
						for _, a := range x.Call.Args[2:] {
							rt.scopes = append(rt.scopes, sliceConsts(a)...)
						}
					}
					for _, a := range x.Call.Args {
						walk(a)
					}
				case *ssa.MakeClosure:
					EachInstr(x.Fn.(*ssa.Function), func(in ssa.Instruction) {
						if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
							if n, ok := types.Unalias(ci.Common().Value.Type()).(*types.Named); ok && strings.HasSuffix(n.Obj().Name(), "Controller") && n.Obj().Pkg().Path() == appPkg {
								rt.ctrl, rt.action, rt.method = strings.TrimSuffix(n.Obj().Name(), "Controller"), ci.Common().Method.Name(), ci.Common().Method
							}
						}
					})
				case *ssa.Phi:
					for _, e := range x.Edges {
						walk(e)
					}
				case *ssa.ChangeType:
					walk(x.X)
				case *ssa.MakeInterface:
					walk(x.X)
				case *ssa.UnOp:
					if a, ok := x.X.(*ssa.Alloc); ok {
						// the last store before, in block order
						var last ssa.Value
						for _, b := range f.Blocks {
							for _, in := range b.Instrs {
								if in == ssa.Instruction(x) {
									walk(last)
									return
								}
								if st, ok := in.(*ssa.Store); ok && st.Addr == a {
									last = st.Val
								}
							}
						}
					}
				}
			}
			walk(ci.Common().Args[2])
			if rt.ctrl != "" {
				out = append(out, rt)
			}
		})
	}
	return out
}

// handler finds the implementation of a controller action.
func (c *Ctx) handler(rt route) *ssa.Function {
	for _, f := range c.P.Funcs {
		if f.Parent() == nil && PkgPath(f) == apiPkg && f.Signature.Recv() != nil && f.Name() == rt.action && f.Signature.Params().Len() == 1 {
			if types.Identical(f.Signature.Params().At(0).Type(), rt.method.Type().(*types.Signature).Params().At(0).Type()) && f.Synthetic == "" {
				return f
			}
		}
	}
	return nil
}

func namedIs(t types.Type, pkg, name string) bool {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

// holdsList: *rankdb.List or a structure with one.
func holdsList(t types.Type, depth int) bool {
	if namedIs(t, load.ModPath, "List") {
		return true
	}
	if depth > 2 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == load.ModPath {
			return false
		}
		for i := 0; i < u.NumFields(); i++ {
			if holdsList(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	case *types.Slice:
		return holdsList(u.Elem(), depth+1)
	}
	return false
}

func elementArg(t types.Type) bool {
	for _, n := range []string{"ElementIDs", "Elements", "ElementID", "Element", "IndexElements"} {
		if namedIs(t, load.ModPath, n) {
			return true
		}
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return elementArg(s.Elem())
	}
	return false
}

func isContext(t types.Type) bool {
	if namedIs(t, "context", "Context") {
		return true
	}
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		if n, ok := types.Unalias(p.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == appPkg && strings.HasSuffix(n.Obj().Name(), "Context") {
			return true
		}
	}
	return false
}

// covers: an approval of a also approves s.
func covers(a, s string) bool {
	return a == s || strings.HasPrefix(s, a+".") || strings.HasPrefix(s, a+"[") || a == s+".ID" || a == s+"[*].ID"
}

const okMark = "ok|"

func approvals(st *ai.State, kind string) []string {
	var l []string
	for k := range st.Marks {
		if strings.HasPrefix(k, okMark+kind+"|") {
			l = append(l, strings.Split(k, "|")[2])
		}
	}
	for ch := true; ch; {
		ch = false
		for k := range st.Marks {
			if !strings.HasPrefix(k, "eq|") {
				continue
			}
			p := strings.Split(k, "|")
			for _, d := range [][2]string{{p[1], p[2]}, {p[2], p[1]}} {
				have, add := false, false
				for _, a := range l {
					have = have || covers(a, d[1])
					add = add || covers(a, d[0])
				}
				if add && !have {
					l = append(l, d[1])
					ch = true
				}
			}
		}
	}
	return l
}

func uncovered(need map[string]bool, have []string) []string {
	var l []string
	for s := range Clean(need) {
		ok := false
		for _, a := range have {
			ok = ok || covers(a, s)
		}
		if !ok {
			l = append(l, s)
		}
	}
	sortStrings(l)
	return l
}

// allocsOf: the local variables an argument is read from.
func allocsOf(v ssa.Value) []ssa.Value {
	switch x := v.(type) {
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.Alloc:
			return []ssa.Value{a}
		case *ssa.FreeVar:
			return []ssa.Value{a}
		}
	case *ssa.Slice:
		return allocsOf(x.X)
	case *ssa.ChangeType:
		return allocsOf(x.X)
	}
	return nil
}

// freshSources: sources of v that do not come from the variable itself.
func (p *Prov) freshSources(v ssa.Value, self ssa.Value) map[string]bool {
	out := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.X == self {
				return
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
			return
		case *ssa.Call:
			if len(p.targets(x)) == 0 {
				for _, a := range x.Call.Args {
					if p.Skip == nil || !p.Skip(a) {
						walk(a)
					}
				}
				return
			}
		case *ssa.Slice:
			walk(x.X)
			return
		case *ssa.ChangeType:
			walk(x.X)
			return
		}
		for k := range p.Of(v) {
			out[k] = true
		}
	}
	walk(v)
	return out
}

func (c *Ctx) authHandler(r *Result, root *ssa.Function, rt route) {
	handlers := func(f *ssa.Function) bool {
		return f.Signature.Recv() != nil && f.Signature.Params().Len() == 1 && isContext(f.Signature.Params().At(0).Type())
	}
	expand := func(f *ssa.Function) bool {
		return PkgPath(f) == apiPkg && !handlers(f) && !strings.HasPrefix(f.Name(), "HasAccessTo")
	}
	skip := func(v ssa.Value) bool {
		return isContext(v.Type()) || namedIs(v.Type(), load.ModPath+"/blobstore", "Store")
	}
	p := NewProv(root, expand, skip).Run()
	e := ai.New(c.P)
	e.Mods, e.FieldFns, e.Volatile = c.Mods, c.FFns, c.Vol
	e.MaxSteps = c.Budget(300000)
	e.Inline = expand
	one := e.Bool(true)
	e.Hooks.Branch = func(e *ai.Engine, st *ai.State, in *ssa.If, taken bool) {
		cond, t := in.Cond, taken
		for {
			if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
				cond, t = u.X, !t
				continue
			}
			break
		}
		b, ok := cond.(*ssa.BinOp)
		if !ok || !(b.Op == token.EQL && t || b.Op == token.NEQ && !t) {
			return
		}
		x, y := Clean(p.Of(b.X)), Clean(p.Of(b.Y))
		if len(x) == 1 && len(y) == 1 {
			for a := range x {
				for b := range y {
					if a != b {
						st.Marks["eq|"+a+"|"+b] = one
					}
				}
			}
		}
	}
	e.Hooks.Store = func(e *ai.Engine, st *ai.State, ptr, v *ai.V, in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		switch s.Addr.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
		default:
			return
		}
		id := s.Addr.Name() + "@" + s.Parent().Name()
		fs := p.freshSources(s.Val, s.Addr)
		for k := range st.Marks {
			if strings.HasPrefix(k, okMark) && strings.HasSuffix(k, "|"+id) {
				if len(uncovered(fs, notOf(st, k, id))) > 0 {
					delete(st.Marks, k)
				}
			}
		}
	}
	e.Hooks.Call = func(cc *ai.CallCtx) ([]ai.Outcome, bool) {
		com := cc.Instr.Common()
		if cc.Callee != nil && PkgPath(cc.Callee) == apiPkg && strings.HasPrefix(cc.Callee.Name(), "HasAccessTo") {
			kind := strings.TrimPrefix(cc.Callee.Name(), "HasAccessTo")
			bad := cc.St.Clone()
			bad.Tr = &ai.Trace{Prev: bad.Tr, Pos: cc.Pos(), What: cc.Callee.Name() + " denies"}
			good := cc.St
			arg := com.Args[len(com.Args)-1]
			ids := []string{"-"}
			for _, a := range allocsOf(arg) {
				ids = append(ids, a.Name()+"@"+a.(interface{ Parent() *ssa.Function }).Parent().Name())
			}
			if len(ids) > 1 {
				ids = ids[1:]
			}
			for s := range Clean(p.Of(arg)) {
				for _, id := range ids {
					good.Marks[okMark+kind+"|"+s+"|"+id] = one
				}
			}
			r.Inc("access_checks", 1)
			return []ai.Outcome{{St: good, Ret: e.Nil()}, {St: bad, Ret: cc.Fresh(bad, "denied", true)}}, true
		}
		if cc.Callee != nil && (PkgPath(cc.Callee) == apiPkg || strings.HasPrefix(cc.Name, "(*"+appPkg)) {
			return nil, false
		}
		args := com.Args
		if _, ok := com.Value.(*ssa.Builtin); ok {
			return nil, false
		}
		name := opName(cc.Name)
		recvList := false
		for i, a := range args {
			if !holdsList(a.Type(), 0) {
				continue
			}
			recvList = recvList || i == 0 && namedIs(a.Type(), load.ModPath, "List")
			r.Inc("list_uses", 1)
			if miss := uncovered(p.Of(a), approvals(cc.St, "List")); len(miss) > 0 {
				r.Add(Finding{Rule: "list-not-authorized", Key: "list-not-authorized|" + Short(root) + "|" + name, Pos: c.Pos(cc.Pos()), Trace: c.TraceOf(cc.St, 40),
					Msg: fmt.Sprintf("%s (%s %s, scope %v) uses a list chosen by %s in %s on a path where HasAccessToList did not allow it", Short(root), rt.verb, rt.path, rt.scopes, strings.Join(miss, ", "), name)})
			}
		}
		if !recvList {
			return nil, false
		}
		for _, a := range args[1:] {
			if !elementArg(a.Type()) {
				continue
			}
			r.Inc("element_uses", 1)
			if miss := uncovered(p.Of(a), approvals(cc.St, "Element")); len(miss) > 0 {
				r.Add(Finding{Rule: "element-not-authorized", Key: "element-not-authorized|" + Short(root) + "|" + name, Pos: c.Pos(cc.Pos()), Trace: c.TraceOf(cc.St, 40),
					Msg: fmt.Sprintf("%s (%s %s, scope %v) passes elements chosen by %s to %s on a path where HasAccessToElement did not allow them", Short(root), rt.verb, rt.path, rt.scopes, strings.Join(miss, ", "), name)})
			}
		}
		return nil, false
	}
	outs := e.Run(root, nil)
	if e.Truncated != "" {
		r.Note(Short(root) + ": bounded: " + e.Truncated)
	}
	r.Inc("exits_checked", len(outs))
	r.Inc("abstract_states", e.NStates)
	r.Sample(fmt.Sprintf("%s %s -> %s requires %v", rt.verb, rt.path, Short(root), rt.scopes))
}

// notOf: approvals other than those of the variable itself.
func notOf(st *ai.State, mark, id string) []string {
	kind := strings.Split(mark, "|")[1]
	var l []string
	for k := range st.Marks {
		if strings.HasPrefix(k, okMark+kind+"|") && !strings.HasSuffix(k, "|"+id) {
			l = append(l, strings.Split(k, "|")[2])
		}
	}
	return l
}

// exactFns may stand between an identifier or claim and the comparison of the two.
var exactFns = map[string]bool{"strings.Split": true, "strings.SplitN": true, "strings.TrimSpace": true, "strings.Fields": true,
	"strconv.ParseUint": true, "strconv.FormatUint": true, "fmt.Sprint": true}

// exactOnly: every computation between v and its sources keeps different identifiers different.
func exactOnly(v ssa.Value, in ssa.Instruction) (bool, string) {
	seen := map[ssa.Value]bool{}
	why := ""
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Call:
			if _, ok := x.Call.Value.(*ssa.Builtin); ok {
				return true
			}
			f := x.Call.StaticCallee()
			if f == nil {
				return true
			}
			if len(f.Blocks) > 0 && strings.HasPrefix(PkgPath(f), load.ModPath) {
				return true
			}
			n := ai.FullName(f)
			if strings.Contains(n, "ContextJWT") {
				return true
			}
			if !exactFns[n] {
				why = "the identifier goes through " + n
				return false
			}
			if i := errorResult(f.Signature); i >= 0 && !errNilAt(x, i, in) {
				why = "the result of " + n + " is used although it may have failed"
				return false
			}
			for _, a := range x.Call.Args {
				if !walk(a) {
					return false
				}
			}
			return true
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !walk(e) {
					return false
				}
			}
			return true
		case *ssa.Slice:
			if x.Low != nil && !isZero(x.Low) || x.High != nil {
				why = "only a part of it is compared"
				return false
			}
			return walk(x.X)
		case *ssa.Convert:
			from, ok1 := x.X.Type().Underlying().(*types.Basic)
			to, ok2 := x.Type().Underlying().(*types.Basic)
			if ok1 && ok2 && from.Info()&types.IsInteger != 0 && to.Info()&types.IsInteger != 0 {
				if sizeOf(to) < sizeOf(from) {
					why = "the identifier is truncated"
					return false
				}
			}
			return walk(x.X)
		case *ssa.BinOp:
			if x.Op == token.AND || x.Op == token.SHR || x.Op == token.REM || x.Op == token.QUO {
				why = "the identifier is changed"
				return false
			}
			return walk(x.X) && walk(x.Y)
		case *ssa.Parameter, *ssa.FreeVar, *ssa.Const, *ssa.Global, *ssa.Alloc:
			return true
		case ssa.Instruction:
			for _, op := range x.Operands(nil) {
				if *op != nil && !walk(*op) {
					return false
				}
			}
		}
		return true
	}
	ok := walk(v)
	return ok, why
}

func sizeOf(b *types.Basic) int64 { return types.SizesFor("gc", "amd64").Sizeof(b) }

// errNilAt: the error result of call is known to be nil at in.
func errNilAt(call *ssa.Call, i int, in ssa.Instruction) bool {
	for _, ref := range *call.Referrers() {
		ex, ok := ref.(*ssa.Extract)
		if !ok || ex.Index != i {
			continue
		}
		for _, r := range *ex.Referrers() {
			b, ok := r.(*ssa.BinOp)
			if !ok {
				continue
			}
			for _, u := range *b.Referrers() {
				iff, ok := u.(*ssa.If)
				if !ok {
					continue
				}
				s := iff.Block().Succs[0]
				if b.Op == token.NEQ {
					s = iff.Block().Succs[1]
				}
				if len(s.Preds) == 1 && s.Dominates(in.Block()) {
					return true
				}
			}
		}
	}
	return false
}

// accessFn checks a function that compares identifiers with a claim of the token.
func (c *Ctx) accessFn(r *Result, name, claim string) {
	var root *ssa.Function
	for _, f := range c.P.Funcs {
		if f.Parent() == nil && PkgPath(f) == apiPkg && f.Name() == name {
			root = f
		}
	}
	if root == nil {
		r.Add(Finding{Rule: "access-check-missing", Key: "access-check-missing|" + name, Pos: "api/jwt.go", Msg: name + " does not exist"})
		return
	}
	ids := root.Params[len(root.Params)-1]
	expand := func(f *ssa.Function) bool { return PkgPath(f) == apiPkg && f != root }
	p := NewProv(root, expand, func(v ssa.Value) bool { return isContext(v.Type()) })
	p.Call = func(p *Prov, ci ssa.CallInstruction) (map[string]bool, bool) {
		if f := ci.Common().StaticCallee(); f != nil && f.Name() == "ContextJWT" {
			return map[string]bool{"token": true}, true
		}
		return nil, false
	}
	p.Run()
	isClaim := func(v ssa.Value) bool {
		for k := range Clean(p.Of(v)) {
			if strings.Contains(k, "["+claim+"]") || strings.Contains(k, `["`+claim+`"]`) {
				return true
			}
		}
		return false
	}
	isID := func(v ssa.Value) bool {
		for k := range Clean(p.Of(v)) {
			if k == ids.Name() || strings.HasPrefix(k, ids.Name()+"[") {
				return true
			}
		}
		return false
	}
	isToken := func(v ssa.Value) bool {
		m := Clean(p.Of(v))
		return len(m) == 1 && m["token"]
	}
	lenOfIDs := func(v ssa.Value) bool {
		x, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := x.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len" && isID(x.Call.Args[0])
	}
	e := ai.New(c.P)
	e.Mods, e.FieldFns, e.Volatile = c.Mods, c.FFns, c.Vol
	e.MaxSteps = c.Budget(200000)
	e.Inline = expand
	one := e.Bool(true)
	bad := func(st *ai.State, rule, at, msg string) {
		r.Add(Finding{Rule: rule, Key: rule + "|" + name, Pos: at, Trace: c.TraceOf(st, 30), Msg: msg})
	}
	e.Hooks.Load = func(e *ai.Engine, st *ai.State, ptr *ai.V, in ssa.Instruction) {
		u, ok := in.(*ssa.UnOp)
		if !ok {
			return
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok || !isID(ia.X) {
			return
		}
		if need := st.Marks["need"]; need != nil && need != ptr {
			bad(st, "identifier-not-compared", c.Pos(in.Pos()), name+" goes on to the next identifier although the previous one is not in the claim "+claim)
		}
		if st.Marks["need"] != ptr && st.Marks["seen"] != ptr {
			st.Marks["need"] = ptr
			delete(st.Marks, "seen")
		}
	}
	e.Hooks.Branch = func(e *ai.Engine, st *ai.State, in *ssa.If, taken bool) {
		cond, t := in.Cond, taken
		for {
			if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
				cond, t = u.X, !t
				continue
			}
			break
		}
		matched := func() {
			if n := st.Marks["need"]; n != nil {
				st.Marks["seen"] = n
				delete(st.Marks, "need")
			}
		}
		switch x := cond.(type) {
		case *ssa.BinOp:
			eq := x.Op == token.EQL && t || x.Op == token.NEQ && !t
			for _, d := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				isNil := false
				if k, ok := d[1].(*ssa.Const); ok {
					isNil = k.IsNil()
				}
				if eq && isNil && isToken(d[0]) {
					st.Marks["unrestricted"] = one
				}
				if _, ok := d[0].(*ssa.Lookup); ok && eq && isNil && isClaim(d[0]) {
					st.Marks["unrestricted"] = one
				}
				if lenOfIDs(d[0]) || lenOfIDs(d[1]) {
					zero := isZero(d[1]) && eq
					if zero || (x.Op == token.LSS || x.Op == token.GTR) && !t || (x.Op == token.GEQ || x.Op == token.LEQ) && t {
						st.Marks["exhausted"] = one
					}
				}
				if eq && isID(d[0]) && isClaim(d[1]) && !isClaim(d[0]) {
					ok1, w1 := exactOnly(d[0], x)
					ok2, w2 := exactOnly(d[1], x)
					if ok1 && ok2 {
						matched()
					} else {
						bad(st, "identifier-compared-loosely", c.Pos(x.Pos()), name+" compares an identifier with the claim "+claim+" but "+w1+w2)
						matched()
					}
				}
			}
		case *ssa.Extract:
			switch y := x.Tuple.(type) {
			case *ssa.Lookup:
				if x.Index == 1 && isClaim(y) && !isID(y.Index) && !t {
					st.Marks["unrestricted"] = one
				}
				if isID(y.Index) && isClaim(y.X) && t {
					matched()
				}
			}
		case *ssa.Lookup:
			if isID(x.Index) && isClaim(x.X) && t {
				matched()
			}
		}
	}
	// Error classes and error constructors never return nil.
	e.Hooks.Opaque = func(cc *ai.CallCtx, outs []ai.Outcome) []ai.Outcome {
		com := cc.Instr.Common()
		ctor := cc.Name == "errors.New" || cc.Name == "fmt.Errorf"
		if u, ok := com.Value.(*ssa.UnOp); ok && !com.IsInvoke() {
			_, g := u.X.(*ssa.Global)
			ctor = ctor || g && namedIs(u.Type(), "github.com/goadesign/goa", "ErrorClass")
		}
		if ctor {
			for i := range outs {
				outs[i].Ret = cc.Fresh(outs[i].St, "denied", true)
			}
		}
		return outs
	}
	outs := e.Run(root, nil)
	if e.Truncated != "" {
		r.Note(name + ": bounded: " + e.Truncated)
	}
	granted := 0
	for _, o := range outs {
		if o.Ret == nil || e.NilFact(o.St, o.Ret) == ai.NotNil {
			continue
		}
		granted++
		r.Inc("grants_checked", 1)
		if o.St.Marks["unrestricted"] != nil {
			continue
		}
		if o.St.Marks["need"] != nil {
			bad(o.St, "identifier-not-compared", c.Pos(root.Pos()), name+" grants access although an identifier is not in the claim "+claim)
		} else if o.St.Marks["exhausted"] == nil {
			bad(o.St, "grant-without-claim-check", c.Pos(root.Pos()), name+" grants access to a token without having found that the claim "+claim+" is absent or names every identifier")
		}
	}
	if granted == 0 {
		r.Note(name + ": never grants")
	}
}

// securityPlumbing checks what connects routes, tokens and scopes.
func (c *Ctx) securityPlumbing(r *Result) {
	for _, f := range c.P.Funcs {
		f := f
		// handleSecurity may only run the handler through the middleware, with the scopes required.
		if TopFn(f).Name() == "handleSecurity" && PkgPath(f) == appPkg && f.Parent() != nil {
			p := NewProv(f, func(*ssa.Function) bool { return false }, nil)
			for _, fv := range f.FreeVars {
				p.src[fv] = map[string]bool{"outer." + fv.Name(): true}
			}
			p.Run()
			ran := false
			EachInstr(f, func(in ssa.Instruction) {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().IsInvoke() || ci.Common().StaticCallee() != nil {
					return
				}
				if _, ok := ci.Common().Value.(*ssa.Builtin); ok {
					return
				}
				s := Clean(p.Of(ci.Common().Value))
				if s["outer.h"] && len(s) == 1 && !isCallResult(ci.Common().Value) {
					r.Add(Finding{Rule: "handler-without-token-check", Key: "handler-without-token-check|handleSecurity", Pos: c.Pos(in.Pos()), Msg: "handleSecurity calls the handler without the security middleware"})
				}
				if s["outer.h"] && isCallResult(ci.Common().Value) {
					ran = true
					if len(ci.Common().Args) > 0 && !Clean(p.Of(ci.Common().Args[0]))["outer.scopes"] {
						r.Add(Finding{Rule: "scope-not-required", Key: "scope-not-required|handleSecurity", Pos: c.Pos(in.Pos()), Msg: "handleSecurity runs the middleware without the scopes of the endpoint"})
					}
				}
			})
			if !ran {
				r.Note("handleSecurity: no call of the middleware recognised")
			}
			r.Inc("plumbing_checked", 1)
		}
		// The token check is only switched off when no key path is configured.
		EachInstr(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			g, ok := st.Addr.(*ssa.Global)
			if !ok || g.Name() != "enableJWT" || PkgPath(f) != apiPkg || f.Name() == "init" {
				return
			}
			r.Inc("plumbing_checked", 1)
			if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == "true" {
				return
			}
			if !c.onlyWithoutKeys(st) {
				r.Add(Finding{Rule: "token-check-disabled", Key: "token-check-disabled|" + Short(f), Pos: c.Pos(in.Pos()), Msg: Short(f) + " switches the token check off although JwtKeyPath may be configured"})
			}
		})
	}
	// The middleware passes requests through unchecked only when the check is off.
	if f := c.fn(apiPkg, "NewJWTMiddleware"); f != nil {
		e := ai.New(c.P)
		e.Mods, e.FieldFns = c.Mods, c.FFns
		e.Inline = func(*ssa.Function) bool { return false }
		off := e.Bool(true)
		e.Hooks.Branch = func(e *ai.Engine, st *ai.State, in *ssa.If, taken bool) {
			cond, t := in.Cond, taken
			for {
				if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
					cond, t = u.X, !t
					continue
				}
				break
			}
			if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.MUL && !t {
				if g, ok := u.X.(*ssa.Global); ok && g.Name() == "enableJWT" {
					st.Marks["off"] = off
				}
			}
		}
		e.Hooks.Opaque = func(cc *ai.CallCtx, outs []ai.Outcome) []ai.Outcome {
			if strings.HasSuffix(cc.Name, "/security/jwt.New") {
				for i := range outs {
					outs[i].Ret = cc.Fresh(outs[i].St, "verifying", true)
				}
				args := cc.Instr.Common().Args
				if !fromCall(args[0], "LoadJWTPublicKeys") {
					r.Add(Finding{Rule: "token-keys", Key: "token-keys|NewJWTMiddleware", Pos: c.Pos(cc.Pos()), Msg: "tokens are not verified with the configured public keys"})
				}
			}
			return outs
		}
		for _, o := range e.Run(f, nil) {
			r.Inc("plumbing_checked", 1)
			if o.Ret == nil || o.Ret.K != ai.KTuple || o.St.Marks["off"] != nil {
				continue
			}
			if v := o.Ret.Args[0]; v.K == ai.KFn {
				r.Add(Finding{Rule: "token-check-skipped", Key: "token-check-skipped|NewJWTMiddleware", Pos: c.Pos(f.Pos()), Trace: c.TraceOf(o.St, 20), Msg: "NewJWTMiddleware returns a middleware that checks no token although the check is enabled"})
			}
		}
	}
	// The middleware is mounted.
	mounted := 0
	for _, f := range c.P.Funcs {
		if PkgPath(f) != apiPkg {
			continue
		}
		EachInstr(f, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && g.Name() == "UseJWTMiddleware" {
					mounted++
					if !fromCall(ci.Common().Args[1], "NewJWTMiddleware") {
						r.Add(Finding{Rule: "token-check-skipped", Key: "token-check-skipped|" + Short(f), Pos: c.Pos(in.Pos()), Msg: "the mounted middleware is not the one NewJWTMiddleware makes"})
					}
				}
			}
		})
	}
	if mounted == 0 {
		r.Add(Finding{Rule: "token-check-skipped", Key: "token-check-skipped|mount", Pos: "api/services.go", Msg: "no token middleware is mounted"})
	}
	c.signing(r)
}

func isCallResult(v ssa.Value) bool {
	_, ok := v.(*ssa.Call)
	return ok
}

func fromCall(v ssa.Value, name string) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Call:
			f := x.Call.StaticCallee()
			return f != nil && f.Name() == name
		case ssa.Instruction:
			for _, op := range x.Operands(nil) {
				if *op != nil && walk(*op) {
					return true
				}
			}
			if a, ok := v.(*ssa.Alloc); ok {
				for _, ref := range *a.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == a && walk(st.Val) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(v)
}

func (c *Ctx) fn(pkg, name string) *ssa.Function {
	for _, f := range c.P.Funcs {
		if f.Parent() == nil && PkgPath(f) == pkg && f.Name() == name {
			return f
		}
	}
	return nil
}

// onlyWithoutKeys: in runs only when config.JwtKeyPath is empty, or stores that comparison.
func (c *Ctx) onlyWithoutKeys(st *ssa.Store) bool {
	keyPath := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		return ok && fieldNameOf(fa) == "JwtKeyPath"
	}
	cmp := func(v ssa.Value) (ssa.Value, bool, bool) { // compared with ""; true: equal
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ {
			return nil, false, false
		}
		for _, d := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			if s, ok := constString(d[1]); ok && s == "" && keyPath(d[0]) {
				return b, b.Op == token.EQL, true
			}
			if k, ok := d[1].(*ssa.Call); ok {
				_ = k
			}
		}
		return nil, false, false
	}
	if _, eq, ok := cmp(st.Val); ok && !eq { // enableJWT = JwtKeyPath != ""
		return true
	}
	for b := st.Block(); b != nil; b = b.Idom() {
		id := b.Idom()
		if id == nil {
			break
		}
		iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if _, eq, ok := cmp(iff.Cond); ok {
			s := id.Succs[0]
			if !eq {
				s = id.Succs[1]
			}
			if len(s.Preds) == 1 && s.Dominates(st.Block()) {
				return true
			}
		}
	}
	return false
}

func fieldNameOf(fa *ssa.FieldAddr) string {
	t := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	return t.Field(fa.Field).Name()
}

// signing: tokens carry the scope and restrictions that were asked for.
func (c *Ctx) signing(r *Result) {
	var root *ssa.Function
	for _, f := range c.P.Funcs {
		if PkgPath(f) != apiPkg {
			continue
		}
		EachInstr(f, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && g.Name() == "SignedString" {
					root = TopFn(f)
				}
			}
		})
	}
	if root == nil {
		r.Note("no token is signed")
		return
	}
	for root.Signature.Recv() == nil && len(c.callers[root]) == 1 && TopFn(c.callers[root][0].Parent()) != root {
		root = TopFn(c.callers[root][0].Parent())
	}
	want := map[string]string{"scopes": "Scope", "only_lists": "OnlyLists", "only_elements": "OnlyElements"}
	expand := func(f *ssa.Function) bool { return PkgPath(f) == apiPkg && f != root }
	p := NewProv(root, expand, nil).Run()
	last := func(s string) string {
		if i := strings.LastIndexByte(s, '.'); i >= 0 {
			s = s[i+1:]
		}
		return strings.TrimRight(s, "[]*:")
	}
	e := ai.New(c.P)
	e.Mods, e.FieldFns = c.Mods, c.FFns
	e.Inline = expand
	one := e.Bool(true)
	e.Hooks.Branch = func(e *ai.Engine, st *ai.State, in *ssa.If, taken bool) {
		cond, t := in.Cond, taken
		for {
			if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
				cond, t = u.X, !t
				continue
			}
			break
		}
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.MUL && t {
			if g, ok := u.X.(*ssa.Global); ok && g.Name() == "enableJWTCreation" {
				st.Marks["enabled"] = one
			}
		}
		if b, ok := cond.(*ssa.BinOp); ok && (b.Op == token.EQL && t || b.Op == token.NEQ && !t) {
			for _, d := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				if k, ok := d[1].(*ssa.Const); ok && k.IsNil() {
					for s := range Clean(p.Of(d[0])) {
						st.Marks["nil:"+last(s)] = one
					}
				}
			}
		}
	}
	e.Hooks.MapUpd = func(e *ai.Engine, st *ai.State, m, k, v *ai.V, in ssa.Instruction) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok {
			return
		}
		key, ok := constString(mu.Key)
		if !ok || want[key] == "" {
			return
		}
		for s := range Clean(p.Of(mu.Value)) {
			if last(s) == want[key] {
				st.Marks["set:"+key] = one
				return
			}
		}
		r.Add(Finding{Rule: "claim-from-wrong-input", Key: "claim-from-wrong-input|" + key, Pos: c.Pos(in.Pos()), Msg: fmt.Sprintf("the claim %s of a new token is not made from the requested %s", key, want[key])})
	}
	e.Hooks.Call = func(cc *ai.CallCtx) ([]ai.Outcome, bool) {
		if cc.Callee == nil || cc.Callee.Name() != "SignedString" {
			return nil, false
		}
		r.Inc("plumbing_checked", 1)
		if cc.St.Marks["enabled"] == nil {
			r.Add(Finding{Rule: "token-signed-while-disabled", Key: "token-signed-while-disabled|" + Short(root), Pos: c.Pos(cc.Pos()), Trace: c.TraceOf(cc.St, 20), Msg: "a token is signed on a path on which token creation was not found enabled"})
		}
		for _, k := range []string{"scopes", "only_lists", "only_elements"} {
			if cc.St.Marks["set:"+k] == nil && cc.St.Marks["nil:"+want[k]] == nil {
				r.Add(Finding{Rule: "claim-missing", Key: "claim-missing|" + k, Pos: c.Pos(cc.Pos()), Trace: c.TraceOf(cc.St, 20), Msg: "a token is signed without the claim " + k + " although the request may ask for it"})
			}
		}
		return nil, false
	}
	e.Run(root, nil)
}

func init() {
	register("C06", "route and scope extraction plus path-sensitive authorization typestate over go/ssa", func(c *Ctx) *Result {
		r := NewResult()
		r.Explanation = "The routes are read from the generated mounting code: each must carry exactly the documented scope. For every endpoint open to read, update or delete tokens the handler, its closures and helpers are simulated over all paths; the lists and elements it uses are traced to the request fields (and metadata matches) that choose them, and each use must lie behind an access check that allowed that same source. The access checks themselves are simulated to show that they grant only when the claim is absent or each identifier equalled an entry of it. The middleware, its mounting and token signing are checked the same way."
		r.Rules = []string{"scope: endpoint without the documented scope", "list-not-authorized", "element-not-authorized", "identifier-not-compared / identifier-compared-loosely / grant-without-claim-check", "token-check-skipped / token-check-disabled / handler-without-token-check / scope-not-required", "claim-missing / claim-from-wrong-input / token-signed-while-disabled"}
		r.Assumptions = []string{"the goa JWT middleware verifies signature, expiry and the required scopes it is given", "sources are tracked per request field and variable; different requests are independent", "neighbors of an element and ranges of a list are not restricted by element, as documented"}
		rts := c.routes(r)
		seen := map[string]bool{}
		var hs []*ssa.Function
		var hr []route
		for _, rt := range rts {
			r.Inc("routes", 1)
			k := rt.ctrl + "." + rt.action
			seen[k] = true
			w, ok := scopeOf[k]
			have := strings.Join(rt.scopes, "+")
			switch {
			case !ok && have == "":
				r.Add(Finding{Rule: "scope", Key: "scope|" + k, Pos: c.Pos(rt.pos), Msg: fmt.Sprintf("%s %s (%s) is reachable without any scope", rt.verb, rt.path, k)})
			case ok && have != w:
				r.Add(Finding{Rule: "scope", Key: "scope|" + k, Pos: c.Pos(rt.pos), Msg: fmt.Sprintf("%s %s (%s) requires %q, documented is %q", rt.verb, rt.path, k, have, w)})
			}
			if w == "api:manage" || !ok && have == "api:manage" {
				continue
			}
			if h := c.handler(rt); h != nil {
				hs = append(hs, h)
				hr = append(hr, rt)
			} else {
				r.Add(Finding{Rule: "handler-unknown", Key: "handler-unknown|" + k, Pos: c.Pos(rt.pos), Msg: "no implementation found for " + k})
			}
		}
		r.Inc("handlers_analysed", len(hs))
		Parallel(len(hs), func(i int) { c.authHandler(r, hs[i], hr[i]) })
		c.accessFn(r, "HasAccessToList", "only_lists")
		c.accessFn(r, "HasAccessToElement", "only_elements")
		c.securityPlumbing(r)
		r.Floors["routes"] = 28
		r.Floors["handlers_analysed"] = 12
		r.Floors["access_checks"] = 20
		r.Floors["list_uses"] = 15
		r.Floors["element_uses"] = 10
		r.Floors["grants_checked"] = 4
		r.Floors["plumbing_checked"] = 5
		return r
	})
}
