package checks

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/load"
)

// flowTable is what flows.json holds.
type flowTable struct {
	Flows   map[string][]string // source -> where it takes effect
	Answers map[string][]string // type -> fields every value built of it carries
	From    map[string][]string // field -> fields it may be taken from
}

// built is one place where a value of a structure is made.
type built struct {
	at     *ssa.Alloc
	fields map[string]bool
	whole  bool // assigned as a whole
}

func answerType(n string) bool {
	if strings.HasPrefix(n, "api/app.Rankdb") {
		return !strings.HasSuffix(n, "Collection")
	}
	switch n {
	case ".Element", "backup.RestoreInfo", "backup.Request", "backup/server.RankDB", "backup.HTTPLoader":
		return true
	}
	return false
}

// makes finds the structures of the answer types that are built and what is set in them.
func (x *flows) makes() map[string][]*built {
	out := map[string][]*built{}
	for _, f := range x.c.P.Funcs {
		if !x.written(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				a, ok := in.(*ssa.Alloc)
				if !ok {
					continue
				}
				t := typeShort(a.Type())
				if !answerType(t) {
					continue
				}
				m := &built{at: a, fields: map[string]bool{}}
				x.fieldsSet(a, m, map[ssa.Value]bool{})
				if !m.whole && len(m.fields) > 0 {
					out[t] = append(out[t], m)
				}
			}
		}
	}
	return out
}

func (x *flows) fieldsSet(v ssa.Value, m *built, seen map[ssa.Value]bool) {
	if seen[v] || v.Referrers() == nil {
		return
	}
	seen[v] = true
	for _, ref := range *v.Referrers() {
		switch r := ref.(type) {
		case *ssa.FieldAddr:
			s, ok := deref(r.X.Type()).Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for _, u := range *r.Referrers() {
				if l, ok := u.(*ssa.UnOp); ok && l.Op == token.MUL {
					continue
				}
				m.fields[s.Field(r.Field).Name()] = true
			}
		case *ssa.Store:
			if r.Addr == v {
				m.whole = true
			} else if p, ok := r.Addr.(*ssa.Alloc); ok {
				// a local pointer to it
				for _, u := range *p.Referrers() {
					if l, ok := u.(*ssa.UnOp); ok {
						x.fieldsSet(l, m, seen)
					}
				}
				for _, u := range *p.Referrers() {
					if mc, ok := u.(*ssa.MakeClosure); ok {
						for i, b := range mc.Bindings {
							if b == ssa.Value(p) {
								fv := mc.Fn.(*ssa.Function).FreeVars[i]
								for _, w := range *fv.Referrers() {
									if l, ok := w.(*ssa.UnOp); ok {
										x.fieldsSet(l, m, seen)
									}
								}
							}
						}
					}
				}
			}
		case *ssa.Phi:
			x.fieldsSet(r, m, seen)
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == v {
					x.fieldsSet(r.Fn.(*ssa.Function).FreeVars[i], m, seen)
				}
			}
		case *ssa.MakeInterface:
			m.whole = m.whole || decodes(r)
		case *ssa.Return:
			// the caller of a helper may set more
			for _, call := range x.call[r.Parent()] {
				if val, ok := call.(ssa.Value); ok && x.written(call.Parent()) {
					x.fieldsSet(val, m, seen)
				}
			}
		case ssa.CallInstruction:
			g := r.Common().StaticCallee()
			if g == nil || len(g.Blocks) == 0 {
				continue
			}
			for i, a := range r.Common().Args {
				if a == v && i < len(g.Params) {
					if x.written(g) {
						x.fieldsSet(g.Params[i], m, seen)
					} else if g.Signature.Recv() == nil || i > 0 {
						m.whole = m.whole || strings.Contains(g.Name(), "ecode") || strings.Contains(g.Name(), "nmarshal")
					} else if strings.Contains(g.Name(), "nmarshal") || strings.Contains(g.Name(), "ecode") {
						m.whole = true
					}
				}
			}
		}
	}
}

// decodes: the pointer is handed to a decoder.
func decodes(i *ssa.MakeInterface) bool {
	for _, u := range *i.Referrers() {
		if call, ok := u.(ssa.CallInstruction); ok {
			n := ""
			if g := call.Common().StaticCallee(); g != nil {
				n = g.Name()
			} else if call.Common().IsInvoke() {
				n = call.Common().Method.Name()
			}
			if strings.Contains(n, "ecode") || strings.Contains(n, "nmarshal") {
				return true
			}
		}
	}
	return false
}

// written: somebody wrote the function, it is neither generated nor a test helper.
func (x *flows) written(f *ssa.Function) bool {
	pp := PkgPath(f)
	if !modPkg(pp) || strings.HasSuffix(pp, "/api/app") || strings.Contains(pp, "/api/client") ||
		strings.Contains(pp, "/api/tool") || strings.Contains(pp, "/bstest") || strings.Contains(pp, "/api/design") {
		return false
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if pos := f.Pos(); pos.IsValid() && strings.HasSuffix(x.c.P.Fset.Position(pos).Filename, "_gen.go") {
		return false
	}
	return true
}

// taken names the field whose value, unchanged, is stored.
func (x *flows) taken(v ssa.Value, depth int, out map[string]*ssa.FieldAddr) {
	if depth > 8 {
		return
	}
	switch i := v.(type) {
	case *ssa.Convert:
		x.taken(i.X, depth+1, out)
	case *ssa.ChangeType:
		x.taken(i.X, depth+1, out)
	case *ssa.Phi:
		for _, e := range i.Edges {
			x.taken(e, depth+1, out)
		}
	case *ssa.FieldAddr:
		// a pointer to it
		if n := x.fieldName(i.X.Type(), i.Field); n != "" && !strings.HasPrefix(n, "struct.") && !strings.HasSuffix(n, ".In") {
			out[n] = i
		}
	case *ssa.UnOp:
		if i.Op != token.MUL {
			return
		}
		switch a := i.X.(type) {
		case *ssa.FieldAddr:
			if n := configPath(a); n != "" {
				out[n] = a
				return
			}
			if n := x.fieldName(a.X.Type(), a.Field); n != "" && !strings.HasPrefix(n, "struct.") && !strings.HasSuffix(n, ".In") {
				out[n] = a
				return
			}
			x.taken(a.X, depth+1, out)
		case *ssa.Alloc:
			for _, u := range *a.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
					x.taken(st.Val, depth+1, out)
				}
			}
		default:
			x.taken(i.X, depth+1, out) // a pointer that is a field's value
		}
	case *ssa.Alloc:
		// a pointer to a copy
		for _, u := range *i.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(i) {
				x.taken(st.Val, depth+1, out)
			}
		}
	case *ssa.Call:
		g := i.Call.StaticCallee()
		if g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "time" && g.Name() == "Unix" {
			x.taken(i.Call.Args[0], depth+1, out)
		}
	}
}

// takes lists, for every field of an answer, the fields it is taken from.
func (x *flows) takes() map[string]map[string]token.Pos {
	out := map[string]map[string]token.Pos{}
	for _, f := range x.c.P.Funcs {
		if !x.written(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					x.takesArgs(call, out)
				}
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n := x.fieldName(fa.X.Type(), fa.Field)
				if i := strings.LastIndexByte(n, '.'); i < 0 || !takenType(n[:i]) {
					continue
				}
				m := map[string]*ssa.FieldAddr{}
				x.taken(st.Val, 0, m)
				for s := range m {
					if out[n] == nil {
						out[n] = map[string]token.Pos{}
					}
					if _, ok := out[n][s]; !ok {
						out[n][s] = st.Pos()
					}
				}
			}
		}
	}
	return out
}

// takesArgs does the same for the arguments of a call to an exported function.
func (x *flows) takesArgs(call ssa.CallInstruction, out map[string]map[string]token.Pos) {
	g := call.Common().StaticCallee()
	if g == nil || !ast.IsExported(g.Name()) || g.Pkg != nil && !strings.Contains(g.Pkg.Pkg.Path(), ".") {
		return
	}
	for i, a := range call.Common().Args {
		m := map[string]*ssa.FieldAddr{}
		x.taken(a, 0, m)
		for s, fa := range m {
			o := typeShort(fa.X.Type())
			if !strings.HasPrefix(s, "config.") && !(strings.HasPrefix(o, "api/app.") && x.source(o, "", false)) {
				continue
			}
			n := fmt.Sprintf("call %s#%d", Short(g), i)
			if out[n] == nil {
				out[n] = map[string]token.Pos{}
			}
			if _, ok := out[n][s]; !ok {
				out[n][s] = call.Pos()
			}
		}
	}
}

// everySite: a call an endpoint makes is given the endpoint's parameter wherever it makes it.
func (x *flows) everySite(r *Result, want *flowTable) {
	byCtx := map[string]map[string][]string{} // context type -> argument -> parameters it comes from
	for src, l := range want.Flows {
		if !strings.HasPrefix(src, "api/app.") {
			continue
		}
		t, _, ok := strings.Cut(src[len("api/app."):], ".")
		if !ok || !strings.HasSuffix(t, "Context") {
			continue
		}
		for _, s := range l {
			if !strings.HasPrefix(s, "call ") {
				continue
			}
			if byCtx[t] == nil {
				byCtx[t] = map[string][]string{}
			}
			byCtx[t][s] = append(byCtx[t][s], src)
		}
	}
	for _, f := range x.c.P.Funcs {
		if PkgPath(f) != load.ModPath+"/api" {
			continue
		}
		out := f
		for out.Parent() != nil {
			out = out.Parent()
		}
		var args map[string][]string
		for _, p := range out.Params {
			if t := strings.TrimPrefix(typeShort(p.Type()), "api/app."); byCtx[t] != nil {
				args = byCtx[t]
			}
		}
		if args == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok || call.Common().StaticCallee() == nil {
					continue
				}
				g := call.Common().StaticCallee()
				for i := range call.Common().Args {
					srcs := args[fmt.Sprintf("call %s#%d", Short(g), i)]
					if len(srcs) == 0 {
						continue
					}
					r.Inc("argument_sites", 1)
					ok := false
					for _, s := range srcs {
						ok = ok || x.sites[s][flowSite{call, i}]
					}
					if !ok {
						sort.Strings(srcs)
						r.Add(Finding{Rule: "call-without-parameter", Key: fmt.Sprintf("call-without-parameter|%s|%s#%d", Short(out), Short(g), i), Pos: x.c.Pos(call.Pos()),
							Msg: fmt.Sprintf("%s calls %s without giving it %s", Short(out), Short(g), strings.Join(srcs, " or "))})
					}
				}
			}
		}
	}
}

func takenType(n string) bool {
	return answerType(n) || n == "struct" || n == ".IndexElement" || n == ".RankedElement" || n == "backup.Status" || n == ".List" || n == ".Segments" || n == "net/http.Server"
}

// other says whether the value is one field of a structure where another field of it belongs.
func other(src string, allowed []string) string {
	i := strings.LastIndexByte(src, '.')
	for _, a := range allowed {
		if a == src {
			return ""
		}
	}
	for _, a := range allowed {
		if j := strings.LastIndexByte(a, '.'); j == i && a[:j] == src[:i] {
			return a
		}
	}
	return ""
}

func (x *flows) answers(r *Result, want *flowTable, now *flowTable) {
	makes := x.makes()
	var types []string
	for t, l := range makes {
		types = append(types, t)
		var all map[string]bool
		for _, m := range l {
			if all == nil {
				all = map[string]bool{}
				for f := range m.fields {
					all[f] = true
				}
			}
			for f := range all {
				if !m.fields[f] {
					delete(all, f)
				}
			}
		}
		for f := range all {
			now.Answers[t] = append(now.Answers[t], f)
		}
		sort.Strings(now.Answers[t])
	}
	sort.Strings(types)
	for _, t := range types {
		for _, m := range makes[t] {
			r.Inc("answers_built", 1)
			for _, f := range want.Answers[t] {
				if !m.fields[f] {
					fn := Short(m.at.Parent())
					r.Add(Finding{Rule: "answer-field-left-out", Key: "answer-field-left-out|" + fn + "|" + t + "." + f, Pos: x.c.Pos(m.at.Pos()),
						Msg: fmt.Sprintf("%s builds a %s without its %s", fn, t, f)})
				}
			}
		}
	}
	takes := x.takes()
	for dst, m := range takes {
		for src, pos := range m {
			now.From[dst] = append(now.From[dst], src)
			r.Inc("fields_taken_over", 1)
			if o := other(src, want.From[dst]); o != "" {
				r.Add(Finding{Rule: "answer-field-from-another", Key: "answer-field-from-another|" + dst + "|" + src, Pos: x.c.Pos(pos),
					Msg: fmt.Sprintf("%s is given %s, it is what %s is for", dst, src, o)})
			}
		}
		sort.Strings(now.From[dst])
	}
}
