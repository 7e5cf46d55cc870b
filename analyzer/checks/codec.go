package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/load"
)

// Grammar extraction: what a function writes to or reads from a msgp stream, as a finite automaton
// over the control flow on which every call succeeds.

const msgpPkg = "github.com/tinylib/msgp/msgp"

type wedge struct {
	to  int
	tok string // "" is an empty step
	pos token.Pos
}

type wnfa struct {
	edges  [][]wedge
	accept map[int]bool
	start  int
}

func (n *wnfa) node() int {
	n.edges = append(n.edges, nil)
	return len(n.edges) - 1
}

func (n *wnfa) edge(a, b int, tok string, pos token.Pos) {
	n.edges[a] = append(n.edges[a], wedge{b, tok, pos})
}

// wframe is one expansion of a function.
type wframe struct {
	fn   *ssa.Function
	args map[ssa.Value]ssa.Value // parameter -> argument in the calling frame
	up   *wframe                 // calling frame
	lex  *wframe                 // frame that made the closure
	mc   *ssa.MakeClosure
	n    int
}

type wbuild struct {
	c      *Ctx
	g      *wnfa
	has    map[*ssa.Function]bool // functions with stream operations below them
	stream wstream                // the stream of interest; zero: everything
	all    bool
	undec  map[string]bool
	ends   []int // where the stream is made again
}

// wstream names a stream: the instruction or parameter that makes it, in one function.
type wstream struct{ v ssa.Value }

func isMsgpStream(t types.Type) bool {
	return namedIs(t, load.ModPath, "WriterMsgp") || namedIs(t, load.ModPath, "ReaderMsgp") || namedIs(t, msgpPkg, "Writer") || namedIs(t, msgpPkg, "Reader")
}

// roots resolves a value to what made it.
func (w *wbuild) roots(v ssa.Value, f *wframe) []wstream {
	out := map[ssa.Value]bool{}
	type vf struct {
		v ssa.Value
		f *wframe
	}
	seen := map[vf]bool{}
	var walk func(v ssa.Value, f *wframe)
	walk = func(v ssa.Value, f *wframe) {
		if v == nil || seen[vf{v, f}] {
			return
		}
		seen[vf{v, f}] = true
		switch x := v.(type) {
		case *ssa.Parameter:
			if a, ok := f.args[x]; ok && f.up != nil {
				walk(a, f.up)
				return
			}
			out[x] = true
		case *ssa.FreeVar:
			if f.mc != nil && f.lex != nil {
				for i, fv := range f.fn.FreeVars {
					if fv == x {
						walk(f.mc.Bindings[i], f.lex)
						return
					}
				}
			}
			out[x] = true
		case *ssa.UnOp:
			if x.Op == token.MUL {
				walk(x.X, f)
				return
			}
			out[x] = true
		case *ssa.Alloc:
			found := false
			for _, r := range *x.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == x {
					walk(st.Val, f)
					found = true
				}
			}
			if !found {
				out[x] = true
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e, f)
			}
		case *ssa.ChangeType:
			walk(x.X, f)
		case *ssa.Slice:
			walk(x.X, f)
		case *ssa.MakeInterface:
			walk(x.X, f)
		case *ssa.Const:
		case *ssa.Extract:
			if call, ok := x.Tuple.(*ssa.Call); ok {
				if g := call.Call.StaticCallee(); g != nil {
					switch {
					case g.Name() == "MsgpGetVersion":
						walk(call.Call.Args[0], f)
						return
					case g.Name() == "UnmarshalMsg":
						walk(call.Call.Args[1], f)
						return
					}
				}
			}
			out[x] = true
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil && g.Signature.Recv() != nil && (g.Name() == "Writer" || g.Name() == "Reader") && isMsgpStream(g.Signature.Recv().Type()) {
				walk(x.Call.Args[0], f)
				return
			}
			out[x] = true
		default:
			out[v] = true
		}
	}
	walk(v, f)
	var l []wstream
	for v := range out {
		l = append(l, wstream{v})
	}
	return l
}

func (w *wbuild) mine(v ssa.Value, f *wframe) bool {
	if w.all {
		return true
	}
	for _, s := range w.roots(v, f) {
		if s == w.stream {
			return true
		}
	}
	return false
}

// path of a value relative to the receiver, "?" if unknown.
func wpath(v ssa.Value) string {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) string
	walk = func(v ssa.Value) string {
		if v == nil || seen[v] {
			return "?"
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Parameter:
			if len(x.Parent().Params) > 0 && x.Parent().Params[0] == x {
				return ""
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				return walk(x.X)
			}
		case *ssa.FieldAddr:
			if p := walk(x.X); p != "?" {
				return p + "." + fieldNameOf(x)
			}
		case *ssa.Field:
			if p := walk(x.X); p != "?" {
				return p + "." + x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()
			}
		case *ssa.IndexAddr:
			if p := walk(x.X); p != "?" {
				return p + "[]"
			}
		case *ssa.Index:
			if p := walk(x.X); p != "?" {
				return p + "[]"
			}
		case *ssa.Slice:
			return walk(x.X)
		case *ssa.Convert:
			return walk(x.X)
		case *ssa.ChangeType:
			return walk(x.X)
		case *ssa.Phi:
			r := "?"
			for _, e := range x.Edges {
				if p := walk(e); p != "?" {
					r = p
				}
			}
			return r
		case *ssa.Extract:
			if nx, ok := x.Tuple.(*ssa.Next); ok {
				if rg, ok := nx.Iter.(*ssa.Range); ok {
					if p := walk(rg.X); p != "?" {
						return p + map[int]string{1: "{k}", 2: "{v}"}[x.Index]
					}
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return walk(x.Call.Args[0])
			}
		case *ssa.Alloc:
			for _, r := range *x.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == x {
					return walk(st.Val)
				}
			}
		}
		return "?"
	}
	return walk(v)
}

// wdest: the place a value that was read is stored to.
func wdest(v ssa.Value) (path string, fixed int64) {
	seen := map[ssa.Value]bool{}
	fixed = -1
	path = "?"
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Val == v {
					if p := wpath(x.Addr); p != "?" {
						path = p
					}
				}
			case *ssa.MapUpdate:
				if p := wpath(x.Map); p != "?" {
					if x.Key == v {
						path = p + "{k}"
					} else if x.Value == v {
						path = p + "{v}"
					}
				}
			case *ssa.Convert:
				walk(x)
			case *ssa.ChangeType:
				walk(x)
			case *ssa.Phi:
				walk(x)
			case *ssa.Slice:
				if x.High == v {
					walk(x)
				}
			case *ssa.MakeSlice:
				walk(x)
			case *ssa.MakeMap:
				walk(x)
			case *ssa.BinOp:
				if x.Op == token.NEQ || x.Op == token.EQL {
					for _, o := range []ssa.Value{x.X, x.Y} {
						if k, ok := o.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
							fixed = k.Int64()
						}
					}
				}
			}
		}
	}
	walk(v)
	return
}

// extractOf a tuple result.
func extractOf(v ssa.Value, i int) ssa.Value {
	if v.Referrers() == nil {
		return nil
	}
	for _, r := range *v.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == i {
			return e
		}
	}
	return nil
}

// constBytes of a variadic byte slice literal.
func constBytes(v ssa.Value) ([]byte, bool) {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	b := make([]byte, at.Len())
	n := int64(0)
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		for _, u := range *ia.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == ia {
				c, ok := st.Val.(*ssa.Const)
				if !ok {
					return nil, false
				}
				b[k.Int64()] = byte(c.Uint64())
				n++
			}
		}
	}
	return b, n == at.Len()
}

// byteTokens decodes literal msgpack bytes.
func byteTokens(b []byte) ([]string, bool) {
	var out []string
	for len(b) > 0 {
		c := b[0]
		b = b[1:]
		n := 0
		switch {
		case c&0xf0 == 0x80:
			out = append(out, fmt.Sprintf("map:%d", c&15))
			continue
		case c&0xf0 == 0x90:
			out = append(out, fmt.Sprintf("arr:%d", c&15))
			continue
		case c == 0xde && len(b) >= 2:
			out = append(out, fmt.Sprintf("map:%d", int(b[0])<<8|int(b[1])))
			b = b[2:]
			continue
		case c == 0xdc && len(b) >= 2:
			out = append(out, fmt.Sprintf("arr:%d", int(b[0])<<8|int(b[1])))
			b = b[2:]
			continue
		case c&0xe0 == 0xa0:
			n = int(c & 31)
		case c == 0xd9 && len(b) >= 1:
			n = int(b[0])
			b = b[1:]
		default:
			return nil, false
		}
		if n > len(b) {
			return nil, false
		}
		out = append(out, "key:"+string(b[:n]))
		b = b[n:]
	}
	return out, true
}

var codecNames = map[string]bool{"EncodeMsg": true, "DecodeMsg": true, "MarshalMsg": true, "UnmarshalMsg": true}

func isCodec(f *ssa.Function) bool {
	return f != nil && codecNames[f.Name()] && f.Signature.Recv() != nil && strings.HasPrefix(PkgPath(f), load.ModPath)
}

func recvName(f *ssa.Function) string {
	t := f.Signature.Recv().Type()
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// op describes the stream operation of a call.
type wop struct {
	toks   []string
	prune  bool
	stream ssa.Value
	ok     bool
}

func (w *wbuild) op(ci ssa.CallInstruction) wop {
	com := ci.Common()
	val, _ := ci.(ssa.Value)
	if b, ok := com.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" && w.all && len(com.Args) == 2 && types.Identical(com.Args[0].Type().Underlying(), types.NewSlice(types.Typ[types.Byte])) {
			if bs, ok := constBytes(com.Args[1]); ok {
				if t, ok := byteTokens(bs); ok {
					return wop{toks: t, ok: true}
				}
			}
			w.undec["literal bytes"] = true
		}
		return wop{}
	}
	g := com.StaticCallee()
	if g == nil {
		return wop{}
	}
	name := g.Name()
	recv := ""
	if r := g.Signature.Recv(); r != nil {
		if p, ok := types.Unalias(r.Type()).(*types.Pointer); ok {
			recv = types.TypeString(p.Elem(), nil)
		} else {
			recv = types.TypeString(r.Type(), nil)
		}
	}
	if isCodec(g) {
		lbl := "?"
		if w.all {
			lbl = wpath(com.Args[0])
		}
		return wop{toks: []string{"T:" + recvName(g) + "@" + lbl}, stream: com.Args[1], ok: true}
	}
	switch recv {
	case load.ModPath + ".WriterMsgp":
		if name == "SetVersion" {
			if k, ok := com.Args[1].(*ssa.Const); ok {
				return wop{toks: []string{fmt.Sprintf("ver:%d", k.Uint64())}, stream: com.Args[0], ok: true}
			}
			return wop{toks: []string{"ver:?"}, stream: com.Args[0], ok: true}
		}
		return wop{}
	case load.ModPath + ".ReaderMsgp":
		return wop{}
	case msgpPkg + ".Writer":
		if name == "Append" {
			if bs, ok := constBytes(com.Args[1]); ok {
				if t, ok := byteTokens(bs); ok {
					return wop{toks: t, stream: com.Args[0], ok: true}
				}
			}
			w.undec["literal bytes"] = true
			return wop{}
		}
		if strings.HasPrefix(name, "Write") && name != "Write" && name != "WriteByte" {
			return wop{toks: []string{w.writeTok(strings.TrimPrefix(name, "Write"), com.Args[1:])}, stream: com.Args[0], ok: true}
		}
		return wop{}
	case msgpPkg + ".Reader":
		switch {
		case name == "Skip":
			return wop{prune: true, stream: com.Args[0], ok: true}
		case name == "ReadMapKeyPtr" || name == "ReadMapKey":
			return wop{stream: com.Args[0], ok: true}
		case strings.HasPrefix(name, "Read") && name != "Read" && name != "ReadByte" && name != "ReadFull":
			return w.readTok(strings.TrimPrefix(name, "Read"), val, com.Args[0])
		}
		return wop{}
	}
	if recv == "" && g.Pkg != nil && g.Pkg.Pkg.Path() == msgpPkg {
		switch {
		case strings.HasPrefix(name, "Append"):
			return wop{toks: []string{w.writeTok(strings.TrimPrefix(name, "Append"), com.Args[1:])}, stream: com.Args[0], ok: true}
		case name == "Skip":
			return wop{prune: true, stream: com.Args[0], ok: true}
		case name == "ReadMapKeyZC":
			return wop{stream: com.Args[0], ok: true}
		case strings.HasPrefix(name, "Read") && strings.HasSuffix(name, "Bytes"):
			return w.readTok(strings.TrimSuffix(strings.TrimPrefix(name, "Read"), "Bytes"), val, com.Args[0])
		}
	}
	return wop{}
}

func (w *wbuild) writeTok(kind string, args []ssa.Value) string {
	if len(args) == 0 || kind == "Nil" {
		return kind + "@"
	}
	if !w.all {
		if kind == "Bool" {
			if k, ok := args[0].(*ssa.Const); ok {
				return "Bool:" + k.Value.ExactString()
			}
			return "Bool:?"
		}
		return kind + "@?"
	}
	p := wpath(args[0])
	if kind == "StringFromBytes" {
		kind = "String"
	}
	switch kind {
	case "ArrayHeader", "MapHeader":
		k := map[string]string{"ArrayHeader": "arr", "MapHeader": "map"}[kind]
		if c, ok := args[0].(*ssa.Const); ok {
			return fmt.Sprintf("%s:%d", k, c.Uint64())
		}
		return k + "@" + p
	}
	return kind + "@" + p
}

func (w *wbuild) readTok(kind string, val ssa.Value, stream ssa.Value) wop {
	o := wop{stream: stream, ok: true}
	if kind == "Nil" {
		o.toks = []string{"Nil@"}
		return o
	}
	res := extractOf(val, 0)
	if !w.all {
		if kind == "Bool" {
			if res != nil {
				for _, r := range *res.Referrers() {
					if _, ok := r.(*ssa.If); ok {
						return o // the branches carry the token
					}
					if u, ok := r.(*ssa.UnOp); ok && u.Op == token.NOT {
						return o
					}
				}
			}
			o.toks = []string{"Bool:?"}
			return o
		}
		o.toks = []string{kind + "@?"}
		return o
	}
	p, fixed := "?", int64(-1)
	if res != nil {
		p, fixed = wdest(res)
	}
	switch kind {
	case "ArrayHeader", "MapHeader":
		k := map[string]string{"ArrayHeader": "arr", "MapHeader": "map"}[kind]
		if fixed >= 0 && p == "?" && kind == "ArrayHeader" {
			o.toks = []string{fmt.Sprintf("%s:%d", k, fixed)}
		} else {
			o.toks = []string{k + "@" + p}
		}
		return o
	}
	o.toks = []string{kind + "@" + p}
	return o
}

func isErr(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// frame expands f between two new nodes.
func (w *wbuild) frame(f *wframe, entry int) (exit int) {
	exit = w.g.node()
	if f.n > 12 {
		w.undec["expansion too deep at "+Short(f.fn)] = true
		w.g.edge(entry, exit, "", f.fn.Pos())
		return
	}
	first := map[*ssa.BasicBlock]int{}
	for _, b := range f.fn.Blocks {
		first[b] = w.g.node()
	}
	w.g.edge(entry, first[f.fn.Blocks[0]], "", f.fn.Pos())
	var defers []*ssa.Defer
	EachInstr(f.fn, func(in ssa.Instruction) {
		if d, ok := in.(*ssa.Defer); ok {
			defers = append(defers, d)
		}
	})
	for _, b := range f.fn.Blocks {
		cur := first[b]
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.RunDefers:
				for i := len(defers) - 1; i >= 0; i-- {
					n := w.call(defers[i], f, cur)
					if n != cur {
						w.g.edge(cur, n, "", x.Pos())
						cur = n
					}
				}
			case *ssa.Defer:
			case ssa.CallInstruction:
				cur = w.call(x, f, cur)
				if v, ok := in.(ssa.Value); ok && w.stream.v != nil && f.up == nil && cur >= 0 {
					made := w.stream.v == v
					if e, ok := w.stream.v.(*ssa.Extract); ok && e.Tuple == v {
						made = true
					}
					if made {
						w.ends = append(w.ends, cur)
						n := w.g.node()
						w.g.start = n
						cur = n
					}
				}
			case *ssa.If:
				w.branch(x, f, cur, first[b.Succs[0]], first[b.Succs[1]])
			case *ssa.Jump:
				w.g.edge(cur, first[b.Succs[0]], "", x.Pos())
			case *ssa.Return:
				ok := true
				if i := errorResult(f.fn.Signature); i >= 0 && len(x.Results) > i {
					ok = mayBeNil(x.Results[i], x)
				}
				if ok {
					w.g.edge(cur, exit, "", x.Pos())
				}
			}
			if cur < 0 {
				break
			}
		}
	}
	return
}

// mayBeNil: an error result that is not certainly an error.
func mayBeNil(v ssa.Value, at ssa.Instruction) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.MakeInterface:
			return false
		case *ssa.Const:
			return x.IsNil()
		case *ssa.UnOp:
			if _, ok := x.X.(*ssa.Global); ok {
				return false
			}
			if a, ok := x.X.(*ssa.Alloc); ok {
				var last ssa.Value
				for _, in := range x.Block().Instrs {
					if in == ssa.Instruction(x) {
						break
					}
					if st, ok := in.(*ssa.Store); ok && st.Addr == a {
						last = st.Val
					}
				}
				if last != nil {
					return walk(last)
				}
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				if walk(e) {
					return true
				}
			}
			return false
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil {
				n := g.String()
				if n == "errors.New" || n == "fmt.Errorf" || n == msgpPkg+".WrapError" {
					return false
				}
			}
		}
		return true
	}
	return walk(v)
}

// call expands a call; the result is the node after it, -1 if the path ends.
func (w *wbuild) call(ci ssa.CallInstruction, f *wframe, cur int) int {
	o := w.op(ci)
	if o.ok {
		if o.stream != nil && !w.mine(o.stream, f) {
			return cur
		}
		if o.prune {
			return w.g.node() // unreachable
		}
		for _, t := range o.toks {
			n := w.g.node()
			w.g.edge(cur, n, t, ci.Pos())
			cur = n
		}
		return cur
	}
	com := ci.Common()
	if com.IsInvoke() {
		return w.closures(com.Args, f, cur, ci)
	}
	g := com.StaticCallee()
	var mc *ssa.MakeClosure
	lex := f
	if g == nil || g.Parent() != nil {
		g2, m, l := w.closure(com.Value, f)
		if g2 != nil {
			g, mc, lex = g2, m, l
		}
	}
	if g != nil && w.has[g] && len(g.Blocks) > 0 {
		for p := f; p != nil; p = p.up {
			if p.fn == g {
				w.undec["recursion at "+Short(g)] = true
				return cur
			}
		}
		nf := &wframe{fn: g, args: map[ssa.Value]ssa.Value{}, up: f, lex: lex, mc: mc, n: f.n + 1}
		for i, p := range g.Params {
			if i < len(com.Args) {
				nf.args[p] = com.Args[i]
			}
		}
		return w.frame(nf, cur)
	}
	return w.closures(com.Args, f, cur, ci)
}

// closures passed to a function that is not expanded run any number of times.
func (w *wbuild) closures(args []ssa.Value, f *wframe, cur int, ci ssa.CallInstruction) int {
	for _, a := range args {
		g, mc, lex := w.closure(a, f)
		if g == nil || !w.has[g] || len(g.Blocks) == 0 {
			continue
		}
		n := w.g.node()
		w.g.edge(cur, n, "", ci.Pos())
		nf := &wframe{fn: g, args: map[ssa.Value]ssa.Value{}, up: f, lex: lex, mc: mc, n: f.n + 1}
		e := w.frame(nf, n)
		w.g.edge(e, n, "", ci.Pos())
		out := w.g.node()
		w.g.edge(n, out, "", ci.Pos())
		cur = out
	}
	return cur
}

// closure resolves a function value.
func (w *wbuild) closure(v ssa.Value, f *wframe) (*ssa.Function, *ssa.MakeClosure, *wframe) {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.MakeClosure:
			return x.Fn.(*ssa.Function), x, f
		case *ssa.Function:
			return x, nil, f
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil, nil, nil
			}
			v = x.X
		case *ssa.Alloc:
			var s ssa.Value
			for _, r := range *x.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == x {
					if s != nil {
						return nil, nil, nil
					}
					s = st.Val
				}
			}
			if s == nil {
				return nil, nil, nil
			}
			v = s
		case *ssa.Parameter:
			a, ok := f.args[x]
			if !ok || f.up == nil {
				return nil, nil, nil
			}
			v, f = a, f.up
		case *ssa.FreeVar:
			if f.mc == nil || f.lex == nil {
				return nil, nil, nil
			}
			found := false
			for i, fv := range f.fn.FreeVars {
				if fv == x {
					v, f, found = f.mc.Bindings[i], f.lex, true
					break
				}
			}
			if !found {
				return nil, nil, nil
			}
		default:
			return nil, nil, nil
		}
	}
	return nil, nil, nil
}

// versionOf: v is the version a reader found; the stream it was read from.
func versionOf(v ssa.Value) (ssa.Value, bool) {
	switch x := v.(type) {
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && g.Name() == "GetVersion" && g.Signature.Recv() != nil && isMsgpStream(g.Signature.Recv().Type()) {
			return x.Call.Args[0], true
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok && x.Index == 1 {
			if g := c.Call.StaticCallee(); g != nil && g.Name() == "MsgpGetVersion" {
				return c.Call.Args[0], true
			}
		}
	case *ssa.Convert:
		return versionOf(x.X)
	case *ssa.ChangeType:
		return versionOf(x.X)
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == a {
					if s, ok := versionOf(st.Val); ok {
						return s, true
					}
				}
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if s, ok := versionOf(e); ok {
				return s, true
			}
		}
	}
	return nil, false
}

func peekOf(v ssa.Value) (ssa.Value, bool) {
	switch x := v.(type) {
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok && x.Index == 0 {
			if g := c.Call.StaticCallee(); g != nil && g.Name() == "NextType" && g.Signature.Recv() != nil {
				return c.Call.Args[0], true
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if s, ok := peekOf(e); ok {
				return s, true
			}
		}
	}
	return nil, false
}

func (w *wbuild) branch(x *ssa.If, f *wframe, cur, yes, no int) {
	cond := x.Cond
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond = u.X
		yes, no = no, yes
	}
	type te struct {
		tok   string
		prune bool
	}
	var ye, ne te
	if b, ok := cond.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
		var eq te
		neq := te{}
		l, r := b.X, b.Y
		if _, ok := l.(*ssa.Const); ok {
			l, r = r, l
		}
		k, isConst := r.(*ssa.Const)
		switch {
		case isErr(l.Type()) && isConst && k.IsNil():
			neq.prune = true
		case isConst:
			if s, ok := versionOf(l); ok && w.mine(s, f) {
				eq.tok = fmt.Sprintf("ver:%d", k.Uint64())
			} else if s, ok := peekOf(l); ok && w.mine(s, f) {
				eq.tok = w.peekTok(k)
			} else if c, ok := l.(*ssa.Call); ok && c.Call.StaticCallee() != nil && c.Call.StaticCallee().Name() == "UnsafeString" && k.Value != nil {
				eq.tok = "key:" + constant.StringVal(k.Value)
			} else if e, ok := l.(*ssa.Extract); ok && w.all {
				if c, ok := e.Tuple.(*ssa.Call); ok && c.Call.StaticCallee() != nil && strings.HasPrefix(c.Call.StaticCallee().Name(), "ReadArrayHeader") {
					neq.prune = true
				}
			}
		}
		if b.Op == token.EQL {
			ye, ne = eq, neq
		} else {
			ye, ne = neq, eq
		}
	}
	if e, ok := cond.(*ssa.Extract); ok && e.Index == 0 && !w.all {
		if c, ok := e.Tuple.(*ssa.Call); ok {
			if g := c.Call.StaticCallee(); g != nil && strings.HasPrefix(g.Name(), "ReadBool") && g.Pkg != nil && g.Pkg.Pkg.Path() == msgpPkg && w.mine(c.Call.Args[0], f) {
				ye.tok, ne.tok = "Bool:true", "Bool:false"
			}
		}
	}
	if !ye.prune {
		w.g.edge(cur, yes, ye.tok, x.Cond.Pos())
	}
	if !ne.prune {
		w.g.edge(cur, no, ne.tok, x.Cond.Pos())
	}
}

func (w *wbuild) peekTok(k *ssa.Const) string {
	for _, p := range w.c.P.SSA.AllPackages() {
		if p.Pkg.Path() != msgpPkg {
			continue
		}
		for _, n := range p.Pkg.Scope().Names() {
			if c, ok := p.Pkg.Scope().Lookup(n).(*types.Const); ok && types.Identical(c.Type(), k.Type()) && constant.Compare(c.Val(), token.EQL, k.Value) {
				n = strings.TrimSuffix(n, "Type")
				if n == "Bool" {
					return "Bool:?"
				}
				return n + "@?"
			}
		}
	}
	return "?"
}

// closure over empty steps.
func (n *wnfa) eps(set map[int]bool) map[int]bool {
	var st []int
	for s := range set {
		st = append(st, s)
	}
	for len(st) > 0 {
		s := st[len(st)-1]
		st = st[:len(st)-1]
		for _, e := range n.edges[s] {
			if e.tok == "" && !set[e.to] {
				set[e.to] = true
				st = append(st, e.to)
			}
		}
	}
	return set
}

func tokMatch(a, b string) bool {
	if a == b {
		return true
	}
	cut := func(s string) (string, string) {
		if i := strings.IndexAny(s, "@:"); i >= 0 && !strings.HasPrefix(s, "T:") && !strings.HasPrefix(s, "key:") {
			return s[:i], s[i+1:]
		}
		if strings.HasPrefix(s, "T:") {
			if i := strings.IndexByte(s, '@'); i >= 0 {
				return s[:i], s[i+1:]
			}
		}
		return s, ""
	}
	ka, pa := cut(a)
	kb, pb := cut(b)
	return ka == kb && (pa == "?" || pb == "?" || pa == "*" || pb == "*")
}

func setKey(m map[int]bool) string {
	var l []int
	for k := range m {
		l = append(l, k)
	}
	sort.Ints(l)
	return fmt.Sprint(l)
}

type wdiff struct {
	word []string
	tok  string
	pos  token.Pos
}

// included: every word of a is one of b. With keys, words end before the next key.
func included(a *wnfa, as map[int]bool, b *wnfa, bs map[int]bool, keys, needEnd bool) (*wdiff, bool) {
	type item struct {
		a, b map[int]bool
		word []string
	}
	isKey := func(t string) bool { return keys && strings.HasPrefix(t, "key:") }
	end := func(n *wnfa, s map[int]bool) bool {
		for x := range s {
			if n.accept[x] {
				return true
			}
			if keys {
				for _, e := range n.edges[x] {
					if isKey(e.tok) {
						return true
					}
				}
			}
		}
		return false
	}
	q := []item{{a.eps(as), b.eps(bs), nil}}
	seen := map[string]bool{setKey(q[0].a) + setKey(q[0].b): true}
	ended := false
	for len(q) > 0 {
		it := q[0]
		q = q[1:]
		if end(a, it.a) {
			if end(b, it.b) {
				ended = true
			} else if needEnd {
				return &wdiff{word: it.word, tok: "end"}, false
			}
		}
		byTok := map[string]map[int]bool{}
		pos := map[string]token.Pos{}
		for s := range it.a {
			for _, e := range a.edges[s] {
				if e.tok == "" || isKey(e.tok) {
					continue
				}
				if byTok[e.tok] == nil {
					byTok[e.tok] = map[int]bool{}
				}
				byTok[e.tok][e.to] = true
				pos[e.tok] = e.pos
			}
		}
		var toks []string
		for t := range byTok {
			toks = append(toks, t)
		}
		sort.Strings(toks)
		for _, t := range toks {
			nb := map[int]bool{}
			for s := range it.b {
				for _, e := range b.edges[s] {
					if e.tok != "" && !isKey(e.tok) && tokMatch(t, e.tok) {
						nb[e.to] = true
					}
				}
			}
			if len(nb) == 0 {
				return &wdiff{word: it.word, tok: t, pos: pos[t]}, false
			}
			ni := item{a.eps(byTok[t]), b.eps(nb), append(append([]string{}, it.word...), t)}
			k := setKey(ni.a) + setKey(ni.b)
			if !seen[k] {
				seen[k] = true
				q = append(q, ni)
			}
		}
	}
	if !ended {
		return &wdiff{tok: "no common end"}, false
	}
	return nil, true
}

// canonical form: minimal deterministic automaton, numbered breadth first.
func (n *wnfa) canonical() string {
	type dstate struct {
		set map[int]bool
		tr  map[string]int
		acc bool
	}
	var ds []*dstate
	ids := map[string]int{}
	add := func(s map[int]bool) int {
		s = n.eps(s)
		k := setKey(s)
		if i, ok := ids[k]; ok {
			return i
		}
		d := &dstate{set: s, tr: map[string]int{}}
		for x := range s {
			d.acc = d.acc || n.accept[x]
		}
		ids[k] = len(ds)
		ds = append(ds, d)
		return len(ds) - 1
	}
	add(map[int]bool{n.start: true})
	for i := 0; i < len(ds); i++ {
		by := map[string]map[int]bool{}
		for s := range ds[i].set {
			for _, e := range n.edges[s] {
				if e.tok != "" {
					if by[e.tok] == nil {
						by[e.tok] = map[int]bool{}
					}
					by[e.tok][e.to] = true
				}
			}
		}
		for t, s := range by {
			ds[i].tr[t] = add(s)
		}
	}
	// states from which nothing is accepted do not count
	live := make([]bool, len(ds))
	for ch := true; ch; {
		ch = false
		for i, d := range ds {
			if live[i] {
				continue
			}
			l := d.acc
			for _, t := range d.tr {
				l = l || live[t]
			}
			if l {
				live[i] = true
				ch = true
			}
		}
	}
	cls := make([]int, len(ds))
	for i, d := range ds {
		if d.acc {
			cls[i] = 1
		}
	}
	for {
		sig := map[string]int{}
		nc := make([]int, len(ds))
		for i, d := range ds {
			var l []string
			for t, j := range d.tr {
				if live[j] {
					l = append(l, fmt.Sprintf("%s>%d", t, cls[j]))
				}
			}
			sort.Strings(l)
			k := fmt.Sprint(cls[i], l)
			if _, ok := sig[k]; !ok {
				sig[k] = len(sig)
			}
			nc[i] = sig[k]
		}
		same := true
		m := map[int]int{}
		for i := range nc {
			if v, ok := m[cls[i]]; ok && v != nc[i] {
				same = false
			}
			m[cls[i]] = nc[i]
		}
		cls = nc
		if same {
			break
		}
	}
	rep := map[int]int{}
	for i := range ds {
		if _, ok := rep[cls[i]]; !ok {
			rep[cls[i]] = i
		}
	}
	num := map[int]int{cls[0]: 0}
	order := []int{cls[0]}
	var out []string
	for i := 0; i < len(order); i++ {
		d := ds[rep[order[i]]]
		var ts []string
		for t, j := range d.tr {
			if live[j] {
				ts = append(ts, t)
			}
		}
		sort.Strings(ts)
		l := []string{}
		for _, t := range ts {
			c := cls[d.tr[t]]
			if _, ok := num[c]; !ok {
				num[c] = len(order)
				order = append(order, c)
			}
			l = append(l, fmt.Sprintf("%s>%d", t, num[c]))
		}
		a := ""
		if d.acc {
			a = "!"
		}
		out = append(out, fmt.Sprintf("%d%s[%s]", i, a, strings.Join(l, " ")))
	}
	return strings.Join(out, "; ")
}

func (n *wnfa) toks() map[string]bool {
	m := map[string]bool{}
	reach := map[int]bool{n.start: true}
	st := []int{n.start}
	for len(st) > 0 {
		s := st[len(st)-1]
		st = st[:len(st)-1]
		for _, e := range n.edges[s] {
			if e.tok != "" {
				m[e.tok] = true
			}
			if !reach[e.to] {
				reach[e.to] = true
				st = append(st, e.to)
			}
		}
	}
	return m
}
