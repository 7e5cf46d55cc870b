package checks

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/load"
)

//go:embed wire.json
var wireJSON []byte

// wireFormat is the recorded format of stored data: grammar by type, and by stream.
type wireFormat struct {
	Types   map[string]string
	Streams map[string]string // "versions|types" -> grammar
}

func (c *Ctx) codecNFA(f *ssa.Function, undec map[string]bool) *wnfa {
	w := &wbuild{c: c, g: &wnfa{accept: map[int]bool{}}, all: true, has: map[*ssa.Function]bool{}, undec: undec}
	for _, a := range f.AnonFuncs {
		w.has[a] = true
	}
	s := w.g.node()
	w.g.start = s
	x := w.frame(&wframe{fn: f, args: map[ssa.Value]ssa.Value{}}, s)
	w.g.accept[x] = true
	return w.g
}

// wireOps: functions with stream operations in or below them.
func (c *Ctx) wireOps() map[*ssa.Function]bool {
	has := map[*ssa.Function]bool{}
	skip := func(f *ssa.Function) bool {
		return isCodec(TopFn(f)) || f.Signature.Recv() != nil && (namedIs(f.Signature.Recv().Type(), load.ModPath, "WriterMsgp") || namedIs(f.Signature.Recv().Type(), load.ModPath, "ReaderMsgp")) || f.Name() == "MsgpGetVersion"
	}
	w := &wbuild{c: c, undec: map[string]bool{}}
	for _, f := range c.P.Funcs {
		if skip(f) || !strings.HasPrefix(PkgPath(f), load.ModPath) {
			continue
		}
		EachInstr(f, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if w.op(ci).ok {
					has[f] = true
				}
				if g := ci.Common().StaticCallee(); g != nil && (g.Name() == "GetVersion" || g.Name() == "MsgpGetVersion") && !skip(f) {
					has[f] = true
				}
			}
		})
	}
	for ch := true; ch; {
		ch = false
		for _, f := range c.P.Funcs {
			if has[f] || skip(f) || !strings.HasPrefix(PkgPath(f), load.ModPath) {
				continue
			}
			for _, a := range f.AnonFuncs {
				if has[a] {
					has[f] = true
				}
			}
			EachInstr(f, func(in ssa.Instruction) {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && has[g] {
						has[f] = true
					}
				}
			})
			if has[f] {
				ch = true
			}
		}
	}
	return has
}

type wireStream struct {
	fn      *ssa.Function
	v       ssa.Value
	write   bool
	g       *wnfa
	name    string
	pos     token.Pos
	noError bool // cut short without an error result
}

// streams finds every place a stream is made or taken as a parameter and extracts what goes through it.
func (c *Ctx) streams(undec map[string]bool) []wireStream {
	has := c.wireOps()
	var out []wireStream
	called := c.calledInPkg()
	type site struct {
		f *ssa.Function
		v ssa.Value
	}
	var sites []site
	seen := map[ssa.Value]bool{}
	add := func(f *ssa.Function, v ssa.Value) {
		if !seen[v] {
			seen[v] = true
			sites = append(sites, site{f, v})
		}
	}
	probe := &wbuild{c: c, undec: map[string]bool{}}
	for _, f := range c.P.Funcs {
		if !has[f] {
			continue
		}
		if f.Parent() == nil && (Exported(f) && !called[f] || len(c.callers[f]) == 0) {
			for _, p := range f.Params {
				if isMsgpStream(p.Type()) {
					add(f, p)
				}
			}
		}
		EachInstr(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			if v, ok := in.(ssa.Value); ok && isMsgpStream(v.Type()) {
				if g := ci.Common().StaticCallee(); g == nil || !(g.Name() == "Writer" || g.Name() == "Reader") || g.Signature.Recv() == nil {
					add(f, v)
				}
			}
			g := ci.Common().StaticCallee()
			if g == nil {
				return
			}
			var arg ssa.Value
			if g.Name() == "MsgpGetVersion" {
				arg = ci.Common().Args[0]
			} else if isCodec(g) && g.Name() == "UnmarshalMsg" {
				arg = ci.Common().Args[1]
			}
			if arg == nil {
				return
			}
			for _, s := range probe.roots(arg, &wframe{fn: f, args: map[ssa.Value]ssa.Value{}}) {
				add(f, s.v)
			}
		})
	}
	for _, s := range sites {
		w := &wbuild{c: c, g: &wnfa{accept: map[int]bool{}}, stream: wstream{s.v}, has: has, undec: undec}
		st := w.g.node()
		w.g.start = st
		x := w.frame(&wframe{fn: s.f, args: map[ssa.Value]ssa.Value{}}, st)
		w.g.accept[x] = true
		for _, e := range w.ends {
			w.g.accept[e] = true
		}
		tk := w.g.toks()
		if len(tk) == 0 {
			continue
		}
		ws := wireStream{fn: s.f, v: s.v, g: w.g, pos: s.v.Pos(), noError: errorResult(s.f.Signature) < 0}
		t := s.v.Type()
		if e, ok := s.v.(*ssa.Extract); ok {
			t = e.Type()
		}
		ws.write = namedIs(t, load.ModPath, "WriterMsgp") || namedIs(t, msgpPkg, "Writer")
		ws.name = Short(s.f)
		out = append(out, ws)
	}
	return out
}

func words(d *wdiff) string {
	p := "nothing"
	if len(d.word) > 0 {
		l := d.word
		if len(l) > 4 {
			l = l[len(l)-4:]
		}
		p = "…" + strings.Join(l, " ")
	}
	return fmt.Sprintf("after %s comes %s", p, d.tok)
}

func streamKey(g *wnfa) string {
	var v, t []string
	for k := range g.toks() {
		if strings.HasPrefix(k, "ver:") {
			v = append(v, k[4:])
		} else if strings.HasPrefix(k, "T:") {
			t = append(t, strings.Split(k[2:], "@")[0])
		}
	}
	sort.Strings(v)
	sort.Strings(t)
	return strings.Join(v, ",") + "|" + strings.Join(t, ",")
}

func one(n int) map[int]bool { return map[int]bool{n: true} }

func keyStarts(g *wnfa) map[string]map[int]bool {
	m := map[string]map[int]bool{}
	for _, es := range g.edges {
		for _, e := range es {
			if strings.HasPrefix(e.tok, "key:") {
				if m[e.tok[4:]] == nil {
					m[e.tok[4:]] = map[int]bool{}
				}
				m[e.tok[4:]][e.to] = true
			}
		}
	}
	return m
}

func init() {
	register("C07", "wire-grammar extraction over go/ssa with automata inclusion between writer and reader", func(c *Ctx) *Result {
		r := NewResult()
		r.Explanation = "For every encoder, decoder, and function that writes or reads a msgp stream the sequences of stream operations on its error-free control flow are extracted as a finite automaton, with helpers, closures and deferred calls expanded; tokens carry the wire type, the field they are read from or stored to, literal header bytes and version numbers. Encoders and decoders of a type must have the same language field by field, every exported field must be part of it, what every writer of a stream can produce must be accepted by a reader, including an equality comparison with the version written, and the grammar of stored data must equal the one recorded for the version number it carries."
		r.Rules = []string{"codec-mismatch: encoder, marshaler, decoder or unmarshaler of a type differ", "field-not-stored", "stream-mismatch: nothing reads what a writer writes", "format-changed-without-version", "version-number: not readable as a version"}
		r.Assumptions = []string{"the msgp library reads what it writes", "stream operations that fail return an error, which ends the operation (C05)"}
		undec := map[string]bool{}
		by := map[string]map[string]*ssa.Function{}
		for _, f := range c.P.Funcs {
			if f.Parent() != nil || f.Synthetic != "" || !isCodec(f) || len(f.Blocks) == 0 {
				continue
			}
			n := recvName(f)
			if by[n] == nil {
				by[n] = map[string]*ssa.Function{}
			}
			by[n][f.Name()] = f
		}
		var names []string
		for n := range by {
			names = append(names, n)
		}
		sort.Strings(names)
		cur := wireFormat{Types: map[string]string{}, Streams: map[string]string{}}
		for _, n := range names {
			m := by[n]
			r.Inc("codec_types", 1)
			g := map[string]*wnfa{}
			for k, f := range m {
				g[k] = c.codecNFA(f, undec)
				r.Inc("codecs_analysed", 1)
				r.Inc("wire_tokens", len(g[k].toks()))
			}
			cmp := func(a, b string, both bool) {
				if g[a] == nil || g[b] == nil {
					if g[a] != nil || g[b] != nil {
						r.Add(Finding{Rule: "codec-mismatch", Key: "codec-missing|" + n + "|" + a + "|" + b, Pos: "-", Msg: fmt.Sprintf("%s has only one of %s and %s", n, a, b)})
					}
					return
				}
				ka, kb := keyStarts(g[a]), keyStarts(g[b])
				r.Inc("codec_pairs_compared", 1)
				report := func(x, y string, d *wdiff, at string) {
					p := d.pos
					if !p.IsValid() {
						p = m[x].Pos()
					}
					r.Add(Finding{Rule: "codec-mismatch", Key: "codec-mismatch|" + n + "|" + x + "|" + y + at, Pos: c.Pos(p), Msg: fmt.Sprintf("(%s).%s and %s do not agree%s: %s in %s only", n, x, y, at, words(d), x)})
				}
				if len(ka) > 0 && !both {
					var ks []string
					for k := range ka {
						ks = append(ks, k)
					}
					sort.Strings(ks)
					for _, k := range ks {
						if kb[k] == nil {
							r.Add(Finding{Rule: "codec-mismatch", Key: "codec-mismatch|" + n + "|" + a + "|" + b + "|" + k, Pos: c.Pos(m[b].Pos()), Msg: fmt.Sprintf("(%s).%s writes the field %s, %s does not read it", n, a, k, b)})
							continue
						}
						if d, ok := included(g[a], ka[k], g[b], kb[k], true, true); !ok {
							report(a, b, d, " in field "+k)
						}
					}
					hdr := false
					for t := range g[a].toks() {
						if strings.HasPrefix(t, "map:") {
							hdr = true
							if t != fmt.Sprintf("map:%d", len(ks)) {
								r.Add(Finding{Rule: "codec-mismatch", Key: "codec-header|" + n + "|" + a, Pos: c.Pos(m[a].Pos()), Msg: fmt.Sprintf("(%s).%s announces %s fields and writes %d", n, a, t[4:], len(ks))})
							}
						}
					}
					if !hdr {
						undec[n+": no map header"] = true
					}
					return
				}
				if d, ok := included(g[a], one(g[a].start), g[b], one(g[b].start), false, true); !ok {
					report(a, b, d, "")
				}
				if both {
					if d, ok := included(g[b], one(g[b].start), g[a], one(g[a].start), false, true); !ok {
						report(b, a, d, "")
					}
				}
			}
			cmp("EncodeMsg", "MarshalMsg", true)
			cmp("DecodeMsg", "UnmarshalMsg", true)
			cmp("EncodeMsg", "DecodeMsg", false)
			if e := g["EncodeMsg"]; e != nil {
				cur.Types[n] = e.canonical()
				r.Sample(n + ": " + cur.Types[n])
				// A fixed array holds as many values as announced.
				c.arity(r, n, m["EncodeMsg"], e)
				// every exported field is stored
				var tn types.Object
				if p := c.P.SPkg[load.ModPath]; p != nil {
					tn = p.Pkg.Scope().Lookup(n)
				}
				if tn != nil {
					if st, ok := tn.Type().Underlying().(*types.Struct); ok {
						tk := e.toks()
						for i := 0; i < st.NumFields(); i++ {
							fl := st.Field(i)
							if !fl.Exported() || reflect.StructTag(st.Tag(i)).Get("msg") == "-" {
								continue
							}
							r.Inc("fields_checked", 1)
							found := false
							for t := range tk {
								if j := strings.IndexByte(t, '@'); j >= 0 && (t[j+1:] == "."+fl.Name() || strings.HasPrefix(t[j+1:], "."+fl.Name()+"[") || strings.HasPrefix(t[j+1:], "."+fl.Name()+".") || strings.HasPrefix(t[j+1:], "."+fl.Name()+"{")) {
									found = true
								}
							}
							if !found {
								r.Add(Finding{Rule: "field-not-stored", Key: "field-not-stored|" + n + "." + fl.Name(), Pos: c.Pos(m["EncodeMsg"].Pos()), Msg: fmt.Sprintf("(%s).EncodeMsg does not store the field %s", n, fl.Name())})
							}
						}
					}
				}
			}
		}
		ss := c.streams(undec)
		written := 0
		for _, a := range ss {
			if os.Getenv("VSA_WIRE") != "" {
				fmt.Println("stream", a.name, "write", a.write, c.Pos(a.pos), a.g.canonical())
			}
			for t := range a.g.toks() {
				if strings.HasPrefix(t, "ver:") {
					r.Inc("versions_checked", 1)
					n := 0
					if _, err := fmt.Sscanf(t, "ver:%d", &n); err != nil || n < 1 || n > 127 {
						if t == "ver:?" {
							undec[a.name+": version is not constant"] = true
						} else {
							r.Add(Finding{Rule: "version-number", Key: "version-number|" + a.name + "|" + t, Pos: c.Pos(a.pos), Msg: fmt.Sprintf("%s writes or expects %s, which is not read back as a version", a.name, t)})
						}
					}
				}
			}
			if !a.write {
				continue
			}
			written++
			r.Inc("writer_streams", 1)
			r.Sample("stream of " + a.name + ": " + a.g.canonical())
			cur.Streams[streamKey(a.g)] = a.g.canonical()
			var best *wdiff
			bestIn := ""
			ok := false
			for _, b := range ss {
				if b.write {
					continue
				}
				d, in := included(a.g, one(a.g.start), b.g, one(b.g.start), false, !a.noError)
				if in {
					ok = true
					r.Inc("streams_matched", 1)
					break
				}
				if best == nil || len(d.word) > len(best.word) {
					best, bestIn = d, b.name
				}
			}
			if !ok {
				p := a.pos
				msg := "nothing reads it"
				if best != nil {
					msg = fmt.Sprintf("closest is %s: %s, which it does not read there", bestIn, words(best))
					if best.pos.IsValid() {
						p = best.pos
					}
				}
				r.Add(Finding{Rule: "stream-mismatch", Key: "stream-mismatch|" + a.name, Pos: c.Pos(p), Msg: fmt.Sprintf("what %s writes cannot be read back: %s", a.name, msg)})
			}
		}
		for _, b := range ss {
			if !b.write {
				r.Inc("reader_streams", 1)
			}
		}
		// The recorded format.
		var gold wireFormat
		if err := json.Unmarshal(wireJSON, &gold); err != nil {
			r.Note("wire.json: " + err.Error())
		}
		if f := os.Getenv("VSA_WIRE_OUT"); f != "" {
			b, _ := json.MarshalIndent(cur, "", " ")
			os.WriteFile(f, append(b, '\n'), 0o644)
		}
		uses := func(f wireFormat, s string) map[string]bool {
			m := map[string]bool{}
			var walk func(s string)
			walk = func(s string) {
				for _, p := range strings.FieldsFunc(s, func(r rune) bool { return r == ' ' || r == '[' || r == ';' }) {
					if strings.HasPrefix(p, "T:") {
						n := strings.FieldsFunc(p[2:], func(r rune) bool { return r == '@' || r == '>' })[0]
						if !m[n] {
							m[n] = true
							walk(f.Types[n])
						}
					}
				}
			}
			walk(s)
			return m
		}
		vers := func(k string) string { return strings.Split(k, "|")[0] }
		for k, s := range gold.Streams {
			now, ok := cur.Streams[k]
			if !ok {
				for k2 := range cur.Streams {
					if vers(k2) == vers(k) && gold.Streams[k2] == "" {
						r.Add(Finding{Rule: "format-changed-without-version", Key: "format|" + k, Pos: "-", Msg: fmt.Sprintf("a stream that carries the versions %s held %s, now it holds %s", vers(k), k, k2)})
					}
				}
				continue
			}
			r.Inc("formats_compared", 1)
			if now != s {
				r.Add(Finding{Rule: "format-changed-without-version", Key: "format|" + k, Pos: "-", Msg: fmt.Sprintf("the layout of the stream %s changed but it still carries the versions %s; was %s, is %s", k, vers(k), s, now)})
			}
			for t := range uses(gold, s) {
				if cur.Types[t] != gold.Types[t] {
					r.Add(Finding{Rule: "format-changed-without-version", Key: "format-type|" + t, Pos: "-", Msg: fmt.Sprintf("the encoding of %s changed but %s still carries the versions %s; was %s, is %s", t, k, vers(k), gold.Types[t], cur.Types[t])})
				}
			}
		}
		for u := range undec {
			r.Note("undecided: " + u)
		}
		r.Floors["codec_types"] = 12
		r.Floors["codec_pairs_compared"] = 36
		r.Floors["fields_checked"] = 20
		r.Floors["writer_streams"] = 5
		r.Floors["reader_streams"] = 5
		r.Floors["streams_matched"] = 5
		r.Floors["versions_checked"] = 10
		r.Floors["formats_compared"] = 4
		return r
	})
}

// arity: a literal array header is followed by as many values.
func (c *Ctx) arity(r *Result, n string, f *ssa.Function, g *wnfa) {
	hdr := 0
	for t := range g.toks() {
		if strings.HasPrefix(t, "arr:") {
			fmt.Sscanf(t, "arr:%d", &hdr)
		}
	}
	if hdr == 0 {
		return
	}
	r.Inc("headers_checked", 1)
	got := map[string]bool{}
	for t := range g.toks() {
		if strings.HasPrefix(t, "arr:") {
			continue
		}
		if i := strings.IndexByte(t, '@'); i >= 0 {
			p := t[i+1:]
			for _, cut := range []string{"[", "{"} {
				if j := strings.Index(p, cut); j >= 0 {
					p = p[:j]
				}
			}
			got[p] = true
		}
	}
	if len(got) != hdr {
		r.Add(Finding{Rule: "codec-mismatch", Key: "codec-arity|" + n, Pos: c.Pos(f.Pos()), Msg: fmt.Sprintf("(%s).EncodeMsg announces %d values and writes %d", n, hdr, len(got))})
	}
}
