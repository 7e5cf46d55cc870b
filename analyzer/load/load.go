// Package load type-checks the repository under analysis and builds SSA for it.
package load

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// ModPath is the module under analysis.
const ModPath = "github.com/Vivino/rankdb"

// Program is the loaded repository.
type Program struct {
	Dir   string
	Fset  *token.FileSet
	Pkgs  []*packages.Package // repository packages, sorted by path
	ByID  map[string]*packages.Package
	SSA   *ssa.Program
	SPkg  map[string]*ssa.Package
	Funcs []*ssa.Function // all source functions of repository packages (incl. anonymous), sorted
	Files int
}

func copyFile(src, dst string) error {
	in, err := os.Open(src)
	if err != nil {
		return err
	}
	defer in.Close()
	out, err := os.Create(dst)
	if err != nil {
		return err
	}
	if _, err := io.Copy(out, in); err != nil {
		out.Close()
		return err
	}
	return out.Close()
}

// Load loads dir/... with the build's own module settings, on a private copy of go.mod/go.sum,
// so nothing below dir or /opt/vp is written.
func Load(dir string) (*Program, error) {
	tmp, err := os.MkdirTemp("", "vsa-mod-")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	if err := copyFile(filepath.Join(dir, "go.mod"), filepath.Join(tmp, "rankdb.mod")); err != nil {
		return nil, err
	}
	if err := copyFile(filepath.Join(dir, "go.sum"), filepath.Join(tmp, "rankdb.sum")); err != nil {
		return nil, err
	}
	goroot := "/opt/veriftools/go1.26.10"
	env := []string{}
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "GO") || strings.HasPrefix(kv, "CGO_") || strings.HasPrefix(kv, "PATH=") {
			continue
		}
		env = append(env, kv)
	}
	env = append(env,
		"PATH="+goroot+"/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod",
		"GOFLAGS=-mod=mod -modfile="+filepath.Join(tmp, "rankdb.mod"),
		"CGO_ENABLED=0",
	)
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	fset := token.NewFileSet()
	absdir, err := filepath.Abs(dir)
	if err != nil {
		return nil, err
	}
	nfiles := 0
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  absdir,
		Env:  env,
		Fset: fset,
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			inRepo := strings.HasPrefix(filename, absdir+string(filepath.Separator))
			mode := parser.SkipObjectResolution
			if inRepo {
				mode |= parser.ParseComments
			}
			f, err := parser.ParseFile(fset, filename, src, mode)
			if f != nil && !inRepo {
				// Dependencies: keep declarations, drop bodies.
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						fd.Body = nil
					}
				}
			}
			return f, err
		},
	}
	roots, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{Dir: absdir, Fset: fset, ByID: map[string]*packages.Package{}, SPkg: map[string]*ssa.Package{}}
	var errs []string
	for _, r := range roots {
		if !strings.HasPrefix(r.PkgPath, ModPath) {
			continue
		}
		for _, e := range r.Errors {
			errs = append(errs, e.Error())
		}
		nfiles += len(r.CompiledGoFiles)
		p.Pkgs = append(p.Pkgs, r)
		p.ByID[r.PkgPath] = r
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors in repository: %s", strings.Join(errs, "; "))
	}
	if len(p.Pkgs) == 0 {
		return nil, fmt.Errorf("no packages loaded from %s", dir)
	}
	p.Files = nfiles
	sort.Slice(p.Pkgs, func(i, j int) bool { return p.Pkgs[i].PkgPath < p.Pkgs[j].PkgPath })
	// Dependencies had their bodies dropped, which makes go/packages mark everything above them
	// ill-typed ("imported and not used"); the repository's own errors were rejected above.
	packages.Visit(roots, nil, func(pk *packages.Package) { pk.IllTyped = false })
	prog, spkgs := ssautil.Packages(roots, ssa.InstantiateGenerics)
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", roots[i].PkgPath)
		}
		sp.Build()
		p.SPkg[roots[i].PkgPath] = sp
	}
	p.SSA = prog
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		p.Funcs = append(p.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range p.SPkg {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return p, nil
}

// Pos formats a position relative to the repository.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Dir, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}
