package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/vorlif/spreak"

// prelude declares the specification intrinsics in every package under contract.
const prelude = `package %s

func vRequires(c bool) {}
func vAssume(c bool)   {}
func vNote(s string)   {}
func vEnsures(name string, c bool) {}
func vAssert(name string, c bool)  {}
func vCover(name string)           {}
func vInv(name string, c bool)     {}
func vDecreases(n int)             {}
func vImp(a, b bool) bool          { return !a || b }
func vForall(f any) bool           { return true }
func vExists(f any) bool           { return true }
func vOld(f func() bool) bool      { return true }
func vCForm(header string, n int64) int64 { return 0 }
func vCNPlurals(header string) int { return 0 }
func vPre(f func() bool) bool      { return true }
func vUnchanged() bool             { return true }
func vModifies(locs ...any)        {}
func vBefore[T any](f func() T) T  { return f() }
func vEntry[T any](f func() T) T   { return f() }
func vOnlyModified() bool          { return true }
func vInFrame(s any) bool          { return true }
func vEventCount() int             { return 0 }
func vEventArg(i int) error        { return nil }
func vEventName(i int) string      { return "" }
func vVisited(m, k any) bool       { return true }
func vFresh(r any) bool            { return true }
func vMapDomEq(a, b any) bool      { return true }
func vSameMap(a, b any) bool       { return true }
func vModifiesReaders()          {}
func vReaderData(r any) string   { return "" }
func vReaderPos(r any) int       { return 0 }
func vReaderFailed() bool        { return false }
func vBytesAt(r any, p, n int) string { return "" }
func vUintAt(r any, p int, big bool, bits int) int { return 0 }
func vUsing() bool                 { return false }
func vMatch(s, re string) bool { return false }
func vCLDR(rule string, n float64, i, v, w, f, t, c int64) bool { return false }
func vIsInt(f float64) bool        { return false }
`

// Program is the loaded repository with the contracts.
type Program struct {
	repo      string
	w         *World
	drivers   []*Driver
	specs     map[string][]*LoopSpec
	modular   map[string]*Driver
	ghosts    map[*ssa.Function]bool
	recFns    map[*ssa.Function]bool
	recGround map[*ssa.Function]bool
	stale     []Stale // contracts that no longer type-check against the code
	covLn     int
	ctrDirs   []string
	loadS     float64
}

type Stale struct {
	Name  string
	Props []string
	Err   string
}

type ghostDecl struct {
	file string
	name string
	pos  int
	end  int
	doc  []string
}

func directives(doc *ast.CommentGroup) []string {
	var out []string
	if doc == nil {
		return nil
	}
	for _, c := range doc.List {
		if s, ok := strings.CutPrefix(c.Text, "//verif:"); ok {
			out = append(out, strings.ReplaceAll(strings.TrimSpace(s), "@/", modPath+"/"))
		}
	}
	return out
}

// fixAt expands "(*@.T)" / "@.f" to the root package.
func fixAt(s string) string { return strings.ReplaceAll(s, "@.", modPath+".") }

func LoadProgram(repo, contracts string, only map[string]bool) (*Program, error) {
	t0 := time.Now()
	p := &Program{repo: repo, specs: map[string][]*LoopSpec{}, modular: map[string]*Driver{}, ghosts: map[*ssa.Function]bool{}, recFns: map[*ssa.Function]bool{}, recGround: map[*ssa.Function]bool{}}
	overlay := map[string][]byte{}
	var patterns []string
	src := map[string]string{} // overlay path -> contract path
	err := filepath.WalkDir(contracts, func(path string, d os.DirEntry, err error) error {
		if err != nil || d.IsDir() || !strings.HasSuffix(path, ".go") {
			return err
		}
		rel, _ := filepath.Rel(contracts, filepath.Dir(path))
		dir := filepath.Join(repo, rel)
		pat := "./" + rel
		if rel == "_root" {
			dir, pat = repo, "."
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		if _, err := os.Stat(dir); err != nil {
			return nil
		}
		o := filepath.Join(dir, "zz_verif_"+filepath.Base(path))
		overlay[o] = b
		src[o] = path
		pre := filepath.Join(dir, "zz_verif_prelude.go")
		if _, ok := overlay[pre]; !ok {
			f, err := parser.ParseFile(token.NewFileSet(), path, b, parser.PackageClauseOnly)
			if err != nil {
				return err
			}
			overlay[pre] = []byte(fmt.Sprintf(prelude, f.Name.Name))
			patterns = append(patterns, pat)
			p.ctrDirs = append(p.ctrDirs, dir)
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	sort.Strings(patterns)
	var pkgs []*packages.Package
	for round := 0; ; round++ {
		if round > 6 {
			return nil, fmt.Errorf("contracts do not settle")
		}
		cfg := &packages.Config{
			Mode:       packages.LoadAllSyntax,
			Dir:        repo,
			Overlay:    overlay,
			Env:        append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0"),
			BuildFlags: []string{},
		}
		pkgs, err = packages.Load(cfg, patterns...)
		if err != nil {
			return nil, err
		}
		var errs []packages.Error
		packages.Visit(pkgs, nil, func(pk *packages.Package) { errs = append(errs, pk.Errors...) })
		if len(errs) == 0 {
			break
		}
		dropped := false
		for _, e := range errs {
			file, line, _ := splitPos(e.Pos)
			if b, ok := overlay[file]; ok && !strings.HasSuffix(file, "zz_verif_prelude.go") {
				nb, name, doc, ok := dropDecl(b, line)
				if ok {
					overlay[file] = nb
					dropped = true
					p.stale = append(p.stale, Stale{Name: name, Props: propsOf(doc), Err: e.Msg})
				}
			}
		}
		if !dropped {
			return nil, fmt.Errorf("%s: %s", errs[0].Pos, errs[0].Msg)
		}
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.NaiveForm|ssa.InstantiateGenerics)
	w := NewWorld()
	w.prog = prog
	w.modPath = modPath
	p.w = w
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		if w.isRepo(pk.Types) {
			if sp := prog.Package(pk.Types); sp != nil {
				sp.Build()
			}
		}
	})
	// ghost functions and directives
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		if !w.isRepo(pk.Types) {
			return
		}
		sp := prog.Package(pk.Types)
		for _, f := range pk.Syntax {
			fn := prog.Fset.Position(f.Pos()).Filename
			if !strings.HasPrefix(filepath.Base(fn), "zz_verif_") {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				obj, _ := pk.TypesInfo.Defs[fd.Name].(*types.Func)
				sf := prog.FuncValue(obj)
				if sf == nil {
					continue
				}
				p.ghosts[sf] = true
				ds := directives(fd.Doc)
				if len(ds) == 0 {
					continue
				}
				var dr *Driver
				mk := func() *Driver {
					if dr == nil {
						dr = &Driver{Name: pk.Types.Name() + "." + fd.Name.Name, Fn: sf, Opts: map[string]string{}, Opaque: map[string]bool{}}
						p.drivers = append(p.drivers, dr)
					}
					return dr
				}
				for _, s := range ds {
					k, rest, _ := strings.Cut(s, " ")
					rest = fixAt(strings.TrimSpace(rest))
					switch k {
					case "prop":
						mk().Props = strings.Fields(rest)
					case "modular":
						mk().Target = rest
						p.modular[rest] = mk()
					case "opaque":
						for _, o := range strings.Fields(rest) {
							mk().Opaque[o] = true
						}
					case "tier":
						mk().Tier = rest
					case "opt":
						kk, vv, _ := strings.Cut(rest, "=")
						mk().Opts[kk] = vv
					case "inv":
						t, ord, _ := strings.Cut(rest, " ")
						n := 0
						fmt.Sscan(ord, &n)
						p.specs[t] = append(p.specs[t], &LoopSpec{Fn: sf, Target: t, Ordinal: n, Name: pk.Types.Name() + "." + fd.Name.Name})
					case "rec":
						p.recFns[sf] = true
						if rest == "ground" { // the definition is unfolded for ground arguments only
							p.recGround[sf] = true
						}
					default:
						return
					}
				}
			}
		}
		_ = sp
	})
	sort.Slice(p.drivers, func(i, j int) bool { return p.drivers[i].Name < p.drivers[j].Name })
	p.loadS = time.Since(t0).Seconds()
	return p, nil
}

func propsOf(doc []string) []string {
	for _, d := range doc {
		if s, ok := strings.CutPrefix(d, "prop "); ok {
			return strings.Fields(s)
		}
	}
	return nil
}

func splitPos(s string) (file string, line, col int) {
	parts := strings.Split(s, ":")
	if len(parts) >= 2 {
		file = parts[0]
		fmt.Sscan(parts[1], &line)
	}
	if len(parts) >= 3 {
		fmt.Sscan(parts[2], &col)
	}
	return
}

// dropDecl blanks the top-level declaration of a contract file that contains line.
func dropDecl(b []byte, line int) (out []byte, name string, doc []string, ok bool) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", b, parser.ParseComments)
	if err != nil {
		return nil, "", nil, false
	}
	for _, d := range f.Decls {
		s, e := d.Pos(), d.End()
		var cg *ast.CommentGroup
		switch d := d.(type) {
		case *ast.FuncDecl:
			name = d.Name.Name
			cg = d.Doc
		case *ast.GenDecl:
			if d.Tok == token.IMPORT {
				// unused import after dropping declarations
				for _, sp := range d.Specs {
					l := fs.Position(sp.Pos()).Line
					if l == line {
						is := sp.(*ast.ImportSpec)
						off, end := fs.Position(is.Pos()).Offset, fs.Position(is.End()).Offset
						nb := append([]byte{}, b...)
						if is.Name == nil {
							repl := "_ " + is.Path.Value
							nb = append(append(append([]byte{}, b[:off]...), repl...), b[end:]...)
							return nb, "import " + is.Path.Value, nil, true
						}
					}
				}
				continue
			}
			name = "declaration"
			cg = d.Doc
		}
		if cg != nil {
			s = cg.Pos()
		}
		ls, le := fs.Position(s).Line, fs.Position(e).Line
		if line < ls || line > le {
			continue
		}
		nb := append([]byte{}, b...)
		for i := fs.Position(s).Offset; i < fs.Position(e).Offset && i < len(nb); i++ {
			if nb[i] != '\n' {
				nb[i] = ' '
			}
		}
		return nb, name, directives(cg), true
	}
	return nil, "", nil, false
}
