package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	EmbedFiles []string
	Imports    []string
	ImportMap  map[string]string
	Standard   bool
	Error      *struct{ Err string }
	DepsErrors []*struct{ Err string }
}

type pkgInfo struct {
	lp     *listPkg
	files  []*ast.File
	tpkg   *types.Package
	info   *types.Info
	spkg   *ssa.Package
	interp bool
	done   chan struct{}
	err    error
}

// Program is the loaded code under test.
type Program struct {
	audited sync.Map // rewritings already shown to be right
	fset    *token.FileSet
	prog    *ssa.Program
	pkgs    map[string]*pkgInfo
	order   []*pkgInfo
	overlay map[string]string
	mod     string
	embeds  map[string][]string // "pkg.var" -> patterns
	sh      *shared
}

// Standard packages whose bodies are executed symbolically from source.
var stdInterp = map[string]bool{
	"strings": true, "bytes": true, "unicode/utf8": true, "unicode/utf16": true, "sort": true, "slices": true,
	"maps": true, "cmp": true, "strconv": true, "bufio": true, "io": true, "errors": true,
	"math/bits": true, "container/list": true, "container/heap": true, "container/ring": true, "internal/stringslite": true,
	"internal/bytealg": true, "io/fs": true, "embed": true, "path": true, "internal/oserror": true,
	"internal/byteorder": true, "math": true, "internal/itoa": true, "internal/bisect": false, "regexp": true,
	"text/tabwriter": true, "sync": true, "path/filepath": true, "internal/filepathlite": true, "internal/strconv": true, "iter": true,
}

func (p *Program) interpretable(lp *listPkg) bool {
	if lp.Standard {
		return stdInterp[lp.ImportPath]
	}
	ip := lp.ImportPath
	if strings.HasPrefix(ip, "golang.org/x/text") {
		return false
	}
	return true
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off")
}

// loadProgram lists, parses, type-checks and translates to SSA the packages.
func loadProgram(repo, overlayFile, modfile string, pkgs []string) (*Program, error) {
	p := &Program{fset: token.NewFileSet(), pkgs: map[string]*pkgInfo{}, overlay: map[string]string{}, embeds: map[string][]string{}}
	if overlayFile != "" {
		var ov struct{ Replace map[string]string }
		data, err := os.ReadFile(overlayFile)
		if err != nil {
			return nil, err
		}
		if err := json.Unmarshal(data, &ov); err != nil {
			return nil, err
		}
		p.overlay = ov.Replace
	}
	args := []string{"list", "-deps", "-json=ImportPath,Dir,Name,GoFiles,EmbedFiles,Imports,ImportMap,Standard,Error,DepsErrors"}
	if overlayFile != "" {
		args = append(args, "-overlay", overlayFile)
	}
	if modfile != "" {
		args = append(args, "-modfile", modfile)
	}
	args = append(args, pkgs...)
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	// An architecture without assembly in the packages we interpret.
	cmd.Env = append(goEnv(), "GOARCH=mips64le", "GOOS=linux")
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, stderr.String())
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		lp := new(listPkg)
		if err := dec.Decode(lp); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		if lp.Error != nil {
			return nil, fmt.Errorf("go list: %s: %s", lp.ImportPath, lp.Error.Err)
		}
		pi := &pkgInfo{lp: lp, done: make(chan struct{})}
		pi.interp = p.interpretable(lp)
		p.pkgs[lp.ImportPath] = pi
		p.order = append(p.order, pi)
	}

	// Parse and type-check in parallel, following the import graph.
	sem := make(chan struct{}, runtime.NumCPU())
	var wg sync.WaitGroup
	for _, pi := range p.order {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer close(pi.done)
			for _, im := range pi.lp.Imports {
				if m, ok := pi.lp.ImportMap[im]; ok {
					im = m
				}
				if d, ok := p.pkgs[im]; ok {
					<-d.done
				}
			}
			sem <- struct{}{}
			defer func() { <-sem }()
			pi.err = p.check(pi)
		}()
	}
	wg.Wait()
	for _, pi := range p.order {
		if pi.err != nil {
			return nil, pi.err
		}
	}
	p.prog = ssa.NewProgram(p.fset, ssa.InstantiateGenerics)
	for _, pi := range p.order {
		if pi.interp {
			pi.spkg = p.prog.CreatePackage(pi.tpkg, pi.files, pi.info, true)
		} else {
			pi.spkg = p.prog.CreatePackage(pi.tpkg, nil, nil, true)
		}
	}
	for _, pi := range p.order {
		if pi.interp {
			wg.Add(1)
			go func() { defer wg.Done(); pi.spkg.Build() }()
		}
	}
	wg.Wait()
	return p, nil
}

func (p *Program) check(pi *pkgInfo) error {
	lp := pi.lp
	if lp.ImportPath == "unsafe" {
		pi.tpkg = types.Unsafe
		return nil
	}
	mode := parser.SkipObjectResolution
	if pi.interp {
		mode |= parser.ParseComments
	}
	for _, f := range lp.GoFiles {
		name := filepath.Join(lp.Dir, f)
		var src any
		if r, ok := p.overlay[name]; ok {
			data, err := os.ReadFile(r)
			if err != nil {
				return err
			}
			src = data
		}
		af, err := parser.ParseFile(p.fset, name, src, mode)
		if err != nil {
			return err
		}
		pi.files = append(pi.files, af)
	}
	conf := types.Config{
		Importer: importerFunc(func(path string) (*types.Package, error) {
			if m, ok := lp.ImportMap[path]; ok {
				path = m
			}
			if path == "unsafe" {
				return types.Unsafe, nil
			}
			d, ok := p.pkgs[path]
			if !ok || d.tpkg == nil {
				return nil, fmt.Errorf("package %s not loaded", path)
			}
			return d.tpkg, nil
		}),
		IgnoreFuncBodies: !pi.interp,
		Sizes:            types.SizesFor("gc", "amd64"),
		GoVersion:        "",
		FakeImportC:      true,
	}
	if !pi.interp {
		conf.Error = func(error) {}
	}
	pi.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
	}
	if !pi.interp {
		pi.info = &types.Info{}
	}
	tp, err := conf.Check(lp.ImportPath, p.fset, pi.files, pi.info)
	if err != nil && pi.interp {
		return fmt.Errorf("type checking %s: %v", lp.ImportPath, err)
	}
	pi.tpkg = tp
	if pi.interp && !lp.Standard {
		for _, f := range pi.files {
			p.collectEmbeds(lp.ImportPath, f)
		}
	}
	return nil
}

var embedMu sync.Mutex

func (p *Program) collectEmbeds(path string, f *ast.File) {
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, sp := range g.Specs {
			vs := sp.(*ast.ValueSpec)
			var pats []string
			for _, doc := range []*ast.CommentGroup{g.Doc, vs.Doc} {
				if doc == nil {
					continue
				}
				for _, c := range doc.List {
					if rest, ok := strings.CutPrefix(c.Text, "//go:embed "); ok {
						pats = append(pats, strings.Fields(rest)...)
					}
				}
			}
			if len(pats) > 0 && len(vs.Names) == 1 {
				embedMu.Lock()
				p.embeds[path+"."+vs.Names[0].Name] = pats
				embedMu.Unlock()
			}
		}
	}
}

// embedFiles resolves the patterns against the package's embedded file list.
func (p *Program) embedFiles(path string, pats []string) (names []string, dir string) {
	lp := p.pkgs[path].lp
	seen := map[string]bool{}
	for _, pat := range pats {
		pat = strings.TrimPrefix(strings.Trim(pat, "\"`"), "all:")
		for _, f := range lp.EmbedFiles {
			ok, _ := filepath.Match(pat, f)
			if (ok || strings.HasPrefix(f, pat+"/")) && !seen[f] {
				seen[f] = true
				names = append(names, f)
			}
		}
	}
	sort.Strings(names)
	return names, lp.Dir
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(path string) (*types.Package, error) { return f(path) }
