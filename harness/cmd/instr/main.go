// instr writes perturbed copies of the non-test sources of the packages under
// <repo>/memcache to <out>, plus overlay.json for 'go build -overlay'.
//
// Before every statement it inserts a call that sometimes yields or sleeps (any
// goroutine may be preempted anywhere, so this adds no interleaving the program
// could not have), and makes functions that give a byte slice back to a pool
// scribble over it first (a slice given back may not be read any more). Text is
// inserted on the statement's own line, so line numbers stay those of the source.
// It works from whatever the sources are now and names no function that must exist.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

const helper = `package %s

import (
	"math/rand/v2"
	"runtime"
	"sync/atomic"
	"time"
)

var verifRate atomic.Uint32
var verifPoisonOn atomic.Bool

// VerifSetPerturb sets the mean number of statements between disturbances (0: none).
func VerifSetPerturb(rate uint32) { verifRate.Store(rate) }

// VerifSetPoison switches scribbling on.
func VerifSetPoison(on bool) { verifPoisonOn.Store(on) }

func verifY() {
	r := verifRate.Load()
	if r == 0 {
		return
	}
	x := rand.Uint64()
	if uint32(x)%%r != 0 {
		return
	}
	switch (x >> 40) & 15 {
	case 0:
		time.Sleep(time.Duration((x>>48)&63) * time.Microsecond)
	case 1, 2:
		for i := uint64(0); i < (x>>48)&7; i++ {
			runtime.Gosched()
		}
	default:
		runtime.Gosched()
	}
}

func verifPoison(b []byte) {
	if !verifPoisonOn.Load() {
		return
	}
	for i := range b {
		b[i] = 0xDB
	}
}
`

var releaseName = regexp.MustCompile(`(?i)^(put|release.*)$`)

// givesBack tells whether a function calls a pool's Put, or another release function:
// a "put" that merely stores bytes somewhere must not have them scribbled over.
func givesBack(body *ast.BlockStmt) bool {
	found := false
	ast.Inspect(body, func(n ast.Node) bool {
		c, ok := n.(*ast.CallExpr)
		if !ok {
			return true
		}
		switch f := c.Fun.(type) {
		case *ast.SelectorExpr:
			found = found || f.Sel.Name == "Put" || (f.Sel.Name != "put" && releaseName.MatchString(f.Sel.Name))
		case *ast.Ident:
			found = found || (f.Name != "put" && releaseName.MatchString(f.Name))
		}
		return true
	})
	return found
}

type ins struct {
	off  int
	text string
}

func instrument(path string) ([]byte, string, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, "", err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, "", err
	}
	var all []ins
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			all = append(all, ins{fset.Position(s.Pos()).Offset, "verifY(); "})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.FuncDecl:
			if x.Body == nil || !releaseName.MatchString(x.Name.Name) || x.Type.Params.NumFields() != 1 {
				return true
			}
			p := x.Type.Params.List[0]
			at, ok := p.Type.(*ast.ArrayType)
			if !ok || at.Len != nil || len(p.Names) != 1 || p.Names[0].Name == "_" {
				return true
			}
			if id, ok := at.Elt.(*ast.Ident); !ok || id.Name != "byte" {
				return true
			}
			if !givesBack(x.Body) {
				return true
			}
			all = append(all, ins{fset.Position(x.Body.Lbrace).Offset + 1, " verifPoison(" + p.Names[0].Name + "); "})
		}
		return true
	})
	// the bodies of switch and select hold clauses, not statements
	clause := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CaseClause, *ast.CommClause:
			clause[fset.Position(n.Pos()).Offset] = true
		}
		return true
	})
	sort.SliceStable(all, func(i, j int) bool { return all[i].off < all[j].off })
	var out strings.Builder
	last := 0
	seen := map[string]bool{}
	for _, i := range all {
		key := fmt.Sprint(i.off, i.text)
		if clause[i.off] || seen[key] {
			continue
		}
		seen[key] = true
		out.Write(src[last:i.off])
		out.WriteString(i.text)
		last = i.off
	}
	out.Write(src[last:])
	return []byte(out.String()), f.Name.Name, nil
}

func main() {
	repo, outDir := os.Args[1], os.Args[2]
	replace := map[string]string{}
	n := 0
	err := filepath.Walk(filepath.Join(repo, "memcache"), func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !info.IsDir() {
			return nil
		}
		ents, err := os.ReadDir(path)
		if err != nil {
			return err
		}
		pkg := ""
		for _, e := range ents {
			name := e.Name()
			if e.IsDir() || !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") {
				continue
			}
			if ok, err := build.Default.MatchFile(path, name); err != nil || !ok {
				continue
			}
			full := filepath.Join(path, name)
			data, p, err := instrument(full)
			if err != nil {
				return err
			}
			pkg = p
			n++
			dst := filepath.Join(outDir, fmt.Sprintf("f%03d_%s", n, name))
			if err := os.WriteFile(dst, data, 0o644); err != nil {
				return err
			}
			replace[full] = dst
		}
		if pkg != "" && pkg != "main" {
			n++
			dst := filepath.Join(outDir, fmt.Sprintf("f%03d_zz_verif_helper.go", n))
			if err := os.WriteFile(dst, []byte(fmt.Sprintf(helper, pkg)), 0o644); err != nil {
				return err
			}
			replace[filepath.Join(path, "zz_verif_helper.go")] = dst
		}
		return nil
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(outDir, "overlay.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
	fmt.Println("instr:", len(replace), "files")
}
