// Command mutate lists small changes to the sources of a repository (for measuring what the checks detect):
//
//	mutate REPO: one JSON object per line {file, line, kind, start, end, new, old}
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mut struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Kind  string `json:"kind"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Old   string `json:"old"`
}

var swaps = map[string][]string{}

func pair(l ...string) {
	for i := 0; i+1 < len(l); i += 2 {
		swaps[l[i]] = append(swaps[l[i]], l[i+1])
		swaps[l[i+1]] = append(swaps[l[i+1]], l[i])
	}
}

func main() {
	pair("Alpha", "Beta", "Tau", "Alpha", "alpha", "beta", "tau", "alpha", "Wires", "Witness", "Public", "PrivateCommitted",
		"Domain", "Constraints", "S", "SX", "infinityA", "infinityB", "nbInfinityA", "nbInfinityB", "inN", "outN",
		"inPower", "outPower", "alphaG1", "betaG1", "betaG2", "deltaG2", "tauSP", "alphaSP", "alphaSP", "betaSP", "L1", "L2",
		"tmpL1", "tmpL2", "delta", "deltaInv", "deltaBI", "deltaInvBI", "posAlphaG1", "posBetaG1", "start", "end", "vkk", "ckk", "pkk", "vkk",
		"cI", "vI", "N", "n", "m", "n", "_start", "_end", "inputDec", "originDec", "d1", "g1", "d2", "g2", "g1", "tauG1", "current", "prev",
		"posTauG1", "posAlphaG1", "tauG1", "alphaTauG1", "alphaTauG1", "betaTauG1", "inG", "orG", "nbTasks", "nbIterations",
		"nbIterationsPerCpus", "nbTasks", "nextStage", "stage", "header1", "header2", "curHeader", "orgHeader", "prevHash", "nil",
		"encPkA", "encPkB1", "encPkZ", "encPkK", "TwiddlesInv", "Twiddles", "CardinalityInv", "GeneratorInv", "DIF", "DIT", "Add", "Sub",
		"numCPU", "n", "i", "j")
	repo := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	var files []string
	for _, p := range []string{"*.go", "common/*.go", "keys/*.go", "lagrange/*.go", "phase1/*.go", "phase2/*.go"} {
		g, _ := filepath.Glob(filepath.Join(repo, p))
		files = append(files, g...)
	}
	for _, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		rel, _ := filepath.Rel(repo, f)
		put := func(kind string, a, b token.Pos, new string) {
			s, e := fset.Position(a).Offset, fset.Position(b).Offset
			enc.Encode(mut{rel, fset.Position(a).Line, kind, s, e, new, string(src[s:e])})
		}
		text := func(n ast.Node) string {
			return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
		}
		printing := func(n ast.Node) bool { return strings.HasPrefix(text(n), "fmt.Print") }
		ast.Inspect(af, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.CallExpr:
				if strings.HasPrefix(text(n), "fmt.") || strings.HasPrefix(text(n), "errors.New") {
					return false
				}
				if len(n.Args) >= 2 {
					for i := 0; i+1 < len(n.Args); i++ {
						if a, b := text(n.Args[i]), text(n.Args[i+1]); a != b {
							put("args", n.Args[i].Pos(), n.Args[i+1].End(), b+", "+a)
						}
					}
				}
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{token.LSS: {"<=", ">"}, token.GTR: {">=", "<"}, token.LEQ: {"<"}, token.GEQ: {">"}, token.EQL: {"!="},
					token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.LAND: {"||"}, token.LOR: {"&&"},
					token.SHL: {">>"}, token.SHR: {"<<"}, token.REM: {"/"}}
				if id, ok := n.X.(*ast.Ident); ok && id.Name == "err" {
					break
				}
				for _, a := range alt[n.Op] {
					put("op", n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), a)
				}
				if n.Op == token.ADD || n.Op == token.SUB {
					put("drop", n.Pos(), n.End(), "("+text(n.X)+")")
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					v, err := strconv.ParseInt(n.Value, 0, 64)
					if err == nil {
						put("int", n.Pos(), n.End(), fmt.Sprint(v+1))
						if v > 0 {
							put("int", n.Pos(), n.End(), fmt.Sprint(v-1))
						}
					}
				}
			case *ast.Ident:
				for _, a := range swaps[n.Name] {
					put("ident", n.Pos(), n.End(), a)
				}
				switch n.Name {
				case "true":
					put("bool", n.Pos(), n.End(), "false")
				case "false":
					put("bool", n.Pos(), n.End(), "true")
				}
			case *ast.IfStmt:
				c := text(n.Cond)
				if c == "err != nil" {
					put("swallow", n.Cond.Pos(), n.Cond.End(), "err != nil && false")
				} else {
					put("never", n.Cond.Pos(), n.Cond.End(), "("+c+") && false")
					put("always", n.Cond.Pos(), n.Cond.End(), "("+c+") || true")
				}
			case *ast.ReturnStmt:
				for _, x := range n.Results {
					if id, ok := x.(*ast.Ident); ok && id.Name == "err" && len(n.Results) == 1 && text(n) == "return err" {
						_ = id
					}
				}
			case *ast.BlockStmt:
				for _, s := range n.List {
					switch s := s.(type) {
					case *ast.ExprStmt:
						if !printing(s) {
							put("delete", s.Pos(), s.End(), "")
						}
					case *ast.AssignStmt:
						if s.Tok != token.DEFINE {
							put("delete", s.Pos(), s.End(), "")
						}
					case *ast.IncDecStmt, *ast.DeferStmt:
						put("delete", s.Pos(), s.End(), "")
					case *ast.BranchStmt:
						if s.Tok == token.CONTINUE {
							put("branch", s.Pos(), s.End(), "break")
						}
					}
				}
			case *ast.CompositeLit:
				for _, e := range n.Elts {
					if strings.HasPrefix(text(e), "&c.") {
						put("element", e.Pos(), e.End()+1, "")
					}
				}
			}
			return true
		})
	}
}
