// mutate DIR FILE START: writes into FILE (below DIR, a scratch copy of the
// repository) every small change to it that compiles, each behind a number that
// the environment variable GODEEP_MUT chooses, and lists the changes, one JSON
// object per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	From int    `json:"from"`
	To   int    `json:"to"`
	New  string `json:"new"`
	What string `json:"what"`
	Line int    `json:"line"`
	ID   int    `json:"id"`
}

var swaps = map[token.Token][]string{
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
	token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"},
}

func main() {
	root, rel := os.Args[1], os.Args[2]
	p := filepath.Join(root, rel)
	src, err := os.ReadFile(p)
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, p, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(x token.Pos) int { return fs.Position(x).Offset }
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var all []mut
	emit := func(from, to token.Pos, nw, what string) {
		all = append(all, mut{File: rel, From: off(from), To: off(to), New: nw, What: what, Line: fs.Position(from).Line})
	}
	stmts := func(list []ast.Stmt) {
		for k, s := range list {
			switch s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt:
				emit(s.Pos(), s.End(), "", "delete "+short(txt(s)))
			case *ast.AssignStmt:
				a := s.(*ast.AssignStmt)
				if a.Tok != token.DEFINE {
					emit(s.Pos(), s.End(), "", "delete "+short(txt(s)))
				}
			}
			if k+1 < len(list) {
				t := list[k+1]
				emit(s.Pos(), t.End(), txt(t)+"\n"+txt(s), "swap "+short(txt(s))+" / "+short(txt(t)))
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec, *ast.InterfaceType:
			return false
		case *ast.BinaryExpr:
			for _, s := range swaps[x.Op] {
				emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, x.Op.String()+" -> "+s+" in "+short(txt(x)))
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, err := strconv.ParseInt(x.Value, 0, 64)
				if err == nil {
					emit(x.Pos(), x.End(), fmt.Sprint(v+1), x.Value+" +1")
					if v > 0 {
						emit(x.Pos(), x.End(), fmt.Sprint(v-1), x.Value+" -1")
					}
				}
			}
			if x.Kind == token.FLOAT {
				emit(x.Pos(), x.End(), "("+x.Value+"*1.01)", x.Value+" *1.01")
			}
		case *ast.Ident:
			if x.Name == "true" {
				emit(x.Pos(), x.End(), "false", "true -> false")
			} else if x.Name == "false" {
				emit(x.Pos(), x.End(), "true", "false -> true")
			}
		case *ast.IfStmt:
			emit(x.Cond.Pos(), x.Cond.End(), "!("+txt(x.Cond)+")", "negate "+short(txt(x.Cond)))
			if !strings.Contains(txt(x.Cond), "err") {
				emit(x.Cond.Pos(), x.Cond.End(), "false && ("+txt(x.Cond)+")", "never "+short(txt(x.Cond)))
			} else {
				emit(x.Cond.Pos(), x.Cond.End(), "false && ("+txt(x.Cond)+")", "ignore "+short(txt(x.Cond)))
			}
		case *ast.UnaryExpr:
			if x.Op == token.SUB || x.Op == token.NOT {
				emit(x.Pos(), x.X.Pos(), "", "drop "+x.Op.String()+" in "+short(txt(x)))
			}
		case *ast.AssignStmt:
			if x.Tok == token.ADD_ASSIGN || x.Tok == token.SUB_ASSIGN || x.Tok == token.MUL_ASSIGN || x.Tok == token.QUO_ASSIGN {
				emit(x.TokPos, x.TokPos+2, "=", x.Tok.String()+" -> = in "+short(txt(x)))
			}
		case *ast.CallExpr:
			if len(x.Args) == 2 && txt(x.Args[0]) != txt(x.Args[1]) && x.Ellipsis == 0 {
				emit(x.Args[0].Pos(), x.Args[1].End(), txt(x.Args[1])+", "+txt(x.Args[0]), "swap arguments of "+short(txt(x)))
			}
		case *ast.SelectorExpr:
			for _, pr := range [][2]string{{"Weights", "Bias"}, {"MWeights", "MBias"}, {"Input", "Output"}, {"Rows", "Cols"}, {"Derive", "Activate"}, {"X", "Y"}, {"R", "G"}, {"G", "B"}, {"From", "To"}, {"Activation", "Derive"}, {"Max", "Min"}, {"Neta", "Output"}, {"Alpha", "Momentum"}, {"Shape", "MulIndex"}} {
				for k := 0; k < 2; k++ {
					if x.Sel.Name == pr[k] {
						emit(x.Sel.Pos(), x.Sel.End(), pr[1-k], x.Sel.Name+" -> "+pr[1-k])
					}
				}
			}
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		}
		return true
	})

	tc := newChecker(root, filepath.Dir(p), filepath.Base(p))
	if e := tc.check(src); e != nil {
		panic(e)
	}
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	var out []byte
	pos, id := 0, 0
	id, err = strconv.Atoi(os.Args[3])
	if err != nil {
		panic(err)
	}
	first := id
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		b0, b1 := off(fd.Body.Pos()), off(fd.Body.End())
		var sw strings.Builder
		for _, m := range all {
			if m.From < b0 || m.To > b1 || m.From == b0 {
				continue
			}
			mutated := string(src[:m.From]) + m.New + string(src[m.To:])
			if mutated == string(src) || tc.check([]byte(mutated)) != nil {
				continue
			}
			id++
			m.ID = id
			enc.Encode(m)
			body := string(src[b0:m.From]) + m.New + string(src[m.To:b1])
			ret := ""
			if fd.Type.Results == nil {
				ret = "\nreturn"
			}
			fmt.Fprintf(&sw, "case %d:\n%s%s\n", id, body, ret)
		}
		out = append(out, src[pos:b0+1]...)
		if sw.Len() > 0 {
			out = append(out, "\nswitch mutid.ID {\n"+sw.String()+"}\n"...)
		}
		pos = b0 + 1
	}
	out = append(out, src[pos:]...)
	if id > first {
		n := off(f.Name.End())
		out = append([]byte(string(out[:n])+"\nimport \"github.com/julioguillermo/godeep/mutid\"\n"), out[n:]...)
		if err := os.MkdirAll(filepath.Join(root, "mutid"), 0o755); err != nil {
			panic(err)
		}
		os.WriteFile(filepath.Join(root, "mutid", "mutid.go"), []byte("package mutid\n\nimport (\n\"os\"\n\"strconv\"\n)\n\nvar ID, _ = strconv.Atoi(os.Getenv(\"GODEEP_MUT\"))\n"), 0o644)
		if err := os.WriteFile(p, out, 0o644); err != nil {
			panic(err)
		}
	}
}

type checker struct {
	fs   *token.FileSet
	name string
	rest []*ast.File
	imp  types.Importer
	path string
}

func newChecker(root, dir, name string) *checker {
	c := &checker{fs: token.NewFileSet(), name: name, path: "p"}
	es, err := os.ReadDir(dir)
	if err != nil {
		panic(err)
	}
	for _, e := range es {
		if n := e.Name(); strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") && n != name {
			f, err := parser.ParseFile(c.fs, filepath.Join(dir, n), nil, 0)
			if err != nil {
				panic(err)
			}
			c.rest = append(c.rest, f)
		}
	}
	cmd := exec.Command("go", "list", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}", ".")
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		panic(err)
	}
	exp := map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		if x := strings.Split(l, "\t"); len(x) == 2 {
			exp[x[0]] = x[1]
		}
	}
	c.imp = importer.ForCompiler(c.fs, "gc", func(path string) (io.ReadCloser, error) { return os.Open(exp[path]) })
	return c
}

func (c *checker) check(src []byte) error {
	f, err := parser.ParseFile(c.fs, c.name, src, 0)
	if err != nil {
		return err
	}
	var first error
	cfg := types.Config{Importer: c.imp, Error: func(err error) {
		if !strings.Contains(err.Error(), "imported and not used") && first == nil {
			first = err
		}
	}}
	cfg.Check(c.path, c.fs, append([]*ast.File{f}, c.rest...), nil)
	return first
}

func short(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 60 {
		s = s[:60] + "…"
	}
	return s
}
