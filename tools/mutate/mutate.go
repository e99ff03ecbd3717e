//go:build ignore

// mutate lists small changes to Go files: go run mutate.go FILE... prints one
// JSON object per change (file, from, to, text, kind).
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"reflect"
	"strconv"
	"strings"
)

type mut struct {
	File     string `json:"file"`
	From, To int
	Text     string
	Kind     string
	Line     int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		emit := func(a, b token.Pos, text, kind string) {
			if string(src[off(a):off(b)]) == text {
				return
			}
			enc.Encode(mut{file, off(a), off(b), text, kind, fset.Position(a).Line})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		_ = printer.Fprint
		_ = bytes.NewReader
		list := func(l []ast.Stmt) {
			for i, s := range l {
				switch x := s.(type) {
				case *ast.DeclStmt:
					continue
				case *ast.AssignStmt:
					if x.Tok == token.DEFINE {
						continue
					}
				}
				emit(s.Pos(), s.End(), "", "delete")
				if i+1 < len(l) {
					n := l[i+1]
					emit(s.Pos(), n.End(), text(n)+"\n"+text(s), "swap")
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{
					token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="},
					token.GEQ: {">", "<"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.REM: {"/"},
				}[x.Op]
				for _, a := range alt {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a, "op")
				}
				if x.Op == token.LAND || x.Op == token.LOR || x.Op == token.ADD {
					emit(x.Pos(), x.End(), text(x.X), "left")
					emit(x.Pos(), x.End(), text(x.Y), "right")
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate")
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never")
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "always")
				if x.Else != nil {
					emit(x.Body.End(), x.Else.End(), "", "noelse")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.Pos(), x.End(), text(x.X), "unnot")
				}
			case *ast.BranchStmt:
				if x.Label == nil {
					switch x.Tok {
					case token.BREAK:
						emit(x.Pos(), x.End(), "continue", "branch")
						emit(x.Pos(), x.End(), "return", "branch")
					case token.CONTINUE:
						emit(x.Pos(), x.End(), "break", "branch")
						emit(x.Pos(), x.End(), "return", "branch")
					}
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					emit(r.Pos(), r.End(), "nil", "retnil")
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "bool")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "bool")
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(x.Args); i++ {
					a, b := x.Args[i], x.Args[i+1]
					emit(a.Pos(), b.End(), text(b)+", "+text(a), "swapargs")
				}
				if len(x.Args) == 1 {
					emit(x.Pos(), x.End(), text(x.Args[0]), "unwrap")
				}
				if s, ok := x.Fun.(*ast.SelectorExpr); ok {
					emit(x.Pos(), x.End(), text(s.X), "uncall")
				}
			case *ast.CompositeLit:
				for i, e := range x.Elts {
					end := e.End()
					if i+1 < len(x.Elts) {
						end = x.Elts[i+1].Pos()
					}
					emit(e.Pos(), end, "", "noelt")
					if i+1 < len(x.Elts) {
						emit(e.Pos(), x.Elts[i+1].End(), text(x.Elts[i+1])+", "+text(e), "swapelts")
					}
				}
			case *ast.SwitchStmt:
				b := x.Body.List
				for i, c := range b {
					emit(c.Pos(), c.End(), "", "nocase")
					_ = i
				}
			case *ast.TypeSwitchStmt:
				for _, c := range x.Body.List {
					emit(c.Pos(), c.End(), "", "nocase")
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					emit(x.Low.Pos(), x.Low.End(), text(x.Low)+"+1", "slice")
				}
				if x.High != nil {
					emit(x.High.Pos(), x.High.End(), text(x.High)+"-1", "slice")
				}
			case *ast.Field:
				if x.Tag == nil {
					return true
				}
				tag := x.Tag.Value
				for _, k := range []string{"parser:\"", "json:\""} {
					i := strings.Index(tag, k)
					if i < 0 {
						continue
					}
					i += len(k)
					j := strings.Index(tag[i:], "\"`")
					if e := strings.Index(tag[i:], "\" "); e >= 0 && (j < 0 || e < j) {
						j = e
					}
					if j < 0 {
						continue
					}
					g := tag[i : i+j]
					base := x.Tag.Pos() + token.Pos(i)
					for p := 0; p < len(g); p++ {
						at := func(n int, t, kind string) { emit(base+token.Pos(p), base+token.Pos(p+n), t, kind) }
						switch g[p] {
						case '?':
							at(1, "", "tag")
							at(1, "*", "tag")
							at(1, "+", "tag")
						case '*':
							at(1, "", "tag")
							at(1, "?", "tag")
							at(1, "+", "tag")
						case '+':
							at(1, "", "tag")
							at(1, "?", "tag")
							at(1, "*", "tag")
						case '|':
							// drop the alternative before, or after
							at(1, "", "tag")
						}
					}
					// drop each token of the rule
					toks := strings.Fields(g)
					pos := 0
					for _, t := range toks {
						q := strings.Index(g[pos:], t) + pos
						pos = q + len(t)
						emit(base+token.Pos(q), base+token.Pos(q+len(t)), "", "tagtok")
					}
					if k[0] == 'j' {
						emit(base, base+token.Pos(len(g)), "-", "json")
					}
				}
				return false
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					n, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(n+1), "int")
						if n > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(n-1), "int")
						}
					}
				case token.STRING:
					s, err := strconv.Unquote(x.Value)
					if err != nil {
						return true
					}
					emit(x.Pos(), x.End(), `""`, "str")
					if s != "" {
						emit(x.Pos(), x.End(), strconv.Quote(s+" "), "str")
						emit(x.Pos(), x.End(), strconv.Quote(s[1:]), "str")
						if len(s) > 1 {
							emit(x.Pos(), x.End(), strconv.Quote(s[:len(s)-1]), "str")
						}
					}
					// remove each special character of a pattern
					for i := 0; i < len(s); i++ {
						if strings.IndexByte(`\?*+^$|()[]{}.-,`, s[i]) >= 0 {
							emit(x.Pos(), x.End(), strconv.Quote(s[:i]+s[i+1:]), "pattern")
						}
					}
				}
			}
			return true
		})
		_ = reflect.DeepEqual
	}
}
