//go:build ignore

// refactor lists rewrites of Go files that keep what the code does:
//
//	cd analyzer && go run ../tools/refactor/refactor.go -repo /repo
//
// prints one JSON object per rewrite (file, from, to, text, kind). Every check
// has to stay quiet on every one of them.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
)

type edit struct {
	File     string `json:"file"`
	From, To int
	Text     string // replaces the bytes From..To
	Tail     string // goes to the end of the file
	Kind     string
	Line     int
	Func     string
}

var fresh int

type ctx struct {
	pkg  *packages.Package
	file *ast.File
	rel  string
	src  string
	enc  *json.Encoder
	fn   *ast.FuncDecl
}

func (c *ctx) off(p token.Pos) int           { return c.pkg.Fset.Position(p).Offset }
func (c *ctx) text(n ast.Node) string        { return c.src[c.off(n.Pos()):c.off(n.End())] }
func (c *ctx) between(a, b token.Pos) string { return c.src[c.off(a):c.off(b)] }

// emit replaces [a,b) by text and appends tail to the file.
func (c *ctx) emit(a, b token.Pos, text, tail, kind string) {
	name := ""
	if c.fn != nil {
		name = c.fn.Name.Name
	}
	c.enc.Encode(edit{c.rel, c.off(a), c.off(b), text, tail, kind, c.pkg.Fset.Position(a).Line, name})
}

// name is a fresh name for a helper of the current function.
func (c *ctx) name(what string) string {
	fresh++
	return fmt.Sprintf("%s%s%s%d", strings.ToLower(c.fn.Name.Name[:1]), c.fn.Name.Name[1:], what, fresh)
}

func (c *ctx) typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p == c.pkg.Types {
			return ""
		}
		return p.Name()
	})
}

// terminates: the list ends in a statement after which nothing follows.
func terminates(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	switch x := l[len(l)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return x.Label == nil && x.Tok != token.FALLTHROUGH
	}
	return false
}

func returns(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	_, ok := l[len(l)-1].(*ast.ReturnStmt)
	return ok
}

// free lists the local variables of the enclosing function that nodes use but
// do not declare, in order of first use.
func (c *ctx) free(nodes []ast.Node) (vars []*types.Var, ok bool) {
	seen := map[*types.Var]bool{}
	lo, hi := nodes[0].Pos(), nodes[len(nodes)-1].End()
	ok = true
	for _, n := range nodes {
		ast.Inspect(n, func(n ast.Node) bool {
			id, isID := n.(*ast.Ident)
			if !isID {
				return true
			}
			v, isVar := c.pkg.TypesInfo.Uses[id].(*types.Var)
			if !isVar || v.IsField() || v.Parent() == c.pkg.Types.Scope() || v.Pkg() != c.pkg.Types {
				return true
			}
			if v.Pos() >= lo && v.Pos() < hi || seen[v] {
				return true
			}
			seen[v] = true
			if n, isNamed := v.Type().(*types.Named); isNamed && n.Obj().Pkg() != nil {
				// builders and locks must not be copied
				if p := n.Obj().Pkg().Path(); p == "strings" || p == "sync" || p == "bytes" {
					ok = false
				}
			}
			vars = append(vars, v)
			return true
		})
	}
	return vars, ok
}

// assigned: v is written or has its address taken within n.
func (c *ctx) touched(n ast.Node, vars []*types.Var) bool {
	is := func(e ast.Expr) bool {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.SelectorExpr:
				// a field of a struct held by value
				if _, ptr := c.pkg.TypesInfo.TypeOf(x.X).Underlying().(*types.Pointer); ptr {
					return false
				}
				e = x.X
				continue
			}
			break
		}
		id, ok := e.(*ast.Ident)
		if !ok {
			return false
		}
		u := c.pkg.TypesInfo.Uses[id]
		for _, v := range vars {
			if u == v {
				return true
			}
		}
		return false
	}
	bad := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				bad = bad || is(l)
			}
		case *ast.IncDecStmt:
			bad = bad || is(x.X)
		case *ast.UnaryExpr:
			bad = bad || x.Op == token.AND && is(x.X)
		case *ast.RangeStmt:
			if x.Tok == token.ASSIGN {
				bad = bad || x.Key != nil && is(x.Key) || x.Value != nil && is(x.Value)
			}
		case *ast.SelectorExpr:
			// method with pointer receiver on an addressable variable
			if s := c.pkg.TypesInfo.Selections[x]; s != nil && s.Kind() == types.MethodVal {
				if _, ptr := s.Obj().Type().(*types.Signature).Recv().Type().(*types.Pointer); ptr {
					if _, isPtr := s.Recv().(*types.Pointer); !isPtr {
						bad = bad || is(x.X)
					}
				}
			}
		}
		return true
	})
	return bad
}

func has(n ast.Node, f func(ast.Node) bool) bool {
	r := false
	ast.Inspect(n, func(n ast.Node) bool {
		if n != nil && f(n) {
			r = true
		}
		return !r
	})
	return r
}

func (c *ctx) params(vars []*types.Var) (decl, args string) {
	var d, a []string
	for _, v := range vars {
		d = append(d, v.Name()+" "+c.typeStr(v.Type()))
		a = append(a, v.Name())
	}
	return strings.Join(d, ", "), strings.Join(a, ", ")
}

func (c *ctx) results(ft *ast.FuncType) (string, bool) {
	if ft.Results == nil {
		return "", true
	}
	var l []string
	for _, f := range ft.Results.List {
		if len(f.Names) > 0 {
			return "", false
		}
		l = append(l, c.typeStr(c.pkg.TypesInfo.TypeOf(f.Type)))
	}
	if len(l) == 1 {
		return " " + l[0], true
	}
	return " (" + strings.Join(l, ", ") + ")", true
}

func simple(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return simple(x.X)
	}
	return false
}

func pure(n ast.Node) bool {
	return !has(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "len" || id.Name == "make" || id.Name == "new") {
				return false
			}
			return true
		case *ast.UnaryExpr:
			return x.Op == token.ARROW
		case *ast.IndexExpr, *ast.StarExpr, *ast.TypeAssertExpr, *ast.SliceExpr:
			return true
		}
		return false
	})
}

func (c *ctx) not(e ast.Expr) string {
	if b, ok := e.(*ast.BinaryExpr); ok {
		op := map[token.Token]string{token.EQL: "!=", token.NEQ: "==", token.LSS: ">=", token.GEQ: "<", token.GTR: "<=", token.LEQ: ">"}[b.Op]
		if op != "" {
			if t, ok := c.pkg.TypesInfo.TypeOf(b.X).Underlying().(*types.Basic); !ok || t.Info()&types.IsFloat == 0 {
				return c.text(b.X) + " " + op + " " + c.text(b.Y)
			}
		}
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.NOT {
		return c.text(u.X)
	}
	if simple(e) {
		return "!" + c.text(e)
	}
	if _, ok := e.(*ast.CallExpr); ok {
		return "!" + c.text(e)
	}
	return "!(" + c.text(e) + ")"
}

func (c *ctx) list(l []ast.Stmt, inLoop bool, body *ast.BlockStmt) {
	if len(l) == 0 {
		return
	}
	end := l[len(l)-1].End()
	for i, s := range l {
		if x, ok := s.(*ast.IfStmt); ok && x.Else == nil && terminates(x.Body.List) && i+1 < len(l) && x.Init == nil {
			rest := c.between(x.End(), end)
			tail := l[i+1:]
			if returns(x.Body.List) && returns(tail) || !returns(x.Body.List) {
				c.emit(x.Pos(), end, c.text(x)+" else {"+rest+"\n}", "", "else-rest")
			}
			if returns(x.Body.List) && returns(tail) {
				c.emit(x.Pos(), end, "if "+c.not(x.Cond)+" {"+rest+"\n}\n"+strings.TrimSuffix(strings.TrimPrefix(c.text(x.Body), "{"), "}"), "", "flip-rest")
			}
		}
		if x, ok := s.(*ast.IfStmt); ok && inLoop && i == len(l)-1 && x.Else == nil && x.Init == nil {
			c.emit(x.Pos(), x.End(), "if "+c.not(x.Cond)+" {\ncontinue\n}\n"+strings.TrimSuffix(strings.TrimPrefix(c.text(x.Body), "{"), "}"), "", "early-continue")
		}
		// Two declarations next to each other that do not depend on one another.
		if a, ok := s.(*ast.AssignStmt); ok && i+1 < len(l) {
			if b, ok := l[i+1].(*ast.AssignStmt); ok && a.Tok == token.DEFINE && b.Tok == token.DEFINE && len(a.Lhs) == 1 && len(b.Lhs) == 1 && pure(a) && pure(b) {
				o := c.pkg.TypesInfo.Defs[a.Lhs[0].(*ast.Ident)]
				if o != nil && !has(b, func(n ast.Node) bool { id, ok := n.(*ast.Ident); return ok && c.pkg.TypesInfo.Uses[id] == o }) {
					c.emit(a.Pos(), b.End(), c.text(b)+"\n"+c.text(a), "", "swap-decls")
				}
			}
		}
		// A run of statements that only reads its surroundings moves to a helper.
		if _, ok := s.(*ast.ReturnStmt); !ok && c.movable(s) {
			vars, ok := c.free([]ast.Node{s})
			if ok && !c.touched(s, vars) && !c.defines(s) {
				d, a := c.params(vars)
				name := c.name("Step")
				c.emit(s.Pos(), s.End(), name+"("+a+")", fmt.Sprintf("\nfunc %s(%s) {\n%s\n}\n", name, d, c.text(s)), "extract-stmt")
			}
		}
		if x, ok := s.(*ast.ReturnStmt); ok && len(x.Results) >= 1 && c.fn.Body == body {
			var t []string
			var names []string
			sig := c.pkg.TypesInfo.Defs[c.fn.Name].Type().(*types.Signature)
			if sig.Results().Len() == len(x.Results) && sig.Results().At(0).Name() == "" {
				for k, r := range x.Results {
					names = append(names, fmt.Sprintf("out%d", k))
					t = append(t, fmt.Sprintf("var out%d %s = %s", k, c.typeStr(sig.Results().At(k).Type()), c.text(r)))
				}
				c.emit(x.Pos(), x.End(), strings.Join(t, "\n")+"\nreturn "+strings.Join(names, ", "), "", "return-temp")
			}
		}
	}
}

func (c *ctx) defines(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.AssignStmt:
		return x.Tok == token.DEFINE
	case *ast.DeclStmt:
		return true
	case *ast.DeferStmt, *ast.BranchStmt, *ast.LabeledStmt, *ast.GoStmt:
		return true
	}
	return false
}

// movable: the statement does not leave its function or loop.
func (c *ctx) movable(s ast.Stmt) bool {
	ok := true
	var walk func(n ast.Node, loop, sw bool)
	walk = func(n ast.Node, loop, sw bool) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == nil || m == n {
				return true
			}
			switch x := m.(type) {
			case *ast.ReturnStmt, *ast.DeferStmt:
				ok = false
			case *ast.BranchStmt:
				if x.Label != nil || x.Tok == token.CONTINUE && !loop || x.Tok == token.BREAK && !loop && !sw {
					ok = false
				}
			case *ast.ForStmt, *ast.RangeStmt:
				walk(m, true, true)
				return false
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				walk(m, loop, true)
				return false
			case *ast.FuncLit:
				return false
			}
			return true
		})
	}
	switch s.(type) {
	case *ast.ForStmt, *ast.RangeStmt:
		walk(s, true, true)
	case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
		walk(s, false, true)
	default:
		walk(s, false, false)
	}
	return ok
}

func (c *ctx) run(fd *ast.FuncDecl) {
	c.fn = fd
	// The tail of the body, moved to a helper.
	if fd.Body != nil && len(fd.Body.List) > 1 && !has(fd.Body, func(n ast.Node) bool { _, ok := n.(*ast.DeferStmt); return ok }) {
		res, ok := c.results(fd.Type)
		for i := 1; ok && i < len(fd.Body.List); i++ {
			tail := fd.Body.List[i:]
			if len(tail) == 1 {
				if _, isRet := tail[0].(*ast.ReturnStmt); isRet {
					continue
				}
			}
			var nodes []ast.Node
			for _, s := range tail {
				nodes = append(nodes, s)
			}
			vars, fine := c.free(nodes)
			if !fine {
				continue
			}
			captured := false
			for _, s := range fd.Body.List[:i] {
				if has(s, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.FuncLit:
						return true
					case *ast.UnaryExpr:
						return x.Op == token.AND && simple(x.X)
					}
					return false
				}) {
					captured = true
				}
			}
			if captured {
				continue
			}
			d, a := c.params(vars)
			body := c.between(tail[0].Pos(), fd.Body.Rbrace)
			name := c.name("Rest")
			call := name + "(" + a + ")"
			if res != "" {
				call = "return " + call
			}
			c.emit(tail[0].Pos(), fd.Body.Rbrace, call+"\n", fmt.Sprintf("\nfunc %s(%s)%s {\n%s}\n", name, d, res, body), "extract-tail")
		}
	}
	bodyOf := map[*ast.BlockStmt]bool{}
	ast.Inspect(fd, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			c.lit(x)
			return false
		case *ast.ForStmt:
			bodyOf[x.Body] = true
			if x.Cond != nil && x.Init == nil && x.Post == nil {
				c.emit(x.Pos(), x.End(), "for {\nif "+c.not(x.Cond)+" {\nbreak\n}\n"+strings.TrimPrefix(c.text(x.Body), "{"), "", "for-break")
			}
		case *ast.RangeStmt:
			bodyOf[x.Body] = true
			c.rangeLoop(x)
		case *ast.IfStmt:
			c.ifStmt(x)
		case *ast.SwitchStmt:
			c.switchStmt(x)
		case *ast.BinaryExpr:
			if (x.Op == token.EQL || x.Op == token.NEQ) && pure(x.X) && pure(x.Y) {
				c.emit(x.Pos(), x.End(), c.text(x.Y)+" "+x.Op.String()+" "+c.text(x.X), "", "commute")
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				op := "||"
				if x.Op == token.LOR {
					op = "&&"
				}
				c.emit(x.Pos(), x.End(), "!("+c.paren(c.not(x.X))+" "+op+" "+c.paren(c.not(x.Y))+")", "", "de-morgan")
			}
		case *ast.AssignStmt:
			if x.Tok == token.DEFINE && len(x.Lhs) == 1 && len(x.Rhs) == 1 {
				c.literal(x)
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) > 2 && x.Ellipsis == 0 {
				t := c.text(x.Args[0])
				for _, a := range x.Args[1:] {
					t = "append(" + t + ", " + c.text(a) + ")"
				}
				c.emit(x.Pos(), x.End(), t, "", "append-each")
			}
			c.hoistCall(x)
		}
		return true
	})
	ast.Inspect(fd, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			c.list(x.List, bodyOf[x], x)
		case *ast.CaseClause:
			c.list(x.Body, false, nil)
		case *ast.FuncLit:
			return false
		}
		return true
	})
}

func (c *ctx) paren(s string) string { return "(" + s + ")" }

// lit: a function literal that captures nothing becomes a named function.
func (c *ctx) lit(x *ast.FuncLit) {
	vars, _ := c.free([]ast.Node{x})
	if len(vars) == 0 {
		name := c.name("Func")
		c.emit(x.Pos(), x.End(), name, "\nfunc "+name+strings.TrimPrefix(c.text(x.Type), "func")+" "+c.text(x.Body)+"\n", "name-func")
	}
}

// hoistCall: an expression without effects moves to a helper.
func (c *ctx) hoistCall(x *ast.CallExpr) {
	for _, a := range x.Args {
		if _, ok := a.(*ast.CompositeLit); ok {
			c.helperExpr(a, "extract-arg")
		}
	}
}

func (c *ctx) helperExpr(e ast.Expr, kind string) {
	vars, ok := c.free([]ast.Node{e})
	if !ok || c.touched(e, vars) {
		return
	}
	t := c.pkg.TypesInfo.TypeOf(e)
	if _, tuple := t.(*types.Tuple); tuple || t == nil {
		return
	}
	if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		t = types.Default(t)
	}
	d, a := c.params(vars)
	name := c.name("Expr")
	c.emit(e.Pos(), e.End(), name+"("+a+")", fmt.Sprintf("\nfunc %s(%s) %s {\nreturn %s\n}\n", name, d, c.typeStr(t), c.text(e)), kind)
}

func (c *ctx) literal(x *ast.AssignStmt) {
	lit, amp := x.Rhs[0], ""
	if u, ok := lit.(*ast.UnaryExpr); ok && u.Op == token.AND {
		lit, amp = u.X, "&"
	}
	cl, ok := lit.(*ast.CompositeLit)
	if !ok || len(cl.Elts) == 0 {
		return
	}
	if _, st := c.pkg.TypesInfo.TypeOf(cl).Underlying().(*types.Struct); !st {
		return
	}
	name := c.text(x.Lhs[0])
	var l []string
	for _, e := range cl.Elts {
		kv, ok := e.(*ast.KeyValueExpr)
		if !ok {
			return
		}
		if has(kv.Value, func(n ast.Node) bool { id, ok := n.(*ast.Ident); return ok && id.Name == name }) {
			return
		}
		l = append(l, name+"."+c.text(kv.Key)+" = "+c.text(kv.Value))
	}
	c.emit(x.Pos(), x.End(), name+" := "+amp+c.text(cl.Type)+"{}\n"+strings.Join(l, "\n"), "", "field-by-field")
}

func (c *ctx) rangeLoop(x *ast.RangeStmt) {
	if _, ok := c.pkg.TypesInfo.TypeOf(x.X).Underlying().(*types.Slice); !ok || x.Tok == token.ASSIGN {
		return
	}
	body := strings.TrimPrefix(c.text(x.Body), "{")
	if simple(x.X) && x.Key != nil {
		k := c.text(x.Key)
		if k == "_" {
			k = "idx"
		}
		src := c.text(x.X)
		root := strings.Split(src, ".")[0]
		if !has(x.Body, func(n ast.Node) bool {
			a, ok := n.(*ast.AssignStmt)
			if !ok {
				return false
			}
			for _, l := range a.Lhs {
				if t := c.text(l); t == src || t == root {
					return true
				}
			}
			return false
		}) {
			v := ""
			if x.Value != nil && c.text(x.Value) != "_" {
				v = c.text(x.Value) + " := " + src + "[" + k + "]\n"
			}
			c.emit(x.Pos(), x.End(), "for "+k+" := 0; "+k+" < len("+src+"); "+k+"++ {\n"+v+body, "", "index-loop")
			if v != "" && c.text(x.Key) == "_" {
				c.emit(x.Pos(), x.End(), "for idx := range "+src+" {\n"+v+body, "", "range-index")
			}
		}
	}
	// The body of the loop, moved to a helper.
	if x.Value != nil && !has(x.Body, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.ReturnStmt, *ast.BranchStmt, *ast.DeferStmt, *ast.LabeledStmt:
			return true
		}
		return false
	}) && len(x.Body.List) > 0 {
		vars, ok := c.free([]ast.Node{x.Body})
		if ok && !c.touched(x.Body, vars) {
			d, a := c.params(vars)
			name := c.name("Each")
			c.emit(x.Body.Pos(), x.Body.End(), "{\n"+name+"("+a+")\n}", fmt.Sprintf("\nfunc %s(%s) %s\n", name, d, c.text(x.Body)), "extract-body")
		}
	}
}

func (c *ctx) ifStmt(x *ast.IfStmt) {
	inner := func(b *ast.BlockStmt) string {
		return strings.TrimSuffix(strings.TrimPrefix(c.text(b), "{"), "}")
	}
	init := ""
	if x.Init != nil {
		init = c.text(x.Init) + "; "
	}
	if b, ok := x.Else.(*ast.BlockStmt); ok {
		c.emit(x.Pos(), x.End(), "if "+init+c.not(x.Cond)+" "+c.text(b)+" else "+c.text(x.Body), "", "swap-branches")
	}
	if b, ok := x.Cond.(*ast.BinaryExpr); ok && x.Else == nil {
		if b.Op == token.LAND {
			c.emit(x.Pos(), x.End(), "if "+init+c.text(b.X)+" {\nif "+c.text(b.Y)+" "+c.text(x.Body)+"\n}", "", "split-and")
		}
		if b.Op == token.LOR && terminates(x.Body.List) && init == "" {
			c.emit(x.Pos(), x.End(), "if "+c.text(b.X)+" {"+inner(x.Body)+"}\nif "+c.text(b.Y)+" {"+inner(x.Body)+"}", "", "split-or")
		}
	}
	c.helperExpr(x.Cond, "extract-cond")
	// A switch without a subject.
	if !has(x, func(n ast.Node) bool { b, ok := n.(*ast.BranchStmt); return ok && b.Tok == token.BREAK }) && init == "" {
		if x.Else == nil {
			c.emit(x.Pos(), x.End(), "switch {\ncase "+c.text(x.Cond)+":"+inner(x.Body)+"}", "", "if-switch")
		} else if b, ok := x.Else.(*ast.BlockStmt); ok {
			c.emit(x.Pos(), x.End(), "switch {\ncase "+c.text(x.Cond)+":"+inner(x.Body)+"default:"+inner(b)+"}", "", "if-switch")
		}
	}
	if x.Init == nil {
		return
	}
	// The statement before the condition, in a block of its own.
	c.emit(x.Pos(), x.End(), "{\n"+c.text(x.Init)+"\nif "+c.text(x.Cond)+" "+c.between(x.Body.Pos(), x.End())+"\n}", "", "init-out")
}

func (c *ctx) switchStmt(x *ast.SwitchStmt) {
	if x.Init != nil || has(x, func(n ast.Node) bool {
		b, ok := n.(*ast.BranchStmt)
		return ok && (b.Tok == token.BREAK || b.Tok == token.FALLTHROUGH)
	}) {
		return
	}
	if x.Tag != nil && !simple(x.Tag) {
		return
	}
	var sb strings.Builder
	def := ""
	n := 0
	for i, s := range x.Body.List {
		cc := s.(*ast.CaseClause)
		var end token.Pos
		if i+1 < len(x.Body.List) {
			end = x.Body.List[i+1].Pos()
		} else {
			end = x.Body.Rbrace
		}
		body := c.between(cc.Colon+1, end)
		if cc.List == nil {
			def = body
			continue
		}
		var conds []string
		for _, e := range cc.List {
			if x.Tag == nil {
				conds = append(conds, c.text(e))
			} else {
				conds = append(conds, c.text(x.Tag)+" == "+c.text(e))
			}
		}
		if n > 0 {
			sb.WriteString(" else ")
		}
		n++
		sb.WriteString("if " + strings.Join(conds, " || ") + " {" + body + "}")
	}
	if n == 0 {
		return
	}
	if def != "" {
		sb.WriteString(" else {" + def + "}")
	}
	c.emit(x.Pos(), x.End(), sb.String(), "", "switch-if")
}

func main() {
	repo := flag.String("repo", "/repo", "")
	flag.Parse()
	pkgs, err := packages.Load(&packages.Config{Mode: packages.LoadAllSyntax, Dir: *repo}, "./...")
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, p := range pkgs {
		for _, f := range p.Syntax {
			name := p.Fset.Position(f.Pos()).Filename
			src, err := os.ReadFile(name)
			if err != nil {
				panic(err)
			}
			rel, _ := filepath.Rel(*repo, name)
			c := &ctx{pkg: p, file: f, rel: rel, src: string(src), enc: enc}
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
					c.run(fd)
				}
			}
		}
	}
}
