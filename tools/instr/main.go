// instr writes a build overlay for the working tree of the library under check.
//
// Nothing in the tree is changed: every edited file is written to the output directory and mapped over
// the original with go's -overlay.  Edits are textual insertions at positions found by go/parser, so
// comments, directives and line numbers stay as they are.
//
// Always:
//   - params.Get{TLWELv0,TLWELv1,TRLWELv1,TRGSWLv1} are renamed and wrapped, so that the harness can
//     add reduced parameter profiles next to the shipped ones (the wrapper falls through to the
//     original for every shipped level);
//   - math/rand is replaced by a deterministic, scriptable stand-in with the same API.
//
// With -sched also:
//   - sync is replaced by a stand-in that runs under the harness' scheduler,
//   - go statements register the new goroutine with that scheduler,
//   - a scheduling point is inserted before every statement and at every function entry.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/thedonutfactory/go-tfhe"

type edit struct {
	off  int
	del  int
	text string
	seq  int
}

type report struct {
	Files       int      `json:"files"`
	Points      int      `json:"points"`
	GoStmts     int      `json:"go_stmts"`
	SyncImports int      `json:"sync_imports"`
	RandImports int      `json:"rand_imports"`
	Unsupported []string `json:"unsupported"`
	Wrapped     []string `json:"wrapped_params"`
	Locs        []string `json:"locs,omitempty"`
}

func main() {
	repo := flag.String("repo", "/repo", "library working tree")
	shim := flag.String("shim", "", "directory with the stand-in packages")
	out := flag.String("out", "", "output directory")
	sched := flag.Bool("sched", false, "instrument for schedule exploration")
	flag.Parse()
	if *shim == "" || *out == "" {
		fmt.Fprintln(os.Stderr, "instr: -shim and -out are required")
		os.Exit(2)
	}
	must(os.MkdirAll(*out, 0o755))
	replace := map[string]string{}
	rep := report{}
	loc := 0

	var files []string
	must(filepath.Walk(*repo, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() {
			b := info.Name()
			if p != *repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "examples" || b == "testdata" || b == "vendor" || b == "zzverif") {
				return filepath.SkipDir
			}
			if p != *repo {
				if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
					return filepath.SkipDir
				}
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	}))
	sort.Strings(files)

	wrapNames := map[string]bool{"GetTLWELv0": true, "GetTLWELv1": true, "GetTRLWELv1": true, "GetTRGSWLv1": true}

	// names of struct fields, variables and parameters declared as channels anywhere
	chanNames := map[string]bool{}
	// and the names of slices, arrays and maps of channels
	elemNames := map[string]bool{}
	isChanType := func(e ast.Expr) bool { _, ok := e.(*ast.ChanType); return ok }
	isElemType := func(e ast.Expr) bool {
		switch x := e.(type) {
		case *ast.ArrayType:
			return isChanType(x.Elt)
		case *ast.MapType:
			return isChanType(x.Value)
		}
		return false
	}
	isElemValue := func(e ast.Expr) bool {
		switch x := e.(type) {
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "make" && len(x.Args) > 0 {
				return isElemType(x.Args[0])
			}
		case *ast.CompositeLit:
			return x.Type != nil && isElemType(x.Type)
		}
		return false
	}
	for _, f := range files {
		file, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(file, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.Field:
				for _, id := range x.Names {
					if isChanType(x.Type) {
						chanNames[id.Name] = true
					}
					if isElemType(x.Type) {
						elemNames[id.Name] = true
					}
				}
			case *ast.ValueSpec:
				for i, id := range x.Names {
					if x.Type != nil && isChanType(x.Type) || i < len(x.Values) && isMakeChan(x.Values[i]) {
						chanNames[id.Name] = true
					}
					if x.Type != nil && isElemType(x.Type) || i < len(x.Values) && isElemValue(x.Values[i]) {
						elemNames[id.Name] = true
					}
				}
			case *ast.AssignStmt:
				for i, l := range x.Lhs {
					if i < len(x.Rhs) && isElemValue(x.Rhs[i]) {
						switch l := l.(type) {
						case *ast.Ident:
							elemNames[l.Name] = true
						case *ast.SelectorExpr:
							elemNames[l.Sel.Name] = true
						}
					}
					if i < len(x.Rhs) && isMakeChan(x.Rhs[i]) {
						if id, ok := l.(*ast.Ident); ok {
							chanNames[id.Name] = true
						}
						if se, ok := l.(*ast.SelectorExpr); ok {
							chanNames[se.Sel.Name] = true
						}
					}
				}
			}
			return true
		})
	}
	isChan := func(e ast.Expr) bool {
		switch x := unparen(e).(type) {
		case *ast.Ident:
			return chanNames[x.Name]
		case *ast.SelectorExpr:
			return chanNames[x.Sel.Name]
		case *ast.IndexExpr:
			switch y := unparen(x.X).(type) {
			case *ast.Ident:
				return elemNames[y.Name]
			case *ast.SelectorExpr:
				return elemNames[y.Sel.Name]
			}
		}
		return false
	}

	for _, f := range files {
		src, err := os.ReadFile(f)
		must(err)
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			// not ours to judge: the compiler will report it
			continue
		}
		rep.Files++
		rel, _ := filepath.Rel(*repo, f)
		dir := filepath.Dir(rel)
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		var edits []edit
		add := func(o, d int, t string) { edits = append(edits, edit{o, d, t, len(edits)}) }

		for _, im := range file.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			repl := func(name, np string) {
				t := strconv.Quote(np)
				if im.Name == nil {
					t = name + " " + t
				}
				add(off(im.Path.Pos()), len(im.Path.Value), t)
			}
			switch path {
			case "math/rand":
				repl("rand", modPath+"/zzverif/rand")
				rep.RandImports++
			case "math/rand/v2", "crypto/rand":
				rep.Unsupported = append(rep.Unsupported, rel+": import "+path)
			case "sync":
				if *sched {
					repl("sync", modPath+"/zzverif/rt")
					rep.SyncImports++
				}
			}
		}

		// time.Now is read through the harness (which may stop the clock)
		clock := false
		for _, im := range file.Imports {
			if im.Path.Value == `"time"` && dir != "." {
				name := "time"
				if im.Name != nil {
					name = im.Name.Name
				}
				if name == "." || name == "_" {
					continue
				}
				ast.Inspect(file, func(n ast.Node) bool {
					if se, ok := n.(*ast.SelectorExpr); ok && se.Sel.Name == "Now" {
						if id, ok := se.X.(*ast.Ident); ok && id.Name == name {
							add(off(id.Pos()), len(id.Name), "zzclock")
							clock = true
						}
					}
					return true
				})
				if clock {
					add(off(file.Name.End()), 0, "; import zzclock "+strconv.Quote(modPath+"/zzverif/clock"))
					add(len(src), 0, "\nvar _ = "+name+".Now\n")
					break
				}
			}
		}

		// the number of processors is the harness's choice
		for _, im := range file.Imports {
			if im.Path.Value == `"runtime"` && dir != "." {
				name := "runtime"
				if im.Name != nil {
					name = im.Name.Name
				}
				if name == "." || name == "_" {
					continue
				}
				cpu := false
				ast.Inspect(file, func(n ast.Node) bool {
					if se, ok := n.(*ast.SelectorExpr); ok && (se.Sel.Name == "NumCPU" || se.Sel.Name == "GOMAXPROCS") {
						if id, ok := se.X.(*ast.Ident); ok && id.Name == name {
							add(off(id.Pos()), len(id.Name), "zzcpu")
							cpu = true
						}
					}
					return true
				})
				if cpu {
					add(off(file.Name.End()), 0, "; import zzcpu "+strconv.Quote(modPath+"/zzverif/cpu"))
					add(len(src), 0, "\nvar _ = "+name+".NumCPU\n")
					break
				}
			}
		}

		if dir == "params" {
			for _, d := range file.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && wrapNames[fd.Name.Name] {
					add(off(fd.Name.Pos()), len(fd.Name.Name), "verifOrig"+fd.Name.Name)
					rep.Wrapped = append(rep.Wrapped, fd.Name.Name)
				}
			}
		}

		if *sched && dir != "params" && dir != "." {
			used := false
			point := func(kind string, p token.Pos) string {
				used = true
				loc++
				rep.Locs = append(rep.Locs, fmt.Sprintf("%s:%d", rel, fset.Position(p).Line))
				return fmt.Sprintf("zzrt.%s(%d); ", kind, loc)
			}
			stmts := func(list []ast.Stmt) {
				for _, s := range list {
					switch s.(type) {
					case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
						continue
					}
					add(off(s.Pos()), 0, point("P", s.Pos()))
				}
			}
			two := map[ast.Node]bool{}
			skip := map[ast.Node]bool{}
			text := func(e ast.Node) string { return string(src[off(e.Pos()):off(e.End())]) }
			ast.Inspect(file, func(n ast.Node) bool {
				if skip[n] {
					return false
				}
				switch x := n.(type) {
				case *ast.FuncDecl:
					if x.Body != nil {
						add(off(x.Body.Lbrace)+1, 0, " "+point("F", x.Body.Lbrace))
					}
				case *ast.FuncLit:
					add(off(x.Body.Lbrace)+1, 0, " "+point("F", x.Body.Lbrace))
				case *ast.BlockStmt:
					stmts(x.List)
				case *ast.CaseClause:
					stmts(x.Body)
				case *ast.CommClause:
					stmts(x.Body)
				case *ast.GoStmt:
					used = true
					rep.GoStmts++
					add(off(x.Call.Fun.Pos()), 0, "zzrt.Wrap(zzrt.NewThread(), ")
					add(off(x.Call.Fun.End()), 0, ")")
				case *ast.SelectStmt:
					// select becomes a switch over the index zzrt.Select picks:
					//   switch zz0, zz1 := zzrt.RecvCase(a), zzrt.SendTo(b).Case(v); zzrt.Select(false, zz0, zz1) {
					//   case 0: v, ok := zz0.V, zz0.OK; ...
					used = true
					var names, inits []string
					hasDefault := false
					for _, s := range x.Body.List {
						cl := s.(*ast.CommClause)
						if cl.Comm == nil {
							hasDefault = true
							continue
						}
						if nested(cl.Comm) {
							rep.Unsupported = append(rep.Unsupported, fmt.Sprintf("%s:%d select", rel, fset.Position(x.Pos()).Line))
						}
						skip[cl.Comm] = true
						z := fmt.Sprintf("zz%d", len(names))
						head := fmt.Sprintf("case %d: ", len(names))
						recv := func(e ast.Expr) {
							inits = append(inits, "zzrt.RecvCase("+text(unparen(e).(*ast.UnaryExpr).X)+")")
						}
						switch c := cl.Comm.(type) {
						case *ast.SendStmt:
							inits = append(inits, "zzrt.SendTo("+text(c.Chan)+").Case("+text(c.Value)+")")
						case *ast.ExprStmt:
							recv(c.X)
						case *ast.AssignStmt:
							recv(c.Rhs[0])
							lhs := text(c.Lhs[0])
							rhs := z + ".V"
							if len(c.Lhs) == 2 {
								lhs += ", " + text(c.Lhs[1])
								rhs += ", " + z + ".OK"
							}
							head += lhs + " " + c.Tok.String() + " " + rhs + "; "
						}
						names = append(names, z)
						add(off(cl.Case), off(cl.Colon)+1-off(cl.Case), head)
					}
					init := fmt.Sprintf("zzrt.Select(%v%s) ", hasDefault, strings.Join(append([]string{""}, names...), ", "))
					if len(names) > 0 {
						init = strings.Join(names, ", ") + " := " + strings.Join(inits, ", ") + "; " + init
					}
					add(off(x.Select), len("select"), "switch ")
					add(off(x.Body.Lbrace), 0, init)
					if !hasDefault {
						add(off(x.Body.Rbrace), 0, "default: panic(\"select\"); ")
					}
				case *ast.SendStmt:
					used = true
					add(off(x.Pos()), 0, "zzrt.SendTo(")
					add(off(x.Arrow), 2, ").Send(")
					add(off(x.End()), 0, ")")
				case *ast.SelectorExpr:
					if id, ok := x.X.(*ast.Ident); ok && id.Obj == nil && foreign[id.Name+"."+x.Sel.Name] {
						rep.Unsupported = append(rep.Unsupported, fmt.Sprintf("%s:%d %s.%s", rel, fset.Position(x.Pos()).Line, id.Name, x.Sel.Name))
					}
				case *ast.UnaryExpr:
					if x.Op == token.ARROW {
						used = true
						f := "Recv"
						if two[x] {
							f = "Recv2"
						}
						add(off(x.OpPos), 2, "zzrt."+f+"(")
						add(off(x.X.End()), 0, ")")
					}
				case *ast.CallExpr:
					if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 && id.Obj == nil {
						if id.Name == "close" {
							used = true
							add(off(id.Pos()), len("close"), "zzrt.Close")
						} else if id.Name == "len" && isChan(x.Args[0]) {
							used = true
							add(off(id.Pos()), len("len"), "zzrt.Len")
						}
					}
				case *ast.AssignStmt:
					if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
						two[unparen(x.Rhs[0])] = true
					}
				case *ast.ValueSpec:
					if len(x.Names) == 2 && len(x.Values) == 1 {
						two[unparen(x.Values[0])] = true
					}
				case *ast.RangeStmt:
					if !isChan(x.X) {
						break
					}
					used = true
					v := "_"
					if x.Key != nil {
						v = string(src[off(x.Key.Pos()):off(x.Key.End())])
					}
					if x.Tok == token.ASSIGN {
						rep.Unsupported = append(rep.Unsupported, fmt.Sprintf("%s:%d range over channel", rel, fset.Position(x.Pos()).Line))
						break
					}
					ch := string(src[off(x.X.Pos()):off(x.X.End())])
					add(off(x.For)+3, off(x.Body.Lbrace)-off(x.For)-3, fmt.Sprintf(" %s, zzok := zzrt.Recv2(%s); zzok; %s, zzok = zzrt.Recv2(%s) ", v, ch, v, ch))
				}
				return true
			})
			if used {
				add(off(file.Name.End()), 0, "; import zzrt "+strconv.Quote(modPath+"/zzverif/rt"))
				add(len(src), 0, "\nvar _ = zzrt.P\n")
			}
		}
		if len(edits) == 0 {
			continue
		}
		sort.SliceStable(edits, func(i, j int) bool {
			if edits[i].off != edits[j].off {
				return edits[i].off < edits[j].off
			}
			return edits[i].seq < edits[j].seq
		})
		var b strings.Builder
		pos := 0
		for _, e := range edits {
			b.Write(src[pos:e.off])
			b.WriteString(e.text)
			pos = e.off + e.del
		}
		b.Write(src[pos:])
		dst := filepath.Join(*out, strings.ReplaceAll(rel, string(filepath.Separator), "__"))
		must(os.WriteFile(dst, []byte(b.String()), 0o644))
		replace[f] = dst
	}
	rep.Points = loc

	for _, pk := range []string{"rand", "rt", "clock", "cpu"} {
		ents, err := os.ReadDir(filepath.Join(*shim, pk))
		must(err)
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") {
				replace[filepath.Join(*repo, "zzverif", pk, e.Name())] = filepath.Join(*shim, pk, e.Name())
			}
		}
	}
	replace[filepath.Join(*repo, "params", "zz_verif_profiles.go")] = filepath.Join(*shim, "params", "zz_verif_profiles.go")

	js, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0o644))
	rj, _ := json.Marshal(rep)
	must(os.WriteFile(filepath.Join(*out, "report.json"), rj, 0o644))
}

// foreign makes channels fed from outside the scheduler.
var foreign = map[string]bool{
	"time.After": true, "time.Tick": true, "time.NewTimer": true, "time.NewTicker": true, "time.AfterFunc": true,
	"context.WithCancel": true, "context.WithTimeout": true, "context.WithDeadline": true, "signal.Notify": true,
}

// nested reports whether a communication clause holds something that would itself need rewriting.
func nested(s ast.Stmt) bool {
	arrows, bad := 0, false
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			bad = true
		case *ast.SendStmt:
			arrows++
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				arrows++
			}
		}
		return true
	})
	return bad || arrows != 1
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func isMakeChan(e ast.Expr) bool {
	c, ok := e.(*ast.CallExpr)
	if !ok || len(c.Args) == 0 {
		return false
	}
	id, ok := c.Fun.(*ast.Ident)
	if !ok || id.Name != "make" {
		return false
	}
	_, ok = c.Args[0].(*ast.ChanType)
	return ok
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}
