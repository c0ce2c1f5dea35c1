package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

// genCLI copies a main package to a package that can be imported: os.Exit ends
// VerifMain with the exit status instead of the process. Nothing else is changed.
func genCLI(src, dst string) error {
	files, err := filepath.Glob(filepath.Join(src, "*.go"))
	if err != nil || len(files) == 0 {
		return fmt.Errorf("no main package in %s", src)
	}
	if err := os.MkdirAll(dst, 0o755); err != nil {
		return err
	}
	old, _ := filepath.Glob(filepath.Join(dst, "*.go"))
	keep := map[string]bool{}
	put := func(name string, b []byte) error {
		p := filepath.Join(dst, name)
		keep[p] = true
		if was, err := os.ReadFile(p); err == nil && bytes.Equal(was, b) {
			return nil
		}
		return os.WriteFile(p, b, 0o644)
	}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, f, nil, parser.ParseComments)
		if err != nil {
			return err
		}
		a.Name.Name = "cli"
		name := ""
		for _, i := range a.Imports {
			if i.Path.Value == `"os"` {
				name = "os"
				if i.Name != nil {
					name = i.Name.Name
				}
			}
		}
		if name != "" && name != "_" && name != "." {
			ast.Inspect(a, func(n ast.Node) bool {
				if s, ok := n.(*ast.SelectorExpr); ok && s.Sel.Name == "Exit" {
					if x, ok := s.X.(*ast.Ident); ok && x.Name == name {
						x.Name, s.Sel.Name = "verifRun", "exit"
					}
				}
				return true
			})
		}
		var b bytes.Buffer
		if err := format.Node(&b, fs, a); err != nil {
			return err
		}
		if name != "" && name != "_" && name != "." {
			fmt.Fprintf(&b, "\nvar _ = %s.Args\n", name)
		}
		if err := put(filepath.Base(f), b.Bytes()); err != nil {
			return err
		}
	}
	if err := put("zz_verif_run.go", []byte(`package cli

import "os"

type verifExit struct{ code int }

type verifRunner struct{}

var verifRun verifRunner

func (verifRunner) exit(code int) { panic(verifExit{code}) }

// VerifMain runs the program with the arguments and returns its exit status.
func VerifMain(args ...string) (code int) {
	defer func() {
		if r := recover(); r != nil {
			x, ok := r.(verifExit)
			if !ok {
				panic(r)
			}
			code = x.code
		}
	}()
	os.Args = append([]string{"midiasm"}, args...)
	main()
	return 0
}
`)); err != nil {
		return err
	}
	for _, f := range old {
		if !keep[f] {
			os.Remove(f)
		}
	}
	return nil
}
