// genalias writes an alias file for all exported objects of a standard package except the given ones.
// Development tool; its output is committed.  usage: genalias PATH PKGNAME NAME...
package main

import (
	"fmt"
	"go/importer"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
)

func main() {
	path, name := os.Args[1], os.Args[2]
	skip := map[string]bool{}
	for _, s := range os.Args[3:] {
		skip[s] = true
	}
	pkg, err := importer.ForCompiler(token.NewFileSet(), "source", nil).Import(path)
	if err != nil {
		panic(err)
	}
	fmt.Printf("// Code generated by genalias; DO NOT EDIT.\n\npackage %s\n\nimport real %q\n\n", name, path)
	var names []string
	names = append(names, pkg.Scope().Names()...)
	sort.Strings(names)
	for _, n := range names {
		o := pkg.Scope().Lookup(n)
		if !o.Exported() || skip[n] {
			continue
		}
		switch o := o.(type) {
		case *types.TypeName:
			if t, ok := o.Type().(*types.Named); ok && t.TypeParams().Len() > 0 {
				fmt.Fprintln(os.Stderr, "generic type", n)
				continue
			}
			fmt.Printf("type %s = real.%s\n", n, n)
		case *types.Const:
			fmt.Printf("const %s = real.%s\n", n, n)
		case *types.Var:
			fmt.Printf("var %s = real.%s\n", n, n)
		case *types.Func:
			sig := o.Type().(*types.Signature)
			if sig.TypeParams().Len() > 0 {
				fmt.Fprintln(os.Stderr, "generic func", n, strings.TrimSpace(sig.String()))
				continue
			}
			fmt.Printf("var %s = real.%s\n", n, n)
		}
	}
}
