// Command genvos writes the forwarding part of package vos: every exported
// name of package os that vos does not define itself.
package main

import (
	"fmt"
	"go/importer"
	"go/types"
	"os"
	"sort"
	"strings"
)

func main() {
	own := map[string]bool{}
	for _, n := range os.Args[2:] {
		own[n] = true
	}
	p, err := importer.Default().Import("os")
	if err != nil {
		p, err = importer.ForCompiler(nil, "source", nil).Import("os")
	}
	if err != nil {
		panic(err)
	}
	var b strings.Builder
	b.WriteString("// Code generated by cmd/genvos. DO NOT EDIT.\n\npackage vos\n\nimport \"os\"\n\n")
	names := p.Scope().Names()
	sort.Strings(names)
	for _, n := range names {
		o := p.Scope().Lookup(n)
		if !o.Exported() || own[n] {
			continue
		}
		switch o.(type) {
		case *types.TypeName:
			fmt.Fprintf(&b, "type %s = os.%s\n", n, n)
		case *types.Const:
			fmt.Fprintf(&b, "const %s = os.%s\n", n, n)
		case *types.Var, *types.Func:
			fmt.Fprintf(&b, "var %s = os.%s\n", n, n)
		}
	}
	if err := os.WriteFile(os.Args[1], []byte(b.String()), 0o644); err != nil {
		panic(err)
	}
}
