package main

import (
	"go/types"
	"os"

	"golang.org/x/tools/go/packages"
)

// library loads packages which the program under analysis only names: the library that its rules speak about.
var libraryPkgs = map[string]*types.Package{}

func (p *Program) library(paths ...string) map[string]*types.Package {
	var ask []string
	for _, x := range paths {
		if _, ok := libraryPkgs[x]; !ok {
			ask = append(ask, x)
			libraryPkgs[x] = nil
		}
	}
	if len(ask) > 0 {
		cfg := &packages.Config{Mode: packages.NeedName | packages.NeedTypes | packages.NeedImports | packages.NeedDeps | packages.NeedExportFile, Dir: p.Dir, Env: os.Environ()}
		ps, err := packages.Load(cfg, ask...)
		if err == nil {
			for _, pk := range ps {
				if pk.Types != nil && len(pk.Errors) == 0 {
					libraryPkgs[pk.PkgPath] = pk.Types
				}
			}
		}
	}
	out := map[string]*types.Package{}
	for _, x := range paths {
		out[x] = libraryPkgs[x]
	}
	return out
}
