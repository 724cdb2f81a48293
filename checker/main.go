package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"time"
)

func main() {
	start := time.Now()
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		exe, _ := os.Executable()
		verif = filepath.Dir(filepath.Dir(exe))
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: checker <property>|all|list")
		os.Exit(2)
	}
	ids := os.Args[1:]
	// stop at the first violation
	first := ids[0] == "first"
	if first {
		ids = ids[1:]
	}
	if ids[0] == "all" || ids[0] == "list" {
		l := ids[0] == "list"
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		if l {
			for _, id := range ids {
				fmt.Println(id)
			}
			return
		}
	}
	p, err := Load(repo)
	if ids[0] == "main" && err == nil {
		debugMain(p, ids[1:])
		return
	}
	if ids[0] == "gate" {
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		debugGate(p, ids[1:])
		return
	}
	code := 0
	for _, id := range ids {
		t := time.Now()
		if len(ids) == 1 {
			t = start
		}
		if r := runCheck(p, id, tier, verif, t, err); r > code {
			code = r
		}
		if first && code != 0 {
			break
		}
	}
	os.Exit(code)
}
