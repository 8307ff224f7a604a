package main

import (
	"fmt"
	"os"
	"runtime/debug"
)

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(10 << 30)
	repo, verif := os.Getenv("GPSA_REPO"), os.Getenv("GPSA_VERIF")
	if repo == "" {
		repo = "/repo"
	}
	if verif == "" {
		verif = "/verif"
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: gpsa check ID | gpsa dbg REL FUNC")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		rc := 0
		for _, id := range os.Args[2:] {
			if c := runCheck(id, repo, verif); c > rc {
				rc = c
			}
		}
		os.Exit(rc)
	case "list":
		for _, c := range checks {
			if len(os.Args) > 2 {
				fmt.Printf("%s\t%s\t%s\n", c.id, c.tech, c.desc)
			} else {
				fmt.Println(c.id)
			}
		}
	case "dbg":
		p, err := Load(repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		dbg(p, os.Args[2:])
	}
}
