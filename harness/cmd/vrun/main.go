// Command vrun runs the check of one property.
package main

import (
	"fmt"
	"os"
	"strings"

	"verifharness/internal/checks"
	"verifharness/internal/core"
)

func main() { os.Exit(run()) }

func run() (code int) {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vrun PROPERTY [quick|thorough]")
		return 2
	}
	id := os.Args[1]
	tier := os.Getenv("VERIF_TIER")
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	for _, k := range checks.All {
		if k.ID == id {
			return one(k, tier)
		}
	}
	var ids []string
	for _, k := range checks.All {
		ids = append(ids, k.ID)
	}
	fmt.Fprintf(os.Stderr, "no check %s; there are %s\n", id, strings.Join(ids, " "))
	return 2
}

func one(k checks.Check, tier string) (code int) {
	c := core.NewCtx(k.ID, tier, core.SeedFromEnv())
	defer func() {
		if os.Getenv("VERIF_KEEP") == "" {
			_ = os.RemoveAll(c.Scratch)
		} else {
			fmt.Println("kept", c.Scratch)
		}
	}()
	inconclusive := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				if i, ok := r.(core.Inconclusive); ok {
					inconclusive = i.Msg
					return
				}
				panic(r)
			}
		}()
		k.Run(c)
	}()
	c.Finish()
	if c.Violations() > 0 {
		return 1
	}
	if inconclusive != "" {
		fmt.Printf("INCONCLUSIVE property=%s %s\n", k.ID, core.Clip(inconclusive, 6000))
		return 3
	}
	fmt.Printf("OK property=%s %s\n", k.ID, c.Summary())
	return 0
}
