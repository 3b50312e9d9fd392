package checks

import (
	"fmt"
	"os"
)

var children = map[string]func(args []string) int{}

// Child runs a helper process of a check.
func Child(args []string) {
	if len(args) == 0 || children[args[0]] == nil {
		fmt.Fprintln(os.Stderr, "HARNESS: unknown child")
		os.Exit(2)
	}
	os.Exit(children[args[0]](args[1:]))
}
