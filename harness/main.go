// Command vmon runs the runtime monitors of /verif against the code in /repo.
package main

import (
	"fmt"
	"os"
	"sort"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: vmon check|work|list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2:]))
	case "work":
		os.Exit(worker(os.Args[2:]))
	case "probe":
		probe(os.Args[2])
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, len(props[id].Cases(true, 1)), len(props[id].Cases(false, 1)))
		}
	default:
		os.Exit(2)
	}
}
