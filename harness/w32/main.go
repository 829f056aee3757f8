// The counterpart of the word size monitor, which is built for a 32-bit platform.
package main

import (
	"encoding/gob"
	"os"

	"verif/harness/wdump"
)

func main() {
	var reqs []wdump.Req
	if err := gob.NewDecoder(os.Stdin).Decode(&reqs); err != nil {
		panic(err)
	}
	out := gob.NewEncoder(os.Stdout)
	for _, q := range reqs {
		if err := out.Encode(wdump.Do(q)); err != nil {
			panic(err)
		}
	}
}
