// psdwasm prints the outcome of one part of the corpus; it is built for js/wasm.
package main

import (
	"fmt"
	"os"
	"strconv"

	"verif.local/harness/corpus"
)

func main() {
	if os.Args[1] == "docs" {
		for i := 0; i < corpus.Docs; i++ {
			fmt.Println(corpus.Doc(i))
		}
		return
	}
	i, _ := strconv.Atoi(os.Args[1])
	for _, l := range corpus.BatchDigest(i) {
		fmt.Println(l)
	}
}
