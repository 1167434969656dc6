package main

import (
	"fmt"
	"os"

	"verif/harness/lang"
)

func main() {
	for _, c := range lang.Consts(os.Args[1]) {
		fmt.Println(c)
	}
}
