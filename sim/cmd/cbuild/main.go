// Command cbuild builds the codec world for manual use: cbuild DIR RANDOM SEED [race|enums].
package main

import (
	"fmt"
	"os"
	"strconv"

	"vsim/build"
)

func main() {
	n, _ := strconv.Atoi(os.Args[2])
	s, _ := strconv.ParseUint(os.Args[3], 10, 64)
	c, err := build.BuildCodec(os.Args[1], n, s, build.Options{Race: len(os.Args) > 4, Enums: len(os.Args) > 4 && os.Args[4] == "enums"})
	fmt.Printf("%+v\n%v\n", c, err)
}
