// Command zsdump writes random schema sets to a directory.
package main

import (
	"os"
	"path/filepath"
	"strconv"

	"vsim/rng"
	"vsim/zsgen"
)

func main() {
	n, _ := strconv.Atoi(os.Args[2])
	for i := 0; i < n; i++ {
		r := rng.New(uint64(i), 5)
		o := zsgen.Options{Collide: r.P(40), Long: r.P(25), MaxPkgs: 1 + r.N(5), MaxTypes: 2 + r.N(10), Templates: r.P(70), Bulk: len(os.Args) > 3}
		for _, f := range zsgen.Random(r, filepath.Join(os.Args[1], strconv.Itoa(i)), o) {
			os.MkdirAll(filepath.Dir(f.Path), 0o755)
			os.WriteFile(f.Path, []byte(f.Text()), 0o644)
		}
	}
}
