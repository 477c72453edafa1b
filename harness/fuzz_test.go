package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"testing"

	"pgregory.net/rapid"
)

// FuzzProp searches the cases of the property VERIF_FUZZ with the coverage-guided engine of the Go tool
// chain: what it mutates are the random bits the generator of the property draws from. Failing cases are
// left in the directory VERIF_OUT, the smallest of each process; so is the case a process was at when it ended.
func FuzzProp(f *testing.F) {
	id, dir := os.Getenv("VERIF_FUZZ"), os.Getenv("VERIF_OUT")
	p := props[id]
	if p == nil || dir == "" {
		f.Skip("run by the harness")
	}
	loadKnown(id)
	seed, _ := seedFromEnv()
	rnd := rand.New(rand.NewSource(seed))
	for _, n := range []int{256, 256, 1024, 1024, 4096, 4096, 16384, 16384, 65536} {
		b := make([]byte, n)
		rnd.Read(b)
		f.Add(b)
	}
	base := filepath.Join(dir, fmt.Sprint("fuzz-", os.Getpid()))
	journal, err := os.Create(base + ".journal")
	if err != nil {
		f.Fatal(err)
	}
	watchdog(base, p.CaseCPU)
	r := &run{prop: p, journal: journal}
	f.Fuzz(rapid.MakeFuzz(func(t *rapid.T) {
		fail := p.fuzz(r, t)
		if fail == nil {
			return
		}
		if old, err := os.ReadFile(base + ".case"); err != nil || len(old) > len(fail.Data) {
			os.WriteFile(base+".case", fail.Data, 0644)
			os.WriteFile(base+".msg", []byte(fail.Msg), 0644)
		}
		t.Fatalf("violation")
	}))
}
