// The program of selftest/src, instrumented, under the simulator.
package main

import (
	"fmt"
	"os"
	"strconv"

	"github.com/rossmerr/graphblas/p"
	"verifsim"
)

func main() {
	want, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	n, _ := strconv.Atoi(os.Args[2])
	policies := []string{"walk", "sync", "starve", "pct", "default"}
	for i := 0; i < n; i++ {
		traces := map[uint64]bool{}
		for again := 0; again < 2; again++ {
			out := ""
			p.Reset()
			r := sim.Run(sim.Config{Policy: policies[i%len(policies)], P: 4, Seed: uint64(i), Knobs: uint64(i)}, nil, func() { out = p.Run() })
			if r.Crash != nil || len(r.Deadlock) > 0 || r.Livelock || out != string(want) {
				fmt.Printf("seed %d: %v %v %v\n%s\n", i, r.Crash, r.Deadlock, r.Livelock, out)
				os.Exit(1)
			}
			traces[r.Trace] = true
		}
		if len(traces) != 1 {
			fmt.Printf("seed %d: two executions of one seed differ\n", i)
			os.Exit(1)
		}
	}
	fmt.Println("ok", n)
}
