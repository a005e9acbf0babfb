// The program of selftest/src as it is.
package main

import (
	"fmt"

	"github.com/rossmerr/graphblas/p"
)

func main() { fmt.Print(p.Run()) }
