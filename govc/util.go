package main

import (
	"fmt"
	"math/big"
	"os"
)

var debug = os.Getenv("GOVC_DEBUG") != ""

func debugf(f string, a ...any) {
	if debug {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func new2(k int) *big.Int { return new(big.Int).Lsh(one, uint(k)) }
