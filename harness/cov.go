//go:build cov

package main

import "github.com/leodido/go-urn/verifcov"

func clearCounters() {
	for i := range verifcov.Files {
		c := verifcov.Files[i].Count
		for j := range c {
			c[j] = 0
		}
	}
}

func sumCounters() int64 {
	var n int64
	for i := range verifcov.Files {
		f := &verifcov.Files[i]
		for j, c := range f.Count {
			n += int64(c) * int64(f.Stmts[j])
		}
	}
	return n
}
