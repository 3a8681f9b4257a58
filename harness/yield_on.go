//go:build yield

package main

import "github.com/leodido/go-urn/verifyield"

const yieldBuilt = true

// setYield makes goroutines give way inside the library: at about every k-th
// branch, for k > 0.
//
//go:norace
func setYield(k uint32) {
	if verifyield.Every != k {
		verifyield.Every = k
	}
}
