//go:build !yield

package main

const yieldBuilt = false

func setYield(uint32) {}
