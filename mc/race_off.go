//go:build !race

package main

// runUnordered is only meaningful under the race detector.
func runUnordered(f, g func()) { f(); g() }
