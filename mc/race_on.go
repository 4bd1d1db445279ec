//go:build race

package main

import "runtime"

// runUnordered runs f and then g in two goroutines, without a happens-before edge from f to g.
func runUnordered(f, g func()) {
	start, mid, end := make(chan bool), make(chan bool), make(chan bool, 2)
	go func() {
		runtime.RaceDisable()
		<-start
		runtime.RaceEnable()
		f()
		runtime.RaceDisable()
		mid <- true
		end <- true
		runtime.RaceEnable()
	}()
	go func() {
		runtime.RaceDisable()
		<-mid
		runtime.RaceEnable()
		g()
		end <- true
	}()
	runtime.RaceDisable()
	start <- true
	runtime.RaceEnable()
	<-end
	<-end
}
