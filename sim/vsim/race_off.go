//go:build !race

package vsim

// RaceEnabled reports whether the happens-before checker is compiled in.
const RaceEnabled = false

func hide() {}
func show() {}

// RaceErrors is the number of unordered conflicting accesses seen so far.
func RaceErrors() int { return 0 }
