//go:build race

package vsim

import "runtime"

// RaceEnabled reports whether the happens-before checker is compiled in.
const RaceEnabled = true

// hide/show bracket the scheduler's own hand-offs, so that the happens-before
// checker sees only the synchronisation the code under test performs itself.
//
//go:norace
func hide() { runtime.RaceDisable() }

//go:norace
func show() { runtime.RaceEnable() }

// RaceErrors is the number of unordered conflicting accesses seen so far.
func RaceErrors() int { return runtime.RaceErrors() }
