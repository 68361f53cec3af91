package vsim

import "runtime/metrics"

// Work the library has others do for it - strings and slices it has copied,
// converted or searched by the standard library - is counted in elements.

//go:norace
func addWork(n int) {
	if active {
		w.work += uint64(n)
	}
}

// Spent is what has been done so far in this run, by everybody: statements,
// and work done elsewhere.
//
//go:norace
func Spent() uint64 {
	if !active {
		return 0
	}
	return w.total + w.work/workUnit
}

// workUnit is how many elements are worth a statement.
const workUnit = 4

// Work counts a string that is used as a whole.
func Work[T ~string](x T) T {
	addWork(len(x))
	return x
}

// WorkSlice counts a slice that is used as a whole.
func WorkSlice[T ~[]E, E any](x T) T {
	addWork(len(x))
	return x
}

// WorkCat counts x += y.
func WorkCat[T ~string](x, y T) T {
	addWork(len(x) + len(y))
	return y
}

// A meter bounds the memory a task asks for, for every statement it executes:
// what a statement copies, say, is work that is not counted in statements.
type meter struct {
	at, from, steps uint64
	base, each      uint64
	sample          [1]metrics.Sample
}

const meterEvery = 1 << 14

// SetMeter bounds the bytes the current task asks for until the next SetLimit.
//
//go:norace
func SetMeter(base, each uint64) {
	if !active {
		return
	}
	t := cur
	m := &meter{base: base, each: each, steps: t.steps, at: t.steps + meterEvery}
	m.sample[0].Name = "/gc/heap/allocs:bytes"
	m.from = m.read()
	t.meter = m
	t.arm()
}

func (m *meter) read() uint64 {
	metrics.Read(m.sample[:])
	return m.sample[0].Value.Uint64()
}

//go:norace
func (m *meter) over(t *Task) bool {
	m.at = t.steps + meterEvery
	return m.read()-m.from > m.base+m.each*(t.steps-m.steps)
}
