package vsim

import (
	"reflect"
	"runtime"
	"sync"
)

// Finalizers. The runtime tells when an object is gone, which is a matter of
// the garbage collector's; what was to be done about it is then left to the
// simulator: a task looks (Collect) for objects of its own that are gone, and
// their finalizers are run by a goroutine that is scheduled like any other.

type final struct {
	seq   uint64
	owner *Task
	run   func()
}

var finals struct {
	sync.Mutex
	set  uint64 // how many there were ever
	gone []*final
}

//go:norace
func owner() *Task {
	if !active {
		return nil
	}
	return cur
}

// SetFinalizer is runtime.SetFinalizer.
//
//go:norace
func SetFinalizer(obj, fn any) {
	if fn == nil {
		runtime.SetFinalizer(obj, nil)
		return
	}
	f := reflect.ValueOf(fn)
	if f.Kind() != reflect.Func || f.Type().NumIn() != 1 || f.Type().IsVariadic() {
		runtime.SetFinalizer(obj, fn)
		return
	}
	finals.set++
	d := &final{seq: finals.set, owner: owner()}
	typ := f.Type()
	runtime.SetFinalizer(obj, reflect.MakeFunc(typ, func(args []reflect.Value) []reflect.Value {
		d.run = func() { f.Call(args) }
		finals.Lock()
		finals.gone = append(finals.gone, d)
		finals.Unlock()
		out := make([]reflect.Value, typ.NumOut())
		for i := range out {
			out[i] = reflect.Zero(typ.Out(i))
		}
		return out
	}).Interface())
	if d.owner != nil {
		d.owner.finals++
	}
}

// Collect collects garbage, if the current task has set finalizers, and has
// those run whose objects are gone.
//
//go:norace
func Collect() {
	t := owner()
	if t == nil || t.finals == 0 || Stopping() {
		return
	}
	for i := 0; i < 2; i++ {
		// an object that is gone by the time a later one is found gone.
		ch := make(chan struct{})
		x := new([64]byte)
		runtime.SetFinalizer(x, func(*[64]byte) { close(ch) })
		runtime.GC()
		<-ch
	}
	var mine, rest []*final
	finals.Lock()
	for _, d := range finals.gone {
		switch {
		case d.owner == t:
			mine = append(mine, d)
		case d.owner != nil && d.owner.state != done:
			rest = append(rest, d)
		}
	}
	finals.gone = rest
	finals.Unlock()
	for i := range mine {
		for j := i; j > 0 && mine[j].seq < mine[j-1].seq; j-- {
			mine[j], mine[j-1] = mine[j-1], mine[j]
		}
	}
	t.finals -= len(mine)
	if len(mine) > 0 {
		Finalized += len(mine)
		start(func() {
			for _, d := range mine {
				d.run()
			}
		})
	}
}

// Finalized is how many finalizers were run.
var Finalized int
