package main

import (
	"encoding/json"

	"github.com/go-latex/latex/vsim"
	"github.com/go-latex/latex/vsim/simos"
)

// Plan is one simulated execution, completely: what the callers do, which
// faults meet them and how they are scheduled.
type Plan struct {
	Prop  string      `json:"prop"`
	Seed  uint64      `json:"seed"`
	Race  bool        `json:"race,omitempty"`
	Cfg   vsim.Config `json:"cfg"`
	Setup []Op        `json:"setup,omitempty"`
	Stir  uint64      `json:"stir,omitempty"` // how memory is stirred before the process starts
	Tasks [][]Op      `json:"tasks"`
}

// Op is one call a simulated caller makes.
type Op struct {
	K    string   `json:"k"`
	X    string   `json:"x,omitempty"`
	Size float64  `json:"size,omitempty"`
	DPI  float64  `json:"dpi,omitempty"`
	F    string   `json:"f,omitempty"` // font collection: go, lm, lib, io
	I    int      `json:"i,omitempty"` // index of a shared object
	N    int      `json:"n,omitempty"`
	S    bool     `json:"s,omitempty"`   // caller scribbles over its own result
	Sh   bool     `json:"sh,omitempty"`  // the font collection is the one other calls use
	Raw  bool     `json:"raw,omitempty"` // caller does not look at the result before it shares it
	Q    []Query  `json:"q,omitempty"`
	A    []string `json:"a,omitempty"` // command line
	B    *Box     `json:"b,omitempty"` // box the caller builds
	W    int      `json:"w,omitempty"` // what else the caller's writer can do, a bit each

	Fault *Fault    `json:"fault,omitempty"`
	Disk  *DiskPlan `json:"disk,omitempty"`
	Nest  *Op       `json:"nest,omitempty"` // call made from inside a callback
	Cyc   []Op      `json:"cyc,omitempty"`  // calls repeated over and over
}

// Fault is one injected fault of an operation.
type Fault struct {
	Where string `json:"where"` // write, render, backend, visit, font
	At    int    `json:"at"`    // call number, from 1
	Kind  string `json:"kind"`  // err, panic, goexit, stall, nest, corrupt, short
	Short int    `json:"short,omitempty"`
	Err   string `json:"err,omitempty"`
	Stick bool   `json:"stick,omitempty"`
}

// DiskPlan is what goes wrong with the simulated disk.
type DiskPlan struct {
	Faults []simos.Fault `json:"faults,omitempty"`
	Cap    int64         `json:"cap,omitempty"`
	Crash  int           `json:"crash,omitempty"`
	Sig    string        `json:"sig,omitempty"`  // the signal that does it
	Old    int           `json:"old,omitempty"`  // size of the file that is there before
	Like   string        `json:"like,omitempty"` // how it relates to the one to be made
	old    []byte
}

// Query is one call on a font backend.
type Query struct {
	K     string  `json:"k"` // metrics, kern, glyph, xheight, uline, parse
	Sym   string  `json:"sym,omitempty"`
	Sym2  string  `json:"sym2,omitempty"`
	Name  string  `json:"name,omitempty"`
	Type  string  `json:"type,omitempty"`
	Type2 string  `json:"type2,omitempty"`
	Size  float64 `json:"size,omitempty"`
	Name2 string  `json:"name2,omitempty"`
	Size2 float64 `json:"size2,omitempty"`
	DPI   float64 `json:"dpi,omitempty"`
	Math  bool    `json:"math,omitempty"`
	B     int     `json:"b,omitempty"` // which backend of the collection is asked
}

func clone[T any](x T) T {
	raw, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	var y T
	if err := json.Unmarshal(raw, &y); err != nil {
		panic(err)
	}
	return y
}

func js(x any) string {
	raw, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	return string(raw)
}

// bare is the operation without its faults.
func (op Op) bare() Op {
	op.Fault = nil
	op.Disk = nil
	op.Nest = nil
	op.S = false
	op.Raw = false
	op.W = 0
	return op
}

func faultOn(r *Rng, errs []string) simos.Fault {
	f := simos.Fault{Op: pickOf(r, "write", "write", "write", "close", "close", "open", "sync", "rename"), Nth: 1, Err: pickOf(r, errs...)}
	if r.pct(12) { // whatever is done then
		f.Op, f.Nth = "any", r.in(1, pickOf(r, 7, 40))
	}
	if f.Op == "write" {
		f.Nth = r.in(1, 3)
		f.Short = pickOf(r, 0, 0, 1, 100, 2000)
		f.Stick = r.pct(50)
	}
	if f.Op == "close" {
		f.Short = pickOf(r, 0, 1, 64, 4096)
	}
	return f
}
