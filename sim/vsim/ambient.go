package vsim

import (
	"io"
	"math/rand"
	randv2 "math/rand/v2"
	"os"
	"runtime"
	"strconv"
	"strings"
	"time"
)

// What a program can find out about the machine and the process it runs on.
// Config.Ambient 0 is the real thing; every other value is another machine.

var (
	bootAmbient uint64
	realEnv     = os.Environ()
)

//go:norace
func ambient() uint64 {
	if w != nil && active {
		return w.cfg.Ambient
	}
	return bootAmbient
}

func ambientOf(what string) uint64 {
	h := ambient()
	for i := 0; i < len(what); i++ {
		h = mix(h ^ uint64(what[i]))
	}
	return mix(h)
}

// NumCPU is runtime.NumCPU.
func NumCPU() int {
	if ambient() == 0 {
		return runtime.NumCPU()
	}
	return []int{1, 2, 3, 4, 16, 128}[ambientOf("cpu")%6]
}

// GOMAXPROCS is runtime.GOMAXPROCS.
func GOMAXPROCS(n int) int {
	if n > 0 || ambient() == 0 {
		return runtime.GOMAXPROCS(n)
	}
	return []int{1, 2, 3, 4, 16, 128}[ambientOf("procs")%6]
}

// NumGoroutine is runtime.NumGoroutine.
func NumGoroutine() int {
	if ambient() == 0 {
		return runtime.NumGoroutine()
	}
	return []int{1, 2, 5, 40, 5000}[ambientOf("goroutines")%5]
}

// Number is a number between 0 and n that differs between machines, or x on
// the real one.
func Number(what string, x, n int) int {
	if ambient() == 0 {
		return x
	}
	return int(ambientOf(what) % uint64(n))
}

// LookupEnv is os.LookupEnv. What the program has set itself is there; of the
// rest, another machine may have anything.
func LookupEnv(k string) (string, bool) {
	v, ok := os.LookupEnv(k)
	if ambient() == 0 || k == "" {
		return v, ok
	}
	if was, had := lookup(realEnv, k); v != was || ok != had {
		return v, ok
	}
	vals := []string{"", "0", "1", "true", "false", "C", "de_DE.UTF-8", "Asia/Tokyo", "1000000000", "/nowhere", "9", "debug"}
	i := ambientOf("env:"+k) % uint64(2*len(vals))
	if i < uint64(len(vals)) {
		return vals[i], true
	}
	return "", false
}

func lookup(env []string, k string) (string, bool) {
	for _, kv := range env {
		if v, ok := strings.CutPrefix(kv, k+"="); ok {
			return v, true
		}
	}
	return "", false
}

// Environ is os.Environ.
func Environ() []string {
	l := os.Environ()
	if ambient() == 0 {
		return l
	}
	var out []string
	for _, kv := range l {
		k, _, _ := strings.Cut(kv, "=")
		if v, ok := LookupEnv(k); ok {
			out = append(out, k+"="+v)
		}
	}
	return append(out, "VSIM="+strconv.FormatUint(ambient()%10, 10))
}

// randSource is where random numbers come from.
type randSource struct{}

//go:norace
func (randSource) Uint64() uint64 {
	if w != nil && active {
		return rnd(&w.ambRng)
	}
	return rnd(&bootRandom)
}

// Random is a random number.
func Random() uint64 { return randSource{}.Uint64() }

// CryptoReader stands for Reader of crypto/rand.
var CryptoReader io.Reader = cryptoReader{}

type cryptoReader struct{}

func (cryptoReader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(Random() >> 11)
	}
	return len(b), nil
}

// CryptoRead is Read of crypto/rand.
func CryptoRead(b []byte) (int, error) { return CryptoReader.Read(b) }

// CryptoText is Text of crypto/rand.
func CryptoText() string {
	b := make([]byte, 26)
	CryptoRead(b)
	for i := range b {
		b[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"[b[i]%32]
	}
	return string(b)
}

func (s randSource) Int63() int64 { return int64(s.Uint64() >> 1) }

func (randSource) Seed(int64) { Seeded++ }

// Seeded is how often the random numbers of the process were started over.
var Seeded int

var (
	bootRandom uint64
	random     = rand.New(randSource{})
	random2    = randv2.New(randSource{})
)

// Rand is what stands for the functions of math/rand.
func Rand() *rand.Rand { return random }

// Rand2 is what stands for the functions of math/rand/v2.
func Rand2() *randv2.Rand { return random2 }

// zone is the time zone of the machine.
func zone() *time.Location { return zoneOf(ambient()) }

func zoneOf(a uint64) *time.Location {
	if a == 0 {
		return time.UTC
	}
	switch mix(a) % 4 {
	case 0:
		return time.UTC
	case 1:
		return time.FixedZone("CET", 3600)
	case 2:
		return time.FixedZone("NPT", 5*3600+45*60)
	default:
		return time.FixedZone("", -9*3600)
	}
}
