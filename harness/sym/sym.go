// Package sym is the interface between harnesses and the symbolic executor.  The executor intercepts every
// function here except the plain helpers; the bodies below are what runs when a harness is executed natively:
// they answer from a recorded vector of inputs.
package sym

import (
	"encoding/hex"
	"fmt"
	"math"
	"reflect"
	"strconv"
)

type Input struct {
	K string   `json:"k"`
	N string   `json:"n"`
	V []uint64 `json:"v"`
}

type Failure struct{ Kind, Msg string }

var (
	inputs   []Input
	pos      int
	logs     []string
	parallel bool
)

// Load installs a vector for the next native run; what goes beyond the vector is 0, or drawn from tail.
func Load(in []Input, par bool, tail uint64) {
	inputs, pos, logs, parallel, rnd = in, 0, nil, par, tail
}

var rnd uint64

// beyond tells whether the vector is used up and the rest is to be drawn.
func beyond() bool { return pos >= len(inputs) && rnd != 0 }

func draw(n int) int {
	rnd = rnd*6364136223846793005 + 1442695040888963407
	return int(rnd >> 33 % uint64(n))
}

func drawByte() byte {
	const likely = "0123456789-+.eE,:[]{}\"\\/ abknrtuxAB<&>\x00\n\x7f\xc3\xa9\xe2\xf0\x9f\xff"
	if draw(4) == 0 {
		return byte(draw(256))
	}
	return likely[draw(len(likely))]
}

// Logs returns what the run logged.
func Logs() []string { return logs }

func next(kind, name string, n int) []uint64 {
	if pos >= len(inputs) {
		v := make([]uint64, n)
		for i := range v {
			if rnd == 0 {
				break
			}
			if kind == "bytes" {
				v[i] = uint64(drawByte())
			} else if draw(2) == 0 {
				v[i] = uint64(draw(200))
			} else {
				v[i] = uint64(draw(1<<31))<<33 ^ uint64(draw(1<<31))<<8 ^ uint64(draw(256))
			}
		}
		return v
	}
	in := inputs[pos]
	pos++
	if in.K != kind || in.N != name || len(in.V) != n {
		panic(Failure{"mismatch", fmt.Sprintf("input %d: harness asks for %s %s[%d], vector has %s %s[%d]", pos-1, kind, name, n, in.K, in.N, len(in.V))})
	}
	return in.V
}

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(next("bytes", name, 1)[0]) }

// Bytes is n arbitrary bytes.
func Bytes(name string, n int) []byte {
	v := next("bytes", name, n)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v[i])
	}
	return b
}

// Str is an arbitrary string of n bytes.
func Str(name string, n int) string { return string(Bytes(name, n)) }

// U64 and friends are arbitrary integers.
func U64(name string) uint64 { return next("int", name, 1)[0] }
func I64(name string) int64  { return int64(next("int", name, 1)[0]) }
func U32(name string) uint32 { return uint32(next("int", name, 1)[0]) }
func I32(name string) int32  { return int32(next("int", name, 1)[0]) }

// Bool is an arbitrary boolean.
func Bool(name string) bool {
	if beyond() {
		return draw(2) == 1
	}
	return next("int", name, 1)[0] == 1
}

// Choose is a case split: one path per value in 0..n-1.
func Choose(name string, n int) int {
	if beyond() {
		return draw(n)
	}
	return int(next("int", name, 1)[0])
}

// Param is a bound depending on the tier.
func Param(name string, quick, thorough int) int {
	if pos >= len(inputs) {
		return quick
	}
	return int(next("int", name, 1)[0])
}

// Fix splits the path over the possible values of n.
func Fix(n int) int { return n }

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		panic(Failure{"assume", ""})
	}
}

// Assert states the property.
func Assert(b bool, msg string) {
	if !b {
		panic(Failure{"assert", msg})
	}
}

// Reach is a reachability witness.
func Reach(label string) {}

// Log records observed values; the executor's prediction is compared with what the real build does.
func Log(label string, vals ...any) {
	s := label + ":"
	for _, v := range vals {
		if v == nil {
			s += " nil"
			continue
		}
		r := reflect.ValueOf(v)
		switch r.Kind() {
		case reflect.String:
			s += " " + hex.EncodeToString([]byte(r.String())) + "."
		case reflect.Slice:
			s += " " + hex.EncodeToString(r.Bytes()) + "."
		case reflect.Bool:
			if r.Bool() {
				s += " 1"
			} else {
				s += " 0"
			}
		case reflect.Int, reflect.Int64:
			s += " " + strconv.FormatUint(uint64(r.Int()), 10)
		case reflect.Int32:
			s += " " + strconv.FormatUint(uint64(uint32(r.Int())), 10)
		case reflect.Int16:
			s += " " + strconv.FormatUint(uint64(uint16(r.Int())), 10)
		case reflect.Int8:
			s += " " + strconv.FormatUint(uint64(uint8(r.Int())), 10)
		case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
			s += " " + strconv.FormatUint(r.Uint(), 10)
		case reflect.Float64:
			s += " " + strconv.FormatUint(math.Float64bits(r.Float()), 10)
		case reflect.Float32:
			s += " " + strconv.FormatUint(uint64(math.Float32bits(float32(r.Float()))), 10)
		default:
			s += fmt.Sprintf(" ?%v", r.Kind())
		}
	}
	logs = append(logs, s)
}

// MapOrder selects how map iteration in the code under test is ordered: 0 insertion order, 1 reverse,
// 2 every permutation, 3 insertion and reverse at every loop.
func MapOrder(mode int) {}

// Budget allows the path so many million instructions more than usual.
func Budget(millions int) {}

// Unordered says that observed values depend on map iteration order.
func Unordered() {}

// Parallel states that the functions may run concurrently on the shared objects: none of them may write to
// memory reachable from these or from package variables without synchronisation.
func Parallel(shared []any, fs ...func()) {
	if !parallel {
		for _, f := range fs {
			f()
		}
		return
	}
	done := make(chan any, 2*len(fs))
	for i := 0; i < 2; i++ {
		for _, f := range fs {
			f := f
			go func() {
				defer func() { done <- recover() }()
				for k := 0; k < 20; k++ {
					f()
				}
			}()
		}
	}
	for i := 0; i < 2*len(fs); i++ {
		if r := <-done; r != nil {
			panic(r)
		}
	}
}

// Digits is n arbitrary decimal digits.
func Digits(name string, n int) []byte {
	if beyond() {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('0' + draw(10))
		}
		return b
	}
	b := Bytes(name, n)
	for _, c := range b {
		Assume(c >= '0' && c <= '9')
	}
	return b
}

// Range is an arbitrary int64 between lo and hi.
func Range(name string, lo, hi int64) int64 {
	if beyond() && hi-lo < 1<<30 && hi >= lo {
		return lo + int64(draw(int(hi-lo)+1))
	}
	x := I64(name)
	Assume(x >= lo && x <= hi)
	return x
}

// OneOf is an arbitrary byte out of set (kept symbolic).
func OneOf(name, set string) byte {
	if beyond() {
		return set[draw(len(set))]
	}
	b := Byte(name)
	ok := false
	for i := 0; i < len(set); i++ {
		if b == set[i] {
			ok = true
		}
	}
	Assume(ok)
	return b
}
