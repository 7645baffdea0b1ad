package h

import "math"

// The engine runs these in place of functions of package math that are written in assembly, when an
// argument is symbolic.

func floatTrunc(f float64) float64 {
	b := math.Float64bits(f)
	e := b >> 52 & 0x7FF
	if e < 1023 {
		return math.Float64frombits(b & (1 << 63)) // |f| < 1
	}
	if e >= 1023+52 {
		return f
	}
	return math.Float64frombits(b &^ (1<<(52+1023-e) - 1))
}

func floatFloor(f float64) float64 {
	t := floatTrunc(f)
	if f < t {
		return t - 1
	}
	return t
}

func floatCeil(f float64) float64 { return -floatFloor(-f) }

func floatMax(x, y float64) float64 {
	switch {
	case math.IsInf(x, 1) || math.IsInf(y, 1):
		return math.Inf(1)
	case math.IsNaN(x) || math.IsNaN(y):
		return math.NaN()
	case x == 0 && y == 0:
		return math.Float64frombits(math.Float64bits(x) & math.Float64bits(y))
	case x > y:
		return x
	}
	return y
}

func floatMin(x, y float64) float64 {
	switch {
	case math.IsInf(x, -1) || math.IsInf(y, -1):
		return math.Inf(-1)
	case math.IsNaN(x) || math.IsNaN(y):
		return math.NaN()
	case x == 0 && y == 0:
		return math.Float64frombits(math.Float64bits(x) | math.Float64bits(y))
	case x < y:
		return x
	}
	return y
}
