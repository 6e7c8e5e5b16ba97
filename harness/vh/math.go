package vh

import (
	"math"
	"math/big"
)

// Fn names the functions of the model.
var fn1 = map[string]func(float64) float64{
	"mathSqrt": math.Sqrt, "mathAcos": math.Acos, "mathAsin": math.Asin, "mathAtan": math.Atan, "mathCos": math.Cos,
	"mathSin": math.Sin, "mathTan": math.Tan, "mathExp": math.Exp, "mathLn": math.Log, "mathLog": math.Log10,
	"mathCeil": math.Ceil, "mathFloor": math.Floor,
	"mathDegrees": func(x float64) float64 { return x * 180 / math.Pi },
	"mathRadians": func(x float64) float64 { return x * math.Pi / 180 },
}

// Fn1Names are the functions of one argument, Fn2Names those of two.
var Fn1Names = []string{"mathAbs", "mathRound", "mathCeil", "mathFloor", "mathNegate", "mathSqrt", "mathAcos", "mathAsin", "mathAtan", "mathCos",
	"mathSin", "mathTan", "mathExp", "mathLn", "mathLog", "mathDegrees", "mathRadians"}
var Fn2Names = []string{"mathAdd", "mathSubract", "mathMultiply", "mathDivide", "mathModulo", "mathPow", "mathAtan2"}

// exact functions have the same float result however they are computed
var exactFn = map[string]bool{"mathAbs": true, "mathRound": true, "mathCeil": true, "mathFloor": true, "mathNegate": true, "mathSqrt": true,
	"mathAdd": true, "mathSubract": true, "mathMultiply": true, "mathDivide": true}

// FnRes is what a function must yield; Any means the model makes no claim
// (integer result that fits no single 64-bit type, or mixed operands whose exact
// result does not fit).
type FnRes struct {
	V   CV
	Any bool
}

// fits gives the integer as a CV, in the type in which it fits.
func fits(b *big.Int) (CV, bool) {
	if b.IsInt64() {
		return CVInt(b.Int64()), true
	}
	if b.IsUint64() {
		return CVUint(b.Uint64()), true
	}
	return CV{}, false
}

func inv() FnRes { return FnRes{V: CV{T: TInvalid}} }

// common says whether all the integers fit one 64-bit type, signed or unsigned.
func common(bs ...*big.Int) bool {
	s, u := true, true
	for _, b := range bs {
		s = s && b.IsInt64()
		u = u && b.IsUint64()
	}
	return s || u
}

// CallFn evaluates a function in the model.
func CallFn(name string, args []CV) FnRes {
	fz := false
	for _, a := range args {
		fz = fz || a.Fuzz
	}
	fl := func(f float64) FnRes {
		return FnRes{V: CV{T: TFloat, F: f, Fuzz: fz || !exactFn[name]}}
	}
	switch name {
	case "date":
		switch args[0].T {
		case TTime:
			v := args[0]
			return FnRes{V: v}
		case TStr:
			if tm, ok := ParseDateFunc(args[0].S); ok {
				return FnRes{V: CV{T: TTime, Tm: tm}}
			}
		}
		return inv()
	case "mathPi":
		return FnRes{V: CVFloat(math.Pi)}
	case "mathE":
		return FnRes{V: CVFloat(math.E)}
	}
	for _, a := range args {
		if !a.num() {
			return inv()
		}
	}
	if f, ok := fn1[name]; ok {
		r := fl(f(args[0].Float()))
		if args[0].integ() && (name == "mathCeil" || name == "mathFloor") && exactFloat(args[0]) == false {
			r.Any = true
		}
		return r
	}
	a := args[0]
	switch name {
	case "mathAbs", "mathRound", "mathNegate":
		if a.T == TFloat {
			switch name {
			case "mathAbs":
				return fl(math.Abs(a.F))
			case "mathRound":
				return fl(math.Round(a.F))
			}
			return fl(-a.F)
		}
		b := a.Big()
		r := new(big.Int).Set(b)
		switch name {
		case "mathAbs":
			r.Abs(b)
		case "mathNegate":
			r.Neg(b)
		}
		v, ok := fits(r)
		if !ok || !common(b, r) {
			return FnRes{Any: true}
		}
		return FnRes{V: v}
	case "mathPow":
		return fl(math.Pow(args[0].Float(), args[1].Float()))
	case "mathAtan2":
		return fl(math.Atan2(args[0].Float(), args[1].Float()))
	}
	b := args[1]
	if !a.integ() || !b.integ() {
		x, y := a.Float(), b.Float()
		switch name {
		case "mathAdd":
			return fl(x + y)
		case "mathSubract":
			return fl(x - y)
		case "mathMultiply":
			return fl(x * y)
		case "mathDivide":
			return fl(x / y)
		}
		return inv() // modulo of floats
	}
	x, y := a.Big(), b.Big()
	r := new(big.Int)
	switch name {
	case "mathAdd":
		r.Add(x, y)
	case "mathSubract":
		r.Sub(x, y)
	case "mathMultiply":
		r.Mul(x, y)
	case "mathDivide", "mathModulo":
		if y.Sign() == 0 {
			return inv()
		}
		if name == "mathDivide" {
			r.Quo(x, y)
		} else {
			r.Rem(x, y)
		}
	}
	v, ok := fits(r)
	if !ok || !common(x, y, r) {
		return FnRes{Any: true}
	}
	if a.T != TUint && b.T != TUint && !r.IsInt64() {
		return FnRes{Any: true} // signed arithmetic, the result does not fit
	}
	return FnRes{V: v}
}

func exactFloat(v CV) bool {
	f := v.Float()
	b, _ := new(big.Float).SetFloat64(f).Int(nil)
	return b.Cmp(v.Big()) == 0
}

// SameNum compares a computed number with the model's: integers exactly (in any
// integer type, or as the float of the same value), floats to a relative 1e-12.
func SameNum(got, want CV) bool {
	if want.T == TInvalid {
		return got.T == TInvalid
	}
	if !got.num() || !want.num() {
		return false
	}
	if want.integ() && got.integ() {
		return got.Big().Cmp(want.Big()) == 0
	}
	if want.integ() != got.integ() {
		// the same number in another representation
		w, g := want, got
		if got.integ() {
			w, g = got, want
		}
		return exactFloat(w) && w.Float() == g.F && math.Abs(g.F) < 1<<63
	}
	if math.IsNaN(want.F) || math.IsNaN(got.F) {
		return math.IsNaN(want.F) == math.IsNaN(got.F)
	}
	if got.F == want.F {
		return true
	}
	if math.IsInf(got.F, 0) || math.IsInf(want.F, 0) {
		return false
	}
	if !want.Fuzz {
		return false
	}
	return math.Abs(got.F-want.F) <= 1e-12*math.Max(math.Abs(got.F), math.Abs(want.F))
}
