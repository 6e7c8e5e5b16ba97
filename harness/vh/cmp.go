package vh

import (
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"
)

// CT is the type of a value in the comparison model.
type CT int

// The order is the collation order.
const (
	TInvalid CT = iota
	TMissing
	TNull
	TFalse
	TTrue
	TUint
	TInt
	TFloat
	TStr
	TTime
	TArr
	TObj
)

func (t CT) String() string {
	return []string{"invalid", "missing", "null", "false", "true", "uint", "int", "float", "str", "time", "arr", "obj"}[t]
}

// CV is a value in the comparison model.
type CV struct {
	T       CT
	I       int64
	U       uint64
	F       float64
	S       string // decoded
	Raw     string // arrays and objects
	Tm      time.Time
	UD      bool // user-given literal
	MaybeUD bool // function of a literal: no claim whether it still counts as one
	Fuzz    bool // computed by an inexact function: near ties are not decided
}

func (v CV) num() bool   { return v.T == TUint || v.T == TInt || v.T == TFloat }
func (v CV) integ() bool { return v.T == TUint || v.T == TInt }
func (v CV) bool() bool  { return v.T == TTrue || v.T == TFalse }

// Float is the value as float64.
func (v CV) Float() float64 {
	switch v.T {
	case TInt:
		return float64(v.I)
	case TUint:
		return float64(v.U)
	case TFloat:
		return v.F
	case TTrue:
		return 1
	}
	return 0
}

// Big is the exact value of an integer.
func (v CV) Big() *big.Int {
	switch v.T {
	case TInt:
		return big.NewInt(v.I)
	case TUint:
		return new(big.Int).SetUint64(v.U)
	case TTrue:
		return big.NewInt(1)
	}
	return big.NewInt(0)
}

// CVInt makes an integer value.
func CVInt(i int64) CV { return CV{T: TInt, I: i} }

// CVUint makes an unsigned value.
func CVUint(u uint64) CV { return CV{T: TUint, U: u} }

// CVFloat makes a floating point value.
func CVFloat(f float64) CV { return CV{T: TFloat, F: f} }

// CVStr makes a string value.
func CVStr(s string) CV { return CV{T: TStr, S: s} }

// CVOfNode gives the value of a document node as the matcher is to see it.
func CVOfNode(n *Node) CV {
	if n == nil {
		return CV{T: TMissing}
	}
	switch n.K {
	case 'n':
		return CV{T: TNull}
	case 't':
		return CV{T: TTrue}
	case 'f':
		return CV{T: TFalse}
	case '#':
		return CVOfNumText(n.Num)
	case 's':
		return CVStr(n.Str)
	case 'a':
		return CV{T: TArr, Raw: n.Raw}
	}
	return CV{T: TObj, Raw: n.Raw}
}

// CVOfNumText classifies number text: integers as signed, unsigned or (beyond
// 64 bits) floating point; everything with a fraction or exponent as floating point.
func CVOfNumText(s string) CV {
	if !strings.ContainsAny(s, ".eE") {
		b, ok := new(big.Int).SetString(s, 10)
		if ok {
			if b.IsInt64() {
				return CVInt(b.Int64())
			}
			if b.IsUint64() {
				return CVUint(b.Uint64())
			}
		}
	}
	f, _ := strconv.ParseFloat(s, 64)
	return CVFloat(f)
}

// Cmp is a comparison outcome. Ambig means the model makes no claim.
type Cmp struct {
	R     int
	Valid bool
	Ambig bool
	Raw   bool // decided on the raw text of arrays or objects
}

const eps = 1e-7

func cmpFloat(a, b float64, fuzz bool) Cmp {
	if math.IsNaN(a) || math.IsNaN(b) {
		r := 0
		if math.IsNaN(a) && !math.IsNaN(b) {
			r = -1
		} else if !math.IsNaN(a) {
			r = 1
		}
		return Cmp{R: r, Valid: false, Ambig: false}
	}
	d := math.Abs(a - b)
	c := Cmp{Valid: true}
	if d < eps {
		c.R = 0
	} else if a < b {
		c.R = -1
	} else if a > b {
		c.R = 1
	}
	if d != 0 && math.Abs(d-eps) < 1e-12 {
		c.Ambig = true
	}
	if fuzz {
		scale := math.Max(math.Abs(a), math.Abs(b))
		if d != 0 && d < scale*1e-9 && d > eps/2 {
			c.Ambig = true
		}
	}
	return c
}

func cmpBig(a, b *big.Int) Cmp { return Cmp{R: a.Cmp(b), Valid: true} }

func cmpNum(a, b CV) Cmp {
	if a.integ() && b.integ() {
		return cmpBig(a.Big(), b.Big())
	}
	return cmpFloat(a.Float(), b.Float(), a.Fuzz || b.Fuzz)
}

func sign(i int) int {
	switch {
	case i < 0:
		return -1
	case i > 0:
		return 1
	}
	return 0
}

func collate(a, b CV) Cmp {
	return Cmp{R: sign(int(a.T) - int(b.T)), Valid: false}
}

func cmpBool(a, b bool) Cmp {
	switch {
	case a == b:
		return Cmp{R: 0, Valid: true}
	case a:
		return Cmp{R: 1, Valid: true}
	}
	return Cmp{R: -1, Valid: true}
}

func (v CV) truth() bool {
	switch v.T {
	case TTrue:
		return true
	case TInt:
		return v.I != 0
	case TUint:
		return v.U != 0
	case TFloat:
		return v.F != 0
	}
	return false
}

func numText(v CV) string {
	switch v.T {
	case TInt:
		return strconv.FormatInt(v.I, 10)
	case TUint:
		return strconv.FormatUint(v.U, 10)
	}
	return strconv.FormatFloat(v.F, 'E', -1, 64)
}

func cmpStr(a, b string) Cmp { return Cmp{R: strings.Compare(a, b), Valid: true} }

func cmpTime(a, b time.Time) Cmp { return Cmp{R: a.Compare(b), Valid: true} }

// Compare is the comparison table.
func Compare(a, b CV) Cmp {
	for _, v := range []*CV{&a, &b} {
		if v.MaybeUD {
			v.MaybeUD = false
			c := Compare(a, b)
			v.UD = true
			d := Compare(a, b)
			c.Ambig = c.Ambig || d.Ambig || c.R != d.R || c.Valid != d.Valid
			return c
		}
	}
	if a.T > b.T {
		c := Compare(b, a)
		c.R = -c.R
		return c
	}
	// a.T <= b.T
	switch {
	case a.T == TInvalid && b.T == TNull:
		// null compares with anything, and is less than anything else
		return Cmp{R: 1, Valid: true}
	case a.T == TInvalid || a.T == TMissing:
		return collate(a, b)
	case a.T == TNull:
		if b.T == TNull {
			return Cmp{R: 0, Valid: true}
		}
		return Cmp{R: -1, Valid: !b.UD}
	case a.bool() && b.bool():
		return cmpBool(a.T == TTrue, b.T == TTrue)
	case a.num() && b.num():
		return cmpNum(a, b)
	case a.bool() && b.num():
		if b.UD {
			// the bool becomes 0 or 1
			if b.T == TFloat {
				return cmpFloat(a.Float(), b.F, b.Fuzz)
			}
			return cmpBig(a.Big(), b.Big())
		}
		c := cmpBool(a.T == TTrue, b.truth())
		if b.Fuzz && math.Abs(b.F) < 1e-9 {
			c.Ambig = true
		}
		return c
	case a.bool() && b.T == TStr:
		if a.UD {
			return collate(a, b)
		}
		return Cmp{R: 0, Valid: false}
	case a.num() && b.T == TStr:
		if a.UD {
			switch a.T {
			case TInt:
				if i, err := strconv.ParseInt(b.S, 10, 64); err == nil {
					return cmpBig(a.Big(), big.NewInt(i))
				}
			case TUint:
				if u, err := strconv.ParseUint(b.S, 10, 64); err == nil {
					return cmpBig(a.Big(), new(big.Int).SetUint64(u))
				}
			}
			return collate(a, b)
		}
		if !b.UD {
			switch a.T {
			case TInt:
				if i, err := strconv.ParseInt(b.S, 10, 64); err == nil {
					return cmpBig(a.Big(), big.NewInt(i))
				}
			case TUint:
				if u, err := strconv.ParseUint(b.S, 10, 64); err == nil {
					return cmpBig(a.Big(), new(big.Int).SetUint64(u))
				}
			}
		}
		c := cmpStr(numText(a), b.S)
		c.Ambig = a.Fuzz
		return c
	case a.T == TStr && b.T == TStr:
		return cmpStr(a.S, b.S)
	case a.T == TStr && b.T == TTime:
		if a.UD && !b.UD {
			return collate(a, b)
		}
		if tm, ok := ParseTime(a.S); ok {
			return cmpTime(tm, b.Tm)
		}
		return collate(a, b)
	case a.T == TTime && b.T == TTime:
		return cmpTime(a.Tm, b.Tm)
	case a.T == b.T && (a.T == TArr || a.T == TObj):
		if len(a.Raw) != len(b.Raw) {
			return Cmp{R: sign(len(a.Raw) - len(b.Raw)), Valid: true, Raw: true}
		}
		return Cmp{R: strings.Compare(a.Raw, b.Raw), Valid: true, Raw: true}
	}
	return collate(a, b)
}

// ---- dates (own parser, not the time package's) ----

func digits(s string) (int, bool) {
	v := 0
	for _, c := range s {
		if c < '0' || c > '9' {
			return 0, false
		}
		v = v*10 + int(c-'0')
	}
	return v, len(s) > 0
}

// DaysIn gives the days of a month in the proleptic Gregorian calendar.
func DaysIn(y, m int) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	}
	return 31
}

func civil(y, m, d, hh, mm, ss, ns, off int) (time.Time, bool) {
	if m < 1 || m > 12 || d < 1 || d > DaysIn(y, m) || hh > 23 || mm > 59 || ss > 59 {
		return time.Time{}, false
	}
	// days from 1970-01-01
	days := 0
	yy, mo := y, m
	if mo <= 2 {
		yy--
		mo += 12
	}
	days = 365*yy + fdiv(yy, 4) - fdiv(yy, 100) + fdiv(yy, 400) + (153*(mo-3)+2)/5 + d - 1 - 719468
	secs := int64(days)*86400 + int64(hh*3600+mm*60+ss-off)
	return time.Unix(secs, int64(ns)), true
}

func fdiv(a, b int) int {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func shortDate(s string) (time.Time, bool) {
	if len(s) < 4 || s[:2] != "19" && s[:2] != "20" {
		return time.Time{}, false
	}
	y, ok := digits(s[:4])
	if !ok {
		return time.Time{}, false
	}
	m, d := 1, 1
	switch len(s) {
	case 4:
	case 10:
		var ok2 bool
		d, ok2 = digits(s[8:10])
		if s[7] != '-' || !ok2 {
			return time.Time{}, false
		}
		fallthrough
	case 7:
		var ok2 bool
		m, ok2 = digits(s[5:7])
		if s[4] != '-' || !ok2 {
			return time.Time{}, false
		}
	default:
		return time.Time{}, false
	}
	return civil(y, m, d, 0, 0, 0, 0, 0)
}

func clock(s string) (h, m, sec int, ok bool) {
	if len(s) != 8 || s[2] != ':' || s[5] != ':' {
		return
	}
	h, ok1 := digits(s[0:2])
	m, ok2 := digits(s[3:5])
	sec, ok3 := digits(s[6:8])
	return h, m, sec, ok1 && ok2 && ok3 && h < 24 && m < 60 && sec < 60
}

// ParseTime parses a date literal: RFC 3339, YYYY, YYYY-MM or YYYY-MM-DD.
func ParseTime(s string) (time.Time, bool) {
	if t, ok := shortDate(s); ok {
		return t, true
	}
	if len(s) < 20 || s[4] != '-' || s[7] != '-' || s[10] != 'T' {
		return time.Time{}, false
	}
	y, ok1 := digits(s[0:4])
	mo, ok2 := digits(s[5:7])
	d, ok3 := digits(s[8:10])
	h, mi, sec, ok4 := clock(s[11:19])
	if !ok1 || !ok2 || !ok3 || !ok4 {
		return time.Time{}, false
	}
	rest := s[19:]
	ns := 0
	if rest[0] == '.' {
		i := 1
		for i < len(rest) && rest[i] >= '0' && rest[i] <= '9' {
			i++
		}
		if i == 1 {
			return time.Time{}, false
		}
		frac := rest[1:i]
		if len(frac) > 9 {
			frac = frac[:9]
		}
		for len(frac) < 9 {
			frac += "0"
		}
		ns, _ = digits(frac)
		rest = rest[i:]
	}
	off := 0
	if rest == "Z" {
	} else if len(rest) == 6 && (rest[0] == '+' || rest[0] == '-') && rest[3] == ':' {
		oh, a := digits(rest[1:3])
		om, b := digits(rest[4:6])
		if !a || !b || oh > 23 || om > 59 {
			return time.Time{}, false
		}
		off = oh*3600 + om*60
		if rest[0] == '-' {
			off = -off
		}
	} else {
		return time.Time{}, false
	}
	return civil(y, mo, d, h, mi, sec, ns, off)
}

// ParseDateFunc parses what the date function accepts: date literals and
// YYYY-MM-DD HH:MM:SS with one or more spaces.
func ParseDateFunc(s string) (time.Time, bool) {
	if t, ok := ParseTime(s); ok {
		return t, true
	}
	if len(s) >= 19 && s[10] == ' ' {
		day, ok := shortDate(s[:10])
		if !ok {
			return time.Time{}, false
		}
		rest := strings.TrimLeft(s[10:], " ")
		h, m, sec, ok := clock(rest)
		if !ok {
			return time.Time{}, false
		}
		return day.Add(time.Duration(h*3600+m*60+sec) * time.Second), true
	}
	return time.Time{}, false
}
