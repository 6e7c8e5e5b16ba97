package vh

import (
	"encoding/json"
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
)

// Lit is a literal: T names the Go type it is given as, V its text.
type Lit struct {
	T string // null true false str int int8.. uint64 float32 float64
	V string `json:",omitempty"`
}

// Operand is an operand of a comparison.
type Operand struct {
	K    string     // field lit func time
	Root int        `json:",omitempty"`
	Path []string   `json:",omitempty"`
	Lit  *Lit       `json:",omitempty"`
	Fn   string     `json:",omitempty"`
	Args []*Operand `json:",omitempty"`
	S    string     `json:",omitempty"` // time text
}

// E is a condition.
type E struct {
	Op   string   // and or not true false exists missing eq ne lt le gt ge like any every anyevery
	Kids []*E     `json:",omitempty"`
	L    *Operand `json:",omitempty"`
	R    *Operand `json:",omitempty"`
	Re   string   `json:",omitempty"`
	Var  int      `json:",omitempty"`
	In   *Operand `json:",omitempty"`
}

// Field makes a field operand.
func Field(root int, path ...string) *Operand { return &Operand{K: "field", Root: root, Path: path} }

// IsCmp says whether the condition compares two operands.
func (e *E) IsCmp() bool {
	switch e.Op {
	case "eq", "ne", "lt", "le", "gt", "ge":
		return true
	}
	return false
}

// IsLoop says whether the condition is a loop.
func (e *E) IsLoop() bool { return e.Op == "any" || e.Op == "every" || e.Op == "anyevery" }

func (o *Operand) String() string {
	if o == nil {
		return "nil"
	}
	switch o.K {
	case "field":
		return fmt.Sprintf("$%d%q", o.Root, o.Path)
	case "lit":
		return o.Lit.T + ":" + o.Lit.V
	case "time":
		return "time:" + o.S
	}
	var a []string
	for _, x := range o.Args {
		a = append(a, x.String())
	}
	return o.Fn + "(" + strings.Join(a, ",") + ")"
}

func (e *E) String() string { b, _ := json.Marshal(e); return string(b) }

// Walk visits every condition.
func (e *E) Walk(f func(*E)) {
	f(e)
	for _, k := range e.Kids {
		k.Walk(f)
	}
}

// WalkOperands visits every operand of the condition itself, recursively into functions.
func (e *E) WalkOperands(f func(*Operand)) {
	var rec func(o *Operand)
	rec = func(o *Operand) {
		if o == nil {
			return
		}
		f(o)
		for _, a := range o.Args {
			rec(a)
		}
	}
	rec(e.L)
	rec(e.R)
	rec(e.In)
}

// WalkAllOperands visits every operand of every condition below e.
func (e *E) WalkAllOperands(f func(*Operand)) { e.Walk(func(x *E) { x.WalkOperands(f) }) }

// FieldsOf counts the field references in an operand.
func FieldsOf(o *Operand) int {
	if o == nil {
		return 0
	}
	n := 0
	if o.K == "field" {
		n = 1
	}
	for _, a := range o.Args {
		n += FieldsOf(a)
	}
	return n
}

// CV gives the literal's value in the comparison model.
func (l *Lit) CV() CV {
	v := CV{UD: true}
	switch {
	case l.T == "null":
		v.T = TNull
	case l.T == "true":
		v.T = TTrue
	case l.T == "false":
		v.T = TFalse
	case l.T == "str":
		v.T = TStr
		v.S = l.V
	case strings.HasPrefix(l.T, "int"):
		v.T = TInt
		v.I, _ = strconv.ParseInt(l.V, 10, 64)
	case strings.HasPrefix(l.T, "uint"):
		v.T = TUint
		v.U, _ = strconv.ParseUint(l.V, 10, 64)
	case strings.HasPrefix(l.T, "float"):
		v.T = TFloat
		bits := 64
		if l.T == "float32" {
			bits = 32
		}
		v.F, _ = strconv.ParseFloat(l.V, bits)
	default:
		panic("bad literal " + l.T)
	}
	return v
}

// Go gives the literal as the Go value it names.
func (l *Lit) Go() interface{} {
	i, _ := strconv.ParseInt(l.V, 10, 64)
	u, _ := strconv.ParseUint(l.V, 10, 64)
	switch l.T {
	case "null":
		return nil
	case "true":
		return true
	case "false":
		return false
	case "str":
		return l.V
	case "int":
		return int(i)
	case "int8":
		return int8(i)
	case "int16":
		return int16(i)
	case "int32":
		return int32(i)
	case "int64":
		return i
	case "uint":
		return uint(u)
	case "uint8":
		return uint8(u)
	case "uint16":
		return uint16(u)
	case "uint32":
		return uint32(u)
	case "uint64":
		return u
	case "float32":
		f, _ := strconv.ParseFloat(l.V, 32)
		return float32(f)
	case "float64":
		f, _ := strconv.ParseFloat(l.V, 64)
		return f
	}
	panic("bad literal " + l.T)
}

// Env holds the loop variables; variable 0 is the document.
type Env map[int]*Node

// Ev collects what an evaluation used.
type Ev struct {
	Ambig   bool // the model makes no claim
	Raw     bool // whole arrays or objects were compared by their text
	Invalid bool // an executed comparison fell back to collation
	Exec    int  // comparisons executed
}

// Value evaluates an operand. missing = it is a field the document lacks, or a
// function of one.
func (ev *Ev) Value(o *Operand, env Env) (v CV, missing bool) {
	switch o.K {
	case "field":
		n := env[o.Root].Resolve(o.Path)
		if n == nil {
			return CV{T: TMissing}, true
		}
		return CVOfNode(n), false
	case "lit":
		return o.Lit.CV(), false
	case "time":
		tm, ok := ParseTime(o.S)
		if !ok {
			panic("bad time literal " + o.S)
		}
		return CV{T: TTime, Tm: tm, UD: true}, false
	case "func":
		var args []CV
		for _, a := range o.Args {
			v, m := ev.Value(a, env)
			missing = missing || m
			args = append(args, v)
		}
		if missing {
			return CV{T: TInvalid}, true
		}
		r := CallFn(o.Fn, args)
		if r.Any {
			ev.Ambig = true
		}
		r.V.UD = false
		for _, a := range args {
			r.V.MaybeUD = r.V.MaybeUD || a.UD || a.MaybeUD
		}
		return r.V, false
	}
	panic("bad operand " + o.K)
}

// Eval evaluates the condition by its definition.
func (ev *Ev) Eval(e *E, env Env) bool {
	switch e.Op {
	case "true":
		return true
	case "false":
		return false
	case "and":
		r := true
		for _, k := range e.Kids {
			if !ev.Eval(k, env) {
				r = false
			}
		}
		return r
	case "or":
		r := false
		for _, k := range e.Kids {
			if ev.Eval(k, env) {
				r = true
			}
		}
		return r
	case "not":
		return !ev.Eval(e.Kids[0], env)
	case "exists":
		_, m := ev.Value(e.L, env)
		return !m
	case "missing":
		_, m := ev.Value(e.L, env)
		return m
	case "any", "every", "anyevery":
		target := env[e.In.Root].Resolve(e.In.Path)
		if target == nil || target.K != 'a' {
			return false
		}
		some, all := false, true
		for _, el := range target.Arr {
			sub := Env{}
			for k, v := range env {
				sub[k] = v
			}
			sub[e.Var] = el
			if ev.Eval(e.Kids[0], sub) {
				some = true
			} else {
				all = false
			}
		}
		switch e.Op {
		case "any":
			return some
		case "every":
			return all
		}
		return all && len(target.Arr) > 0
	case "like":
		v, m := ev.Value(e.L, env)
		if m {
			return false
		}
		ev.Exec++
		if v.T != TStr {
			ev.Invalid = true
			return false
		}
		return regexp.MustCompile(e.Re).MatchString(v.S)
	}
	if !e.IsCmp() {
		panic("bad op " + e.Op)
	}
	a, m1 := ev.Value(e.L, env)
	b, m2 := ev.Value(e.R, env)
	if m1 || m2 {
		return e.Op == "ne" // not equals is the negation of equals
	}
	ev.Exec++
	c := Compare(a, b)
	ev.Ambig = ev.Ambig || c.Ambig
	ev.Raw = ev.Raw || c.Raw
	if !c.Valid {
		ev.Invalid = true
	}
	switch e.Op {
	case "eq":
		return c.R == 0 && c.Valid
	case "ne":
		return !(c.R == 0 && c.Valid)
	case "lt":
		return c.R < 0
	case "le":
		return c.R <= 0
	case "gt":
		return c.R > 0
	}
	return c.R >= 0
}

// EvalDoc evaluates over a parsed document.
func EvalDoc(e *E, doc *Node) (bool, *Ev) {
	ev := &Ev{}
	r := ev.Eval(e, Env{0: doc})
	return r, ev
}

// Leaves counts conditions that look at the document.
func (e *E) Leaves() int {
	n := 0
	e.Walk(func(x *E) {
		if x.L != nil || x.In != nil {
			n++
		}
	})
	return n
}

// Has says whether a condition with the op occurs.
func (e *E) Has(op string) bool {
	r := false
	e.Walk(func(x *E) { r = r || x.Op == op })
	return r
}

// JSON writes the condition in the documented JSON expression form; ok is false
// if it has none (constants; literals other than those JSON has).
func (e *E) JSON() (string, bool) {
	v, ok := e.jsonVal()
	if !ok {
		return "", false
	}
	b, err := json.Marshal(v)
	return string(b), err == nil
}

var jsonOps = map[string]string{"and": "and", "or": "or", "not": "not", "exists": "exists", "missing": "notexists", "eq": "equals", "ne": "notequals",
	"lt": "lessthan", "le": "lessequals", "gt": "greaterthan", "ge": "greaterequals", "any": "anyin", "every": "everyin", "anyevery": "anyeveryin", "like": "like"}

func (e *E) jsonVal() (interface{}, bool) {
	op, ok := jsonOps[e.Op]
	if !ok {
		return nil, false
	}
	out := []interface{}{op}
	if e.IsLoop() {
		in, ok := e.In.jsonVal()
		if !ok {
			return nil, false
		}
		out = append(out, e.Var, in)
	}
	if e.L != nil {
		l, ok := e.L.jsonVal()
		if !ok {
			return nil, false
		}
		out = append(out, l)
	}
	if e.R != nil {
		r, ok := e.R.jsonVal()
		if !ok {
			return nil, false
		}
		out = append(out, r)
	}
	if e.Op == "like" {
		out = append(out, []interface{}{"regex", e.Re})
	}
	for _, k := range e.Kids {
		kv, ok := k.jsonVal()
		if !ok {
			return nil, false
		}
		out = append(out, kv)
	}
	return out, true
}

func (o *Operand) jsonVal() (interface{}, bool) {
	switch o.K {
	case "field":
		out := []interface{}{"field"}
		if o.Root != 0 || len(o.Path) == 0 {
			out = append(out, o.Root)
		}
		for _, p := range o.Path {
			out = append(out, p)
		}
		return out, true
	case "lit":
		switch o.Lit.T {
		case "null", "true", "false", "str":
			return []interface{}{"value", o.Lit.Go()}, true
		case "float64":
			f := o.Lit.Go().(float64)
			if math.IsNaN(f) || math.IsInf(f, 0) {
				return nil, false
			}
			return []interface{}{"value", f}, true
		}
		return nil, false
	case "time":
		return []interface{}{"time", o.S}, true
	case "func":
		out := []interface{}{"func", o.Fn}
		for _, a := range o.Args {
			v, ok := a.jsonVal()
			if !ok {
				return nil, false
			}
			out = append(out, v)
		}
		return out, true
	}
	return nil, false
}
