// Package ref is an independent reference for JSONPath as documented by
// forsyth/jsonpath: a scannerless parser for the documented grammar, and an
// evaluator for its documented meaning. It shares no code with /repo.
//
// Where the documentation leaves something open the evaluator says
// "unspecified", and callers then compare nothing.
package ref

import "regexp"

// Kinds of expression node.
type Kind int

const (
	KInt Kind = iota
	KReal
	KStr
	KBool
	KNull
	KRegex
	KName // a bare name
	KCur  // @
	KRoot // $
	KNeg
	KNot
	KBin
	KIndex // kids[0][kids[1]]
	KDot   // kids[0].S
	KCall  // S(kids...)
	KArray
)

// Expr is an expression tree.
type Expr struct {
	K    Kind
	I    int64
	F    float64
	S    string // string, name, member, function, regexp text
	B    bool
	Op   string // for KBin
	Kids []*Expr
	Re   *regexp.Regexp
	Text string // optional spelling, for literals being rendered
}

// SelKind is the kind of one element of a subscript.
type SelKind int

const (
	SName  SelKind = iota // member by name
	SInt                  // index
	SSlice                // slice
)

// Bound is an optional slice bound.
type Bound struct {
	Set bool
	N   int64
	E   *Expr // an expression bound
}

// Sel is one union element.
type Sel struct {
	K                  SelKind
	S                  string
	N                  int64
	Bare               bool   // name written without quotes
	Text               string // optional spelling
	Start, End, Stride Bound
}

// StepKind is the kind of a step.
type StepKind int

const (
	TSel StepKind = iota // one or more Sels
	TWild
	TExpr
	TFilter
)

// Step is a step in a path.
type Step struct {
	K       StepKind
	Nest    bool // ".."
	Bracket bool // written with brackets
	Sels    []Sel
	E       *Expr
}

// Path is a parsed path.
type Path struct {
	Steps []*Step
}

// Prec gives the precedence of binary operators, loosest 0.
var Prec = map[string]int{
	"||": 0,
	"&&": 1,
	"==": 2, "!=": 2,
	"<": 3, "<=": 3, ">": 3, ">=": 3, "=~": 3, "~": 3, "in": 3, "nin": 3,
	"+": 4, "-": 4,
	"*": 5, "/": 5, "%": 5,
}
