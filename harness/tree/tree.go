// Package tree holds the neutral syntax tree every oracle speaks: the generator and the
// reference parser build it from the language definition, canon builds it from the
// parser's AST, and two trees are equal when their texts are.
package tree

import (
	"math"
	"strconv"
	"strings"
)

// Node is a labelled ordered tree. Text is the payload (name, literal), Kids the children.
type Node struct {
	Kind string
	Text string
	Kids []*Node
	Src  string // source spelling of a literal; not part of the tree's identity
}

// Clone copies a tree.
func (n *Node) Clone() *Node {
	c := &Node{Kind: n.Kind, Text: n.Text, Src: n.Src}
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, k.Clone())
	}
	return c
}

func N(kind, text string, kids ...*Node) *Node { return &Node{Kind: kind, Text: text, Kids: kids} }

// None stands for an absent part (omitted argument, no value).
func None() *Node { return &Node{Kind: "none"} }

func Num(v float64) *Node {
	if v == 0 {
		v = 0 // -0 and 0 are the same constant
	}
	return &Node{Kind: "num", Text: strconv.FormatFloat(v, 'g', -1, 64)}
}

func Bool(b bool) *Node {
	if b {
		return &Node{Kind: "bool", Text: "true"}
	}
	return &Node{Kind: "bool", Text: "false"}
}

func Neg(n *Node) *Node { return N("neg", "", n) }
func Not(n *Node) *Node { return N("not", "", n) }

// Fold normalises unary operators applied to constants: the parser is free to fold them.
func Fold(n *Node) *Node {
	if n == nil {
		return nil
	}
	for i, k := range n.Kids {
		n.Kids[i] = Fold(k)
	}
	switch n.Kind {
	case "neg":
		if k := n.Kids[0]; k.Kind == "num" {
			v, err := strconv.ParseFloat(k.Text, 64)
			if err == nil && !math.IsNaN(v) {
				return Num(-v)
			}
		}
	case "not":
		if k := n.Kids[0]; k.Kind == "bool" {
			return Bool(k.Text != "true")
		}
	case "tuple":
		// a parenthesised single expression is that expression
		if len(n.Kids) == 1 && n.Kids[0].Kind != "none" {
			return n.Kids[0]
		}
	}
	return n
}

func (n *Node) String() string {
	var b strings.Builder
	n.write(&b)
	return b.String()
}

func (n *Node) write(b *strings.Builder) {
	if n == nil {
		b.WriteString("nil")
		return
	}
	b.WriteByte('(')
	b.WriteString(n.Kind)
	if n.Text != "" {
		b.WriteByte(' ')
		b.WriteString(strconv.Quote(n.Text))
	}
	for _, k := range n.Kids {
		b.WriteByte(' ')
		k.write(b)
	}
	b.WriteByte(')')
}

// Equal compares two trees without building their texts.
func Equal(a, b *Node) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.Kind != b.Kind || a.Text != b.Text || len(a.Kids) != len(b.Kids) {
		return false
	}
	for i := range a.Kids {
		if !Equal(a.Kids[i], b.Kids[i]) {
			return false
		}
	}
	return true
}

// Size counts the nodes.
func (n *Node) Size() int {
	s := 1
	for _, k := range n.Kids {
		s += k.Size()
	}
	return s
}

// Depth is the length of the longest path from the root.
func (n *Node) Depth() int {
	d := 0
	for _, k := range n.Kids {
		d = max(d, k.Depth())
	}
	return d + 1
}

// Diff describes the first place where two trees part.
func Diff(want, got *Node) string {
	var path []string
	for {
		if want == nil || got == nil {
			return strings.Join(path, "/") + ": want " + want.String() + " got " + got.String()
		}
		if want.Kind != got.Kind || want.Text != got.Text || len(want.Kids) != len(got.Kids) {
			return strings.Join(path, "/") + ": want " + clip(want.String()) + " got " + clip(got.String())
		}
		next := -1
		for i := range want.Kids {
			if !Equal(want.Kids[i], got.Kids[i]) {
				next = i
				break
			}
		}
		if next < 0 {
			return "equal"
		}
		path = append(path, want.Kind+"["+strconv.Itoa(next)+"]")
		if len(path) > 40 {
			path = append([]string{"..."}, path[len(path)-30:]...)
		}
		want, got = want.Kids[next], got.Kids[next]
	}
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "…"
	}
	return s
}
