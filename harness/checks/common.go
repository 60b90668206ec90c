// Package checks holds one monitor per property.
package checks

import (
	"math/rand/v2"
	"sort"
	"strings"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/canon"
	"verif/gen"
	"verif/lexref"
	"verif/mon"
	"verif/ref"
	"verif/tree"
)

var registry = map[string]*mon.Check{}

func register(c *mon.Check) { registry[c.ID] = c }

// All is every registered check.
func All() map[string]*mon.Check {
	for id, gs := range extra {
		registry[id].Groups = append(registry[id].Groups, gs...)
	}
	extra = nil
	return registry
}

// parse runs the code under test.
func parse(c *mon.Ctx, src string) (*ast.AstNode, error) {
	c.Doing(src)
	a := ast.NewAST(src)
	err := a.Parse()
	return a, err
}

// wantTree: src must be accepted and mean want (which is put into normal form).
func wantTree(c *mon.Ctx, src string, want *tree.Node) *ast.AstNode {
	c.Eval(1)
	a, err := parse(c, src)
	if err != nil {
		c.Fail(src, "a well-formed module was rejected: %v", err)
	}
	got := canon.Module(&a.ModuleStatement)
	if !tree.Equal(want, got) {
		c.Fail(src, "wrong tree at %s", tree.Diff(want, got))
	}
	c.Count("tree_nodes_compared", want.Size())
	return a
}

// wantGen spells a generated tree in a random style and layout and checks the parse of it.
func wantGen(c *mon.Ctx, m *tree.Node) (string, *ast.AstNode, *tree.Node) {
	src := gen.Full(c.R, m)
	want := tree.Fold(m.Clone())
	a := wantTree(c, src, want)
	return src, a, want
}

// wantReject: src must be rejected.
func wantReject(c *mon.Ctx, src, why string) {
	c.Eval(1)
	_, err := parse(c, src)
	if err == nil {
		c.Fail(src, "accepted although %s", why)
	}
	c.Count("rejections_checked", 1)
}

// diff compares the code under test with the reference parser on any text.
func diff(c *mon.Ctx, src string) (*ref.Result, bool) {
	r := ref.Parse(src)
	switch {
	case r.Accept():
		wantTree(c, src, r.Tree)
		c.Count("accepted", 1)
		return r, true
	case r.Reject():
		wantReject(c, src, rejectReason(r))
		c.Count("rejected", 1)
		return r, true
	}
	c.Count("unspecified_skipped", 1)
	return r, false
}

func rejectReason(r *ref.Result) string {
	switch {
	case r.LexErr != nil:
		return r.LexErr.Error()
	case r.Syntax && r.ErrTok < len(r.Toks):
		return "no module continues with token " + r.Toks[r.ErrTok].Lit
	case r.Syntax:
		return "the module is not finished"
	}
	return r.Sem
}

// kinds of tokens for enumeration
func spell(k lexref.Kind, n int) string {
	switch k {
	case lexref.Ident:
		return []string{"а", "б", "в", "г", "д", "е"}[n%6]
	case lexref.Number:
		return []string{"1", "2.5", "30"}[n%3]
	case lexref.String:
		return []string{`"с"`, `""`}[n%2]
	case lexref.Date:
		return "'20200102'"
	case lexref.Label:
		return "~м"
	case lexref.Directive:
		return "&НаСервере"
	}
	return string(k)
}

func join(toks []string) string { return strings.Join(toks, " ") }

func pickS(r *rand.Rand, s ...string) string { return s[r.IntN(len(s))] }

// few is, now and then, a handful of related names.
func few(r *rand.Rand) []string {
	if r.IntN(4) > 0 {
		return nil
	}
	return gen.FewNames(r)
}

// cfgFor varies the shape of generated modules by case number.
func cfgFor(r *rand.Rand) gen.Cfg {
	c := gen.Default()
	c.Budget = 5 + r.IntN(120)
	if r.IntN(40) == 0 {
		c.Budget = 2000
	}
	if r.IntN(3) == 0 {
		c.Reuse = 1 + r.IntN(90)
	}
	if r.IntN(3) == 0 {
		c.Repeat = 1 + r.IntN(30)
	}
	if r.IntN(6) == 0 {
		c.Few = gen.FewNames(r)
	}
	switch r.IntN(8) {
	case 0:
		c.Depth, c.Stmts = 6, 1
	case 1:
		c.Stmts, c.Depth = 6, 2
	case 2:
		c.ExprDepth = 6
	case 3:
		c.BigLists = true
	case 4:
		c.Exotic = true
	case 5:
		c.Routines, c.Globals = 5, 6
	case 6:
		c.ExprDepth, c.Depth, c.Stmts = 1, 4, 3
	}
	return c
}

func canonModule(a *ast.AstNode) *tree.Node { return canon.Module(&a.ModuleStatement) }

func sortNodes(k []*tree.Node) {
	sort.Slice(k, func(i, j int) bool { return k[i].Text < k[j].Text })
}
