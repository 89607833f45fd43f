package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Contract files.

type Clause struct {
	Name string
	Src  string
	E    ast.Expr
}

type LoopSpec struct {
	Inv     []Clause
	Dec     []Clause
	Mods    []Clause
	Hints   []Clause
	Free    []Clause // assumed (trusted) facts, reported
	HasMods bool
	Unroll  int
	Diverge bool
	Breaks  []Clause
}

type Contract struct {
	Func     string
	Kind     string // "func", "extern", "inline"
	Props    []string
	Params   []string
	Results  []string
	Options  map[string]string
	Requires []Clause
	Ensures  []Clause
	Modifies []Clause
	Dec      []Clause
	Panics   []Clause
	Hints    []Clause
	Sets     []Clause // ghost variables given a value at exit
	Rep      []Clause // of an interface: per implementing type, what holds of its values between calls
	Lets     []Clause // ghost abbreviations evaluated at entry
	Each     []Clause // FN, SET, VALUES: runs the callback FN on every key of SET
	Gives    []Clause // what the callback of "runs" is given, as arg0, arg1, ...
	Runs     []string // FN: runs the callback FN inside a transaction
	Rollback []string // the ghosts a transaction restores when it fails
	Loops    map[int]*LoopSpec
	File     string
	Line     int
	Pure     *Clause // pure definition: result == expr
	Note     string
}

type Macro struct {
	Name   string
	Params []string
	E      ast.Expr
}
type UFDecl struct {
	Name string
	Args []Sort
	Ret  Sort
}
type AxiomDecl struct {
	Name  string
	E     ast.Expr
	Lemma bool
}

// RecDecl is a recursive definition of a specification function; the measure is checked to decrease.
type RecDecl struct {
	Name    string
	Params  []string
	Sorts   []Sort
	Res     Sort
	Measure ast.Expr
	Body    ast.Expr
}

type Specs struct {
	Recs      []*RecDecl
	Contracts map[string]*Contract
	Macros    map[string]*Macro
	UFs       map[string]*UFDecl
	Axioms    []AxiomDecl
	Ghosts    map[string]Sort
	Impls     map[string]string // interface -> sole implementing type (checked)
	Ignore    map[string]bool   // heap keys whose writes are not checked against frames
	Errors    []string
}

var clauseKW = map[string]bool{"property": true, "params": true, "results": true, "options": true, "requires": true, "sets": true,
	"ensures": true, "gives": true, "rep": true, "modifies": true, "decreases": true, "panics": true, "hint": true, "loop": true, "invariant": true,
	"let": true, "unroll": true, "assume": true, "note": true, "pure": true, "diverge": true, "each": true, "runs": true, "rollback": true}

func parseSort(s string) Sort {
	s = strings.TrimSpace(s)
	return Sort(s)
}

func LoadSpecs(dir string) (*Specs, error) {
	sp := &Specs{Contracts: map[string]*Contract{}, Macros: map[string]*Macro{}, UFs: map[string]*UFDecl{}, Ghosts: map[string]Sort{}, Impls: map[string]string{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		if err := sp.load(f); err != nil {
			return nil, fmt.Errorf("%s: %w", f, err)
		}
	}
	return sp, nil
}

func (sp *Specs) load(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	type line struct {
		n    int
		ind  bool
		text string
	}
	var lines []line
	for i, l := range strings.Split(string(b), "\n") {
		if k := strings.Index(l, " //"); k >= 0 {
			l = l[:k]
		}
		if strings.HasPrefix(strings.TrimSpace(l), "//") || strings.HasPrefix(strings.TrimSpace(l), "#") {
			continue
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		ind := l[0] == ' ' || l[0] == '\t'
		t := strings.TrimSpace(l)
		kw := t
		if k := strings.IndexAny(t, " \t"); k >= 0 {
			kw = t[:k]
		}
		if ind && !clauseKW[kw] && len(lines) > 0 {
			lines[len(lines)-1].text += " " + t
			continue
		}
		lines = append(lines, line{i + 1, ind, t})
	}
	var cur *Contract
	var loop *LoopSpec
	for _, l := range lines {
		kw, rest, _ := strings.Cut(l.text, " ")
		rest = strings.TrimSpace(rest)
		fail := func(err error) error { return fmt.Errorf("line %d: %v", l.n, err) }
		expr := func(s string) (ast.Expr, error) {
			e, err := parser.ParseExpr(s)
			if err != nil {
				return nil, fmt.Errorf("line %d: %v in %q", l.n, err, s)
			}
			return e, nil
		}
		clause := func(def string) (Clause, error) {
			c := Clause{Name: def, Src: rest}
			s := rest
			if k := strings.Index(s, ":"); k > 0 && isIdent(strings.TrimSpace(s[:k])) && !strings.HasPrefix(s[k:], ":=") {
				c.Name = strings.TrimSpace(s[:k])
				s = s[k+1:]
				c.Src = strings.TrimSpace(s)
			}
			e, err := expr(s)
			c.E = e
			return c, err
		}
		if !l.ind {
			cur, loop = nil, nil
			switch kw {
			case "define":
				lhs, rhs, ok := strings.Cut(rest, " = ")
				if !ok {
					return fail(fmt.Errorf("bad define"))
				}
				e, err := expr(rhs)
				if err != nil {
					return err
				}
				le, err := expr(lhs)
				if err != nil {
					return err
				}
				m := &Macro{E: e}
				switch x := le.(type) {
				case *ast.CallExpr:
					m.Name = x.Fun.(*ast.Ident).Name
					for _, a := range x.Args {
						m.Params = append(m.Params, a.(*ast.Ident).Name)
					}
				case *ast.Ident:
					m.Name = x.Name
				}
				if sp.Macros[m.Name] != nil {
					return fmt.Errorf("%s is defined twice", m.Name)
				}
				sp.Macros[m.Name] = m
			case "uf":
				// uf name(Sort; Sort) Sort
				op := strings.Index(rest, "(")
				name := strings.TrimSpace(rest[:op])
				depth, cl := 0, -1
				for i := op; i < len(rest); i++ {
					if rest[i] == '(' {
						depth++
					} else if rest[i] == ')' {
						depth--
						if depth == 0 {
							cl = i
							break
						}
					}
				}
				var as []Sort
				if a := strings.TrimSpace(rest[op+1 : cl]); a != "" {
					for _, x := range strings.Split(a, ",") {
						as = append(as, parseSort(x))
					}
				}
				sp.UFs[name] = &UFDecl{name, as, parseSort(rest[cl+1:])}
			case "rec":
				// rec name(p: Sort, ...) Sort by MEASURE = BODY: a recursive definition
				lhs, rhs, ok := strings.Cut(rest, " = ")
				if !ok {
					return fail(fmt.Errorf("bad rec"))
				}
				lhs, by, ok := strings.Cut(lhs, " by ")
				if !ok {
					return fail(fmt.Errorf("rec without measure"))
				}
				op, cl := strings.Index(lhs, "("), strings.LastIndex(lhs, ")")
				r := &RecDecl{Name: strings.TrimSpace(lhs[:op])}
				res := strings.TrimSpace(lhs[cl+1:])
				if strings.HasSuffix(lhs, ")") { // array result
					k := strings.LastIndex(lhs, "(Array")
					res = lhs[k:]
					cl = strings.LastIndex(lhs[:k], ")")
				}
				for _, p := range splitTop(lhs[op+1 : cl]) {
					n, t, _ := strings.Cut(p, ":")
					r.Params = append(r.Params, strings.TrimSpace(n))
					r.Sorts = append(r.Sorts, parseSort(t))
				}
				r.Res = parseSort(res)
				var err error
				if r.Measure, err = expr(by); err != nil {
					return err
				}
				if r.Body, err = expr(rhs); err != nil {
					return err
				}
				sp.UFs[r.Name] = &UFDecl{r.Name, r.Sorts, r.Res}
				sp.UFs[r.Name+"_lim"] = &UFDecl{r.Name + "_lim", r.Sorts, r.Res}
				sp.Recs = append(sp.Recs, r)
			case "ignore": // a field of a dependency's struct that means nothing here: writing it is permitted everywhere
				if sp.Ignore == nil {
					sp.Ignore = map[string]bool{}
				}
				k := strings.LastIndexByte(rest, '.')
				sp.Ignore["F|"+rest[:k]+"|"+rest[k:]] = true
			case "implementer":
				n, t, _ := strings.Cut(rest, "=")
				sp.Impls[strings.TrimSpace(n)] = strings.TrimSpace(t)
			case "ghost":
				n, s, _ := strings.Cut(rest, ":")
				sp.Ghosts[strings.TrimSpace(n)] = parseSort(s)
			case "axiom", "lemma":
				c, err := clause("axiom")
				if err != nil {
					return err
				}
				sp.Axioms = append(sp.Axioms, AxiomDecl{c.Name, c.E, kw == "lemma"})
			case "func", "extern", "inline", "interface":
				if kw != "func" {
					rest = strings.TrimSpace(strings.TrimPrefix(rest, "func "))
				}
				cur = &Contract{Func: rest, Kind: kw, Options: map[string]string{}, Loops: map[int]*LoopSpec{}, File: filepath.Base(file), Line: l.n}
				if _, dup := sp.Contracts[rest]; dup {
					return fail(fmt.Errorf("duplicate contract for %s", rest))
				}
				sp.Contracts[rest] = cur
			default:
				return fail(fmt.Errorf("unknown top-level %q", kw))
			}
			continue
		}
		if cur == nil {
			return fail(fmt.Errorf("clause outside contract"))
		}
		var c Clause
		var err error
		switch kw {
		case "property":
			cur.Props = append(cur.Props, strings.Fields(strings.ReplaceAll(rest, ",", " "))...)
		case "params":
			cur.Params = strings.Fields(strings.ReplaceAll(rest, ",", " "))
		case "results":
			cur.Results = strings.Fields(strings.ReplaceAll(rest, ",", " "))
		case "options":
			for _, o := range strings.Fields(strings.ReplaceAll(rest, ",", " ")) {
				k, v, _ := strings.Cut(o, "=")
				cur.Options[k] = v
			}
		case "each": // each FN, SET, VALUES: the call runs FN on every key in SET, in some order
			for _, part := range splitTop(rest) {
				e, err := expr(part)
				if err != nil {
					return err
				}
				cur.Each = append(cur.Each, Clause{Src: part, E: e})
			}
			if len(cur.Each) != 3 {
				return fail(fmt.Errorf("each FN, SET, VALUES"))
			}
		case "runs": // runs FN [twice]: the call runs FN once, keeping the ghosts of "rollback" if it or the commit fails
			cur.Runs = strings.Fields(rest)
		case "rollback":
			cur.Rollback = strings.Fields(strings.ReplaceAll(rest, ",", " "))
		case "note":
			cur.Note += rest + " "
		case "loop":
			n := 0
			fmt.Sscanf(rest, "%d", &n)
			loop = &LoopSpec{}
			cur.Loops[n] = loop
		case "unroll":
			fmt.Sscanf(rest, "%d", &loop.Unroll)
		case "diverge":
			loop.Diverge = true
		case "modifies":
			if loop != nil {
				loop.HasMods = true
			}
			for _, part := range splitTop(rest) {
				e, err := expr(part)
				if err != nil {
					return err
				}
				cl := Clause{Src: part, E: e}
				if loop != nil {
					loop.Mods = append(loop.Mods, cl)
				} else {
					cur.Modifies = append(cur.Modifies, cl)
				}
			}
		default:
			if c, err = clause(""); err != nil {
				return err
			}
			switch kw {
			case "requires":
				if c.Name == "" {
					c.Name = fmt.Sprintf("req%d", len(cur.Requires)+1)
				}
				cur.Requires = append(cur.Requires, c)
			case "ensures":
				if c.Name == "" {
					c.Name = fmt.Sprintf("ens%d", len(cur.Ensures)+1)
				}
				cur.Ensures = append(cur.Ensures, c)
			case "rep":
				cur.Rep = append(cur.Rep, c)
			case "sets":
				if _, ok := sp.Ghosts[c.Name]; !ok {
					return fail(fmt.Errorf("sets of undeclared ghost %q", c.Name))
				}
				cur.Sets = append(cur.Sets, c)
				cur.Modifies = append(cur.Modifies, Clause{Src: c.Name, E: ast.NewIdent(c.Name)})
			case "gives":
				cur.Gives = append(cur.Gives, c)
			case "pure":
				cur.Pure = &c
			case "panics":
				cur.Panics = append(cur.Panics, c)
			case "let":
				cur.Lets = append(cur.Lets, c)
			case "hint":
				if loop != nil {
					loop.Hints = append(loop.Hints, c)
				} else {
					cur.Hints = append(cur.Hints, c)
				}
			case "decreases":
				if loop != nil {
					loop.Dec = append(loop.Dec, c)
				} else {
					cur.Dec = append(cur.Dec, c)
				}
			case "invariant":
				if loop == nil {
					return fail(fmt.Errorf("invariant outside loop"))
				}
				if c.Name == "" {
					c.Name = fmt.Sprintf("inv%d", len(loop.Inv)+1)
				}
				loop.Inv = append(loop.Inv, c)
			case "assume":
				if loop != nil {
					loop.Free = append(loop.Free, c)
				}
			default:
				return fail(fmt.Errorf("unknown clause %q", kw))
			}
		}
	}
	return nil
}

func isIdent(s string) bool {
	if s == "" {
		return false
	}
	for i, c := range s {
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return true
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[st:]); t != "" {
		out = append(out, t)
	}
	return out
}
