package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Expr is a specification expression.
type Expr struct {
	Op      string // id int str bin un call field index forall exists
	S       string
	Args    []*Expr
	Binders []Binder
	Trigs   [][]*Expr
}
type Binder struct{ Name, Type string }

type token_ struct {
	k byte // i ident, n number, s string, o operator, e end
	s string
	p int
}

type parser struct {
	src  string
	toks []token_
	i    int
}

func lex(s string) ([]token_, error) {
	var out []token_
	i := 0
	for i < len(s) {
		ch := s[i]
		switch {
		case ch == ' ' || ch == '\t' || ch == '\n':
			i++
		case ch == '_' || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch == '$':
			j := i
			for j < len(s) && (s[j] == '_' || s[j] == '$' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			out = append(out, token_{'i', s[i:j], i})
			i = j
		case ch >= '0' && ch <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			out = append(out, token_{'n', s[i:j], i})
			i = j
		case ch == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				return nil, fmt.Errorf("unterminated string")
			}
			v, err := strconv.Unquote(s[i : j+1])
			if err != nil {
				return nil, err
			}
			out = append(out, token_{'s', v, i})
			i = j + 1
		default:
			op := ""
			for _, o := range []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", ":="} {
				if strings.HasPrefix(s[i:], o) {
					op = o
					break
				}
			}
			if op == "" {
				op = string(ch)
			}
			out = append(out, token_{'o', op, i})
			i += len(op)
		}
	}
	out = append(out, token_{'e', "", len(s)})
	return out, nil
}

func parseExpr(s string) (e *Expr, err error) {
	toks, err := lex(s)
	if err != nil {
		return nil, err
	}
	p := &parser{src: s, toks: toks}
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(perr); ok {
				err = fmt.Errorf("%s", string(pe))
				return
			}
			panic(r)
		}
	}()
	e = p.expr(0)
	if p.peek().k != 'e' {
		p.fail("unexpected " + p.peek().s)
	}
	return e, nil
}

type perr string

func (p *parser) fail(m string) {
	pos := p.toks[p.i].p
	end := pos + 30
	if end > len(p.src) {
		end = len(p.src)
	}
	panic(perr(m + " near " + strconv.Quote(p.src[pos:end])))
}
func (p *parser) peek() token_ { return p.toks[p.i] }
func (p *parser) isOp(o string) bool {
	t := p.toks[p.i]
	return t.k == 'o' && t.s == o
}
func (p *parser) want(o string) {
	if !p.isOp(o) {
		p.fail("expected " + o)
	}
	p.i++
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (p *parser) expr(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		op := t.s
		if !(t.k == 'o' || t.k == 'i' && op == "in") {
			return l
		}
		pr, ok := prec[op]
		if !ok || pr < min {
			return l
		}
		p.i++
		var r *Expr
		if op == "==>" {
			r = p.expr(pr) // right associative
		} else {
			r = p.expr(pr + 1)
		}
		l = &Expr{Op: "bin", S: op, Args: []*Expr{l, r}}
	}
}

func (p *parser) unary() *Expr {
	t := p.peek()
	if t.k == 'o' && (t.s == "!" || t.s == "-") {
		p.i++
		return &Expr{Op: "un", S: t.s, Args: []*Expr{p.unary()}}
	}
	if t.k == 'i' && (t.s == "forall" || t.s == "exists") {
		p.i++
		e := &Expr{Op: t.s}
		for {
			n := p.peek()
			if n.k != 'i' {
				p.fail("binder expected")
			}
			p.i++
			// type text up to , or ::
			st := p.peek().p
			depth := 0
			for {
				x := p.peek()
				if x.k == 'e' {
					p.fail("binder type")
				}
				if x.k == 'o' && depth == 0 && (x.s == "," || x.s == "::") {
					break
				}
				if x.k == 'o' && (x.s == "[" || x.s == "(") {
					depth++
				}
				if x.k == 'o' && (x.s == "]" || x.s == ")") {
					depth--
				}
				p.i++
			}
			e.Binders = append(e.Binders, Binder{n.s, strings.TrimSpace(p.src[st:p.peek().p])})
			if p.isOp("::") {
				break
			}
			p.want(",")
		}
		// x, y T : give earlier binders without a type the later type
		for i := len(e.Binders) - 2; i >= 0; i-- {
			if e.Binders[i].Type == "" {
				e.Binders[i].Type = e.Binders[i+1].Type
			}
		}
		p.want("::")
		for p.isOp("{") {
			p.i++
			var tr []*Expr
			for {
				tr = append(tr, p.expr(0))
				if p.isOp(",") {
					p.i++
					continue
				}
				break
			}
			p.want("}")
			e.Trigs = append(e.Trigs, tr)
		}
		e.Args = []*Expr{p.expr(0)}
		return e
	}
	return p.postfix()
}

func (p *parser) postfix() *Expr {
	var e *Expr
	t := p.peek()
	switch t.k {
	case 'i':
		p.i++
		e = &Expr{Op: "id", S: t.s}
	case 'n':
		p.i++
		e = &Expr{Op: "int", S: t.s}
	case 's':
		p.i++
		e = &Expr{Op: "str", S: t.s}
	case 'o':
		if t.s == "(" {
			p.i++
			e = p.expr(0)
			p.want(")")
			break
		}
		fallthrough
	default:
		p.fail("expression expected")
	}
	for {
		switch {
		case p.isOp("."):
			p.i++
			n := p.peek()
			if n.k != 'i' {
				p.fail("field name expected")
			}
			p.i++
			e = &Expr{Op: "field", S: n.s, Args: []*Expr{e}}
		case p.isOp("["):
			p.i++
			ix := p.expr(0)
			p.want("]")
			e = &Expr{Op: "index", Args: []*Expr{e, ix}}
		case p.isOp("("):
			p.i++
			c := &Expr{Op: "call", Args: []*Expr{e}}
			for !p.isOp(")") {
				c.Args = append(c.Args, p.expr(0))
				if p.isOp(",") {
					p.i++
				} else {
					break
				}
			}
			p.want(")")
			e = c
		default:
			return e
		}
	}
}
