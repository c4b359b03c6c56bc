package sim

import "strings"

// expr is a boolean or scalar expression of a constraint, predicate, policy
// or view.
type expr struct {
	op   string // col num str word call and or not = < ... isnull isnotnull neg cast star
	s    string
	qual string
	args []*expr
	typ  string
}

func (p *parser) expr() *expr { return p.exprOr() }

func (p *parser) exprOr() *expr {
	l := p.exprAnd()
	for p.kw("or") {
		r := p.exprAnd()
		if l.op == "or" {
			l.args = append(l.args, r)
		} else {
			l = &expr{op: "or", args: []*expr{l, r}, typ: "boolean"}
		}
	}
	return l
}

func (p *parser) exprAnd() *expr {
	l := p.exprNot()
	for p.kw("and") {
		r := p.exprNot()
		if l.op == "and" {
			l.args = append(l.args, r)
		} else {
			l = &expr{op: "and", args: []*expr{l, r}, typ: "boolean"}
		}
	}
	return l
}

func (p *parser) exprNot() *expr {
	if p.kw("not") {
		return &expr{op: "not", args: []*expr{p.exprNot()}, typ: "boolean"}
	}
	return p.exprCmp()
}

func (p *parser) exprCmp() *expr {
	l := p.exprAdd()
	for {
		switch {
		case p.kw("is", "not", "null"):
			l = &expr{op: "isnotnull", args: []*expr{l}, typ: "boolean"}
			continue
		case p.kw("is", "null"):
			l = &expr{op: "isnull", args: []*expr{l}, typ: "boolean"}
			continue
		}
		t := p.peek()
		if t.k == tOp {
			switch t.s {
			case "=", "<", ">", "<=", ">=", "<>", "!=":
				p.next()
				op := t.s
				if op == "!=" {
					op = "<>"
				}
				l = &expr{op: op, args: []*expr{l, p.exprAdd()}, typ: "boolean"}
				continue
			}
		}
		return l
	}
}

func (p *parser) exprAdd() *expr {
	l := p.exprMul()
	for p.isOp("+") || p.isOp("-") {
		op := p.next().s
		l = &expr{op: op, args: []*expr{l, p.exprMul()}}
	}
	return l
}

func (p *parser) exprMul() *expr {
	l := p.exprUnary()
	for p.isOp("*") || p.isOp("/") || p.isOp("%") {
		op := p.next().s
		l = &expr{op: op, args: []*expr{l, p.exprUnary()}}
	}
	return l
}

func (p *parser) exprUnary() *expr {
	if p.isOp("-") && p.peekN(1).k == tNum {
		p.next()
		return &expr{op: "num", s: "-" + p.next().s, typ: "integer"}
	}
	e := p.exprPrimary()
	for p.d == Postgres && p.op("::") {
		typ := p.pgType()
		e = &expr{op: "cast", s: typ.full(), args: []*expr{e}, typ: typ.Type}
	}
	return e
}

func (p *parser) exprPrimary() *expr {
	t := p.peek()
	switch t.k {
	case tNum:
		p.next()
		typ := "integer"
		if strings.ContainsAny(t.s, ".eE") {
			typ = "numeric"
		}
		return &expr{op: "num", s: t.s, typ: typ}
	case tString:
		p.next()
		return &expr{op: "str", s: t.s, typ: "unknown"}
	case tOp:
		if t.s == "(" {
			p.next()
			e := p.expr()
			p.needOp(")")
			return e
		}
		if t.s == "*" {
			p.next()
			return &expr{op: "star"}
		}
	case tWord:
		switch w := t.lower(); w {
		case "true", "false":
			p.next()
			return &expr{op: "word", s: w, typ: "boolean"}
		case "null":
			p.next()
			return &expr{op: "word", s: "NULL", typ: "unknown"}
		case "current_user", "session_user", "current_timestamp", "current_date", "current_time", "localtimestamp", "localtime":
			p.next()
			return &expr{op: "word", s: strings.ToUpper(w), typ: "name"}
		}
		if n := p.peekN(1); n.k == tOp && n.s == "(" && !reserved[p.d][t.lower()] {
			p.next()
			p.next()
			e := &expr{op: "call", s: strings.ToLower(t.s)}
			for !p.isOp(")") {
				e.args = append(e.args, p.expr())
				if !p.op(",") {
					break
				}
			}
			p.needOp(")")
			return e
		}
	}
	if t.k != tWord && t.k != tQuoted {
		p.fail("syntax error near %s: expected an expression", p.near())
	}
	e := &expr{op: "col", s: p.ident()}
	if p.op(".") {
		if p.op("*") {
			return &expr{op: "star", qual: e.s}
		}
		e.qual, e.s = e.s, p.ident()
	}
	return e
}

func (e *expr) walk(f func(*expr)) {
	f(e)
	for _, a := range e.args {
		a.walk(f)
	}
}
