package main

// Contract files: lexer and parser.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

type Expr struct {
	Op    string // id int str bool nil un bin field index slice call forall exists if let old cast
	Str   string
	Int   string
	Args  []*Expr
	Binds []Bind
	Trig  [][]*Expr
	Pos   string
}

type Bind struct {
	Name string
	Type string
}

type Clause struct {
	Kind string // requires ensures modifies loop ghost maypanic assume
	Name string
	E    *Expr
	Mods []*Expr
	Bind []Bind // loop holes
	Pos  string
	Raw  string
	Key  string
	Prop []string
}

type FnSpec struct {
	Key     string // e.g. merkletree.(*MerkleTree).Get or protocol.NewDirSTR
	Clauses []*Clause
	Opts    map[string]string
	Pos     string
	Trusted bool
	Iface   string
	Names   []string
	Props   []string
}

type PredDef struct {
	Name   string
	Params []Bind
	Body   *Expr
	Rec    bool
	Pos    string
}

type FuncDecl struct {
	Name string
	Args []string
	Res  string
}

type AxiomDef struct {
	Name  string
	E     *Expr
	Lemma bool
	By    string // induction variable
	In    string // definitions it belongs to
	Pos   string
	Uses  []string
	Params []Bind
	T      *Term
	Manual bool
}

type Specs struct {
	Fns    map[string]*FnSpec
	Preds  map[string]*PredDef
	Funcs  map[string]*FuncDecl
	Axioms []*AxiomDef
	Ghosts map[string]map[string]string // type key -> field -> sort/type
	Order  []string
}

type stok struct {
	k, s string
	line int
}

type lexer struct {
	toks []stok
	i    int
	file string
}

func lex(file, src string) (*lexer, error) {
	var toks []stok
	line := 1
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			toks = append(toks, stok{"nl", "\n", line})
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '#' || (c == '/' && i+1 < len(src) && src[i+1] == '/'):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '\\' && i+1 < len(src) && src[i+1] == '\n':
			i += 2
			line++
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$':
			j := i
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '$') {
				j++
			}
			toks = append(toks, stok{"id", src[i:j], line})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] == 'x' || src[j] >= 'a' && src[j] <= 'f' || src[j] >= 'A' && src[j] <= 'F') {
				j++
			}
			toks = append(toks, stok{"int", src[i:j], line})
			i = j
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				return nil, fmt.Errorf("%s:%d: %v", file, line, err)
			}
			toks = append(toks, stok{"str", s, line})
			i = j + 1
		case c == '\'':
			j := i + 1
			for src[j] != '\'' {
				j++
			}
			r := []rune(src[i+1 : j])
			toks = append(toks, stok{"int", strconv.Itoa(int(r[0])), line})
			i = j + 1
		default:
			ops := []string{"<==>", "==>", "::", ":=", "==", "!=", "<=", ">=", "&&", "||", "..."}
			m := ""
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					m = o
					break
				}
			}
			if m == "" {
				m = string(c)
			}
			toks = append(toks, stok{"op", m, line})
			i += len(m)
		}
	}
	toks = append(toks, stok{"nl", "\n", line}, stok{"eof", "", line})
	return &lexer{toks: toks, file: file}, nil
}

func (l *lexer) peek() stok { return l.toks[l.i] }
func (l *lexer) next() stok { t := l.toks[l.i]; l.i++; return t }
func (l *lexer) skipNL() {
	for l.peek().k == "nl" {
		l.i++
	}
}
func (l *lexer) fail(f string, a ...interface{}) {
	panic(fmt.Errorf("%s:%d: %s", l.file, l.peek().line, fmt.Sprintf(f, a...)))
}

// binary operators may be followed by a newline; an expression inside
// brackets ignores newlines altogether.
type eparser struct {
	*lexer
	depth int
}

func (p *eparser) pk() stok {
	if p.depth > 0 {
		p.skipNL()
	}
	return p.peek()
}
func (p *eparser) isOp(s string) bool { t := p.pk(); return t.k == "op" && t.s == s }
func (p *eparser) isId(s string) bool { t := p.pk(); return t.k == "id" && t.s == s }
func (p *eparser) expect(s string) {
	t := p.pk()
	if t.s != s || t.k == "str" {
		p.fail("expected %q, got %q", s, t.s)
	}
	p.next()
}
func (p *eparser) pos() string { return fmt.Sprintf("%s:%d", filepath.Base(p.file), p.peek().line) }

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (p *eparser) expr(min int) *Expr {
	l := p.unary()
	for {
		t := p.pk()
		if t.k != "op" {
			return l
		}
		pr, ok := binPrec[t.s]
		if !ok || pr < min {
			return l
		}
		pos := p.pos()
		p.next()
		p.skipNL()
		nm := pr + 1
		if t.s == "==>" {
			nm = pr
		}
		r := p.expr(nm)
		l = &Expr{Op: "bin", Str: t.s, Args: []*Expr{l, r}, Pos: pos}
	}
}

func (p *eparser) unary() *Expr {
	pos := p.pos()
	if p.isOp("!") || p.isOp("-") || p.isOp("*") || p.isOp("&") {
		o := p.next().s
		return &Expr{Op: "un", Str: o, Args: []*Expr{p.unary()}, Pos: pos}
	}
	return p.postfix(p.primary())
}

func (p *eparser) postfix(e *Expr) *Expr {
	for {
		pos := p.pos()
		switch {
		case p.isOp("."):
			p.next()
			e = &Expr{Op: "field", Str: p.next().s, Args: []*Expr{e}, Pos: pos}
		case p.isOp("["):
			p.next()
			p.depth++
			if p.isOp(":") {
				p.next()
				h := p.expr(0)
				p.expect("]")
				p.depth--
				e = &Expr{Op: "slice", Args: []*Expr{e, nil, h}, Pos: pos}
				continue
			}
			a := p.expr(0)
			if p.isOp(":") {
				p.next()
				var h *Expr
				if !p.isOp("]") {
					h = p.expr(0)
				}
				p.expect("]")
				p.depth--
				e = &Expr{Op: "slice", Args: []*Expr{e, a, h}, Pos: pos}
				continue
			}
			p.expect("]")
			p.depth--
			e = &Expr{Op: "index", Args: []*Expr{e, a}, Pos: pos}
		case p.isOp("(") && e.Op == "id":
			p.next()
			p.depth++
			var as []*Expr
			for !p.isOp(")") {
				as = append(as, p.expr(0))
				if p.isOp(",") {
					p.next()
				} else if !p.isOp(")") {
					p.fail("expected , or ) got %q", p.pk().s)
				}
			}
			p.next()
			p.depth--
			e = &Expr{Op: "call", Str: e.Str, Args: as, Pos: pos}
		default:
			return e
		}
	}
}

// type text in binders and casts: up to , :: ) } or newline
func (p *eparser) typ() string {
	var b strings.Builder
	d := 0
	for {
		t := p.pk()
		if t.k == "eof" || t.k == "nl" {
			break
		}
		if d == 0 && t.k == "op" && (t.s == "," || t.s == "::" || t.s == ")" || t.s == "=" || t.s == ";") {
			break
		}
		if t.s == "(" || t.s == "[" {
			d++
		}
		if t.s == ")" || t.s == "]" {
			if d == 0 {
				break
			}
			d--
		}
		p.next()
		if t.s == "func" || t.s == "map" {
			b.WriteString(t.s)
		} else {
			b.WriteString(t.s)
		}
	}
	return b.String()
}

func (p *eparser) binds(end string) []Bind {
	var bs []Bind
	for !p.isOp(end) {
		var names []string
		names = append(names, p.next().s)
		for p.isOp(",") {
			p.next()
			names = append(names, p.next().s)
		}
		ty := ""
		if p.isOp(":") {
			p.next()
			ty = p.typ()
		} else if !p.isOp(end) {
			ty = p.typ()
		}
		for _, n := range names {
			bs = append(bs, Bind{n, ty})
		}
		if p.isOp(",") || p.isOp(";") {
			p.next()
		}
	}
	return bs
}

func (p *eparser) primary() *Expr {
	pos := p.pos()
	t := p.pk()
	switch {
	case t.k == "int":
		p.next()
		return &Expr{Op: "int", Int: t.s, Pos: pos}
	case t.k == "str":
		p.next()
		return &Expr{Op: "str", Str: t.s, Pos: pos}
	case t.k == "op" && t.s == "(":
		p.next()
		p.depth++
		e := p.expr(0)
		p.expect(")")
		p.depth--
		return e
	case t.k == "id":
		switch t.s {
		case "true", "false":
			p.next()
			return &Expr{Op: "bool", Str: t.s, Pos: pos}
		case "nil":
			p.next()
			return &Expr{Op: "nil", Pos: pos}
		case "forall", "exists":
			p.next()
			bs := p.binds("::")
			p.next()
			p.skipNL()
			var trig [][]*Expr
			for p.isOp("{") {
				p.next()
				p.depth++
				var ts []*Expr
				for !p.isOp("}") {
					ts = append(ts, p.expr(0))
					if p.isOp(",") {
						p.next()
					}
				}
				p.next()
				p.depth--
				p.skipNL()
				trig = append(trig, ts)
			}
			body := p.expr(0)
			return &Expr{Op: t.s, Binds: bs, Trig: trig, Args: []*Expr{body}, Pos: pos}
		case "if":
			p.next()
			c := p.expr(0)
			p.expect("then")
			p.skipNL()
			a := p.expr(0)
			if p.pk().s != "else" {
				p.skipNL()
			}
			p.expect("else")
			p.skipNL()
			b := p.expr(0)
			return &Expr{Op: "if", Args: []*Expr{c, a, b}, Pos: pos}
		case "let":
			p.next()
			n := p.next().s
			p.expect("=")
			a := p.expr(0)
			p.expect("in")
			p.skipNL()
			b := p.expr(0)
			return &Expr{Op: "let", Str: n, Args: []*Expr{a, b}, Pos: pos}
		}
		p.next()
		return &Expr{Op: "id", Str: t.s, Pos: pos}
	}
	p.fail("unexpected token %q", t.s)
	return nil
}

func parseSpecs(dir string) (sp *Specs, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	sp = &Specs{Fns: map[string]*FnSpec{}, Preds: map[string]*PredDef{}, Funcs: map[string]*FuncDecl{}, Ghosts: map[string]map[string]string{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		l, err := lex(f, string(b))
		if err != nil {
			return nil, err
		}
		sp.parseFile(l)
	}
	return sp, nil
}

func (sp *Specs) parseFile(l *lexer) {
	p := &eparser{lexer: l}
	var cur *FnSpec
	var props []string
	n := 0
	for {
		p.skipNL()
		t := p.peek()
		if t.k == "eof" {
			return
		}
		pos := p.pos()
		switch t.s {
		case "fn", "trusted", "functype":
			p.next()
			ftype := t.s == "functype"
			tr := false
			if t.s == "trusted" {
				tr = true
				p.next()
			}
			var b strings.Builder
			var names []string
			iface := ""
			for p.peek().k != "nl" {
				if p.peek().s == "::" {
					p.next()
					for p.peek().k != "nl" {
						if t := p.next(); t.k == "id" {
							names = append(names, t.s)
						}
					}
					break
				}
				if p.peek().s == "iface" && b.Len() > 0 {
					p.next()
					var ib strings.Builder
					for p.peek().k != "nl" && p.peek().s != "::" {
						ib.WriteString(p.next().s)
					}
					iface = ib.String()
					continue
				}
				b.WriteString(p.next().s)
			}
			cur = &FnSpec{Key: b.String(), Opts: map[string]string{}, Pos: pos, Trusted: tr, Iface: iface, Names: names}
			if ftype {
				// behaviour a contract can ask of a function argument
				cur.Opts["functype"] = "1"
			}
			if sp.Fns[cur.Key] != nil {
				p.fail("duplicate contract for %s", cur.Key)
			}
			sp.Fns[cur.Key] = cur
			sp.Order = append(sp.Order, cur.Key)
			props = nil
		case "prop":
			p.next()
			props = nil
			for p.peek().k == "id" {
				props = append(props, p.next().s)
			}
			if cur != nil {
				cur.Props = append(cur.Props, props...)
			}
		case "requires", "ensures", "assume", "maypanic", "panics", "lockinv", "limit", "initially":
			p.next()
			n++
			c := &Clause{Kind: t.s, Pos: pos, Prop: props}
			if p.peek().k == "op" && p.peek().s == "[" {
				p.next()
				var b strings.Builder
				for p.peek().s != "]" {
					b.WriteString(p.next().s)
				}
				p.next()
				c.Name = b.String()
			}
			s := p.i
			c.E = p.expr(0)
			c.Raw = rawText(p.toks[s:p.i])
			if c.Name == "" {
				c.Name = fmt.Sprintf("%s%d", t.s, len(cur.Clauses))
			}
			cur.Clauses = append(cur.Clauses, c)
		case "modifies":
			p.next()
			c := &Clause{Kind: "modifies", Pos: pos}
			for p.peek().k != "nl" {
				if p.isId("nothing") {
					p.next()
					continue
				}
				c.Mods = append(c.Mods, p.expr(0))
				if p.isOp(",") {
					p.next()
					p.skipNL()
				}
			}
			cur.Clauses = append(cur.Clauses, c)
		case "loop":
			p.next()
			c := &Clause{Kind: "loop", Pos: pos}
			if p.isOp("[") {
				p.next()
				c.Bind = p.binds("]")
				p.expect("]")
			}
			p.skipNL()
			s := p.i
			c.E = p.expr(0)
			c.Raw = rawText(p.toks[s:p.i])
			cur.Clauses = append(cur.Clauses, c)
		case "atalloc", "atexit", "atcall":
			// ghost assignment hooks: atalloc TYPE self.f := e
			p.next()
			c := &Clause{Kind: t.s, Pos: pos}
			if t.s != "atexit" {
				var b strings.Builder
				for !(p.peek().k == "op" && p.peek().s == "::") {
					b.WriteString(p.next().s)
				}
				p.next()
				c.Key = b.String()
			}
			p.skipNL()
			lhs := p.expr(6)
			p.expect(":=")
			p.skipNL()
			rhs := p.expr(0)
			c.E = &Expr{Op: "bin", Str: ":=", Args: []*Expr{lhs, rhs}}
			cur.Clauses = append(cur.Clauses, c)
		case "conforms":
			// conforms PARAM CONTRACT(args): a function argument behaves as CONTRACT
			p.next()
			c := &Clause{Kind: "conforms", Pos: pos, Key: p.next().s}
			s := p.i
			c.E = p.expr(0)
			c.Raw = rawText(p.toks[s:p.i])
			cur.Clauses = append(cur.Clauses, c)
		case "opt":
			p.next()
			k := p.next().s
			v := "1"
			if p.peek().k != "nl" {
				v = p.next().s
			}
			cur.Opts[k] = v
		case "pred":
			p.next()
			d := &PredDef{Name: p.next().s, Pos: pos}
			p.expect("(")
			p.depth++
			d.Params = p.binds(")")
			p.expect(")")
			p.depth--
			p.expect("=")
			p.skipNL()
			d.Body = p.expr(0)
			if sp.Preds[d.Name] != nil {
				p.fail("duplicate pred %s", d.Name)
			}
			sp.Preds[d.Name] = d
		case "func":
			p.next()
			d := &FuncDecl{Name: p.next().s}
			p.expect("(")
			for !p.isOp(")") {
				d.Args = append(d.Args, p.typ())
				if p.isOp(",") {
					p.next()
				}
			}
			p.next()
			d.Res = p.typ()
			sp.Funcs[d.Name] = d
		case "axiom", "lemma":
			p.next()
			a := &AxiomDef{Lemma: t.s == "lemma", Pos: pos}
			a.Name = p.next().s
			for p.peek().k == "id" {
				switch p.peek().s {
				case "by":
					p.next()
					a.By = p.next().s
					continue
				case "in":
					// known only where a function says "opt defs NAME"
					p.next()
					a.In = p.next().s
					continue
				case "uses":
					p.next()
					for p.peek().k == "id" {
						a.Uses = append(a.Uses, p.next().s)
					}
					continue
				}
				break
			}
			p.expect(":")
			p.skipNL()
			a.E = p.expr(0)
			sp.Axioms = append(sp.Axioms, a)
		case "ghost":
			p.next()
			var b strings.Builder
			b.WriteString(p.next().s)
			var parts []string
			for p.isOp(".") {
				p.next()
				parts = append(parts, p.next().s)
			}
			f := parts[len(parts)-1]
			tk := b.String()
			if len(parts) > 1 {
				tk += "." + strings.Join(parts[:len(parts)-1], ".")
			}
			ty := p.typ()
			if sp.Ghosts[tk] == nil {
				sp.Ghosts[tk] = map[string]string{}
			}
			sp.Ghosts[tk][f] = ty
		default:
			p.fail("unexpected %q at top level", t.s)
		}
		if k := p.peek().k; k != "nl" && k != "eof" {
			p.fail("trailing %q", p.peek().s)
		}
	}
}

func rawText(ts []stok) string {
	var b strings.Builder
	for _, t := range ts {
		if t.k == "nl" {
			b.WriteByte(' ')
			continue
		}
		if b.Len() > 0 && (t.k == "id" || t.k == "int") {
			b.WriteByte(' ')
		}
		b.WriteString(t.s)
	}
	return b.String()
}
