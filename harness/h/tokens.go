package h

import (
	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/ast"
	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/tok"
	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifh/v"
)

func init() {
	reg_("Tokens", Tokens)
	reg_("ErrorSyntax", ErrorSyntax)
	reg_("ProgramErrors", ProgramErrors)
}

var tokTemplates = []string{
	"?",
	"const a = ?\n",
	"const a = b?c + 1",
	"const a = 1? + c",
	"const a = 0x?1 - 0b1",
	"const a = \"s?t\"\n",
	"const a = x\"1?\"\n",
	"# c?d\nconst\n",
	"Main bus\n  ?\n  c config\n",
	"Main bus\n  c config\n?width = 3\n",
	"Main bus\n  c config\n    width = 3\n ? d q.T\n",
	"T(a?b) config; init-value = 3\n",
	"a? b\n  c d\n    e f\n\n?x y",
	"a bus\n  b block\n    c config?\nd bus\n",
	"t = 12?s # c\n",
}

func isLet(b byte) bool {
	return v.Or(within(int64('a'), int64(b), 'z'), within(int64('A'), int64(b), 'Z'))
}
func isDig(b byte) bool { return within(int64('0'), int64(b), '9') }
func isId(b byte) bool  { return anyOf(isLet(b), isDig(b), b == '_') }

// ifByte is the byte at i, 0 outside.
func ifByte(s string, i int) byte {
	if i < 0 || i >= len(s) {
		return 0
	}
	return s[i]
}

// allOf: f holds for all characters.
func allOf(s string, f func(b byte) bool) bool {
	r := true
	for i := 0; i < len(s); i++ {
		r = v.And(r, f(s[i]))
	}
	return r
}

// operator returns the text of an operator or punctuation token and the characters
// which would make it a longer one.
func operator(t tok.Token) (string, string) {
	switch t.(type) {
	case tok.Neg:
		return "!", "="
	case tok.Ass:
		return "=", "="
	case tok.Add:
		return "+", ""
	case tok.Sub:
		return "-", ""
	case tok.Mul:
		return "*", "*"
	case tok.Div:
		return "/", ""
	case tok.Rem:
		return "%", ""
	case tok.Exp:
		return "**", ""
	case tok.Eq:
		return "==", ""
	case tok.Neq:
		return "!=", ""
	case tok.Less:
		return "<", "<="
	case tok.LessEq:
		return "<=", ""
	case tok.Greater:
		return ">", ">="
	case tok.GreaterEq:
		return ">=", ""
	case tok.And:
		return "&&", ""
	case tok.Or:
		return "||", ""
	case tok.LShift:
		return "<<", ""
	case tok.RShift:
		return ">>", ""
	case tok.BitAnd:
		return "&", "&"
	case tok.BitOr:
		return "|", "|"
	case tok.LParen:
		return "(", ""
	case tok.RParen:
		return ")", ""
	case tok.LBracket:
		return "[", ""
	case tok.RBracket:
		return "]", ""
	case tok.Comma:
		return ",", ""
	case tok.Semicolon:
		return ";", ""
	case tok.Colon:
		return ":", ""
	}
	return "", ""
}

// lexeme: the text of the token fits its kind and the token is as long as possible.
func lexeme(t tok.Token, s string, next byte) bool {
	if op, longer := operator(t); op != "" {
		r := v.StrEq(s, op)
		for i := 0; i < len(longer); i++ {
			r = v.And(r, next != longer[i])
		}
		return r
	}
	n := len(s)
	switch t.(type) {
	case tok.Bool:
		return v.And(v.Or(v.StrEq(s, "true"), v.StrEq(s, "false")), v.Not(isId(next)))
	case tok.Const, tok.Import, tok.Type, tok.Functionality:
		return v.And(allOf(s, isLet), v.Not(isId(next)))
	case tok.Property:
		return v.And(allOf(s, func(b byte) bool { return v.Or(isLet(b), b == '-') }), v.Not(isId(next)))
	case tok.Ident:
		return all(allOf(s, isId), v.Not(isDig(s[0])), v.Not(isId(next)))
	case tok.QualIdent:
		dots := int64(0)
		ok := true
		for i := 0; i < n; i++ {
			dots += v.Ite(s[i] == '.', 1, 0)
			ok = v.And(ok, v.Or(isId(s[i]), s[i] == '.'))
		}
		return all(ok, dots == 1, v.Not(isId(next)), next != '.', s[0] != '.', s[n-1] != '.')
	case tok.Int:
		return all(isDig(s[0]), allOf(s, isId), v.Not(isId(next)), next != '.')
	case tok.Float:
		return all(isDig(s[0]), v.Not(isId(next)), next != '.')
	case tok.String:
		if n < 2 {
			return false
		}
		return all(s[0] == '"', s[n-1] == '"', allOf(s[1:n-1], func(b byte) bool { return b != '"' }))
	case tok.BitString:
		if n < 3 {
			return false
		}
		return all(anyOf(s[0] == 'b', s[0] == 'B', s[0] == 'o', s[0] == 'O', s[0] == 'x', s[0] == 'X'), s[1] == '"', s[n-1] == '"',
			allOf(s[2:n-1], func(b byte) bool { return anyOf(isId(b), b == '-') }))
	case tok.Time:
		return all(isDig(s[0]), s[n-1] == 's', v.Not(isId(next)))
	case tok.Comment:
		return all(s[0] == '#', allOf(s, func(b byte) bool { return b != '\n' }), v.Or(next == '\n', next == 0))
	}
	return false
}

// place: line and column say where the token starts.
func place(t tok.Token, src string) bool {
	line, col := int64(1), int64(1)
	for i := 0; i < t.Start() && i < len(src); i++ {
		nl := src[i] == '\n'
		line += v.Ite(nl, 1, 0)
		col = v.Ite(nl, 1, col+1)
	}
	return v.And(int64(t.Line()) == line, int64(t.Column()) == col)
}

// blank: only blanks, newlines and comments between two tokens.
func blank(s string) bool {
	in := false
	r := true
	for i := 0; i < len(s); i++ {
		in = v.And(v.Or(in, s[i] == '#'), s[i] != '\n')
		r = v.And(r, anyOf(in, s[i] == ' ', s[i] == '\n'))
	}
	return r
}

// Tokens: for any text, the tokens cover it in order with exact places, or the error
// tells a place in the text.
func Tokens() {
	n := 2
	if v.Thorough() {
		n = 3
	}
	tm := tokTemplates[v.Choice("template", len(tokTemplates))]
	s := v.Str("s", n)
	src := ""
	for i := 0; i < len(tm); i++ {
		if tm[i] == '?' {
			src += s
		} else {
			src += tm[i : i+1]
		}
	}
	var toks []tok.Token
	var err error
	r := v.Try(func() { toks, err = tok.Parse([]byte(src), "f.fbd") })
	v.Assert(r == 0, "P23:crash")
	if r != 0 {
		return
	}
	if err != nil {
		e, ok := err.(tok.Error)
		v.Assert(ok && len(e.Toks) > 0, "P23:error-place")
		if !ok {
			return
		}
		for _, t := range e.Toks {
			v.Assert(t.Start() >= 0 && t.Start() <= len(src) && t.End() <= len(src), "P23:error-place")
			v.Assert(v.Decide(place(t, src)), "P23:error-place")
		}
		v.Assert(v.Try(func() { _ = err.Error() }) == 0, "P23:error-text")
		v.Reach("error")
		return
	}
	if len(toks) == 0 {
		v.Assert(false, "P23:eof")
		return
	}
	end := -1 // end of the previous token
	depth := 0
	for i, t := range toks {
		last := i == len(toks)-1
		_, eof := t.(tok.Eof)
		v.Assert(last == eof, "P23:eof")
		if eof {
			v.Assert(v.Decide(blank(src[end+1:])), "P23:skipped")
			continue
		}
		v.Assert(v.Decide(place(t, src)), "P23:place")
		switch t.(type) {
		case tok.Indent:
			depth++
			continue
		case tok.Dedent:
			depth--
			continue
		case tok.Newline:
			if t.Start() <= end {
				v.Assert(false, "P23:order")
				return
			}
			continue
		}
		if t.Start() <= end || t.End() < t.Start() || t.End() >= len(src) {
			v.Assert(false, "P23:order")
			return
		}
		gap := src[end+1 : t.Start()]
		v.Assert(v.Decide(blank(gap)), "P23:skipped")
		v.Assert(v.Decide(lexeme(t, src[t.Start():t.End()+1], ifByte(src, t.End()+1))), "P23:lexeme")
		// first token of a line: its depth is its indentation
		nl := -1
		for k := t.Start() - 1; k > end; k-- {
			if v.Decide(src[k] == '\n') {
				nl = k
				break
			}
		}
		if nl >= 0 {
			v.Assert(2*depth == t.Start()-nl-1, "P23:depth")
		}
		end = t.End()
	}
	v.Reach("end")
}

// excerpt is what an error shows for a place in a file: line and column (from 1) of the
// text and n characters marked.
func excerpt(path, src string, l, c, n int) string {
	for i := 1; i < l; i++ {
		k := 0
		for src[k] != '\n' {
			k++
		}
		src = src[k+1:]
	}
	k := 0
	for k < len(src) && src[k] != '\n' {
		k++
	}
	line := src[:k]
	ln := num(l)
	s := path + " +" + ln + ":" + num(c) + "\n"
	for i := 0; i < len(ln)+2; i++ {
		s += " "
	}
	s += "|\n " + ln + " | " + line + "\n"
	for i := 0; i < len(ln)+2; i++ {
		s += " "
	}
	s += "| "
	for i := 1; i < c; i++ {
		s += " "
	}
	for i := 0; i < n; i++ {
		s += "^"
	}
	return s + "\n"
}

// after is the text after the first line break, which ends the message of an error.
func after(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			return s[i+1:]
		}
	}
	return ""
}

// syntaxText uses every construct; ~ marks the places between tokens on a line.
const syntaxText = `import~ q~ "fbd-aa"~
const~
  F~ =~ [~true~,~ false~]~
  G~ =~ "a  b"~
const~ H~ =~ 2~ +~ 3~ *~ -~F2~ %~ 3~
const~ F2~ =~ (~4~ -~ 2~)~ *~ ceil~(~2.5~)~ **~ 2~
type~ t~(~a~,~ b~ =~ 3~)~ config~
  width~ =~ a~
type~ u~ [~b~]~status~
type~ c~ block~
  const~ D~ =~ 3~ <<~ 1~
  x~ config~
Main~ bus~
  # doc
  masters~ =~ 2~;~ width~ =~ 32~
  p~ proc~
    delay~ =~ 12 us~
    x~ param~;~ range~ =~ 0~:~12~
    r~ return~ # more

  e~ config~;~ range~ =~ [~0~:~3~,~ 7~:~q.W~]~
  i~ irq~;~ in-trigger~ =~ "Edge"~
  m~ mask~;~ init-value~ =~ x"0F"~;~ width~ =~ 8~
  n~ t~(~3~,~ b~ =~ 2~)~
  k~ [~3~]~block~
    s~ [~H~ +~ 17~]~status~
      width~ =~ 4~ # more
  z~ t~(~a~ =~ 7~)~
`

// ErrorSyntax: whatever the place of a piece of text that fits nowhere, the error names
// one of its tokens (the first one that cannot follow) and shows it in its line.
func ErrorSyntax() {
	v.FreeHash()
	n := 0
	for i := 0; i < len(syntaxText); i++ {
		if syntaxText[i] == '~' {
			n++
		}
	}
	junk := [][2]string{{":", ":"}, {",", "="}, {"]", "]"}, {"irq", "irq"}, {"\"a\"", "\"a\""}, {"import", "import"}, {"1", "1"}, {"==", "=="}}
	g := v.Choice("junk", len(junk)+3) // the last ones: the text ends there
	cut := g - len(junk)
	at := v.Choice("at", n+1) // n: nowhere
	cm := v.Str("comment", 2)
	v.Assume(allOf(cm, func(b byte) bool { return v.And(b >= ' ', b <= '~') }))
	src := []string{"", "#" + cm + "\n\n", "\n\n\n\n\n\n\n\n\n\n"}[v.Choice("before", 3)]
	line, col := 1, 1
	switch len(src) {
	case 5:
		line = 3
	case 10:
		line = 11
	}
	ends := cut < 0 && v.Choice("ends", 2) == 1 // the text ends after the junk
	l, c := 0, 0
	k := 0
	for i := 0; i < len(syntaxText); i++ {
		b := syntaxText[i]
		if b == '~' {
			if k == at && cut >= 0 {
				l, c = line, col
				src += "\n\n"[:cut]
				break
			}
			if k == at {
				src += " " + junk[g][0] + " " + junk[g][1]
				l, c = line, col+1
				col += 2 + len(junk[g][0]) + len(junk[g][1])
				if nx := syntaxText[i+1]; nx != ' ' && nx != '\n' {
					src += " "
					col++
				}
				if ends {
					break
				}
			}
			k++
			continue
		}
		src += syntaxText[i : i+1]
		col++
		if b == '\n' {
			line, col = line+1, 1
		}
	}
	var err error
	r := v.Try(func() { _, err = ast.Build([]byte(src), "bus.fbd") })
	v.Assert(r == 0, "P23:crash")
	if r != 0 {
		return
	}
	if at < n && cut >= 0 {
		if err != nil { // at the end of the line or of the text
			e := after(err.Error())
			ok := v.Or(v.StrEq(e, excerpt("bus.fbd", src, l, c, 1)), v.StrEq(e, excerpt("bus.fbd", src, l+cut, 1, 1)))
			if src[len(src)-cut-1] == ';' { // nothing follows the semicolon
				ok = v.Or(ok, v.StrEq(e, excerpt("bus.fbd", src, l, c-1, 1)))
			}
			v.Assert(v.Decide(ok), "P23:end-place")
			v.Reach("cut")
		}
		return
	}
	if at == n {
		v.Assert(r == 0 && err == nil, "P23:accepted")
		v.Reach("accepted")
		return
	}
	v.Assert(err != nil, "P23:rejected")
	if err == nil {
		return
	}
	e := after(err.Error())
	w0, w1 := len(junk[g][0]), len(junk[g][1])
	v.Assert(v.Decide(v.Or(v.StrEq(e, excerpt("bus.fbd", src, l, c, w0)), v.StrEq(e, excerpt("bus.fbd", src, l, c+w0+1, w1)))), "P23:syntax-place")
	v.Reach("end")
}

// faults: bodies of a type of block with a mistake; the error marks the places in { },
// the last one first where the body begins with 2, before the message where it begins with 3.
var faults = []string{
	"  c config\n    width = {\"a\"}\n",
	"  c config\n    width = {-3}\n",
	"  c config\n    width = 2 * (1 {/} 0)\n",
	"  c config\n    width = 2 + 3 * (1 {%} (2 - 2))\n",
	"  c config\n    width = {ceil}(1, 2)\n",
	"  c config\n    width = 1 + {nofn}(2)\n",
	"  c config; width = {nofn}(2)\n",
	"  c config\n    range = {5:2}\n",
	"  c config\n    range = {[3:7, 120:70]}\n",
	"  c config\n    range = {120:70}\n",
	"  c config\n    range = {-1:2}\n",
	"  c config\n    {masters} = 3\n",
	"  c config; width = 3; {masters} = 3\n",
	"  c config\n    atomic = {3}\n",
	"  c config\n    width = 1\n    atomic = true\n    {width} = 2\n",
	"  c config\n    {x} config\n",
	"  c config\n  d config\n  {c} config\n",
	"2  const\n    {A} = 2\n    B = 1\n    {A} = 3\n  c config\n",
	"  const\n    B = 1\n    {A} = [1, true]\n  c config\n",
	"  const {A} = [1, true]\n  c config\n",
	"  a config\n  {c} group\n",
	"  a config\n  {c} [-1]config\n",
	"  {c} blackbox\n",
	"  a config\n  {c} static\n",
	"  a config\n  {c} static\n    init-value = x\"1FF\"\n    width = 3\n",
	"  c group\n    i irq\n    {d} config\n",
	"  c group\n    d config\n    {i} irq\n",
	"  {c} group\n    i irq\n      out-trigger = \"Level\"\n    j irq\n      out-trigger = \"Edge\"\n",
	"  {c} stream\n    p param\n    r return\n",
	"  type t config\n    width = {\"a\"}\n  c t\n",
	"  type t(a) config\n    width = a\n  b t(3)\n  c t(2 {%} 0)\n",
	"  type t(a = 1 {/} 0) config\n    width = a\n  c t\n",
	"  type t(a = 1) config\n    width = 3 {/} a\n  b t(1)\n  c t(a = 0)\n",
	"  const A = {ceil}(1, 2)\n  c config\n",
	"  c [2 {/} 0]config\n",
	"  c config\n    width = -(3 + -(7 {%} 0))\n",
	"  c config\n    range = [0:3, 5:{nofn}(3)]\n",
	"  c config\n    width = {true}\n",
	"  c config\n    width = {[1, 2]}\n",
	"  c config\n    width = {(1 - 4)}\n    atomic = true\n",
	"  c config\n    width = {2 - 3 * 4}\n",
	"  c config\n    width = {-(2 + 5)}\n",
	"  c config\n    width = {2 - 3 - 4}\n",
	"  c config\n    width = {(1 - 2) * 3 - 5 + 1 % 2}\n    atomic = true\n",
	"  c config\n    width = {-5 + 2 * 3 - 4 * 2 - -1}\n",
	"  c config\n    width = 2 ** {-3 ** 3}\n",
	"  c config; width = {2.5}; atomic = true\n",
	"  c config; width = {12 ns}\n",
	"  c config\n    width = {ceil(1.5) - 70}\n",
	"  c config\n    width = 2 ** {-1}\n",
	"  c config\n    width = 1 + (1 << {(2 - 4)})\n",
	"  c config\n    width = 8 >> {-10}\n",
	"  c config\n    width = 8 >> {true}\n",
	"  c config\n    width = 8 << {\"abc\"}\n",
	"  c config\n    width = 9223372036854775807 {+} 1\n",
	"  c config\n    width = 2 * 3 {**} 100\n",
	"  c config\n    atomic = {x\"0F\"}\n",
	"  type t static\n    width = 3\n  {c} t\n",
	"  type t blackbox\n  type u t\n  {c} u\n",
	"  type t group\n    i irq\n      out-trigger = \"Level\"\n  {c} t\n    j irq\n      out-trigger = \"Edge\"\n",
	"  type t static\n    init-value = x\"1FF\"\n  {c} t\n    width = 3\n",
	"  type t config\n  type u t\n  {c} [-1]u\n",
	"  type t group\n  type u t\n  {c} u\n",
	"  type t group\n    i irq\n  c t\n    {d} config\n",
	"  type t stream\n    i param\n  {c} t\n    d return\n",
	"  type t proc\n    delay = {3}\n  type u t\n  c u\n    r return\n",
	"3  type t(a) config\n  b t(1)\n  {c} t\n",
	"3  type t config\n  b t\n  {c} t(3)\n",
	"3  type t(a, b = 2) config\n  {c} t(b = 3)\n",
	"3  type t(a) config\n  {c} t(1, a = 3)\n",
	"3  type t(a) config\n  {c} t(b = 3)\n",
	"3  a config\n  {c} nope\n",
	"3  a config\n  {c} w.nope\n",
	"3  type {t} u\n  type u t\n  b t\n",
	"  {b} bus\n",
	"  a config\n    width = 3\n  c irq; in-trigger = {\"None\"}\n",
	"  c proc\n    delay = {3}\n",
	"  c block\n    {delay} = 3 ns\n",
	"  c mask\n    init-value = {true}\n",
}

// ProgramErrors: an error in the meaning of a description shows the very tokens at fault, in
// the right file.
func ProgramErrors() {
	v.FreeHash()
	f := faults[v.Choice("fault", len(faults))]
	second, prefix := f[0] == '2', f[0] == '3'
	if second || prefix {
		f = f[1:]
	}
	cm := v.Str("comment", 2)
	v.Assume(allOf(cm, func(b byte) bool { return v.And(b >= ' ', b <= '~') }))
	nb := v.Choice("before", 3)
	ten := "\n\n\n\n\n\n\n\n\n\n"
	before := []string{"", "#" + cm + "\n\n", ten[1:] + ten + ten + ten + ten + ten + ten + ten + ten + ten[2:]}[nb]
	file := v.Choice("file", 4)
	line, col := []int{1, 3, 98}[nb], 1
	type at struct{ l, c, n int }
	var ats []at
	f = "type E block\n" + f
	src := before
	for i := 0; i < len(f); i++ {
		switch f[i] {
		case '{':
			ats = append(ats, at{line, col, 0})
		case '}':
			ats[len(ats)-1].n = col - ats[len(ats)-1].c
		default:
			src += f[i : i+1]
			col++
			if f[i] == '\n' {
				line, col = line+1, 1
			}
		}
	}
	path := []string{"bus.fbd", "fbd-q/y.fbd", "fbd-q/x.fbd", "fbd-q/z.fbd"}[file]
	switch file {
	case 0:
		v.File(path, src+"Main bus\n  e E\n")
	default:
		v.File(path, src+"const V = 3\n")
		v.File("fbd-q/a.fbd", "const W = 12\n")
		v.File("fbd-q/w.fbd", "\n\ntype T E\n")
		v.File("bus.fbd", "import \"q\"\nMain bus\n  e q."+[]string{"E", "T"}[v.Choice("by", 2)]+"\n")
	}
	_, e, code := v.Program("-main", "Main", "bus.fbd")
	v.Assert(code == 2, "P23:failure")
	if code != 2 {
		return
	}
	want := ""
	for i := range ats {
		a := ats[i]
		if second {
			a = ats[len(ats)-1-i]
		}
		want += excerpt(path, src, a.l, a.c, a.n)
	}
	ok := false
	if prefix { // the place stands before the message
		want = path + ":" + num(ats[0].l) + ":" + num(ats[0].c) + ": "
		v.Assert(len(e) > len(want) && v.Decide(v.StrEq(e[:len(want)], want)), "P23:prefix-place")
		v.Reach("prefix")
		return
	}
	if len(e) >= len(want) {
		ok = v.Decide(v.StrEq(e[len(e)-len(want):], want))
		if !ok && len(e) > len(want) { // the message ends with one more line break
			ok = v.Decide(v.StrEq(e[len(e)-len(want)-1:], want+"\n"))
		}
	}
	v.Assert(ok, "P23:meaning-place")
	v.Reach("end")
}
