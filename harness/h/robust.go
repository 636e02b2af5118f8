package h

import (
	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifh/v"
)

func init() {
	reg_("AnyByte", AnyByte)
	reg_("AnyCut", AnyCut)
	reg_("AnyValue", AnyValue)
	reg_("AnyTokens", AnyTokens)
}

// samples are descriptions which use all constructs of the language.
var samples = []string{
	"import \"q\"\nimport z \"fbd-q\"\n\n# doc\nconst A = q.k + 2\nconst\n  B = 0x1F\n  # d\n  C = [1, -2]\n\nMain bus\n  masters = 2; width = 16\n  c [3]status; width = A; read-value = 1\n  d config; width = B; init-value = A\n  T q.T\n",
	"type T(a, b = 2) block\n  const K = a * (b - 1) % 3\n  s [K]status; width = ceil(7 / 2)\n  p proc\n    x param; range = 0:5\n    r return; width = 2**3\n\nMain bus\n  t [2]T(3, b = 4)\n    delay = 1\n  u T(a = 2)\n    atomic = false\n",
	"Main bus\n  m mask; init-value = x\"0f\"; width = 8\n  i irq; add-enable = true\n    in-trigger = \"Edge\"\n  g group\n    virtual = true\n    c config; width = 3\n  d stream\n    delay = 10 ns\n    r return; width = 1 << 4\n",
	"Main bus\n  b block\n    type S static; init-value = b\"1-\"\n    s S; width = 2\n    r status; read-value = -1\n    e config; range = [0:3, 7]\n  k blackbox\n    size = 12\n  const f = 1.5e2; const g = !true\n",
}

func robust(src string) {
	v.File("fbd-q/q.fbd", "const k = 1\ntype T config\n")
	v.File("bus.fbd", src)
	_, _, res := compileAll("bus.fbd")
	v.Assert(res != 1, "P22:crash")
	v.Assert(res != 3, "P22:hang")
	if res == 0 {
		v.Reach("accepted")
	}
	v.Reach("end")
}

// AnyByte: any byte anywhere in a description, inserted or instead of some of its text,
// is either accepted or an error.
func AnyByte() {
	v.FreeHash()
	src := samples[v.Choice("sample", len(samples))]
	n := 1
	if v.Thorough() {
		n = 1 + v.Choice("bytes", 2)
	}
	i := v.Choice("at", len(src))
	del := []int{0, 1, 5}[v.Choice("removed", 3)]
	if del == 5 && !v.Thorough() && i%3 > 0 || del == 1 && n == 2 {
		return
	}
	end := i + del
	if end > len(src) {
		end = len(src)
	}
	robust(src[:i] + v.Str("s", n) + src[end:])
}

// AnyCut: the same for descriptions which end anywhere.
func AnyCut() {
	v.FreeHash()
	src := samples[v.Choice("sample", len(samples))]
	robust(src[:v.Choice("at", len(src))] + v.Str("s", 1))
}

// AnyTokens: any tokens at every kind of place.
func AnyTokens() {
	v.FreeHash()
	toks := []string{"(", ")", "[", "]", ",", "-", "!", "7", "A", "floor", "floor(", "\"s\"", "true", "x\"f\"", "3 ms", "1.5", "*", "=", ":", ";",
		"T(", "q.k", "config", "block", "irq", "width", "width =", "range =", "const", "type", "import", "\n", "\n  ", "\n    "}
	places := [][2]string{
		{"Main bus\n  c config\n  const V = ", "\n"},
		{"Main bus\n  c config; width = ", "\n"},
		{"Main bus\n  c status\n    range = ", "\n  d config\n"},
		{"Main bus\n  c [", "] status\n"},
		{"type U(", ") config\nMain bus\n  c U\n"},
		{"Main bus\n  c T(", ")\n"},
		{"Main bus\n  ", "\n  c config\n"},
		{"Main bus\n  c config\n", "\n"},
		{"Main bus\n  c config ", "\n  d config\n"},
		{"Main bus\n  c ", "\n"},
		{"import ", "\nMain bus\n  c config\n"},
		{"Main bus\n  i irq; add-enable = true\n    in-trigger = ", "\n"},
	}
	pl := v.Choice("place", len(places))
	p := places[pl]
	n := 2
	if v.Thorough() {
		n = 3
	} else if pl < 2 {
		n = 3
		toks = toks[:17]
	}
	text := ""
	for i := range n {
		k := v.Choice("tok", len(toks)+1)
		if k == len(toks) {
			continue
		}
		if i > 0 && len(text) > 0 {
			text += " "
		}
		text += toks[k]
	}
	robust("import \"q\"\nconst A = 2\ntype T(n = 1) config\n" + p[0] + text + p[1])
}

// AnyValue: one or two properties of any kind with values of every type.
func AnyValue() {
	v.FreeHash()
	values := []string{"7", "-3", "0", "9223372036854775807", "true", "1.5", "\"Edge\"", "\"\"", "x\"0f\"", "b\"\"", "3 us", "[]", "[1]", "[2:3, 1]", "1:2", "5:1",
		"1.5:2", "[\"a\", true]", "[[1]]", "floor(2.5)", "2 ** 70", "1 / 0", "A", "W", "q.k", "e", "!true", "-\"a\"", "true + 1", "[0:\"a\"]"}
	kind := kinds[v.Choice("kind", len(kinds))]
	if v.Choice("count", 2) == 1 { // as a count or an argument
		val := values[v.Choice("value", len(values))]
		switch v.Choice("as", 3) {
		case 0:
			if kind == "mask" || kind == "irq" { // arrays of these are reported as unimplemented
				return
			}
			if kind == "bus" || kind == "param" || kind == "return" {
				robust("Main bus\n  o proc\n    e [" + val + "]param\n")
				return
			}
			robust("const A = 2\nMain bus\n  e [" + val + "]" + kind + "\n" + need(kind, "    "))
		case 1:
			robust("const A = 2\ntype U(n = " + val + ") config\n  width = n\nMain bus\n  e U\n")
		case 2:
			robust("const A = 2\ntype U(n) config\n  width = n\nMain bus\n  e U(" + val + ")\n")
		}
		return
	}
	prop := propNames[v.Choice("prop", len(propNames))]
	if !legal(kind, prop) {
		return
	}
	props := []string{prop + " = " + values[v.Choice("value", len(values))]}
	second := v.Choice("second", 3)
	switch second {
	case 1:
		if prop == "width" || !legal(kind, "width") {
			return
		}
		props = append(props, "width = 3")
	case 2:
		if prop == "add-enable" || !legal(kind, "add-enable") {
			return
		}
		props = append(props, "add-enable = true")
	}
	robust("const A = [1]\n" + inst(kind, "e", props...))
}
