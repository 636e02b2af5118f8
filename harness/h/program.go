package h

import (
	"strings"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifh/v"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/pkg"
)

func init() {
	reg_("Program", Program)
	reg_("ProgramFails", ProgramFails)
}

// Program: what the program prints and writes is what the compiler made, with
// every option, and nothing else.
func Program() {
	w, wv := v.Lit("width", 8, 31)
	n, _ := v.Lit("count", 1, 9)
	k, _ := v.Lit("const", 1, 9)
	_ = wv
	which := v.Choice("src", 4)
	src := []string{
		"Main bus\n\tconst K = " + k + "\n\tC [" + n + "]config\n\t\twidth = " + w + "\n\t\tinit-value = 1\n",
		"Main bus\n\tB [" + n + "]block\n\t\tC config; width = " + w + "\n\tS status; width = " + w + "\n",
		"import l \"lib\"\nMain bus\n\tS status; width = l.W\n\tI irq\n",
		"Main bus\n\tP proc\n\t\tp param; width = " + w + "\n\t\tr return\n\tT stream\n\t\tr return; width = " + w + "\n\tQ static; init-value = x\"ab\"; width = 8\n",
	}[which]
	v.File("bus.fbd", spaces(src+"main bus\n\tM mask; width = "+w+"\n"))
	v.File("fbd-lib/a.fbd", "const W = "+w+"\nconst L = [1, "+k+"]\nconst S = \"abc\"\n")
	before := 0
	if which > 1 { // a file of this name exists
		v.File("k", old)
		before = 1
	}
	files := v.Files()
	name, ts, debug, dump := "main", false, false, ""
	var args []string
	for i, k := 0, v.Choice("opts", 4); i < k; i++ {
		switch v.Choice("opt", 4) {
		case 0:
			args, ts = append(args, "-add-timestamp"), true
		case 1:
			args, debug = append(args, "-debug"), true
		case 2:
			name = "Main"
			args = append(args, "-main", name)
		case 3:
			dump = "const.json"
			args = append(args, "-c")
			if v.Choice("name", 2) == 1 {
				dump = "k"
				args = append(args, dump)
			} else if i == k-1 { // the file comes next and is not the parameter's value
				v.Reach("default name")
			}
		}
	}
	args = append(args, "bus.fbd")
	v.StopClock()
	for try := 0; ; try++ {
		out, errs, code := v.Program(args...)
		var bus *fn.Block
		var pkgs map[string]*pkg.Package
		var err error
		c := v.Try(func() { bus, pkgs, err = fbdl.Compile("bus.fbd", name, ts) })
		v.Assert(v.Iff(c == 0 && err == nil, code == 0), "P30:program-verdict")
		if c != 0 || err != nil {
			v.Assert(code == 2 && out == "" && errs != "", "P30:program-error")
			v.Reach("failed")
			return
		}
		same := v.StrEq(out, v.JSON(bus))
		if !v.Symbolic() && ts && !same && try < 5 {
			continue // natively the clock does not stand still
		}
		v.Assert(same, "P30:program-bus")
		v.Assert((errs != "") == debug, "P30:program-debug")
		if dump == "" {
			v.Assert(v.Files() == files, "P30:program-files")
		} else {
			got, ok := v.Read(dump)
			if dump == "k" {
				files -= before
			}
			v.Assert(ok && v.Files() == files+1, "P30:program-files")
			v.Assert(v.StrEq(got, v.JSON(pkgs)), "P30:program-consts")
		}
		v.Reach("end")
		return
	}
}

// ProgramFails: whatever is wrong is reported on the standard error stream and by
// the exit code, and nothing is printed or written.
func ProgramFails() {
	n, nv := v.Lit("n", 0, 9)
	files := 1
	file, name := "bus.fbd", "Main"
	src := []string{
		"Main bus\n\tC config; width = " + n + " / (" + n + " - 5)\n",
		"Main bus\n\tC config; count = " + n + "\n",
		"Main bus\n\tC config\n C status\n",
		"Main bus\n\tC unknown\n",
		"Main bus\n\tS status; width = X\n",
		"Main block\n",
		"import x \"nowhere\"\nMain bus\n\tS status; width = x.Y\n",
		"Main bus\n\tS status; init-value = " + n + "\n",
		"Other bus\n\tS status\n",
		"Main bus\n\tS status\n",
		"Main bus\n\tS status\n",
		"",
	}
	i := v.Choice("case", len(src))
	v.File("bus.fbd", spaces(src[i]))
	args := []string{}
	switch i {
	case 0:
		v.Assume(nv == 5)
	case 9:
		file = "other.fbd"
	case 10:
		name = "other"
	}
	args = append(args, "-main", name)
	debug := v.Choice("debug", 2) == 1
	if debug {
		args = append(args, "-debug")
	}
	if v.Choice("dump", 2) == 1 {
		args = append(args, "-c", "k.json")
	}
	args = append(args, file)
	out, errs, code := v.Program(args...)
	v.Assert(code == 2, "P30:program-fails")
	v.Assert(out == "", "P30:program-fails-quietly")
	v.Assert(errs != "", "P30:program-reports")
	v.Assert(v.Files() == files, "P30:program-fails-files")
	v.Reach("end")
}

// spaces replaces the tabs of an indentation.
func spaces(s string) string { return strings.ReplaceAll(s, "\t", "  ") }

// old is longer than anything the program writes.
var old = strings.Repeat("an old file which is much longer than the new one; ", 200)
