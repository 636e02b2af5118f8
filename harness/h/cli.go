package h

import (
	"os"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/args"
	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifh/v"
)

func init() {
	reg_("CommandLine", CommandLine)
}

// CommandLine: every option has its documented effect and no other, in any order.
func CommandLine() {
	max := 3
	if v.Thorough() {
		max = 5
	}
	word := func(id string) string {
		s := v.Str(id, 2)
		v.Assume(allOf(s, func(c byte) bool { return anyOf(isLet(c), isDig(c), c == '_', c == '/', c == '.') }))
		return s
	}
	debug, ts := false, false
	name, dump := "main", ""
	ok := true
	line := []string{"fbdl"}
	n := v.Choice("n", max+1)
	path := false // a path may follow
	for i := 0; i < n; i++ {
		was := path
		path = false
		switch v.Choice("arg", 7) {
		case 0:
			line = append(line, "-debug")
			debug = true
		case 1:
			line = append(line, "-add-timestamp")
			ts = true
		case 2:
			name = word("name")
			line = append(line, "-main", name)
		case 3:
			line = append(line, "-c")
			dump = "const.json"
			path = true
		case 4:
			dump = word("dump")
			line = append(line, "-c", dump)
		case 5:
			s := word("stray")
			line = append(line, s)
			if was {
				dump = s
			} else {
				ok = false
			}
		case 6:
			s := "-" + word("unknown")
			v.Assume(v.And(v.Not(v.StrEq(s, "-c")), v.Not(v.StrEq(s, "-r"))))
			line = append(line, s)
			if was {
				dump = s
			} else {
				ok = false
			}
		}
	}
	file := ""
	if v.Choice("file", 3) > 0 || n > 0 {
		file = word("file")
		line = append(line, file)
	} else {
		ok = false
	}
	os.Args = line
	c := v.Try(args.Parse)
	v.Assert(c == 0 || c == 2, "P30:crash")
	v.Assert((c == 0) == ok, "P30:verdict")
	if c == 0 {
		v.Assert(args.Debug == debug && args.AddTimestamp == ts, "P30:flags")
		v.Assert(v.And(v.StrEq(args.MainBus, name), v.StrEq(args.DumpConsts, dump)), "P30:parameters")
		v.Assert(v.StrEq(args.MainFile, file), "P30:file")
		v.Reach("accepted")
	}
	v.Reach("end")
}
