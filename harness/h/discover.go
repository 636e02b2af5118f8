package h

import (
	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifh/v"
)

func init() {
	reg_("Discover", Discover)
	reg_("DiscoverFiles", DiscoverFiles)
	reg_("DiscoverNames", DiscoverNames)
}

// Discover: a package is found exactly once wherever it lies below the working directory
// or the directories of FBDPATH, directly or through symbolic links.
func Discover() {
	v.FreeHash()
	place := v.Choice("place", 9)
	env := v.Choice("env", 9)
	link := v.Choice("link", 10)
	dirs := []string{"w/fbd-p", "w/d/fbd-p", "w/d/e/f/fbd-p", "w/fbd-o/fbd-p", "lib/fbd-p", "lib/d/fbd-p", "lib/fbd-o/e/fbd-p", "far/fbd-p", "far/a/b/fbd-p"}
	t, x := v.Lit("k", 1, 32)
	u, y := v.Lit("l", 1, 32)
	v.File(dirs[place]+"/x.fbd", "const k = "+t+"\n")
	v.File("w/fbd-q/x.fbd", "const k = "+u+"\n")
	// directories and files which are no packages
	v.File("lib/readme", "")
	v.File("far/fbd-n/readme", "")
	v.File("far/m/x.fbd", "const k = 3\n")
	v.File("w/d/fbd-n/readme", "")
	v.File("w/m/x.fbd", "const k = 3\n")
	v.File("w/m/xfbd", "const k = 3\n")
	in := func(d string) bool { return len(dirs[place]) > len(d) && dirs[place][:len(d)] == d }
	found := in("w/")
	switch link {
	case 1: // another tree
		v.Link("w/l", "../far")
		found = found || in("far/")
	case 2: // a package
		v.Link("w/d/l", "../../far/fbd-p")
		found = found || place == 7
	case 3: // a cycle
		v.Link("w/d/l", "..")
	case 4: // a cycle through another tree
		v.Link("w/a", "../far/a")
		v.Link("far/a/c", "../../w")
		found = found || place == 8
	case 5: // nowhere
		v.Link("w/a", "none")
		v.Link("w/d/l", "../../none/fbd-p")
	case 6: // to itself
		v.Link("w/l", "l")
	case 7: // a link to a link
		v.Link("w/l", "d/k")
		v.Link("w/d/k", "../../far")
		found = found || in("far/")
	case 8: // absolute, two links to one tree
		v.Link("w/a", "/far")
		v.Link("w/z", "/far/a")
		found = found || in("far/")
	case 9: // out of a tree which is not searched otherwise
		v.Link("lib/l", "../far")
	}
	lib := true
	switch env {
	case 0:
		lib = false
	case 1:
		v.Setenv("FBDPATH", "../lib")
	case 2:
		v.Setenv("FBDPATH", "../none:../lib")
	case 3:
		v.Setenv("FBDPATH", "../lib:../lib")
	case 4:
		v.Setenv("FBDPATH", "..")
		found = found || in("far/")
	case 5:
		v.Setenv("FBDPATH", "../lib/:../w")
	case 6:
		v.Setenv("FBDPATH", "::../lib:")
	case 7:
		lib = false
		v.Setenv("FBDPATH", "../lib/fbd-p:../far/a")
		found = found || place == 4 || place == 8
	case 8:
		v.Setenv("FBDPATH", "../far/m:../far/a/b:../lib")
		found = found || place == 8
	}
	if lib {
		found = found || in("lib/")
		if link == 9 {
			found = found || in("far/")
		}
	}
	imp := v.Choice("import", 4)
	src := []string{"", "import \"p\"\n", "import \"q\"\n", "import \"n\"\n"}[imp]
	use := []string{"32", "p.k", "q.k", "3"}[imp]
	v.File("w/bus.fbd", src+"Main bus\n  c config; width = "+use+"\n")
	v.Chdir("w")
	bus, pkgs, res := compileAll("bus.fbd")
	v.Assert(res != 1, "P31:crash")
	v.Assert(res != 3, "P31:hang")
	ok := imp == 0 || imp == 1 && found || imp == 2
	v.Assert(ok == (res == 0), "P31:import")
	if res != 0 {
		return
	}
	if imp == 1 {
		v.Assert(bus.Configs[0].Width == x, "P31:value")
	}
	if imp == 2 {
		v.Assert(bus.Configs[0].Width == y, "P31:value")
	}
	n := 2
	if p, ok := pkgs["p"]; ok {
		v.Assert(found, "P31:found")
		v.Assert(all(len(p.Consts.Ints) == 1, p.Consts.Ints["k"] == x), "P31:consts")
		n++
	} else {
		v.Assert(!found, "P31:found")
	}
	q, ok := pkgs["q"]
	v.Assert(ok, "P31:found")
	if ok {
		v.Assert(all(len(q.Consts.Ints) == 1, q.Consts.Ints["k"] == y), "P31:consts")
	}
	_, ok = pkgs["main"]
	v.Assert(ok, "P31:found")
	v.Assert(len(pkgs) == n, "P31:others")
	v.Reach("end")
}

// DiscoverFiles: the files of a package are exactly those of its directory whose names
// end with .fbd, in whatever order and whatever else there is.
func DiscoverFiles() {
	v.FreeHash()
	names := []string{"a.fbd", "b.txt", "c.fbd", "d/e.fbd", "f.fbd.txt", "fbd", "g.FBD", "h.fbd", "i/fbd-r/j.fbd", "l.fbd", "z.txt"}
	files := []bool{true, false, true, false, false, false, false, true, false, true, false}
	xs := make([]int64, len(names))
	any := false
	src := ""
	exp := 0
	sum := int64(0)
	for i, n := range names {
		if v.Choice("has", 2) == 0 {
			continue
		}
		t, x := v.Lit("k", 1, 32)
		xs[i] = x
		if n == "l.fbd" {
			v.File("o/x.fbd", "const c"+num(i)+" = "+t+"\n")
			v.Link("s/fbd-p/"+n, "../../o/x.fbd")
		} else {
			v.File("s/fbd-p/"+n, "const c"+num(i)+" = "+t+"\n")
		}
		if files[i] {
			any = true
			exp++
			src += " + p.c" + num(i)
			sum += x
		}
	}
	if !any {
		v.File("bus.fbd", "import \"p\"\nMain bus\n  c config\n")
	} else {
		v.File("bus.fbd", "import \"p\"\nMain bus\n  c config; width = 0"+src+"\n")
	}
	bus, pkgs, res := compileAll("bus.fbd")
	v.Assert(res != 1, "P31:crash")
	v.Assert(res != 3, "P31:hang")
	v.Assert(any == (res == 0), "P31:import")
	if res != 0 {
		return
	}
	v.Assert(bus.Configs[0].Width == sum, "P31:value")
	for i := range names {
		if xs[i] == 0 || !files[i] {
			continue
		}
		v.Assert(pkgs["p"].Consts.Ints["c"+num(i)] == xs[i], "P31:value")
	}
	v.Assert(len(pkgs["p"].Consts.Ints) == exp, "P31:others")
	_, r := pkgs["r"]
	v.Assert(r == (xs[8] != 0), "P31:nested")
	v.Reach("end")
}

// DiscoverNames: which names of directories and files make a package, and its name.
func DiscoverNames() {
	v.FreeHash()
	dirs := []string{"fbd-ab", "fbd-", "fbd", "xfbd-ab", "FBD-ab", "fbd-fbd-ab", "fbd-ab-c", "fbd-a-fbd-b", "fbd-ab.c", "fbd_ab", ".fbd-ab", "fbd-ab.fbd",
		"fbd--ab", "fbd-bdf", "fb-ab", "ab-fbd-", "fbd-f", "fbd-Ab", "fbd-0"}
	files := []string{"x.fbd", ".fbd", "x.y.fbd", "x.fbd~", "xfbd", "x.Fbd", "fbd-x.fbd"}
	d := dirs[v.Choice("dir", len(dirs))]
	f := v.Choice("file", len(files))
	other := v.Choice("other", 2) == 1
	at := []string{"", "a/", "fbd-o/"}[v.Choice("at", 3)]
	t, x := v.Lit("k", 1, 32)
	v.File(at+d+"/"+files[f], "const k = "+t+"\n")
	if other {
		v.File(at+d+"/y.txt", "")
	}
	is := len(d) >= 4 && d[:4] == "fbd-" && (f < 3 || f == 6)
	imp := v.Choice("import", 2) == 1 && is
	src := "Main bus\n  c config\n"
	if imp {
		src = "import z \"" + d + "\"\nMain bus\n  c config; width = z.k\n"
	}
	v.File("bus.fbd", src)
	bus, pkgs, res := compileAll("bus.fbd")
	v.Assert(res == 0, "P31:import")
	if res != 0 {
		return
	}
	if imp {
		v.Assert(bus.Configs[0].Width == x, "P31:value")
	}
	n := 1
	if is {
		n++
		p, ok := pkgs[d[4:]]
		v.Assert(ok, "P31:found")
		if ok {
			v.Assert(all(len(p.Consts.Ints) == 1, p.Consts.Ints["k"] == x), "P31:consts")
		}
	}
	v.Assert(len(pkgs) == n, "P31:others")
	v.Reach("end")
}
