package h

import (
	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifh/v"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
)

func init() {
	reg_("Golden", Golden)
}

// compile runs the whole tool on one source file.
// res: 0 compiled, 1 crashed, 2 rejected with an error message
func compile(src string) (bus *fn.Block, res int) {
	v.File("bus.fbd", src)
	var err error
	r := v.Try(func() {
		bus, _, err = fbdl.Compile("bus.fbd", "Main", false)
	})
	switch {
	case r == 1 || r == 3:
		return nil, 1
	case r == 2 || err != nil:
		if err != nil {
			errText = err.Error()
		} else {
			errText = "exit"
		}
		return nil, 2
	}
	return bus, 0
}

var errText string

// Golden runs the descriptions of the repository's own tests; everything is
// concrete, it validates the engine against the real build.
func Golden() {
	i := v.Choice("file", goldenN)
	b, r := compile(goldenSrc(i))
	v.Observe("result", int64(r))
	if r == 0 {
		observe(b)
		for _, s := range b.Statics {
			v.ObserveS(s.Name, string(s.InitValue))
		}
	} else {
		v.ObserveS("err", errText)
	}
	v.Reach("end")
}
