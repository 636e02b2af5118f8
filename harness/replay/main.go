// Command replay runs one harness natively on one concrete assignment.
package main

import (
	"encoding/json"
	"fmt"
	"os"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifh/h"
	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifh/v"
)

func main() {
	var req struct {
		Harness  string           `json:"harness"`
		Inputs   map[string]int64 `json:"inputs"`
		Thorough bool             `json:"thorough"`
	}
	if err := json.NewDecoder(os.Stdin).Decode(&req); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	v.In = req.Inputs
	v.SetThorough(req.Thorough)
	f := h.All[req.Harness]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no harness", req.Harness)
		os.Exit(3)
	}
	end := "ok"
	msg := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(v.AssumeFailed); ok {
					end = "assume"
					return
				}
				end = "panic"
				msg = fmt.Sprint(r)
			}
		}()
		f()
	}()
	out, _ := json.Marshal(map[string]any{"failed": v.Failed, "obs": v.Obs, "end": end, "msg": msg})
	fmt.Println("RESULT " + string(out))
}
