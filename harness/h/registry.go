// Package h holds the verification harnesses.
package h

// All maps harness names to functions, for native replay.
var All = map[string]func(){}

func reg_(name string, f func()) { All[name] = f }
