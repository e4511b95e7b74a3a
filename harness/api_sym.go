package ics

import "net/url"

// The functions below are replaced by the symbolic engine.

func vByte() byte                 { panic("sym") }
func vBool() bool                 { panic("sym") }
func vUint64() uint64             { panic("sym") }
func vInt(lo, hi int) int         { panic("sym") }
func vChoice(n int) int           { panic("sym") }
func vAssume(c bool)              { panic("sym") }
func vAssert(c bool, msg string)  { panic("sym") }
func vCover(name string)          { panic("sym") }
func vObserve(name string, v any) { panic("sym") }
func vParam(i int) int            { panic("sym") }
func vEqual(a, b any) bool        { panic("sym") }
func vCopy(a any) any             { panic("sym") }
func vShares(a, b any) bool       { panic("sym") }
func vFork(c bool) bool           { panic("sym") }
func vConcrete(n int) int         { panic("sym") }
func vURLs(a any) []*url.URL      { panic("sym") }
func vTidy(a any)                 { panic("sym") }
