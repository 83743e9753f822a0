// Package h holds the harnesses: each states one claim about the library over arbitrary inputs within bounds.
package h

// All lists the harnesses by name, for replaying.
var All = map[string]func(){}
