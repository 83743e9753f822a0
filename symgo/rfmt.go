package main

import "syscall"

// reflect.ValueOf keeps the value as it is: only the model of fmt's printValue looks at it.
func init() {
	natives["(syscall.Errno).Error"] = func(m *M, a []Value) Value { return strVal(syscall.Errno(m.intVal(a[0])).Error()) }
	natives["reflect.ValueOf"] = func(m *M, a []Value) Value {
		return Value{r: &Agg{[]Value{a[0], {}, {}}}}
	}
}
