package main

import (
	"fmt"
	"sort"
)

// tasks lists the tasks of a property, in a fixed order (cheap and telling ones first).
func tasks(prop, tier string) []Task {
	f := props[prop]
	if f == nil {
		return nil
	}
	ts := f(tier == "thorough")
	for i := range ts {
		if ts[i].Variant == "" {
			ts[i].Variant = "s10"
		}
	}
	return ts
}

var props = map[string]func(thorough bool) []Task{}

func combos(n int, f func(mask int)) {
	for m := 0; m < 1<<n; m++ {
		f(m)
	}
}

func sortedKeys[V any](m map[string]V) (k []string) {
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return
}

func bitsOf(mask int) (n int) {
	for ; mask != 0; mask &= mask - 1 {
		n++
	}
	return
}

func name(parts ...any) string {
	s := ""
	for i, p := range parts {
		if i > 0 {
			s += "/"
		}
		s += fmt.Sprint(p)
	}
	return s
}

func pick[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}
