package main

import "fmt"

func (c *C) dump(s *State, f func(*Term) bool) {
	for a, p := range s.facts.at {
		if f == nil || f(a) {
			fmt.Println("   FACT", p, a)
		}
	}
}
