package main

import "sort"

func sortInts(a []int)       { sort.Ints(a) }
func sortStrings(a []string) { sort.Strings(a) }
