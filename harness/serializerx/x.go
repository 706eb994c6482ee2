//go:build go1.22

package main

import ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"

func init() {
	for f, s := range ps.ZZFormats() {
		base[f] = s
	}
}
