//go:build go1.22

package main

import "github.com/GottfriedHerold/Bandersnatch/internal/zzverif/zz"

func main() {
	zz.Main(map[string]func(*zz.Run){"I01": suiteI01, "I02": suiteI02, "I03": suiteI03, "I03sched": suiteI03sched, "I04": suiteI04, "I05": suiteI05})
}
