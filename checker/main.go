package main

import (
	"fmt"
	"os"
	"time"
)

// dumpMain prints the abstract outcomes of roots (debugging).
func dumpMain(args []string) {
	in, err := setup()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for _, a := range args {
		t1 := time.Now()
		if a == "cli" {
			dumpCLI(in)
			continue
		}
		if a == "packet" || a == "packets" {
			rep := newReporter()
			f := in.rootPacket
			if a == "packets" {
				f = in.rootParser
			}
			r, err := f(rep)
			if err != nil {
				fmt.Println(err)
				continue
			}
			fmt.Print(in.dumpRoot(r))
			continue
		}
		r, err := in.parserRoot(a)
		if err != nil {
			fmt.Println(err)
			continue
		}
		fmt.Print(in.showRun(r))
		fmt.Println("time", time.Since(t1), "steps", in.steps)
	}
	fmt.Print(in.showSide())
}
