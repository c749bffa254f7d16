package main

import (
	"fmt"
	"os"

	"goslicesim/simboot"
)

func main() {
	if simboot.Rest != nil {
		execMain()
		return
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim exec | check | replay | selftest")
		os.Exit(3)
	}
	os.Exit(supervise(os.Args[1], os.Args[2:]))
}
