package main

import "os"

// pathTextMax limits the length of a printed path condition.
var pathTextMax = 300

func init() {
	if os.Getenv("GOVER_LONG") != "" {
		pathTextMax = 100000
	}
}
