// Command replay runs one harness natively with the inputs of a replay file.
package main

import (
	"fmt"
	"os"

	"verifh/props"
	"verifh/sym"
)

func main() {
	f := props.Registry[sym.Harness()]
	if f == nil {
		fmt.Println("no such harness:", sym.Harness())
		os.Exit(8)
	}
	f()
	fmt.Println("REPLAY-OK")
}
