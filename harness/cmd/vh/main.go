// Command vh decides the properties.
package main

import (
	"os"

	"verif/harness/core"
	"verif/harness/props"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "booklit" {
		props.Booklit(os.Args[2:])
		return
	}
	core.Main()
}
