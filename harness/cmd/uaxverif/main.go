// Command uaxverif runs one property's check.
package main

import (
	"github.com/clipperhouse/uax29/v2/zverif/checks"
	"github.com/clipperhouse/uax29/v2/zverif/eng"
)

func main() { eng.Main(checks.Find) }
