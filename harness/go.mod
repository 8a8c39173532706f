module github.com/clipperhouse/uax29/v2/zverif

go 1.23

require github.com/clipperhouse/uax29/v2 v2.0.0

replace github.com/clipperhouse/uax29/v2 => /repo
