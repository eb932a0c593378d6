module vt

go 1.26

require golang.org/x/tools v0.52.0

replace golang.org/x/tools => ./third/tools
