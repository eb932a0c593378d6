module golang.org/x/tools

go 1.25
