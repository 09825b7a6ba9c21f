module golang.org/x/exp

go 1.22
