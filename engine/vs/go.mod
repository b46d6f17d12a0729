module vs

go 1.24
