module vrun

go 1.24.4
