module godump
go 1.24
