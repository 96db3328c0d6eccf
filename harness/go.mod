module vh

go 1.23
