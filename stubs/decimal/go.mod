module github.com/ericlagergren/decimal

go 1.20
