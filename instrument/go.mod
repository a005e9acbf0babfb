module verifinstrument

go 1.24
