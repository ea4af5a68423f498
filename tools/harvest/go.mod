module verif/harvest

go 1.21
