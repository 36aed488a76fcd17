module verif/simbuild

go 1.21
