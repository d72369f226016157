module verif/simtest

go 1.21
