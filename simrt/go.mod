module verif/simrt

go 1.21
