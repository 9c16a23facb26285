module verif/sim

go 1.24
