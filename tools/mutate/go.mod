module verif/mutate

go 1.20
