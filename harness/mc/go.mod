module verif.local/mc

go 1.23
