module verif.local/h

go 1.25.0
