module verif.local/instrument

go 1.25.0
