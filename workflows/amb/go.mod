module verif.local/workflows/amb

go 1.20
