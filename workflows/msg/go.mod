module verif.local/workflows/msg

go 1.20
