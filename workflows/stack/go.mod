module verif.local/workflows/stack

go 1.20
