module verif.local/workflows/wraps

go 1.20
