module verif.local/workflows/places

go 1.20
