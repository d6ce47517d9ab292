module verif.local/workflows/chain

go 1.20
