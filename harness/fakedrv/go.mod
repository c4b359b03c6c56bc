module verif.local/fakedrv

go 1.21
