module github.com/lib/pq

go 1.16

require verif.local/fakedrv v0.0.0

replace verif.local/fakedrv => ../../fakedrv
