module mahosched

go 1.20

require github.com/leftmike/maho v0.0.0

require github.com/google/btree v1.1.2 // indirect

replace github.com/leftmike/maho => /repo
