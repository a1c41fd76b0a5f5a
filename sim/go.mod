module alda.sim

go 1.24
