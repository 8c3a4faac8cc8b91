module pargoverif

go 1.25

require github.com/exascience/pargo v0.0.0

replace github.com/exascience/pargo => /repo
