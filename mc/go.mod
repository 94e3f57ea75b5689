module verifmc

go 1.25

require github.com/bantling/micro v0.0.0

replace github.com/bantling/micro => /repo
