module verifmc

go 1.24

require github.com/VolantMQ/vlapi v0.0.0

replace github.com/VolantMQ/vlapi => /repo
