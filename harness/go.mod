module verif/harness

go 1.22

require github.com/jtcaraball/goexpdt v0.0.0

replace github.com/jtcaraball/goexpdt => /repo
