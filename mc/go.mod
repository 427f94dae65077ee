module verifmc

go 1.23

require github.com/monstermichl/typeshell v0.0.0

replace github.com/monstermichl/typeshell => /repo
