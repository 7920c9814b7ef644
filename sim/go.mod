module simkit

go 1.18
