module verif/harness

go 1.26

require pgregory.net/rapid v1.3.0
