module verif.local/vh

go 1.26

require pgregory.net/rapid v1.3.0
