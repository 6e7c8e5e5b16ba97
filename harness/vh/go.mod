module verif.local/vh

go 1.21

require pgregory.net/rapid v1.3.0
