module verifharness

go 1.18

require github.com/infobloxopen/go-trees v0.0.0

replace github.com/infobloxopen/go-trees => /repo
