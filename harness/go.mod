module verif/harness

go 1.21

require github.com/benedoc-inc/pdfer v0.0.0

replace github.com/benedoc-inc/pdfer => /repo
