module vharness

go 1.21

require github.com/aiq/tok v0.0.0

replace github.com/aiq/tok => /repo
