module gofremc

go 1.25

require github.com/ixtendio/gofre v0.0.0

replace github.com/ixtendio/gofre => /repo
