module github.com/ftl/localcopy

go 1.12
