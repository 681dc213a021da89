module github.com/go-kit/kit

go 1.23
