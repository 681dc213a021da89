module github.com/gorilla/mux

go 1.23
