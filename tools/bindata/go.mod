module bindata

go 1.23
