module gvc

go 1.22
