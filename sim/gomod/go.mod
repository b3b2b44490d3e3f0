module github.com/katydid/katydid

go 1.20

require github.com/gogo/protobuf v1.3.2
