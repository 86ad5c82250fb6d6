module verif/mc

go 1.24

require (
	github.com/Sereal/Sereal/Go/sereal v0.0.0
	github.com/golang/snappy v0.0.4
)

require github.com/DataDog/zstd v1.5.2

replace github.com/Sereal/Sereal/Go/sereal => /repo/Go/sereal
