module vdiscverif

go 1.13

require (
	github.com/NVIDIA/vdisc v0.0.0
	github.com/OneOfOne/xxhash v1.2.5
	github.com/alecthomas/kong v0.2.0
	github.com/alecthomas/units v0.0.0-20151022065526-2efee857e7cf
	github.com/aws/aws-sdk-go v1.24.5
	github.com/badgerodon/collections v0.0.0-20130729185459-604e922904d3
	github.com/cenkalti/backoff v2.2.1+incompatible
	github.com/dgraph-io/ristretto v0.0.0-20191010170704-2ba187ef9534
	github.com/emirpasic/gods v1.12.0
	github.com/fatih/color v1.7.0
	github.com/google/btree v1.0.0
	github.com/google/uuid v1.1.1
	github.com/hashicorp/go-multierror v1.0.0
	github.com/hashicorp/golang-lru v0.5.3
	github.com/jacobsa/fuse v0.0.0-20190923155423-081e9f4bc7d4
	github.com/lukealonso/dnscache v0.0.0-20190603182722-ca742573d4fd
	github.com/mattn/go-colorable v0.1.2 // indirect
	github.com/mattn/go-isatty v0.0.9 // indirect
	github.com/philhofer/fwd v1.0.0 // indirect
	github.com/pkg/errors v0.8.1
	github.com/prometheus/client_golang v1.1.0
	github.com/stretchr/testify v1.3.0
	github.com/tinylib/msgp v1.1.0 // indirect
	github.com/tnarg/go-tcmu v0.0.0-20191105191714-5c2d9631ef4f
	github.com/vincent-petithory/dataurl v0.0.0-20160330182126-9a301d65acbb
	go.uber.org/automaxprocs v1.2.0
	go.uber.org/zap v1.10.0
	golang.org/x/lint v0.0.0-20190930215403-16217165b5de // indirect
	golang.org/x/net v0.0.0-20190620200207-3b0461eec859 // indirect
	golang.org/x/sync v0.0.0-20190423024810-112230192c58
	golang.org/x/sys v0.0.0-20191009170203-06d7bd2c5f4f
	zombiezen.com/go/capnproto2 v0.0.0-20181004142158-659aba4018b6
)
replace github.com/NVIDIA/vdisc => /repo
