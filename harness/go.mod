module verif/harness

go 1.23

require github.com/vito/booklit v0.0.0

replace github.com/vito/booklit => /repo
require (
	github.com/agext/levenshtein v1.2.3
	github.com/alecthomas/chroma v0.10.0
	github.com/go-bindata/go-bindata v3.1.2+incompatible
	github.com/jessevdk/go-flags v1.5.0
	github.com/mna/pigeon v1.0.1-0.20200224192238-18953b277063
	github.com/onsi/ginkgo/v2 v2.9.1
	github.com/onsi/gomega v1.27.4
	github.com/segmentio/textio v1.2.0
	github.com/sirupsen/logrus v1.9.3
	golang.org/x/text v0.14.0
)
require (
	github.com/dlclark/regexp2 v1.9.0
	github.com/go-logr/logr v1.2.4
	github.com/go-task/slim-sprig v0.0.0-20210107165309-348f09dbbbc0
	github.com/google/go-cmp v0.5.9
	github.com/google/pprof v0.0.0-20230406165453-00490a63f317
	github.com/kr/pretty v0.3.0
	github.com/rogpeppe/go-internal v1.10.0
	github.com/stretchr/testify v1.8.4
	golang.org/x/mod v0.11.0
	golang.org/x/net v0.23.0
	golang.org/x/sys v0.18.0
	golang.org/x/tools v0.10.0
	google.golang.org/protobuf v1.33.0
	gopkg.in/check.v1 v1.0.0-20201130134442-10cb98267c6c
	gopkg.in/yaml.v3 v3.0.1
)

require pgregory.net/rapid v1.3.0
