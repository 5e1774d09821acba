package schedchecks

import (
	"io"
	"os"
)

type writerT = io.Writer

func envDebug() bool { return os.Getenv("MC_DEBUG") != "" && os.Getenv("MC_WORKER") == "" }
