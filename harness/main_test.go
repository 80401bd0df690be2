package harness

import (
	"os"
	"testing"
)

func TestMain(m *testing.M) {
	switch os.Getenv("VH_MODE") {
	case "list":
		listJobs()
		os.Exit(0)
	case "coordinator":
		os.Exit(coordinate())
	case "worker":
		os.Exit(m.Run())
	}
	os.Exit(3)
}

func TestWorker(t *testing.T) { workerLoop(t) }
