package checks

import "os"

func removeAll(dir string) { _ = os.RemoveAll(dir) }
