package core

import (
	"encoding/json"
	"os"
	"path/filepath"
)

// Driver builds one of harness/drivers as a command of gowrap's own module.
func (c *Ctx) Driver(name string, flags ...string) string {
	bin := filepath.Join(c.Scratch, "bin", "driver_"+name)
	_ = os.MkdirAll(filepath.Dir(bin), 0o755)
	o := filepath.Join(c.Scratch, "overlay_"+name+".json")
	b, err := json.Marshal(map[string]any{"Replace": map[string]string{filepath.Join(Repo, "verif_driver_"+name, "main.go"): filepath.Join(Verif, "harness", "drivers", name, "main.go.txt")}})
	Must(err, "overlay")
	Must(os.WriteFile(o, b, 0o644), "overlay")
	args := append([]string{"go", "build", "-overlay", o, "-o", bin}, flags...)
	r := Run(Cmd{Dir: Repo, Env: Env(GoRoot), Args: append(args, "./verif_driver_"+name)})
	if r.Code != 0 {
		Fail("the driver %s does not build: %s%s", name, r.Out, r.Err)
	}
	return bin
}
