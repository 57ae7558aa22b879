// Package ioutil: file operations go to the simulated disk.
package ioutil

import vos "github.com/oov/psd/verifsim/vos"

func ReadFile(name string) ([]byte, error) { return vos.ReadFile(name) }
func WriteFile(name string, data []byte, perm vos.FileMode) error {
	return vos.WriteFile(name, data, perm)
}
func TempFile(dir, pattern string) (*vos.File, error) { return vos.CreateTemp(dir, pattern) }
