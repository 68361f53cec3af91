package simos

import (
	"errors"
	"os"

	"github.com/go-latex/latex/vsim"
)

func Getenv(k string) string {
	v, _ := vsim.LookupEnv(k)
	return v
}

func LookupEnv(k string) (string, bool) { return vsim.LookupEnv(k) }

func Environ() []string { return vsim.Environ() }

func ExpandEnv(s string) string { return os.Expand(s, Getenv) }

func Hostname() (string, error) {
	switch vsim.Number("hostname", 0, 4) {
	case 1:
		return "localhost", nil
	case 2:
		return "build-7.example.org", nil
	case 3:
		return "", errors.New("no host name")
	}
	return os.Hostname()
}

func Getpid() int { return vsim.Number("pid", os.Getpid(), 1<<22) }

func Getppid() int { return vsim.Number("ppid", os.Getppid(), 1<<22) }

func TempDir() string { return "/tmp" }

func UserHomeDir() (string, error) { return dirOf("HOME", "") }

func UserCacheDir() (string, error) { return dirOf("HOME", "/.cache") }

func UserConfigDir() (string, error) { return dirOf("HOME", "/.config") }

func dirOf(k, sub string) (string, error) {
	if v := Getenv(k); v != "" {
		return v + sub, nil
	}
	return "", errors.New("$" + k + " is not defined")
}

func Getuid() int  { return vsim.Number("uid", os.Getuid(), 2000) }
func Geteuid() int { return vsim.Number("uid", os.Geteuid(), 2000) }
func Getgid() int  { return vsim.Number("gid", os.Getgid(), 2000) }
func Getegid() int { return vsim.Number("gid", os.Getegid(), 2000) }

func Executable() (string, error) {
	switch vsim.Number("executable", 0, 3) {
	case 1:
		return "/usr/local/bin/app", nil
	case 2:
		return "", errors.New("not known")
	}
	return os.Executable()
}
