package user

import (
	"strconv"

	os "github.com/grayscale-lang/grayscale/simrt/os"
)

type User struct{ Uid, Gid, Username, Name, HomeDir string }

func Current() (*User, error) {
	h, err := os.UserHomeDir()
	if err != nil {
		return nil, err
	}
	u := strconv.Itoa(os.Getuid())
	return &User{u, u, "user", "user", h}, nil
}
