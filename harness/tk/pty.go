package tk

import (
	"fmt"
	"os"
	"syscall"
	"unsafe"
)

func ioctl(f *os.File, req uintptr, p unsafe.Pointer) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, uintptr(p)); e != 0 {
		return e
	}
	return nil
}

// OnTerminal runs f with standard output on a terminal of that many columns
// and returns how many bytes were written there. It reports false, without
// running f, where no terminal can be made.
func OnTerminal(columns uint16, f func()) (int, bool) {
	master, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return 0, false
	}
	defer master.Close()
	var unlock, n int32
	if ioctl(master, 0x40045431, unsafe.Pointer(&unlock)) != nil || ioctl(master, 0x80045430, unsafe.Pointer(&n)) != nil {
		return 0, false
	}
	slave, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return 0, false
	}
	size := [4]uint16{24, columns}
	if ioctl(slave, 0x5414, unsafe.Pointer(&size)) != nil {
		slave.Close()
		return 0, false
	}
	done := make(chan int)
	go func() {
		buf, total := make([]byte, 4096), 0
		for {
			k, err := master.Read(buf)
			total += k
			if err != nil {
				done <- total
				return
			}
		}
	}()
	old := os.Stdout
	os.Stdout = slave
	func() {
		defer func() {
			os.Stdout = old
			slave.Close()
		}()
		f()
	}()
	return <-done, true
}
