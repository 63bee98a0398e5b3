package main

// Code generated by tools/gen_hidden.py. DO NOT EDIT.

func newInt(n int) *int { return &n }

type (
	HidEEEE struct {
		F0 int8
		F1 string
		F2 []string
		F3 *int
	}
	HidEEED struct {
		F0 int8
		F1 string
		F2 []string
		F3 complex128 `json:"-"`
	}
	HidEEEU struct {
		F0 int8
		F1 string
		F2 []string
		f3 *int
	}
	HidEEDE struct {
		F0 int8
		F1 string
		F2 error `json:"-"`
		F3 *int
	}
	HidEEDD struct {
		F0 int8
		F1 string
		F2 []string `json:"-"`
		F3 *int     `json:"-"`
	}
	HidEEDU struct {
		F0 int8
		F1 string
		F2 struct{ F float32 } `json:"-"`
		f3 chan int
	}
	HidEEUE struct {
		F0 int8
		F1 string
		f2 []string
		F3 *int
	}
	HidEEUD struct {
		F0 int8
		F1 string
		f2 func()
		F3 float64 `json:"-"`
	}
	HidEEUU struct {
		F0 int8
		F1 string
		f2 []string
		f3 *int
	}
	HidEDEE struct {
		F0 int8
		F1 float64 `json:"-"`
		F2 []string
		F3 *int
	}
	HidEDED struct {
		F0 int8
		F1 string `json:"-"`
		F2 []string
		F3 *int `json:"-"`
	}
	HidEDEU struct {
		F0 int8
		F1 complex128 `json:"-"`
		F2 []string
		f3 [][]string
	}
	HidEDDE struct {
		F0 int8
		F1 string   `json:"-"`
		F2 []string `json:"-"`
		F3 *int
	}
	HidEDDD struct {
		F0 int8
		F1 [][]string          `json:"-"`
		F2 struct{ F float32 } `json:"-"`
		F3 chan int            `json:"-"`
	}
	HidEDDU struct {
		F0 int8
		F1 string   `json:"-"`
		F2 []string `json:"-"`
		f3 *int
	}
	HidEDUE struct {
		F0 int8
		F1 chan int `json:"-"`
		f2 func()
		F3 *int
	}
	HidEDUD struct {
		F0 int8
		F1 string `json:"-"`
		f2 []string
		F3 *int `json:"-"`
	}
	HidEDUU struct {
		F0 int8
		F1 float64 `json:"-"`
		f2 map[int]int
		f3 complex128
	}
	HidEUEE struct {
		F0 int8
		f1 string
		F2 []string
		F3 *int
	}
	HidEUED struct {
		F0 int8
		f1 complex128
		F2 []string
		F3 [][]string `json:"-"`
	}
	HidEUEU struct {
		F0 int8
		f1 string
		F2 []string
		f3 *int
	}
	HidEUDE struct {
		F0 int8
		f1 [][]string
		F2 struct{ F float32 } `json:"-"`
		F3 *int
	}
	HidEUDD struct {
		F0 int8
		f1 string
		F2 []string `json:"-"`
		F3 *int     `json:"-"`
	}
	HidEUDU struct {
		F0 int8
		f1 chan int
		F2 func() `json:"-"`
		f3 float64
	}
	HidEUUE struct {
		F0 int8
		f1 string
		f2 []string
		F3 *int
	}
	HidEUUD struct {
		F0 int8
		f1 float64
		f2 map[int]int
		F3 complex128 `json:"-"`
	}
	HidEUUU struct {
		F0 int8
		f1 string
		f2 []string
		f3 *int
	}
	HidDEEE struct {
		F0 map[int]int `json:"-"`
		F1 string
		F2 []string
		F3 *int
	}
	HidDEED struct {
		F0 int8 `json:"-"`
		F1 string
		F2 []string
		F3 *int `json:"-"`
	}
	HidDEEU struct {
		F0 error `json:"-"`
		F1 string
		F2 []string
		f3 chan int
	}
	HidDEDE struct {
		F0 int8 `json:"-"`
		F1 string
		F2 []string `json:"-"`
		F3 *int
	}
	HidDEDD struct {
		F0 struct{ F float32 } `json:"-"`
		F1 string
		F2 func()  `json:"-"`
		F3 float64 `json:"-"`
	}
	HidDEDU struct {
		F0 int8 `json:"-"`
		F1 string
		F2 []string `json:"-"`
		f3 *int
	}
	HidDEUE struct {
		F0 func() `json:"-"`
		F1 string
		f2 map[int]int
		F3 *int
	}
	HidDEUD struct {
		F0 int8 `json:"-"`
		F1 string
		f2 []string
		F3 *int `json:"-"`
	}
	HidDEUU struct {
		F0 map[int]int `json:"-"`
		F1 string
		f2 error
		f3 [][]string
	}
	HidDDEE struct {
		F0 int8   `json:"-"`
		F1 string `json:"-"`
		F2 []string
		F3 *int
	}
	HidDDED struct {
		F0 error      `json:"-"`
		F1 [][]string `json:"-"`
		F2 []string
		F3 chan int `json:"-"`
	}
	HidDDEU struct {
		F0 int8   `json:"-"`
		F1 string `json:"-"`
		F2 []string
		f3 *int
	}
	HidDDDE struct {
		F0 struct{ F float32 } `json:"-"`
		F1 chan int            `json:"-"`
		F2 func()              `json:"-"`
		F3 *int
	}
	HidDDDD struct {
		F0 int8     `json:"-"`
		F1 string   `json:"-"`
		F2 []string `json:"-"`
		F3 *int     `json:"-"`
	}
	HidDDDU struct {
		F0 func()      `json:"-"`
		F1 float64     `json:"-"`
		F2 map[int]int `json:"-"`
		f3 complex128
	}
	HidDDUE struct {
		F0 int8   `json:"-"`
		F1 string `json:"-"`
		f2 []string
		F3 *int
	}
	HidDDUD struct {
		F0 map[int]int `json:"-"`
		F1 complex128  `json:"-"`
		f2 error
		F3 [][]string `json:"-"`
	}
	HidDDUU struct {
		F0 int8   `json:"-"`
		F1 string `json:"-"`
		f2 []string
		f3 *int
	}
	HidDUEE struct {
		F0 error `json:"-"`
		f1 [][]string
		F2 []string
		F3 *int
	}
	HidDUED struct {
		F0 int8 `json:"-"`
		f1 string
		F2 []string
		F3 *int `json:"-"`
	}
	HidDUEU struct {
		F0 struct{ F float32 } `json:"-"`
		f1 chan int
		F2 []string
		f3 float64
	}
	HidDUDE struct {
		F0 int8 `json:"-"`
		f1 string
		F2 []string `json:"-"`
		F3 *int
	}
	HidDUDD struct {
		F0 func() `json:"-"`
		f1 float64
		F2 map[int]int `json:"-"`
		F3 complex128  `json:"-"`
	}
	HidDUDU struct {
		F0 int8 `json:"-"`
		f1 string
		F2 []string `json:"-"`
		f3 *int
	}
	HidDUUE struct {
		F0 map[int]int `json:"-"`
		f1 complex128
		f2 error
		F3 *int
	}
	HidDUUD struct {
		F0 int8 `json:"-"`
		f1 string
		f2 []string
		F3 *int `json:"-"`
	}
	HidDUUU struct {
		F0 error `json:"-"`
		f1 [][]string
		f2 struct{ F float32 }
		f3 chan int
	}
	HidUEEE struct {
		f0 int8
		F1 string
		F2 []string
		F3 *int
	}
	HidUEED struct {
		f0 struct{ F float32 }
		F1 string
		F2 []string
		F3 float64 `json:"-"`
	}
	HidUEEU struct {
		f0 int8
		F1 string
		F2 []string
		f3 *int
	}
	HidUEDE struct {
		f0 func()
		F1 string
		F2 map[int]int `json:"-"`
		F3 *int
	}
	HidUEDD struct {
		f0 int8
		F1 string
		F2 []string `json:"-"`
		F3 *int     `json:"-"`
	}
	HidUEDU struct {
		f0 map[int]int
		F1 string
		F2 error `json:"-"`
		f3 [][]string
	}
	HidUEUE struct {
		f0 int8
		F1 string
		f2 []string
		F3 *int
	}
	HidUEUD struct {
		f0 error
		F1 string
		f2 struct{ F float32 }
		F3 chan int `json:"-"`
	}
	HidUEUU struct {
		f0 int8
		F1 string
		f2 []string
		f3 *int
	}
	HidUDEE struct {
		f0 struct{ F float32 }
		F1 chan int `json:"-"`
		F2 []string
		F3 *int
	}
	HidUDED struct {
		f0 int8
		F1 string `json:"-"`
		F2 []string
		F3 *int `json:"-"`
	}
	HidUDEU struct {
		f0 func()
		F1 float64 `json:"-"`
		F2 []string
		f3 complex128
	}
	HidUDDE struct {
		f0 int8
		F1 string   `json:"-"`
		F2 []string `json:"-"`
		F3 *int
	}
	HidUDDD struct {
		f0 map[int]int
		F1 complex128 `json:"-"`
		F2 error      `json:"-"`
		F3 [][]string `json:"-"`
	}
	HidUDDU struct {
		f0 int8
		F1 string   `json:"-"`
		F2 []string `json:"-"`
		f3 *int
	}
	HidUDUE struct {
		f0 error
		F1 [][]string `json:"-"`
		f2 struct{ F float32 }
		F3 *int
	}
	HidUDUD struct {
		f0 int8
		F1 string `json:"-"`
		f2 []string
		F3 *int `json:"-"`
	}
	HidUDUU struct {
		f0 struct{ F float32 }
		F1 chan int `json:"-"`
		f2 func()
		f3 float64
	}
	HidUUEE struct {
		f0 int8
		f1 string
		F2 []string
		F3 *int
	}
	HidUUED struct {
		f0 func()
		f1 float64
		F2 []string
		F3 complex128 `json:"-"`
	}
	HidUUEU struct {
		f0 int8
		f1 string
		F2 []string
		f3 *int
	}
	HidUUDE struct {
		f0 map[int]int
		f1 complex128
		F2 error `json:"-"`
		F3 *int
	}
	HidUUDD struct {
		f0 int8
		f1 string
		F2 []string `json:"-"`
		F3 *int     `json:"-"`
	}
	HidUUDU struct {
		f0 error
		f1 [][]string
		F2 struct{ F float32 } `json:"-"`
		f3 chan int
	}
	HidUUUE struct {
		f0 int8
		f1 string
		f2 []string
		F3 *int
	}
	HidUUUD struct {
		f0 struct{ F float32 }
		f1 chan int
		f2 func()
		F3 float64 `json:"-"`
	}
	HidUUUU struct {
		f0 int8
		f1 string
		f2 []string
		f3 *int
	}
)

var hiddenTypes = []interface{}{HidEEEE{}, HidEEED{}, HidEEEU{}, HidEEDE{}, HidEEDD{}, HidEEDU{}, HidEEUE{}, HidEEUD{}, HidEEUU{}, HidEDEE{}, HidEDED{}, HidEDEU{}, HidEDDE{}, HidEDDD{}, HidEDDU{}, HidEDUE{}, HidEDUD{}, HidEDUU{}, HidEUEE{}, HidEUED{}, HidEUEU{}, HidEUDE{}, HidEUDD{}, HidEUDU{}, HidEUUE{}, HidEUUD{}, HidEUUU{}, HidDEEE{}, HidDEED{}, HidDEEU{}, HidDEDE{}, HidDEDD{}, HidDEDU{}, HidDEUE{}, HidDEUD{}, HidDEUU{}, HidDDEE{}, HidDDED{}, HidDDEU{}, HidDDDE{}, HidDDDD{}, HidDDDU{}, HidDDUE{}, HidDDUD{}, HidDDUU{}, HidDUEE{}, HidDUED{}, HidDUEU{}, HidDUDE{}, HidDUDD{}, HidDUDU{}, HidDUUE{}, HidDUUD{}, HidDUUU{}, HidUEEE{}, HidUEED{}, HidUEEU{}, HidUEDE{}, HidUEDD{}, HidUEDU{}, HidUEUE{}, HidUEUD{}, HidUEUU{}, HidUDEE{}, HidUDED{}, HidUDEU{}, HidUDDE{}, HidUDDD{}, HidUDDU{}, HidUDUE{}, HidUDUD{}, HidUDUU{}, HidUUEE{}, HidUUED{}, HidUUEU{}, HidUUDE{}, HidUUDD{}, HidUUDU{}, HidUUUE{}, HidUUUD{}, HidUUUU{}}
