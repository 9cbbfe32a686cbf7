package main

import (
	"encoding/json"
	"errors"
	"strings"
	"time"
)

type namedString string
type namedInt int
type namedFloat float64
type namedBool bool
type stringerT struct{ s string }

func (s stringerT) String() string { return s.s }

type plainStruct struct {
	A string `json:"a"`
	B int    `json:"b"`
}

func sp(s string) *string { return &s }

var (
	nilStr   *string
	nilInt   *int
	nilMap   map[string]interface{}
	nilSlice []interface{}
	nilFunc  func()
	nilChan  chan int
	nilStru  *plainStruct
)

// strings over an alphabet, all of them up to length n.
func stringsOver(alpha []string, n int) []string {
	out := []string{""}
	last := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, p := range last {
			for _, a := range alpha {
				next = append(next, p+a)
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func lists(alpha []J, n int) []L {
	out := []L{{}}
	last := []L{{}}
	for i := 0; i < n; i++ {
		var next []L
		for _, p := range last {
			for _, a := range alpha {
				l := append(append(L{}, p...), a)
				next = append(next, l)
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func repeat(s string, n int) string { return strings.Repeat(s, n) }

// values that are no strings, numbers, booleans, null, slices or objects as
// far as any constraint is concerned, and some of each of those.
func notStrings() []J {
	return []J{nil, true, false, 0, 1, int8(1), uint(3), 1.5, float32(2), L{}, L{"a"}, []string{"a"}, []byte("a"), []rune("a"), M{}, M{"a": "a"},
		plainStruct{A: "a"}, &plainStruct{}, stringerT{"a"}, errors.New("a"), nilStr, nilInt, nilMap, nilSlice, nilFunc, nilChan, new(int), [1]string{"a"}, 'a', complex(1, 2), struct{}{}, time.Time{}}
}

func notNumbers() []J {
	return []J{nil, true, false, "", "1", "a", L{}, L{1.0}, []int{1}, M{}, M{"a": 1}, plainStruct{B: 1}, &plainStruct{}, stringerT{"1"}, nilStr, nilInt, nilMap, nilSlice, nilFunc, nilChan, [1]int{1}, complex(1, 0), struct{}{}, json.Number("1"), namedString("1")}
}

func notSlices() []J {
	return []J{nil, true, 0, 1.5, "", "abc", M{}, M{"0": "a"}, plainStruct{}, &plainStruct{}, [0]int{}, [2]int{1, 2}, [1]interface{}{"a"}, nilStr, nilMap, nilFunc, nilChan, map[int]string{0: "a"}, struct{}{}}
}

func notObjects() []J {
	return []J{nil, true, 0, 1.5, "", "abc", L{}, L{M{}}, []string{"a"}, [1]int{1}, nilStr, nilInt, nilSlice, nilFunc, nilChan, nilStru, map[int]string{1: "a"}, map[bool]int{true: 1}, map[interface{}]int{1: 1}, sp("a"), new(int)}
}

func toJ(ss []string) []J {
	out := make([]J, len(ss))
	for i, s := range ss {
		out[i] = s
	}
	return out
}
