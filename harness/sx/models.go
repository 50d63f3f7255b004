package sx

import (
	"errors"
	"io"
	"strconv"
)

// Models of standard library functions that rely on reflection. In the
// executor a function Model_p_N replaces p.N.

type errorString struct {
	s string
	w []error
}

func (e *errorString) Error() string { return e.s }

func (e *errorString) Unwrap() error {
	if len(e.w) > 0 {
		return e.w[0]
	}
	return nil
}

func text(v any) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case string:
		return x
	case error:
		return x.Error()
	case interface{ String() string }:
		return x.String()
	case int:
		return strconv.Itoa(x)
	case bool:
		return strconv.FormatBool(x)
	case []byte:
		return string(x)
	case float64:
		return strconv.FormatFloat(x, 'g', -1, 64)
	}
	k, n, s := kindOf(v)
	switch k {
	case 1:
		return strconv.Itoa(n)
	case 2:
		return s
	}
	return typeName(v)
}

func pad(s string, width int, minus, zero bool) string {
	for len(s) < width {
		switch {
		case minus:
			s += " "
		case zero:
			s = "0" + s
		default:
			s = " " + s
		}
	}
	return s
}

// Model_fmt_Sprintf models fmt.Sprintf for the verbs s v d q c t x o T.
func Model_fmt_Sprintf(format string, a ...any) string {
	out := ""
	n := 0
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			j := i
			for j < len(format) && format[j] != '%' {
				j++
			}
			out += format[i:j]
			i = j - 1
			continue
		}
		i++
		minus, zero, width := false, false, 0
		for i < len(format) && (format[i] == '-' || format[i] == '0' || format[i] == '+' || format[i] == '#') {
			if format[i] == '-' {
				minus = true
			}
			if format[i] == '0' {
				zero = true
			}
			i++
		}
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			width = width*10 + int(format[i]-'0')
			i++
		}
		if i >= len(format) {
			return out + "%!(NOVERB)"
		}
		if format[i] == '%' {
			out += "%"
			continue
		}
		if n >= len(a) {
			out += "%!" + string(rune(format[i])) + "(MISSING)"
			continue
		}
		v := a[n]
		n++
		s := ""
		switch format[i] {
		case 's', 'v', 'd', 't', 'w', 'p', 'g', 'f':
			s = text(v)
		case 'q':
			s = strconv.Quote(text(v))
		case 'c':
			_, k, _ := kindOf(v)
			s = string(rune(k))
		case 'T':
			s = typeName(v)
		case 'x', 'o', 'b', 'X':
			k, m, t := kindOf(v)
			if k != 1 {
				const hexd = "0123456789abcdef"
				if b, ok := v.([]byte); ok {
					t = string(b)
				}
				for j := 0; j < len(t); j++ {
					s += string(hexd[t[j]>>4]) + string(hexd[t[j]&15])
				}
				break
			}
			base := 16
			if format[i] == 'o' {
				base = 8
			}
			if format[i] == 'b' {
				base = 2
			}
			s = strconv.FormatInt(int64(m), base)
		default:
			s = "%!" + string(rune(format[i]))
		}
		out += pad(s, width, minus, zero)
	}
	return out
}

func Model_fmt_Errorf(format string, a ...any) error {
	e := &errorString{s: Model_fmt_Sprintf(format, a...)}
	n := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' {
			i++
			if format[i] == '%' {
				continue
			}
			if format[i] == 'w' && n < len(a) {
				if err, ok := a[n].(error); ok {
					e.w = append(e.w, err)
				}
			}
			n++
		}
	}
	return e
}

func Model_fmt_Sprint(a ...any) string {
	out := ""
	prev := true
	for i, v := range a {
		_, s := v.(string)
		if i > 0 && !s && !prev {
			out += " "
		}
		prev = s
		out += text(v)
	}
	return out
}

func Model_fmt_Sprintln(a ...any) string {
	out := ""
	for i, v := range a {
		if i > 0 {
			out += " "
		}
		out += text(v)
	}
	return out + "\n"
}

func Model_fmt_Fprintf(w io.Writer, format string, a ...any) (int, error) {
	return io.WriteString(w, Model_fmt_Sprintf(format, a...))
}

func Model_fmt_Fprint(w io.Writer, a ...any) (int, error) {
	return io.WriteString(w, Model_fmt_Sprint(a...))
}

func Model_fmt_Fprintln(w io.Writer, a ...any) (int, error) {
	return io.WriteString(w, Model_fmt_Sprintln(a...))
}

func Model_fmt_Printf(format string, a ...any) (int, error) {
	Log("stdout: " + Model_fmt_Sprintf(format, a...))
	return 0, nil
}

func Model_fmt_Println(a ...any) (int, error) {
	Log("stdout: " + Model_fmt_Sprintln(a...))
	return 0, nil
}

func Model_fmt_Print(a ...any) (int, error) {
	Log("stdout: " + Model_fmt_Sprint(a...))
	return 0, nil
}

func Model_errors_New(s string) error { return &errorString{s: s} }

func Model_errors_Is(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if Model_errors_Is(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return target == nil
}

func Model_sort_Slice(x any, less func(i, j int) bool) {
	n := lenAny(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swapAny(x, j, j-1)
		}
	}
}

func Model_sort_SliceStable(x any, less func(i, j int) bool) { Model_sort_Slice(x, less) }

var seed int

func Model_math_rand_Seed(int64) {}

var _ = errors.New
