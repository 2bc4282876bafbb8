package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"reflect"
)

var fs = token.NewFileSet()

func conv(v reflect.Value) interface{} {
	if !v.IsValid() {
		return nil
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return conv(v.Elem())
	case reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		if n, ok := v.Interface().(ast.Node); ok {
			m := map[string]interface{}{"_": reflect.TypeOf(n).Elem().Name(), "line": fs.Position(n.Pos()).Line}
			s := v.Elem()
			for i := 0; i < s.NumField(); i++ {
				f := s.Type().Field(i)
				switch f.Name {
				case "Obj", "Scope", "Unresolved", "Comments", "Doc", "Comment", "Package":
					continue
				}
				if f.Type == reflect.TypeOf(token.Pos(0)) {
					if f.Name == "Ellipsis" && s.Field(i).Int() != 0 {
						m[f.Name] = true
					}
					continue
				}
				if x := conv(s.Field(i)); x != nil {
					m[f.Name] = x
				}
			}
			return m
		}
		return nil
	case reflect.Slice:
		out := []interface{}{}
		for i := 0; i < v.Len(); i++ {
			out = append(out, conv(v.Index(i)))
		}
		return out
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return v.Bool()
	case reflect.Int:
		if t, ok := v.Interface().(token.Token); ok {
			return t.String()
		}
		return v.Int()
	}
	return nil
}

func main() {
	out := []interface{}{}
	for _, p := range os.Args[1:] {
		f, err := parser.ParseFile(fs, p, nil, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		out = append(out, conv(reflect.ValueOf(f)))
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
